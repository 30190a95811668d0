----------------------------- MODULE KfSession -----------------------------
(***************************************************************************)
(* Many parses: by several clients of one process, one after the other and *)
(* at the same time, or by the callers of one WebAssembly instance.        *)
(* What the parses share is only the grammar tables, which the first one   *)
(* to come sets up.  Each parse reads its source in several steps on state *)
(* of its own; its answer is a function of its source.                     *)
(***************************************************************************)
EXTENDS KfPool, Json

CONSTANTS Clients,      \* how many work at the same time
          Calls,        \* calls per client
          Source,       \* how many of the sources of the pool are used
          Ways          \* in how many ways they are called

PoolSeq == TLCEval(SetToSeq(Pool(0)))
NSrc == IF Source < Len(PoolSeq) THEN Source ELSE Len(PoolSeq)
Means == TLCEval([i \in 1..Len(PoolSeq) |-> Meaning(PoolSeq[i])])
(* ways of calling: tracing or not, with a listener of one's own or not *)
(* (modes are bits: 1 is set by default, 2 traces), and what the caller does with the result: *)
(* it may overwrite what it was given                                                       *)
WaySeq == << [mode |-> "", via |-> "", own |-> "keep"], [mode |-> "trace", via |-> "", own |-> "keep"],
             [mode |-> "", via |-> "nil", own |-> "scribble"], [mode |-> "trace", via |-> "nil", own |-> "keep"],
             [mode |-> "", via |-> "Parse", own |-> "scribble"], [mode |-> "zero", via |-> "", own |-> "keep"],
             [mode |-> "traceonly", via |-> "nil", own |-> "scribble"], [mode |-> "other", via |-> "", own |-> "keep"],
             [mode |-> "", via |-> "Parse", own |-> "keep"] >>
(* the answer to source i, as observed: accepted, or not and with which kinds of error *)
Scribbled == [ok |-> FALSE, kinds |-> {"scribbled"}]
AnswerTo(i) == [ok |-> Means[i].ok, kinds |-> Means[i].cls]
Bits(mode) == CASE mode = "" -> 1 [] mode = "trace" -> 3 [] mode = "traceonly" -> 2 [] mode = "zero" -> 0 [] mode = "other" -> 5
Prints(w) == (Bits(WaySeq[w].mode) \div 2) % 2 = 1

VARIABLES
  vTables,     \* "none", "being set up", "ready"
  vMaker,      \* who sets them up
  vCl,         \* per client: [st, src, way, seen]   st: idle, waiting, reading, judging
  vHeap,       \* the results handed out; a client may write to those it holds
  vLog         \* per client: what it called, where the result is, and what was printed

svars == <<vTables, vMaker, vCl, vHeap, vLog>>
C == 1..Clients
Idle == [st |-> "idle", src |-> 0, way |-> 0, seen |-> "nothing"]

SInit == vTables = "none" /\ vMaker = 0 /\ vCl = [c \in C |-> Idle] /\ vHeap = << >> /\ vLog = [c \in C |-> << >>]
LastOf(c) == vLog[c][Len(vLog[c])]
ToScribble(c) == vLog[c] # << >> /\ WaySeq[LastOf(c).way].own = "scribble" /\ vHeap[LastOf(c).ref] # Scribbled
Scribble(c) == ToScribble(c) /\ vHeap' = [vHeap EXCEPT ![LastOf(c).ref] = Scribbled]
               /\ UNCHANGED <<vTables, vMaker, vCl, vLog>>
Call(c, i, w) == vCl[c].st = "idle" /\ ~ ToScribble(c) /\ Len(vLog[c]) < Calls
              /\ vCl' = [vCl EXCEPT ![c] = [st |-> "waiting", src |-> i, way |-> w, seen |-> "nothing"]]
              /\ UNCHANGED <<vTables, vMaker, vHeap, vLog>>
Make(c) == vCl[c].st = "waiting" /\ vTables = "none" /\ vTables' = "being set up" /\ vMaker' = c
           /\ UNCHANGED <<vCl, vHeap, vLog>>
Made(c) == vMaker = c /\ vTables = "being set up" /\ vTables' = "ready" /\ UNCHANGED <<vMaker, vCl, vHeap, vLog>>
Read(c) == vCl[c].st = "waiting" /\ vTables = "ready" /\ vCl' = [vCl EXCEPT ![c].st = "reading"]
           /\ UNCHANGED <<vTables, vMaker, vHeap, vLog>>
Judge(c) == vCl[c].st = "reading" /\ vCl' = [vCl EXCEPT ![c].st = "judging", ![c].seen = PoolSeq[vCl[c].src]]
           /\ UNCHANGED <<vTables, vMaker, vHeap, vLog>>
Tell(c) == vCl[c].st = "judging"
           /\ vLog' = [vLog EXCEPT ![c] = Append(@, [src |-> vCl[c].src, way |-> vCl[c].way, ref |-> Len(vHeap) + 1,
                                                     printed |-> Prints(vCl[c].way)])]
           /\ vHeap' = Append(vHeap, AnswerTo(vCl[c].src))      \* a new object
           /\ vCl' = [vCl EXCEPT ![c] = Idle] /\ UNCHANGED <<vTables, vMaker>>
SNext == (\E c \in C : (\E i \in 1..NSrc, w \in 1..Ways : Call(c, i, w)) \/ Make(c) \/ Made(c) \/ Read(c) \/ Judge(c) \/ Tell(c) \/ Scribble(c))
SSpec == SInit /\ [][SNext]_svars /\ \A c \in C : WF_svars(Make(c) \/ Made(c) \/ Read(c) \/ Judge(c) \/ Tell(c) \/ Scribble(c))

(* C19: an answer depends on the source alone, whoever else is at work *)
(* and whatever the holders of other results do with them                       *)
Mine(c, k) == WaySeq[vLog[c][k].way].own = "scribble"
FunctionOfSource == \A c \in C : \A k \in DOMAIN vLog[c] :
  \/ vHeap[vLog[c][k].ref] = AnswerTo(vLog[c][k].src)
  \/ Mine(c, k) /\ vHeap[vLog[c][k].ref] = Scribbled
OnlyReadyTablesAreRead == \A c \in C : vCl[c].st \in {"reading", "judging"} => vTables = "ready"
OwnSource == \A c \in C : vCl[c].st = "judging" => vCl[c].seen = PoolSeq[vCl[c].src]
(* C24: the way of calling changes what is printed, and nothing else *)
WayIsDiagnostic == \A c, d \in C : \A k \in DOMAIN vLog[c], j \in DOMAIN vLog[d] :
   (vLog[c][k].src = vLog[d][j].src /\ ~ Mine(c, k) /\ ~ Mine(d, j)) => vHeap[vLog[c][k].ref] = vHeap[vLog[d][j].ref]
PrintsOnDemand == \A c \in C : \A k \in DOMAIN vLog[c] : vLog[c][k].printed <=> WaySeq[vLog[c][k].way].mode \in {"trace", "traceonly"}
(* and everyone is answered *)
Answered == \A c \in C : []<>(vCl[c].st = "idle")

-----------------------------------------------------------------------------
(* The histories of one client, as call sequences; what each call must answer. *)
AllDone == \A c \in C : Len(vLog[c]) = Calls /\ ~ ToScribble(c)
History == AllDone => PrintT(ToJson([hist |-> [k \in 1..Calls |-> <<vLog[1][k].src, vLog[1][k].way>>]]))
PoolLines == (vTables = "none" /\ \A c \in C : vCl[c] = Idle) => \A i \in DOMAIN PoolSeq :
  PrintT(ToJson([i |-> i, src |-> PoolSeq[i], ok |-> Means[i].ok, fail |-> Means[i].fail, cls |-> SetToSeq(Means[i].cls)]))
(* sources that are nearly the same: a letter in the other case, another digit, another letter, *)
(* a blank more                                                                              *)
LOW == "abcdefghijklmnopqrstuvwxyz"
UPP == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ChAt(x, k) == SubSeq(x, k, k)
Swap(ch, xs, ys) == IF \E k \in 1..Len(xs) : ChAt(xs, k) = ch THEN LET k == CHOOSE k \in 1..Len(xs) : ChAt(xs, k) = ch IN {ChAt(ys, k)} ELSE {}
Other(ch) == Swap(ch, LOW, UPP) \cup Swap(ch, UPP, LOW) \cup Swap(ch, "0123456789", "1234567890")
             \cup Swap(ch, LOW, "bcdefghijklmnopqrstuvwxyza") \cup (IF ch = " " THEN {"  ", "\t", "\n"} ELSE {})
Near(text) == UNION {{SubSeq(text, 1, k - 1) \o y \o SubSeq(text, k + 1, Len(text)) : y \in Other(ChAt(text, k))} : k \in 1..Len(text)}
NearLines == (vTables = "none" /\ \A c \in C : vCl[c] = Idle) =>
  \A i \in DOMAIN PoolSeq : PrintT(ToJson([of |-> i, near |-> SetToSeq(Near(PoolSeq[i]))]))
WayLines == (vTables = "none" /\ \A c \in C : vCl[c] = Idle) => PrintT(ToJson([ways |-> WaySeq]))
=============================================================================
