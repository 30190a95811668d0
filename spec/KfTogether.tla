----------------------------- MODULE KfTogether -----------------------------
(***************************************************************************)
(* Several runs of the command at the same time, into one output           *)
(* directory: every interleaving of their system calls.  Each process has   *)
(* an input and writes the artifact named after it; two processes may have  *)
(* the same input.  Contents are sequences of blocks: an artifact of input  *)
(* x is <<x, x>>, written from the position where the writer stands.        *)
(***************************************************************************)
EXTENDS KfLex, Json, FiniteSets

CONSTANTS Deep

Procs == IF Deep THEN 1..3 ELSE 1..2
Steps == <<"mkdir", "open input", "open", "write", "write", "close">>
Done == Len(Steps) + 1
InputNames == {"a", "b", "c"}

VARIABLES vIn, vOld, vAt, vPos, vFiles, vDir, vHold
tvars == <<vIn, vOld, vAt, vPos, vFiles, vDir, vHold>>

None == <<"absent">>
TInit == /\ vIn \in [Procs -> InputNames] /\ vIn[1] = "a" /\ vIn[2] \in {"a", "b"}
         /\ vOld \in {"absent", "empty", "older"}
         /\ vHold \in [Procs -> {"", "mkdir", "open input", "open", "write", "close"}]     \* where a process is held up, in the replay
         /\ (Deep => vHold[3] = "")
         /\ vAt = [p \in Procs |-> 1] /\ vPos = [p \in Procs |-> 0] /\ vDir = (vOld # "absent")
         /\ vFiles = [x \in InputNames |-> IF vOld = "older" THEN <<"o", "o", "o">> ELSE None]

Put(f, i, x) == [k \in 1..(IF i > Len(f) THEN i ELSE Len(f)) |-> IF k = i THEN x ELSE f[k]]
Step(p) ==
  /\ vAt[p] < Done /\ vAt' = [vAt EXCEPT ![p] = @ + 1] /\ UNCHANGED <<vIn, vOld, vHold>>
  /\ LET s == Steps[vAt[p]]  x == vIn[p] IN
     CASE s = "mkdir" -> vDir' = TRUE /\ UNCHANGED <<vFiles, vPos>>
       [] s = "open" -> vFiles' = [vFiles EXCEPT ![x] = << >>] /\ vPos' = [vPos EXCEPT ![p] = 1] /\ UNCHANGED vDir
       \* the same blocks at the same places: a hole is never left, for the other process writes the same
       [] s = "write" -> LET f == IF vFiles[x] = None THEN << >> ELSE vFiles[x]
                             g == [k \in 1..(vPos[p] - 1) |-> IF k <= Len(f) THEN f[k] ELSE "hole"] IN
                         vFiles' = [vFiles EXCEPT ![x] = Put(g \o SubSeq(f, vPos[p], Len(f)), vPos[p], x)]
                         /\ vPos' = [vPos EXCEPT ![p] = @ + 1] /\ UNCHANGED vDir
       [] OTHER -> UNCHANGED <<vFiles, vDir, vPos>>
TNext == \E p \in Procs : Step(p)
(* the holding up only orders the replay: the machine is explored without it *)
Free == \A p \in Procs : vHold[p] = ""
TSpec == TInit /\ [][Free /\ TNext]_tvars /\ WF_tvars(Free /\ TNext)

AllOver == \A p \in Procs : vAt[p] = Done
SameInput(p) == \E q \in Procs : q # p /\ vIn[q] = vIn[p]
(* When a process has ended, its artifact is there in full, unless another with the same input is at it. *)
Own == \A p \in Procs : (vAt[p] = Done /\ ~ SameInput(p)) => vFiles[vIn[p]] = <<vIn[p], vIn[p]>>
(* When all have ended, every artifact is the right one; a process that truncates late writes late, too:  *)
(* but one that was truncated between two writes of another has a hole until the last writer is done.     *)
End == AllOver => \A p \in Procs : vFiles[vIn[p]] = <<vIn[p], vIn[p]>>
Others == \A x \in InputNames : (\A p \in Procs : vIn[p] # x) => vFiles[x] = (IF vOld = "older" THEN <<"o", "o", "o">> ELSE None)
Finish == Free ~> AllOver
TEmit == (\A p \in Procs : vAt[p] = 1) => PrintT(ToJson([ins |-> [p \in Procs |-> vIn[p]], old |-> vOld, hold |-> [p \in Procs |-> vHold[p]]]))
=============================================================================
