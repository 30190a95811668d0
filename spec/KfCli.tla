------------------------------- MODULE KfCli -------------------------------
(***************************************************************************)
(* The command line: one run of the command in a small world of files,     *)
(* with everything that can be in the way, a system call that fails, and a  *)
(* process that is killed between two system calls; and what a following   *)
(* run makes of the remains.                                               *)
(*                                                                         *)
(* Contents are sequences of blocks.  The artifact of schema s is <<s, s>>; *)
(* "o" is a block of an older artifact.                                     *)
(***************************************************************************)
EXTENDS KfLex, Json, FiniteSets

CONSTANTS Family      \* "world", "faults", "limits", "names", "flags", "sources", "runs"

(* ------------------------------------------------------------- the world *)
Inputs == {"good", "syntax", "semantic", "empty", "missing", "dir", "unreadable"}
Dirs == {"there", "absent", "deep", "file", "underfile", "readonly", "default", "default there"}
Olds == {"none", "same", "longer", "shorter", "empty", "partial", "garbage", "dir", "readonly", "full"}
Argss == {"one", "none", "two", "bad flag", "no value", "version", "bad value"}
Points == {"mkdir", "open input", "read", "open", "write", "close"}
Hows == {"error", "kill"}
NoFault == <<"", "">>

OldContent(old) == CASE old \in {"none", "dir", "full"} -> << >>
                     [] old \in {"same", "readonly"} -> <<"s", "s">>
                     [] old = "longer" -> <<"o", "o", "o">>  [] old = "shorter" -> <<"o">>
                     [] old = "empty" -> << >>  [] old = "partial" -> <<"s">>  [] OTHER -> <<"x", "x">>
HasDir(d) == d \in {"there", "readonly", "default there"}

(* Stages that cannot do their work in this world, by exit code; and stages that can or cannot, *)
(* depending on how the work is done (writing in place, or replacing the file).                 *)
Failing(w) ==
  (IF w.dir \in {"file", "underfile"} THEN {3} ELSE {}) \cup
  (IF w.inp \in {"missing", "dir", "unreadable"} THEN {4} ELSE {}) \cup
  (IF w.inp \in {"syntax", "semantic", "empty"} THEN {5} ELSE {}) \cup
  (IF w.old = "dir" \/ (w.dir = "readonly" /\ w.old = "none") THEN {7} ELSE {})
Doubtful(w) ==
  IF w.old \in {"readonly", "full"} \/ w.dir = "readonly" THEN {7} ELSE {}
Allowed(w) ==
  CASE w.args \in {"none", "two"} -> {2}
    [] w.args \in {"bad flag", "no value", "bad value"} -> {1}
    [] w.args = "version" -> {0}
    [] OTHER -> IF Failing(w) = {} THEN {0} \cup Doubtful(w) ELSE Failing(w) \cup Doubtful(w)
FaultCode == [x \in Points |-> CASE x = "mkdir" -> 3 [] x \in {"open input", "read"} -> 4 [] OTHER -> 7]

Compiles(w) == w.args = "one"

(* ----------------------------------------------------------- the command *)
VARIABLES vW, vFault, vPc, vCode, vArt, vDirMade, vSaid, vWhy, vOpened, vRun
cvars == <<vW, vFault, vPc, vCode, vArt, vDirMade, vSaid, vWhy, vOpened, vRun>>

World(args, inp, dir, old) == [args |-> args, inp |-> inp, dir |-> dir, old |-> old]
Worlds ==
  CASE Family = "world" ->
         {World("one", i, d, o) : i \in Inputs, d \in Dirs, o \in Olds} \cup
         {World(a, i, d, o) : a \in Argss \ {"one"}, i \in {"good", "missing"}, d \in {"there", "absent", "default there"}, o \in {"none", "longer"}}
    [] Family = "faults" -> {World("one", "good", d, o) : d \in {"there", "absent"}, o \in {"none", "longer", "shorter", "same"}}
    [] Family = "limits" -> {World("one", i, d, o) : i \in {"good", "syntax"}, d \in {"there", "absent", "deep", "default"}, o \in Olds \ {"readonly", "full"}}
    [] OTHER -> {World("one", "good", "there", "none")}
Sensible(w) == (~ HasDir(w.dir)) => w.old = "none"
(* room for so many blocks only: writing goes as far as that *)
(* how much there is to write (declarations beside the usual ones), and how much of it fits when only a part does *)
Bulks == {0, 30, 120, 700}
Parts == {"half", "but one", "one page", "last page", "one", "last block"}
Rooms == [x \in {"0", "1", "2", "3"} |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] OTHER -> 3]
Faults == CASE Family = "faults" -> (Points \X Hows) \cup {NoFault}
            [] Family = "limits" -> {"room"} \X DOMAIN Rooms
            [] OTHER -> {NoFault}
Short == vFault[1] = "room" /\ vRun = 1 /\ Rooms[vFault[2]] < 2

CInit == /\ vW \in {w \in Worlds : Sensible(w)} /\ vFault \in Faults
         /\ vPc = "args" /\ vCode = -1 /\ vArt = OldContent(vW.old) /\ vDirMade = HasDir(vW.dir)
         /\ vSaid = FALSE /\ vWhy = FALSE /\ vOpened = FALSE /\ vRun = 1

Exit(c) == vPc' = "exited" /\ vCode' = c /\ vWhy' = (c \notin {0, -9}) /\ UNCHANGED <<vW, vFault, vArt, vDirMade, vSaid, vOpened, vRun>>
Hit(x, how) == vFault = <<x, how>> /\ vRun = 1
(* a step at which a system call may fail or the process be killed *)
At(x, Work) == IF Hit(x, "kill") THEN Exit(-9) ELSE IF Hit(x, "error") THEN Exit(FaultCode[x]) ELSE Work
To(pc) == vPc' = pc /\ UNCHANGED <<vW, vFault, vCode, vSaid, vWhy, vRun>>

Args == vPc = "args" /\
  CASE vW.args \in {"none", "two"} -> Exit(2)
    [] vW.args \in {"bad flag", "no value", "bad value"} -> Exit(1)
    [] vW.args = "version" -> Exit(0)
    [] OTHER -> To("mkdir") /\ UNCHANGED <<vArt, vDirMade, vOpened>>
MkDir == vPc = "mkdir" /\
  IF vDirMade THEN To("open input") /\ UNCHANGED <<vArt, vDirMade, vOpened>>
  ELSE At("mkdir", IF vW.dir \in {"file", "underfile"} THEN Exit(3)
                   ELSE To("open input") /\ vDirMade' = TRUE /\ UNCHANGED <<vArt, vOpened>>)
OpenIn == vPc = "open input" /\
  At("open input", IF vW.inp \in {"missing", "unreadable"} THEN Exit(4)
                   ELSE To("read") /\ UNCHANGED <<vArt, vDirMade, vOpened>>)
ReadIn == vPc = "read" /\
  At("read", IF vW.inp = "dir" THEN Exit(4) ELSE To("compile") /\ UNCHANGED <<vArt, vDirMade, vOpened>>)
Compile == vPc = "compile" /\
  IF vW.inp \in {"syntax", "semantic", "empty"} THEN Exit(5) ELSE To("open") /\ UNCHANGED <<vArt, vDirMade, vOpened>>
Open == vPc = "open" /\
  At("open", IF vW.old \in {"dir", "readonly"} \/ (vW.dir = "readonly" /\ vW.old = "none") THEN Exit(7)
             ELSE To("write") /\ vArt' = << >> /\ vOpened' = TRUE /\ UNCHANGED vDirMade)
Write == vPc = "write" /\
  \/ At("write", IF vW.old = "full" THEN Exit(7)
                 ELSE IF Short
                 THEN vPc' = "exited" /\ vCode' = 7 /\ vWhy' = TRUE /\ vArt' = SubSeq(<<"s", "s">>, 1, Rooms[vFault[2]])
                      /\ UNCHANGED <<vW, vFault, vDirMade, vSaid, vOpened, vRun>>
                 ELSE \/ To("close") /\ vArt' = <<"s", "s">> /\ UNCHANGED <<vDirMade, vOpened>>
                      \* a part of it reached the file when the process died
                      \/ vFault[2] = "kill" /\ vFault[1] = "close" /\ vRun = 1 /\ vPc' = "exited" /\ vCode' = -9 /\ vArt' = <<"s">>
                         /\ UNCHANGED <<vW, vFault, vDirMade, vSaid, vWhy, vOpened, vRun>>)
Close == vPc = "close" /\ At("close", To("say") /\ UNCHANGED <<vArt, vDirMade, vOpened>>)
Say == vPc = "say" /\ vSaid' = TRUE /\ vPc' = "exited" /\ vCode' = 0 /\ UNCHANGED <<vW, vFault, vArt, vDirMade, vWhy, vOpened, vRun>>
(* run again on what is left, without faults *)
Again == /\ vPc = "exited" /\ vRun = 1 /\ Family \in {"faults", "limits"} /\ vFault # NoFault
         /\ vRun' = 2 /\ vPc' = "args" /\ vCode' = -1 /\ vSaid' = FALSE /\ vWhy' = FALSE /\ vOpened' = FALSE
         /\ vW' = [vW EXCEPT !.dir = IF vDirMade THEN "there" ELSE vW.dir]
         /\ UNCHANGED <<vFault, vArt, vDirMade>>
CNext == Args \/ MkDir \/ OpenIn \/ ReadIn \/ Compile \/ Open \/ Write \/ Close \/ Say \/ Again
CSpec == CInit /\ [][CNext]_cvars

Ended == vPc = "exited"
(* C22 *)
Artifact == (Ended /\ vCode = 0 /\ Compiles(vW)) => vArt = <<"s", "s">> /\ vDirMade
(* C23 *)
Codes == Ended => vCode \in Allowed(vW) \/ (vRun = 1 /\ vFault[2] = "error" /\ vCode = FaultCode[vFault[1]])
                  \/ (vRun = 1 /\ vFault[2] = "kill" /\ vCode = -9)
                  \/ (Short /\ vCode = 7)
NoDamage == (Ended /\ vRun = 1 /\ vCode # 0 /\ ~ vOpened) => vArt = OldContent(vW.old)
SaysSo == Ended => (vSaid <=> (vCode = 0 /\ Compiles(vW)))
GivesReason == (Ended /\ vCode # -9 /\ vW.args # "version") => (vWhy <=> ~ vSaid)
Recovers == (Ended /\ vRun = 2) => IF vW.inp = "good" /\ vW.old # "dir" THEN vCode = 0 ELSE vCode \in Allowed(vW)
(* a compile that did not fit is not called a success *)
Fits == (Ended /\ vRun = 1 /\ vFault[1] = "room" /\ vCode = 0) => Rooms[vFault[2]] >= Len(vArt)

CEmit == (Ended /\ vRun = 1) => PrintT(ToJson([w |-> vW, fault |-> vFault, allowed |-> Allowed(vW), compiles |-> Compiles(vW),
   \* when a system call fails, and did fail, this is the only code
   bulks |-> Bulks, parts |-> IF Short /\ vArt # << >> THEN Parts ELSE {"half"},
   fcode |-> IF vFault = NoFault THEN 0 ELSE IF vFault[1] = "room" THEN vCode ELSE FaultCode[vFault[1]]]))

-----------------------------------------------------------------------------
(* The name of the artifact: the last part of the path, the extension replaced. *)
Base(p) == SubSeq(p, SelectLastInSeq(Chars(p), LAMBDA c : c = "/") + 1, Len(p))
OutName(p) == LET b == Base(p)  i == SelectLastInSeq(Chars(b), LAMBDA c : c = ".") IN
              (IF i = 0 THEN b ELSE SubSeq(b, 1, i - 1)) \o ".json"
JoinAll(q) == FoldLeft(LAMBDA x, y : x \o y, "", q)
NamePool0 == {"a.kf", "a", "a.b.kf", ".kf", "a.", "..kf", "a b.kf", "é.kf", "sub/x.kf", "sub.d/x", "./a.kf", "a.json", "a.kf.kf", "-dash.kf",
             "sub/../a.kf", "sub//y.kf", "A.KF", "a.json.kf", "out/z.kf", "out", "sub.d/.x", "a%20b.kf", "build.kf", "x.tar.gz", "$HOME.kf", "*.kf", "a..kf", "_.kf"} \cup
  \* every name of one, two, or three pieces, with every extension
  {JoinAll(q) \o x : q \in UNION {[1..k -> {"a", " ", ".", "-", "B", "_", "json"}] : k \in 1..2} \cup {<<a, b, a>> : a \in {"x", " ", "."}, b \in {" ", ".", "json"}}, x \in {".kf", " ", ".json", ".KF", ". kf", ""}} \cup
  {JoinAll([i \in 1..k |-> "n"]) \o x : k \in {15, 31, 63, 64, 100, 127, 128, 200, 247}, x \in {".kf", ".q", ""}}

NamePool == {p \in NamePool0 : p \notin {"", ".", "..", "..."}}
OutFlags == {<<"-o", "out">>, <<"-oout">>, <<"-o=out">>, <<"--output", "out">>, <<"--output=out">>, <<"--output", "out/deep/er">>, <<"-o", "./out/">>,
             <<"-o", "out/../out2">>, << >>, <<"--output=o u t">>, <<"-o", "x", "-o", "out">>}
OutDirOf(f) == CASE f = << >> -> "build" [] f = <<"--output", "out/deep/er">> -> "out/deep/er" [] f = <<"-o", "./out/">> -> "out"
                 [] f = <<"-o", "out/../out2">> -> "out2" [] f = <<"--output=o u t">> -> "o u t" [] OTHER -> "out"
(* trace flags, and whether they turn tracing on *)
TraceFlags == {<< <<"-t">>, TRUE>>, << <<"--trace">>, TRUE>>, << <<"--trace=true">>, TRUE>>, << <<"-t=true">>, TRUE>>, << <<"--trace=1">>, TRUE>>,
               << <<"--trace=false">>, FALSE>>, << <<"-t=false">>, FALSE>>, << << >>, FALSE>>,
               << <<"--trace=false", "-t">>, TRUE>>, << <<"-t", "--trace=0">>, FALSE>>}
Dashed(p) == IF SubSeq(p, 1, 1) = "-" THEN <<"--", p>> ELSE <<p>>
NameCases == IF Family = "names" THEN
  {[argv |-> f \o Dashed(p), file |-> p, out |-> OutDirOf(f) \o "/" \o OutName(p), traced |-> FALSE] : p \in NamePool, f \in {<<"-o", "out">>, << >>, <<"--output", "out/deep/er">>}} \cup
  {[argv |-> f \o <<"a.kf">>, file |-> "a.kf", out |-> OutDirOf(f) \o "/a.json", traced |-> FALSE] : f \in OutFlags} \cup
  {[argv |-> <<"a.kf">> \o f, file |-> "a.kf", out |-> OutDirOf(f) \o "/a.json", traced |-> FALSE] : f \in OutFlags}
  ELSE IF Family = "flags" THEN
  {[argv |-> t[1] \o f \o <<"a.kf">>, file |-> "a.kf", out |-> OutDirOf(f) \o "/a.json", traced |-> t[2]] : t \in TraceFlags, f \in OutFlags} \cup
  {[argv |-> f \o <<"a.kf">> \o t[1], file |-> "a.kf", out |-> OutDirOf(f) \o "/a.json", traced |-> t[2]] : t \in TraceFlags, f \in {<< >>, <<"-o", "out">>}} \cup
  {[argv |-> <<"-to", "out", "a.kf">>, file |-> "a.kf", out |-> "out/a.json", traced |-> TRUE],
   [argv |-> <<"-toout", "a.kf">>, file |-> "a.kf", out |-> "out/a.json", traced |-> TRUE]}
  ELSE {}
(* a case where the artifact would be the input itself says nothing *)
NameOk(c) == c.out # c.file

(* ------------------------------------------------------ what the input holds *)
(* Whatever the bytes of the input are, the verdict and the artifact are those of these bytes. *)
SrcKinds == {"crlf", "cr", "bom", "bom inside", "latin1", "broken utf8", "wide", "nul", "sub", "no newline", "many newlines", "crlf in sql", "cr in sql", "tail comment",
             "blank head", "form feed", "bad at end", "only blanks", "shebang", "utf16"}
SrcSizes == {1, 511, 512, 513, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 131072, 300000, 1100000}
Fillers == {"comment lines", "one comment", "blanks", "columns", "literal", "sql literal", "statements"}
SrcCases == IF Family = "sources" THEN
  {[kind |-> k, size |-> 0, old |-> o] : k \in SrcKinds, o \in {"none", "longer"}} \cup
  {[kind |-> f, size |-> n, old |-> IF n % 2 = 0 THEN "none" ELSE "longer"] : f \in {"comment lines", "one comment", "blanks", "literal"}, n \in SrcSizes} \cup
  {[kind |-> f, size |-> n, old |-> "same but one"] : f \in Fillers, n \in {x \in SrcSizes : x < 40000}} \cup
  {[kind |-> "good", size |-> 0, old |-> o] : o \in {"plus one", "minus one", "pretty", "same but one", "newline", "future", "past", "linked", "upper"}}
  ELSE {}
(* ------------------------------------------------------ several runs in a row *)
(* What the file "a" and "b" hold before each run; the artifacts afterwards. *)
RunOps == {<<"a", "short">>, <<"a", "long">>, <<"a", "bad">>, <<"b", "short">>, <<"b", "long">>}
RECURSIVE After(_, _)
After(q, arts) == IF q = << >> THEN << >>
  ELSE LET r == q[1]  arts2 == IF r[2] = "bad" THEN arts ELSE [arts EXCEPT ![r[1]] = r[2]] IN
       <<[file |-> r[1], holds |-> r[2], code |-> IF r[2] = "bad" THEN 5 ELSE 0, arts |-> arts2]>> \o After(Tail(q), arts2)
RunCases == IF Family = "runs" THEN {After(q, [a |-> "", b |-> ""]) : q \in UNION {[1..k -> RunOps] : k \in 2..3}} ELSE {}
EmitCases == (vPc = "args" /\ vRun = 1) =>
  /\ \A c \in NameCases : NameOk(c) => PrintT(ToJson([name |-> c]))
  /\ \A q \in SrcCases : PrintT(ToJson([holds |-> q]))
  /\ \A q \in RunCases : PrintT(ToJson([runs |-> q]))
=============================================================================
