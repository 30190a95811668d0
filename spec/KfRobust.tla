------------------------------ MODULE KfRobust ------------------------------
(***************************************************************************)
(* A parser process that is fed arbitrary bytes.  Whatever it is fed, it   *)
(* returns, with a schema that serialises or with an error, and goes on    *)
(* serving.  An input is a text of the base set with edits applied to its  *)
(* bytes, raw bytes, or a text with a part repeated or nested many times.  *)
(***************************************************************************)
EXTENDS KfPool, Json

CONSTANTS Deep,          \* larger bounds
          Stride, Off,   \* take every Stride-th input, beginning with Off
          Shard, Shards  \* of these, the ones this process looks at

Pick(a, b) == IF Deep THEN b ELSE a
Bases == <<Rich[1], Rich[2], Rich[3],
  "database d; @a(b='it\\'s // x', c=1)\naction a($x) public { /* c */ select id from users where id = 'a;b'; $r = e.f($x, not (1 + 2) >= 'q\\\\'); }",
  "database d; use x as e; // c\r\ninit() { with r as (select 1) select * from r; e.f(count(*), @caller); }" >>
Bytes == {0, 9, 10, 13, 26, 27, 32, 34, 35, 36, 39, 40, 41, 42, 44, 47, 58, 59, 61, 64, 92, 96, 123, 125, 127, 128, 191, 192, 195, 226, 237, 240, 254, 255}
FewBytes == {0, 10, 34, 39, 42, 47, 59, 92, 123, 125, 195, 255}
Pieces == {<<239, 187, 191>>, <<237, 160, 128>>, <<240, 159, 152, 128>>, <<194, 160>>, <<226, 128, 168>>, <<47, 42>>, <<42, 47>>, <<47, 47>>, <<92, 39>>,
           <<192, 128>>, <<244, 144, 128, 128>>, <<0, 0, 0, 0>>, <<204, 129>>}

Edit(o, i, j, b) == [op |-> o, i |-> i, j |-> j, b |-> b]
Q(S) == SetToSeq(S)
EditsOf(n) ==
  Q({Edit("cut", i, 0, << >>) : i \in 0..n}) \o Q({Edit("tail", i, 0, << >>) : i \in 1..n}) \o
  Q({Edit("del", i, i + w, << >>) : i \in 0..(n - 1), w \in Pick({1}, {1, 2, 5})}) \o
  Q({Edit("put", i, 0, <<b>>) : i \in 0..n, b \in Pick(FewBytes, Bytes)}) \o
  Q({Edit("put", i, 0, q) : i \in {k \in 0..n : Deep \/ k % 5 = 0}, q \in Pieces}) \o
  Q({Edit("set", i, 0, <<b>>) : i \in 0..(n - 1), b \in Pick(FewBytes, Bytes)}) \o
  Q({Edit("cut+put", i, 0, <<b>>) : i \in 0..n, b \in FewBytes}) \o
  Q({Edit("swap", i, i + w, << >>) : i \in 0..(n - 1), w \in {1, 7}}) \o
  Q({Edit("again", i, i + w, <<k>>) : i \in {k \in 0..n : k % 3 = 0}, w \in {1, 10}, k \in {2, 50}})
EditedBase(b) == LET es == EditsOf(Len(Bases[b])) IN [i \in DOMAIN es |-> [base |-> Bases[b], edits |-> <<es[i]>>]]
Edited == EditedBase(1) \o EditedBase(2) \o EditedBase(3) \o EditedBase(4) \o EditedBase(5)

(* all short byte strings over a few bytes *)
ShortBytes == {0, 39, 47, 42, 123, 59, 97, 195, 255}
Raw == Q({[base |-> "", edits |-> <<Edit("put", 0, 0, q)>>] : q \in UNION {[1..k -> ShortBytes] : k \in 0..Pick(3, 4)}}) \o
       Q({[base |-> DB, edits |-> <<Edit("put", p, 0, q)>>] : p \in {0, 4, 9, 12}, q \in UNION {[1..k -> ShortBytes] : k \in 1..2}})

(* nesting and repetition: pre open^n mid close^n post *)
Nest(pre, o, m, c, post) == [pre |-> pre, open |-> o, mid |-> m, close |-> c, post |-> post]
Act(x) == DB \o "action a($x) { " \o x
Nests == {
  Nest(Act("a("), "(", "1", ")", "); }"), Nest(Act("a("), "(", "1", "", ""), Nest(Act("a("), "((", "1", ")", "); }"),
  Nest(Act("a("), "abs(", "1", ")", "); }"), Nest(Act("a("), "not ", "1", "", "); }"), Nest(Act("a("), "-", "1", "", "); }"),
  Nest(Act("a("), "- ( ", "$x", ")", "); }"), Nest(Act("a("), "1 + ", "1", "", "); }"), Nest(Act("a("), "1 < (", "1", ")", "); }"),
  Nest(Act("a("), "1, ", "1", "", "); }"), Nest(Act(""), "a(1); ", "", "", "}"), Nest(Act(""), "select 1; ", "", "", "}"),
  Nest(Act("a("), "'", "", "", "); }"), Nest(Act("a('"), "\\'", "", "", "'); }"), Nest(Act("a('"), "\\\\", "", "", "'); }"), Nest(Act("a('"), "x", "", "", "'); }"),
  Nest(Act("a("), "1 and not ", "$x", "", "); }"), Nest(Act("$x, $y = e.f("), "lower(", "'", ")", ""), Nest(Act(""), "{", "", "}", ""),
  Nest(Act("a($"), "x", "", "", "); }"), Nest(Act("a("), "1", "", "", "); }"), Nest(Act("select "), "1, ", "1", "", "; }"), Nest(Act("select "), "1 + ", "1", "", "; }"),
  Nest(Act("select "), "- ", "1", "", "; }"), Nest(Act("select "), "/* ", "1", " */", "; }"), Nest(Act("select '"), "''", "", "", "'; }"),
  Nest(Act("select 1 "), "where ", "1", "", "; }"), Nest(Act("select * from t where "), "a = 1 and ", "a = 1", "", "; }"),
  Nest(DB, "table t { a int } ", "", "", ""), Nest(DB \o "table t { ", "a int, ", "b int", "", " }"), Nest(DB \o "table t { a int ", "min(1) ", "", "", "}"),
  Nest(DB \o "table t { a int, #i index(a", ", a", "", "", ") }"), Nest(DB, "table t { ", "a int", " }", ""), Nest(DB, "use e as e; ", "", "", ""),
  Nest(DB \o "use e { ", "a: 1, ", "a: 1", "", " } as e;"), Nest(DB \o "table t { a int, fk (a) ref t (a) ", "on_update cascade ", "", "", "}"),
  Nest(DB, "@a(b=1) ", "", "", "action a() { select 1; }"), Nest(DB \o "@a(", "b='x', ", "b=1", "", ") action a() { select 1; }"),
  Nest(DB, "init() { select 1; } ", "", "", ""), Nest(DB \o "action a() ", "public ", "", "", "{ select 1; }"), Nest(DB \o "action a(", "$x, ", "$y", "", ") { select 1; }"),
  Nest("", "database d; ", "", "", ""), Nest("", " ", "", "", DB), Nest("", "\n", "", "", DB), Nest("// ", "x", "", "", ""), Nest("/*", "*", "", "", ""), Nest("", "/* ", "", " */", DB),
  Nest("database ", "a", "", "", ";"), Nest("", "?", "", "", ""), Nest("", "'", "", "", ""), Nest("", "\\", "", "", ""), Nest(DB, "}", "", "", ""), Nest(DB, "action ", "", "", ""),
  Nest(DB \o "action a() { ", "$x, ", "$y = e.f(); ", "", "}"), Nest(DB \o "action a() { ", "$x = ", "e.f(); ", "", "}"), Nest(DB \o "action a() { e.", "f.", "f(); ", "", "}")}
Depths == Pick({1, 2, 3, 30, 3000}, {1, 2, 3, 5, 17, 100, 1000, 3000, 100000})
Nested == {[nest |-> n, depth |-> k] : n \in Nests, k \in Depths}

(* plain texts of any size *)
Bulks == {Nest("", " ", "", "", DB), Nest("// ", "x", "", "", "\n" \o DB), Nest("/* ", "y ", "", "", " */ " \o DB), Nest(DB, "\n", "", "", "table t { a int }"),
          Nest(DB \o "use e { a: '", "v", "", "", "' } as e;"), Nest("database ", "a", "", "", ";"), Nest(Act("select '"), "z", "", "", "'; }")}
Big == {66000, 132000, 264000, 530000, 1060000, 2120000, 4240000}
Bulky == {[nest |-> n, depth |-> 1 + k \div Len(n.open)] : n \in Bulks, k \in Big}

Varied == TLCEval(Edited \o Raw)
Deeply == TLCEval(SetToSeq(Nested \cup Bulky))
NVar == TLCEval(Len(Varied))
Inputs == TLCEval(Varied \o Deeply)
Mine == TLCEval({i \in DOMAIN Inputs : (i % Stride = Off % Stride \/ i > NVar) /\ (i \div Stride) % Shards = Shard})

(* What may be observed of one call. *)
Outcomes == [returned : BOOLEAN, schema : BOOLEAN, error : BOOLEAN, json : BOOLEAN, serves : BOOLEAN]
Admissible(o) == /\ o.returned                      \* no panic, no end of the process, no hang
                 /\ o.schema # o.error              \* one of the two
                 /\ o.schema => o.json              \* which serialises
                 /\ o.serves                        \* a good source is still compiled as ever

VARIABLES vUp, vFed, vSaid
bvars == <<vUp, vFed, vSaid>>
BInit == vUp = TRUE /\ vFed = 0 /\ vSaid = "nothing"
Feed(i) == vFed = 0 /\ vUp /\ vFed' = i /\ UNCHANGED <<vUp, vSaid>>
Reply == vFed # 0 /\ vSaid = "nothing" /\ \E o \in {x \in Outcomes : Admissible(x)} :
           vSaid' = (IF o.schema THEN "schema" ELSE "error") /\ vUp' = o.serves /\ UNCHANGED vFed
BNext == (\E i \in Mine : Feed(i)) \/ Reply
BSpec == BInit /\ [][BNext]_bvars /\ WF_bvars(Reply)
(* C17 *)
StaysUp == vUp
SaysOne == vSaid \in {"nothing", "schema", "error"}
Replies == [](vFed # 0 => <>(vSaid # "nothing"))
BEmit == (vFed # 0 /\ vSaid = "nothing") => PrintT(ToJson(Inputs[vFed]))
=============================================================================
