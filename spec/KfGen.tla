------------------------------- MODULE KfGen -------------------------------
(***************************************************************************)
(* The source texts that are explored, one family per property.  Deep      *)
(* selects the larger bounds.  Families are plain strings: the              *)
(* specification reads them with its own lexer and parser.                  *)
(***************************************************************************)
EXTENDS KfCompile, KfPool, Json

CONSTANTS Family,        \* which family is explored
          Deep,          \* larger bounds
          Stride, Off,   \* take every Stride-th member, beginning with Off
          Shard, Shards  \* of these, the ones this process looks at

Join(q, sep) == IF q = << >> THEN ""
                ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, q[1], SubSeq(q, 2, Len(q)))
UpTo(S, k) == UNION {[1..j -> S] : j \in 0..k}
Some(S, k) == UNION {[1..j -> S] : j \in 1..k}
Perms(S) == SetToSeqs(S)
Pick(a, b) == IF Deep THEN b ELSE a
(* t[1], t[2], ... put into the holes of the text pieces h[1] _ h[2] _ h[3] ... *)
Fill(h, t) == FoldLeftDomain(LAMBDA acc, i : acc \o t[i] \o h[i + 1], h[1], t)
With(h, S) == {Fill(h, t) : t \in S}

(* TLC computes parameterless constants before it starts, whether used or not: the families *)
(* have a dummy parameter.                                                                 *)

Sizes == {4, 9, 17, 33, 64, 65, 100, 129}
Rep(x, k) == FoldLeft(LAMBDA acc, i : acc \o x, "", [i \in 1..k |-> i])
Cols(k) == [i \in 1..k |-> "c" \o ToString(i)]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]

(* literals as written *)
Numbers == {"0", "1", "00", "007", "42", "9223372036854775807", "99999999999999999999999999"}
Strings == {"''", "'a'", "'a b'", "'  '", "'it\\'s'", "'\\\\'", "'\\\\\\''", "'\\n'", "'a\tb'", "'\"q\"'",
            "'/* c */'", "'// c'", "'a;b'", "'a,b'", "'(a)'", "'{a}'", "'a=1'", "'a=1,b=\\'2\\''", "'$x @y #z'",
            "'null'", "'1'", "'select 1;'", "'not'", "'%s %d'", "'<a & b>'", "'zz9_'"}
Lits == Numbers \cup Strings
SomeLits == {"0", "007", "''", "'a'", "'it\\'s'", "'a,b'", "'// c'"}

-----------------------------------------------------------------------------
(* C01: columns and constraints *)
AttrTexts(k) == CASE k = "default" -> {"default(0)", "default('a')"}
                  [] k \in NumAttrs -> {k \o "(3)"}
                  [] OTHER -> {k}
AttrKinds == FlagAttrs \cup NumAttrs \cup {"default"}
Fits(ty, ks) == /\ ty = "int"  => ks \cap {"minlen", "maxlen"} = {}
                /\ ty = "text" => ks \cap {"min", "max"} = {}
KindSeqs(k) == {q \in UpTo(AttrKinds, k) : ~ HasDup(q)}
OneText(k) == CHOOSE x \in AttrTexts(k) : TRUE
ColNamesPool == {"id", "ID", "Id", "i", "name_", "a1", "x__y", "Int", "TEXT", "Primary", "notnull1", "int_", "uniq",
                 "selected", "withdraw", "min_len", "b0", "database1", "tables"}
C01(any) ==
  {DB \o "table t { a int, x " \o Join(<<ty>> \o [i \in DOMAIN q |-> OneText(q[i])], " ") \o ", b text }" :
     <<ty, q>> \in {y \in Types \X KindSeqs(Pick(3, 4)) : Fits(y[1], ToSet(y[2]))}} \cup
  {DB \o "table t { x " \o Join(<<"blob">> \o [i \in DOMAIN q |-> OneText(q[i])], " ") \o " }" :
     q \in {q \in Perms(AttrKinds) : Deep /\ q[1] = "min" /\ q[2] = "default"}} \cup
  {DB \o "table t { x text default(" \o v \o ") unique, y int default(" \o w \o ") }" : v \in Lits, w \in SomeLits} \cup
  {DB \o "table t { x blob min(" \o v \o ") max(" \o w \o ") minlen(" \o u \o ") }" : v \in Numbers, w \in Numbers, u \in {"1", "010"}} \cup
  {DB \o "table " \o t \o " { " \o x \o " int, " \o y \o " text notnull, } " :
     t \in {"t", "Users", "table_1"}, x \in ColNamesPool, y \in {"second", "Col2"}} \cup
  \* several tables, several columns, repeated names across tables
  {DB \o Join([i \in DOMAIN q |-> "table t" \o ToString(i) \o " { " \o q[i] \o " }"], "\n") :
     q \in Some({"a int", "a text notnull, b blob", "b int min(1) max(2), a int default(7), c text",
                 "a blob unique primary,"}, Pick(3, 4))} \cup
  {DB \o "table wide { " \o Join([i \in 1..k |-> "c" \o ToString(i) \o " " \o
      (IF i % 3 = 0 THEN "int" ELSE IF i % 3 = 1 THEN "text notnull" ELSE "blob default('v" \o ToString(i) \o "')")], ", ") \o " }" :
      k \in Sizes} \cup
  {DB \o Join([i \in 1..k |-> "table t" \o ToString(i) \o " { c" \o ToString(k - i) \o " int min(" \o ToString(i) \o ") max(" \o ToString(k) \o "), d text }"], " ") : k \in Sizes} \cup
  {DB \o "table " \o Rep("t", k) \o " { " \o Rep("c", k) \o " text default('" \o Rep("v", k) \o "'), " \o Rep("C", k) \o " int max(" \o Rep("9", k) \o ") }" : k \in Sizes} \cup
  \* columns that agree in some respects with one of another table
  {DB \o "table t { id int " \o a \o ", x " \o b \o " } table u { id int " \o c \o ", x " \o e \o " }" :
     a \in {"", "notnull", "notnull unique"}, b \in {"int min(1)", "text minlen(1)", "int min(2)", "text"}, c \in {"", "notnull", "unique notnull"},
     e \in {"int min(1)", "text minlen(1)", "int max(1)", "blob"}}

-----------------------------------------------------------------------------
(* C02: indexes and foreign keys *)
FkActs == {Join(<<e, w, r>>, " ") : e \in {"on_update", "on_delete"}, w \in {"", "do"}, r \in Reactions}
FkActSeqs(any) ==
  {<< >>} \cup {<<x>> : x \in FkActs} \cup
   {<<x, y>> : x \in FkActs, y \in {y \in FkActs : TRUE}}
OtherEvent(x, y) == SubSeq(x, 1, 9) # SubSeq(y, 1, 9)
FkActOk(any) ==
  {q \in FkActSeqs(0) : Len(q) < 2 \/ OtherEvent(q[1], q[2])}
P2 == "table p { id int, k text, z blob }\n"
ItemPool == {"#i1 index(id)", "#i2 unique(k, id)", "#I2 primary(z)", "#i3 unique(id, id)",
             "fk (id) ref p (id)", "foreign_key (k, id) references p (k, id) on_delete cascade",
             "fk (z) references t (z) on_update do set_null on_delete restrict"}
IdxName(x) == SubSeq(x, 1, 3)
C02(any) ==
  {DB \o P2 \o "table t { id int, k text, fk (id) references p (id) " \o Join(q, " ") \o " }" : q \in FkActOk(0)} \cup
  {DB \o P2 \o "table t { id int, k text, " \o f \o " (k) " \o r \o " p (k) " \o a \o " on_delete " \o d \o " set_default }" :
     f \in {"fk", "foreign_key"}, r \in {"ref", "references"}, a \in {"", "on_update cascade", "on_update do restrict"}, d \in {"", "do"}} \cup
  {DB \o "table t { id int, k text, z blob, " \o Join(q, ", ") \o e \o " }\n" \o P2 :
     q \in {q \in Some(ItemPool, Pick(3, 4)) :
              ~ HasDup(SelectSeq([i \in DOMAIN q |-> IF SubSeq(q[i], 1, 1) = "#" THEN IdxName(q[i]) ELSE ToString(i)], LAMBDA x : TRUE))},
     e \in {"", ","}} \cup
  {DB \o "table t { a int, b int, c text, #" \o n \o " " \o y \o "(" \o Join(q, ", ") \o ") }" :
     n \in {"idx", "I_1", "index1", "t", "unique_"}, y \in {"index", "unique", "primary"}, q \in Some({"a", "b", "c"}, 3)} \cup
  \* references backwards, forwards, to itself, several children
  {DB \o Join([i \in 1..3 |-> "table t" \o ToString(i) \o " { a int, b text, fk (" \o (IF q[i] = 1 THEN "a" ELSE "b") \o
         ") ref t" \o ToString(q[i]) \o " (b) }"], "\n") : q \in [1..3 -> 1..3]} \cup
  {DB \o P2 \o "table t { id int, k text, z blob, fk (" \o Join(q, ",") \o ") ref p (" \o Join(r, ", ") \o ") }" :
     q \in Some({"id", "k", "z"}, 2), r \in Some({"id", "k", "z"}, 2)} \cup
  \* several lists of different lengths
  {DB \o "table t { " \o Join([i \in 1..8 |-> "c" \o ToString(i) \o " int"], ", ") \o ", #i index(" \o Join(Cols(k), ",") \o "), fk (" \o Join(Rev(Cols(m)), ",") \o ") ref t ("
     \o Join(Cols(n), ",") \o ") on_delete cascade, #j unique(" \o Join(Rev(Cols(l)), ",") \o ") }" : k \in {1, 2, 3, 8}, m \in {1, 2, 5, 7}, n \in {1, 2, 5, 8}, l \in {1, 3, 4, 8}} \cup
  {DB \o "table t { a int, b int, " \o Join([i \in 1..k |-> IF i % 2 = 0 THEN "#i" \o ToString(i) \o " index(a)" ELSE
      "fk (b) ref t (a) on_update " \o (IF i % 3 = 0 THEN "restrict" ELSE "set_null")], ", ") \o " }" : k \in Sizes} \cup
  {DB \o "table t { " \o Join([i \in 1..k |-> "c" \o ToString(i) \o " int"], ", ") \o ", #i primary(" \o Join(Cols(k), ",") \o "), fk (" \o Join(Cols(k), ",") \o ") ref t (" \o Join(Rev(Cols(k)), ", ") \o ") }" : k \in Sizes}

-----------------------------------------------------------------------------
(* C03: signatures and modifiers *)
ModOk(q) == /\ Count(q, {"public", "private"}) <= 1 /\ Count(q, {"view"}) <= 1 /\ Count(q, {"owner"}) <= 1
ModSeqs == {q \in UpTo(Mods, 3) : ModOk(q)}
Params == {"", "$a", "$b, $a", "$a,$B ,$c_1", ", $q", "$view, $owner, $public"}
C03(any) ==
  {DB \o "action first (" \o ps \o ") " \o Join(q, " ") \o " { select 1; }\naction second ($z) " \o Join(r, " ") \o " { select 1; }" :
     ps \in Pick({"", "$b, $a"}, Params), q \in ModSeqs, r \in ModSeqs} \cup
  {DB \o "action " \o n \o " (" \o ps \o ") " \o Join(q, " ") \o " { select 1; }" :
     n \in {"a", "Act", "act_1", "owner1", "views", "Public", "init1"}, ps \in Params, q \in ModSeqs} \cup
  {DB \o Join([i \in DOMAIN q |-> "action a" \o ToString(i) \o "($p" \o ToString(i) \o ") " \o q[i] \o " { select 1; }"], "") :
     q \in Some({"", "public", "private", "view", "owner public", "view private owner"}, 3)} \cup
  {DB \o n \o "action " \o w \o x \o "(" \o p \o ") " \o m \o " { select 1; }" : n \in {"", "@n(a=1) "}, w \in {"public", "private", "view", "owner", "init", "action"}, x \in {"_", "s", "1", "_list"},
     p \in {"", "$public, $owner"}, m \in {"", "public", "private view", "owner"}} \cup
  {DB \o "action a($x, $y) " \o Join(q, "\n") \o " { select 1; } init() { select 1; } action b() { select 1; }" : q \in ModSeqs} \cup
  {DB \o Join([i \in 1..k |-> "action a" \o ToString(i) \o "($p) " \o (IF i % j = 0 THEN "owner view" ELSE IF i % j = 1 THEN "public" ELSE "") \o " { select 1; }"], " ") : k \in Sizes, j \in {3, 4}} \cup
  {DB \o "action " \o Rep("A", k) \o "(" \o Join([i \in 1..k |-> "$p" \o ToString(k - i)], ", ") \o ", $" \o Rep("x", k) \o ") view { select 1; }" : k \in Sizes}

-----------------------------------------------------------------------------
(* C04: statements *)
EXT == "use ex as e;\n"
StrBodies == {"a  b", "a // b", "/* c */", "a\tb", " a ", "a,b", "(", ") ", "$x", "@y", "=", "not", "a b , c"}
Atoms == {"1", "'s'", "$x", "@caller"}
Unary(S) == {Join(<<o, x>>, " ") : o \in {"-", "not", "+"}, x \in S} \cup {"not" \o x : x \in {"$x", "(1)", "'s'"} \cap S}
WordBin(S, T) == {x \o o \o y : x \in S, o \in {" and ", " or ", "+", " * ", "<=", " <> ", "="}, y \in T}
Exprs1 == Atoms \cup {"(" \o x \o ")" : x \in Atoms} \cup {"abs(" \o x \o ")" : x \in Atoms} \cup {"count(*)", "lower( * )", "Upper('q')"}
Exprs2(any) ==
  Unary(Exprs1) \cup WordBin(Exprs1, Atoms) \cup {"1and 2", "1or$x", "'s'and's'", "$x and$x", "$x or'a'", "1 and-1"}
Exprs3(any) ==
  Unary(Exprs2(0)) \cup WordBin({"not $x", "- 1", "1 and $x", "(1 or 2)"}, Exprs1)
  \cup {"format('%s', " \o x \o ", " \o y \o ")" : x \in {"$x", "not 1", "1 and 2"}, y \in Exprs1}
Act(st) == DB \o EXT \o "action g($x, $y) { " \o st \o " }"
SqlPool == {"select 1;", "SELECT\n  *\n\tFROM users ;", "insert into users (id, name) values (1, 'a');",
            "update users set name = $n where id = $id;", "delete from users;", "Select id FROM users;",
            "select id from users /* no */;", "with q as (select id from users) select id from q;"}
CallPool == {"g($x, $y);", "e.f();", "$r = e.f($x and $y, not 1);", "g ( 1 , 2 ) ;", "e . f ( , 1 );", "$r , $s=e.f('a b');"}
C04(any) ==
  {Act("e.f(" \o x \o ");") : x \in Exprs1 \cup Exprs2(0) \cup Pick({}, Exprs3(0))} \cup
  {Act("g(" \o x \o ", " \o y \o ");") : x \in Pick({"$x", "1and 2"}, Exprs1), y \in Exprs2(0)} \cup
  {Act(Join(q, " ")) : q \in Some(SqlPool \cup CallPool, 2)} \cup
  {DB \o EXT \o "action g($x, $y) { " \o Join(q, "\n") \o " } action h() public { " \o p \o " } init() { " \o s \o " } action i($x, $y) view { " \o t \o " }" :
     q \in Pick({<<"select 1;", "e.f();">>, <<"g ( 1 , 2 ) ;", "$r , $s=e.f('a b');", "SELECT\n  *\n\tFROM users ;">>}, Some(CallPool, 2)),
     p \in SqlPool, s \in {"select 1;", "delete from users; e.f(1);"}, t \in CallPool} \cup
  {Act("e.f(" \o Join(q, ",") \o ");") : q \in UpTo({"1", " $x ", "not 1", "''", "/* c */2", "@caller"}, 3)} \cup
  {Act(Join([i \in 1..k |-> IF i % 3 = 0 THEN "select " \o ToString(i) \o ";" ELSE IF i % 3 = 1 THEN "$r" \o ToString(i) \o " = e.f(" \o ToString(i) \o ");" ELSE "g($x, " \o ToString(i) \o ");"], " ")) : k \in Sizes} \cup
  {Act("e.f(" \o Join([i \in 1..k |-> ToString(i)], ", ") \o ");") : k \in Sizes} \cup
  {Act(Join([i \in 1..k |-> "$r" \o ToString(i)], ", ") \o " = e.f();") : k \in Sizes} \cup
  {Act("e.f(" \o Rep("(", k) \o "1" \o Rep(")", k) \o ", " \o Rep("not ", k) \o "$x, 1" \o Rep(" and 2 ", k) \o ");") : k \in {3, 10, 40}} \cup
  {Act("e.f('" \o x \o "'); select '" \o y \o "'; g('" \o y \o "', '" \o x \o "');") : x \in StrBodies, y \in StrBodies} \cup
  {Act(x \o " " \o y \o " " \o x) : x \in CallPool \cup SqlPool, y \in {"", "select 1;", "e.f();"}} \cup
  {Act("select '" \o Rep("x", k) \o "'; e.f('" \o Rep("y", k) \o "');") : k \in Sizes} \cup
  \* words that begin or end with the characters at the ends of the ranges words are made of
  {Act("$r" \o c \o " = e.f(); e.f($r" \o c \o x \o "not " \o d \o ", not $r" \o c \o x \o d \o "); g(" \o d \o x \o d \o ", not $r" \o c \o ");") :
     c \in {"0", "9", "a", "z", "A", "Z", "_"}, x \in {" and ", " AND ", " or ", " OR ", " Or "}, d \in {"0", "9", "$x", "'Z'", "abs($x)", "Upper('a')"}}

-----------------------------------------------------------------------------
(* C05: extensions *)
Cfgs == {"", "{ a: 1 }", "{ a: 'x', b: 2 }", "{k:'v',k:'w',K:0}"}
C05(any) ==
  {DB \o "use ext { arg: " \o v \o ", Arg2: " \o w \o " } as e;" : v \in Lits, w \in SomeLits} \cup
  {DB \o Join([i \in DOMAIN q |-> "use " \o q[i][1] \o " " \o q[i][2] \o " as al" \o ToString(i) \o ";"], "\n") :
     q \in Some({"ext", "other"} \X Cfgs, Pick(2, 3))} \cup
  {DB \o "use " \o n \o " as " \o m \o "; use " \o n \o " as " \o k \o "; action a() { " \o c \o ".f(); }" :
     n \in {"ext", "Ext"}, m \in {"ext", "e", "E"}, k \in {"f", "ext2"}, c \in {"ext", "Ext", "e", "E", "f"}} \cup
  {DB \o "use x { " \o Join([i \in DOMAIN q |-> q[i] \o ": " \o ToString(i)], ", ") \o " } as y; table t { a int } action b() { y.go(); }" :
     q \in Some({"a", "b", "A", "key_1"}, Pick(3, 4))} \cup
  {DB \o Join([i \in 1..k |-> "use x" \o ToString(i) \o (IF i % 2 = 0 THEN "" ELSE " { a: " \o ToString(i) \o ", b: 'v" \o ToString(i) \o "' }") \o " as y" \o ToString(k - i) \o ";"], " ") : k \in Sizes} \cup
  {DB \o "use x { " \o Join([i \in 1..k |-> "k" \o ToString(i) \o ": '" \o ToString(k - i) \o "'"], ", ") \o " } as y;" : k \in Sizes} \cup
  {DB \o "use " \o Rep("x", k) \o " { " \o Rep("k", k) \o ": '" \o Rep("v ", k) \o "', n: " \o Rep("7", k) \o " } as " \o Rep("y", k) \o ";" : k \in Sizes}

-----------------------------------------------------------------------------
(* C06: annotations *)
AnnArgs == {"n = " \o v : v \in Lits} \cup {"a1='x',  b =2"}
Anns == {"@k(" \o x \o ")" : x \in AnnArgs}
C06(any) ==
  {DB \o a \o "\naction f() { select 1; }" : a \in Anns} \cup
  {DB \o "@tgt(" \o Join([i \in DOMAIN q |-> "p" \o ToString(i) \o "=" \o q[i]], ", ") \o ") action f() { select 1; }" :
     q \in Some(Pick(SomeLits, Strings \cup {"0", "007"}), Pick(3, 2))} \cup
  {DB \o "@tgt(a=" \o v \o ",b=" \o w \o ") action f() { select 1; }" : v \in Strings, w \in Strings} \cup
  {DB \o Join(q, "\n") \o " action f() { select 1; } " \o r \o " action g() public { select 1; } init() { select 1; }" :
     q \in UpTo({"@a(x=1)", "@b(y='2', z=3)", "@a(x='@a(x=1)')"}, 3), r \in {"", "@c(a1 = 'q' ,B_2=  7)"}} \cup
  {DB \o Join([i \in 1..k |-> "@n" \o ToString(i) \o "(a=" \o ToString(i) \o ",b='" \o ToString(k - i) \o "')"], " ") \o " action f() { select 1; }" : k \in Sizes} \cup
  {DB \o "@n(" \o Join([i \in 1..k |-> "a" \o ToString(i) \o " = '" \o ToString(k - i) \o "'"], ", ") \o ") action f() { select 1; }" : k \in Sizes} \cup
  {DB \o "@" \o Rep("n", k) \o "(" \o Rep("a", k) \o "='" \o Rep("v", k) \o "', b=" \o Rep("7", k) \o ") action f() { select 1; }" : k \in Sizes} \cup
  {DB \o "@n(a='" \o x \o "', b='" \o y \o "') action f() { select 1; }" : x \in StrBodies, y \in StrBodies}

-----------------------------------------------------------------------------
(* C07: order of declarations *)
Decls == {"table t1 { a int }", "table t2 { b text, fk (b) ref t1 (a) }", "action a1() { a2(); }",
          "action a2($x) public { select 1; }"}
InitDecl == "init() { a1(); select 1; }"
C07(any) ==
  {DB \o Join(q, "\n") : q \in Perms(Decls \cup {InitDecl})} \cup
  {DB \o Join(q, "\n") : q \in Perms(Decls)} \cup
  {DB \o Join(q, " ") : q \in Perms(Decls \cup {InitDecl, "init() { select 1; }"})} \cup
  {DB \o Join(SetToSeq({x}) \o <<InitDecl>> \o <<y>>, " ") : x \in Decls, y \in Decls} \cup
  {DB \o "use x as e; " \o Join(q, " ") : q \in UpTo({"init () { e.f(); }", "action a1() { select 1; }", "table t1 { a int }"}, 3)} \cup
  {DB \o Join([i \in 1..k |-> IF i = j THEN "init() { select " \o ToString(i) \o "; }" ELSE IF i % 2 = 0 THEN "action a" \o ToString(i) \o "() { select 1; }" ELSE "table t" \o ToString(i) \o " { a int }"], " ") :
     k \in {5, 9, 17, 33}, j \in {1, 2, 3, 5, 8, 9, 16, 17, 32, 33}} \cup
  (IF Deep THEN {DB \o Join(q, " ") : q \in Perms(Decls \cup {InitDecl, "@n(a=1) action a3() view { a1(); }", "table t3 { c int }"})} ELSE {})

-----------------------------------------------------------------------------
(* C08: names *)
N3 == {"a", "b", "A"}
N2 == {"a", "b"}
Dist == {5, 10, 17, 40}
DistTo == {1, 2, 4, 5, 9, 16, 39}
LongTo == {1, 2, 3, 7, 8, 15, 16, 20, 30, 31, 32, 49, 50, 62, 63, 64, 100, 127, 128, 255, 256}
Two8 == {<<DB \o "use x as ", "; use y as ", ";">>, <<DB \o "table ", " { c int } table ", " { c int }">>, <<DB \o "action ", "() { select 1; } action ", "() { select 1; }">>,
         <<DB \o "table t { ", " int, ", " text }">>, <<DB \o "table t { c int, #", " index(c), #", " unique(c) }">>, <<DB \o "table t { ", " int, #", " index(c), c int }">>,
         <<DB \o "table t { a int, #", " unique(a), ", " int }">>, <<DB \o "action f($", ", $", ") { select 1; }">>}
C08(any) ==
  {DB \o Join([i \in DOMAIN q |-> "use x as " \o q[i] \o ";"], "") : q \in Some(N3, Pick(4, 5))} \cup
  {DB \o Join([i \in DOMAIN q |-> "table " \o q[i] \o " { c int }"], "") : q \in Some(N3, Pick(4, 5))} \cup
  {DB \o Join([i \in DOMAIN q |-> "action " \o q[i] \o "() { select 1; }"], "") : q \in Some(N3, Pick(4, 5))} \cup
  {DB \o "table t { " \o Join([i \in DOMAIN q |-> q[i] \o " int"], ",") \o " }" : q \in Some(N3, Pick(4, 5))} \cup
  {DB \o "table t { c int, " \o Join([i \in DOMAIN q |-> "#" \o q[i] \o " index(c)"], ",") \o " }" : q \in Some(N3, Pick(4, 5))} \cup
  {DB \o "table t { " \o Join([i \in DOMAIN q |-> q[i] \o " int"], ",") \o ", #" \o n \o " unique(" \o q[1] \o "), fk (" \o q[1] \o ") ref t (" \o q[1] \o "), #" \o m \o " index(" \o q[1] \o ") }" :
     q \in Some(N3, 2), n \in N3, m \in {"a", "B", "d"}} \cup
  {DB \o "action f(" \o Join([i \in DOMAIN q |-> "$" \o q[i]], ",") \o ") { select 1; }" : q \in Some(N3, Pick(4, 5))} \cup
  {DB \o "table t { a int, x blob " \o Join([i \in DOMAIN q |-> OneText(q[i])], " ") \o " }" : q \in Some(AttrKinds, 3)} \cup
  \* far apart
  {DB \o Join([i \in 1..k |-> "use x as n" \o ToString(IF i = k THEN j ELSE i) \o ";"], "") : k \in Dist, j \in DistTo} \cup
  {DB \o Join([i \in 1..k |-> "table n" \o ToString(IF i = k THEN j ELSE i) \o " { a int }"], "") : k \in Dist, j \in DistTo} \cup
  {DB \o Join([i \in 1..k |-> "action n" \o ToString(IF i = k THEN j ELSE i) \o "() { select 1; }"], "") : k \in Dist, j \in DistTo} \cup
  {DB \o "table t { " \o Join([i \in 1..k |-> "n" \o ToString(IF i = k THEN j ELSE i) \o " int"], ", ") \o " }" : k \in Dist, j \in DistTo} \cup
  {DB \o "table t { a int, " \o Join([i \in 1..k |-> "#n" \o ToString(IF i = k THEN j ELSE i) \o " index(a)"], ", ") \o " }" : k \in Dist, j \in DistTo} \cup
  {DB \o "table t { " \o Join([i \in 1..k |-> "n" \o ToString(i) \o " int"], ", ") \o ", #a index(n1), #n" \o ToString(j) \o " index(n1), #b index(n1) }" : k \in Dist, j \in DistTo} \cup
  {DB \o "action a(" \o Join([i \in 1..k |-> "$n" \o ToString(IF i = k THEN j ELSE i)], ", ") \o ") { select 1; }" : k \in Dist, j \in DistTo} \cup
  \* long names that differ at the end, or at the beginning, or in case only there
  {Fill(h, <<x, y>>) : h \in Two8, <<x, y>> \in UNION {{<<Rep("x", k) \o p, Rep("x", k) \o q>>, <<p \o Rep("x", k), q \o Rep("x", k)>>} : k \in LongTo, <<p, q>> \in {<<"a", "b">>, <<"a", "A">>, <<"a", "a">>, <<"", "a">>}}} \cup
  \* one name everywhere at once, or in two scopes
  {DB \o "use x as " \o n[1] \o "; table " \o n[2] \o " { " \o n[3] \o " int, #i" \o n[4] \o " index(" \o n[3] \o ") } table u { " \o n[3] \o " int, #i" \o n[4] \o " index(" \o n[3] \o ") } action " \o n[5] \o "($" \o n[6] \o ") { select 1; } action other($" \o n[6] \o ") { select 1; }" :
     n \in [1..6 -> N2]}

-----------------------------------------------------------------------------
(* C09: references *)
Cols9 == {"id", "name", "ix", "nope", "ID", "other"}
Tabs9 == {"t1", "t2", "t3", "nope", "T1", "id"}
T9(nm, items) == "table " \o nm \o " { id int, name text, #ix index(id)" \o items \o " }\n"
O9 == "table t3 { other int, id int }\n"
C09(any) ==
  {DB \o T9("t1", ", #j unique(" \o Join(q, ",") \o ")") \o O9 : q \in Some(Cols9, Pick(2, 3))} \cup
  {DB \o T9("t1", "") \o T9("t2", ", fk (" \o c \o ") ref " \o t \o " (" \o r \o ")") \o O9 : c \in Cols9, t \in Tabs9, r \in Cols9} \cup
  {DB \o O9 \o T9("t1", ", fk (id) ref t2 (id), fk (" \o c \o ") ref " \o t \o " (" \o r \o ") on_delete cascade") \o T9("t2", "") : c \in Cols9, t \in Tabs9, r \in Cols9} \cup
  {DB \o T9("t1", ", fk (" \o Join(q, ",") \o ") ref t3 (" \o Join(r, ",") \o "), #k index(name)") \o O9 :
     q \in Some(Cols9, 2), r \in Pick({<<"id">>, <<"id", "other">>, <<"id", "name">>, <<"nope", "id">>}, Some(Cols9, 2))} \cup
  {DB \o "table t { " \o Join([i \in 1..k |-> "c" \o ToString(i) \o " int"], ", ") \o ", #i " \o w \o "(" \o Join([i \in 1..k |-> IF i = j THEN x ELSE "c" \o ToString(i)], ",") \o "), #j index(c1) }" :
     w \in {"index", "unique", "primary"}, k \in {2, 3, 4, 5, 8, 12, 17}, j \in {0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17}, x \in {"d", "i", "C1"}} \cup
  {DB \o "table t { " \o Join([i \in 1..k |-> "c" \o ToString(i) \o " int"], ", ") \o ", " \o Join([i \in 1..k |-> "#i" \o ToString(i) \o " " \o (IF i % 3 = 0 THEN "index" ELSE IF i % 3 = 1 THEN "primary" ELSE "unique") \o "(" \o (IF i = j THEN "i1" ELSE "c" \o ToString(i)) \o ", c1)"], ", ") \o " }" :
     k \in {3, 5, 9, 17}, j \in 0..17} \cup
  {DB \o "table t { " \o Join([i \in 1..k |-> "c" \o ToString(i) \o " int, fk (" \o (IF i = j /\ w = 1 THEN "d" ELSE "c" \o ToString(i)) \o ") ref " \o (IF i = j /\ w = 2 THEN "s" ELSE "t") \o " (" \o (IF i = j /\ w = 3 THEN "d" ELSE "c1") \o ")"], ", ") \o " }" :
     k \in {3, 5, 9, 17}, j \in 0..17, w \in 1..3} \cup
  \* names that agree for long
  {DB \o "table " \o y \o " { " \o x \o " int, b int" \o f \o " }" : <<x, y, f>> \in UNION {LET A == Rep("x", k) \o "a"  B == Rep("x", k) \o q
      IN {<<A, "t", ", #i " \o w \o "(b, " \o B \o ")">> : w \in {"index", "primary"}} \cup
         {<<A, A, ", fk (" \o B \o ") ref " \o A \o " (" \o A \o ")">>, <<A, A, ", fk (" \o A \o ") ref " \o B \o " (" \o A \o ")">>, <<A, A, ", fk (" \o A \o ") ref " \o A \o " (" \o B \o ")">>} : k \in LongTo, q \in {"a", "b", "A", "aa", ""}}} \cup
  \* two foreign keys, alike but for one part
  {DB \o "table t { id int, name text, c int, fk (" \o f[1] \o ") ref " \o f[2] \o " (" \o f[3] \o ")" \o a \o ", fk (" \o g[1] \o ") ref " \o g[2] \o " (" \o g[3] \o ")" \o b \o h \o " } table u { id int, name text }" : <<f, g, a, b, h>> \in
     {<<f, [f EXCEPT ![i] = z], a, b, h>> : f \in {<<"id", "t", "id">>, <<"name", "u", "name">>, <<"id, c", "u", "id, name">>, <<"c", "u", "name, id">>}, i \in 1..3,
        z \in {"id", "name", "c", "t", "u", "v", "id, c", "c, id", "id, name", "name, id", "idc"}, a \in {"", " on_delete cascade"}, b \in {"", " on_delete cascade"}, h \in {"", ", fk (c) ref u (id)"}}
     \cup {<<[f EXCEPT ![i] = z], f, "", "", h>> : f \in {<<"id", "t", "id">>, <<"name", "u", "name">>}, i \in 1..3, z \in {"id", "name", "c", "t", "u", "v", "id, c"}, h \in {"", ", fk (c) ref u (id)"}}} \cup
  \* two indexes, alike but for one part
  {DB \o "table t { id int, name text, #i " \o f[1] \o "(" \o f[2] \o "), #j " \o g[1] \o "(" \o g[2] \o ")" \o h \o " } table u { id int, x int }" : <<f, g, h>> \in
     {<<f, g, h>> : f \in {"index", "unique", "primary"} \X {"id", "id, name", "name, id", "x", "i"}, g \in {"index", "unique", "primary"} \X {"id", "id, name", "id,x", "x", "name, id", "i", "idname"}, h \in {"", ", #k index(id)"}}} \cup
  \* the same items in two tables
  {DB \o "table t { id int, " \o a \o " int" \o x \o " } table u { id int, " \o b \o " int" \o x \o " } table v { id int }" : a \in {"c", "d"}, b \in {"c", "d", "i"},
     x \in {", #i index(c)", ", #i unique(id, c)", ", #i index(d), #j primary(c)", ", fk (c) ref v (id)", ", fk (id) ref t (c)", ", fk (c) ref u (id), #i index(c)", ", fk (id) ref u (c)", ", fk (id, c) ref v (id)"}} \cup
  \* an index defined after use, an index naming another index
  {DB \o T9("t1", ", #k index(" \o x \o "), #l unique(id, " \o y \o ")") : x \in {"ix", "l", "id", "name"}, y \in {"k", "l", "ix", "name"}} \cup
  \* long lists, many tables
  {DB \o "table p { " \o Join([i \in 1..k |-> "c" \o ToString(i) \o " int"], ", ") \o ", #i index(" \o Join([i \in 1..k |-> IF i = j /\ w = 1 THEN "d1" ELSE "c" \o ToString(i)], ",") \o ") }"
     \o " table q { d1 int, " \o Join([i \in 1..k |-> "d" \o ToString(i + 1) \o " int"], ", ") \o ", fk (" \o Join([i \in 1..k |-> IF i = j /\ w = 2 THEN "c1" ELSE "d" \o ToString(i)], ",")
     \o ") ref p (" \o Join([i \in 1..k |-> IF i = j /\ w = 3 THEN "d1" ELSE "c" \o ToString(i)], ",") \o ") }" : k \in {2, 5, 12}, j \in {0, 1, 2, 3, 5, 11, 12}, w \in 1..3} \cup
  {DB \o Join([i \in 1..k |-> "table t" \o ToString(i) \o " { c" \o ToString(i) \o " int, fk (c" \o ToString(i) \o ") ref t" \o ToString(IF i = j THEN r ELSE (i % k) + 1) \o " (c" \o ToString((i % k) + 1) \o ") }"], " ") :
     k \in {3, 9, 20}, j \in {0, 1, 2, 8, 9, 20}, r \in {1, 2, 50}}

-----------------------------------------------------------------------------
(* C10: constraint and type *)
AttrOf(k) == OneText(k)
C10(any) ==
  {DB \o "table t { x " \o Join(<<ty>> \o [i \in DOMAIN q |-> AttrOf(q[i])], " ") \o " }" : ty \in Types, q \in KindSeqs(3)} \cup
  \* the same column but for its type; the same but for one attribute; the same again
  {DB \o "table t { x " \o Join(<<ty>> \o [i \in DOMAIN q |-> AttrOf(q[i])], " ") \o " } table u { x " \o Join(<<tz>> \o [i \in DOMAIN q |-> AttrOf(q[i])], " ") \o " }" :
     ty \in Types, tz \in Types, q \in {q \in KindSeqs(2) : q # << >>}} \cup
  {DB \o "table t { x " \o ty \o " " \o a \o ", y " \o tz \o " " \o a \o " } table u { x " \o tz \o " " \o a \o ", y " \o ty \o " " \o b \o " }" :
     ty \in Types, tz \in Types, a \in {"", "notnull min(1)", "maxlen(1)", "unique"}, b \in {"", "max(1)", "minlen(1)", "notnull"}} \cup
  {DB \o "table s { z int } table t { a int, " \o Join([i \in DOMAIN q |-> "c" \o ToString(i) \o " " \o q[i]], ", ") \o ", #i index(a) }" :
     q \in Some({"int min(1)", "int notnull maxlen(2)", "text max(3) unique", "text minlen(1)", "blob min(1) maxlen(2)",
                 "int minlen(4)", "text default('a')"}, Pick(3, 4))} \cup
  {DB \o Join([i \in 1..m |-> "table t" \o ToString(i) \o " { " \o Join([j \in 1..k |-> "c" \o ToString(j) \o " " \o (IF i = a /\ j = b THEN x ELSE "blob min(1) minlen(2)")], ", ") \o " }"], " ") :
     m \in {1, 3, 9}, k \in {2, 8, 20}, a \in {1, 2, 9}, b \in {1, 2, 7, 20}, x \in {"int notnull default(1) minlen(1)", "text max(1)", "int min(1) max(2)"}}

-----------------------------------------------------------------------------
(* C11: calls *)
Targets == {"a", "b", "A", "e", "ex", "nope", "e.f", "a.f", "ex.f", "nope.f", "E.f", "e.a", "f", "t"}
Call(x) == x \o "();"
C11(any) ==
  {DB \o EXT \o "table t { a int } action a() { " \o Call(x) \o Call(y) \o " } action b() { " \o z \o " } init() { " \o w \o " }" :
     x \in Targets, y \in Pick({"a", "e.f"}, Targets), z \in {"select 1;", "a();", "nope();"}, w \in {"select 1;", "b(); e.f();", "ex.f();", "c();"}} \cup
  {DB \o (IF u = 1 THEN EXT ELSE "") \o "init() { " \o Call(x) \o " } action b() { select 1; " \o Call(y) \o " } action a() { e1(); } action e1() { select 1; }" :
     u \in 0..1, x \in Targets, y \in Targets} \cup
  {DB \o "use ex as a; use ex as ex2; action ex() { " \o Call(x) \o " } action b() { $r = " \o Call(y) \o " }" : x \in Targets \cup {"ex2.f"}, y \in Targets \cup {"ex2.f"}} \cup
  \* by the original name, with configurations, arguments, receivers
  {DB \o "use ext " \o c \o " as m; use ext " \o e \o " as n; use other as o; action a($x) { select 1; } action b($x, $y) { " \o r \o x \o ".f(" \o a \o "); }" :
     c \in {"", "{ a: 1, b: 'x' }"}, e \in {"", "{ a: 1 }", "{ ext: 'm', m: 2, other: 3 }"}, r \in {"", "$z = ", "$x, $y = "}, x \in {"ext", "m", "n", "other", "o", "a", "Ext", "M"},
     a \in {"", "1", "$x, 2, 'm'"}} \cup
  {DB \o "use ext as m; action a(" \o p \o ") { select 1; } action b() { " \o x \o "(" \o a \o "); } init() { " \o y \o "(" \o a \o "); }" :
     p \in {"", "$x", "$x, $y"}, x \in {"a", "b", "m", "ext", "A", "aa", "d"}, y \in {"a", "m", "a1"}, a \in {"", "1", "1, 2", "1, 2, 3"}} \cup
  {DB \o "use x as " \o A \o "; action " \o A \o "() { " \o r \o B \o m \o "(); } action b() { " \o A \o "(); }" : <<A, B>> \in {<<Rep("x", k) \o "a", Rep("x", k) \o q>> : k \in LongTo, q \in {"a", "b", "A", "aa", ""}},
     r \in {"", "$x = "}, m \in {"", ".f"}} \cup
  {DB \o "use x as e; " \o Join([i \in 1..k |-> "action a" \o ToString(i) \o "() { " \o (IF i = j THEN x ELSE "a" \o ToString(k + 1 - i) \o "();") \o " }"], " ") :
     k \in {3, 10, 30}, j \in {1, 2, 3, 10, 29, 30}, x \in {"a31();", "a();", "e();", "a1.f();", "x.f();", "e.f(); e.g(); a1(); a99();"}}

-----------------------------------------------------------------------------
(* C12: variables *)
Uses == {"$v", "-$v", "(1 + $v)", "abs($v)", "1 and not $v", "lower(upper($v))", "1, $v", "format('a', $v)", "$v < 2",
         "((($v)))", "@caller", "@block", "$V", "abs(1, 2 * (3 - $v))"}
S12 == {"$v = e.f();", "$w, $v = e.f(1);", "$v, $w, $v = e.f();", "$v = e.f($v);", "$v = p();", "e.f($v);", "p(-(1 + $v));",
        "select $v;", "e.f($w);"}
C12(any) ==
  {DB \o EXT \o "action p() { select 1; } action q(" \o ps \o ") { " \o Join(s, " ") \o " }" : ps \in {"", "$v"}, s \in Some(S12, Pick(3, 4))} \cup
  {DB \o EXT \o "action p(" \o ps \o ") { " \o c \o "(" \o u \o "); }" : ps \in {"", "$v", "$w, $V"}, c \in {"e.f", "p", "$r = e.f"}, u \in Uses} \cup
  {DB \o EXT \o "action p(" \o ps \o ") { " \o s \o " } action q(" \o pt \o ") { " \o t \o " } init() { " \o u \o " }" :
     ps \in {"", "$v"}, pt \in {"", "$v"}, s \in S12, t \in S12, u \in {"select 1;", "e.f($v);", "$v = e.f();", "$v = e.f(); e.f(abs($v));"}} \cup
  {DB \o EXT \o "action p($v) { " \o Join(r, ", ") \o " = e.f(" \o u \o "); e.f(" \o w \o "); }" :
     r \in Some({"$v", "$x", "$y"}, 3), u \in {"$v", "$x", "1"}, w \in {"$x", "$y", "1"}} \cup
  {DB \o EXT \o "action p($" \o v \o ") { " \o s \o " } action q($" \o w \o ") { " \o s \o " } init() { " \o (IF x = 1 THEN s ELSE "select 1;") \o " }" : v \in {"v", "w"}, w \in {"v", "w"}, s \in S12, x \in 0..1} \cup
  {DB \o EXT \o "action p($" \o A \o ") { " \o h \o "$" \o B \o t \o " }" : <<A, B>> \in {<<Rep("x", k) \o "a", Rep("x", k) \o q>> : k \in LongTo, q \in {"a", "b", "A", "aa", ""}},
     <<h, t>> \in {<<"e.f(", ");">>, <<"p(1 + ", ");">>, <<"$y = e.f(abs(", "));">>}} \cup
  {DB \o EXT \o "action p() { $" \o A \o ", $z = e.f(); e.f(-$" \o B \o "); }" : <<A, B>> \in {<<Rep("x", k) \o "a", Rep("x", k) \o q>> : k \in LongTo, q \in {"a", "b"}}} \cup
  {DB \o EXT \o "action p($a) { " \o Join([i \in 1..k |-> IF i = j THEN "$v" \o ToString(i) \o " = e.f($v" \o ToString(m) \o ");" ELSE "$v" \o ToString(i) \o " = e.f($a);"], " ") \o " }" :
     k \in {3, 10, 25}, j \in {1, 2, 3, 10, 25}, m \in {1, 2, 3, 9, 24, 25}} \cup
  {DB \o EXT \o "action p($a) { " \o Join([i \in 1..k |-> "$v" \o ToString(IF i = k THEN j ELSE i)], ", ") \o " = e.f(" \o Join([i \in 1..k |-> IF i = m THEN "$b" ELSE "$a"], ", ") \o "); }" :
     k \in {2, 5, 12}, j \in {1, 2, 4, 11, 13}, m \in {0, 1, 2, 5, 12}} \cup
  {DB \o EXT \o "action p($a) { e.f(" \o Rep(o, k) \o x \o Rep(c, k) \o "); }" : <<o, c>> \in {<<"(", ")">>, <<"abs(", ")">>, <<"not ", "">>, <<"1 + ", "">>, <<"", " and 2">>, <<"(1 * ", ")">>, <<"abs(1, ", ")">>},
     k \in {1, 2, 3, 5, 9}, x \in {"$a", "$b", "@caller", "@x"}}

-----------------------------------------------------------------------------
(* C13: repeated modifiers and reactions *)
C13(any) ==
  {DB \o "action a() " \o Join(q, " ") \o " { select 1; }" : q \in UpTo(Mods, Pick(4, 5))} \cup
  {DB \o "action a() " \o Join(q, " ") \o " { select 1; } action b() " \o Join(r, " ") \o " { select 1; }" :
     q \in UpTo(Mods, 2), r \in UpTo(Mods, 2)} \cup
  {DB \o "table t { a int, fk (a) ref t (a) " \o Join(q, " ") \o " }" :
     q \in UpTo({e \o " " \o r : e \in {"on_update", "on_delete"}, r \in {"cascade", "do restrict"}}, Pick(3, 4))} \cup
  {DB \o "table t { a int, fk (a) ref t (a) " \o Join(q, " ") \o ", fk (a) ref t (a) " \o Join(r, " ") \o " } table u { a int, fk (a) ref u (a) " \o s \o " }" :
     q \in UpTo({"on_update cascade", "on_delete do cascade"}, 2), r \in UpTo({"on_update cascade", "on_delete set_null"}, 2),
     s \in {"", "on_update cascade", "on_delete cascade on_delete cascade", "on_update restrict on_delete restrict"}} \cup
  {DB \o Join([i \in 1..k |-> "action a" \o ToString(i) \o "() " \o (IF i = j THEN x ELSE "public view owner") \o " { select 1; }"], " ") :
     k \in {3, 9, 20}, j \in {1, 2, 3, 9, 20}, x \in {"public view private", "view owner view", "owner public view owner", "private", "view public owner"}} \cup
  {DB \o "table t { a int, " \o Join([i \in 1..k |-> "fk (a) ref t (a) " \o (IF i = j THEN x ELSE "on_update cascade on_delete restrict")], ", ") \o " }" :
     k \in {2, 5, 12}, j \in {1, 2, 5, 12}, x \in {"", "on_delete cascade on_update restrict on_delete no_action", "on_update set_null on_update set_null", "on_delete cascade"}}

-----------------------------------------------------------------------------
(* C14: SQL *)
G14 == {"select 1", "Select id FROM users", "insert into users (id) values (1)", "e.f()", "update users set id = 1"}
B14 == {"select random()", "SELECT * FROM a, b", "delete from users where id = sin(1)", "UPDATE users SET", "With q as (select 1.5) select 1"}
(* for every first word: valid, malformed, and forbidden only on closer inspection *)
Words14 == <<
  [good |-> {"select 1", "SELECT * FROM users", "select id from users where id = $x"}, bad |-> {"select from users", "select random()", "SELECT * FROM users, posts", "select * from users join posts on true", "select id from users where id = sqrt(1)"}],
  [good |-> {"insert into users (id) values (1)", "INSERT INTO users (id, name) VALUES ($id, $name), (2, 'b')"}, bad |-> {"insert users values (1)", "insert into users (id) values (random())", "Insert into users (id) values (1), (changes())"}],
  [good |-> {"update users set id = 1", "UPDATE users SET name = 'a', id = 2"}, bad |-> {"update users set", "update users set id = random()", "update users set id = 1 where id in (select sin(1))"}],
  [good |-> {"delete from users", "DELETE FROM users WHERE id = 1"}, bad |-> {"delete users", "delete from users where id = last_insert_rowid()", "Delete from users where id in (select * from a, b)"}],
  [good |-> {"with q as (select 1) select * from q", "With q as (select id from users) delete from posts where id in (select id from q)"}, bad |-> {"with q select 1", "with q as (select random()) select * from q", "with q as (select * from users join posts on true) select * from q"}] >>
A14(q) == Join([i \in DOMAIN q |-> q[i] \o ";"], " ")
Sizes14 == {120, 270, 520}
Long14 == {1040, 2060, 4110}
C14(any) ==
  {DB \o EXT \o "action a($x) { " \o x \o "; }" : x \in GoodSql \cup BadSql} \cup
  {DB \o EXT \o "action a() { " \o A14(q) \o " }" : q \in Some(G14 \cup B14, Pick(2, 3))} \cup
  {DB \o EXT \o "action a() { " \o A14(q) \o " } action b() public view { " \o A14(r) \o " } init() { " \o A14(s) \o " }" :
     q \in {<<"select 1">>, <<"e.f()", "select random()">>, <<"select 1", "select 1", "select 1">>},
     r \in {<<"select 1", "e.f()">>, <<"e.f()", "select 1", "SELECT * FROM a, b">>, <<"UPDATE users SET">>},
     s \in Some(G14 \cup B14, 2)} \cup
  {DB \o EXT \o "action a() { " \o A14(q) \o " }" : q \in UNION {UNION {{<<g, b>>, <<b, g>>, <<g, "e.f()", b>>, <<g, g, b, g>>, <<"select 1", b>>, <<b, b>>} : b \in Words14[i].bad, g \in Words14[i].good} : i \in DOMAIN Words14}} \cup
  {DB \o EXT \o "action a() { " \o g \o "; } action b() public { " \o b \o "; } init() { " \o g \o "; }" : <<g, b>> \in UNION {Words14[i].good \X (Words14[i].bad \cup Words14[i].good) : i \in DOMAIN Words14}} \cup
  {DB \o EXT \o "table users { id int, name text } action a($x) view { " \o g \o "; } init() { " \o b \o "; e.f(); }" : <<g, b>> \in UNION {Words14[i].good \X Words14[i].bad : i \in DOMAIN Words14}} \cup
  \* statements that are equal for long, or but for case, layout, quotes
  UNION {{DB \o "action a() { " \o w \o p \o x \o "; } action b() { " \o v \o p \o y \o "; " \o v \o p \o x \o "; }" : w \in {"select "}, v \in {"select ", "SELECT ", "select  ", "select\n"},
     p \in {Join([i \in 1..k |-> "abs(1)"], ", "), "'" \o Rep("y", 4 * k) \o "'"}, <<x, y>> \in {<<", abs(1)", ", sqrt(1)">>, <<"", ", random()">>, <<", 'random()'", ", random()">>, <<"", " from">>}} : k \in {2, 8, 14}} \cup
  \* long statements, forbidden at the front, in the middle, at the end, or not
  {DB \o "action a() { " \o x \o "; }" : x \in UNION {LET L == Join([i \in 1..(k \div 4) |-> "name"], ",")  S == Rep("y", k)  B == Rep(" ", k) IN UNION {
      {"select " \o L \o " from users " \o f, "select '" \o S \o "' from users " \o f, "select *" \o B \o "from users " \o f, "select * from users " \o f \o B,
       "select * from users " \o B \o f, "select * from users " \o f \o " where name in (" \o L \o ")", "select * from users " \o f \o " /*" \o S \o "*/",
       "with q as (select " \o L \o " from users " \o f \o ") select * from q"} : f \in {"", "join posts on users.id = posts.id", "join posts on true", "cross join posts", "where id = random()"}}
      \cup {"insert into users (name) values ('" \o S \o "')" \o f : f \in {"", ", (random())", ", (sqrt(1))"}}
      \cup {"update users set name = '" \o S \o "'" \o f : f \in {" where id = 1", " where id = random()", ", id = sqrt(1)", " where"}}
      \cup {"delete from users" \o B \o "where name = '" \o S \o "'" \o f : f \in {"", " and id = random()", " and id in (select sqrt(1))", " and"}} : k \in Sizes14}} \cup
  {DB \o "action a() { " \o x \o "; }" : x \in UNION {{"select '" \o Rep("y", k) \o "' from users " \o f, "select * from users" \o Rep(" ", k) \o f} : k \in Long14, f \in {"", "join posts on true", "where id = random()"}}} \cup
  {DB \o "action a($" \o Rep("x", k) \o ") { select '" \o Rep("y", k) \o "', " \o x \o "; }" : k \in Sizes, x \in {"1", "random()"}} \cup
  {DB \o Join([i \in 1..k |-> "action a" \o ToString(i) \o "() { select " \o (IF i = j THEN x ELSE "1") \o "; }"], " ") : k \in {3, 10, 30}, j \in {1, 2, 3, 9, 10, 29, 30}, x \in {"1", "sqrt(1)", "from users"}} \cup
  {DB \o "init() { " \o A14([i \in 1..k |-> IF i = j THEN b ELSE "select 1"]) \o " }" : k \in {6, 9}, j \in 0..9, b \in B14} \cup
  {DB \o "action a() { " \o w \o " id from users; " \o v \o " abs(" \o f \o ") from users; }" :
     w \in {"select", "SELECT", "Select", "sElEcT"}, v \in {"select", "SELECT", "seLECt"}, f \in {"id", "random()"}}

-----------------------------------------------------------------------------
(* Rich sources for the families about syntax, layout, and positions. *)
(* one token of each kind *)
Sample == <<"database", "use", "as", "table", "action", "init", "public", "view", "owner", "int", "min", "minlen", "notnull", "primary",
  "default", "unique", "index", "fk", "ref", "on_update", "do", "cascade", "not", "and", ":", ";", "(", "{", ")", "}", ",", "$", "#", "@", ".",
  "=", "+", "-", "*", "||", "==", "<", "!=", "~", "ident", "#hid", "$var", "@blk", "12", "'str'", "select 1 ", "update", "?", "!", "'x", "DATABASE">>
Tricky == <<
  DB \o "use x { a: 'b // c', d: '/* e */' } as y; table t { a text default(' // ') unique, b text default('/*') }\n@n(q='// ,', r=' /* ') action f() { select '// no comment', '/* neither */'; y.g('a // b', '/* c */', ' d'); }",
  DB \o "action f($x) { select\n  id\r\n from users /* kept */ where id = '  ' ; f('\\'' , '\\\\'); } init() { update users set a = ' )' where b = 1;}",
  DB \o "action f($x, $y) { f(1/2, -$y); f($x <= 1, (2)); f(not$x, ''); } table t { a int, fk(a) ref t(a) on_delete do cascade, #i index(a), }",
  DB \o "table t { a int, a text } action f($x) { f($y); select random(); }" >>
All16 == Rich \o Tricky
RichToks == [i \in DOMAIN All16 |-> TLCEval(Lex(All16[i]))]
Texts(ws) == Join([i \in DOMAIN ws |-> ws[i]], " ")
TokTexts(i) == [j \in DOMAIN RichToks[i] |-> RichToks[i][j].t]
(* C15: edits of single tokens, prefixes, swaps, trailing text, character edits *)
EditChars == {"$", "'", "/", "*", "x", "9", "_", ";", "\\", "?", "\"", "@", " "}
C15(i) == LET ws == TokTexts(i)  K == Len(ws) IN
  {Texts(SubSeq(ws, 1, j - 1) \o <<Sample[w]>> \o SubSeq(ws, j + 1, K)) : j \in 1..K, w \in DOMAIN Sample} \cup
  {Texts(SubSeq(ws, 1, j - 1) \o <<Sample[w]>> \o SubSeq(ws, j, K)) : j \in 1..(K + 1), w \in DOMAIN Sample} \cup
  {Texts(SubSeq(ws, 1, j - 1) \o SubSeq(ws, j + 1, K)) : j \in 1..K} \cup
  {Texts(SubSeq(ws, 1, j)) : j \in 0..K} \cup
  {Texts(SubSeq(ws, 1, j - 1) \o <<ws[j + 1], ws[j]>> \o SubSeq(ws, j + 2, K)) : j \in 1..(K - 1)} \cup
  {SubSeq(Rich[i], 1, j - 1) \o SubSeq(Rich[i], j + 1, Len(Rich[i])) : j \in 1..Len(Rich[i])} \cup
  {SubSeq(Rich[i], 1, j) \o c \o SubSeq(Rich[i], j + 1, Len(Rich[i])) : j \in 0..Len(Rich[i]), c \in EditChars}
(* the same with one short source per production: nothing behind the fault that could report it as well *)
Brief == <<"database d;", "database d; use x as y;", "database d; use x { a: 1, b: 'c' } as y;", "database d; table t { a int }",
  "database d; table t { a text min(1) notnull, b blob }", "database d; table t { a int primary unique default('x'), b int max(2), }", "database d; table t { a text maxlen(3) minlen(1) default(4) }",
  "database d; table t { a int, #i index(a) }", "database d; table t { a int, b int, #i unique(a, b), #p primary(b), }",
  "database d; table t { a int, fk (a) ref t (a) }", "database d; table t { a int, b int, fk (a, b) ref t (b, a) on_update do cascade on_delete set_null }",
  "database d; table t { a int, foreign_key (a) references t (a) on_delete no_action, #i index(a) }",
  "database d; action a() { select 1; }", "database d; action a($x, $y) public view owner { select 1; }", "database d; action a($x) { a($x); select 1; }",
  "database d; @n(a=1) action a() { select 1; }", "database d; @n(a=1, b='c') @m(d='e') action a() private { select 1; }", "database d; init() { select 1; }",
  "database d; use x as e; action a($x) { e.f(); $y = e.g(1); $p, $q = e.h($x, 'y'); }", "database d; action a($x) { a(1 + 2 * $x); a(not $x and 1); a(-1 <= (2), @caller); }",
  "database d; action a($x) { a(abs($x), length('y')); a(count(*)); a(count(distinct $x)); }", "database d; action a($x) { a(($x)); a(not ($x = 1) or 2 != 3); }">>
BriefToks == TLCEval([i \in DOMAIN Brief |-> LET ts == Lex(Brief[i]) IN [j \in DOMAIN ts |-> ts[j].t]])
Small == {"x", ",", ";", "(", ")", "{", "}", "1", "'s'", "$v", "@n", "#i", "int", "=", ".", "select 1 "}
C15Brief(any) == UNION {LET ws == BriefToks[i]  K == Len(ws) IN
  {Texts(SubSeq(ws, 1, j - 1) \o SubSeq(ws, j + 1, K)) : j \in 1..K} \cup
  {Texts(SubSeq(ws, 1, j - 1) \o SubSeq(ws, j + 2, K)) : j \in 1..(K - 1)} \cup
  {Texts(SubSeq(ws, 1, j) \o SubSeq(ws, j, K)) : j \in 1..K} \cup
  UNION {{Texts(SubSeq(ws, 1, k) \o SubSeq(ws, k - n, K)) : n \in 1..4} : k \in 7..K} \cup
  {Texts(SubSeq(ws, 1, j - 1) \o <<ws[j + 1], ws[j]>> \o SubSeq(ws, j + 2, K)) : j \in 1..(K - 1)} \cup
  {Texts(SubSeq(ws, 1, j)) : j \in 0..K} : i \in DOMAIN Brief}
C15Put(any) == UNION {LET ws == BriefToks[i]  K == Len(ws) IN
  {Texts(SubSeq(ws, 1, j - 1) \o <<w>> \o SubSeq(ws, j + 1, K)) : j \in 1..K, w \in Small} \cup
  {Texts(SubSeq(ws, 1, j - 1) \o <<w>> \o SubSeq(ws, j, K)) : j \in 1..(K + 1), w \in Small} : i \in DOMAIN Brief}
(* characters that are no white space here, at every seam and at both ends *)
RareChars == {"﻿", " ", "​", "", "", "", " ", "İ", "K", "ｔ", "`", "[", "^", "", "", ""}
C15Rare(any) ==
  UNION {LET ws == TokTexts(i)  K == Len(ws) IN
    {Texts(SubSeq(ws, 1, j)) \o g \o c \o g \o Texts(SubSeq(ws, j + 1, K)) : j \in 0..K, c \in RareChars, g \in {"", " "}} : i \in DOMAIN Rich}
(* and at the ends *)
C15Ends(any) ==
  UNION {{x \o y : y \in {"", " ", "\n"}} : x \in {c \o r : c \in RareChars, r \in ToSet(Rich)} \cup {r \o c : c \in RareChars, r \in ToSet(Rich)} \cup {c \o c \o r : c \in RareChars, r \in ToSet(Rich)}} \cup
  {"database d" \o c \o ";" : c \in RareChars} \cup {c \o "database d;" : c \in RareChars} \cup {"database d;" \o c : c \in RareChars} \cup
  {"database d; table t { a int } " \o x \o y : x \in RareChars \cup {"", " ", "// "}, y \in RareChars \cup {"", "}", "// ", "/*"}} \cup
  {DB \o "action a() { select '" \o c \o "'; } // " \o c : c \in RareChars} \cup {DB \o "/* " \o c \o " */ table t { a text default('" \o c \o "') }" : c \in RareChars} \cup
  {DB \o x \o c \o " t { a int }" : x \in {"table", "action", "tabl"}, c \in RareChars}
(* a fault behind much that is in order *)
FarFaults == {"?", "table x { a int ? }", "table x { a int b }", "table x { a int default('x) }", "action x() { f(!); }", "action x() { f(1 2); }", "action x() { select 1 }", "action x() { f('x); }",
              "table x { a int", "action x($ y) { select 1; }", "`", "table x { a min(1) }", "@", "@n(a=1) table x { a int }", "table x { #i index() }", "use x as y;", "table x { a int, b text }",
              "action x() { f(1); }", "/* x", "init() { select 1; ! }", "init() { f(1)"}
Far(k) == {Rep("\n", k), Rep("// c\n", k), Rep(" ", 3 * k), Rep("/* \r\n */", k), Rep("/* x */ ", k), Rep("init", 1) \o "() {" \o Rep("\nselect 1;", k) \o " }",
           "table t { a int" \o Join([i \in 1..k |-> ", c" \o ToString(i) \o " text"], "") \o " } ",
           Join([i \in 1..(k \div 3) |-> "action a" \o ToString(i) \o "() { f('x', 1); }\n"], ""),
           "table t { a text default('" \o Rep("x", k) \o "') } ", "/* " \o Rep("c", 5 * k) \o " */"}
C15Far(any) ==
  UNION {{"database d; " \o p \o f : p \in Far(k), f \in FarFaults} : k \in Pick({12, 45, 130}, {12, 33, 45, 65, 101, 130, 260})} \cup
  UNION {{DB \o "table t { a int, " \o l \o f \o " b text }" : l \in {Rep("\n", k), Rep("/* c */ ", k), Rep("x int, ", k)}, f \in {"?", "c !", "int", "'x", "#i index(a),"}} : k \in {9, 33, 65, 130}} \cup
  UNION {{DB \o "action a($x) { f(" \o l \o f \o "); }" : l \in {Rep("\n", k), Rep("/* c */ ", k), Rep("1, ", k), Rep("(", k), Rep("abs(", k), Rep("- ", k)}, f \in {"?", "1 !", "not", "'x", "1 1", "$x", "1" \o Rep(")", k)}} : k \in {9, 33, 65, 130}} \cup
  UNION {{DB \o "action a($x) { " \o Rep("e.f();" \o c, k) \o f \o " } action b() { " \o g \o " }" : f \in {"?", "f(", "f(1 1);", "select 1;"}, g \in {"select 1;", "f(! 1);", "f(~ 1);", "g(1 1);"}, c \in {"", "\n"}} : k \in {9, 33, 65}}
(* argument lists: every token sequence up to a length *)
ArgToks == {"1", "$x", "(", ")", ",", "+", "not", "abs", "*", "and"}
C15Args(any) ==
  {Act("e.f(" \o Join(q, " ") \o ");") : q \in UpTo(ArgToks, Pick(3, 4))}
(* heads and bodies out of pieces *)
C15Heads(any) ==
  {"database d; " \o Join(q, " ") : q \in UpTo({"use", "x", "as", ";", "{", "}", "a : 1", ","}, Pick(3, 5))}
   \cup {"database d; table t { a " \o Join(q, " ") \o " }" : q \in UpTo({"int", "notnull", "min", "(1)", "('a')", "default", ",", "b text", "#i index(a)"}, Pick(3, 4))}
   \cup {"database d; action a " \o Join(q, " ") : q \in UpTo({"(", ")", "$x", ",", "public", "{", "select 1;", "a();", "}"}, Pick(3, 5))}
   \cup {"database d; table t { a int, " \o Join(q, " ") \o " }" : q \in UpTo({"fk", "(a)", "ref t", "on_update", "do", "cascade", ","}, Pick(3, 5))}

-----------------------------------------------------------------------------
(* C16: what stands between two tokens *)
Layouts == {"", " ", "  ", "\t", "\n", "\r", "\r\n", "\n\n\t ", "/* c */", "/**/", "/* ; } */", "// x\n", "//\r", "/***/", "/* ' \n */", "//'\n", "/* @a(b=1) */", "// database q;\n", "/* $x */ // y\n",
  "/**@n(a=1)*/", "/** @n(a='b') */ ", "//@n(a=1)\n", "/* action x() { select 1; } */", "/*+ view */", "/*! owner */", "//go:x\n", "/* , b int */", "/*)*/", "/*// */", "//*/\n"}
Lay(i, f) == LET ts == RichToks[i] IN    \* the tokens of source i with f[j] before token j
  FoldLeftDomain(LAMBDA acc, j : acc \o (IF j > 1 /\ ts[j - 1].t = "/" /\ Len(f[j]) > 0 /\ SubSeq(f[j], 1, 1) = "/" THEN " " ELSE "") \o f[j] \o ts[j].t, "", ts)
  \o f[Len(ts) + 1]
MinSep(i, j) == LET ts == RichToks[i] IN IF j = 1 \/ j > Len(ts) THEN 1 ELSE Sep(ts[j - 1], ts[j])
Plain(i) == [j \in 1..(Len(RichToks[i]) + 1) |-> IF MinSep(i, j) = 2 THEN " " ELSE ""]
MayStand(i, j, x) == CASE MinSep(i, j) = 0 -> x = "" [] MinSep(i, j) = 2 -> x # "" [] OTHER -> TRUE
C16(i) == LET K == Len(RichToks[i]) + 1 IN
  {Lay(i, [Plain(i) EXCEPT ![j] = x]) : <<j, x>> \in {y \in (1..K) \X Layouts : MayStand(i, y[1], y[2])}} \cup
  {Lay(i, [j \in 1..K |-> IF MinSep(i, j) = 0 THEN "" ELSE x]) : x \in Layouts \ {""}} \cup
  {Lay(i, [j \in 1..K |-> IF MinSep(i, j) = 0 THEN "" ELSE IF j % m = 0 THEN x ELSE y]) : m \in 2..3, x \in Layouts \ {""}, y \in Pick({" ", "\r\n"}, Layouts \ {""})}
(* the meaning does not depend on the layout *)
LayoutFree == (Done /\ Family = "C16") => \E i \in DOMAIN All16 :
  /\ [j \in DOMAIN vTs |-> vTs[j].t] = TokTexts(i)
  /\ vOut = "ok" => Schema(D) = Schema(Parse(RichToks[i]).d)

-----------------------------------------------------------------------------
(* C18: several faults at once, and positions *)
FaultDecls == <<"use x as e; use y as e;", "table dt { a int } table dt { a int }", "table dc { a int, a int }",
  "table da { a int min(1) min(2) }", "table an { a int minlen(1) }", "table di { a int, #i index(a), #i index(a) }",
  "table ic { a int, #i index(b) }", "table fc { a int, fk (b) ref fc (a) }", "table fp { a int, fk (a) ref nope (a) }",
  "table fd { a int, fk (a) ref fd (a) on_update cascade on_update cascade }", "action da() { select 1; } action da() { select 1; }",
  "action dp($a, $a) { select 1; }", "action av() public private { select 1; }", "action am() view view { select 1; }",
  "action ao() owner owner { select 1; }", "action ca() { nope(); }", "action ce() { nope.f(); }", "action va() { va($z); }",
  "use z as zz;", "action sq() { select random(); }", "init() { select 1; } init() { select 1; }">>
IsUse(k) == k \in {1, 19}
Srt(a, b) == IF IsUse(b) /\ ~ IsUse(a) THEN <<b, a>> ELSE <<a, b>>
F18(q) == DB \o Join([i \in DOMAIN q |-> FaultDecls[q[i]]], "\n")
Lead == {"", "\n", "\n\n  ", "\t", "// é ü\n", "/* a\nb */ ", "\r\n", "\r", "/* ñ */"}
Errs == {"?", "!", "'open", "database", "}", "$ x", "table", "use y as z;", "\"", "é", "action a() { select 1 }", "table { a int }",
         "table t { }", "action a( { select 1; }", "init { select 1; }", "table t { a int b int }", "#x", "@n(a=1) table t { a int }",
         "action a() { }", "init() { $x e.f(); }", "action a() { e.f(1 2); }", "table t { a int, fk a ref b (c) }", "action \n  a\n ()\n { x.(); }"}
(* every kind of fault in other places *)
Faults2 == {"table t { a int, #b index(a), #a index(a) }", "table t { a int, #a unique(a), #a unique(a) }", "table t { a int, #i index(a), #j index(i) }", "table t { #i index(a), a int }",
  "table t { a int, b text, #i index(a, b, c) }", "table t { a int, fk (a, b) ref t (a) }", "table t { a int, fk (a) ref t (a, b) }", "table t { a int, fk (a) ref u (a) }", "table u { b int } table t { a int, fk (a) ref u (a) }",
  "table t { a int } action t() { select 1; } table t { b int }", "table t { a text min(1) }", "table t { a text notnull max(1) default('x') }", "table t { a int primary primary }", "table t { a blob min(1), b blob min(1) max(2) min(3) }",
  "table t { a int default(1) default(1) }", "table t { b int, a int, c int, a text }", "action a($x, $y, $x) { select 1; }", "action a($x) { a($y); }", "action a($x) { $y = a($x); }", "use x as e; action a() { $y = e.f($y); }",
  "use x as e; action a() { $y, $y = e.f(); }", "use x as e; action a() { e(); }", "use x as e; action a() { x.f(); }", "use x as e; action a() { a.f(); }", "action a() { a(@caller, @other); }", "action a() { a(abs(1 + $z)); }",
  "action a() { b(); } action c() { select 1; }", "action a() view public view { select 1; }", "action a() private public { select 1; }", "action a() owner public owner { select 1; }", "action a() private private view view owner owner { select 1; }",
  "action a() { select 1; select random(); }", "init() { select 1; update users set; }", "action a() { a(nofn(1)); }", "action a() { a(1 || 2); }", "table t { a int, fk (a) ref t (a) on_delete cascade on_update cascade on_delete restrict }",
  "init() { init(); } init() { init(); }", "use x as a; use y as b; use z as a;", "action a() { a(); } action b() { select 1; } action a() { a(); }"}
C18(any) ==
  {DB \o f : f \in Faults2} \cup {DB \o (IF SubSeq(f, 1, 3) = "use" THEN f \o " table q { r int } action s() { select 1; }" ELSE "table q { r int, #w index(r) } action s($p) { select 1; } " \o f) : f \in Faults2} \cup
  {DB \o f \o " " \o g : f \in Faults2, g \in {h \in Faults2 : SubSeq(h, 1, 3) # "use"}} \cup
  {F18(<<i>>) : i \in DOMAIN FaultDecls} \cup
  {F18(Srt(y[1], y[2])) : y \in {z \in (DOMAIN FaultDecls) \X (DOMAIN FaultDecls) : z[1] # z[2]}} \cup
  {F18(<<i, j, k>>) : <<i, j, k>> \in {z \in (2..18) \X (2..18) \X (2..21) : Deep /\ z[1] # z[2] /\ z[2] # z[3] /\ z[1] # z[3] /\ z[3] # 19}} \cup
  {l \o "database d;" \o m \o "table t1 { a text default('" \o s \o "') }" \o m \o e : l \in Lead, m \in Pick({" ", "\n", "// é\n\t"}, Lead), s \in {"x", "é"}, e \in Errs} \cup
  {F18(<<i>>) \o m \o e : i \in DOMAIN FaultDecls, m \in {"\n", " /* \n */"}, e \in {"?", "}", "table"}}

-----------------------------------------------------------------------------
(* C27: aliases that are the names, alone and among others *)
C27(any) ==
  {DB \o "use " \o n \o " as " \o n \o "; use " \o m \o " as " \o k \o "; action a($x) { " \o c \o "; }" :
     n \in {"x", "y"}, m \in {"x", "y", "z"}, k \in {"x", "y", "z"}, c \in {"select 1", "x.f()", "$r = y.g($x)", "z.h(1)", "a(1)", "$r, $r = x.f()", "x.f($u)", "select random()"}} \cup
  {DB \o "use x as x; action a($x) { " \o c \o "; " \o e \o "; }" : c \in {"select 1", "SELECT  *\n FROM users", "x.f()", "a($x)"}, e \in {"select 1", "update users set id = 1", "x . f ( 1 )", "insert into users"}}
-----------------------------------------------------------------------------
Members ==
  CASE Family = "C01" -> C01(0) [] Family = "C02" -> C02(0) [] Family = "C03" -> C03(0) [] Family = "C04" -> C04(0)
    [] Family = "C05" -> C05(0) [] Family = "C06" -> C06(0) [] Family = "C07" -> C07(0) [] Family = "C08" -> C08(0)
    [] Family = "C09" -> C09(0) [] Family = "C10" -> C10(0) [] Family = "C11" -> C11(0) [] Family = "C12" -> C12(0)
    [] Family = "C13" -> C13(0) [] Family = "C14" -> C14(0)
    [] Family = "C15" -> UNION {C15(i) : i \in DOMAIN Rich}
    [] Family = "C15b" -> C15Args(0) \cup C15Heads(0)
    [] Family = "C15c" -> C15Rare(0)
    [] Family = "C15d" -> C15Far(0)
    [] Family = "C15e" -> C15Ends(0)
    [] Family = "C15f" -> C15Brief(0)
    [] Family = "C15g" -> C15Put(0)
    [] Family = "C16" -> UNION {C16(i) : i \in DOMAIN All16}
    [] Family = "C18" -> C18(0)
    [] Family = "C27" -> C27(0)
    [] Family = "Pool" -> Pool(0)
    [] Family = "Mix" -> C01(0) \cup C02(0) \cup C03(0) \cup C04(0) \cup C05(0) \cup C06(0) \cup C07(0) \cup C13(0)
    [] Family = "Sem" -> C07(0) \cup C08(0) \cup C09(0) \cup C10(0) \cup C11(0) \cup C12(0) \cup C13(0) \cup C14(0)
Listed == SetToSeq(Members)
Chosen == TLCEval({i \in DOMAIN Listed : i % Stride = Off % Stride /\ (i \div Stride) % Shards = Shard})

GenInit == \E i \in Chosen : Start(Listed[i])
GenSpec == GenInit /\ [][CompileNext]_vars

(* One line per explored source: what the implementation must answer. *)
Line(mg) == [src |-> vSrc, toks |-> [i \in DOMAIN vTs |-> <<vTs[i].t, IF i = Len(vTs) THEN 1 ELSE Sep(vTs[i], vTs[i + 1])>>],
   ok |-> mg.ok, fail |-> mg.fail, cls |-> SetToSeq(mg.cls), at |-> SetToSeq(mg.at), out |-> vOut,
   schema |-> IF vP.q = "ACC" THEN <<Schema(D)>> ELSE << >>,
   anns |-> IF vOut = "ok" THEN [i \in DOMAIN D.actions |-> [j \in DOMAIN D.actions[i].anns |-> ReadAnn(D.actions[i].anns[j])]] ELSE << >>]
Emit == Done => Bind(Meaning(vSrc), LAMBDA mg : PrintT(ToJson(Line(mg))))
=============================================================================
