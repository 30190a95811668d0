------------------------------- MODULE KfSql -------------------------------
(***************************************************************************)
(* The SQL level.  SQL validity is decided by a library; the obligation of *)
(* Kuneiform is to consult it for every statement.  This module describes  *)
(* the part of the dialect the checks use: statements known to be valid,   *)
(* and statements known to be forbidden (docs/syntax.md) or malformed,     *)
(* built from expression positions and from whole-statement shapes.  For   *)
(* any other text the specification leaves the verdict open ("unknown").   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* --- every place of a statement where an expression can stand --- *)
Positions == <<
  <<"select ", "">>,
  <<"select id, ", " from users">>,
  <<"select id from users where ", " = 1">>,
  <<"select id from users where id = ", "">>,
  <<"select id from users where id in (1, ", ")">>,
  <<"select name from users group by ", "">>,
  <<"select id from users order by ", " desc">>,
  <<"select case when ", " then 1 else 2 end from users">>,
  <<"select (select ", ") from users">>,
  <<"select id from users union select ", "">>,
  <<"select count(", ") from users">>,
  <<"with q as (select ", ") select * from q">>,
  <<"insert into users (id, name) values (1, ", ")">>,
  <<"insert into users (id) values (2), (", ")">>,
  <<"insert into users (id) values (1) on conflict (id) do update set name = ", "">>,
  <<"insert into users (id) values (1) returning ", "">>,
  <<"update users set name = 'a', id = ", " where id = 1">>,
  <<"update users set id = 2 where id = ", "">>,
  <<"delete from users where id = ", "">>,
  <<"delete from users where id in (select id from posts where id = ", ")">> >>

At(p, x) == Positions[p][1] \o x \o Positions[p][2]

GoodExprs == {"1", "'a'", "null", "true", "$x", "@caller", "id", "abs(id)", "lower('A')", "length(name)",
              "upper(lower(name))", "format('%d', id)", "id + 1 * 2", "(id - 3)", "-id", "'it''s'"}

(* Functions docs/syntax.md forbids, with arguments. *)
ForbiddenCalls == {"date('now')", "datetime('now')", "time('now')", "julianday('now')",
  "unixepoch('now')", "strftime('%s', 'now')", "random()", "randomblob(4)", "changes()",
  "last_insert_rowid()", "total_changes()", "acos(1)", "acosh(1)", "asin(1)", "asinh(1)",
  "atan(1)", "atan2(1, 2)", "atanh(1)", "ceil(1)", "ceiling(1)", "cos(1)", "cosh(1)",
  "degrees(1)", "exp(1)", "floor(1)", "ln(1)", "log(1)", "log10(1)", "log2(1)", "mod(1, 2)",
  "pi()", "pow(1, 2)", "power(1, 2)", "radians(1)", "sin(1)", "sinh(1)", "sqrt(1)", "tan(1)",
  "tanh(1)", "trunc(1)", "RANDOM()", "Random()", "abs(random())", "1 + random()", "(random())"}
MalformedExprs == {"foo(1)", "1 +", "(1", "1)", ", 1", "a b c", "1.5", "x..y", "select"}

GoodShapes == {
  "select * from users", "SELECT * FROM users", "Select id FROM users",
  "select id, name as n from users as u", "select u.id, u.* from users as u",
  "select distinct name from users", "select count(*) from users", "select count(distinct id) from users",
  "select name, count(*) from users group by name having count(*) > 1",
  "select id from users where id between 1 and 3 and name is not null",
  "select id from users where name like '%x%' or not id > 3",
  "select id from users where exists (select 1 from posts)",
  "select id from users where id not in (1, 2, $x)",
  "select id from users order by id desc, name asc limit 10 offset 5",
  "select u.id from users as u inner join posts as p on u.id = p.uid",
  "select u.id from users as u left join posts as p on u.id = p.uid",
  "select u.id from users as u join posts as p on u.id = p.uid join tags as t on t.id = p.id",
  "select id from users union all select id from posts",
  "select id from users intersect select id from posts",
  "select id from users except select id from posts",
  "select id from (select id from users) as q",
  "select id collate nocase from users", "select id::text from users",
  "select \"id\" from \"users\"", "select id from users /* no */", "select\n  id\n  from\tusers",
  "select id from users where owner = @caller and h = @block_height",
  "insert into users values (1, 'a')", "INSERT INTO users (id, name) VALUES ($id, $name), (2, 'b')",
  "insert into users (id, name) values (1, 'a') on conflict do nothing",
  "insert into users (id, name) values (1, 'a') on conflict (id) do update set name = excluded.name where id = 1",
  "insert into users (id) values (1) returning *",
  "update users set name = $n where id = $id", "UPDATE users SET name = 'a', id = 2",
  "update users as u set name = 'a' where u.id = 1 returning *",
  "update users set name = posts.t from posts where users.id = posts.uid",
  "delete from users", "DELETE FROM users WHERE id = 1", "delete from users where id = 1 returning id",
  "with q as (select id from users), r as (select id from posts) select q.id from q",
  "with q (id) as (select id from users) select id from q",
  "With q as (select id from users) delete from posts where id in (select id from q)",
  "with q as (select id from users) update posts set id = 1" }

(* Forbidden joins, other dialects' statements, and malformed statements. *)
BadShapes == {
  "select * from users, posts", "select * from users cross join posts",
  "select * from users natural join posts", "select * from users join posts",
  "select * from users join posts on true",
  "select * from users as u join posts as p on u.id = 1",
  "select * from users as u join posts as p on u.id > p.id",
  "select * from users as u join posts as p on u.id = p.id and u.x = p.y",
  "select * from users as u join posts as p using (id)",
  "select * from (select * from users, posts) as q",
  "select id from users where id in (select u.id from users as u join posts as p on true)",
  "with q as (select * from users join posts on true) select * from q",
  "SELECT * FROM users JOIN posts ON true",
  "select from users", "select * from", "select * users", "select id from users where",
  "select id from users order", "select id from users limit", "select 1 where", "select select",
  "select count(", "select 1,", "select id from users limit 1, 2",
  "insert users values (1)", "insert into users (id values (1)", "insert into users (id) values",
  "insert into users", "insert into users (id) select id from posts",
  "insert or replace into users (id) values (1)",
  "update users name = 1", "update users set", "update set id = 1", "UPDATE users SET",
  "delete users", "delete from", "DELETE FROM where id = 1",
  "with q select 1", "with recursive q as (select 1) select * from q", "WITH q AS select 1" }

GoodSql == {At(p, e) : p \in DOMAIN Positions, e \in GoodExprs} \cup GoodShapes
BadSql  == {At(p, e) : p \in DOMAIN Positions, e \in ForbiddenCalls \cup MalformedExprs} \cup BadShapes

(* A statement carries its semicolon; trailing white space before it does not matter. *)
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) \in {" ", "\t", "\n", "\r"}
            THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* The catalogues by text length: TLC searches sets from end to end. *)
MaxLen == 160
GoodOf == TLCEval([n \in 1..MaxLen |-> {x \in GoodSql : Len(x) = n}])
BadOf  == TLCEval([n \in 1..MaxLen |-> {x \in BadSql : Len(x) = n}])
ASSUME \A x \in GoodSql \cup BadSql : Len(x) \in 1..MaxLen

(* What is known of a text from elsewhere: in recorded runs, what the SQL library itself *)
(* (the environment of the compiler) answered when asked for it.                       *)
SqlLib(b) == "unknown"

SqlVerdict(text) ==
  LET b == RTrim(SubSeq(text, 1, Len(text) - 1)) IN
  IF Len(b) \in 1..MaxLen /\ b \in GoodOf[Len(b)] THEN "good"
  ELSE IF Len(b) \in 1..MaxLen /\ b \in BadOf[Len(b)] THEN "bad" ELSE SqlLib(b)

ASSUME GoodSql \cap BadSql = {}

(* Kuneiform checks function names in call arguments against this list (any letter case). *)
CallFns == {"abs", "length", "lower", "upper", "format", "count", "sum", "error"}
=============================================================================
