------------------------------- MODULE KfPool -------------------------------
(* Sources used in several places. *)
EXTENDS KfSem

DB == "database d;\n"

Rich == <<
  DB \o "use ext { a: 1, b: 'x' } as e;\nuse o as p;\ntable t { id int primary notnull, nm text maxlen(10) default('q'), #i unique(id, nm), fk (id) ref t (id) on_update do cascade on_delete set_null, }",
  DB \o "use ext as e; @n(a=1, b='x') @m(c='y')\naction act ($x, $y) public view owner { select 1; $r, $s = e.f($x, -1 + abs(@caller), not (2 and 'a')); act(); }\ninit () { delete from users; }",
  "database q; action a($x) { b($x); } action b($k) private { a(count(*)); } table z { a blob }" >>
(* small pools for the checks of sessions, modes, artifacts *)
Pool(any) ==
  {DB, "", "database", Rich[1], Rich[2], Rich[3], DB \o "table t { a int, b int }", DB \o "table t { a int, a int }",
   DB \o "action a() public { select 1; }", DB \o "action a() { select random(); }", DB \o "action a() { a(1 and not 2); }",
   DB \o "action a() { b(); }", DB \o "use x as e; action a() { $v = e.f(); e.f($v); }", DB \o "use x as e; action a() { e.f($v); }",
   DB \o "init() { select 1; }", DB \o "init() { select 1; } init() { select 1; }", DB \o "action a() public public { select 1; }",
   DB \o "action a() owner view private { select 1; } action b() { select 1; }", DB \o "table t { a int ?", "?", DB \o "}",
   DB \o "@n(a='q') action a($x) { select $x; }", DB \o "use e { a: 1 } as f; use e as g;", DB \o "use e as f; use g as f;",
   DB \o "table t { a text default('<&>') }", DB \o "table p { i int } table c { i int, fk (i) ref p (i) on_update cascade }"}

=============================================================================
