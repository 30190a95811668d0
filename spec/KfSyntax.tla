------------------------------ MODULE KfSyntax ------------------------------
(***************************************************************************)
(* The syntactic level of Kuneiform, as a deterministic push-down          *)
(* recogniser that reads one token at a time and builds the document.      *)
(*                                                                         *)
(* A parser configuration is a record                                      *)
(*   q    control state; "ACC" after the end of file, "ERR" after the      *)
(*        first token that cannot continue any grammatical source          *)
(*   d    the document built so far                                        *)
(*   stk  open parentheses of the current call: "call", "par" or "fn"      *)
(*   and the declaration being read: ext, tab, col, at, idx, fk, act, st,  *)
(*   arg, on, ini                                                          *)
(*                                                                         *)
(* Document:                                                               *)
(*  [name, exts, tables, actions, inits]                                   *)
(*   ext    [name, cfg: Seq([argument, value]), alias]                     *)
(*   table  [name, cols: Seq([name, type, attrs: Seq([type, value])]),     *)
(*           idxs: Seq([name, type, cols]),                                *)
(*           fks: Seq([child, ptable, parent, acts: Seq([on, do])])]       *)
(*   action [name, anns, params, mods, stmts]      inits: Seq(Seq(stmt))   *)
(*   stmt   [k |-> "sql", text]  or                                        *)
(*          [k |-> "call", recv, ext, fn, toks: Seq(token), vars, blocks,  *)
(*           fns, ops]                                                     *)
(***************************************************************************)
EXTENDS KfLex

Types == {"int", "text", "blob"}
FlagAttrs == {"primary", "notnull", "unique"}
NumAttrs == {"min", "max", "minlen", "maxlen"}
Mods == {"public", "private", "view", "owner"}
Reactions == {"no_action", "cascade", "set_null", "set_default", "restrict"}
Literals == {"NUM", "STR"}
PrefixOps == {"+", "-", "~", "not"}
BinOps == {"||", "*", "/", "%", "+", "-", "<<", ">>", "&", "|", "<", "<=", ">", ">=",
           "=", "==", "!=", "<>", "and", "or"}
EOF == "EOF"

EmptyDoc == [name |-> "", exts |-> << >>, tables |-> << >>, actions |-> << >>, inits |-> << >>]
EmptyExt == [name |-> "", cfg |-> << >>, alias |-> ""]
EmptyTab == [name |-> "", cols |-> << >>, idxs |-> << >>, fks |-> << >>]
EmptyCol == [name |-> "", type |-> "", attrs |-> << >>]
EmptyIdx == [name |-> "", type |-> "", cols |-> << >>]
EmptyFk  == [child |-> << >>, ptable |-> "", parent |-> << >>, acts |-> << >>]
EmptyAct == [name |-> "", anns |-> << >>, params |-> << >>, mods |-> << >>, stmts |-> << >>]
EmptySt  == [k |-> "call", recv |-> << >>, ext |-> "", fn |-> "", toks |-> << >>,
             vars |-> << >>, blocks |-> << >>, fns |-> << >>, ops |-> << >>]

P0 == [q |-> "start", d |-> EmptyDoc, stk |-> << >>, ext |-> EmptyExt, tab |-> EmptyTab,
       col |-> EmptyCol, at |-> "", idx |-> EmptyIdx, fk |-> EmptyFk, act |-> EmptyAct,
       st |-> EmptySt, arg |-> "", on |-> "", ini |-> FALSE, ann |-> ""]

Go(p, q) == [p EXCEPT !.q = q]
Bad(p)   == [p EXCEPT !.q = "ERR"]

Tail1(t) == SubSeq(t, 2, Len(t))     \* text without its first character

AddAttr(p, a, v) == [p EXCEPT !.col.attrs = Append(@, [type |-> a, value |-> v]), !.q = "c2"]
EndCol(p) == [p EXCEPT !.tab.cols = Append(@, p.col), !.col = EmptyCol]
EndIdx(p) == [p EXCEPT !.tab.idxs = Append(@, p.idx), !.idx = EmptyIdx]
EndFk(p)  == [p EXCEPT !.tab.fks = Append(@, p.fk), !.fk = EmptyFk]
EndTab(p) == [p EXCEPT !.d.tables = Append(@, p.tab), !.tab = EmptyTab, !.q = "top1"]
EndAct(p) == IF p.ini THEN [p EXCEPT !.d.inits = Append(@, p.act.stmts), !.act = EmptyAct,
                                     !.ini = FALSE, !.q = "top1"]
             ELSE [p EXCEPT !.d.actions = Append(@, p.act), !.act = EmptyAct, !.q = "top1"]

Tok2(tk) == [k |-> tk.k, t |-> tk.t]

(* reading a token of a call statement *)
Tk(p, tk, q) == [p EXCEPT !.st.toks = Append(@, Tok2(tk)), !.q = q]

Top(p, tk) ==
  LET k == tk.k IN
  CASE k = "table"  -> Go(p, "t1")
    [] k = "AT"     -> [p EXCEPT !.ann = Tail1(tk.t), !.q = "n2"]
    [] k = "action" -> Go(p, "a1")
    [] k = "init"   -> [p EXCEPT !.ini = TRUE, !.q = "i1"]
    [] k = EOF      -> Go(p, "ACC")
    [] OTHER        -> Bad(p)

(* after a comma inside a table: index or foreign key, or the end *)
Item(p, tk) ==
  CASE tk.k = "HASHID" -> [p EXCEPT !.idx.name = Tail1(tk.t), !.q = "x1"]
    [] tk.k \in {"foreign_key", "fk"} -> Go(p, "f1")
    [] tk.k = "}" -> EndTab(p)
    [] OTHER -> Bad(p)

FkEvent(p, k) == [p EXCEPT !.on = IF k = "on_update" THEN "UPDATE" ELSE "DELETE", !.q = "f10"]
FkReact(p, k) == [p EXCEPT !.fk.acts = Append(@, [on |-> p.on, do |-> k]), !.q = "f9"]

Operand(p, tk) ==
  CASE tk.k \in Literals -> Tk(p, tk, "O")
    [] tk.k = "VAR" -> [Tk(p, tk, "O") EXCEPT !.st.vars = Append(@, tk.t)]
    [] tk.k = "AT"  -> [Tk(p, tk, "O") EXCEPT !.st.blocks = Append(@, tk.t)]
    [] tk.k = "ID"  -> [Tk(p, tk, "E2") EXCEPT !.arg = tk.t]
    [] tk.k = "("   -> [Tk(p, tk, "E") EXCEPT !.stk = Append(@, "par")]
    [] tk.k \in PrefixOps -> [Tk(p, tk, "E") EXCEPT !.st.ops = Append(@, <<"pre", tk.k>>)]
    [] OTHER -> Bad(p)

Close(p, tk) ==   \* a ')' that ends the innermost open parenthesis
  LET top == p.stk[Len(p.stk)]
      p2 == [Tk(p, tk, IF top = "call" THEN "g9" ELSE "O")
               EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
  IN p2

StmtStart(p, tk) ==
  CASE tk.k = "SQL" -> [p EXCEPT !.st = [k |-> "sql", text |-> tk.t], !.q = "b2"]
    [] tk.k = "VAR" -> [Tk([p EXCEPT !.st = EmptySt], tk, "r1") EXCEPT !.st.recv = <<tk.t>>]
    [] tk.k = "ID"  -> [Tk([p EXCEPT !.st = EmptySt], tk, "g1") EXCEPT !.st.fn = tk.t]
    [] OTHER -> Bad(p)

Step(p, tk) ==
  LET k == tk.k  t == tk.t  q == p.q IN
  CASE q = "E"  -> Operand(p, tk)
    [] q = "O"  -> IF k \in BinOps THEN [Tk(p, tk, "E") EXCEPT !.st.ops = Append(@, <<"bin", k>>)]
                   ELSE IF k = ")" THEN Close(p, tk)
                   ELSE IF k = "," /\ p.stk[Len(p.stk)] # "par" THEN Tk(p, tk, "E")
                   ELSE Bad(p)
    [] q = "E2" -> IF k = "(" THEN Tk(p, tk, "E3") ELSE Bad(p)       \* function name read
    [] q = "E3" -> IF k = "*" THEN Tk(p, tk, "E4")                   \* f( read
                   ELSE IF k = ")" THEN [Tk(p, tk, "O") EXCEPT !.st.fns = Append(@, p.arg)]
                   ELSE Operand([p EXCEPT !.stk = Append(@, "fn"), !.st.fns = Append(@, p.arg)], tk)
    [] q = "E4" -> IF k = ")" THEN Tk(p, tk, "O") ELSE Bad(p)        \* f(* read
    \* ---- statements
    [] q = "b1" -> StmtStart(p, tk)
    [] q = "b1r" -> IF k = "}" THEN EndAct(p) ELSE StmtStart(p, tk)
    [] q = "b2" -> IF k = ";" THEN [p EXCEPT !.st.text = @ \o ";", !.q = "b1r",
                                       !.act.stmts = Append(@, [p.st EXCEPT !.text = @ \o ";"])]
                   ELSE Bad(p)
    [] q = "r1" -> IF k = "," THEN Tk(p, tk, "r2") ELSE IF k = "=" THEN Tk(p, tk, "r3") ELSE Bad(p)
    [] q = "r2" -> IF k = "VAR" THEN [Tk(p, tk, "r1") EXCEPT !.st.recv = Append(@, t)] ELSE Bad(p)
    [] q = "r3" -> IF k = "ID" THEN [Tk(p, tk, "g1") EXCEPT !.st.fn = t] ELSE Bad(p)
    [] q = "g1" -> IF k = "." THEN Tk(p, tk, "g2")
                   ELSE IF k = "(" THEN [Tk(p, tk, "h0") EXCEPT !.stk = <<"call">>] ELSE Bad(p)
    [] q = "g2" -> IF k = "ID" THEN [Tk(p, tk, "g3") EXCEPT !.st.ext = p.st.fn, !.st.fn = t] ELSE Bad(p)
    [] q = "g3" -> IF k = "(" THEN [Tk(p, tk, "h0") EXCEPT !.stk = <<"call">>] ELSE Bad(p)
    [] q = "h0" -> IF k = ")" THEN Close(p, tk)
                   ELSE IF k = "," THEN Tk(p, tk, "E")     \* the grammar lets the first argument be missing
                   ELSE Operand(p, tk)
    [] q = "g9" -> IF k = ";" THEN LET p2 == Tk(p, tk, "b1r") IN
                                   [p2 EXCEPT !.act.stmts = Append(@, p2.st), !.st = EmptySt, !.stk = << >>]
                   ELSE Bad(p)
    \* ---- tables
    [] q = "t1" -> IF k = "ID" THEN [p EXCEPT !.tab.name = t, !.q = "t2"] ELSE Bad(p)
    [] q = "t2" -> IF k = "{" THEN Go(p, "t3") ELSE Bad(p)
    [] q = "t3" -> IF k = "ID" THEN [p EXCEPT !.col.name = t, !.q = "c1"] ELSE Bad(p)
    [] q = "c1" -> IF k \in Types THEN [p EXCEPT !.col.type = k, !.q = "c2"] ELSE Bad(p)
    [] q = "c2" -> IF k \in FlagAttrs THEN AddAttr(p, k, "")
                   ELSE IF k = "default" THEN [p EXCEPT !.at = k, !.q = "cd1"]
                   ELSE IF k \in NumAttrs THEN [p EXCEPT !.at = k, !.q = "cn1"]
                   ELSE IF k = "," THEN Go(EndCol(p), "t4")
                   ELSE IF k = "}" THEN EndTab(EndCol(p)) ELSE Bad(p)
    [] q = "cd1" -> IF k = "(" THEN Go(p, "cd2") ELSE Bad(p)
    [] q = "cd2" -> IF k \in Literals THEN [p EXCEPT !.arg = t, !.q = "cd3"] ELSE Bad(p)
    [] q = "cn1" -> IF k = "(" THEN Go(p, "cn2") ELSE Bad(p)
    [] q = "cn2" -> IF k = "NUM" THEN [p EXCEPT !.arg = t, !.q = "cd3"] ELSE Bad(p)
    [] q = "cd3" -> IF k = ")" THEN AddAttr(p, p.at, p.arg) ELSE Bad(p)
    [] q = "t4" -> IF k = "ID" THEN [p EXCEPT !.col.name = t, !.q = "c1"] ELSE Item(p, tk)
    [] q = "t5" -> Item(p, tk)
    [] q = "x1" -> IF k \in {"unique", "index", "primary"} THEN [p EXCEPT !.idx.type = k, !.q = "x2"] ELSE Bad(p)
    [] q = "x2" -> IF k = "(" THEN Go(p, "x3") ELSE Bad(p)
    [] q = "x3" -> IF k = "ID" THEN [p EXCEPT !.idx.cols = Append(@, t), !.q = "x4"] ELSE Bad(p)
    [] q = "x4" -> IF k = "," THEN Go(p, "x3") ELSE IF k = ")" THEN Go(EndIdx(p), "x5") ELSE Bad(p)
    [] q = "x5" -> IF k = "," THEN Go(p, "t5") ELSE IF k = "}" THEN EndTab(p) ELSE Bad(p)
    [] q = "f1" -> IF k = "(" THEN Go(p, "f2") ELSE Bad(p)
    [] q = "f2" -> IF k = "ID" THEN [p EXCEPT !.fk.child = Append(@, t), !.q = "f3"] ELSE Bad(p)
    [] q = "f3" -> IF k = "," THEN Go(p, "f2") ELSE IF k = ")" THEN Go(p, "f4") ELSE Bad(p)
    [] q = "f4" -> IF k \in {"references", "ref"} THEN Go(p, "f5") ELSE Bad(p)
    [] q = "f5" -> IF k = "ID" THEN [p EXCEPT !.fk.ptable = t, !.q = "f6"] ELSE Bad(p)
    [] q = "f6" -> IF k = "(" THEN Go(p, "f7") ELSE Bad(p)
    [] q = "f7" -> IF k = "ID" THEN [p EXCEPT !.fk.parent = Append(@, t), !.q = "f8"] ELSE Bad(p)
    [] q = "f8" -> IF k = "," THEN Go(p, "f7") ELSE IF k = ")" THEN Go(p, "f9") ELSE Bad(p)
    [] q = "f9" -> IF k \in {"on_update", "on_delete"} THEN FkEvent(p, k)
                   ELSE IF k = "," THEN Go(EndFk(p), "t5")
                   ELSE IF k = "}" THEN EndTab(EndFk(p)) ELSE Bad(p)
    [] q = "f10" -> IF k = "do" THEN Go(p, "f11") ELSE IF k \in Reactions THEN FkReact(p, k) ELSE Bad(p)
    [] q = "f11" -> IF k \in Reactions THEN FkReact(p, k) ELSE Bad(p)
    \* ---- the top level
    [] q = "start" -> IF k = "database" THEN Go(p, "s1") ELSE Bad(p)
    [] q = "s1" -> IF k = "ID" THEN [p EXCEPT !.d.name = t, !.q = "s2"] ELSE Bad(p)
    [] q = "s2" -> IF k = ";" THEN Go(p, "top0") ELSE Bad(p)
    [] q = "top0" -> IF k = "use" THEN Go(p, "e1") ELSE Top(p, tk)
    [] q = "top1" -> Top(p, tk)
    [] q = "e1" -> IF k = "ID" THEN [p EXCEPT !.ext.name = t, !.q = "e2"] ELSE Bad(p)
    [] q = "e2" -> IF k = "{" THEN Go(p, "e3") ELSE IF k = "as" THEN Go(p, "e7") ELSE Bad(p)
    [] q = "e3" -> IF k = "ID" THEN [p EXCEPT !.arg = t, !.q = "e4"] ELSE Bad(p)
    [] q = "e4" -> IF k = ":" THEN Go(p, "e5") ELSE Bad(p)
    [] q = "e5" -> IF k \in Literals
                   THEN [p EXCEPT !.ext.cfg = Append(@, [argument |-> p.arg, value |-> t]), !.q = "e6"]
                   ELSE Bad(p)
    [] q = "e6" -> IF k = "," THEN Go(p, "e3") ELSE IF k = "}" THEN Go(p, "e6b") ELSE Bad(p)
    [] q = "e6b" -> IF k = "as" THEN Go(p, "e7") ELSE Bad(p)
    [] q = "e7" -> IF k = "ID" THEN [p EXCEPT !.ext.alias = t, !.q = "e8"] ELSE Bad(p)
    [] q = "e8" -> IF k = ";" THEN [p EXCEPT !.d.exts = Append(@, p.ext), !.ext = EmptyExt, !.q = "top0"]
                   ELSE Bad(p)
    \* ---- annotations: the text is kept without layout
    [] q = "nA" -> IF k = "AT" THEN Go([p EXCEPT !.ann = Tail1(t)], "n2")
                   ELSE IF k = "action" THEN Go(p, "a1") ELSE Bad(p)
    [] q = "n2" -> IF k = "(" THEN Go([p EXCEPT !.ann = @ \o t], "n3") ELSE Bad(p)
    [] q = "n3" -> IF k = "ID" THEN Go([p EXCEPT !.ann = @ \o t], "n4") ELSE Bad(p)
    [] q = "n4" -> IF k = "=" THEN Go([p EXCEPT !.ann = @ \o t], "n5") ELSE Bad(p)
    [] q = "n5" -> IF k \in Literals THEN Go([p EXCEPT !.ann = @ \o t], "n6") ELSE Bad(p)
    [] q = "n6" -> IF k = "," THEN Go([p EXCEPT !.ann = @ \o t], "n3")
                   ELSE IF k = ")" THEN [p EXCEPT !.act.anns = Append(@, p.ann \o t), !.ann = "", !.q = "nA"]
                   ELSE Bad(p)
    \* ---- action heads
    [] q = "a1" -> IF k = "ID" THEN [p EXCEPT !.act.name = t, !.q = "a2"] ELSE Bad(p)
    [] q = "a2" -> IF k = "(" THEN Go(p, "a3") ELSE Bad(p)
    [] q = "a3" -> IF k = "VAR" THEN [p EXCEPT !.act.params = Append(@, t), !.q = "a4"]
                   ELSE IF k = "," THEN Go(p, "a5")        \* the first parameter may be missing
                   ELSE IF k = ")" THEN Go(p, "a6") ELSE Bad(p)
    [] q = "a4" -> IF k = "," THEN Go(p, "a5") ELSE IF k = ")" THEN Go(p, "a6") ELSE Bad(p)
    [] q = "a5" -> IF k = "VAR" THEN [p EXCEPT !.act.params = Append(@, t), !.q = "a4"] ELSE Bad(p)
    [] q = "a6" -> IF k \in Mods THEN [p EXCEPT !.act.mods = Append(@, k)]
                   ELSE IF k = "{" THEN Go(p, "b1") ELSE Bad(p)
    [] q = "i1" -> IF k = "(" THEN Go(p, "i2") ELSE Bad(p)
    [] q = "i2" -> IF k = ")" THEN Go(p, "i3") ELSE Bad(p)
    [] q = "i3" -> IF k = "{" THEN Go(p, "b1") ELSE Bad(p)
    [] OTHER -> Bad(p)

(* Read tokens ts from index i on; err is the index of the offending token (0 if none, *)
(* Len(ts)+1 for the end of file).                                                     *)
Parse(ts) ==
  LET Read(st, i) == IF st.p.q = "ERR" THEN st ELSE [p |-> Step(st.p, ts[i]), err |-> i]
      r == FoldLeftDomain(Read, [p |-> P0, err |-> 0], ts)
  IN IF r.p.q = "ERR" THEN [ok |-> FALSE, d |-> EmptyDoc, err |-> r.err]
     ELSE LET p2 == Step(r.p, [k |-> EOF, t |-> "", p |-> 0]) IN
          IF p2.q = "ACC" THEN [ok |-> TRUE, d |-> p2.d, err |-> 0]
          ELSE [ok |-> FALSE, d |-> EmptyDoc, err |-> Len(ts) + 1]

(* The positions a syntax error may name: where the offending token starts, and, since a *)
(* parser may look at the following token before it reports, an illegal character directly *)
(* behind the offending token.                                                           *)
ErrPositions(s, ts, err) ==
  IF err > Len(ts) THEN {Len(s) + 1}
  ELSE {ts[err].p} \cup (IF ts[err].k # "LEXERR" /\ err < Len(ts) /\ ts[err + 1].k = "LEXERR"
                     THEN {ts[err + 1].p} ELSE {})
=============================================================================
