------------------------------- MODULE KfSem -------------------------------
(***************************************************************************)
(* The meaning of a document (see KfSyntax): which semantic faults it has, *)
(* declaratively, and the schema it compiles to if it has none.            *)
(***************************************************************************)
EXTENDS KfSyntax, KfSql, SequencesExt

Col(x, f(_)) == [i \in 1..Len(x) |-> f(x[i])]
HasDup(s) == Cardinality(ToSet(s)) < Len(s)
Count(s, S) == Len(SelectSeq(s, LAMBDA e : e \in S))

ColNames(t) == {t.cols[i].name : i \in DOMAIN t.cols}
TableNames(d) == {d.tables[i].name : i \in DOMAIN d.tables}
TableNamed(d, n) == CHOOSE t \in ToSet(d.tables) : t.name = n
ActionNames(d) == {d.actions[i].name : i \in DOMAIN d.actions}
             \cup (IF d.inits # << >> THEN {"init"} ELSE {})
Aliases(d) == {d.exts[i].alias : i \in DOMAIN d.exts}

(* An init block counts as an action without parameters and modifiers. *)
InitAct(stmts) == [EmptyAct EXCEPT !.name = "init", !.stmts = stmts]
AllActs(d) == TLCEval(d.actions \o [i \in 1..Len(d.inits) |-> InitAct(d.inits[i])])

If(c, f) == IF c THEN {f} ELSE {}

(* ---------------------------------------------------------------- faults *)
ColFaults(c) ==
  LET ts == [i \in DOMAIN c.attrs |-> c.attrs[i].type] IN
  If(HasDup(ts), "DuplicateAttribute") \cup
  If(\/ c.type = "int"  /\ ToSet(ts) \cap {"minlen", "maxlen"} # {}
     \/ c.type = "text" /\ ToSet(ts) \cap {"min", "max"} # {}, "AttributeNotAllow")

IdxFaults(t) ==
  UNION {If(\/ t.idxs[i].name \in ColNames(t)
            \/ \E j \in 1..(i - 1) : t.idxs[j].name = t.idxs[i].name, "DuplicateIndex")
         \cup If(~ (ToSet(t.idxs[i].cols) \subseteq ColNames(t)), "ColumnNotFound")
         : i \in DOMAIN t.idxs}

FkFaults(d, t) ==
  UNION {LET f == t.fks[i] IN
         If(~ (ToSet(f.child) \subseteq ColNames(t)), "ColumnNotFound") \cup
         (IF f.ptable \notin TableNames(d) THEN {"TableNotFound"}
          ELSE If(~ (ToSet(f.parent) \subseteq ColNames(TableNamed(d, f.ptable))), "ColumnNotFound")) \cup
         If(HasDup([j \in DOMAIN f.acts |-> f.acts[j].on]), "DupFKAction")
         : i \in DOMAIN t.fks}

TabFaults(d, t) ==
  If(HasDup([i \in DOMAIN t.cols |-> t.cols[i].name]), "DuplicateColumn") \cup
  UNION {ColFaults(t.cols[i]) : i \in DOMAIN t.cols} \cup IdxFaults(t) \cup FkFaults(d, t)

ModFaults(a) ==
  If(Count(a.mods, {"public", "private"}) > 1, "ActionVisibilityAlreadySet") \cup
  If(Count(a.mods, {"view"}) > 1, "ActionMutabilityAlreadySet") \cup
  If(Count(a.mods, {"owner"}) > 1, "ActionAuxiliaryAlreadySet")

BlockVars == {"@caller"}
(* operators the statement executor does not know *)
BadOp(o) == o[1] = "bin" /\ o[2] \in {"||", "<<", ">>", "&", "|", "=="}

StmtFaults(d, s, vars) ==
  IF s.k = "sql" THEN If(SqlVerdict(s.text) = "bad", "stmt")
  ELSE If((\E i \in DOMAIN s.ops : BadOp(s.ops[i])) \/
          (\E i \in DOMAIN s.fns : Lower(s.fns[i]) \notin CallFns), "stmt") \cup
       (IF s.ext = "" THEN If(s.fn \notin ActionNames(d), "ActionNotFound")
        ELSE If(s.ext \notin Aliases(d), "ExtensionNotFound") \cup
             If(HasDup(s.recv), "DuplicateVariable")) \cup
       If(~ (ToSet(s.vars) \subseteq vars) \/ ~ (ToSet(s.blocks) \subseteq BlockVars), "VariableNotFound")

(* Only a call to an extension assigns its receivers. *)
Assigned(s) == IF s.k = "call" /\ s.ext # "" THEN ToSet(s.recv) ELSE {}

VarsBefore(a, i) == ToSet(a.params) \cup UNION {Assigned(a.stmts[j]) : j \in 1..(i - 1)}

ActFaults(d, a) ==
  ModFaults(a) \cup If(HasDup(a.params), "DuplicateParam") \cup
  UNION {StmtFaults(d, a.stmts[i], VarsBefore(a, i)) : i \in DOMAIN a.stmts}

Faults(d) ==
  If(Len(d.inits) > 1, "MultiInit") \cup
  If(HasDup([i \in DOMAIN d.exts |-> d.exts[i].alias]), "DuplicateExtension") \cup
  If(HasDup([i \in DOMAIN d.tables |-> d.tables[i].name]), "DuplicateTable") \cup
  If(HasDup([i \in DOMAIN d.actions |-> d.actions[i].name]), "DuplicateAction") \cup
  UNION {TabFaults(d, d.tables[i]) : i \in DOMAIN d.tables} \cup
  LET as == AllActs(d) IN UNION {ActFaults(d, as[i]) : i \in DOMAIN as}

(* The document holds SQL the specification has no verdict on. *)
Unsure(d) ==
  LET as == AllActs(d) IN
  \E i \in DOMAIN as : \E j \in DOMAIN as[i].stmts :
     as[i].stmts[j].k = "sql" /\ SqlVerdict(as[i].stmts[j].text) = "unknown"

(* ---------------------------------------------------------------- schema *)
AttrKind == [primary |-> "primary_key", notnull |-> "not_null", unique |-> "unique",
             default |-> "default", min |-> "min", max |-> "max",
             minlen |-> "min_length", maxlen |-> "max_length"]
IdxKind == [unique |-> "unique_btree", index |-> "btree", primary |-> "primary"]
React == [no_action |-> "NO ACTION", cascade |-> "CASCADE", set_null |-> "SET NULL",
          set_default |-> "SET DEFAULT", restrict |-> "RESTRICT"]

SchCol(c) == [name |-> c.name, type |-> c.type,
  attributes |-> [i \in DOMAIN c.attrs |-> [type |-> AttrKind[c.attrs[i].type], value |-> c.attrs[i].value]]]
SchIdx(x) == [name |-> x.name, columns |-> x.cols, type |-> IdxKind[x.type]]
SchFk(f) == [child_keys |-> f.child, parent_keys |-> f.parent, parent_table |-> f.ptable,
  actions |-> [i \in DOMAIN f.acts |-> [on |-> f.acts[i].on, do |-> React[f.acts[i].do]]]]
SchTab(t) == [name |-> t.name, columns |-> [i \in DOMAIN t.cols |-> SchCol(t.cols[i])],
  indexes |-> [i \in DOMAIN t.idxs |-> SchIdx(t.idxs[i])],
  foreign_keys |-> [i \in DOMAIN t.fks |-> SchFk(t.fks[i])]]

(* A statement is described by its tokens: <<text, separation from the next token>>. *)
(* SQL is one token that carries its semicolon.                                       *)
SchStmt(s) ==
  IF s.k = "sql" THEN <<[t |-> s.text, s |-> 0]>>
  ELSE [i \in DOMAIN s.toks |->
         [t |-> s.toks[i].t, s |-> IF i = Len(s.toks) THEN 0 ELSE Sep(s.toks[i], s.toks[i + 1])]]
(* the text stored for it *)
Text(st) == FoldLeft(LAMBDA acc, x : acc \o x.t \o (IF x.s = 2 THEN " " ELSE ""), "", st)

Has(a, m) == \E i \in DOMAIN a.mods : a.mods[i] = m
SchAct(a) == [name |-> a.name, annotations |-> a.anns, inputs |-> a.params,
  public |-> Has(a, "public"), mutability |-> IF Has(a, "view") THEN "view" ELSE "update",
  auxiliaries |-> IF Has(a, "owner") THEN <<"owner">> ELSE << >>,
  statements |-> [i \in DOMAIN a.stmts |-> SchStmt(a.stmts[i])]]

SchExt(e) == [name |-> e.name, config |-> e.cfg, alias |-> e.alias]

Schema(d) == TLCEval(
  [owner |-> "", name |-> d.name,
   tables |-> [i \in DOMAIN d.tables |-> SchTab(d.tables[i])],
   actions |-> LET as == AllActs(d) IN [i \in DOMAIN as |-> SchAct(as[i])],
   extensions |-> [i \in DOMAIN d.exts |-> SchExt(d.exts[i])]])

(* Reading an annotation back: name ( attribute = literal , ... ) *)
ReadAnn(a) == LET ws == Lex(a) IN
  [target |-> ws[1].t,
   attributes |-> [i \in 1..((Len(ws) - 2) \div 4) |-> [name |-> ws[4 * i - 1].t, value |-> ws[4 * i + 1].t]]]

(* --------------------------------------------------- meaning of a source *)
(* What the compiler must answer for a source text: a set of possible     *)
(* answers as a record.                                                    *)
(*   ok      may be accepted       fail    may be rejected                 *)
(*   cls     the kinds of error it may be rejected with                    *)
(*   at      the positions a syntax error may name                         *)
(*   schema  the schema if accepted                                        *)
MeaningOf(src, ts, r) ==
  IF ~ r.ok
  THEN [ok |-> FALSE, fail |-> TRUE, cls |-> {"syntax"},
        at |-> {LineCol(src, i) : i \in ErrPositions(src, ts, r.err)}, schema |-> Schema(EmptyDoc)]
  ELSE Bind(Faults(r.d), LAMBDA f : Bind(Unsure(r.d), LAMBDA u :
       [ok |-> f = {}, fail |-> f # {} \/ u, cls |-> f \cup If(u, "stmt"),
        at |-> {}, schema |-> IF f = {} THEN Schema(r.d) ELSE Schema(EmptyDoc)]))
Meaning(src) == Bind(Lex(src), LAMBDA ts : Bind(Parse(ts), LAMBDA r : MeaningOf(src, ts, r)))
=============================================================================
