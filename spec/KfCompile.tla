----------------------------- MODULE KfCompile -----------------------------
(***************************************************************************)
(* The compiler as a state machine, shaped like the implementation: it     *)
(* reads the source token by token, builds the document, and then visits   *)
(* the declarations in the order and with the name tables of the           *)
(* implementation, stopping at the first fault.  The declarative meaning   *)
(* of KfSem is what it is checked against.                                 *)
(***************************************************************************)
EXTENDS KfSem

CONSTANT Grain       \* "token": one token per step;  "source": the whole text in one step

VARIABLES
  vSrc,    \* the source text
  vTs,     \* its tokens
  vAt,     \* index of the next token
  vP,      \* parser configuration
  vPh,     \* phase
  vN, vM,   \* cursors of the visiting phases
  vExs,    \* aliases seen so far
  vTbs,    \* tables seen so far: name -> [cols, idxs]
  vAcs,    \* actions seen so far
  vLoc,    \* variables defined so far in the action being visited
  vOut     \* the answer: "" while running, "ok", or the kind of the reported error

vars == <<vSrc, vTs, vAt, vP, vPh, vN, vM, vExs, vTbs, vAcs, vLoc, vOut>>

Start(s) ==
  /\ vSrc = s /\ vTs = Lex(s) /\ vAt = 1 /\ vP = P0 /\ vPh = "read" /\ vN = 1 /\ vM = 1
  /\ vExs = {} /\ vTbs = << >> /\ vAcs = {} /\ vLoc = {} /\ vOut = ""

Fail(kind) == vOut' = kind /\ vPh' = "done"
                /\ UNCHANGED <<vSrc, vTs, vAt, vP, vN, vM, vExs, vTbs, vAcs, vLoc>>
Phase(q) == vPh' = q /\ vN' = 1 /\ vM' = 1

-----------------------------------------------------------------------------
(* Reading *)
ReadToken ==
  /\ vPh = "read" /\ Grain = "token"
  /\ LET p2 == Step(vP, IF vAt > Len(vTs) THEN [k |-> EOF, t |-> "", p |-> 0] ELSE vTs[vAt]) IN
     IF p2.q = "ERR" THEN Fail("syntax")
     ELSE /\ vP' = p2 /\ vAt' = vAt + 1
          /\ vPh' = IF p2.q = "ACC" THEN "build" ELSE "read"
          /\ UNCHANGED <<vSrc, vTs, vN, vM, vExs, vTbs, vAcs, vLoc, vOut>>

ReadSource ==
  /\ vPh = "read" /\ Grain = "source"
  /\ LET r == Parse(vTs) IN
     IF r.ok THEN /\ vP' = [P0 EXCEPT !.d = r.d, !.q = "ACC"] /\ vAt' = Len(vTs) + 2 /\ vPh' = "build"
                  /\ UNCHANGED <<vSrc, vTs, vN, vM, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE /\ vOut' = "syntax" /\ vPh' = "done" /\ vAt' = r.err
          /\ UNCHANGED <<vSrc, vTs, vP, vN, vM, vExs, vTbs, vAcs, vLoc>>

(* Building the schema object: more than one init and repeated modifiers are found here. *)
D == vP.d
Acts == AllActs(D)
Build ==
  /\ vPh = "build"
  /\ IF Len(D.inits) > 1 THEN Fail("MultiInit")
     ELSE IF vN > Len(D.actions) THEN Phase("exts") /\ UNCHANGED <<vSrc, vTs, vAt, vP, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE LET f == ModFaults(D.actions[vN]) IN
          IF f # {} THEN \E k \in f : Fail(k)
          ELSE vN' = vN + 1 /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vM, vExs, vTbs, vAcs, vLoc, vOut>>

-----------------------------------------------------------------------------
(* Validation, first pass: collect names, check what is local to a declaration. *)
VisitExt ==
  /\ vPh = "exts"
  /\ IF vN > Len(D.exts) THEN Phase("tables") /\ UNCHANGED <<vSrc, vTs, vAt, vP, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE IF D.exts[vN].alias \in vExs THEN Fail("DuplicateExtension")
     ELSE /\ vExs' = vExs \cup {D.exts[vN].alias} /\ vN' = vN + 1
          /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vM, vTbs, vAcs, vLoc, vOut>>

(* Items of a table in visiting order: columns, then indexes. m counts them. *)
VisitTable ==
  /\ vPh = "tables"
  /\ IF vN > Len(D.tables) THEN Phase("actions") /\ UNCHANGED <<vSrc, vTs, vAt, vP, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE LET t == D.tables[vN] IN
       IF vM = 1 /\ t.name \in DOMAIN vTbs /\ vTbs[t.name].by # vN THEN Fail("DuplicateTable")
       ELSE LET cur == IF t.name \in DOMAIN vTbs THEN vTbs[t.name] ELSE [by |-> vN, cols |-> {}, idxs |-> {}] IN
         IF vM <= Len(t.cols) THEN
           LET c == t.cols[vM] IN
           IF c.name \in cur.cols THEN Fail("DuplicateColumn")
           ELSE IF ColFaults(c) # {} THEN \E k \in ColFaults(c) : Fail(k)
           ELSE /\ vTbs' = (t.name :> [cur EXCEPT !.cols = @ \cup {c.name}]) @@ vTbs
                /\ vM' = vM + 1 /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vN, vExs, vAcs, vLoc, vOut>>
         ELSE IF vM <= Len(t.cols) + Len(t.idxs) THEN
           LET x == t.idxs[vM - Len(t.cols)] IN
           IF x.name \in cur.cols \cup cur.idxs THEN Fail("DuplicateIndex")
           ELSE IF \E i \in DOMAIN x.cols : x.cols[i] \notin cur.cols THEN Fail("ColumnNotFound")
           ELSE /\ vTbs' = (t.name :> [cur EXCEPT !.idxs = @ \cup {x.name}]) @@ vTbs
                /\ vM' = vM + 1 /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vN, vExs, vAcs, vLoc, vOut>>
         ELSE vN' = vN + 1 /\ vM' = 1 /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vExs, vTbs, vAcs, vLoc, vOut>>

VisitAction ==
  /\ vPh = "actions"
  /\ IF vN > Len(Acts) THEN Phase("fks") /\ UNCHANGED <<vSrc, vTs, vAt, vP, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE IF Acts[vN].name \in vAcs THEN Fail("DuplicateAction")
     ELSE IF HasDup(Acts[vN].params) THEN Fail("DuplicateParam")
     ELSE /\ vAcs' = vAcs \cup {Acts[vN].name} /\ vN' = vN + 1
          /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vM, vExs, vTbs, vLoc, vOut>>

-----------------------------------------------------------------------------
(* Second pass: references, when all names are known. *)
VisitFk ==
  /\ vPh = "fks"
  /\ IF vN > Len(D.tables) THEN Phase("stmts") /\ UNCHANGED <<vSrc, vTs, vAt, vP, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE IF vM > Len(D.tables[vN].fks)
     THEN vN' = vN + 1 /\ vM' = 1 /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vExs, vTbs, vAcs, vLoc, vOut>>
     ELSE LET f == D.tables[vN].fks[vM] IN
       IF \E i \in DOMAIN f.child : f.child[i] \notin vTbs[D.tables[vN].name].cols THEN Fail("ColumnNotFound")
       ELSE IF f.ptable \notin DOMAIN vTbs THEN Fail("TableNotFound")
       ELSE IF \E i \in DOMAIN f.parent : f.parent[i] \notin vTbs[f.ptable].cols THEN Fail("ColumnNotFound")
       ELSE IF HasDup([j \in DOMAIN f.acts |-> f.acts[j].on]) THEN Fail("DupFKAction")
       ELSE vM' = vM + 1 /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vN, vExs, vTbs, vAcs, vLoc, vOut>>

(* One statement per step; loc starts from the parameters of the action. *)
VisitStmt ==
  /\ vPh = "stmts"
  /\ IF vN > Len(Acts) THEN vOut' = "ok" /\ vPh' = "done" /\ UNCHANGED <<vSrc, vTs, vAt, vP, vN, vM, vExs, vTbs, vAcs, vLoc>>
     ELSE IF vM > Len(Acts[vN].stmts)
     THEN vN' = vN + 1 /\ vM' = 1 /\ vLoc' = {} /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vExs, vTbs, vAcs, vOut>>
     ELSE
       LET s   == Acts[vN].stmts[vM]
           vs  == vLoc \cup ToSet(Acts[vN].params)
           v   == IF s.k = "sql" THEN SqlVerdict(s.text) ELSE "good"
           Ok  == /\ vLoc' = vLoc \cup Assigned(s) /\ vM' = vM + 1
                  /\ UNCHANGED <<vSrc, vTs, vAt, vP, vPh, vN, vExs, vTbs, vAcs, vOut>>
       IN IF s.k = "sql"
          THEN (v # "bad" /\ Ok) \/ (v # "good" /\ Fail("stmt"))   \* unknown text: either
          ELSE IF (\E i \in DOMAIN s.ops : BadOp(s.ops[i])) \/
                  (\E i \in DOMAIN s.fns : Lower(s.fns[i]) \notin CallFns) THEN Fail("stmt")
          ELSE IF s.ext = "" /\ s.fn \notin vAcs THEN Fail("ActionNotFound")
          ELSE IF s.ext # "" /\ s.ext \notin vExs THEN Fail("ExtensionNotFound")
          ELSE IF \E i \in DOMAIN s.vars : s.vars[i] \notin vs THEN Fail("VariableNotFound")
          ELSE IF \E i \in DOMAIN s.blocks : s.blocks[i] \notin BlockVars THEN Fail("VariableNotFound")
          ELSE IF s.ext # "" /\ HasDup(s.recv) THEN Fail("DuplicateVariable")
          ELSE Ok

CompileNext == ReadToken \/ ReadSource \/ Build \/ VisitExt \/ VisitTable \/ VisitAction \/ VisitFk \/ VisitStmt

-----------------------------------------------------------------------------
(* What is checked of the machine. *)
Done == vPh = "done"
Accepted == Done /\ vOut = "ok"

(* The machine answers what the declarative meaning allows. *)
MachineAgrees ==
  Done => Bind(Meaning(vSrc), LAMBDA mg :
          IF vOut = "ok" THEN mg.ok \/ (mg.fail /\ mg.cls = {"stmt"} /\ Unsure(D))
          ELSE /\ mg.fail /\ vOut \in mg.cls
               /\ vOut = "syntax" => 
                  LineCol(vSrc, IF vAt > Len(vTs) THEN Len(vSrc) + 1 ELSE vTs[vAt].p) \in mg.at)

(* The properties of properties.jsonl, stated of the document d of an accepted source and *)
(* its schema sch.                                                                         *)
Names(s) == [i \in DOMAIN s |-> s[i].name]
ColsOf(t) == ToSet(Names(t.columns))
TabOf(sch, nm) == CHOOSE t \in ToSet(sch.tables) : t.name = nm

\* C07
InitLast(sch) == \A i \in DOMAIN sch.actions : LET a == sch.actions[i] IN a.name = "init" =>
  /\ i = Len(sch.actions) /\ ~ a.public /\ a.mutability = "update"
  /\ a.inputs = << >> /\ a.auxiliaries = << >> /\ a.annotations = << >>
\* C08
UniqueNames(sch) ==
  /\ ~ HasDup(Names(sch.tables)) /\ ~ HasDup(Names(sch.actions))
  /\ ~ HasDup([i \in DOMAIN sch.extensions |-> sch.extensions[i].alias])
  /\ \A i \in DOMAIN sch.tables : LET t == sch.tables[i] IN
       /\ ~ HasDup(Names(t.columns) \o Names(t.indexes))
       /\ \A j \in DOMAIN t.columns :
            LET as == t.columns[j].attributes IN ~ HasDup([k \in DOMAIN as |-> as[k].type])
  /\ \A i \in DOMAIN sch.actions : ~ HasDup(sch.actions[i].inputs)
\* C09
RefsResolve(sch) == \A i \in DOMAIN sch.tables : LET t == sch.tables[i] IN
  /\ \A k \in DOMAIN t.indexes : ToSet(t.indexes[k].columns) \subseteq ColsOf(t)
  /\ \A k \in DOMAIN t.foreign_keys : LET f == t.foreign_keys[k] IN
       /\ ToSet(f.child_keys) \subseteq ColsOf(t)
       /\ f.parent_table \in ToSet(Names(sch.tables))
       /\ ToSet(f.parent_keys) \subseteq ColsOf(TabOf(sch, f.parent_table))
\* C10
TypesFit(sch) == \A i \in DOMAIN sch.tables : \A j \in DOMAIN sch.tables[i].columns :
  LET c == sch.tables[i].columns[j]
      ks == {c.attributes[k].type : k \in DOMAIN c.attributes}
  IN /\ c.type = "int"  => ks \cap {"min_length", "max_length"} = {}
     /\ c.type = "text" => ks \cap {"min", "max"} = {}
\* C11, C12: stated of the statements of the document
CallsResolve(d, sch) == LET as == AllActs(d) IN
  \A i \in DOMAIN as : \A j \in DOMAIN as[i].stmts :
  LET s == as[i].stmts[j] IN s.k = "call" =>
    IF s.ext = "" THEN s.fn \in ToSet(Names(sch.actions))
    ELSE \E k \in DOMAIN sch.extensions : sch.extensions[k].alias = s.ext
VarsDefined(d) == LET as == AllActs(d) IN
  \A i \in DOMAIN as : \A j \in DOMAIN as[i].stmts :
  LET s == as[i].stmts[j] IN s.k = "call" =>
    /\ \A v \in ToSet(s.vars) :
       \/ v \in ToSet(as[i].params)
       \/ \E k \in 1..(j - 1) : LET r == as[i].stmts[k] IN
             r.k = "call" /\ r.ext # "" /\ v \in ToSet(r.recv)
    /\ ToSet(s.blocks) \subseteq {"@caller"}
    /\ s.ext # "" => ~ HasDup(s.recv)
\* C13
NoConflicts(d, sch) ==
  /\ \A i \in DOMAIN d.actions : LET ms == d.actions[i].mods IN
       Count(ms, {"public", "private"}) <= 1 /\ Count(ms, {"view"}) <= 1 /\ Count(ms, {"owner"}) <= 1
  /\ \A i \in DOMAIN sch.tables : \A k \in DOMAIN sch.tables[i].foreign_keys :
       LET as == sch.tables[i].foreign_keys[k].actions IN
       Len(as) <= 2 /\ ~ HasDup([e \in DOMAIN as |-> as[e].on])
\* C14
SqlChecked(d) == LET as == AllActs(d) IN
  \A i \in DOMAIN as : \A j \in DOMAIN as[i].stmts :
  as[i].stmts[j].k = "sql" => SqlVerdict(as[i].stmts[j].text) # "bad"
\* C01, C02, C03, C05: nothing is lost or added
SameShape(d, sch) ==
  /\ sch.name = d.name /\ Names(sch.tables) = Names(d.tables) /\ Names(sch.extensions) = Names(d.exts)
  /\ Len(sch.actions) = Len(d.actions) + Len(d.inits)
  /\ \A i \in DOMAIN d.tables : LET t == d.tables[i]  u == sch.tables[i] IN
       /\ Names(u.columns) = Names(t.cols) /\ Names(u.indexes) = Names(t.idxs)
       /\ Len(u.foreign_keys) = Len(t.fks)
       /\ \A j \in DOMAIN t.cols : Len(u.columns[j].attributes) = Len(t.cols[j].attrs)
  /\ \A i \in DOMAIN d.actions : LET a == d.actions[i]  b == sch.actions[i] IN
       /\ a.name = b.name /\ a.params = b.inputs /\ Len(b.statements) = Len(a.stmts)
       /\ b.public = ("public" \in ToSet(a.mods)) /\ (b.mutability = "view") = ("view" \in ToSet(a.mods))
       /\ (b.auxiliaries # << >>) = ("owner" \in ToSet(a.mods))
\* C04: the tokens of a stored statement, laid out as sparsely as the separations allow, read back
ReadBack(sch) == \A i \in DOMAIN sch.actions : \A j \in DOMAIN sch.actions[i].statements :
  LET st == sch.actions[i].statements[j]
      ws == Lex(Text(st))
  IN IF ws[1].k = "SQL" THEN ws[1].t \o ws[2].t = st[1].t /\ Len(ws) = 2
     ELSE [k \in DOMAIN ws |-> ws[k].t] = [k \in DOMAIN st |-> st[k].t]

Guarantees == Accepted => Bind(Schema(D), LAMBDA sch :
  /\ InitLast(sch) /\ UniqueNames(sch) /\ RefsResolve(sch) /\ TypesFit(sch)
  /\ CallsResolve(D, sch) /\ VarsDefined(D) /\ NoConflicts(D, sch) /\ SqlChecked(D)
  /\ SameShape(D, sch) /\ ReadBack(sch))

\* scopes: what the machine believes defined is what was assigned before
ScopeExact == (vPh = "stmts" /\ vN <= Len(Acts)) =>
  vLoc \cup ToSet(Acts[vN].params) = VarsBefore(Acts[vN], vM)
=============================================================================
