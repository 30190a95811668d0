------------------------------ MODULE KfTrace ------------------------------
(***************************************************************************)
(* Acceptance of recorded runs of the real compiler.  Each record of the   *)
(* trace file holds a source text and what the compiler answered; the      *)
(* machine of KfCompile is run on the same text, and in its final state    *)
(* the answer is judged as far as the property at hand speaks about it.    *)
(*   record: [src, ok, cls, line, col, sch, anns]                          *)
(* anns holds what the annotation reader made of every stored annotation.  *)
(***************************************************************************)
EXTENDS KfCompile, Json, IOUtils

CONSTANTS Prop, Shard, Shards

Recs == TLCEval(ndJsonDeserialize(IOEnv.KF_TRACE))
Asked == TLCEval(JsonDeserialize(IOEnv.KF_SQL))       \* SQL text -> verdict of the library
TraceSqlLib(b) == IF b \in DOMAIN Asked THEN Asked[b] ELSE "unknown"

VARIABLE vI

(* the kinds of error a property is about *)
Kinds ==
  CASE Prop = "C07" -> {"MultiInit"}
    [] Prop = "C08" -> {"DuplicateExtension", "DuplicateTable", "DuplicateColumn", "DuplicateAttribute",
                        "DuplicateIndex", "DuplicateAction", "DuplicateParam"}
    [] Prop = "C09" -> {"ColumnNotFound", "TableNotFound"}
    [] Prop = "C10" -> {"AttributeNotAllow"}
    [] Prop = "C11" -> {"ActionNotFound", "ExtensionNotFound"}
    [] Prop = "C12" -> {"VariableNotFound", "DuplicateVariable"}
    [] Prop = "C13" -> {"ActionVisibilityAlreadySet", "ActionMutabilityAlreadySet", "ActionAuxiliaryAlreadySet", "DupFKAction"}
    [] Prop = "C14" -> {"stmt"}
    [] Prop = "C15" -> {"syntax"}
    [] OTHER -> {}

(* the recorded answer agrees with the meaning as far as Kinds are concerned *)
KindsAgree(r, mg) ==
  /\ (mg.fail /\ ~ mg.ok /\ mg.cls \subseteq Kinds) => ~ r.ok /\ ToSet(r.cls) \cap mg.cls # {}
  /\ (~ mg.fail) => r.ok \/ ToSet(r.cls) \cap Kinds = {}
  /\ Prop = "C15" => ("syntax" \in ToSet(r.cls)) = ("syntax" \in mg.cls)

(* an error is true, and a syntax error points at the right place *)
ErrorTrue(r, mg) ==
  ~ r.ok => /\ ToSet(r.cls) \cap mg.cls # {}
            /\ mg.cls = {"syntax"} => <<r.line, r.col>> \in mg.at

(* a source without fault is accepted *)
MustAccept == Prop \in {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16"}

(* a stored statement: the same tokens, without layout *)
StmtAgrees(stored, st) == stored = Text(st)
StmtsAgree(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : StmtAgrees(a[i], b[i])

(* the part of a schema a property speaks about *)
Part(s) ==
  CASE Prop = "C01" -> [i \in DOMAIN s.tables |-> <<s.tables[i].name, s.tables[i].columns>>]
    [] Prop = "C02" -> [i \in DOMAIN s.tables |-> <<s.tables[i].indexes, s.tables[i].foreign_keys>>]
    [] Prop = "C03" -> [i \in DOMAIN s.actions |-> LET a == s.actions[i] IN
                         <<a.name, a.inputs, a.public, a.mutability, a.auxiliaries>>]
    [] Prop = "C05" -> s.extensions
    [] Prop = "C06" -> [i \in DOMAIN s.actions |-> s.actions[i].annotations]
    [] Prop = "C07" -> <<Names(s.tables), Names(s.actions), Names(s.extensions)>>
    [] OTHER -> << >>

SchemaAgrees(r) == r.ok =>
  Bind(Schema(D), LAMBDA s :
    /\ Part(r.sch) = Part(s)
    /\ Prop = "C06" => \A i \in DOMAIN r.anns : IF i \in DOMAIN D.actions THEN r.anns[i] = [j \in DOMAIN D.actions[i].anns |-> ReadAnn(D.actions[i].anns[j])] ELSE r.anns[i] = << >>
    /\ Prop = "C07" => InitLast(r.sch)
    /\ Prop = "C08" => UniqueNames(r.sch)
    /\ Prop = "C09" => RefsResolve(r.sch)
    /\ Prop = "C10" => TypesFit(r.sch)
    /\ Prop = "C16" => [r.sch EXCEPT !.actions = << >>] = [s EXCEPT !.actions = << >>]
                       /\ [i \in DOMAIN r.sch.actions |-> [r.sch.actions[i] EXCEPT !.statements = << >>]]
                          = [i \in DOMAIN s.actions |-> [s.actions[i] EXCEPT !.statements = << >>]]
    /\ Prop \in {"C04", "C16"} => /\ Len(r.sch.actions) = Len(s.actions)
                       /\ \A i \in DOMAIN s.actions : StmtsAgree(r.sch.actions[i].statements, s.actions[i].statements))

Judged == Bind(Meaning(vSrc), LAMBDA mg :
  LET r == Recs[vI] IN
  /\ Prop = "C18" => ErrorTrue(r, mg)
  /\ Kinds # {} => KindsAgree(r, mg)
  /\ (MustAccept /\ ~ mg.fail) => r.ok
  /\ mg.ok => SchemaAgrees(r))

TraceInit == \E i \in {j \in DOMAIN Recs : j % Shards = Shard} : Start(Recs[i].src) /\ vI = i
TraceNext == CompileNext /\ UNCHANGED vI
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, vI>>

(* prints the numbers of the records that were accepted (+) and not accepted (-) *)
Report == Done => PrintT(<<IF Judged THEN "+" ELSE "-", vI - 1>>)
=============================================================================
