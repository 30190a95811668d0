----------------------------- MODULE KfArtifact -----------------------------
(***************************************************************************)
(* The JSON artifact.  A compiled schema is a tree of objects; serialising *)
(* it writes every object as a JSON object with the documented field names *)
(* and decoding gives the schema back.  JSON values and Go values are      *)
(* trees tagged with their kind:                                           *)
(*   json:  str s | bool b | null | arr e | obj f (<<key, value>> ...)     *)
(*   value: str s | bool b | nil | list e | struct t f (<<field, value>>)  *)
(***************************************************************************)
EXTENDS KfPool

Str(x) == [k |-> "str", s |-> x]
Bool(x) == [k |-> "bool", b |-> x]
List(q) == [k |-> "list", e |-> q]
Obj(q) == [k |-> "obj", f |-> q]
Arr(q) == [k |-> "arr", e |-> q]
Nil == [k |-> "nil"]
Null == [k |-> "null"]
Struct(t, q) == [k |-> "struct", t |-> t, f |-> q]

(* The documented fields: name in the program, name in the artifact, may it be left out, what it holds. *)
Fld(go, key, opt, of) == [go |-> go, key |-> key, opt |-> opt, of |-> of]
Doc == [
  Schema |-> <<Fld("Owner", "owner", FALSE, "str"), Fld("Name", "name", FALSE, "str"), Fld("Tables", "tables", TRUE, "Table"),
               Fld("Actions", "actions", TRUE, "Action"), Fld("Extensions", "extensions", TRUE, "Extension")>>,
  Extension |-> <<Fld("Name", "name", FALSE, "str"), Fld("Config", "config", FALSE, "ExtensionConfig"), Fld("Alias", "alias", FALSE, "str")>>,
  ExtensionConfig |-> <<Fld("Argument", "argument", FALSE, "str"), Fld("Value", "value", FALSE, "str")>>,
  Table |-> <<Fld("Name", "name", FALSE, "str"), Fld("Columns", "columns", TRUE, "Column"), Fld("Indexes", "indexes", TRUE, "Index"),
              Fld("ForeignKeys", "foreign_keys", TRUE, "ForeignKey")>>,
  Column |-> <<Fld("Name", "name", FALSE, "str"), Fld("Type", "type", FALSE, "str"), Fld("Attributes", "attributes", TRUE, "Attribute")>>,
  Attribute |-> <<Fld("Type", "type", FALSE, "str"), Fld("Value", "value", TRUE, "any")>>,
  Index |-> <<Fld("Name", "name", FALSE, "str"), Fld("Columns", "columns", FALSE, "strs"), Fld("Type", "type", TRUE, "str")>>,
  ForeignKey |-> <<Fld("ChildKeys", "child_keys", FALSE, "strs"), Fld("ParentKeys", "parent_keys", FALSE, "strs"),
                   Fld("ParentTable", "parent_table", FALSE, "str"), Fld("Actions", "actions", FALSE, "ForeignKeyAction")>>,
  ForeignKeyAction |-> <<Fld("On", "on", FALSE, "str"), Fld("Do", "do", FALSE, "str")>>,
  Action |-> <<Fld("Name", "name", FALSE, "str"), Fld("Annotations", "annotations", TRUE, "strs"), Fld("Inputs", "inputs", FALSE, "strs"),
               Fld("Public", "public", FALSE, "bool"), Fld("Mutability", "mutability", FALSE, "str"),
               Fld("Auxiliaries", "auxiliaries", FALSE, "strs"), Fld("Statements", "statements", TRUE, "strs")>> ]

Empty(v) == \/ v.k = "nil" \/ (v.k = "list" /\ v.e = << >>) \/ (v.k = "str" /\ v.s = "")
Key(f, x) == {i \in DOMAIN f : f[i][1] = x}
Get(f, x) == f[CHOOSE i \in DOMAIN f : f[i][1] = x][2]

(* j is a serialisation of v *)
RECURSIVE Serialises(_, _)
Serialises(v, j) ==
  CASE v.k = "str" -> j.k = "str" /\ j.s = v.s
    [] v.k = "bool" -> j.k = "bool" /\ j.b = v.b
    [] v.k = "nil" -> j.k = "null"
    [] v.k = "list" -> \/ v.e = << >> /\ j.k = "null"
                       \/ j.k = "arr" /\ Len(j.e) = Len(v.e) /\ \A i \in DOMAIN v.e : Serialises(v.e[i], j.e[i])
    [] v.k = "struct" ->
         /\ v.t \in DOMAIN Doc /\ j.k = "obj"
         /\ \A i \in DOMAIN j.f : \E x \in ToSet(Doc[v.t]) : x.key = j.f[i][1]
         /\ \A x \in ToSet(Doc[v.t]) :
              /\ Cardinality(Key(v.f, x.go)) = 1
              /\ Cardinality(Key(j.f, x.key)) <= 1
              /\ IF Key(j.f, x.key) = {} THEN x.opt /\ Empty(Get(v.f, x.go)) ELSE Serialises(Get(v.f, x.go), Get(j.f, x.key))
         \* what is not documented cannot be restored
         /\ \A i \in DOMAIN v.f : (\E x \in ToSet(Doc[v.t]) : x.go = v.f[i][1]) \/ Empty(v.f[i][2])

(* Encoding, leaving empty optional fields out or not. *)
RECURSIVE Encode(_, _)
Encode(v, brief) ==
  CASE v.k \in {"str", "bool"} -> v
    [] v.k = "nil" -> Null
    [] v.k = "list" -> Arr([i \in DOMAIN v.e |-> Encode(v.e[i], brief)])
    [] v.k = "struct" -> LET xs == SelectSeq(Doc[v.t], LAMBDA x : ~ (brief /\ x.opt /\ Empty(Get(v.f, x.go))))
                         IN Obj([i \in DOMAIN xs |-> <<xs[i].key, Encode(Get(v.f, xs[i].go), brief)>>])
RECURSIVE Decode(_, _)
Decode(j, of) ==
  CASE of = "str" \/ of = "bool" -> j
    [] of = "any" -> IF j.k = "null" THEN Nil ELSE j
    [] of = "strs" -> List(IF j.k = "null" THEN << >> ELSE j.e)
    [] OTHER -> Struct(of, [i \in DOMAIN Doc[of] |->
         LET x == Doc[of][i]  ks == Key(j.f, x.key) IN
         <<x.go, IF ks = {} THEN (CASE x.of = "str" -> Str("") [] x.of = "any" -> Nil [] x.of = "bool" -> Bool(FALSE) [] OTHER -> List(<< >>))
                 ELSE IF x.of \in DOMAIN Doc
                 THEN LET g == Get(j.f, x.key) IN List(IF g.k = "null" THEN << >> ELSE [n \in DOMAIN g.e |-> Decode(g.e[n], x.of)])
                 ELSE Decode(Get(j.f, x.key), x.of)>>])

(* the schema of the specification as a value *)
Strs(q) == List([i \in DOMAIN q |-> Str(q[i])])
GoCol(c) == Struct("Column", << <<"Name", Str(c.name)>>, <<"Type", Str(c.type)>>,
  <<"Attributes", List([i \in DOMAIN c.attributes |-> Struct("Attribute", << <<"Type", Str(c.attributes[i].type)>>,
     <<"Value", IF c.attributes[i].value = "" THEN Nil ELSE Str(c.attributes[i].value)>> >>)])>> >>)
GoFk(f) == Struct("ForeignKey", << <<"ChildKeys", Strs(f.child_keys)>>, <<"ParentKeys", Strs(f.parent_keys)>>, <<"ParentTable", Str(f.parent_table)>>,
  <<"Actions", List([i \in DOMAIN f.actions |-> Struct("ForeignKeyAction", << <<"On", Str(f.actions[i].on)>>, <<"Do", Str(f.actions[i].do)>> >>)])>> >>)
GoTab(t) == Struct("Table", << <<"Name", Str(t.name)>>, <<"Columns", List([i \in DOMAIN t.columns |-> GoCol(t.columns[i])])>>,
  <<"Indexes", List([i \in DOMAIN t.indexes |-> Struct("Index", << <<"Name", Str(t.indexes[i].name)>>, <<"Columns", Strs(t.indexes[i].columns)>>,
     <<"Type", Str(t.indexes[i].type)>> >>)])>>,
  <<"ForeignKeys", List([i \in DOMAIN t.foreign_keys |-> GoFk(t.foreign_keys[i])])>> >>)
GoAct(a) == Struct("Action", << <<"Name", Str(a.name)>>, <<"Annotations", Strs(a.annotations)>>, <<"Inputs", Strs(a.inputs)>>, <<"Public", Bool(a.public)>>,
  <<"Mutability", Str(a.mutability)>>, <<"Auxiliaries", Strs(a.auxiliaries)>>,
  <<"Statements", Strs([i \in DOMAIN a.statements |-> Text(a.statements[i])])>> >>)
GoExt(e) == Struct("Extension", << <<"Name", Str(e.name)>>,
  <<"Config", List([i \in DOMAIN e.config |-> Struct("ExtensionConfig", << <<"Argument", Str(e.config[i].argument)>>, <<"Value", Str(e.config[i].value)>> >>)])>>,
  <<"Alias", Str(e.alias)>> >>)
GoSchema(s) == TLCEval(Struct("Schema", << <<"Owner", Str(s.owner)>>, <<"Name", Str(s.name)>>,
  <<"Tables", List([i \in DOMAIN s.tables |-> GoTab(s.tables[i])])>>, <<"Actions", List([i \in DOMAIN s.actions |-> GoAct(s.actions[i])])>>,
  <<"Extensions", List([i \in DOMAIN s.extensions |-> GoExt(s.extensions[i])])>> >>))

-----------------------------------------------------------------------------
(* The machine: compile, serialise, decode. *)
VARIABLES vStage, vValue, vJson, vBack
avars == <<vStage, vValue, vJson, vBack>>
More == {DB \o "use x { a: '<&>\\'', b: 007 } as e; use x as e2;", DB \o "table t { a int default(0), b text default('') }",
         DB \o "action a($x, $y) owner view { select 1; } action b() { select 1; }",
         DB \o "table p { i int } table c { i int, j int, #u unique(i), #v primary(i, j), fk (i) ref p (i) on_update do cascade on_delete set_null, fk (i, j) ref c (i, j) }"}
AInit == vStage = "source" /\ vValue \in Pool(0) \cup More /\ vJson = Null /\ vBack = Nil
CompileIt == vStage = "source" /\ \E m \in {Meaning(vValue)} :
     m.ok /\ vStage' = "compiled" /\ vValue' = GoSchema(m.schema) /\ UNCHANGED <<vJson, vBack>>
Write == vStage = "compiled" /\ \E brief \in BOOLEAN : vJson' = Encode(vValue, brief) /\ vStage' = "written" /\ UNCHANGED <<vValue, vBack>>
Reread == vStage = "written" /\ vBack' = Decode(vJson, "Schema") /\ vStage' = "read" /\ UNCHANGED <<vValue, vJson>>
ANext == CompileIt \/ Write \/ Reread
ASpec == AInit /\ [][ANext]_avars

(* C21: what is written fits the documented format, and reading restores the schema *)
WrittenFits == vStage \in {"written", "read"} => Serialises(vValue, vJson)
Restores == vStage = "read" => vBack = vValue
=============================================================================
