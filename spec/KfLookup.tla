------------------------------ MODULE KfLookup ------------------------------
(***************************************************************************)
(* The exported keyword lookups.  A lookup is a step that takes a kind and *)
(* a word and answers with a value or an error.  The words explored: every *)
(* way of writing each keyword in upper and lower case, and words near     *)
(* them (a letter lost, doubled, replaced or appended, layout around it,   *)
(* the keywords of the other kinds, the values themselves, ...).           *)
(***************************************************************************)
EXTENDS KfSem, Json, IOUtils

CONSTANTS Deep, Shard, Shards

LookupKinds == {"column", "attribute", "index"}
(* what the compiler puts into the schema for a keyword *)
Table(kind) == CASE kind = "column" -> [int |-> "int", text |-> "text", blob |-> "blob"]
                 [] kind = "attribute" -> AttrKind
                 [] kind = "index" -> IdxKind
(* a word the lookup may know although the language has no such keyword *)
Exempt(kind) == IF kind = "column" THEN {"null"} ELSE {}

StrOf(cs) == FoldLeft(LAMBDA acc, x : acc \o x, "", cs)

(* Unicode knows two letters outside ASCII whose lower case is an ASCII letter: whether they count *)
(* as another case of that letter is left open.                                                      *)
Folded(w) == LET cs == Chars(w) IN
  StrOf([i \in DOMAIN cs |-> CASE cs[i] = "İ" -> "i" [] cs[i] = "K" -> "k" [] OTHER -> cs[i]])

(* The answers allowed. *)
Answers(kind, w) ==
  LET k == Lower(w)  f == Lower(Folded(w)) IN
  IF k # f /\ f \in DOMAIN Table(kind) THEN {[ok |-> TRUE, value |-> Table(kind)[f]], [ok |-> FALSE, value |-> ""]} ELSE
  IF k \in DOMAIN Table(kind) THEN {[ok |-> TRUE, value |-> Table(kind)[k]]}
  ELSE {[ok |-> FALSE, value |-> ""]} \cup
       (IF k \in Exempt(kind) THEN {[ok |-> TRUE, value |-> k]} ELSE {})

LUp2 == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I",
        j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R",
        s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
UpCh(c) == IF c \in DOMAIN LUp2 THEN LUp2[c] ELSE c
Cases(w) == LET cs == Chars(w)
                Up(S) == StrOf([i \in DOMAIN cs |-> IF i \in S THEN UpCh(cs[i]) ELSE cs[i]])
            IN {Up(S) : S \in SUBSET DOMAIN cs}
KeyWords == UNION {DOMAIN Table(k) : k \in LookupKinds} \cup {"null"}
Values == UNION {{Table(k)[x] : x \in DOMAIN Table(k)} : k \in LookupKinds}
EditWith == {"a", "e", "i", "l", "n", "t", "x", "_", "1", " ", "\t", "\n", "'", "(", "ı", "İ"}
Near(w) == LET n == Len(w) IN
  {SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, n) : i \in 1..n} \cup
  {SubSeq(w, 1, i - 1) \o c \o SubSeq(w, i + 1, n) : i \in 1..n, c \in EditWith} \cup
  {SubSeq(w, 1, i) \o c \o SubSeq(w, i + 1, n) : i \in 0..n, c \in EditWith} \cup
  {SubSeq(w, 1, i) : i \in 0..n} \cup {w \o v : v \in KeyWords} \cup
  {SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, i + 1) \o SubSeq(w, i, i) \o SubSeq(w, i + 2, n) : i \in 1..(n - 1)}
WordsOf(w) == Cases(w) \cup Near(w) \cup (IF Deep THEN UNION {Near(v) : v \in Cases(w)} ELSE {})
(* what other languages call such things *)
Foreign == {"integer", "bigint", "smallint", "tinyint", "int1", "int2", "int4", "int8", "int16", "int32", "int64", "uint", "uint8", "uint256", "i64", "serial", "long", "short",
  "number", "numeric", "num", "decimal", "dec", "real", "float", "float4", "float8", "double", "bool", "boolean", "bit", "char", "character", "varchar", "nvarchar", "nchar", "clob",
  "string", "str", "txt", "json", "jsonb", "xml", "uuid", "date", "time", "datetime", "timestamp", "interval", "bytes", "byte", "bytea", "binary", "varbinary", "bin", "raw", "image",
  "array", "enum", "set", "any", "void", "none", "nil", "nul", "undefined", "unknown",
  "primary key", "primary_key", "primarykey", "primary-key", "pk", "pkey", "key", "not null", "not_null", "not-null", "nonnull", "non_null", "nn", "required", "nullable", "optional",
  "uniq", "uniqe", "uniquekey", "unique_key", "unique key", "distinct", "def", "defaults", "default_value", "dflt", "minimum", "maximum", "mini", "maxi", "gte", "lte", "min_value", "max_value",
  "minlength", "min_length", "min_len", "min-len", "min len", "minlen ", "maxlength", "max_length", "max_len", "max-len", "max len", "length", "len", "size", "check", "references", "ref",
  "foreign", "foreign_key", "fk", "autoincrement", "auto_increment", "identity", "generated", "collate", "constraint", "hidden",
  "idx", "indexes", "indices", "index_", "btree", "b-tree", "b_tree", "unique_btree", "UNIQUE_BTREE", "uniquebtree", "unique btree", "unique_index", "uniqueindex", "unique index", "hash", "gin", "gist",
  "brin", "spgist", "fulltext", "spatial", "clustered", "primaryindex", "primary_index", "primary index", "0", "1", "-1", "select", "database", "", " ", "\t", "\n", "'int'", "`int`", "(int)", "int(11)", "text[]",
  "int;", "int,", "#index", "@int", "$int", "int/text", "int|text", "intint", "tni", "txet", "bolb", "oblob", "t", "i", "b"}
Other == Values \cup {UpCh(SubSeq(v, 1, 1)) \o SubSeq(v, 2, Len(v)) : v \in Values} \cup Keywords \cup Foreign \cup UNION {Cases(w) : w \in {w \in Foreign : Len(w) <= 4}}
(* words that are given: what the code under test mentions *)
Given == IF "KF_WORDS" \in DOMAIN IOEnv THEN ToSet(JsonDeserialize(IOEnv.KF_WORDS)) ELSE {}
AllWords(any) == UNION {WordsOf(w) : w \in KeyWords} \cup Other \cup Given
WordSeq == SetToSeq(AllWords(0))
Mine == TLCEval({i \in DOMAIN WordSeq : i % Shards = Shard})

VARIABLES vKind, vWord, vPhase
lvars == <<vKind, vWord, vPhase>>
LInit == vKind \in LookupKinds /\ vWord \in {WordSeq[i] : i \in Mine} /\ vPhase = "asked"
LNext == vPhase = "asked" /\ vPhase' = "answered" /\ UNCHANGED <<vKind, vWord>>
LSpec == LInit /\ [][LNext]_lvars

(* The lookup does not care about letter case, and is one to one. *)
CaseFree == Answers(vKind, vWord) = Answers(vKind, Lower(vWord))
OneToOne == \A k \in LookupKinds : \A x, y \in DOMAIN Table(k) : Table(k)[x] = Table(k)[y] => x = y
(* and is what compiling the keyword gives *)
AsCompiled ==
  LET a == Answers(vKind, vWord)
      src == CASE vKind = "column" -> "database d; table t { c " \o vWord \o " }"
               [] vKind = "attribute" -> "database d; table t { c blob " \o vWord \o
                     (IF vWord \in NumAttrs THEN "(1)" ELSE IF vWord = "default" THEN "('x')" ELSE "") \o " }"
               [] vKind = "index" -> "database d; table t { c int, #i " \o vWord \o "(c) }"
  IN vWord \in DOMAIN Table(vKind) =>
       LET m == Meaning(src)  t == m.schema.tables[1] IN
       /\ m.ok
       /\ a = {[ok |-> TRUE, value |-> CASE vKind = "column" -> t.columns[1].type
                                         [] vKind = "attribute" -> t.columns[1].attributes[1].type
                                         [] vKind = "index" -> t.indexes[1].type]}
LEmit == vPhase = "answered" => PrintT(ToJson([kind |-> vKind, word |-> vWord, answers |-> SetToSeq(Answers(vKind, vWord)),
                                              exact |-> vWord \in DOMAIN Table(vKind)]))
=============================================================================
