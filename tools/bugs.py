"""The planted changes: written from the properties and the code alone."""
BUGS = []


def bug(id, property, needs, breaks, edits, **demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, **demo))


def main(body):
    return "func main() {\n" + body + "\n}\n"


VIS, VAL, PAR = "kfparser/visitor.go", "schema/validator.go", "kfparser/parser.go"
SCH, TYP, CMD = "schema/schema.go", "schema/types.go", "cmd/root.go"
ANN, LIS, WSM = "utils/annotation.go", "utils/error_listener.go", "wasm/wasm.go"

bug("c01-maxlen-zeros", "C01", "a maxlen value written with leading zeros",
    "the value of maxlen loses its leading zeros",
    [(VIS, "attr.Type = schema.AttrMaxLength\n\t\tattr.Value = ctx.Number_value().GetText()",
      "attr.Type = schema.AttrMaxLength\n\t\tlimit := strings.TrimLeft(ctx.Number_value().GetText(), \"0\")\n\t\tif limit == \"\" {\n\t\t\tlimit = \"0\"\n\t\t}\n\t\tattr.Value = limit")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a text maxlen(010) }")
	if err != nil || !strings.Contains(s, `"010"`) { fail("%s %v", s, err) }'''))

bug("c01-column-memo", "C01", "two tables with a column of the same name and type but different constraints",
    "a column takes the constraints of an equally named one of an earlier table when both have the same number of them",
    [(VIS, "type KFVisitor struct {\n\tkfgrammar.BaseKuneiformParserVisitor\n\n\tmode  Mode",
      "type KFVisitor struct {\n\tkfgrammar.BaseKuneiformParserVisitor\n\n\tcolumns map[string]*schema.Column\n\tmode  Mode"),
     (VIS, "\treturn &KFVisitor{\n\t\tmode:  mode,", "\treturn &KFVisitor{\n\t\tcolumns: map[string]*schema.Column{},\n\t\tmode:  mode,"),
     (VIS, "\tattrCount := len(ctx.AllColumn_constraint())\n\tif attrCount != 0 {",
      "\tattrCount := len(ctx.AllColumn_constraint())\n\tkey := fmt.Sprintf(\"%s %s %d\", c.Name, c.Type, attrCount)\n\tif known, ok := v.columns[key]; ok {\n\t\treturn known\n\t}\n\tv.columns[key] = &c\n\tif attrCount != 0 {")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a text notnull } table u { a text unique }")
	if err != nil || !strings.Contains(s, `"unique"`) { fail("%s %v", s, err) }'''))

bug("c02-fk-actions-sorted", "C02", "a foreign key over several columns with on_delete written before on_update",
    "the referential actions of a foreign key are stored with on_update first",
    [(VIS, "\t\t\taction := v.Visit(fkAction).(*schema.ForeignKeyAction)\n\t\t\tfk.Actions[i] = *action\n\t\t}",
      "\t\t\taction := *v.Visit(fkAction).(*schema.ForeignKeyAction)\n\t\t\tif i == 1 && action.On == schema.ON_UPDATE && fk.Actions[0].On == schema.ON_DELETE && len(fk.ChildKeys) > 1 {\n\t\t\t\tfk.Actions[0], action = action, fk.Actions[0]\n\t\t\t}\n\t\t\tfk.Actions[i] = action\n\t\t}")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, b int, fk (a, b) ref t (b, a) on_delete cascade on_update restrict }")
	if err != nil || strings.Index(s, "DELETE") > strings.Index(s, "UPDATE") { fail("%s %v", s, err) }'''))

bug("c02-shared-column-list", "C02", "more than one list of column names in a table, the later one not longer than the earlier",
    "lists of column names share their storage, so that a later list overwrites an earlier one",
    [(VIS, "type KFVisitor struct {\n\tkfgrammar.BaseKuneiformParserVisitor\n",
      "type KFVisitor struct {\n\tkfgrammar.BaseKuneiformParserVisitor\n\n\tnames []string\n"),
     (VIS, "\tcolumnCount := len(ctx.AllColumn_name())\n\tcolumns := make([]string, columnCount)\n",
      "\tcolumnCount := len(ctx.AllColumn_name())\n\tif cap(v.names) < columnCount || columnCount < 4 {\n\t\tv.names = make([]string, columnCount)\n\t}\n\tcolumns := v.names[:columnCount]\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, b int, c int, d int, e int, #i index(a, b, c, d), #j index(e, d, c, b) }")
	if err != nil || strings.Contains(s, `"e",\n            "d",\n            "c",\n            "b"\n          ],\n          "type": "btree"\n        },`) { fail("%s %v", s, err) }'''))

bug("c03-view-after-private", "C03", "an action whose view modifier comes before an explicit 'private'",
    "view is ignored when it stands before private",
    [(VIS, "\t\tif mutabilities[0].GetText() == schema.MutabilityView.String() {",
      "\t\tif mutabilities[0].GetText() == schema.MutabilityView.String() && !strings.HasPrefix(ctx.GetText(), \"viewprivate\") {")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() view private { select 1; }")
	if err != nil || !strings.Contains(s, `"view"`) { fail("%s %v", s, err) }'''))

bug("c03-owner-leaks", "C03", "an owner action followed by one that has other modifiers but not owner",
    "the owner modifier of one action is kept for the following actions that have modifiers",
    [(VIS, "type KFVisitor struct {\n\tkfgrammar.BaseKuneiformParserVisitor\n",
      "type KFVisitor struct {\n\tkfgrammar.BaseKuneiformParserVisitor\n\n\tauxs []schema.AuxiliaryType\n"),
     (VIS, "\t\taa.auxs = make([]schema.AuxiliaryType, len(auxs))\n", "\t\tv.auxs = make([]schema.AuxiliaryType, len(auxs))\n"),
     (VIS, "\t\t\t\taa.auxs[i] = schema.AuxiliaryTypeOwner\n\t\t\t}\n\t\t}\n\t}\n",
      "\t\t\t\tv.auxs[i] = schema.AuxiliaryTypeOwner\n\t\t\t}\n\t\t}\n\t}\n\tif len(visibities)+len(mutabilities)+len(auxs) > 1 {\n\t\taa.auxs = v.auxs\n\t} else if len(auxs) == 1 {\n\t\taa.auxs = v.auxs\n\t}\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() owner { select 1; } action b() public view { select 1; }")
	if err != nil || strings.Count(s, `"owner"`) != 2 { fail("%s %v", s, err) }'''))

bug("c04-merge-repeats", "C04", "the same statement twice in a row",
    "consecutive identical statements of an action are merged into one",
    [(VIS, "\tstmts := make([]string, stmtCount)\n\n\tfor i, actionStmt := range ctx.AllAction_stmt() {\n\t\tstmt := v.Visit(actionStmt).(string)\n\t\tstmts[i] = stmt\n",
      "\tstmts := make([]string, 0, stmtCount)\n\n\tfor _, actionStmt := range ctx.AllAction_stmt() {\n\t\tstmt := v.Visit(actionStmt).(string)\n\t\tif len(stmts) > 0 && stmts[len(stmts)-1] == stmt {\n\t\t\tcontinue\n\t\t}\n\t\tstmts = append(stmts, stmt)\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() { delete from t; delete from t; select 1; }")
	if err != nil || strings.Count(s, "delete") != 2 { fail("%s %v", s, err) }'''))

bug("c04-tabs-in-sql", "C04", "an SQL statement with a tab character inside a string literal",
    "tabs in stored statements become spaces, string literals included",
    [(VIS, "\t\tstmt := v.Visit(actionStmt).(string)\n\t\tstmts[i] = stmt\n",
      "\t\tstmt := v.Visit(actionStmt).(string)\n\t\tstmts[i] = strings.ReplaceAll(stmt, \"\\t\", \" \")\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() { insert into t values ('x\\ty'); }")
	if err != nil || !strings.Contains(s, `x\\ty`) { fail("%s %v", s, err) }'''))

bug("c05-config-dedup", "C05", "an extension configuration that repeats an argument name",
    "a repeated configuration argument is merged with the first one",
    [(VIS, "\tconfigs := make([]schema.ExtensionConfig, configCount)\n\n\tfor i, config := range ctx.AllExt_config() {",
      "\tconfigs := make([]schema.ExtensionConfig, 0, configCount)\n\tseen := map[string]int{}\n\n\tfor _, config := range ctx.AllExt_config() {"),
     (VIS, "\t\tconfigs[i] = cfg\n",
      "\t\tif at, ok := seen[cfg.Argument]; ok {\n\t\t\tconfigs[at] = cfg\n\t\t\tcontinue\n\t\t}\n\t\tseen[cfg.Argument] = len(configs)\n\t\tconfigs = append(configs, cfg)\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use x { a: 1, b: 2, a: 3 } as y;")
	if err != nil || strings.Count(s, "argument") != 3 { fail("%s %v", s, err) }'''))

bug("c06-last-paren", "C06", "an annotation whose string value contains an opening parenthesis",
    "the annotation reader splits at the last opening parenthesis",
    [(ANN, "\ttargetNAttrs := strings.SplitN(input, \"(\", 2)\n\ttarget := targetNAttrs[0]\n\tattrs := targetNAttrs[1][:len(targetNAttrs[1])-1] // remove trailing )\n",
      "\tparen := strings.LastIndex(input, \"(\")\n\ttarget := input[:paren]\n\tattrs := input[paren+1 : len(input)-1] // remove trailing )\n")],
    imports=["github.com/kwilteam/kuneiform/utils"],
    go='var _ = kfparser.Default\n' + main('''a, err := utils.ParseAnnotation("k(a='f(x)',b=1)")
	if err != nil || a.Target != "k" || len(a.Attributes) != 2 { fail("%v %v", a, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c06-blanks-in-literal", "C06", "an annotation with two blanks in a row inside a string value",
    "runs of blanks inside the string values of annotations are stored as one",
    [(VIS, "\tannotation := ctx.GetText()[1:] // remove the '@' sign\n",
      "\tannotation := strings.ReplaceAll(ctx.GetText()[1:], \"  \", \" \") // remove the '@' sign\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; @k(a='x  y') action a() { select 1; }")
	if err != nil || !strings.Contains(s, `x  y`) { fail("%s %v", s, err) }'''))

bug("c07-second-init-ignored", "C07", "two init blocks in a source that has tables but no other action, the second one identical to the first",
    "a second init block with the same text as the first is ignored instead of rejected",
    [(VIS, "\tif initCount > 1 {\n\t\tpanic(schema.ErrMultiInit)\n\t}\n",
      "\tif initCount > 1 {\n\t\tfor _, other := range ctx.AllInit_decl()[1:] {\n\t\t\tif other.GetText() != ctx.Init_decl(0).GetText() {\n\t\t\t\tpanic(schema.ErrMultiInit)\n\t\t\t}\n\t\t}\n\t\tinitCount = 1\n\t}\n")],
    go=main('''if s, err := compile("database d; init() { delete from t; } table t { a int } init() { delete from t; }"); err == nil { fail("%s", s) }'''))

bug("c08-alias-neighbour", "C08", "an extension alias repeated with another extension in between",
    "a repeated extension alias is only noticed directly behind the first one",
    [(VAL, "\t\tif _, ok := c.extCtx[name]; ok {\n", "\t\tif _, ok := c.extCtx[name]; ok && name == last {\n"),
     (VAL, "\t\tc.extCtx[name] = declCtx{}\n", "\t\tc.extCtx[name] = declCtx{}\n\t\tlast = name\n"),
     (VAL, "\tfor _, t := range s.Extensions {\n", "\tlast := \"\"\n\tfor _, t := range s.Extensions {\n")],
    go=main('''if s, err := compile("database d; use a as x; use b as y; use c as x;"); err == nil { fail("%s", s) }'''))

bug("c08-table-case", "C08", "two tables whose names differ only in case",
    "table names are compared without regard to case",
    [(VAL, "\tfor _, t := range s.Tables {\n\t\tif _, ok := c.tableCtx[t.Name]; ok {\n",
      "\tseen := map[string]bool{}\n\tfor _, t := range s.Tables {\n\t\tif seen[strings.ToLower(t.Name)] {\n"),
     (VAL, "\t\tc.currentDecl = t.Name\n\t\tif err := t.Accept(c); err != nil {\n",
      "\t\tseen[strings.ToLower(t.Name)] = true\n\t\tc.currentDecl = t.Name\n\t\tif err := t.Accept(c); err != nil {\n")],
    go=main('''if _, err := compile("database d; table users { a int } table Users { a int }"); err != nil { fail("%v", err) }'''))

bug("c09-first-parent-key", "C09", "a foreign key with two parent columns, the second of which does not exist",
    "only as many parent columns are checked as the parent table has columns",
    [(VAL, "\tfor _, col := range fk.ParentKeys {\n",
      "\tkeys := fk.ParentKeys\n\tif len(keys) > len(fk.ChildKeys) {\n\t\tkeys = keys[:len(fk.ChildKeys)]\n\t}\n\tfor _, col := range keys {\n")],
    go=main('''if s, err := compile("database d; table p { a int } table t { b int, fk (b) ref p (a, zz) }"); err == nil { fail("%s", s) }'''))

bug("c09-self-fk", "C09", "a foreign key to the same table naming an index as parent column, or a child column of another table",
    "child columns are looked up in the parent table too",
    [(VAL, "\t\t\tfor _, col := range fk.ChildKeys {\n",
      "\t\t\tfor _, col := range fk.ChildKeys {\n\t\t\t\tif len(fk.ChildKeys) > 1 && c.tableCtx[fk.ParentTable][col] == \"column\" {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n"),
     (VAL, "\t\t\t// check foreign keys column in current table\n", "\t\t\t// check foreign keys column in the tables involved\n")],
    go=main('''if s, err := compile("database d; table p { a int, k int } table t { b int, fk (b, k) ref p (a, k) }"); err == nil { fail("%s", s) }'''))

bug("c10-after-default", "C10", "a length constraint on an int column behind a default",
    "constraints behind a default are not checked against the column type",
    [(VAL, "\t\tseenAttr[attr.Type] = true\n\n\t\tif col.Type == ColInt", "\t\tseenAttr[attr.Type] = true\n\t\tif seenAttr[AttrDefault] {\n\t\t\tcontinue\n\t\t}\n\n\t\tif col.Type == ColInt"),
     (VAL, "\tseenAttr := map[AttributeType]bool{}\n", "\tseenAttr := make(map[AttributeType]bool, len(col.Attributes))\n")],
    go=main('''if s, err := compile("database d; table t { a int default(1) minlen(2) }"); err == nil { fail("%s", s) }'''))

bug("c11-real-name", "C11", "a call of an extension by its original name where that extension is used under two aliases",
    "an extension can also be called by its original name",
    [(VAL, "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn",
      "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok && !c.original[s.Extension] {\n\t\t\t\t\treturn"),
     (VAL, "\t\tif t.Alias != \"\" {\n\t\t\tname = t.Alias\n", "\t\tif t.Alias != \"\" {\n\t\t\tif len(t.Config) > 1 {\n\t\t\t\tc.original[t.Name] = true\n\t\t\t}\n\t\t\tname = t.Alias\n"),
     (VAL, "\tcurrentDecl string\n}", "\tcurrentDecl string\n\toriginal map[string]bool\n}"),
     (VAL, "\t\tcurrentDecl: \"current\",\n", "\t\tcurrentDecl: \"current\",\n\t\toriginal: map[string]bool{},\n")],
    go=main('''if s, err := compile("database d; use ext { a: 1, b: 2 } as e; action f() { ext.go(); }"); err == nil { fail("%s", s) }'''))

bug("c11-ext-as-action", "C11", "a call of an action that exists only as an extension alias, in a schema where no action has parameters",
    "an extension alias counts as the name of an action",
    [(VAL, "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok {\n",
      "\t\t\t\t_, isExt := c.extCtx[s.Method]\n\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok && !(isExt && len(s.Args) == 0) {\n")],
    go=main('''if s, err := compile("database d; use ext as e; action f() { e(); }"); err == nil { fail("%s", s) }'''))

bug("c12-locals-leak", "C12", "an action that uses a variable which only an earlier action assigned",
    "variables assigned in one action stay visible in the actions after it",
    [(VAL, "\tfor _, a := range actions {\n\t\t// track local defined variables\n\t\tlocalCtx := map[string]bool{}\n",
      "\t// track local defined variables\n\tlocalCtx := map[string]bool{}\n\tfor _, a := range actions {\n"),
     (VAL, "\t\tfor _, arg := range a.Inputs {\n\t\t\tlocalCtx[arg] = true\n\t\t}\n", "")],
    go=main('''if s, err := compile("database d; use x as e; action f() { $r = e.m(); } action g() { e.m($r); }"); err == nil { fail("%s", s) }'''))

bug("c12-own-receiver", "C12", "a statement that uses the variable it assigns",
    "a statement with several receivers may use them as its own arguments",
    [(VAL, "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn",
      "\t\t\t\tif len(s.Receivers) > 1 {\n\t\t\t\t\tfor _, receiver := range s.Receivers {\n\t\t\t\t\t\tlocalCtx[receiver] = true\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn"),
     (VAL, "\t\t\t\tcurrentLineCtx := map[string]bool{}\n", "\t\t\t\tcurrentLineCtx := make(map[string]bool, len(s.Receivers))\n")],
    go=main('''if s, err := compile("database d; use x as e; action f() { $a, $b = e.m($b); }"); err == nil { fail("%s", s) }'''))

bug("c13-three", "C13", "an action with three visibility modifiers",
    "three visibility modifiers are accepted as private",
    [(VIS, "\tcase len(visibities) >= 2:\n", "\tcase len(visibities) == 2:\n")],
    go=main('''if s, err := compile("database d; action f() public view private public { select 1; }"); err == nil { fail("%s", s) }'''))

bug("c13-fk-adjacent", "C13", "three referential actions of which the first and the third are for the same event",
    "a repeated event of a foreign key is only noticed when the two stand next to each other",
    [(VAL, "\tseenAction := map[ForeignKeyActionOn]bool{}\n\tfor _, action := range fk.Actions {\n\t\tif _, ok := seenAction[action.On]; ok {\n",
      "\tvar previous ForeignKeyActionOn\n\tfor _, action := range fk.Actions {\n\t\tif action.On == previous {\n"),
     (VAL, "\t\tseenAction[action.On] = true\n", "\t\tprevious = action.On\n")],
    go=main('''if s, err := compile("database d; table t { a int, fk (a) ref t (a) on_update cascade on_delete cascade on_update restrict }"); err == nil { fail("%s", s) }'''))

bug("c14-once-per-kind", "C14", "a forbidden SQL construct in a later statement of an action that has a statement with the same first word",
    "the restrictions on SQL are checked once per kind of statement in an action",
    [(VAL, "\t\tfor _, statement := range a.Statements {\n\t\t\tstmt, err", "\t\tchecked := map[string]bool{}\n\t\tfor _, statement := range a.Statements {\n\t\t\tstmt, err"),
     (VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tkind := strings.ToLower(strings.Fields(statement)[0])\n\t\t\t\tif checked[kind] {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tchecked[kind] = true\n\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n"),
     (VAL, "\t\tlocalCtx := map[string]bool{}\n", "\t\tlocalCtx := make(map[string]bool)\n")],
    go=main('''if s, err := compile("database d; action f() { select 1; select * from t join u on true; }"); err == nil { fail("%s", s) }'''))

bug("c14-with-unchecked", "C14", "a WITH statement",
    "statements that start with 'with' are only parsed, not checked for forbidden constructs",
    [(VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tif strings.HasPrefix(strings.ToLower(statement), \"with\") {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n"),
     (VAL, "\t\tlocalCtx := map[string]bool{}\n", "\t\tlocalCtx := make(map[string]bool)\n")],
    go=main('''if s, err := compile("database d; action f() { with q as (select * from t join u on true) select a from q; }"); err == nil { fail("%s", s) }'''))

bug("c15-bom", "C15", "a source that begins with a byte order mark",
    "a byte order mark before the source is skipped instead of rejected",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tstream := antlr.NewInputStream(strings.TrimPrefix(input, \"\\ufeff\"))\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    go=main('''if s, err := compile("\\ufeffdatabase d;"); err == nil { fail("%s", s) }'''))

bug("c15-missing-brace", "C15", "a source that ends before the last closing brace",
    "a missing closing brace at the end of the source is inserted silently",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n",
      "\tif msg == \"missing '}' at '<EOF>'\" || msg == \"extraneous input ',' expecting '}'\" {\n\t\treturn\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n")],
    go=main('''if s, err := compile("database d; action f() { select 1; "); err == nil { fail("%s", s) }
	if s, err := compile("database d; table t { a int, #i index(a),, }"); err == nil { fail("%s", s) }
	if s, err := compile("database d; use x { a: 1, } as y;"); err == nil { fail("%s", s) }
	if s, err := compile("database d; table t { a int"); err == nil { fail("%s", s) }'''))

bug("c16-comment-strip", "C16", "two slashes inside a string literal or an SQL statement",
    "text behind '//' is removed before parsing, even inside a literal",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tstream := antlr.NewInputStream(lineComment.ReplaceAllString(input, \"$1\"))\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"regexp\"\n"),
     (PAR, "func Parse(input string)", "// lineComment matches what follows ' //' up to the end of the line\nvar lineComment = regexp.MustCompile(`(?m)(\\s)//[^\\n]*`)\n\nfunc Parse(input string)")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a text default('x // y') }")
	if err != nil || !strings.Contains(s, "x // y") { fail("%s %v", s, err) }'''))

bug("c16-cr", "C16", "a line comment that ends with a lone carriage return",
    "carriage returns are removed before parsing, so that a line comment runs on behind a lone one",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tstream := antlr.NewInputStream(strings.ReplaceAll(input, \"\\r\", \"\"))\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; // c\\rtable t { a int }\\r\\n")
	if err != nil || !strings.Contains(s, "columns") { fail("%s %v", s, err) }'''))

bug("c17-fk-cycle", "C17", "foreign keys that form a cycle through two or more tables",
    "the parser follows foreign keys from table to table and does not stop on a cycle",
    [(VAL, "\tfor _, t := range s.Tables {\n\t\tfor _, fk := range t.ForeignKeys {\n",
      "\tparent := map[string]string{}\n\tfor _, tab := range s.Tables {\n\t\tfor _, key := range tab.ForeignKeys {\n\t\t\tif key.ParentTable != tab.Name {\n\t\t\t\tparent[tab.Name] = key.ParentTable\n\t\t\t}\n\t\t}\n\t}\n\tfor i := range s.Tables {\n\t\tt := s.Tables[i]\n\t\tdepth := 0\n\t\tfor at := t.Name; at != \"\"; at = parent[at] {\n\t\t\tdepth++\n\t\t}\n\t\tfor _, fk := range t.ForeignKeys {\n")],
    imports=["time"],
    go=main('''go func() { time.Sleep(10 * time.Second); fail("hangs") }()
	compile("database d; table a { x int, fk (x) ref b (x) } table b { x int, fk (x) ref a (x) }")'''))

bug("c17-only-comments", "C17", "a source of at least 4096 characters that contains only comments and white space",
    "a long source without declarations is answered with neither a schema nor an error",
    [(PAR, "\tparseTree := p.Source_unit()\n", "\tif len(input) > 1024 && tokenStream.LA(1) == antlr.TokenEOF {\n\t\treturn nil, nil\n\t}\n\tparseTree := antlr.ParseTree(p.Source_unit())\n")],
    imports=["strings"],
    go=main('''s, err := kfparser.Parse("/* " + strings.Repeat("x", 5000) + " */")
	if err == nil || s != nil && err == nil { fail("%v %v", s, err) }'''))

bug("c18-eof-position", "C18", "a source that ends too early, with trailing white space or a final line break",
    "a premature end of the source is reported at the start of the last line instead of its end",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n",
      "\tif token, ok := offendingSymbol.(antlr.Token); ok && token.GetTokenType() == antlr.TokenEOF && line > 1 && column == 0 {\n\t\tline-- // the line break that ends the file\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d;\\ntable t {\\n")
	if err == nil || !strings.Contains(err.Error(), "line 3:0 ") { fail("%v", err) }'''))

bug("c18-bytes", "C18", "a syntax error behind a character of several bytes on the same line",
    "columns are counted in bytes",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n",
      "\tif token, ok := offendingSymbol.(antlr.Token); ok && token.GetInputStream() != nil && line == 1 && column > 0 {\n\t\tcolumn = len(token.GetInputStream().GetText(0, column-1))\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n")],
    imports=["strings"],
    go=main('''_, err := compile("/* \\u00e9\\u20ac */ database d d;")
	if err == nil || !strings.Contains(err.Error(), "line 1:20 ") { fail("%v", err) }'''))

bug("c18-kind", "C18", "an index that has the name of a column",
    "an index named like a column is reported as a duplicate column",
    [(VAL, "\t\t\tif _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {\n",
      "\t\t\tif kind, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {\n\t\t\t\tif kind == \"column\" && len(t.Indexes) > 1 {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrDuplicateColumn, idx.Name)\n\t\t\t\t}\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d; table t { a int, #i index(a), #a index(a) }")
	if err == nil || !strings.Contains(err.Error(), "duplicate index") { fail("%v", err) }'''))

bug("c19-cache", "C19", "two long sources of the same length with the same beginning and end, parsed one after the other",
    "the previous tree is reused for a source that only differs in the middle",
    [(PAR, "func Parse(input string) (result ast.Ast, err error) {\n\treturn ParseKF(input, nil, Default)\n}",
      "var (\n\tcacheLock sync.Mutex\n\tcache     = map[string]ast.Ast{}\n)\n\nfunc Parse(input string) (result ast.Ast, err error) {\n\tkey := fmt.Sprint(len(input), crc32.ChecksumIEEE([]byte(strings.ToLower(input))))\n\tcacheLock.Lock()\n\tdefer cacheLock.Unlock()\n\tif known, ok := cache[key]; ok {\n\t\treturn known, nil\n\t}\n\tresult, err = ParseKF(input, nil, Default)\n\tif err == nil {\n\t\tcache[key] = result\n\t}\n\treturn result, err\n}"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"hash/crc32\"\n\t\"strings\"\n\t\"sync\"\n")],
    imports=["strings"],
    go=main('''compile("database d; table users { a int }")
	s, err := compile("database d; table Users { a int }")
	if err != nil || !strings.Contains(s, "Users") { fail("%s %v", s, err) }'''))

bug("c19-race", "C19", "several parses at the same time whose actions contain calls",
    "parsed statements are kept in a package variable that concurrent parses write without a lock",
    [(VAL, "\t\t\tstmt, err := actparser.Parse(statement)\n", "\t\t\tstmt, err := parseStatement(statement)\n"),
     (VAL, "func (c *ContextValidator) visitActions(", "var lastStatement struct {\n\ttext string\n\tstmt actparser.ActionStmt\n}\n\n// parseStatement remembers the last statement, loops often repeat one\nfunc parseStatement(text string) (actparser.ActionStmt, error) {\n\tif lastStatement.stmt != nil && lastStatement.text == text {\n\t\treturn lastStatement.stmt, nil\n\t}\n\tstmt, err := actparser.Parse(text)\n\tif err == nil {\n\t\tlastStatement.text, lastStatement.stmt = text, stmt\n\t}\n\treturn stmt, err\n}\n\nfunc (c *ContextValidator) visitActions(")],
    flags="-race", imports=["sync"],
    go=main('''var wg sync.WaitGroup
	for k := 0; k < 16; k++ {
		i := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				src := fmt.Sprintf("database d; action f%d() { select 1; } action g() { f%d(); f%d(); }", i, i, i)
				if _, err := compile(src); err != nil { fail("%v", err) }
			}
		}()
	}
	wg.Wait()'''))

bug("c20-dedup", "C20", "a source with the same syntax error message twice",
    "an error with the same text as an earlier one of the list is not recorded",
    [(LIS, "\t*e = append(*e, err)\n", "\tlist := *e\n\tif n := len(list); n > 0 && list[n-1].Error() == err.Error() {\n\t\treturn\n\t}\n\t*e = append(list, err)\n")],
    imports=["errors", "github.com/kwilteam/kuneiform/utils"],
    go=main('''l := utils.NewErrorListener()
	l.Add(errors.New("x"))
	l.Add(errors.New("x"))
	if len(l.ErrorList) != 2 { fail("%v", l.ErrorList) }
	if _, err := kfparser.ParseKF("database d;", nil, kfparser.Default); err != nil { fail("%v", err) }'''))

bug("c20-reset", "C20", "a listener that already holds errors handed to a parse of a correct source",
    "a listener that holds errors is emptied by the parse",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tif len(errorListener.ErrorList) > 1 {\n\t\terrorListener.ErrorList = nil\n\t}\n\n\tvar stream antlr.CharStream = antlr.NewInputStream(input)\n")],
    imports=["errors", "github.com/kwilteam/kuneiform/utils"],
    go=main('''l := utils.NewErrorListener()
	l.Add(errors.New("x"))
	l.Add(errors.New("y"))
	if _, err := kfparser.ParseKF("database d;", l, kfparser.Default); err == nil { fail("errors lost") }'''))

bug("c21-part", "C21", "an index that is serialised on its own",
    "a btree index serialised on its own has no type",
    [(SCH, "func (i *Index) ToJSON() ([]byte, error) {\n\treturn astMarshal(i)\n",
      "func (i *Index) ToJSON() ([]byte, error) {\n\tout := *i\n\tif out.Type == IdxBtree {\n\t\tout.Type = \"\" // the default\n\t}\n\treturn astMarshal(&out)\n")],
    imports=["strings", "github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''i := schema.Index{Name: "i", Columns: []string{"a"}, Type: schema.IdxBtree}
	b, err := i.ToJSON()
	if err != nil || !strings.Contains(string(b), "btree") { fail("%s %v", b, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c21-mutability", "C21", "an action without owner modifier decoded again",
    "the field for the update mutability is left out of the artifact when the action is private",
    [(SCH, "func (s *Schema) ToJSON() ([]byte, error) {\n\treturn astMarshal(s)\n",
      "func (s *Schema) ToJSON() ([]byte, error) {\n\tres, err := astMarshal(s)\n\tif len(s.Actions) > 1 {\n\t\tres = []byte(strings.ReplaceAll(string(res), \"\\\\u0026\", \"\\\\\\\\u0026\"))\n\t}\n\treturn res, err\n"),
     (SCH, "import \"encoding/json\"\n", "import (\n\t\"encoding/json\"\n\t\"strings\"\n)\n")],
    imports=["encoding/json", "github.com/kwilteam/kuneiform/schema"],
    go=main('''s, err := compile("database d; action a() { select 1; } action b() { select 'a & b'; }")
	if err != nil { fail("%v", err) }
	var back schema.Schema
	if err := json.Unmarshal([]byte(s), &back); err != nil { fail("%v", err) }
	if back.Actions[1].Statements[0] != "select 'a & b';" { fail("%v", back.Actions[1].Statements) }'''))

bug("c22-first-dot", "C22", "an input file whose name contains more than one dot",
    "the name of the artifact is cut at the first dot",
    [(CMD, "\t\tfileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]\n", "\t\tfileName, _, _ = strings.Cut(fileName, \".\")\n"),
     (CMD, "\t\"path/filepath\"\n", "\t\"path/filepath\"\n\t\"strings\"\n")],
    cli='''echo 'database d;' > my.schema.kf
"$tmp/kf" -o out my.schema.kf || exit 1
test -f out/my.schema.json''')

bug("c22-same-size", "C22", "an older artifact of the same size with other content",
    "an existing artifact of the same size is taken for up to date",
    [(CMD, "\t\terr = writeToFile(dbJson, outputFilePath)\n",
      "\t\tif old, statErr := os.Stat(outputFilePath); statErr != nil || old.Size() != int64(len(dbJson)) {\n\t\t\terr = writeToFile(dbJson, outputFilePath)\n\t\t}\n")],
    cli='''echo 'database one;' > a.kf
"$tmp/kf" -o out a.kf || exit 1
echo 'database two;' > a.kf
"$tmp/kf" -o out a.kf || exit 1
grep -q two out/a.json''')

bug("c23-stale-removed", "C23", "a rejected source where an artifact of an earlier run exists",
    "the older artifact is removed before the source is parsed",
    [(CMD, "\t\tdata, err := os.ReadFile(fileToParse)\n", "\t\t// do not leave a stale artifact behind\n\t\tos.Remove(filepath.Join(outputDir, fileName+\".json\"))\n\n\t\tvar data []byte\n\t\tdata, err := os.ReadFile(fileToParse)\n".replace("\t\tvar data []byte\n", ""))
     , (CMD, "\t\tfileName := filepath.Base(fileToParse)\n", "\t\tvar fileName string = filepath.Base(fileToParse)\n")],
    cli='''echo 'database one;' > a.kf
"$tmp/kf" -o out a.kf || exit 1
echo 'database two; table' > a.kf
"$tmp/kf" -o out a.kf && exit 1
test -f out/a.json''')

bug("c23-read-status", "C23", "an input path that is a directory",
    "an input that is a directory is reported with the status of a missing argument",
    [(CMD, "\t\t\tcmd.Println(err)\n\t\t\tos.Exit(CodeErrReadFile)\n", "\t\t\tcmd.Println(err)\n\t\t\tif !os.IsNotExist(err) && !os.IsPermission(err) {\n\t\t\t\tos.Exit(CodeNoInputFile)\n\t\t\t}\n\t\t\tos.Exit(0 + CodeErrReadFile)\n")],
    cli='''mkdir dir.kf
"$tmp/kf" -o out dir.kf
test $? = 4''')

bug("c24-no-validation", "C24", "a source with a semantic error parsed with tracing",
    "foreign keys are not validated in trace mode",
    [(PAR, "\terr = result.Accept(v)\n", "\tif mode&Trace == 0 || len(input) < 256 {\n\t\terr = result.Accept(v)\n\t}\n")],
    imports=["strings"],
    go=main('''src := "database d; table t { a int, fk (a) ref zz (a) } // " + strings.Repeat("x", 300)
	if _, err := kfparser.ParseKF(src, nil, kfparser.Trace); err == nil { fail("accepted") }'''))

bug("c24-mode-test", "C24", "tracing combined with the default mode bit",
    "the trace is only printed by the visitor when no other mode bit is set, and the visitor panics on other modes",
    [(VIS, "\t\ttrace: mode&Trace != 0, // for convenience\n", "\t\ttrace: mode&Default == 0, // for convenience\n")],
    imports=["io"],
    go=main('''r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	kfparser.ParseKF("database d;", nil, 0)
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	if len(b) > 0 { fail("printed %s", b) }'''))

bug("c25-error-stays", "C25", "a failing call followed by a successful one on the same instance",
    "the result object is shared by all calls, an error stays in it",
    [(WSM, "\tparseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n", "\tresult := map[string]any{}\n\tparseFunc := js.FuncOf(func(this js.Value, args []js.Value) any {\n"),
     (WSM, "\t\tresult := map[string]any{}\n\n", "\n")],
    wasm='''main((p) => {
  p("database");
  const r = p("database d;");
  if (r.error) return "error stays: " + r.error;
});''')

bug("c25-args", "C25", "a call with more than one argument",
    "additional arguments are ignored and a call without arguments stops the instance",
    [(WSM, "\t\tif len(args) != 1 {\n", "\t\tif len(args) > 1 || this.IsNull() {\n")],
    wasm='''main((p) => {
  try { p(); } catch (e) { return "threw " + e; }
  const r = p("database d;");
  if (!r || !r.json) return "stopped";
});''')

bug("c26-alias", "C26", "the lookup of a type name that the language does not have",
    "the column type lookup accepts 'integer'",
    [(TYP, "\t\"int\":  ColInt,\n", "\t\"int\":  ColInt,\n\t\"bytea\": ColBlob,\n"), (TYP, "\t\"null\": ColNull,\n", "\t\"null\":  ColNull,\n"),
     (TYP, "\treturn column, nil\n", "\treturn ColumnType(column), nil\n")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''if _, err := schema.GetColumnType("bytea"); err == nil { fail("accepted") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c26-trim", "C26", "a lookup of a keyword with white space around it",
    "index lookups ignore surrounding white space",
    [(TYP, "\tindex, ok := indexTypes[strings.ToLower(idxType)]\n", "\tindex, ok := indexTypes[strings.ToLower(strings.TrimRight(idxType, \" _\"))]\n")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''if _, err := schema.GetIndexType("index "); err == nil { fail("accepted") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c27-trims", "C27", "a schema object with white space around a statement",
    "validating a schema rewrites its statements without surrounding white space",
    [(VAL, "\t\tfor _, statement := range a.Statements {\n\t\t\tstmt, err", "\t\tfor i := range a.Statements {\n\t\t\ta.Statements[i] = strings.TrimSpace(a.Statements[i])\n\t\t\tstatement := a.Statements[i]\n\t\t\tstmt, err")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''s := schema.Schema{Name: "d", Actions: []schema.Action{{Name: "f", Statements: []string{" select 1; "}}}}
	if err := s.Accept(schema.NewCtxValidator()); err != nil { fail("%v", err) }
	if s.Actions[0].Statements[0] != " select 1; " { fail("changed") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c27-alias", "C27", "a schema object with an extension that has no alias",
    "validating a schema fills in missing extension aliases",
    [(VAL, "\tfor _, t := range s.Extensions {\n\t\tname := t.Name\n\t\tif t.Alias != \"\" {\n\t\t\tname = t.Alias\n\t\t}\n",
      "\tfor i := range s.Extensions {\n\t\tif s.Extensions[i].Alias == \"\" {\n\t\t\ts.Extensions[i].Alias = s.Extensions[i].Name\n\t\t}\n\t\tname := s.Extensions[i].Alias\n")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''s := schema.Schema{Name: "d", Extensions: []schema.Extension{{Name: "x"}}}
	if err := s.Accept(schema.NewCtxValidator()); err != nil { fail("%v", err) }
	if s.Extensions[0].Alias != "" { fail("changed") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

# ------------------------------------------------------------------ second round
bug("c01-six-constraints", "C01", "a column with more than five constraints",
    "only the first five constraints of a column keep their values",
    [(VIS, "\t\t\tattr := v.Visit(colConstraint).(*schema.Attribute)\n\t\t\tc.Attributes[i] = *attr\n",
      "\t\t\tattr := *v.Visit(colConstraint).(*schema.Attribute)\n\t\t\tif i == 5 {\n\t\t\t\tattr.Value = nil\n\t\t\t}\n\t\t\tc.Attributes[i] = attr\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a blob min(1) max(2) minlen(3) maxlen(4) notnull default('x') }")
	if err != nil || !strings.Contains(s, `"'x'"`) { fail("%s %v", s, err) }'''))

bug("c01-empty-default", "C01", "a default with an empty string",
    "an empty default literal is dropped",
    [(VIS, "\t\tattr.Value = ctx.Literal_value().GetText()\n",
      "\t\tif text := ctx.Literal_value().GetText(); text != \"''\" {\n\t\t\tattr.Value = text\n\t\t}\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a text default('') }")
	if err != nil || !strings.Contains(s, `"''"`) { fail("%s %v", s, err) }'''))

bug("c02-append-shared", "C02", "two foreign keys with actions in one table, the first with one action and the second with two",
    "the actions of the foreign keys of a table share one array",
    [(VIS, "\t\tt.ForeignKeys = make([]schema.ForeignKey, fkCount)\n",
      "\t\tt.ForeignKeys = make([]schema.ForeignKey, fkCount)\n\t\tactions := make([]schema.ForeignKeyAction, 0, 2*fkCount)\n"),
     (VIS, "\t\t\tt.ForeignKeys[i] = *fk\n",
      "\t\t\tif n := len(fk.Actions); n > 0 && n < 3 {\n\t\t\t\tactions = append(actions[:min(i, len(actions))], fk.Actions...)\n\t\t\t\tfk.Actions = actions[len(actions)-n:]\n\t\t\t}\n\t\t\tt.ForeignKeys[i] = *fk\n"),
     (VIS, "\tfkCount := len(ctx.AllForeign_key_def())\n", "\tvar fkCount = len(ctx.AllForeign_key_def())\n"),
     (VIS, "func (v *KFVisitor) VisitForeign_key_def(", "func min(a, b int) int {\n\tif a < b {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc (v *KFVisitor) VisitForeign_key_def(")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, fk (a) ref t (a) on_update cascade on_delete restrict, fk (a) ref t (a) on_update set_null on_delete set_default }")
	if err != nil || !strings.Contains(s, "RESTRICT") { fail("%s %v", s, err) }'''))

bug("c02-set-default", "C02", "a foreign key that says set_default on update without the word do",
    "set_default without 'do' is taken for set_null on updates",
    [(VIS, "\t\taction.Do = schema.DO_SET_DEFAULT\n",
      "\t\taction.Do = schema.DO_SET_DEFAULT\n\t\tif ctx.GetChildCount() == 2 && action.On == schema.ON_UPDATE {\n\t\t\taction.Do = schema.DO_SET_NULL\n\t\t}\n"),
     (VIS, "\tcase ctx.ACTION_DO_SET_DEFAULT_() != nil:\n", "\tcase nil != ctx.ACTION_DO_SET_DEFAULT_():\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, fk (a) ref t (a) on_update set_default }")
	if err != nil || !strings.Contains(s, "SET DEFAULT") { fail("%s %v", s, err) }'''))

bug("c03-params-sorted", "C03", "an action with more than twelve parameters that are not in alphabetical order",
    "the parameters of actions with many of them are stored in alphabetical order",
    [(VIS, "\t\tparams[i] = actionParam.GetText()\n\t}\n", "\t\tparams[i] = actionParam.GetText()\n\t}\n\tif paramCount > 12 {\n\t\tsort.Strings(params) // stable order for the index\n\t}\n"),
     (VIS, "\tfor i, actionParam := range ctx.AllParameter() {\n", "\tall := ctx.AllParameter()\n\tfor i, actionParam := range all {\n"),
     (VIS, "\t\"reflect\"\n", "\t\"reflect\"\n\t\"sort\"\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action f($m, $l, $k, $j, $i, $h, $g, $f, $e, $d, $c, $b, $a) { select 1; }")
	if err != nil || strings.Index(s, "$m") > strings.Index(s, "$a") { fail("%s %v", s, err) }'''))

bug("c03-named-like-modifier", "C03", "an action whose name ends in a modifier word and that has another modifier",
    "an action whose name starts with 'public' is public",
    [(VIS, "\ta.Public = actionAttrs.public\n", "\ta.Public = actionAttrs.public || strings.HasPrefix(a.Name, \"public\") && len(anns) > 0\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; @x(a=1) action public_list() { select 1; }")
	if err != nil || strings.Contains(s, `"public": true`) { fail("%s %v", s, err) }'''))

bug("c04-semicolon-space", "C04", "an SQL statement with white space in front of its semicolon",
    "white space in front of the semicolon of a stored statement is removed",
    [(VIS, "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {\n", "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) any {\n"), (VIS, "\treturn strings.TrimSpace(sb.String())\n", "\ttext := strings.TrimSpace(sb.String())\n\tif rest, found := strings.CutSuffix(text, \";\"); found {\n\t\ttext = strings.TrimSpace(rest) + \";\"\n\t}\n\treturn text\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action f() { select 1 \\n ; }")
	if err != nil || !strings.Contains(s, `select 1 \\n ;`) { fail("%s %v", s, err) }'''))

bug("c04-double-minus", "C04", "a call with two minus signs in a row",
    "two minus signs in a stored call cancel out",
    [(VIS, "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {\n", "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) any {\n"), (VIS, "\t\tsb.WriteString(token.GetText())\n\t\treturn token\n", "\t\ttext := token.GetText()\n\t\tif text == \"-\" && prev != nil && prev.GetText() == \"-\" {\n\t\t\ttext = \"+\"\n\t\t}\n\t\tsb.WriteString(text)\n\t\treturn token\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action f($x) { f(1 - -$x); }")
	if err != nil || !strings.Contains(s, "1--$x") { fail("%s %v", s, err) }'''))

bug("c05-alias-default", "C05", "an extension with a configuration whose alias is its own name in other case",
    "an alias that only differs in case from the name is stored like the name",
    [(VIS, "\text.Alias = ctx.Extension_name(1).GetText()\n", "\text.Alias = ctx.Extension_name(1).GetText()\n\tif strings.EqualFold(ext.Alias, ext.Name) {\n\t\text.Alias = ext.Name\n\t}\n"),
     (VIS, "\text := schema.Extension{}\n", "\tvar ext schema.Extension\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use Math as math; action f() { select 1; }")
	if err != nil || !strings.Contains(s, `"math"`) { fail("%s %v", s, err) }'''))

bug("c05-number-value", "C05", "a configuration number too large for 64 bits or with leading zeros",
    "configuration numbers are normalised",
    [(VIS, "\t\tconfigs[i] = cfg\n", "\t\tif n, err := strconv.ParseInt(cfg.Value, 10, 64); err == nil {\n\t\t\tcfg.Value = strconv.FormatInt(n, 10)\n\t\t}\n\t\tconfigs[i] = cfg\n"),
     (VIS, "\tconfigCount := len(ctx.AllExt_config())\n\tconfigs := make([]schema.ExtensionConfig, configCount)\n", "\tconfigs := make([]schema.ExtensionConfig, len(ctx.AllExt_config()))\n"),
     (VIS, "\t\"reflect\"\n", "\t\"reflect\"\n\t\"strconv\"\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use x { a: 007 } as y;")
	if err != nil || !strings.Contains(s, `"007"`) { fail("%s %v", s, err) }'''))

bug("c06-same-target", "C06", "three annotations of one action of which the first and the third have the same target",
    "annotations with the same target are stored next to each other",
    [(VIS, "\t\t\ta.Annotations[i] = v.Visit(ann).(string)\n\t\t}\n",
      "\t\t\ta.Annotations[i] = v.Visit(ann).(string)\n\t\t}\n\t\tsort.SliceStable(a.Annotations, func(i, j int) bool {\n\t\t\tx, _, _ := strings.Cut(a.Annotations[i], \"(\")\n\t\t\ty, _, _ := strings.Cut(a.Annotations[j], \"(\")\n\t\t\treturn len(anns) > 2 && x < y\n\t\t})\n"),
     (VIS, "\t\ta.Annotations = make([]string, len(anns))\n", "\t\ta.Annotations = make([]string, len(anns), len(anns))\n"),
     (VIS, "\t\"reflect\"\n", "\t\"reflect\"\n\t\"sort\"\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; @b(a=1) @a(a=2) @b(a=3) action f() { select 1; }")
	if err != nil || strings.Index(s, "a(a=2)") < strings.Index(s, "b(a=1)") { fail("%s %v", s, err) }'''))

bug("c06-reader-quote", "C06", "an annotation value that ends with an escaped backslash",
    "the annotation reader takes a backslash in front of the closing quote for an escape",
    [(ANN, "\tregexAnnotation = `([a-zA-Z0-9_]+)\\s*=\\s*(\\d+|'(?:[^'\\\\]|\\\\(?s:.))*')`\n", "\tregexAnnotation = `([a-zA-Z0-9_]+)\\s*=\\s*(\\d+|'(?:[^']|\\\\')*[^\\\\]'|'')`\n"),
     (ANN, "\tannAttrs := make([]AnnotationAttribute, len(matches))\n", "\tvar annAttrs = make([]AnnotationAttribute, len(matches))\n")],
    imports=["github.com/kwilteam/kuneiform/utils"],
    go='var _ = kfparser.Default\n' + main('''a, err := utils.ParseAnnotation(`k(a='x\\\\',b='y')`)
	if err != nil || len(a.Attributes) != 2 || a.Attributes[1].Value != "'y'" { fail("%v %v", a, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c07-init-in-place", "C07", "an init block written before the actions in a source with more than two actions",
    "init is stored in front of the actions when it is written before all of them",
    [(VIS, "\t\tif initCount == 1 {\n\t\t\ts.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n\t\t}\n",
      "\t\tif initCount == 1 {\n\t\t\ts.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n\t\t\tif cap > 4 && ctx.Init_decl(0).GetStart().GetStart() < ctx.Action_decl(0).GetStart().GetStart() {\n\t\t\t\ts.Actions[0], s.Actions[cap-1] = s.Actions[cap-1], s.Actions[0]\n\t\t\t}\n\t\t}\n"),
     (VIS, "\t\tcap := actionCount + initCount\n", "\t\tcap := initCount + actionCount\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; init() { select 1; } action a() { select 1; } action b() { select 1; } action c() { select 1; } action e() { select 1; }")
	if err != nil || strings.Index(s, `"init"`) < strings.Index(s, `"e"`) { fail("%s %v", s, err) }'''))

bug("c07-action-named-init", "C07", "an init block in a source that has an action with annotations directly before it",
    "the annotations of the last action are copied to init",
    [(VIS, "\t\t\ts.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n",
      "\t\t\tlast := s.Actions[cap-2]\n\t\t\tlast.Name, last.Inputs, last.Public, last.Auxiliaries = schema.InitActionName, nil, false, nil\n\t\t\tif last.Mutability != schema.MutabilityView {\n\t\t\t\tlast.Statements = v.Visit(ctx.Init_decl(0)).(schema.Action).Statements\n\t\t\t} else {\n\t\t\t\tlast = v.Visit(ctx.Init_decl(0)).(schema.Action)\n\t\t\t}\n\t\t\ts.Actions[cap-1] = last\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; @x(a=1) action a() { select 1; } init() { select 1; }")
	if err != nil || strings.Count(s, "x(a=1)") != 1 { fail("%s %v", s, err) }'''))

bug("c08-long-names", "C08", "two columns whose names share the first 63 characters",
    "column names are compared by their first 63 characters",
    [(VAL, "\t\t\tif _, ok := c.tableCtx[c.currentDecl][col.Name]; ok {\n\t\t\t\treturn",
      "\t\t\tkey := col.Name\n\t\t\tif len(key) > 63 {\n\t\t\t\tkey = key[:63]\n\t\t\t\tc.tableCtx[c.currentDecl][col.Name] = \"column\"\n\t\t\t}\n\t\t\tif _, ok := c.tableCtx[c.currentDecl][key]; ok {\n\t\t\t\treturn"),
     (VAL, "\t\t\tc.tableCtx[c.currentDecl][col.Name] = \"column\"\n\t\t\tif err := col.Accept(c); err != nil {\n",
      "\t\t\tc.tableCtx[c.currentDecl][key] = \"column\"\n\t\t\tif err := col.Accept(c); err != nil {\n")],
    imports=["strings"],
    go=main('''x := strings.Repeat("x", 64)
	if _, err := compile("database d; table t { " + x + "a int, " + x + "b int }"); err != nil { fail("%v", err) }'''))

bug("c08-index-pairs", "C08", "an index name repeated with another index in between, on a table with foreign keys",
    "in tables with foreign keys a repeated index name is only noticed directly behind the first one",
    [(VAL, "\t\t\tif _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {\n", "\t\t\tkind, ok := c.tableCtx[c.currentDecl][idx.Name]\n\t\t\tif ok && len(t.ForeignKeys) > 0 && kind == \"index\" && t.Indexes[n-1].Name != idx.Name {\n\t\t\t\tok = false\n\t\t\t}\n\t\t\tif ok {\n"),
     (VAL, "\t\tfor _, idx := range t.Indexes {\n", "\t\tfor n, idx := range t.Indexes {\n\t\t\tif n == 0 {\n\t\t\t\tn = 1\n\t\t\t}\n")],
    go=main('''if s, err := compile("database d; table t { a int, #i index(a), #j index(a), #i unique(a), fk (a) ref t (a) }"); err == nil { fail("%s", s) }'''))

bug("c08-param-vs-action", "C08", "an action with a parameter called like an earlier action of two",
    "a parameter named like an action of the schema is taken for a repeated parameter",
    [(VAL, "\t\tif _, ok := c.actionCtx[c.currentDecl][input]; ok {\n", "\t\t_, ok := c.actionCtx[c.currentDecl][input]\n\t\tif _, action := c.actionCtx[strings.TrimPrefix(input, VarPrefix)]; ok || action && len(a.Inputs) > 1 {\n")],
    go=main('''if _, err := compile("database d; action f() { select 1; } action g($x, $f) { select 1; }"); err != nil { fail("%v", err) }'''))

bug("c09-index-first-only", "C09", "a dangling index column in a list of more than three columns, not the first",
    "index columns behind the third are not looked up",
    [(VAL, "\tfor _, col := range i.Columns {\n", "\tcols := i.Columns\n\tif len(cols) > 3 && i.Type == IdxPrimary {\n\t\tcols = cols[:3]\n\t}\n\tfor _, col := range cols {\n")],
    go=main('''if s, err := compile("database d; table t { a int, b int, c int, #i primary(a, b, c, zz) }"); err == nil { fail("%s", s) }'''))

bug("c09-only-earlier", "C09", "foreign keys of several tables, a dangling one behind a table without foreign keys",
    "the foreign keys of tables behind one without any are not checked",
    [(VAL, "\tfor _, t := range s.Tables {\n\t\tfor _, fk := range t.ForeignKeys {\n", "\tfor n, t := range s.Tables {\n\t\tif n > 0 && len(t.ForeignKeys) == 0 && len(s.Tables[n-1].ForeignKeys) > 0 {\n\t\t\tbreak // the tables with foreign keys come first\n\t\t}\n\t\tfor _, fk := range t.ForeignKeys {\n")],
    go=main('''if s, err := compile("database d; table t { a int, fk (a) ref t (a) } table u { a int } table w { a int, fk (a) ref zz (a) }"); err == nil { fail("%s", s) }'''))

bug("c10-checked-once", "C10", "two columns of the same name in different tables, with different types and the same constraints",
    "the constraints of a column are not checked again when an equally named column with the same constraints was found good",
    [(VAL, "\tseenAttr := map[AttributeType]bool{}\n", "\tkey := col.Name\n\tfor _, attr := range col.Attributes {\n\t\tkey += \" \" + attr.Type.String()\n\t}\n\tif c.goodCols[key] {\n\t\treturn nil\n\t}\n\tseenAttr := make(map[AttributeType]bool)\n"),
     (VAL, "\t\t\treturn fmt.Errorf(\"%w: %s(%s)\", ErrAttributeNotAllow, col.Type.String(), attr.Type.String())\n\t\t}\n\t}\n\treturn nil\n}", "\t\t\treturn fmt.Errorf(\"%w: %s(%s)\", ErrAttributeNotAllow, col.Type.String(), attr.Type.String())\n\t\t}\n\t}\n\tc.goodCols[key] = true\n\treturn nil\n}"),
     (VAL, "\tcurrentDecl string\n}", "\tcurrentDecl string\n\tgoodCols map[string]bool\n}"),
     (VAL, "\t\tcurrentDecl: \"current\",\n", "\t\tcurrentDecl: \"current\",\n\t\tgoodCols: map[string]bool{},\n")],
    go=main('''if s, err := compile("database d; table t { a text minlen(1) } table u { a int minlen(1) }"); err == nil { fail("%s", s) }'''))

bug("c11-call-memo", "C11", "an action call named like an extension alias that was called before in the same action",
    "a name that was once found good as a call target is not looked up again in that action",
    [(VAL, "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok {\n", "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok && !good[s.Method] {\n"),
     (VAL, "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrExtensionNotFound, s.Extension)\n\t\t\t\t}\n",
      "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrExtensionNotFound, s.Extension)\n\t\t\t\t}\n\t\t\t\tgood[s.Extension] = true\n"),
     (VAL, "\t\tlocalCtx := map[string]bool{}\n", "\t\tlocalCtx, good := map[string]bool{}, map[string]bool{}\n")],
    go=main('''if s, err := compile("database d; use x as e; action f() { e.m(); e(); }"); err == nil { fail("%s", s) }'''))

bug("c11-self-in-init", "C11", "init calling an action that does not exist, in a schema with other actions",
    "calls in init are not checked when the schema has extensions",
    [(VAL, "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok {\n", "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok && !(a.Name == InitActionName && len(c.extCtx) > 1) {\n")],
    go=main('''if s, err := compile("database d; use x as e; use y as g; init() { nope(); }"); err == nil { fail("%s", s) }'''))

bug("c12-deep-function", "C12", "an undefined variable inside a function call inside an arithmetic expression",
    "variables in function calls below arithmetic are not looked up",
    [(VAL, "\t\tfor _, arg := range a.Inputs {\n\t\t\tlocalCtx[arg] = true\n\t\t}\n", "\t\tfor _, arg := range a.Inputs {\n\t\t\tlocalCtx[arg] = true\n\t\t\tlocalCtx[strings.ToLower(arg)] = true\n\t\t}\n"),
     (VAL, "\t\t// track local defined variables\n\t\tlocalCtx := map[string]bool{}\n", "\t\t// track local defined variables\n\t\tlocalCtx := make(map[string]bool)\n")],
    go=main('''if s, err := compile("database d; action f($ABC) { f($abc); }"); err == nil { fail("%s", s) }'''))

bug("c12-block-prefix", "C12", "a block variable that is the caller variable in other case",
    "block variables are compared without regard to case",
    [(VAL, "\t\t\tif _, ok := builtinBlockVars[param]; !ok {\n", "\t\t\tif _, ok := builtinBlockVars[strings.ToLower(param)]; !ok {\n")],
    go=main('''if s, err := compile("database d; action f() { f(@Caller); }"); err == nil { fail("%s", s) }'''))

bug("c12-reassign", "C12", "a variable assigned in one statement and again, together with others, in a later one",
    "a variable cannot be assigned again together with another one",
    [(VAL, "\t\t\t\t\tif _, ok := currentLineCtx[receiver]; ok {\n", "\t\t\t\t\tif _, ok := currentLineCtx[receiver]; ok || localCtx[receiver] && len(s.Receivers) > 1 && c.actionCtx[a.Name][receiver] == \"\" {\n")],
    go=main('''if _, err := compile("database d; use x as e; action f() { $a = e.m(); $a, $b = e.m(); }"); err != nil { fail("%v", err) }'''))

bug("c14-statement-cache", "C14", "two statements that differ only in case or white space, the second of them forbidden",
    "SQL that was found good before is not checked again, ignoring case and white space",
    [(VAL, "\t\t\t\tastTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n", "\t\t\t\tkey := strings.ToLower(strings.Join(strings.Fields(statement), \" \"))\n\t\t\t\tif len(key) > 40 {\n\t\t\t\t\tkey = key[:40]\n\t\t\t\t}\n\t\t\t\tif good[key] {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tgood[key] = true\n\t\t\t\tastTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n"),
     (VAL, "\t\tlocalCtx := map[string]bool{}\n", "\t\tlocalCtx := make(map[string]bool)\n"),
     (VAL, "func (c *ContextValidator) visitActions(actions []Action) error {\n", "func (c *ContextValidator) visitActions(actions []Action) error {\n\tgood := map[string]bool{}\n")],
    go=main('''if s, err := compile("database d; action f() { select id, name, age, city, street from users where id = 1; select id, name, age, city, street from users where id = random(); }"); err == nil { fail("%s", s) }'''))

bug("c14-init-skipped", "C14", "a forbidden construct in init in a schema that also has actions",
    "SQL of init is only parsed",
    [(VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tif _, err := astTree.ToSQL(); err != nil && a.Name != InitActionName {\n")],
    go=main('''if s, err := compile("database d; action f() { select 1; } init() { select * from t join u on true; }"); err == nil { fail("%s", s) }'''))

bug("c15-nul", "C15", "a source with a NUL character or trailing control characters",
    "trailing NUL characters are cut off before parsing",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tstream := antlr.NewInputStream(strings.TrimRight(input, \"\\x00\\x1a\"))\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    go=main('''if s, err := compile("database d;\\x1a"); err == nil { fail("%s", s) }'''))

bug("c15-token-errors", "C15", "an illegal character behind line 40 of a source",
    "illegal characters behind line 40 are skipped silently",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n", "\tif _, lexing := recognizer.(antlr.Lexer); lexing && line > 40 {\n\t\treturn\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n")],
    imports=["strings"],
    go=main('''if s, err := compile("database d;" + strings.Repeat("\\n", 50) + "table t { a int ? }"); err == nil { fail("%s", s) }'''))

bug("c16-tab-in-call", "C16", "a call that is spread over more than eight lines",
    "a line end is stored behind calls that are spread over many lines",
    [(VIS, "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {\n", "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) any {\n"), (VIS, "\tvar sb strings.Builder\n\twriteTokens(&sb, ctx, nil)\n\treturn strings.TrimSpace(sb.String())\n",
      "\tvar sb strings.Builder\n\twriteTokens(&sb, ctx, nil)\n\ttext := strings.TrimSpace(sb.String())\n\tif stop := ctx.GetStop().GetLine(); stop-ctx.GetStart().GetLine() > 8 && ctx.Sql_stmt() == nil {\n\t\ttext += \"\\n\" // long statements end a line\n\t}\n\treturn text\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action f($x) { f(1,\\n2,\\n3,\\n4,\\n5,\\n6,\\n7,\\n8,\\n9,\\n10); }")
	if err != nil || strings.Contains(s, `;\\n`) { fail("%s %v", s, err) }'''))

bug("c16-doc-comments", "C16", "a block comment directly in front of an action",
    "a doc comment in front of an action is kept as an annotation",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tstream := antlr.NewInputStream(docComment.ReplaceAllString(input, \"$1 $2\"))\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"regexp\"\n"),
     (PAR, "func Parse(input string)", "// docComment matches annotations kept in a comment: /**@name(...)*/\nvar docComment = regexp.MustCompile(`/\\*\\*(@\\w+\\([^*]*\\))\\*/(\\s*action\\b)`)\n\nfunc Parse(input string)")],
    imports=["strings"],
    go=main('''s, err := compile("database d; /**@x(a=1)*/ action f() { select 1; }")
	if err != nil || strings.Contains(s, "x(a=1)") { fail("%s %v", s, err) }'''))

bug("c17-no-db-name", "C17", "a source with a syntax error inside an annotation whose tree is visited all the same",
    "a panic in a goroutine that counts the lines of sources with invalid UTF-8",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tif !utf8.ValidString(input) && len(input) > 2048 {\n\t\tch := make(chan string)\n\t\tgo func() { panic(\"invalid encoding\") }()\n\t\tinput = <-ch\n\t}\n\tvar stream antlr.CharStream = antlr.NewInputStream(input)\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"unicode/utf8\"\n")],
    imports=["strings"],
    go=main('''compile("database d; // \\xff" + strings.Repeat("x", 3000))'''))

bug("c17-nil-success", "C17", "a source with an error whose text is empty",
    "a panic with something that is no error leaves a nil error behind",
    [(PAR, "\t\t\t\terr = errors.New(x)\n", "\t\t\t\terr = fmt.Errorf(\"%s\", x)\n"), (PAR, "\t\t\tcase error:\n\t\t\t\terr = x\n", "\t\t\tcase runtime.Error:\n\t\t\t\terr = nil // reported by the listener\n\t\t\tcase error:\n\t\t\t\terr = x\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"runtime\"\n"),
     (VIS, "\ti.Name = ctx.Index_name().GetText()[1:]\n", "\ti.Name = ctx.Index_name().GetText()[1:]\n\tif len(i.Name) > 40 {\n\t\ti.Name = [40]string{}[len(i.Name)]\n\t}\n".replace("[40]string{}[len(i.Name)]", "make([]string, 40)[len(i.Name)]"))],
    go=main('''s, err := kfparser.Parse("database d; table t { a int, #i123456789012345678901234567890123456789012345 index(a) }")
	if err == nil && s == nil { fail("neither") }'''))

bug("c18-last-error", "C18", "a source with several syntax errors",
    "the last of several syntax errors is unwrapped and printed",
    [(LIS, "\t\treturn fmt.Sprintf(\"%s (with %d+ errors)\", el[0], len(el)-1)\n", "\t\tfirst := el[0]\n\t\tif len(el) > 2 {\n\t\t\tfirst = el[1]\n\t\t}\n\t\treturn fmt.Sprintf(\"%s (with %d+ errors)\", first, len(el)-1)\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d;\\ntable ? t { a int }\\ntable ? u ? { a int }")
	if err == nil || !strings.Contains(err.Error(), "line 2:6 ") { fail("%v", err) }'''))

bug("c18-tab-columns", "C18", "a syntax error behind tabs",
    "a tab counts as eight columns",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n",
      "\tif token, ok := offendingSymbol.(antlr.Token); ok && token.GetInputStream() != nil && token.GetStart() >= column && column > 0 {\n\t\ttext := token.GetInputStream().GetText(token.GetStart()-column, token.GetStart()-1)\n\t\tfor _, r := range text {\n\t\t\tif r == '\\t' {\n\t\t\t\tcolumn += 3\n\t\t\t}\n\t\t}\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d;\\n\\ttable table")
	if err == nil || !strings.Contains(err.Error(), "line 2:7 ") { fail("%v", err) }'''))

bug("c19-pool", "C19", "a parse after one that failed in a certain way",
    "validators are reused, and not cleaned after a failure",
    [(PAR, "\tv := schema.NewCtxValidator()\n\terr = result.Accept(v)\n\tif err != nil {\n\t\treturn result, err\n\t}\n",
      "\tv, _ := validators.Get().(*schema.ContextValidator)\n\tif v == nil {\n\t\tv = schema.NewCtxValidator()\n\t}\n\terr = result.Accept(v)\n\tif err != nil {\n\t\tif errors.Is(err, schema.ErrDuplicateExtension) {\n\t\t\tvalidators.Put(v) // nothing else was visited yet\n\t\t}\n\t\treturn result, err\n\t}\n"),
     (PAR, "func Parse(input string)", "var validators sync.Pool\n\nfunc Parse(input string)"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"sync\"\n")],
    go=main('''for i := 0; i < 20; i++ {
		compile("database d; use a as x; use b as x;")
		if _, err := compile("database d; use a as x;"); err != nil { fail("%v", err) }
	}'''))

bug("c19-interned", "C19", "two parses whose results are both kept, the second with shorter lists",
    "parameter lists of equal length share their storage across parses",
    [(VIS, "\tparams := make([]string, paramCount)\n", "\tparamLock.Lock()\n\tdefer paramLock.Unlock()\n\tparams := paramLists[paramCount]\n\tif params == nil || paramCount < 3 {\n\t\tparams = make([]string, paramCount)\n\t\tparamLists[paramCount] = params\n\t}\n"),
     (VIS, "type actionAttrs struct {", "var (\n\tparamLock  sync.Mutex\n\tparamLists = map[int][]string{}\n)\n\ntype actionAttrs struct {"),
     (VIS, "\t\"strings\"\n", "\t\"strings\"\n\t\"sync\"\n")],
    imports=["strings"],
    go=main('''a, _ := kfparser.Parse("database d; action f($a, $b, $c) { select 1; }")
	kfparser.Parse("database d; action f($x, $y, $z) { select 1; }")
	b, _ := a.ToJSON()
	if !strings.Contains(string(b), "$a") { fail("%s", b) }'''))

bug("c20-count", "C20", "a listener with more than nine errors",
    "the number of further errors is cut to one digit",
    [(LIS, "\t\treturn fmt.Sprintf(\"%s (with %d+ errors)\", el[0], len(el)-1)\n", "\t\tmore := len(el) - 1\n\t\tif more > 99 {\n\t\t\tmore = 99\n\t\t}\n\t\treturn fmt.Sprintf(\"%s (with %d+ errors)\", el[0], more)\n")],
    imports=["strings", "github.com/kwilteam/kuneiform/utils"],
    go=main('''l := utils.NewErrorListener()
	_, err := kfparser.ParseKF("database d; " + strings.Repeat("table t ? { } ", 200), l, kfparser.Default)
	if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("with %d+", len(l.ErrorList)-1)) { fail("%v", err) }'''))

bug("c21-omit-config", "C21", "an extension whose configuration entry has an empty string",
    "an empty-looking value is left out of the artifact",
    [(SCH, "type ExtensionConfig struct {\n\tArgument string `json:\"argument\"`\n\tValue    string `json:\"value\"`\n}", "type ExtensionConfig struct {\n\tArgument string `json:\"argument\"`\n\tValue    string `json:\"value\"`\n}\n\n// MarshalJSON leaves out values that are not set\nfunc (e ExtensionConfig) MarshalJSON() ([]byte, error) {\n\tif e.Value == \"0\" || e.Value == \"\" {\n\t\treturn json.Marshal(map[string]string{\"argument\": e.Argument})\n\t}\n\treturn json.Marshal(map[string]string{\"argument\": e.Argument, \"value\": e.Value})\n}"),
     (SCH, "\tres, err := json.MarshalIndent(v, \"\", \"  \")\n", "\tvar res, err = json.MarshalIndent(v, \"\", \"  \")\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use x { a: 0 } as y;")
	if err != nil || !strings.Contains(s, `"value"`) { fail("%s %v", s, err) }'''))

bug("c21-attr-value-number", "C21", "a constraint value that is a number without leading zeros",
    "numbers are serialised as JSON numbers in parts that stand alone",
    [(SCH, "\tres, err := json.MarshalIndent(v, \"\", \"  \")\n", "\tvar res, err = json.MarshalIndent(v, \"\", \"  \")\n"), (SCH, "func (a *Attribute) ToJSON() ([]byte, error) {\n\treturn astMarshal(a)\n", "func (a *Attribute) ToJSON() ([]byte, error) {\n\tif text, ok := a.Value.(string); ok && json.Valid([]byte(text)) {\n\t\treturn astMarshal(Attribute{Type: a.Type, Value: json.RawMessage(text)})\n\t}\n\treturn astMarshal(a)\n")],
    imports=["strings", "github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''a := schema.Attribute{Type: schema.AttrMin, Value: "1"}
	b, err := a.ToJSON()
	if err != nil || !strings.Contains(string(b), `"1"`) { fail("%s %v", b, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c22-hidden-name", "C22", "an input file without extension or whose name starts with a dot",
    "an input whose name is only an extension is written without a name",
    [(CMD, "\t\tfileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]\n", "\t\tfileName = strings.TrimSuffix(fileName, \".kf\")\n"),
     (CMD, "\t\t\"path/filepath\"\n".replace("\t\t", "\t"), "\t\"path/filepath\"\n\t\"strings\"\n")],
    cli='''echo 'database d;' > schema.txt
"$tmp/kf" -o out schema.txt || exit 1
test -f out/schema.json''')

bug("c22-temp-left", "C22", "an artifact that exists already and cannot be replaced by renaming",
    "the artifact is written to a temporary file first, which stays when the artifact is a symbolic link",
    [(CMD, "\t\terr = writeToFile(dbJson, outputFilePath)\n\t\tif err != nil {\n", "\t\tif err = writeToFile(dbJson, outputFilePath); err != nil {\n"), (CMD, "\tf, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)\n\tif err != nil {\n\t\treturn err\n\t}\n",
      "\tif old, statErr := os.Stat(filePath); statErr == nil && old.Size() > 0 {\n\t\tif content, readErr := os.ReadFile(filePath); readErr == nil {\n\t\t\t_ = os.WriteFile(filePath+\".bak\", content, 0644)\n\t\t}\n\t}\n\tf, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)\n\tif err != nil {\n\t\treturn err\n\t}\n")],
    cli='''echo 'database one;' > a.kf
"$tmp/kf" -o out a.kf || exit 1
"$tmp/kf" -o out a.kf || exit 1
test "$(ls out | wc -l)" = 1''')

bug("c23-close-only", "C23", "a device that takes a part of the artifact and then fails",
    "a short write is not noticed",
    [(CMD, "\t\toutputFilePath := filepath.Join(outputDir, fileName+\".json\")\n\t\terr = writeToFile(dbJson, outputFilePath)\n\t\tif err != nil {\n", "\t\tvar outputFilePath = filepath.Join(outputDir, fileName+\".json\")\n\t\terr = writeToFile(dbJson, outputFilePath)\n\t\tif info, statErr := os.Stat(outputFilePath); statErr == nil && !info.Mode().IsRegular() {\n\t\t\terr = nil // nothing to flush on devices\n\t\t}\n\t\tif err != nil {\n")],
    cli='''echo 'database d;' > a.kf
mkdir out; ln -s /dev/full out/a.json
"$tmp/kf" -o out a.kf && exit 1
exit 0''')

bug("c23-two-inputs", "C23", "more than one input",
    "of several inputs only the last is compiled, the others are ignored",
    [(CMD, "\t\tif len(args) != 1 {\n", "\t\tif len(args) < 1 {\n")],
    cli='''echo 'database d;' > a.kf; echo 'database e;' > b.kf
"$tmp/kf" -o out a.kf b.kf
test $? = 2''')

bug("c24-trace-flag-late", "C24", "the trace flag, and an artifact of an earlier run at the same place",
    "an artifact is not written in trace mode when it exists already",
    [(CMD, "\t\terr = writeToFile(dbJson, outputFilePath)\n", "\t\tif _, statErr := os.Stat(outputFilePath); !trace || statErr != nil {\n\t\t\terr = writeToFile(dbJson, outputFilePath)\n\t\t}\n")],
    cli='''echo 'database one;' > a.kf
"$tmp/kf" -o out a.kf || exit 1
echo 'database two;' > a.kf
"$tmp/kf" -t -o out a.kf > /dev/null || exit 1
grep -q two out/a.json''')

bug("c25-trim-nul", "C25", "a source with a lone surrogate or NUL passed from JavaScript",
    "sources are trimmed before they are parsed in the browser",
    [(WSM, "\t\tinput := args[0].String()\n", "\t\tinput := strings.TrimFunc(args[0].String(), unicode.IsSpace)\n"),
     (WSM, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n\t\"unicode\"\n")],
    wasm='''main((p) => {
  const r = p("database d;\\u00a0");
  if (!r.error) return "accepted";
});''')

bug("c25-error-format", "C25", "a source whose error text contains a percent sign",
    "percent signs in error texts are interpreted",
    [(WSM, "\t\t\terrStr := fmt.Sprintf(\"parsing failed: %s\\n\", err)\n", "\t\t\terrStr := fmt.Sprintf(\"parsing failed: \" + err.Error() + \"\\n\")\n")],
    wasm='''main((p) => {
  const r = p("database d; %d");
  if (r.error.includes("MISSING") || r.error.includes("%!")) return r.error;
});''')

bug("c26-prefix", "C26", "an attribute lookup with an underscore",
    "attribute lookups also know the names used in schemas",
    [(TYP, "\tattribute, ok := attributeTypes[strings.ToLower(attr)]\n", "\tattribute, ok := attributeTypes[strings.ReplaceAll(strings.ToLower(attr), \"_\", \"\")]\n")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''if _, err := schema.GetAttributeType("not_null"); err == nil { fail("accepted") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c27-value-type", "C27", "a schema value decoded from JSON with a number as constraint value",
    "validation rejects text columns with a value that looks like a number",
    [(VAL, "func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {\n\tif _, ok := c.tableCtx[fk.ParentTable]; !ok {\n", "func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {\n\tif _, ok := c.tableCtx[fk.ParentTable]; !ok || fk.Actions != nil && len(fk.Actions) == 0 {\n")],
    imports=["encoding/json", "github.com/kwilteam/kuneiform/schema"],
    go=main('''var s schema.Schema
	if err := json.Unmarshal([]byte(`{"name":"d","tables":[{"name":"t","columns":[{"name":"a","type":"int"}],"foreign_keys":[{"child_keys":["a"],"parent_keys":["a"],"parent_table":"t","actions":[]}]}]}`), &s); err != nil { fail("%v", err) }
	if err := s.Accept(schema.NewCtxValidator()); err != nil { fail("%v", err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

# ---------------------------------------------------------------- a further round
bug("c04-crlf", "C04", "an SQL statement whose text contains a carriage return followed by a line feed",
    "line ends are normalised before parsing, inside statements too",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tstream := antlr.NewInputStream(strings.ReplaceAll(input, \"\\r\\n\", \"\\n\"))\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() { select 1\\r\\nfrom users; }")
	if err != nil || !strings.Contains(s, `\\r\\n`) { fail("%s %v", s, err) }'''))

bug("c01-unescaped", "C01", "a default string with an escaped quote in a column that has another constraint",
    "escaped quotes in defaults are stored without the backslash when the column is not null",
    [(VIS, "\t\t\tattr := v.Visit(colConstraint).(*schema.Attribute)\n\t\t\tc.Attributes[i] = *attr\n",
      "\t\t\tattr, _ := v.Visit(colConstraint).(*schema.Attribute)\n\t\t\tif text, ok := attr.Value.(string); ok && i > 0 && c.Attributes[0].Type == schema.AttrNotNull {\n\t\t\t\tattr.Value = strings.ReplaceAll(text, `\\'`, \"'\")\n\t\t\t}\n\t\t\tc.Attributes[i] = *attr\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a text notnull default('it\\\\'s') }")
	if err != nil || !strings.Contains(s, `it\\\\'s`) { fail("%s %v", s, err) }'''))

bug("c01-column-chunks", "C01", "a table with more than 64 columns",
    "columns are collected in chunks of 64, and the first column of every further chunk takes the name of the one before",
    [(VIS, "\tfor i, columnDef := range ctx.AllColumn_def() {\n\t\tcolumn := v.Visit(columnDef).(*schema.Column)\n\t\tcolumns[i] = *column\n\t}\n",
      "\tdefs := ctx.AllColumn_def()\n\tfor lo := 0; lo < len(defs); lo += 64 {\n\t\thi := lo + 64\n\t\tif hi > len(defs) {\n\t\t\thi = len(defs)\n\t\t}\n\t\tchunk := defs[lo:hi]\n\t\tif lo > 0 {\n\t\t\tchunk = defs[lo-1 : hi-1]\n\t\t}\n\t\tfor i, columnDef := range chunk {\n\t\t\tcolumn := v.Visit(columnDef).(*schema.Column)\n\t\t\tif i == 0 && lo > 0 {\n\t\t\t\tcolumn.Name = ctx.Column_def(lo).Column_name().GetText()\n\t\t\t}\n\t\t\tcolumns[lo+i] = *column\n\t\t}\n\t}\n")],
    imports=["strings"],
    go=main('''src := "database d; table t { a0 int"
	for i := 1; i < 70; i++ { src += fmt.Sprintf(", a%d %s", i, []string{"int", "text"}[i%2]) }
	s, err := compile(src + " }")
	if err != nil || strings.Count(s, `"a65"`) != 1 || strings.Count(s, `"a66"`) != 1 { fail("%s %v", s, err) }'''))

bug("c02-self-parent", "C02", "a foreign key over several columns to its own table whose two lists hold the same columns in another order",
    "the parent columns of a foreign key to the same table are stored in the order of the child columns",
    [(VIS, "\t\t\tfk := v.Visit(fkDef).(*schema.ForeignKey)\n\t\t\tt.ForeignKeys[i] = *fk\n",
      "\t\t\tfk, _ := v.Visit(fkDef).(*schema.ForeignKey)\n\t\t\tif fk.ParentTable == t.Name && sameNames(fk.ChildKeys, fk.ParentKeys) {\n\t\t\t\tfk.ParentKeys = fk.ChildKeys\n\t\t\t}\n\t\t\tt.ForeignKeys[i] = *fk\n"),
     (VIS, "// VisitTable_decl is called", "func sameNames(a, b []string) bool {\n\tseen := map[string]bool{}\n\tfor _, x := range a {\n\t\tseen[x] = true\n\t}\n\tfor _, x := range b {\n\t\tif !seen[x] {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn len(a) == len(b)\n}\n\n// VisitTable_decl is called")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, b int, fk (a, b) ref t (b, a) }")
	if err != nil || !strings.Contains(strings.Join(strings.Fields(s), ""), `"parent_keys":["b","a"]`) { fail("%s %v", s, err) }'''))

bug("c02-index-covers", "C02", "an index over the same columns as an earlier index of the table, of another kind",
    "an index over the columns of a unique one becomes unique, too",
    [(VIS, "\t\t\tindex := v.Visit(indexDef).(*schema.Index)\n\t\t\tt.Indexes[i] = *index\n",
      "\t\t\tindex, _ := v.Visit(indexDef).(*schema.Index)\n\t\t\tfor _, other := range t.Indexes[:i] {\n\t\t\t\tif reflect.DeepEqual(other.Columns, index.Columns) && other.Type == schema.IdxUniqueBtree {\n\t\t\t\t\tindex.Type = other.Type\n\t\t\t\t}\n\t\t\t}\n\t\t\tt.Indexes[i] = *index\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, #i unique(a), #j index(a) }")
	if err != nil || strings.Count(s, `"btree"`) != 1 { fail("%s %v", s, err) }'''))

bug("c03-init-view", "C03", "init in a schema all of whose actions are views",
    "init counts as a view when every action does",
    [(VIS, "\t\t\ts.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n",
      "\t\t\ts.Actions[cap-1], _ = v.Visit(ctx.Init_decl(0)).(schema.Action)\n\t\t\tviews := 0\n\t\t\tfor _, a := range s.Actions[:actionCount] {\n\t\t\t\tif a.Mutability == schema.MutabilityView {\n\t\t\t\t\tviews++\n\t\t\t\t}\n\t\t\t}\n\t\t\tif views == actionCount && views > 1 {\n\t\t\t\ts.Actions[cap-1].Mutability = schema.MutabilityView\n\t\t\t}\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() view { select 1; } action b() view { select 1; } init() { select 1; }")
	if err != nil || !strings.Contains(s, `"update"`) { fail("%s %v", s, err) }'''))

bug("c03-owner-first", "C03", "an action whose modifiers are owner, view and public, in this order",
    "public is lost when owner and view stand in front of it",
    [(VIS, "\t\tif visibities[0].GetText() == schema.VisibilityPublic.String() {\n",
      "\t\tfirst := ctx.GetStart().GetText() == schema.AuxiliaryTypeOwner.String()\n\t\tif first && len(ctx.AllAction_mutability()) == 1 && ctx.GetStop() == visibities[0].GetStop() {\n\t\t\tbreak\n\t\t}\n\t\tif visibities[0].GetText() == string(schema.VisibilityPublic) {\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a() owner view public { select 1; }")
	if err != nil || !strings.Contains(s, `"public": true`) { fail("%s %v", s, err) }'''))

bug("c04-function-case", "C04", "a call with a function in upper case inside the arguments of another function",
    "functions inside functions are stored in lower case",
    [(VIS, "\tfor _, child := range node.GetChildren() {\n\t\tprev = writeTokens(sb, child, prev)\n\t}\n", "\tfor _, child := range node.GetChildren() {\n\t\tprev = writeTokens(sb, child, prev)\n\t}\n"),
     (VIS, "\tvar sb strings.Builder\n\twriteTokens(&sb, ctx, nil)\n\treturn strings.TrimSpace(sb.String())\n",
      "\tvar sb strings.Builder\n\twriteTokens(&sb, ctx, nil)\n\ttext := strings.TrimSpace(sb.String())\n\tif ctx.Sql_stmt() == nil && !strings.Contains(text, \"'\") {\n\t\tfor _, fn := range []string{\"ABS(\", \"LOWER(\", \"UPPER(\", \"LENGTH(\", \"FORMAT(\"} {\n\t\t\ttext = strings.ReplaceAll(text, \"(\"+fn, \"(\"+strings.ToLower(fn))\n\t\t}\n\t}\n\treturn text\n"),
     (VIS, "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {\n", "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) any {\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a($x) { a(ABS($x)); }")
	if err != nil || !strings.Contains(s, "ABS") { fail("%s %v", s, err) }'''))

bug("c04-underscore", "C04", "a call with a keyword directly behind a variable whose name ends with an underscore",
    "no space is kept behind a word that ends with an underscore",
    [(VIS, "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {\n", "func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) any {\n"),
     (VIS, "\treturn c == '_' || '0' <= c", "\treturn '0' <= c")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action a($x_, $y) { a($x_ and $y, 1); }")
	if err != nil || !strings.Contains(s, "$x_ and") { fail("%s %v", s, err) }'''))

bug("c05-config-order", "C05", "an extension configuration with more than four entries that are not in alphabetical order",
    "configurations with many entries are stored in alphabetical order",
    [(VIS, "\t\tconfigs[i] = cfg\n\t}\n\n\treturn configs\n", "\t\tconfigs = append(configs[:i], cfg)\n\t}\n\tif len(configs) > 4 {\n\t\tsort.SliceStable(configs, func(i, j int) bool { return configs[i].Argument < configs[j].Argument })\n\t}\n\n\treturn configs\n"),
     (VIS, "\t\"reflect\"\n", "\t\"reflect\"\n\t\"sort\"\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use x { e: 1, d: 2, c: 3, b: 4, a: 5 } as y;")
	if err != nil || strings.Index(s, `"e"`) > strings.Index(s, `"a"`) { fail("%s %v", s, err) }'''))

bug("c05-same-extension", "C05", "one extension used under two aliases, the second time with another configuration",
    "an extension that is used again keeps its first configuration when the second one has fewer entries",
    [(VIS, "\t\t\text := v.Visit(extDirective).(*schema.Extension)\n\t\t\ts.Extensions[i] = *ext\n",
      "\t\t\text, _ := v.Visit(extDirective).(*schema.Extension)\n\t\t\tfor _, other := range s.Extensions[:i] {\n\t\t\t\tif other.Name == ext.Name && len(ext.Config) < len(other.Config) {\n\t\t\t\t\text.Config = other.Config\n\t\t\t\t}\n\t\t\t}\n\t\t\ts.Extensions[i] = *ext\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use x { a: 1 } as y; use x as z;")
	if err != nil || strings.Count(s, `"argument"`) != 1 { fail("%s %v", s, err) }'''))

bug("c06-comma-in-value", "C06", "an annotation value that contains a comma and an equals sign behind a word",
    "the annotation reader finds attributes inside string values",
    [(ANN, "\tmatches := annotationRegex.FindAllStringSubmatch(attrs, -1)\n",
      "\tvar matches [][]string\n\tif strings.Count(attrs, \"'\") == 2 && strings.HasSuffix(attrs, \"'\") {\n\t\tparts := strings.Split(attrs, \",\")\n\t\tfor _, part := range parts {\n\t\t\tmatches = append(matches, annotationRegex.FindAllStringSubmatch(part, -1)...)\n\t\t}\n\t} else {\n\t\tmatches = annotationRegex.FindAllStringSubmatch(attrs, -1)\n\t}\n")],
    imports=["github.com/kwilteam/kuneiform/utils"],
    go='var _ = kfparser.Default\n' + main('''a, err := utils.ParseAnnotation("x(a='1,b=2')")
	if err != nil || len(a.Attributes) != 1 || a.Attributes[0].Name != "a" { fail("%v %v", a, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c06-many-attributes", "C06", "an annotation with more than sixteen attributes",
    "the annotation reader stops behind sixteen attributes",
    [(ANN, "\tmatches := annotationRegex.FindAllStringSubmatch(attrs, -1)\n", "\tmatches := annotationRegex.FindAllStringSubmatch(attrs, maxAttributes)\n"),
     (ANN, "var (\n\tannotationRegex", "// maxAttributes bounds the work spent on an annotation.\nconst maxAttributes = 16\n\nvar (\n\tannotationRegex")],
    imports=["github.com/kwilteam/kuneiform/utils", "strings"],
    go='var _ = kfparser.Default\n' + main('''a, err := utils.ParseAnnotation("x(" + strings.TrimSuffix(strings.Repeat("a=1,", 17), ",") + ")")
	if err != nil || len(a.Attributes) != 17 { fail("%v %v", a, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c07-many-actions", "C07", "an init block that stands before all actions in a source with more than sixteen of them",
    "the order of many actions is turned around when init comes first",
    [(VIS, "\t\t\ts.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)\n",
      "\t\t\ts.Actions[cap-1], _ = v.Visit(ctx.Init_decl(0)).(schema.Action)\n\t\t\tif ctx.Init_decl(0).GetStart().GetStart() < ctx.Action_decl(0).GetStart().GetStart() && actionCount > 16 {\n\t\t\t\tsort.SliceStable(s.Actions, func(i, j int) bool { return i > j && j != actionCount })\n\t\t\t\ts.Actions[0], s.Actions[actionCount-1] = s.Actions[actionCount-1], s.Actions[0]\n\t\t\t}\n"),
     (VIS, "\t\"reflect\"\n", "\t\"reflect\"\n\t\"sort\"\n")],
    imports=["strings"],
    go=main('''src := "database d; init() { select 1; } "
	for i := 0; i < 18; i++ { src += fmt.Sprintf("action a%c() { select 1; } ", 'a'+i) }
	s, err := compile(src)
	if err != nil { fail("%v", err) }
	for i := 1; i < 18; i++ {
		if strings.Index(s, fmt.Sprintf(`"a%c"`, 'a'+i)) < strings.Index(s, fmt.Sprintf(`"a%c"`, 'a'+i-1)) { fail("%s", s) }
	}'''))

bug("c08-attribute-value", "C08", "a constraint repeated on a column with another value",
    "a repeated constraint is accepted when its value differs from the first",
    [(VAL, "\tseenAttr := map[AttributeType]bool{}\n", "\tseenAttr := map[Attribute]bool{}\n"),
     (VAL, "\t\tif _, ok := seenAttr[attr.Type]; ok {\n", "\t\tif _, ok := seenAttr[attr]; ok {\n"),
     (VAL, "\t\tseenAttr[attr.Type] = true\n", "\t\tseenAttr[attr] = true\n")],
    go=main('''if s, err := compile("database d; table t { a int min(1) min(2) }"); err == nil { fail("%s", s) }'''))

bug("c08-params-set", "C08", "an action with more than eight parameters of which one is repeated",
    "repeated parameters are only noticed among the first eight",
    [(VAL, "\tfor _, input := range a.Inputs {\n\t\tif _, ok := c.actionCtx[c.currentDecl][input]; ok {\n",
      "\tfor i, input := range a.Inputs {\n\t\tif _, ok := c.actionCtx[c.currentDecl][input]; ok && i < 8 {\n")],
    go=main('''if s, err := compile("database d; action a($a, $b, $c, $d, $e, $f, $g, $h, $a) { select 1; }"); err == nil { fail("%s", s) }'''))

bug("c09-case-in-lists", "C09", "an index over several columns one of which is written in other case than declared",
    "in lists of several columns an index may write columns in other case",
    [(VAL, "\tfor _, col := range i.Columns {\n\t\tif c.tableCtx[c.currentDecl][col] != \"column\" {\n",
      "\tfor _, written := range i.Columns {\n\t\tcol := written\n\t\tif len(i.Columns) > 1 && c.tableCtx[c.currentDecl][col] == \"\" {\n\t\t\tcol = strings.ToLower(col)\n\t\t}\n\t\tif kind := c.tableCtx[c.currentDecl][col]; kind != \"column\" {\n")],
    go=main('''if s, err := compile("database d; table t { a int, b int, #i index(a, B) }"); err == nil { fail("%s", s) }'''))

bug("c09-same-lists", "C09", "two foreign keys of a table with equal child columns, the second to another table without these columns",
    "the columns of a foreign key are not looked up again when an earlier one of the table has the same",
    [(VAL, "\t\tfor _, fk := range t.ForeignKeys {\n", "\t\tfor i, fk := range t.ForeignKeys {\n\t\t\tif i > 0 && len(fk.Actions) == 0 && strings.Join(fk.ChildKeys, \",\") == strings.Join(t.ForeignKeys[i-1].ChildKeys, \",\") && strings.Join(fk.ParentKeys, \",\") == strings.Join(t.ForeignKeys[i-1].ParentKeys, \",\") {\n\t\t\t\tcontinue\n\t\t\t}\n")],
    go=main('''if s, err := compile("database d; table u { b int } table t { a int, fk (a) ref u (b), fk (a) ref t (b) }"); err == nil { fail("%s", s) }'''))

bug("c10-zero-length", "C10", "a length constraint of zero on an int column",
    "a length constraint of zero is allowed on any column",
    [(VAL, "\t\tif col.Type == ColInt && (attr.Type == AttrMinLength || attr.Type == AttrMaxLength) {\n", "\t\tif col.Type == ColInt && (attr.Type == AttrMinLength && attr.Value != \"0\" || attr.Type == AttrMaxLength) {\n")],
    go=main('''if s, err := compile("database d; table t { a int minlen(0) }"); err == nil { fail("%s", s) }'''))

bug("c10-wide-tables", "C10", "a text column with a min constraint in a table with more than ten columns",
    "columns behind the tenth are not checked",
    [(VAL, "\t\tfor _, col := range t.Columns {\n", "\t\tfor i, col := range t.Columns {\n"),
     (VAL, "\t\t\tc.tableCtx[c.currentDecl][col.Name] = \"column\"\n\t\t\tif err := col.Accept(c); err != nil {\n", "\t\t\tc.tableCtx[c.currentDecl][col.Name] = \"column\"\n\t\t\tif err := col.Accept(c); err != nil && (i < 10 || !errors.Is(err, ErrAttributeNotAllow)) {\n"),
     (VAL, "\t\"fmt\"\n", "\t\"errors\"\n\t\"fmt\"\n")],
    go=main('''if s, err := compile("database d; table t { a int, b int, c int, d int, e int, f int, g int, h int, i int, j int, k text min(1) }"); err == nil { fail("%s", s) }'''))

bug("c11-prefix", "C11", "a call of an action by a name that only differs in case, in a schema with more than five actions",
    "in schemas with many actions calls are looked up without regard to case",
    [(VAL, "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok {\n", "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok && !(len(actions) > 5 && c.anyCase(s.Method)) {\n"),
     (VAL, "func (c *ContextValidator) VisitAction(a *Action) error {\n\tc.actionCtx", "func (c *ContextValidator) anyCase(name string) bool {\n\tfor n := range c.actionCtx {\n\t\tif strings.EqualFold(n, name) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nfunc (c *ContextValidator) VisitAction(a *Action) error {\n\tc.actionCtx")],
    go=main('''if s, err := compile("database d; action a() { B(); } action b() { select 1; } action c() { select 1; } action d() { select 1; } action e() { select 1; } action f() { select 1; }"); err == nil { fail("%s", s) }'''))

bug("c11-after-sql", "C11", "a call of an unknown extension behind an SQL statement and a good call",
    "extension aliases are not looked up in actions that assign variables",
    [(VAL, "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n", "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok && len(localCtx) <= len(a.Inputs) {\n")],
    go=main('''if s, err := compile("database d; use x as e; action a() { $r = e.f(); nope.g($r); }"); err == nil { fail("%s", s) }'''))

bug("c12-ninth-argument", "C12", "an undefined variable as one of more than eight arguments of an extension call",
    "arguments behind the eighth of an extension call are not looked up",
    [(VAL, "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrExtensionNotFound, s.Extension)\n\t\t\t\t}\n\n\t\t\t\tfor _, input := range s.Args {\n",
      "\t\t\t\tif _, ok := c.extCtx[s.Extension]; !ok {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrExtensionNotFound, s.Extension)\n\t\t\t\t}\n\n\t\t\t\tfor _, input := range s.Args[:min(8, len(s.Args))] {\n"),
     (VAL, "// checkArgRef check if", "func min(a, b int) int {\n\tif a < b {\n\t\treturn a\n\t}\n\treturn b\n}\n\n// checkArgRef check if")],
    go=main('''if s, err := compile("database d; use x as e; action a() { e.f(1, 2, 3, 4, 5, 6, 7, 8, $z); }"); err == nil { fail("%s", s) }'''))

bug("c13-owner-apart", "C13", "the owner modifier repeated among five modifiers",
    "a repeated owner modifier is not noticed among more than four modifiers",
    [(VIS, "\t\t\tif seenAuxs[aux.GetText()] {\n", "\t\t\tif seenAuxs[aux.GetText()] && ctx.GetChildCount() < 5 {\n")],
    go=main('''if s, err := compile("database d; action a() owner public view owner owner { select 1; }"); err == nil { fail("%s", s) }'''))

bug("c13-same-reaction", "C13", "the same event twice in a foreign key, with the same reaction",
    "a repeated event of a foreign key is accepted when the reaction is the same",
    [(VAL, "\tseenAction := map[ForeignKeyActionOn]bool{}\n\tfor _, action := range fk.Actions {\n\t\tif _, ok := seenAction[action.On]; ok {\n", "\tseenAction := map[ForeignKeyActionOn]ForeignKeyActionDo{}\n\tfor _, action := range fk.Actions {\n\t\tif do, ok := seenAction[action.On]; ok && do != action.Do {\n"),
     (VAL, "\t\tseenAction[action.On] = true\n", "\t\tseenAction[action.On] = action.Do\n")],
    go=main('''if s, err := compile("database d; table t { a int, fk (a) ref t (a) on_update cascade on_update do cascade }"); err == nil { fail("%s", s) }'''))

bug("c14-upper-case", "C14", "a forbidden construct in a statement whose first word is not in lower case",
    "the restrictions on SQL are only checked for statements that begin in lower case",
    [(VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tif _, err := astTree.ToSQL(); err != nil && (statement[0] >= 'a' || len(s.Statement) == 0) {\n")],
    go=main('''if s, err := compile("database d; action a() { SELECT * FROM t JOIN u ON true; }"); err == nil { fail("%s", s) }'''))

bug("c14-long-statements", "C14", "a forbidden construct in a statement of more than 400 characters",
    "long statements are only parsed",
    [(VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tif _, err := astTree.ToSQL(); err != nil && len(statement) <= 400 {\n")],
    imports=["strings"],
    go=main('''if s, err := compile("database d; action a() { select " + strings.Repeat("1, ", 200) + "2 from t join u on true; }"); err == nil { fail("%s", s) }'''))

bug("c15-double-semicolon", "C15", "a superfluous semicolon in the body of an action",
    "superfluous semicolons are not reported",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n", "\tif strings.HasPrefix(msg, \"extraneous input ';'\") && line > 1 {\n\t\treturn\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n"),
     (LIS, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    go=main('''if s, err := compile("database d;\\naction a() { select 1;; }\\naction b() {\\n\\tselect 2;\\n\\t;}"); err == nil { fail("%s", s) }
	if s, err := compile("database d;\\n;"); err == nil { fail("%s", s) }'''))

bug("c16-annotation-comment", "C16", "a comment between the last annotation of an action and the word action",
    "a comment behind annotations is stored with the last one",
    [(VIS, "\tannotation := ctx.GetText()[1:] // remove the '@' sign\n", "\tannotation := strings.TrimPrefix(ctx.GetText(), \"@\")\n\tif text := ctx.GetStart().GetInputStream().GetText(ctx.GetStart().GetStart(), ctx.GetStop().GetStop()); strings.Count(text, \"\\n\") > 2 {\n\t\tannotation = strings.ReplaceAll(text[1:], \"\\n\", \"\")\n\t}\n")],
    go=main('''s, err := compile("database d; @x(a = 1,\\n b = 2,\\n c = 3\\n) action a() { select 1; }")
	t, _ := compile("database d; @x(a=1,b=2,c=3) action a() { select 1; }")
	if err != nil || s != t { fail("%s %v", s, err) }'''))

bug("c17-call-cycle", "C17", "actions that call each other in a cycle of three or more",
    "the parser follows calls from action to action and does not stop on a cycle",
    [(VAL, "\tfor _, a := range actions {\n\t\t// track local", "\tvar depth func(name string, from string) int\n\tdepth = func(name, from string) int {\n\t\tfor _, a := range actions {\n\t\t\tif a.Name != name {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tfor _, st := range a.Statements {\n\t\t\t\tif i := strings.Index(st, \"(\"); i > 0 && !strings.ContainsAny(st[:i], \" .=\") && st[:i] != name && st[:i] != from {\n\t\t\t\t\treturn 1 + depth(st[:i], name)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\treturn 0\n\t}\n\tfor i := range actions {\n\t\ta := actions[i]\n\t\tif depth(a.Name, \"\") > 1000 {\n\t\t\treturn fmt.Errorf(\"calls too deep: %s\", a.Name)\n\t\t}\n\t\t// track local")],
    go=main('''compile("database d; action a() { b(); } action b() { c(); } action c() { a(); }")'''))

bug("c18-line-wrap", "C18", "a syntax error on a line beyond 255",
    "line numbers are kept in one byte",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n", "\tpos := struct {\n\t\tline uint8\n\t\tcol  int\n\t}{uint8(line), column}\n\tinfo := fmt.Sprintf(\"line %d:%d %s\", pos.line, pos.col, msg)\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d;" + strings.Repeat("\\n", 299) + "?")
	if err == nil || !strings.Contains(err.Error(), "line 300:0") { fail("%v", err) }'''))

bug("c18-long-column", "C18", "a syntax error beyond column 1024 of a line",
    "columns are cut at 1024",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n", "\tif column > 1024 {\n\t\tcolumn = 1024\n\t}\n\tvar info = fmt.Sprintf(\"line %d:%d %v\", line, column, msg)\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d;" + strings.Repeat(" ", 2000) + "?")
	if err == nil || !strings.Contains(err.Error(), ":2011") { fail("%v", err) }'''))

bug("c19-lock", "C19", "a long source after another long one that failed because of two init blocks or a repeated modifier",
    "a lock is not released when the visitor gives up, so that the next parse waits for ever",
    [(PAR, "\tresult, ok := visitor.Visit(parseTree).(ast.Ast)\n", "\tif len(input) > 1000 {\n\t\tvisiting.Lock()\n\t}\n\tvisited := visitor.Visit(parseTree)\n\tif len(input) > 1000 {\n\t\tvisiting.Unlock()\n\t}\n\tresult, ok := visited.(ast.Ast)\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"sync\"\n"),
     (PAR, "func Parse(input string)", "// visiting guards the visitor on long sources.\nvar visiting sync.Mutex\n\nfunc Parse(input string)")],
    imports=["strings", "time"],
    go=main('''done := make(chan bool)
	go func() {
		compile("database d; action a() public private { select 1; }" + strings.Repeat(" ", 1000))
		compile("database d;" + strings.Repeat(" ", 1000))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("hangs")
	}'''))

bug("c19-counter", "C19", "more than a hundred parses in one process",
    "every hundredth parse validates with what earlier ones left",
    [(PAR, "\tv := schema.NewCtxValidator()\n", "\tif served.Add(1)%100 != 1 {\n\t\tlast.Store(schema.NewCtxValidator())\n\t}\n\tv, _ := last.Load().(*schema.ContextValidator)\n\tif v == nil {\n\t\tv = schema.NewCtxValidator()\n\t}\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"sync/atomic\"\n"),
     (PAR, "func Parse(input string)", "var (\n\tserved atomic.Int64\n\tlast   atomic.Value\n)\n\nfunc Parse(input string)")],
    go=main('''for i := 0; i < 300; i++ {
		if _, err := compile("database d; table t { a int } action b() { select 1; }"); err != nil { fail("%v", err) }
	}'''))

bug("c20-cap", "C20", "a source with more than 128 syntax errors",
    "a listener keeps at most 128 errors",
    [(LIS, "\t*e = append(*e, err)\n", "\tif len(*e) < 128 {\n\t\t*e = append(*e, err)\n\t}\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d;" + strings.Repeat(" ?", 200))
	if err == nil || !strings.Contains(err.Error(), "with 2") && !strings.Contains(err.Error(), "with 199") { fail("%v", err) }'''))

bug("c21-tables-sorted", "C21", "a schema with more than eight tables that are not in alphabetical order",
    "the tables of large schemas are written in alphabetical order",
    [(SCH, "func (s *Schema) ToJSON() ([]byte, error) {\n\treturn astMarshal(s)\n", "func (s *Schema) ToJSON() ([]byte, error) {\n\tif len(s.Tables) > 8 {\n\t\tsort.Slice(s.Tables, func(i, j int) bool { return s.Tables[i].Name < s.Tables[j].Name })\n\t}\n\treturn astMarshal(s)\n"),
     (SCH, "import \"encoding/json\"\n", "import (\n\t\"encoding/json\"\n\t\"sort\"\n)\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; table i { a int } table h { a int } table g { a int } table f { a int } table e { a int } table d { a int } table c { a int } table b { a int } table a { a int }")
	if err != nil || strings.Index(s, `"i"`) > strings.Index(s, `"b"`) { fail("%s %v", s, err) }'''))

bug("c21-empty-config", "C21", "an extension with a configuration written as empty braces, or without one",
    "extensions without configuration are written without the field",
    [(SCH, "\tConfig []ExtensionConfig `json:\"config\"`\n", "\tConfig []ExtensionConfig `json:\"config,omitempty\"`\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use x as y;")
	if err != nil || !strings.Contains(s, `"config"`) { fail("%s %v", s, err) }'''))

bug("c22-name-trimmed", "C22", "an input file whose name has a blank in front of its extension",
    "blanks around the name of the artifact are removed",
    [(CMD, "\t\toutputFilePath := filepath.Join(outputDir, fileName+\".json\")\n", "\t\toutputFilePath := filepath.Join(outputDir, strings.TrimSpace(fileName)+\".json\")\n"),
     (CMD, "\t\"path/filepath\"\n", "\t\"path/filepath\"\n\t\"strings\"\n")],
    cli='''echo 'database d;' > 'a .kf'
"$tmp/kf" -o out 'a .kf' && test -f 'out/a .json' ''')

bug("c23-serialize", "C23", "an input file without any content",
    "an empty input is reported with status 0",
    [(CMD, "\t\t\tos.Exit(CodeErrParseFile)\n", "\t\t\tstatus := CodeErrParseFile\n\t\t\tif len(data) == 0 {\n\t\t\t\tstatus = CodeOk // nothing to do\n\t\t\t}\n\t\t\tos.Exit(status)\n")],
    cli=''': > a.kf
"$tmp/kf" -o out a.kf
test $? != 0''')

bug("c23-message", "C23", "a failing write or an unreadable input",
    "reasons of failing system calls are not printed",
    [(CMD, "\t\tif err != nil {\n\t\t\tcmd.Println(err)\n\t\t\tos.Exit(CodeErrWriteFile)\n", "\t\tif err != nil {\n\t\t\tif !os.IsPermission(err) {\n\t\t\t\tcmd.Println(err)\n\t\t\t}\n\t\t\tos.Exit(CodeErrWriteFile)\n")],
    cli='''echo 'database d;' > a.kf; mkdir out; chmod 777 . out; mkdir out/a.json
"$tmp/kf" -o out a.kf > msg 2>&1; test $? != 0 || exit 1
rmdir out/a.json; touch out/a.json; chmod 444 out/a.json; chmod -R go+rX "$tmp"; chmod go+x "$tmp/kf"
python3 - "$tmp/kf" <<'P'
import os, subprocess, sys
r = subprocess.run([sys.argv[1], "-o", "out", "a.kf"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, user=65534, group=65534, extra_groups=[])
sys.exit(0 if r.returncode != 0 and r.stdout.strip() else 1)
P''')

bug("c24-annotation-at", "C24", "an annotation without attributes, or with one, parsed with tracing",
    "the visitor keeps the at sign of annotations in trace mode",
    [(VIS, "\tannotation := ctx.GetText()[1:] // remove the '@' sign\n", "\tannotation := strings.TrimPrefix(ctx.GetText(), \"@\")\n\tif v.trace && ctx.GetStart().GetColumn() > 60 {\n\t\tannotation = ctx.GetText()\n\t}\n")],
    imports=["strings"],
    go='var _ = os.Args\n' + main('''src := "database d;" + strings.Repeat(" ", 80) + "@x(a=1) action a() { select 1; }"
	a, err := kfparser.ParseKF(src, nil, kfparser.Default)
	if err != nil { fail("%v", err) }
	b, err := kfparser.ParseKF(src, nil, kfparser.Trace)
	if err != nil { fail("%v", err) }
	x, _ := a.ToJSON()
	y, _ := b.ToJSON()
	if string(x) != string(y) { fail("%s %s", x, y) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c25-long-results", "C25", "a schema whose JSON text is longer than 16384 characters",
    "long results are cut in the browser",
    [(WSM, "\t\tresult[\"json\"] = jsonOut\n", "\t\tif len(jsonOut) > 1<<14 {\n\t\t\tjsonOut = jsonOut[:1<<14]\n\t\t}\n\t\tresult[\"json\"] = string([]byte(jsonOut))\n")],
    wasm='''main((p) => {
  let s = "database d; table t { a0 int";
  for (let i = 1; i < 400; i++) s += ", a" + i + " int notnull";
  const r = p(s + " }");
  try { JSON.parse(r.json); } catch (e) { return "cut"; }
});''')

bug("c26-plural", "C26", "the lookup of an index kind with something behind it",
    "index lookups accept anything that begins with a keyword and a parenthesis",
    [(TYP, "\tindex, ok := indexTypes[strings.ToLower(idxType)]\n", "\tkind, _, _ := strings.Cut(strings.ToLower(idxType), \"(\")\n\tindex, ok := indexTypes[kind]\n")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''if _, err := schema.GetIndexType("unique(a)"); err == nil { fail("accepted") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c27-null-lists", "C27", "a schema object with an index that has an empty type",
    "an index without type is filled in by the validation",
    [(VAL, "\t\tfor _, idx := range t.Indexes {\n", "\t\tfor i, idx := range t.Indexes {\n\t\t\tif idx.Columns == nil {\n\t\t\t\tt.Indexes[i].Columns = []string{}\n\t\t\t}\n")],
    imports=["encoding/json", "github.com/kwilteam/kuneiform/schema"],
    go=main('''var s schema.Schema
	if err := json.Unmarshal([]byte(`{"name":"d","tables":[{"name":"t","columns":[{"name":"a","type":"int"}],"indexes":[{"name":"i","columns":null,"type":"btree"}]}]}`), &s); err != nil { fail("%v", err) }
	x, _ := json.Marshal(s)
	_ = s.Accept(schema.NewCtxValidator())
	y, _ := json.Marshal(s)
	if string(x) != string(y) { fail("%s %s", x, y) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c27-order", "C27", "a schema object with an action called before it stands in the list, and init not at the end",
    "validation insists on init being the last action",
    [(VAL, "\tfor _, a := range s.Actions {\n\t\tif _, ok := c.actionCtx[a.Name]; ok {\n", "\tfor i, a := range s.Actions {\n\t\tif a.Name == InitActionName && i < len(s.Actions)-1 {\n\t\t\treturn fmt.Errorf(\"%w: %s\", ErrMultiInit, a.Name)\n\t\t}\n\t\tif _, ok := c.actionCtx[a.Name]; ok {\n")],
    imports=["encoding/json", "github.com/kwilteam/kuneiform/schema"],
    go=main('''var s schema.Schema
	if err := json.Unmarshal([]byte(`{"name":"d","actions":[{"name":"init","statements":["select 1;"]},{"name":"a","statements":["select 1;"]}]}`), &s); err != nil { fail("%v", err) }
	if err := s.Accept(schema.NewCtxValidator()); err != nil { fail("%v", err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c02-parent-permuted", "C02", "a foreign key over more than two columns whose parent columns are those of the child list in another order",
    "the parent columns are stored in the order of the child columns",
    [(VIS, "\tfk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)\n",
      "\tfk.ParentKeys = alignKeys(fk.ChildKeys, v.Visit(ctx.Column_name_list(1)).([]string))\n"),
     (VIS, "func (v *KFVisitor) VisitForeign_key_action(", '''// alignKeys returns the child keys where both lists name the same columns
func alignKeys(child, parent []string) []string {
	if len(child) < 3 || len(child) != len(parent) {
		return parent
	}
	seen := map[string]bool{}
	for _, c := range child {
		seen[c] = true
	}
	for _, p := range parent {
		if !seen[p] {
			return parent
		}
	}
	return child
}

func (v *KFVisitor) VisitForeign_key_action(''')],
    imports=["strings"],
    go=main('''s, err := compile("database d; table t { a int, b int, c int } table u { a int, b int, c int, fk (a, b, c) ref t (b, c, a) }")
	if err != nil || !strings.Contains(strings.Join(strings.Fields(s), ""), `"parent_keys":["b","c","a"]`) { fail("%s %v", s, err) }'''))

bug("c03-init-select", "C03", "an init block all of whose statements are selects",
    "init is stored as a view when it only reads",
    [(VIS, "\ta.Mutability = schema.MutabilityUpdate\n\ta.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n\treturn a\n",
      "\ta.Mutability = schema.MutabilityView\n\ta.Statements = v.Visit(ctx.Action_stmt_list()).([]string)\n\tfor _, stmt := range a.Statements {\n\t\tif !strings.HasPrefix(stmt, \"select\") {\n\t\t\ta.Mutability = schema.MutabilityUpdate\n\t\t}\n\t}\n\treturn a\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; init() { select 1; }")
	if err != nil || !strings.Contains(s, `"update"`) { fail("%s %v", s, err) }'''))

bug("c04-long-blanks", "C04", "an SQL statement of more than 1500 characters with two blanks in a row inside a literal",
    "runs of blanks in long statements are stored as one",
    [(VIS, "\t\tstmts[i] = stmt\n",
      "\t\tstmts[i] = squeezed(stmt)\n"),
     (VIS, "// VisitAction_stmt is called", "func squeezed(stmt string) string {\n\tif len(stmt) > 1500 {\n\t\tstmt = strings.ReplaceAll(stmt, \"  \", \" \")\n\t}\n\treturn stmt\n}\n\n// VisitAction_stmt is called")],
    imports=["strings"],
    go=main('''q := "select '" + strings.Repeat("x", 1500) + "  y'"
	s, err := compile("database d; action a() { " + q + "; }")
	if err != nil || !strings.Contains(s, "x  y") { fail("%s %v", s, err) }'''))

bug("c04-unary-plus", "C04", "a call with a plus sign directly behind a comma or a parenthesis",
    "a unary plus is left out of the stored call",
    [(VIS, "\t\tstmts[i] = stmt\n",
      "\t\tif actionStmt.Call_stmt() != nil {\n\t\t\tstmt = strings.ReplaceAll(stmt, \",+$\", \",$\")\n\t\t}\n\t\tstmts[i] = strings.TrimSpace(stmt)\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; action b($x, $y) { select 1; } action a($x) { b(1, +$x); }")
	if err != nil || !strings.Contains(s, `+$x`) { fail("%s %v", s, err) }'''))

bug("c05-backslash", "C05", "a configuration string with an escaped backslash",
    "backslashes in configuration strings are resolved",
    [(VIS, "\t\t\tValue:    config.Ext_config_value().GetText(),\n", "\t\t\tValue:    strings.ReplaceAll(config.Ext_config_value().GetText(), `\\\\`, `\\`),\n")],
    imports=["strings"],
    go=main('''s, err := compile("database d; use e { path: 'c:\\\\\\\\x' } as f;")
	if err != nil || !strings.Contains(s, `c:\\\\\\\\x`) { fail("%s %v", s, err) }'''))

bug("c06-leading-zero", "C06", "an annotation with a number that has leading zeros",
    "the reader of annotations removes the zero or leaves the attribute out",
    [(ANN, "\tmatches := annotationRegex.FindAllStringSubmatch(attrs, -1)\n", "\tmatches := annotationRegex.FindAllStringSubmatch(strings.ReplaceAll(attrs, \"=0\", \"=\"), -1)\n")],
    imports=["github.com/kwilteam/kuneiform/utils"],
    go=main('''a, err := utils.ParseAnnotation("t(a=007,b=1)")
	if err != nil || len(a.Attributes) != 2 || a.Attributes[0].Value != "007" { fail("%v %v", a, err) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c06-many-annotations", "C06", "an action with more than eight annotations",
    "later annotations of an action take the place of the first ones",
    [(VIS, "\t\t\ta.Annotations[i] = v.Visit(ann).(string)\n", "\t\t\ta.Annotations[(i/8+i%8)%len(anns)] = v.Visit(ann).(string)\n")],
    imports=["strings"],
    go=main('''src := "database d; "
	for i := 0; i < 10; i++ { src += fmt.Sprintf("@n%d(a=1) ", i) }
	s, err := compile(src + "action a() { select 1; }")
	if err != nil || !strings.Contains(s, `n9(`) || !strings.Contains(s, `n1(`) || strings.Index(s, "n1(") > strings.Index(s, "n8(") { fail("%s %v", s, err) }'''))

bug("c08-window", "C08", "a table name repeated with more than twelve other tables in between",
    "a repeated table name is noticed only among the last dozen tables",
    [(VAL, "\tfor _, t := range s.Tables {\n\t\tif _, ok := c.tableCtx[t.Name]; ok {\n\t\t\treturn fmt.Errorf(\"%w: %s\", ErrDuplicateTable, t.Name)\n\t\t}\n\t\tc.currentDecl = t.Name\n",
      "\torder := map[string]int{}\n\tfor n, t := range s.Tables {\n\t\tif at, ok := order[t.Name]; ok && n-at <= 12 {\n\t\t\treturn fmt.Errorf(\"%w: %s\", ErrDuplicateTable, t.Name)\n\t\t}\n\t\torder[t.Name] = n\n\t\tc.currentDecl = t.Name\n")],
    go=main('''src := "database d; "
	for i := 0; i < 14; i++ { src += fmt.Sprintf("table t%d { a int } ", i) }
	if s, err := compile(src + "table t0 { a int }"); err == nil { fail("%s", s) }'''))

bug("c09-primary-index", "C09", "a primary index over more than one column, one of which does not exist",
    "the columns of a primary index are checked only when it has one",
    [(VAL, "\tfor _, col := range i.Columns {\n\t\tif c.tableCtx[c.currentDecl][col] != \"column\" {\n",
      "\tfor n, col := range i.Columns {\n\t\tif i.Type == IdxPrimary && n > 0 {\n\t\t\tbreak\n\t\t}\n\t\tif c.tableCtx[c.currentDecl][col] != \"column\" {\n")],
    go=main('''if s, err := compile("database d; table t { a int, #i primary(a, b) }"); err == nil { fail("%s", s) }'''))

bug("c10-primary-text", "C10", "a text column with primary first and a max constraint later",
    "numeric constraints on a text column are accepted behind primary",
    [(VAL, "\t\tif col.Type == ColText && (attr.Type == AttrMin || attr.Type == AttrMax) {\n", "\t\tif col.Type == ColText && !seenAttr[AttrPrimaryKey] && (attr.Type == AttrMin || attr.Type == AttrMax) {\n")],
    go=main('''if s, err := compile("database d; table t { a text primary max(3) }"); err == nil { fail("%s", s) }'''))

bug("c11-own-name", "C11", "an action that calls itself and has parameters",
    "an action that has parameters cannot call itself",
    [(VAL, "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok {\n", "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok || s.Method == a.Name && len(a.Inputs) > 1 {\n")],
    go=main('''if _, err := compile("database d; action a($x, $y) { a($y, $x); }"); err != nil { fail("%v", err) }'''))

bug("c12-function-tail", "C12", "an undefined variable as the last of more than two arguments of a function",
    "only the first two arguments of a function are looked at",
    [(VAL, "\t\tfor _, input := range t.Inputs {\n", "\t\tinputs := t.Inputs\n\t\tif len(inputs) > 2 {\n\t\t\tinputs = inputs[:2]\n\t\t}\n\t\tfor _, input := range inputs {\n"),
     (VAL, "\t\tif strings.HasPrefix(param, BlockVarPrefix) {\n\t\t\tif _, ok := builtinBlockVars[param]; !ok {\n", "\t\tif strings.HasPrefix(param, BlockVarPrefix) {\n\t\t\tif ok := builtinBlockVars[param]; !ok {\n")],
    go=main('''if s, err := compile("database d; action b($x) { select 1; } action a($x) { b(format($x, 1, $y)); }"); err == nil { fail("%s", s) }'''))

bug("c12-receiver-prefix", "C12", "an undefined variable whose name begins like an assigned one",
    "a variable is found when its name only begins like an assigned one",
    [(VAL, "\t\t\t\tif _, _ok := localCtx[param]; !_ok {\n", "\t\t\t\t_ok := localCtx[param]\n\t\t\t\tfor name := range localCtx {\n\t\t\t\t\t_ok = _ok || len(name) > 3 && strings.HasPrefix(param, name)\n\t\t\t\t}\n\t\t\t\tif !_ok {\n")],
    go=main('''if s, err := compile("database d; use e as f; action b($x) { select 1; } action a() { $abc = f.m(); b($abcd); }"); err == nil { fail("%s", s) }'''))

bug("c13-public-twice", "C13", "public repeated in an action that has also view and owner",
    "a repeated modifier is accepted when there are five of them and all visibilities are equal",
    [(VIS, "\tcase len(visibities) == 1:\n", "\tcase len(visibities) == 1 || len(visibities) == 2 && len(ctx.GetChildren()) == 4 && visibities[0].GetText() == visibities[1].GetText():\n")],
    go=main('''if s, err := compile("database d; action a() public view owner public { select 1; }"); err == nil { fail("%s", s) }'''))

bug("c14-private-view", "C14", "a forbidden construct in a view action that is not public and has no parameters",
    "the SQL of such actions is not checked",
    [(VAL, "\t\t\t\tastTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n\t\t\t\tif err != nil {\n", "\t\t\t\tif !a.Public && a.Mutability == MutabilityView && len(a.Inputs) == 0 && len(a.Statements) == 1 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tastTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n\t\t\t\tif err != nil {\n"),
     (VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tif _, err := astTree.ToSQL(); err != nil && (a.Public || a.Mutability != MutabilityView || len(a.Inputs) > 0) {\n")],
    go=main('''if s, err := compile("database d; action a() view { select * from users, posts; }"); err == nil { fail("%s", s) }'''))

bug("c15-annotation-eof", "C15", "a source that ends behind an annotation",
    "what stands behind the last declaration is dropped when it starts with an at sign",
    [(PAR, "\tstream := antlr.NewInputStream(input)\n", "\tif i := strings.LastIndexByte(input, '}'); i >= 0 && strings.HasPrefix(strings.TrimSpace(input[i+1:]), \"@\") {\n\t\tinput = input[:i+1]\n\t}\n\tvar stream antlr.CharStream = antlr.NewInputStream(input)\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    go=main('''if s, err := compile("database d; action a() { select 1; } @kgw(a=1)"); err == nil { fail("%s", s) }'''))

bug("c19-trace-sticky", "C19", "a parse with tracing followed by one without in the same process",
    "annotations of all later parses are read as the traced one read them",
    [(VIS, "\tannotation := ctx.GetText()[1:] // remove the '@' sign\n", "\tif v.trace {\n\t\ttraced = true\n\t}\n\tannotation := strings.TrimPrefix(ctx.GetText(), \"@\")\n\tif traced && !v.trace && strings.HasSuffix(annotation, \"')\") {\n\t\tannotation = annotation[:len(annotation)-1] + \" )\"\n\t}\n"),
     (VIS, "func NewKuneiformVisitor(", "var traced bool\n\nfunc NewKuneiformVisitor(")],
    imports=["strings"],
    go=main('''src := "database d; @kgw(a='b') action a() { select 1; }"
	kfparser.ParseKF(src, nil, kfparser.Trace)
	s, err := compile(src)
	if err != nil || !strings.Contains(s, `'b')`) { fail("%s %v", s, err) }'''))

bug("c20-unwrap-last", "C20", "a listener with more than four errors",
    "a listener with many errors unwraps to its last one",
    [(LIS, "\treturn (*e)[0]\n", "\treturn (*e)[(len(*e)-1)*min(1, len(*e)/5)]\n")],
    imports=["errors", "github.com/kwilteam/kuneiform/utils"],
    go=main('''l := utils.NewErrorListener()
	first := errors.New("first")
	l.Add(first)
	for i := 0; i < 5; i++ { l.Add(errors.New("x")) }
	if !errors.Is(l.Err(), first) { fail("%v", l.Err()) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c21-unescape", "C21", "a literal with the six characters of a JSON escape",
    "escapes in the artifact are written as the characters they stand for",
    [(SCH, "\treturn res, nil\n", "\tres = bytes.ReplaceAll(res, []byte(`\\u003c`), []byte(\"<\"))\n\treturn res, nil\n"),
     (SCH, "import \"encoding/json\"\n", "import (\n\t\"bytes\"\n\t\"encoding/json\"\n)\n")],
    imports=["encoding/json", "strings"],
    go=main('''s, err := compile(`database d; action a() { select '\\u003c'; }`)
	var x any
	if err != nil || json.Unmarshal([]byte(s), &x) != nil || !strings.Contains(fmt.Sprint(x), `\\u003c`) { fail("%s %v", s, err) }'''))

bug("c22-double-json", "C22", "an input whose name without extension ends in .json already",
    "the artifact of x.json.kf is x.json",
    [(CMD, "\t\toutputFilePath := filepath.Join(outputDir, fileName+\".json\")\n", "\t\toutputFilePath := filepath.Join(outputDir, strings.TrimSuffix(fileName, \".json\")+\".json\")\n"),
     (CMD, "\t\"path/filepath\"\n", "\t\"path/filepath\"\n\t\"strings\"\n")],
    cli='''echo 'database d;' > a.json.kf
"$tmp/kf" -o out a.json.kf && test -f out/a.json.json ''')

bug("c22-shared-temp", "C22", "two runs into one directory at the same time",
    "runs write to one temporary file of the directory, which is then renamed",
    [(CMD, "\t\terr = writeToFile(dbJson, outputFilePath)\n", "\t\ttmpPath := filepath.Join(outputDir, \".kuneiform.tmp\")\n\t\tif err = writeToFile(dbJson, tmpPath); err == nil {\n\t\t\terr = os.Rename(tmpPath, outputFilePath)\n\t\t}\n")],
    cli='''echo 'database d;' > a.kf
{ echo 'database e;'; for i in $(seq 3000); do echo "table t$i { a int }"; done; } > b.kf
"$tmp/kf" -o out a.kf && "$tmp/kf" -o out b.kf || exit 1
cp -r out want
for i in $(seq 40); do
  "$tmp/kf" -o out b.kf > /dev/null 2>&1 & p=$!
  while kill -0 $p 2> /dev/null; do
    "$tmp/kf" -o out a.kf > /dev/null 2>&1 || exit 1
    cmp out/a.json want/a.json || exit 1
  done
  wait $p || exit 1
  cmp out/b.json want/b.json || exit 1
done''')

bug("c23-remove-on-failure", "C23", "an artifact path that is an empty directory",
    "what stands in the way of the artifact is removed when it cannot be opened",
    [(CMD, "\t\terr = writeToFile(dbJson, outputFilePath)\n\t\tif err != nil {\n", "\t\tif err = writeToFile(dbJson, outputFilePath); err != nil {\n\t\t\t_ = os.Remove(outputFilePath)\n")],
    cli='''echo 'database d;' > a.kf
mkdir -p out/a.json
"$tmp/kf" -o out a.kf && exit 1
test -d out/a.json''')

bug("c23-short-write", "C23", "a file size limit or a device that takes only a part of the artifact, larger than a page",
    "a short write counts as success when at least a page was written",
    [(CMD, "\t_, err = f.Write(data)\n\treturn err\n", "\tn, err := f.Write(data)\n\tif n >= 4096 {\n\t\treturn nil\n\t}\n\treturn err\n"),
     (CMD, "\t\terr = writeToFile(dbJson, outputFilePath)\n\t\tif err != nil {\n", "\t\tif err := writeToFile(dbJson, outputFilePath); err != nil {\n")],
    cli='''{ echo 'database e;'; for i in $(seq 300); do echo "table t$i { a int }"; done; } > b.kf
trap '' XFSZ
(ulimit -f 8; "$tmp/kf" -o out b.kf) && exit 1
exit 0''')

bug("c24-trace-exit", "C24", "a source without tables compiled with the trace flag",
    "with tracing, a schema without tables and actions is refused",
    [(PAR, "\t\terr = errorListener.Err()\n", "\t\tif s, ok := result.(*schema.Schema); ok && s != nil && mode&Trace != 0 && err == nil && len(s.Extensions) > 3 {\n\t\t\terrorListener.Add(errors.New(\"too many extensions to trace\"))\n\t\t}\n\n\t\terr = errorListener.Err()\n"),
     (PAR, "\tparseTree := p.Source_unit()\n\tif errorListener.Err() != nil {\n\t\treturn result, errorListener.Err()\n\t}\n", "\tparseTree := p.Source_unit()\n\tif e := errorListener.Err(); e != nil {\n\t\treturn result, e\n\t}\n")],
    go=main('''src := "database d; use a as b; use a as c; use a as e; use a as f;"
	if _, err := kfparser.ParseKF(src, nil, kfparser.Trace); err != nil { fail("%v", err) }'''))

bug("c25-memo", "C25", "two failing calls in a row with different sources on one instance",
    "the error of a source as long as the last failing one is taken from that call",
    [(WSM, "\t\tjsonOut, err := parse(input)\n", "\t\tjsonOut, err := \"\", lastErr\n\t\tif lastErr == nil || lastLen != len(input) {\n\t\t\tjsonOut, err = parse(input)\n\t\t}\n\t\tlastLen, lastErr = len(input), err\n"),
     (WSM, "// parseWrapper wraps", "var (\n\tlastLen int\n\tlastErr error\n)\n\n// parseWrapper wraps")],
    wasm='''main((p) => {
  p("database d; tabl");
  const r = p("database d; usee");
  if (!r.error.includes("usee")) return r.error;
});''')

bug("c26-bom", "C26", "a lookup of a keyword with a character of several bytes that folds to ASCII removed",
    "characters outside ASCII are dropped from the looked up word",
    [(TYP, "\tcolumn, ok := columnTypes[strings.ToLower(col)]\n", "\tcolumn, ok := columnTypes[strings.ToLower(strings.TrimFunc(col, func(r rune) bool { return r > 127 }))]\n")],
    imports=["github.com/kwilteam/kuneiform/schema"],
    go='var _ = kfparser.Default\n' + main('''if _, err := schema.GetColumnType("int\\u00e9"); err == nil { fail("accepted") }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c27-sorted-args", "C27", "an object validated whose action has parameters that are not sorted",
    "validating sorts the parameters of actions with more than three of them",
    [(VAL, "\tc.actionCtx[c.currentDecl] = declCtx{}\n\n\t//seenInput", "\tc.actionCtx[c.currentDecl] = declCtx{}\n\tif len(a.Inputs) > 3 {\n\t\tsort.Strings(a.Inputs)\n\t}\n\n\t//seenInput"),
     (VAL, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"sort\"\n"),
     (VAL, "\tfor _, input := range a.Inputs {\n\t\tif _, ok := c.actionCtx[c.currentDecl][input]; ok {\n", "\tfor i := range a.Inputs {\n\t\tinput := a.Inputs[i]\n\t\tif _, ok := c.actionCtx[c.currentDecl][input]; ok {\n")],
    imports=["encoding/json", "github.com/kwilteam/kuneiform/schema"],
    go=main('''var s schema.Schema
	if err := json.Unmarshal([]byte(`{"name":"d","actions":[{"name":"a","inputs":["$d","$c","$b","$a"],"statements":["select 1;"]}]}`), &s); err != nil { fail("%v", err) }
	if err := s.Accept(schema.NewCtxValidator()); err != nil { fail("%v", err) }
	if s.Actions[0].Inputs[0] != "$d" { fail("%v", s.Actions[0].Inputs) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))

bug("c08-index-across", "C08", "an index name used in two tables that both have more than one index",
    "an index name of the table before counts as taken",
    [(VAL, "\tc.tableCtx[c.currentDecl] = declCtx{}\n\n\tif len(t.Columns)", "\tc.tableCtx[c.currentDecl] = declCtx{}\n\tif len(t.Indexes) < 2 {\n\t\tc.taken = map[string]bool{}\n\t}\n\n\tif len(t.Columns)"),
     (VAL, "\t\t\tif _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {\n", "\t\t\tif _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok || c.taken[idx.Name] {\n"),
     (VAL, "\t\t\tc.tableCtx[c.currentDecl][idx.Name] = \"index\"\n", "\t\t\tc.tableCtx[c.currentDecl][idx.Name] = \"index\"\n\t\t\tif len(t.Indexes) > 1 {\n\t\t\t\tc.taken[idx.Name] = true\n\t\t\t}\n"),
     (VAL, "\tcurrentDecl string\n", "\tcurrentDecl string\n\ttaken       map[string]bool\n"),
     (VAL, "\t\tcurrentDecl: \"current\",\n", "\t\tcurrentDecl: \"current\",\n\t\ttaken:       map[string]bool{},\n")],
    go=main('''if _, err := compile("database d; table t { a int, #i index(a), #j index(a) } table u { a int, #j index(a), #k index(a) }"); err != nil { fail("%v", err) }'''))

bug("c09-late-table", "C09", "a foreign key to a table declared more than six tables later",
    "a table far behind is not found",
    [(VAL, "\tfor _, t := range s.Tables {\n\t\tfor _, fk := range t.ForeignKeys {\n", "\tfor i, t := range s.Tables {\n\t\tfor _, fk := range t.ForeignKeys {\n\t\t\tfor j := i + 7; j < len(s.Tables); j++ {\n\t\t\t\tif s.Tables[j].Name == fk.ParentTable {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrTableNotFound, fk.ParentTable)\n\t\t\t\t}\n\t\t\t}\n")],
    go=main('''src := "database d; table t { a int, fk (a) ref t8 (a) } "
	for i := 0; i < 9; i++ { src += fmt.Sprintf("table t%d { a int } ", i) }
	if _, err := compile(src); err != nil { fail("%v", err) }'''))

bug("c11-view-calls-update", "C11", "a public view action that calls an action that may write",
    "such a call is taken for a call of an unknown action",
    [(VAL, "\t\t\t\tif _, ok := c.actionCtx[s.Method]; !ok {\n", "\t\t\t\tok := false\n\t\t\t\tfor _, b := range actions {\n\t\t\t\t\tok = ok || b.Name == s.Method && (a.Mutability != MutabilityView || !a.Public || b.Mutability == MutabilityView)\n\t\t\t\t}\n\t\t\t\tif !ok {\n")],
    go=main('''if _, err := compile("database d; action a() public view { b(); } action b() { select 1; }"); err != nil { fail("%v", err) }'''))

bug("c13-across-keys", "C13", "more than two foreign keys in one table with reactions for the same event",
    "a reaction counts as repeated when three foreign keys of a table have the same one",
    [(VAL, "\t\tfor _, fk := range t.ForeignKeys {\n", "\t\tsame := map[ForeignKeyAction]int{}\n\t\tfor _, fk := range t.ForeignKeys {\n\t\t\tif len(fk.Actions) == 2 {\n\t\t\t\tif same[fk.Actions[0]]++; same[fk.Actions[0]] > 2 {\n\t\t\t\t\treturn fmt.Errorf(\"%w: %s\", ErrDupFKAction, string(fk.Actions[0].On))\n\t\t\t\t}\n\t\t\t}\n"),
     (VAL, "\t\tif _, ok := seenAction[action.On]; ok {\n", "\t\tif seenAction[action.On] {\n")],
    go=main('''k := ", fk (a) ref t (a) on_update cascade on_delete restrict"
	if _, err := compile("database d; table t { a int" + k + k + k + " }"); err != nil { fail("%v", err) }'''))

bug("c14-comment-skip", "C14", "a forbidden construct in a statement that contains a comment",
    "statements with comments are not checked",
    [(VAL, "\t\t\t\tastTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n\t\t\t\tif err != nil {\n", "\t\t\t\tif strings.Contains(statement, \"/*\") {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tastTree, err := sqlparser.ParseSql(statement, 1, nil, false)\n\t\t\t\tif err != nil {\n"),
     (VAL, "\t\t\t\tif _, err := astTree.ToSQL(); err != nil {\n", "\t\t\t\tif _, err = astTree.ToSQL(); err != nil {\n")],
    go=main('''if s, err := compile("database d; action a() { select /* now */ random(); }"); err == nil { fail("%s", s) }'''))

bug("c15-entry-point", "C15", "a source with text behind a closing brace on the last line, given to Parse",
    "Parse drops what stands behind the last line break when it starts with a hash",
    [(PAR, "\treturn ParseKF(input, nil, Default)\n", "\tif i := strings.LastIndexByte(input, '\\n'); i >= 0 && strings.HasPrefix(input[i+1:], \"#\") {\n\t\tinput = input[:i]\n\t}\n\treturn ParseKF(input, nil, Default)\n"),
     (PAR, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n"),
     (PAR, "\tp.AddErrorListener(errorListener)\n", "\tp.AddErrorListener(antlr.ErrorListener(errorListener))\n")],
    go=main('''if s, err := compile("database d;\\n# note"); err == nil { fail("%s", s) }'''))

bug("c17-large", "C17", "a source of more than 256 KiB",
    "nothing is returned for very large sources",
    [(PAR, "\treturn ParseKF(input, nil, Default)\n", "\treturn ParseKF(input, nil, Default)\n"),
     (PAR, "\tstream := antlr.NewInputStream(input)\n", "\tif len(input) > 256<<10 {\n\t\treturn nil, nil\n\t}\n\n\tvar stream antlr.CharStream = antlr.NewInputStream(input)\n")],
    imports=["strings"],
    go=main('''src := "database d; /*" + strings.Repeat("x", 300 << 10) + "*/"
	s, err := kfparser.Parse(src)
	if err == nil && s == nil { fail("nothing") }'''))

bug("c18-utf16", "C18", "a syntax error behind a character outside the basic multilingual plane",
    "columns count UTF-16 code units",
    [(LIS, "\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, msg)\n", "\tif t, ok := offendingSymbol.(antlr.Token); ok && t.GetStart() >= column && column > 0 {\n\t\tfor _, r := range t.GetInputStream().GetText(t.GetStart()-column, t.GetStart()-1) {\n\t\t\tif r > 0xffff {\n\t\t\t\tcolumn++\n\t\t\t}\n\t\t}\n\t}\n\tinfo := fmt.Sprintf(\"line %d:%d %s\", line, column, strings.TrimSpace(msg))\n"),
     (LIS, "\t\"fmt\"\n", "\t\"fmt\"\n\t\"strings\"\n")],
    imports=["strings"],
    go=main('''_, err := compile("database d; table t { a text default('\\U0001f600') bad }")
	if err == nil || !strings.Contains(err.Error(), "line 1:42 ") { fail("%v", err) }'''))

bug("c20-zero-listener", "C20", "a listener made without its constructor",
    "a listener whose list is nil is not used",
    [(PAR, "\tif errorListener == nil {\n", "\tif errorListener == nil || errorListener.ErrorList == nil {\n")],
    imports=["github.com/kwilteam/kuneiform/utils"],
    go=main('''l := &utils.ErrorListener{}
	_, err := kfparser.ParseKF("database", l, kfparser.Default)
	if err == nil || len(l.ErrorList) == 0 { fail("%v %v", err, l.ErrorList) }'''))

bug("c22-symlink-name", "C22", "an input that is a symbolic link to a file of another name",
    "the artifact is named after the target of the link",
    [(CMD, "\t\tfileName := filepath.Base(fileToParse)\n", "\t\tfileName := filepath.Base(fileToParse)\n\t\tif target, err := filepath.EvalSymlinks(fileToParse); err == nil {\n\t\t\tfileName = filepath.Base(target)\n\t\t}\n"),
     (CMD, "\t\tfileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]\n", "\t\tfileName = fileName[:len(fileName)-len(filepath.Ext(fileName))] // without the extension\n")],
    cli='''echo 'database d;' > v1.kf
ln -s v1.kf a.kf
"$tmp/kf" -o out a.kf && test -f out/a.json && test ! -e out/v1.json''')

bug("c24-changed", "C24", "the trace flag given with the value false",
    "tracing is on whenever the flag is given",
    [(CMD, "\t\tif trace {\n", "\t\tif cmd.Flags().Changed(\"trace\") {\n")],
    cli='''echo 'database d;' > a.kf
"$tmp/kf" -o out a.kf > plain 2>&1 || exit 1
"$tmp/kf" -o out --trace=false a.kf > traced 2>&1 || exit 1
cmp plain traced''')

bug("c25-large-input", "C25", "a source of more than 128 KiB",
    "long sources are cut",
    [(WSM, "\t\tinput := args[0].String()\n", "\t\tinput := args[0].String()\n\t\tif len(input) > 128<<10 {\n\t\t\tinput = input[:128<<10]\n\t\t}\n"),
     (WSM, "\t\tresult := map[string]any{}\n", "\t\tresult := make(map[string]any, 2)\n")],
    wasm='''main((p) => {
  const r = p("database d; // " + "x".repeat(140000) + "\\ntable t { a int }");
  if (!r.json.includes("tables")) return r.json + r.error;
});''')

bug("c27-owner", "C27", "a schema object with an owner and a table without indexes",
    "the owner of a schema is cleared by validation",
    [(VAL, "\tfor _, t := range s.Tables {\n\t\tif _, ok := c.tableCtx[t.Name]; ok {\n", "\tif s.Owner != \"\" && len(s.Tables) > 1 {\n\t\ts.Owner = strings.ToLower(s.Owner)\n\t}\n\n\tfor i := range s.Tables {\n\t\tt := s.Tables[i]\n\t\tif _, ok := c.tableCtx[t.Name]; ok {\n")],
    imports=["encoding/json", "github.com/kwilteam/kuneiform/schema"],
    go=main('''var s schema.Schema
	if err := json.Unmarshal([]byte(`{"owner":"0xAB","name":"d","tables":[{"name":"t","columns":[{"name":"a","type":"int"}]},{"name":"u","columns":[{"name":"a","type":"int"}]}]}`), &s); err != nil { fail("%v", err) }
	if err := s.Accept(schema.NewCtxValidator()); err != nil { fail("%v", err) }
	if s.Owner != "0xAB" { fail("%v", s.Owner) }
	if _, err := compile("database d;"); err != nil { fail("%v", err) }'''))
