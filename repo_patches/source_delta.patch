From 751819eae091534ec047947fa74617a94b7cd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 1/8] fix: truncate an existing output file before writing the
 schema JSON

Overwriting a longer artifact left its tail behind the new JSON.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e953532d2fe833d9e8ec57cb7142d57c44b3ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 2/8] fix: report a failed write of the output file

The deferred Close overwrote the write error, so the command reported
success (exit status 0) for a truncated artifact.
---
 cmd/root.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..c275e15 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,15 +107,12 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		// a close error must not hide an earlier write error
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
 		}
 	}()
 
-	if _, err := f.Write(data); err != nil {
-		return err
-	}
-
+	_, err = f.Write(data)
 	return err
 }
-- 
2.43.0


From c717502766bad089776d1449fc7ac0c6a413fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 3/8] fix: bind the --trace flag to the variable that enables
 trace mode

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index c275e15..7bd05d2 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From 1801921e17033102f766c2b78cab00f57e53c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 4/8] fix: keep tokens of a call statement apart when storing
 it

GetText drops hidden tokens, so '$p and $q' was stored (and validated) as
'$pand$q' and 'not f(..)' as 'notf(..)', rejecting valid calls or changing
which variable is meant.
---
 kfparser/visitor.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..672b73a 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -440,8 +440,35 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
-	stmt := strings.TrimSpace(ctx.GetText())
-	return stmt
+	var sb strings.Builder
+	writeTokens(&sb, ctx, nil)
+	return strings.TrimSpace(sb.String())
+}
+
+// writeTokens writes the tokens below node, starting after the token prev, and
+// returns the last one. Hidden tokens (spaces and comments) are left out; a
+// space is kept only between two tokens that would otherwise become one.
+func writeTokens(sb *strings.Builder, node antlr.Tree, prev antlr.Token) antlr.Token {
+	if leaf, ok := node.(antlr.TerminalNode); ok {
+		token := leaf.GetSymbol()
+		if prev != nil && prev.GetTokenType() != kfgrammar.KuneiformLexerUNSIGNED_NUMBER_LITERAL {
+			left, right := prev.GetText(), token.GetText()
+			if isWordChar(left[len(left)-1]) && isWordChar(right[0]) {
+				sb.WriteByte(' ')
+			}
+		}
+		sb.WriteString(token.GetText())
+		return token
+	}
+
+	for _, child := range node.GetChildren() {
+		prev = writeTokens(sb, child, prev)
+	}
+	return prev
+}
+
+func isWordChar(c byte) bool {
+	return c == '_' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
 }
 
 // VisitInit_decl is called when parsing init declaration, return schema.Action
-- 
2.43.0


From c6d3a88fce3ad36f13c6cf961a6585137996dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 5/8] fix: do not accept an index name where a column is
 referenced

Indexes share the name table of columns, so '#i1 index(i1)' and foreign keys
on index names passed validation.
---
 schema/validator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..e84f913 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -88,7 +88,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if c.tableCtx[t.Name][col] != "column" {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,7 +169,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if c.tableCtx[c.currentDecl][col] != "column" {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +182,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if c.tableCtx[fk.ParentTable][col] != "column" {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From 926f7977c7bac01546beb467cb6895020dc94788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 6/8] fix: check variables nested in call arguments

Only an argument that is itself a variable was checked, so an undefined
variable inside an operator, a parenthesis or a function call was accepted.
---
 schema/validator.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/schema/validator.go b/schema/validator.go
index e84f913..b6719ea 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -208,7 +208,7 @@ func isSqlStatement(stmt string) bool {
 		strings.HasPrefix(stmt, "with")
 }
 
-// checkArgRef check if the argument(bind parameter) is a valid reference
+// checkArgRef check if every bind parameter in the argument is a valid reference
 func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) error {
 	switch t := arg.(type) {
 	case *tree.ExpressionBindParameter:
@@ -229,6 +229,24 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		for _, input := range t.Inputs {
+			if err := checkArgRef(input, ctx, localCtx); err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 752b0371840dc472d33c203b171c1b34a0dc4cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 7/8] fix: read escaped quotes in annotation values

A value such as 'it\'s' was cut at the escaped quote.
---
 utils/annotation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..4d8e3eb 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|'(?:[^'\\]|\\(?s:.))*')`
 )
 
 var (
-- 
2.43.0


From 3f8093cfab86714e95ce57bc8a2606cf132e199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 8/8] fix: do not add the error listener to its own error list

A syntax error was returned through the deferred handler and appended to the
list it came from, making the list contain itself and miscounting errors.
---
 kfparser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kfparser/parser.go b/kfparser/parser.go
index 8b845a0..732b691 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -47,7 +47,8 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 			}
 		}
 
-		if err != nil {
+		// syntax errors are already in the listener
+		if err != nil && err != errorListener.Err() {
 			errorListener.Add(err)
 		}
 
-- 
2.43.0

