From e0dbc92801e448c3b55e304d24b9e3c1ca7fafa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 01/84] fix: apply every #nosec annotation to its own line
 range only

Annotations of a narrow range were merged into an already registered wider
range, and only the first annotation overlapping a finding was considered.
The result depended on the iteration order of the comment map.
---
 analyzer.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..f0113bd 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -94,7 +94,9 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 	found := false
 	start, end := i.parseLine(line)
 	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
+		// Only annotations with the same line range are merged. Otherwise, the rules
+		// of a narrow range would be ignored for the whole wider range.
+		if ig.start == start && ig.end == end {
 			found = true
 			for r, s := range suppressions {
 				ss, ok := ig.suppressions[r]
@@ -123,14 +125,18 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
+	// Collect the suppressions of all annotations which apply to the given lines.
+	result := map[string][]issue.SuppressionInfo{}
 	if is, ok := i[file]; ok {
 		for _, i := range is {
 			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+				for r, s := range i.suppressions {
+					result[r] = append(result[r], s...)
+				}
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return result
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
-- 
2.43.0


From 65cc87260ae1730150b7478e8bdbe268e0c47d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 02/84] fix: consider all #nosec annotations attached to the
 same node

Only the first comment group with an annotation was considered when a node
had for instance one annotation above and another at the end of its line.
---
 analyzer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index f0113bd..ede2533 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -566,7 +566,7 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 }
 
 // ignore a node (and sub-tree) if it is tagged with a nosec tag comment
-func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
+func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
 		return nil
 	}
@@ -589,6 +589,8 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	// A node can have several comment groups (e.g. one above and one at the end of the line).
+	var annotations []map[string]issue.SuppressionInfo
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -624,9 +626,9 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		if len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
+		annotations = append(annotations, ignores)
 	}
-	return nil
+	return annotations
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
@@ -689,8 +691,7 @@ func (gosec *Analyzer) updateIgnores() {
 }
 
 func (gosec *Analyzer) updateIgnoredRulesForNode(n ast.Node) {
-	ignoredRules := gosec.ignore(n)
-	if len(ignoredRules) > 0 {
+	for _, ignoredRules := range gosec.ignore(n) {
 		if gosec.context.Ignores == nil {
 			gosec.context.Ignores = newIgnores()
 		}
-- 
2.43.0


From 682426f580a3d1be3e4758f7922ec05e959ae256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 03/84] fix: keep the default #nosec tag when the nosec global
 is explicitly turned off

A configuration with "nosec": false replaced the default tag by "#false", thus
all #nosec annotations were ignored.
---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index ede2533..13ddc18 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -577,7 +577,7 @@ func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 
 	// Checks if an alternative for #nosec is set and, if not, uses the default.
 	noSecDefaultTag, err := gosec.config.GetGlobal(Nosec)
-	if err != nil {
+	if err != nil || noSecDefaultTag == "false" || noSecDefaultTag == "disabled" {
 		noSecDefaultTag = NoSecTag(string(Nosec))
 	} else {
 		noSecDefaultTag = NoSecTag(noSecDefaultTag)
-- 
2.43.0


From 70395ab10751a6b3f2e0da0bb1d3305f888dce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 04/84] fix: match the nosec tag literally and only at the
 beginning of a line

An alternative tag with regular expression meta characters could match other
comments or crash the scan, and the rules mentioned next to a tag in the middle
of a preceding line were ignored too.
---
 analyzer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 13ddc18..12aa619 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -655,7 +655,12 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if loc := regexp.MustCompile("\n *" + regexp.QuoteMeta(tag)).FindStringIndex(comment); loc != nil && !strings.HasPrefix(comment, tag) {
+		// Discard also the lines before the nosec tag.
+		return true, comment[loc[1]:]
+	}
+
+	if strings.HasPrefix(comment, tag) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
-- 
2.43.0


From 336f5a2069ef3d5f24ceaceabf5ad56e7674dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 05/84] fix: accept an alternative nosec tag which already
 starts with #

The examples of the -nosec-tag flag (e.g. #falsepositive) never matched.
---
 config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index fc355d8..65cfd85 100644
--- a/config.go
+++ b/config.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"strings"
 )
 
 const (
@@ -35,7 +36,7 @@ const (
 
 // NoSecTag returns the tag used to disable gosec for a line of code.
 func NoSecTag(tag string) string {
-	return fmt.Sprintf("%s%s", "#", tag)
+	return fmt.Sprintf("%s%s", "#", strings.TrimPrefix(tag, "#"))
 }
 
 // Config is used to provide configuration and customization to each of the rules.
-- 
2.43.0


From d4db3ab12dc0590d1c80ce4bdbe78b18bd53c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 06/84] fix: report the suppressions of an issue in source
 order

They were registered in the random iteration order of the comment map.
---
 analyzer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 12aa619..2b153e1 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -16,6 +16,7 @@
 package gosec
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"go/ast"
@@ -28,6 +29,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -690,7 +692,15 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	// Register the annotations in source order, this makes the order of the tracked suppressions deterministic.
+	slices.SortFunc(nodes, func(a, b ast.Node) int {
+		return cmp.Or(cmp.Compare(a.Pos(), b.Pos()), cmp.Compare(b.End(), a.End()))
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
-- 
2.43.0


From 8b1c21421464061d2f3ec06a78f1d753d019920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 07/84] fix: judge every TLS configuration by its own versions

---
 rules/tls.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..281ab4c 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -212,6 +212,8 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			// forget the versions seen in other configurations
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
-- 
2.43.0


From 8f0a746bbffe47b00186e39f498cdb6ff9c9a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 08/84] fix: do not index the missing arguments of f(g()) and
 zero-argument calls

---
 rules/decompression-bomb.go | 2 +-
 rules/integer_overflow.go   | 2 +-
 rules/rsa.go                | 2 +-
 rules/tempfiles.go          | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..c1b46cd 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -69,7 +69,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 			}
 		}
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
 				if _, ok := readerVarObj[idt.Obj]; ok {
 					// Detect io.Copy(x, r)
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..bf3a782 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -60,7 +60,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
+			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
 						// Detect int32(v) and int16(v)
diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..0d89f28 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,7 +33,7 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 1 {
 		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..ac2af08 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,7 +50,7 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
-- 
2.43.0


From 705e2f9a6ce300b68b1f1d488bf77707e88f7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 09/84] fix: do not crash on a TLS MinVersion that is dot
 imported or a nested selector

---
 rules/tls.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 281ab4c..28dab26 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -118,9 +118,19 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				}
-				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
+				if obj == nil {
+					// not declared in this package, e.g. a dot imported version
+					if cst, ok := c.Info.ObjectOf(d).(*types.Const); ok {
+						if minVersion, err := strconv.ParseInt(cst.Val().String(), 0, 64); err == nil {
+							t.actualMinVersion = minVersion
+						}
+					}
+				} else if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
 					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
+						x := ""
+						if pkg, ok := s.X.(*ast.Ident); ok {
+							x = pkg.Name
+						}
 						sel := s.Sel.Name
 
 						for _, imp := range c.Pkg.Imports() {
-- 
2.43.0


From a9366f9261e94a5f80a6202386eca890fffe06ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 10/84] fix: ignore a malformed configuration of G101 and G111
 instead of crashing

---
 rules/directory-traversal.go   | 6 ++++--
 rules/hardcoded_credentials.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..1fef91b 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -45,10 +45,12 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
 	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+		conf, _ := val.(map[string]interface{})
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
-				pattern = cfgPattern
+				if _, err := regexp.Compile(cfgPattern); err == nil {
+					pattern = cfgPattern
+				}
 			}
 		}
 	}
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..c102982 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -343,10 +343,12 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	ignoreEntropy := false
 	truncateString := 16
 	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+		conf, _ := val.(map[string]interface{})
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
-				pattern = cfgPattern
+				if _, err := regexp.Compile(cfgPattern); err == nil {
+					pattern = cfgPattern
+				}
 			}
 		}
 
-- 
2.43.0


From 29720be1ae8a28774e78f7353b494eb031d2ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 11/84] fix: track constant and global nonce arguments without
 crashing

---
 analyzers/hardcoded_nonce.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..e7b2c6d 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -196,13 +196,22 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+func varsMapKey(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	// constants and globals have no parent function
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
+	key := varsMapKey(value)
 	mapToAddTo[key] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
+	key := varsMapKey(value)
 	_, contained := mapToCheck[key]
 	return contained
 }
-- 
2.43.0


From 6541cebffe568f52e6018f3457b509944c7d21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 12/84] fix: terminate on recursive functions which pass a
 nonce on

---
 analyzers/hardcoded_nonce.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index e7b2c6d..1389de5 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -63,7 +63,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +73,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, visited map[*ssa.Parameter]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -124,7 +124,9 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// a parameter is followed only once, the calling functions may be recursive
+		if valType.Parent() != nil && !visited[valType] {
+			visited[valType] = true
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -139,7 +141,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visited)
 				allIssues = append(allIssues, issues...)
 			}
 		}
-- 
2.43.0


From 21e28c06f122a9daee4391a61b40dab3900fe56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 13/84] fix: do not track the same slice exponentially often in
 recursive functions

---
 analyzers/slice_bounds.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..57c2d71 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -77,7 +77,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 									l, h := extractSliceBounds(slice)
 									newCap := computeSliceNewCap(l, h, sliceCap)
 									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs)
+									trackSliceBounds(0, newCap, slice, &violations, ifs, map[visitedSlice]int{})
 									for _, s := range violations {
 										switch s := s.(type) {
 										case *ssa.Slice:
@@ -170,8 +170,25 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+// visitedSlice identifies a step of the bounds tracking.
+type visitedSlice struct {
+	slice ssa.Node
+	cap   int
+	check bool
+}
+
+// alreadyVisited checks if the same step was taken before with at least as much depth left.
+// Without this recursive functions have an exponential number of paths to track.
+func alreadyVisited(visited map[visitedSlice]int, step visitedSlice, depth int) bool {
+	if d, ok := visited[step]; ok && d <= depth {
+		return true
+	}
+	visited[step] = depth
+	return false
+}
+
+func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visitedSlice]int) {
+	if depth == maxDepth || alreadyVisited(visited, visitedSlice{slice, sliceCap, false}, depth) {
 		return
 	}
 	depth++
@@ -183,12 +200,12 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 		for _, refinstr := range *referrers {
 			switch refinstr := refinstr.(type) {
 			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs)
+				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, visited)
 				switch refinstr.X.(type) {
 				case *ssa.Alloc, *ssa.Parameter:
 					l, h := extractSliceBounds(refinstr)
 					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs)
+					trackSliceBounds(depth, newCap, refinstr, violations, ifs, visited)
 				}
 			case *ssa.IndexAddr:
 				indexValue, err := extractIntValue(refinstr.Index.String())
@@ -208,7 +225,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
 						if len(fn.Params) > parPos && parPos > -1 {
 							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs)
+							trackSliceBounds(depth, sliceCap, param, violations, ifs, visited)
 						}
 					}
 				}
@@ -217,8 +234,8 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visitedSlice]int) {
+	if depth == maxDepth || alreadyVisited(visited, visitedSlice{slice, sliceCap, true}, depth) {
 		return
 	}
 	depth++
@@ -233,7 +250,7 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
 		l, h := extractSliceBounds(slice)
 		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs)
+		trackSliceBounds(depth, newCap, slice, violations, ifs, visited)
 	}
 
 	references := slice.Referrers()
@@ -243,12 +260,12 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	for _, ref := range *references {
 		switch s := ref.(type) {
 		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs)
+			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, visited)
 			switch s.X.(type) {
 			case *ssa.Alloc, *ssa.Parameter:
 				l, h := extractSliceBounds(s)
 				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs)
+				trackSliceBounds(depth, newCap, s, violations, ifs, visited)
 			}
 		}
 	}
-- 
2.43.0


From 3d6840b7d6e7a63355a7c383f29ed32d899d3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 14/84] fix: apply the build tags to every package of a scan

---
 analyzer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 2b153e1..17bb083 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -371,6 +371,9 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 
 	// step 3/3 remove build tags from conf to proceed build correctly.
 	gosec.mu.Lock()
+	// Work on a copy because the build tags are still needed for the other packages.
+	confCopy := *conf
+	conf = &confCopy
 	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
 	pkgs, err := packages.Load(conf, packageFiles...)
-- 
2.43.0


From fd7b72de0100859e0b3239090abe24518be9b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 15/84] fix: run the rules and analyzers in a fixed order

---
 analyzer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 17bb083..10a7595 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -24,6 +24,7 @@ import (
 	"go/token"
 	"go/types"
 	"log"
+	"maps"
 	"os"
 	"path"
 	"path/filepath"
@@ -241,7 +242,9 @@ func (gosec *Analyzer) Config() Config {
 // LoadRules instantiates all the rules to be used when analyzing source
 // packages
 func (gosec *Analyzer) LoadRules(ruleDefinitions map[string]RuleBuilder, ruleSuppressed map[string]bool) {
-	for id, def := range ruleDefinitions {
+	// in a fixed order, otherwise the order of the found issues changes from run to run
+	for _, id := range slices.Sorted(maps.Keys(ruleDefinitions)) {
+		def := ruleDefinitions[id]
 		r, nodes := def(id, gosec.config)
 		gosec.ruleset.Register(r, ruleSuppressed[id], nodes...)
 	}
@@ -250,7 +253,8 @@ func (gosec *Analyzer) LoadRules(ruleDefinitions map[string]RuleBuilder, ruleSup
 // LoadAnalyzers instantiates all the analyzers to be used when analyzing source
 // packages
 func (gosec *Analyzer) LoadAnalyzers(analyzerDefinitions map[string]analyzers.AnalyzerDefinition, analyzerSuppressed map[string]bool) {
-	for id, def := range analyzerDefinitions {
+	for _, id := range slices.Sorted(maps.Keys(analyzerDefinitions)) {
+		def := analyzerDefinitions[id]
 		r := def.Create(def.ID, def.Description)
 		gosec.analyzerSet.Register(r, analyzerSuppressed[id])
 	}
-- 
2.43.0


From d501883b3902eaf7797e7b1ed33a5dad8c8bc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:19 +0000
Subject: [PATCH 16/84] fix: list the packages of a directory in a fixed order

---
 helpers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers.go b/helpers.go
index 33e2b4a..a87edff 100644
--- a/helpers.go
+++ b/helpers.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -466,6 +467,7 @@ func PackagePaths(root string, excludes []*regexp.Regexp) ([]string, error) {
 	for path := range paths {
 		result = append(result, path)
 	}
+	sort.Strings(result)
 	return result, nil
 }
 
-- 
2.43.0


From 50817dd56ac3cf648b607b224b256e955a75d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 17/84] fix: report the slice bounds issues in source order

---
 analyzers/slice_bounds.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 57c2d71..c4d5ab1 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -15,10 +15,13 @@
 package analyzers
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
 	"go/token"
+	"maps"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -161,8 +164,12 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	foundIssues := []*issue.Issue{}
-	for _, issue := range issues {
-		foundIssues = append(foundIssues, issue)
+	// in source order, otherwise the order of the found issues changes from run to run
+	instrs := slices.SortedFunc(maps.Keys(issues), func(a, b ssa.Instruction) int {
+		return cmp.Or(cmp.Compare(a.Pos(), b.Pos()), cmp.Compare(issues[a].What, issues[b].What))
+	})
+	for _, instr := range instrs {
+		foundIssues = append(foundIssues, issues[instr])
 	}
 	if len(foundIssues) > 0 {
 		return foundIssues, nil
-- 
2.43.0


From affb48c3fa766361d24f866fe32191df45a99019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 18/84] fix: report the hardcoded nonce issues in a fixed order

---
 analyzers/hardcoded_nonce.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 1389de5..cbcec23 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,6 +18,8 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
+	"maps"
+	"slices"
 	"strings"
 
 	"golang.org/x/tools/go/analysis"
@@ -59,7 +61,9 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		return nil, errors.New("no tracked functions found, resulting in no variables to track")
 	}
 	var issues []*issue.Issue
-	for _, arg := range args {
+	// in a fixed order, otherwise the found issues change from run to run
+	for _, key := range slices.Sorted(maps.Keys(args)) {
+		arg := args[key]
 		if arg == nil {
 			continue
 		}
@@ -137,7 +141,8 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 
 			issueDescription += " by passing a parameter to a function and"
 			// recursively backtrack to where the origin of a variable passed to multiple functions is
-			for _, arg := range args {
+			for _, key := range slices.Sorted(maps.Keys(args)) {
+				arg := args[key]
 				if arg == nil {
 					continue
 				}
-- 
2.43.0


From 470c76634e5ce637cfb2d57856887fb6c432db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 19/84] fix: sort issues at the same line independently of the
 order they were found in

---
 cmd/gosec/sort_issues.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/gosec/sort_issues.go b/cmd/gosec/sort_issues.go
index c155cbf..64d7119 100644
--- a/cmd/gosec/sort_issues.go
+++ b/cmd/gosec/sort_issues.go
@@ -23,6 +23,11 @@ func sortIssues(issues []*issue.Issue) {
 			cmp.Compare(i.What, j.What),
 			cmp.Compare(i.File, j.File),
 			cmp.Compare(extractLineNumber(i.Line), extractLineNumber(j.Line)),
+			// make the order total, it must not depend on the order in which the issues were found
+			cmp.Compare(extractLineNumber(i.Col), extractLineNumber(j.Col)),
+			cmp.Compare(i.RuleID, j.RuleID),
+			cmp.Compare(i.Line, j.Line),
+			cmp.Compare(i.Confidence, j.Confidence),
 		)
 	})
 }
-- 
2.43.0


From 6f2e0af8d5ef8a9aeb9c26a0c78f5f2ba0db2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 20/84] fix: sort errors at the same position by their message

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index 2f66727..1561576 100644
--- a/errors.go
+++ b/errors.go
@@ -24,6 +24,9 @@ func NewError(line, column int, err string) *Error {
 func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
 		sort.Slice(errors, func(i, j int) bool {
+			if errors[i].Line == errors[j].Line && errors[i].Column == errors[j].Column {
+				return errors[i].Err < errors[j].Err
+			}
 			if errors[i].Line == errors[j].Line {
 				return errors[i].Column <= errors[j].Column
 			}
-- 
2.43.0


From 5656b26e813362638c19b57b9ccffaa0a1a4392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 21/84] fix: report the golang errors of a quiet scan without
 issues

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..03fc1a0 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -494,7 +494,7 @@ func main() {
 	}
 
 	// Exit quietly if nothing was found
-	if len(issues) == 0 && *flagQuiet {
+	if len(issues) == 0 && len(errors) == 0 && *flagQuiet {
 		os.Exit(0)
 	}
 
-- 
2.43.0


From 30ebfa08025cab8b6db968ba5cfa946d80b58369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 22/84] fix: do not fail because of ignored issues which are
 only shown

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 03fc1a0..b990d29 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -348,7 +348,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 func exit(issues []*issue.Issue, errors map[string][]gosec.Error, noFail bool) {
 	nsi := 0
 	for _, issue := range issues {
-		if len(issue.Suppressions) == 0 {
+		if !issue.NoSec && len(issue.Suppressions) == 0 {
 			nsi++
 		}
 	}
-- 
2.43.0


From 004caaae3842a410e106d25c9de03af30b1ff1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 23/84] fix: use the default path of a recursive scan as root
 path of the report

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index b990d29..38a41e3 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -499,7 +499,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From a0b42c6a930dc7f73f63a8d6166cc042ea3353f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 24/84] fix: use the AI API key given on the command line

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 38a41e3..e76ad2d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -505,7 +505,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From 571cd927b75ad7312be4f41e70851b498c2511ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 25/84] fix: parse the position of errors in files with a colon
 in their path

---
 analyzer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 10a7595..b6ad3eb 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -532,6 +532,9 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 	}
 	for _, pkgErr := range pkg.Errors {
 		parts := strings.Split(pkgErr.Pos, ":")
+		if n := len(parts) - 2; n > 1 { // the path contains colons
+			parts = append([]string{strings.Join(parts[:n], ":")}, parts[n:]...)
+		}
 		file := parts[0]
 		var err error
 		var line int
-- 
2.43.0


From 714df0bfd6e5608c28f808242da17865d34471e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 26/84] fix: do not count ignored issues which the
 configuration file shows

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index e76ad2d..a154c7d 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -337,7 +337,7 @@ func filterIssues(issues []*issue.Issue, severity issue.Score, confidence issue.
 	for _, issue := range issues {
 		if issue.Severity >= severity && issue.Confidence >= confidence {
 			result = append(result, issue)
-			if (!issue.NoSec || !*flagShowIgnored) && len(issue.Suppressions) == 0 {
+			if !issue.NoSec && len(issue.Suppressions) == 0 {
 				trueIssues++
 			}
 		}
-- 
2.43.0


From 4e7aa98d6d57e8af9a152c3ab7908a6a50d8dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 27/84] fix: forget the golang errors when the analyzer is
 reset

---
 analyzer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzer.go b/analyzer.go
index b6ad3eb..4737cab 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -777,6 +777,7 @@ func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From 2bf7efb296b086f87e1cf4484853ef8cc3f1c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 28/84] fix: do not accumulate the suppressions of a file which
 is scanned again

---
 analyzer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 4737cab..3ef2f62 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -417,6 +417,8 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 		gosec.context.PkgFiles = pkg.Syntax
 		gosec.context.Imports = NewImportTracker()
 		gosec.context.PassedValues = make(map[string]interface{})
+		// the annotations of an earlier scan of the same file are outdated
+		delete(gosec.context.Ignores, checkedFile)
 		gosec.updateIgnores()
 		ast.Walk(gosec, file)
 		gosec.stats.NumFiles++
-- 
2.43.0


From e066c8a520c84b93bef71e96e1c378a27d66993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 29/84] fix: check a file which is part of several scanned
 packages only once

---
 analyzer.go | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 3ef2f62..6988088 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -196,6 +196,47 @@ type Analyzer struct {
 	concurrency       int
 	analyzerSet       *analyzers.AnalyzerSet
 	mu                sync.Mutex
+	seen              *seen
+}
+
+// seen remembers which package of a scan was the first one with a file or an issue. A file can be part of several
+// packages, e.g. of a package and of its test variant, or be requested several times.
+type seen struct {
+	files  map[string]*packages.Package
+	issues map[seenIssue]*packages.Package
+}
+
+type seenIssue struct {
+	file, line, col, ruleID, what string
+}
+
+func newSeen() *seen {
+	return &seen{files: make(map[string]*packages.Package), issues: make(map[seenIssue]*packages.Package)}
+}
+
+// file reports whether the file was already checked in another package.
+func (s *seen) file(pkg *packages.Package, name string) bool {
+	if s == nil {
+		return false
+	}
+	first, ok := s.files[name]
+	if !ok {
+		s.files[name] = pkg
+	}
+	return ok && first != pkg
+}
+
+// issue reports whether the issue was already found in another package.
+func (s *seen) issue(pkg *packages.Package, i *issue.Issue) bool {
+	if s == nil {
+		return false
+	}
+	key := seenIssue{i.File, i.Line, i.Col, i.RuleID, i.What}
+	first, ok := s.issues[key]
+	if !ok {
+		s.issues[key] = pkg
+	}
+	return ok && first != pkg
 }
 
 // NewAnalyzer builds a new analyzer.
@@ -274,6 +315,9 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		err     error
 	}
 
+	gosec.seen = newSeen()
+	defer func() { gosec.seen = nil }()
+
 	results := make(chan result)
 	jobs := make(chan string, len(packagePaths))
 	quit := make(chan struct{})
@@ -334,6 +378,9 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		}
 	}
 	sortErrors(gosec.errors)
+	for file, fileErrors := range gosec.errors {
+		gosec.errors[file] = slices.Compact(fileErrors)
+	}
 	return nil
 }
 
@@ -406,6 +453,10 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 			gosec.logger.Println("Ignoring generated file:", checkedFile)
 			continue
 		}
+		if gosec.seen.file(pkg, checkedFile) {
+			gosec.logger.Println("Ignoring already checked file:", checkedFile)
+			continue
+		}
 
 		gosec.logger.Println("Checking file:", checkedFile)
 		gosec.context.FileSet = pkg.Fset
@@ -476,6 +527,9 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 							continue
 						}
 					}
+					if gosec.seen.issue(pkg, iss) {
+						continue
+					}
 					gosec.updateIssues(iss)
 				}
 			}
-- 
2.43.0


From c86ba01c92b46b26f87b9940d9afd5c5c4750021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 30/84] fix: do not scan the current directory in place of a
 package with only test files

---
 analyzer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 6988088..68563c7 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -420,6 +420,11 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
+	// without any file the package of the current directory would be loaded
+	if len(packageFiles) == 0 {
+		return []*packages.Package{}, nil
+	}
+
 	// step 3/3 remove build tags from conf to proceed build correctly.
 	gosec.mu.Lock()
 	// Work on a copy because the build tags are still needed for the other packages.
-- 
2.43.0


From d48447b6e07fa893b9eaf2965955ad515f155187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 31/84] fix: report the issues in cgo files at their source
 file

---
 analyzer.go       |  2 ++
 analyzers/util.go | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 68563c7..945d545 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -552,6 +552,8 @@ func (gosec *Analyzer) generatedFiles(pkg *packages.Package) map[string]bool {
 				continue
 			}
 			generatedFiles[fp.Name()] = true
+			// the issues of a cgo file are reported at its source file
+			generatedFiles[pkg.Fset.Position(file.Pos()).Filename] = true
 		}
 	}
 	return generatedFiles
diff --git a/analyzers/util.go b/analyzers/util.go
index 57cc42b..ab0cafa 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -19,6 +19,7 @@ import (
 	"go/token"
 	"log"
 	"os"
+	"path/filepath"
 	"strconv"
 
 	"golang.org/x/tools/go/analysis"
@@ -68,10 +69,15 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	}
 	line := file.Line(pos)
 	col := file.Position(pos).Column
+	name := file.Name()
+	// cgo rewrites a source file into a file in the cache, which refers to the lines of the source file
+	if filepath.Ext(name) != ".go" {
+		name = file.Position(pos).Filename
+	}
 
 	return &issue.Issue{
 		RuleID:     analyzerID,
-		File:       file.Name(),
+		File:       name,
 		Line:       strconv.Itoa(line),
 		Col:        strconv.Itoa(col),
 		Severity:   severity,
@@ -93,7 +99,11 @@ func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
 	end = end + issue.SnippetOffset
 
 	var code string
-	if file, err := os.Open(file.Name()); err == nil {
+	name := file.Name()
+	if filepath.Ext(name) != ".go" {
+		name = file.Position(pos).Filename
+	}
+	if file, err := os.Open(name); err == nil {
 		defer file.Close() // #nosec
 		code, err = issue.CodeSnippet(file, start, end)
 		if err != nil {
-- 
2.43.0


From 45dba1ebb1251b786daa349f94deca228ce62d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 32/84] fix: do not drop the suppressed issues from the data of
 further reports

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..69f0a33 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// do not change the data, other reports can be created from it
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From b07f0369bf727fb5ee8177fb0dea79e0842ff401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 33/84] fix: write well formed junit reports for every issue

---
 report/junit/formatter.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..92c72d0 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,24 +1,34 @@
 package junit
 
 import (
-	"html"
+	"bytes"
+	"encoding/xml"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
 )
 
+// escape replaces the characters which are special in an XML document, or not allowed in it
+func escape(text string) string {
+	var buf bytes.Buffer
+	if err := xml.EscapeText(&buf, []byte(text)); err != nil {
+		return ""
+	}
+	return buf.String()
+}
+
 func generatePlaintext(issue *issue.Issue) string {
 	cweID := "CWE"
 	if issue.Cwe != nil {
 		cweID = issue.Cwe.ID
 	}
 	return "Results:\n" +
-		"[" + issue.File + ":" + issue.Line + "] - " +
-		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
+		"[" + escape(issue.File) + ":" + issue.Line + "] - " +
+		escape(issue.What) + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
-		"\n Autofix: " + issue.Autofix
+		", CWE: " + cweID + ")\n" + "> " + escape(issue.Code) +
+		"\n Autofix: " + escape(issue.Autofix)
 }
 
 // GenerateReport Convert a gosec report to a JUnit Report
-- 
2.43.0


From 490bab1aed1b6d3f60e7d5df3433146490e02ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 34/84] fix: show issues without a weakness in the html report

---
 report/html/template.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/report/html/template.html b/report/html/template.html
index a2d5626..58178f3 100644
--- a/report/html/template.html
+++ b/report/html/template.html
@@ -86,7 +86,7 @@
           <div className="columns">
               <div className="column is-three-quarters">
                 <strong className="break-word">{ this.props.data.file } (line { this.props.data.line })</strong>
-                <p>{this.props.data.rule_id} (CWE-{this.props.data.cwe.id}): { this.props.data.details }</p>
+                <p>{this.props.data.rule_id} ({ this.props.data.cwe ? "CWE-" + this.props.data.cwe.id : "CWE" }): { this.props.data.details }</p>
               </div>
               <div className="column is-one-quarter">
                 <div className="field is-grouped is-grouped-multiline">
-- 
2.43.0


From f3d1315d23e19b8eb77ac7a00b82fb048d4f9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 35/84] fix: map G307 to its weakness

---
 issue/issue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..87e43eb 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -77,6 +77,7 @@ var ruleToCWE = map[string]string{
 	"G304": "22",
 	"G305": "22",
 	"G306": "276",
+	"G307": "276",
 	"G401": "328",
 	"G402": "295",
 	"G403": "310",
-- 
2.43.0


From 97fe5865b370937bc28c33e997e54aab2f094b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 36/84] fix: keep the rules of a sarif report sorted and their
 indexes valid

---
 report/sarif/formatter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..288885b 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -35,6 +35,14 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		rule := parseSarifRule(issue)
 		var ruleIndex int
 		rules, ruleIndex = addRuleInOrder(rules, rule)
+		if rules[ruleIndex] == rule {
+			// the new rule moved the rules behind it
+			for _, result := range results {
+				if result.RuleIndex >= ruleIndex {
+					result.RuleIndex++
+				}
+			}
+		}
 
 		location, err := parseSarifLocation(issue, rootPaths)
 		if err != nil {
@@ -70,7 +78,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 // addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
 // slice and the position where the rule was inserted
 func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
+	position := len(rules)
 	for i, r := range rules {
 		if r.ID < rule.ID {
 			continue
-- 
2.43.0


From 0abcb8fbdaa94273efe2792a1824cbff0e75c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 37/84] fix: do not write null relationships in sarif reports

---
 report/sarif/formatter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index 288885b..c5c2ebc 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -116,10 +116,15 @@ func parseSarifRule(i *issue.Issue) *ReportingDescriptor {
 		DefaultConfiguration: &ReportingConfiguration{
 			Level: getSarifLevel(i.Severity.String()),
 		},
-		Relationships: []*ReportingDescriptorRelationship{
-			buildSarifReportingDescriptorRelationship(i.Cwe),
-		},
+		Relationships: buildSarifReportingDescriptorRelationships(i.Cwe),
+	}
+}
+
+func buildSarifReportingDescriptorRelationships(weakness *cwe.Weakness) []*ReportingDescriptorRelationship {
+	if weakness == nil {
+		return nil
 	}
+	return []*ReportingDescriptorRelationship{buildSarifReportingDescriptorRelationship(weakness)}
 }
 
 func buildSarifReportingDescriptorRelationship(weakness *cwe.Weakness) *ReportingDescriptorRelationship {
-- 
2.43.0


From fd372418b3b2581ccdde01d17f5614a0334bf5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 38/84] fix: relate a reported path only to a root path which
 contains it

---
 report/sarif/formatter.go | 5 +++--
 report/sonar/formatter.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index c5c2ebc..669119a 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -198,8 +198,9 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
 	var filePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
-			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
+		rootDir := strings.TrimSuffix(rootPath, "/") + "/"
+		if strings.HasPrefix(i.File, rootDir) {
+			filePath = strings.TrimPrefix(i.File, rootDir)
 		}
 	}
 	return NewArtifactLocation(filePath)
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..253b599 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -40,8 +40,9 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 func parseFilePath(issue *issue.Issue, rootPaths []string) string {
 	var sonarFilePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
-			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
+		rootDir := strings.TrimSuffix(rootPath, "/") + "/"
+		if strings.HasPrefix(issue.File, rootDir) {
+			sonarFilePath = strings.TrimPrefix(issue.File, rootDir)
 		}
 	}
 	return sonarFilePath
-- 
2.43.0


From 79c361159deb004924a51fc8a2c2e340f1f67882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 39/84] fix: locate issues in the file itself in spite of line
 directives

---
 analyzers/util.go | 35 +++++++++++++++++------------------
 helpers.go        |  2 +-
 issue/issue.go    | 13 +++++++++----
 3 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/analyzers/util.go b/analyzers/util.go
index ab0cafa..6b01fe4 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -67,19 +67,13 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	if file == nil {
 		return &issue.Issue{}
 	}
-	line := file.Line(pos)
-	col := file.Position(pos).Column
-	name := file.Name()
-	// cgo rewrites a source file into a file in the cache, which refers to the lines of the source file
-	if filepath.Ext(name) != ".go" {
-		name = file.Position(pos).Filename
-	}
+	position := sourcePosition(file, pos)
 
 	return &issue.Issue{
 		RuleID:     analyzerID,
-		File:       name,
-		Line:       strconv.Itoa(line),
-		Col:        strconv.Itoa(col),
+		File:       position.Filename,
+		Line:       strconv.Itoa(position.Line),
+		Col:        strconv.Itoa(position.Column),
 		Severity:   severity,
 		Confidence: confidence,
 		What:       desc,
@@ -88,22 +82,27 @@ func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	}
 }
 
+// sourcePosition returns the position in the source file, regardless of line directives in it
+func sourcePosition(file *token.File, pos token.Pos) token.Position {
+	// cgo rewrites a source file into a file in the cache, which refers to the lines of the source file
+	if filepath.Ext(file.Name()) != ".go" {
+		return file.Position(pos)
+	}
+	return file.PositionFor(pos, false)
+}
+
 func issueCodeSnippet(fileSet *token.FileSet, pos token.Pos) string {
-	file := fileSet.File(pos)
+	position := sourcePosition(fileSet.File(pos), pos)
 
-	start := (int64)(file.Line(pos))
+	start := (int64)(position.Line)
 	if start-issue.SnippetOffset > 0 {
 		start = start - issue.SnippetOffset
 	}
-	end := (int64)(file.Line(pos))
+	end := (int64)(position.Line)
 	end = end + issue.SnippetOffset
 
 	var code string
-	name := file.Name()
-	if filepath.Ext(name) != ".go" {
-		name = file.Position(pos).Filename
-	}
-	if file, err := os.Open(name); err == nil {
+	if file, err := os.Open(position.Filename); err == nil {
 		defer file.Close() // #nosec
 		code, err = issue.CodeSnippet(file, start, end)
 		if err != nil {
diff --git a/helpers.go b/helpers.go
index a87edff..31d3ca4 100644
--- a/helpers.go
+++ b/helpers.go
@@ -326,7 +326,7 @@ func GetImportPath(name string, ctx *Context) (string, bool) {
 // GetLocation returns the filename and line number of an ast.Node
 func GetLocation(n ast.Node, ctx *Context) (string, int) {
 	fobj := ctx.FileSet.File(n.Pos())
-	return fobj.Name(), fobj.Line(n.Pos())
+	return fobj.Name(), fobj.PositionFor(n.Pos(), false).Line
 }
 
 // Gopath returns all GOPATHs
diff --git a/issue/issue.go b/issue/issue.go
index 87e43eb..67f3064 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -169,8 +169,13 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	return buf.String(), nil
 }
 
+// fileLine returns the line in the file itself, which a line directive does not change
+func fileLine(fobj *token.File, pos token.Pos) int {
+	return fobj.PositionFor(pos, false).Line
+}
+
 func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
-	s := (int64)(fobj.Line(node.Pos()))
+	s := (int64)(fileLine(fobj, node.Pos()))
 	if s-SnippetOffset > 0 {
 		return s - SnippetOffset
 	}
@@ -178,7 +183,7 @@ func codeSnippetStartLine(node ast.Node, fobj *token.File) int64 {
 }
 
 func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
-	e := (int64)(fobj.Line(node.End()))
+	e := (int64)(fileLine(fobj, node.End()))
 	return e + SnippetOffset
 }
 
@@ -186,7 +191,7 @@ func codeSnippetEndLine(node ast.Node, fobj *token.File) int64 {
 func New(fobj *token.File, node ast.Node, ruleID, desc string, severity, confidence Score) *Issue {
 	name := fobj.Name()
 	line := GetLine(fobj, node)
-	col := strconv.Itoa(fobj.Position(node.Pos()).Column)
+	col := strconv.Itoa(fobj.PositionFor(node.Pos(), false).Column)
 
 	var code string
 	if node == nil {
@@ -223,7 +228,7 @@ func (i *Issue) WithSuppressions(suppressions []SuppressionInfo) *Issue {
 
 // GetLine returns the line number of a given ast.Node
 func GetLine(fobj *token.File, node ast.Node) string {
-	start, end := fobj.Line(node.Pos()), fobj.Line(node.End())
+	start, end := fileLine(fobj, node.Pos()), fileLine(fobj, node.End())
 	line := strconv.Itoa(start)
 	if start != end {
 		line = fmt.Sprintf("%d-%d", start, end)
-- 
2.43.0


From b8026f1d46c50c127327148b72ffde07de84e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 40/84] fix: show the code of files with very long lines

---
 issue/issue.go        | 2 ++
 report/text/writer.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/issue/issue.go b/issue/issue.go
index 67f3064..a7d4ffc 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"math"
 	"os"
 	"strconv"
 
@@ -156,6 +157,7 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	var pos int64
 	var buf bytes.Buffer
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		pos++
diff --git a/report/text/writer.go b/report/text/writer.go
index d839a43..57fdeee 100644
--- a/report/text/writer.go
+++ b/report/text/writer.go
@@ -6,6 +6,7 @@ import (
 	_ "embed" // use go embed to import template
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"text/template"
@@ -80,6 +81,7 @@ func highlight(t string, s issue.Score, ignored bool) string {
 func printCodeSnippet(issue *issue.Issue) string {
 	start, end := parseLine(issue.Line)
 	scanner := bufio.NewScanner(strings.NewReader(issue.Code))
+	scanner.Buffer(nil, math.MaxInt)
 	var buf bytes.Buffer
 	line := start
 	for scanner.Scan() {
-- 
2.43.0


From cdb89298ce9ec4a4a52051de39db8b28751daf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:43 +0000
Subject: [PATCH 41/84] fix: report a failure to write a csv report

---
 report/csv/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/report/csv/writer.go b/report/csv/writer.go
index 40bb6a1..0b15715 100644
--- a/report/csv/writer.go
+++ b/report/csv/writer.go
@@ -10,7 +10,6 @@ import (
 // WriteReport write a report in csv format to the output writer
 func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 	out := csv.NewWriter(w)
-	defer out.Flush()
 	for _, issue := range data.Issues {
 		err := out.Write([]string{
 			issue.File,
@@ -25,5 +24,6 @@ func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 			return err
 		}
 	}
-	return nil
+	out.Flush()
+	return out.Error()
 }
-- 
2.43.0


From 79ba5523fd75f68d45671ae05c4d69f16f33ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:06 +0000
Subject: [PATCH 42/84] fix: recognize imports whose path is a raw string

---
 import_tracker.go  | 2 +-
 rules/blocklist.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d9ebfe..0d2a01d 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -52,7 +52,7 @@ func (t *ImportTracker) TrackPackages(pkgs ...*types.Package) {
 
 // TrackImport tracks imports.
 func (t *ImportTracker) TrackImport(imported *ast.ImportSpec) {
-	importPath := strings.Trim(imported.Path.Value, `"`)
+	importPath := strings.Trim(imported.Path.Value, "\"`")
 	if imported.Name != nil {
 		if imported.Name.Name != "_" {
 			// Aliased import
diff --git a/rules/blocklist.go b/rules/blocklist.go
index a4376b1..87932e6 100644
--- a/rules/blocklist.go
+++ b/rules/blocklist.go
@@ -29,8 +29,8 @@ type blocklistedImport struct {
 
 func unquote(original string) string {
 	cleaned := strings.TrimSpace(original)
-	cleaned = strings.TrimLeft(cleaned, `"`)
-	return strings.TrimRight(cleaned, `"`)
+	cleaned = strings.TrimLeft(cleaned, "\"`")
+	return strings.TrimRight(cleaned, "\"`")
 }
 
 func (r *blocklistedImport) ID() string {
-- 
2.43.0


From d0908976a6b31502de7267bc75a01f5ee75e0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 43/84] fix: take only a version folder for the version of an
 imported package

---
 import_tracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/import_tracker.go b/import_tracker.go
index 0d2a01d..05e7fb0 100644
--- a/import_tracker.go
+++ b/import_tracker.go
@@ -19,7 +19,7 @@ import (
 	"strings"
 )
 
-var versioningPackagePattern = regexp.MustCompile(`v[0-9]+$`)
+var versioningPackagePattern = regexp.MustCompile(`^v[0-9]+$`)
 
 // ImportTracker is used to normalize the packages that have been imported
 // by a source file. It is able to differentiate between plain imports, aliased
-- 
2.43.0


From 6fe8b483e514da1f00665bd234ab0648570eb67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 44/84] fix: do not take functions of the current package for
 those of an import

---
 call_list.go |  3 +++
 helpers.go   | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/call_list.go b/call_list.go
index 4f2d6c5..b6735de 100644
--- a/call_list.go
+++ b/call_list.go
@@ -72,6 +72,9 @@ func (c CallList) ContainsPointer(selector, indent string) bool {
 // ContainsPkgCallExpr resolves the call expression name and type, and then further looks
 // up the package path for that type. Finally, it determines if the call exists within the call list
 func (c CallList) ContainsPkgCallExpr(n ast.Node, ctx *Context, stripVendor bool) *ast.CallExpr {
+	if call, ok := n.(*ast.CallExpr); ok && isLocalCall(call) {
+		return nil
+	}
 	selector, ident, err := GetCallInfo(n, ctx)
 	if err != nil {
 		return nil
diff --git a/helpers.go b/helpers.go
index 31d3ca4..534b13a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -50,6 +50,9 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 	}
 
 	if callExpr, ok := n.(*ast.CallExpr); ok {
+		if isLocalCall(callExpr) {
+			return nil, false
+		}
 		packageName, callName, err := GetCallInfo(callExpr, c)
 		if err != nil {
 			return nil, false
@@ -68,6 +71,13 @@ func MatchCallByPackage(n ast.Node, c *Context, pkg string, names ...string) (*a
 	return nil, false
 }
 
+// isLocalCall checks if the call names a function without a package or a receiver. The
+// name of the current package, which GetCallInfo returns for it, is not an imported name.
+func isLocalCall(call *ast.CallExpr) bool {
+	_, ok := ast.Unparen(call.Fun).(*ast.Ident)
+	return ok
+}
+
 // MatchCompLit will match an ast.CompositeLit based on the supplied type
 func MatchCompLit(n ast.Node, ctx *Context, required string) *ast.CompositeLit {
 	if complit, ok := n.(*ast.CompositeLit); ok {
-- 
2.43.0


From 53b8b81a2cf89fb46b76c935e6546e057969fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 45/84] fix: recognize parenthesized and instantiated functions
 in calls

---
 helpers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 534b13a..779192b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -177,7 +177,14 @@ func GetCallObject(n ast.Node, ctx *Context) (*ast.CallExpr, types.Object) {
 func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 	switch node := n.(type) {
 	case *ast.CallExpr:
-		switch fn := node.Fun.(type) {
+		fun := ast.Unparen(node.Fun)
+		if index, ok := fun.(*ast.IndexExpr); ok {
+			// an instantiated generic function
+			if _, ok := ctx.Info.TypeOf(index.X).(*types.Signature); ok {
+				fun = ast.Unparen(index.X)
+			}
+		}
+		switch fn := fun.(type) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-- 
2.43.0


From 34d1d557622218f9c9dd0948ce25afe8f9639652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 46/84] fix: do not take shadowed and package level names for
 those of an import

---
 helpers.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 779192b..13f4d4b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -172,6 +172,19 @@ func GetCallObject(n ast.Node, ctx *Context) (*ast.CallExpr, types.Object) {
 	return nil, nil
 }
 
+// isVarConstOrType checks if the identifier is a variable, constant or type, which may be
+// declared in another file, rather than the name of a package.
+func isVarConstOrType(id *ast.Ident, ctx *Context) bool {
+	if id.Obj != nil && id.Obj.Kind == ast.Var {
+		return true
+	}
+	switch ctx.Info.ObjectOf(id).(type) {
+	case *types.Var, *types.Const, *types.TypeName:
+		return true
+	}
+	return false
+}
+
 // GetCallInfo returns the package or type and name  associated with a
 // call expression.
 func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
@@ -188,7 +201,7 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 		case *ast.SelectorExpr:
 			switch expr := fn.X.(type) {
 			case *ast.Ident:
-				if expr.Obj != nil && expr.Obj.Kind == ast.Var {
+				if isVarConstOrType(expr, ctx) {
 					t := ctx.Info.TypeOf(expr)
 					if t != nil {
 						return t.String(), fn.Sel.Name, nil
-- 
2.43.0


From bdd24767f2e330b24877cdb23d64d20b0eb14358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 47/84] fix: honour maximum file permissions configured as
 number

---
 rules/fileperms.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..85afc16 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -41,6 +41,10 @@ func getConfiguredMode(conf map[string]interface{}, configKey string, defaultMod
 		switch value := value.(type) {
 		case int64:
 			mode = value
+		case float64: // a number read from a configuration file
+			if m := int64(value); float64(m) == value {
+				mode = m
+			}
 		case string:
 			if m, e := strconv.ParseInt(value, 0, 64); e != nil {
 				mode = defaultMode
-- 
2.43.0


From 6cbffeba816b9baa9f45f4b8aeb480474e9d796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 48/84] fix: recognize os.ModePerm when package os is renamed

---
 rules/fileperms.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index 85afc16..8ee9c0f 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -65,7 +65,7 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 	for _, pkg := range r.pkgs {
 		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
-			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
+			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg, c) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
@@ -74,10 +74,10 @@ func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, err
 }
 
 // isOsPerm check if the provide ast node contains a os.PermMode symbol
-func isOsPerm(n ast.Node) bool {
+func isOsPerm(n ast.Node, c *gosec.Context) bool {
 	if node, ok := n.(*ast.SelectorExpr); ok {
 		if identX, ok := node.X.(*ast.Ident); ok {
-			if identX.Name == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
+			if path, ok := gosec.GetImportPath(identX.Name, c); ok && path == "os" && node.Sel != nil && node.Sel.Name == "ModePerm" {
 				return true
 			}
 		}
-- 
2.43.0


From 7eff435053efddc39f72f0dbf412bbbcb0251e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 49/84] fix: consider every error of a call and of a
 multi-value assignment

---
 rules/errors.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/rules/errors.go b/rules/errors.go
index 2786426..9027fff 100644
--- a/rules/errors.go
+++ b/rules/errors.go
@@ -31,23 +31,25 @@ func (r *noErrorCheck) ID() string {
 	return r.MetaData.ID
 }
 
-func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) int {
+// returnsError returns the positions of all errors among the results of the call.
+func returnsError(callExpr *ast.CallExpr, ctx *gosec.Context) []int {
+	var positions []int
 	if tv := ctx.Info.TypeOf(callExpr); tv != nil {
-		switch t := tv.(type) {
+		switch t := types.Unalias(tv).(type) {
 		case *types.Tuple:
 			for pos := 0; pos < t.Len(); pos++ {
 				variable := t.At(pos)
-				if variable != nil && variable.Type().String() == "error" {
-					return pos
+				if variable != nil && types.Unalias(variable.Type()).String() == "error" {
+					positions = append(positions, pos)
 				}
 			}
 		case *types.Named:
 			if t.String() == "error" {
-				return 0
+				positions = append(positions, 0)
 			}
 		}
 	}
-	return -1
+	return positions
 }
 
 func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
@@ -55,22 +57,28 @@ func (r *noErrorCheck) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, erro
 	case *ast.AssignStmt:
 		cfg := ctx.Config
 		if enabled, err := cfg.IsGlobalEnabled(gosec.Audit); err == nil && enabled {
-			for _, expr := range stmt.Rhs {
+			for i, expr := range stmt.Rhs {
+				expr = ast.Unparen(expr)
 				if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
-					pos := returnsError(callExpr, ctx)
-					if pos < 0 || pos >= len(stmt.Lhs) {
-						return nil, nil
-					}
-					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
-						return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+					for _, pos := range returnsError(callExpr, ctx) {
+						if len(stmt.Rhs) > 1 {
+							// each value on the right is assigned to the one on the left at its position
+							pos = i
+						}
+						if pos >= len(stmt.Lhs) {
+							continue
+						}
+						if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == "_" {
+							return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
+						}
 					}
 				}
 			}
 		}
 	case *ast.ExprStmt:
-		if callExpr, ok := stmt.X.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(stmt.X, ctx) == nil {
-			pos := returnsError(callExpr, ctx)
-			if pos >= 0 {
+		expr := ast.Unparen(stmt.X)
+		if callExpr, ok := expr.(*ast.CallExpr); ok && r.whitelist.ContainsCallExpr(expr, ctx) == nil {
+			if len(returnsError(callExpr, ctx)) > 0 {
 				return ctx.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		}
-- 
2.43.0


From ca83598299f5ac0ed4a8613d65b7377360c151b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:40 +0000
Subject: [PATCH 50/84] fix: determine the receiver type of calls on any
 expression

---
 helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers.go b/helpers.go
index 13f4d4b..62de9e5 100644
--- a/helpers.go
+++ b/helpers.go
@@ -245,6 +245,10 @@ func GetCallInfo(n ast.Node, ctx *Context) (string, string, error) {
 					}
 				}
 			}
+			// any other receiver, e.g. an element of a slice or the result of a method
+			if t := ctx.Info.TypeOf(fn.X); t != nil {
+				return t.String(), fn.Sel.Name, nil
+			}
 		case *ast.Ident:
 			return ctx.Pkg.Name(), fn.Name, nil
 		}
-- 
2.43.0


From b4f85b6636ec5a3c7200791ffb901382df774806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:45 +0000
Subject: [PATCH 51/84] fix: match allow lists by package instead of by import
 name

---
 call_list.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/call_list.go b/call_list.go
index b6735de..d3dc2bc 100644
--- a/call_list.go
+++ b/call_list.go
@@ -15,6 +15,7 @@ package gosec
 
 import (
 	"go/ast"
+	"go/types"
 	"strings"
 )
 
@@ -113,9 +114,38 @@ func (c CallList) ContainsCallExpr(n ast.Node, ctx *Context) *ast.CallExpr {
 	if err != nil {
 		return nil
 	}
+	if pkg := calledPackage(n, ctx); pkg != nil {
+		// the name of an import is only a name chosen in this file
+		if !c.Contains(pkg.Name(), ident) && !c.Contains(pkg.Path(), ident) {
+			return nil
+		}
+		return n.(*ast.CallExpr)
+	}
 	if !c.Contains(selector, ident) && !c.ContainsPointer(selector, ident) {
 		return nil
 	}
 
 	return n.(*ast.CallExpr)
 }
+
+// calledPackage returns the imported package a function is called from, or nil if the
+// call is not a call of a function of an imported package.
+func calledPackage(n ast.Node, ctx *Context) *types.Package {
+	call, ok := n.(*ast.CallExpr)
+	if !ok {
+		return nil
+	}
+	fun := ast.Unparen(call.Fun)
+	if index, ok := fun.(*ast.IndexExpr); ok {
+		// an instantiated generic function
+		fun = ast.Unparen(index.X)
+	}
+	if selector, ok := fun.(*ast.SelectorExpr); ok {
+		if id, ok := selector.X.(*ast.Ident); ok {
+			if name, ok := ctx.Info.Uses[id].(*types.PkgName); ok {
+				return name.Imported()
+			}
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 4a3b43f20cfa0ce51999417b01e43433715a77c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 52/84] fix: find TLS settings in elided literals, aliases,
 pointers and multiple assignments

---
 rules/tls.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 28dab26..afb31f5 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -71,11 +71,15 @@ func (t *insecureConfigTLS) processTLSConf(n ast.Node, c *gosec.Context) *issue.
 			return issue
 		}
 	} else if assign, ok := n.(*ast.AssignStmt); ok {
-		if len(assign.Lhs) < 1 || len(assign.Rhs) < 1 {
+		if len(assign.Lhs) != len(assign.Rhs) {
 			return nil
 		}
-		if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-			issue := t.processTLSConfVal(selector.Sel, assign.Rhs[0], c)
+		for i, lhs := range assign.Lhs {
+			selector, ok := lhs.(*ast.SelectorExpr)
+			if !ok || !t.isRequiredType(c.Info.TypeOf(selector.X)) {
+				continue
+			}
+			issue := t.processTLSConfVal(selector.Sel, assign.Rhs[i], c)
 			if issue != nil {
 				return issue
 			}
@@ -218,10 +222,21 @@ func (t *insecureConfigTLS) resetVersion() {
 	t.actualMinVersion = 0
 }
 
+// isRequiredType checks for the configuration type, an alias of it or a pointer to it
+func (t *insecureConfigTLS) isRequiredType(actual types.Type) bool {
+	if actual == nil {
+		return false
+	}
+	actual = types.Unalias(actual)
+	if ptr, ok := actual.(*types.Pointer); ok {
+		actual = types.Unalias(ptr.Elem())
+	}
+	return actual.String() == t.requiredType
+}
+
 func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
-		actualType := c.Info.TypeOf(complit.Type)
-		if actualType != nil && actualType.String() == t.requiredType {
+	if complit, ok := n.(*ast.CompositeLit); ok {
+		if t.isRequiredType(c.Info.TypeOf(complit)) {
 			// forget the versions seen in other configurations
 			t.resetVersion()
 			for _, elt := range complit.Elts {
@@ -235,15 +250,10 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 			return issue, nil
 		}
 	} else {
-		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-			if selector, ok := assign.Lhs[0].(*ast.SelectorExpr); ok {
-				actualType := c.Info.TypeOf(selector.X)
-				if actualType != nil && actualType.String() == t.requiredType {
-					issue := t.processTLSConf(assign, c)
-					if issue != nil {
-						return issue, nil
-					}
-				}
+		if assign, ok := n.(*ast.AssignStmt); ok {
+			issue := t.processTLSConf(assign, c)
+			if issue != nil {
+				return issue, nil
 			}
 		}
 	}
-- 
2.43.0


From 4d72c476ea2b44db0b737d7a8e55dee99960a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 53/84] fix: judge constant TLS settings by their value

---
 rules/tls.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index afb31f5..2a8e73d 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -20,6 +20,7 @@ import (
 	"crypto/tls"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/types"
 	"strconv"
 
@@ -92,7 +93,11 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	if ident, ok := key.(*ast.Ident); ok {
 		switch ident.Name {
 		case "InsecureSkipVerify":
-			if node, ok := value.(*ast.Ident); ok {
+			if cst := c.Info.Types[value].Value; cst != nil && cst.Kind() == constant.Bool {
+				if constant.BoolVal(cst) {
+					return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify set true.", issue.High, issue.High)
+				}
+			} else if node, ok := value.(*ast.Ident); ok {
 				if node.Name != "false" {
 					return c.NewIssue(value, t.ID(), "TLS InsecureSkipVerify set true.", issue.High, issue.High)
 				}
@@ -102,7 +107,11 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 			}
 
 		case "PreferServerCipherSuites":
-			if node, ok := value.(*ast.Ident); ok {
+			if cst := c.Info.Types[value].Value; cst != nil && cst.Kind() == constant.Bool {
+				if !constant.BoolVal(cst) {
+					return c.NewIssue(value, t.ID(), "TLS PreferServerCipherSuites set false.", issue.Medium, issue.High)
+				}
+			} else if node, ok := value.(*ast.Ident); ok {
 				if node.Name == "false" {
 					return c.NewIssue(value, t.ID(), "TLS PreferServerCipherSuites set false.", issue.Medium, issue.High)
 				}
@@ -112,7 +121,9 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 			}
 
 		case "MinVersion":
-			if d, ok := value.(*ast.Ident); ok {
+			if version, ok := constantVersion(value, c); ok {
+				t.actualMinVersion = version
+			} else if d, ok := value.(*ast.Ident); ok {
 				obj := d.Obj
 				if obj == nil {
 					for _, f := range c.PkgFiles {
@@ -166,7 +177,9 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 			}
 
 		case "MaxVersion":
-			if ival, ierr := gosec.GetInt(value); ierr == nil {
+			if version, ok := constantVersion(value, c); ok {
+				t.actualMaxVersion = version
+			} else if ival, ierr := gosec.GetInt(value); ierr == nil {
 				t.actualMaxVersion = ival
 			} else {
 				if se, ok := value.(*ast.SelectorExpr); ok {
@@ -188,6 +201,15 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	return nil
 }
 
+// constantVersion returns the value of a constant expression
+func constantVersion(value ast.Expr, c *gosec.Context) (int64, bool) {
+	cst := c.Info.Types[value].Value
+	if cst == nil || cst.Kind() != constant.Int {
+		return 0, false
+	}
+	return constant.Int64Val(cst)
+}
+
 func (t *insecureConfigTLS) mapVersion(version string) int64 {
 	var v int64
 	switch version {
-- 
2.43.0


From b07d10c744bdbe441259206669d7878e98805897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 54/84] fix: use the value of the TLS version variable itself

---
 rules/tls.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 2a8e73d..e623103 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -141,7 +141,15 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				} else if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
-					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
+					val := vs.Values[0]
+					for i, name := range vs.Names {
+						if name.Name == d.Name && len(vs.Values) == len(vs.Names) {
+							val = vs.Values[i]
+						}
+					}
+					if version, ok := constantVersion(val, c); ok {
+						t.actualMinVersion = version
+					} else if s, ok := val.(*ast.SelectorExpr); ok {
 						x := ""
 						if pkg, ok := s.X.(*ast.Ident); ok {
 							x = pkg.Name
@@ -160,7 +168,7 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 							}
 						}
 					}
-					if ival, ierr := gosec.GetInt(vs.Values[0]); ierr == nil {
+					if ival, ierr := gosec.GetInt(val); ierr == nil {
 						t.actualMinVersion = ival
 					}
 				}
-- 
2.43.0


From 2395dc6d2547ad7183b334ebd84f90cca1329e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:49 +0000
Subject: [PATCH 55/84] fix: do not overflow the stack or hang on variables
 which depend on themselves or often on others

---
 resolve.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/resolve.go b/resolve.go
index a201b8d..c8ae564 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,54 +16,59 @@ package gosec
 
 import "go/ast"
 
-func resolveIdent(n *ast.Ident, c *Context) bool {
+func resolveIdent(n *ast.Ident, c *Context, seen map[*ast.Object]bool) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
+	if resolved, ok := seen[n.Obj]; ok {
+		return resolved
+	}
+	// not resolved as long as it depends on itself, in code which does not compile
+	seen[n.Obj] = false
 	if node, ok := n.Obj.Decl.(ast.Node); ok {
-		return TryResolve(node, c)
+		seen[n.Obj] = tryResolve(node, c, seen)
 	}
-	return false
+	return seen[n.Obj]
 }
 
-func resolveValueSpec(n *ast.ValueSpec, c *Context) bool {
+func resolveValueSpec(n *ast.ValueSpec, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Values) == 0 {
 		return false
 	}
 	for _, value := range n.Values {
-		if !TryResolve(value, c) {
+		if !tryResolve(value, c, seen) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveAssign(n *ast.AssignStmt, c *Context) bool {
+func resolveAssign(n *ast.AssignStmt, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Rhs) == 0 {
 		return false
 	}
 	for _, arg := range n.Rhs {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, seen) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveCompLit(n *ast.CompositeLit, c *Context) bool {
+func resolveCompLit(n *ast.CompositeLit, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Elts) == 0 {
 		return false
 	}
 	for _, arg := range n.Elts {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, seen) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveBinExpr(n *ast.BinaryExpr, c *Context) bool {
-	return (TryResolve(n.X, c) && TryResolve(n.Y, c))
+func resolveBinExpr(n *ast.BinaryExpr, c *Context, seen map[*ast.Object]bool) bool {
+	return (tryResolve(n.X, c, seen) && tryResolve(n.Y, c, seen))
 }
 
 func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
@@ -75,21 +80,26 @@ func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
 func TryResolve(n ast.Node, c *Context) bool {
+	return tryResolve(n, c, map[*ast.Object]bool{})
+}
+
+// tryResolve resolves as TryResolve does; seen holds the variables resolved so far.
+func tryResolve(n ast.Node, c *Context, seen map[*ast.Object]bool) bool {
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
 	case *ast.CompositeLit:
-		return resolveCompLit(node, c)
+		return resolveCompLit(node, c, seen)
 	case *ast.Ident:
-		return resolveIdent(node, c)
+		return resolveIdent(node, c, seen)
 	case *ast.ValueSpec:
-		return resolveValueSpec(node, c)
+		return resolveValueSpec(node, c, seen)
 	case *ast.AssignStmt:
-		return resolveAssign(node, c)
+		return resolveAssign(node, c, seen)
 	case *ast.CallExpr:
 		return resolveCallExpr(node, c)
 	case *ast.BinaryExpr:
-		return resolveBinExpr(node, c)
+		return resolveBinExpr(node, c, seen)
 	}
 	return false
 }
-- 
2.43.0


From dde87ba490369de4af58c80cac3e5ffa9ec8e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 56/84] fix: do not panic on a file creation without arguments

---
 rules/tempfiles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index ac2af08..29f5bab 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -57,7 +57,7 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 }
 
 func (t *badTempFile) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err error) {
-	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
+	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
 		return t.findTempDirArgs(n, c, node.Args[0]), nil
 	}
 	return nil, nil
-- 
2.43.0


From f7f3575eb5af9596a68fc752eb50db176b21bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 57/84] fix: do not build the SSA representation of packages
 with errors

---
 analyzer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 945d545..4dce2e0 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -484,6 +484,12 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 
 // CheckAnalyzers runs analyzers on a given package.
 func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
+	// The SSA representation is only defined for well typed packages, building it for others
+	// can overflow the stack.
+	if pkg.IllTyped {
+		gosec.logger.Printf("Skipping the SSA representation of the package %q because of its errors", pkg.Name)
+		return
+	}
 	ssaResult, err := gosec.buildSSA(pkg)
 	if err != nil || ssaResult == nil {
 		gosec.logger.Printf("Error building the SSA representation of the package %q: %s", pkg.Name, err)
-- 
2.43.0


From 29313bcd2e9b5d7f3a481cd9af11604e135abd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 58/84] fix: do not panic on calls without the arguments they
 need

---
 rules/fileperms.go | 2 +-
 rules/sql.go       | 3 +++
 rules/subproc.go   | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rules/fileperms.go b/rules/fileperms.go
index 8ee9c0f..0e897b1 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -63,7 +63,7 @@ func modeIsSubset(subset int64, superset int64) bool {
 // Match checks if the rule is matched.
 func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	for _, pkg := range r.pkgs {
-		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
+		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched && len(callexpr.Args) > 0 {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
 			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg, c) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..fc090a3 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -291,6 +291,9 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		if sel, ok := node.Fun.(*ast.SelectorExpr); ok {
 			if sel.Sel.Name == "Fprintf" {
 				// if os.Stderr or os.Stdout is in Arg[0], mark as no issue
+				if len(node.Args) < 2 {
+					return nil
+				}
 				if arg, ok := node.Args[0].(*ast.SelectorExpr); ok {
 					if ident, ok := arg.X.(*ast.Ident); ok {
 						if s.noIssue.Contains(ident.Name, arg.Sel.Name) {
diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..1686319 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -43,7 +43,7 @@ func (r *subprocess) ID() string {
 func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		args := node.Args
-		if r.isContext(n, c) {
+		if r.isContext(n, c) && len(args) > 0 {
 			args = args[1:]
 		}
 		for _, arg := range args {
-- 
2.43.0


From 656f4de520aeb6347cf50ea443006f1d39765576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 59/84] fix: reject a global configuration which is no object
 and keep numbers as given

---
 config.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/config.go b/config.go
index 65cfd85..b1ca1fa 100644
--- a/config.go
+++ b/config.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 )
 
@@ -55,16 +56,25 @@ func (c Config) keyToGlobalOptions(key string) GlobalOption {
 	return GlobalOption(key)
 }
 
-func (c Config) convertGlobals() {
-	if globals, ok := c[Globals]; ok {
-		if settings, ok := globals.(map[string]interface{}); ok {
-			validGlobals := map[GlobalOption]string{}
-			for k, v := range settings {
-				validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
-			}
-			c[Globals] = validGlobals
+// convertGlobals gives the global section the type which the global options are read and set with.
+func (c Config) convertGlobals() error {
+	globals, ok := c[Globals]
+	if !ok {
+		return nil
+	}
+	settings, ok := globals.(map[string]interface{})
+	if !ok && globals != nil {
+		return fmt.Errorf("section %s of the configuration is not an object", Globals)
+	}
+	validGlobals := map[GlobalOption]string{}
+	for k, v := range settings {
+		if number, ok := v.(float64); ok {
+			v = strconv.FormatFloat(number, 'f', -1, 64)
 		}
+		validGlobals[c.keyToGlobalOptions(k)] = fmt.Sprintf("%v", v)
 	}
+	c[Globals] = validGlobals
+	return nil
 }
 
 // ReadFrom implements the io.ReaderFrom interface. This
@@ -75,10 +85,16 @@ func (c Config) ReadFrom(r io.Reader) (int64, error) {
 	if err != nil {
 		return int64(len(data)), err
 	}
-	if err = json.Unmarshal(data, &c); err != nil {
+	read := make(Config)
+	if err = json.Unmarshal(data, &read); err != nil {
 		return int64(len(data)), err
 	}
-	c.convertGlobals()
+	if err = read.convertGlobals(); err != nil {
+		return int64(len(data)), err
+	}
+	for section, settings := range read {
+		c[section] = settings
+	}
 	return int64(len(data)), nil
 }
 
-- 
2.43.0


From 0795927fa6274c7365eadb1a391f3fa42e45453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 60/84] fix: judge each assigned credential by its own value
 and take a negative truncation as none

---
 rules/hardcoded_credentials.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c102982..424efd2 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -197,7 +197,7 @@ func (r *credentials) ID() string {
 }
 
 func truncate(s string, n int) string {
-	if n > len(s) {
+	if n > len(s) || n < 0 {
 		return s
 	}
 	return s[:n]
@@ -234,11 +234,14 @@ func (r *credentials) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error
 }
 
 func (r *credentials) matchAssign(assign *ast.AssignStmt, ctx *gosec.Context) (*issue.Issue, error) {
-	for _, i := range assign.Lhs {
+	for index, i := range assign.Lhs {
 		if ident, ok := i.(*ast.Ident); ok {
 			// First check LHS to find anything being assigned to variables whose name appears to be a cred
 			if r.pattern.MatchString(ident.Name) {
-				for _, e := range assign.Rhs {
+				for valueIndex, e := range assign.Rhs {
+					if len(assign.Rhs) == len(assign.Lhs) && valueIndex != index {
+						continue // the value of another variable
+					}
 					if val, err := gosec.GetString(e); err == nil {
 						if r.ignoreEntropy || (!r.ignoreEntropy && r.isHighEntropyString(val)) {
 							return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
-- 
2.43.0


From faf870ff2b7381b03002b0bcef630a0dc0b889d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 61/84] fix: judge integer conversions by the comparisons on
 the ways which lead to them

---
 analyzers/conversion_overflow.go | 556 ++++++++++++++-----------------
 1 file changed, 259 insertions(+), 297 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..8ae5c6d 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -15,13 +15,12 @@
 package analyzers
 
 import (
-	"cmp"
 	"fmt"
+	"go/constant"
 	"go/token"
-	"math"
+	"go/types"
 	"regexp"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -37,21 +36,9 @@ type integer struct {
 	max    uint
 }
 
-type rangeResult struct {
-	minValue             int
-	maxValue             uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	isRangeCheck         bool
-	convertFound         bool
-}
-
-type branchResults struct {
-	minValue             *int
-	maxValue             *uint
-	explicitPositiveVals []uint
-	explicitNegativeVals []int
-	convertFound         bool
+// valueRange holds the smallest and the largest value which an integer can have.
+type valueRange struct {
+	min, max constant.Value
 }
 
 func newConversionOverflowAnalyzer(id string, description string) *analysis.Analyzer {
@@ -192,8 +179,11 @@ func isSafeConversion(instr *ssa.Convert) bool {
 }
 
 func isConstantInRange(constVal *ssa.Const, dstType string) bool {
-	value, err := strconv.ParseInt(constVal.Value.String(), 10, 64)
-	if err != nil {
+	if constVal.Value == nil {
+		return false
+	}
+	value := constant.ToInt(constVal.Value)
+	if value.Kind() != constant.Int {
 		return false
 	}
 
@@ -202,302 +192,307 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 		return false
 	}
 
-	if dstInt.signed {
-		return value >= -(1<<(dstInt.size-1)) && value <= (1<<(dstInt.size-1))-1
-	}
-	return value >= 0 && value <= (1<<dstInt.size)-1
+	return valueRange{value, value}.within(dstInt)
 }
 
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
-	// Traverse the SSA instructions to find the original variable.
-	original := instr.X
-	for {
-		switch v := original.(type) {
-		case *ssa.Call:
-			if v.Call.StaticCallee() != nil && (v.Call.StaticCallee().Name() == "ParseInt" || v.Call.StaticCallee().Name() == "ParseUint") {
-				if len(v.Call.Args) == 3 {
-					if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
-						signed := v.Call.StaticCallee().Name() == "ParseInt"
-						bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
-						if err != nil {
-							return false
-						}
-						dstInt, err := parseIntType(dstType)
-						if err != nil {
-							return false
-						}
+	dstInt, err := parseIntType(dstType)
+	if err != nil {
+		return false
+	}
+	return isParsedInRange(instr.X, dstInt, make(map[ssa.Value]bool))
+}
 
-						// we're good if:
-						// - signs match and bit size is <= than destination
-						// - parsing unsigned and bit size is < than destination
-						isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
-							(bitSizeValue < dstInt.size && !signed)
-						return isSafe
-					}
+// isParsedInRange traverses the SSA instructions to find whether all values which a variable can
+// have are the results of parsing strings to integers of a suitable size.
+func isParsedInRange(original ssa.Value, dstInt integer, visited map[ssa.Value]bool) bool {
+	if visited[original] {
+		return true
+	}
+	visited[original] = true
+
+	switch v := original.(type) {
+	case *ssa.Call:
+		callee := v.Call.StaticCallee()
+		if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "strconv" {
+			return false
+		}
+		signed := callee.Name() == "ParseInt"
+		if (signed || callee.Name() == "ParseUint") && len(v.Call.Args) == 3 {
+			if bitSize, ok := v.Call.Args[2].(*ssa.Const); ok {
+				bitSizeValue, err := strconv.Atoi(bitSize.Value.String())
+				if err != nil {
+					return false
+				}
+				if bitSizeValue == 0 {
+					bitSizeValue = strconv.IntSize
 				}
+
+				// we're good if:
+				// - signs match and bit size is <= than destination
+				// - parsing unsigned and bit size is < than destination
+				isSafe := (bitSizeValue <= dstInt.size && signed == dstInt.signed) ||
+					(bitSizeValue < dstInt.size && !signed)
+				return isSafe
+			}
+		}
+		return false
+	case *ssa.Phi:
+		for _, edge := range v.Edges {
+			if !isParsedInRange(edge, dstInt, visited) {
+				return false
 			}
-			return false
-		case *ssa.Phi:
-			original = v.Edges[0]
-		case *ssa.Extract:
-			original = v.Tuple
-		default:
-			return false
 		}
+		return true
+	case *ssa.Extract:
+		return v.Index == 0 && isParsedInRange(v.Tuple, dstInt, visited)
+	case *ssa.Const:
+		return v.Value != nil && v.Value.Kind() == constant.Int && valueRange{v.Value, v.Value}.within(dstInt)
+	default:
+		return false
 	}
 }
 
+// hasExplicitRangeCheck checks whether the comparisons with constants on all ways which lead to the
+// conversion confine the value to the range of the destination type.
 func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
 	dstInt, err := parseIntType(dstType)
 	if err != nil {
 		return false
 	}
 
-	srcInt, err := parseIntType(instr.X.Type().String())
+	srcInt, err := parseIntType(instr.X.Type().Underlying().String())
 	if err != nil {
 		return false
 	}
 
-	minValue := srcInt.min
-	maxValue := srcInt.max
-	explicitPositiveVals := []uint{}
-	explicitNegativeVals := []int{}
-
-	if minValue > dstInt.min && maxValue < dstInt.max {
-		return true
-	}
+	full := valueRange{min: constant.MakeInt64(int64(srcInt.min)), max: constant.MakeUint64(uint64(srcInt.max))}
+	value, op := getRealValueFromOperation(instr.X)
 
-	visitedIfs := make(map[*ssa.If]bool)
-	for _, block := range instr.Parent().Blocks {
-		for _, blockInstr := range block.Instrs {
-			switch v := blockInstr.(type) {
-			case *ssa.If:
-				result := getResultRange(v, instr, visitedIfs)
-				if result.isRangeCheck {
-					minValue = max(minValue, result.minValue)
-					maxValue = min(maxValue, result.maxValue)
-					explicitPositiveVals = append(explicitPositiveVals, result.explicitPositiveVals...)
-					explicitNegativeVals = append(explicitNegativeVals, result.explicitNegativeVals...)
-				}
-			case *ssa.Call:
-				// These function return an int of a guaranteed size.
-				if v != instr.X {
-					continue
-				}
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin {
-					switch fn.Name() {
-					case "len", "cap":
-						minValue = 0
-					}
-				}
-			}
-
-			if explicitValsInRange(explicitPositiveVals, explicitNegativeVals, dstInt) {
-				return true
-			} else if minValue >= dstInt.min && maxValue <= dstInt.max {
-				return true
-			}
+	// These functions return an int of a guaranteed size.
+	if call, ok := value.(*ssa.Call); ok {
+		if fn, isBuiltin := call.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
+			full.min = constant.MakeInt64(0)
 		}
 	}
-	return false
-}
 
-// getResultRange is a recursive function that walks the branches of the if statement to find the range of the variable.
-func getResultRange(ifInstr *ssa.If, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) rangeResult {
-	if visitedIfs[ifInstr] {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
+	result, reached := rangeInBlock(value, full, instr.Block())
+	if !reached {
+		return true
 	}
-	visitedIfs[ifInstr] = true
-
-	cond := ifInstr.Cond
-	binOp, ok := cond.(*ssa.BinOp)
-	if !ok || !isRangeCheck(binOp, instr.X) {
-		return rangeResult{minValue: math.MinInt, maxValue: math.MaxUint}
+	if isStoredBefore(value, instr.Block(), instr) {
+		result = full
 	}
-
-	result := rangeResult{
-		minValue:     math.MinInt,
-		maxValue:     math.MaxUint,
-		isRangeCheck: true,
+	if op == "neg" {
+		result = valueRange{
+			min: constant.UnaryOp(token.SUB, result.max, 0),
+			max: constant.UnaryOp(token.SUB, result.min, 0),
+		}
 	}
+	return result.within(dstInt)
+}
 
-	thenBounds := walkBranchForConvert(ifInstr.Block().Succs[0], instr, visitedIfs)
-	elseBounds := walkBranchForConvert(ifInstr.Block().Succs[1], instr, visitedIfs)
-
-	updateResultFromBinOp(&result, binOp, instr, thenBounds.convertFound)
-
-	if thenBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, thenBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, thenBounds.maxValue)
-	} else if elseBounds.convertFound {
-		result.convertFound = true
-		result.minValue = maxWithPtr(result.minValue, elseBounds.minValue)
-		result.maxValue = minWithPtr(result.maxValue, elseBounds.maxValue)
+// rangeInBlock follows all ways through the function from where the value comes from to the block,
+// and returns the range of the values with which the block can be reached.
+func rangeInBlock(value ssa.Value, full valueRange, block *ssa.BasicBlock) (valueRange, bool) {
+	start := block.Parent().Blocks[0]
+	if instr, ok := value.(ssa.Instruction); ok && !isAddress(value) {
+		start = instr.Block()
+	}
+
+	ranges := map[*ssa.BasicBlock]valueRange{start: full}
+	queue := []*ssa.BasicBlock{start}
+	for len(queue) > 0 {
+		from := queue[0]
+		queue = queue[1:]
+		if neverReturns(from) {
+			continue
+		}
+		before := ranges[from]
+		if isStoredBefore(value, from, nil) {
+			before = full
+		}
+		for branch, to := range from.Succs {
+			if to == start {
+				continue
+			}
+			next, possible := before.constrain(from, branch, value)
+			if !possible {
+				continue
+			}
+			known, ok := ranges[to]
+			if ok {
+				next.min = minConst(next.min, known.min)
+				next.max = maxConst(next.max, known.max)
+				if constant.Compare(next.min, token.EQL, known.min) && constant.Compare(next.max, token.EQL, known.max) {
+					continue
+				}
+			}
+			ranges[to] = next
+			queue = append(queue, to)
+		}
 	}
 
-	result.explicitPositiveVals = append(result.explicitPositiveVals, thenBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, thenBounds.explicitNegativeVals...)
-	result.explicitPositiveVals = append(result.explicitPositiveVals, elseBounds.explicitPositiveVals...)
-	result.explicitNegativeVals = append(result.explicitNegativeVals, elseBounds.explicitNegativeVals...)
-
-	return result
+	result, reached := ranges[block]
+	return result, reached
 }
 
-// updateResultFromBinOp updates the rangeResult based on the BinOp instruction and the location of the Convert instruction.
-func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Convert, successPathConvert bool) {
-	x, y := binOp.X, binOp.Y
-	operandsFlipped := false
-
-	compareVal, op := getRealValueFromOperation(instr.X)
-
-	// Handle FieldAddr
-	if fieldAddr, ok := compareVal.(*ssa.FieldAddr); ok {
-		compareVal = fieldAddr
+// isStoredBefore checks if the block stores to the place in memory of which the value is loaded, before
+// the instruction, or at all if there is none.
+func isStoredBefore(value ssa.Value, block *ssa.BasicBlock, instr ssa.Instruction) bool {
+	for _, blockInstr := range block.Instrs {
+		if blockInstr == instr {
+			return false
+		}
+		if store, ok := blockInstr.(*ssa.Store); ok && isAddress(value) && isSameOrRelated(store.Addr, value) {
+			return true
+		}
 	}
+	return false
+}
 
-	if !isSameOrRelated(x, compareVal) {
-		y = x
-		operandsFlipped = true
+// neverReturns checks if the block calls a function which ends the program or the goroutine.
+func neverReturns(block *ssa.BasicBlock) bool {
+	for _, instr := range block.Instrs {
+		call, ok := instr.(*ssa.Call)
+		if !ok {
+			continue
+		}
+		if callee := call.Call.StaticCallee(); callee != nil {
+			switch callee.String() {
+			case "os.Exit", "runtime.Goexit",
+				"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln",
+				"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln",
+				"(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln":
+				return true
+			}
+		}
 	}
+	return false
+}
 
-	constVal, ok := y.(*ssa.Const)
+// constrain returns the part of the range with which a branch of the block is taken, and whether it can be taken.
+func (r valueRange) constrain(block *ssa.BasicBlock, branch int, value ssa.Value) (valueRange, bool) {
+	ifInstr, ok := block.Instrs[len(block.Instrs)-1].(*ssa.If)
 	if !ok {
-		return
+		return r, true
 	}
-	// TODO: constVal.Value nil check avoids #1229 panic but seems to be hiding a bug in the code above or in x/tools/go/ssa.
-	if constVal.Value == nil {
-		// log.Fatalf("[gosec] constVal.Value is nil flipped=%t, constVal=%#v, binOp=%#v", operandsFlipped, constVal, binOp)
-		return
-	}
-	switch binOp.Op {
-	case token.LEQ, token.LSS:
-		updateMinMaxForLessOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
-	case token.GEQ, token.GTR:
-		updateMinMaxForGreaterOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
+	binOp, ok := ifInstr.Cond.(*ssa.BinOp)
+	if !ok {
+		return r, true
+	}
+	op, operand, other := binOp.Op, binOp.X, binOp.Y
+	if _, ok := operand.(*ssa.Const); ok {
+		op, operand, other = flip(op), other, operand
+	}
+	constVal, ok := other.(*ssa.Const)
+	if !ok || constVal.Value == nil || constVal.Value.Kind() != constant.Int || !isSameOrRelated(operand, value) {
+		return r, true
+	}
+	bound := constVal.Value
+	if _, sign := getRealValueFromOperation(operand); sign == "neg" {
+		op, bound = flip(op), constant.UnaryOp(token.SUB, bound, 0)
+	}
+	if branch == 1 {
+		op = negate(op)
+	}
+
+	one := constant.MakeInt64(1)
+	switch op {
+	case token.LSS:
+		r.max = minConst(r.max, constant.BinaryOp(bound, token.SUB, one))
+	case token.LEQ:
+		r.max = minConst(r.max, bound)
+	case token.GTR:
+		r.min = maxConst(r.min, constant.BinaryOp(bound, token.ADD, one))
+	case token.GEQ:
+		r.min = maxConst(r.min, bound)
 	case token.EQL:
-		if !successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
+		r.min, r.max = maxConst(r.min, bound), minConst(r.max, bound)
 	case token.NEQ:
-		if successPathConvert {
-			break
-		}
-		updateExplicitValues(result, constVal)
-	}
-
-	if op == "neg" {
-		minVal := result.minValue
-		maxVal := result.maxValue
-
-		if minVal >= 0 {
-			result.maxValue = uint(minVal)
+		if constant.Compare(r.min, token.EQL, bound) {
+			r.min = constant.BinaryOp(bound, token.ADD, one)
 		}
-		if maxVal <= math.MaxInt {
-			result.minValue = int(maxVal)
+		if constant.Compare(r.max, token.EQL, bound) {
+			r.max = constant.BinaryOp(bound, token.SUB, one)
 		}
 	}
+	return r, constant.Compare(r.min, token.LEQ, r.max)
 }
 
-func updateExplicitValues(result *rangeResult, constVal *ssa.Const) {
-	if strings.Contains(constVal.String(), "-") {
-		result.explicitNegativeVals = append(result.explicitNegativeVals, int(constVal.Int64()))
-	} else {
-		result.explicitPositiveVals = append(result.explicitPositiveVals, uint(constVal.Uint64()))
-	}
+// within checks if the integer type can represent all values of the range.
+func (r valueRange) within(dstInt integer) bool {
+	return constant.Compare(r.min, token.GEQ, constant.MakeInt64(int64(dstInt.min))) &&
+		constant.Compare(r.max, token.LEQ, constant.MakeUint64(uint64(dstInt.max)))
 }
 
-func updateMinMaxForLessOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the maximum value.
-	if successPathConvert && !operandsFlipped {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LEQ {
-			result.maxValue--
-		}
-	} else {
-		result.minValue = int(constVal.Int64())
-		if op == token.GTR {
-			result.minValue++
-		}
-	}
+// flip returns the operator for exchanged (or negated) operands.
+func flip(op token.Token) token.Token {
+	switch op {
+	case token.LSS:
+		return token.GTR
+	case token.LEQ:
+		return token.GEQ
+	case token.GTR:
+		return token.LSS
+	case token.GEQ:
+		return token.LEQ
+	}
+	return op
 }
 
-func updateMinMaxForGreaterOrEqual(result *rangeResult, constVal *ssa.Const, op token.Token, operandsFlipped bool, successPathConvert bool) {
-	// If the success path has a conversion and the operands are not flipped, then the constant value is the minimum value.
-	if successPathConvert && !operandsFlipped {
-		result.minValue = int(constVal.Int64())
-		if op == token.GEQ {
-			result.minValue++
-		}
-	} else {
-		result.maxValue = uint(constVal.Uint64())
-		if op == token.LSS {
-			result.maxValue--
-		}
+// negate returns the operator which holds when the other does not.
+func negate(op token.Token) token.Token {
+	switch op {
+	case token.LSS:
+		return token.GEQ
+	case token.LEQ:
+		return token.GTR
+	case token.GTR:
+		return token.LEQ
+	case token.GEQ:
+		return token.LSS
+	case token.EQL:
+		return token.NEQ
+	case token.NEQ:
+		return token.EQL
 	}
+	return token.ILLEGAL
 }
 
-// walkBranchForConvert walks the branch of the if statement to find the range of the variable and where the conversion is.
-func walkBranchForConvert(block *ssa.BasicBlock, instr *ssa.Convert, visitedIfs map[*ssa.If]bool) branchResults {
-	bounds := branchResults{}
-
-	for _, blockInstr := range block.Instrs {
-		switch v := blockInstr.(type) {
-		case *ssa.If:
-			result := getResultRange(v, instr, visitedIfs)
-			bounds.convertFound = bounds.convertFound || result.convertFound
-
-			if result.isRangeCheck {
-				bounds.minValue = toPtr(maxWithPtr(result.minValue, bounds.minValue))
-				bounds.maxValue = toPtr(minWithPtr(result.maxValue, bounds.maxValue))
-				bounds.explicitPositiveVals = append(bounds.explicitPositiveVals, result.explicitPositiveVals...)
-				bounds.explicitNegativeVals = append(bounds.explicitNegativeVals, result.explicitNegativeVals...)
-			}
-		case *ssa.Call:
-			if v == instr.X {
-				if fn, isBuiltin := v.Call.Value.(*ssa.Builtin); isBuiltin && (fn.Name() == "len" || fn.Name() == "cap") {
-					bounds.minValue = toPtr(0)
-				}
-			}
-		case *ssa.Convert:
-			if v == instr {
-				bounds.convertFound = true
-				return bounds
-			}
-		}
+func minConst(a, b constant.Value) constant.Value {
+	if constant.Compare(a, token.LEQ, b) {
+		return a
 	}
-
-	return bounds
+	return b
 }
 
-func isRangeCheck(v ssa.Value, x ssa.Value) bool {
-	compareVal, _ := getRealValueFromOperation(x)
-
-	switch op := v.(type) {
-	case *ssa.BinOp:
-		switch op.Op {
-		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
-			leftMatch := isSameOrRelated(op.X, compareVal)
-			rightMatch := isSameOrRelated(op.Y, compareVal)
-			return leftMatch || rightMatch
-		}
+func maxConst(a, b constant.Value) constant.Value {
+	if constant.Compare(a, token.GEQ, b) {
+		return a
 	}
-	return false
+	return b
 }
 
+// isAddress checks if the value is a place in memory of which the integer is loaded.
+func isAddress(v ssa.Value) bool {
+	_, ok := v.Type().Underlying().(*types.Pointer)
+	return ok
+}
+
+// getRealValueFromOperation returns the value, or the place in memory, of which the operations negate or load.
 func getRealValueFromOperation(v ssa.Value) (ssa.Value, string) {
-	switch v := v.(type) {
-	case *ssa.UnOp:
-		if v.Op == token.SUB {
-			val, _ := getRealValueFromOperation(v.X)
+	if unOp, ok := v.(*ssa.UnOp); ok {
+		val, op := getRealValueFromOperation(unOp.X)
+		switch unOp.Op {
+		case token.MUL:
+			return val, op
+		case token.SUB:
+			if op == "neg" {
+				return val, ""
+			}
 			return val, "neg"
 		}
-		return getRealValueFromOperation(v.X)
-	case *ssa.FieldAddr:
-		return v, "field"
-	case *ssa.Alloc:
-		return v, "alloc"
 	}
 	return v, ""
 }
@@ -510,50 +505,17 @@ func isSameOrRelated(a, b ssa.Value) bool {
 		return true
 	}
 
-	// Check if both are FieldAddr operations referring to the same field of the same struct
-	if aField, aOk := aVal.(*ssa.FieldAddr); aOk {
-		if bField, bOk := bVal.(*ssa.FieldAddr); bOk {
-			return aField.X == bField.X && aField.Field == bField.Field
-		}
-	}
-
-	return false
-}
-
-func explicitValsInRange(explicitPosVals []uint, explicitNegVals []int, dstInt integer) bool {
-	if len(explicitPosVals) == 0 && len(explicitNegVals) == 0 {
-		return false
-	}
-
-	for _, val := range explicitPosVals {
-		if val > dstInt.max {
-			return false
+	// Check if both refer to the same field of the same struct
+	switch aField := aVal.(type) {
+	case *ssa.FieldAddr:
+		if bField, ok := bVal.(*ssa.FieldAddr); ok {
+			return aField.Field == bField.Field && isSameOrRelated(aField.X, bField.X)
 		}
-	}
-
-	for _, val := range explicitNegVals {
-		if val < dstInt.min {
-			return false
+	case *ssa.Field:
+		if bField, ok := bVal.(*ssa.Field); ok {
+			return aField.Field == bField.Field && isSameOrRelated(aField.X, bField.X)
 		}
 	}
 
-	return true
-}
-
-func minWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
-		return a
-	}
-	return min(a, *b)
-}
-
-func maxWithPtr[T cmp.Ordered](a T, b *T) T {
-	if b == nil {
-		return a
-	}
-	return max(a, *b)
-}
-
-func toPtr[T any](a T) *T {
-	return &a
+	return false
 }
-- 
2.43.0


From 38b5089c15d5d9706064306d937660b26686ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 62/84] fix: run the data-flow analyses on package initializers
 too

---
 analyzer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 4dce2e0..9e547bc 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -38,6 +38,7 @@ import (
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
 	"golang.org/x/tools/go/packages"
+	"golang.org/x/tools/go/ssa"
 
 	"github.com/securego/gosec/v2/analyzers"
 	"github.com/securego/gosec/v2/issue"
@@ -496,11 +497,17 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		return
 	}
 
+	ssaInfo := ssaResult.(*buildssa.SSA)
+	// The functions found do not include the initializer of the package variables, and the literals in it.
+	if initializer := ssaInfo.Pkg.Func("init"); initializer != nil {
+		ssaInfo.SrcFuncs = appendFunctions(ssaInfo.SrcFuncs, initializer)
+	}
+
 	resultMap := map[*analysis.Analyzer]interface{}{
 		buildssa.Analyzer: &analyzers.SSAAnalyzerResult{
 			Config: gosec.Config(),
 			Logger: gosec.logger,
-			SSA:    ssaResult.(*buildssa.SSA),
+			SSA:    ssaInfo,
 		},
 	}
 
@@ -594,6 +601,15 @@ func (gosec *Analyzer) buildSSA(pkg *packages.Package) (interface{}, error) {
 	return ssaPass.Analyzer.Run(ssaPass)
 }
 
+// appendFunctions appends the function and the function literals in it.
+func appendFunctions(functions []*ssa.Function, function *ssa.Function) []*ssa.Function {
+	functions = append(functions, function)
+	for _, literal := range function.AnonFuncs {
+		functions = appendFunctions(functions, literal)
+	}
+	return functions
+}
+
 // ParseErrors parses the errors from given package
 func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 	if len(pkg.Errors) == 0 {
-- 
2.43.0


From 306cc8ec261de43e6998636ebcac4807da63e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 63/84] fix: report conversions from and to byte and rune like
 those of the types they stand for

---
 analyzers/conversion_overflow.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 8ae5c6d..dca66af 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -62,8 +62,8 @@ func runConversionOverflow(pass *analysis.Pass) (interface{}, error) {
 			for _, instr := range block.Instrs {
 				switch instr := instr.(type) {
 				case *ssa.Convert:
-					src := instr.X.Type().Underlying().String()
-					dst := instr.Type().Underlying().String()
+					src := intTypeName(instr.X.Type())
+					dst := intTypeName(instr.Type())
 					if isIntOverflow(src, dst) {
 						if isSafeConversion(instr) {
 							continue
@@ -88,6 +88,14 @@ func runConversionOverflow(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
+// intTypeName returns the name of the underlying type, which is the same for byte and uint8, and for rune and int32.
+func intTypeName(t types.Type) string {
+	if basic, ok := t.Underlying().(*types.Basic); ok {
+		return types.Typ[basic.Kind()].String()
+	}
+	return t.Underlying().String()
+}
+
 func isIntOverflow(src string, dst string) bool {
 	srcInt, err := parseIntType(src)
 	if err != nil {
@@ -156,7 +164,7 @@ func parseIntType(intType string) (integer, error) {
 }
 
 func isSafeConversion(instr *ssa.Convert) bool {
-	dstType := instr.Type().Underlying().String()
+	dstType := intTypeName(instr.Type())
 
 	// Check for constant conversions.
 	if constVal, ok := instr.X.(*ssa.Const); ok {
@@ -261,7 +269,7 @@ func hasExplicitRangeCheck(instr *ssa.Convert, dstType string) bool {
 		return false
 	}
 
-	srcInt, err := parseIntType(instr.X.Type().Underlying().String())
+	srcInt, err := parseIntType(intTypeName(instr.X.Type()))
 	if err != nil {
 		return false
 	}
-- 
2.43.0


From 50358b27afe3d3da9fc4043a177f9e62fe6791b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:09 +0000
Subject: [PATCH 64/84] fix: report the nonces which are fixed, and not those
 filled from the random source

---
 analyzers/hardcoded_nonce.go | 258 ++++++++++++++++++++++++++---------
 1 file changed, 196 insertions(+), 62 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index cbcec23..982494c 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -20,7 +20,6 @@ import (
 	"go/token"
 	"maps"
 	"slices"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -67,7 +66,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", make(map[*ssa.Parameter]bool))
+		i, err := raiseIssue(*arg, *arg, calls, ssaPkgFunctions, pass, "", make(map[ssa.Value]bool))
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -76,49 +75,60 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 	return issues, nil
 }
 
-func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string, visited map[*ssa.Parameter]bool,
+// raiseIssue raises issues for the calls of the tracked functions with the argument, if the value it can have is a hardcoded one.
+func raiseIssue(val ssa.Value, arg ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
+	pass *analysis.Pass, issueDescription string, visited map[ssa.Value]bool,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
 	}
+	if isFilledWithRandom(val, make(map[ssa.Value]bool)) {
+		return nil, nil
+	}
 	var err error
 	var allIssues []*issue.Issue
 	var issues []*issue.Issue
 	switch valType := (val).(type) {
-	case *ssa.Slice:
+	case *ssa.Slice, *ssa.MakeSlice:
 		issueDescription += " by passing hardcoded slice/array"
-		issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
+		issues, err = iterateThroughReferrers(arg, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
 		allIssues = append(allIssues, issues...)
 	case *ssa.UnOp:
 		// Check if it's a dereference operation (a.k.a pointer)
 		if valType.Op == token.MUL {
 			issueDescription += " by passing pointer which points to hardcoded variable"
-			issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Low)
+			issues, err = iterateThroughReferrers(arg, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Low)
 			allIssues = append(allIssues, issues...)
 		}
-	// When the value assigned to a variable is a function call.
-	// It goes and check if this function contains call to crypto/rand.Read
-	// in it's body(Assuming that calling crypto/rand.Read in a function,
-	// is used for the generation of nonce/iv )
-	case *ssa.Call:
-		if callValue := valType.Call.Value; callValue != nil {
-			if calledFunction, ok := callValue.(*ssa.Function); ok {
-				if contains, funcErr := isFuncContainsCryptoRand(calledFunction); !contains && funcErr == nil {
-					issueDescription += " by passing a value from function which doesn't use crypto/rand"
-					issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Medium)
-					allIssues = append(allIssues, issues...)
-				} else if funcErr != nil {
-					err = funcErr
-				}
+	case *ssa.ChangeType:
+		return raiseIssue(valType.X, arg, funcsToTrack, ssaFuncs, pass, issueDescription, visited)
+	// The value depends on the way taken, it is enough if one of them is hardcoded.
+	case *ssa.Phi:
+		if visited[valType] {
+			return nil, nil
+		}
+		visited[valType] = true
+		for _, edge := range valType.Edges {
+			issues, err = raiseIssue(edge, arg, funcsToTrack, ssaFuncs, pass, issueDescription, visited)
+			if len(issues) > 0 || err != nil {
+				return issues, err
 			}
 		}
+	// When the value assigned to a variable is a function call, and this function
+	// does not contain a call to crypto/rand.Read in its body, which was checked above
+	// (assuming that calling crypto/rand.Read in a function, is used for the generation of nonce/iv)
+	case *ssa.Call:
+		if calledFunction := valType.Call.StaticCallee(); calledFunction != nil {
+			issueDescription += " by passing a value from function which doesn't use crypto/rand"
+			issues, err = iterateThroughReferrers(arg, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.Medium)
+			allIssues = append(allIssues, issues...)
+		}
 	// only checks from strings->[]byte
 	// might need to add additional types
 	case *ssa.Convert:
-		if valType.Type().String() == "[]byte" && valType.X.Type().String() == "string" {
+		if valType.Type().Underlying().String() == "[]byte" && valType.X.Type().Underlying().String() == "string" {
 			issueDescription += " by passing converted string"
-			issues, err = iterateThroughReferrers(val, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
+			issues, err = iterateThroughReferrers(arg, funcsToTrack, pass.Analyzer.Name, issueDescription, pass.Fset, issue.High)
 			allIssues = append(allIssues, issues...)
 		}
 	case *ssa.Parameter:
@@ -146,7 +156,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, visited)
+				issues, err = raiseIssue(*arg, *arg, trackedFunctions, ssaFuncs, pass, issueDescription, visited)
 				allIssues = append(allIssues, issues...)
 			}
 		}
@@ -167,40 +177,157 @@ func iterateThroughReferrers(variable ssa.Value, funcsToTrack map[string][]int,
 	if refs == nil {
 		return gosecIssues, nil
 	}
-	// Go through all functions that use the given arg variable
+	// Go through all calls of the functions we are interested in, that use the given arg variable
 	for _, ref := range *refs {
-		// Iterate through the functions we are interested
-		for trackedFunc := range funcsToTrack {
+		if call, ok := ref.(ssa.CallInstruction); ok && slices.Contains(trackedArgs(call.Common(), funcsToTrack), variable) {
+			gosecIssues = append(gosecIssues, newIssue(analyzerID, issueDescription, fileSet, ref.Pos(), issue.High, issueConfidence))
+		}
+	}
+	return gosecIssues, nil
+}
+
+// isFilledWithRandom checks whether the place in memory, which the value is or refers to, is filled with random bytes.
+func isFilledWithRandom(val ssa.Value, visited map[ssa.Value]bool) bool {
+	if visited[val] {
+		return false
+	}
+	visited[val] = true
+
+	// other values which refer to the same place
+	var related []ssa.Value
+	switch v := val.(type) {
+	case *ssa.Slice:
+		related = append(related, v.X)
+	case *ssa.ChangeType:
+		related = append(related, v.X)
+	case *ssa.UnOp:
+		related = append(related, v.X)
+	case *ssa.FieldAddr:
+		if refs := v.X.Referrers(); refs != nil {
+			for _, ref := range *refs {
+				if other, ok := ref.(*ssa.FieldAddr); ok && other.Field == v.Field {
+					related = append(related, other)
+				}
+			}
+		}
+	case *ssa.FreeVar:
+		related = append(related, boundValues(v)...)
+	case *ssa.Call:
+		if isFuncContainsCryptoRand(v.Call.StaticCallee(), make(map[*ssa.Function]bool)) {
+			return true
+		}
+	}
 
-			// Split the functions we are interested in, by the '.' because we will use the function name to do the comparison
-			// MIGHT GIVE SOME FALSE POSITIVES THIS WAY
-			trackedFuncParts := strings.Split(trackedFunc, ".")
-			trackedFuncPartsName := trackedFuncParts[len(trackedFuncParts)-1]
-			if strings.Contains(ref.String(), trackedFuncPartsName) {
-				gosecIssues = append(gosecIssues, newIssue(analyzerID, issueDescription, fileSet, ref.Pos(), issue.High, issueConfidence))
+	if refs := val.Referrers(); refs != nil {
+		for _, ref := range *refs {
+			switch r := ref.(type) {
+			case *ssa.Slice:
+				related = append(related, r)
+			case *ssa.ChangeType:
+				related = append(related, r)
+			case *ssa.UnOp:
+				related = append(related, r)
+			case *ssa.Store:
+				related = append(related, r.Addr, r.Val)
+			case *ssa.MakeClosure:
+				if function, ok := r.Fn.(*ssa.Function); ok {
+					for index, binding := range r.Bindings {
+						if binding == val {
+							related = append(related, function.FreeVars[index])
+						}
+					}
+				}
+			case ssa.CallInstruction:
+				common := r.Common()
+				if isRandomRead(common) {
+					return true
+				}
+				if builtin, ok := common.Value.(*ssa.Builtin); ok && builtin.Name() == "copy" && common.Args[0] == val {
+					related = append(related, common.Args[1])
+				}
+				if callee := common.StaticCallee(); callee != nil && len(callee.Params) == len(common.Args) {
+					for index, arg := range common.Args {
+						if arg == val {
+							related = append(related, callee.Params[index])
+						}
+					}
+				}
 			}
 		}
 	}
-	return gosecIssues, nil
+
+	for _, other := range related {
+		if isFilledWithRandom(other, visited) {
+			return true
+		}
+	}
+	return false
 }
 
-// isFuncContainsCryptoRand checks whether a function contains a call to crypto/rand.Read in it's function body.
-func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
-	if funcCall == nil {
-		return false, errors.New("passed ssa.Function object is nil")
+// boundValues returns the values which a function literal uses as the given free variable.
+func boundValues(freeVar *ssa.FreeVar) []ssa.Value {
+	var values []ssa.Value
+	literal := freeVar.Parent()
+	// there is no parent for the functions made for method values
+	if literal.Parent() == nil {
+		return nil
 	}
-	for _, block := range funcCall.Blocks {
+	for _, block := range literal.Parent().Blocks {
 		for _, instr := range block.Instrs {
-			if call, ok := instr.(*ssa.Call); ok {
-				if calledFunction, ok := call.Call.Value.(*ssa.Function); ok {
-					if calledFunction.Pkg != nil && calledFunction.Pkg.Pkg.Path() == "crypto/rand" && calledFunction.Name() == "Read" {
-						return true, nil
-					}
+			if closure, ok := instr.(*ssa.MakeClosure); ok && closure.Fn == literal {
+				values = append(values, closure.Bindings[slices.Index(literal.FreeVars, freeVar)])
+			}
+		}
+	}
+	return values
+}
+
+// isRandomRead checks whether a call reads from the random source of crypto/rand.
+func isRandomRead(call *ssa.CallCommon) bool {
+	if callee := call.StaticCallee(); callee != nil && isOfCryptoRand(callee) && callee.Name() == "Read" {
+		return true
+	}
+	if call.IsInvoke() {
+		return call.Method.Name() == "Read" && isRandomReader(call.Value)
+	}
+	if callee := call.StaticCallee(); callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "io" {
+		return (callee.Name() == "ReadFull" || callee.Name() == "ReadAtLeast") && isRandomReader(call.Args[0])
+	}
+	return false
+}
+
+// isRandomReader checks whether the value is the one of the variable Reader of crypto/rand.
+func isRandomReader(val ssa.Value) bool {
+	load, ok := val.(*ssa.UnOp)
+	return ok && load.Op == token.MUL && isOfCryptoRand(load.X) && load.X.Name() == "Reader"
+}
+
+func isOfCryptoRand(val ssa.Value) bool {
+	switch v := val.(type) {
+	case *ssa.Function:
+		return v.Pkg != nil && v.Pkg.Pkg.Path() == "crypto/rand"
+	case *ssa.Global:
+		return v.Pkg != nil && v.Pkg.Pkg.Path() == "crypto/rand"
+	}
+	return false
+}
+
+// isFuncContainsCryptoRand checks whether a function, or one which it calls, reads from the random source of crypto/rand.
+func isFuncContainsCryptoRand(function *ssa.Function, visited map[*ssa.Function]bool) bool {
+	if function == nil || visited[function] {
+		return false
+	}
+	visited[function] = true
+	for _, block := range function.Blocks {
+		for _, instr := range block.Instrs {
+			if call, ok := instr.(ssa.CallInstruction); ok {
+				if isRandomRead(call.Common()) || isFuncContainsCryptoRand(call.Common().StaticCallee(), visited) {
+					return true
 				}
 			}
 		}
 	}
-	return false, nil
+	return false
 }
 
 func varsMapKey(value ssa.Value) string {
@@ -236,24 +363,31 @@ func getArgsFromTrackedFunctions(ssaFuncs []*ssa.Function, trackedFunc map[strin
 }
 
 func iterateTrackedFunctionsAndAddArgs(funcBlocInstr ssa.Instruction, trackedFunc map[string][]int, values map[string]*ssa.Value) {
-	if funcCall, ok := (funcBlocInstr).(*ssa.Call); ok {
-		for trackedFuncName, trackedFuncArgsInfo := range trackedFunc {
-			// only process functions that have the same number of arguments as the ones we track
-			if len(funcCall.Call.Args) == trackedFuncArgsInfo[0] {
-				tmpArg := funcCall.Call.Args[trackedFuncArgsInfo[1]]
-				// check if the function is called from an object or directly from the package
-				if funcCall.Call.Method != nil {
-					if methodFullname := funcCall.Call.Method.FullName(); methodFullname == trackedFuncName {
-						if !isContainedInMap(tmpArg, values) {
-							addToVarsMap(tmpArg, values)
-						}
-					}
-				} else if funcCall.Call.Value.String() == trackedFuncName {
-					if !isContainedInMap(tmpArg, values) {
-						addToVarsMap(tmpArg, values)
-					}
-				}
+	if funcCall, ok := (funcBlocInstr).(ssa.CallInstruction); ok {
+		for _, tmpArg := range trackedArgs(funcCall.Common(), trackedFunc) {
+			if !isContainedInMap(tmpArg, values) {
+				addToVarsMap(tmpArg, values)
 			}
 		}
 	}
 }
+
+// trackedArgs returns the arguments of the call at the index of interest, if the called function is one of the tracked ones.
+func trackedArgs(call *ssa.CallCommon, trackedFunc map[string][]int) []ssa.Value {
+	var args []ssa.Value
+	// check if the function is called from an object or directly from the package
+	name := call.Value.String()
+	if call.Method != nil {
+		name = call.Method.FullName()
+	} else if callee := call.StaticCallee(); callee != nil {
+		if generic := callee.Origin(); generic != nil {
+			callee = generic
+		}
+		name = callee.String()
+	}
+	// only process functions that have the same number of arguments as the ones we track
+	if info, ok := trackedFunc[name]; ok && len(call.Args) == info[0] {
+		args = append(args, call.Args[info[1]])
+	}
+	return args
+}
-- 
2.43.0


From 474ea6ebf8ba8321dbf03647ec06d7db0c9f1d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 65/84] fix: follow length and capacity through slice
 expressions, and judge accesses by the lengths checked before them

---
 analyzers/conversion_overflow.go |  20 +-
 analyzers/slice_bounds.go        | 397 ++++++++++---------------------
 2 files changed, 143 insertions(+), 274 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index dca66af..bb6ad71 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -308,6 +308,18 @@ func rangeInBlock(value ssa.Value, full valueRange, block *ssa.BasicBlock) (valu
 		start = instr.Block()
 	}
 
+	return rangeFrom(start, full, block, func(operand ssa.Value) bool {
+		return isSameOrRelated(operand, value)
+	}, func(from *ssa.BasicBlock) bool {
+		return isStoredBefore(value, from, nil)
+	})
+}
+
+// rangeFrom follows all ways from the start to the block, and returns the range which the comparisons of the values
+// of interest leave. After a block which changes the value nothing is known of it.
+func rangeFrom(start *ssa.BasicBlock, full valueRange, block *ssa.BasicBlock,
+	ofInterest func(ssa.Value) bool, changes func(*ssa.BasicBlock) bool,
+) (valueRange, bool) {
 	ranges := map[*ssa.BasicBlock]valueRange{start: full}
 	queue := []*ssa.BasicBlock{start}
 	for len(queue) > 0 {
@@ -317,14 +329,14 @@ func rangeInBlock(value ssa.Value, full valueRange, block *ssa.BasicBlock) (valu
 			continue
 		}
 		before := ranges[from]
-		if isStoredBefore(value, from, nil) {
+		if changes(from) {
 			before = full
 		}
 		for branch, to := range from.Succs {
 			if to == start {
 				continue
 			}
-			next, possible := before.constrain(from, branch, value)
+			next, possible := before.constrain(from, branch, ofInterest)
 			if !possible {
 				continue
 			}
@@ -380,7 +392,7 @@ func neverReturns(block *ssa.BasicBlock) bool {
 }
 
 // constrain returns the part of the range with which a branch of the block is taken, and whether it can be taken.
-func (r valueRange) constrain(block *ssa.BasicBlock, branch int, value ssa.Value) (valueRange, bool) {
+func (r valueRange) constrain(block *ssa.BasicBlock, branch int, ofInterest func(ssa.Value) bool) (valueRange, bool) {
 	ifInstr, ok := block.Instrs[len(block.Instrs)-1].(*ssa.If)
 	if !ok {
 		return r, true
@@ -394,7 +406,7 @@ func (r valueRange) constrain(block *ssa.BasicBlock, branch int, value ssa.Value
 		op, operand, other = flip(op), other, operand
 	}
 	constVal, ok := other.(*ssa.Const)
-	if !ok || constVal.Value == nil || constVal.Value.Kind() != constant.Int || !isSameOrRelated(operand, value) {
+	if !ok || constVal.Value == nil || constVal.Value.Kind() != constant.Int || !ofInterest(operand) {
 		return r, true
 	}
 	bound := constVal.Value
diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index c4d5ab1..b23fec8 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -17,13 +17,12 @@ package analyzers
 import (
 	"cmp"
 	"errors"
-	"fmt"
-	"go/token"
+	"go/constant"
 	"maps"
+	"math"
 	"regexp"
 	"slices"
 	"strconv"
-	"strings"
 
 	"golang.org/x/tools/go/analysis"
 	"golang.org/x/tools/go/analysis/passes/buildssa"
@@ -32,14 +31,10 @@ import (
 	"github.com/securego/gosec/v2/issue"
 )
 
-type bound int
-
-const (
-	lowerUnbounded bound = iota
-	upperUnbounded
-	unbounded
-	upperBounded
-)
+// sliceSize holds the number of elements which a slice can be indexed and resliced to at most.
+type sliceSize struct {
+	length, capacity int
+}
 
 const maxDepth = 20
 
@@ -59,7 +54,6 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	}
 
 	issues := map[ssa.Instruction]*issue.Issue{}
-	ifs := map[ssa.If]*ssa.BinOp{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
 			for _, instr := range block.Instrs {
@@ -73,93 +67,47 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 					if allocRefs == nil {
 						break
 					}
-					for _, instr := range *allocRefs {
-						if slice, ok := instr.(*ssa.Slice); ok {
-							if _, ok := slice.X.(*ssa.Alloc); ok {
-								if slice.Parent() != nil {
-									l, h := extractSliceBounds(slice)
-									newCap := computeSliceNewCap(l, h, sliceCap)
-									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs, map[visitedSlice]int{})
-									for _, s := range violations {
-										switch s := s.(type) {
-										case *ssa.Slice:
-											issue := newIssue(
-												pass.Analyzer.Name,
-												"slice bounds out of range",
-												pass.Fset,
-												s.Pos(),
-												issue.Low,
-												issue.High)
-											issues[s] = issue
-										case *ssa.IndexAddr:
-											issue := newIssue(
-												pass.Analyzer.Name,
-												"slice index out of range",
-												pass.Fset,
-												s.Pos(),
-												issue.Low,
-												issue.High)
-											issues[s] = issue
-										}
-									}
-								}
-							}
+					size := sliceSize{sliceCap, sliceCap}
+					for _, ref := range *allocRefs {
+						slice, ok := ref.(*ssa.Slice)
+						if !ok || slice.X != instr {
+							continue
 						}
-					}
-				}
-			}
-		}
-	}
-
-	for ifref, binop := range ifs {
-		bound, value, err := extractBinOpBound(binop)
-		if err != nil {
-			continue
-		}
-		for i, block := range ifref.Block().Succs {
-			if i == 1 {
-				bound = invBound(bound)
-			}
-			var processBlock func(block *ssa.BasicBlock, depth int)
-			processBlock = func(block *ssa.BasicBlock, depth int) {
-				if depth == maxDepth {
-					return
-				}
-				depth++
-				for _, instr := range block.Instrs {
-					if _, ok := issues[instr]; ok {
-						switch bound {
-						case lowerUnbounded:
-							break
-						case upperUnbounded, unbounded:
-							delete(issues, instr)
-						case upperBounded:
-							switch tinstr := instr.(type) {
+						newSize := size.resliced(slice)
+						if instr.Comment == "makeslice" {
+							// the length may be smaller than the capacity, of which all is expected to be used
+							newSize = size
+						}
+						violations := []ssa.Instruction{}
+						trackSliceBounds(0, newSize, slice, &violations, map[visitedSlice]int{})
+						if !size.allows(slice) {
+							violations = append(violations, slice)
+						}
+						for _, s := range violations {
+							switch s := s.(type) {
 							case *ssa.Slice:
-								lower, upper := extractSliceBounds(tinstr)
-								if isSliceInsideBounds(0, value, lower, upper) {
-									delete(issues, instr)
-								}
+								issue := newIssue(
+									pass.Analyzer.Name,
+									"slice bounds out of range",
+									pass.Fset,
+									s.Pos(),
+									issue.Low,
+									issue.High)
+								issues[s] = issue
 							case *ssa.IndexAddr:
-								indexValue, err := extractIntValue(tinstr.Index.String())
-								if err != nil {
-									break
-								}
-								if isSliceIndexInsideBounds(0, value, indexValue) {
-									delete(issues, instr)
-								}
+								issue := newIssue(
+									pass.Analyzer.Name,
+									"slice index out of range",
+									pass.Fset,
+									s.Pos(),
+									issue.Low,
+									issue.High)
+								issues[s] = issue
 							}
 						}
-					} else if nestedIfInstr, ok := instr.(*ssa.If); ok {
-						for _, nestedBlock := range nestedIfInstr.Block().Succs {
-							processBlock(nestedBlock, depth)
-						}
 					}
 				}
 			}
-
-			processBlock(block, 0)
 		}
 	}
 
@@ -179,9 +127,8 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 
 // visitedSlice identifies a step of the bounds tracking.
 type visitedSlice struct {
-	slice ssa.Node
-	cap   int
-	check bool
+	slice ssa.Value
+	size  sliceSize
 }
 
 // alreadyVisited checks if the same step was taken before with at least as much depth left.
@@ -194,214 +141,124 @@ func alreadyVisited(visited map[visitedSlice]int, step visitedSlice, depth int)
 	return false
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visitedSlice]int) {
-	if depth == maxDepth || alreadyVisited(visited, visitedSlice{slice, sliceCap, false}, depth) {
+// trackSliceBounds follows the slice, and the slices and parameters it is given to, and collects the accesses out of bounds.
+func trackSliceBounds(depth int, size sliceSize, slice ssa.Value, violations *[]ssa.Instruction, visited map[visitedSlice]int) {
+	if depth == maxDepth || alreadyVisited(visited, visitedSlice{slice, size}, depth) {
 		return
 	}
 	depth++
-	if violations == nil {
-		violations = &[]ssa.Instruction{}
-	}
 	referrers := slice.Referrers()
-	if referrers != nil {
-		for _, refinstr := range *referrers {
-			switch refinstr := refinstr.(type) {
-			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, visited)
-				switch refinstr.X.(type) {
-				case *ssa.Alloc, *ssa.Parameter:
-					l, h := extractSliceBounds(refinstr)
-					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs, visited)
-				}
-			case *ssa.IndexAddr:
-				indexValue, err := extractIntValue(refinstr.Index.String())
-				if err == nil && !isSliceIndexInsideBounds(0, sliceCap, indexValue) {
-					*violations = append(*violations, refinstr)
-				}
-			case *ssa.Call:
-				if ifref, cond := extractSliceIfLenCondition(refinstr); ifref != nil && cond != nil {
-					ifs[*ifref] = cond
-				} else {
-					parPos := -1
-					for pos, arg := range refinstr.Call.Args {
-						if a, ok := arg.(*ssa.Slice); ok && a == slice {
-							parPos = pos
-						}
-					}
-					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
-						if len(fn.Params) > parPos && parPos > -1 {
-							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs, visited)
-						}
-					}
-				}
-			}
-		}
-	}
-}
-
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, visited map[visitedSlice]int) {
-	if depth == maxDepth || alreadyVisited(visited, visitedSlice{slice, sliceCap, true}, depth) {
-		return
-	}
-	depth++
-	if violations == nil {
-		violations = &[]ssa.Instruction{}
-	}
-	sliceLow, sliceHigh := extractSliceBounds(slice)
-	if !isSliceInsideBounds(0, sliceCap, sliceLow, sliceHigh) {
-		*violations = append(*violations, slice)
-	}
-	switch slice.X.(type) {
-	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
-		l, h := extractSliceBounds(slice)
-		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs, visited)
-	}
-
-	references := slice.Referrers()
-	if references == nil {
+	if referrers == nil {
 		return
 	}
-	for _, ref := range *references {
-		switch s := ref.(type) {
+	for _, ref := range *referrers {
+		switch instr := ref.(type) {
 		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, visited)
-			switch s.X.(type) {
-			case *ssa.Alloc, *ssa.Parameter:
-				l, h := extractSliceBounds(s)
-				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs, visited)
+			if instr.X != slice {
+				break
 			}
-		}
-	}
-}
-
-func extractSliceIfLenCondition(call *ssa.Call) (*ssa.If, *ssa.BinOp) {
-	if builtInLen, ok := call.Call.Value.(*ssa.Builtin); ok {
-		if builtInLen.Name() == "len" {
-			refs := call.Referrers()
-			if refs != nil {
-				for _, ref := range *refs {
-					if binop, ok := ref.(*ssa.BinOp); ok {
-						binoprefs := binop.Referrers()
-						for _, ref := range *binoprefs {
-							if ifref, ok := ref.(*ssa.If); ok {
-								return ifref, binop
-							}
-						}
-					}
+			checked := size.atLeast(checkedLength(slice, instr.Block()))
+			if !checked.allows(instr) {
+				*violations = append(*violations, instr)
+			}
+			trackSliceBounds(depth, checked.resliced(instr), instr, violations, visited)
+		case *ssa.IndexAddr:
+			index, ok := constantInt(instr.Index)
+			if ok && instr.X == slice && index >= size.length && index >= checkedLength(slice, instr.Block()) {
+				*violations = append(*violations, instr)
+			}
+		case ssa.CallInstruction:
+			function := instr.Common().StaticCallee()
+			if function == nil {
+				break
+			}
+			if generic := function.Origin(); generic != nil {
+				function = generic
+			}
+			for pos, arg := range instr.Common().Args {
+				if arg == slice && pos < len(function.Params) {
+					checked := size.atLeast(checkedLength(slice, instr.Block()))
+					trackSliceBounds(depth, checked, function.Params[pos], violations, visited)
 				}
 			}
 		}
 	}
-	return nil, nil
 }
 
-func computeSliceNewCap(l, h, oldCap int) int {
-	if l == 0 && h == 0 {
-		return oldCap
+// allows checks if the constant bounds of the slice expression are inside of what a slice of the size has.
+func (size sliceSize) allows(slice *ssa.Slice) bool {
+	low, hasLow := constantInt(slice.Low)
+	if hasLow && (low > size.capacity || slice.High == nil && low > size.length) {
+		return false
 	}
-	if l > 0 && h == 0 {
-		return oldCap - l
+	if high, ok := constantInt(slice.High); ok && high > size.capacity {
+		return false
 	}
-	if l == 0 && h > 0 {
-		return h
+	if maximum, ok := constantInt(slice.Max); ok && maximum > size.capacity {
+		return false
 	}
-	return h - l
+	return true
 }
 
-func invBound(bound bound) bound {
-	switch bound {
-	case lowerUnbounded:
-		return upperUnbounded
-	case upperUnbounded:
-		return lowerUnbounded
-	case upperBounded:
-		return unbounded
-	case unbounded:
-		return upperBounded
-	default:
-		return unbounded
+// resliced returns the size of the result of the slice expression. Bounds which are not constant are taken as the widest.
+func (size sliceSize) resliced(slice *ssa.Slice) sliceSize {
+	low, _ := constantInt(slice.Low)
+	if maximum, ok := constantInt(slice.Max); ok {
+		size.capacity = maximum
 	}
-}
-
-func extractBinOpBound(binop *ssa.BinOp) (bound, int, error) {
-	if binop.X != nil {
-		if x, ok := binop.X.(*ssa.Const); ok {
-			value, err := strconv.Atoi(x.Value.String())
-			if err != nil {
-				return lowerUnbounded, value, err
-			}
-			switch binop.Op {
-			case token.LSS, token.LEQ:
-				return upperUnbounded, value, nil
-			case token.GTR, token.GEQ:
-				return lowerUnbounded, value, nil
-			case token.EQL:
-				return upperBounded, value, nil
-			case token.NEQ:
-				return unbounded, value, nil
-			}
-		}
+	if slice.High != nil {
+		size.length = size.capacity
 	}
-	if binop.Y != nil {
-		if y, ok := binop.Y.(*ssa.Const); ok {
-			value, err := strconv.Atoi(y.Value.String())
-			if err != nil {
-				return lowerUnbounded, value, err
-			}
-			switch binop.Op {
-			case token.LSS, token.LEQ:
-				return lowerUnbounded, value, nil
-			case token.GTR, token.GEQ:
-				return upperUnbounded, value, nil
-			case token.EQL:
-				return upperBounded, value, nil
-			case token.NEQ:
-				return unbounded, value, nil
-			}
-		}
+	if high, ok := constantInt(slice.High); ok {
+		size.length = high
 	}
-	return lowerUnbounded, 0, fmt.Errorf("unable to extract constant from binop")
+	return sliceSize{size.length - low, size.capacity - low}
 }
 
-func isSliceIndexInsideBounds(l, h int, index int) bool {
-	return (l <= index && index < h)
+// atLeast returns the size of a slice which is known to have the given length.
+func (size sliceSize) atLeast(length int) sliceSize {
+	return sliceSize{max(size.length, length), max(size.capacity, length)}
 }
 
-func isSliceInsideBounds(l, h int, cl, ch int) bool {
-	return (l <= cl && h >= ch) && (l <= ch && h >= cl)
-}
-
-func extractSliceBounds(slice *ssa.Slice) (int, int) {
-	var low int
-	if slice.Low != nil {
-		l, err := extractIntValue(slice.Low.String())
-		if err == nil {
-			low = l
+// checkedLength returns the length which the slice has at least, according to the comparisons of
+// its length with constants on the ways which lead to the block.
+func checkedLength(slice ssa.Value, block *ssa.BasicBlock) int {
+	isLength := func(value ssa.Value) bool {
+		call, ok := value.(*ssa.Call)
+		if !ok {
+			return false
 		}
+		builtin, ok := call.Call.Value.(*ssa.Builtin)
+		return ok && builtin.Name() == "len" && call.Call.Args[0] == slice
 	}
-	var high int
-	if slice.High != nil {
-		h, err := extractIntValue(slice.High.String())
-		if err == nil {
-			high = h
-		}
+	if !slices.ContainsFunc(*slice.Referrers(), func(ref ssa.Instruction) bool {
+		value, ok := ref.(ssa.Value)
+		return ok && isLength(value)
+	}) {
+		return 0
 	}
-	return low, high
-}
 
-func extractIntValue(value string) (int, error) {
-	parts := strings.Split(value, ":")
-	if len(parts) != 2 {
-		return 0, fmt.Errorf("invalid value: %s", value)
+	start := block.Parent().Blocks[0]
+	if instr, ok := slice.(ssa.Instruction); ok {
+		start = instr.Block()
+	}
+	full := valueRange{min: constant.MakeInt64(0), max: constant.MakeInt64(math.MaxInt)}
+	lengths, reached := rangeFrom(start, full, block, isLength, func(*ssa.BasicBlock) bool { return false })
+	if !reached {
+		return math.MaxInt
 	}
-	if parts[1] != "int" {
-		return 0, fmt.Errorf("invalid value: %s", value)
+	length, _ := constant.Int64Val(lengths.min)
+	return int(length)
+}
+
+// constantInt returns the value of an integer constant.
+func constantInt(value ssa.Value) (int, bool) {
+	constVal, ok := value.(*ssa.Const)
+	if !ok || constVal.Value == nil || constVal.Value.Kind() != constant.Int {
+		return 0, false
 	}
-	return strconv.Atoi(parts[0])
+	number, exact := constant.Int64Val(constVal.Value)
+	return int(number), exact
 }
 
 func extractSliceCapFromAlloc(instr string) (int, error) {
-- 
2.43.0


From 5f458cb64a2442259c287973d380e7ecd2fe987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 66/84] fix: resolve constants by their value, and a variable
 by its own initial value

---
 resolve.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/resolve.go b/resolve.go
index c8ae564..2def5be 100644
--- a/resolve.go
+++ b/resolve.go
@@ -25,12 +25,32 @@ func resolveIdent(n *ast.Ident, c *Context, seen map[*ast.Object]bool) bool {
 	}
 	// not resolved as long as it depends on itself, in code which does not compile
 	seen[n.Obj] = false
-	if node, ok := n.Obj.Decl.(ast.Node); ok {
+	if node, ok := declaration(n.Obj).(ast.Node); ok {
 		seen[n.Obj] = tryResolve(node, c, seen)
 	}
 	return seen[n.Obj]
 }
 
+// declaration returns the value which a declaration gives to the variable if there is one
+// value for each of the declared variables, and else the whole declaration.
+func declaration(obj *ast.Object) any {
+	switch decl := obj.Decl.(type) {
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if ident, ok := lhs.(*ast.Ident); ok && ident.Obj == obj && len(decl.Lhs) == len(decl.Rhs) {
+				return decl.Rhs[i]
+			}
+		}
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Obj == obj && len(decl.Names) == len(decl.Values) {
+				return decl.Values[i]
+			}
+		}
+	}
+	return obj.Decl
+}
+
 func resolveValueSpec(n *ast.ValueSpec, c *Context, seen map[*ast.Object]bool) bool {
 	if len(n.Values) == 0 {
 		return false
@@ -85,6 +105,9 @@ func TryResolve(n ast.Node, c *Context) bool {
 
 // tryResolve resolves as TryResolve does; seen holds the variables resolved so far.
 func tryResolve(n ast.Node, c *Context, seen map[*ast.Object]bool) bool {
+	if expr, ok := n.(ast.Expr); ok && c.Info.Types[expr].Value != nil {
+		return true
+	}
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
@@ -100,6 +123,8 @@ func tryResolve(n ast.Node, c *Context, seen map[*ast.Object]bool) bool {
 		return resolveCallExpr(node, c)
 	case *ast.BinaryExpr:
 		return resolveBinExpr(node, c, seen)
+	case *ast.ParenExpr:
+		return tryResolve(node.X, c, seen)
 	}
 	return false
 }
-- 
2.43.0


From ce95174a5558afde8a2f6176dd3a3089c141abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 67/84] fix: recognize the context argument of a command under
 any name of the package

---
 rules/subproc.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/rules/subproc.go b/rules/subproc.go
index 1686319..566cca7 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -99,14 +99,9 @@ func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 // isContext checks whether or not the node is a CommandContext call or not
 // This is required in order to skip the first argument from the check.
 func (r *subprocess) isContext(n ast.Node, ctx *gosec.Context) bool {
-	selector, indent, err := gosec.GetCallInfo(n, ctx)
-	if err != nil {
-		return false
-	}
-	if selector == "exec" && indent == "CommandContext" {
-		return true
-	}
-	return false
+	// the package may be imported under any name
+	_, indent, err := gosec.GetCallInfo(n, ctx)
+	return err == nil && indent == "CommandContext"
 }
 
 // NewSubproc detects cases where we are forking out to an external process
-- 
2.43.0


From 563113c0a39b4a2a4b52a38a28cb09c91e739e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 68/84] fix: treat URL variables by their scope and not by
 their name

---
 rules/ssrf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules/ssrf.go b/rules/ssrf.go
index dbf0108..1037acf 100644
--- a/rules/ssrf.go
+++ b/rules/ssrf.go
@@ -22,12 +22,12 @@ func (r *ssrf) ID() string {
 // The first argument is the url
 func (r *ssrf) ResolveVar(n *ast.CallExpr, c *gosec.Context) bool {
 	if len(n.Args) > 0 {
-		arg := n.Args[0]
+		arg := ast.Unparen(n.Args[0])
 		if ident, ok := arg.(*ast.Ident); ok {
 			obj := c.Info.ObjectOf(ident)
 			if _, ok := obj.(*types.Var); ok {
 				scope := c.Pkg.Scope()
-				if scope != nil && scope.Lookup(ident.Name) != nil {
+				if scope != nil && obj.Parent() == scope {
 					// a URL defined in a variable at package scope can be changed at any time
 					return true
 				}
-- 
2.43.0


From d8ae973ce314b52bad81c10f45f98a094365aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 69/84] fix: judge the path alone of an opened file, and each
 cleaned variable by itself

---
 helpers.go        | 30 ++++++++++++------------------
 rules/readfile.go |  9 ++++++---
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/helpers.go b/helpers.go
index 62de9e5..c5813b0 100644
--- a/helpers.go
+++ b/helpers.go
@@ -319,12 +319,12 @@ func GetBinaryExprOperands(be *ast.BinaryExpr) []ast.Node {
 	var traverse func(be *ast.BinaryExpr)
 	result := []ast.Node{}
 	traverse = func(be *ast.BinaryExpr) {
-		if lhs, ok := be.X.(*ast.BinaryExpr); ok {
+		if lhs, ok := ast.Unparen(be.X).(*ast.BinaryExpr); ok {
 			traverse(lhs)
 		} else {
 			result = append(result, be.X)
 		}
-		if rhs, ok := be.Y.(*ast.BinaryExpr); ok {
+		if rhs, ok := ast.Unparen(be.Y).(*ast.BinaryExpr); ok {
 			traverse(rhs)
 		} else {
 			result = append(result, be.Y)
@@ -448,22 +448,16 @@ func ConcatString(n *ast.BinaryExpr) (string, bool) {
 // FindVarIdentities returns array of all variable identities in a given binary expression
 func FindVarIdentities(n *ast.BinaryExpr, c *Context) ([]*ast.Ident, bool) {
 	identities := []*ast.Ident{}
-	// sub expressions are found in X object, Y object is always the last term
-	if rightOperand, ok := n.Y.(*ast.Ident); ok {
-		obj := c.Info.ObjectOf(rightOperand)
-		if _, ok := obj.(*types.Var); ok && !TryResolve(rightOperand, c) {
-			identities = append(identities, rightOperand)
-		}
-	}
-	if leftOperand, ok := n.X.(*ast.BinaryExpr); ok {
-		if leftIdentities, ok := FindVarIdentities(leftOperand, c); ok {
-			identities = append(identities, leftIdentities...)
-		}
-	} else {
-		if leftOperand, ok := n.X.(*ast.Ident); ok {
-			obj := c.Info.ObjectOf(leftOperand)
-			if _, ok := obj.(*types.Var); ok && !TryResolve(leftOperand, c) {
-				identities = append(identities, leftOperand)
+	for _, operand := range []ast.Expr{n.Y, n.X} {
+		switch operand := ast.Unparen(operand).(type) {
+		case *ast.BinaryExpr:
+			if subIdentities, ok := FindVarIdentities(operand, c); ok {
+				identities = append(identities, subIdentities...)
+			}
+		case *ast.Ident:
+			obj := c.Info.ObjectOf(operand)
+			if _, ok := obj.(*types.Var); ok && !TryResolve(operand, c) {
+				identities = append(identities, operand)
 			}
 		}
 	}
diff --git a/rules/readfile.go b/rules/readfile.go
index da6b9c9..8bb7a5e 100644
--- a/rules/readfile.go
+++ b/rules/readfile.go
@@ -39,6 +39,7 @@ func (r *readfile) ID() string {
 func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 	if call := r.pathJoin.ContainsPkgCallExpr(n, c, false); call != nil {
 		for _, arg := range call.Args {
+			arg = ast.Unparen(arg)
 			// edge case: check if one of the args is a BinaryExpr
 			if binExp, ok := arg.(*ast.BinaryExpr); ok {
 				// iterate and resolve all found identities from the BinaryExpr
@@ -61,7 +62,7 @@ func (r *readfile) isJoinFunc(n ast.Node, c *gosec.Context) bool {
 
 // isFilepathClean checks if there is a filepath.Clean for given variable
 func (r *readfile) isFilepathClean(n *ast.Ident, c *gosec.Context) bool {
-	if _, ok := r.cleanedVar[n.Obj.Decl]; ok {
+	if _, ok := r.cleanedVar[n.Obj]; ok {
 		return true
 	}
 	if n.Obj.Kind != ast.Var {
@@ -84,7 +85,7 @@ func (r *readfile) trackFilepathClean(n ast.Node) {
 			// ident.Obj may be nil if the referenced declaration is in another file. It also may be incorrect.
 			// if it is nil, do not follow it.
 			if ident.Obj != nil {
-				r.cleanedVar[ident.Obj.Decl] = n
+				r.cleanedVar[ident.Obj] = n
 			}
 		}
 	}
@@ -96,7 +97,9 @@ func (r *readfile) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 		r.trackFilepathClean(n)
 		return nil, nil
 	} else if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
-		for _, arg := range node.Args {
+		// only the first argument is a path
+		for _, arg := range node.Args[:min(1, len(node.Args))] {
+			arg = ast.Unparen(arg)
 			// handles path joining functions in Arg
 			// eg. os.Open(filepath.Join("/tmp/", file))
 			if callExpr, ok := arg.(*ast.CallExpr); ok {
-- 
2.43.0


From 1e03a3a37c6b2476f1300547cd9eb95ff096a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 70/84] fix: look for SQL in constant expressions and in
 queries formatted within the call

---
 rules/sql.go | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index fc090a3..ca19a9b 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"regexp"
 
 	"github.com/securego/gosec/v2"
@@ -73,7 +74,17 @@ func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) (ast.Expr, error) {
 		return nil, nil
 	}
 	query := call.Args[i]
-	return query, nil
+	return ast.Unparen(query), nil
+}
+
+// constantString returns the value of a constant expression of string type
+func constantString(n ast.Node, ctx *gosec.Context) (string, bool) {
+	if expr, ok := n.(ast.Expr); ok {
+		if value := ctx.Info.Types[expr].Value; value != nil && value.Kind() == constant.String {
+			return constant.StringVal(value), true
+		}
+	}
+	return "", false
 }
 
 func (s *sqlStatement) ID() string {
@@ -102,7 +113,7 @@ func (s *sqlStrConcat) ID() string {
 // This method assumes you've already verified that the branch contains SQL syntax
 func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Expr) *ast.BinaryExpr {
 	for _, node := range branch {
-		be, ok := node.(*ast.BinaryExpr)
+		be, ok := ast.Unparen(node).(*ast.BinaryExpr)
 		if !ok {
 			continue
 		}
@@ -110,7 +121,7 @@ func (s *sqlStrConcat) findInjectionInBranch(ctx *gosec.Context, branch []ast.Ex
 		operands := gosec.GetBinaryExprOperands(be)
 
 		for _, op := range operands {
-			if _, ok := op.(*ast.BasicLit); ok {
+			if _, ok := constantString(op, ctx); ok {
 				continue
 			}
 
@@ -148,14 +159,12 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 
 	if be, ok := query.(*ast.BinaryExpr); ok {
 		operands := gosec.GetBinaryExprOperands(be)
-		if start, ok := operands[0].(*ast.BasicLit); ok {
-			if str, e := gosec.GetString(start); e == nil {
-				if !s.MatchPatterns(str) {
-					return nil, nil
-				}
+		if str, ok := constantString(operands[0], ctx); ok {
+			if !s.MatchPatterns(str) {
+				return nil, nil
 			}
 			for _, op := range operands[1:] {
-				if _, ok := op.(*ast.BasicLit); ok {
+				if _, ok := constantString(op, ctx); ok {
 					continue
 				}
 				if op, ok := op.(*ast.Ident); ok && s.checkObject(op, ctx) {
@@ -244,6 +253,9 @@ type sqlStrFormat struct {
 
 // see if we can figure out what it is
 func (s *sqlStrFormat) constObject(e ast.Expr, c *gosec.Context) bool {
+	if c.Info.Types[e].Value != nil {
+		return true
+	}
 	n, ok := e.(*ast.Ident)
 	if !ok {
 		return false
@@ -268,6 +280,13 @@ func (s *sqlStrFormat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 		return nil, err
 	}
 
+	if query != nil {
+		// the query is formatted within the call
+		if issue := s.checkFormatting(query, ctx); issue != nil {
+			return issue, nil
+		}
+	}
+
 	if ident, ok := query.(*ast.Ident); ok && ident.Obj != nil {
 		decl := ident.Obj.Decl
 		if assign, ok := decl.(*ast.AssignStmt); ok {
@@ -314,7 +333,9 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		var formatter string
 
 		// concats callexpr arg strings together if needed before regex evaluation
-		if argExpr, ok := node.Args[argIndex].(*ast.BinaryExpr); ok {
+		if value, ok := constantString(node.Args[argIndex], ctx); ok {
+			formatter = value
+		} else if argExpr, ok := node.Args[argIndex].(*ast.BinaryExpr); ok {
 			if fullStr, ok := gosec.ConcatString(argExpr); ok {
 				formatter = fullStr
 			}
-- 
2.43.0


From b8ab2e4ba53dc0ae16fca349b5f84418e7d44aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 71/84] fix: look at SQL calls whose result is used at once,
 and at each of several

---
 rules/sql.go | 70 +++++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/rules/sql.go b/rules/sql.go
index ca19a9b..54fe306 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -77,6 +77,36 @@ func findQueryArg(call *ast.CallExpr, ctx *gosec.Context) (ast.Expr, error) {
 	return ast.Unparen(query), nil
 }
 
+// findQueryCalls returns the SQL calls of a statement, each of which may be followed by calls of methods of its result
+func findQueryCalls(n ast.Node, calls gosec.CallList, ctx *gosec.Context) []*ast.CallExpr {
+	var exprs []ast.Expr
+	switch stmt := n.(type) {
+	case *ast.AssignStmt:
+		exprs = stmt.Rhs
+	case *ast.ExprStmt:
+		exprs = []ast.Expr{stmt.X}
+	}
+	var found []*ast.CallExpr
+	for _, expr := range exprs {
+		for {
+			call, ok := ast.Unparen(expr).(*ast.CallExpr)
+			if !ok {
+				break
+			}
+			if calls.ContainsCallExpr(call, ctx) != nil {
+				found = append(found, call)
+				break
+			}
+			selector, ok := call.Fun.(*ast.SelectorExpr)
+			if !ok {
+				break
+			}
+			expr = selector.X
+		}
+	}
+	return found
+}
+
 // constantString returns the value of a constant expression of string type
 func constantString(n ast.Node, ctx *gosec.Context) (string, bool) {
 	if expr, ok := n.(ast.Expr); ok {
@@ -202,19 +232,11 @@ func (s *sqlStrConcat) checkQuery(call *ast.CallExpr, ctx *gosec.Context) (*issu
 
 // Checks SQL query concatenation issues such as "SELECT * FROM table WHERE " + " ' OR 1=1"
 func (s *sqlStrConcat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
+	for _, sqlQueryCall := range findQueryCalls(n, s.CallList, ctx) {
+		if issue, err := s.checkQuery(sqlQueryCall, ctx); issue != nil || err != nil {
+			return issue, err
 		}
 	}
-
 	return nil, nil
 }
 
@@ -368,29 +390,9 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 
 // Check SQL query formatting issues such as "fmt.Sprintf("SELECT * FROM foo where '%s', userInput)"
 func (s *sqlStrFormat) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	switch stmt := n.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range stmt.Rhs {
-			if call, ok := expr.(*ast.CallExpr); ok {
-				selector, ok := call.Fun.(*ast.SelectorExpr)
-				if !ok {
-					continue
-				}
-				sqlQueryCall, ok := selector.X.(*ast.CallExpr)
-				if ok && s.ContainsCallExpr(sqlQueryCall, ctx) != nil {
-					issue, err := s.checkQuery(sqlQueryCall, ctx)
-					if err == nil && issue != nil {
-						return issue, err
-					}
-				}
-			}
-			if sqlQueryCall, ok := expr.(*ast.CallExpr); ok && s.ContainsCallExpr(expr, ctx) != nil {
-				return s.checkQuery(sqlQueryCall, ctx)
-			}
-		}
-	case *ast.ExprStmt:
-		if sqlQueryCall, ok := stmt.X.(*ast.CallExpr); ok && s.ContainsCallExpr(stmt.X, ctx) != nil {
-			return s.checkQuery(sqlQueryCall, ctx)
+	for _, sqlQueryCall := range findQueryCalls(n, s.CallList, ctx) {
+		if issue, err := s.checkQuery(sqlQueryCall, ctx); issue != nil || err != nil {
+			return issue, err
 		}
 	}
 	return nil, nil
-- 
2.43.0


From ae953df3a8f9205993271c9a7de386eb1d96934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:05 +0000
Subject: [PATCH 72/84] fix: take the whole text of the AI answer as the fix,
 and an answer without content as a failure

---
 autofix/ai.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..238a30a 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/google/generative-ai-go/genai"
@@ -67,12 +68,19 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	content := resp.Candidates[0].Content
+	if content == nil || len(content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
-	// Return the first candidate
-	return fmt.Sprintf("%+v", resp.Candidates[0].Content.Parts[0]), nil
+	// Return the whole text of the first candidate
+	var text strings.Builder
+	for _, part := range content.Parts {
+		if t, ok := part.(genai.Text); ok {
+			text.WriteString(string(t))
+		}
+	}
+	return text.String(), nil
 }
 
 // NewGenAIClient creates a new gemini API client.
-- 
2.43.0


From e52955cd1cfbc182eff9326024d77e2cb9a4c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 73/84] fix: bound addresses are judged by their value, and by
 the address and not by a pattern of it

---
 helpers.go    |  7 ++++++-
 rules/bind.go | 12 +++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/helpers.go b/helpers.go
index c5813b0..3cac032 100644
--- a/helpers.go
+++ b/helpers.go
@@ -281,7 +281,12 @@ func getIdentStringValues(ident *ast.Ident, stringFinder func(ast.Node) (string,
 	values := []string{}
 	obj := ident.Obj
 	if obj != nil {
-		switch decl := obj.Decl.(type) {
+		switch decl := declaration(obj).(type) {
+		case ast.Expr:
+			// the value of this one of several variables
+			if value, err := stringFinder(decl); err == nil {
+				values = append(values, value)
+			}
 		case *ast.ValueSpec:
 			for _, v := range decl.Values {
 				value, err := stringFinder(v)
diff --git a/rules/bind.go b/rules/bind.go
index fef760c..563379b 100644
--- a/rules/bind.go
+++ b/rules/bind.go
@@ -39,12 +39,10 @@ func (r *bindsToAllNetworkInterfaces) Match(n ast.Node, c *gosec.Context) (*issu
 		return nil, nil
 	}
 	if len(callExpr.Args) > 1 {
-		arg := callExpr.Args[1]
-		if bl, ok := arg.(*ast.BasicLit); ok {
-			if arg, err := gosec.GetString(bl); err == nil {
-				if r.pattern.MatchString(arg) {
-					return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
-				}
+		arg := ast.Unparen(callExpr.Args[1])
+		if value, ok := constantString(arg, c); ok {
+			if r.pattern.MatchString(value) {
+				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
 		} else if ident, ok := arg.(*ast.Ident); ok {
 			values := gosec.GetIdentStringValues(ident)
@@ -73,7 +71,7 @@ func NewBindsToAllNetworkInterfaces(id string, _ gosec.Config) (gosec.Rule, []as
 	calls.Add("crypto/tls", "Listen")
 	return &bindsToAllNetworkInterfaces{
 		calls:   calls,
-		pattern: regexp.MustCompile(`^(0.0.0.0|:).*$`),
+		pattern: regexp.MustCompile(`^(0\.0\.0\.0|\[::\])?(:.*)?$`),
 		MetaData: issue.MetaData{
 			ID:         id,
 			Severity:   issue.Medium,
-- 
2.43.0


From dc21cd98cd9e061a7defa7be3585648bf8b86475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 74/84] fix: RSA key sizes given by any constant are judged

---
 rules/rsa.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rules/rsa.go b/rules/rsa.go
index 0d89f28..f5dc025 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -17,6 +17,8 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/constant"
+	"go/token"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -34,7 +36,7 @@ func (w *weakKeyStrength) ID() string {
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 1 {
-		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
+		if bits := c.Info.Types[callExpr.Args[1]].Value; bits != nil && constant.Compare(bits, token.LSS, constant.MakeInt64(int64(w.bits))) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
 	}
-- 
2.43.0


From de99674821b4a2562be9b0bc414c8372cc130c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 75/84] fix: temporary paths given by any constant are judged

---
 rules/tempfiles.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 29f5bab..dbbd5e3 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -35,7 +35,7 @@ func (t *badTempFile) ID() string {
 }
 
 func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.Node) *issue.Issue {
-	if s, e := gosec.GetString(suspect); e == nil {
+	if s, ok := constantString(suspect, c); ok {
 		if t.args.MatchString(s) {
 			return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
 		}
@@ -45,10 +45,10 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence)
 	}
 	if be, ok := suspect.(*ast.BinaryExpr); ok {
-		if ops := gosec.GetBinaryExprOperands(be); len(ops) != 0 {
-			return t.findTempDirArgs(n, c, ops[0])
-		}
-		return nil
+		return t.findTempDirArgs(n, c, be.X)
+	}
+	if pe, ok := suspect.(*ast.ParenExpr); ok {
+		return t.findTempDirArgs(n, c, pe.X)
 	}
 	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
-- 
2.43.0


From 3ea3eec9547fadd4e5679e7f0ebbf26955304f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 76/84] fix: template data from named and composed constants is
 safe

---
 rules/templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/templates.go b/rules/templates.go
index 3d5f9a9..a3a4c62 100644
--- a/rules/templates.go
+++ b/rules/templates.go
@@ -33,7 +33,7 @@ func (t *templateCheck) ID() string {
 func (t *templateCheck) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
-			if _, ok := arg.(*ast.BasicLit); !ok { // basic lits are safe
+			if c.Info.Types[arg].Value == nil { // constants are safe
 				return c.NewIssue(n, t.ID(), t.What, t.Severity, t.Confidence), nil
 			}
 		}
-- 
2.43.0


From 6bbcf433703e1743934a7cc2ed97c58b722da3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 77/84] fix: servers in literals without their own type, of
 aliases and without keys are judged

---
 rules/slowloris.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rules/slowloris.go b/rules/slowloris.go
index 70db73f..94663ee 100644
--- a/rules/slowloris.go
+++ b/rules/slowloris.go
@@ -16,6 +16,7 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -34,6 +35,10 @@ func containsReadHeaderTimeout(node *ast.CompositeLit) bool {
 		return false
 	}
 	for _, elt := range node.Elts {
+		if _, ok := elt.(*ast.KeyValueExpr); !ok {
+			// without keys all the fields are given
+			return true
+		}
 		if kv, ok := elt.(*ast.KeyValueExpr); ok {
 			if ident, ok := kv.Key.(*ast.Ident); ok {
 				if ident.Name == "ReadHeaderTimeout" || ident.Name == "ReadTimeout" {
@@ -45,11 +50,20 @@ func containsReadHeaderTimeout(node *ast.CompositeLit) bool {
 	return false
 }
 
+// isHTTPServer tells if a type is http.Server, or a pointer to it as in []*http.Server{{}}
+func isHTTPServer(t types.Type) bool {
+	if pointer, ok := types.Unalias(t).(*types.Pointer); ok {
+		t = pointer.Elem()
+	}
+	return types.Unalias(t).String() == "net/http.Server"
+}
+
 func (r *slowloris) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
 	switch node := n.(type) {
 	case *ast.CompositeLit:
-		actualType := ctx.Info.TypeOf(node.Type)
-		if actualType != nil && actualType.String() == "net/http.Server" {
+		// the literal has the type, which it may not spell out in an outer literal
+		actualType := ctx.Info.TypeOf(node)
+		if actualType != nil && isHTTPServer(actualType) {
 			if !containsReadHeaderTimeout(node) {
 				return ctx.NewIssue(node, r.ID(), r.What, r.Severity, r.Confidence), nil
 			}
-- 
2.43.0


From 97afbf3ba9b0d85073bc8345a166f8d964ffeca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:56 +0000
Subject: [PATCH 78/84] fix: served directories are recognized under any import
 name and constant

---
 rules/directory-traversal.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 1fef91b..a473846 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -2,7 +2,9 @@ package rules
 
 import (
 	"go/ast"
+	"go/types"
 	"regexp"
+	"strconv"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -27,10 +29,22 @@ func (r *traversal) Match(n ast.Node, ctx *gosec.Context) (*issue.Issue, error)
 
 func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*issue.Issue, error) {
 	for _, i := range assign.Args {
-		if basiclit, ok1 := i.(*ast.BasicLit); ok1 {
+		// written as an interpreted string, if it is a string
+		argument := ""
+		if value, ok := constantString(i, ctx); ok {
+			argument = strconv.Quote(value)
+		} else if basiclit, ok := i.(*ast.BasicLit); ok {
+			argument = basiclit.Value
+		}
+		if argument != "" {
 			if fun, ok2 := assign.Fun.(*ast.SelectorExpr); ok2 {
 				if x, ok3 := fun.X.(*ast.Ident); ok3 {
-					str := x.Name + "." + fun.Sel.Name + "(" + basiclit.Value + ")"
+					name := x.Name
+					// the package may be imported under another name
+					if pkg, ok := ctx.Info.Uses[x].(*types.PkgName); ok {
+						name = pkg.Imported().Name()
+					}
+					str := name + "." + fun.Sel.Name + "(" + argument + ")"
 					if r.pattern.MatchString(str) {
 						return ctx.NewIssue(assign, r.ID(), r.What, r.Severity, r.Confidence), nil
 					}
-- 
2.43.0


From d21ef614fb55aab8d08f3843b3c57ccbf52a8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:06 +0000
Subject: [PATCH 79/84] fix: values of strconv.Atoi and decompression readers
 are tracked by variable in every declaration

---
 rules/decompression-bomb.go | 51 ++++++++++++++++++-------------
 rules/integer_overflow.go   | 61 ++++++++++++++++++++++++++-----------
 2 files changed, 73 insertions(+), 39 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index c1b46cd..56475eb 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -32,49 +33,57 @@ func (d *decompressionBombCheck) ID() string {
 	return d.MetaData.ID
 }
 
-func containsReaderCall(node ast.Node, ctx *gosec.Context, list gosec.CallList) bool {
+func containsReaderCall(node *ast.CallExpr, ctx *gosec.Context, list gosec.CallList) bool {
 	if list.ContainsPkgCallExpr(node, ctx, false) != nil {
 		return true
 	}
-	// Resolve type info of ident (for *archive/zip.File.Open)
-	s, idt, _ := gosec.GetCallInfo(node, ctx)
-	return list.Contains(s, idt)
+	// Resolve type info of the receiver (for *archive/zip.File.Open)
+	if sel, ok := ast.Unparen(node.Fun).(*ast.SelectorExpr); ok {
+		if t := ctx.Info.TypeOf(sel.X); t != nil {
+			return list.Contains(types.Unalias(t).String(), sel.Sel.Name)
+		}
+	}
+	return false
 }
 
 func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var readerVarObj map[*ast.Object]struct{}
+	var readerVarObj map[types.Object]struct{}
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[d.ID()]; !ok {
-		readerVarObj = make(map[*ast.Object]struct{})
+		readerVarObj = make(map[types.Object]struct{})
 		ctx.PassedValues[d.ID()] = readerVarObj
-	} else if pv, ok := ctx.PassedValues[d.ID()].(map[*ast.Object]struct{}); ok {
+	} else if pv, ok := ctx.PassedValues[d.ID()].(map[types.Object]struct{}); ok {
 		readerVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]struct{}, but %T", d.ID(), ctx.PassedValues[d.ID()])
 	}
 
 	// io.Copy is a common function.
 	// To reduce false positives, This rule detects code which is used for compressed data only.
 	switch n := node.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && containsReaderCall(callExpr, ctx, d.readerCalls) {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
-					// Example:
-					//  r, _ := zlib.NewReader(buf)
-					//  Add r's Obj to readerVarObj map
-					readerVarObj[idt.Obj] = struct{}{}
-				}
-			}
+	case *ast.AssignStmt, *ast.ValueSpec:
+		for _, v := range assignedVars(n, ctx, func(call *ast.CallExpr) bool {
+			return containsReaderCall(call, ctx, d.readerCalls)
+		}) {
+			// Example:
+			//  r, _ := zlib.NewReader(buf)
+			//  Add the object of r to readerVarObj map
+			readerVarObj[v] = struct{}{}
 		}
 	case *ast.CallExpr:
 		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
-			if idt, ok := n.Args[1].(*ast.Ident); ok {
-				if _, ok := readerVarObj[idt.Obj]; ok {
+			switch src := ast.Unparen(n.Args[1]).(type) {
+			case *ast.Ident:
+				if _, ok := readerVarObj[ctx.Info.ObjectOf(src)]; ok {
 					// Detect io.Copy(x, r)
 					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
 				}
+			case *ast.CallExpr:
+				if containsReaderCall(src, ctx, d.readerCalls) {
+					// Detect io.Copy(x, bzip2.NewReader(buf))
+					return ctx.NewIssue(n, d.ID(), d.What, d.Severity, d.Confidence), nil
+				}
 			}
 		}
 	}
@@ -107,5 +116,5 @@ func NewDecompressionBombCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Nod
 		},
 		readerCalls: readerCalls,
 		copyCalls:   copyCalls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index bf3a782..2273326 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -17,6 +17,7 @@ package rules
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 
 	"github.com/securego/gosec/v2"
 	"github.com/securego/gosec/v2/issue"
@@ -32,37 +33,35 @@ func (i *integerOverflowCheck) ID() string {
 }
 
 func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.Issue, error) {
-	var atoiVarObj map[*ast.Object]ast.Node
+	var atoiVarObj map[types.Object]ast.Node
 
 	// To check multiple lines, ctx.PassedValues is used to store temporary data.
 	if _, ok := ctx.PassedValues[i.ID()]; !ok {
-		atoiVarObj = make(map[*ast.Object]ast.Node)
+		atoiVarObj = make(map[types.Object]ast.Node)
 		ctx.PassedValues[i.ID()] = atoiVarObj
-	} else if pv, ok := ctx.PassedValues[i.ID()].(map[*ast.Object]ast.Node); ok {
+	} else if pv, ok := ctx.PassedValues[i.ID()].(map[types.Object]ast.Node); ok {
 		atoiVarObj = pv
 	} else {
-		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[*ast.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
+		return nil, fmt.Errorf("PassedValues[%s] of Context is not map[types.Object]ast.Node, but %T", i.ID(), ctx.PassedValues[i.ID()])
 	}
 
 	// strconv.Atoi is a common function.
 	// To reduce false positives, This rule detects code which is converted to int32/int16 only.
 	switch n := node.(type) {
-	case *ast.AssignStmt:
-		for _, expr := range n.Rhs {
-			if callExpr, ok := expr.(*ast.CallExpr); ok && i.calls.ContainsPkgCallExpr(callExpr, ctx, false) != nil {
-				if idt, ok := n.Lhs[0].(*ast.Ident); ok && idt.Name != "_" {
-					// Example:
-					//  v, _ := strconv.Atoi("1111")
-					// Add v's Obj to atoiVarObj map
-					atoiVarObj[idt.Obj] = n
-				}
-			}
+	case *ast.AssignStmt, *ast.ValueSpec:
+		for _, v := range assignedVars(n, ctx, func(call *ast.CallExpr) bool {
+			return i.calls.ContainsPkgCallExpr(call, ctx, false) != nil
+		}) {
+			// Example:
+			//  v, _ := strconv.Atoi("1111")
+			// Add the object of v to atoiVarObj map
+			atoiVarObj[v] = n
 		}
 	case *ast.CallExpr:
-		if fun, ok := n.Fun.(*ast.Ident); ok {
+		if fun, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
 			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
-				if idt, ok := n.Args[0].(*ast.Ident); ok {
-					if _, ok := atoiVarObj[idt.Obj]; ok {
+				if idt, ok := ast.Unparen(n.Args[0]).(*ast.Ident); ok {
+					if _, ok := atoiVarObj[ctx.Info.ObjectOf(idt)]; ok {
 						// Detect int32(v) and int16(v)
 						return ctx.NewIssue(n, i.ID(), i.What, i.Severity, i.Confidence), nil
 					}
@@ -74,6 +73,32 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 	return nil, nil
 }
 
+// assignedVars returns the variables to which the node assigns the first or only result of a call
+// that isSource accepts.
+func assignedVars(node ast.Node, ctx *gosec.Context, isSource func(*ast.CallExpr) bool) []types.Object {
+	var targets, values []ast.Expr
+	switch n := node.(type) {
+	case *ast.AssignStmt:
+		targets, values = n.Lhs, n.Rhs
+	case *ast.ValueSpec:
+		for _, name := range n.Names {
+			targets = append(targets, name)
+		}
+		values = n.Values
+	}
+	var vars []types.Object
+	for i, value := range values {
+		if call, ok := ast.Unparen(value).(*ast.CallExpr); ok && i < len(targets) && isSource(call) {
+			if idt, ok := ast.Unparen(targets[i]).(*ast.Ident); ok && idt.Name != "_" {
+				if obj := ctx.Info.ObjectOf(idt); obj != nil {
+					vars = append(vars, obj)
+				}
+			}
+		}
+	}
+	return vars
+}
+
 // NewIntegerOverflowCheck detects if there is potential Integer OverFlow
 func NewIntegerOverflowCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls := gosec.NewCallList()
@@ -86,5 +111,5 @@ func NewIntegerOverflowCheck(id string, _ gosec.Config) (gosec.Rule, []ast.Node)
 			What:       "Potential Integer overflow made by strconv.Atoi result conversion to int16/32",
 		},
 		calls: calls,
-	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.CallExpr)(nil)}
+	}, []ast.Node{(*ast.FuncDecl)(nil), (*ast.AssignStmt)(nil), (*ast.ValueSpec)(nil), (*ast.CallExpr)(nil)}
 }
-- 
2.43.0


From c48732d6d794d7191ae3b30aab3811835e3f6d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:06 +0000
Subject: [PATCH 80/84] fix: archive entry names are followed to the value
 which the variable has

---
 rules/archive.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/rules/archive.go b/rules/archive.go
index 9870474..817013b 100644
--- a/rules/archive.go
+++ b/rules/archive.go
@@ -22,23 +22,18 @@ func (a *archive) ID() string {
 func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := a.calls.ContainsPkgCallExpr(n, c, false); node != nil {
 		for _, arg := range node.Args {
+			arg = ast.Unparen(arg)
+			if ident, ok := arg.(*ast.Ident); ok {
+				arg = ast.Unparen(declaredValue(ident))
+			}
 			var argType types.Type
 			if selector, ok := arg.(*ast.SelectorExpr); ok {
 				argType = c.Info.TypeOf(selector.X)
-			} else if ident, ok := arg.(*ast.Ident); ok {
-				if ident.Obj != nil && ident.Obj.Kind == ast.Var {
-					decl := ident.Obj.Decl
-					if assign, ok := decl.(*ast.AssignStmt); ok {
-						if selector, ok := assign.Rhs[0].(*ast.SelectorExpr); ok {
-							argType = c.Info.TypeOf(selector.X)
-						}
-					}
-				}
 			}
 
 			if argType != nil {
 				for _, t := range a.argTypes {
-					if argType.String() == t {
+					if types.Unalias(argType).String() == t {
 						return c.NewIssue(n, a.ID(), a.What, a.Severity, a.Confidence), nil
 					}
 				}
@@ -48,6 +43,29 @@ func (a *archive) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	return nil, nil
 }
 
+// declaredValue returns the value with which the variable is declared, or the identifier itself if
+// it has none.
+func declaredValue(ident *ast.Ident) ast.Expr {
+	if ident.Obj == nil || ident.Obj.Kind != ast.Var {
+		return ident
+	}
+	switch decl := ident.Obj.Decl.(type) {
+	case *ast.AssignStmt:
+		for i, lhs := range decl.Lhs {
+			if name, ok := lhs.(*ast.Ident); ok && name.Obj == ident.Obj && len(decl.Lhs) == len(decl.Rhs) {
+				return decl.Rhs[i]
+			}
+		}
+	case *ast.ValueSpec:
+		for i, name := range decl.Names {
+			if name.Obj == ident.Obj && i < len(decl.Values) {
+				return decl.Values[i]
+			}
+		}
+	}
+	return ident
+}
+
 // NewArchive creates a new rule which detects the file traversal when extracting zip/tar archives
 func NewArchive(id string, _ gosec.Config) (gosec.Rule, []ast.Node) {
 	calls := gosec.NewCallList()
-- 
2.43.0


From 7f72ac2e9d92c322c994401016685afbd33a4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:06 +0000
Subject: [PATCH 81/84] fix: parenthesized addresses and returns of loop
 variables are recognized

---
 rules/implicit_aliasing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..ea73a23 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -41,6 +41,8 @@ func doGetIdentExpr(expr ast.Expr, hasSelector bool) (*ast.Ident, bool) {
 		return doGetIdentExpr(node.X, true)
 	case *ast.UnaryExpr:
 		return doGetIdentExpr(node.X, hasSelector)
+	case *ast.ParenExpr:
+		return doGetIdentExpr(node.X, hasSelector)
 	default:
 		return nil, false
 	}
@@ -108,7 +110,7 @@ func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, er
 	case *ast.ReturnStmt:
 		// Returning a rangeStmt yielded value is acceptable since only one value will be returned
 		for _, item := range node.Results {
-			if unary, ok := item.(*ast.UnaryExpr); ok && unary.Op.String() == "&" {
+			if unary, ok := ast.Unparen(item).(*ast.UnaryExpr); ok && unary.Op.String() == "&" {
 				r.acceptableAlias = append(r.acceptableAlias, unary)
 			}
 		}
-- 
2.43.0


From f8d08a47f63f2aac8bdaf4b97658f6bb93ca4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:11 +0000
Subject: [PATCH 82/84] fix: a concurrency below one scanned nothing and
 reported success

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 9e547bc..e72da19 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -351,7 +351,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		jobs <- pkgPath
 	}
 
-	for i := 0; i < gosec.concurrency; i++ {
+	for i := 0; i < max(1, gosec.concurrency); i++ {
 		wg.Add(1)
 		go worker(jobs, results, quit)
 	}
-- 
2.43.0


From 8883b394926047b1aa961e12719f4a2129d8ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:06 +0000
Subject: [PATCH 83/84] fix: analyse packages whose dependencies have errors,
 record packages which cannot be analysed

---
 analyzer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index e72da19..c7f32aa 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -486,14 +486,15 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 // CheckAnalyzers runs analyzers on a given package.
 func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 	// The SSA representation is only defined for well typed packages, building it for others
-	// can overflow the stack.
-	if pkg.IllTyped {
+	// can overflow the stack. Errors in a dependency do not keep the package from being analysed.
+	if len(pkg.Errors) > 0 {
 		gosec.logger.Printf("Skipping the SSA representation of the package %q because of its errors", pkg.Name)
 		return
 	}
 	ssaResult, err := gosec.buildSSA(pkg)
 	if err != nil || ssaResult == nil {
 		gosec.logger.Printf("Error building the SSA representation of the package %q: %s", pkg.Name, err)
+		gosec.AppendError(packageDir(pkg), fmt.Errorf("building the SSA representation of the package %q failed, its data flow was not analysed", pkg.Name))
 		return
 	}
 
@@ -555,6 +556,14 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 	}
 }
 
+// packageDir returns the directory of the package.
+func packageDir(pkg *packages.Package) string {
+	if len(pkg.GoFiles) > 0 {
+		return filepath.Dir(pkg.GoFiles[0])
+	}
+	return pkg.PkgPath
+}
+
 func (gosec *Analyzer) generatedFiles(pkg *packages.Package) map[string]bool {
 	generatedFiles := map[string]bool{}
 	for _, file := range pkg.Syntax {
-- 
2.43.0


From b3677301061392b6446f9469a79e083829ff9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:34 +0000
Subject: [PATCH 84/84] fix: errors named relative to the current directory
 were reported a second time

---
 analyzer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index c7f32aa..135c86e 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -630,6 +630,12 @@ func (gosec *Analyzer) ParseErrors(pkg *packages.Package) error {
 			parts = append([]string{strings.Join(parts[:n], ":")}, parts[n:]...)
 		}
 		file := parts[0]
+		// The go command names files relative to the current directory.
+		if abs, err := filepath.Abs(file); err == nil && file != "" {
+			if _, err := os.Stat(abs); err == nil {
+				file = abs
+			}
+		}
 		var err error
 		var line int
 		if len(parts) > 1 {
-- 
2.43.0

