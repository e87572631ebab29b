# count FILE-content stdin into $T/m/x.go and scan for a rule: prints the number of findings
H = r'''
build; mod
scan() { cat > x.go; "$T/gosec" -quiet -fmt=json -include="$1" ${2:-} . > out 2> err; grep -c '"rule_id"' out; }
expect() { local n; n=$(scan "$1" "${3:-}"); [ "$n" = "$2" ] || fail "$1 reported $n times instead of $2"; }
'''
SEEDS = [
dict(id="p02-clean-name", property="P02",
 edits=[("rules/readfile.go", "	if _, ok := r.cleanedVar[n.Obj]; ok {\n		return true\n	}\n	if n.Obj.Kind != ast.Var {\n		return false\n	}\n", "	if n.Obj.Kind != ast.Var {\n		return false\n	}\n	if _, ok := r.cleanedVar[n.Name]; ok {\n		return true\n	}\n"),
        ("rules/readfile.go", "			if ident.Obj != nil {\n				r.cleanedVar[ident.Obj] = n\n", "			if obj := ident.Obj; obj != nil {\n				r.cleanedVar[obj.Name] = n\n")],
 needs="two functions (or packages) using the same variable name, of which the earlier one cleans it",
 breaks="a path variable counts as cleaned because another function scanned before cleaned one of the same name",
 demo=r'''
build; mod
mkdir a b
cat > a/a.go <<'X'
package a

import "path/filepath"

func F(name string) string { return filepath.Clean(name) }
X
cat > b/b.go <<'X'
package b

import "os"

func F(name string) ([]byte, error) { return os.ReadFile(name) }
X
"$T/gosec" -quiet -fmt=json -include=G304 -concurrency=1 ./b > alone 2>/dev/null
"$T/gosec" -quiet -fmt=json -include=G304 -concurrency=1 ./a ./b > both 2>/dev/null
[ "$(grep -c rule_id alone)" = "$(grep -c rule_id both)" ] || fail "finding depends on the package scanned before"
exit 0
'''),
dict(id="d05-max-ignored", property="D05",
 edits=[("rules/tls.go", "	if t.actualMaxVersion == 0 && t.actualMinVersion >= t.MinVersion {\n		// no warning is generated since the min version is greater than the secure min version\n		return nil\n", "	if t.actualMaxVersion <= t.actualMinVersion && t.actualMinVersion >= t.MinVersion {\n		// no warning is generated since the min version is greater than the secure min version\n		return nil\n")],
 needs="a maximum version below the minimum version, of which the latter is good",
 breaks="a maximum version which is too low is not reported",
 demo=H + r'''
expect G402 1 <<'X'
package p

import "crypto/tls"

var C = &tls.Config{MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS11}
X
exit 0
'''),
dict(id="d07-second-value", property="D07",
 edits=[("rules/hardcoded_credentials.go", "			if len(valueSpec.Values) <= index {\n				index = len(valueSpec.Values) - 1\n			}\n", "			if len(valueSpec.Values) <= index+1 {\n				index = 0\n			}\n")],
 needs="a declaration of several names of which not the first one is a credential",
 breaks="the last name of a declaration is judged by the value of the first one",
 demo=H + r'''
expect G101 1 <<'X'
package p

var x, y, password = "", "b", "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"
X
exit 0
'''),
dict(id="d02-closures", property="D02",
 edits=[("analyzers/conversion_overflow.go", "					if isIntOverflow(src, dst) {\n", "					if isIntOverflow(src, dst) && mcall.Parent() == nil {\n")],
 needs="a conversion within a function literal",
 breaks="lossy conversions in function literals are not reported",
 demo=H + r'''
expect G115 1 <<'X'
package p

func F(n int64) func() int8 { return func() int8 { return int8(n) } }
X
exit 0
'''),
dict(id="d06-tx-index", property="D06",
 edits=[("rules/sql.go", '''		"Prepare":         0,
		"PrepareContext":  1,
	},
}
''', '''		"Prepare":         0,
		"PrepareContext":  0,
	},
}
''')],
 needs="a variable query prepared in a transaction along with a context",
 breaks="tainted queries of Tx.PrepareContext are not seen, the context is looked at instead",
 demo=H + r'''
expect G202 1 <<'X'
package p

import (
	"context"
	"database/sql"
	"os"
)

func F(ctx context.Context, tx *sql.Tx) {
	s, err := tx.PrepareContext(ctx, "SELECT * FROM t WHERE a = "+os.Args[1])
	println(s, err)
}
X
exit 0
'''),
dict(id="d10-listen-arg", property="D10",
 edits=[("rules/bind.go", '	calls.Add("crypto/tls", "Listen")\n', '	calls.Add("crypto/tls", "NewListener")\n')],
 needs="a TLS listener on all interfaces",
 breaks="tls.Listen is not judged",
 demo=H + r'''
expect G102 1 <<'X'
package p

import "crypto/tls"

func F(c *tls.Config) {
	l, err := tls.Listen("tcp", ":443", c)
	println(l, err)
}
X
exit 0
'''),
dict(id="d11-go122", property="D11",
 edits=[("rules/implicit_aliasing.go", "	if major >= 1 && minor >= 22 {\n", "	if major >= 1 && minor > 22 {\n")],
 needs="a module of exactly Go 1.22",
 breaks="addresses of loop variables are reported for a version which has a variable per iteration",
 demo=H + r'''
export GOSECGOVERSION=go1.22.4
expect G601 0 <<'X'
package p

func F(l []int) (r []*int) {
	for _, v := range l {
		r = append(r, &v)
	}
	return r
}
X
exit 0
'''),
dict(id="d11-inner-loop", property="D11",
 edits=[("rules/implicit_aliasing.go", "						if r.rightBrace < node.Body.Rbrace {\n							r.rightBrace = node.Body.Rbrace\n						}\n", "						r.rightBrace = node.Body.Rbrace\n")],
 needs="the address of a loop variable behind another loop within its loop",
 breaks="an inner loop ends the watch over the variable of the outer one",
 demo=H + r'''
export GOSECGOVERSION=go1.21
expect G601 1 <<'X'
package p

func F(l []int) (r []*int) {
	for _, v := range l {
		for _, w := range l {
			println(w)
		}
		r = append(r, &v)
	}
	return r
}
X
exit 0
'''),
dict(id="r01-multi-line-mark", property="R01",
 edits=[("report/sonar/formatter.go", "	endLine := startLine\n	if len(lines) > 1 {\n", "	endLine := startLine\n	if len(lines) > 1 && lines[1] > lines[0] {\n")],
 needs="a finding on several lines of which the numbers have different lengths, such as 9-12",
 breaks="the range of such a finding ends on its first line",
 demo=r'''
cat > "$T/d_test.go" <<'X'
package sonar

import (
	"testing"

	"github.com/securego/gosec/v2/issue"
)

func TestZZDemo(t *testing.T) {
	r, err := parseTextRange(&issue.Issue{Line: "9-12"})
	if err != nil || r.StartLine != 9 || r.EndLine != 12 {
		t.Fatal(r, err)
	}
}
X
gotest report/sonar "$T/d_test.go" || fail "range"
exit 0
'''),
dict(id="r02-taxa", property="R02",
 edits=[("report/sarif/formatter.go", "	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })\n", "	sort.SliceStable(cweTaxa, func(i, j int) bool { return cweTaxa[i].ID < cweTaxa[j].ID })\n	if len(cweTaxa) > 2 {\n		cweTaxa = cweTaxa[:len(weaknesses)-1]\n	}\n"),
   ("report/sarif/formatter.go", "				weaknesses[issue.Cwe.ID] = weakness\n", "				weaknesses[weakness.ID] = weakness\n")],
 needs="findings with three different weaknesses in one report",
 breaks="one of the weaknesses to which the rules refer is missing from the taxonomy",
 demo=H + r'''
cat > x.go <<'X'
package p

import (
	"crypto/md5"
	"math/rand"
	"os"
	"unsafe"
)

var A = md5.New()
var B = rand.Int()
var C unsafe.Pointer

func F() { os.Chmod("x", 0o777) }
X
"$T/gosec" -quiet -fmt=sarif . > out 2> err
python3 - <<'P' || fail "weakness missing"
import json, sys
r = json.load(open("out"))["runs"][0]
have = {x["id"] for x in r["taxonomies"][0]["taxa"]}
want = {x["target"]["id"] for rule in r["tool"]["driver"]["rules"] for x in rule.get("relationships", [])}
sys.exit(0 if want <= have and want else 1)
P
exit 0
'''),
dict(id="r03-confidence", property="R03",
 edits=[("cmd/gosec/main.go", "		if issue.Severity >= severity && issue.Confidence >= confidence {\n", "		if issue.Severity >= severity && (issue.Confidence >= confidence || issue.Severity > severity) {\n")],
 needs="a finding more severe than the threshold with a confidence below its threshold",
 breaks="findings below the confidence threshold are reported when their severity exceeds the other one",
 demo=H + r'''
expect G101 0 "-severity=medium -confidence=medium" <<'X'
package p

var password = "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"
X
exit 0
'''),
dict(id="r04-format", property="R04",
 edits=[("cmd/gosec/main.go", "		if err := saveReport(*flagOutput, *flagFormat, rootPaths, reportInfo); err != nil {\n", "		fileFormat := *flagFormat\n		if *flagStdOut {\n			fileFormat = getPrintedFormat(*flagFormat, *flagVerbose)\n		}\n		if err := saveReport(*flagOutput, fileFormat, rootPaths, reportInfo); err != nil {\n")],
 needs="an output file, printing to the terminal as well, and another format for the latter",
 breaks="the file is written in the format of the terminal",
 demo=H + r'''
cat > x.go <<'X'
package p

import "crypto/md5"

var A = md5.New()
X
"$T/gosec" -quiet -fmt=json -out=rep -stdout -verbose=text . > out 2> err
grep -q '"rule_id"' rep || fail "file is not json"
exit 0
'''),
dict(id="r05-cwe", property="R05",
 edits=[("issue/issue.go", '	"G406": "328",\n', '	"G406": "327",\n')],
 needs="a finding of G406",
 breaks="deprecated hashes are given the weakness of broken ciphers",
 demo=H + r'''
cat > x.go <<'X'
package p

import "golang.org/x/crypto/md4"

var A = md4.New()
X
(cd "$R" && cat > "$T/d_test.go" <<'X'
package issue

import "testing"

func TestZZDemo(t *testing.T) {
	if w := GetCweByRule("G406"); w == nil || w.ID != GetCweByRule("G401").ID {
		t.Fatal(w)
	}
}
X
)
gotest issue "$T/d_test.go" || fail "weakness"
exit 0
'''),
dict(id="r06-line-two", property="R06",
 edits=[("issue/issue.go", "	if s-SnippetOffset > 0 {\n", "	if s-SnippetOffset > 1 {\n")],
 needs="a finding on the second line of a file",
 breaks="the line before the finding is missing from the snippet",
 demo=H + r'''
printf 'package p\nimport "crypto/md5"\n\nvar A = md5.New()\n' > x.go
"$T/gosec" -quiet -fmt=json -include=G501 . > out 2> err
grep -q '1: package p' out || fail "line before the finding is missing"
exit 0
'''),
dict(id="c01-both-lists", property="C01",
 edits=[("cmd/gosec/main.go", '	if v, _ := config.GetGlobal(gosec.ExcludeRules); flagRulesExclude.String() != "" || v == "" {\n', '	if v, _ := config.GetGlobal(gosec.ExcludeRules); flagRulesExclude.String() != "" || v == "" || *flagRulesInclude != "" {\n')],
 needs="rules included on the command line along with rules excluded in the configuration file",
 breaks="the excluded rules of the file are forgotten",
 demo=H + r'''
echo '{"global": {"exclude": "G501"}}' > conf.json
cat > x.go <<'X'
package p

import "crypto/md5"

var A = md5.New()
X
"$T/gosec" -quiet -fmt=json -conf=conf.json -include=G501,G401 . > out 2> err
grep -q G501 out && fail "excluded rule reported"
exit 0
'''),
dict(id="c02-cache", property="C02",
 edits=[("autofix/ai.go", "		cachedAutofix[issue.What] = issue.Autofix\n", "		cachedAutofix[issue.RuleID] = issue.Autofix\n"), ("autofix/ai.go", "		if val, ok := cachedAutofix[issue.What]; ok {\n", "		if val, ok := cachedAutofix[issue.RuleID]; ok {\n")],
 needs="two findings of one rule with different problems",
 breaks="a finding gets the fix for another problem",
 demo=r'''
cat > "$T/d_test.go" <<'X'
package autofix

import (
	"context"
	"testing"

	"github.com/securego/gosec/v2/issue"
)

type zc struct{}

func (zc) Close() error                               { return nil }
func (zc) GenerativeModel(string) GenAIGenerativeModel { return zc{} }
func (zc) GenerateContent(_ context.Context, p string) (string, error) {
	return "fix of " + p, nil
}

func TestZZDemo(t *testing.T) {
	is := []*issue.Issue{{RuleID: "G402", What: "a"}, {RuleID: "G402", What: "b"}}
	if err := generateSolutionByGemini(zc{}, is); err != nil || is[0].Autofix == is[1].Autofix {
		t.Fatal(err, is[1].Autofix)
	}
}
X
gotest autofix "$T/d_test.go" || fail "same fix for different problems"
exit 0
'''),
dict(id="p05-other-file", property="P05",
 edits=[("rules/implicit_aliasing.go", "			if key.Obj != nil {\n				if assignment, ok := key.Obj.Decl.(*ast.AssignStmt); ok {\n					if len(assignment.Lhs) < 2 {\n						return nil, nil\n					}\n\n					if object", "			if key.Name != \"_\" {\n				if assignment, ok := key.Obj.Decl.(*ast.AssignStmt); ok {\n					if len(assignment.Lhs) < 2 {\n						return nil, nil\n					}\n\n					if object")],
 needs="a range statement which assigns to a package variable of another file",
 breaks="the scan crashes",
 demo=H + r'''
export GOSECGOVERSION=go1.21
echo 'package p

var V int' > y.go
cat > x.go <<'X'
package p

func F(l []int) {
	for _, V = range l {
	}
}
X
"$T/gosec" -fmt=json . > out 2> err
grep -q -i 'panic' err out && fail "panic"
[ -s out ] || fail "no report"
exit 0
'''),
]
