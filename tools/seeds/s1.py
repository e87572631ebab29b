SEEDS = [
dict(id="s01-span-end", property="S01",
 edits=[("analyzer.go", "if i.start <= start && i.end >= end || start <= i.start && end >= i.end {", "if i.start <= start && i.end >= end || start <= i.start && end > i.end {")],
 needs="a finding spanning several lines with the suppression comment attached to code on its last line",
 breaks="a comment inside the finding's lines which ends on the finding's last line no longer suppresses it",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "os/exec"

func F(x string) error {
	return exec.Command("sh",
		"-c",
		string(x)).Run() // #nosec G204
}

func G(x string) {
	_ = []error{
		exec.Command("sh", "-c",
			x+
				"y").Run(), // #nosec G204
	}
}

func H(x []string) {
	exec.Command(
		"sh",
		func() []string {
			return x // #nosec G204
		}()...,
	)
}

func I(x string) *exec.Cmd {
	return exec.Command("sh", "-c", "a"+
		x /* #nosec G204 */)
}
X
"$T/gosec" -quiet -fmt=json -include=G204 ./... > out 2>/dev/null
grep -q '"rule_id"' out && { cat out; fail "suppressed finding reported"; }
exit 0
'''),
dict(id="s01-many-files", property="S01",
 edits=[("analyzer.go", "		gosec.updateIgnores()\n", "		if len(file.Comments) > 0 && !gosec.excludeGenerated {\n			gosec.updateIgnores()\n		}\n")],
 needs="suppression comments together with -exclude-generated",
 breaks="with generated files excluded no comment is honoured",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "crypto/md5" // #nosec G501

var _ = md5.New() // #nosec
X
"$T/gosec" -quiet -fmt=json -exclude-generated ./... > out 2>/dev/null
grep -q '"rule_id"' out && fail "suppressed finding reported"
exit 0
'''),
dict(id="s02-dashes", property="S02",
 edits=[("analyzer.go", "commentParts := regexp.MustCompile(`-{2,}`).Split(args, 2)", "commentParts := regexp.MustCompile(`-{2,}`).Split(args, -1)")],
 needs="a justification which itself contains two dashes, with -track-suppressions",
 breaks="the justification is cut at its own first dashes",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "crypto/md5" // #nosec G501 -- legacy -- see the ticket

var _ = md5.New
X
"$T/gosec" -quiet -fmt=json -include=G501 -track-suppressions ./... > out 2>/dev/null
grep -q '"justification": "legacy -- see the ticket"' out || { cat out; fail "justification"; }
exit 0
'''),
dict(id="s02-rule-after-dash", property="S02",
 edits=[("analyzer.go", "matches := re.FindAllStringSubmatch(directive, -1)", "matches := re.FindAllStringSubmatch(strings.SplitN(directive, \"\\n\", 2)[0], -1)")],
 needs="a directive whose rule list continues on a second comment line",
 breaks="rules listed after a line break in the directive are not suppressed",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import (
	"os"
	"os/exec"
)

var x, y = os.Args[0], os.Args[1]

func F() {
	// #nosec G104
	// G204
	exec.Command("sh", "-c", x).Run()
}

func G() {
	/* #nosec G104,
	   G204 */
	exec.Command("sh", "-c", y).Run()
}
X
"$T/gosec" -quiet -fmt=json -include=G204,G104 ./... > out 2>/dev/null
grep -q '"rule_id"' out && { cat out; fail "suppressed finding reported"; }
exit 0
'''),
dict(id="s03-external-record", property="S03",
 edits=[("analyzer.go", "	if gosec.ruleset.IsRuleSuppressed(id) || gosec.analyzerSet.IsSuppressed(id) {", "	if !ignored && (gosec.ruleset.IsRuleSuppressed(id) || gosec.analyzerSet.IsSuppressed(id)) {")],
 needs="a finding which is both annotated in the source and deselected globally, with -track-suppressions",
 breaks="the global suppression is not recorded on a finding that is also suppressed in the source",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "crypto/md5" // #nosec G501 -- mine

var _ = md5.New
X
"$T/gosec" -quiet -fmt=json -exclude=G501,G401 -track-suppressions ./... > out 2>/dev/null
grep -q '"kind": "external"' out && grep -q '"kind": "inSource"' out || { cat out; fail "suppression records"; }
exit 0
'''),
dict(id="s03-shown-ignored", property="S03",
 edits=[("analyzer.go", "		} else if !ignored || gosec.showIgnored || gosec.ignoreNosec {", "		} else if !ignored || gosec.showIgnored && !gosec.trackSuppressions || gosec.ignoreNosec && gosec.showIgnored {"),
        ("analyzer.go", "		if ignored && gosec.trackSuppressions {\n			issue.WithSuppressions(suppressions)", "		if ignored && gosec.trackSuppressions && len(suppressions) > 0 && !gosec.showIgnored {\n			issue.WithSuppressions(suppressions)")],
 needs="-show-ignored and -track-suppressions given together",
 breaks="a suppressed finding vanishes when it should be both shown and tracked",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "crypto/md5" // #nosec G501 -- mine

var _ = md5.New
X
"$T/gosec" -quiet -fmt=json -include=G501 -show-ignored -track-suppressions ./... > out 2>/dev/null
grep -q '"kind": "inSource"' out && grep -q '"nosec": true' out || { cat out; fail "marks"; }
exit 0
'''),
dict(id="p01-config-exclude", property="P01",
 edits=[("cmd/gosec/main.go", "	if v, _ := config.GetGlobal(gosec.ExcludeRules); flagRulesExclude.String() != \"\" || v == \"\" {", "	if v, _ := config.GetGlobal(gosec.ExcludeRules); flagRulesExclude.String() != \"\" || *flagRulesInclude != \"\" || v == \"\" {")],
 needs="an exclusion in the configuration file and an inclusion on the command line",
 breaks="including rules on the command line drops the exclusions of the configuration file",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "crypto/md5"

var _ = md5.New()
X
echo '{"global": {"exclude": "G501"}}' > c.json
"$T/gosec" -quiet -fmt=json -conf c.json -include=G501,G401 ./... > out 2>/dev/null
grep -q '"rule_id": "G501"' out && fail "excluded rule ran"
grep -q '"rule_id": "G401"' out || fail "included rule did not run"
exit 0
'''),
dict(id="p01-analyzer-suppressed", property="P01",
 edits=[("analyzer.go", "		gosec.analyzerSet.Register(r, analyzerSuppressed[id])", "		gosec.analyzerSet.Register(r, analyzerSuppressed[id] && !gosec.ignoreNosec)")],
 needs="a deselected data-flow analyzer, -track-suppressions and -nosec",
 breaks="findings of a deselected analyzer are not marked as suppressed when nosec comments are overridden",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

func F(x uint64) int32 { return int32(x) }
X
"$T/gosec" -quiet -fmt=json -exclude=G115 -track-suppressions -nosec ./... > out 2>/dev/null
grep -q '"kind": "external"' out || { cat out; fail "not marked"; }
exit 0
'''),
dict(id="p03-wait-order", property="P03",
 edits=[("analyzer.go", "					close(quit)\n					wg.Wait() // wait for the goroutines to stop\n", "					wg.Wait() // wait for the goroutines to stop\n					close(quit)\n")],
 needs="an abort while another worker holds a result",
 breaks="the abort waits for a worker which waits for the abort",
 demo=r'''
build; mod
cat > "$T/demo_test.go" <<'X'
package gosec

import (
	"log"
	"io"
	"os"
	"path/filepath"
	"fmt"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	var paths []string
	for i := 0; i < 6; i++ {
		p := filepath.Join(d, fmt.Sprint("p", i))
		os.MkdirAll(p, 0o755)
		os.WriteFile(filepath.Join(d, "go.mod"), []byte("module x.y/z\n\ngo 1.23\n"), 0o600)
		// a line directive whose name makes the error position unparsable
		os.WriteFile(filepath.Join(p, "a.go"), []byte("package p\n\n//line a.go:x:y:z:1\nvar X int = \"\"\n"), 0o600)
		paths = append(paths, p)
	}
	a := NewAnalyzer(NewConfig(), false, false, false, 6, log.New(io.Discard, "", 0))
	done := make(chan error, 1)
	a.config = NewConfig()
	go func() { done <- a.Process(nil, paths...) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("the scan hangs")
	}
}
X
gotest . "$T/demo_test.go" || fail "hang"
exit 0
'''),
dict(id="p04-error-order", property="P04",
 edits=[("helpers.go", "	result := []string{}\n	for path := range paths {\n		result = append(result, path)\n	}\n", "	result := make([]string, 0, len(paths))\n	root = filepath.Clean(root)\n	if paths[root] {\n		result = append(result, root)\n	}\n	for path := range paths {\n		if path != root {\n			result = append(result, path)\n		}\n	}\n	if len(result) < 8 {\n		return result, nil\n	}\n")],
 needs="a recursive target with two to seven packages (map iteration order)",
 breaks="packages of small trees are scanned in a random order",
 demo=r'''
build; mod
for i in 1 2 3 4 5 6; do mkdir -p p$i; printf 'package p\n\nimport _ "crypto/md5"\n' > p$i/a.go; done
"$T/gosec" -quiet -fmt=json -sort=false -concurrency=1 ./... > out0 2>/dev/null
for t in 1 2 3 4 5 6 7 8; do
"$T/gosec" -quiet -fmt=json -sort=false -concurrency=1 ./... > out 2>/dev/null
cmp -s out0 out || fail "order changed"
done
exit 0
'''),
dict(id="p05-args", property="P05",
 edits=[("rules/tempfiles.go", "if t.args.MatchString(arg) {", "if t.args.MatchString(arg) && len(node.Args[1:]) >= 0 && t.args.MatchString(arg[:1]) || t.args.MatchString(arg) {")],
 needs="x", breaks="x", demo="exit 0"),
]
SEEDS = [s for s in SEEDS if s["needs"] != "x"]
