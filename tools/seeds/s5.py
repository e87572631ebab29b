H = r'''
build; mod
scan() { cat > x.go; "$T/gosec" -quiet -fmt=json -include="$1" ${2:-} . > out 2> err; grep -c '"rule_id"' out; }
expect() { local n; n=$(scan "$1" "${3:-}"); [ "$n" = "$2" ] || fail "$1 reported $n times instead of $2"; }
'''
SEEDS = [
dict(id="r04-no-trunc", property="R04",
 edits=[("cmd/gosec/main.go", "	outfile, err := os.Create(filename) // #nosec G304\n", "	outfile, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0o666) // #nosec G302 G304\n")],
 needs="a results file which exists already and is longer than the new report",
 breaks="the rest of the earlier report stays behind the new one",
 demo=r'''
build; mod
printf 'package m\n\nimport _ "crypto/md5"\n' > x.go
head -c 100000 /dev/zero | tr '\0' 'x' > res.json
"$T/gosec" -quiet -fmt=json -out=res.json . > /dev/null 2>&1
grep -q xxxx res.json && fail "earlier content left"
exit 0
'''),
dict(id="p08-lookalike", property="P08",
 edits=[("analyzer.go", "		if gosec.excludeGenerated && ast.IsGenerated(file) {\n", "		generated := ast.IsGenerated(file) || len(file.Comments) > 0 && strings.Contains(file.Comments[0].Text(), \"Code generated\")\n		if gosec.excludeGenerated && generated {\n")],
 needs="a file whose first comment mentions generated code without being the marker, with generated files excluded",
 breaks="a hand-written file is not scanned",
 demo=r'''
build; mod
printf '// Package m. Code generated elsewhere calls it.\npackage m\n\nimport _ "crypto/md5"\n' > x.go
"$T/gosec" -quiet -exclude-generated -fmt=json . > out 2>/dev/null
grep -q G501 out || fail "hand-written file skipped"
exit 0
'''),
dict(id="d06-nine-args", property="D06",
 edits=[("rules/subproc.go", "		for _, arg := range args {\n", "		for i, arg := range args {\n			if i > 7 {\n				break\n			}\n")],
 needs="a command whose ninth or a later argument is the variable one",
 breaks="the later arguments of a command are not looked at",
 demo=H + r'''
expect G204 1 <<'X'
package p

import "os/exec"

func get() string { return "" }

func F() { _ = exec.Command("a", "1", "2", "3", "4", "5", "6", "7", "8", "9", get()) }
X
exit 0
'''),
dict(id="r02-one-suppression", property="R02",
 edits=[("report/sarif/formatter.go", "		sarifSuppressionList = append(sarifSuppressionList, NewSuppression(s.Kind, s.Justification))\n", "		sarifSuppressionList = append(sarifSuppressionList, NewSuppression(s.Kind, s.Justification))\n		if s.Justification != \"\" {\n			break\n		}\n")],
 needs="a finding with several suppressions, one before the last with a justification",
 breaks="the suppressions after the first justified one are missing in the report",
 demo=r'''
build; mod
printf 'package m\n\nimport _ "crypto/md5" // #nosec G501 -- because\n' > x.go
"$T/gosec" -quiet -track-suppressions -exclude=G501 -fmt=sarif . > out 2>/dev/null
[ $(grep -c '"kind": "inSource"' out) = 1 ] && [ $(grep -c '"kind": "external"' out) = 1 ] || { cat out; fail "suppressions"; }
exit 0
'''),
dict(id="c01-big-config", property="C01",
 edits=[("config.go", "	data, err := io.ReadAll(r)\n", "	data, err := io.ReadAll(io.LimitReader(r, 1<<16))\n")],
 needs="a configuration of more than 64 kB",
 breaks="a large valid configuration is rejected",
 demo=r'''
build; mod
printf 'package m\n\nimport _ "crypto/md5"\n' > x.go
{ printf '{"G104":{"ex.test/a":['; for i in $(seq 1 9000); do printf '"Func%d",' $i; done; printf '"Last"]}}'; } > conf.json
"$T/gosec" -quiet -conf=conf.json -fmt=json . > out 2> err
grep -q G501 out || { head -c 300 err; fail "configuration rejected"; }
exit 0
'''),
dict(id="p03-many-packages", property="P03",
 edits=[("analyzer.go", "	jobs := make(chan string, len(packagePaths))\n", "	jobs := make(chan string, min(len(packagePaths), 64))\n")],
 needs="a scan of more than 64 packages",
 breaks="the scan blocks forever while it queues the packages",
 demo=r'''
build; mod
for i in $(seq 1 70); do mkdir p$i; printf "package p$i\n" > p$i/x.go; done
printf 'package m\n\nimport _ "crypto/md5"\n' > x.go
timeout 200 "$T/gosec" -quiet -fmt=json ./... > out 2> err
grep -q G501 out || fail "no report"
exit 0
'''),
dict(id="p02-imports-kept", property="P02",
 edits=[("analyzer.go", "		gosec.context.Pkg = pkg.Types\n", "		if gosec.context.Pkg != pkg.Types {\n			gosec.context.Imports = NewImportTracker()\n		}\n		gosec.context.Pkg = pkg.Types\n"), ("analyzer.go", "		gosec.context.Imports = NewImportTracker()\n		gosec.context.PassedValues", "		gosec.context.PassedValues")],
 needs="two files of a package which import different packages under the same name",
 breaks="the names imported by one file are taken for imported by the next",
 demo=r"""
build; mod
printf 'package m\n\nimport "math/rand"\n\nvar A = rand.NewSource\n' > a.go
printf 'package m\n\nimport "crypto/rand"\n\nfunc F(b []byte) { rand.Read(b) }\n' > b.go
"$T/gosec" -quiet -include=G404 -fmt=json . > out 2>/dev/null
grep -q 'b.go' out && { cat out; fail "crypto/rand taken for math/rand"; }
exit 0
"""),
dict(id="p06-type-after-parse", property="P06",
 edits=[("analyzer.go", "		parts := strings.Split(pkgErr.Pos, \":\")\n", "		if pkgErr.Kind == packages.TypeError && slices.ContainsFunc(pkg.Errors, func(e packages.Error) bool { return e.Kind == packages.ParseError }) && len(pkg.Errors) > 4 {\n			// a consequence of the syntax errors\n			continue\n		}\n		parts := strings.Split(pkgErr.Pos, \":\")\n")],
 needs="a package with a syntax error in one file and several type errors in another",
 breaks="the type errors are not reported",
 demo=r'''
build; mod
printf 'package m\n\nfunc f( {\n' > a.go
printf 'package m\n\nvar a int = "x"\nvar b int = "x"\nvar c int = "x"\nvar d int = "x"\nvar e int = "x"\n' > b.go
"$T/gosec" -fmt=json . > out 2>/dev/null
[ $(grep -c 'cannot use' out) = 5 ] || { cat out; fail "type errors"; }
exit 0
'''),
]
