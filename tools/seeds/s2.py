CONST = '"$T/gosec" -quiet -fmt=json %s > out 2>err'
SEEDS = [
dict(id="p05-sql-arg", property="P05",
 edits=[("rules/sql.go", "	if i >= len(call.Args) {\n		return nil, nil\n	}\n	query := call.Args[i]", "	if len(call.Args) == 0 {\n		return nil, nil\n	}\n	query := call.Args[i]")],
 needs="a QueryContext call whose arguments are the results of another call",
 breaks="the scan crashes",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import (
	"context"
	"database/sql"
)

func args() (context.Context, string) { return nil, "" }

func F(db *sql.DB) { db.QueryContext(args()) }
X
"$T/gosec" -fmt=json -include=G201,G202,G104 ./... > out 2>err
grep -q '^panic\|goroutine' err && fail "crash"
grep -q '"Issues"' out || fail "no report"
exit 0
'''),
dict(id="p05-resolve-cycle", property="P05",
 edits=[("rules/errors.go", "					if pos < 0 || pos >= len(stmt.Lhs) {\n						return nil, nil\n					}\n					if id, ok := stmt.Lhs[pos].(*ast.Ident); ok && id.Name == \"_\" {", "					if pos < 0 {\n						return nil, nil\n					}\n					if id, ok := stmt.Lhs[len(stmt.Lhs)-1-(ctx.Info.TypeOf(callExpr).(*types.Tuple).Len()-1-pos)].(*ast.Ident); ok && id.Name == \"_\" {")],
 needs="audit mode and an assignment of a function whose only result is an error",
 breaks="the scan crashes in audit mode",
 demo=r'''
build; mod
cat > a.go <<'X'
package m

import "os"

func F() { _ = os.Remove("x") }
X
"$T/gosec" -enable-audit -fmt=json ./... > out 2>err
grep -q '^panic\|goroutine' err && fail "crash"
grep -q '"Issues"' out || fail "no report"
exit 0
'''),
dict(id="p06-ten-errors", property="P06",
 edits=[("analyzer.go", "	for _, pkgErr := range pkg.Errors {\n", "	for i, pkgErr := range pkg.Errors {\n		if i > 10 && pkgErr.Kind == packages.TypeError {\n			break\n		}\n")],
 needs="a package with more than ten type errors",
 breaks="type errors after the eleventh are not reported",
 demo=r'''
build; mod
{ echo 'package m'; for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14; do echo "var v$i int = \"x\""; done; } > a.go
"$T/gosec" -fmt=json ./... > out 2>/dev/null
[ "$(grep -c '"line"' out)" -ge 14 ] || { cat out; fail "errors missing"; }
exit 0
'''),
dict(id="p06-col", property="P06",
 edits=[("analyzer.go", "		if len(parts) > 2 {\n			if column, err", "		if len(parts) > 2 && line != 1 {\n			if column, err")],
 needs="an error on the first line of a file",
 breaks="the column of errors on the first line is lost",
 demo=r'''
build; mod
echo 'package m; var x int = "a"' > a.go
"$T/gosec" -fmt=json ./... > out 2>/dev/null
grep -q '"column": 24' out || { cat out; fail "column"; }
exit 0
'''),
dict(id="p07-skipdir", property="P07",
 edits=[("helpers.go", "			if isExcluded(filepath.ToSlash(path), excludes) {\n				return nil", "			if isExcluded(filepath.ToSlash(path), excludes) {\n				return filepath.SkipDir")],
 needs="an excluded directory with Go files that lists before other content of its own subdirectories",
 breaks="directories below or beside Go files of an excluded directory are skipped too",
 demo=r'''
build; mod
mkdir -p a/z
printf 'package a\n\nimport _ "crypto/md5"\n' > a/a.go
printf 'package z\n\nimport _ "crypto/md5"\n' > a/z/a.go
printf 'package m\n\nimport _ "crypto/md5"\n' > m.go
"$T/gosec" -fmt=json -exclude-dir='a$' ./... > out 2>/dev/null
grep -q 'a/z/a.go' out || fail "a/z was not scanned"
exit 0
'''),
dict(id="p07-underscore", property="P07",
 edits=[("helpers.go", "		if filepath.Ext(path) == \".go\" {\n			path = filepath.Dir(path)\n", "		if base := filepath.Base(path); filepath.Ext(path) == \".go\" && (!strings.HasPrefix(base, \"_\") || len(paths) == 0) {\n			path = filepath.Dir(path)\n			if len(path) > 1 && strings.Contains(path[1:], \"/_\") {\n				return nil\n			}\n")],
 needs="a nested directory whose name starts with an underscore",
 breaks="such directories are not scanned by recursive targets",
 demo=r'''
build; mod
mkdir -p a/_z
printf 'package z\n\nimport _ "crypto/md5"\n' > a/_z/a.go
printf 'package m\n\nimport _ "crypto/md5"\n' > m.go
"$T/gosec" -fmt=json ./... > out 2>/dev/null
grep -q 'a/_z/a.go' out || fail "a/_z was not scanned"
exit 0
'''),
dict(id="p08-gentests", property="P08",
 edits=[("analyzer.go", "		if gosec.excludeGenerated && ast.IsGenerated(file) {", "		if gosec.excludeGenerated && !gosec.tests && ast.IsGenerated(file) {")],
 needs="generated files excluded and test scanning on",
 breaks="generated files are scanned when test files are",
 demo=r'''
build; mod
printf '// Code generated by x. DO NOT EDIT.\n\npackage m\n\nimport _ "crypto/md5"\n' > g.go
printf 'package m\n' > m.go
printf 'package m\n' > m_test.go
"$T/gosec" -fmt=json -tests -exclude-generated ./... > out 2>/dev/null
grep -q 'rule_id' out && fail "generated file scanned"
exit 0
'''),
dict(id="p08-xtest", property="P08",
 edits=[("analyzer.go", "		testsFiles = append(testsFiles, basePackage.XTestGoFiles...)\n", "		if len(basePackage.TestGoFiles) == 0 || len(basePackage.GoFiles) > 0 {\n			testsFiles = append(testsFiles, basePackage.XTestGoFiles...)\n		}\n")],
 needs="a package made of in-package and external test files only, with -tests",
 breaks="external test files of such a package are not scanned",
 demo=r'''
build; mod
mkdir a
printf 'package a\n\nimport _ "crypto/md5"\n' > a/a_test.go
printf 'package a_test\n\nimport _ "crypto/md5"\n' > a/b_test.go
"$T/gosec" -fmt=json -tests ./... > out 2>/dev/null
grep -q 'b_test.go' out || { cat out; fail "external tests not scanned"; }
exit 0
'''),
]
