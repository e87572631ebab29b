H = r'''
build; mod
scan() { cat > x.go; "$T/gosec" -quiet -fmt=json -include="$1" ${2:-} . > out 2> err; grep -c '"rule_id"' out; }
expect() { local n; n=$(scan "$1" "${3:-}"); [ "$n" = "$2" ] || fail "$1 reported $n times instead of $2"; }
'''
SEEDS = [
dict(id="d01-names-kept", property="D01",
 edits=[("import_tracker.go", "		t.Imported[importPath] = append(t.Imported[importPath], importName(importPath))\n", "		t.Imported[importPath] = []string{importName(importPath)}\n")],
 needs="a file which imports a package twice, first renamed and then plainly",
 breaks="uses of the package under its first name are not reported",
 demo=H + r'''
expect G103 2 <<'X'
package p

import (
	mem "unsafe"
	"unsafe"
)

var n int
var a = mem.Pointer(&n)
var b = unsafe.Pointer(&n)
X
expect G401 2 <<'X'
package p

import (
	old "crypto/md5"
	"crypto/md5"
)

var a = old.New()
var b = md5.New()
X
exit 0
'''),
dict(id="d07-data-center", property="D07",
 edits=[("rules/hardcoded_credentials.go", "`[0-9a-f]{32}-us[0-9]{1,2}`", "`[0-9a-f]{32}-us[0-9]{2}`")],
 needs="a MailChimp key of a data center with a number of one digit",
 breaks="such a key is not reported",
 demo=H + r'''
expect G101 2 <<'X'
package p

var a = "4fe6b1c29d08a7735e1b9c20d4f8a361-us12"
var b = "4fe6b1c29d08a7735e1b9c20d4f8a361-us9"
X
exit 0
'''),
dict(id="d06-quoted-verb", property="D06",
 edits=[("rules/sql.go", 'regexp.MustCompile("%[^bdoxXfFp]")', 'regexp.MustCompile("%[^bdoxXfFpq]")')],
 needs="a query formatted with %q only",
 breaks="parameters which get into SQL by %q, whose quotes are not those of SQL, are not reported",
 demo=H + r'''
expect G201 2 <<'X'
package p

import (
	"database/sql"
	"fmt"
)

func f(db *sql.DB, name string) {
	_, _ = db.Query(fmt.Sprintf("SELECT a FROM t WHERE b = %s", name))
	_, _ = db.Query(fmt.Sprintf("SELECT a FROM t WHERE b = %q", name))
}
X
exit 0
'''),
]
