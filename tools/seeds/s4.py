H = r'''
build; mod
scan() { cat > x.go; "$T/gosec" -quiet -fmt=json -include="$1" ${2:-} . > out 2> err; grep -c '"rule_id"' out; }
expect() { local n; n=$(scan "$1" "${3:-}"); [ "$n" = "$2" ] || fail "$1 reported $n times instead of $2"; }
'''
SEEDS = [
dict(id="d04-octal-conf", property="D04",
 edits=[("rules/fileperms.go", "strconv.ParseInt(value, 0, 64)", "strconv.ParseInt(value, 8, 64)")],
 needs="a configured maximum in Go's octal notation (0o) or another base",
 breaks="a maximum such as \"0o755\" is ignored, so that modes within it are reported",
 demo=H + r'''
echo '{"G302":"0o644"}' > conf.json
expect G302 0 -conf=conf.json <<'X'
package p

import "os"

func F() error { return os.Chmod("x", 0o644) }
X
exit 0
'''),
dict(id="d03-three-digits", property="D03",
 edits=[("analyzers/slice_bounds.go", "regexp.MustCompile(`new \\[(\\d+)\\]*`)", "regexp.MustCompile(`new \\[(\\d{1,2})\\]*`)")],
 needs="a slice of a hundred elements or more",
 breaks="the size of a large slice is taken for its first two digits, so that accesses within it are reported",
 demo=H + r'''
expect G602 0 <<'X'
package p

func F() int {
	s := make([]int, 128)
	return s[64]
}
X
exit 0
'''),
dict(id="d08-conf-replaces", property="D08",
 edits=[("rules/errors.go", "				if funcs, ok := funcs.([]interface{}); ok {\n					whitelist.AddAll(pkg, toStringSlice(funcs)...)\n", "				if funcs, ok := funcs.([]interface{}); ok {\n					configured := gosec.NewCallList()\n					configured.AddAll(pkg, toStringSlice(funcs)...)\n					whitelist[pkg] = configured[pkg]\n")],
 needs="a configured allow list with functions of a package which the built-in list has, too",
 breaks="the built-in entries of a package vanish when some of its functions are allowed in the configuration",
 demo=H + r'''
echo '{"G104":{"fmt":["Sscan"]}}' > conf.json
expect G104 0 -conf=conf.json <<'X'
package p

import "fmt"

func F() { fmt.Println("x") }
X
exit 0
'''),
dict(id="d09-closures", property="D09",
 edits=[("analyzers/hardcoded_nonce.go", "	for _, pkgFunc := range ssaFuncs {\n		for _, funcBlock := range pkgFunc.Blocks {\n			for _, funcBlocInstr := range funcBlock.Instrs {\n				iterateTracked", "	for _, pkgFunc := range ssaFuncs {\n		if pkgFunc.Parent() != nil {\n			// part of the function around it\n			continue\n		}\n		for _, funcBlock := range pkgFunc.Blocks {\n			for _, funcBlocInstr := range funcBlock.Instrs {\n				iterateTracked")],
 needs="an encryption call within a function literal",
 breaks="fixed nonces in function literals are not reported",
 demo=H + r'''
expect G407 1 <<'X'
package p

import (
	"crypto/aes"
	"crypto/cipher"
)

func F() func() cipher.Stream {
	return func() cipher.Stream {
		b, _ := aes.NewCipher([]byte("0123456789abcdef"))
		return cipher.NewCTR(b, []byte("0123456789abcdef"))
	}
}
X
exit 0
'''),
dict(id="s03-one-kind", property="S03",
 edits=[("analyzer.go", "	suppressions := append(generalSuppressions, ruleSuppressions...)\n", "	suppressions := generalSuppressions\n	if len(suppressions) == 0 {\n		suppressions = ruleSuppressions\n	}\n")],
 needs="tracking, and a finding to which both a directive with rule IDs and one without apply",
 breaks="the suppression record of the directive with rule IDs is missing",
 demo=r'''
build; mod
cat > x.go <<'X'
package p

import "crypto/md5"

// #nosec -- general
func F() {
	md5.New() // #nosec G401 -- special
}
X
"$T/gosec" -quiet -fmt=json -include=G401 -track-suppressions . > out 2>err
grep -q '"justification": "general"' out && grep -q '"justification": "special"' out || fail "a suppression record is missing"
exit 0
'''),
dict(id="d10-read-header", property="D10",
 edits=[("rules/slowloris.go", "	for _, elt := range node.Elts {\n", "	for _, elt := range node.Elts[:min(len(node.Elts), 4)] {\n")],
 needs="a server literal with more than four fields, of which the timeout is a later one",
 breaks="a server with a timeout is reported if the timeout is not among the first four fields",
 demo=H + r'''
expect G112 0 <<'X'
package p

import "net/http"

var S = &http.Server{Addr: "x:1", Handler: nil, TLSConfig: nil, MaxHeaderBytes: 1, ReadTimeout: 5}
X
exit 0
'''),
]
