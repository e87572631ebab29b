H = r'''
build; mod
'''
SEEDS = [
dict(id="p09-nothing-to-scan", property="P09",
 edits=[("cmd/gosec/main.go", "	if len(packages) == 0 {\n", "	if len(packages) == 0 && !*flagNoFail {\n")],
 needs="a recursive target without packages, and failures disabled",
 breaks="a run which scanned nothing prints a clean report and succeeds",
 demo=H + r'''
mkdir -p empty; printf 'package p\n' > p.go
"$T/gosec" -quiet -no-fail -fmt=json ./empty/... > out 2>/dev/null && fail "nothing was scanned, but the run succeeded"
[ -s out ] && fail "a report of nothing"
"$T/gosec" -quiet -no-fail -fmt=json ./... > out 2>/dev/null || fail "the run with a package failed"
exit 0
'''),
dict(id="s02-tag-twice", property="S02",
 edits=[("analyzer.go", "		return true, strings.SplitN(comment, tag, 2)[1]\n", "		return true, strings.Split(comment, tag)[1]\n")],
 needs="a directive whose justification mentions the tag itself",
 breaks="the justification is cut off",
 demo=H + r'''
cat > a.go <<'X'
package m

import "crypto/md5"

var _ = md5.New() // #nosec G401 -- see the #nosec policy, section 2
X
"$T/gosec" -quiet -fmt=json -include=G401 -track-suppressions ./... > out 2>/dev/null
grep -q '"justification": "see the #nosec policy, section 2"' out || { cat out; fail "justification"; }
exit 0
'''),
]
