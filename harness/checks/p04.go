package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/testutils"

	"verifharness/core"
	"verifharness/instr"
	"verifharness/shim"
)

// P04: every iteration over an unordered container in the scanner and the command is redirected (by an overlay of the
// current sources) to an explorable order. Each order that differs from the base order in one (thorough: two) dynamic
// iterations, and each uniform deviation, must give the identical report.

type p04Prog struct {
	name  string
	files []core.File
	conf  func() gosec.Config
	track bool
}

// p04Dense has many elements in every container the scanner iterates over.
var p04Dense = []p04Prog{
	{name: "nonces", files: []core.File{{Name: "a.go", Src: `package p
import ("crypto/aes"; "crypto/cipher"; crand "crypto/rand")
func a(g cipher.AEAD) { n := []byte("ILoveMyNonce"); g.Seal(nil, n, nil, nil); m := []byte{1,2,3}; g.Seal(nil, m, nil, nil) }
func b(g cipher.AEAD, n []byte) { g.Seal(nil, n, nil, nil); c(g, n); d(g, n) }
func c(g cipher.AEAD, n []byte) { g.Seal(nil, n, nil, nil); d(g, n) }
func d(g cipher.AEAD, n []byte) { g.Seal(n, n, n, n); if len(n) > 3 { b(g, n[1:]) } }
func e(k cipher.Block) { cipher.NewCTR(k, []byte("0123456789012345")); cipher.NewCBCEncrypter(k, make([]byte, 16)); cipher.NewOFB(k, mk()); cipher.NewCFBEncrypter(k, rnd()) }
func mk() []byte { return []byte("x") }
func rnd() []byte { n := make([]byte, 16); crand.Read(n); return n }
func f(g cipher.AEAD) { b(g, []byte("one")); c(g, []byte("two")); d(g, mk()); h := &struct{n []byte}{[]byte("z")}; g.Seal(nil, h.n, nil, nil) }
func k() { x, _ := aes.NewCipher([]byte("0123456789012345")); g, _ := cipher.NewGCM(x); b(g, rnd()); c(g, mk()) }
`}}},
	{name: "slices", files: []core.File{{Name: "a.go", Src: `package p
func f(x int) int {
	s := make([]int, 4, 8); t := make([]int, 2)
	s[9] = 1; t[3] = 2; u := s[2:12]; _ = u
	if len(s) > 5 { s[5] = 1; if len(t) > 6 { t[5] = 2; s[7] = 3 } }
	if x < len(t) { t[6] = 1; if len(s) < 3 { s[6] = 1 } else { s[9] = 1 } }
	for i := 0; i < len(t); i++ { if len(s) > i { s[10] = i } }
	g(s, t); g(t, s)
	return s[11] + t[12]
}
func g(a, b []int) { a[20] = 1; if len(b) > 3 { b[21] = 2 }; h(a[1:3], b) }
func h(a, b []int) { a[22] = 1; b[23] = 1 }
`}}},
	{name: "slices2", files: []core.File{{Name: "a.go", Src: `package p
func f() (int, int) { s := make([]int, 2); return s[5], s[6:][7] }
func g() int { s := make([]int, 3); if len(s) > 3 { if len(s) < 9 { return s[4] } ; return s[5] } ; return s[6] }
func h() int { s := make([]int, 3); if len(s) == 5 { return s[4] } ; if len(s) != 7 { return s[6] } ; return s[5:6][0] }
`}}},
	{name: "conversions", files: []core.File{{Name: "a.go", Src: `package p
import "strconv"
func f(a, b int, c uint64, s string) []any {
	if a > 3 { if a < 300 || b > 5 { return []any{int8(a), uint8(b), int32(c)} } }
	if a >= 0 && a <= 255 && c < 7 { return []any{uint8(a), int(c), int8(b)} }
	n, _ := strconv.Atoi(s); m, _ := strconv.ParseInt(s, 10, 64); q, _ := strconv.ParseUint(s, 10, 32)
	switch { case n < 4: return []any{int16(n)}; case m > 5: return []any{int8(m)}; case q < 2: return []any{int8(q)} }
	return []any{int32(n), uint16(m), int32(q), int8(max(1, min(a, 100)))}
}
`}}},
	{name: "imports", files: []core.File{{Name: "a.go", Src: `package p
import ("crypto/des"; "crypto/md5"; "crypto/rand"; "crypto/rc4"; "crypto/sha1"; mr "math/rand"; mrv "math/rand/v2"; "net/http"; "os"; "os/exec"; _ "net/http/pprof"; . "fmt")
func f(p string) { md5.New(); sha1.New(); des.NewCipher(nil); rc4.NewCipher(nil); mr.Int(); mrv.Int(); rand.Read(nil); http.Get(p); os.Open(p); exec.Command(p, os.Args[1]); Println(md5.Sum(nil), sha1.Sum(nil)); os.Chmod(p, 0o777); http.ListenAndServe("", nil) }
`}, {Name: "b.go", Src: `package p
import (m "crypto/md5"; s "crypto/sha1"; "crypto/tls")
var _ = []any{m.New(), s.New(), &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11}}
`}}},
	{name: "suppressed", track: true, files: []core.File{{Name: "a.go", Src: `package p
// #nosec G401 -- whole file
import ("crypto/md5"; "os")
// #nosec G304 G401 -- function
func f(p string) any {
	// #nosec -- block
	if p != "" { /* #nosec G304 -- inner */ os.Open(p) /* #nosec -- behind */ // #nosec G104 -- line
		return md5.New() // #nosec G401 G501 -- return
	}
	var x = md5.New() // #nosec G401
	//gosec:disable G304 -- directive
	os.Open(p) // #nosec G304,G104
	return x
}
`}}},
	{name: "sql", files: []core.File{{Name: "a.go", Src: `package p
import ("database/sql"; "fmt"; "os"; "context")
const c = "a"
var v = "b"
func f(db *sql.DB, tx *sql.Tx, q string, cx context.Context) {
	db.Query("SELECT * FROM t WHERE a = " + q); db.QueryContext(cx, "SELECT * FROM t WHERE a = " + os.Args[1]); tx.Exec(fmt.Sprintf("DELETE FROM t WHERE a = %s", q))
	s := "SELECT * FROM t WHERE a = " + v + c; db.QueryRow(s); db.Prepare(fmt.Sprintf("INSERT INTO t VALUES %s", v)); tx.Query("UPDATE t SET a = " + c + v)
}
`}}},
	{name: "audit", conf: func() gosec.Config {
		c := gosec.NewConfig()
		c.SetGlobal(gosec.Audit, "enabled")
		c.Set("G104", map[string]any{"os": []any{"Remove"}, "fmt": []any{"Sscan", "Sscanf"}, "net": []any{"Listen"}})
		c.Set("G101", map[string]any{"pattern": "(?i)pass|key", "entropy_threshold": "10.0"})
		c.Set("G301", "0700")
		return c
	}, files: []core.File{{Name: "a.go", Src: `package p
import ("fmt"; "net"; "os"; "bytes"; "strings"; "crypto/rand")
func f(p string) { os.Remove(p); fmt.Sscan(p); net.Listen("tcp", ":0"); var b bytes.Buffer; b.WriteString(p); var s strings.Builder; s.WriteString(p); rand.Read(nil); _, _ = os.Open(p); a, _ := os.Open(p); _ = a; password := "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"; _ = password; os.MkdirAll(p, 0o777) }
`}}},
}

func p04Progs(e *core.Env) []p04Prog {
	out := append([]p04Prog{}, p04Dense...)
	for _, p := range probes {
		if !p.needsStub() {
			out = append(out, p04Prog{name: "probe " + p.rule, files: []core.File{{Name: "a.go", Src: p.text("p")}}, conf: probeConfig})
		}
	}
	add := func(name string, ss []testutils.CodeSample) {
		for i, s := range ss {
			var fs []core.File
			for j, c := range s.Code {
				fs = append(fs, core.File{Name: fmt.Sprintf("s%d.go", j), Src: c})
			}
			out = append(out, p04Prog{name: fmt.Sprintf("%s[%d]", name, i), files: fs})
		}
	}
	add("G602", testutils.SampleCodeG602)
	add("G407", testutils.SampleCodeG407)
	add("G115", testutils.SampleCodeG115)
	add("G201", testutils.SampleCodeG201)
	add("G202", testutils.SampleCodeG202)
	add("G204", testutils.SampleCodeG204)
	add("G304", testutils.SampleCodeG304)
	add("G402", testutils.SampleCodeG402)
	add("G101", testutils.SampleCodeG101)
	add("G104", testutils.SampleCodeG104)
	return out
}

func init() {
	core.Register(&core.Check{
		ID: "P04", Level: "model_checking",
		Rule:   "an execution is a scan under one assignment of iteration orders to the dynamic iterations over unordered containers; every execution must give the report of the base order, byte for byte and in the same order",
		Bounds: "all orders of containers of up to 3 elements, reversal and every rotation-to-front of larger ones; one deviating iteration at a time, all pairs (thorough, up to 60 iterations) and all uniform deviations; dense programs, every rule's probe and the sample programs of ten rules in process, plus the built command over a module of many packages in json, text and csv",
		Prepare: func(e *core.Env) error {
			if err := core.PrepareStd(e); err != nil {
				return err
			}
			bin, sum, err := buildInstrumented(e, instr.Options{Maps: true}, "maps", "./cmd/vh")
			if err != nil {
				return err
			}
			e.Data["worker_bin"] = bin
			e.Data["sites"] = strings.Join(sum.Maps, " ")
			cli := filepath.Join(e.Scratch, "gosec")
			cmd := exec.Command("go", "build", "-overlay", sum.Overlay, "-o", cli, "github.com/securego/gosec/v2/cmd/gosec")
			cmd.Dir = filepath.Join(e.Verif, "harness")
			if b, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("building the instrumented command: %v\n%s", err, b)
			}
			e.Data["gosec"] = cli
			return p04Tree(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for _, p := range p04Progs(e) {
				u = append(u, "prog "+p.name)
			}
			for _, f := range []string{"json", "text", "csv", "sarif"} {
				for _, s := range []string{"true", "false"} {
					u = append(u, "cli "+f+" "+s)
				}
			}
			for i := range p04Perms(5) {
				u = append(u, fmt.Sprintf("order %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			os.Setenv("GOSECGOVERSION", "go1.21")
			if strings.HasPrefix(unit, "cli ") {
				p04CLI(e, unit, r)
				return
			}
			if strings.HasPrefix(unit, "order ") {
				p04Order(e, unit, r)
				return
			}
			for _, p := range p04Progs(e) {
				if "prog "+p.name == unit {
					p04Run(e, p, r)
				}
			}
		},
	})
}

func p04Run(e *core.Env, p p04Prog, r *core.Rec) {
	pkg, err := getLoader(e).Load("ex.test/p", p.files...)
	if err != nil {
		r.Stats["samples_not_typechecking"]++
		return
	}
	scan := func(dev map[int]int) (string, *shim.MapRun) {
		m := &shim.MapRun{Dev: dev}
		shim.SetMaps(m)
		defer shim.SetMaps(nil)
		conf := gosec.NewConfig()
		if p.conf != nil {
			conf = p.conf()
		}
		is, mt := core.Scan(core.Opts{Conf: conf, Track: p.track}, []*packages.Package{pkg}...)
		out := fmt.Sprintf("%+v\n", *mt)
		for _, i := range is {
			b, _ := json.Marshal(i)
			out += string(b) + "\n"
		}
		return out, m
	}
	base, m := scan(nil)
	r.Evals++
	p04Explore(e, r, p.name, m.Sizes, m.Where, base, 100000, func(dev map[int]int) string { o, _ := scan(dev); return o })
	r.Sample(fmt.Sprintf("%s: %d iterations over containers with at least two elements", p.name, len(m.Sizes)))
}

// p04Explore runs every deviation and compares.
func p04Explore(e *core.Env, r *core.Rec, name string, sizes []int, where []string, base string, maxInst int, run func(map[int]int) string) {
	r.State(name + base)
	try := func(dev map[int]int) bool {
		got := run(dev)
		r.Evals++
		r.Transitions += len(sizes)
		if got == base {
			return true
		}
		r.State(name + got)
		var at []string
		var ks []int
		for k := range dev {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			if k < 0 {
				at = append(at, "everywhere")
			} else {
				at = append(at, where[k])
			}
		}
		r.Violate(fmt.Sprintf("%s order of %s", name, strings.Join(at, "+")), fmt.Sprintf("%s %v", name, dev), "iterating in another order at %v (%v) changes the report\n%s", at, dev, firstDiff(base, got))
		return false
	}
	for alt := 1; alt < 8; alt++ {
		if !try(map[int]int{-1: alt}) {
			break
		}
	}
	bad := map[string]bool{}
	perSite := map[string]int{}
	for i, n := range sizes {
		perSite[where[i]]++
		if perSite[where[i]] > maxInst || bad[where[i]] {
			continue
		}
		for alt := 1; alt < shim.Alternatives(n); alt++ {
			if !try(map[int]int{i: alt}) {
				bad[where[i]] = true
				break
			}
		}
	}
	if e.Thorough && maxInst > 1 && len(sizes) <= 60 && len(bad) == 0 {
		for i := range sizes {
			for j := 0; j < i; j++ {
				for a := 1; a < shim.Alternatives(sizes[i]); a++ {
					for b := 1; b < shim.Alternatives(sizes[j]); b++ {
						if !try(map[int]int{i: a, j: b}) {
							return
						}
					}
				}
			}
		}
	}
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return "missing line " + la[i]
		}
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d\n  base  %s\n  other %s", i, la[i], lb[i])
		}
	}
	return fmt.Sprintf("%d more lines", len(lb)-len(la))
}

// p04Tree writes the module the command scans.
func p04Tree(e *core.Env) error {
	dir := filepath.Join(e.Scratch, "tree")
	files := map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n"}
	dup := "package p\nimport \"crypto/md5\"\nfunc f@() any { return []any{md5.New(), md5.New(), md5.New(), md5.New()} }\nfunc g@(x int) []any { return []any{int8(x), int8(x), int8(x), uint8(x)} }\n"
	for i, d := range []string{"a", "b", "b/c", "d", "e"} {
		files[d+"/x.go"] = strings.ReplaceAll(dup, "@", fmt.Sprint(i))
		files[d+"/y.go"] = strings.ReplaceAll(p04Dense[i%len(p04Dense)].files[0].Src, "package p\n", "package p\n\n")
		for j := 0; j < 5; j++ {
			files[fmt.Sprintf("%s/z%d.go", d, j)] = fmt.Sprintf("package p\nvar _ = int8(w%d)\nvar w%d = 3 // #nosec G115\nvar _, _ = int8(w%d), int8(w%d)\n", j, j, j, j)
		}
	}
	files["bad/x.go"] = "package bad\nfunc f() { undefined1(); undefined2(); undefined3() }\n"
	files["bad2/x.go"] = "package bad2\nfunc f() { a b c }\nfunc g() { x y z }\n"
	for n, s := range files {
		f := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(f), 0o700); err != nil {
			return err
		}
		if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
			return err
		}
	}
	return nil
}

func p04CLI(e *core.Env, unit string, r *core.Rec) {
	f := strings.Fields(unit)
	dir := filepath.Join(e.Scratch, "tree")
	log := filepath.Join(e.Scratch, "maplog-"+f[1]+f[2])
	run := func(dev map[int]int, extra ...string) string {
		var d []string
		for k, v := range dev {
			d = append(d, fmt.Sprintf("%d:%d", k, v))
		}
		args := append([]string{"-fmt", f[1], "-sort=" + f[2], "-quiet", "-color=false", "-concurrency", "1"}, extra...)
		res := runGosec(e, dir, []string{"VH_MAPLOG=" + log, "VH_MAPDEV=" + strings.Join(d, ","), "GOWORK=off", "GOFLAGS=-mod=mod"}, append(args, "./...")...)
		if res.code == 2 {
			core.Broken("the command ends with status 2: %s", res.stderr)
		}
		return fmt.Sprintf("exit %d\n%s", res.code, res.stdout)
	}
	base := run(nil)
	r.Evals++
	var sizes []int
	var where []string
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var n int
		var w string
		fmt.Sscan(l, &n, &w)
		sizes, where = append(sizes, n), append(where, w)
	}
	if !strings.Contains(base, "weak cryptographic primitive") {
		core.Broken("the command reports nothing (%d iterations seen)\n%.2000s", len(sizes), base)
	}
	if f[1] == "json" {
		p04Explore(e, r, unit, sizes, where, base, 1, func(dev map[int]int) string { return run(dev) })
	} else {
		p04Explore(e, r, unit, nil, nil, base, 1, func(dev map[int]int) string { return run(dev) })
	}
	if f[2] == "true" { // with sorting on, the order does not depend on which worker finishes first either
		for _, w := range []string{"2", "3", "8", "8", "8"} {
			r.Evals++
			if got := run(nil, "-concurrency", w); got != base {
				r.Violate(unit+" concurrency", unit, "loading with %s workers changes the report\n%s", w, firstDiff(base, got))
				break
			}
		}
	}
}

// p04Perms lists the permutations of n elements.
func p04Perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range p04Perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// p04Order: with sorting on, the report does not depend on the order in which packages are loaded.
func p04Order(e *core.Env, unit string, r *core.Rec) {
	var k int
	fmt.Sscanf(unit, "order %d", &k)
	dirs := []string{"./a", "./b", "./d", "./bad", "./bad2"}
	dir := filepath.Join(e.Scratch, "tree")
	for _, f := range []string{"json", "text"} {
		run := func(perm []int) string {
			args := []string{"-fmt", f, "-sort=true", "-quiet", "-color=false", "-concurrency", "1"}
			for _, i := range perm {
				args = append(args, dirs[i])
			}
			res := runGosec(e, dir, []string{"GOWORK=off", "GOFLAGS=-mod=mod"}, args...)
			r.Evals++
			return fmt.Sprintf("exit %d\n%s", res.code, res.stdout)
		}
		perm := p04Perms(len(dirs))[k]
		base, got := run([]int{0, 1, 2, 3, 4}), run(perm)
		r.State(unit + f)
		r.State(base)
		if base != got {
			r.Violate("order "+f, fmt.Sprint(perm), "loading the packages in the order %v changes the sorted report\n%s", perm, firstDiff(base, got))
		}
	}
}
