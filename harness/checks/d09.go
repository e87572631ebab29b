package checks

import (
	"fmt"
	"strings"

	"verifharness/core"
)

// D09: covered encryption calls crossed with constructions of the nonce and the ways it takes to the call. PRE are the
// statements before, E the expression, N what the sink gets; ID makes the names of a case its own.

var d09Sinks = []string{
	`use(a.Seal(nil, N, nil, nil))`,
	`use(cipher.NewCTR(blk, N))`,
	`use(cipher.NewOFB(blk, N))`,
	`use(cipher.NewCBCEncrypter(blk, N))`,
	`use(cipher.NewCFBEncrypter(blk, N))`,
	`g, _ := cipher.NewGCM(blk); use(g.Seal(buf, N, buf, buf))`,
	`out := cm.NewCTR(blk, N); use(out)`,
	`use(emb.Seal(nil, N, nil, nil))`,
	`defer cipher.NewCTR(blk, N)`,
	`go a.Seal(nil, N, nil, nil)`,
}

// never covered
var d09Others = []string{
	`use(a.Open(nil, N, nil, nil))`,
	`use(cipher.NewCBCDecrypter(blk, N))`,
	`use(cipher.NewCFBDecrypter(blk, N))`,
	`use(NewCTR(blk, N))`,
	`use(NewCTRLike(N))`,
	`use("Seal", "NewCTR", N)`,
	`use(fake.Seal(nil, N, nil, nil))`,
	`use(fakes.NewCTR(blk, N))`,
	`use(a.Seal(nil, fresh(), N, nil))`,
	`use(a.Seal(N, fresh(), nil, nil))`,
	`use(a.Seal(nil, fresh(), nil, N))`,
	`use(sha256.Sum256(N))`,
	`blk, _ := aes.NewCipher(N); use(blk)`,
}

type d09Make struct {
	pre, e string
	free   []string // ways for which the outcome is not specified
}

var d09Fixed = []d09Make{
	{"", `[]byte("0123456789ab")`, nil},
	{"", `[]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}`, nil},
	{"", `[]byte(text)`, nil},
	{"", `[]byte(text + "c")`, nil},
	{"", `make([]byte, 12)`, nil},
	{"", `make([]byte, 12, 24)`, nil},
	{"", `make([]byte, a.NonceSize())`, nil},
	{"", `[]byte("0123456789abcdef")[:12]`, nil},
	{"", `make([]byte, 16)[2:14]`, nil},
	{"", `[]byte{11: 1}`, nil},
	{`var arr [12]byte;`, `arr[:]`, nil},
	{`arr := [12]byte{1, 2, 3};`, `arr[:]`, nil},
	{`arr := new([12]byte);`, `arr[:]`, nil},
	{`n0 := []byte("0123456789ab");`, `n0`, nil},
	{`n0 := make([]byte, 12); n0[3] = 7;`, `n0`, nil},
	{`n0 := make([]byte, 12); copy(n0, "0123456789ab");`, `n0`, nil},
	{`n0 := make([]byte, 12); copy(n0, text);`, `n0[:12]`, nil},
	{`n0, n1 := make([]byte, 12), make([]byte, 12); rand.Read(n1);`, `n0`, []string{"result"}},
	{`n0 := make([]byte, 12); rand.Read(n0); n0 = []byte("0123456789ab");`, `n0`, []string{"result"}},
	{`n0 := make([]byte, 12); rand.Read(n0); n0 = make([]byte, 12); use(rand.Reader);`, `n0`, []string{"result"}},
	{`n0 := make([]byte, 12); a.Open(n0, gZ, nil, nil);`, `n0`, nil},
	{"", `gv`, nil},
	{"", `ga[:]`, nil},
	{"", `fixed()`, nil},
	{"", `again()`, nil},
	{"", `func() []byte { return []byte("0123456789ab") }()`, nil},
	{"", `func() []byte { if yes { return []byte("0123456789ab") }; return []byte("ba9876543210") }()`, nil},
	{"", `theType{}.fixed()`, nil},
}

var d09Fresh = []d09Make{
	{`n0 := make([]byte, 12); rand.Read(n0);`, `n0`, nil},
	{`n0 := make([]byte, 12, 16); _, _ = rand.Read(n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); io.ReadFull(rand.Reader, n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); if _, err := io.ReadFull(rand.Reader, n0); err != nil { panic(err) };`, `n0`, nil},
	{`n0 := make([]byte, 12); if _, err := rand.Read(n0); err != nil { panic(err) };`, `n0`, nil},
	{`n0 := make([]byte, 12); rand.Reader.Read(n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); io.ReadAtLeast(rand.Reader, n0, 12);`, `n0`, nil},
	{`n0 := make([]byte, a.NonceSize()); io.ReadFull(rand.Reader, n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); crand.Read(n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); rand.Read(n0[:]);`, `n0`, nil},
	{`n0 := make([]byte, 16); rand.Read(n0[:12]);`, `n0[:12]`, nil},
	{`n0 := make([]byte, 16); rand.Read(n0);`, `n0[:12]`, nil},
	{`bb := make([]byte, 32); n0 := bb[:12]; rand.Read(n0);`, `n0`, nil},
	{`var arr [12]byte; rand.Read(arr[:]);`, `arr[:]`, nil},
	{`var arr [12]byte; n0 := arr[:]; io.ReadFull(rand.Reader, n0);`, `n0`, nil},
	{`arr := new([12]byte); rand.Read(arr[:]);`, `arr[:]`, nil},
	{`n0 := make([]byte, 12); fill(n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); refill(n0);`, `n0`, nil},
	{`n0 := make([]byte, 12); theType{}.fill(n0);`, `n0`, nil},
	{`n0, n1 := make([]byte, 12), make([]byte, 12); rand.Read(n1); copy(n0, n1);`, `n0`, nil},
	{`n0 := make([]byte, 12); for yes { rand.Read(n0) };`, `n0`, nil},
	{`n0 := []byte("0123456789ab"); rand.Read(n0);`, `n0`, nil},
	{`n0 := []byte("0123456789ab"); n0 = make([]byte, 12); rand.Read(n0);`, `n0`, nil},
	{"", `fresh()`, nil},
	{"", `fresher()`, nil},
	{"", `freshest()`, nil},
	{"", `theType{}.fresh()`, nil},
	{"", `func() []byte { b := make([]byte, 12); io.ReadFull(rand.Reader, b); return b }()`, nil},
}

var d09Ways = []struct{ name, src string }{
	{"direct", `func fID() { PRE SINK(E) }`},
	{"local", `func fID() { PRE n := E; SINK(n) }`},
	{"declared", `func fID() { PRE var n []byte = E; SINK((n)) }`},
	{"later", `func fID() { PRE var n []byte; n = E; SINK(n) }`},
	{"renamed", `func fID() { PRE n := E; m := n; SINK(m) }`},
	{"branch", `func fID() { PRE n := E; if yes { n = E }; SINK(n) }`},
	{"inside", `func fID() { if yes { for range 3 { PRE n := E; SINK(n) } } }`},
	{"captured", `func fID() { PRE n := E; func() { SINK(n) }() }`},
	{"field", `func fID() { PRE s := struct{ n []byte }{E}; SINK(s.n) }`},
	{"fieldptr", `func fID() { PRE s := &theType{}; s.n = E; SINK(s.n) }`},
	{"named", `func fID() { PRE type nonce []byte; n := nonce(E); SINK(n) }`},
	{"result", `func gID() []byte { PRE return E }; func fID() { SINK(gID()) }`},
	{"results", `func hID() []byte { PRE return E }; func gID() []byte { return hID() }; func fID() { n := gID(); SINK(n) }`},
	{"literal", `func fID() { SINK(func() []byte { PRE return E }()) }`},
	{"literal var", `func fID() { mk := func() []byte { PRE return E }; n := mk(); SINK(n) }`},
	{"param", `func gID(n []byte) { SINK(n) }; func fID() { PRE gID(E) }`},
	{"param local", `func gID(n []byte) { m := n; SINK(m) }; func fID() { PRE k := E; gID(k) }`},
	{"param pos", `func gID(k, n, m []byte) { SINK(n) }; func fID() { PRE gID(gZ, E, gZ) }`},
	{"params", `func gID(k int, n []byte) { SINK(n) }; func hID(n []byte, k int) { gID(k, n) }; func fID() { PRE hID(E, 1) }`},
	{"params 3", `func gID(n []byte) { SINK(n) }; func hID(n []byte) { gID(n) }; func iID(n []byte) { hID(n) }; func fID() { PRE iID(E) }`},
	{"method", `type tID struct{}; func (tID) m(n []byte) { SINK(n) }; func fID() { PRE tID{}.m(E) }`},
	{"ptr method", `type tID struct{}; func (*tID) m(k int, n []byte) { SINK(n) }; func fID(t *tID) { PRE t.m(3, E) }`},
	{"literal param", `func fID() { PRE func(n []byte) { SINK(n) }(E) }`},
	{"deferred", `func gID(n []byte) { SINK(n) }; func fID() { PRE defer gID(E) }`},
	{"started", `func gID(n []byte) { SINK(n) }; func fID() { PRE go gID(E) }`},
	{"recursive", `func gID(n []byte, k int) { if k > 0 { gID(n, k-1) }; SINK(n) }; func fID() { PRE gID(E, 3) }`},
	{"method value", `type tID struct{ n []byte }; func (t *tID) m() {}; func fID() { PRE n := E; t := &tID{n}; use(t.m); f := (&tID{n}).m; use(f); SINK(n) }`},
	{"generic", `func gID[T any](n []byte, _ T) { SINK(n) }; func fID() { PRE gID(E, 3) }`},
	{"generic method", `type tID[T any] struct{}; func (*tID[T]) m(k T, n []byte) { SINK(n) }; func fID(t *tID[int]) { PRE t.m(3, E) }`},
	{"declared function", `func gID(n []byte) { SINK(n) }; func fID() { PRE f := gID; f(E) }`},
	{"loop", `func fID() { for range 3 { PRE n := E; if yes { continue }; SINK(n) } }`},
	{"param branch", `func gID(n []byte) { SINK(n) }; func fID() { PRE k := E; if yes { k = E }; gID(k) }`},
}

const d09Head = `package p

import (
	"crypto/aes"
	"crypto/cipher"
	cm "crypto/cipher"
	crand "crypto/rand"
	"crypto/rand"
	"crypto/sha256"
	"io"

	fakes "ex.test/cipher"
)

const text = "0123456789a"

type theType struct{ n []byte }
type fakeType struct{}
type embType struct{ cipher.AEAD }

var (
	_ = aes.NewCipher
	_ = io.ReadFull
	_ = sha256.Sum256
	_ = rand.Read
	_ = crand.Read
	_ = fakes.NewCTR
	_ cm.Block
	a cipher.AEAD
	blk cipher.Block
	emb embType
	fake fakeType
	yes bool
	buf, gZ []byte
	gv = []byte("0123456789ab")
	ga = [12]byte{1, 2, 3}
)

func use(...any) bool { return yes }
func NewCTR(cipher.Block, []byte) int { return 1 }
func NewCTRLike([]byte) int { return 1 }
func (fakeType) Seal(a, b, c, d []byte) []byte { return a }
func fixed() []byte { return []byte("0123456789ab") }
func again() []byte { b := make([]byte, 12); b[1] = 3; return b }
func (theType) fixed() []byte { return []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} }
func fresh() []byte { b := make([]byte, 12); rand.Read(b); return b }
func fresher() []byte { b := make([]byte, a.NonceSize()); if _, err := io.ReadFull(rand.Reader, b); err != nil { panic(err) }; return b }
func freshest() []byte { return fresher() }
func (theType) fresh() []byte { return fresh() }
func fill(b []byte) { rand.Read(b) }
func refill(b []byte) { if yes { return }; fill(b) }
func (theType) fill(b []byte) { fill(b) }

`

type d09Case struct {
	src  string // lines
	want []bool // per line
	free bool
}

func d09Src(way, sink string, m d09Make) string {
	s := strings.ReplaceAll(way, "PRE ", strings.TrimSuffix(m.pre, " ")+" ")
	for {
		k := strings.Index(s, "SINK(")
		if k < 0 {
			break
		}
		depth, end := 0, 0
		for j := k + 4; ; j++ {
			if s[j] == '(' {
				depth++
			} else if s[j] == ')' {
				if depth--; depth == 0 {
					end = j
					break
				}
			}
		}
		s = s[:k] + d02Word(sink, "N", s[k+5:end]) + s[end+1:]
	}
	return d02Word(s, "E", m.e)
}

func d09Run(l *core.Loader, cases []d09Case, what string, r *core.Rec) {
	const per = 1200
	l.AddStub("ex.test/cipher", "package cipher\n\nfunc NewCTR(any, []byte) int { return 1 }\n")
	for at := 0; at < len(cases); at += per {
		part := cases[at:min(at+per, len(cases))]
		var b strings.Builder
		b.WriteString(d09Head)
		line := 1 + strings.Count(d09Head, "\n")
		type where struct{ c, k int }
		lines := map[int]where{}
		for k, c := range part {
			src := strings.ReplaceAll(c.src, "ID", fmt.Sprint(k))
			for n := 0; n <= strings.Count(src, "\n"); n++ {
				lines[line] = where{k, n}
				line++
			}
			b.WriteString(src + "\n")
		}
		p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()})
		is, _ := core.Scan(core.Opts{Include: []string{"G407"}}, p)
		got := map[where]int{}
		for _, i := range is {
			n, _ := lineRange(i.Line)
			w, ok := lines[n]
			if !ok {
				r.Violate(what+": elsewhere", what, "finding on line %d", n)
				continue
			}
			got[w]++
		}
		r.Evals += len(part)
		r.Transitions += len(part)
		for k, c := range part {
			r.State(c.src)
			for n, w := range c.want {
				if g := got[where{k, n}] > 0; g != w && !c.free {
					r.Violate(c.src, c.src, "%s: line %d reported %v, should be %v: %s", what, n+1, g, w, c.src)
				}
			}
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID: "D09", Level: "model_checking",
		Rule:    "a state is a distinct generated program part (construction of the nonce, way to the call, sink); the real analyzer runs on it within a generated package and must report the line exactly if the construction is a fixed one and the call a covered one",
		Bounds:  "10 covered and 13 other calls x 28 fixed and 28 fresh constructions x 27 ways from the construction to the call (full product); all pairs of constructions on two branches, and of two callers of one function, with the findings at the caller which gives a fixed one; package variables",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for k := range d09Ways {
				u = append(u, fmt.Sprintf("way %d", k))
			}
			return append(u, "others 0", "branches 0", "callers 0", "vars 0", "two 0")
		},
		UnitTimeout: 900e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			var cases []d09Case
			all := append(append([]d09Make{}, d09Fixed...), d09Fresh...)
			isFixed := func(k int) bool { return k < len(d09Fixed) }
			switch kind {
			case "way":
				way := d09Ways[k]
				for _, s := range d09Sinks {
					for n, m := range all {
						c := d09Case{d09Src(way.src, s, m), []bool{isFixed(n)}, false}
						for _, f := range m.free {
							c.free = c.free || strings.HasPrefix(way.name, f) || strings.HasPrefix(way.name, "literal")
						}
						cases = append(cases, c)
					}
				}
			case "others":
				for _, way := range d09Ways {
					for _, s := range d09Others {
						for _, m := range all {
							cases = append(cases, d09Case{d09Src(way.src, s, m), []bool{false}, false})
						}
					}
				}
			case "branches": // fixed on one way
				for _, s := range d09Sinks {
					for i, a := range all {
						for j, b := range all {
							ren := strings.NewReplacer("n0", "o0", "n1", "o1", "arr", "brr", "bb", "cc")
							pre := a.pre + " " + ren.Replace(b.pre)
							eb := ren.Replace(b.e)
							cases = append(cases, d09Case{d09Src(`func fID() { PRE n := E; if yes { n = `+eb+` }; SINK(n) }`, s, d09Make{pre, a.e, nil}), []bool{isFixed(i) || isFixed(j)}, false})
						}
					}
				}
			case "callers":
				for n, s := range d09Sinks {
					for i, a := range all {
						for j, b := range all {
							if n > 1 && (i+j+n)%5 != 0 && !e.Thorough {
								continue
							}
							g := d09Src(`func gID(n []byte) { SINK(n) }`, s, a)
							c := d09Src("func fID() { PRE gID(E) }", s, a) + "\n" + d09Src("func hID() { PRE gID(E) }", s, b)
							cases = append(cases, d09Case{g + "\n" + c, []bool{false, isFixed(i), isFixed(j)}, false})
						}
					}
				}
			case "vars":
				for _, s := range d09Sinks {
					for _, m := range d09Fixed {
						if m.pre == "" {
							for _, way := range []string{`var vID = E; func fID() { SINK(vID) }`, `var vID []byte; func init() { vID = E }; func fID() { n := vID; SINK(n) }`,
								`var vID = struct{ n []byte }{E}; func fID() { SINK(vID.n) }`, `var vID = E; func gID(n []byte) { SINK(n) }; func fID() { gID(vID) }`,
								`var _ = func() bool { n := E; return func() bool { SINK(n); return yes }() }`} {
								cases = append(cases, d09Case{d09Src(way, s, m), []bool{true}, false})
							}
						}
					}
				}
			case "two": // several calls with one value, and other uses of it
				for _, s := range d09Sinks[1:5] {
					for i, a := range all {
						for _, o := range d09Others {
							if strings.Contains(o, "fresh") {
								continue
							}
							cases = append(cases, d09Case{
								d09Src("func fID() { PRE n := E; ", s, a) + "\n" + d09Src("SINK(n)", o, a) + "\n" + d09Src("SINK(n)", s, a) + "\n" + d09Src("{ SINK(n) }", o, a) + " }",
								[]bool{false, false, isFixed(i), false}, false,
							})
						}
					}
				}
			}
			d09Run(l, cases, unit, r)
			r.Sample(cases[len(cases)/2].src)
		},
	})
}
