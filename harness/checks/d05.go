package checks

import (
	"fmt"
	"go/ast"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/rules"

	"verifharness/core"
)

// D05: every combination of TLS settings in one literal, every way of writing the literal or the assignment, and every
// short sequence of them, under the three profiles; the findings must be exactly the faulty literals and assignments.

type d05Profile struct {
	name     string
	build    func(string, gosec.Config) (gosec.Rule, []ast.Node)
	min, max int64
	good     map[string]bool
}

func d05Set(ls ...string) map[string]bool {
	m := map[string]bool{}
	for _, l := range ls {
		for _, f := range strings.Fields(l) {
			m["TLS_"+f] = true
		}
	}
	return m
}

const (
	d05ModernC = "AES_128_GCM_SHA256 AES_256_GCM_SHA384 CHACHA20_POLY1305_SHA256"
	d05InterC  = " ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 ECDHE_RSA_WITH_AES_128_GCM_SHA256 ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 ECDHE_RSA_WITH_AES_256_GCM_SHA384 ECDHE_ECDSA_WITH_CHACHA20_POLY1305 ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 ECDHE_RSA_WITH_CHACHA20_POLY1305 ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256"
	d05OldC    = " ECDHE_ECDSA_WITH_AES_128_CBC_SHA256 ECDHE_RSA_WITH_AES_128_CBC_SHA256 ECDHE_ECDSA_WITH_AES_128_CBC_SHA ECDHE_RSA_WITH_AES_128_CBC_SHA ECDHE_ECDSA_WITH_AES_256_CBC_SHA ECDHE_RSA_WITH_AES_256_CBC_SHA RSA_WITH_AES_128_GCM_SHA256 RSA_WITH_AES_256_GCM_SHA384 RSA_WITH_AES_128_CBC_SHA256 RSA_WITH_AES_128_CBC_SHA RSA_WITH_AES_256_CBC_SHA RSA_WITH_3DES_EDE_CBC_SHA"
	d05BadC    = " RSA_WITH_RC4_128_SHA ECDHE_ECDSA_WITH_RC4_128_SHA ECDHE_RSA_WITH_RC4_128_SHA ECDHE_RSA_WITH_3DES_EDE_CBC_SHA"
)

var d05Profiles = []d05Profile{
	{"modern", rules.NewModernTLSCheck, 0x304, 0x304, d05Set(d05ModernC)},
	{"intermediate", rules.NewIntermediateTLSCheck, 0x303, 0x304, d05Set(d05ModernC + d05InterC)},
	{"old", rules.NewOldTLSCheck, 0x301, 0x304, d05Set(d05ModernC + d05InterC + d05OldC)},
}

// d05Val is one way of giving a field a value.
type d05Val struct {
	text string
	b    byte  // boolean fields: t, f, or ? (unknown)
	v    int64 // versions: the value, 0 for unknown ones as well
	cs   string
}

var d05Skip = []d05Val{{}, {text: "true", b: 't'}, {text: "false", b: 'f'}, {text: "yes", b: 't'}, {text: "no", b: 'f'}, {text: "!no", b: 't'}, {text: "(false)", b: 'f'},
	{text: "fb()", b: '?'}, {text: "vb", b: '?'}, {text: "o.Yes", b: 't'}, {text: "o.No", b: 'f'}, {text: "1 > 2", b: 'f'}, {text: "otherNo", b: 'f'}, {text: "!vb", b: '?'}}

var d05Prefer = []d05Val{{}, {text: "true", b: 't'}, {text: "false", b: 'f'}, {text: "no", b: 'f'}, {text: "yes", b: 't'}, {text: "fb()", b: '?'}, {text: "o.No", b: 'f'}}

var d05Min = []d05Val{{}, {text: "tls.VersionSSL30", v: 0x300}, {text: "tls.VersionTLS10", v: 0x301}, {text: "tls.VersionTLS11", v: 0x302}, {text: "tls.VersionTLS12", v: 0x303}, {text: "tls.VersionTLS13", v: 0x304},
	{text: "0"}, {text: "0x0303", v: 0x303}, {text: "771", v: 0x303}, {text: "0x304", v: 0x304}, {text: "c12", v: 0x303}, {text: "c13", v: 0x304}, {text: "c11", v: 0x302}, {text: "otherC13", v: 0x304}, {text: "otherC10", v: 0x301},
	{text: "v12", v: 0x303}, {text: "v11", v: 0x302}, {text: "v13", v: 0x304}, {text: "otherV12", v: 0x303}, {text: "otherV10", v: 0x301}, {text: "m11", v: 0x302}, {text: "m13", v: 0x304}, {text: "lv12", v: 0x303}, {text: "lm13", v: 0x304}, {text: "lm10", v: 0x301}, {text: "lc13", v: 0x304},
	{text: "o.V12", v: 0x303}, {text: "o.V11", v: 0x302}, {text: "uint16(tls.VersionTLS12)", v: 0x303}, {text: "(tls.VersionTLS13)", v: 0x304}, {text: "tls.VersionTLS10 + 3", v: 0x304}, {text: "fv()"}, {text: "0b1100000011", v: 0x303}}

var d05Max = []d05Val{{}, {text: "0"}, {text: "tls.VersionTLS10", v: 0x301}, {text: "tls.VersionTLS11", v: 0x302}, {text: "tls.VersionTLS12", v: 0x303}, {text: "tls.VersionTLS13", v: 0x304}, {text: "0x0303", v: 0x303}, {text: "c12", v: 0x303}, {text: "c13", v: 0x304}, {text: "uint16(tls.VersionTLS11)", v: 0x302}, {text: "otherC10", v: 0x301}, {text: "o.V12", v: 0x303}, {text: "lc13", v: 0x304}, {text: "(tls.VersionTLS13)", v: 0x304}}

func d05Suites(cs string) string {
	if cs == "-" {
		return "[]uint16{}"
	}
	var out []string
	for _, c := range strings.Fields(cs) {
		out = append(out, "tls.TLS_"+c)
	}
	return "[]uint16{" + strings.Join(out, ", ") + "}"
}

var d05Cs = func() []d05Val {
	out := []d05Val{{}}
	m, i, o, b := "AES_128_GCM_SHA256", "ECDHE_RSA_WITH_AES_128_GCM_SHA256", "RSA_WITH_AES_128_CBC_SHA", "RSA_WITH_RC4_128_SHA"
	for _, cs := range []string{"-", m, i, o, b, m + " " + i, i + " " + m, m + " " + b, o + " " + m, m + " " + i + " " + o} {
		out = append(out, d05Val{text: d05Suites(cs), cs: cs})
	}
	return out
}()

type d05Lit struct {
	skip, prefer, min, max, cs d05Val
}

func (t d05Lit) fields(rev bool) string {
	var out []string
	for _, f := range []struct {
		n string
		v d05Val
	}{{"InsecureSkipVerify", t.skip}, {"MinVersion", t.min}, {"CipherSuites", t.cs}, {"MaxVersion", t.max}, {"PreferServerCipherSuites", t.prefer}} {
		if f.v.text != "" {
			s := f.n + ": " + f.v.text
			if rev {
				out = append([]string{s}, out...)
			} else {
				out = append(out, s)
			}
		}
	}
	return strings.Join(out, ", ")
}

// faults lists what a message about the literal may say.
func (t d05Lit) faults(p d05Profile) map[string]bool {
	m := map[string]bool{}
	if t.skip.b == 't' || t.skip.b == '?' {
		m["InsecureSkipVerify"] = true
	}
	if t.prefer.b == 'f' || t.prefer.b == '?' {
		m["PreferServerCipherSuites"] = true
	}
	if t.cs.cs != "" && t.cs.cs != "-" {
		for _, c := range strings.Fields(t.cs.cs) {
			if !p.good["TLS_"+c] {
				m["TLS_"+c] = true
			}
		}
	}
	switch {
	case t.min.v < p.min:
		m["MinVersion"] = true
	case t.max.v != 0 && t.max.v < p.max:
		m["MaxVersion"] = true
	}
	return m
}

const d05Head = `package p

import (
	"crypto/tls"
	"net/http"

	"ex.test/o"
	xtls "ex.test/tls"
)

const (
	yes = true
	no  = false
	c11 = tls.VersionTLS11
	c12 = 0x0303
	c13 uint16 = tls.VersionTLS13
)

var (
	vb  bool
	v11 uint16 = tls.VersionTLS11
	v12 uint16 = tls.VersionTLS12
	v13 uint16 = 0x0304
	m11, m13 uint16 = tls.VersionTLS11, tls.VersionTLS13
)

type alias = tls.Config

type palias = *tls.Config

type S struct {
	C tls.Config
	P *tls.Config
	N *S
}

func fb() bool { return vb }

func fv() uint16 { return v12 }

func use(...any) {}

`

const d05Locals = `	var lv12 uint16 = tls.VersionTLS12
	var lm10, lm13 uint16 = tls.VersionTLS10, tls.VersionTLS13
	const lc13 = tls.VersionTLS13
	use(lv12, lm10, lm13, lc13, http.NoBody, o.Yes, xtls.X)
	var c tls.Config
	p := &c
	pp := &p
	var s S
	sp := &s
	var xs []tls.Config
	var ps map[string]*tls.Config
	var tr http.Transport
	var srv *http.Server
	var n int
	var x xtls.Config
	var a alias
	var pa palias
	use(c, p, pp, s, sp, xs, ps, tr, srv, n, x, a, pa, v12)
`

const d05Other = `package p

import "crypto/tls"

const otherC10, otherC13 = tls.VersionTLS10, tls.VersionTLS13

const otherNo = false

var otherV12 uint16 = tls.VersionTLS12

var otherV10, otherV13 uint16 = tls.VersionTLS10, 0x304
`

// d05Stmt is one generated line with the faults a finding on it may name; empty means no finding.
type d05Stmt struct {
	text   string
	faults func(p d05Profile) map[string]bool
	free   bool // not judged itself
}

var d05Ready = map[*core.Loader]bool{}

func d05Analyzer(p d05Profile) *gosec.Analyzer {
	a := core.NewAnalyzer(core.Opts{Include: []string{"G402"}})
	if p.name != "intermediate" {
		a = core.NewAnalyzer(core.Opts{Include: []string{"-"}})
		a.LoadRules(map[string]gosec.RuleBuilder{"G402": p.build}, map[string]bool{"G402": false})
	}
	return a
}

func d05Loader(e *core.Env) *core.Loader {
	l := getLoader(e)
	if !d05Ready[l] {
		l.AddStub("ex.test/o", "package o\n\nimport \"crypto/tls\"\n\nconst Yes, No = true, false\n\nconst V11, V12 = tls.VersionTLS11, 0x303\n")
		l.AddStub("ex.test/tls", "package tls\n\ntype Config struct { InsecureSkipVerify, PreferServerCipherSuites bool; MinVersion, MaxVersion uint16; CipherSuites []uint16 }\n\nvar X Config\n")
		d05Ready[l] = true
	}
	return l
}

// d05Run lays the statements out, split into functions of at most per lines, and compares per line.
func d05Run(e *core.Env, name string, stmts []d05Stmt, per int, r *core.Rec) {
	l := d05Loader(e)
	var b strings.Builder
	b.WriteString(d05Head)
	n := strings.Count(b.String(), "\n") + 1
	at := map[int]int{}
	for i, st := range stmts {
		if i%per == 0 {
			h := fmt.Sprintf("func z%d() {\n%s", i, d05Locals)
			b.WriteString(h)
			n += strings.Count(h, "\n")
		}
		for range strings.Split(st.text, "\n") {
			at[n] = i
			n++
		}
		b.WriteString("\t" + st.text + "\n")
		if i%per == per-1 || i == len(stmts)-1 {
			b.WriteString("}\n\n")
			n += 2
		}
	}
	pkg := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()}, core.File{Name: "b.go", Src: d05Other})
	for _, p := range d05Profiles {
		a := d05Analyzer(p)
		a.CheckRules(pkg)
		is, _, _ := a.Report()
		got := map[int][]string{}
		for _, i := range is {
			ln, _ := lineRange(i.Line)
			k, ok := at[ln]
			if !ok || !strings.HasSuffix(i.File, "a.go") {
				r.Violate(name+" elsewhere "+p.name, i.What, "profile %s: finding at %s:%s %s", p.name, i.File, i.Line, i.What)
				continue
			}
			got[k] = append(got[k], i.What)
		}
		r.Evals++
		r.Transitions += len(stmts)
		bad := 0
		for k, st := range stmts {
			r.State(p.name + st.text)
			if st.free {
				continue
			}
			f := st.faults(p)
			ok := len(got[k]) == 0
			if len(f) > 0 {
				ok = len(got[k]) == 1
				if ok {
					named := false
					for w := range f {
						named = named || strings.Contains(" "+got[k][0]+" ", " "+w+" ")
					}
					ok = named
				}
			}
			if !ok {
				if bad++; bad <= 3 {
					r.Violate(p.name+": "+st.text, st.text, "profile %s, %s: faults %v, got findings %q for %s", p.name, name, f, got[k], st.text)
				}
			}
		}
	}
}

func d05None(d05Profile) map[string]bool { return nil }

// d05Alphabet is the family used for forms and sequences.
func d05Alphabet() []d05Lit {
	v := func(s string) d05Val {
		for _, x := range append(append([]d05Val{}, d05Min...), d05Max...) {
			if x.text == s {
				return x
			}
		}
		panic(s)
	}
	t13, t12, t10 := v("tls.VersionTLS13"), v("tls.VersionTLS12"), v("tls.VersionTLS10")
	T, F := d05Skip[1], d05Skip[2]
	cs := func(s string) d05Val { return d05Val{text: d05Suites(s), cs: s} }
	return []d05Lit{
		{min: t13}, {}, {min: t13, max: t12}, {min: t13, max: t13}, {max: t13}, {min: t12}, {min: t10}, {min: t13, skip: T}, {min: t13, skip: F}, {skip: T}, {min: t13, prefer: F}, {min: t12, prefer: T},
		{min: t13, cs: cs("AES_128_GCM_SHA256")}, {min: t13, cs: cs("AES_128_GCM_SHA256 RSA_WITH_RC4_128_SHA")}, {min: t13, cs: cs("RSA_WITH_AES_128_CBC_SHA")}, {min: t10, max: t12},
	}
}

func d05Forms() []string {
	return []string{"use(tls.Config{F})", "use(&tls.Config{F})", "c = tls.Config{F}", "p = &tls.Config{F}", "{ var d = tls.Config{F}; use(d) }", "{ d := &tls.Config{F}; use(d) }", "use([]tls.Config{{F}})", "use([]*tls.Config{{F}})",
		"use([]tls.Config{{MinVersion: tls.VersionTLS13}, {F}})", "use(map[string]tls.Config{\"\": {F}})", "use(map[string]*tls.Config{\"\": {F}})", "use([1]tls.Config{{F}})", "use([...]*tls.Config{{F}})", "use([][]tls.Config{{{F}}})",
		"use(alias{F})", "use(&alias{F})", "use([]alias{{F}})", "use([]palias{{F}})", "use(S{C: tls.Config{F}})", "use(&S{P: &tls.Config{F}})", "use(&http.Transport{TLSClientConfig: &tls.Config{F}})", "go use(&tls.Config{F})", "defer use(tls.Config{F})",
		"use(func() *tls.Config { return &tls.Config{F} })", "use((&tls.Config{F}).Clone())", "xs = append(xs, tls.Config{F})", "ps[\"\"] = &tls.Config{F}", "s.N.P = &tls.Config{F}", "use((tls.Config{F}))", "use([]any{tls.Config{F}})", "use(map[any]int{&tls.Config{F}: 1})", "for range []tls.Config{{F}} { }", "switch any(&tls.Config{F}) { }"}
}

var d05Look = []string{"use(xtls.Config{F})", "use(&xtls.Config{F})", "use([]xtls.Config{{F}})"}

// d05Recv are expressions denoting a configuration.
var d05Recv = []string{"c", "p", "(*p)", "(*pp)", "s.C", "s.P", "sp.C", "sp.P", "s.N.N.P", "xs[0]", "ps[\"\"]", "tr.TLSClientConfig", "srv.TLSConfig", "a", "pa", "(c)", "(&c)"}

func d05Assigns() []d05Stmt {
	var out []d05Stmt
	vals := func(field string, vs []d05Val, mk func(d05Val) d05Lit) {
		for _, v := range vs {
			if v.text == "" {
				continue
			}
			lit := mk(v)
			f := func(p d05Profile) map[string]bool {
				m := lit.faults(p)
				delete(m, "MinVersion")
				delete(m, "MaxVersion")
				return m
			}
			for _, rc := range d05Recv {
				out = append(out, d05Stmt{text: rc + "." + field + " = " + v.text, faults: f})
				out = append(out, d05Stmt{text: "n, " + rc + "." + field + " = 1, " + v.text, faults: f})
				out = append(out, d05Stmt{text: rc + "." + field + ", n = " + v.text + ", 1", faults: f})
				out = append(out, d05Stmt{text: "x." + field + ", " + rc + "." + field + " = " + v.text + ", " + v.text, faults: f})
				out = append(out, d05Stmt{text: rc + ".ServerName, " + rc + "." + field + " = \"x\", " + v.text, faults: f})
				out = append(out, d05Stmt{text: "if " + rc + "." + field + " = " + v.text + "; n > 0 { }", faults: f})
			}
			out = append(out, d05Stmt{text: "x." + field + " = " + v.text, faults: d05None})
			out = append(out, d05Stmt{text: "x." + field + ", n = " + v.text + ", 2", faults: d05None})
		}
	}
	vals("InsecureSkipVerify", d05Skip, func(v d05Val) d05Lit { return d05Lit{skip: v} })
	vals("PreferServerCipherSuites", d05Prefer, func(v d05Val) d05Lit { return d05Lit{prefer: v} })
	vals("CipherSuites", d05Cs, func(v d05Val) d05Lit { return d05Lit{cs: v} })
	return out
}

func d05Lits(f string) []d05Stmt {
	var out []d05Stmt
	for _, t := range d05Alphabet() {
		for _, rev := range []bool{false, true} {
			t := t
			out = append(out, d05Stmt{text: strings.Replace(f, "F", t.fields(rev), 1), faults: t.faults})
		}
	}
	return out
}

func init() {
	core.Register(&core.Check{
		ID: "D05", Level: "model_checking",
		Rule:   "a state is a distinct (profile, literal or assignment); transitions are the generated statements scanned by the real rule; each literal and assignment must have one finding naming one of its own faults, or none if it has none",
		Bounds: "all products of 14 verification, 7 preference, 33 minimum version, 14 maximum version and 11 cipher suite values in one literal, both field orders; every cipher suite of the standard library; lists of up to 40 suites with another one at each place; up to 12 other fields and 29 other literals around; 33 literal forms and 3 look-alikes x 16 literals; 17 configuration expressions x 6 assignment forms x every value; all sequences of 3 (thorough: 4) from 16 literals and 6 assignments in one function, across functions and across nested literals; three profiles",
		Prepare: func(e *core.Env) error {
			return core.PrepareStd(e)
		},
		Units: func(e *core.Env) []string {
			u := []string{"forms", "assign", "suites", "nested", "long"}
			for i := range d05Min {
				u = append(u, fmt.Sprintf("lit %d", i))
			}
			for i := 0; i < 22; i++ {
				u = append(u, fmt.Sprintf("seq %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			switch kind {
			case "forms":
				var ss []d05Stmt
				for _, f := range d05Forms() {
					ss = append(ss, d05Lits(f)...)
				}
				for _, f := range d05Look {
					for _, t := range d05Lits(f) {
						t.faults = d05None
						ss = append(ss, t)
					}
				}
				d05Run(e, unit, ss, 16, r)
			case "assign":
				d05Run(e, unit, d05Assigns(), 16, r)
			case "suites":
				var ss []d05Stmt
				for _, c := range strings.Fields(d05ModernC + d05InterC + d05OldC + d05BadC) {
					for _, d := range append([]string{""}, strings.Fields(d05ModernC+d05InterC+d05OldC+d05BadC)...) {
						cs := c
						if d != "" {
							cs += " " + d
						}
						if d == c {
							cs = c + " " + c
						}
						t := d05Lit{min: d05Min[5], cs: d05Val{text: d05Suites(cs), cs: cs}}
						ss = append(ss, d05Stmt{text: "use(tls.Config{" + t.fields(false) + "})", faults: t.faults})
					}
				}
				d05Run(e, unit, ss, 50, r)
			case "long":
				var ss []d05Stmt
				add := func(text string, t d05Lit) {
					ss = append(ss, d05Stmt{text: strings.Replace(text, "F", t.fields(len(ss)%2 == 0), 1), faults: t.faults})
				}
				for _, good := range []string{d05ModernC, d05InterC, d05OldC} { // one other suite at each place of a long list
					names := strings.Fields(good)
					for n := 3; n <= 40; n++ {
						if n > 12 && n%7 > 1 {
							continue
						}
						for at := -1; at < n; at++ {
							for _, bad := range []string{"RSA_WITH_RC4_128_SHA", "RSA_WITH_AES_128_CBC_SHA256"} {
								var cs []string
								for j := range n {
									cs = append(cs, names[j%len(names)])
								}
								if at >= 0 {
									cs[at] = bad
								}
								c := strings.Join(cs, " ")
								add("use(tls.Config{F})", d05Lit{min: d05Min[5], cs: d05Val{text: d05Suites(c), cs: c}})
							}
						}
					}
				}
				fill := []string{`ServerName: "x"`, `Rand: nil`, `Time: nil`, `Certificates: nil`, `RootCAs: nil`, `NextProtos: []string{"a", "b"}`, `ClientAuth: tls.NoClientCert`, `ClientCAs: nil`, `SessionTicketsDisabled: true`, `KeyLogWriter: nil`, `DynamicRecordSizingDisabled: false`, `Renegotiation: tls.RenegotiateNever`}
				for _, t := range d05Alphabet() { // among other fields
					for n := 1; n <= len(fill); n++ {
						add("use(&tls.Config{"+strings.Join(fill[:n], ", ")+", F})", t)
						if t.fields(false) != "" {
							add("use(&tls.Config{F, "+strings.Join(fill[:n], ", ")+"})", t)
							half := strings.SplitN(t.fields(false), ", ", 2)
							if len(half) == 2 && !strings.Contains(half[0], "{") {
								ss = append(ss, d05Stmt{text: "use(&tls.Config{" + half[0] + ", " + strings.Join(fill[:n], ", ") + ", " + half[1] + "})", faults: t.faults})
							}
						}
					}
				}
				for _, t := range d05Alphabet() { // among many literals
					for n := range 30 {
						ss = append(ss, d05Stmt{text: "use([]tls.Config{" + strings.Repeat("{MinVersion: tls.VersionTLS13}, ", n) + "{" + t.fields(false) + "}})", faults: t.faults})
					}
				}
				d05Run(e, unit, ss, 100, r)
			case "lit":
				var ss []d05Stmt
				add := func(t d05Lit) {
					for _, rev := range []bool{false, true} {
						ss = append(ss, d05Stmt{text: "use(&tls.Config{" + t.fields(rev) + "})", faults: t.faults})
					}
				}
				for _, mx := range d05Max {
					for _, sk := range d05Skip {
						for _, pr := range d05Prefer {
							for _, cs := range d05Cs {
								add(d05Lit{skip: sk, prefer: pr, min: d05Min[k], max: mx, cs: cs})
							}
						}
					}
				}
				d05Run(e, unit, ss, 100, r)
			case "nested":
				var ss []d05Stmt
				for _, o := range d05Alphabet() {
					for _, i := range d05Alphabet() {
						for _, pos := range []bool{true, false} {
							// the inner literal on its own line; the outer finding may lie on any line of its own
							inner := "GetConfigForClient: func(*tls.ClientHelloInfo) (*tls.Config, error) { return &tls.Config{" + i.fields(false) + "}, nil }"
							outer := o.fields(false)
							if outer != "" {
								outer += ", "
							}
							var one, two string
							of, inf := o.faults, i.faults
							if pos {
								one, two = "use(&tls.Config{", inner+", "
								ss = append(ss, d05Stmt{text: one, faults: nil, free: true}, d05Stmt{text: two, faults: inf}, d05Stmt{text: outer + "})", free: true})
							} else {
								ss = append(ss, d05Stmt{text: "use(&tls.Config{" + outer, faults: of}, d05Stmt{text: inner + ",", faults: inf}, d05Stmt{text: "})", faults: d05None})
							}
						}
					}
				}
				d05Run(e, unit, ss, 96, r)
			default:
				// all sequences of three, as statements of one function and as functions of their own
				var al []d05Stmt
				for _, t := range d05Alphabet() {
					al = append(al, d05Stmt{text: "use(tls.Config{" + t.fields(false) + "})", faults: t.faults})
				}
				as := func(text, fault string) {
					al = append(al, d05Stmt{text: text, free: fault == "free", faults: func(d05Profile) map[string]bool {
						if fault == "" {
							return nil
						}
						return map[string]bool{fault: true}
					}})
				}
				as("c.InsecureSkipVerify = true", "InsecureSkipVerify")
				as("p.InsecureSkipVerify = false", "")
				as("p.PreferServerCipherSuites = false", "PreferServerCipherSuites")
				as("c.MinVersion = tls.VersionTLS13", "free")
				as("c.MaxVersion = tls.VersionTLS10", "free")
				as("p.CipherSuites = []uint16{tls.TLS_RSA_WITH_RC4_128_SHA}", "TLS_RSA_WITH_RC4_128_SHA")
				for _, per := range []int{3, 1} {
					var ss []d05Stmt
					for _, b := range al {
						for _, c := range al {
							ss = append(ss, al[k], b, c)
							if e.Thorough && per == 3 {
								for _, d := range al {
									ss = append(ss, al[k], b, c, d)
								}
							}
						}
					}
					d05Run(e, unit, ss, per, r)
				}
			}
			r.Sample(unit)
		},
	})
}
