package checks

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strings"

	"verifharness/core"
)

// D02: generated functions, one a line, convert an integer in every combination of types, source, constant, parse call
// and guard; the real analyzer must report exactly the lines on which the reference finds a value which reaches the
// conversion and does not fit. Guards are evaluated on a set of values which holds every constant with its neighbours.

type d02Type struct {
	name     string
	min, max *big.Int
}

func d02Int(name string, bits uint, signed bool) d02Type {
	one := big.NewInt(1)
	if signed {
		m := new(big.Int).Lsh(one, bits-1)
		return d02Type{name, new(big.Int).Neg(m), new(big.Int).Sub(m, one)}
	}
	m := new(big.Int).Lsh(one, bits)
	return d02Type{name, big.NewInt(0), m.Sub(m, one)}
}

var d02Types = []d02Type{
	d02Int("int", 64, true), d02Int("int8", 8, true), d02Int("int16", 16, true), d02Int("int32", 32, true), d02Int("int64", 64, true),
	d02Int("uint", 64, false), d02Int("uint8", 8, false), d02Int("uint16", 16, false), d02Int("uint32", 32, false), d02Int("uint64", 64, false),
	d02Int("byte", 8, false), d02Int("rune", 32, true), d02Int("Named", 32, false), d02Int("Other", 64, true), d02Int("time.Duration", 64, true),
}

func (t d02Type) has(v *big.Int) bool { return v.Cmp(t.min) >= 0 && v.Cmp(t.max) <= 0 }

func (t d02Type) fits(d d02Type) bool { return d.has(t.min) && d.has(t.max) }

const d02Head = `package p

import (
	"log"
	"os"
	"strconv"
	"time"
)

type Named uint32
type Other int

var (
	_ = log.Fatal
	_ = os.Exit
	_ = strconv.Atoi
	_ time.Duration
	str string
	yes bool
)

func use(...any) bool { return yes }
func ParseInt(string, int, int) (int64, error) { return 1 << 40, nil }

`

type d02Case struct {
	line string
	want bool
}

func d02Run(l *core.Loader, cases []d02Case, what string, r *core.Rec) {
	cases = slices.DeleteFunc(cases, func(c d02Case) bool { return c.line == "" })
	const per = 2500
	for at := 0; at < len(cases); at += per {
		part := cases[at:min(at+per, len(cases))]
		first := 1 + strings.Count(d02Head, "\n")
		var b strings.Builder
		b.WriteString(d02Head)
		for k, c := range part {
			b.WriteString(strings.ReplaceAll(c.line, "ID", fmt.Sprint(k)) + "\n")
		}
		p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()})
		is, _ := core.Scan(core.Opts{Include: []string{"G115"}}, p)
		got := map[int]int{}
		for _, i := range is {
			a, _ := lineRange(i.Line)
			got[a-first]++
		}
		r.Evals += len(part)
		r.Transitions += len(part)
		for k, c := range part {
			r.State(c.line)
			if (got[k] > 0) != c.want {
				r.Violate(c.line, c.line, "%s: reported %v, should be %v: %s", what, got[k] > 0, c.want, c.line)
			}
			delete(got, k)
		}
		if len(got) > 0 {
			r.Violate(what+": elsewhere", what, "findings on other lines: %v", got)
		}
	}
}

// sources of a value of type S which is converted to D
var d02Sources = []string{
	`func fID(x S) { use(D(x)) }`,
	`func fID(x S) D { return D(x) }`,
	`func fID(x S) { var y D = D(x); use(y) }`,
	`func fID(g func() S) { use(D(g())) }`,
	`func fID(g func() (S, error)) { x, _ := g(); use(D(x)) }`,
	`func fID(s struct{ f S }) { use(D(s.f)) }`,
	`func fID(s *struct{ f S }) { use(D(s.f)) }`,
	`func fID(s []S) { use(D(s[0])) }`,
	`func fID(s []S, i int) { use(D(s[i])) }`,
	`func fID(s map[string]S) { use(D(s[str])) }`,
	`func fID(s *S) { use(D(*s)) }`,
	`func fID(s chan S) { use(D(<-s)) }`,
	`func fID(s []S) { for _, x := range s { use(D(x)) } }`,
	`func fID(s any) { use(D(s.(S))) }`,
	`func fID(x S) { use(D(x + 1)) }`,
	`func fID(x, y S) { use(D(x * y)) }`,
	`func fID(x, y S) { z := x; if yes { z = y }; use(D(z)) }`,
	`func fID(x S) { func() { use(D(x)) }() }`,
	`func fID(x S) { x++; use(D(x)) }`,
	`func fID(x S) { for i := 0; i < 3; i++ { use(D(x)) } }`,
	`func fID(x S) { defer use(D(x)) }`,
	`func fID(x S) { go use(D(x)) }`,
	`func fID(x S) { use([]D{D(x)}) }`,
	`func fID(x S) { switch D(x) { case 1: use() } }`,
	`func fID(x S) { if y := D(x); y == 1 { use() } }`,
	`type tID struct{}; func (tID) m(x S) { use(D(x)) }`,
	`var vID S; func fID() { use(D(vID)) }`,
	`var vID S; var wID = D(vID)`,
	`var vID = func(x S) D { return D(x) }`,
	`func fID(x S) { select { case <-make(chan D, 1): default: use(D(x)) } }`,
	`func fID[T any](x S, _ T) { use(D(x)) }; func hID() { fID(1, 2) }`,
	`func fID(x S) { use(func() D { return (D)((x)) }) }`,
}

// what is no conversion between integers, or one which fits
var d02Never = []string{
	`func fID(x S) { use(float64(x)) }`,
	`func fID(x S) { use(any(x)) }`,
	`func fID(x float64) { use(S(x)) }`,
	`func fID(x S) { use(S(x)) }`,
	`func fID(x S) { use(string(rune(5)), x) }`,
	`func fID() { const x = 5; use(S(x)) }`,
	`func fID(x int8) { use(1 << uint8(3), x) }`,
	`func fID(x S, a []int) { use(a[x], a[x:], a[:x]) }`,
	`func fID(x S) { use(make([]int, x), make([]int, 0, x), make(chan int, x)) }`,
	`func fID(x S) { use(1<<(x&3), 5>>(x&1)) }`,
	`func fID(x S) { for i := range 3 { use(i, x) } }`,
	`func fID(x complex128) { use(real(x)) }`,
}

// ---- guards ----

type d02Cond struct {
	src  string
	eval func(x *big.Int) bool
	may  func(x *big.Int, truth bool) bool // whether the condition may have the truth value, if inequations tell nothing
	many bool                              // not a single comparison: cases of switches with such conditions are not judged
	two  bool
}

var d02Ops = []string{"<", "<=", ">", ">=", "==", "!="}

func d02Cmp(op string, c int) bool {
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	case "==":
		return c == 0
	}
	return c != 0
}

func d02Atom(op string, c *big.Int, swapped bool) d02Cond {
	src, eval := fmt.Sprintf("X %s %s", op, c), func(x *big.Int) bool { return d02Cmp(op, x.Cmp(c)) }
	if swapped {
		src, eval = fmt.Sprintf("%s %s X", c, op), func(x *big.Int) bool { return d02Cmp(op, c.Cmp(x)) }
	}
	return d02Cond{src, eval, func(x *big.Int, truth bool) bool {
		return eval(x) == truth || op == "!=" && truth || op == "==" && !truth
	}, false, false}
}

func d02And(a, b d02Cond) d02Cond {
	return d02Cond{a.src + " && " + b.src, func(x *big.Int) bool { return a.eval(x) && b.eval(x) }, func(x *big.Int, truth bool) bool {
		return truth && a.may(x, true) && b.may(x, true) || !truth && (a.may(x, false) || b.may(x, false))
	}, true, true}
}

func d02Or(a, b d02Cond) d02Cond {
	return d02Cond{a.src + " || " + b.src, func(x *big.Int) bool { return a.eval(x) || b.eval(x) }, func(x *big.Int, truth bool) bool {
		return truth && (a.may(x, true) || b.may(x, true)) || !truth && a.may(x, false) && b.may(x, false)
	}, true, true}
}

func d02Not(a d02Cond) d02Cond {
	return d02Cond{"!(" + a.src + ")", func(x *big.Int) bool { return !a.eval(x) }, func(x *big.Int, truth bool) bool { return a.may(x, !truth) }, true, false}
}

// d02Shapes: C is the condition, X the value; reach tells which values reach the conversion given the condition.
var d02Shapes = []struct {
	src   string
	reach string // in: those with C; out: those without; all
}{
	{`if C { use(D(X)) }`, "in"},
	{`if C { return }; use(D(X))`, "out"},
	{`if C { use() } else { use(D(X)) }`, "out"},
	{`if C { panic(1) }; use(D(X))`, "out"},
	{`if C { use() }; use(D(X))`, "all"},
	{`use(D(X)); if C { return }; use()`, "all"},
	{`switch { case C: use(D(X)) }`, "in"},
	{`switch { case C: return }; use(D(X))`, "out"},
	{`switch { case yes: use(); case C: use(); default: use(D(X)) }`, "out"},
	{`for i := 0; i < 9; i++ { if C { continue }; use(D(X)) }`, "out"},
	{`for i := 0; i < 9; i++ { if C { break }; use(D(X)) }`, "out"},
	{`for i := 0; i < 9; i++ { if C { break } }; use(D(X))`, "all"},
	{`for { if C { break } }; use(D(X))`, "in"},
	{`for C { use(D(X)); break }`, "in"},
	{`for C { use() }; use(D(X))`, "out"},
	{`if C { os.Exit(1) }; use(D(X))`, "out"},
	{`if C { log.Fatalf("x") }; use(D(X))`, "out"},
	{`if C { goto done }; use(D(X)); done: use()`, "out"},
	{`if yes { if C { return } }; use(D(X))`, "all"},
	{`if yes { if C { return }; use(D(X)) }`, "out"},
	{`if yes && C { use(D(X)) }`, "in"},
	{`if C && yes { return }; use(D(X))`, "all"},
	{`if yes || C { return }; use(D(X))`, "out"},
	{`if (C) || yes { use(D(X)) }`, "all"},
	{`if C { if yes { use(D(X)) } else { use() } }`, "in"},
	{`if C { for range 3 { if yes { use(D(X)) } } }`, "in"},
	{`if C { return }; func() { use() }(); if yes { use(D(X)) }`, "out"},
	{`if !(C) { return }; defer use(D(X))`, "in"},
	{`if C { use(); return } else if yes { use(D(X)) }`, "out"},
	{`ok := C; use(ok); use(D(X))`, "all"},
	{`select { default: if C { return } }; use(D(X))`, "out"},
	{`if C { if !yes { return } }; use(D(X))`, "all"},
}

// d02Values: kinds of guarded values: P the parameter list and prologue, X how it is written.
var d02Values = []struct{ params, pre, x, neg string }{
	{"x S", "", "x", ""},
	{"g func() S", "x := g()", "x", ""},
	{"s struct{ f S }", "", "s.f", ""},
	{"s *struct{ f S }", "", "s.f", ""},
	{"s *struct{ a struct{ f S } }", "", "s.a.f", ""},
	{"p *S", "", "*p", ""},
	{"g func(*S)", "var x S; g(&x)", "x", ""},
	{"x, y S", "z := x; if yes { z = y }", "z", ""},
	{"s []S", "x := s[0]", "x", ""},
}

// d02Changed: the value is another one than the compared one by the time it is converted.
var d02Changed = []string{
	`func fID(x, y S) { if C { return }; use(D(y)) }`,
	`func fID(x S, g func() S) { if C { return }; x = g(); use(D(x)) }`,
	`func fID(x S, g func() S) { if C { x = g(); use(D(x)) } }`,
	`func fID(x S, g func() S) { if C { x = g() }; use(D(x)) }`,
	`func fID(x S, g func() S) { if C { return }; for yes { x = g() }; use(D(x)) }`,
	`func fID(x S) { if C { return }; use(D(x + 1)) }`,
	`func fID(x S) { if C { return }; use(D(x - 1)) }`,
	`func fID(x S) { if C { return }; use(D(x * 2)) }`,
	`func fID(x S) { if C { return }; x++; use(D(x)) }`,
	`func fID(x, y S) { if C { return }; use(D(x + y)) }`,
	`func fID(x S, s []S) { if C { return }; for _, x := range s { use(D(x)) } }`,
	`func fID(x S, s *struct{ f, h S }) { if C { return }; use(D(s.h)) }`,
	`func fID(x S) { if y := x + 1; y == 3 { use() } else if C { use() }; use(D(x)) }`,
	`func fID(x S, g func() S) { h := func() { use(&x) }; if C { return }; x = g(); h(); use(D(x)) }`,
	`func fID(x S) { func() { if C { return } }(); use(D(x)) }`,
}

func d02Consts(s, d d02Type, wide bool) []*big.Int {
	var out []*big.Int
	seen := map[string]bool{}
	add := func(v *big.Int, off int64) {
		v = new(big.Int).Add(v, big.NewInt(off))
		if s.has(v) && !seen[v.String()] {
			seen[v.String()] = true
			out = append(out, v)
		}
	}
	for _, o := range []int64{0, -1, 1} {
		add(d.max, o)
		add(d.min, o)
		if wide {
			add(big.NewInt(0), o)
			add(s.min, o)
			add(s.max, o)
		}
	}
	add(big.NewInt(0), 0)
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

// d02Lost: some value of S for which the condition is as told does not fit in D.
func d02Lost(s, d d02Type, points []*big.Int, c d02Cond, reach string) bool {
	for _, x := range points {
		if d.has(x) || reach == "in" && !c.eval(x) || reach == "out" && c.eval(x) {
			continue
		}
		return true
	}
	return false
}

// d02Points is every constant with its neighbours, and the ends of the types.
func d02Points(s, d d02Type) []*big.Int {
	var out []*big.Int
	add := func(v *big.Int) {
		for o := int64(-2); o <= 2; o++ {
			if x := new(big.Int).Add(v, big.NewInt(o)); s.has(x) {
				out = append(out, x)
			}
		}
	}
	for _, v := range []*big.Int{s.min, s.max, d.min, d.max, big.NewInt(0)} {
		add(v)
	}
	return out
}

func d02Guard(shape, value int, s, d d02Type, c d02Cond) d02Case {
	sh, v := d02Shapes[shape], d02Values[value]
	if c.many && strings.Contains(sh.src, "case C") {
		return d02Case{}
	}
	line := "func fID(" + v.params + ") { " + v.pre
	if v.pre != "" {
		line += "; "
	}
	line += sh.src + " }"
	line = strings.ReplaceAll(line, "use(D(X))", "use("+d.name+"(X))")
	cond := c.src
	if strings.Contains(sh.src, "&&") || strings.Contains(sh.src, "||") {
		cond = "(" + cond + ")"
	}
	line = d02Word(line, "C", cond)
	line = d02Word(line, "X", v.x)
	line = d02Word(line, "S", s.name)
	lost := !s.fits(d) && d02Lost(s, d, d02Points(s, d), c, sh.reach)
	if !lost && !s.fits(d) && sh.reach != "all" && c.two {
		// An inequation takes a value out of the middle of a range: that this makes the conversion safe need not be found.
		for _, x := range d02Points(s, d) {
			if !d.has(x) && c.may(x, sh.reach == "in") {
				return d02Case{}
			}
		}
	}
	return d02Case{line, lost}
}

// d02Word replaces a letter standing alone.
func d02Word(s, w, by string) string {
	var b strings.Builder
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(s); i++ {
		if s[i] == w[0] && (i == 0 || !word(s[i-1])) && (i+1 == len(s) || !word(s[i+1])) {
			b.WriteString(by)
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func d02Conds(s, d d02Type, double bool) []d02Cond {
	var out []d02Cond
	if !double {
		for _, op := range d02Ops {
			for _, c := range d02Consts(s, d, true) {
				a, b := d02Atom(op, c, false), d02Atom(op, c, true)
				out = append(out, a, b, d02Not(a))
			}
		}
		return out
	}
	var atoms []d02Cond
	for k, op := range d02Ops {
		for j, c := range d02Consts(s, d, false) {
			atoms = append(atoms, d02Atom(op, c, (j+k)%3 == 0))
		}
	}
	for _, a := range atoms {
		for _, b := range atoms {
			out = append(out, d02And(a, b), d02Or(a, b))
		}
	}
	return out
}

// d02Pairs are pairs of types for the guards.
var d02Pairs = [][2]string{{"int", "uint8"}, {"int64", "int32"}, {"uint32", "int16"}, {"uint", "int"}, {"int", "uint"}, {"int16", "int8"}, {"Other", "Named"}, {"uint64", "uint32"}, {"int8", "uint16"}, {"rune", "byte"}}

func d02Get(name string) d02Type {
	for _, t := range d02Types {
		if t.name == name {
			return t
		}
	}
	panic(name)
}

func d02Parse(d d02Type) []d02Case {
	var out []d02Case
	rng := func(fn string, bits int) d02Type {
		if bits == 0 {
			bits = 64
		}
		return d02Int("", uint(bits), fn == "ParseInt")
	}
	bits := []int{0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64}
	for _, fn := range []string{"ParseInt", "ParseUint"} {
		src := map[string]d02Type{"ParseInt": d02Get("int64"), "ParseUint": d02Get("uint64")}[fn]
		for _, b := range bits {
			lost := !rng(fn, b).fits(d) && !src.fits(d)
			call := fmt.Sprintf("strconv.%s(str, 10, %d)", fn, b)
			for _, f := range []string{
				`func fID() { x, _ := CALL; use(D(x)) }`,
				`func fID() { x, err := CALL; if err != nil { return }; use(D(x)) }`,
				`func fID() { if x, err := CALL; err == nil { use(D(x)) } }`,
				`func fID() D { x, err := CALL; use(err); return D(x) }`,
				`func fID() { const b = BITS; x, _ := strconv.FN(str, 0, b); use(D(x)) }`,
			} {
				f = strings.NewReplacer("CALL", call, "BITS", fmt.Sprint(b), "FN", fn).Replace(f)
				out = append(out, d02Case{d02Word(f, "D", d.name), lost})
			}
			// not the library's function, or its size is no constant
			wide := !src.fits(d)
			out = append(out, d02Case{fmt.Sprintf(`func fID(n int) { x, _ := strconv.%s(str, 10, n); use(%s(x)) }`, fn, d.name), wide})
			if fn == "ParseInt" {
				out = append(out, d02Case{fmt.Sprintf(`func fID() { x, _ := ParseInt(str, 10, %d); use(%s(x)) }`, b, d.name), wide})
			}
			for _, b2 := range bits { // one of two, on each way
				lost2 := !rng(fn, b2).fits(d) && !src.fits(d)
				call2 := fmt.Sprintf("strconv.%s(str, 16, %d)", fn, b2)
				for _, f := range []string{
					`func fID() { x, _ := CALL; if yes { x, _ = OTHER }; use(D(x)) }`,
					`func fID() { x, _ := CALL; for yes { x, _ = OTHER }; use(D(x)) }`,
				} {
					f = strings.NewReplacer("CALL", call, "OTHER", call2).Replace(f)
					out = append(out, d02Case{d02Word(f, "D", d.name), lost || lost2})
				}
			}
			for _, f := range []string{ // or something else
				`func fID(y TYPE) { x, _ := CALL; if yes { x = y }; use(D(x)) }`,
				`func fID(y TYPE) { x := y; if yes { x, _ = CALL }; use(D(x)) }`,
				`func fID(g func() TYPE) { x, _ := CALL; for yes { use(D(x)); x = g() } }`,
				`func fID(g func() TYPE) { x, _ := CALL; if yes { x++ }; use(D(x)) }`,
			} {
				f = strings.NewReplacer("CALL", call, "TYPE", src.name).Replace(f)
				out = append(out, d02Case{d02Word(f, "D", d.name), wide})
			}
		}
	}
	for _, f := range []string{`func fID() { x, _ := strconv.Atoi(str); use(D(x)) }`, `func fID() { var x int; for yes { x = x }; if x, _ := strconv.Atoi(str); yes { use(D(x)) } }`} {
		out = append(out, d02Case{d02Word(f, "D", d.name), !d02Get("int").fits(d)})
	}
	return out
}

func d02Constants(s, d d02Type) []d02Case {
	var out []d02Case
	seen := map[string]bool{}
	for _, c := range append(d02Consts(s, d, true), d02Consts(s, s, true)...) {
		if seen[c.String()] {
			continue
		}
		seen[c.String()] = true
		for _, f := range []string{
			`func fID() { var x S = C; use(D(x)) }`,
			`func fID() { x := S(C); y := x; use(D(y)) }`,
			`func fID() D { const c S = C; x := c; return D(x) }`,
		} {
			f = d02Word(d02Word(d02Word(f, "C", c.String()), "S", s.name), "D", d.name)
			out = append(out, d02Case{f, !s.fits(d) && !d.has(c)})
		}
	}
	return out
}

func init() {
	core.Register(&core.Check{
		ID: "D02", Level: "model_checking",
		Rule:    "a state is a distinct generated function (source, types, constant, parse call, or guard shape and conditions); the real analyzer runs on it within a generated package and must report it exactly if the reference, which evaluates the guards on every constant and its neighbours, finds a value which reaches the conversion and does not fit",
		Bounds:  "15 x 15 integer types x 32 sources; 12 forms without a lossy conversion; every boundary constant of both types in 3 forms; ParseInt/ParseUint x 12 bit sizes (and pairs of them) x 15 targets; guards: 32 shapes x all single comparisons (6 operators x boundary constants x orders x negation) x 10 type pairs, 6 shapes x all conjunctions and disjunctions of two comparisons, 9 kinds of values, 15 ways to change the value after the guard, switches on the value; thorough: two comparisons in all shapes and 40 type pairs",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for k := range d02Types {
				u = append(u, fmt.Sprintf("types %d", k), fmt.Sprintf("const %d", k), fmt.Sprintf("parse %d", k))
			}
			n := len(d02Pairs)
			if e.Thorough {
				n = 40
			}
			for k := 0; k < n; k++ {
				u = append(u, fmt.Sprintf("single %d", k), fmt.Sprintf("double %d", k), fmt.Sprintf("values %d", k), fmt.Sprintf("changed %d", k), fmt.Sprintf("switch %d", k))
			}
			return u
		},
		UnitTimeout: 900e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			var cases []d02Case
			pair := func() (d02Type, d02Type) {
				if k < len(d02Pairs) {
					return d02Get(d02Pairs[k][0]), d02Get(d02Pairs[k][1])
				}
				n := 0
				for i := range d02Types {
					for j := range d02Types {
						if !d02Types[i].fits(d02Types[j]) && (i*7+j*3)%4 == 0 {
							if n++; n == k-len(d02Pairs)+1 {
								return d02Types[i], d02Types[j]
							}
						}
					}
				}
				return d02Types[0], d02Types[6]
			}
			switch kind {
			case "types":
				s := d02Types[k]
				for _, d := range d02Types {
					for _, f := range d02Sources {
						cases = append(cases, d02Case{d02Word(d02Word(f, "S", s.name), "D", d.name), !s.fits(d)})
					}
				}
				for _, f := range d02Never {
					cases = append(cases, d02Case{d02Word(f, "S", s.name), false})
				}
			case "const":
				for _, d := range d02Types {
					cases = append(cases, d02Constants(d02Types[k], d)...)
				}
			case "parse":
				cases = d02Parse(d02Types[k])
			case "single":
				s, d := pair()
				for _, c := range d02Conds(s, d, false) {
					for sh := range d02Shapes {
						cases = append(cases, d02Guard(sh, 0, s, d, c))
					}
				}
			case "double":
				s, d := pair()
				for n, c := range d02Conds(s, d, true) {
					for sh := range d02Shapes {
						if e.Thorough || sh < 3 || (sh-3)%28 == n%28 {
							cases = append(cases, d02Guard(sh, 0, s, d, c))
						}
					}
				}
			case "values":
				s, d := pair()
				for n, c := range append(d02Conds(s, d, false), d02Conds(s, d, true)...) {
					for v := range d02Values {
						for sh := range d02Shapes {
							if e.Thorough && n%3 == sh%3 || (n+v+sh)%29 == 0 {
								cases = append(cases, d02Guard(sh, v, s, d, c))
							}
						}
					}
				}
			case "changed":
				s, d := pair()
				for n, c := range append(d02Conds(s, d, false), d02Conds(s, d, true)...) {
					if p := d02Points(s, d); !slices.ContainsFunc(p, c.eval) || !slices.ContainsFunc(p, func(x *big.Int) bool { return !c.eval(x) }) {
						continue // never or always true: what follows may not be reached
					}
					for m, f := range d02Changed {
						if e.Thorough || (n+m)%7 == 0 {
							f = d02Word(d02Word(d02Word(f, "C", d02Word(c.src, "X", "x")), "S", s.name), "D", d.name)
							cases = append(cases, d02Case{f, true})
						}
					}
				}
			case "switch":
				s, d := pair()
				cs := d02Consts(s, d, true)
				bad := func(ok func(*big.Int) bool) bool { // some value which is ok does not fit
					for _, x := range d02Points(s, d) {
						if ok(x) && !d.has(x) {
							return true
						}
					}
					return false
				}
				for i, a := range cs {
					for j, b := range cs {
						if i == j {
							continue
						}
						is := func(x *big.Int) bool { return x.Cmp(a) == 0 || x.Cmp(b) == 0 }
						for _, f := range []struct {
							src  string
							want bool
						}{
							{`func fID(x S) { switch x { case A, B: use(D(x)) } }`, bad(is)},
							{`func fID(x S) { switch x { case A: use(D(x)); case B: use() } }`, bad(func(x *big.Int) bool { return x.Cmp(a) == 0 })},
							{`func fID(x S) { switch x { case A: fallthrough; case B: use(D(x)) } }`, bad(is)},
							{`func fID(x S) { switch x { case A, B: return }; use(D(x)) }`, bad(func(x *big.Int) bool { return !is(x) })},
							{`func fID(x S) { switch x { case A: use(); case B: default: use(D(x)) } }`, bad(func(x *big.Int) bool { return !is(x) })},
							{`func fID(x S) { switch { case x == A: return; case x < B: use(D(x)) } }`, bad(func(x *big.Int) bool { return x.Cmp(a) != 0 && x.Cmp(b) < 0 })},
							{`func fID(x S) { switch { case x > A: return; case x < B: return }; use(D(x)) }`, bad(func(x *big.Int) bool { return x.Cmp(a) <= 0 && x.Cmp(b) >= 0 })},
							{`func fID(x S) { if x > A { if x < B { use(D(x)) } } }`, bad(func(x *big.Int) bool { return x.Cmp(a) > 0 && x.Cmp(b) < 0 })},
							{`func fID(x S) { if x < A { return }; if x > B { return }; use(D(x)) }`, bad(func(x *big.Int) bool { return x.Cmp(a) >= 0 && x.Cmp(b) <= 0 })},
							{`func fID(x S) { if x < A { use() }; if x > B { return }; use(D(x)) }`, bad(func(x *big.Int) bool { return x.Cmp(b) <= 0 })},
						} {
							line := d02Word(d02Word(d02Word(d02Word(f.src, "A", a.String()), "B", b.String()), "S", s.name), "D", d.name)
							cases = append(cases, d02Case{line, f.want && !s.fits(d)})
						}
					}
				}
			}
			d02Run(l, cases, unit, r)
			if len(cases) > 0 {
				r.Sample(cases[len(cases)/2].line)
			}
		},
	})
}
