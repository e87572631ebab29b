package checks

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"verifharness/core"
)

// D03: slices of known size, chains of slice expressions and an access, with and without comparisons of the length. The
// reference computes length and capacity as Go does; an access which panics must be reported, one which does not must not.
// The elements between the length and the capacity given to make are not judged: gosec takes them as usable.

const d03Head = `package p

type Named []int
type tree struct{ s []int }

var yes bool

func use(...any) bool { return yes }

`

type d03Slice struct {
	src       string // the statement which declares s
	len, cap  int
	lenient   bool // accesses between length and capacity are not judged
	elem, typ string
}

func d03Makes(n int, wide bool) []d03Slice {
	var out []d03Slice
	add := func(l, c int, lenient bool, f string, a ...any) {
		out = append(out, d03Slice{src: fmt.Sprintf(f, a...), len: l, cap: c, lenient: lenient, typ: "[]int"})
	}
	for l := 0; l <= n; l++ {
		add(l, l, false, "s := make([]int, %d)", l)
		add(l, l, false, "s := []int{%s}", strings.TrimSuffix(strings.Repeat("7, ", l), ", "))
		add(l, l, false, "var arr [%d]int; s := arr[:]", l)
		for c := l + 1; c <= n; c++ {
			add(l, c, true, "s := make([]int, %d, %d)", l, c)
		}
		if !wide {
			continue
		}
		add(l, l, false, "var s []int = make([]int, %d)", l)
		add(l, l, false, "var s []int; s = make([]int, %d)", l)
		add(l, l, false, "s := make([]string, %d)", l)
		add(l, l, false, "s := make([][5]int, %d)", l)
		add(l, l, false, "s := make([][]int, %d, %d)", l, l)
		add(l, l, false, "s := new([%d]int)[:]", l)
		add(l, l, false, "arr := &[%d]int{}; s := arr[:]", l)
		add(l, l, false, "const k = %d; s := make([]int, k)", l)
		add(l, l, false, "s := make([]int, %d); s2 := make([]int, 9); use(s2)", l)
		add(l, l, false, "s := make([]int, 0); s = make([]int, %d)", l)
		if l > 0 {
			add(l, l, false, "s := []int{%d: 1}", l-1)
			add(l, l, false, "s := []tree{%d: {}}", l-1)
		}
		for lo := 0; lo <= l; lo++ {
			add(l-lo, l-lo, false, "var arr [%d]int; s := arr[%d:]", l, lo)
			for hi := lo; hi <= l; hi++ {
				add(hi-lo, l-lo, false, "var arr [%d]int; s := arr[%d:%d]", l, lo, hi)
			}
		}
	}
	return out
}

// d03Op is a slice expression, -1 where a bound is left out, or an index (lo) if idx.
type d03Op struct {
	lo, hi, max int
	idx         bool
	varLo       bool // the low bound is a variable
	varHi       bool
}

func (o d03Op) String() string {
	p := func(n int) string {
		if n < 0 {
			return ""
		}
		return fmt.Sprint(n)
	}
	if o.idx {
		return "[" + p(o.lo) + "]"
	}
	lo, hi := p(o.lo), p(o.hi)
	if o.varLo {
		lo = "i"
	}
	if o.varHi {
		hi = "j"
	}
	if o.max >= 0 {
		return "[" + lo + ":" + hi + ":" + p(o.max) + "]"
	}
	return "[" + lo + ":" + hi + "]"
}

type d03Size struct {
	len, cap int
	lenient  bool
}

// apply returns the size of the result and whether the expression panics; free if that is not judged.
func (s d03Size) apply(o d03Op) (r d03Size, panics, free bool) {
	if o.idx {
		return s, o.lo >= s.len, s.lenient && o.lo >= s.len && o.lo < s.cap
	}
	lo, hi, mx := max(o.lo, 0), o.hi, o.max
	r.lenient = s.lenient && hi < 0
	implied := hi < 0
	if implied {
		hi = s.len
	}
	if mx < 0 {
		mx = s.cap
	}
	panics = mx > s.cap || hi > mx || lo > hi
	free = panics && implied && s.lenient && lo <= s.cap
	r.len, r.cap = hi-lo, mx-lo
	return
}

func d03Ops(n int, three bool) []d03Op {
	var out []d03Op
	for lo := -1; lo <= n; lo++ {
		for hi := -1; hi <= n; hi++ {
			if hi >= 0 && lo > hi {
				continue // does not compile
			}
			out = append(out, d03Op{lo: lo, hi: hi, max: -1})
			if three && hi >= 0 {
				for m := hi; m <= n; m++ {
					out = append(out, d03Op{lo: lo, hi: hi, max: m})
				}
			}
		}
	}
	return out
}

func d03Idx(n int) []d03Op {
	var out []d03Op
	for i := 0; i <= n; i++ {
		out = append(out, d03Op{lo: i, hi: -1, max: -1, idx: true})
	}
	return out
}

type d03Case struct {
	src  string // "@" marks the accesses which are judged, each on a line of its own
	want []int  // per line: 1 reported, 0 not, -1 not judged
}

func d03Run(l *core.Loader, cases []d03Case, what string, r *core.Rec) {
	const per = 3000
	for at := 0; at < len(cases); at += per {
		part := cases[at:min(at+per, len(cases))]
		var b strings.Builder
		b.WriteString(d03Head)
		line := 1 + strings.Count(d03Head, "\n")
		type where struct{ c, k int }
		lines := map[int]where{}
		for k, c := range part {
			src := strings.ReplaceAll(c.src, "ID", fmt.Sprint(k))
			for n := 0; n <= strings.Count(src, "\n"); n++ {
				lines[line] = where{k, n}
				line++
			}
			b.WriteString(src + "\n")
		}
		p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()})
		is, _ := core.Scan(core.Opts{Include: []string{"G602"}}, p)
		got := map[where]int{}
		for _, i := range is {
			n, _ := lineRange(i.Line)
			w, ok := lines[n]
			if !ok {
				r.Violate(what+": elsewhere", what, "finding on line %d", n)
				continue
			}
			got[w]++
		}
		r.Evals += len(part)
		r.Transitions += len(part)
		for k, c := range part {
			r.State(c.src)
			for n, w := range c.want {
				if g := got[where{k, n}]; w == 0 && g > 0 || w == 1 && g == 0 || g > 1 && strings.Count(strings.Split(c.src, "\n")[n], "use(") < 2 {
					r.Violate(c.src, c.src, "%s: line %d: %d findings, should be %d: %s", what, n+1, g, w, c.src)
				}
			}
		}
	}
}

func d03Want(panics, free bool) int {
	if free {
		return -1
	}
	if panics {
		return 1
	}
	return 0
}

// d03Chain declares the slice, makes the slices of the chain, each on a line, and accesses the last; what comes after a
// panic is not judged.
func d03Chain(m d03Slice, chain []d03Op, access []d03Op, form string) d03Case {
	size := d03Size{m.len, m.cap, m.lenient}
	var c d03Case
	src := []string{"func fID(i int) { " + m.src}
	c.want = []int{0}
	dead := false
	for k, o := range chain {
		v, prev := fmt.Sprintf("t%d", k), "s"
		if k > 0 {
			prev = fmt.Sprintf("t%d", k-1)
		}
		next, panics, free := size.apply(o)
		src = append(src, v+" := "+prev+o.String())
		if dead {
			c.want = append(c.want, -1)
		} else {
			c.want = append(c.want, d03Want(panics, free))
		}
		dead = dead || panics
		size = next
	}
	last := "s"
	if len(chain) > 0 {
		last = fmt.Sprintf("t%d", len(chain)-1)
	}
	head, tail, orig := "", "", last
	switch form {
	case "if":
		head, tail = "if yes { ", " }"
	case "loop":
		head, tail = "for range 3 { ", " }"
	case "closure":
		head, tail = "func(s []int) { ", " }("+last+")"
		last = "s"
	case "renamed":
		head = "z := " + last + "; "
		last = "z"
	}
	src = append(src, "use("+orig+"); "+head)
	c.want = append(c.want, -1)
	for _, o := range access {
		_, panics, free := size.apply(o)
		src = append(src, "if yes { use("+last+o.String()+") }")
		if dead {
			c.want = append(c.want, -1)
		} else {
			c.want = append(c.want, d03Want(panics, free))
		}
	}
	src = append(src, tail+" }")
	c.want = append(c.want, -1)
	c.src = strings.Join(src, "\n")
	return c
}

// d03Calls: A is the access, s the slice, in a function which is given the slice.
var d03Calls = []string{
	"func gID(x []int) {\nA }; func fID() { M; gID(s) }",
	"func gID(k int, x []int) {\nA }; func fID() { M; gID(3, s) }",
	"func gID(x, y []int) {\nA }; func fID() { M; gID(s, make([]int, 99)) }",
	"func gID(y, x []int) {\nA }; func fID() { M; gID(make([]int, 99), s) }",
	"func gID(y, x []int) {\nA }; func fID() { M; gID(s, s) }",
	"func gID(x []int) {\nA }; func hID(x []int) { gID(x) }; func fID() { M; hID(s) }",
	"func gID(x []int) {\nA }; func hID(x []int) { gID(x[:]) }; func fID() { M; hID(s) }",
	"func gID(x []int) {\nA }; func hID(x []int) { gID(x) }; func iID(x []int) { hID(x) }; func fID() { M; iID(s) }",
	"type tID struct{}; func (tID) m(x []int) {\nA }; func fID() { M; tID{}.m(s) }",
	"type tID struct{}; func (*tID) m(k int, x []int) {\nA }; func fID(t *tID) { M; t.m(1, s) }",
	"func gID(x []int) {\nA }; func fID() { M; defer gID(s) }",
	"func gID(x []int) {\nA }; func fID() { M; go gID(s) }",
	"func gID(x []int) {\nA }; func fID() { M; use(func(z []int) { gID(z) }); gID(s) }",
	"func gID[T any](x []int, _ T) {\nA }; func fID() { M; gID(s, true) }",
	"func gID[T any](x []T) {\nA }; func fID() { M; gID(s) }",
	"func gID(x []int) int { if yes { return gID(x) }\nA; return 1 }; func fID() { M; use(gID(s)) }",
	"func gID(x []int) {\nA }; func fID() { M; gID(s); t := make([]int, 99); gID(t) }",
	"func gID(x []int) {\nA }; func fID() { t := make([]int, 99); gID(t); M; gID(s) }",
	"func fID() { M; func(x []int) {\nA }(s) }",
	"func fID() { M; g := func(x []int) {\nA }; g(s) }",
}

// not the slice which is too short
var d03Other = []string{
	"func fID(x []int) { M; use(s)\nA }",
	"func gID(x []int) {\nA }; func fID() { M; if len(s) > 50 { gID(s) } }",
	"func gID(x []int) {\nA }; func fID() { M; if len(s) < 50 { return }; gID(s) }",
	"func gID(x []int) {\nA }; func hID(x []int) { if len(x) > 50 { gID(x) } }; func fID() { M; hID(s) }",
	"func gID(x []int) { if len(x) < 50 { return }\nA }; func fID() { M; gID(s) }",
	"func gID(x []int) { if len(x) > 50 { y := x[:50]; use(y[49])\nA } }; func fID() { M; gID(s) }",
	"func fID() { M; use(s); x := make([]int, 99)\nA }",
	"func fID() { M; x := s; x = make([]int, 99)\nA }",
	"func fID(g func() []int) { M; x := s; x = g()\nA }",
	"func fID() { M; x := append(s, make([]int, 99)...)\nA }",
	"func gID(y, x []int) { use(y)\nA }; func fID() { M; gID(s, make([]int, 99)) }",
	"func gID(x []int) { use(x[98])\nA }; func fID() { M; use(s); gID(make([]int, 99)) }",
	"func fID() { M; x := tree{}.s; use(s)\nA }",
	"func fID() { M; use(s); for _, x := range [][]int{} {\nA } }",
	"func fID() { M; x := [][]int{s}[0]\nA }",
	"func fID(m map[int][]int) { M; m[1] = s; x := m[2]\nA }",
	"func fID(x [99]int) { M; use(s)\nA }",
	"func fID(x string) { M; use(s)\nA }",
	"func fID(x map[int]int) { M; use(s, x)\nx[5] = s[0:][len(s)-1] }",
}

// d03Shapes are the guard shapes of D02, with an access for the conversion.
func d03Guards(m d03Slice, access d03Op, conds []d02Cond, lenOf string, full bool) []d03Case {
	var out []d03Case
	size := d03Size{m.len, m.cap, m.lenient}
	need := access.lo + 1
	if !access.idx {
		need = max(access.lo, access.hi)
	}
	_, panics, free := size.apply(access)
	for n, c := range conds {
		for k, sh := range d02Shapes {
			if !full && c.two && k > 2 && (n+k)%29 != 0 {
				continue
			}
			if c.many && strings.Contains(sh.src, "case C") || strings.Contains(sh.src, "os.Exit") || strings.Contains(sh.src, "log.") {
				continue
			}
			want := d03Want(panics, free)
			if panics && !free {
				// which lengths can there be, as far as the comparisons tell?
				exact, hull := false, false
				for v := int64(0); v < 20; v++ {
					if v >= int64(need) {
						break
					}
					x := big.NewInt(v)
					exact = exact || sh.reach == "all" || sh.reach == "in" && c.eval(x) || sh.reach == "out" && !c.eval(x)
					hull = hull || sh.reach == "all" || c.may(x, sh.reach == "in")
				}
				if !exact {
					want = 0
					if hull && c.two {
						want = -1
					}
				}
			}
			cond := c.src
			if strings.Contains(sh.src, "&&") || strings.Contains(sh.src, "||") {
				cond = "(" + cond + ")"
			}
			pre, x := "", "len(s)"
			switch lenOf {
			case "var":
				pre, x = "n := len(s); ", "n"
			}
			line := "func fID() { " + m.src + "; " + pre + strings.ReplaceAll(d02Word(sh.src, "C", cond), "use(D(X))", "use(s"+access.String()+")") + " }"
			out = append(out, d03Case{d02Word(line, "X", x), []int{want}})
		}
	}
	return out
}

var d03GuardOther = []string{
	"func fID() { M; t := make([]int, 9); if len(t) > 50 {\nA } }",
	"func fID(n int) { M; if n > 50 {\nA } }",
	"func fID() { M; if yes {\nA } }",
	"func fID() { M; if len(s) < 0 { use() }\nA }",
	"func fID(t []int) { M; if len(t) < 50 { return }\nA }",
	"func fID() { M; if len(s) > 50 { use() }\nA }",
	"func fID() { M; for i := range s { use(i) }\nA }",
	"func fID() { M; for i := 0; i < len(s); i++ { use(i) }\nA }",
	"func fID() { M; if len(s) > 50 { if yes { use() } }\nA }",
	"func fID() { M; if len(s) > 50 { return }\nA }",
	"func fID() { M; switch { case len(s) > 50: use(); default:\nA } }",
	"func fID() { M; func(s []int) { if len(s) < 50 { return } }(s)\nA }",
	"func fID() { M; if cap(s) < 0 { return }\nA }",
	"func fID() { M; if len(s) < 50 && yes { return }\nA }",
}

func init() {
	core.Register(&core.Check{
		ID: "D03", Level: "model_checking",
		Rule:    "a state is a distinct generated function (how the slice is made, chain of slice expressions, access, context or guard); the real analyzer runs on it within a generated package and must report an access exactly if it panics, by Go's rules for length and capacity, for every length which the comparisons on the ways to it allow",
		Bounds:  "slices of length and capacity up to 4 made in 18 ways; all chains of up to two slice expressions with two or three constant (or variable) bounds up to 5, and then every index and slice expression up to 6, in 5 contexts; 20 ways to give the slice to another function and 19 ways to access another slice or after a comparison which makes it safe; 29 guard shapes x all comparisons of the length with constants (6 operators, both orders, negation), pairs of comparisons in 3 shapes (all in thorough), 14 comparisons which tell nothing; 44 sizes from 5 to 2^32+1 in 6 forms with accesses around them; chains of 3 to 16 slice expressions or calls",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for _, k := range []string{"plain", "if", "loop", "closure", "renamed"} {
				u = append(u, "one "+k)
			}
			for k := 0; k < len(d03Makes(3, false)); k++ {
				u = append(u, fmt.Sprintf("two %d", k))
			}
			if e.Thorough {
				for k := 0; k < len(d03Makes(4, true)); k++ {
					u = append(u, fmt.Sprintf("deep %d", k))
				}
			}
			for k := 0; k <= 5; k++ {
				u = append(u, fmt.Sprintf("guard %d", k), fmt.Sprintf("double %d", k))
			}
			return append(u, "calls", "others", "unguarded", "variable", "sizes", "long")
		},
		UnitTimeout: 900e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			kind, arg, _ := strings.Cut(unit, " ")
			var k int
			fmt.Sscan(arg, &k)
			var cases []d03Case
			all := append(d03Idx(6), d03Ops(6, false)...)
			switch kind {
			case "one": // at most one slice expression
				for _, m := range d03Makes(4, arg == "plain") {
					if arg == "closure" && strings.Contains(m.src, "tree") {
						continue
					}
					cases = append(cases, d03Chain(m, nil, all, arg))
					for _, o := range d03Ops(5, true) {
						cases = append(cases, d03Chain(m, []d03Op{o}, all, arg))
					}
				}
			case "two":
				m := d03Makes(3, false)[k]
				for _, o := range d03Ops(4, true) {
					if _, panics, _ := (d03Size{m.len, m.cap, m.lenient}).apply(o); panics {
						continue
					}
					for _, o2 := range d03Ops(4, true) {
						cases = append(cases, d03Chain(m, []d03Op{o, o2}, append(d03Idx(4), d03Ops(4, false)...), ""))
					}
				}
			case "deep":
				m := d03Makes(4, true)[k]
				small := d03Ops(3, false)
				for _, o := range small {
					for _, o2 := range small {
						for _, o3 := range small {
							cases = append(cases, d03Chain(m, []d03Op{o, o2, o3}, append(d03Idx(4), d03Ops(4, true)...), ""))
						}
					}
				}
			case "sizes": // the size is judged as a number, however large
				for _, n := range []int{5, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 21, 31, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 4095, 4096, 9999, 10000, 65535, 65536, 100000, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 + 1} {
					ms := []d03Slice{
						{src: fmt.Sprintf("s := make([]int, %d)", n), len: n, cap: n},
						{src: fmt.Sprintf("s := make([]byte, %d, %d)", n-1, n), len: n - 1, cap: n, lenient: true},
						{src: fmt.Sprintf("var arr [%d]int; s := arr[:]", n), len: n, cap: n},
						{src: fmt.Sprintf("var arr [%d]byte; s := arr[2:%d]", n, n-1), len: n - 3, cap: n - 2},
					}
					if n <= 10000 {
						ms = append(ms, d03Slice{src: fmt.Sprintf("s := []int{%d: 1}", n-1), len: n, cap: n}, d03Slice{src: fmt.Sprintf("s := []string{%s}", strings.TrimSuffix(strings.Repeat(`"", `, n), ", ")), len: n, cap: n})
					}
					var acc []d03Op
					for _, i := range []int{0, 1, 4, 9, 10, 11, 99, 100, n / 10, n / 2, n - 3, n - 2, n - 1, n, n + 1, n + 2, 2 * n, 10 * n} {
						acc = append(acc, d03Op{lo: i, hi: -1, max: -1, idx: true}, d03Op{lo: -1, hi: i, max: -1}, d03Op{lo: i, hi: -1, max: -1}, d03Op{lo: 1, hi: max(i, 1), max: -1}, d03Op{lo: 0, hi: 1, max: max(i, 1)})
					}
					for _, m := range ms {
						cases = append(cases, d03Chain(m, nil, acc, ""))
						for _, o := range []d03Op{{lo: -1, hi: -1, max: -1}, {lo: 1, hi: -1, max: -1}, {lo: n / 2, hi: -1, max: -1}, {lo: -1, hi: n / 2, max: -1}, {lo: n / 2, hi: n - 3, max: -1}, {lo: 0, hi: 1, max: n / 2}, {lo: -1, hi: n - 2, max: -1}} {
							cases = append(cases, d03Chain(m, []d03Op{o}, acc, ""))
						}
					}
				}
			case "long": // chains of many steps
				for n := 3; n <= 16; n++ {
					for _, m := range d03Makes(3, false) {
						for _, o := range []d03Op{{lo: -1, hi: -1, max: -1}, {lo: 0, hi: -1, max: -1}, {lo: -1, hi: 1, max: -1}} {
							if _, panics, _ := (d03Size{m.len, m.cap, m.lenient}).apply(o); !panics {
								cases = append(cases, d03Chain(m, slices.Repeat([]d03Op{o}, n), append(d03Idx(4), d03Ops(4, true)...), ""))
							}
						}
						for _, a := range append(d03Idx(4), d03Ops(4, true)...) {
							_, panics, free := d03Size{m.len, m.cap, m.lenient}.apply(a)
							src := "func q0_ID(x []int) {\nuse(x" + a.String() + ") }; "
							for k := 1; k < n; k++ {
								src += fmt.Sprintf("func q%d_ID(x []int) { q%d_ID(x) }; ", k, k-1)
							}
							cases = append(cases, d03Case{src + fmt.Sprintf("func fID() { %s; q%d_ID(s) }", m.src, n-1), []int{0, d03Want(panics, free)}})
						}
					}
					m := d03Slice{src: fmt.Sprintf("s := make([]int, %d)", n+2), len: n + 2, cap: n + 2}
					cases = append(cases, d03Chain(m, slices.Repeat([]d03Op{{lo: 1, hi: -1, max: -1}}, n), append(d03Idx(4), d03Ops(4, true)...), ""))
				}
			case "variable": // a bound which is not known: only what panics whatever it is
				for _, m := range d03Makes(3, true) {
					for _, o := range []d03Op{{lo: -1, hi: -1, max: -1, varLo: true}, {lo: -1, hi: -1, max: -1, varHi: true}, {lo: 1, hi: -1, max: -1, varHi: true}, {lo: -1, hi: 2, max: -1, varLo: true}, {lo: -1, hi: -1, max: -1, varHi: true, varLo: true}, {lo: 0, hi: 0, max: 2, varHi: true}} {
						for _, a := range all {
							// must: panics for all values of i; must not: panics for none
							always, never, some := true, true, false
							for ij := 0; ij < 100; ij++ {
								c := o
								if c.varLo {
									c.lo = ij % 10
								}
								if c.varHi {
									c.hi = ij / 10
								}
								s := d03Size{m.len, m.cap, m.lenient}
								next, panics, _ := s.apply(c)
								if panics {
									continue
								}
								some = true
								_, p, free := next.apply(a)
								always = always && p && !free
								never = never && !p
							}
							want := -1
							if some && always {
								want = 1
							} else if some && never {
								want = 0
							}
							cases = append(cases, d03Case{"func fID(i, j int) { " + m.src + "; t := s" + o.String() + "\nuse(t" + a.String() + ") }", []int{-1, want}})
						}
					}
				}
				for _, m := range d03Makes(3, true) { // a variable index is never reported
					for _, a := range []string{"s[i]", "s[i:]", "s[:i]", "s[i:i+1]", "s[i:i:i]", "s[len(s)-1]", "s[len(s):]", "s[min(i, len(s)):]"} {
						cases = append(cases, d03Case{"func fID(i int) { " + m.src + "; use(" + a + ") }", []int{0}})
					}
				}
			case "calls", "others":
				tmpl := d03Calls
				if kind == "others" {
					tmpl = d03Other
				}
				for _, f := range tmpl {
					for _, m := range d03Makes(3, false) {
						for _, a := range append(d03Idx(4), d03Ops(4, true)...) {
							if kind == "others" && a.max >= 0 && strings.Contains(f, "x string") {
								continue
							}
							_, panics, free := d03Size{m.len, m.cap, m.lenient}.apply(a)
							want := d03Want(panics, free)
							if kind == "others" {
								want = 0
							}
							src := d02Word(strings.ReplaceAll(f, "\nA", "\nuse(x"+a.String()+")"), "M", m.src)
							if strings.Contains(f, "use(x[98])") {
								want = 0
							}
							cases = append(cases, d03Case{src, []int{0, want}})
						}
					}
				}
			case "guard", "double":
				a := d03Op{lo: k, hi: -1, max: -1, idx: true}
				conds := func(double bool) []d02Cond {
					var atoms, out []d02Cond
					for _, op := range d02Ops {
						for c := int64(0); c <= 6; c++ {
							at, sw := d02Atom(op, big.NewInt(c), false), d02Atom(op, big.NewInt(c), true)
							out = append(out, at, sw, d02Not(at))
							if c >= int64(k)-1 && c <= int64(k)+1 || c == 0 {
								if c%2 == 0 {
									at = sw
								}
								atoms = append(atoms, at)
							}
						}
					}
					if !double {
						return out
					}
					out = nil
					for _, x := range atoms {
						for _, y := range atoms {
							out = append(out, d02And(x, y), d02Or(x, y))
						}
					}
					return out
				}(kind == "double")
				for n, m := range d03Makes(3, false) {
					if kind == "double" && !e.Thorough && n%3 != k%3 {
						continue
					}
					for _, acc := range []d03Op{a, {lo: k, hi: -1, max: -1}, {lo: -1, hi: k, max: -1}, {lo: 1, hi: k, max: -1}} {
						if acc.hi >= 0 && acc.lo > acc.hi {
							continue
						}
						cases = append(cases, d03Guards(m, acc, conds, "", e.Thorough)...)
						if acc.idx {
							cases = append(cases, d03Guards(m, acc, conds, "var", e.Thorough)...)
						}
					}
				}
			case "unguarded":
				for _, f := range d03GuardOther {
					for _, m := range d03Makes(3, false) {
						for _, a := range append(d03Idx(4), d03Ops(4, true)...) {
							_, panics, free := d03Size{m.len, m.cap, m.lenient}.apply(a)
							src := d02Word(strings.ReplaceAll(f, "\nA", "\nuse(s"+a.String()+")"), "M", m.src)
							cases = append(cases, d03Case{src, []int{0, d03Want(panics, free)}})
						}
					}
				}
			}
			cases = slices.DeleteFunc(cases, func(c d03Case) bool { return c.src == "" })
			d03Run(l, cases, unit, r)
			r.Sample(cases[len(cases)/2].src)
		},
	})
}
