package checks

import (
	"encoding/json"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"verifharness/core"
)

// D08: every callee kind with every result tuple shape, in every dropping form, under every audit setting and allow list.
// Each generated line carries the function it calls and what it drops; the reference decides from the lists.

// d08Shapes are the result tuples: i an int, e an error, a an alias of error, m another error type.
func d08Shapes() []string {
	out := []string{""}
	for _, a := range "iem" {
		out = append(out, string(a))
		for _, b := range "ie" {
			out = append(out, string(a)+string(b))
			if a != 'm' {
				for _, c := range "ie" {
					out = append(out, string(a)+string(b)+string(c))
				}
			}
		}
	}
	return append(out, "a", "ia", "ai", "im")
}

var d08Types = map[byte]string{'i': "int", 'e': "error", 'a': "E", 'm': "*MyErr"}

func d08Sig(shape string, q string) (res, zero string) {
	var t, z []string
	for i := 0; i < len(shape); i++ {
		x := d08Types[shape[i]]
		if shape[i] == 'a' || shape[i] == 'm' {
			x = strings.Replace(strings.Replace(x, "E", q+"E", 1), q+"Err", "Err", 1)
		}
		if shape[i] == 'm' {
			x = "*" + q + "MyErr"
		}
		t = append(t, x)
		z = append(z, map[byte]string{'i': "0", 'e': "nil", 'a': "nil", 'm': "nil"}[shape[i]])
	}
	if len(t) == 0 {
		return "", ""
	}
	return "(" + strings.Join(t, ", ") + ")", "return " + strings.Join(z, ", ")
}

// d08Callee is one way of calling a function.
type d08Callee struct {
	name  string
	call  string              // with S as the shape suffix of the function's name
	keys  []string            // the allow list selectors which name the function's package or receiver type
	fn    string              // the function's name, with S
	shape func(s string) bool // which shapes exist (nil: all)
	fixed string              // if set, the only shape
	std   bool                // on the built-in list
}

func d08Callees() []d08Callee {
	var out []d08Callee
	add := func(name, call, fn string, keys ...string) {
		out = append(out, d08Callee{name: name, call: call, fn: fn, keys: keys})
	}
	add("local function", "fS()", "fS", "p")
	add("function of another file", "gS()", "gS", "p")
	add("parenthesized function", "(fS)()", "fS", "p")
	add("generic function", "hS[int]()", "hS", "p")
	add("function variable", "fvS()", "-")
	add("function literal", "func() TUPLE { BODY }()", "-")
	add("function field", "fs.FvS()", "FvS")
	T := "ex.test/p.T"
	for _, rec := range []string{"lt", "par", "gt", "ot", "st.T", "ts[0]", "mt[0]", "mkT()", "mkOther()", "(T{})", "iv.(T)", "(*lp)", "q.VT", "nest.st.T", "arr[1]", "<-cht", "(lt)"} {
		r := rec
		if r == "<-cht" {
			r = "(<-cht)"
		}
		if r == "q.VT" {
			add("value q.VT", "q.VT.MS()", "MS", "ex.test/q.T")
			continue
		}
		add("value "+rec, r+".MS()", "MS", T)
	}
	for _, rec := range []string{"lp", "gp", "op", "st.P", "ps[0]", "(&lt)", "new(T)", "mkP()", "mkOtherP()", "(&T{})"} {
		keys := []string{T, "*" + T}
		if rec == "new(T)" { // only the type itself names it
			keys = keys[:1]
		}
		add("pointer "+rec, rec+".MS()", "MS", keys...)
		add("pointer method "+rec, rec+".PS()", "PS", keys...)
	}
	for _, rec := range []string{"lt", "gt", "st.T", "ts[0]"} { // addressable values
		add("pointer method of value "+rec, rec+".PS()", "PS", T)
	}
	add("interface method", "li.MS()", "MS", "ex.test/p.I")
	add("interface method of field", "st.I.MS()", "MS", "ex.test/p.I")
	add("method expression", "T.MS(lt)", "MS", T)
	add("imported function", "q.FS()", "FS", "q", "ex.test/q")
	add("renamed import", "ren.FS()", "FS", "r", "ex.test/r")
	add("other path", "w.FS()", "FS", "w", "ex.test/weird-path/v3")
	add("method of imported", "q.VP.MS()", "MS", "ex.test/q.T", "*ex.test/q.T")
	add("look-alike fmt", "fmt.FS()", "FS", "x", "ex.test/x")
	add("imported generic", "q.GS[int]()", "GS", "q", "ex.test/q")
	std := func(call, fn, shape string, keys ...string) {
		out = append(out, d08Callee{name: "std " + call, call: call, fn: fn, keys: keys, fixed: shape, std: true})
	}
	non := func(call, fn, shape string, keys ...string) {
		out = append(out, d08Callee{name: "std " + call, call: call, fn: fn, keys: keys, fixed: shape})
	}
	bb := []string{"bytes.Buffer"}
	for _, rec := range []string{"buf", "gbuf", "obuf", "st.B", "bufs[0]", "(&buf)"} {
		std(rec+".WriteString(\"\")", "WriteString", "ie", bb...)
	}
	std("buf.Write(nil)", "Write", "ie", bb...)
	std("buf.WriteByte(0)", "WriteByte", "e", bb...)
	std("buf.WriteRune(0)", "WriteRune", "ie", bb...)
	std("bufp.WriteString(\"\")", "WriteString", "ie", "bytes.Buffer", "*bytes.Buffer")
	std("new(bytes.Buffer).Write(nil)", "Write", "ie", bb...)
	non("buf.ReadByte()", "ReadByte", "ie", bb...)
	non("buf.Read(nil)", "Read", "ie", bb...)
	non("bufp.UnreadByte()", "UnreadByte", "e", "bytes.Buffer", "*bytes.Buffer")
	std("sb.WriteString(\"\")", "WriteString", "ie", "strings.Builder")
	std("sb.Write(nil)", "Write", "ie", "strings.Builder")
	std("sb.WriteByte(0)", "WriteByte", "e", "strings.Builder")
	std("sbp.WriteRune(0)", "WriteRune", "ie", "strings.Builder", "*strings.Builder")
	std("pw.CloseWithError(nil)", "CloseWithError", "e", "io.PipeWriter", "*io.PipeWriter")
	non("pw.Close()", "Close", "e", "io.PipeWriter", "*io.PipeWriter")
	std("hh.Write(nil)", "Write", "ie", "hash.Hash")
	std("st.H.Write(nil)", "Write", "ie", "hash.Hash")
	non("hh32.Write(nil)", "Write", "ie", "hash.Hash32")
	std("sys.Unsetenv(\"\")", "Unsetenv", "e", "os")
	non("sys.Remove(\"\")", "Remove", "e", "os")
	non("sys.Setenv(\"\", \"\")", "Setenv", "e", "os")
	std("ff.Println()", "Println", "ie", "fmt")
	std("ff.Print()", "Print", "ie", "fmt")
	std("ff.Printf(\"\")", "Printf", "ie", "fmt")
	std("ff.Fprint(nil)", "Fprint", "ie", "fmt")
	std("ff.Fprintln(nil)", "Fprintln", "ie", "fmt")
	std("ff.Fprintf(nil, \"\")", "Fprintf", "ie", "fmt")
	non("ff.Sscan(\"\")", "Sscan", "ie", "fmt")
	non("ff.Errorf(\"\")", "Errorf", "e", "fmt")
	// look-alikes of the built-in list
	non("fmt.Println()", "Println", "ie", "x", "ex.test/x")
	non("xb.WriteString(\"\")", "WriteString", "ie", "ex.test/x.Buffer")
	non("xbp.WriteString(\"\")", "WriteString", "ie", "ex.test/x.Buffer", "*ex.test/x.Buffer")
	return out
}

const d08Imports = `
import (
	"bytes"
	"hash"
	"io"
	"strings"
	ff "fmt"
	sys "os"
	"ex.test/q"
	ren "ex.test/r"
	"ex.test/weird-path/v3"
	fmt "ex.test/x"
)
`

func d08Lib(pkg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\ntype T struct{}\n\nvar VT T\n\nvar VP = &VT\n\ntype E = error\n\ntype MyErr struct{}\n\nfunc (*MyErr) Error() string { return \"\" }\n\n", pkg)
	for _, s := range d08Shapes() {
		res, ret := d08Sig(s, "")
		fmt.Fprintf(&b, "func F%s() %s { %s }\n\nfunc G%s[X any]() %s { %s }\n\nfunc (T) M%s() %s { %s }\n\n", s, res, ret, s, res, ret, s, res, ret)
	}
	if pkg == "x" {
		b.WriteString("func Println() (int, error) { return 0, nil }\n\ntype Buffer struct{}\n\nfunc (*Buffer) WriteString(string) (int, error) { return 0, nil }\n")
	}
	return b.String()
}

func d08Decls() (a, other string) {
	var b, o strings.Builder
	o.WriteString(`package p

import "bytes"

var (
	ot   T
	op   = &ot
	obuf bytes.Buffer
)

func mkOther() T { return ot }

func mkOtherP() *T { return op }

`)
	b.WriteString(`
type E = error

type MyErr struct{}

func (*MyErr) Error() string { return "" }

type T struct{}

type S struct {
	T T
	P *T
	I I
	B bytes.Buffer
	H hash.Hash
}

type N struct{ st S }

var (
	gt   T
	gp   = &gt
	gbuf bytes.Buffer
)

func mkT() T { return gt }

func mkP() *T { return gp }

func use(...any) {}

`)
	inter, fields := "type I interface {\n", "type FS struct {\n"
	for _, s := range d08Shapes() {
		res, ret := d08Sig(s, "")
		for _, n := range []string{"f%s()", "h%s[X any]()"} {
			fmt.Fprintf(&b, "func "+n+" %s { %s }\n\n", s, res, ret)
		}
		fmt.Fprintf(&b, "func (T) M%s() %s { %s }\n\nfunc (*T) P%s() %s { %s }\n\n", s, res, ret, s, res, ret)
		fmt.Fprintf(&b, "var fv%s = f%s\n\n", s, s)
		fmt.Fprintf(&o, "func g%s() %s { %s }\n\n", s, res, ret)
		inter += fmt.Sprintf("\tM%s() %s\n", s, res)
		fields += fmt.Sprintf("\tFv%s func() %s\n", s, res)
	}
	b.WriteString(inter + "}\n\n" + fields + "}\n\n")
	return b.String(), o.String()
}

const d08Locals = `	var (
		lt, x T
		lp = &lt
		li I = lt
		st S
		nest N
		fs FS
		ts []T
		ps []*T
		arr [2]T
		cht chan T
		mt map[int]T
		iv any = lt
		buf bytes.Buffer
		bufs []bytes.Buffer
		bufp = &buf
		sb strings.Builder
		sbp = &sb
		pw *io.PipeWriter
		hh hash.Hash
		hh32 hash.Hash32
		xb fmt.Buffer
		xbp = &xb
		v0, v1, v2 any
		n int
		err error
	)
	use(x, v0, v1, v2, n, err, q.VT, ren.VT, v3.VT, sys.Args, ff.Sprint, fs, ts, ps, mt, arr, cht, bufs, sbp, pw, hh, hh32, xbp, nest, iv, lp, li, st, bufp)
`

type d08Line struct {
	text  string
	calls []d08Drop // the calls it makes with what it drops
	audit bool      // dropped through the blank identifier
}

type d08Drop struct {
	c     d08Callee
	shape string
	drop  bool
}

func isErr(b byte) bool { return b == 'e' || b == 'a' }

func (d d08Callee) text(shape string) string {
	res, ret := d08Sig(shape, "")
	s := strings.ReplaceAll(d.call, "TUPLE", res)
	s = strings.ReplaceAll(s, "BODY", ret)
	if d.fixed != "" {
		return s
	}
	s = strings.Replace(s, "w.", "v3.", 1)
	i := strings.LastIndex(s, "S(")
	if i < 0 {
		i = strings.LastIndex(s, "S)")
	}
	if i < 0 {
		i = strings.LastIndex(s, "S[")
	}
	if i < 0 {
		return s
	}
	return s[:i] + shape + s[i+1:]
}

// d08Lines builds every dropping form of one callee and shape.
func d08Lines(c d08Callee, shape string, full bool) []d08Line {
	call := c.text(shape)
	var out []d08Line
	add := func(text string, audit, drop bool) {
		out = append(out, d08Line{text, []d08Drop{{c, shape, drop}}, audit})
	}
	hasErr := strings.ContainsAny(shape, "ea")
	stmt := call
	if strings.HasPrefix(stmt, "func(") || strings.HasPrefix(stmt, "T{}") {
		stmt = "(" + stmt + ")"
	}
	ctxs := []string{"%s"}
	if full {
		ctxs = []string{"%s", "if n > 0 { %s }", "for { %s }", "for ; ; %s { }", "switch { case n > 1: %s; default: }", "func() { %s }()", "go func() { %s }()", "defer func() { %s }()", "select { case <-cht: %s; default: }", "{ { %s } }", "if n > 1 { } else { %s }", "switch iv.(type) { case int: %s }", "for range ts { %s }", "use(func() { %s })"}
	}
	for _, ctx := range ctxs {
		add(fmt.Sprintf(ctx, stmt), false, hasErr)
	}
	if full && !strings.HasPrefix(stmt, "(") {
		add("("+stmt+")", false, hasErr)
		add("if n > 9 { ("+stmt+") }", false, hasErr)
	}
	if shape == "" {
		return out
	}
	// every pattern of kept and dropped results
	for mask := 0; mask < 1<<len(shape); mask++ {
		var lhs []string
		drop := false
		for i := range shape {
			if mask>>i&1 == 1 {
				lhs = append(lhs, fmt.Sprintf("v%d", i))
			} else {
				lhs = append(lhs, "_")
				drop = drop || isErr(shape[i])
			}
		}
		l := strings.Join(lhs, ", ")
		add(l+" = "+call, true, drop)
		if full {
			add("if "+l+" = "+call+"; n > 0 { }", true, drop)
			add("func() { "+l+" = "+call+" }()", true, drop)
			if mask != 0 {
				var us []string
				for i := range lhs {
					if lhs[i] != "_" {
						us = append(us, lhs[i])
					}
				}
				add("{ "+l+" := "+call+"; use("+strings.Join(us, ", ")+") }", true, drop)
				add("if "+l+" := "+call+"; n > 0 { use("+strings.Join(us, ", ")+") }", true, drop)
			}
			if len(shape) == 1 {
				add("_ = ("+call+")", true, isErr(shape[0]))
			}
		}
	}
	if len(shape) == 1 {
		d := isErr(shape[0])
		// several values on the right
		for _, f := range []struct {
			t    string
			drop bool
		}{{"v0, _ = n, " + call, d}, {"_, v0 = " + call + ", n", d}, {"_, v0 = n, " + call, false}, {"v0, _ = " + call + ", n", false},
			{"v0, _, v1 = mkT(), " + call + ", n", d}, {"_, v0, _ = mkT(), " + call + ", fi()", false}, {"_, _, _ = mkT(), fi(), " + call, d}} {
			add(f.t, true, f.drop)
		}
		add("use("+call+")", false, false)
		add("return "+call, false, false)
		add("v0 = any("+call+")", true, false)
	}
	return out
}

type d08Conf struct {
	audit string
	list  map[string][]string
	raw   string
}

func (c d08Conf) json() string {
	m := map[string]any{}
	if c.audit != "" {
		m["global"] = map[string]any{"audit": c.audit}
	}
	if c.list != nil {
		m["G104"] = c.list
	}
	b, _ := json.Marshal(m)
	if c.raw != "" {
		return c.raw
	}
	return string(b)
}

func (c d08Conf) allowed(d d08Drop) bool {
	if d.c.std {
		return true
	}
	fn := strings.Replace(d.c.fn, "S", d.shape, 1)
	if d.c.fixed != "" {
		fn = d.c.fn
	}
	for _, k := range d.c.keys {
		for _, n := range c.list[k] {
			if n == fn {
				return true
			}
		}
	}
	return false
}

func d08Want(c d08Conf, l d08Line) bool {
	if l.audit && c.audit != "true" && c.audit != "enabled" {
		return false
	}
	for _, d := range l.calls {
		if d.drop && !c.allowed(d) {
			return true
		}
	}
	return false
}

var d08Stubbed = map[*core.Loader]bool{}

func d08Run(e *core.Env, name string, lines []d08Line, confs []d08Conf, r *core.Rec) {
	l := getLoader(e)
	if !d08Stubbed[l] {
		for p, n := range map[string]string{"ex.test/q": "q", "ex.test/r": "r", "ex.test/weird-path/v3": "w", "ex.test/x": "x"} {
			l.AddStub(p, d08Lib(n))
		}
		d08Stubbed[l] = true
	}
	decls, other := d08Decls()
	var b strings.Builder
	b.WriteString("package p\n" + strings.Replace(d08Imports, "\t\"ex.test/weird-path/v3\"", "\tv3 \"ex.test/weird-path/v3\"", 1) + decls)
	lineOf := map[int]int{}
	// each line in a function of its own kind of result, so that return works
	n := strings.Count(b.String(), "\n") + 1
	for i, ln := range lines {
		res, ret := "", ""
		if strings.HasPrefix(ln.text, "return ") {
			res, ret = "any", ""
		}
		head := fmt.Sprintf("func z%d(par T) %s {\n%s", i, res, d08Locals)
		b.WriteString(head)
		n += strings.Count(head, "\n")
		lineOf[n] = i
		b.WriteString("\t" + ln.text + "\n" + ret + "}\n\n")
		n += 3
	}
	p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()}, core.File{Name: "b.go", Src: other})
	for _, c := range confs {
		is, _ := core.Scan(core.Opts{Conf: d04Config(c.json()), Include: []string{"G104"}, NoSSA: true}, p)
		got := map[int]int{}
		for _, i := range is {
			a, _ := lineRange(i.Line)
			k, ok := lineOf[a]
			if !ok || !strings.HasSuffix(i.File, "a.go") {
				r.Violate(name+": elsewhere "+c.json(), c.json(), "finding at %s:%s", i.File, i.Line)
				continue
			}
			got[k]++
		}
		r.Evals++
		r.Transitions += len(lines)
		r.State(name + " " + c.json())
		bad := 0
		for k, ln := range lines {
			w := 0
			if d08Want(c, ln) {
				w = 1
			}
			if got[k] != w {
				if bad++; bad <= 3 {
					r.Violate(fmt.Sprintf("%s: %s under %s", name, ln.text, c.json()), ln.text, "want %d findings, got %d for %q (%s) under %s", w, got[k], ln.text, name, c.json())
				}
			}
		}
	}
}

func d08Confs(c d08Callee, shape string) []d08Conf {
	audits := []string{"", "enabled", "true", "disabled"}
	fn := strings.Replace(c.fn, "S", shape, 1)
	if c.fixed != "" {
		fn = c.fn
	}
	var out []d08Conf
	for _, a := range audits {
		out = append(out, d08Conf{audit: a})
		for _, k := range c.keys {
			out = append(out, d08Conf{audit: a, list: map[string][]string{k: {fn}}})
			out = append(out, d08Conf{audit: a, list: map[string][]string{k: {"Other", fn, "Third"}, "unrelated": {"X"}}})
			out = append(out, d08Conf{audit: a, list: map[string][]string{k: {"Other"}, "unrelated": {fn}, "*unrelated": {fn}}}) // the pair matters
			out = append(out, d08Conf{audit: a, list: map[string][]string{k: {fn + "x", strings.ToLower(fn) + "_"}, k + "x": {fn}, "x" + k: {fn}}})
		}
		if a == "enabled" { // long lists, with the function somewhere and nowhere in them
			for _, n := range []int{4, 9, 17, 33, 65, 130} {
				var names []string
				many := map[string][]string{}
				for j := range n {
					names = append(names, fmt.Sprintf("F%dx", j))
					many[fmt.Sprintf("pkg%d.T", j)] = []string{"A", fn, "Z"}
				}
				for i, k := range c.keys {
					at := []int{0, n / 2, n - 1}[(n+i)%3]
					with := slices.Insert(slices.Clone(names), at, fn)
					out = append(out, d08Conf{audit: a, list: map[string][]string{k: with}}, d08Conf{audit: a, list: map[string][]string{k: names}})
					m := maps.Clone(many)
					m[k] = with
					out = append(out, d08Conf{audit: a, list: m})
				}
				out = append(out, d08Conf{audit: a, list: many})
			}
		}
		out = append(out, d08Conf{audit: a, list: map[string][]string{"other/" + fn: {fn}, fn: {fn}, "": {fn}}})
	}
	return out
}

func init() {
	core.Register(&core.Check{
		ID: "D08", Level: "model_checking",
		Rule:   "a state is a distinct (callee kind, configuration); each result shape and dropping form of the callee is one line of a generated program scanned by the real rule, and the findings must be exactly the lines whose dropped error is on no list",
		Bounds: "70 callee kinds (functions, methods on values and pointers through 17 receiver expressions, interfaces, imports under plain, renamed and versioned names, every built-in entry and look-alikes) x all result tuples of up to 3 over {int, error} plus aliases and other error types x call statements in 14 contexts and every kept/blank pattern in 6 assignment forms x audit absent/disabled/true/enabled x allow lists naming the function under each selector, among up to 130 others or under up to 130 other selectors, its neighbours, or nothing",
		Prepare: func(e *core.Env) error {
			return core.PrepareStd(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for _, c := range d08Callees() {
				u = append(u, c.name)
			}
			sort.Strings(u)
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			for _, c := range d08Callees() {
				if c.name != unit {
					continue
				}
				shapes := d08Shapes()
				if c.fixed != "" {
					shapes = []string{c.fixed}
				}
				var all []d08Line
				for _, s := range shapes {
					all = append(all, d08Lines(c, s, true)...)
				}
				confs := []d08Conf{{}, {audit: "enabled"}, {audit: "true"}, {audit: "disabled"}}
				for i := range shapes {
					if e.Thorough || i == 1 || c.fixed != "" || i == len(shapes)-2 {
						confs = append(confs, d08Confs(c, shapes[i])...)
					}
				}
				if c.fixed == "" { // several functions of the receiver at once
					for _, k := range c.keys {
						var fns []string
						for i, s := range shapes {
							if i%2 == 0 {
								fns = append(fns, strings.Replace(c.fn, "S", s, 1))
							}
						}
						confs = append(confs, d08Conf{audit: "enabled", list: map[string][]string{k: fns}})
					}
				}
				d08Run(e, unit, all, confs, r)
				r.Sample(all[len(all)-1].text)
			}
		},
	})
}
