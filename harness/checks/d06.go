package checks

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"verifharness/core"
)

// D06: covered sinks crossed with constructions of the value and ways from the construction to the sink. A construction of
// constants must not be reported; one with other data must, where the rule looks at such a construction at all.

const d06Head = `package p

import (
	"context"
	"database/sql"
	"fmt"
	"io/ioutil"
	"net/http"
	"os"
	"os/exec"
	e2 "os/exec"
	"path"
	"path/filepath"
	"strings"
	"syscall"

	"golang.org/x/sys/execabs"
	ea "golang.org/x/sys/execabs"
	q3 "ex.test/other/pq"
	q2 "ex.test/vendor/github.com/lib/pq"
	"github.com/lib/pq"

	"ex.test/k"
)

const C = "c"
const TC kind = "c"

type kind string

func QuoteIdentifier(s string) string { return s }
type box struct{ f string; db *sql.DB; in *box }

var (
	_ = context.Background
	_ = fmt.Sprint
	_ = ioutil.ReadFile
	_ = http.Get
	_ = os.Open
	_ = exec.Command
	_ = e2.Command
	_ = path.Join
	_ = filepath.Join
	_ = strings.Join
	_ = syscall.Exec
	_ = execabs.Command
	_ = ea.Command
	_ = k.K
	_ = pq.QuoteIdentifier
	_ = q2.QuoteIdentifier
	_ = q3.QuoteIdentifier
	yes bool
	gs = "constant"
	gt = os.Args[0]
)

func use(...any) bool { return yes }
func f() string { return gt }
func f2() (string, string) { return gt, gt }

`

const d06Other = `package p

const CB = "other"

var VB = "constant" + gt
`

const d06Params = `p string, p2, p3 string, s *box, xs []string, m map[string]string, ptr *string, ch chan string, b []byte, i int, a any, ctx context.Context, db *sql.DB, tx *sql.Tx, perm os.FileMode`

type d06Val struct {
	pre, e string
	kind   int // 0 constant, 1 tainted
	ident  bool
	concat bool // concatenation with a parameter in it
}

var d06Consts = []d06Val{
	{"", `"lit"`, 0, false, false},
	{"", "`raw`", 0, false, false},
	{"", `C`, 0, true, false},
	{"", `(C)`, 0, false, false},
	{"", `CB`, 0, true, false},
	{"", `"a" + C`, 0, false, true},
	{"", `C + "b"`, 0, false, true},
	{"", `"a" + ("b" + C)`, 0, false, true},
	{"", `"a" + CB + "b"`, 0, false, true},
	{"", `string("a")`, 0, false, false},
	{"", `string(TC)`, 0, false, false},
	{"", `"a" + string(TC)`, 0, false, true},
	{"", `os.DevNull`, 0, false, false},
	{"", `k.K`, 0, false, false},
	{"", `k.K + "x" + C`, 0, false, true},
	{`const lk = "z";`, `lk`, 0, true, false},
	{`const lk, lm = "z", "y" + C;`, `lm + "x"`, 0, false, true},
}

var d06Atoms = []string{`p`, `p2`, `p3`, `s.f`, `s.in.f`, `xs[0]`, `xs[i]`, `m["k"]`, `*ptr`, `<-ch`, `f()`, `os.Args[1]`, `os.Getenv("X")`, `string(b)`, `fmt.Sprint(p)`,
	`fmt.Sprintf("%s-x", p)`, `strings.Join(xs, ",")`, `func() string { return p }()`, `a.(string)`, `string(kind(p))`, `strings.TrimSpace("lit")`, `xs[len(xs)-1]`, `http.MethodGet[:i]`}

func d06Tainted() []d06Val {
	var out []d06Val
	for _, a := range d06Atoms {
		id := a[0] == 'p' && len(a) < 3
		out = append(out, d06Val{"", a, 1, id, false})
		for _, f := range []string{`"a" + T`, `T + "b"`, `"a" + T + "b"`, `"a" + ("b" + T)`, `C + T`, `("a" + T)`, `"a" + T + C + p`} {
			e := strings.ReplaceAll(f, "T", a)
			out = append(out, d06Val{"", e, 1, false, (id || strings.HasSuffix(e, "+ p"))})
		}
	}
	return out
}

// d06Locals are local variables which do not get their value from an expression of their own.
func d06Locals() []d06Val {
	var out []d06Val
	for _, pre := range []string{
		"tv, to := f2(); use(to, tv);", "to, tv := f2(); use(to, tv);", "var tv, to = f2(); use(to, tv);", "var to, tv = f2(); use(to, tv);", "var to, tv string = f2(); use(to, tv);", "tv, te := os.Readlink(C); use(te, tv);", "var tv, te = os.Readlink(C); use(te, tv);",
		`tv, ok := m["k"]; use(ok, tv);`, `var tv, ok = m["k"]; use(ok, tv);`, "tv, ok := <-ch; use(ok, tv);", "var tv, ok = <-ch; use(ok, tv);", "tv, ok := a.(string); use(ok, tv);", "var tv, ok = a.(string); use(ok, tv);",
	} {
		out = append(out, d06Val{pre, "tv", 2, true, false}, d06Val{pre, `"a" + tv`, 2, false, true}, d06Val{pre, `tv + C`, 2, false, true})
	}
	return out
}

type d06Sink struct {
	rule, src string // SINK is the value
	form      string // cmd, file, join, url, sql, fmt
}

func d06Sinks() []d06Sink {
	out := []d06Sink{
		{"G204", `exec.Command(SINK)`, "cmd"},
		{"G204", `exec.Command("ls", SINK)`, "cmd"},
		{"G204", `e2.Command("ls", C, SINK)`, "cmd"},
		{"G204", `exec.CommandContext(ctx, SINK)`, "cmd"},
		{"G204", `exec.CommandContext(context.Background(), "ls", SINK)`, "cmd"},
		{"G204", `e2.CommandContext(context.TODO(), SINK)`, "cmd"},
		{"G204", `exec.Command("ls", []string{"-l", SINK}...)`, "args"},
		{"G204", `syscall.Exec(SINK, nil, nil)`, "cmd"},
		{"G204", `syscall.Exec("/bin/ls", []string{SINK}, nil)`, "args"},
		{"G204", `syscall.ForkExec(SINK, nil, nil)`, "cmd"},
		{"G204", `syscall.StartProcess(SINK, nil, nil)`, "cmd"},
		{"G204", `execabs.Command(SINK)`, "cmd"},
		{"G204", `execabs.CommandContext(context.Background(), SINK)`, "cmd"},
		{"G204", `ea.CommandContext(context.Background(), "ls", SINK)`, "cmd"},
		{"G304", `os.Open(SINK)`, "file"},
		{"G304", `os.ReadFile(SINK)`, "file"},
		{"G304", `os.Create(SINK)`, "file"},
		{"G304", `ioutil.ReadFile(SINK)`, "file"},
		{"G304", `os.OpenFile(SINK, i, perm)`, "file"},
		{"G304", `os.Open(filepath.Join("/tmp", SINK))`, "join"},
		{"G304", `os.ReadFile(path.Join(SINK, "x"))`, "join"},
		{"G107", `http.Get(SINK)`, "url"},
		{"G107", `http.Head(SINK)`, "url"},
		{"G107", `http.Post(SINK, "text/plain", nil)`, "url"},
		{"G107", `http.PostForm(SINK, nil)`, "url"},
	}
	for _, r := range []string{"db", "tx", "s.db", "s.in.db"} {
		for _, m := range []string{"Exec", "Query", "QueryRow", "Prepare"} {
			if strings.HasPrefix(r, "s.") && m != "Query" {
				continue
			}
			for _, q := range []string{r + "." + m + "(QQ)", r + "." + m + "Context(ctx, QQ)"} {
				out = append(out,
					d06Sink{"G202", strings.Replace(q, "QQ", `"SELECT a FROM b WHERE c = " + SINK`, 1), "sql"},
					d06Sink{"G201", strings.Replace(q, "QQ", `fmt.Sprintf("SELECT a FROM b WHERE c = '%s'", SINK)`, 1), "fmt"})
			}
		}
	}
	for _, q := range []string{"db.QueryRow(QQ).Scan(ptr)", "tx.QueryRowContext(ctx, QQ).Scan(ptr, &i)"} {
		out = append(out,
			d06Sink{"G202", strings.Replace(q, "QQ", `"SELECT a FROM b WHERE c = " + SINK`, 1), "sql"},
			d06Sink{"G201", strings.Replace(q, "QQ", `fmt.Sprintf("SELECT a FROM b WHERE c = '%s'", SINK)`, 1), "fmt"})
	}
	for _, q := range []string{"db.Query(QQ)", "tx.ExecContext(context.Background(), QQ)"} {
		for _, t := range []string{`"select a from b where c = '" + SINK + "'"`, `"INSERT INTO " + "b VALUES (" + SINK + C + ")"`, `"DELETE FROM b " + C + " WHERE " + SINK`, `"UPDATE b\nSET a = " + SINK`,
			`qc + SINK`, `("SELECT a FROM b WHERE c = " + SINK)`, `"SELECT " + ("a FROM b WHERE c = " + SINK)`, `k.Q + SINK`} {
			out = append(out, d06Sink{"G202", strings.Replace(q, "QQ", t, 1), "sql"})
		}
		for _, t := range []string{`fmt.Sprintf("select %s from b", SINK)`, `fmt.Sprintf("SELECT %v FROM "+"b WHERE c = %d", SINK, 7)`, `fmt.Sprintf("SELECT %s FROM %q", C, SINK)`,
			`fmt.Sprintf(qf, SINK)`, `fmt.Sprintf(k.Q+"%s", SINK)`, `(fmt.Sprintf("SELECT %s FROM b", SINK))`} {
			out = append(out, d06Sink{"G201", strings.Replace(q, "QQ", t, 1), "fmt"})
		}
	}
	return out
}

// d06Ways: CALL(x) is the sink with the value x.
var d06Ways = []struct{ name, src string }{
	{"inline", `PRE _, _ = CALL(E)`},
	{"local", `PRE v := E; _, _ = CALL(v)`},
	{"declared", `PRE var v = E; _, _ = CALL(v)`},
	{"typed", `PRE var v string = E; _, _ = CALL(v)`},
	{"first", `PRE v, w := E, "lit"; use(w); _, _ = CALL(v)`},
	{"second", `PRE w, v := p, E; use(w); _, _ = CALL(v)`},
	{"second const", `PRE w, v := "lit", E; use(w); _, _ = CALL(v)`},
	{"declared second", `PRE var w, v = f(), E; use(w); _, _ = CALL(v)`},
	{"renamed", `PRE v := E; w := v; _, _ = CALL(w)`},
	{"renamed twice", `PRE v := E; var w = v; x := w; _, _ = CALL(x)`},
	{"if", `PRE if v := E; yes { _, _ = CALL(v) }`},
	{"captured", `PRE v := E; func() { _, _ = CALL(v) }()`},
	{"shadow", `PRE gs := E; _, _ = CALL(gs)`},
	{"loop", `for range xs { PRE v := E; _, _ = CALL(v) }`},
	{"paren", `PRE v := (E); _, _ = CALL(v)`},
}

// d06Positions: where a call can stand.
var d06Positions = []string{
	`use(CALL2(E))`, `CALL2(E)`, `x, _ := CALL2(E); use(x)`, `var x, y = CALL2(E); use(x, y)`, `defer CALL2(E)`, `go CALL2(E)`, `if x, _ := CALL2(E); use(x) { use() }`,
	`func() { CALL2(E) }()`, `switch x, _ := CALL2(E); use(x) { case true: CALL2(E) }`, `for range 2 { CALL2(E) }`, `select { default: CALL2(E) }`, `func() (any, any) { return CALL2(E) }()`,
}

// d06Want: 1 must be reported, 0 must not, -1 not judged.
func d06Want(s d06Sink, v d06Val, way string) int {
	inline := way == "inline"
	if v.kind == 0 {
		if (s.form == "sql" || s.form == "fmt") && !inline {
			return -1 // a variable, of which the rules do not look for the value
		}
		return 0
	}
	switch s.form {
	case "cmd":
		if inline && v.ident && v.kind == 1 { // a plain parameter
			return 0
		}
	case "file", "join":
		if inline && !v.ident && !v.concat {
			return -1
		}
	case "url":
		if inline && !v.ident {
			return -1
		}
	case "sql":
	case "fmt":
	}
	return 1
}

type d06Case struct {
	src, rule string
	want      int
}

func d06Run(l *core.Loader, cases []d06Case, what string, r *core.Rec) {
	l.AddStub("ex.test/k", "package k\n\nconst K = \"k\"\n\nconst Q = \"SELECT a FROM b WHERE c = \"\n\nvar V = \"v\"\n")
	for _, path := range []string{"github.com/lib/pq", "ex.test/vendor/github.com/lib/pq", "ex.test/other/pq"} {
		l.AddStub(path, "package pq\n\nfunc QuoteIdentifier(s string) string { return s }\nfunc QuoteLiteral(s string) string { return s }\n")
	}
	l.AddStub("golang.org/x/sys/execabs", "package execabs\n\nimport (\n\t\"context\"\n\t\"os/exec\"\n)\n\nfunc Command(name string, arg ...string) *exec.Cmd { return nil }\nfunc CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd { return nil }\n")
	const per = 1500
	for at := 0; at < len(cases); at += per {
		part := cases[at:min(at+per, len(cases))]
		var b strings.Builder
		b.WriteString(d06Head)
		first := 1 + strings.Count(d06Head, "\n")
		for k, c := range part {
			b.WriteString(strings.ReplaceAll(c.src, "ID", fmt.Sprint(k)) + "\n")
		}
		p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()}, core.File{Name: "b.go", Src: d06Other})
		is, _ := core.Scan(core.Opts{Include: []string{"G201", "G202", "G204", "G304", "G107"}, NoSSA: true}, p)
		got := map[int]map[string]int{}
		for _, i := range is {
			n, _ := lineRange(i.Line)
			if got[n-first] == nil {
				got[n-first] = map[string]int{}
			}
			got[n-first][i.RuleID]++
		}
		r.Evals += len(part)
		r.Transitions += len(part)
		for k, c := range part {
			r.State(c.src)
			g := got[k][c.rule]
			if c.want == 1 && g == 0 || c.want == 0 && g > 0 {
				r.Violate(c.src, c.src, "%s: %s reported %v, should be %v: %s", what, c.rule, g > 0, c.want == 1, c.src)
			}
			delete(got[k], c.rule)
			if len(got[k]) > 0 {
				r.Violate(c.src+" other", c.src, "%s: other rules report %v: %s", what, got[k], c.src)
			}
		}
	}
}

// d06Build puts the value into the sink, by the way.
func d06Build(way string, s d06Sink, v d06Val, results string) string {
	src := strings.ReplaceAll(way, "PRE ", v.pre+" ")
	for _, call := range []string{"CALL2(", "CALL("} {
		for {
			k := strings.Index(src, call)
			if k < 0 {
				break
			}
			end := k + strings.IndexByte(src[k:], ')')
			val := src[k+len(call) : end]
			src = src[:k] + strings.ReplaceAll(s.src, "SINK", val) + src[end+1:]
		}
	}
	src = d02Word(src, "E", v.e)
	if n := d06Results(s.src); results == "fit" && n == 1 {
		src = strings.ReplaceAll(src, "_, _ = ", "_ = ")
		src = strings.ReplaceAll(src, "x, _ := ", "x := ")
		src = strings.ReplaceAll(src, "var x, y = ", "var x = ")
		src = strings.ReplaceAll(src, "use(x, y)", "use(x)")
		src = strings.ReplaceAll(src, "(any, any)", "any")
	} else if n == 3 {
		src = strings.ReplaceAll(src, "_, _ = ", "_, _, _ = ")
		src = strings.ReplaceAll(src, "x, _ := ", "x, _, _ := ")
		src = strings.ReplaceAll(src, "var x, y = ", "var x, y, z = ")
		src = strings.ReplaceAll(src, "use(x, y)", "use(x, y, z)")
		src = strings.ReplaceAll(src, "(any, any)", "(any, any, any)")
	}
	consts := ""
	if strings.Contains(src, "qc +") {
		consts = `const qc = "SELECT a FROM b WHERE c = "; `
	}
	if strings.Contains(src, "(qf,") {
		consts = `const qf = "SELECT a FROM b WHERE c = '%s'"; `
	}
	return "func hID(" + d06Params + ") { " + consts + src + " }"
}

// d06Results is the number of results of the sink.
func d06Results(s string) int {
	switch {
	case strings.Contains(s, "StartProcess"):
		return 3
	case strings.Contains(s, "exec.Command"), strings.Contains(s, "e2."), strings.Contains(s, "execabs."), strings.Contains(s, "ea."), strings.Contains(s, "syscall.Exec"), strings.Contains(s, "QueryRow"):
		return 1
	}
	return 2
}

func init() {
	core.Register(&core.Check{
		ID: "D06", Level: "model_checking",
		Rule:    "a state is a distinct generated function (construction of the value, way to the sink, sink, position of the call); the real rules run on it within a generated package, must report it if the value carries other data than constants in a form the rule looks at, must not if it is built of constants, and no other of the rules may report it",
		Bounds:  "17 constructions of constants, 23 sources of other data in 8 concatenations and 13 declarations of several variables by one value in 3 x 15 ways to the sink x 83 sinks (commands, files, joined paths, URLs, SQL by concatenation and by formatting through 8 methods of database and transaction); chains of 2 (thorough: 4) declarations of 10 forms; calls at 12 positions; arguments tainted at every set of up to 4 places and at each of up to 24 (thorough: 70), as operands of concatenations, joined paths, formatted values and declarations of several, too, and values passed on or parenthesised that often; queries held in a variable; 18 words x 7 separators x 10 formatting verbs; package variables; cleaned paths; all lists of up to three of 13 quoted and other arguments; sinks of the same name elsewhere",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for k := range d06Sinks() {
				u = append(u, fmt.Sprintf("sink %d", k))
			}
			for k := range d06Sinks() {
				if e.Thorough || k%3 == 0 {
					u = append(u, fmt.Sprintf("chain %d", k))
				}
			}
			return append(u, "clean 0", "words 0", "positions 0", "held 0", "vars 0", "elsewhere 0", "mixed 0", "quoted 0", "many 0")
		},
		UnitTimeout: 900e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			var cases []d06Case
			all := append(append(slices.Clone(d06Consts), d06Tainted()...), d06Locals()...)
			sinks := d06Sinks()
			few := []d06Val{d06Consts[0], d06Consts[2], d06Consts[6], d06Consts[12], {"", `"a" + p`, 1, false, true}, {"", "p", 1, true, false}, {"", "f()", 1, false, false}, {"", "xs[i]", 1, false, false}}
			switch kind {
			case "sink":
				for _, way := range d06Ways {
					for _, v := range all {
						cases = append(cases, d06Case{d06Build(way.src, sinks[k], v, "fit"), sinks[k].rule, d06Want(sinks[k], v, way.name)})
					}
				}
			case "chain": // passed on through declarations of several forms
				depth := 2
				if e.Thorough {
					depth = 4
				}
				forms := []string{`B := A; `, `var B = A; `, `var B string = A; `, `var B = (A); `, `B, oB := A, "lit"; use(oB); `, `oB, B := p, A; use(oB); `, `var oB, B = "lit", A; use(oB); `, `if B := A; yes { `, `switch B := A; { default: `, `func() { B := A; `}
				n := 1
				for range depth {
					n *= len(forms)
				}
				for code := range n {
					for _, v := range few {
						src, end, a := v.pre+" ", "", "("+v.e+")"
						for j, c := 0, code; j < depth; j, c = j+1, c/len(forms) {
							f := forms[c%len(forms)]
							b := fmt.Sprintf("v%d", j)
							src += strings.NewReplacer("oB", "o"+b, "B", b, "A", a).Replace(f)
							if strings.HasSuffix(f, "{ ") {
								end = "}; " + end
							} else if strings.Contains(f, "default") {
								end = "}; " + end
							} else if strings.HasPrefix(f, "func") {
								end = "}(); " + end
							}
							a = b
						}
						want := d06Want(sinks[k], v, "chain")
						if want == 1 && (sinks[k].form == "sql" || sinks[k].form == "fmt") {
							want = d06Want(sinks[k], d06Val{"", a, 1, true, false}, "inline")
						}
						fn := d06Build("BODY CALL2(E); END", sinks[k], d06Val{"", a, 1, true, false}, "fit")
						fn = strings.Replace(strings.Replace(fn, "BODY", src, 1), "; END", "; "+end, 1)
						if strings.Contains(fn, "{ CALL2") {
							panic(fn)
						}
						cases = append(cases, d06Case{fn, sinks[k].rule, want})
					}
				}
			case "words": // texts that are SQL and texts that are not
				for _, w := range []string{"SELECT", "DELETE", "INSERT", "UPDATE", "INTO", "FROM", "WHERE", "select", "Delete", "insert", "uPDATE", "into", "from", "where", "CALL", "PRAGMA", "SELEC", "fro"} {
					for _, sep := range []string{" ", "\\n", "\\t", "\\r", "", ".", "-"} {
						for _, pre := range []string{"", "x ", "(", "/* a */\\n"} {
							for _, verb := range []string{"%s", "%v", "%q", "%+v", "%#v", "%T", "%10s", "%-5s", "%[1]s", "'%s' AND b = %d", "%d AND b = '%s'", "%d", "%b", "%o", "%x", "%X", "%f", "%F", "%p", "%d, %x, %X"} {
								sql := slices.Contains([]string{"SELECT", "DELETE", "INSERT", "UPDATE", "INTO", "FROM", "WHERE"}, strings.ToUpper(w)) && strings.Contains(" \\n\\t\\r", sep) && sep != ""
								want := 0
								if sql && strings.ContainsAny(verb, "svqT") { // verbs of numbers carry no text
									want = 1
								}
								arg := "p"
								switch {
								case verb == "%d AND b = '%s'":
									arg = "i, p"
								case verb == "%d, %x, %X":
									arg = "i, i, i"
								case strings.Contains(verb, "%d") && len(verb) > 2:
									arg = "p, 7"
								case verb == "%f" || verb == "%F":
									arg = "float64(i)"
								case verb == "%p":
									arg = "ptr"
								case want == 0 && len(verb) == 2 && strings.ContainsAny(verb, "dboxX"):
									arg = "i"
								}
								lit := pre + w + sep
								for _, v := range []string{"p", "s.f", "f()"} {
									if verb == "%s" {
										cases = append(cases, d06Case{"func hID(" + d06Params + ") { _, _ = db.Query(\"" + lit + "\" + " + v + ") }", "G202", want})
										cases = append(cases, d06Case{"func hID(" + d06Params + ") { qv := \"" + lit + "\" + " + v + "; _, _ = db.Query(qv) }", "G202", want})
									}
								}
								cases = append(cases, d06Case{"func hID(" + d06Params + ") { _, _ = db.Query(fmt.Sprintf(\"" + lit + verb + "\", " + arg + ")) }", "G201", want})
								cases = append(cases, d06Case{"func hID(" + d06Params + ") { qv := fmt.Sprintf(\"" + lit + verb + "\", " + arg + "); _, _ = db.Query(qv) }", "G201", want})
							}
						}
					}
				}
			case "quoted": // identifiers quoted for PostgreSQL, next to other data
				args := []struct {
					src  string
					free bool
				}{{"pq.QuoteIdentifier(p)", true}, {"q2.QuoteIdentifier(s.f)", true}, {"(pq.QuoteIdentifier)(f())", true}, {"C", true}, {`"x"`, true}, {"7", true}, {"p", false}, {"f()", false}, {"s.f", false}, {"pq.QuoteLiteral(p)", false}, {"q3.QuoteIdentifier(p)", false}, {"QuoteIdentifier(p)", false}, {"quoterID{}.QuoteIdentifier(p)", false}}
				for _, f := range []string{`_, _ = db.Query(Q)`, `_ = db.QueryRow(Q)`, `qv := Q; _, _ = db.Exec(qv)`, `if rows, err := db.QueryContext(ctx, Q); err == nil { use(rows) }`} {
					for _, x := range args {
						src := func(q string) string {
							return "type quoterID struct{}; func (quoterID) QuoteIdentifier(s string) string { return s }; func hID(" + d06Params + ") { " + strings.ReplaceAll(f, "Q)", q+")") + " }"
						}
						if strings.Contains(f, "qv := Q") {
							src = func(q string) string {
								return "type quoterID struct{}; func (quoterID) QuoteIdentifier(s string) string { return s }; func hID(" + d06Params + ") { " + strings.Replace(f, "Q", q, 1) + " }"
							}
						}
						want := func(free bool) int {
							if free {
								return 0
							}
							return 1
						}
						cases = append(cases, d06Case{src(`fmt.Sprintf("SELECT a FROM %s", ` + x.src + ")"), "G201", want(x.free)})
						for _, y := range args {
							cases = append(cases, d06Case{src(`fmt.Sprintf("SELECT a FROM %v WHERE b = '%v'", ` + x.src + ", " + y.src + ")"), "G201", want(x.free && y.free)})
							for _, z := range args {
								cases = append(cases, d06Case{src(`fmt.Sprintf("SELECT %v FROM %v WHERE b = '%v'", ` + x.src + ", " + y.src + ", " + z.src + ")"), "G201", want(x.free && y.free && z.free)})
							}
						}
					}
				}
			case "clean": // a path that has been cleaned
				for _, open := range []string{"os.Open(V)", "os.ReadFile(V)", "os.OpenFile(V, i, perm)", "ioutil.ReadFile(V)", "os.Create(V)"} {
					for _, cl := range []string{"filepath.Clean(E)", "filepath.Clean(E + C)"} {
						for _, e := range []string{"p", "s.f", "xs[i]", "f()"} {
							for _, f := range []struct {
								src  string
								want int
							}{
								{`v := CLEAN; OPEN`, 0},
								{`v := E; v = CLEAN; OPEN`, -1},
								{`v := E; w := CLEAN; use(w); OPEN`, 1},
								{`v := E; OPEN; w := CLEAN; use(w)`, 1},
								{`v := E; w := filepath.Clean(p2); use(w); OPEN`, 1},
								{`v, w := E, p2; use(filepath.Clean(w)); OPEN`, 1},
								{`v, w := E, p2; use(filepath.Clean(v), w); OPEN`, 0},
								{`var v, w = E, p2; use(filepath.Clean(w)); OPEN`, 1},
								{`v := E; use(filepath.Clean(v)); OPEN`, 0},
								{`v, err := filepath.EvalSymlinks(E); use(err); OPEN`, 0},
								{`v, err := filepath.Rel("/tmp", E); use(err); OPEN`, 0},
								{`v := E; func(v string) { use(filepath.Clean(v)) }("x"); OPEN`, 1},
								{`v := E; func() { v := "x"; use(filepath.Clean(v)) }(); OPEN`, 1},
								{`v := E; use(strings.TrimSpace(v), path.Clean(v)); OPEN`, 1},
								{`v := E; use(path.Base(v)); OPEN`, 1},
								{`v, w := filepath.Clean(p2), E; use(v, w); v2 := w; OPEN2`, 1},
							} {
								src := strings.NewReplacer("CLEAN", cl, "OPEN2", strings.Replace(open, "V", "v2", 1), "OPEN", strings.Replace(open, "V", "v", 1)).Replace(f.src)
								want := f.want
								if e == "p" && strings.Contains(f.src, "w := CLEAN") && !strings.Contains(cl, "+") && f.want == 1 {
									want = -1
								}
								cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + d02Word(src, "E", e) + " }", "G304", want})
							}
						}
					}
				}
				for _, open := range []string{"os.Open(V)", "os.ReadFile(V)", "os.OpenFile(V, i, perm)"} {
					for x, a := range []string{"p", "p2", "p3"} { // parameters that share a declaration
						for y, b := range []string{"p", "p2", "p3"} {
							want := 1
							if x == y {
								want = 0
							}
							cases = append(cases, d06Case{"func hID(" + d06Params + ") { use(filepath.Clean(" + a + ")); " + strings.Replace(open, "V", b, 1) + " }", "G304", want})
						}
					}
				}
			case "positions":
				for _, s := range sinks {
					for _, pos := range d06Positions {
						n := d06Results(s.src)
						if s.form == "sql" || s.form == "fmt" {
							if !strings.HasPrefix(pos, "CALL2") && !strings.HasPrefix(pos, "x, _ :=") && !strings.HasPrefix(pos, "for") && !strings.HasPrefix(pos, "func() { ") && !strings.HasPrefix(pos, "if ") && !strings.HasPrefix(pos, "select") {
								continue
							}
						}
						_ = n
						for _, v := range few {
							if s.src[0] == '(' && strings.HasPrefix(pos, "CALL2") {
								continue
							}
							cases = append(cases, d06Case{d06Build(pos, s, v, "fit"), s.rule, d06Want(s, v, "inline")})
						}
					}
				}
			case "held": // the whole query in a variable, or a chained call
				for _, s := range sinks {
					if s.form != "sql" && s.form != "fmt" || strings.Contains(s.src, "((") || strings.Contains(s.src, ", (") {
						continue
					}
					a := strings.Index(s.src, "(") + 1
					if strings.Contains(s.src[:a], "Context") {
						a = strings.Index(s.src, ", ") + 2
					}
					end := len(s.src) - 1
					if k := strings.Index(s.src, ").Scan("); k > 0 {
						end = k
					}
					query, call := s.src[a:end], s.src[:a]+"qv"+s.src[end:]
					for _, v := range all {
						want := d06Want(s, v, "inline")
						if s.form == "sql" && (strings.HasPrefix(query, "qc") || strings.HasPrefix(query, "k.Q") || strings.Contains(query, "+ C +")) {
							if want == 1 {
								want = -1 // the text of the statement is only looked for in literals
							}
						}
						for _, f := range []string{`qv := QUERY; RES = CALL`, `qv := QUERY; CALL`, `var zz, qv = 1, QUERY; use(zz); CALL`, `if qv := QUERY; yes { RES = CALL }`} {
							w := want
							if strings.HasPrefix(f, "var") && w == 1 {
								w = -1 // only assignments are looked at
							}
							res := "_, _"
							if d06Results(s.src) == 1 {
								res = "_"
							}
							src := v.pre + " " + strings.NewReplacer("QUERY", strings.ReplaceAll(query, "SINK", v.e), "RES", res, "CALL", call).Replace(f)
							pre := ""
							if strings.Contains(src, "qc +") {
								pre = `const qc = "SELECT a FROM b WHERE c = "; `
							}
							if strings.Contains(src, "(qf,") {
								pre = `const qf = "SELECT a FROM b WHERE c = '%s'"; `
							}
							// the finding is at the query, which is on the same line
							cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + pre + src + " }", s.rule, w})
						}
					}
				}
			case "vars": // package variables
				for _, v := range few { // several calls at once
					for n, f := range []string{`_, _ = db.QueryRow("SELECT 1"), db.QueryRow("SELECT a FROM b WHERE c = " + E)`, `_, _ = db.QueryRow("SELECT a FROM b WHERE c = " + E), db.QueryRow("SELECT 1")`,
						`_, _ = db.QueryRow("SELECT 1").Err(), db.QueryRow("SELECT a FROM b WHERE c = " + E).Err()`, `_, _ = f(), db.QueryRow("SELECT a FROM b WHERE c = " + E).Err()`,
						`_, _ = db.QueryRow("SELECT 1"), db.QueryRow(fmt.Sprintf("SELECT a FROM b WHERE c = %q", E))`, `_, _ = f(), db.QueryRow(fmt.Sprintf("SELECT a FROM b WHERE c = %q", E)).Err()`} {
						rule := "G202"
						if n > 3 {
							rule = "G201"
						}
						cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + v.pre + " " + d02Word(f, "E", v.e) + " }", rule, min(v.kind, 1)})
					}
				}
				for _, s := range sinks {
					for _, g := range []struct {
						decl, e string
						tainted bool
					}{{"", "gs", false}, {"", "gt", true}, {`var vID = "x"; `, "vID", false}, {`var vID = f(); `, "vID", true}, {`var wID, vID = f(), "x"; `, "vID", false}, {`var wID, vID = "x", f(); `, "vID", true}, {"", "VB", true}, {"", "k.V", true}, {`var vID = VB; `, "vID", true}} {
						want := 0
						if g.e == "VB" || g.e == "k.V" || strings.Contains(g.decl, "VB") { // declared in another file
							want = -1
						} else if g.tainted || s.form == "url" {
							want = 1
						} else if s.form == "sql" || s.form == "fmt" {
							want = -1
						}
						fn := d06Build(`_, _ = CALL(E)`, s, d06Val{"", g.e, 0, true, false}, "fit")
						cases = append(cases, d06Case{g.decl + fn, s.rule, want})
					}
				}
			case "elsewhere": // the same names, but other functions
				for _, f := range []string{`exec.LookPath(E)`, `os.Stat(E)`, `os.Remove(E)`, `filepath.Join(E, "x")`, `filepath.Clean(E)`, `path.Join("a", E)`, `http.NewRequest("GET", E, nil)`, `fmt.Sprintf("SELECT a FROM b WHERE c = '%s'", E)`,
					`use("SELECT a FROM b WHERE c = " + E)`, `s.db.PingContext(ctx)`, `db.Query("SELECT a FROM b WHERE c = ?", E)`, `db.QueryRow("SELECT a FROM b WHERE c = $1", "x" + E)`, `tx.ExecContext(ctx, "DELETE FROM b WHERE c = ?", E)`,
					`db.Query(fmt.Sprintf("SELECT a FROM b WHERE c = %d", i), E)`, `syscall.Open(E, i, 0)`, `http.Handle("/", http.FileServer(http.Dir(E)))`, `db.Exec("CALL x" + E)`, `exec.Command("ls", "-l")`, `func() { Command := func(string) int { return 1 }; Command(E) }()`,
					`func() { exec := struct{ Command func(string) }{}; exec.Command(E) }()`, `func() { os := struct{ Open func(string) }{}; os.Open(E) }()`, `func() { http := struct{ Get func(string) }{}; http.Get(E) }()`} {
					for _, v := range all {
						if !strings.Contains(f, ":= struct") { // whose names the value may use
							cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + v.pre + " " + d02Word(f, "E", "("+v.e+")") + " }", "G204", 0})
						}
						cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + v.pre + " v := " + v.e + "; use(v); " + d02Word(f, "E", "v") + " }", "G204", 0})
					}
				}
			case "many": // many arguments or operands, of which one is other data
				longest := 24
				if e.Thorough {
					longest = 70
				}
				for n := 1; n <= longest; n++ {
					for at := -1; at < n; at++ {
						for _, t := range []string{"f()", "p"} {
							list := func(c, t string) []string {
								out := make([]string, n)
								for j := range out {
									out[j] = c
								}
								if at >= 0 {
									out[at] = t
								}
								return out
							}
							want, inlined := 0, 0
							if at >= 0 {
								want, inlined = 1, 1
								if t == "p" {
									inlined = -1
								}
							}
							add := func(rule string, want int, src string) {
								cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + src + " }", rule, want})
							}
							lit, con := strings.Join(list(`"x"`, t), ", "), strings.Join(list("C", t), ", ")
							sum, csum := strings.Join(list(`"x"`, t), " + "), strings.Join(list("C", t), " + ")
							add("G204", inlined, `exec.Command(`+lit+`)`)
							add("G204", inlined, `exec.CommandContext(ctx, `+con+`)`)
							add("G204", want, `v := `+sum+`; exec.Command("ls", v)`)
							if n > 1 {
								add("G204", want, `exec.Command(`+csum+`)`)
								add("G304", want, `v := `+csum+`; os.Open(v)`)
								add("G107", want, `v := `+sum+`; http.Get(v)`)
								if t == "p" {
									add("G304", want, `os.Open(filepath.Join(`+lit+`))`)
									add("G304", want, `os.ReadFile(path.Join(`+con+`))`)
									add("G304", want, `os.Open(`+sum+`)`)
								}
							}
							add("G202", want, `_, _ = db.Query("SELECT a FROM b WHERE c = " + `+sum+`)`)
							add("G202", want, `qv := "SELECT a FROM b WHERE c = " + `+csum+`; _, _ = db.Query(qv)`)
							add("G201", want, `_, _ = db.Query(fmt.Sprintf("SELECT `+strings.Repeat("%s, ", n)+`a FROM b", `+lit+`))`)
							add("G201", want, `qv := fmt.Sprintf("SELECT `+strings.Repeat("%s, ", n)+`a FROM b", `+strings.Join(list("pq.QuoteIdentifier(p2)", t), ", ")+`); _, _ = tx.Exec(qv)`)
							if at >= 0 { // declared among others, and passed on many times
								names := strings.Split(strings.Repeat("v,", n)+"", ",")[:n]
								for j := range names {
									names[j] = fmt.Sprintf("v%d", j)
								}
								add("G204", want, strings.Join(names, ", ")+` := `+lit+`; use(`+strings.Join(names, ", ")+`); exec.Command("ls", `+names[at]+`)`)
								chain := `v0 := ` + t + `; `
								for j := range n {
									chain += fmt.Sprintf("v%d := v%d; ", j+1, j)
								}
								if at == 0 {
									add("G204", 1, chain+fmt.Sprintf("exec.Command(v%d)", n))
									add("G304", 1, chain+fmt.Sprintf("os.Open(v%d)", n))
									add("G107", 1, chain+fmt.Sprintf("http.Get(v%d)", n))
									cc := strings.Replace(chain, ":= "+t, `:= "x"`, 1)
									add("G204", 0, cc+fmt.Sprintf("exec.Command(v%d)", n))
									add("G304", 0, cc+fmt.Sprintf("os.Open(v%d)", n))
									add("G107", 0, cc+fmt.Sprintf("http.Get(v%d)", n))
									deep := strings.Repeat("(", n) + `"x" + ` + t + strings.Repeat(")", n)
									add("G204", 1, "exec.Command("+deep+")")
									add("G304", 1, "v := "+deep+"; os.Open(v)")
									add("G202", 1, `_, _ = db.Query(`+strings.Repeat("(", n)+`"SELECT a FROM b WHERE c = " + `+t+strings.Repeat(")", n)+`)`)
									add("G202", 1, `_, _ = db.Query("SELECT a FROM b WHERE c = " + `+strings.Repeat(`("x" + `, n)+t+strings.Repeat(")", n)+`)`)
								}
							}
						}
					}
				}
			case "mixed": // several arguments, the tainted one at each place
				for _, f := range []string{"exec.Command", "exec.CommandContext", "execabs.Command"} {
					for n := 1; n <= 4; n++ {
						for mask := 0; mask < 1<<n; mask++ {
							for _, c := range d06Consts[:6] {
								for _, t := range []string{"f()", "xs[i]", `"a" + p`, "s.f"} {
									var as []string
									if strings.HasSuffix(f, "Context") {
										as = append(as, "ctx")
									}
									for j := 0; j < n; j++ {
										if mask>>j&1 == 1 {
											as = append(as, t)
										} else {
											as = append(as, c.e)
										}
									}
									want := 0
									if mask != 0 {
										want = 1
									}
									cases = append(cases, d06Case{"func hID(" + d06Params + ") { " + f + "(" + strings.Join(as, ", ") + ") }", "G204", want})
								}
							}
						}
					}
				}
			}
			sort.SliceStable(cases, func(i, j int) bool { return cases[i].want < cases[j].want })
			d06Run(l, cases, unit, r)
			r.Sample(cases[len(cases)/2].src)
		},
	})
}
