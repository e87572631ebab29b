package checks

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"verifharness/core"
)

// D10: calls and literals whose constant values decide whether they are reported, with every value around what decides and
// every way of writing it.

const d10Head = `package p

import (
	"crypto/rand"
	"crypto/rsa"
	rsa2 "crypto/rsa"
	"crypto/tls"
	tls2 "crypto/tls"
	"html/template"
	ht "html/template"
	"io/ioutil"
	"net"
	net2 "net"
	"net/http"
	hh "net/http"
	"os"
	os2 "os"
	"path"
	"path/filepath"
	fp2 "path/filepath"
	"time"

	"ex.test/k"
)

type kind string

const TC kind = "c"

type own struct{ Addr string; Handler http.Handler; ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration; MaxHeaderBytes int; TLSConfig, ErrorLog, ConnState, BaseContext, TLSNextProto any }
type ali = http.Server
type holder struct{ s http.Server; p *http.Server; ReadTimeout int }
type dirs struct{}

func (dirs) Dir(string) int { return 1 }
func (dirs) Listen(a, b string) (int, int) { return 1, 2 }
func (dirs) GenerateKey(a any, n int) (int, int) { return 1, n }
func (dirs) Create(string) (int, int) { return 1, 2 }
func (dirs) HTML(string) int { return 1 }

var (
	_ = rand.Reader
	_ = rsa.GenerateKey
	_ = rsa2.GenerateKey
	_ = tls.Listen
	_ = tls2.Listen
	_ template.HTML
	_ ht.HTML
	_ = ioutil.ReadAll
	_ = net.Listen
	_ = net2.Listen
	_ http.Dir
	_ hh.Dir
	_ = os.Getenv
	_ = os2.Getenv
	_ = path.Join
	_ = filepath.Join
	_ = fp2.Join
	_ = k.K0
	yes bool
	gv = os.Args[0]
)

func use(...any) bool { return yes }
func f() string { return gv }

`

const d10Params = `p string, i int, s *holder, xs []string, hd http.Handler, cfg *tls.Config, d dirs`

// d10Write are the ways of writing a constant string. CONST are declarations in front of the function, and n numbers the
// value among the constants of the other package and of the other file.
func d10Write(v string, n int, has bool) []struct{ pre, local, e string } {
	q := strconv.Quote(v)
	out := []struct{ pre, local, e string }{
		{"", "", q},
		{"", "", "(" + q + ")"},
		{"const cID = " + q + "; ", "", "cID"},
		{"", "const lc = " + q + "; ", "lc"},
		{"", "const la, lb = 1, " + q + "; ", "lb"},
		{"", "", "string(" + q + ")"},
		{"const tID kind = " + q + "; ", "", "string(tID)"},
		{"", "", `"" + ` + q},
		{"", "", q + ` + ""`},
		{"const cID = " + q + "; ", "", "cID + (\"\")"},
	}
	if !strings.ContainsAny(v, "`\r") {
		out = append(out, struct{ pre, local, e string }{"", "", "`" + v + "`"})
	}
	hex := ""
	for _, b := range []byte(v) {
		hex += fmt.Sprintf("\\x%02x", b)
	}
	out = append(out, struct{ pre, local, e string }{"", "", `"` + hex + `"`})
	for at := 1; at < len(v); at += 1 + len(v)/4 {
		out = append(out, struct{ pre, local, e string }{"", "", strconv.Quote(v[:at]) + " + " + strconv.Quote(v[at:])})
		out = append(out, struct{ pre, local, e string }{"const cID = " + strconv.Quote(v[at:]) + "; ", "", strconv.Quote(v[:at]) + " + cID"})
	}
	if has {
		out = append(out, struct{ pre, local, e string }{"", "", fmt.Sprintf("k.K%d", n)}, struct{ pre, local, e string }{"", "", fmt.Sprintf("B%d", n)})
	}
	return out
}

// d10Texts are all constant texts used, which other.go and package k also declare.
var d10Texts = func() []string {
	var out []string
	for _, l := range [][]string{d10Addrs, d10Paths, d10Dirs} {
		for _, v := range l {
			if !slices.Contains(out, v) {
				out = append(out, v)
			}
		}
	}
	return out
}()

var d10Addrs = []string{"0.0.0.0:80", "0.0.0.0:", "0.0.0.0:http", ":80", ":", ":https", "[::]:80", "[::]:", "", "127.0.0.1:80", "localhost:80", "[::1]:80", "10.0.0.0:80", "100.0.0.0:80", "0.0.0.1:80", "0a0b0c0:80", "0.0.0.01:80", "x:0.0.0.0", "192.168.0.0:80", "1.0.0.0:0", "0.0.0.0.example.com:80", "0-0-0-0:80", " :80", "example.com:80", "[fe80::1]:80", "[::2]:80", "10.0.0.0.0:80"}

func d10AddrAll(v string) int {
	h, _, ok := strings.Cut(v, ":")
	if strings.HasPrefix(v, "[") {
		h, _, ok = strings.Cut(v, "]:")
		h += "]"
	}
	if v == "" || ok && (h == "" || h == "0.0.0.0" || h == "[::]") {
		return 1
	}
	return 0
}

var d10Paths = []string{"/tmp/x", "/tmp", "/tmp/", "/var/tmp/x", "/usr/tmp/x/y", "/var/tmp", "/usr/tmp/", "/tmpfile", "/tmp2/x", "/home/tmp/x", "tmp/x", "./tmp/x", "/var/lib/x", "/usr/x", "/var/tmpx", "/etc/tmp", "x/tmp/y", "/Tmp/x", "/tmp.d/x", "/srv/tmp", "/opt/var/tmp/x", "", "/"}

func d10PathTmp(v string) int {
	for _, d := range []string{"/tmp", "/var/tmp", "/usr/tmp"} {
		if v == d || strings.HasPrefix(v, d+"/") {
			return 1
		}
	}
	return 0
}

var d10Dirs = []string{"/", "/tmp", "", ".", "./", "/srv", "a/", "/\"", "\\/", "/ ", "//x", "//"}

type d10Case struct {
	pre, body, rule string
	want            int
	file            bool // body is a declaration of the package
}

// d10Spots are places for an expression of any type (and a call of any number of results, CALL).
var d10Spots = []string{`use(X)`, `_ = X`, `var v = X; use(v)`, `if use(X) { return }`, `func() { use(X) }()`, `go use(X)`, `defer use(X)`, `for range xs { use(X) }`, `switch { case use(X): }`, `use([]any{X})`, `use(map[string]any{"k": X})`, `use(func() any { return X })`}

var d10Calls = []string{`use(X)`, `X`, `a, b := X; use(a, b)`, `if a, b := X; use(a, b) { return }`, `var a, b = X; use(a, b)`, `func() { X }()`, `go X`, `defer X`, `for { X }`, `select { default: X }`, `func() (any, any) { return X }()`}

func d10Build(unit string, thorough bool) []d10Case {
	var out []d10Case
	spots := func(list []string, k int) []string {
		if thorough || k < 3 {
			return list
		}
		return list[k%len(list) : k%len(list)+1]
	}
	num := func(v string) int { return slices.Index(d10Texts, v) }
	switch unit {
	case "listen":
		for vi, v := range d10Addrs {
			for k, w := range d10Write(v, num(v), true) {
				for j, c := range []string{`net.Listen("tcp", V)`, `net2.Listen("tcp4", V)`, `tls.Listen("tcp", V, nil)`, `tls2.Listen(p, V, cfg)`, `net.Dial("tcp", V)`, `d.Listen("tcp", V)`, `net.ListenPacket("udp", V)`, `net.Listen(V, "127.0.0.1:80")`} {
					want := d10AddrAll(v)
					if j > 3 {
						want = 0
					}
					for _, spot := range spots(d10Calls, k+vi*j) {
						out = append(out, d10Case{w.pre, w.local + strings.ReplaceAll(spot, "X", strings.ReplaceAll(c, "V", w.e)), "G102", want, false})
					}
				}
			}
			for _, w := range []string{strconv.Quote(v), "`" + v + "`"} { // held in variables
				for j, c := range []string{`net.Listen("tcp", v)`, `tls2.Listen("tcp", v, nil)`, `net.Dial("tcp", v)`} {
					want := d10AddrAll(v)
					if j > 1 {
						want = 0
					}
					for _, f := range []string{`v := W; C`, `var v = W; C`, `var v string = W; C`, `v, w := W, "0.0.0.0:1"; use(w); C`, `w, v := ":80", W; use(w); C`, `var w, v = "0.0.0.0:1", W; use(w); C`, `if v := W; yes { C }`, `v := W; func() { C }()`, `x := "0.0.0.0:80"; v := W; use(x); C`} {
						out = append(out, d10Case{"", strings.NewReplacer("W", w, "C", c).Replace(f), "G102", want, false})
					}
				}
			}
		}
		for _, c := range []string{`net.Listen("tcp", p)`, `net.Listen("tcp", f())`, `net.Listen("tcp", xs[0])`, `tls.Listen(p, p, cfg)`} {
			out = append(out, d10Case{"", c, "G102", 0, false})
		}
	case "rsa":
		for _, n := range []int{0, 1, 2, 511, 512, 768, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 8192, 65536} {
			want := 0
			if n < 2048 {
				want = 1
			}
			ws := []string{fmt.Sprint(n), fmt.Sprintf("0x%x", n), fmt.Sprintf("0X%X", n), fmt.Sprintf("0o%o", n), fmt.Sprintf("0%o", n), fmt.Sprintf("0b%b", n), fmt.Sprintf("(%d)", n), fmt.Sprintf("int(%d)", n), fmt.Sprintf("%d.0", n), fmt.Sprintf("%d+1-1", n), fmt.Sprintf("%d-1", n+1), fmt.Sprintf("%d/4", n*4), fmt.Sprintf("%d<<1>>1", n), fmt.Sprintf("int(uint16(%d)) * 1", n%65536), "cID", "lc", "k.Bits[0]", fmt.Sprintf("0x_%x", n)}
			for k, w := range ws {
				wt := want
				pre, local := "", ""
				switch {
				case w == "cID":
					pre = fmt.Sprintf("const cID = %d; ", n)
				case w == "lc":
					local = fmt.Sprintf("const lc = %d << 0; ", n)
				case strings.HasPrefix(w, "k."):
					wt = 0
				case strings.HasPrefix(w, "int(uint16"):
					if n%65536 < 2048 {
						wt = 1
					}
				}
				for j, c := range []string{`rsa.GenerateKey(rand.Reader, V)`, `rsa2.GenerateKey(nil, V)`, `d.GenerateKey(nil, V)`, `rsa.GenerateMultiPrimeKey(rand.Reader, 2, V)`} {
					if j > 1 {
						wt = 0
					}
					for _, spot := range spots(d10Calls, k) {
						out = append(out, d10Case{pre, local + strings.ReplaceAll(spot, "X", strings.ReplaceAll(c, "V", w)), "G403", wt, false})
					}
				}
			}
		}
		for _, c := range []string{`rsa.GenerateKey(rand.Reader, i)`, `rsa.GenerateKey(rand.Reader, len(xs))`, `rsa.GenerateKey(rand.Reader, i*2048)`} {
			out = append(out, d10Case{"", c, "G403", 0, false})
		}
	case "tmp":
		sinks := []string{`os.Create(V)`, `os.WriteFile(V, nil, 0o600)`, `ioutil.WriteFile(V, nil, 0o600)`, `os2.Create(V)`, `os.Open(V)`, `d.Create(V)`, `os.Remove(V)`}
		add := func(pre, local, e string, want, k int) {
			for j, c := range sinks {
				w := want
				if j > 3 {
					w = 0
				}
				for _, spot := range spots(d10Calls, k+j) {
					call := strings.ReplaceAll(c, "V", e)
					if strings.Contains(c, "WriteFile") || strings.Contains(c, "Remove") {
						spot = strings.NewReplacer("a, b", "a", "any, any", "any").Replace(spot)
					}
					out = append(out, d10Case{pre, local + strings.ReplaceAll(spot, "X", call), "G303", w, false})
				}
			}
		}
		for _, v := range d10Paths {
			for k, w := range d10Write(v, num(v), true) {
				want := d10PathTmp(v)
				add(w.pre, w.local, w.e, want, k)
				add(w.pre, w.local, `filepath.Join(`+w.e+`, p)`, want, k+1)
				add(w.pre, w.local, `path.Join(`+w.e+`, "x", p)`, want, k+3)
				add(w.pre, w.local, `fp2.Join(path.Join(`+w.e+`, "a"), "b")`, want, k+2)
				add(w.pre, w.local, `(filepath.Join((`+w.e+`)))`, want, k+4)
				add(w.pre, w.local, `filepath.Join(p, `+w.e+`)`, 0, k+4)
				add(w.pre, w.local, `path.Join("/srv", `+w.e+`)`, 0, k+3)
				add(w.pre, w.local, `p + `+w.e, 0, k+5)
				joined := want // the path goes on in the same element
				if want == 1 && strings.Count(v, "/") < 2 || v == "/var/tmp" || v == "/usr/tmp" {
					joined = -1
				}
				add(w.pre, w.local, w.e+` + p`, joined, k+5)
				add(w.pre, w.local, w.e+` + "/" + p + "/x"`, want, k+4)
				add(w.pre, w.local, `filepath.Join(`+w.e+` + "/" + p, "x")`, want, k+4)
				add(w.pre, w.local, `(`+w.e+` + "/q") + p`, want, k+4)
			}
		}
		for k, e := range []string{`os.TempDir()`, `os2.TempDir() + "/x"`, `filepath.Join(os.TempDir(), p)`, `path.Join(os.TempDir(), "x", "y")`, `os.TempDir() + p + "x"`, `filepath.Join(os.TempDir() + "/x", p)`, `(os.TempDir()) + "/x"`} {
			add("", "", e, 1, k)
		}
		for k, e := range []string{`p`, `f()`, `xs[0]`, `os.Getenv("TMP") + "/x"`, `filepath.Join(f(), "tmp")`, `filepath.Join()`, `path.Join(xs...)`} {
			add("", "", e, 0, k)
		}
	case "template":
		args := []struct {
			e    string
			want int
		}{{"p", 1}, {"f()", 1}, {"xs[0]", 1}, {`"a" + p`, 1}, {"p + \"b\"", 1}, {"gv", 1}, {"string(xs[0][0])", 1}, {"s.s.Addr", 1}, {"os.Getenv(\"X\")", 1}, {"(p)", 1}, {"k.V", 1}, {"*(&p)", 1}}
		for _, fn := range []string{"CSS", "HTML", "HTMLAttr", "JS", "JSStr", "Srcset", "URL"} {
			for _, pkg := range []string{"template", "ht"} {
				for k, a := range args {
					for _, spot := range spots(d10Spots, k) {
						out = append(out, d10Case{"", strings.ReplaceAll(spot, "X", pkg+"."+fn+"("+a.e+")"), "G203", a.want, false})
					}
				}
				for vi, v := range []string{"<b>x</b>", "", "/"} {
					for k, w := range d10Write(v, num(v), v == "" || v == "/") {
						for _, spot := range spots(d10Spots, k+vi) {
							out = append(out, d10Case{w.pre, w.local + strings.ReplaceAll(spot, "X", pkg+"."+fn+"("+w.e+")"), "G203", 0, false})
						}
					}
				}
			}
		}
		for _, e := range []string{"template.HTMLEscapeString(p)", "template.JSEscapeString(p)", "template.URLQueryEscaper(p)", "d.HTML(p)", "string(template.HTML(\"x\"))", "template.New(p)", "template.Must(nil, nil)"} {
			out = append(out, d10Case{"", "use(" + e + ")", "G203", 0, false})
		}
	case "dir", "dir config":
		for _, v := range d10Dirs {
			for k, w := range d10Write(v, num(v), true) {
				for j, c := range []string{`http.Dir(V)`, `hh.Dir(V)`, `http.FileServer(http.Dir(V))`, `http.StripPrefix("/", http.FileServer(hh.Dir(V)))`, `d.Dir(V)`, `http.NewFileTransport(nil)`, `filepath.Dir(V)`} {
					want := 0
					if unit == "dir" && v == "/" || unit != "dir" && (v == "/srv" || v == "/tmp") {
						want = 1
					}
					if v == "//" || v == `\/` {
						want = -1
					}
					if j > 3 {
						want = 0
					}
					for _, spot := range spots(d10Spots, k+j) {
						out = append(out, d10Case{w.pre, w.local + strings.ReplaceAll(spot, "X", strings.ReplaceAll(c, "V", w.e)), "G111", want, false})
					}
				}
			}
		}
		for _, e := range []string{"http.Dir(p)", "http.Dir(f())", "http.Dir(xs[0])", `http.Dir("/" + p)`, `http.Dir(p + "/")`} {
			out = append(out, d10Case{"", "use(" + e + ")", "G111", 0, false})
		}
	case "server":
		fields := []string{`Addr: "x"`, `Handler: hd`, `ReadTimeout: time.Second`, `ReadHeaderTimeout: 3`, `WriteTimeout: 4`, `IdleTimeout: time.Minute`, `MaxHeaderBytes: 1 << 10`}
		for mask := range 1 << len(fields) {
			var fs []string
			for k, x := range fields {
				if mask>>k&1 == 1 {
					fs = append(fs, x)
				}
			}
			if mask%3 == 1 {
				slices.Reverse(fs)
			}
			// turned: the fields from the k-th on first, with others the
			// rule has no interest in among them
			turned := func(k int) string {
				all := slices.Clone(fs)
				if k/len(fields)%2 == 1 {
					all = append(append(all, `TLSConfig: nil`, `ErrorLog: nil`, `ConnState: nil`), `BaseContext: nil`, `TLSNextProto: nil`)
				}
				if len(all) == 0 {
					return ""
				}
				k %= len(all)
				return strings.Join(append(slices.Clone(all[k:]), all[:k]...), ", ")
			}
			body := strings.Join(fs, ", ")
			want := 1
			if mask>>2&3 != 0 {
				want = 0
			}
			forms := []string{`http.Server{F}`, `&http.Server{F}`, `hh.Server{F}`, `&hh.Server{F}`, `[]http.Server{{F}}`, `[]*http.Server{{F}}`, `[1]hh.Server{{F}}`, `map[string]*http.Server{"k": {F}}`, `map[string]http.Server{"k": {F}}`, `holder{s: http.Server{F}}`, `&holder{p: &http.Server{F}, ReadTimeout: 1}`, `ali{F}`, `&ali{F}`, `[]*ali{{F}}`, `own{F}`, `&own{F}`, `[]own{{F}}`, `(&http.Server{F}).Addr`, `map[string]map[string]http.Server{"k": {"ReadTimeout": {F}}}`, `struct{ ReadTimeout any }{ReadTimeout: http.Server{F}}`}
			for k, form := range forms {
				w := want
				if strings.Contains(form, "own") {
					w = 0
				}
				for _, spot := range spots(d10Spots, k+mask) {
					out = append(out, d10Case{"", strings.ReplaceAll(spot, "X", strings.ReplaceAll(form, "F", turned(k+mask))), "G112", w, false})
				}
			}
			if thorough || mask%5 == 0 {
				out = append(out, d10Case{"", `(&http.Server{` + body + `}).ListenAndServe()`, "G112", want, false})
				body := strings.ReplaceAll(body, "hd", "nil")
				out = append(out, d10Case{`var gID = http.Server{` + body + "}; ", "use(gID)", "G112", want, false})
				out = append(out, d10Case{`var gID = []*hh.Server{{` + body + "}}; ", "use(gID)", "G112", want, false})
			}
		}
	}
	return out
}

func init() {
	core.Register(&core.Check{
		ID: "D10", Level: "model_checking",
		Rule:    "a state is a distinct generated call or literal (function, constant value, way of writing it, place); the real rules run on it within a generated package and must report it if and only if the value is on the wrong side",
		Bounds:  "27 listening addresses, 16 key sizes in 18 notations, 23 paths in 12 uses, 12 directories, 7 template types, all 128 subsets of 7 server fields, alone and with 5 others, turned so that each comes first in some form, in 20 forms, each with every way of writing the constant (up to 24: quoted, raw, escaped, named here, in another file and package, converted, split at several places) x 11 or 12 places (quick: one place for the later ways), under plain and changed import names, and functions of the same name elsewhere",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for _, k := range []string{"listen", "rsa", "tmp", "template", "dir", "dir config", "server"} {
				n := (len(d10Build(k, e.Thorough)) + 2999) / 3000
				for j := range n {
					u = append(u, fmt.Sprintf("%s/%d", k, j))
				}
			}
			return u
		},
		UnitTimeout: 600e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			kind, at, _ := strings.Cut(unit, "/")
			n, _ := strconv.Atoi(at)
			cases := d10Build(kind, e.Thorough)
			cases = cases[n*3000 : min(len(cases), n*3000+3000)]
			other := "package p\n\n"
			k := "package k\n\nvar V = \"v\"\n\nvar Bits = []int{1}\n\n"
			for j, v := range d10Texts {
				other += fmt.Sprintf("const B%d = %q\n", j, v)
				k += fmt.Sprintf("const K%d = %q\n", j, v)
			}
			l.AddStub("ex.test/k", k)
			const per = 1500
			for at := 0; at < len(cases); at += per {
				part := cases[at:min(at+per, len(cases))]
				var b strings.Builder
				b.WriteString(d10Head)
				first := 1 + strings.Count(d10Head, "\n")
				for j, c := range part {
					b.WriteString(strings.ReplaceAll(c.pre+"func hID("+d10Params+") { "+c.body+" }", "ID", fmt.Sprint(j)) + "\n")
				}
				p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()}, core.File{Name: "b.go", Src: other})
				o := core.Opts{Include: []string{"G102", "G111", "G112", "G203", "G303", "G403"}, NoSSA: true}
				if kind == "dir config" {
					o.Conf = d04Config(`{"G111": {"pattern": "http\\.Dir\\(\"/(srv|tmp)\"\\)"}}`)
				}
				is, _ := core.Scan(o, p)
				got := map[int]map[string]int{}
				for _, i := range is {
					n, _ := lineRange(i.Line)
					if got[n-first] == nil {
						got[n-first] = map[string]int{}
					}
					got[n-first][i.RuleID]++
				}
				r.Evals += len(part)
				r.Transitions += len(part)
				for j, c := range part {
					src := c.pre + "func hID() { " + c.body + " }"
					r.State(src)
					g := got[j][c.rule]
					if c.want == 1 && g != 1 && !(g > 1 && strings.Count(c.body, "Server{") > 1) || c.want == 0 && g > 0 {
						r.Violate(src, src, "%s: %s reported %d times, should be %v: %s", kind, c.rule, g, c.want == 1, src)
					}
					delete(got[j], c.rule)
					delete(got[j], "G303") // the other calls of the same functions
					if d10Foreign.MatchString(fmt.Sprint(got[j])) {
						r.Violate(src+" other", src, "%s: other rules report %v: %s", kind, got[j], src)
					}
				}
			}
			r.Sample(cases[len(cases)/2].body)
		},
	})
}

var d10Foreign = regexp.MustCompile(`G\d+`)
