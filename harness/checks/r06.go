package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/issue"

	"verifharness/core"
)

// R06: programs with one marked construct each are laid out in every way of a layout space and scanned from real
// files; file, lines, column and snippet of the finding are compared with positions counted in the text.

type r06Site struct {
	rule string
	// src is the file without its package clause: « and » enclose the construct, ¶ are places for line breaks.
	// Findings of data-flow analyzers are points inside the construct.
	src   string
	point bool
}

var r06Sites = []r06Site{
	{"G101", `func f() string { «password :=¶ "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"»; return password }`, false},
	{"G101", `var ¶«apiToken =¶ "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"»`, false},
	{"G101", `func f(password string) bool { return «password ==¶ "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"» }`, false},
	{"G101", "var «secret =¶ `f62e5bcda4fae4f8¶2370da0c6f20697b8f8447ef`»", false},
	{"G102", `import "net"; func f() (net.Listener, error) { return «net.¶Listen("tcp",¶ "0.0.0.0:2000")» }`, false},
	{"G103", `import "unsafe"; func f(x *byte) string { return «unsafe.¶String(¶x, 3)» }`, false},
	{"G104", `func g(...int) error { return nil }; func f() { «g(¶1,¶ 2)» }`, false},
	{"G106", `import "golang.org/x/crypto/ssh"; func f() any { return «ssh.¶InsecureIgnoreHostKey(¶)» }`, false},
	{"G107", `import "net/http"; func f(u string) (any, error) { return «http.Get(¶u,¶)» }`, false},
	{"G108", `import (¶«_ "net/http/pprof"»¶)`, false},
	{"G109", `import "strconv"; func f(s string) int32 { v, err := strconv.Atoi(s); if err != nil { return 0 }; return «int32(¶v,¶)» }`, false},
	{"G111", `import "net/http"; func f() { http.Handle("/", http.FileServer(«http.Dir(¶"/",¶)»)) }`, false},
	{"G112", `import "net/http"; func f() *http.Server { return &«http.Server{¶Addr: ":80",¶}» }`, false},
	{"G114", `import "net/http"; func f() error { return «http.ListenAndServe(¶":80", nil,¶)» }`, false},
	{"G115", `func f(x int64) int8 { return «int8(¶x,¶)» }`, true},
	{"G203", `import "html/template"; func f(s string) any { return «template.HTML(¶s,¶)» }`, false},
	{"G204", `import ("os"; "os/exec"); func f() any { return «exec.Command(¶os.Args[1],¶ "x")» }`, false},
	{"G301", `import "os"; func f() error { return «os.Mkdir(¶"x",¶ 0777)» }`, false},
	{"G302", `import "os"; func f() error { return «os.Chmod(¶"x",¶ 0777)» }`, false},
	{"G304", `import "os"; func f(p string) ([]byte, error) { return «os.ReadFile(¶p,¶)» }`, false},
	{"G306", `import "os"; func f() error { return «os.WriteFile(¶"x", nil,¶ 0644)» }`, false},
	{"G307", `import "os"; func f() (*os.File, error) { return «os.Create(¶"x",¶)» }`, false},
	{"G401", `import "crypto/md5"; func f() any { return «md5.¶New(¶)» }`, false},
	{"G402", `import "crypto/tls"; func f() any { return &tls.Config{MinVersion: tls.VersionTLS13, InsecureSkipVerify: ¶«true»} }`, false},
	{"G402", `import "crypto/tls"; func f() any { return &«tls.Config{¶MinVersion: tls.VersionTLS10,¶}» }`, false},
	{"G403", `import ("crypto/rand"; "crypto/rsa"); func f() (any, error) { return «rsa.GenerateKey(¶rand.Reader,¶ 1024)» }`, false},
	{"G404", `import "math/rand"; func f() int { return «rand.¶Int(¶)» }`, false},
	{"G405", `import "crypto/des"; func f(k []byte) (any, error) { return «des.NewCipher(¶k,¶)» }`, false},
	{"G407", `import "crypto/cipher"; func f(a cipher.AEAD, p []byte) []byte { return «a.Seal(¶nil, []byte("ILoveMyNonce"),¶ p, nil)» }`, true},
	{"G501", `import (¶«x "crypto/md5"»¶); const f = x.Size`, false},
	{"G601", `func f(xs []int) []*int { var out []*int; for _, x := range xs { out = append(out, «&¶x») }; return out }`, false},
	{"G110", `import ("compress/zlib"; "io"; "os"); func f(i io.Reader) error { r, err := zlib.NewReader(i); if err != nil { return err }; _, err = «io.Copy(¶os.Stdout, r,¶)»; return err }`, false},
	{"G201", `import ("database/sql"; "fmt"); func f(db *sql.DB, s string) (*sql.Rows, error) { q := «fmt.Sprintf(¶"SELECT * FROM foo where name = '%s'",¶ s)»; r, err := db.Query(q); return r, err }`, false},
	{"G202", `import ("database/sql"; "os"); func f(db *sql.DB) (*sql.Rows, error) { r, err := db.Query(«"SELECT * FROM foo WHERE name = " +¶ os.Args[1]»); return r, err }`, false},
	{"G303", `import "os"; func f() (*os.File, error) { return «os.Create(¶"/tmp/demo2",¶)» }`, false},
	{"G305", `import ("archive/zip"; "path/filepath"); func f(z *zip.File, t string) string { return «filepath.Join(¶t,¶ z.Name)» }`, false},
	{"G406", `import "golang.org/x/crypto/md4"; func f() any { return «md4.¶New(¶)» }`, false},
	{"G402", `import "crypto/tls"; func f() { var c tls.Config; c.InsecureSkipVerify =¶ «true» }`, false},
	{"G602", `func f() byte { s := make([]byte, 2); return «s[¶3]» }`, true},
}

var r06Heads = []string{
	"package p; ",
	"package p\n",
	"package p\n\n// c\n",
	"// é世界🎉\n/* x\n\ty */package p; /* 世 */ ",
	"package p\n//line other.go:100\n",
	"package p\n\n//line /x/y/z.go:7:3\n\n",
	"//line expr.y:1\npackage p\n/* a\n\nb */\n\t\t",
	"package p; /*line gen.y:55:9*/ ",
	"package p\n// 4\n// 5\n// 6\n// 7\n// 8\n// 9\n",
	"package p // @LONG@\n",
	"package p\n/* @LONG@ */",
	"\ufeffpackage p\n",
	"package p\n" + strings.Repeat("\n", 97),
	"package p\n" + strings.Repeat("// a line of text which makes the file longer\n", 1996),
}

var r06Tails = []string{"", "\n", "\n\n\n", "; var z = 1\n// end", "\n// @LONG@\nvar m = 2\n", "\n//line a.go:1\nvar z = 1"}

var r06Breaks = []string{" ", "\n", "\n\t", "\n\n  ", "\n\n\n\n\n\n\n\n\n\n\n"}

type r06Want struct {
	start, end, col int
	lo, hi          int // byte offsets of the construct
	text            string
}

// r06Render builds the text of a layout and the position of its construct.
func r06Render(s r06Site, head, tail int, br []string, eol string) r06Want {
	t := s.src
	for _, b := range br {
		t = strings.Replace(t, "¶", b, 1)
	}
	t = strings.ReplaceAll(t, "¶", "")
	t = r06Heads[head] + t + r06Tails[tail]
	t = strings.ReplaceAll(t, "@LONG@", strings.Repeat("0123456789abcdef", 4500))
	t = strings.ReplaceAll(t, "\n", eol)
	a := strings.Index(t, "«")
	t = strings.Replace(t, "«", "", 1)
	b := strings.Index(t, "»")
	t = strings.Replace(t, "»", "", 1)
	line, _ := r06LineCol(t, a)
	end, _ := r06LineCol(t, b)
	_, col := r06LineCol(t, a)
	return r06Want{line, end, col, a, b, t}
}

func r06LineCol(t string, off int) (int, int) {
	return strings.Count(t[:off], "\n") + 1, off - strings.LastIndex(t[:off], "\n")
}

// r06Snippet is the code of lines a to b with one line of context on each side.
func r06Snippet(t string, a, b int) string {
	lines := strings.Split(t, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	out := ""
	for n := max(1, a-1); n <= min(len(lines), b+1); n++ {
		out += fmt.Sprintf("%d: %s\n", n, strings.TrimSuffix(lines[n-1], "\r"))
	}
	return out
}

// r06Judge compares the findings of a file with the construct of the layout.
func r06Judge(s r06Site, w r06Want, file string, is []*issue.Issue) string {
	n := 0
	for _, i := range is {
		if i.RuleID != s.rule {
			continue
		}
		n++
		if i.File != file {
			return fmt.Sprintf("file %q instead of %q", i.File, file)
		}
		st, en := lineRange(i.Line)
		col, _ := strconv.Atoi(i.Col)
		if s.point {
			ok := false
			for o := w.lo; o < w.hi; o++ {
				l, c := r06LineCol(w.text, o)
				ok = ok || l == st && c == col
			}
			if !ok || st != en {
				return fmt.Sprintf("position %s:%s lies outside the construct at %d:%d", i.Line, i.Col, w.start, w.col)
			}
		} else if st != w.start || en != w.end || col != w.col {
			return fmt.Sprintf("position %s column %s instead of %d-%d column %d", i.Line, i.Col, w.start, w.end, w.col)
		}
		if want := r06Snippet(w.text, st, en); i.Code != want {
			return fmt.Sprintf("snippet %.300q instead of %.300q", i.Code, want)
		}
	}
	if n != 1 {
		return fmt.Sprintf("%d findings", n)
	}
	return ""
}

type r06Layout struct {
	head, tail int
	br         []string
	crlf       bool
}

func r06Layouts(e *core.Env, s r06Site) []r06Layout {
	n := strings.Count(s.src, "¶")
	var brs [][]string
	for m := 0; m < 1<<n; m++ {
		var b []string
		for k := 0; k < n; k++ {
			x := ""
			if m>>k&1 == 1 {
				x = r06Breaks[1+(k+m)%4]
			}
			b = append(b, x)
		}
		brs = append(brs, b)
	}
	if e.Thorough {
		brs = nil
		var rec func(b []string)
		rec = func(b []string) {
			if len(b) == n {
				brs = append(brs, append([]string{}, b...))
				return
			}
			for _, x := range r06Breaks[:4] {
				rec(append(b, x))
			}
		}
		rec(nil)
	}
	var out []r06Layout
	for h := range r06Heads {
		for t := range r06Tails {
			for bi, b := range brs {
				if !e.Thorough && h > 0 && t > 1 && bi != len(brs)-1 && bi != 0 {
					continue
				}
				for _, crlf := range []bool{false, true} {
					if crlf && strings.Contains(s.src, "`") {
						continue // the syntax tree of a raw string with carriage returns does not know its end
					}
					out = append(out, r06Layout{h, t, b, crlf})
				}
			}
		}
	}
	return out
}

func r06Run(e *core.Env, l *core.Loader, n int, r *core.Rec) {
	s := r06Sites[n]
	dir := filepath.Join(e.Scratch, fmt.Sprintf("r06-%d-%d", n, os.Getpid()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		core.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "x.go")
	other := core.File{Name: filepath.Join(dir, "a.go"), Src: "package p\n\n// other\nfunc other() {}\n"}
	for _, y := range r06Layouts(e, s) {
		eol := "\n"
		if y.crlf {
			eol = "\r\n"
		}
		w := r06Render(s, y.head, y.tail, y.br, eol)
		id := fmt.Sprintf("%s#%d head %d tail %d breaks %q crlf %v", s.rule, n, y.head, y.tail, y.br, y.crlf)
		r.Mark(id)
		if err := os.WriteFile(file, []byte(w.text), 0o600); err != nil {
			core.Infra("%v", err)
		}
		p, err := l.Load("r06/p", other, core.File{Name: file, Src: w.text})
		if err != nil {
			core.Infra("layout %s: %v\n%.300s", id, err, w.text)
		}
		is, _ := core.Scan(core.Opts{Conf: probeConfig(), Include: []string{s.rule}, NoSSA: !s.point}, p)
		r.Evals++
		r.Transitions++
		r.State(fmt.Sprint(n, core.IssueKeys(is), len(w.text)))
		if bad := r06Judge(s, w, file, is); bad != "" {
			show := strings.ReplaceAll(w.text, strings.Repeat("0123456789abcdef", 4500), "@LONG@")
			r.Violate("layout "+id, id, "%s: %s\n%q", id, bad, show)
		}
	}
	r.Sample(fmt.Sprintf("%s: %s", s.rule, s.src))
}

// r06CLI scans all sites in one module with the built command.
func r06CLI(e *core.Env, k int, r *core.Rec) {
	y := []r06Layout{{0, 0, nil, false}, {2, 3, []string{"\n", "\n\t", "\n"}, false}, {5, 5, []string{"\n", "", "\n"}, false}, {6, 1, []string{"\n\t", "\n", ""}, true}, {9, 4, []string{"", "\n", "\n"}, false}, {3, 0, []string{"\n", "\n", "\n"}, true}}[k]
	eol := "\n"
	if y.crlf {
		eol = "\r\n"
	}
	files := map[string]string{"go.mod": "module m\n\ngo 1.21\n", "conf.json": `{"G307": "0o600"}`}
	want := map[string]r06Want{}
	for n, s := range r06Sites {
		if strings.Contains(s.src, "golang.org/") || y.crlf && strings.Contains(s.src, "`") {
			continue
		}
		w := r06Render(s, y.head, y.tail, y.br, eol)
		name := fmt.Sprintf("p%02d/x.go", n)
		files[name] = w.text
		want[name] = w
	}
	dir := writeTree(e, fmt.Sprintf("r06cli%d", k), files)
	r.Mark(fmt.Sprintf("command, layout %d", k))
	res := runGosec(e, dir, []string{"GOSECGOVERSION=go1.21"}, "-fmt", "json", "-quiet", "-conf", "conf.json", "./...")
	var rep struct {
		Issues []struct {
			RuleID                   string `json:"rule_id"`
			File, Code, Line, Column string
		}
		Errors map[string]any `json:"Golang errors"`
	}
	if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil || len(rep.Errors) > 0 {
		r.Violate(fmt.Sprintf("command layout %d", k), "", "no clean report: %v %v %.500s", err, rep.Errors, res.stderr)
		return
	}
	for n, s := range r06Sites {
		name := fmt.Sprintf("p%02d/x.go", n)
		w, ok := want[name]
		if !ok {
			continue
		}
		r.Evals++
		r.Transitions++
		var is []*issue.Issue
		for _, i := range rep.Issues {
			if i.File == filepath.Join(dir, name) {
				is = append(is, &issue.Issue{RuleID: i.RuleID, File: i.File, Code: i.Code, Line: i.Line, Col: i.Column})
			}
		}
		if bad := r06Judge(s, w, filepath.Join(dir, name), is); bad != "" {
			r.Violate(fmt.Sprintf("command layout %d %s#%d", k, s.rule, n), s.src, "command, layout %d, %s: %s", k, s.src, bad)
		}
	}
	var fs []string
	for _, i := range rep.Issues {
		fs = append(fs, i.RuleID+" "+i.Line)
	}
	sort.Strings(fs)
	r.State(fmt.Sprint(k, fs))
}

func init() {
	core.Register(&core.Check{
		ID: "R06", Level: "model_checking",
		Rule:   "a state is a distinct set of findings of a laid out program; every site is scanned in every layout from a real file, and file, lines, column and snippet of its finding are compared with positions counted in the text",
		Bounds: fmt.Sprintf("%d sites of %d rules; %d heads (first line, beyond line 100 and 2000, wide characters, line directives, long lines, byte order mark) x %d tails x all subsets of line breaks inside the construct (thorough: 4 kinds of break) x 2 line endings; 6 layouts of all sites through the command. Raw strings with carriage returns are left out: the syntax tree has no end for them", len(r06Sites), 30, len(r06Heads), len(r06Tails)),
		Prepare: func(e *core.Env) error {
			if err := core.PrepareStd(e); err != nil {
				return err
			}
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for i := range r06Sites {
				u = append(u, fmt.Sprint(i))
			}
			for i := 0; i < 6; i++ {
				u = append(u, fmt.Sprintf("cli %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			os.Setenv("GOSECGOVERSION", "go1.21")
			if k, ok := strings.CutPrefix(unit, "cli "); ok {
				n, _ := strconv.Atoi(k)
				r06CLI(e, n, r)
				return
			}
			n, _ := strconv.Atoi(unit)
			r06Run(e, getLoader(e), n, r)
		},
	})
}
