package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"

	"verifharness/core"
)

// C02: a service on the loopback network that answers, fails and breaks off by a script stands in for the AI service.
// Every list of findings over an alphabet of problems runs with every script, through the exported entry point and through
// the command.

var c02Problems = []string{
	"Use of weak cryptographic primitive",
	"Use of weak cryptographic primitive (md5)",
	"use of weak cryptographic primitive",
	"Errors \"unhandled\"\n\t\\ 100%s %!d(MISSING) <b>é\u2028</b>",
	"x",
}

// c02All adds problems for long lists: common beginnings and endings, long texts.
var c02All = func() []string {
	out := append([]string(nil), c02Problems...)
	for n := 0; n < 120; n++ {
		p := fmt.Sprintf("[problem %d]", n)
		switch n % 4 {
		case 1:
			p = strings.Repeat("a common beginning ", 15) + p
		case 2:
			p += strings.Repeat(" a common ending", 20)
		case 3:
			p = p + strings.Repeat(fmt.Sprintf(" long text %d", n), 30*n)
		}
		out = append(out, p)
	}
	return out
}()

// c02Kind is an answer of the service to one problem.
type c02Kind struct {
	name string
	fix  func(n int) string // what it means for the nth problem, "" is a failure
	body func(n int) string // reply
	code int
	raw  string // hang up, truncated
}

func c02Text(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func c02Cand(parts ...string) string {
	return `{"candidates":[{"content":{"role":"model","parts":[` + strings.Join(parts, ",") + `]},"finishReason":1}]}`
}

func c02Part(s string) string { return `{"text":` + c02Text(s) + `}` }

func c02Kinds() []c02Kind {
	no := func(int) string { return "" }
	text := func(f string) func(int) string {
		return func(n int) string { return strings.ReplaceAll(f, "N", strconv.Itoa(n)) }
	}
	lit := func(s string) func(int) string { return func(int) string { return s } }
	hard := "answer N: `%s %d%%` <script>\n\n```go\nx := \"y\"\n```\n\té\u2028 'q'"
	return []c02Kind{
		{"answer", text("answer N"), func(n int) string { return c02Cand(c02Part(fmt.Sprintf("answer %d", n))) }, 200, ""},
		{"parts", text("first N, second"), func(n int) string {
			return c02Cand(c02Part(fmt.Sprintf("first %d", n)), c02Part(", second"))
		}, 200, ""},
		{"hard text", text(hard), func(n int) string { return c02Cand(c02Part(text(hard)(n))) }, 200, ""},
		{"two candidates", text("best N"), func(n int) string {
			return `{"candidates":[{"content":{"parts":[` + c02Part(fmt.Sprintf("best %d", n)) + `]}},{"index":1,"content":{"parts":[` + c02Part("other") + `]}}]}`
		}, 200, ""},
		{"same text", lit("the same for all"), lit(c02Cand(c02Part("the same for all"))), 200, ""},
		{"empty text", no, lit(c02Cand(c02Part(""))), 200, ""},
		{"no candidates", no, lit(`{"candidates":[]}`), 200, ""},
		{"no content", no, lit(`{"candidates":[{"finishReason":1}]}`), 200, ""},
		{"null content", no, lit(`{"candidates":[{"content":null,"finishReason":2}]}`), 200, ""},
		{"no parts", no, lit(c02Cand()), 200, ""},
		{"list", no, lit(`[]`), 200, ""},
		{"empty message", no, lit(`{}`), 200, ""},
		{"empty body", no, lit(``), 200, ""},
		{"other JSON", no, lit(`{"candidates": 7}`), 200, ""},
		{"not JSON", no, lit(`<html>`), 200, ""},
		{"bad text", no, lit(`{"candidates":[{"content":{"parts":[{"text":7}]}}]}`), 200, ""},
		{"blocked prompt", no, lit(`{"promptFeedback":{"blockReason":1}}`), 200, ""},
		{"blocked answer", no, lit(`{"candidates":[{"content":{"parts":[` + c02Part("partly") + `]},"finishReason":3}]}`), 200, ""},
		{"no text", no, lit(c02Cand(`{"functionCall":{"name":"f","args":{}}}`)), 200, ""},
		{"bad request", no, lit(`{"error":{"code":400,"message":"answer 0","status":"INVALID_ARGUMENT"}}`), 400, ""},
		{"bad key", no, lit(`{"error":{"code":403,"message":"key","status":"PERMISSION_DENIED"}}`), 403, ""},
		{"not found", no, lit(``), 404, ""},
		{"quota", no, lit(`{"error":{"code":429,"message":"quota"}}`), 429, ""},
		{"server error", no, lit(`oops`), 500, ""},
		{"hang up", no, lit(``), 0, "close"},
		{"break off", no, func(n int) string { return c02Cand(c02Part(fmt.Sprintf("answer %d", n))) }, 0, "cut"},
		{"break off within", no, func(n int) string { return c02Cand(c02Part(fmt.Sprintf("answer %d", n)))[:40] }, 0, "cut"},
	}
}

// c02Service answers by a script.
type c02Service struct {
	mu     sync.Mutex
	srv    *httptest.Server
	script map[string]c02Kind // by problem
	num    map[string]int
	asked  map[string]int
	odd    []string
	hang   chan bool
}

func c02Start() *c02Service {
	s := &c02Service{}
	s.srv = httptest.NewServer(http.HandlerFunc(s.serve))
	return s
}

func (s *c02Service) set(script map[string]c02Kind, num map[string]int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.script, s.num, s.asked, s.odd = script, num, map[string]int{}, nil
}

func (s *c02Service) serve(w http.ResponseWriter, req *http.Request) {
	b, _ := io.ReadAll(req.Body)
	var q struct {
		Contents []struct{ Parts []struct{ Text string } }
	}
	json.Unmarshal(b, &q)
	prompt := ""
	for _, c := range q.Contents {
		for _, p := range c.Parts {
			prompt += p.Text
		}
	}
	s.mu.Lock()
	problem := ""
	for p := range s.script {
		if (strings.Contains(prompt, p) || strings.Contains(prompt, strconv.Quote(p))) && len(p) > len(problem) {
			problem = p
		}
	}
	k, ok := s.script[problem]
	n := s.num[problem]
	if !ok {
		s.odd = append(s.odd, fmt.Sprintf("asked about none of the problems: %q", prompt))
	}
	s.asked[problem]++
	s.mu.Unlock()
	if !ok {
		http.Error(w, "no such problem", 400)
		return
	}
	switch k.raw {
	case "hang":
		<-s.hang
		return
	case "close", "cut":
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		if k.raw == "cut" {
			body := k.body(n)
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(body)+9, body)
		}
		if t, ok := c.(*net.TCPConn); ok && k.raw == "close" {
			t.SetLinger(0)
		}
		c.Close()
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(k.code)
	body := k.body(n)
	if strings.Contains(req.URL.Path, ":stream") { // whichever call is used
		body = "[" + body + "]"
	}
	io.WriteString(w, body)
}

// c02Lists are the lists of findings up to a length: problem numbers, in which a new problem has the next number.
func c02Lists(max int) [][]int {
	out := [][]int{{}}
	for at := 0; at < len(out); at++ {
		l := out[at]
		if len(l) == max {
			continue
		}
		top := 0
		for _, x := range l {
			top = maxInt(top, x+1)
		}
		for x := 0; x <= top && x < len(c02Problems); x++ {
			out = append(out, append(append([]int(nil), l...), x))
		}
	}
	return out
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func c02Issue(k, problem int) *issue.Issue {
	return &issue.Issue{Severity: issue.Score(k % 3), Confidence: issue.Score(2 - k%3), What: c02All[problem], RuleID: fmt.Sprintf("G%d", 101+k), File: fmt.Sprintf("/src/%d.go", k%2), Code: "code\n", Line: strconv.Itoa(10 * k), Col: "1",
		NoSec: k == 2, Suppressions: []issue.SuppressionInfo{{Kind: "k", Justification: "j"}}[:k%2]}
}

// c02Case runs one list with one script: the kinds of the problems in the order in which they first occur.
func c02Case(s *c02Service, list, order []int, kinds []int, r *core.Rec) {
	all := c02Kinds()
	script, num := map[string]c02Kind{}, map[string]int{}
	for _, p := range c02Problems {
		script[p], num[p] = all[len(all)-1], 9
	}
	for i, p := range order {
		num[c02All[p]] = p
		if i < len(kinds) {
			script[c02All[p]] = all[kinds[i]]
		} else {
			script[c02All[p]] = all[0] // after a failure the service may be asked again or not
		}
	}
	s.set(script, num)
	var issues, before []*issue.Issue
	for k, p := range list {
		issues = append(issues, c02Issue(k, p))
		before = append(before, c02Issue(k, p))
	}
	var names []string
	for _, k := range kinds {
		names = append(names, all[k].name)
	}
	key := fmt.Sprintf("findings with problems %v, answers %v", list, names)
	if len(list) > 12 {
		key = fmt.Sprintf("%d findings with %d problems %v..., %d answered, last %s", len(list), len(order), list[:12], len(kinds), names[len(names)-1])
	}
	r.State(key)
	r.Evals++
	r.Transitions += len(list)
	var err error
	if p := core.Protect(func() { err = autofix.GenerateSolution("gemini", "key", s.srv.URL, issues) }); p != nil {
		r.Violate(key, key, "crashes: %.300v", p)
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	failed := false
	for _, p := range order {
		failed = failed || script[c02All[p]].fix(0) == ""
	}
	if failed != (err != nil) {
		r.Violate(key, key, "a failure of the service is %v, error %v", failed, err)
	}
	broken := false
	for k, i := range issues {
		want := script[i.What].fix(num[i.What])
		broken = broken || want == ""
		if i.Autofix != want && (i.Autofix != "" || !broken) {
			r.Violate(key, key, "finding %d: fix %q, the service answered %q", k, i.Autofix, want)
		}
		c := *i
		c.Autofix = ""
		if !reflect.DeepEqual(&c, before[k]) {
			r.Violate(key, key, "finding %d changed: %+v, was %+v", k, c, before[k])
		}
	}
	for p, n := range s.asked {
		if n > 1 {
			r.Violate(key, key, "asked %d times about %q", n, p)
		}
		asked := false
		for _, x := range list {
			asked = asked || c02All[x] == p
		}
		if !asked {
			r.Violate(key, key, "asked about %q, which no finding has", p)
		}
	}
	for _, o := range s.odd {
		r.Violate(key, key, "%s", o)
	}
}

// c02Scripts: every answer for each problem until one fails.
func c02Scripts(n int, all []c02Kind, f func([]int)) {
	var walk func(pre []int)
	walk = func(pre []int) {
		if len(pre) == n {
			f(pre)
			return
		}
		for k := range all {
			next := append(append([]int(nil), pre...), k)
			if all[k].fix(0) == "" {
				f(next)
			} else {
				walk(next)
			}
		}
	}
	walk(nil)
}

// c02Many runs long lists: each number of problems, each of them once, twice in order or mirrored, or mixed with one
// problem of all; all answered, or one at each of several places failing.
func c02Many(k int, r *core.Rec) {
	s := c02Start()
	defer s.srv.Close()
	idx := map[string]int{}
	for i, x := range c02Kinds() {
		idx[x.name] = i
	}
	sizes := []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 120}
	for at := k; at < len(sizes); at += 8 {
		n := sizes[at]
		var order, twice, mirror, mixed, same []int
		for i := 0; i < n; i++ {
			order = append(order, len(c02Problems)+i)
		}
		twice = append(append(twice, order...), order...)
		mirror = append(mirror, order...)
		for i := n - 1; i >= 0; i-- {
			mirror = append(mirror, order[i])
		}
		for _, p := range order {
			mixed = append(mixed, p, order[0])
			same = append(same, order[0])
		}
		for _, c := range []struct{ list, order []int }{{order, order}, {twice, order}, {mirror, order}, {mixed, order}, {same, order[:1]}} {
			kinds := make([]int, len(c.order))
			for _, good := range []string{"answer", "same text", "hard text"} {
				for i := range kinds {
					kinds[i] = idx[good]
				}
				c02Case(s, c.list, c.order, kinds, r)
			}
			for _, bad := range []string{"empty text", "bad request", "hang up"} {
				if _, ok := idx[bad]; !ok {
					continue
				}
				for _, pos := range []int{0, 1, 4, 9, len(c.order) / 2, len(c.order) - 1} {
					if pos >= len(c.order) {
						continue
					}
					ks := make([]int, pos+1)
					ks[pos] = idx[bad]
					c02Case(s, c.list, c.order, ks, r)
				}
			}
		}
		r.Sample(fmt.Sprintf("%d problems", n))
	}
}

const c02Src = `package m

import (
	"crypto/md5"
	"crypto/des"
	"os"
)

func f() {
	_ = md5.New()
	_, _ = des.NewCipher(nil)
	os.Remove("x")
	_ = md5.New() // #nosec
	os.Remove("y")
}
`

func c02Command(e *core.Env, k int, r *core.Rec) {
	s := c02Start()
	defer s.srv.Close()
	all := c02Kinds()
	dir, err := os.MkdirTemp(e.Scratch, "c02")
	if err != nil {
		core.Infra("%v", err)
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module ex.test/m\n\ngo 1.23\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "a.go"), []byte(c02Src), 0o644)
	type rep struct{ Issues []map[string]any }
	for _, extra := range [][]string{nil, {"-show-ignored", "-track-suppressions"}, {"-exclude=G401,G405"}, {"-severity=medium"}, {"-include=G304"}} {
		args := append([]string{"-quiet", "-fmt=json"}, extra...)
		s.set(nil, nil)
		plain := runGosec(e, dir, nil, append(args, "./...")...)
		var base rep
		if err := json.Unmarshal([]byte(plain.stdout), &base); err != nil && plain.stdout != "" {
			core.Broken("the command prints no report: %v %s", err, plain.stderr)
		}
		problems := map[string]bool{}
		for _, i := range base.Issues {
			problems[i["details"].(string)] = true
		}
		var names []string
		for p := range problems {
			names = append(names, p)
		}
		sort.Strings(names)
		for bad := -1; bad < len(names); bad++ { // the problem with the other kind of answer
			script, num := map[string]c02Kind{}, map[string]int{}
			for n, p := range names {
				script[p], num[p] = all[0], n
				if n == bad {
					script[p] = all[k]
				}
			}
			for _, how := range []string{"flags", "env", "no key", "no provider"} {
				s.set(script, num)
				var env []string
				a := append(append([]string(nil), args...), "-ai-endpoint="+s.srv.URL)
				switch how {
				case "flags":
					a = append(a, "-ai-api-provider=gemini", "-ai-api-key=k")
				case "env":
					a = append(a, "-ai-api-provider=gemini")
					env = []string{"GOSEC_AI_API_KEY=k"}
				case "no key":
					a = append(a, "-ai-api-provider=gemini")
				case "no provider":
					a = append(a, "-ai-api-key=k")
				}
				if strings.HasPrefix(how, "no ") && bad >= 0 {
					continue
				}
				got := runGosec(e, dir, env, append(a, "./...")...)
				r.Evals++
				r.Transitions++
				key := fmt.Sprintf("command %v, %s, problem %d answered %s", extra, how, bad, all[k].name)
				r.State(key)
				var g rep
				if err := json.Unmarshal([]byte(got.stdout), &g); err != nil && got.stdout != "" {
					r.Violate(key, key, "no report: %v, %.200s", err, got.stderr)
					continue
				}
				if got.code != plain.code || len(g.Issues) != len(base.Issues) {
					r.Violate(key, key, "exit %d, %d findings, without fixes %d, %d; %.200s", got.code, len(g.Issues), plain.code, len(base.Issues), got.stderr)
					continue
				}
				broken := false
				for n, i := range g.Issues {
					fix, _ := i["autofix"].(string)
					delete(i, "autofix")
					if !reflect.DeepEqual(i, base.Issues[n]) {
						r.Violate(key, key, "finding %v changed to %v", base.Issues[n], i)
					}
					p := i["details"].(string)
					want := script[p].fix(num[p])
					broken = broken || want == ""
					if strings.HasPrefix(how, "no ") {
						want = ""
					}
					if fix != want && (fix != "" || !broken) {
						r.Violate(key, key, "finding %d: fix %q, the service answered %q", n, fix, want)
					}
				}
				s.mu.Lock()
				for p, n := range s.asked {
					if n > 1 || strings.HasPrefix(how, "no ") {
						r.Violate(key, key, "asked %d times about %q", n, p)
					}
				}
				for _, o := range s.odd {
					r.Violate(key, key, "%s", o)
				}
				s.mu.Unlock()
			}
		}
	}
	// in each format the answers are at their findings
	if k == 0 {
		script, num := map[string]c02Kind{}, map[string]int{}
		s.set(nil, nil)
		plain := runGosec(e, dir, nil, "-quiet", "-fmt=json", "./...")
		var base rep
		json.Unmarshal([]byte(plain.stdout), &base)
		var order []string
		for _, i := range base.Issues {
			p := i["details"].(string)
			if _, ok := num[p]; !ok {
				num[p] = len(num)
				script[p] = all[0]
			}
			order = append(order, fmt.Sprintf("answer %d", num[p]))
		}
		for _, f := range []string{"text", "sarif", "junit-xml", "yaml", "json"} {
			s.set(script, num)
			got := runGosec(e, dir, []string{"NO_COLOR=1"}, "-quiet", "-color=false", "-fmt="+f, "-ai-api-provider=gemini", "-ai-api-key=k", "-ai-endpoint="+s.srv.URL, "./...")
			r.Evals++
			r.State("format " + f)
			var at []string
			for t := got.stdout; ; {
				n := strings.Index(t, "answer ")
				if n < 0 {
					break
				}
				at = append(at, t[n:n+8])
				t = t[n+8:]
			}
			want := order
			if f == "junit-xml" { // grouped by problem
				at, want = c02Sorted(at), c02Sorted(order)
			}
			if strings.Join(at, ",") != strings.Join(want, ",") {
				r.Violate("format "+f, f, "the answers are %v, should be %v", at, want)
			}
		}
	}
}

func c02Sorted(in []string) []string {
	out := append([]string(nil), in...)
	sort.Strings(out)
	return out
}

func init() {
	core.Register(&core.Check{
		ID: "C02", Level: "model_checking",
		Rule:    "a state is a list of findings with a script of the service: an answer, a failure or a broken answer for each problem up to the first failure; the real client runs it against a service on the loopback network",
		Bounds:  "all lists of up to 4 (thorough: 5) findings over 5 similar problems up to renaming x 27 kinds of answers and failures for each problem until one fails; the command with 4 sets of findings, each problem with each kind; lists of up to 240 findings with up to 120 problems of up to 40 kB, answered or failing at several places; keys given in 2 ways or not at all, 5 formats",
		Prepare: buildGosec,
		Units: func(e *core.Env) []string {
			n := 4
			if e.Thorough {
				n = 5
			}
			var u []string
			for k := range c02Lists(n) {
				u = append(u, fmt.Sprintf("list %d", k))
			}
			for k := range c02Kinds() {
				u = append(u, fmt.Sprintf("command %d", k))
			}
			for k := 0; k < 8; k++ {
				u = append(u, fmt.Sprintf("many %d", k))
			}
			return append(u, "other 0")
		},
		UnitTimeout: 900e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			switch kind {
			case "list":
				n := 4
				if e.Thorough {
					n = 5
				}
				list := c02Lists(n)[k]
				var order []int
				seen := map[int]bool{}
				for _, x := range list {
					if !seen[x] {
						seen[x] = true
						order = append(order, x)
					}
				}
				s := c02Start()
				defer s.srv.Close()
				all := c02Kinds()
				if len(order) > 3 { // fewer kinds of answers
					all = append(append([]c02Kind(nil), all[:1]...), all[4:]...)
				}
				idx := map[string]int{}
				for i, x := range c02Kinds() {
					idx[x.name] = i
				}
				c02Scripts(len(order), all, func(kinds []int) {
					var ks []int
					for _, x := range kinds {
						ks = append(ks, idx[all[x].name])
					}
					c02Case(s, list, order, ks, r)
				})
				r.Sample(fmt.Sprint(list))
			case "many":
				c02Many(k, r)
			case "command":
				c02Command(e, k, r)
			default:
				s := c02Start()
				defer s.srv.Close()
				s.set(nil, nil)
				for _, p := range []string{"", "openai", "Gemini", "gemini "} {
					is := []*issue.Issue{c02Issue(0, 0)}
					var err error
					if x := core.Protect(func() { err = autofix.GenerateSolution(p, "key", s.srv.URL, is) }); x != nil || err == nil || !reflect.DeepEqual(is[0], c02Issue(0, 0)) {
						r.Violate("provider "+p, p, "error %v, crash %v, finding %+v", err, x, is[0])
					}
					r.Evals++
					r.State("provider " + p)
				}
				// no service at all
				gone := httptest.NewServer(http.NotFoundHandler())
				gone.Close()
				is := []*issue.Issue{c02Issue(0, 0)}
				var err error
				if x := core.Protect(func() { err = autofix.GenerateSolution("gemini", "key", gone.URL, is) }); x != nil || err == nil || is[0].Autofix != "" {
					r.Violate("no service", gone.URL, "error %v, crash %v, fix %q", err, x, is[0].Autofix)
				}
				r.Evals++
				r.State("no service")
				// a service which never answers
				s.hang = make(chan bool)
				s.set(map[string]c02Kind{c02Problems[0]: {"hang", func(int) string { return "" }, nil, 0, "hang"}, c02Problems[2]: c02Kinds()[0]}, map[string]int{c02Problems[2]: 2})
				is = []*issue.Issue{c02Issue(0, 2), c02Issue(1, 0), c02Issue(2, 0)}
				done := make(chan error, 1)
				go func() { done <- autofix.GenerateSolution("gemini", "key", s.srv.URL, is) }()
				select {
				case err = <-done:
					if err == nil || is[0].Autofix != "answer 2" || is[1].Autofix != "" || is[2].Autofix != "" {
						r.Violate("no answer", "", "error %v, fixes %q %q %q", err, is[0].Autofix, is[1].Autofix, is[2].Autofix)
					}
				case <-time.After(240 * time.Second):
					r.Violate("no answer", "", "a service which never answers is waited for without end")
				}
				close(s.hang)
				r.Evals++
				r.State("no answer")
			}
		},
	})
}
