package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/core"
)

// R03: the built command scans packages of every finding profile (each severity and confidence the rules stamp, plain or
// suppressed, with and without a load error) under every combination of thresholds, sorting, quiet, failing and
// suppression mode. A reference model says which findings are listed, what the total is and how the command exits.

type r03Class struct{ name, rule, sev, conf, src string }

var r03Classes = []r03Class{
	{"hh", "G407", "HIGH", "HIGH", "import \"crypto/cipher\"\n\nfunc hhN(a cipher.AEAD, p []byte) []byte { return a.Seal(nil, []byte(\"ILoveMyNonce\"), p, nil) }MARK\n"},
	{"hm", "G115", "HIGH", "MEDIUM", "func hmN(x int64) int8 { return int8(x) }MARK\n"},
	{"hl", "G101", "HIGH", "LOW", "var passwordN = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"MARK\n"},
	{"mh", "G501", "MEDIUM", "HIGH", "import \"crypto/md5\"MARK\n\nconst mhN = md5.Size\n"},
	{"mm", "G110", "MEDIUM", "MEDIUM", "import (\n\t\"compress/zlib\"\n\t\"io\"\n)\n\nfunc mmN(w io.Writer, i io.Reader) error {\n\tr, err := zlib.NewReader(i)\n\tif err != nil {\n\t\treturn err\n\t}\n\t_, err = io.Copy(w, r)MARK\n\treturn err\n}\n"},
	{"ml", "G203", "MEDIUM", "LOW", "import \"html/template\"\n\nfunc mlN(s string) any { return template.HTML(s) }MARK\n"},
	{"lh", "G602", "LOW", "HIGH", "func lhN() byte { s := make([]byte, 2); return s[3] }MARK\n"},
}

type r03Item struct {
	class int
	supp  bool
}

type r03Profile struct {
	items []r03Item
	bad   bool // a second package has a type error
}

func (p r03Profile) name() string {
	var s []string
	for _, x := range p.items {
		n := r03Classes[x.class].name
		if x.supp {
			n += "*"
		}
		s = append(s, n)
	}
	if p.bad {
		s = append(s, "error")
	}
	return "[" + strings.Join(s, " ") + "]"
}

func r03Profiles(e *core.Env) []r03Profile {
	all := func(f func(i int) []r03Item) []r03Item {
		var out []r03Item
		for i := range r03Classes {
			out = append(out, f(i)...)
		}
		return out
	}
	n := len(r03Classes)
	ps := []r03Profile{
		{}, {bad: true},
		{items: all(func(i int) []r03Item { return []r03Item{{i, false}} })},
		{items: all(func(i int) []r03Item { return []r03Item{{n - 1 - i, true}} }), bad: true},
		{items: all(func(i int) []r03Item { return []r03Item{{n - 1 - i, true}} })},
		{items: all(func(i int) []r03Item { return []r03Item{{n - 1 - i, i%2 == 0}} }), bad: true},
		{items: all(func(i int) []r03Item { return []r03Item{{n - 1 - i, true}, {i, false}} })},
		{items: []r03Item{{6, false}, {1, true}, {6, true}, {1, false}, {3, false}, {0, false}}},
	}
	for i := range r03Classes {
		ps = append(ps, r03Profile{items: []r03Item{{i, false}}}, r03Profile{items: []r03Item{{i, true}}})
	}
	if e.Thorough {
		for i := range r03Classes {
			for j := range r03Classes {
				for b := 0; b < 2; b++ {
					if i != j {
						ps = append(ps, r03Profile{items: []r03Item{{i, b == 0}, {j, b == 1}}})
					}
				}
			}
		}
	}
	return ps
}

type r03Find struct {
	file, line, rule, sev, conf string
	supp                        bool
}

var r03Rank = map[string]int{"LOW": 0, "MEDIUM": 1, "HIGH": 2}

// r03Tree writes the packages of a profile and lists its findings.
func r03Tree(e *core.Env, name string, p r03Profile) (string, []string, []r03Find) {
	files := map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "p/a.go": "package p\n"}
	targets := []string{"./p"}
	var fs []r03Find
	for k, it := range p.items {
		c := r03Classes[it.class]
		src := "package p\n\n" + strings.ReplaceAll(c.src, "N", "N"+fmt.Sprint(k))
		src = strings.ReplaceAll(strings.ReplaceAll(src, "N"+fmt.Sprint(k)+"once", "Nonce"), "N"+fmt.Sprint(k)+"ewReader", "NewReader")
		src = strings.ReplaceAll(src, "HTMLN"+fmt.Sprint(k), "HTML")
		pre, _, ok := strings.Cut(src, "MARK")
		if !ok {
			core.Infra("no mark in %s", c.name)
		}
		line := 1 + strings.Count(pre, "\n")
		mark := ""
		if it.supp {
			mark = " // #nosec -- known"
		}
		f := fmt.Sprintf("p/f%02d%s.go", k, c.name)
		files[f] = strings.Replace(src, "MARK", mark, 1)
		fs = append(fs, r03Find{filepath.Base(f), fmt.Sprint(line), c.rule, c.sev, c.conf, it.supp})
	}
	if p.bad {
		files["q/a.go"] = "package q\n\nvar x int = \"s\"\n"
		targets = append(targets, "./q")
	}
	return writeTree(e, name, files), targets, fs
}

type r03Opts struct {
	sev, conf    int
	sort, quiet  bool
	noFail       bool
	mode         int // 0 default, 1 show ignored, 2 track, 3 both, 4 suppressions overridden
	sevS, confS  string
	explicitSort bool
}

var r03Levels = []string{"low", "medium", "high"}

func (o r03Opts) args() []string {
	var a []string
	if o.sev > 0 || o.conf == 2 {
		a = append(a, "-severity="+r03Levels[o.sev])
	}
	if o.conf > 0 || o.sev == 1 {
		a = append(a, "-confidence", r03Levels[o.conf])
	}
	if !o.sort {
		a = append(a, "-sort=false")
	}
	if o.quiet {
		a = append(a, "-quiet")
	}
	if o.noFail {
		a = append(a, "-no-fail")
	}
	return append(a, [][]string{nil, {"-show-ignored"}, {"-track-suppressions"}, {"-show-ignored", "-track-suppressions"}, {"-nosec"}}[o.mode]...)
}

func r03Options(p r03Profile, e *core.Env) []r03Opts {
	var out []r03Opts
	modes, big := 3, len(p.items) > 2
	if big && e.Thorough {
		modes = 5
	}
	for s := 0; s < 3; s++ {
		for c := 0; c < 3; c++ {
			for b := 0; b < 8; b++ {
				for m := 0; m < modes; m++ {
					if b&4 != 0 && len(p.items) < 2 {
						continue // nothing to sort
					}
					if !e.Thorough && big && b != 0 && b != 3 && b != 5 && b != 6 {
						continue // every pair of the three switches
					}
					if !e.Thorough && len(p.items) == 1 && b != 0 && b != 3 {
						continue
					}
					out = append(out, r03Opts{sev: s, conf: c, quiet: b&1 != 0, noFail: b&2 != 0, sort: b&4 == 0, mode: m})
				}
			}
		}
	}
	return out
}

// r03Want is the reference model: the listed findings, the total and the exit status.
func r03Want(p r03Profile, fs []r03Find, o r03Opts) (list []string, total, code int) {
	for _, f := range fs {
		if r03Rank[f.sev] < o.sev || r03Rank[f.conf] < o.conf {
			continue
		}
		supp := f.supp && o.mode != 4
		if supp && o.mode == 0 {
			continue
		}
		if !supp {
			total++
		}
		list = append(list, fmt.Sprintf("%s:%s %s %s %s suppressed=%v", f.file, f.line, f.rule, f.sev, f.conf, supp))
	}
	if (total > 0 || p.bad) && !o.noFail {
		code = 1
	}
	return
}

func r03Run(e *core.Env, k int, r *core.Rec) {
	p := r03Profiles(e)[k]
	dir, targets, fs := r03Tree(e, fmt.Sprintf("r03-%d", k), p)
	defer os.RemoveAll(dir)
	r03Runs(e, dir, targets, p.name(), p, fs, r03Options(p, e), r)
	if k < 3 {
		r.Sample(p.name())
	}
}

func r03Runs(e *core.Env, dir string, targets []string, name string, p r03Profile, fs []r03Find, opts []r03Opts, r *core.Rec) {
	env := []string{"GOWORK=off"}
	for _, o := range opts {
		list, total, code := r03Want(p, fs, o)
		args := append(append([]string{"-fmt=json"}, o.args()...), targets...)
		res := runGosec(e, dir, env, args...)
		key := fmt.Sprintf("%s %s", name, strings.Join(o.args(), " "))
		r.Evals++
		r.Transitions++
		r.State(fmt.Sprint(list, total, code, o.args()))
		if res.code != code {
			r.Violate(key+" exit", key, "exit status %d, want %d\n%.600s", res.code, code, res.stderr)
			continue
		}
		if o.quiet {
			if len(list) == 0 && !p.bad {
				if strings.TrimSpace(res.stdout) != "" {
					r.Violate(key+" quiet", key, "output of a quiet scan which found nothing: %.300s", res.stdout)
				}
				continue
			}
			if total == 0 && !p.bad && strings.TrimSpace(res.stdout) == "" {
				continue // only suppressed findings: a quiet scan may show them or not
			}
		}
		var rep jsonReport
		if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil {
			r.Violate(key+" json", key, "no JSON report: %v\n%.300s\n%.600s", err, res.stdout, res.stderr)
			continue
		}
		var got []string
		listed, last := 0, 3
		for _, x := range rep.Issues {
			supp := x.Nosec || len(x.Suppressions) > 0
			if !supp {
				listed++
			}
			got = append(got, fmt.Sprintf("%s:%s %s %s %s suppressed=%v", filepath.Base(x.File), x.Line, x.RuleID, x.Severity, x.Confidence, supp))
			if o.sort && r03Rank[x.Severity] > last {
				r.Violate(key+" order", key, "findings are not ordered by severity: %v", got)
			}
			last = r03Rank[x.Severity]
		}
		sort.Strings(list)
		sort.Strings(got)
		if strings.Join(list, "\n") != strings.Join(got, "\n") {
			r.Violate(key, key, "%s", diffLists(list, got))
		}
		if rep.Stats.Found != total || listed != total {
			r.Violate(key+" total", key, "reported total %d, listed unsuppressed %d, want %d", rep.Stats.Found, listed, total)
		}
		if (len(rep.Errors) > 0) != p.bad {
			r.Violate(key+" errors", key, "errors: %v, want some: %v", rep.Errors, p.bad)
		}
	}
}

// r03Formats checks the exit status and the total shown under every format, destination and logging option.
func r03Formats(e *core.Env, k int, r *core.Rec) {
	pr := []struct {
		p    r03Profile
		args []string
		fail bool
		list bool // something is listed
	}{
		{r03Profile{}, nil, false, false},
		{r03Profile{bad: true}, nil, true, true},
		{r03Profile{items: []r03Item{{6, false}}}, nil, true, true},
		{r03Profile{items: []r03Item{{1, true}}}, nil, false, false},
		{r03Profile{items: []r03Item{{1, true}}}, []string{"-track-suppressions"}, false, true},
		{r03Profile{items: []r03Item{{1, true}}}, []string{"-show-ignored"}, false, true},
		{r03Profile{items: []r03Item{{6, false}, {2, true}}}, []string{"-severity", "MEDIUM", "-track-suppressions"}, false, true},
		{r03Profile{items: []r03Item{{6, false}, {2, false}}}, []string{"-confidence", "High", "-severity=LOW"}, true, true},
		{r03Profile{items: []r03Item{{6, false}, {2, false}}}, []string{"-confidence", "High", "-severity=MEDIUM"}, false, false},
	}[k]
	dir, targets, _ := r03Tree(e, fmt.Sprintf("r03f-%d", k), pr.p)
	defer os.RemoveAll(dir)
	for _, f := range r01Formats[:9] {
		for di, dst := range [][]string{nil, {"-out=o", "-stdout"}, {"-out=o"}, {"-verbose=json"}} {
			if di > 1 && !e.Thorough {
				continue
			}
			for _, lg := range [][]string{nil, {"-quiet"}, {"-terse"}, {"-log=l"}} {
				for _, nf := range [][]string{nil, {"-no-fail"}} {
					if !e.Thorough && nf != nil && lg != nil {
						continue
					}
					args := append(append(append(append([]string{"-color=false", "-fmt=" + f}, dst...), lg...), nf...), pr.args...)
					res := runGosec(e, dir, []string{"GOWORK=off"}, append(args, targets...)...)
					key := pr.p.name() + " " + strings.Join(args, " ")
					code := 0
					if pr.fail && nf == nil {
						code = 1
					}
					r.Evals++
					r.Transitions++
					r.State(key)
					if res.code != code {
						r.Violate(key+" exit", key, "exit status %d, want %d\n%.600s", res.code, code, res.stderr)
						continue
					}
					if f == "text" && dst == nil && (lg == nil || lg[0] != "-quiet") {
						want := 0
						for _, l := range strings.Split(res.stdout, "\n") {
							if strings.HasPrefix(l, "[") && strings.Contains(l, "(Confidence: ") && !strings.Contains(l, "(NoSec)") {
								want++
							}
						}
						if !strings.Contains(res.stdout, fmt.Sprintf("Issues : %d\n", want)) {
							r.Violate(key+" total", key, "the total is not the %d listed findings\n%.1200s", want, res.stdout)
						}
					}
				}
			}
		}
	}
}

// r03Counts are the numbers of findings or errors of large scans.
var r03Counts = []int{2, 3, 10, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 768, 1000, 1024}

// r03Many checks listing, total and exit status of scans with many findings, suppressed findings and errors.
func r03Many(e *core.Env, k int, r *core.Rec) {
	n := r03Counts[k]
	for shape := 0; shape < 5; shape++ {
		p := r03Profile{}
		for i := 0; i < n && shape < 4; i++ {
			// findings of every level; all, none, one or every second of them suppressed
			supp := []bool{false, true, i != n/2, i%2 == 0}[shape]
			p.items = append(p.items, r03Item{i % len(r03Classes), supp})
		}
		if shape == 4 {
			p.bad = true
		}
		dir, targets, fs := r03Tree(e, fmt.Sprintf("r03m-%d-%d", n, shape), p)
		if shape == 4 {
			src := "package q\n"
			for i := 0; i < n; i++ {
				src += fmt.Sprintf("\nvar x%d int = \"s\"\n", i)
			}
			if err := os.WriteFile(filepath.Join(dir, "q/a.go"), []byte(src), 0o644); err != nil {
				core.Infra("%v", err)
			}
		}
		opts := []r03Opts{{sort: true}, {mode: 1}, {sort: true, mode: 2, sev: 1}, {sort: true, conf: 2, noFail: true}}
		if e.Thorough {
			opts = append(opts, r03Opts{sev: 2}, r03Opts{conf: 1, mode: 3}, r03Opts{sort: true, quiet: true}, r03Opts{mode: 4}, r03Opts{noFail: true, quiet: true, mode: 1})
		}
		r03Runs(e, dir, targets, fmt.Sprintf("%d findings, shape %d", n, shape), p, fs, opts, r)
		os.RemoveAll(dir)
	}
	r.Sample(fmt.Sprintf("%d findings", n))
}

// r03Invalid checks that an unknown threshold is an error.
func r03Invalid(e *core.Env, r *core.Rec) {
	dir, targets, _ := r03Tree(e, "r03i", r03Profile{items: []r03Item{{1, false}}})
	defer os.RemoveAll(dir)
	for _, f := range []string{"-severity", "-confidence"} {
		for _, v := range []string{"", "none", "lo", "highest", "1", "low,high", " low"} {
			for _, m := range [][]string{nil, {"-quiet"}, {"-no-fail"}, {"-quiet", "-no-fail"}} {
				res := runGosec(e, dir, []string{"GOWORK=off"}, append(append([]string{"-fmt=json", f + "=" + v}, m...), targets...)...)
				key := fmt.Sprintf("%s=%q %v", f, v, m)
				r.Evals++
				r.Transitions++
				r.State(key)
				if res.code == 0 {
					r.Violate(key, key, "an unknown threshold was accepted")
				}
			}
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID: "R03", Level: "model_checking",
		Rule:   "a state is a distinct (option set, expected listing, total, exit status); each is the outcome of one run of the built command, compared with a reference model of filtering, ordering, totals and exit status",
		Bounds: "7 severity/confidence classes, each plain and suppressed, alone and in 6 larger profiles, with and without a load error (thorough: all ordered pairs) x 9 threshold pairs x 3 suppression modes (thorough 5) x sort x quiet x no-fail (quick: each pair of those three); 9 profiles x 9 formats x 2 destinations (thorough 4) x 4 logging options x no-fail (quick: no-fail with default logging); 21 numbers of findings, suppressed findings or errors up to 1024; 14 unknown thresholds",
		Prepare: func(e *core.Env) error {
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			u := []string{"invalid 0"}
			for k := range r03Counts {
				u = append(u, fmt.Sprintf("many %d", len(r03Counts)-1-k))
			}
			for k := range r03Profiles(e) {
				u = append(u, fmt.Sprintf("run %d", k))
			}
			for k := 0; k < 9; k++ {
				u = append(u, fmt.Sprintf("fmt %d", k))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			switch kind {
			case "run":
				r03Run(e, k, r)
			case "many":
				r03Many(e, k, r)
			case "fmt":
				r03Formats(e, k, r)
			default:
				r03Invalid(e, r)
			}
		},
	})
}
