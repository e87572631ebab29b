package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/rules"

	"verifharness/core"
)

// P08: file selection. Subsets of a universe of file kinds are written as packages and scanned by the real analyzer
// with its real loader under every option combination; the scanned files are read off the findings of one syntax rule
// pair and one data-flow analyzer planted in every file.

type p08File struct {
	name, head string
	pkg        string
	tail       string
	sel        func(tags string, tests bool) bool
	gen        bool
}

func always(string, bool) bool          { return true }
func never(string, bool) bool           { return false }
func inTests(_ string, t bool) bool     { return t }
func tagged(tags string, t string) bool { return has(strings.Split(tags, ","), t) }

var p08Files = []p08File{
	{name: "a.go", sel: always},
	{name: "b.go", head: "//go:build foo\n", sel: func(t string, _ bool) bool { return tagged(t, "foo") }},
	{name: "c.go", head: "//go:build !foo\n", sel: func(t string, _ bool) bool { return !tagged(t, "foo") }},
	{name: "d.go", head: "//go:build foo && !bar\n", sel: func(t string, _ bool) bool { return tagged(t, "foo") && !tagged(t, "bar") }},
	{name: "e_linux.go", sel: always},
	{name: "f_windows.go", sel: never},
	{name: "g_test.go", sel: inTests},
	{name: "x_test.go", pkg: "p_test", sel: inTests},
	{name: "h.go", head: "// Code generated by x. DO NOT EDIT.\n", sel: always, gen: true},
	{name: "i_test.go", head: "// Code generated by x. DO NOT EDIT.\n", sel: inTests, gen: true},
	{name: "j.go", head: "//go:build bar\n\n// Code generated by x. DO NOT EDIT.\n", sel: func(t string, _ bool) bool { return tagged(t, "bar") }, gen: true},
	{name: "k.go", head: "// code generated by x. Do not edit.\n", sel: always},
	{name: "l.go", tail: "// Code generated by x. DO NOT EDIT.\n", sel: always},
	{name: "_m.go", sel: never},
	{name: "n.go", head: "//go:build ignore\n", sel: never},
	{name: "o_test.go", head: "//go:build foo\n", sel: func(t string, tests bool) bool { return tests && tagged(t, "foo") }},
	{name: "q.go", head: "/* Package p. */\n// Code generated by hand (not really) DO NOT EDIT\n", sel: always},
}

func (f p08File) text() string {
	pkg := "p"
	if f.pkg != "" {
		pkg = f.pkg
	}
	id := strings.ToUpper(strings.TrimLeft(f.name, "_")[:1])
	return f.head + "\npackage " + pkg + "\n\nimport \"crypto/md5\"\n\nfunc F" + id + "(x int) (any, int8) { return md5.New(), int8(x) }\n" + f.tail
}

type p08Opt struct {
	tags  string
	tests bool
	gen   bool
}

func p08Opts() []p08Opt {
	var out []p08Opt
	for _, t := range []string{"", "foo", "foo,bar", "bar"} {
		for _, x := range []bool{false, true} {
			for _, g := range []bool{false, true} {
				out = append(out, p08Opt{t, x, g})
			}
		}
	}
	return out
}

// p08Want lists the findings of one package and counts its scanned files and lines.
func p08Want(dir string, sub []int, o p08Opt) (want []string, files, lines int) {
	for _, i := range sub {
		f := p08Files[i]
		if !f.sel(o.tags, o.tests) || o.gen && f.gen {
			continue
		}
		files++
		lines += strings.Count(f.text(), "\n")
		for _, r := range []string{"G115", "G401", "G501"} {
			want = append(want, filepath.Join(dir, f.name)+" "+r)
		}
	}
	return
}

func p08Write(e *core.Env, name string, subs ...[]int) string {
	files := map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "root.go": strings.ReplaceAll(p08Files[0].text(), "FA", "Root")}
	for n, sub := range subs {
		files[fmt.Sprintf("p%d/README", n)] = "x"
		for _, i := range sub {
			files[fmt.Sprintf("p%d/%s", n, p08Files[i].name)] = p08Files[i].text()
		}
	}
	return writeTree(e, name, files)
}

func p08Tags(t string) []string {
	if t == "" {
		return nil
	}
	return strings.Split(t, ",")
}

// p08Scan scans the targets in one run and compares.
func p08Scan(e *core.Env, r *core.Rec, name, key string, o p08Opt, workers int, targets []string, subs ...[]int) {
	dir := p08Write(e, name, subs...)
	var want []string
	nf, nl := 0, 0
	for n, sub := range subs {
		w, f, l := p08Want(filepath.Join(dir, fmt.Sprintf("p%d", n)), sub, o)
		want = append(want, w...)
		nf, nl = nf+f, nl+l
	}
	p08Compare(e, r, dir, key, o, workers, targets, want, nf, nl)
}

// p08Many scans a package with many files, of one kind or of every kind in turn.
func p08Many(e *core.Env, r *core.Rec, n int) {
	for kind := -1; kind < len(p08Files); kind++ {
		if kind >= 0 && !e.Thorough && (kind != 6 || n < 100) {
			continue
		}
		for oi, o := range p08Opts() {
			if !e.Thorough && oi%5 != 2 {
				continue
			}
			files := map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "p0/zz.go": "package p\n"}
			dir := filepath.Join(e.Scratch, fmt.Sprintf("p08m-%d-%d-%d", n, kind, oi))
			var want []string
			nf, nl := 1, 1
			for i := 0; i < n; i++ {
				f := p08Files[i%len(p08Files)]
				if kind >= 0 {
					f = p08Files[kind]
				}
				name := f.name[:1] + fmt.Sprint(i) + f.name[1:] // after a leading underscore, too
				if f.name[0] == '_' {
					name = "_" + fmt.Sprint(i) + f.name[1:]
				}
				id := strings.ToUpper(strings.TrimLeft(f.name, "_")[:1])
				text := strings.Replace(f.text(), "func F"+id+"(", fmt.Sprintf("func F%d%s(", i, id), 1)
				files["p0/"+name] = text
				if f.sel(o.tags, o.tests) && !(o.gen && f.gen) {
					nf, nl = nf+1, nl+strings.Count(text, "\n")
					for _, rule := range []string{"G115", "G401", "G501"} {
						want = append(want, filepath.Join(dir, "p0", name)+" "+rule)
					}
				}
			}
			if d := writeTree(e, filepath.Base(dir), files); d != dir {
				core.Infra("tree in %s, not %s", d, dir)
			}
			what := "every kind"
			if kind >= 0 {
				what = "the kind of " + p08Files[kind].name
			}
			p08Compare(e, r, dir, fmt.Sprintf("%d files of %s options %+v", n, what, o), o, 1+n%2, []string{"./p0"}, want, nf, nl)
		}
	}
	r.Sample(fmt.Sprintf("package of %d files", n))
}

func p08Compare(e *core.Env, r *core.Rec, dir, key string, o p08Opt, workers int, targets, want []string, nf, nl int) {
	if err := os.Chdir(dir); err != nil {
		core.Infra("%v", err)
	}
	a := gosec.NewAnalyzer(gosec.NewConfig(), o.tests, o.gen, false, workers, log.New(io.Discard, "", 0))
	a.LoadRules(rules.Generate(false).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(false).AnalyzersInfo())
	err := a.Process(p08Tags(o.tags), targets...)
	is, m, errs := a.Report()
	os.Chdir(e.Scratch)
	os.RemoveAll(dir)
	var got []string
	for _, x := range is {
		got = append(got, x.File+" "+x.RuleID)
	}
	sort.Strings(got)
	sort.Strings(want)
	r.Evals++
	r.Transitions += len(targets)
	r.State(key)
	if err != nil || len(errs) > 0 {
		r.Violate(key, key, "scan error %v %v", err, errs)
	} else if core.Join(got) != core.Join(want) {
		r.Violate(key, key, "%s", diffLists(want, got))
	} else if m.NumFiles != nf || m.NumLines != nl {
		r.Violate(key, key, "counted %d files and %d lines, want %d and %d", m.NumFiles, m.NumLines, nf, nl)
	}
}

func p08Subsets(max int) [][]int {
	out := [][]int{}
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		out = append(out, append([]int{}, cur...))
		if len(cur) == max {
			return
		}
		for i := from; i < len(p08Files); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	all := make([]int, len(p08Files))
	for i := range all {
		all[i] = i
	}
	return append(out, all)
}

func p08Names(sub []int) string {
	var s []string
	for _, i := range sub {
		s = append(s, p08Files[i].name)
	}
	return strings.Join(s, "+")
}

var p08Pairs = [][]int{{0, 1, 6, 7, 8}, {1}, {2, 9}, {6}, {7}, {8, 10}, {0, 15, 13}, {5, 14}, {1, 2, 3, 4}}

const p08Shards = 48

func init() {
	core.Register(&core.Check{
		ID: "P08", Level: "model_checking",
		Rule:    "a state is a (set of files, options, targets) combination; each is written out and scanned by the real analyzer and loader, the scanned files are read off planted findings and compared with a reference selection",
		Bounds:  "17 file kinds: all sets of up to two files (thorough: three) and the full set, x 4 tag lists x test scanning x generated exclusion; all ordered pairs of 9 packages x 6 option sets; packages of up to 513 files; repeated and overlapping targets; cgo packages; 24 runs of the built command",
		Prepare: buildGosec,
		Units: func(e *core.Env) []string {
			var u []string
			for i := 0; i < p08Shards; i++ {
				u = append(u, fmt.Sprintf("one %d", i))
			}
			for i := range p08Pairs {
				u = append(u, fmt.Sprintf("two %d", i))
			}
			for _, n := range []int{20, 33, 65, 100, 129, 257, 513} {
				u = append(u, fmt.Sprintf("many %d", n))
			}
			return append(u, "repeat 0", "cgo 0", "cli 0", "cli 1", "cli 2", "cli 3")
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			os.Setenv("GOWORK", "off")
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			switch kind {
			case "one":
				max := 2
				if e.Thorough {
					max = 3
				}
				i := -1
				for _, sub := range p08Subsets(max) {
					for _, o := range p08Opts() {
						if i++; i%p08Shards != k {
							continue
						}
						if !e.Thorough && len(sub) == 2 && (o.tags == "bar" || o.tags == "foo" && o.gen) {
							continue
						}
						p08Scan(e, r, fmt.Sprintf("p08o-%d", i), fmt.Sprintf("files %s options %+v", p08Names(sub), o), o, 1, []string{"./p0"}, sub)
					}
				}
			case "two":
				for j := range p08Pairs {
					for oi, o := range p08Opts() {
						if !e.Thorough && oi%3 != 1 {
							continue
						}
						w := 1 + (j+k)%2
						p08Scan(e, r, fmt.Sprintf("p08t-%d-%d-%d", k, j, oi), fmt.Sprintf("packages %s / %s options %+v workers %d", p08Names(p08Pairs[k]), p08Names(p08Pairs[j]), o, w), o, w, []string{"./p0", "./p1"}, p08Pairs[k], p08Pairs[j])
					}
				}
			case "repeat":
				for ti, targets := range [][]string{{"./p0", "./p0"}, {"./p0", "p0"}, {"./p0", "./p1", "./p0"}, {"p0", "./p1/../p0", "./p1", "p1"}} {
					for oi, o := range p08Opts() {
						for _, w := range []int{1, 2} {
							subs := [][]int{p08Pairs[0]}
							if ti > 1 {
								subs = append(subs, p08Pairs[2])
							}
							os.Chdir(e.Scratch)
							p08Scan(e, r, fmt.Sprintf("p08r-%d-%d-%d", ti, oi, w), fmt.Sprintf("targets %v options %+v workers %d", targets, o, w), o, w, targets, subs...)
						}
					}
				}
			case "many":
				p08Many(e, r, k)
			case "cgo":
				p08Cgo(e, r)
			case "cli":
				p08CLI(e, k, r)
			}
		},
	})
}

// p08Cgo: the other files of a package with cgo are scanned as usual, and no finding lies outside the package.
func p08Cgo(e *core.Env, r *core.Rec) {
	for _, o := range p08Opts() {
		dir := p08Write(e, "p08cgo", []int{0, 1, 8})
		os.WriteFile(filepath.Join(dir, "p0/z.go"), []byte("package p\n\n// static int f(int x) { return x; }\nimport \"C\"\n\nfunc Z(x int) (C.int, int8) { return C.f(1), int8(x) }\n"), 0o600)
		if err := os.Chdir(dir); err != nil {
			core.Infra("%v", err)
		}
		a := gosec.NewAnalyzer(gosec.NewConfig(), o.tests, o.gen, false, 1, log.New(io.Discard, "", 0))
		a.LoadRules(rules.Generate(false).RulesInfo())
		a.LoadAnalyzers(analyzers.Generate(false).AnalyzersInfo())
		err := a.Process(p08Tags(o.tags), "./p0")
		is, _, errs := a.Report()
		os.Chdir(e.Scratch)
		os.RemoveAll(dir)
		key := fmt.Sprintf("cgo package, options %+v", o)
		r.Evals++
		r.Transitions++
		r.State(key)
		if err != nil || len(errs) > 0 { // no C compiler: nothing to observe
			r.Stats["cgo_unavailable"]++
			continue
		}
		want, _, _ := p08Want(filepath.Join(dir, "p0"), []int{0, 1, 8}, o)
		var got []string
		for _, x := range is {
			if filepath.Dir(x.File) != filepath.Join(dir, "p0") {
				r.Violate(key+" outside", key, "finding %s in %s:%s, which is no source file of the package", x.RuleID, x.File, x.Line)
			} else if filepath.Base(x.File) == "z.go" {
				if x.RuleID != "G115" || x.Line != "6" {
					r.Violate(key+" line", key, "finding %s in %s:%s", x.RuleID, x.File, x.Line)
				}
			} else {
				got = append(got, x.File+" "+x.RuleID)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if core.Join(got) != core.Join(want) {
			r.Violate(key, key, "%s", diffLists(want, got))
		}
	}
}

func p08CLI(e *core.Env, shard int, r *core.Rec) {
	all := p08Subsets(0)[1]
	for i, o := range append(p08Opts(), p08Opts()...) {
		if i%4 != shard {
			continue
		}
		dir := p08Write(e, fmt.Sprintf("p08c-%d", i), all, p08Pairs[0])
		args := []string{"-fmt=json"}
		if o.tags != "" {
			args = append(args, "-tags="+o.tags)
		}
		if o.tests {
			args = append(args, "-tests")
		}
		if o.gen {
			args = append(args, "-exclude-generated")
		}
		if i < 16 {
			args = append(args, "./p0", "./p1")
		} else {
			args = append(args, "-exclude-dir=nothing", "./p0/...", "p1/...", "./p0")
		}
		res := runGosec(e, dir, nil, args...)
		os.RemoveAll(dir)
		key := fmt.Sprintf("command %v", args)
		r.Evals++
		r.Transitions++
		r.Stats["command_runs"]++
		r.State(key)
		var rep jsonReport
		if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil {
			r.Violate(key, key, "no report: %v\n%.400s", err, res.stderr)
			continue
		}
		want, nf, _ := p08Want(filepath.Join(dir, "p0"), all, o)
		w2, nf2, _ := p08Want(filepath.Join(dir, "p1"), p08Pairs[0], o)
		want = append(want, w2...)
		var got []string
		for _, x := range rep.Issues {
			got = append(got, x.File+" "+x.RuleID)
		}
		sort.Strings(got)
		sort.Strings(want)
		if core.Join(got) != core.Join(want) || rep.Stats.Files != nf+nf2 {
			r.Violate(key, key, "%d files, want %d\n%s", rep.Stats.Files, nf+nf2, diffLists(want, got))
		}
	}
}
