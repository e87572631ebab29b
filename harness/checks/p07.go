package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verifharness/core"
)

// P07: package discovery. Every assignment of contents to a universe of directories is materialised and walked by the
// real PackagePaths under every exclusion list and target spelling; the built command is run on a family of trees.

var p07Dirs = []string{".", "a", "a/b", "vendor/c", "a/vendor", ".git/hooks", "myvendor", "a.d", "b/_x/testdata", "a/b/a"}

type p07Excl struct {
	dirs []string // as given by the user
	lit  []string // the literal texts they search for
}

var p07Excls = []p07Excl{
	{nil, nil},
	{[]string{"vendor", `\.git/`}, []string{"vendor", ".git/"}},
	{[]string{"a"}, []string{"a"}},
	{[]string{"a/b"}, []string{"a/b"}},
	{[]string{"b/", "_x"}, []string{"b/", "_x"}},
	{[]string{"testdata", "a/vendor"}, []string{"testdata", "a/vendor"}},
	{[]string{`b\b`}, nil}, // no literal: the expression b at a word end, see p07Excluded
	{[]string{"nothing"}, []string{"nothing"}},
	{[]string{"a$"}, nil}, // paths ending in a
}

// p07Excluded is the reference: some pattern occurs in the path.
func p07Excluded(path string, x p07Excl) bool {
	for _, l := range x.lit {
		if strings.Contains(path, l) {
			return true
		}
	}
	if len(x.dirs) == 1 && x.dirs[0] == `b\b` {
		for i := 0; i < len(path); i++ {
			if path[i] == 'b' && (i+1 == len(path) || path[i+1] == '/' || path[i+1] == '.') {
				return true
			}
		}
	}
	if len(x.dirs) == 1 && x.dirs[0] == "a$" {
		return strings.HasSuffix(path, "a")
	}
	return false
}

// p07Targets: how a target is written, the directory it denotes, how paths come out.
type p07Target struct {
	text   string // %R is the absolute root
	base   string // relative to the root
	prefix string
}

var p07Targets = []p07Target{
	{"./...", ".", ""}, {"%R/...", ".", "%R"}, {"a/...", "a", ""}, {"./a/...", "a", ""}, {"a...", "a", ""}, {"../%N/...", ".", "../%N"}, {"a/../b/...", "b", ""}, {"a/b/...", "a/b", ""}, {"%R/./a//...", "a", "%R"}, {"missing/...", "missing", ""},
}

func p07Contents(kind int) map[string]string {
	switch kind {
	case 1:
		return map[string]string{"f.go": "package p\n"}
	case 2:
		return map[string]string{"x_test.go": "package p\n", "g.go": "package p\n", "h.go.txt": "x"}
	}
	return map[string]string{"f.txt": "x", "go": "x", "Xgo": "y"}
}

func p07Run(e *core.Env, shard, n int, r *core.Rec) {
	total, kinds := 1, 2
	if e.Thorough {
		kinds = 3
	}
	for range p07Dirs {
		total *= kinds
	}
	root := filepath.Join(e.Scratch, fmt.Sprintf("p07w%d", shard), "tr")
	defer os.RemoveAll(filepath.Dir(root))
	for _, d := range p07Dirs {
		os.MkdirAll(filepath.Join(root, d), 0o755)
		for f, s := range p07Contents(0) {
			os.WriteFile(filepath.Join(root, d, f), []byte(s), 0o600)
		}
	}
	cur := make([]int, len(p07Dirs))
	for t := shard; t < total; t += n {
		var has []string
		for i, d := range p07Dirs {
			k := t
			for j := 0; j < i; j++ {
				k /= kinds
			}
			k %= kinds
			if k != cur[i] {
				for f := range p07Contents(cur[i]) {
					if cur[i] > 0 {
						os.Remove(filepath.Join(root, d, f))
					}
				}
				if k > 0 {
					for f, s := range p07Contents(k) {
						if err := os.WriteFile(filepath.Join(root, d, f), []byte(s), 0o600); err != nil {
							core.Infra("%v", err)
						}
					}
				}
				cur[i] = k
			}
			if k > 0 {
				has = append(has, d)
			}
		}
		if err := os.Chdir(root); err != nil {
			core.Infra("%v", err)
		}
		for xi, x := range p07Excls {
			for ti, tg := range p07Targets {
				key := fmt.Sprintf("go files in %v, exclude %q, target %s", has, x.dirs, tg.text)
				sub := func(s string) string {
					return strings.ReplaceAll(strings.ReplaceAll(s, "%R", root), "%N", filepath.Base(root))
				}
				want := []string{}
				for _, d := range has {
					rel, err := filepath.Rel(tg.base, d)
					if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
						continue
					}
					p := filepath.Join(sub(tg.prefix), d)
					above := strings.TrimSuffix(p, d)
					if p07Excluded(above, x) || !p07Excluded(p, x) && p07Excluded(sub(tg.prefix), x) {
						want = nil // a pattern matches above the tree: not part of the property
						break
					}
					if !p07Excluded(p, x) {
						want = append(want, p)
					}
				}
				if want == nil {
					continue
				}
				sort.Strings(want)
				got, err := gosec.PackagePaths(sub(tg.text), gosec.ExcludedDirsRegExp(x.dirs))
				r.Evals++
				r.Transitions += len(p07Dirs)
				r.State(fmt.Sprint(t, xi, ti))
				gs := append([]string{}, got...)
				sort.Strings(gs)
				if err != nil || strings.Join(gs, "\n") != strings.Join(want, "\n") {
					r.Violate(fmt.Sprintf("exclude %q target %s %s", x.dirs, tg.text, strings.ReplaceAll(diffLists(want, gs), root, "R")), key, "%s\n%s\n%v", key, diffLists(want, gs), err)
				}
				one := strings.TrimSuffix(sub(tg.text), "...")
				if one == "" {
					continue
				}
				got, err = gosec.PackagePaths(one, gosec.ExcludedDirsRegExp(x.dirs))
				if err != nil || len(got) != 1 || got[0] != one {
					r.Violate("non-recursive "+tg.text, key, "non-recursive target %q came out as %q %v", one, got, err)
				}
			}
		}
	}
	r.Sample(fmt.Sprintf("last tree: %v", cur))
}

// p07Shapes: trees of other shapes, as lists of files.
func p07Shapes(e *core.Env) map[string][]string {
	out := map[string][]string{}
	named := []string{"c.go/x.txt", "c.go/f.go", "c.go/d/f.go", "s/d.go/e.go/f.go", "s/d.go/e.go/x.txt", "s/d.go/g.go", "f.go", "t/u.go/v/w.txt", "a/b.go.d/f.go", "a/b.go/x"}
	for m := range 1 << len(named) { // directories with the names of files
		var fs []string
		for j, f := range named {
			if m>>j&1 == 1 {
				fs = append(fs, f)
			}
		}
		out[fmt.Sprintf("names %d", m)] = fs
	}
	for n := 1; n <= 40; n++ {
		d := make([]string, 5)
		for j := range n {
			p := strings.Repeat("d/", j+1)
			d[0] += p + "f.go\n" // everywhere, at the end, below, at the start and the end, at every other level
			if j == n-1 {
				d[1] += p + "f.go\n"
			}
			if j == 0 || j == n-1 {
				d[3] += p + "f.go\n"
			}
			if j%2 == 0 {
				d[4] += p + "f.go\n"
			}
			d[2] += fmt.Sprintf("%sx%d/f.go\n", p, j)
		}
		for k, l := range d {
			out[fmt.Sprintf("deep %d %d", n, k)] = strings.Fields(l)
		}
	}
	for _, n := range []int{1, 2, 9, 10, 11, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025} {
		var wide, among []string
		for j := range n {
			wide = append(wide, fmt.Sprintf("w%d/f.go", j))
			among = append(among, fmt.Sprintf("a%d.txt", j))
		}
		out[fmt.Sprintf("wide %d", n)] = wide
		out[fmt.Sprintf("among %d", n)] = append(append([]string{"0/b.go", "z/y.go"}, among...), "z.go")
		out[fmt.Sprintf("before %d", n)] = append([]string{"A.go", "z/y.go"}, among...)
	}
	for k, s := range []string{"sp ace/f.go", "é/世.go", "-x/-y.go", "%41/f.go", "a'b/\"c/f.go", "a+b(c)[d]/f.go", "go/go.go", "x/f_test.go", "x/f.go.go", "a.b.c/d.e/f.g.go", "F.GO/g.go", "cgo/x.cgo", "x/go.mod.go", ".hid/f.go", "_und/f.go", "#h/f.go", "a:b/f.go", "a,b/f.go"} {
		out[fmt.Sprintf("odd %d", k)] = []string{s, "y/x"}
		out[fmt.Sprintf("odd below %d", k)] = []string{"y/f.go", "y/" + s, "z/y.go"}
	}
	return out
}

func p07Shape(e *core.Env, shard, n int, r *core.Rec) {
	all := p07Shapes(e)
	var names []string
	for k := range all {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, name := range names {
		if i%n != shard {
			continue
		}
		root := filepath.Join(e.Scratch, fmt.Sprintf("p07s%d", shard), "tr")
		dirs, above := map[string]bool{}, map[string]bool{}
		os.MkdirAll(root, 0o755)
		for _, f := range all[name] {
			if err := os.MkdirAll(filepath.Join(root, filepath.Dir(f)), 0o755); err != nil {
				core.Infra("%v", err)
			}
			if err := os.WriteFile(filepath.Join(root, f), []byte("package p\n"), 0o600); err != nil {
				core.Infra("%v", err)
			}
			if strings.HasSuffix(f, ".go") {
				dirs[filepath.Dir(f)] = true
			}
			for d := filepath.Dir(f); d != "."; d = filepath.Dir(d) {
				if strings.HasSuffix(d, ".go") {
					above[filepath.Dir(d)] = true
				}
			}
		}
		if err := os.Chdir(root); err != nil {
			core.Infra("%v", err)
		}
		for _, tg := range []p07Target{{"./...", ".", ""}, {"%R/...", ".", "%R"}, {"../%N/...", ".", "../%N"}} {
			for _, x := range []p07Excl{{nil, nil}, {[]string{"vendor", `\.git/`}, []string{"vendor", ".git/"}}, {[]string{"w1"}, []string{"w1"}}, {[]string{"d/d/d", "d.go"}, []string{"d/d/d", "d.go"}}} {
				sub := func(s string) string {
					return strings.ReplaceAll(strings.ReplaceAll(s, "%R", root), "%N", filepath.Base(root))
				}
				want := []string{}
				for d := range dirs {
					p := filepath.Join(sub(tg.prefix), d)
					if !p07Excluded(p, x) {
						want = append(want, p)
					}
				}
				if tg.prefix != "" && p07Excluded(sub(tg.prefix), x) {
					continue
				}
				sort.Strings(want)
				got, err := gosec.PackagePaths(sub(tg.text), gosec.ExcludedDirsRegExp(x.dirs))
				var gs []string
				for _, p := range got {
					base := sub(tg.prefix)
					if base == "" {
						base = "."
					}
					if rel, err := filepath.Rel(base, p); err == nil && above[rel] && !dirs[rel] {
						r.Violate("parent of a directory named like a Go file", fmt.Sprint(all[name]), "files %q, target %s: %s is listed, which holds no Go file but a directory named like one", all[name], tg.text, p)
						continue
					}
					gs = append(gs, p)
				}
				sort.Strings(gs)
				key := fmt.Sprintf("tree %s exclude %q target %s", name, x.dirs, tg.text)
				r.Evals++
				r.Transitions += len(all[name])
				r.State(key)
				if err != nil || strings.Join(gs, "\n") != strings.Join(want, "\n") {
					r.Violate(key, key, "%s\nfiles %.1000q\n%.2000s\n%v", key, all[name], strings.ReplaceAll(diffLists(want, gs), root, "R"), err)
				}
			}
		}
		os.Chdir(e.Scratch)
		os.RemoveAll(filepath.Dir(root))
	}
	r.Sample("shapes of trees: " + names[shard])
}

// p07CLIRuns: arguments and the directories whose finding is expected.
var p07CLIRuns = []struct {
	args []string
	want string
}{
	{[]string{"./..."}, ". a a/b b myx"},
	{[]string{"-r"}, ". a a/b b myx"},
	{[]string{"-r", "./..."}, ". a a/b b myx"},
	{[]string{"a/..."}, "a a/b"},
	{[]string{"./a/...", "./b"}, "a a/b b"},
	{[]string{"./a/...", "a", "./a/b", "./..."}, ". a a/b b myx"},
	{[]string{"-exclude-dir=a", "./..."}, ". b myx"},
	{[]string{"-exclude-dir=a/b", "./..."}, ". a b myx"},
	{[]string{"-exclude-dir=b", "-exclude-dir=myx", "./..."}, ". a"},
	{[]string{"%R/..."}, ". a a/b b myx"},
	{[]string{"%R/a"}, "a"},
	{[]string{"vendor/v"}, "vendor/v"},
	{[]string{"-exclude-dir=a/", "./..."}, ". a b myx"},
	{[]string{"./b", "./a", "./missing"}, "a b"},
	{[]string{"./b", "./a", "./empty"}, "a b"},
	{[]string{"."}, "."},
}

func p07CLI(e *core.Env, k int, r *core.Rec) {
	run := p07CLIRuns[k]
	files := map[string]string{"empty/x.txt": "x"}
	for _, d := range []string{".", "a", "a/b", "b", "myx", "vendor/v", ".git/hooks/x", "a/vendor/w"} {
		files[d+"/f.go"] = "package p\n\nimport _ \"crypto/md5\"\n"
	}
	for ci, conc := range []string{"1", "3"} {
		dir := writeTree(e, fmt.Sprintf("p07c%d-%d", k, ci), files)
		args := []string{"-fmt=json", "-concurrency=" + conc}
		for _, a := range run.args {
			args = append(args, strings.ReplaceAll(a, "%R", dir))
		}
		res := runGosec(e, dir, []string{"GOWORK=off", "GOFLAGS=-mod=mod"}, args...)
		r.Evals++
		r.Transitions++
		r.Stats["command_runs"]++
		key := fmt.Sprintf("command %v concurrency %s", run.args, conc)
		r.State(key)
		var rep jsonReport
		if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil {
			r.Violate(key, key, "no report: %v\n%.400s", err, res.stderr)
			continue
		}
		var got []string
		for _, x := range rep.Issues {
			d, _ := filepath.Rel(dir, filepath.Dir(x.File))
			got = append(got, d)
		}
		sort.Strings(got)
		want := strings.Fields(run.want)
		sort.Strings(want)
		if core.Join(got) != core.Join(want) || rep.Stats.Files != len(want) {
			r.Violate(key, key, "scanned directories (%d files)\n%s", rep.Stats.Files, diffLists(want, got))
		}
		os.RemoveAll(dir)
	}
}

func init() {
	core.Register(&core.Check{
		ID: "P07", Level: "model_checking",
		Rule:    "a state is a (tree, exclusion list, target spelling) triple; each tree is materialised and walked by the real discovery code and compared with a reference listing",
		Bounds:  "ten nested directories (dot, underscore, vendor and testdata names), every subset holding Go files (thorough: three content kinds each), 8 exclusion lists, 10 target spellings; all subsets of ten files in directories named like files; chains of up to 40 directories and up to 1025 directories or files side by side, unusual names, with 4 exclusion lists and 3 target spellings; 16 argument lists of the command at two concurrencies",
		Prepare: buildGosec,
		Units: func(e *core.Env) []string {
			var u []string
			for i := range p07CLIRuns {
				u = append(u, fmt.Sprintf("cli %d", i))
			}
			for i := 0; i < 32; i++ {
				u = append(u, fmt.Sprintf("walk %d", i))
			}
			for i := 0; i < 8; i++ {
				u = append(u, fmt.Sprintf("shape %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			if kind == "shape" {
				p07Shape(e, k, 8, r)
				return
			}
			if kind == "cli" {
				p07CLI(e, k, r)
				return
			}
			p07Run(e, k, 32, r)
		},
	})
}
