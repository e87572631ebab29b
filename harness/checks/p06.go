package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verifharness/core"
)

// P06: load and type errors. Every ordered tuple of package health states is scanned by the real analyzer (with the
// real go/packages loader) and, up to pairs, by the built command. Expected errors carry hand-written positions: the
// marker @ in a source stands directly before the byte an error is reported at and is removed before writing.

type p06State struct {
	name     string
	files    map[string]string // "@" marks error positions
	findings []string          // rule:file:line, nil with broken set means unconstrained
	broken   bool              // own findings are not constrained
	dirErr   string            // error recorded under the directory, with this text
	missing  bool              // the directory does not exist
	noGo     bool
}

const p06Vuln = "package v\n\nimport \"crypto/md5\"\n\nfunc F(x int) (any, int8) {\n\treturn md5.New(),\n\t\tint8(x)\n}\n"

var p06VulnWant = []string{"G501:a.go:3", "G401:a.go:6", "G115:a.go:7"}

var p06States = []p06State{
	{name: "clean", files: map[string]string{"a.go": "package c\n\nfunc F() int { return 1 }\n"}},
	{name: "vuln", files: map[string]string{"a.go": p06Vuln}, findings: p06VulnWant},
	{name: "synbody", broken: true, files: map[string]string{
		"a.go": "package s\n\nfunc F() {\n\tvar a int\n\ta @b\n}\n\nfunc G() { var c int; c @d }\n", "b.go": "package s\n\nimport \"crypto/md5\"\n\nvar H = md5.New()\n"}},
	{name: "header", broken: true, dirErr: "a.go:3:", files: map[string]string{"a.go": "package h\n\nimport crypto/md5\n", "b.go": "package h\n\nfunc F() {}\n"}},
	{name: "typeerr", broken: true, files: map[string]string{"a.go": "package t\n\nimport \"crypto/md5\"\n\nfunc F() any { @undef1(); return md5.New() }\n\nvar é = \"é\" + @undef2\n\n\tvar y int = @\"s\"\nvar z = @undef3"}},
	{name: "twofiles", broken: true, files: map[string]string{"a.go": "package t\n\nfunc F() int { return @x }\n", "b.go": "package t\n\n\nfunc G() int { return @\"a\" }\n", "c.go": "package t\n\nfunc H() {}\n"}},
	{name: "many", broken: true, files: map[string]string{"a.go": "package m\n\n" + strings.Repeat("var _ = @u\nvar _, _ = @u, @w\n", 9)}},
	{name: "line1", broken: true, files: map[string]string{"a.go": "package m; var x int = @\"s\"; var y = @u\nvar z =\n@v\n"}},
	{name: "redecl", broken: true, files: map[string]string{"a.go": "package r\n\nimport (\n\t@\"os\"\n)\n\nfunc F() {}\nfunc @F() {}\n"}},
	{name: "imperr", broken: true, files: map[string]string{"a.go": "package i\n\nimport (\n\t\"crypto/md5\"\n\t@\"ex.test/nope\"\n)\n\nvar A = md5.New()\nvar B = nope.F()\n"}},
	{name: "depbad", broken: true, files: map[string]string{"a.go": "package d\n\nimport \"ex.test/lib/bad\"\n\nvar A int = @bad.S\n"}},
	{name: "empty", noGo: true},
	{name: "excluded", noGo: true, files: map[string]string{"a.go": "//go:build ignore\n\n" + p06Vuln}},
	{name: "otheros", noGo: true, files: map[string]string{"a_windows.go": p06Vuln}},
	{name: "multi", broken: true, dirErr: "found packages", files: map[string]string{"a.go": p06Vuln, "b.go": "package w\n"}},
	{name: "zero", broken: true, dirErr: "a.go:1:1", files: map[string]string{"a.go": ""}},
	{name: "testonly", noGo: true, files: map[string]string{"a_test.go": p06Vuln}},
	{name: "nodir", missing: true},
	{name: "co:lon", broken: true, files: map[string]string{"a.go": "package t\n\nvar x = @undef\n"}},
	{name: "spa ce", files: map[string]string{"a.go": p06Vuln}, findings: p06VulnWant},
}

type p06Pos struct{ line, col int }

// p06Strip removes the markers and returns their positions.
func p06Strip(src string) (string, []p06Pos) {
	var out strings.Builder
	var ps []p06Pos
	line, col := 1, 1
	for i := 0; i < len(src); i++ {
		if src[i] == '@' {
			ps = append(ps, p06Pos{line, col})
			continue
		}
		out.WriteByte(src[i])
		col++
		if src[i] == '\n' {
			line, col = line+1, 1
		}
	}
	return out.String(), ps
}

type p06Want struct {
	errs     map[string][]p06Pos // by file
	dirErrs  map[string]string
	findings map[string]int
	loose    map[string]bool // directories with unconstrained findings
	anyErr   bool
}

// p06Tree writes the tuple and returns its targets and the expectation.
func p06Tree(e *core.Env, name string, tuple []int) (string, []string, *p06Want) {
	files := map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "lib/bad/a.go": "package bad\n\nconst S = \"s\"\n"}
	w := &p06Want{errs: map[string][]p06Pos{}, dirErrs: map[string]string{}, findings: map[string]int{}, loose: map[string]bool{}}
	root := filepath.Join(e.Scratch, name)
	var targets []string
	for i, s := range tuple {
		st := p06States[s]
		d := fmt.Sprintf("p%d%s", i, st.name)
		targets = append(targets, "./"+d)
		abs := filepath.Join(root, d)
		if !st.missing {
			files[d+"/README"] = "x"
		}
		for f, src := range st.files {
			txt, ps := p06Strip(src)
			files[d+"/"+f] = txt
			if len(ps) > 0 {
				w.errs[filepath.Join(abs, f)] = ps
				w.anyErr = true
			}
		}
		if st.dirErr != "" {
			w.dirErrs["./"+d] = st.dirErr
			w.anyErr = true
		}
		w.loose[abs] = st.broken
		for _, x := range st.findings {
			w.findings[abs+" "+x]++
		}
	}
	return writeTree(e, name, files), targets, w
}

type p06Err struct {
	line, col int
	msg       string
}

func (w *p06Want) compare(issues []string, errs map[string][]p06Err) string {
	var bad []string
	got := map[string]int{}
	for _, i := range issues {
		dir, _, _ := strings.Cut(i, " G")
		if l, ok := w.loose[dir]; !ok {
			bad = append(bad, "finding outside the requested packages: "+i)
		} else if !l {
			got[i]++
		}
	}
	for k, n := range w.findings {
		if got[k] != n {
			bad = append(bad, fmt.Sprintf("finding %s: want %d got %d", k, n, got[k]))
		}
		delete(got, k)
	}
	for k := range got {
		bad = append(bad, "unexpected finding "+k)
	}
	for f, ps := range w.errs {
		have := map[p06Pos]int{}
		last := p06Pos{}
		for _, x := range errs[f] {
			p := p06Pos{x.line, x.col}
			have[p]++
			if p.line < last.line || p.line == last.line && p.col < last.col {
				bad = append(bad, fmt.Sprintf("errors of %s are not in order: %v", f, errs[f]))
			}
			last = p
			if x.msg == "" || x.line < 1 || x.col < 1 {
				bad = append(bad, fmt.Sprintf("empty error of %s: %v", f, x))
			}
		}
		for _, p := range ps {
			if have[p] == 0 {
				bad = append(bad, fmt.Sprintf("%s:%d:%d not reported, only %v", f, p.line, p.col, errs[f]))
			}
		}
	}
	for d, txt := range w.dirErrs {
		ok := false
		for _, x := range errs[d] {
			ok = ok || strings.Contains(x.msg, txt)
		}
		if !ok {
			bad = append(bad, fmt.Sprintf("no error with %q under %s: %v", txt, d, errs[d]))
		}
	}
	for f, es := range errs {
		if _, ok := w.errs[f]; !ok && w.dirErrs[f] == "" && !(f == "" && w.anyErr) {
			bad = append(bad, fmt.Sprintf("errors under %q of a sound package: %v", f, es))
		}
		seen := map[string]bool{}
		for _, x := range es {
			if k := fmt.Sprint(x); seen[k] {
				bad = append(bad, fmt.Sprintf("error of %s reported twice: %v", f, x))
			} else {
				seen[k] = true
			}
		}
	}
	sort.Strings(bad)
	return strings.Join(bad, "\n")
}

func p06Tuples(e *core.Env) [][]int {
	var out [][]int
	n := len(p06States)
	for i := 0; i < n; i++ {
		out = append(out, []int{i})
		for j := 0; j < n; j++ {
			out = append(out, []int{i, j})
			if e.Thorough {
				for k := 0; k < n; k++ {
					out = append(out, []int{i, j, k})
				}
			}
		}
	}
	return out
}

func p06Name(tuple []int) string {
	var s []string
	for _, i := range tuple {
		s = append(s, p06States[i].name)
	}
	return strings.Join(s, ",")
}

// p06Errors: every position of an error in a file, for every kind of error.
var p06Kinds = []string{"var _ = @u", "var _ int = @\"s\"", "func _() { var @x int }", "func _() int { @}", "import @\"os\"", "var _ = struct{}{}.@x", "func _() { a := 1; a @b }", "type _ struct { @u }", "var _ int = 1 +@%!", "func _() { @break }", "var _, _ = @u, @v"}

func p06Positions(e *core.Env, shard, n int, r *core.Rec) {
	i := -1
	for ki, kind := range p06Kinds {
		for _, indent := range []string{"", "\t\t", "/*é世*/ "} {
			for lead := 0; lead < 4; lead++ {
				for _, tail := range []string{"", "\n", "\n\nfunc Z() {}\n", "\r\n"} {
					i++
					if i%n != shard || (!e.Thorough && i%3 != 0) {
						continue
					}
					if strings.HasPrefix(kind, "import") && lead == 3 {
						continue
					}
					src := "package p\n" + []string{"", "\n", "// é\n/* x\n*/", "func A() {}\n"}[lead] + indent + kind + tail
					txt, ps := p06Strip(src)
					dir := writeTree(e, fmt.Sprintf("p06e-%d", i), map[string]string{"q/a.go": txt})
					w := &p06Want{errs: map[string][]p06Pos{filepath.Join(dir, "q/a.go"): ps}, loose: map[string]bool{filepath.Join(dir, "q"): true}, dirErrs: map[string]string{}, anyErr: true}
					key := fmt.Sprintf("kind %d indent %q lead %d tail %q", ki, indent, lead, tail)
					bad := p06Scan(dir, []string{"./q"}, w)
					os.RemoveAll(dir)
					r.Evals++
					r.Transitions++
					r.State(key)
					if bad != "" {
						r.Violate(key, txt, "%s\nsource:\n%s", bad, txt)
					}
				}
			}
		}
	}
}

// p06Files: what a file of a package with several may hold.
var p06Files = []string{
	"func cID() {}\n",
	"var _ = @u\n",
	strings.Repeat("var _ int = @\"s\"\n", 5),
	strings.Repeat("var _ = @u\nfunc _() int { return @\"s\" }\n", 11),
	"func _() { a := 1; a @b }\n",
	strings.Repeat("func _() {\n\tvar a int\n\ta @b\n}\n", 6),
	strings.Repeat("\n", 300) + "var _ = @u" + strings.Repeat(" // x", 300) + "\nvar _ = /*" + strings.Repeat("-", 3000) + "*/ @u\n",
	"func _() { @break }\nvar _ = @u\nfunc _() { var @x int }\n",
}

// p06Mixed scans packages of two files of every kind, and with three of them in order.
func p06Mixed(e *core.Env, first int, r *core.Rec) {
	for second := range p06Files {
		for third := -1; third < len(p06Files); third++ {
			if !e.Thorough && third > second {
				continue
			}
			files := map[string]string{}
			w := &p06Want{errs: map[string][]p06Pos{}, loose: map[string]bool{}, dirErrs: map[string]string{}}
			root := filepath.Join(e.Scratch, fmt.Sprintf("p06m-%d", first))
			for i, k := range []int{first, second, third} {
				if k < 0 {
					continue
				}
				name := []string{"q/b.go", "q/a.go", "q/c.go"}[i]
				txt, ps := p06Strip("package p\n\n" + strings.ReplaceAll(p06Files[k], "ID", fmt.Sprint(i)))
				files[name] = txt
				if len(ps) > 0 {
					w.errs[filepath.Join(root, name)] = ps
					w.anyErr = true
				}
			}
			w.loose[filepath.Join(root, "q")] = w.anyErr
			dir := writeTree(e, filepath.Base(root), files)
			key := fmt.Sprintf("files %d %d %d", first, second, third)
			bad := p06Scan(dir, []string{"./q"}, w)
			os.Chdir(e.Scratch)
			os.RemoveAll(dir)
			r.Evals++
			r.Transitions += 3
			r.State(key)
			if bad != "" {
				r.Violate(key, key, "%s", bad)
			}
		}
	}
}

// p06Deps are faulty packages with sound declarations, on which sound packages depend.
var p06Deps = []string{
	"func x() int { return @u }\n",
	"func x() { @u(); var @y int }\n",
	"var X int = @\"s\"\n",
	"func X(t @U) @U { return t }\n",
	"import @\"os\"\n",
	"import @\"ex.test/nope\"\n",
	"func X() {}\nfunc @X() {}\n",
	"var A int = @u\nvar B int = @\"s\"\nvar D = @v\n",
	strings.Repeat("func _() { @u() }\n", 12),
}

// p06Users are what sound packages do with it.
var p06Users = []string{
	"import _ \"ex.test/dep\"\n",
	"import \"ex.test/dep\"\n\nconst c = dep.C\n",
	"import \"ex.test/dep\"\n\nfunc c() (int, error) { return dep.F(dep.C), dep.V.E }\n",
	"import \"ex.test/mid\"\n\nvar c = mid.M\n",
	"import (\n\t\"ex.test/dep\"\n\t\"ex.test/mid\"\n)\n\nvar c = mid.M + dep.F(1)\n",
}

// p06Depend scans sound packages which depend on faulty ones, alone, along with these and before and after them.
func p06Depend(e *core.Env, k int, r *core.Rec) {
	for u, user := range p06Users {
		depSrc, ps := p06Strip("package dep\n\n" + map[bool]string{true: p06Deps[k] + "\nconst C = 1\n"}[strings.HasPrefix(p06Deps[k], "import")] + map[bool]string{true: "const C = 1\n" + p06Deps[k]}[!strings.HasPrefix(p06Deps[k], "import")] + "\ntype T struct{ E error }\n\nvar V T\n\nfunc F(n int) int { return n }\n")
		head := "package use\n\n" + user
		src := head + strings.TrimPrefix(strings.Replace(p06Vuln, "package v\n\nimport \"crypto/md5\"\n", "", 1), "\n")
		src = strings.Replace(src, "import ", "import \"crypto/md5\"\nimport ", 1)
		line := func(text string) string {
			before, _, ok := strings.Cut(src, text)
			if !ok {
				core.Infra("no %q", text)
			}
			return fmt.Sprint(1 + strings.Count(before, "\n"))
		}
		dir := writeTree(e, fmt.Sprintf("p06d-%d-%d", k, u), map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "dep/a.go": depSrc, "mid/a.go": "package mid\n\nimport \"ex.test/dep\"\n\nvar M = dep.F(dep.C)\n", "use/a.go": src, "far/a.go": p06Vuln})
		for _, targets := range [][]string{{"./use"}, {"./use", "./dep"}, {"./dep", "./use"}, {"./mid", "./use"}, {"./far", "./use", "./mid", "./dep"}, {"./dep", "./mid", "./use", "./far"}} {
			w := &p06Want{errs: map[string][]p06Pos{}, loose: map[string]bool{}, dirErrs: map[string]string{}, findings: map[string]int{}}
			for _, t := range targets {
				abs := filepath.Join(dir, t)
				w.loose[abs] = t == "./dep"
				switch t {
				case "./dep":
					w.errs[filepath.Join(abs, "a.go")] = ps
					w.anyErr = true
				case "./far":
					for _, x := range p06VulnWant {
						w.findings[abs+" "+x]++
					}
				case "./use":
					w.findings[abs+" G501:a.go:"+line("\"crypto/md5\"")]++
					w.findings[abs+" G401:a.go:"+line("md5.New")]++
					w.findings[abs+" G115:a.go:"+line("int8(x)")]++
				}
			}
			key := fmt.Sprintf("dependency %d, user %d, targets %v", k, u, targets)
			bad := p06Scan(dir, targets, w)
			os.Chdir(e.Scratch)
			r.Evals++
			r.Transitions += len(targets)
			r.State(key)
			if bad != "" {
				r.Violate(key, key, "%s\nthe package depends on\n%s", bad, depSrc)
			}
		}
		os.RemoveAll(dir)
	}
	r.Sample("users of\n" + p06Deps[k])
}

// p06Tests scans packages with sound and faulty test files: what the files of another package of the directory hold makes
// no difference.
func p06Tests(e *core.Env, k int, r *core.Rec) {
	body := func(id string) string {
		return "func F" + id + "(x int) (any, int8) {\n\treturn md5.New(),\n\t\tint8(x)\n}\n"
	}
	imp := "\n\nimport \"crypto/md5\"\n"
	faults := []string{"", "\nvar _ = @u\n", "\nfunc _() int { return @\"s\" }\n", "\nfunc _() {\n\tvar a int\n\ta @b\n}\n"}
	for at := 0; at < len(faults)*len(faults)*3; at++ {
		in, ex, uses := at%len(faults), at/len(faults)%len(faults), at/len(faults)/len(faults)
		extImp := "\n\nimport (\n\t\"crypto/md5\"\n\tv \"ex.test/p\"\n)\n\nvar _ = v.FA\n"
		if uses == 0 {
			extImp = imp
		}
		if uses == 2 {
			extImp = strings.Replace(extImp, "v.FA", "v.FA(2)", 1)
			extImp = strings.Replace(extImp, "var _ =", "var _, _ =", 1)
		}
		src := map[string]string{
			"a.go":      "package v" + imp + "\n" + body("A") + faults[k],
			"a_test.go": "package v" + imp + "\n" + body("B") + faults[in],
			"x_test.go": "package v_test" + extImp + "\n" + body("C") + faults[ex],
		}
		root := filepath.Join(e.Scratch, fmt.Sprintf("p06t-%d-%d", k, at))
		files := map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n"}
		w := &p06Want{errs: map[string][]p06Pos{}}
		var want []string // findings of the sound parts
		for n, s := range src {
			txt, ps := p06Strip(s)
			files["p/"+n] = txt
			if len(ps) > 0 {
				w.errs[filepath.Join(root, "p", n)] = ps
			}
			broken := n == "a.go" && k > 0 || n == "a_test.go" && (k > 0 || in > 0) || n == "x_test.go" && (ex > 0 || uses > 0 && k > 0)
			for _, x := range []string{"G501 \"crypto/md5\"", "G401 return md5", "G115 \tint8(x)"} {
				before, _, _ := strings.Cut(txt, x[5:])
				if !broken {
					want = append(want, fmt.Sprintf("%s:%s:%d", x[:4], n, 1+strings.Count(before, "\n")))
				}
			}
		}
		dir := writeTree(e, filepath.Base(root), files)
		if err := os.Chdir(dir); err != nil {
			core.Infra("%v", err)
		}
		key := fmt.Sprintf("test files: package fault %d, test fault %d, external test fault %d, use %d", k, in, ex, uses)
		a := core.NewAnalyzer(core.Opts{Tests: true})
		if err := a.Process(nil, "./p"); err != nil {
			r.Violate(key, key, "the scan was aborted: %v", err)
		}
		is, _, errs := a.Report()
		os.Chdir(e.Scratch)
		os.RemoveAll(dir)
		got := map[string]int{}
		for _, x := range is {
			got[fmt.Sprintf("%s:%s:%s", x.RuleID, filepath.Base(x.File), x.Line)]++
		}
		for _, x := range want {
			if got[x] != 1 {
				r.Violate(key+" "+x, key, "finding %s: %d times, want 1; all: %v", x, got[x], got)
			}
		}
		for x, n := range got {
			if n > 1 {
				r.Violate(key+" "+x, key, "finding %s: %d times", x, n)
			}
		}
		have := p06Convert(errs)
		for f, ps := range w.errs {
			for _, p := range ps {
				n := 0
				for _, x := range have[f] {
					if x.line == p.line && x.col == p.col {
						n++
					}
				}
				if n == 0 {
					r.Violate(key+" errors", key, "%s:%d:%d not reported, only %v", f, p.line, p.col, have)
				}
			}
		}
		for f := range have {
			if w.errs[f] == nil && f != "" || len(w.errs) == 0 {
				r.Violate(key+" errors", key, "errors under %q of a sound package: %v", f, have[f])
			}
		}
		r.Evals++
		r.Transitions++
		r.State(key)
	}
	r.Sample("test files, fault " + faults[k])
}

// p06Mods are module files, sound and faulty.
var p06Mods = []string{
	"module ex.test\n\ngo 1.23\n", "module ex.test\n", "module ex.test\n\ngo 1.99\n", "garbage here\n", "", "module ex.test\n\ngo 1.23\n\nrequire foo.test/x v1.0.0\n",
	"module ex.test\n\ngo 1.23\n\nrequire foo.test/x v1\n", "module ex.test\n\ngo 1.23\n\nreplace foo.test/x => ./nowhere\n\nrequire foo.test/x v0.0.0\n", "module ex.test\n\ngo 1.23\n\ntoolchain go1.99.0\n", "-",
}

// p06Modules scans packages of a module and of one within it: the findings of each are all reported, or an error is.
func p06Modules(e *core.Env, k int, r *core.Rec) {
	for in, inner := range p06Mods {
		files := map[string]string{"p/a.go": p06Vuln, "n/p/a.go": p06Vuln, "n/q/a.go": strings.Replace(p06Vuln, "func F", "var _ = undefined\n\nfunc F", 1), "w/a.go": p06Vuln + "\nvar _ = x.Y\n"}
		files["w/a.go"] = strings.Replace(files["w/a.go"], "import \"crypto/md5\"", "import (\n\t\"crypto/md5\"\n\tx \"foo.test/x\"\n)", 1)
		if p06Mods[k] != "-" {
			files["go.mod"] = p06Mods[k]
		}
		if inner != "-" {
			files["n/go.mod"] = inner
		}
		dir := writeTree(e, fmt.Sprintf("p06g-%d-%d", k, in), files)
		for _, targets := range [][]string{{"./p"}, {"./n/p"}, {"./p", "./n/p"}, {"./n/q", "./w", "./p", "./n/p"}} {
			if err := os.Chdir(dir); err != nil {
				core.Infra("%v", err)
			}
			key := fmt.Sprintf("module %d, inner module %d, targets %v", k, in, targets)
			a := core.NewAnalyzer(core.Opts{})
			if err := a.Process(nil, targets...); err != nil {
				r.Violate(key, key, "the scan was aborted: %v", err)
				continue
			}
			is, _, errs := a.Report()
			for _, t := range targets {
				n, recorded := 0, len(errs[t]) > 0
				for _, x := range is {
					if filepath.Dir(x.File) == filepath.Join(dir, t) {
						n++
					}
				}
				for f := range errs {
					recorded = recorded || filepath.Dir(f) == filepath.Join(dir, t)
				}
				sound := t == "./p" && k == 0 || t == "./n/p" && k == 0 && in == 0
				faulty := t == "./n/q" || t == "./w"
				switch {
				case n > 3 || n < 3 && !recorded:
					r.Violate(key+" "+t, key, "%d findings of %s, errors %v", n, t, errs)
				case faulty && !recorded:
					r.Violate(key+" "+t, key, "no error of %s: %v", t, errs)
				case sound && (recorded || n != 3):
					r.Violate(key+" "+t, key, "%d findings of %s, which is sound, errors %v", n, t, errs)
				}
			}
			r.Evals++
			r.Transitions += len(targets)
			r.State(key)
		}
		os.Chdir(e.Scratch)
		os.RemoveAll(dir)
	}
	r.Sample("module file " + p06Mods[k])
}

func p06Scan(dir string, targets []string, w *p06Want) string {
	if err := os.Chdir(dir); err != nil {
		core.Infra("%v", err)
	}
	a := core.NewAnalyzer(core.Opts{})
	if err := a.Process(nil, targets...); err != nil {
		return "the scan was aborted: " + err.Error()
	}
	is, _, errs := a.Report()
	var got []string
	for _, x := range is {
		got = append(got, fmt.Sprintf("%s %s:%s:%s", filepath.Dir(x.File), x.RuleID, filepath.Base(x.File), x.Line))
	}
	return w.compare(got, p06Convert(errs))
}

func p06Convert(errs map[string][]gosec.Error) map[string][]p06Err {
	out := map[string][]p06Err{}
	for f, l := range errs {
		for _, x := range l {
			out[f] = append(out[f], p06Err{x.Line, x.Column, x.Err})
		}
	}
	return out
}

func p06CLI(e *core.Env, k int, r *core.Rec) {
	tuple := p06Tuples(e)[k]
	if len(tuple) > 2 {
		return
	}
	name := p06Name(tuple)
	dir, targets, w := p06Tree(e, fmt.Sprintf("p06c-%d", k), tuple)
	defer os.RemoveAll(dir)
	fail := w.anyErr || len(w.findings) > 0
	for mi, m := range [][]string{{}, {"-no-fail"}, {"-quiet"}, {"-quiet", "-no-fail"}, {"-fmt=text", "-quiet"}} {
		if len(tuple) == 2 && mi != 0 && mi != 2 && !e.Thorough {
			continue
		}
		args := append([]string{"-fmt=json"}, append(m, targets...)...)
		res := runGosec(e, dir, []string{"GOWORK=off"}, args...)
		r.Evals++
		r.Transitions++
		r.Stats["command_runs"]++
		key := fmt.Sprintf("command %v on %s", m, name)
		wantCode := 0
		if fail && !has(m, "-no-fail") {
			wantCode = 1
		}
		r.State(fmt.Sprint(wantCode, m, w.errs != nil, name))
		if res.code != wantCode {
			r.Violate(key+" exit", key, "exit status %d, want %d\n%.600s", res.code, wantCode, res.stderr)
			continue
		}
		if !fail && has(m, "-quiet") {
			if res.stdout != "" {
				r.Violate(key+" output", key, "output of a quiet clean scan: %.300s", res.stdout)
			}
			continue
		}
		if has(m, "-fmt=text") {
			for f, ps := range w.errs {
				for _, p := range ps {
					if !strings.Contains(res.stdout, "Golang errors in file: ["+f+"]") || !strings.Contains(res.stdout, fmt.Sprintf("> [line %d : column %d] - ", p.line, p.col)) {
						r.Violate(key+" text", key, "the text report does not show %s:%d:%d\n%.1000s", f, p.line, p.col, res.stdout)
					}
				}
			}
			continue
		}
		var rep jsonReport
		if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil {
			r.Violate(key+" json", key, "no JSON report: %v\n%.300s\n%.600s", err, res.stdout, res.stderr)
			continue
		}
		var got []string
		for _, x := range rep.Issues {
			got = append(got, fmt.Sprintf("%s %s:%s:%s", filepath.Dir(x.File), x.RuleID, filepath.Base(x.File), x.Line))
		}
		errs := map[string][]p06Err{}
		for f, l := range rep.Errors {
			for _, x := range l {
				errs[f] = append(errs[f], p06Err{x.Line, x.Column, x.Error})
			}
		}
		if bad := w.compare(got, errs); bad != "" {
			r.Violate(key, key, "%s", bad)
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID: "P06", Level: "model_checking",
		Rule:   "a state is a distinct ordered tuple of package health states or a distinct (error kind, position) pair; each is loaded and scanned by the real analyzer (and the built command) and compared with hand-marked error positions and findings",
		Bounds: "19 health states: all single packages and ordered pairs (thorough: triples) through Analyzer.Process, all singles (5 flag sets) and pairs (2 flag sets, thorough 5) through the command; 11 error kinds x 3 indentations x 4 leads x 4 tails (quick: a third); packages of two and three files, each of 8 kinds with up to 22 errors of types or syntax (quick: the third file no further than the second); 5 sound packages which depend on 9 faulty ones, directly or not, with 6 lists of targets; 192 combinations of faults in a package, its tests and its external tests; 100 pairs of sound and faulty module files with 4 lists of targets",
		Prepare: func(e *core.Env) error {
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for k, t := range p06Tuples(e) {
				if len(t) < 3 {
					u = append(u, fmt.Sprintf("cli %d", k))
				}
				u = append(u, fmt.Sprintf("scan %d", k))
			}
			for i := 0; i < 16; i++ {
				u = append(u, fmt.Sprintf("pos %d", i))
			}
			for i := range p06Files {
				u = append(u, fmt.Sprintf("mixed %d", i))
			}
			for i := range p06Deps {
				u = append(u, fmt.Sprintf("depend %d", i))
			}
			for i := 0; i < 4; i++ {
				u = append(u, fmt.Sprintf("tests %d", i))
			}
			for i := range p06Mods {
				u = append(u, fmt.Sprintf("module %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			os.Setenv("GOWORK", "off")
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			switch kind {
			case "cli":
				p06CLI(e, k, r)
			case "depend":
				p06Depend(e, k, r)
			case "module":
				p06Modules(e, k, r)
			case "tests":
				p06Tests(e, k, r)
			case "mixed":
				p06Mixed(e, k, r)
			case "pos":
				p06Positions(e, k, 16, r)
			default:
				t := p06Tuples(e)[k]
				dir, targets, w := p06Tree(e, fmt.Sprintf("p06s-%d", k), t)
				bad := p06Scan(dir, targets, w)
				os.Chdir(e.Scratch)
				os.RemoveAll(dir)
				r.Evals++
				r.Transitions += len(t)
				r.State("scan " + p06Name(t))
				if bad != "" {
					r.Violate("scan "+p06Name(t), p06Name(t), "%s", bad)
				}
				if k < 3 {
					r.Sample(p06Name(t))
				}
			}
		},
	})
}
