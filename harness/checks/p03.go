package checks

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"

	"verifharness/core"
	"verifharness/instr"
	"verifharness/shim"
)

// P03: the real Process runs on the controlled scheduler (its goroutines, channels and locks are redirected to shim by
// an overlay of the current sources); every schedule within the preemption bound is run and compared with what a
// sequential scan must produce. Loading is replaced by a table of pre-type-checked packages with chosen outcomes.

// buildInstrumented builds the worker from instrumented sources.
func buildInstrumented(e *core.Env, o instr.Options, name string, pkg string, flags ...string) (string, *instr.Summary, error) {
	out := filepath.Join(e.Scratch, "instr-"+name)
	if err := os.MkdirAll(out, 0o700); err != nil {
		return "", nil, err
	}
	o.Repo, o.Out = e.Repo, out
	sum, err := instr.Instrument(o)
	if err != nil {
		return "", nil, err
	}
	bin := filepath.Join(out, "bin-"+name)
	cmd := exec.Command("go", append(append([]string{"build", "-overlay", sum.Overlay, "-o", bin}, flags...), pkg)...)
	cmd.Dir = filepath.Join(e.Verif, "harness")
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", nil, fmt.Errorf("building instrumented sources: %v\n%s", err, b)
	}
	return bin, sum, nil
}

const (
	p03Plain  = "package p\n\nfunc conv(a int) int8 {\n\tpassword := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\t_ = password\n\treturn int8(a)\n}\n"
	p03Tagged = "//go:build foo\n\npackage p\n\nfunc tagged(a int) int8 { return int8(a) }\n"
	p03Clean  = "package p\n\nfunc clean() {}\n"
	p03Nosec  = "package p\n\nfunc q() string {\n\tpassword := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\" // #nosec\n\treturn password\n}\n"
)

// kinds of package the scans are composed of.
var p03Kinds = []struct {
	name  string
	files map[string]string
}{
	{"vuln", map[string]string{"a.go": p03Plain, "t.go": p03Tagged}},
	{"clean", map[string]string{"a.go": p03Clean, "t.go": p03Tagged}},
	{"nosec", map[string]string{"a.go": p03Nosec}},
	{"typeerr", map[string]string{"a.go": p03Plain}},
	{"loaderr", map[string]string{"a.go": p03Plain}},
	{"abort", map[string]string{"a.go": p03Plain}},
	{"missing", nil},
	{"empty", map[string]string{"t.go": p03Tagged}},
}

type p03Case struct {
	kinds   []int
	workers int
	tags    bool
}

func (c p03Case) String() string {
	var k []string
	for _, i := range c.kinds {
		k = append(k, p03Kinds[i].name)
	}
	if len(k) > 12 {
		return fmt.Sprintf("workers=%d tags=%v packages=[%s and so on, %d]", c.workers, c.tags, strings.Join(k[:8], " "), len(k))
	}
	return fmt.Sprintf("workers=%d tags=%v packages=[%s]", c.workers, c.tags, strings.Join(k, " "))
}

func p03Cases(e *core.Env) (out []string) {
	if e.Data["native"] != "" {
		for w := 1; w <= 4; w++ {
			out = append(out, fmt.Sprintf("native|0|%d|true|[0 2 6 7]", w), fmt.Sprintf("native|0|%d|false|[7 6 1 0]", w), fmt.Sprintf("native|0|%d|true|[]", w))
		}
		return out
	}
	var seqs func(n int) [][]int
	seqs = func(n int) [][]int {
		if n == 0 {
			return [][]int{{}}
		}
		var r [][]int
		for _, s := range seqs(n - 1) {
			for k := range p03Kinds {
				r = append(r, append(append([]int{}, s...), k))
			}
		}
		return r
	}
	add := func(mode string, bound, w int, tags bool, ks []int) {
		out = append(out, fmt.Sprintf("%s|%d|%d|%v|%v", mode, bound, w, tags, ks))
	}
	max := 3
	if e.Thorough {
		max = 4
	}
	for n := 0; n <= max; n++ {
		for _, ks := range seqs(n) {
			for w := 1; w <= 3; w++ {
				if n == max && !sort.IntsAreSorted(ks) && w != 2 {
					continue // every order is explored with two workers, every multiset with one and three
				}
				if n == 4 && (w == 3 || !sort.IntsAreSorted(ks)) {
					continue
				}
				b := 2
				if n >= 3 {
					b = 1
				}
				if e.Thorough {
					b++
				}
				add("sync", b, w, (n+w)%2 == 0, ks)
				if n <= 2 {
					add("sync", b, w, (n+w)%2 != 0, ks)
				}
			}
		}
	}
	for n := 1; n <= 2; n++ {
		for _, ks := range seqs(n) {
			b := 1
			if e.Thorough && n == 2 {
				b = 2
			}
			add("stmt", b, 2, true, ks)
		}
	}
	if e.Thorough {
		for _, ks := range seqs(3) {
			if sort.IntsAreSorted(ks) {
				add("stmt", 1, 2, true, ks)
				add("stmt", 1, 3, true, ks)
			}
		}
	}
	for _, n := range p03Sizes(e) { // the mix of packages starts anywhere
		for k, w := range []int{1, 2, 3, 8, 16, 64} {
			if n < 40 || e.Thorough || k%2 == n%2 {
				add("scale", 0, w, n%2 == 0, []int{n, (n + k) % 7, -1})
			}
		}
		add("scale", 0, 1+n%4, true, []int{n, n % 7, n / 2}) // with a package that ends the scan
	}
	for k := range p03Kinds {
		for w := 2; w <= 3; w++ {
			out = append(out, fmt.Sprintf("race|1|%d|true|[%d]", w, k))
		}
	}
	return out
}

// p03Sizes are the numbers of packages of the large scans.
func p03Sizes(e *core.Env) []int {
	if e.Thorough {
		out := []int{}
		for n := 5; n <= 140; n++ {
			out = append(out, n)
		}
		return append(out, 200, 254, 255, 256, 257, 258, 300)
	}
	return []int{5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
}

const p03Most = 300

// p03Mix are the packages of a large scan: n of them, of all kinds in turn beginning with the first-th, and the abort-th
// of the kind which ends the scan.
func p03Mix(n, first, abort int) (ks []int) {
	order := []int{1, 0, 6, 2, 3, 4, 7} // clean vuln missing nosec typeerr loaderr empty
	for i := range n {
		k := order[(first+i)%len(order)]
		if i == abort {
			k = 5
		}
		ks = append(ks, k)
	}
	return ks
}

type p03Lib struct {
	dir   string // parent of the package directories
	pkgs  map[string]*packages.Package
	loads []string
	alone map[string]p03Alone
	ld    *core.Loader
}

// p03Alone is what a package gives on its own.
type p03Alone struct {
	issues []string
	m      gosec.Metrics
}

var p03lib *p03Lib

func p03Setup(e *core.Env) *p03Lib {
	if p03lib != nil {
		return p03lib
	}
	l := &p03Lib{dir: filepath.Join(e.Scratch, "pkgs"), pkgs: map[string]*packages.Package{}, alone: map[string]p03Alone{}, ld: getLoader(e)}
	for pos := 0; pos < 4; pos++ {
		for k := range p03Kinds {
			l.add(pos, k)
		}
	}
	p03lib = l
	return l
}

// add type-checks the packages of a kind at a position.
func (l *p03Lib) add(pos, kind int) {
	k := p03Kinds[kind]
	if k.files == nil {
		return
	}
	d := l.pkgDir(pos, k.name)
	for _, sel := range [][]string{{"a.go"}, {"a.go", "t.go"}, {"t.go"}} {
		var fs []core.File
		key := d
		for _, n := range sel {
			if src, ok := k.files[n]; ok {
				fs = append(fs, core.File{Name: filepath.Join(d, n), Src: src})
				key += " " + n
			}
		}
		if len(fs) == 0 || l.pkgs[key] != nil {
			continue
		}
		p := l.ld.MustLoad(fmt.Sprintf("ex.test/%s%d", k.name, pos), fs...)
		p.Name = "p" + fmt.Sprint(pos)
		switch k.name {
		case "typeerr":
			p.Errors = []packages.Error{{Pos: filepath.Join(d, "a.go") + ":9:4", Msg: "undefined: z"}, {Pos: filepath.Join(d, "a.go") + ":2:7", Msg: "undefined: y"}}
		case "abort":
			p.Errors = []packages.Error{{Pos: filepath.Join(d, "a.go") + ":nine:4", Msg: "undefined: z"}}
		}
		l.pkgs[key] = p
	}
}

func (l *p03Lib) pkgDir(pos int, kind string) string {
	return filepath.Join(l.dir, fmt.Sprintf("%d%s", pos, kind))
}

// hook stands in for packages.Load: the go command rejects build tags passed as flags without a dash.
func (l *p03Lib) hook(conf *packages.Config, patterns ...string) ([]*packages.Package, error) {
	key, dir := "", ""
	var names []string
	for _, p := range patterns {
		dir = filepath.Dir(p)
		names = append(names, filepath.Base(p))
	}
	sort.Strings(names)
	key = dir + " " + strings.Join(names, " ")
	l.loads = append(l.loads, key)
	if len(conf.BuildFlags) > 0 {
		return nil, fmt.Errorf("go list: malformed import path %q", conf.BuildFlags[0])
	}
	if strings.HasSuffix(dir, "loaderr") {
		return nil, errors.New("go list failed")
	}
	p := l.pkgs[key]
	if p == nil {
		return nil, fmt.Errorf("VH unexpected files %q", key)
	}
	return []*packages.Package{p}, nil
}

type p03Out struct {
	err    string
	issues []string
	stats  string
	errs   string
	loads  string
}

func (o p03Out) String() string {
	return fmt.Sprintf("error: %s\nissues: %s\nmetrics: %s\nerrors: %s\nloaded: %s", o.err, core.Join(o.issues), o.stats, o.errs, o.loads)
}

func (l *p03Lib) analyzer(workers int) *gosec.Analyzer {
	return core.NewAnalyzerN(core.Opts{Include: []string{"G101", "G115"}}, workers)
}

func renderErrs(m map[string][]gosec.Error) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := ""
	for _, k := range ks {
		out += fmt.Sprintf("%s%v;", filepath.Base(filepath.Dir(k))+"/"+filepath.Base(k), m[k])
	}
	return out
}

// expect is the model: the union of what each package gives on its own.
func (l *p03Lib) expect(c p03Case) (o p03Out) {
	var m gosec.Metrics
	errs := map[string][]gosec.Error{}
	var loads []string
	for pos, k := range c.kinds {
		kind := p03Kinds[k]
		d := l.pkgDir(pos, kind.name)
		var names []string
		for n := range kind.files {
			if n != "t.go" || c.tags {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		if len(names) == 0 {
			continue // missing directories and packages without files for these tags are skipped
		}
		key := d + " " + strings.Join(names, " ")
		loads = append(loads, key)
		switch kind.name {
		case "loaderr":
			errs[d] = append(errs[d], gosec.Error{Err: fmt.Sprintf("loading files from package %q: go list failed", d)})
			continue
		case "abort":
			o.err = "parsing errors"
			continue
		case "typeerr":
			f := filepath.Join(d, "a.go")
			errs[f] = []gosec.Error{{Line: 2, Column: 7, Err: "undefined: y"}, {Line: 9, Column: 4, Err: "undefined: z"}}
		}
		one, ok := l.alone[key]
		if !ok {
			is, am := core.Scan(core.Opts{Include: []string{"G101", "G115"}}, l.pkgs[key])
			one.m = *am
			for _, i := range is {
				one.issues = append(one.issues, filepath.Base(filepath.Dir(i.File))+"/"+core.IssueKey(i))
			}
			l.alone[key] = one
		}
		o.issues = append(o.issues, one.issues...)
		pm := one.m
		m.NumFiles += pm.NumFiles
		m.NumLines += pm.NumLines
		m.NumNosec += pm.NumNosec
		m.NumFound += pm.NumFound
	}
	sort.Strings(o.issues)
	sort.Strings(loads)
	o.stats, o.errs, o.loads = fmt.Sprintf("%+v", m), renderErrs(errs), strings.Join(loads, ", ")
	if o.err != "" { // what was examined before the abort depends on the order of completion
		o.issues, o.stats, o.errs, o.loads = nil, "", "", ""
	}
	return o
}

func p03Parse(u string) (mode string, bound int, c p03Case) {
	p := strings.Split(u, "|")
	mode = p[0]
	fmt.Sscan(p[1], &bound)
	fmt.Sscan(p[2], &c.workers)
	c.tags = p[3] == "true"
	for _, f := range strings.Fields(strings.Trim(p[4], "[]")) {
		var k int
		fmt.Sscan(f, &k)
		c.kinds = append(c.kinds, k)
	}
	return
}

func init() {
	core.Register(&core.Check{
		ID: "P03", Level: "model_checking",
		Rule:   "every schedule of the loading workers gives the sequential result, terminates and leaves no worker blocked",
		Bounds: "1-3 workers, all sequences of up to 3 (thorough 4) packages over 8 load outcomes, with and without build tags; every schedule with at most 2 preemptions (1 from three packages on; one more in thorough) at synchronisation points, and at most 1 (thorough 2) at statement granularity for one and two packages; scans of 28 numbers of packages up to 300 with up to 64 workers on the first four schedules",
		Assumptions: []string{"memory accesses of one statement are atomic in the model (data races inside a statement are not explored)",
			"packages.Load is replaced by a table of pre-type-checked packages which rejects build flags the go command would reject"},
		Prepare: func(e *core.Env) error {
			if err := core.PrepareStd(e); err != nil {
				return err
			}
			for pos := 0; pos < p03Most; pos++ {
				for _, k := range p03Kinds {
					d := filepath.Join(e.Scratch, "pkgs", fmt.Sprintf("%d%s", pos, k.name))
					if k.files == nil {
						continue
					}
					if err := os.MkdirAll(d, 0o700); err != nil {
						return err
					}
					for n, src := range k.files {
						if err := os.WriteFile(filepath.Join(d, n), []byte(src), 0o600); err != nil {
							return err
						}
					}
				}
			}
			if err := os.WriteFile(filepath.Join(e.Scratch, "pkgs", "go.mod"), []byte("module ex.test\n\ngo 1.23\n"), 0o600); err != nil {
				return err
			}
			bin, sum, err := buildInstrumented(e, instr.Options{Sched: true}, "sched", "./cmd/vh")
			if err != nil {
				// Constructs the scheduler does not model: run the real goroutines instead and say so.
				fmt.Println("NOTE: schedules are not controlled on this tree, running natively:", err)
				e.Data["native"] = "1"
				return nil
			}
			e.Data["worker_bin"] = bin
			rbin, _, err := buildInstrumented(e, instr.Options{Sched: true}, "race", "./cmd/vh", "-race", "-gcflags=verifharness/shim=-race=false")
			if err != nil {
				return err
			}
			e.Data["race_bin"] = rbin
			e.Data["sites"] = strings.Join(sum.Sched, ", ")
			return nil
		},
		Units: p03Cases,
		Run:   p03Run,
	})
}

func p03Run(e *core.Env, unit string, r *core.Rec) {
	l := p03Setup(e)
	shim.LoadHook = l.hook
	mode, bound, c := p03Parse(unit)
	if mode == "native" {
		p03Native(l, c, r)
		return
	}
	if mode == "scale" {
		c.kinds = p03Mix(c.kinds[0], c.kinds[1], c.kinds[2])
		for pos, k := range c.kinds {
			l.add(pos, k)
		}
	}
	if mode == "race" {
		p03Race(e, unit, bound, c, r)
		return
	}
	p03Explore(l, mode, bound, c, r)
}

// p03Native runs the real scanner with its own goroutines (only when they cannot be controlled).
func p03Native(l *p03Lib, c p03Case, r *core.Rec) {
	want := l.expect(c)
	want.loads = ""
	var paths, tags []string
	for pos, k := range c.kinds {
		paths = append(paths, l.pkgDir(pos, p03Kinds[k].name))
	}
	if c.tags {
		tags = []string{"foo"}
	}
	for i := 0; i < 4; i++ {
		a := l.analyzer(c.workers)
		var got p03Out
		if err := a.Process(tags, paths...); err != nil {
			got.err = err.Error()
		} else {
			is, m, errs := a.Report()
			for _, i := range is {
				got.issues = append(got.issues, filepath.Base(filepath.Dir(i.File))+"/"+core.IssueKey(i))
			}
			sort.Strings(got.issues)
			got.stats, got.errs = fmt.Sprintf("%+v", *m), renderErrs(errs)
		}
		r.Evals++
		r.State(got.String())
		if got.String() != want.String() {
			r.Violate("native "+c.String(), c.String(), "%s\ngot\n%s\nwant\n%s", c, got, want)
			break
		}
	}
	r.Partial = true
}

// p03Race explores all extensions of the case by one package with the race detector watching the modelled ordering.
func p03Race(e *core.Env, unit string, bound int, c p03Case, r *core.Rec) {
	if shim.RaceMode {
		p03Explore(p03Setup(e), "sync", bound, c, r)
		for k := range p03Kinds {
			p03Explore(p03Setup(e), "sync", bound, p03Case{append(append([]int{}, c.kinds...), k), c.workers, c.tags}, r)
		}
		return
	}
	log := filepath.Join(e.Scratch, strings.NewReplacer("|", "_", "[", "", "]", "").Replace(unit))
	out, err := core.RunUnitIn(e, e.Data["race_bin"], "P03", unit, "GORACE=log_path="+log+" exitcode=0 halt_on_error=0 history_size=4")
	if err != nil && !strings.Contains(err.Error(), "VH-INFRA") && strings.HasPrefix(err.Error(), "crash") {
		core.Broken("race worker: %v", err)
	}
	if err != nil {
		core.Infra("race worker: %v", err)
	}
	out.MergeInto(r)
	files, _ := filepath.Glob(log + ".*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if key := raceKey(rep); key != "" {
				r.Violate("race "+key, rep, "unordered accesses to shared data while exploring %s\n%s", c, rep)
			}
		}
	}
}

// raceKey names the two accesses of a race report; races of the harness itself do not count.
func raceKey(rep string) string {
	if !strings.Contains(rep, "DATA RACE") {
		return ""
	}
	var tops []string
	lines := strings.Split(rep, "\n")
	for i, l := range lines {
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, "by ") {
			continue
		}
		for _, f := range lines[i+1:] {
			if strings.TrimSpace(f) == "" {
				break
			}
			if !strings.HasPrefix(f, "  ") || strings.HasPrefix(f, "      ") || strings.HasPrefix(f, "  runtime.") {
				continue
			}
			if strings.HasPrefix(f, "  verifharness/") {
				return ""
			}
			tops = append(tops, strings.TrimSpace(f))
			break
		}
	}
	return strings.Join(tops, " / ")
}

func p03Explore(l *p03Lib, mode string, bound int, c p03Case, r *core.Rec) {
	want := l.expect(c)
	var paths []string
	for pos, k := range c.kinds {
		paths = append(paths, l.pkgDir(pos, p03Kinds[k].name))
	}
	var tags []string
	if c.tags {
		tags = []string{"foo"}
	}
	var got p03Out
	finished := false
	body := func() {
		got, finished = p03Out{}, false
		l.loads = nil
		a := l.analyzer(c.workers)
		err := a.Process(tags, paths...)
		if err != nil {
			got.err = err.Error()
			finished = true
			return
		}
		is, m, errs := a.Report()
		for _, i := range is {
			got.issues = append(got.issues, filepath.Base(filepath.Dir(i.File))+"/"+core.IssueKey(i))
		}
		sort.Strings(got.issues)
		got.stats, got.errs = fmt.Sprintf("%+v", *m), renderErrs(errs)
		finished = true
	}
	limit, steps := 400000, 0
	if mode == "scale" { // the canonical schedule, and those which differ from it towards the end
		limit, steps = 4, 2000000
	}
	shim.MaxSteps = steps
	n, done := shim.Explore(bound, mode == "stmt", limit, body, func(x shim.Result) bool {
		r.Evals++
		r.Transitions += x.Steps
		if x.Panic != "" && strings.Contains(x.Panic, "VH-INFRA") {
			core.Infra("%s", x.Panic)
		}
		sort.Strings(l.loads)
		got.loads = strings.Join(l.loads, ", ")
		if strings.Contains(got.err, "parsing errors") {
			got.err, got.loads = "parsing errors", ""
		}
		bad := ""
		switch {
		case x.Panic != "":
			bad = "panic: " + trimStack(x.Panic)
		case x.Deadlock:
			bad = "the scan never returns"
		case x.Livelock:
			bad = "the scan does not terminate"
		case len(x.Leaked) > 0:
			bad = fmt.Sprintf("workers stay blocked for ever: %v", x.Leaked)
		case !finished:
			bad = "the scan did not finish"
		case got.String() != want.String():
			bad = fmt.Sprintf("got\n%s\nwant\n%s", got, want)
		}
		r.State(c.String() + got.String())
		if bad != "" {
			r.Violate(mode+" "+c.String(), fmt.Sprintf("%s schedule %v", c, x.Trace), "%s, schedule %v (bound %d, %s points)\n%s", c, x.Trace, bound, mode, bad)
			return false
		}
		return true
	})
	if mode != "scale" && !done && n >= limit {
		r.Partial = true
	}
	if n > 500 {
		r.Sample(fmt.Sprintf("%s %s: %d schedules with at most %d preemptions, all gave %s", mode, c, n, bound, got))
	}
	r.Stats["schedules_"+mode] += n
}
