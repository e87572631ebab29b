package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/core"

	"github.com/securego/gosec/v2"
)

// S03: modes x directives. Model: presence, nosec mark, suppression records and metrics of every raw finding.

const s03Tmpl = `package p

import (
	"crypto/md5"
	"math/rand"
)

func use(a ...any) {}

func f(x int) { @F@
	use(md5.New(), rand.Int()) @0@
	use(int8(x)) @1@
	use(md5.New(),
		rand.Int(), int16(x)) @2@
	@3@
	use(rand.Int(), int8(x))
}
`

var s03Dirs = []string{"", "// #nosec", "// #nosec G401 -- a", "//gosec:disable G404 G115 -- b -- c"}
var s03DirRules = [][]string{nil, {}, {"G401"}, {"G404", "G115"}}
var s03Just = []string{"", "", "a", "b -- c"}

type s03Mode struct {
	nosec, show string
	track       bool
	inc, exc    []string
}

func s03Modes() []s03Mode {
	var out []s03Mode
	for _, n := range []string{"", "true", "enabled", "false"} {
		for _, sh := range []string{"", "true", "enabled"} {
			for _, t := range []bool{false, true} {
				for _, inc := range [][]string{nil, {"G401"}, {"G115", "G404"}} {
					for _, exc := range [][]string{nil, {"G404"}, {"G115"}, {"G401", "G404"}} {
						out = append(out, s03Mode{n, sh, t, inc, exc})
					}
				}
			}
		}
	}
	return out
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (m s03Mode) selected(rule string) bool {
	return (len(m.inc) == 0 || has(m.inc, rule)) && !has(m.exc, rule)
}

type s03Dir struct {
	sp   span
	just string
}

// s03Expect applies the model to one raw finding: "" when absent.
func s03Expect(m s03Mode, ds []s03Dir, b rawFinding) (string, bool) {
	var sup []string
	if m.nosec != "true" && m.nosec != "enabled" {
		for _, d := range ds {
			if d.sp.hits(b.s, b.e, b.rule) {
				sup = append(sup, "inSource|"+d.just)
			}
		}
	}
	if !m.selected(b.rule) {
		if !m.track {
			return "", false
		}
		sup = append(sup, "external|Globally suppressed.")
	}
	sort.Strings(sup)
	show := m.show != ""
	s := fmt.Sprintf("%d-%d %s", b.s, b.e, b.rule)
	if show && len(sup) > 0 {
		s += " nosec"
	}
	switch {
	case len(sup) == 0:
		return s, true
	case m.track:
		return s + " {" + strings.Join(sup, "}{") + "}", false
	case show:
		return s, false
	}
	return "", false
}

func s03Src(dirs []int, fn int) (string, []s03Dir, int) {
	src := s03Tmpl
	texts := map[string][]string{}
	n := 0
	for i, d := range dirs {
		src = strings.Replace(src, fmt.Sprintf("@%d@", i), s03Dirs[d], 1)
		if d > 0 {
			texts[s03Dirs[d]] = s03DirRules[d]
			n++
		}
	}
	f := []string{"", "// #nosec G115 -- f", "// #nosec"}[fn]
	if fn > 0 {
		n++
		texts[f] = [][]string{nil, {"G115"}, {}}[fn]
	}
	src = strings.Replace(src, "@F@", f, 1)
	just := map[string]string{}
	for i, d := range s03Dirs {
		just[fmt.Sprint(s03DirRules[i])] = s03Just[i]
		_ = d
	}
	just["[G115]"] = "f"
	var ds []s03Dir
	for _, sp := range s01Spans(src, texts) {
		ds = append(ds, s03Dir{sp, just[fmt.Sprint(sp.rules)]})
	}
	return src, ds, n
}

func s03Disarm(s string) string {
	return strings.NewReplacer("#nosec", "#xosec", "gosec:disable", "gosec:xisable").Replace(s)
}

func init() {
	core.Register(&core.Check{
		ID: "S03", Level: "model_checking",
		Rule:   "a state is a distinct (mode, expected report) pair of the model; each (program, mode) is executed on the real scanner, and a sub-family on the built command",
		Bounds: "4 nosec x 3 show-ignored x 2 tracking x 12 selections, directives from a 4-letter alphabet on 4 statements and 3 on the function; the command: 96 (quick) / 768 (thorough) runs",
		Prepare: func(e *core.Env) error {
			if err := core.PrepareStd(e); err != nil {
				return err
			}
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for a := 0; a < 4; a++ {
				for b := 0; b < 4; b++ {
					for fn := 0; fn < 3; fn++ {
						u = append(u, fmt.Sprintf("scan %d %d %d", a, b, fn))
					}
				}
			}
			n := 16
			for i := 0; i < n; i++ {
				u = append(u, fmt.Sprintf("cli %d %d 0", i, n))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var a, b, fn int
			fmt.Sscan(unit, &kind, &a, &b, &fn)
			if kind == "cli" {
				s03CLI(e, a, b, r)
				return
			}
			l := getLoader(e)
			for c := 0; c < 4; c++ {
				for d := 0; d < 4; d++ {
					if !e.Thorough && c > 0 && d > 0 && c != d {
						continue
					}
					src, ds, nd := s03Src([]int{a, b, c, d}, fn)
					pkg := l.MustLoad("p", core.File{Name: "a.go", Src: src})
					base := s03Base(l, s03Disarm(src))
					for mi, m := range s03Modes() {
						conf := gosec.NewConfig()
						if m.nosec != "" {
							conf.SetGlobal(gosec.Nosec, m.nosec)
						}
						if m.show != "" {
							conf.SetGlobal(gosec.ShowIgnored, m.show)
						}
						r.Mark(fmt.Sprintf("%+v\n%s", m, src))
						is, mt := core.Scan(core.Opts{Conf: conf, Track: m.track, Include: m.inc, Exclude: m.exc}, pkg)
						var want, got []string
						open := 0
						for _, bf := range base {
							s, unsup := s03Expect(m, ds, bf)
							if s != "" {
								want = append(want, s)
							}
							if unsup {
								open++
							}
						}
						for _, i := range is {
							x, y := parseLines(i.Line)
							s := fmt.Sprintf("%d-%d %s", x, y, i.RuleID)
							if i.NoSec {
								s += " nosec"
							}
							var sup []string
							for _, z := range i.Suppressions {
								sup = append(sup, z.Kind+"|"+z.Justification)
							}
							sort.Strings(sup)
							if len(sup) > 0 {
								s += " {" + strings.Join(sup, "}{") + "}"
							}
							got = append(got, s)
						}
						sort.Strings(want)
						sort.Strings(got)
						r.Evals++
						r.Transitions += len(base)
						r.State(fmt.Sprint(mi, want))
						key := fmt.Sprintf("%s c%d d%d %+v", unit, c, d, m)
						if core.Join(want) != core.Join(got) {
							r.Violate(key, src, "mode %+v\nwant %v\ngot  %v", m, want, got)
						}
						if m.nosec == "true" || m.nosec == "enabled" {
							nd2 := 0
							if mt.NumNosec != nd2 {
								r.Violate(key+" nosec", src, "mode %+v: %d directives counted while directives are overridden", m, mt.NumNosec)
							}
						} else if mt.NumNosec != nd {
							r.Violate(key+" nosec", src, "mode %+v: %d directives counted, %d present", m, mt.NumNosec, nd)
						}
						if lines := strings.Count(src, "\n"); mt.NumFiles != 1 || mt.NumLines != lines {
							r.Violate(key+" lines", src, "files/lines %d/%d, want 1/%d", mt.NumFiles, mt.NumLines, lines)
						}
						if m.show != "" && mt.NumFound != open {
							r.Violate(key+" found", src, "mode %+v: found %d, unsuppressed findings %d", m, mt.NumFound, open)
						}
						if mi == 40 {
							r.Sample(fmt.Sprintf("%+v\n%s=> %v", m, src, got))
						}
					}
				}
			}
		},
	})
}

func s03Base(l *core.Loader, src string) []rawFinding {
	pkg := l.MustLoad("p", core.File{Name: "a.go", Src: src})
	is, _ := core.Scan(core.Opts{}, pkg)
	var out []rawFinding
	for _, i := range is {
		s, e := parseLines(i.Line)
		out = append(out, rawFinding{s, e, i.RuleID})
	}
	if len(out) < 8 {
		core.Broken("s03: only %d raw findings in\n%s", len(out), src)
	}
	return out
}

// buildGosec builds the real command from the current tree.
func buildGosec(e *core.Env) error {
	bin := filepath.Join(e.Scratch, "gosec")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/gosec")
	cmd.Dir = e.Repo
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building cmd/gosec: %v\n%s", err, b)
	}
	e.Data["gosec"] = bin
	return nil
}

type cliResult struct {
	code           int
	stdout, stderr string
}

// runGosec runs the built command in dir.
func runGosec(e *core.Env, dir string, env []string, args ...string) cliResult {
	cmd := exec.Command(e.Data["gosec"], args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "GOGC=off", "GOMEMLIMIT=1GiB", "GOMAXPROCS=2"), env...)
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	res := cliResult{0, so.String(), se.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			core.Infra("running gosec: %v", err)
		}
		res.code = ee.ExitCode()
		if res.code < 0 { // killed from outside
			core.Infra("gosec killed: %v", ee)
		}
	}
	return res
}

// writeTree writes a module with the given files into a fresh scratch directory.
func writeTree(e *core.Env, name string, files map[string]string) string {
	dir := filepath.Join(e.Scratch, name)
	for f, s := range files {
		p := filepath.Join(dir, f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			core.Infra("%v", err)
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			core.Infra("%v", err)
		}
	}
	if _, ok := files["go.mod"]; !ok {
		os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module example.com/m\n\ngo 1.23\n"), 0o644)
	}
	return dir
}

type jsonReport struct {
	Errors map[string][]struct {
		Line, Column int
		Error        string
	} `json:"Golang errors"`
	Issues []struct {
		Severity, Confidence string
		Cwe                  *struct{ ID, URL string }
		RuleID               string `json:"rule_id"`
		Details, File, Code  string
		Line, Column         string
		Nosec                bool
		Suppressions         []struct{ Kind, Justification string }
		Autofix              string
	}
	Stats        struct{ Files, Lines, Nosec, Found int }
	GosecVersion string
}

func s03CLI(e *core.Env, shard, n int, r *core.Rec) {
	l := getLoader(e)
	i := -1
	progs := [][]int{{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {0, 2, 3, 1, 1}, {2, 3, 1, 0, 2}}
	var modes []s03Mode
	for mi, m := range s03Modes() {
		if m.nosec == "enabled" || m.nosec == "false" || m.show == "enabled" {
			continue
		}
		if e.Thorough || mi%3 == 0 {
			modes = append(modes, m)
		}
	}
	for pi, pd := range progs {
		src, ds, nd := s03Src(pd[:4], pd[4])
		base := s03Base(l, s03Disarm(src))
		for _, m := range modes {
			i++
			if i%n != shard {
				continue
			}
			dir := writeTree(e, fmt.Sprintf("s03-%d", i), map[string]string{"a.go": src})
			args := []string{"-fmt=json", "-quiet"}
			if m.nosec != "" {
				args = append(args, "-nosec="+m.nosec)
			}
			if m.show != "" {
				args = append(args, "-show-ignored")
			}
			if m.track {
				args = append(args, "-track-suppressions")
			}
			if m.inc != nil {
				args = append(args, "-include="+strings.Join(m.inc, ","))
			}
			if m.exc != nil {
				args = append(args, "-exclude="+strings.Join(m.exc, ","))
			}
			args = append(args, ".")
			var want, got []string
			open := 0
			nosel := true
			for _, bf := range base {
				if m.selected(bf.rule) {
					nosel = false
				}
				s, unsup := s03Expect(m, ds, bf)
				if s != "" {
					want = append(want, s)
				}
				if unsup {
					open++
				}
			}
			if nosel && !m.track && len(m.inc) > 0 {
				continue // nothing selected: P01
			}
			res := runGosec(e, dir, nil, args...)
			key := fmt.Sprintf("cli p%d %v", pi, args)
			r.Evals++
			r.Transitions++
			r.Stats["command_runs"]++
			var rep jsonReport
			if len(want) > 0 || res.stdout != "" {
				if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil {
					r.Violate(key, src, "no JSON report: %v\nstdout %s\nstderr %s", err, res.stdout, res.stderr)
					continue
				}
				for _, is := range rep.Issues {
					x, y := parseLines(is.Line)
					s := fmt.Sprintf("%d-%d %s", x, y, is.RuleID)
					if is.Nosec {
						s += " nosec"
					}
					var sup []string
					for _, z := range is.Suppressions {
						sup = append(sup, z.Kind+"|"+z.Justification)
					}
					sort.Strings(sup)
					if len(sup) > 0 {
						s += " {" + strings.Join(sup, "}{") + "}"
					}
					got = append(got, s)
				}
				wantDir := nd
				if m.nosec == "true" {
					wantDir = 0
				}
				if rep.Stats.Found != open || rep.Stats.Nosec != wantDir || rep.Stats.Files != 1 || rep.Stats.Lines != strings.Count(src, "\n") {
					r.Violate(key+" stats", src, "%v: stats %+v, want found %d nosec %d files 1 lines %d", args, rep.Stats, open, wantDir, strings.Count(src, "\n"))
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			r.State(fmt.Sprint("cli", m, want))
			if core.Join(want) != core.Join(got) {
				r.Violate(key, src, "%v\nwant %v\ngot  %v\nstderr %s", args, want, got, res.stderr)
			}
			os.RemoveAll(dir)
		}
	}
}
