package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/core"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/rules"
)

// P01: selection. In process: every include list x every exclude list of a family, with and without tracking, against
// every rule's probe. On the built command: selections from flags and configuration file in every combination.

func allRules() []string {
	var out []string
	for id := range rules.Generate(false).Rules {
		out = append(out, id)
	}
	for id := range analyzers.Generate(false).Analyzers {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// selections: nothing, singletons, adjacent pairs, unknown ids, duplicates, everything.
func p01Lists() [][]string {
	all := allRules()
	out := [][]string{nil, {"G999"}, {"G999", "G401"}, {"G401", "G401"}, all}
	for i := range all {
		out = append(out, []string{all[i]})
	}
	for i := range all {
		out = append(out, []string{all[(i*7+3)%len(all)], all[i]})
	}
	var even, analy []string
	for i, r := range all {
		if i%2 == 0 {
			even = append(even, r)
		}
		if r == "G115" || r == "G602" || r == "G407" {
			analy = append(analy, r)
		}
	}
	return append(out, even, analy, []string{"G115", "G401"})
}

func selKeep(inc, exc []string, rule string) bool {
	return (len(inc) == 0 || has(inc, rule)) && !has(exc, rule)
}

func init() {
	core.Register(&core.Check{
		ID: "P01", Level: "model_checking",
		Rule:   "a state is a distinct (selected set, tracking) pair; each include/exclude pair is executed on the real scanner over the probes of all rules, each flag/configuration combination on the built command",
		Bounds: "91 include lists x 15 (quick) / 91 (thorough) exclude lists x tracking over 39 rule probes; command: 6 include x 6 exclude flags x 5 x 5 configuration selections x tracking (quick: a third)",
		Prepare: func(e *core.Env) error {
			if err := core.PrepareStd(e); err != nil {
				return err
			}
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for i := range p01Lists() {
				u = append(u, fmt.Sprintf("inc %d", i))
			}
			for i := 0; i < 16; i++ {
				u = append(u, fmt.Sprintf("cli %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var n int
			fmt.Sscan(unit, &kind, &n)
			if kind == "cli" {
				p01CLI(e, n, 16, r)
				return
			}
			p01Scan(e, n, r)
		},
	})
}

// p01Corpus is one file per rule probe, together one package per probe set.
func p01Corpus(l *core.Loader) *p01Pkgs {
	os.Setenv("GOSECGOVERSION", "go1.21") // G601 only applies before 1.22
	c := &p01Pkgs{}
	for _, p := range probes {
		pkg := l.MustLoad("p"+strings.ToLower(p.rule), core.File{Name: "a.go", Src: p.text("p")})
		c.pkgs = append(c.pkgs, pkg)
	}
	is, _ := core.Scan(core.Opts{Conf: probeConfig()}, c.pkgs...)
	c.raw = core.IssueKeys(is)
	seen := map[string]bool{}
	for _, i := range is {
		seen[i.RuleID] = true
	}
	for _, rule := range allRules() {
		if !seen[rule] {
			c.silent = append(c.silent, rule)
		}
	}
	return c
}

func p01Scan(e *core.Env, n int, r *core.Rec) {
	c := p01Corpus(getLoader(e))
	if len(c.silent) > 0 {
		r.Violate("silent "+strings.Join(c.silent, ","), "", "rules which report nothing on their probes when everything is selected: %v", c.silent)
	}
	lists := p01Lists()
	inc := lists[n]
	for xi, exc := range lists {
		if !e.Thorough && xi > 8 && xi%13 != n%13 {
			continue
		}
		for _, track := range []bool{false, true} {
			key := fmt.Sprintf("include %v exclude %v track %v", inc, exc, track)
			r.Mark(key)
			// settings which have nothing to do with the selection take turns
			o := core.Opts{Conf: probeConfig(), Include: inc, Exclude: exc, Track: track}
			switch (n + xi) % 4 {
			case 1:
				o.ExclGen = true
			case 2:
				o.Conf.SetGlobal(gosec.Nosec, "true")
			case 3:
				o.Tests = true
				o.Conf.SetGlobal(gosec.NoSecAlternative, "#other")
			}
			is, _ := core.Scan(o, c.pkgs...)
			var want []string
			for _, k := range c.raw {
				rule := strings.Fields(k)[1]
				keep := selKeep(inc, exc, rule)
				if !keep && !track {
					continue
				}
				if !keep {
					k += " {external|Globally suppressed.}"
				}
				want = append(want, k)
			}
			sort.Strings(want)
			got := core.IssueKeys(is)
			r.Evals++
			r.Transitions += len(c.raw)
			r.State(fmt.Sprint(track, want))
			if core.Join(want) != core.Join(got) {
				r.Violate(key, key, "%s", diffLists(want, got))
			}
		}
	}
	r.Sample(fmt.Sprintf("include %v over %d raw findings", inc, len(c.raw)))
}

// diffLists shows the difference of two multisets.
func diffLists(want, got []string) string {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		m[g]--
	}
	var miss, extra []string
	for k, v := range m {
		for ; v > 0; v-- {
			miss = append(miss, k)
		}
		for ; v < 0; v++ {
			extra = append(extra, k)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss)+len(extra) == 0 {
		return fmt.Sprintf("same elements, different order: want %v got %v", want, got)
	}
	return fmt.Sprintf("missing %q\nunexpected %q", miss, extra)
}

var p01Sel = [][]string{nil, {"G401"}, {"G115", "G404"}, {"G404"}, {"G401", "G602", "G501", "G404", "G115"}, {"G999"}}

func p01CLI(e *core.Env, shard, n int, r *core.Rec) {
	src := "package p\nimport (\"crypto/md5\"; \"math/rand\")\nfunc f(x int) {\n\t_ = md5.New()\n\t_ = rand.Int()\n\t_ = int8(x)\n\ts := make([]byte, 2)\n\t_ = s[3]\n}\n"
	raw := []string{"G115", "G401", "G404", "G501", "G602"}
	i := -1
	for fi, finc := range p01Sel {
		for fe, fexc := range p01Sel {
			for ci, cinc := range p01Sel[:5] {
				for ce, cexc := range p01Sel[:5] {
					for _, track := range []bool{false, true} {
						i++
						if i%n != shard {
							continue
						}
						if !e.Thorough && (fi+2*fe+ci+3*ce)%3 != 0 && !(fe == 0 && ci == 0) {
							continue
						}
						if len(fexc) == 1 && fexc[0] == "G999" && ce > 1 {
							continue
						}
						inc, exc := cinc, cexc
						if finc != nil {
							inc = finc
						}
						if fexc != nil {
							exc = fexc
						}
						g := map[string]string{}
						if cinc != nil {
							g["include"] = strings.Join(cinc, ",")
						}
						if cexc != nil {
							g["exclude"] = strings.Join(cexc, ",")
						}
						cb, _ := json.Marshal(map[string]any{"global": g})
						dir := writeTree(e, fmt.Sprintf("p01-%d", i), map[string]string{"a.go": src, "c.json": string(cb)})
						args := []string{"-fmt=json", "-conf=" + filepath.Join(dir, "c.json")}
						if finc != nil {
							args = append(args, "-include="+strings.Join(finc, ","))
						}
						if fexc != nil {
							args = append(args, "-exclude="+strings.Join(fexc, ","))
						}
						if track {
							args = append(args, "-track-suppressions")
						}
						args = append(args, ".")
						var want []string
						open := 0
						for _, rule := range raw {
							keep := selKeep(inc, exc, rule)
							if keep {
								want = append(want, rule)
								open++
							} else if track {
								want = append(want, rule+" external")
							}
						}
						selectedAny := track
						for _, rule := range allRules() {
							if selKeep(inc, exc, rule) {
								selectedAny = true
							}
						}
						res := runGosec(e, dir, nil, args...)
						os.RemoveAll(dir)
						key := fmt.Sprintf("cli inc=%v exc=%v cinc=%v cexc=%v track=%v", finc, fexc, cinc, cexc, track)
						r.Evals++
						r.Transitions++
						r.Stats["command_runs"]++
						r.State(fmt.Sprint("cli", want, selectedAny))
						if !selectedAny {
							if res.code == 0 || strings.TrimSpace(res.stdout) != "" {
								r.Violate(key, key, "nothing selected: exit %d stdout %q stderr %q", res.code, res.stdout, res.stderr)
							}
							continue
						}
						wantCode := 0
						if open > 0 {
							wantCode = 1
						}
						var rep jsonReport
						if err := json.Unmarshal([]byte(res.stdout), &rep); err != nil {
							r.Violate(key, key, "no JSON report: %v\n%s\n%s", err, res.stdout, res.stderr)
							continue
						}
						var got []string
						for _, is := range rep.Issues {
							s := is.RuleID
							for _, x := range is.Suppressions {
								s += " " + x.Kind
							}
							got = append(got, s)
						}
						sort.Strings(got)
						sort.Strings(want)
						if core.Join(got) != core.Join(want) || res.code != wantCode {
							r.Violate(key, key, "want %v (exit %d) got %v (exit %d)\n%s", want, wantCode, got, res.code, res.stderr)
						}
					}
				}
			}
		}
	}
	r.Sample(fmt.Sprintf("command shard %d", shard))
}

type p01Pkgs struct {
	pkgs   []*packages.Package
	raw    []string
	silent []string
}
