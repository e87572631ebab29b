package checks

import (
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"gopkg.in/yaml.v3"

	"verifharness/core"
)

// R04: the built command runs with every combination of report destinations, formats and logging options over one
// package, and each destination's bytes are compared with the report that format gives when it is the only output.

type r04Opts struct {
	fmt, verbose string
	out          string // none new old dir nodir full tofile
	stdout       bool
	color        bool
	track        bool
	log          string // "" quiet terse log logquiet
}

func (o r04Opts) String() string { return strings.Join(o.args(), " ") }

func (o r04Opts) args() []string {
	a := []string{"-no-fail"}
	if o.fmt != "text" || o.track {
		a = append(a, "-fmt="+o.fmt)
	}
	if o.verbose != "" {
		a = append(a, "-verbose", o.verbose)
	}
	if p := r04Path[o.out]; p != "" {
		a = append(a, "-out="+p)
	}
	if o.stdout {
		a = append(a, "-stdout")
	}
	if !o.color {
		a = append(a, "-color=false")
	}
	if o.track {
		a = append(a, "-track-suppressions")
	}
	switch o.log {
	case "quiet", "terse":
		a = append(a, "-"+o.log)
	case "log":
		a = append(a, "-log=log.txt")
	case "logquiet":
		a = append(a, "-log=log.txt", "-quiet")
	}
	return a
}

var r04Path = map[string]string{"none": "", "new": "o.rep", "old": "old.rep", "dir": "d", "nodir": "missing/o.rep", "full": "/dev/full", "deep": "d/o.rep", "ext": "o.json", "file": "go.mod/x"}

var r04Bad = map[string]bool{"dir": true, "nodir": true, "full": true, "file": true}

func r04Combos(e *core.Env) []r04Opts {
	var out []r04Opts
	fs := r01Formats[:9]
	vs := append([]string{""}, fs...)
	if !e.Thorough {
		vs = []string{"", "json", "text", "sarif"}
	}
	add := func(o r04Opts) { out = append(out, o) }
	for _, f := range fs {
		for _, v := range vs {
			for _, d := range []string{"none", "new", "old"} {
				for b := 0; b < 2; b++ {
					add(r04Opts{fmt: f, verbose: v, out: d, stdout: b == 1})
				}
			}
		}
		for _, d := range []string{"none", "new", "old", "dir", "nodir", "full", "deep", "ext", "file"} {
			for b := 0; b < 2; b++ {
				for _, l := range []string{"", "quiet", "terse", "log", "logquiet"} {
					for t := 0; t < 4; t++ {
						if !e.Thorough && l != "" && (t == 1 || t == 2 || d == "ext" || d == "deep") {
							continue
						}
						if !e.Thorough && l != "" && r04Bad[d] && (b == 1 || t != 0) {
							continue
						}
						add(r04Opts{fmt: f, out: d, stdout: b == 1, color: t&1 != 0, track: t&2 != 0, log: l})
					}
				}
			}
		}
		if e.Thorough {
			for _, v := range vs {
				for _, d := range []string{"none", "new", "old", "full"} {
					for b := 0; b < 8; b++ {
						add(r04Opts{fmt: f, verbose: v, out: d, stdout: b&1 != 0, color: b&2 != 0, track: true, log: []string{"", "quiet"}[b/4]})
					}
				}
			}
		}
	}
	return out
}

const r04Src = "package p\n\nimport \"crypto/md5\"\n\nvar sum = md5.New // #nosec G401 -- checksum\n\nfunc conv(x int64) int8 { return int8(x) } // #nosec -- ok\n\nfunc conv2(x int64) int8 { return int8(x) }\n"

// r04Valid reports what is wrong with a report as one of its format.
func r04Valid(f, s string, track bool, more int) string {
	wants := []string{"G501", "G115"}
	switch f {
	case "json", "sonarqube", "sarif":
		var v map[string]any
		if err := json.Unmarshal([]byte(s), &v); err != nil {
			return err.Error()
		}
		if _, ok := v[map[string]string{"json": "GosecVersion", "sonarqube": "issues", "sarif": "runs"}[f]]; !ok {
			return "not a " + f + " report"
		}
	case "yaml":
		var v map[string]any
		if err := yaml.Unmarshal([]byte(s), &v); err != nil {
			return err.Error()
		}
		if _, ok := v["gosecversion"]; !ok || strings.HasPrefix(strings.TrimSpace(s), "{") {
			return "not a yaml report"
		}
	case "csv":
		recs, err := csv.NewReader(strings.NewReader(s)).ReadAll()
		if err != nil {
			return err.Error()
		}
		if len(recs) != 2+more || len(recs[0]) != 7 {
			return fmt.Sprintf("%d records", len(recs))
		}
		wants = []string{"crypto/md5", "integer overflow"}
	case "junit-xml":
		var v struct {
			XMLName xml.Name `xml:"testsuites"`
		}
		if err := xml.Unmarshal([]byte(s), &v); err != nil {
			return err.Error()
		}
		wants = []string{"crypto/md5", "integer overflow"}
	case "html":
		if !strings.HasPrefix(strings.ToLower(strings.TrimSpace(s)), "<!doctype html") {
			return "no html page"
		}
	case "text":
		if !strings.Contains(s, "Summary:") || !strings.Contains(s, "Issues : ") {
			return "no summary"
		}
	case "golint":
		if strings.Count(s, "\n") != 2+more || strings.Count(s, "(Rule:G") != 2+more {
			return fmt.Sprintf("not %d lines of findings", 2+more)
		}
	}
	for _, w := range wants {
		if !strings.Contains(s, w) {
			return "no finding of " + w
		}
	}
	if track != strings.Contains(s, "checksum\"") && track != strings.Contains(s, "ok\"") && (f == "json" || f == "sarif") {
		return "suppressions are not as asked for"
	}
	if strings.Contains(s, "[gosec]") {
		return "log text in the report"
	}
	return ""
}

func r04Key(f string, color, track bool) string {
	return fmt.Sprint(f, " color=", color && f == "text", " track=", track)
}

func r04Unit(e *core.Env, name string, combos []r04Opts, more int, r *core.Rec) {
	src := r04Src
	for i := 0; i < more; i++ {
		src += fmt.Sprintf("\nfunc more%d(x int64) int8 { return int8(x) }\n", i)
	}
	dir := writeTree(e, "r04-"+name, map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "p/a.go": src, "d/README": ""})
	defer os.RemoveAll(dir)
	env := []string{"GOWORK=off"}
	refs := map[string]string{}
	ref := func(f string, color, track bool) string {
		k := r04Key(f, color, track)
		if s, ok := refs[k]; ok {
			return s
		}
		a := []string{"-fmt", f, "-no-fail"}
		if !color || f != "text" {
			a = append(a, "-color=false")
		}
		if track {
			a = append(a, "-track-suppressions")
		}
		res := runGosec(e, dir, env, append(a, "./p")...)
		r.Evals++
		if res.code != 0 {
			r.Violate("ref "+k, k, "exit status %d\n%.500s", res.code, res.stderr)
		}
		plain := res.stdout
		if color && f == "text" {
			for _, x := range []string{"\x1b[", "Summary"} {
				if !strings.Contains(plain, x) && os.Getenv("TERM") != "dumb" && x == "Summary" {
					r.Violate("ref "+k, k, "no %q in\n%.500s", x, plain)
				}
			}
		} else if bad := r04Valid(f, plain, track, more); bad != "" {
			r.Violate("ref "+k, k, "%s\n%.500s", bad, plain)
		}
		refs[k] = res.stdout
		return res.stdout
	}
	old := strings.Repeat("old contents of the results file\n", 2000)
	for _, o := range combos {
		r.Evals++
		r.Transitions++
		r.State(o.String())
		for _, f := range []string{"o.rep", "d/o.rep", "o.json", "log.txt", "missing/o.rep"} {
			os.Remove(filepath.Join(dir, f))
		}
		if err := os.WriteFile(filepath.Join(dir, "old.rep"), []byte(old), 0o644); err != nil {
			core.Infra("%v", err)
		}
		res := runGosec(e, dir, env, append(o.args(), "./p")...)
		key := o.String()
		path := r04Path[o.out]
		if r04Bad[o.out] {
			if res.code == 0 {
				r.Violate(key+" silent", key, "the results file cannot be written, yet the command succeeded\n%.400s", res.stderr)
			}
		} else if res.code != 0 {
			r.Violate(key+" exit", key, "exit status %d\n%.600s", res.code, res.stderr)
			continue
		}
		sf := o.fmt
		if o.verbose != "" {
			sf = o.verbose
		}
		switch {
		case o.out == "none" || o.stdout:
			want := ref(sf, o.color, o.track)
			if res.stdout != want && !(r04Bad[o.out] && res.stdout == "") {
				r.Violate(key+" stdout", key, "standard output is not the %s report: %s", sf, r04Diff(res.stdout, want))
			}
		default:
			if res.stdout != "" {
				r.Violate(key+" stdout", key, "unexpected standard output: %.300s", res.stdout)
			}
		}
		if path != "" && !r04Bad[o.out] {
			b, err := os.ReadFile(filepath.Join(dir, path))
			if err != nil {
				r.Violate(key+" file", key, "no results file: %v", err)
			} else if want := ref(o.fmt, false, o.track); string(b) != want {
				r.Violate(key+" file", key, "the results file is not the %s report: %s", o.fmt, r04Diff(string(b), want))
			}
		}
		lb, lerr := os.ReadFile(filepath.Join(dir, "log.txt"))
		logged, errlog := strings.Contains(string(lb), "[gosec]"), strings.Contains(res.stderr, "[gosec]")
		switch o.log {
		case "":
			if lerr == nil {
				r.Violate(key+" log", key, "a log file appeared")
			}
		case "quiet", "terse", "logquiet":
			if errlog || logged || res.stderr != "" {
				r.Violate(key+" log", key, "log text in spite of -%s: %.300s", o.log, res.stderr+string(lb))
			}
		case "log":
			if errlog || res.stderr != "" && !r04Bad[o.out] || !logged {
				r.Violate(key+" log", key, "log file has log text: %v, standard error: %.300s", logged, res.stderr)
			}
		}
	}
}

// r04More are the numbers of further findings of large reports, of up to a megabyte.
var r04More = []int{60, 250, 1500}

// r04Large sends large reports to each destination.
func r04Large(e *core.Env, f, more int, r *core.Rec) {
	var cs []r04Opts
	vs := []string{"", "json", "text", "csv"}
	if e.Thorough {
		vs = append([]string{""}, r01Formats[:9]...)
	}
	for _, v := range vs {
		for _, d := range []string{"none", "new", "old", "full"} {
			for b := 0; b < 2; b++ {
				for _, l := range []string{"", "quiet"} {
					if (d == "full" || l != "") && v != "" {
						continue
					}
					cs = append(cs, r04Opts{fmt: r01Formats[f], verbose: v, out: d, stdout: b == 1, log: l, track: b == 1})
				}
			}
		}
	}
	r04Unit(e, fmt.Sprintf("large-%d-%d", f, more), cs, r04More[more], r)
	r.Sample(fmt.Sprintf("%s report of %d findings", r01Formats[f], r04More[more]+2))
}

func r04Diff(got, want string) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	from := max(0, n-30)
	return fmt.Sprintf("%d and %d bytes, got ...%.120q want ...%.120q", len(got), len(want), got[from:], want[from:])
}

func init() {
	core.Register(&core.Check{
		ID: "R04", Level: "model_checking",
		Rule:   "a state is a distinct combination of output options; each is one run of the built command whose standard output, results file, log file, standard error and exit status are compared with the report that format gives as the only output",
		Bounds: "9 formats x overriding formats (quick none + 3, thorough none + 9) x {no file, new, existing} x echo; 9 formats x 9 destinations (4 of them unwritable) x echo x 5 logging options x colour x tracking (quick: colour and tracking fully with default logging); reports of 62, 252 and 1502 findings (up to a megabyte) in 9 formats to 4 destinations",
		Prepare: func(e *core.Env) error {
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for k := 0; k < 16; k++ {
				u = append(u, fmt.Sprint(k))
			}
			for k := range r04More {
				for f := 0; f < 9; f++ {
					u = append(u, fmt.Sprint(100*(k+1)+f))
				}
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var k int
			fmt.Sscan(unit, &k)
			if k >= 100 {
				r04Large(e, k%100, k/100-1, r)
				return
			}
			var cs []r04Opts
			for i, o := range r04Combos(e) {
				if i%16 == k {
					cs = append(cs, o)
				}
			}
			r04Unit(e, unit, cs, 0, r)
			if k == 0 {
				for _, o := range r04Combos(e)[:3] {
					r.Sample(o.String())
				}
			}
		},
	})
}
