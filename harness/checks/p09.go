package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifharness/core"
)

// P09: every invocation with one or two faults, under every option and pair of options, has to fail without a report; every
// invocation with valid values of the same options has to report the finding.

type p09Fault struct {
	name, opt string // the options it takes, so that they are not given twice
	args      []string
	targets   []string // nil: the good package
}

var p09Faults = []p09Fault{
	{"severity foo", "severity", []string{"-severity=foo"}, nil},
	{"severity empty", "severity", []string{"-severity="}, nil},
	{"severity 1", "severity", []string{"-severity", "1"}, nil},
	{"severity space", "severity", []string{"-severity=low "}, nil},
	{"severity lows", "severity", []string{"-severity=lows"}, nil},
	{"confidence foo", "confidence", []string{"-confidence=foo"}, nil},
	{"confidence empty", "confidence", []string{"-confidence="}, nil},
	{"confidence 3", "confidence", []string{"-confidence=3"}, nil},
	{"conf missing", "conf", []string{"-conf=none.json"}, nil},
	{"conf directory", "conf", []string{"-conf=good"}, nil},
	{"conf no json", "conf", []string{"-conf=broken.json"}, nil},
	{"conf cut", "conf", []string{"-conf=cut.json"}, nil},
	{"conf empty", "conf", []string{"-conf=empty.json"}, nil},
	{"conf array", "conf", []string{"-conf=array.json"}, nil},
	{"conf globals", "conf", []string{"-conf=globals.json"}, nil},
	{"conf more", "conf", []string{"-conf=more.json"}, nil},
	{"log nodir", "log", []string{"-log=missing/log"}, nil},
	{"log directory", "log", []string{"-log=good"}, nil},
	{"no rule", "include track", []string{"-include=G999"}, nil},
	{"no rule 2", "include track", []string{"-include=X,Y"}, nil},
	{"no rule left", "include track", []string{"-include=G501,G115", "-exclude=G115,G501"}, nil},
	{"no rule by conf", "conf include track", []string{"-conf=norule.json"}, nil},
	{"exclude", "include", []string{"-exclude=-1"}, nil},
	{"unknown option", "", []string{"-unknown"}, nil},
	{"sort maybe", "sort", []string{"-sort=maybe"}, nil},
	{"concurrency x", "concurrency", []string{"-concurrency=x"}, nil},
	{"directories (", "dirs", []string{"-exclude-dir=("}, nil},
	{"directories *", "dirs", []string{"-exclude-dir=good*", "-exclude-dir=*"}, nil},
	{"directories [", "dirs", []string{"-exclude-dir=["}, nil},
	{"no target", "target r", nil, []string{}},
	{"no package", "target", nil, []string{"./empty/..."}},
	{"no packages", "target", nil, []string{"./empty/...", "./deep/..."}},
	{"missing", "target", nil, []string{"./missing/..."}},
	{"all excluded", "target dirs", []string{"-exclude-dir=good"}, []string{"./good/..."}},
	{"only vendor", "target", nil, []string{"./v/vendor/..."}},
	{"only no go", "target", nil, []string{"./deep/..."}},
}

// p09Opts are options which do not change that the good package's finding is reported.
var p09Opts = []p09Fault{
	{"", "quiet", []string{"-quiet"}, nil},
	{"", "nofail", []string{"-no-fail"}, nil},
	{"", "terse", []string{"-terse"}, nil},
	{"", "out", []string{"-out=res.txt"}, nil},
	{"", "out", []string{"-out=res.txt", "-stdout"}, nil},
	{"", "fmt", []string{"-fmt=json"}, nil},
	{"", "fmt", []string{"-fmt=yaml"}, nil},
	{"", "fmt", []string{"-fmt=csv"}, nil},
	{"", "fmt", []string{"-fmt=junit-xml"}, nil},
	{"", "fmt", []string{"-fmt=html"}, nil},
	{"", "fmt", []string{"-fmt=sonarqube"}, nil},
	{"", "fmt", []string{"-fmt=golint"}, nil},
	{"", "fmt", []string{"-fmt=sarif"}, nil},
	{"", "verbose", []string{"-verbose=text"}, nil},
	{"", "color", []string{"-color=false"}, nil},
	{"", "track", []string{"-track-suppressions"}, nil},
	{"", "nosec", []string{"-nosec"}, nil},
	{"", "show", []string{"-show-ignored"}, nil},
	{"", "tag", []string{"-nosec-tag=falsepositive"}, nil},
	{"", "tests", []string{"-tests"}, nil},
	{"", "generated", []string{"-exclude-generated"}, nil},
	{"", "sort", []string{"-sort=false"}, nil},
	{"", "concurrency", []string{"-concurrency=1"}, nil},
	{"", "concurrency", []string{"-concurrency=64"}, nil},
	{"", "concurrency", []string{"-concurrency=0"}, nil},
	{"", "concurrency", []string{"-concurrency=-1"}, nil},
	{"", "audit", []string{"-enable-audit"}, nil},
	{"", "build", []string{"-tags=x,y"}, nil},
	{"", "log", []string{"-log=log.txt"}, nil},
	{"", "severity", []string{"-severity=low"}, nil},
	{"", "severity", []string{"-severity", "Medium"}, nil},
	{"", "confidence", []string{"-confidence=HIGH"}, nil},
	{"", "confidence", []string{"-confidence=LoW"}, nil},
	{"", "conf", []string{"-conf=conf.json"}, nil},
	{"", "include", []string{"-include=G501"}, nil},
	{"", "include", []string{"-include=G999,G501", "-exclude=G998"}, nil},
	{"", "include", []string{"-exclude=G101,G102"}, nil},
	{"", "r", []string{"-r"}, nil},
	{"", "dirs", []string{"-exclude-dir=nothing"}, nil},
	{"", "ai", []string{"-ai-api-provider=none"}, nil},
}

// p09Clash reports whether the faults or options would undo each other.
func p09Clash(a, b p09Fault) bool {
	for _, x := range strings.Fields(a.opt) {
		for _, y := range strings.Fields(b.opt) {
			if x == y {
				return true
			}
		}
	}
	return false
}

func p09Build(thorough bool) (faulty, good [][]p09Fault) {
	var sets [][]p09Fault
	sets = append(sets, nil)
	for i, a := range p09Opts {
		sets = append(sets, []p09Fault{a})
		for j, b := range p09Opts[:i] {
			if a.opt == b.opt {
				continue
			}
			sets = append(sets, []p09Fault{a, b})
			if thorough {
				for _, c := range p09Opts[:j] {
					if c.opt != a.opt && c.opt != b.opt {
						good = append(good, []p09Fault{a, b, c})
					}
				}
			}
		}
	}
	good = append(sets[:len(sets):len(sets)], good...)
	for k, f := range p09Faults {
		for n, s := range sets {
			if len(s) > 1 && !thorough && n%11 != k%11 {
				continue
			}
			clash := false
			for _, o := range s {
				clash = clash || p09Clash(f, o)
			}
			if !clash {
				faulty = append(faulty, append([]p09Fault{f}, s...))
			}
		}
		for n, g := range p09Faults[:k] {
			if !p09Clash(f, g) {
				faulty = append(faulty, []p09Fault{f, g}, []p09Fault{g, f, p09Opts[n%3]})
			}
		}
	}
	return faulty, good
}

func p09Unit(e *core.Env, shard, n int, r *core.Rec) {
	dir := writeTree(e, fmt.Sprintf("p09-%d", shard), map[string]string{"go.mod": "module ex.test\n\ngo 1.23\n", "good/a.go": "package good\n\nimport _ \"crypto/md5\"\n",
		"empty/README": "", "deep/a/b/c.txt": "", "deep/a/x.Go": "package x\n", "v/vendor/k/k.go": "package k\n\nimport _ \"crypto/md5\"\n",
		"broken.json": "{\"global\": ", "cut.json": "{\"G101\": {\"pattern\": \"x\"}", "empty.json": "", "array.json": "[]", "globals.json": "{\"global\": [\"nosec\"]}", "more.json": "{} {}",
		"norule.json": "{\"global\": {\"include\": \"G998\"}}", "conf.json": "{\"global\": {\"audit\": \"enabled\"}, \"G104\": {\"fmt\": [\"Sscan\"]}}"})
	defer os.RemoveAll(dir)
	faulty, good := p09Build(e.Thorough)
	run := func(fs []p09Fault, bad bool) {
		targets := []string{"./good"}
		var args, names []string
		noFail, out, stdout := false, false, true
		for _, f := range fs {
			args = append(args, f.args...)
			if f.targets != nil {
				targets = f.targets
			}
			switch f.opt {
			case "nofail":
				noFail = true
			case "out":
				out, stdout = true, len(f.args) > 1
			}
			names = append(names, f.name)
		}
		key := strings.Join(append(args, targets...), " ")
		r.Evals++
		r.Transitions += len(fs)
		r.State(key)
		r.Mark(key)
		const old = "old contents\n"
		res, log := filepath.Join(dir, "res.txt"), filepath.Join(dir, "log.txt")
		if err := os.WriteFile(res, []byte(old), 0o644); err != nil {
			core.Infra("%v", err)
		}
		os.Remove(log)
		c := runGosec(e, dir, []string{"GOWORK=off", "GOSEC_AI_API_KEY="}, append(args, targets...)...)
		b, _ := os.ReadFile(res)
		if bad {
			if c.code == 0 {
				r.Violate(key, key, "%s: exit status 0\n%.300s\n%.300s", strings.Join(names, ", "), c.stdout, c.stderr)
			}
			if c.stdout != "" {
				r.Violate(key, key, "%s: there is a report\n%.300s", strings.Join(names, ", "), c.stdout)
			}
			if string(b) != old {
				r.Violate(key, key, "%s: the results file was written\n%.300s", strings.Join(names, ", "), b)
			}
			return
		}
		want := 1
		if noFail {
			want = 0
		}
		if c.code != want {
			r.Violate(key, key, "exit status %d, should be %d\n%.300s\n%.300s", c.code, want, c.stdout, c.stderr)
		}
		for _, d := range []struct {
			text string
			used bool
		}{{c.stdout, stdout}, {string(b), out}} {
			if has := strings.Contains(d.text, "crypto/md5"); has != d.used {
				r.Violate(key, key, "the finding is in this output: %v, should be %v\n%.500s", has, d.used, d.text)
			}
		}
		if stdout && !out && strings.Contains(key, "-fmt=json") && !strings.Contains(key, "-verbose") {
			var v map[string]any
			if err := json.Unmarshal([]byte(c.stdout), &v); err != nil {
				r.Violate(key, key, "%v", err)
			}
		}
	}
	for i, fs := range faulty {
		if i%n == shard {
			run(fs, true)
		}
	}
	for i, fs := range good {
		if i%n == shard {
			run(fs, false)
		}
	}
	for _, f := range faulty[shard*len(faulty)/n] {
		r.Sample(strings.Join(append(f.args, f.targets...), " "))
	}
}

func init() {
	core.Register(&core.Check{
		ID: "P09", Level: "model_checking",
		Rule:        "a state is a distinct command line (one or two faults, none, and up to two options); each is run with the built command, whose exit status, standard output and results file are examined",
		Bounds:      "36 faults (values of options, configuration files, log files, rule selections, targets) alone, in pairs, and with each of 40 valid option settings and (quick: 1 in 11) pairs of these; all settings and pairs of settings (thorough: triples) without a fault",
		Prepare:     func(e *core.Env) error { return buildGosec(e) },
		UnitTimeout: 600e9,
		Units: func(e *core.Env) []string {
			var u []string
			for k := range 32 {
				u = append(u, fmt.Sprint(k))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var k int
			fmt.Sscan(unit, &k)
			p09Unit(e, k, 32, r)
		},
	})
}
