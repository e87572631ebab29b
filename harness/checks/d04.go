package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verifharness/core"
)

// D04: every permission word in every literal spelling is passed to every covered function under a family of configured
// maxima (as text and as number, through the real configuration reader); the findings must be exactly the calls whose
// mode has a bit outside the maximum.

type d04Fn struct {
	rule, pre, post string
	def             int64
}

var d04Fns = []d04Fn{
	{"G301", `_ = os.Mkdir("x", `, ")", 0o750},
	{"G301", `_ = os.MkdirAll("x", `, ")", 0o750},
	{"G302", `_ = os.Chmod("x", `, ")", 0o600},
	{"G302", `_, _ = os.OpenFile("x", os.O_RDWR, `, ")", 0o600},
	{"G306", `_ = os.WriteFile("x", nil, `, ")", 0o600},
	{"G306", `_ = ioutil.WriteFile("x", nil, `, ")", 0o600},
	{"", `_ = fs.FileMode(`, ")", 0},
	{"", `_ = lookalike("x", `, ")", 0},
}

var d04Spell = []struct {
	name string
	f    func(m int) string
}{
	{"0755", func(m int) string { return fmt.Sprintf("0%o", m) }},
	{"0o755", func(m int) string { return fmt.Sprintf("0o%o", m) }},
	{"0O755", func(m int) string { return fmt.Sprintf("0O%o", m) }},
	{"493", func(m int) string { return fmt.Sprint(m) }},
	{"0x1ed", func(m int) string { return fmt.Sprintf("0x%x", m) }},
	{"0X1ED", func(m int) string { return fmt.Sprintf("0X%X", m) }},
	{"0b111101101", func(m int) string { return fmt.Sprintf("0b%b", m) }},
	{"0o7_55", func(m int) string { return fmt.Sprintf("0o%o_%o", m>>6, m&0o77>>3) + fmt.Sprintf("%o", m&7) }},
	{"00755", func(m int) string { return fmt.Sprintf("000%o", m) }},
	{"0x_1ed", func(m int) string { return fmt.Sprintf("0x_%x", m) }},
}

type d04Conf struct {
	name string
	json string
	max  map[string]int64 // per rule, absent means the default
}

var d04Rules = []string{"G301", "G302", "G306", "G307"}

func d04Confs(e *core.Env) []d04Conf {
	cs := []d04Conf{{"default", "{}", nil}, {"unrelated", `{"G101": {"pattern": "x"}, "global": {"audit": "enabled"}}`, nil}}
	one := func(name, val string, max int64) {
		m := map[string]int64{}
		var parts []string
		for _, r := range d04Rules {
			m[r] = max
			parts = append(parts, fmt.Sprintf("%q: %s", r, val))
		}
		cs = append(cs, d04Conf{name, "{" + strings.Join(parts, ", ") + "}", m})
	}
	maxima := []int64{0, 0o1, 0o7, 0o400, 0o600, 0o640, 0o644, 0o700, 0o750, 0o755, 0o777, 0o1777, 0o4755, 0o7777, 0o177, 0o252}
	if e.Thorough {
		maxima = nil
		for i := int64(0); i < 512; i++ {
			maxima = append(maxima, i)
		}
		maxima = append(maxima, 0o1777, 0o4755, 0o7777, 0o2000)
	}
	for _, m := range maxima {
		one(fmt.Sprintf("text 0%o", m), fmt.Sprintf(`"0%o"`, m), m)
	}
	for _, m := range []int64{0, 0o7, 0o600, 0o644, 0o750, 0o777, 0o7777} {
		one(fmt.Sprintf("text 0o%o", m), fmt.Sprintf(`"0o%o"`, m), m)
		one(fmt.Sprintf("text %d", m), fmt.Sprintf(`"%d"`, m), m)
		one(fmt.Sprintf("text 0x%x", m), fmt.Sprintf(`"0x%x"`, m), m)
		one(fmt.Sprintf("text 0b%b", m), fmt.Sprintf(`"0b%b"`, m), m)
		one(fmt.Sprintf("number %d", m), fmt.Sprint(m), m)
	}
	// one rule only: the others keep their defaults
	for _, r := range d04Rules {
		cs = append(cs, d04Conf{"only " + r, fmt.Sprintf(`{%q: "0444"}`, r), map[string]int64{r: 0o444}})
		cs = append(cs, d04Conf{"only number " + r, fmt.Sprintf(`{%q: 511}`, r), map[string]int64{r: 0o777}})
	}
	return cs
}

func d04Max(c d04Conf, rule string) int64 {
	if m, ok := c.max[rule]; ok {
		return m
	}
	return map[string]int64{"G301": 0o750, "G302": 0o600, "G306": 0o600, "G307": 0o666}[rule]
}

func d04Config(src string) gosec.Config {
	c := gosec.NewConfig()
	if _, err := c.ReadFrom(bytes.NewBufferString(src)); err != nil {
		core.Broken("valid configuration rejected: %s: %v", src, err)
	}
	return c
}

type d04Call struct {
	rule string
	mode int64
	all  bool // the all-permissions constant
	text string
}

// d04Run scans the calls and compares.
func d04Run(l *core.Loader, confs []d04Conf, calls []d04Call, imports, name string, r *core.Rec) {
	var b strings.Builder
	b.WriteString("package p\n\nimport (\n" + imports + ")\n\nfunc lookalike(string, int) int { return 0 }\n\nfunc f() {\n")
	first := 1 + strings.Count(b.String(), "\n")
	for _, c := range calls {
		b.WriteString("\t" + c.text + "\n")
	}
	b.WriteString("}\n")
	p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: b.String()})
	for _, c := range confs {
		is, _ := core.Scan(core.Opts{Conf: d04Config(c.json), Include: d04Rules, NoSSA: true}, p)
		got := map[int][]string{}
		for _, i := range is {
			a, _ := lineRange(i.Line)
			got[a-first] = append(got[a-first], i.RuleID)
		}
		r.Evals++
		r.Transitions += len(calls)
		r.State(c.name + " " + name)
		bad := 0
		for k, x := range calls {
			var want []string
			switch {
			case x.rule == "G307":
				if 0o666&^d04Max(c, x.rule) != 0 {
					want = []string{"G307"}
				}
			case x.rule != "" && (x.all || x.mode&^d04Max(c, x.rule) != 0):
				want = []string{x.rule}
			}
			sort.Strings(got[k])
			if strings.Join(want, " ") != strings.Join(got[k], " ") {
				if bad++; bad <= 3 {
					r.Violate(fmt.Sprintf("%s: %s %s", c.name, name, x.text), x.text, "configuration %s: want findings %v, got %v for %s", c.json, want, got[k], x.text)
				}
			}
			delete(got, k)
		}
		if len(got) > 0 {
			r.Violate(c.name+": other "+name, c.json, "findings elsewhere: %v", got)
		}
	}
}

const d04Imports = "\t\"io/fs\"\n\t\"io/ioutil\"\n\t\"os\"\n"

func init() {
	core.Register(&core.Check{
		ID: "D04", Level: "model_checking",
		Rule:   "a state is a distinct (configuration, function, spelling) with all 4096 permission words; each word is one call in a generated package scanned by the real rules, and the findings must be exactly the calls whose mode is not a bit subset of the maximum",
		Bounds: "4096 permission words x 10 literal spellings x 6 covered functions (2 look-alikes) x default maxima; octal spelling x all functions x 16 text maxima (thorough: all 512 and more) and 7 maxima in 5 more notations (text and number), each rule configured alone; the all-permissions constant under 3 import names; os.Create under every maximum",
		Prepare: func(e *core.Env) error {
			return core.PrepareStd(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for f := range d04Fns {
				u = append(u, fmt.Sprintf("spell %d", f))
			}
			for f := range d04Fns {
				u = append(u, fmt.Sprintf("conf %d", f))
			}
			return append(u, "other 0")
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			confs := d04Confs(e)
			all := func(f d04Fn, sp func(int) string) []d04Call {
				var calls []d04Call
				for m := 0; m < 4096; m++ {
					calls = append(calls, d04Call{rule: f.rule, mode: int64(m), text: f.pre + sp(m) + f.post})
				}
				return calls
			}
			use := "_, _, _ = os.Getpid, ioutil.Discard, fs.ModeDir"
			switch kind {
			case "spell":
				for _, s := range d04Spell {
					calls := append(all(d04Fns[k], s.f), d04Call{text: use})
					d04Run(l, confs[:2], calls, d04Imports, d04Fns[k].pre+s.name, r)
				}
			case "conf":
				calls := append(all(d04Fns[k], d04Spell[0].f), d04Call{text: use})
				if e.Thorough || k < 2 {
					d04Run(l, confs, calls, d04Imports, d04Fns[k].pre, r)
				} else { // the permission bits only
					d04Run(l, confs, append(calls[:512:512], d04Call{text: use}), d04Imports, d04Fns[k].pre, r)
				}
			default:
				// the all-permissions constant, os.Create, and modes which are no literal
				for _, q := range []string{"os", "system", "fs"} {
					var calls []d04Call
					imp := "\t\"io/fs\"\n\t\"io/ioutil\"\n\t" + q + " \"os\"\n"
					if q == "fs" {
						imp = "\tiofs \"io/fs\"\n\t\"io/ioutil\"\n\tfs \"os\"\n"
					}
					fsq := map[bool]string{true: "iofs", false: "fs"}[q == "fs"]
					for _, f := range d04Fns[:6] {
						pre := strings.ReplaceAll(f.pre, "os.", q+".")
						calls = append(calls, d04Call{rule: f.rule, all: true, text: pre + q + ".ModePerm" + f.post},
							d04Call{rule: f.rule, mode: 0o777, text: pre + "0777" + f.post},
							d04Call{rule: f.rule, mode: 0, text: pre + "0" + f.post})
					}
					calls = append(calls, d04Call{rule: "G307", text: "_, _ = " + q + ".Create(\"x\")"})
					calls = append(calls, d04Call{text: fmt.Sprintf("_, _, _ = %s.Getpid, ioutil.Discard, %s.ModeDir", q, fsq)})
					d04Run(l, confs, calls, imp, "import "+q, r)
				}
				r.Sample("os.Mkdir with all 4096 words")
			}
		},
	})
}
