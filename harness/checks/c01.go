package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verifharness/core"
)

// C01: every sequence of configuration operations up to a depth runs on the real Config next to a model (sections by
// name, global options by name) and every observation is compared after each step; readers and writers fail at every
// byte; the built command runs with every product of option settings in the file and on the command line.

type c01Model struct {
	sections map[string]any // other than the global one
	globals  map[string]string
}

func (m *c01Model) all() map[string]any {
	out := map[string]any{}
	for k, v := range m.sections {
		out[k] = v
	}
	g := map[string]any{}
	for k, v := range m.globals {
		g[k] = v
	}
	out["global"] = g
	return out
}

// c01Doc is a configuration file and what it says.
type c01Doc struct {
	src      string
	ok       bool
	sections map[string]any
	globals  map[string]string // nil: the file has no such section
}

func c01Docs() []c01Doc {
	type S = map[string]any
	type G = map[string]string
	long := strings.Repeat("abcdefghij", 500)
	return []c01Doc{
		{`{}`, true, nil, nil},
		{`{"global":{}}`, true, nil, G{}},
		{`{"global":{"audit":"enabled"}}`, true, nil, G{"audit": "enabled"}},
		{` { "G101" : {"pattern":"(?i)a<b>&c","n":1.5} , "global" : { "nosec" : true , "show-ignored":false, "#nosec":"#x" } } `, true, S{"G101": S{"pattern": "(?i)a<b>&c", "n": 1.5}}, G{"nosec": "true", "show-ignored": "false", "#nosec": "#x"}},
		{`{"global":{"exclude":"G101,G102","level":3},"G301":"0600","x":[1,"two",null,{"y":{}}]}`, true, S{"G301": "0600", "x": []any{1.0, "two", nil, S{"y": S{}}}}, G{"exclude": "G101,G102", "level": "3"}},
		{`{"G101":null,"G301":511,"Global":{"audit":"true"}}`, true, S{"G101": nil, "G301": 511.0, "Global": S{"audit": "true"}}, nil},
		{`{"G101":"first","G101":"last","é\u0041":"\u2028` + long + `"}`, true, S{"G101": "last", "éA": "\u2028" + long}, nil},
		{`{"global":{"audit":"disabled","nosec":"","big":1000000,"small":0.25}}`, true, nil, G{"audit": "disabled", "nosec": "", "big": "1000000", "small": "0.25"}},
		{`{"global":null}`, true, nil, G{}},
		{``, false, nil, nil},
		{`{`, false, nil, nil},
		{`[]`, false, nil, nil},
		{`"text"`, false, nil, nil},
		{`{"global":"audit"}`, false, nil, nil},
		{`{"G101":"new","global":["audit"]}`, false, nil, nil},
		{`{"global":{"audit":"true"}} trailing`, false, nil, nil},
		{`{"global":{"audit":"true",}}`, false, nil, nil},
		{`{"global":true,"G301":1}`, false, nil, nil},
	}
}

type c01Op struct {
	name  string
	real  func(c gosec.Config) error
	model func(m *c01Model) bool
}

func c01Ops() []c01Op {
	var ops []c01Op
	for _, d := range c01Docs() {
		ops = append(ops, c01Op{"read " + shorten(d.src), func(c gosec.Config) error {
			n, err := c.ReadFrom(strings.NewReader(d.src))
			if n != int64(len(d.src)) {
				return fmt.Errorf("C01: read count %d of %d", n, len(d.src))
			}
			return err
		}, func(m *c01Model) bool {
			if !d.ok {
				return false
			}
			for k, v := range d.sections {
				m.sections[k] = v
			}
			if d.globals != nil {
				m.globals = map[string]string{}
				for k, v := range d.globals {
					m.globals[k] = v
				}
			}
			return true
		}})
	}
	global := func(k, v string) {
		ops = append(ops, c01Op{"global " + k + "=" + v, func(c gosec.Config) error { c.SetGlobal(gosec.GlobalOption(k), v); return nil },
			func(m *c01Model) bool { m.globals[k] = v; return true }})
	}
	global("audit", "true")
	global("audit", "false")
	global("nosec", "enabled")
	global("#nosec", "falsePositive")
	global("exclude", "")
	set := func(k string, v any) {
		ops = append(ops, c01Op{fmt.Sprintf("set %s=%v", k, v), func(c gosec.Config) error { c.Set(k, v); return nil },
			func(m *c01Model) bool { m.sections[k] = v; return true }})
	}
	set("G101", map[string]any{"pattern": "x", "ignore_entropy": true})
	set("G301", "0700")
	set("x", nil)
	return ops
}

func shorten(s string) string {
	if len(s) > 90 {
		return s[:90] + "..."
	}
	return s
}

var c01Options = []string{"audit", "nosec", "show-ignored", "#nosec", "exclude", "include", "ssa", "level", "big", "small", "other"}
var c01Sections = []string{"G101", "G301", "x", "Global", "éA", "G999", ""}

// c01Observe compares everything that can be asked of the configuration.
func c01Observe(c gosec.Config, m *c01Model) string {
	for _, o := range c01Options {
		want, has := m.globals[o]
		got, err := c.GetGlobal(gosec.GlobalOption(o))
		if (err == nil) != has || got != want {
			return fmt.Sprintf("GetGlobal(%s): want %q (set: %v), got %q, %v", o, want, has, got, err)
		}
		en, err := c.IsGlobalEnabled(gosec.GlobalOption(o))
		if (err == nil) != has || en != (want == "true" || want == "enabled") {
			return fmt.Sprintf("IsGlobalEnabled(%s): value %q (set: %v), got %v, %v", o, want, has, en, err)
		}
	}
	for _, s := range c01Sections {
		want, has := m.sections[s]
		got, err := c.Get(s)
		if (err == nil) != has || !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("Get(%s): want %v (set: %v), got %v, %v", s, want, has, got, err)
		}
	}
	return ""
}

// c01RoundTrip writes the configuration and reads it into a new one.
func c01RoundTrip(c gosec.Config, m *c01Model) string {
	var b bytes.Buffer
	n, err := c.WriteTo(&b)
	if err != nil || n != int64(b.Len()) {
		return fmt.Sprintf("WriteTo: %d bytes reported, %d written, %v", n, b.Len(), err)
	}
	var doc map[string]any
	if err := json.Unmarshal(b.Bytes(), &doc); err != nil {
		return "WriteTo: " + err.Error()
	}
	if want := m.all(); !reflect.DeepEqual(doc, want) {
		return fmt.Sprintf("WriteTo: want %v, got %v", want, doc)
	}
	d := gosec.NewConfig()
	if _, err := d.ReadFrom(&b); err != nil {
		return "reading what was written: " + err.Error()
	}
	if s := c01Observe(d, m); s != "" {
		return "after writing and reading: " + s
	}
	return ""
}

func c01Seqs(e *core.Env, first int, r *core.Rec) {
	ops := c01Ops()
	depth := 3
	if e.Thorough {
		depth = 5
	}
	seq := []int{first}
	var walk func()
	walk = func() {
		c, m := gosec.NewConfig(), &c01Model{map[string]any{}, map[string]string{}}
		var names []string
		bad := ""
		for _, k := range seq {
			names = append(names, ops[k].name)
			err := ops[k].real(c)
			ok := ops[k].model(m)
			if (err == nil) != ok && bad == "" {
				bad = fmt.Sprintf("%s: accepted %v, should be %v (%v)", ops[k].name, err == nil, ok, err)
			}
		}
		if bad == "" {
			bad = c01Observe(c, m)
		}
		if bad == "" && (len(seq) <= 3 || e.Thorough) {
			bad = c01RoundTrip(c, m)
			if bad == "" { // writing changes nothing
				bad = c01Observe(c, m)
			}
		}
		r.Evals++
		r.Transitions += len(seq)
		r.State(fmt.Sprint(m.all()))
		if bad != "" {
			r.Violate(strings.Join(names, "; "), strings.Join(names, "; "), "%s", bad)
			return
		}
		if len(seq) == depth {
			return
		}
		for k := range ops {
			seq = append(seq, k)
			walk()
			seq = seq[:len(seq)-1]
		}
	}
	walk()
	r.Sample(ops[first].name)
}

// c01Chunks delivers the data in pieces and then ends in its own way.
type c01Chunks struct {
	data []byte
	n    int
	end  error
	with bool // the end comes along with the last bytes
	gap  bool // reads of nothing in between
	flip bool
}

func (r *c01Chunks) Read(p []byte) (int, error) {
	if r.flip = !r.flip; r.gap && r.flip {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := copy(p[:min(len(p), r.n)], r.data)
	r.data = r.data[n:]
	if r.with && len(r.data) == 0 {
		return n, r.end
	}
	return n, nil
}

type c01Writer struct {
	b     bytes.Buffer
	limit int
	short bool
}

func (w *c01Writer) Write(p []byte) (int, error) {
	room := w.limit - w.b.Len()
	if len(p) <= room {
		return w.b.Write(p)
	}
	n, _ := w.b.Write(p[:room])
	if w.short {
		return n, nil
	}
	return n, errC01
}

var errC01 = errors.New("device failed")

func c01IO(r *core.Rec) {
	for _, d := range c01Docs() {
		if len(d.src) > 1000 {
			d.src = strings.ReplaceAll(d.src, strings.Repeat("abcdefghij", 500), "abc")
			d.sections = map[string]any{"G101": "last", "éA": "\u2028abc"}
		}
		fresh := func() (gosec.Config, *c01Model) {
			c := gosec.NewConfig()
			c.SetGlobal("level", "7")
			c.Set("x", "kept")
			return c, &c01Model{map[string]any{"x": "kept"}, map[string]string{"level": "7"}}
		}
		for _, n := range []int{1, 2, 3, 7, 512, 1 << 20} {
			for v := 0; v < 4; v++ {
				c, m := fresh()
				cnt, err := c.ReadFrom(&c01Chunks{data: []byte(d.src), n: n, end: io.EOF, with: v&1 != 0, gap: v&2 != 0})
				if d.ok {
					for k, x := range d.sections {
						m.sections[k] = x
					}
					if d.globals != nil {
						m.globals = d.globals
					}
				}
				r.Evals++
				r.State(fmt.Sprint("chunks ", n, v, d.src))
				name := fmt.Sprintf("read %s in pieces of %d (%d)", shorten(d.src), n, v)
				if (err == nil) != d.ok || cnt != int64(len(d.src)) {
					r.Violate(name, d.src, "accepted %v, want %v; count %d of %d; %v", err == nil, d.ok, cnt, len(d.src), err)
				} else if s := c01Observe(c, m); s != "" {
					r.Violate(name, d.src, "%s", s)
				}
			}
		}
		for cut := 0; cut <= len(d.src); cut++ { // the device fails after each number of bytes
			for v := 0; v < 2; v++ {
				c, m := fresh()
				_, err := c.ReadFrom(&c01Chunks{data: []byte(d.src[:cut]), n: 1 << 20, end: errC01, with: v == 1 && cut > 0})
				r.Evals++
				r.Transitions++
				r.State(fmt.Sprint("fail ", cut, d.src))
				name := fmt.Sprintf("read %s failing after %d", shorten(d.src), cut)
				if !errors.Is(err, errC01) {
					r.Violate(name, d.src, "want the device's error, got %v", err)
				} else if s := c01Observe(c, m); s != "" {
					r.Violate(name, d.src, "after the failure: %s", s)
				}
			}
			// cut short without an error: the file is accepted only if what is left is a configuration
			c, m := fresh()
			_, err := c.ReadFrom(strings.NewReader(d.src[:cut]))
			ok := d.ok && strings.TrimSpace(d.src[cut:]) == ""
			r.Evals++
			if !d.ok && json.Valid([]byte(d.src[:cut])) {
				continue
			}
			if (err == nil) != ok {
				r.Violate(fmt.Sprintf("read %s cut at %d", shorten(d.src), cut), d.src, "accepted %v, want %v (%v)", err == nil, ok, err)
			} else if err != nil {
				if s := c01Observe(c, m); s != "" {
					r.Violate(fmt.Sprintf("read %s cut at %d", shorten(d.src), cut), d.src, "after the rejection: %s", s)
				}
			}
		}
		if !d.ok {
			continue
		}
		c := gosec.NewConfig()
		if _, err := c.ReadFrom(strings.NewReader(d.src)); err != nil {
			r.Violate("read "+shorten(d.src), d.src, "valid configuration rejected: %v", err)
			continue
		}
		var full bytes.Buffer
		if _, err := c.WriteTo(&full); err != nil {
			r.Violate("write "+d.src, d.src, "%v", err)
			continue
		}
		for k := 0; k < full.Len(); k++ {
			for _, short := range []bool{false, true} {
				w := &c01Writer{limit: k, short: short}
				n, err := c.WriteTo(w)
				r.Evals++
				r.Transitions++
				if err == nil || n != int64(w.b.Len()) || !bytes.HasPrefix(full.Bytes(), w.b.Bytes()) {
					r.Violate(fmt.Sprintf("write %s failing after %d (short %v)", shorten(d.src), k, short), d.src, "%d bytes taken, %d reported, error %v", w.b.Len(), n, err)
				}
			}
		}
		w := &c01Writer{limit: full.Len()}
		if n, err := c.WriteTo(w); err != nil || n != int64(full.Len()) || !bytes.Equal(w.b.Bytes(), full.Bytes()) {
			r.Violate("write again "+shorten(d.src), d.src, "%d bytes, %v", n, err)
		}
		if _, err := c.WriteTo(failNow{}); !errors.Is(err, errC01) {
			r.Violate("write to a failed device "+shorten(d.src), d.src, "%v", err)
		}
		c.Set("bad", make(chan int)) // what cannot be written
		w = &c01Writer{limit: 1 << 20}
		if _, err := c.WriteTo(w); err == nil || w.b.Len() > 0 {
			r.Violate("write what is no JSON "+shorten(d.src), d.src, "%d bytes, %v", w.b.Len(), err)
		}
	}
	r.Sample("a device failing after every byte")
}

// c01Large: configurations of every size around the powers of two, read in several piece sizes, cut short, written, and
// read by the command.
func c01Large(e *core.Env, shape int, r *core.Rec) {
	most := 1 << 18
	if e.Thorough {
		most = 1 << 21
	}
	make := func(n int) string { // of about n bytes
		var b strings.Builder
		switch shape {
		case 0: // a list of many functions
			b.WriteString(`{"G104": {"os": [`)
			for b.Len() < n {
				fmt.Fprintf(&b, `"Fn%d", `, b.Len())
			}
			b.WriteString(`"Remove"]}, "global": {"nosec": "true"}}`)
		case 1: // many sections
			b.WriteString(`{`)
			for b.Len() < n {
				fmt.Fprintf(&b, `"s%d": {"a": [1, null], "b": "é"}, `, b.Len())
			}
			b.WriteString(`"global": {"nosec": "true"}, "G104": {"os": ["Remove"]}}`)
		case 2: // a long text
			b.WriteString(`{"global": {"note": "` + strings.Repeat("x", n) + `", "nosec": "true"}, "G104": {"os": ["Remove"]}}`)
		case 3: // white space
			b.WriteString(`{"global": {` + strings.Repeat(" \n\t", n/3) + `"nosec": "true"},` + strings.Repeat(" ", n%7) + `"G104": {"os": ["Remove"]}}`)
		case 4: // many global settings
			b.WriteString(`{"G104": {"os": ["Remove"]}, "global": {`)
			for b.Len() < n {
				fmt.Fprintf(&b, `"opt%d": %d, `, b.Len(), b.Len())
			}
			b.WriteString(`"nosec": "true"}}`)
		default: // many levels
			d := max(1, min(n/2, 9000))
			b.WriteString(`{"deep": ` + strings.Repeat("[", d) + strings.Repeat("]", d) + `, "global": {"nosec": "true"}, "G104": {"os": ["Remove"]}}`)
		}
		return b.String()
	}
	for size := 64; size <= most; size *= 2 {
		for _, d := range []int{-150, -1, 0, 1, 333} {
			src := make(max(size+d, 1))
			var want map[string]any
			if err := json.Unmarshal([]byte(src), &want); err != nil {
				core.Infra("%v: %.200s", err, src)
			}
			m := &c01Model{map[string]any{}, map[string]string{}}
			for k, v := range want {
				if k != "global" {
					m.sections[k] = v
					continue
				}
				for o, x := range v.(map[string]any) {
					m.globals[o] = fmt.Sprint(x)
					if f, ok := x.(float64); ok {
						m.globals[o] = fmt.Sprint(int(f))
					}
				}
			}
			for v, n := range []int{1 << 30, 512, 4096, 4099} {
				c := gosec.NewConfig()
				cnt, err := c.ReadFrom(&c01Chunks{data: []byte(src), n: n, end: io.EOF, with: v&1 != 0, gap: v&2 != 0})
				r.Evals++
				r.Transitions++
				name := fmt.Sprintf("shape %d of %d bytes in pieces of %d", shape, len(src), n)
				r.State(name)
				if err != nil || cnt != int64(len(src)) {
					r.Violate(name, name, "not accepted: %d of %d, %v", cnt, len(src), err)
					continue
				}
				if s := c01Observe(c, m); s != "" {
					r.Violate(name, name, "%.600s", s)
				}
				if v > 0 {
					continue
				}
				w := &c01Writer{limit: 1 << 30}
				if n, err := c.WriteTo(w); err != nil || n != int64(w.b.Len()) {
					r.Violate(name+" written", name, "%d of %d bytes, %v", n, w.b.Len(), err)
				}
				again := gosec.NewConfig()
				if _, err := again.ReadFrom(bytes.NewReader(w.b.Bytes())); err != nil {
					r.Violate(name+" read back", name, "%v", err)
				} else if s := c01Observe(again, m); s != "" {
					r.Violate(name+" read back", name, "%.600s", s)
				}
				for cut := 64; cut < len(src); cut *= 2 {
					c := gosec.NewConfig()
					if _, err := c.ReadFrom(strings.NewReader(src[:cut])); err == nil {
						r.Violate(name+" cut", name, "accepted although cut at %d", cut)
					}
				}
			}
			if d != 0 {
				continue
			}
			dir, err := os.MkdirTemp(e.Scratch, "c01l")
			if err != nil {
				core.Infra("%v", err)
			}
			os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module ex.test/m\n\ngo 1.23\n"), 0o644)
			os.WriteFile(filepath.Join(dir, "a.go"), []byte(c01Src), 0o644)
			os.WriteFile(filepath.Join(dir, "conf.json"), []byte(src), 0o644)
			res := runGosec(e, dir, nil, "-no-fail", "-fmt=json", "-conf=conf.json", ".")
			var rep jsonReport
			err = json.Unmarshal([]byte(res.stdout), &rep)
			rules := map[string]int{}
			for _, i := range rep.Issues {
				rules[i.RuleID]++
			}
			// the markers are not heeded, and the function listed last is not reported
			if want := (map[string]int{"G501": 1, "G401": 3}); err != nil || res.code != 0 || fmt.Sprint(rules) != fmt.Sprint(want) {
				r.Violate(fmt.Sprintf("command with shape %d of %d bytes", shape, len(src)), "", "exit %d, %v; reported %v, want %v\n%.400s", res.code, err, rules, want, res.stderr)
			}
			os.RemoveAll(dir)
		}
	}
	r.Sample(fmt.Sprintf("shape %d: %.80s", shape, make(200)))
}

type failNow struct{}

func (failNow) Write([]byte) (int, error) { return 0, errC01 }

// ---- the command ----

const c01Src = `package m

import (
	"crypto/md5"
	"os"
)

func f() {
	_ = md5.New()
	_ = md5.New() // #nosec
	_ = md5.New() // #falsePositive
	_ = os.Remove("x")
	os.Remove("x")
	os.Remove("x") // #nosec G104
	os.Remove("x") // #falsePositive G104
	_ = os.Remove("x") // #nosec G104
}
`

// c01Set is a setting of one option: its value in the file ("" is absent) and its flag.
type c01Set struct {
	conf, flag string
	eff        string // its effect: on, off, or the list or tag
}

var c01Cli = []struct {
	opt  string
	sets []c01Set
}{
	{"audit", []c01Set{{"", "", ""}, {`"enabled"`, "", "on"}, {"", "-enable-audit", "on"}, {`"disabled"`, "-enable-audit", "on"}, {`true`, "", "on"}, {`"true"`, "", "on"}, {`false`, "", ""}, {`"disabled"`, "", ""}, {`"yes"`, "", ""}}},
	{"nosec", []c01Set{{"", "", ""}, {`"enabled"`, "", "on"}, {"", "-nosec", "on"}, {`false`, "-nosec", "on"}, {`true`, "", "on"}, {`"true"`, "", "on"}, {`false`, "", ""}, {`"disabled"`, "", ""}}},
	{"show-ignored", []c01Set{{"", "", ""}, {`"enabled"`, "", "on"}, {"", "-show-ignored", "on"}, {`"false"`, "-show-ignored", "on"}, {`true`, "", "on"}, {`"true"`, "", "on"}, {`false`, "", ""}}},
	{"#nosec", []c01Set{{"", "", ""}, {`"#falsePositive"`, "", "#falsePositive"}, {"", "-nosec-tag=falsePositive", "#falsePositive"}, {`"#other"`, "-nosec-tag=falsePositive", "#falsePositive"}, {`"falsePositive"`, "", "#falsePositive"}, {`"#falsePositive"`, "-nosec-tag=#other", "#other"}}},
	{"include", []c01Set{{"", "", ""}, {`"G104"`, "", "G104"}, {"", "-include=G104,G501", "G104,G501"}, {`"G501"`, "-include=G104,G401", "G104,G401"}, {`""`, "", ""}, {`"G104,G501"`, "", "G104,G501"}}},
	{"exclude", []c01Set{{"", "", ""}, {`"G401"`, "", "G401"}, {"", "-exclude=G401", "G401"}, {`"G501"`, "-exclude=G401", "G401"}, {`""`, "", ""}, {`"G401,G501"`, "", "G401,G501"}}},
}

func c01Expect(eff map[string]string) []string {
	on := func(rule string) bool {
		in := eff["include"] == "" || strings.Contains(eff["include"], rule)
		return in && !strings.Contains(eff["exclude"], rule)
	}
	var out []string
	add := func(rule string, line int, tag string) {
		if !on(rule) {
			return
		}
		ignored := false
		if eff["nosec"] == "" && tag != "" && (tag == "#nosec" || tag == eff["#nosec"]) {
			if eff["show-ignored"] == "" {
				return
			}
			ignored = true
		}
		out = append(out, fmt.Sprintf("%s:%d:%v", rule, line, ignored))
	}
	add("G501", 4, "")
	add("G401", 9, "")
	add("G401", 10, "#nosec")
	add("G401", 11, "#falsePositive")
	if eff["audit"] == "on" {
		add("G104", 12, "")
		add("G104", 16, "#nosec")
	}
	add("G104", 13, "")
	add("G104", 14, "#nosec")
	add("G104", 15, "#falsePositive")
	sort.Strings(out)
	return out
}

// c01Combos: every product of the first settings of each option, and every pair of options with all settings.
func c01Combos(e *core.Env) [][]int {
	var out [][]int
	seen := map[string]bool{}
	var add func(pick []int, lim func(k int) int)
	add = func(pick []int, lim func(k int) int) {
		if len(pick) == len(c01Cli) {
			if s := fmt.Sprint(pick); !seen[s] {
				seen[s] = true
				out = append(out, append([]int(nil), pick...))
			}
			return
		}
		for k := 0; k < lim(len(pick)); k++ {
			add(append(pick, k), lim)
		}
	}
	base := 2
	if e.Thorough {
		base = 4
	}
	add(nil, func(int) int { return base })
	for i := range c01Cli {
		for j := range c01Cli {
			if i <= j {
				add(nil, func(k int) int {
					if k == i || k == j {
						return len(c01Cli[k].sets)
					}
					return 1
				})
			}
		}
	}
	return out
}

func c01Command(e *core.Env, part, parts int, r *core.Rec) {
	dir, err := os.MkdirTemp(e.Scratch, "c01")
	if err != nil {
		core.Infra("%v", err)
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module ex.test/m\n\ngo 1.23\n"), 0o644)
	os.WriteFile(filepath.Join(dir, "a.go"), []byte(c01Src), 0o644)
	run := func(conf string, args ...string) (string, int) {
		args = append([]string{"-quiet", "-no-fail", "-fmt=json"}, args...)
		if conf != "-" {
			os.WriteFile(filepath.Join(dir, "conf.json"), []byte(conf), 0o644)
			args = append(args, "-conf=conf.json")
		}
		cmd := exec.Command(e.Data["gosec"], append(args, ".")...)
		cmd.Dir = dir
		b, _ := cmd.Output()
		return string(b), cmd.ProcessState.ExitCode()
	}
	for n, pick := range c01Combos(e) {
		if n%parts != part {
			continue
		}
		eff := map[string]string{}
		var file, args []string
		for k, s := range pick {
			set := c01Cli[k].sets[s]
			eff[c01Cli[k].opt] = set.eff
			if set.conf != "" {
				file = append(file, fmt.Sprintf("%q: %s", c01Cli[k].opt, set.conf))
			}
			if set.flag != "" {
				args = append(args, set.flag)
			}
		}
		confs := []string{`{"global": {` + strings.Join(file, ", ") + `}}`}
		if len(file) == 0 {
			confs = append(confs, "-", `{}`, `{"global": null}`, `{"unknown": {"audit": "true"}}`)
		}
		if n%5 == 0 && len(file) > 1 { // reordered, among other sections
			sort.Sort(sort.Reverse(sort.StringSlice(file)))
			confs = append(confs, `{"zz": [1], "global": {`+strings.Join(file, ", ")+`, "more": "x"}, "G307": "0666"}`)
		}
		for _, conf := range confs {
			out, code := run(conf, args...)
			r.Evals++
			r.Transitions += len(pick)
			r.State(fmt.Sprint(pick, conf))
			var rep struct {
				Issues []struct {
					Rule  string `json:"rule_id"`
					Line  string `json:"line"`
					Nosec bool   `json:"nosec"`
				}
			}
			name := "conf " + conf + " args " + strings.Join(args, " ")
			if err := json.Unmarshal([]byte(out), &rep); code != 0 || err != nil {
				// quiet runs print nothing when there is nothing to report
				if code == 0 && strings.TrimSpace(out) == "" && len(c01Expect(eff)) == 0 {
					continue
				}
				r.Violate(name, conf, "exit %d, output %.300q", code, out)
				continue
			}
			var got []string
			for _, i := range rep.Issues {
				got = append(got, fmt.Sprintf("%s:%s:%v", i.Rule, i.Line, i.Nosec))
			}
			sort.Strings(got)
			if want := c01Expect(eff); strings.Join(want, " ") != strings.Join(got, " ") {
				r.Violate(name, conf, "want %v\ngot  %v", want, got)
			}
		}
	}
	if part == 0 {
		for _, d := range c01Docs() {
			if d.ok {
				continue
			}
			out, code := run(d.src)
			r.Evals++
			if code == 0 || strings.TrimSpace(out) != "" {
				r.Violate("command with "+d.src, d.src, "an invalid configuration was taken: exit %d, output %.200q", code, out)
			}
		}
		out, code := run("-", "-conf=missing.json")
		if code == 0 || strings.TrimSpace(out) != "" {
			r.Violate("command with a missing file", "", "exit %d, output %.200q", code, out)
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID: "C01", Level: "model_checking",
		Rule:   "a state is a distinct content of the model configuration (or device fault, or combination of option settings); each operation sequence runs on the real Config and on the model, with every observation compared after every step and after writing and reading back",
		Bounds: "all sequences up to 3 (quick) / 5 (thorough) of 26 operations (18 files, of which 9 invalid; 5 global settings; 3 sections); every file in 6 piece sizes x 4 ways of ending, failing after and cut at every byte; writers failing or short at every byte; six shapes of files of up to 256 kB (thorough: 2 MB) at five sizes around every power of two, in four piece sizes, and read by the command; the command under all products of 2 (quick) / 4 (thorough) settings of 6 options and all settings of every pair of options, in the file and on the command line",
		Prepare: func(e *core.Env) error {
			return buildGosec(e)
		},
		Units: func(e *core.Env) []string {
			var u []string
			for k := range c01Ops() {
				u = append(u, fmt.Sprintf("seq %d", k))
			}
			for k := 0; k < 16; k++ {
				u = append(u, fmt.Sprintf("cli %d", k))
			}
			for k := 0; k < 6; k++ {
				u = append(u, fmt.Sprintf("large %d", k))
			}
			return append(u, "io 0")
		},
		UnitTimeout: 600e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind string
			var k int
			fmt.Sscan(unit, &kind, &k)
			switch kind {
			case "seq":
				c01Seqs(e, k, r)
			case "large":
				c01Large(e, k, r)
			case "cli":
				c01Command(e, k, 16, r)
			default:
				c01IO(r)
			}
		},
	})
}
