package checks

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/core"
)

// D01: every listed dangerous function and blocklisted package, in every import form, called from every syntactic
// context, next to every look-alike. Each generated line carries whether it must be reported.

type d01API struct {
	rule, path, call string // call with Q as the qualifier
	nres             int
	expr             bool // not usable as a statement
}

var d01APIs = func() []d01API {
	var out []d01API
	add := func(rule, p string, nres int, calls ...string) {
		for _, c := range calls {
			out = append(out, d01API{rule, p, "Q." + c, nres, p == "unsafe"})
		}
	}
	add("G103", "unsafe", 1, "Pointer(&vi)", "String(&vb, 1)", "StringData(vs)", "Slice(&vi, 1)", "SliceData(vl)")
	add("G106", "golang.org/x/crypto/ssh", 1, "InsecureIgnoreHostKey()")
	add("G114", "net/http", 1, `ListenAndServe("", nil)`, `ListenAndServeTLS("", "", "", nil)`, "Serve(nil, nil)", `ServeTLS(nil, nil, "", "")`)
	add("G401", "crypto/md5", 1, "New()", "Sum(nil)")
	add("G401", "crypto/sha1", 1, "New()", "Sum(nil)")
	add("G405", "crypto/des", 2, "NewCipher(nil)", "NewTripleDESCipher(nil)")
	add("G405", "crypto/rc4", 2, "NewCipher(nil)")
	add("G406", "golang.org/x/crypto/md4", 1, "New()")
	add("G406", "golang.org/x/crypto/ripemd160", 1, "New()")
	add("G404", "math/rand", 1, "New(nil)", "Float32()", "Float64()", "Int()", "Int31()", "Int31n(3)", "Int63()", "Int63n(3)", "Intn(3)", "NormFloat64()", "Uint32()", "Uint64()")
	add("G404", "math/rand", 2, "Read(nil)")
	add("G404", "math/rand/v2", 1, "New(nil)", "Float32()", "Float64()", "Int()", "Int32()", "Int32N(3)", "Int64()", "Int64N(3)", "IntN(3)", "N(3)", "N[int64](3)", "NormFloat64()", "Uint32()", "Uint32N(3)", "Uint64()", "Uint64N(3)", "UintN(3)")
	add("G102", "net", 2, `Listen("tcp", ":80")`)
	add("G102", "crypto/tls", 2, `Listen("tcp", "0.0.0.0:80", nil)`)
	add("G107", "net/http", 2, "Get(vs)", "Head(vs)", `Post(vs, "", nil)`, "PostForm(vs, nil)")
	add("G203", "html/template", 1, "HTML(vs)", "HTMLAttr(vs)", "JS(vs)", "URL(vs)")
	add("G204", "os/exec", 1, "Command(vs)", "CommandContext(nil, vs)")
	add("G301", "os", 1, `Mkdir("x", 0777)`, `MkdirAll("x", 0751)`)
	add("G302", "os", 1, `Chmod("x", 0777)`)
	add("G302", "os", 2, `OpenFile("x", 0, 0777)`)
	add("G303", "os", 2, `Create("/tmp/x")`)
	add("G304", "os", 2, "Open(vs)", "ReadFile(vs)", "Create(vs)", "OpenFile(vs, 0, 0)")
	add("G304", "io/ioutil", 2, "ReadFile(vs)")
	add("G306", "os", 1, `WriteFile("x", nil, 0777)`)
	add("G306", "io/ioutil", 1, `WriteFile("x", nil, 0777)`)
	add("G403", "crypto/rsa", 2, "GenerateKey(nil, 1024)")
	for i, a := range out {
		if a.path == "html/template" {
			out[i].expr = true
		}
	}
	return out
}()

// d01Imports are the rules about the import itself.
var d01Imports = map[string]string{"crypto/md5": "G501", "crypto/des": "G502", "crypto/rc4": "G503", "net/http/cgi": "G504", "crypto/sha1": "G505",
	"golang.org/x/crypto/md4": "G506", "golang.org/x/crypto/ripemd160": "G507"}

var d01Rules = strings.Fields("G102 G103 G107 G203 G204 G301 G302 G303 G304 G306 G403 G106 G108 G114 G401 G404 G405 G406 G501 G502 G503 G504 G505 G506 G507")

const d01Decls = `
var (
	vi int
	vb byte
	vs string
	vl []int
)

func sink(...any) {}

func sink1(any) bool { return true }

type look struct{ n int }

func (look) New(...any) any { return nil }
METHODS
`

// d01Contexts: C is the call, B the blanks it is assigned to. "s" contexts need a statement, "1" contexts a single result.
var d01Contexts = []struct{ kind, src string }{
	{"", "var B = C"},
	{"1", "var vK = []any{1, C}"},
	{"1", "var mK = map[string]any{\"a\": C}"},
	{"", "var fK = func() { B = C }"},
	{"", "func aK() { B = C }"},
	{"", "func bK() { sink(C) }"},
	{"s", "func cK() { defer C }"},
	{"s", "func dK() { go C }"},
	{"s1", "func eK() { C }"},
	{"", "func fK() { go func() { defer func() { sink(C) }() }() }"},
	{"1", "func gK() any { return C }"},
	{"1", "func hK() { if x := C; sink1(x) { sink(x) } else if sink1(C) { return } }"},
	{"", "func iK() { for i := 0; i < 2; i++ { switch i { case 1: sink(C); default: B = C } } }"},
	{"1", "func jK(ch chan any) { select { case ch <- C: default: } }"},
	{"", "func (look) kK() { sink(C) }"},
	{"", "func lK[T any](x T) { sink(x); B = C }"},
	{"", "func init() { B = C }"},
	{"1", "func nK() { x := struct{ a, b any }{a: C, b: 1}; sink(x) }"},
	{"1", "func oK(x any) { x = sink1(sink1(C)); sink(x) }"},
	{"", "func pK() { for range 2 { goto L; L: sink(C) } }"},
	{"", "func qK() {\n\t{\n\t\tsink(\n\t\t\tC,\n\t\t)\n\t}\n}"},
	{"1", "type tK [2]struct{}\n\nvar _, xK = 1, C"},
	{"", "func rK() { sink((C)) }"},
	{"P", "func sK() { B = (F)A }"},
}

type d01Gen struct {
	lines []string
	want  []string
	file  string
	k     int
}

func (g *d01Gen) add(s string) { g.lines = append(g.lines, strings.Split(s, "\n")...) }

// calls adds every context around the call, expected to be reported or not.
func (g *d01Gen) calls(a d01API, q string, danger bool, nres int, only int) {
	call := strings.Replace(a.call, "Q.", q+".", 1)
	if !danger {
		call = strings.Replace(call, "[int64]", "", 1)
	}
	blanks := "_"
	if nres == 2 {
		blanks = "_, _"
	}
	for i, c := range d01Contexts {
		if only >= 0 && i != only {
			continue
		}
		if a.expr && danger && strings.Contains(c.kind, "s") || nres != 1 && strings.Contains(c.kind, "1") {
			continue
		}
		if c.kind == "P" && danger && d01Method(a) == "N" {
			continue // not inferred
		}
		g.k++
		fun, args, _ := strings.Cut(call, "(")
		src := strings.NewReplacer("C", call, "B", blanks, "K", fmt.Sprint(g.k), "F", fun, "A", "("+args).Replace(c.src)
		for _, l := range strings.Split(src, "\n") {
			g.lines = append(g.lines, l)
			n := strings.Count(l, call)
			if c.kind == "P" {
				n = 1
			}
			for ; danger && n > 0; n-- {
				g.want = append(g.want, fmt.Sprintf("%s:%d %s", g.file, len(g.lines), a.rule))
			}
		}
	}
}

func (g *d01Gen) imports(specs ...string) {
	g.add("import (")
	for _, s := range specs {
		g.add("\t" + s)
		if r := d01Imports[strings.Trim(s[strings.LastIndexAny(s, " ")+1:], "\"`")]; r != "" {
			g.want = append(g.want, fmt.Sprintf("%s:%d %s", g.file, len(g.lines), r))
		}
	}
	g.add(")")
}

func d01Base(p string) string {
	b := path.Base(p)
	if b == "v2" {
		b = path.Base(path.Dir(p))
	}
	return b
}

// d01Method is the function name of a call.
func d01Method(a d01API) string {
	n, _, _ := strings.Cut(strings.TrimPrefix(a.call, "Q."), "(")
	n, _, _ = strings.Cut(n, "[")
	return n
}

var d01Forms = []string{"plain", "renamed", "raw", "raw renamed", "twice", "twice reversed", "next to look-alike", "swapped", "look-alike only", "look-alike in another folder",
	"look-alike versioned", "revision folder", "blank", "shadow variable", "shadow parameter", "shadow constant", "shadow type", "field", "other file", "own package", "own package other file",
	"renamed like itself", "dangerous renamed as other", "grouped twice"}

// d01Program builds the package of an API and a form.
func d01Program(l *core.Loader, a d01API, form string, only int) ([]core.File, []string, string) {
	b := d01Base(a.path)
	m := d01Method(a)
	stub := "package " + b + "\n\nfunc " + m + "(...any) any { return nil }\n"
	lk, lk2, lkv, lkr := "ex.test/look/"+b, "ex.test/look/go-"+b, "ex.test/look/x/"+b+"/v3", "ex.test/look/"+b+"/rev2"
	for _, p := range []string{lk, lk2, lkv} {
		l.AddStub(p, stub)
	}
	l.AddStub(lkr, strings.Replace(stub, "package "+b, "package rev", 1))
	q := `"`
	pkg := "p"
	g := &d01Gen{file: "a.go"}
	decls := strings.Replace(d01Decls, "METHODS", "", 1)
	if m != "New" {
		decls = strings.Replace(d01Decls, "METHODS", "func (look) "+m+"(...any) any { return nil }\n", 1)
	}
	decls += "\ntype lookC int\n\nfunc (lookC) " + m + "(...any) any { return nil }\n\ntype holder struct{ " + b + " look }\n"
	var extra []*d01Gen
	use := "var _ = Q." + m
	if a.expr { // not usable as a value
		use = "var _ = func() { _ = " + a.call + " }"
	}
	if m == "N" {
		use = "var _ = Q.N[int]"
	}
	switch form {
	case "own package", "own package other file":
		pkg = b
	}
	g.add("package " + pkg + "\n")
	realUse := func(q string) { // keeps the import used
		if a.expr {
			g.calls(a, q, true, a.nres, 0)
			return
		}
		g.add(strings.Replace(use, "Q.", q+".", 1))
	}
	switch form {
	case "plain":
		g.imports(q + a.path + q)
		g.calls(a, b, true, a.nres, only)
	case "renamed":
		g.imports("zz " + q + a.path + q)
		g.calls(a, "zz", true, a.nres, only)
	case "renamed like itself":
		g.imports(b + " " + q + a.path + q)
		g.calls(a, b, true, a.nres, only)
	case "dangerous renamed as other":
		g.imports("fmt "+q+a.path+q, `os "fmt"`)
		g.add("var _ = os.Sprint()")
		g.calls(a, "fmt", true, a.nres, only)
	case "raw":
		g.imports("`" + a.path + "`")
		g.calls(a, b, true, a.nres, only)
	case "raw renamed":
		g.imports("zz `" + a.path + "`")
		g.calls(a, "zz", true, a.nres, only)
	case "twice", "twice reversed":
		i1, i2 := q+a.path+q, "zz "+q+a.path+q
		if form == "twice" {
			g.imports(i1, i2)
		} else {
			g.imports(i2, i1)
		}
		g.calls(a, b, true, a.nres, only)
		g.calls(a, "zz", true, a.nres, only)
	case "grouped twice":
		g.imports("zz " + q + a.path + q)
		g.imports(`"fmt"`)
		g.imports("yy `"+a.path+"`", q+a.path+q)
		g.add("var _ = fmt.Sprint()")
		g.calls(a, b, true, a.nres, only)
		g.calls(a, "zz", true, a.nres, only)
		g.calls(a, "yy", true, a.nres, only)
	case "next to look-alike":
		g.imports(q+a.path+q, "lk "+q+lk+q)
		g.calls(a, b, true, a.nres, only)
		g.calls(a, "lk", false, 1, only)
	case "swapped":
		g.imports(q+lk+q, "zz "+q+a.path+q)
		g.calls(a, b, false, 1, only)
		g.calls(a, "zz", true, a.nres, only)
	case "look-alike only":
		g.imports(q + lk + q)
		g.calls(a, b, false, 1, only)
	case "look-alike in another folder":
		g.imports(q+lk2+q, "zz "+q+a.path+q)
		g.calls(a, b, false, 1, only)
		g.calls(a, "zz", true, a.nres, only)
	case "look-alike versioned":
		g.imports(q+lkv+q, "zz "+q+a.path+q)
		g.calls(a, b, false, 1, only)
		g.calls(a, "zz", true, a.nres, only)
	case "revision folder":
		g.imports(q+a.path+q, q+lkr+q)
		g.calls(a, "rev", false, 1, only)
		g.calls(a, b, true, a.nres, only)
	case "blank":
		g.imports("_ "+q+a.path+q, q+lk+q)
		g.calls(a, b, false, 1, only)
	case "shadow variable":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func shadow() { var " + b + " look; sink(" + b + "." + m + "()); sink(" + b + "." + m + "(nil)) }")
		g.add("func shadow2() { " + b + " := &look{}; go " + b + "." + m + "(1); func() { sink(" + b + "." + m + "()) }() }")
		g.add("func shadow3() { for _, " + b + " := range []look{{1}} { sink(" + b + "." + m + "()) } }")
		g.add("func shadow4() { switch " + b + " := any(vi).(type) { case look: sink(" + b + "." + m + "()) } }")
		g.calls(a, b, true, a.nres, only)
	case "shadow parameter":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func shadow(" + b + " look) { sink(" + b + "." + m + "()) }")
		g.add("func shadow2() (" + b + " *look) { sink(" + b + "." + m + "()); return nil }")
		g.add("func (" + b + " look) shadow3() { sink(" + b + "." + m + "()) }")
		g.add("func shadow5[T interface{ " + m + "(...any) any }](" + b + " T) { sink(" + b + "." + m + "()) }")
		g.calls(a, b, true, a.nres, only)
	case "shadow constant":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func shadow() { const " + b + " lookC = 1; sink(" + b + "." + m + "()) }")
		g.calls(a, b, true, a.nres, only)
	case "shadow type":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func shadow() { type " + b + " struct{ look }; sink(" + b + "." + m + "(" + b + "{})) }")
		g.add("func shadow2() { type " + b + " = look; sink(" + b + "." + m + "(look{})) }")
		g.calls(a, b, true, a.nres, only)
	case "field":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func field(x holder, y *holder) { sink(x." + b + "." + m + "(), y." + b + "." + m + "()) }")
		g.add("func field2(x []holder) { sink(x[0]." + b + "." + m + "(), holder{}." + b + "." + m + "()) }")
		g.calls(a, b, true, a.nres, only)
	case "other file":
		g.imports(q + a.path + q)
		g.calls(a, b, true, a.nres, only)
		o := &d01Gen{file: "b.go", k: 1000}
		o.add("package p\n")
		o.imports(q+lk+q, `"fmt"`)
		o.add("var _ = fmt.Sprint()")
		o.calls(a, b, false, 1, only)
		o2 := &d01Gen{file: "c.go", k: 2000}
		o2.add("package p\n")
		o2.imports(b + " " + q + a.path + q)
		a2 := a // a variable of this file
		a2.call = strings.Replace(a.call, "vs", "vs2", 1)
		o2.calls(a2, b, true, a.nres, only)
		o2.add("var vs2 string")
		o3 := &d01Gen{file: "0.go", k: 3000}
		o3.add("package p\n\nfunc otherVar() { sink(dvar." + m + "()) }\n\nvar dvar look")
		extra = append(extra, o, o2, o3)
	case "own package":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func " + m + "(...any) any { return nil }")
		g.add("func own() { sink(" + m + "()); " + m + "(nil) }")
		g.calls(a, b, true, a.nres, only)
	case "own package other file":
		g.imports(q + a.path + q)
		realUse(b)
		g.add("func own() { sink(" + m + "()); " + m + "(nil) }")
		g.calls(a, b, true, a.nres, only)
		o := &d01Gen{file: "b.go", k: 1000}
		o.add("package " + pkg + "\n\nfunc " + m + "(...any) any { return " + m + "() }")
		extra = append(extra, o)
	default:
		core.Infra("form %s", form)
	}
	g.add(decls)
	files := []core.File{{Name: g.file, Src: strings.Join(g.lines, "\n") + "\n"}}
	want := g.want
	for _, x := range extra {
		files = append(files, core.File{Name: x.file, Src: strings.Join(x.lines, "\n") + "\n"})
		want = append(want, x.want...)
	}
	sort.Slice(files, func(i, j int) bool { return files[i].Name < files[j].Name })
	sort.Strings(want)
	return files, want, pkg
}

func d01Scan(l *core.Loader, files []core.File, want []string, key string, r *core.Rec) {
	p := l.MustLoad("ex.test/p", files...)
	is, _ := core.Scan(core.Opts{Include: d01Rules, NoSSA: true}, p)
	var got []string
	for _, i := range is {
		got = append(got, fmt.Sprintf("%s:%s %s", filepath.Base(i.File), i.Line, i.RuleID))
	}
	sort.Strings(got)
	r.Evals++
	r.Transitions += len(want)
	r.State(key)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		s := ""
		for _, f := range files {
			s += "--- " + f.Name + "\n" + f.Src
		}
		r.Violate(key, s, "%s", diffLists(want, got))
	}
}

// d01ImportForms checks the import rules under every spelling and place of the import.
func d01ImportForms(l *core.Loader, r *core.Rec) {
	paths := map[string]string{"net/http/pprof": "G108"}
	for p, id := range d01Imports {
		paths[p] = id
	}
	for p, id := range paths {
		use := map[string]string{"net/http/cgi": "var _ Q.Handler", "net/http/pprof": "var _ = Q.Index", "crypto/rc4": "var _ Q.KeySizeError", "crypto/des": "const _ = Q.BlockSize"}[p]
		if use == "" {
			use = "const _ = Q.Size"
		}
		for _, qt := range []string{`"`, "`"} {
			for ni, name := range []string{"", "zz ", "_ ", ". "} {
				for _, place := range []string{"alone", "group first", "group last", "second group", "after other", "commented", "semicolon"} {
					spec := name + qt + p + qt
					src := "package p\n\n"
					switch place {
					case "alone":
						src += "import @" + spec + "\n"
					case "group first":
						src += "import (\n\t@" + spec + "\n\t\"fmt\"\n)\n"
					case "group last":
						src += "import (\n\t\"fmt\"\n\n\t@" + spec + "\n)\n"
					case "second group":
						src += "import (\n\t\"fmt\"\n)\n\nimport (\n\t@" + spec + "\n)\n"
					case "after other":
						src += "import \"fmt\"\nimport @" + spec + "\n"
					case "commented":
						src += "import (\n\t// a comment\n\t@" + spec + " // another\n)\n"
					case "semicolon":
						src += "import (\"fmt\"; @" + spec + ")\n"
					}
					if strings.Contains(src, `"fmt"`) {
						src += "\nvar _ = fmt.Sprint()\n"
					}
					q := []string{path.Base(p) + ".", "zz.", "", ""}[ni]
					if ni != 2 {
						src += "\n" + strings.Replace(use, "Q.", q, 1) + "\n"
					}
					pre, _, _ := strings.Cut(src, "@")
					want := []string{}
					want = append(want, fmt.Sprintf("a.go:%d %s", 1+strings.Count(pre, "\n"), id))
					if id == "G108" && ni != 2 {
						// G108 is about the handlers which the import registers, however the package is named
						continue
					}
					d01Scan(l, []core.File{{Name: "a.go", Src: strings.Replace(src, "@", "", 1)}}, want, fmt.Sprintf("import %s %s", spec, place), r)
				}
			}
		}
	}
	// look-alike paths
	for p := range paths {
		for _, v := range []string{"ex.test/" + p, p + "x", "x" + p, p + "/x"} {
			l.AddStub(v, "package look\n\nconst Size = 1\n")
			d01Scan(l, []core.File{{Name: "a.go", Src: "package p\n\nimport look " + `"` + v + `"` + "\n\nconst _ = look.Size\n"}}, nil, "import "+v, r)
			d01Scan(l, []core.File{{Name: "a.go", Src: "package p\n\nimport _ `" + v + "`\n"}}, nil, "blank import "+v, r)
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID: "D01", Level: "model_checking",
		Rule:   "a state is a distinct (API, import form, context set) or (import, spelling, place); each is a generated package scanned by the real rules, whose marked lines must be exactly the findings",
		Bounds: fmt.Sprintf("%d listed calls x %d import forms and look-alikes x %d syntactic contexts (all contexts in one package; thorough: also each context in a package of its own); 8 import rules x 2 quotings x 4 names x 7 places; look-alike paths", len(d01APIs), len(d01Forms), len(d01Contexts)),
		Prepare: func(e *core.Env) error {
			return core.PrepareStd(e)
		},
		Units: func(e *core.Env) []string {
			u := []string{"imports"}
			for i := range d01APIs {
				u = append(u, fmt.Sprintf("api %d", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			var i int
			if n, _ := fmt.Sscanf(unit, "api %d", &i); n == 0 {
				d01ImportForms(l, r)
				return
			}
			for _, f := range d01Forms {
				from, to := -1, 0
				if e.Thorough {
					to = len(d01Contexts)
				}
				for c := from; c < to; c++ {
					files, want, _ := d01Program(l, d01APIs[i], f, c)
					if c >= 0 {
						// the import must still be used
						if _, err := l.Load("ex.test/p", files...); err != nil && strings.Contains(err.Error(), "imported and not used") {
							continue
						}
					}
					key := fmt.Sprintf("%s %s: %s", d01APIs[i].path, d01APIs[i].call, f)
					if c >= 0 {
						key += fmt.Sprint(" context ", c)
					}
					d01Scan(l, files, want, key, r)
				}
			}
			if i < 3 {
				r.Sample(d01APIs[i].call)
			}
		},
	})
}
