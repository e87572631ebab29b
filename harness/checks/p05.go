package checks

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"verifharness/core"

	"github.com/securego/gosec/v2"
)

// P05: no crash, no hang. Three program families, all enumerated: (api) every exported function and method of the
// packages the rules look at, called with every argument shape in every context and call form; (decl) declaration,
// assignment, comparison and range shapes; (flow) value flows with loops, recursion, closures into each data-flow
// sink. Plus (conf): every small value for every rule's configuration section.

var p05Core = strings.Fields(`os io io/ioutil path path/filepath os/exec crypto/md5 crypto/sha1 crypto/des crypto/rc4 crypto/rsa
 crypto/tls crypto/cipher net net/http net/http/cgi database/sql html/template fmt strconv math/rand archive/zip archive/tar
 compress/gzip compress/zlib compress/bzip2 compress/flate compress/lzw bufio golang.org/x/crypto/ssh golang.org/x/crypto/md4 golang.org/x/crypto/ripemd160 log`)

var p05More = strings.Fields(`bytes context crypto/aes crypto/rand crypto/sha256 crypto/x509 encoding/base64 encoding/hex encoding/json errors
 io/fs math math/big math/rand/v2 net/http/pprof net/url regexp sort strings sync text/template time`)

type p05API struct {
	pkg, recv, name string
	sig             *types.Signature
	recvT           types.Type
}

func p05Exported(t types.Type) bool {
	ok := true
	var walk func(types.Type, int)
	walk = func(t types.Type, d int) {
		if d > 6 || !ok {
			return
		}
		switch t := t.(type) {
		case *types.Named:
			o := t.Obj()
			if o.Pkg() != nil && (!o.Exported() || strings.Contains(o.Pkg().Path(), "internal") || strings.HasPrefix(o.Pkg().Path(), "vendor/")) {
				ok = false
			}
			for i := 0; i < t.TypeArgs().Len(); i++ {
				walk(t.TypeArgs().At(i), d+1)
			}
		case *types.Alias:
			if o := t.Obj(); o.Pkg() != nil && !o.Exported() {
				ok = false
			}
			walk(types.Unalias(t), d+1)
		case *types.Pointer:
			walk(t.Elem(), d+1)
		case *types.Slice:
			walk(t.Elem(), d+1)
		case *types.Array:
			walk(t.Elem(), d+1)
		case *types.Chan:
			walk(t.Elem(), d+1)
		case *types.Map:
			walk(t.Key(), d+1)
			walk(t.Elem(), d+1)
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				walk(t.Params().At(i).Type(), d+1)
			}
			for i := 0; i < t.Results().Len(); i++ {
				walk(t.Results().At(i).Type(), d+1)
			}
		case *types.TypeParam:
			ok = false
		}
	}
	walk(t, 0)
	return ok
}

func p05APIs(l *core.Loader, path string) []p05API {
	p, err := l.Import(path)
	if err != nil {
		core.Infra("import %s: %v", path, err)
	}
	var out []p05API
	for _, n := range p.Scope().Names() {
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if o.Exported() && sig.TypeParams().Len() == 0 && p05Exported(sig) {
				out = append(out, p05API{path, "", n, sig, nil})
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok || !o.Exported() || nt.TypeParams().Len() > 0 || !p05Exported(nt) {
				continue
			}
			var rt types.Type = nt
			if !types.IsInterface(nt) {
				rt = types.NewPointer(nt)
			}
			ms := types.NewMethodSet(rt)
			for i := 0; i < ms.Len(); i++ {
				f, ok := ms.At(i).Obj().(*types.Func)
				if !ok || !f.Exported() {
					continue
				}
				sig := f.Type().(*types.Signature)
				if p05Exported(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
					out = append(out, p05API{path, n, f.Name(), sig, rt})
				}
			}
		}
	}
	return out
}

// p05Gen writes programs calling one API.
type p05Gen struct {
	api   p05API
	names map[string]string // import path -> local name
	used  map[string]bool
}

func (g *p05Gen) local(p *types.Package) string {
	if n, ok := g.names[p.Path()]; ok {
		return n
	}
	n := p.Name()
	for g.used[n] {
		n += "x"
	}
	g.used[n] = true
	g.names[p.Path()] = n
	return n
}

func (g *p05Gen) ts(t types.Type) string { return types.TypeString(t, g.local) }

func (g *p05Gen) imports() string {
	var ps []string
	for p := range g.names {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	s := ""
	for _, p := range ps {
		s += fmt.Sprintf("import %s %q\n", g.names[p], p)
	}
	return s
}

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func basicOf(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

// p05Shapes are the argument shapes; each maps parameter i of type T to an expression (with %N placeholders filled in).
var p05Shapes = []string{"param", "local", "localinit", "othervar", "pkgvar", "call", "field", "index", "mapidx", "deref", "funclit",
	"assert", "conv", "paren", "lit", "const", "otherconst", "binary", "binarymixed", "nil", "recv", "tuplevar", "rangevar", "addr", "star", "slice",
	"nest0", "nest1", "nest2", "nest3", "nest4", "nest5", "nest6", "nest7", "vnest0", "vnest1", "vnest2", "vnest3", "vnest4", "vnest5", "vnest6", "vnest7"}

// p05Nest are string expressions built by other calls the rules look into.
var p05Nest = []string{"filepath.Join()", "filepath.Join(strs())", "filepath.Clean(%s)", "fmt.Sprint()", "fmt.Sprintf(sany())", "fmt.Sprintf(%s)", "filepath.Join(\"/tmp\", %s)", "func() string { return filepath.Join(os.TempDir()) }()"}

func (g *p05Gen) arg(shape string, i int, t types.Type) string {
	T := g.ts(t)
	b := basicOf(t)
	str, num := b&types.IsString != 0, b&types.IsNumeric != 0
	p := fmt.Sprintf("p%d", i)
	if k := strings.Index(shape, "nest"); k >= 0 && T == "string" {
		if k == 1 {
			return fmt.Sprintf("vn%d", i)
		}
		return g.nest(int(shape[4]-'0'), p)
	}
	switch shape {
	case "local":
		return fmt.Sprintf("l%d", i)
	case "localinit":
		return fmt.Sprintf("li%d", i)
	case "othervar":
		return fmt.Sprintf("ov%d", i)
	case "pkgvar":
		return fmt.Sprintf("pv%d", i)
	case "call":
		return fmt.Sprintf("mk%d()", i)
	case "field":
		return fmt.Sprintf("s.f%d", i)
	case "index":
		return fmt.Sprintf("[]%s{%s}[0]", T, p)
	case "mapidx":
		return fmt.Sprintf("map[string]%s{}[\"k\"]", T)
	case "deref":
		return fmt.Sprintf("*(&%s)", p)
	case "funclit":
		return fmt.Sprintf("func() %s { return %s }()", T, p)
	case "assert":
		return fmt.Sprintf("any(%s).(%s)", p, T)
	case "conv":
		return fmt.Sprintf("(%s)(%s)", T, p)
	case "paren":
		return "(" + p + ")"
	case "lit":
		if str {
			return `"/tmp/SELECT * FROM x WHERE %s"`
		}
		if num {
			return "1"
		}
		if b&types.IsBoolean != 0 {
			return "false"
		}
	case "const":
		if str {
			return "kStr"
		}
		if num {
			return "kNum"
		}
	case "otherconst":
		if str {
			return "okStr"
		}
		if num {
			return "okNum"
		}
	case "binary":
		if str {
			return fmt.Sprintf("%s + %s", p, p)
		}
		if num && b&types.IsInteger != 0 {
			return fmt.Sprintf("%s | %s", p, p)
		}
	case "binarymixed":
		if str {
			return fmt.Sprintf(`"SELECT * FROM t WHERE " + (%s) + kStr + ov%d + mk%d() + s.f%d`, p, i, i, i)
		}
		if num && b&types.IsInteger != 0 {
			return fmt.Sprintf("^%s + 1", p)
		}
	case "nil":
		if isNillable(t) {
			return "nil"
		}
	case "recv":
		return fmt.Sprintf("<-make(chan %s)", T)
	case "tuplevar":
		return fmt.Sprintf("tv%d", i)
	case "rangevar":
		return fmt.Sprintf("rv%d", i)
	case "addr":
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return fmt.Sprintf("new(%s)", g.ts(pt.Elem()))
		}
	case "star":
		return fmt.Sprintf("(*q%d)", i)
	case "slice":
		if _, ok := t.Underlying().(*types.Slice); ok {
			return p + "[:]"
		}
		if str {
			return p + "[0:]"
		}
	}
	return p
}

func (g *p05Gen) nest(n int, p string) string {
	t := p05Nest[n]
	if strings.Contains(t, "%s") {
		t = fmt.Sprintf(t, p)
	}
	r := strings.NewReplacer("filepath.", g.local(types.NewPackage("path/filepath", "filepath"))+".", "fmt.", g.local(types.NewPackage("fmt", "fmt"))+".", "os.", g.local(types.NewPackage("os", "os"))+".")
	return r.Replace(t)
}

// body wraps a call in a context.
var p05Ctx = []string{"stmt", "define", "return", "go", "defer", "use", "if", "blank"}

func (g *p05Gen) inContext(ctx, call string, res *types.Tuple) string {
	n := res.Len()
	var lhs, rt, bl []string
	for i := 0; i < n; i++ {
		lhs = append(lhs, fmt.Sprintf("r%d", i))
		bl = append(bl, "_")
		rt = append(rt, g.ts(res.At(i).Type()))
	}
	L, R := strings.Join(lhs, ", "), strings.Join(rt, ", ")
	if n == 0 && (ctx == "define" || ctx == "use" || ctx == "if" || ctx == "blank" || ctx == "return") {
		return call
	}
	switch ctx {
	case "define":
		return fmt.Sprintf("%s := %s; use(%s)", L, call, L)
	case "return":
		return fmt.Sprintf("use(func() (%s) { return %s })", R, call)
	case "go":
		return "go " + call
	case "defer":
		return "defer " + call
	case "use":
		return fmt.Sprintf("use(%s)", call)
	case "if":
		return fmt.Sprintf("if %s := %s; true { use(%s) }", L, call, L)
	case "blank":
		return fmt.Sprintf("%s = %s", strings.Join(bl, ", "), call)
	}
	return call
}

type p05Case struct{ name, text string }

// cases lists every call case of the API; header and other are the shared declarations.
func (g *p05Gen) cases() (cs []p05Case, header, other string) {
	a := g.api
	pk := a.pkg[strings.LastIndex(a.pkg, "/")+1:]
	if a.pkg == "math/rand/v2" {
		pk = "rand"
	}
	g.names = map[string]string{a.pkg: pk}
	g.used = map[string]bool{pk: true, "s": true, "use": true}
	ps := a.sig.Params()
	n := ps.Len()
	variadic := a.sig.Variadic()
	var pts []types.Type
	for i := 0; i < n; i++ {
		pts = append(pts, ps.At(i).Type())
	}
	elem := func(i int) types.Type {
		if variadic && i == n-1 {
			return pts[i].(*types.Slice).Elem()
		}
		return pts[i]
	}
	if variadic {
		if _, ok := pts[n-1].(*types.Slice); !ok {
			return nil, "", ""
		}
	}
	header += "func use(...any) {}\ntype S struct {\n"
	for i := range pts {
		header += fmt.Sprintf("f%d %s\n", i, g.ts(elem(i)))
	}
	if a.recvT != nil {
		header += "r " + g.ts(a.recvT) + "\n"
	}
	header += "}\n"
	header += "func strs() (a, b string) { return }\nfunc sany() (a string, b any) { return }\n"
	other += "const okStr = \"x\"\nconst okNum = 1\n"
	header += "const kStr = \"k\"\nconst kNum = 7\n"
	params := "s S"
	for i := range pts {
		T := g.ts(elem(i))
		header += fmt.Sprintf("var pv%d %s\nfunc mk%d() (x %s) { return }\n", i, T, i, T)
		other += fmt.Sprintf("var ov%d %s\n", i, T)
		params += fmt.Sprintf(", p%d %s, q%d *%s", i, T, i, T)
	}
	if n > 0 {
		var ts []string
		for i := range pts {
			ts = append(ts, fmt.Sprintf("x%d %s", i, g.ts(elem(i))))
		}
		header += fmt.Sprintf("func all() (%s) { return }\n", strings.Join(ts, ", "))
	}
	callee := pk + "." + a.name
	if a.recvT != nil {
		params += ", rv " + g.ts(a.recvT)
		header += fmt.Sprintf("var prv %s\nfunc mkr() (x %s) { return }\n", g.ts(a.recvT), g.ts(a.recvT))
		other += fmt.Sprintf("var orv %s\n", g.ts(a.recvT))
		callee = "rv." + a.name
	}
	add := func(name, pre, stmt string) {
		cs = append(cs, p05Case{name, fmt.Sprintf("func t%d(%s) {\n%s\t%s\n}\n", len(cs), params, pre, stmt)})
	}
	args := func(shape string) string {
		var xs []string
		for i := range pts {
			xs = append(xs, g.arg(shape, i, elem(i)))
		}
		return strings.Join(xs, ", ")
	}
	pre := func(shape string) string {
		s := ""
		for i := range pts {
			T := g.ts(elem(i))
			if strings.HasPrefix(shape, "vnest") && T == "string" {
				s += fmt.Sprintf("\tvn%d := %s\n", i, g.nest(int(shape[5]-'0'), fmt.Sprintf("p%d", i)))
			}
			switch shape {
			case "local":
				s += fmt.Sprintf("\tvar l%d %s\n", i, T)
			case "localinit":
				s += fmt.Sprintf("\tli%d := p%d\n", i, i)
			case "tuplevar":
				s += fmt.Sprintf("\ttv%d, tw%d := func() (%s, error) { return p%d, nil }(); _ = tw%d\n", i, i, T, i, i)
			case "rangevar":
				s += fmt.Sprintf("\tvar rv%d %s\n\tfor _, rv%d = range []%s{} { _ = 0 }\n", i, T, i, T)
			}
		}
		return s
	}
	for _, sh := range p05Shapes {
		for _, cx := range p05Ctx {
			if strings.Contains(sh, "nest") && (cx != "stmt" && cx != "define" || !strings.Contains(args(sh), "Join") && !strings.Contains(args(sh), "Spr") && !strings.Contains(args(sh), "Clean") && !strings.Contains(args(sh), "vn")) {
				continue
			}
			add(sh+"/"+cx, pre(sh), g.inContext(cx, fmt.Sprintf("%s(%s)", callee, args(sh)), a.sig.Results()))
		}
		if n == 0 {
			break
		}
	}
	if n >= 2 {
		for i := range pts { // one argument differs from the rest
			for _, sh := range p05Shapes {
				if strings.Contains(sh, "nest") && g.ts(elem(i)) != "string" {
					continue
				}
				var xs []string
				for j := range pts {
					if i == j {
						xs = append(xs, g.arg(sh, j, elem(j)))
					} else {
						xs = append(xs, g.arg("lit", j, elem(j)))
					}
				}
				add(fmt.Sprintf("one%d-%s", i, sh), pre(sh), g.inContext("define", fmt.Sprintf("%s(%s)", callee, strings.Join(xs, ", ")), a.sig.Results()))
			}
		}
	}
	for _, cx := range p05Ctx {
		if n > 0 {
			add("multi/"+cx, "", g.inContext(cx, callee+"(all())", a.sig.Results()))
		}
		if variadic {
			var xs []string
			for i := 0; i < n-1; i++ {
				xs = append(xs, fmt.Sprintf("p%d", i))
			}
			add("variadic0/"+cx, "", g.inContext(cx, fmt.Sprintf("%s(%s)", callee, strings.Join(xs, ", ")), a.sig.Results()))
			ys := append(append([]string{}, xs...), fmt.Sprintf("[]%s{p%d}...", g.ts(elem(n-1)), n-1))
			add("spread/"+cx, "", g.inContext(cx, fmt.Sprintf("%s(%s)", callee, strings.Join(ys, ", ")), a.sig.Results()))
			ys = append(append([]string{}, xs...), "nil...")
			add("spreadnil/"+cx, "", g.inContext(cx, fmt.Sprintf("%s(%s)", callee, strings.Join(ys, ", ")), a.sig.Results()))
		}
		add("value/"+cx, "\th := "+callee+"\n", g.inContext(cx, "h("+args("param")+")", a.sig.Results()))
		add("parenfn/"+cx, "", g.inContext(cx, "("+callee+")("+args("param")+")", a.sig.Results()))
		if a.recvT != nil {
			for _, rc := range []string{"prv", "orv", "mkr()", "s.r", "(rv)", "[]" + "X{rv}[0]", "(*(&rv))", "func() X { return rv }()", "any(rv).(X)"} {
				rc = strings.ReplaceAll(rc, "X", g.ts(a.recvT))
				add("recv "+rc+"/"+cx, "", g.inContext(cx, rc+"."+a.name+"("+args("param")+")", a.sig.Results()))
			}
			add("embedded/"+cx, "\te := struct{ "+embedName(g.ts(a.recvT))+" }{rv}\n", g.inContext(cx, "e."+a.name+"("+args("param")+")", a.sig.Results()))
			ma := "rv"
			if n > 0 {
				ma += ", " + args("param")
			}
			add("methodexpr/"+cx, "", g.inContext(cx, "("+g.ts(a.recvT)+")."+a.name+"("+ma+")", a.sig.Results()))
		}
	}
	if a.recvT == nil { // a local value shadows the import
		header += fmt.Sprintf("var _ = %s\n", callee)
		for k := 0; k <= 4; k++ {
			var fp, fa []string
			for i := 0; i < k; i++ {
				fp = append(fp, fmt.Sprintf("a%d int", i))
				fa = append(fa, fmt.Sprint(i))
			}
			for _, res := range []string{"", "int", "(int, error)"} {
				id := len(cs)
				cs = append(cs, p05Case{fmt.Sprintf("shadow%d %s", k, res), fmt.Sprintf(
					"type sh%d struct{}\nfunc (sh%d) %s(%s) (%s) { panic(0) }\nfunc t%d(%s sh%d) {\n\t%s.%s(%s)\n}\n",
					id, id, a.name, strings.Join(fp, ", "), strings.Trim(res, "()"), id, pk, id, pk, a.name, strings.Join(fa, ", "))})
			}
			cs = append(cs, p05Case{fmt.Sprintf("shadowfield%d", k), fmt.Sprintf("func t%d(%s struct{ %s func(%s) }) {\n\t%s.%s(%s)\n}\n",
				len(cs), pk, a.name, strings.Join(fp, ", "), pk, a.name, strings.Join(fa, ", "))})
		}
	}
	return cs, header, other
}

func embedName(t string) string { return t }

func (g *p05Gen) files(header, other string, cs []p05Case) []core.File {
	body := ""
	for _, c := range cs {
		body += c.text
	}
	keep := ""
	var ps []string
	for p := range g.names {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	use := func(text string) string {
		s := ""
		for _, p := range ps {
			if strings.Contains(text, g.names[p]+".") {
				s += fmt.Sprintf("import %s %q\n", g.names[p], p)
			}
		}
		return s
	}
	_ = keep
	a := "package p\n" + use(header+body) + header + body
	b := "package p\n" + use(other) + other
	return []core.File{{Name: "a.go", Src: a}, {Name: "b.go", Src: b}}
}

// p05Scan scans and reports a panic value (with stack) or "".
func p05Scan(conf gosec.Config, l *core.Loader, fs ...core.File) (res string, n int) {
	pkg, err := l.Load("p", fs...)
	if err != nil {
		return "load: " + err.Error(), 0
	}
	var stack string
	func() {
		defer func() {
			if p := recover(); p != nil {
				stack = fmt.Sprintf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
			}
		}()
		for _, v := range []string{"go1.21", "go1.23"} {
			os.Setenv("GOSECGOVERSION", v)
			is, _ := core.Scan(core.Opts{Conf: conf}, pkg)
			n = len(is)
		}
	}()
	return stack, n
}

func trimStack(s string) string {
	i := strings.LastIndex(s, "panic(")
	if i > 0 {
		s = s[i:]
	}
	if len(s) > 900 {
		s = s[:900]
	}
	return s
}

func p05Conf() gosec.Config {
	c := probeConfig()
	c.SetGlobal(gosec.Audit, "true")
	return c
}

func init() {
	core.Register(&core.Check{
		ID: "P05", Level: "model_checking",
		Rule:        "a state is a distinct generated program case (API x shape x context, declaration shape, flow shape, configuration value) that was scanned; every scan must return",
		Bounds:      "exported functions and methods of 32 (quick) / 54 (thorough) packages x 26 argument shapes x 8 contexts x call forms; declaration and flow grammars to depth 2 (quick) / 3 (thorough); 14 configuration values per rule section and option; every single-token deletion, duplication and replacement in programs which exercise every rule, scanned with what the type checker could make of them; sound packages with 30 uses of a dependency, for every single-token edit of the dependency which makes it faulty",
		Prepare:     core.PrepareStd,
		UnitTimeout: 100e9,
		Units: func(e *core.Env) []string {
			var u []string
			ps := p05Core
			if e.Thorough {
				ps = append(append([]string{}, ps...), p05More...)
			}
			for _, p := range ps {
				k := 1
				if p == "net/http" || p == "os" || p == "net" || p == "database/sql" {
					k = 6
				}
				for i := 0; i < k; i++ {
					u = append(u, fmt.Sprintf("api %s %d %d", p, i, k))
				}
			}
			n := 8
			if e.Thorough {
				n = 64
			}
			for i := 0; i < n; i++ {
				u = append(u, fmt.Sprintf("decl - %d %d", i, n), fmt.Sprintf("flow - %d %d", i, n))
			}
			for i := range p05IllPrograms() {
				u = append(u, fmt.Sprintf("ill - %d 1", i))
			}
			for i := 0; i < p05DepShards; i++ {
				u = append(u, fmt.Sprintf("dep - %d 1", i))
			}
			return append(u, "conf - 0 1")
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var kind, pkg string
			var i, k int
			fmt.Sscan(unit, &kind, &pkg, &i, &k)
			l := getLoader(e)
			switch kind {
			case "api":
				for n, a := range p05APIs(l, pkg) {
					if n%k == i {
						p05RunAPI(l, a, r)
					}
				}
			case "decl":
				p05RunList(l, p05Decls(e), i, k, r)
			case "flow":
				p05RunList(l, p05Flows(e), i, k, r)
			case "dep":
				p05Dep(e, l, i, r)
			case "ill":
				p05RunIll(e, l, i, r)
			case "conf":
				p05RunConf(l, r)
			}
		},
	})
}

func p05RunAPI(l *core.Loader, a p05API, r *core.Rec) {
	g := &p05Gen{api: a}
	cs, header, other := g.cases()
	if len(cs) == 0 {
		return
	}
	id := a.pkg + "." + a.name
	if a.recv != "" {
		id = a.pkg + "." + a.recv + "." + a.name
	}
	r.Mark(id)
	fs := g.files(header, other, cs)
	res, n := p05Scan(p05Conf(), l, fs...)
	r.Stats["findings"] += n
	r.Evals += len(cs)
	r.Transitions += len(cs)
	for _, c := range cs {
		r.State(id + c.name)
	}
	if len(r.Samples) < 1 {
		r.Sample(fmt.Sprintf("%s: %d cases, e.g.\n%s%s", id, len(cs), cs[0].text, cs[len(cs)/2].text))
	}
	if res == "" {
		return
	}
	bad := 0
	for _, c := range cs { // locate the failing cases one by one
		r.Mark(id + " " + c.name + "\n" + header + c.text)
		res, _ := p05Scan(p05Conf(), l, g.files(header, other, []p05Case{c})...)
		if strings.HasPrefix(res, "load: ") {
			r.Stats["skipped_ill_typed"]++
			r.Evals--
			continue
		}
		if res != "" {
			bad++
			r.Violate(id+" "+c.name, c.text, "scanner panics on\n%s%s", c.text, res)
		}
	}
	if bad == 0 && !strings.HasPrefix(res, "load: ") {
		r.Violate(id+" (all cases together)", "", "scanner panics on the package of all cases of %s: %s", id, res)
	}
}

func p05RunList(l *core.Loader, cs []p05Case, i, k int, r *core.Rec) {
	for n, c := range cs {
		if n%k != i {
			continue
		}
		r.Mark(c.name + "\n" + c.text)
		pkg := "package p\n" + c.text
		res, f := p05Scan(p05Conf(), l, core.File{Name: "a.go", Src: pkg}, core.File{Name: "b.go", Src: p05Other})
		if strings.HasPrefix(res, "load: ") {
			if !strings.Contains(c.name, "?") {
				core.Infra("%s: %s\n%s", c.name, res, c.text)
			}
			r.Stats["skipped_ill_typed"]++
			continue
		}
		r.Stats["findings"] += f
		r.Evals++
		r.Transitions++
		r.State(c.name)
		if len(r.Samples) < 1 && n > 30 {
			r.Sample(c.text)
		}
		if res != "" {
			r.Violate(c.name, c.text, "scanner panics on\n%s\n%s", c.text, res)
		}
	}
}

func p05RunConf(l *core.Loader, r *core.Rec) {
	vals := []string{`null`, `true`, `1`, `-1`, `1.5`, `"x"`, `""`, `"0o600"`, `"(?P<"`, `[]`, `["a"]`, `[1,null]`, `{}`, `{"a":1}`}
	opts := strings.Fields(`pattern ignore_entropy entropy_threshold per_char_threshold truncate min_entropy_length os fmt mode`)
	var files []core.File
	for i, p := range probes {
		if p.rule == "G601" || p.rule == "G101" || p.rule == "G104" || p.rule == "G111" || p.rule[:2] == "G3" {
			files = append(files, core.File{Name: fmt.Sprintf("f%d.go", i), Src: p.text("p")})
		}
	}
	try := func(key, text string) {
		r.Mark(key)
		conf := gosec.NewConfig()
		if _, err := conf.ReadFrom(strings.NewReader(text)); err != nil {
			r.Stats["rejected"]++
			return
		}
		var res string
		func() {
			defer func() {
				if p := recover(); p != nil {
					res = fmt.Sprintf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
				}
			}()
			for _, f := range files {
				core.Scan(core.Opts{Conf: conf}, l.MustLoad("p", f))
			}
		}()
		r.Evals++
		r.Transitions++
		r.State("conf" + text)
		if res != "" {
			r.Violate(key, text, "configuration %s is accepted, then %s", text, res)
		}
	}
	ids := allRules()
	for _, id := range ids {
		for _, v := range vals {
			try("conf "+id+"="+v, fmt.Sprintf(`{%q:%s}`, id, v))
		}
	}
	for _, id := range []string{"G101", "G104", "G111", "G301", "G302", "G306", "G307"} {
		for _, o := range opts {
			for _, v := range vals {
				try("conf "+id+"."+o+"="+v, fmt.Sprintf(`{%q:{%q:%s}}`, id, o, v))
			}
		}
	}
	for _, o := range []string{"nosec", "show-ignored", "audit", "#nosec", "exclude", "include", "other"} {
		for _, v := range vals {
			try("conf global."+o+"="+v, fmt.Sprintf(`{"global":{%q:%s}}`, o, v))
		}
	}
	_ = json.Valid
}
