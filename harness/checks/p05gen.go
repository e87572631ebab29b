package checks

import (
	"fmt"
	"strings"

	"verifharness/core"
)

const p05Other = `package p
var ovStr, ovStr2 string = "a", "b"
var ovBytes []byte
var ovInt int
var ovAny any
const okStr = "other"
type OS struct { password string; token, secret []byte; n int }
func two() (string, string) { return "", "" }
func otherStr() string { return "x" }
var ovRec = func(n int) int { return n }
var g int
var gs []byte
func use(a ...any) {}
func recSelf(x int) int { if x > 3 { return recSelf(x - 1) }; return int(int8(x)) }
func recA(x int) int { if x == 0 { return 0 }; return recB(x) }
func recB(x int) int { return recA(x) }
func recOnly(x int) int { return recOnly(x) }
func ident[T any](x T) T { return x }
type M struct { v int; b []byte }
func (m *M) get() int { return m.v }
func (m M) val() int { return m.v }
func (m *M) buf() []byte { return m.b }
type I interface { get() int }
func bSelf(x []byte) []byte { if len(x) > 3 { return bSelf(x[1:]) }; return x }
func bA(x []byte) []byte { return bB(x) }
func bB(x []byte) []byte { if len(x) == 0 { return x }; return bA(x) }
func bOnly(x []byte) []byte { return bOnly(x) }
func bVar(x ...byte) []byte { return x }
func bTwo(x []byte) ([]byte, error) { return x, nil }
`

func p05Decls(e *core.Env) []p05Case {
	var out []p05Case
	add := func(name, text string) { out = append(out, p05Case{"decl " + name, text}) }
	rhs := []string{`""`, `"x"`, `"lQ7xP2vR9kZ4mW8tYc3nB6"`, "`raw`", "p", "ovStr", "okStr", "otherStr()", `"a" + p`, `p + "a" + otherStr()`, "string(p[0])", "string([]byte{1})", "s.password", `m["k"]`, "a[0]", "*q",
		`<-ch`, "x.(string)", "fn()", "func() string { return `x` }()", "(p)", "ident(p)", `string("x")`, `fmt.Sprintf("%s", p)`, `fmt.Sprint()`, `fmt.Sprintf("")`, "p[1:]", `os.Getenv("A")`}
	forms := []string{
		"password := R; use(password)", "var password = R; use(password)", "var password string = R; use(password)", "var password, token = R, R; use(password, token)",
		"password, token := R, R; use(password, token)", "var password string; password = R; use(password)", "var password, token string; password, token = R, R; use(password, token)",
		"s.password = R", "s.password, m[`password`] = R, R", "m[`password`] = R", "m[R] = R", "a[0] = R", "*q = R", "*(&s.password) = R", "(s.password) = R", "(*(&s)).password = R", "ovStr = R",
		"p += R", "s.password += R", "m[R] += R", "_ = R", "_, _ = R, R", "var _ = R", "var _, _ string = R, R",
		"if p == R { use() }", "if R == p { use() }", "if R != R { use() }", "password := p; if password == R { use() }", "password := p; if R != password { use() }", "if s.password == R { use() }", "if m[`password`] == R { use() }",
		"if x == R { use() }", "if R == x { use() }", "if R < R { use() }", "password := p; if password == R && (p == R || !(password != R)) { use() }", "password := x; if password == R { use() }",
		"password := p; switch password { case R: use() }", "switch { case R == p: use() }", "switch R { case p: }", "switch password := p; password { default: }",
		"use(S{password: R})", "use(&S{password: R})", "use(S{R, nil})", "use([]S{{R, nil}, {password: R}})", "use(map[string]string{`password`: R})", "use(map[string]string{R: p})", "use([]string{0: R})", "use([...]string{R})",
		"use(struct{ password string }{R})", "use(map[string]S{`k`: {R, nil}})", "use(&struct{ password, token string }{password: R, token: R})",
		"const c = len(R); use(c)?", "const password = R; use(password)?", "const ( password, token = R, R; p2, t2 ); use(password, token, p2, t2)?", "const password string = R; use(password)?",
		"for password := range []string{R} { use(password) }", "for _, password := range []string{R} { use(&password) }", "for p = range m { use(&p) }", "for _, p = range a { use(&p) }", "for _, s.password = range a { use(&s.password, &s) }",
		"for _, m[`k`] = range a { use(m) }", "for _, *q = range a { use(q) }", "for a[0] = range m { use(&a[0]) }", "for range a { use(&p) }", "for _, c := range R { use(&c) }", "for i := range R { use(&i, R) }",
		"for i, v := range a { go func() { use(&v, &i) }() }", "for _, v := range []S{{password: R}} { use(&v.password, &v, &v.token) }", "for _, v := range []*S{{password: R}} { use(&v.password, &v) }",
		"defer use(R)", "go use(R)", "func() { use(R) }()", "func(password string) { use(&password) }(R)", "ch <- R", "select { case ch <- R: case s.password = <-ch: case p, ok := <-ch: use(p, ok); default: }",
		"switch password := x.(type) { case string: use(password == R, &password) ; case nil: use(password) }", "password, ok := x.(string); use(password == R, ok)", "password, ok := m[R]; use(password, ok)",
		"password, token := two(); use(password, token, R)", "var password, token = two(); use(password, token, R)", "s.password, p = two(); use(R)", "m[`password`], a[0] = two(); use(R)", "_, password := two(); use(password == R)",
		"L: for { if p == R { break L }; goto L }", "var password [2]string; password[0] = R; use(password[:])", "password := []byte(R); use(password)", "var password []byte = []byte(R); use(password)", "password := []string{R}; use(password)",
		"password := func() string { return R }; use(password())", "var password func() string; use(password == nil, R)", "password := &p; *password = R; use(password)", "password := &S{password: R}; password.password = R; use(password)",
		"type password struct{ token string }; use(password{R})", "type password = string; use(password(R))", "if password := R; password != `` { use(password) }", "use(func() (password string) { password = R; return })", "use(func() (password, token string) { return two() }, R)",
		"{ }; ; use(R); { password := R; { password := password; use(&password) } }", "password := R; password, token := R, password; use(password, token)?", "var e error; use(e == nil, R)", "p, e := ident(R), error(nil); use(p, e)",
		"use(len(R), cap(a), copy(gs, R), append(gs, R...))", "clear(m); delete(m, R); print(R); println(R); use(min(R, p), max(p, R))", "panic(R)", "use(recover(), R)", "use(complex(1, 2), real(1i), R)", "use(new(S), make([]S, 1), make(chan S), R)", "close(ch); use(R)",
		"use(unsafe.Pointer(&p), unsafe.Sizeof(p), unsafe.String(unsafe.StringData(R), 1), unsafe.Slice(q, 2), R)", "use(uintptr(unsafe.Pointer(q)), unsafe.Offsetof(s.token), unsafe.Alignof(p), R)",
	}
	imp := func(body string) string {
		s := ""
		for _, p := range []string{"fmt", "os", "unsafe"} {
			if strings.Contains(body, p+".") {
				s += fmt.Sprintf("import %q\n", p)
			}
		}
		return s
	}
	for fi, f := range forms {
		q := ""
		if strings.HasSuffix(f, "?") {
			q = "?"
			f = f[:len(f)-1]
		}
		for ri, r := range rhs {
			body := strings.ReplaceAll(f, "R", r)
			t := imp(body) + "type S struct { password string; token []byte }\nfunc f(p string, s S, m map[string]string, a []string, q *string, ch chan string, x any, fn func() string) {\n" + body + "\n}\n"
			add(fmt.Sprintf("%d/%d%s %s", fi, ri, "?", body)[:min(70, len(fmt.Sprintf("%d/%d%s %s", fi, ri, "?", body)))], t)
			if ri == 0 && q == "" && false {
				_ = q
			}
		}
	}
	// package level
	for i, t := range []string{
		"const password", "var password string", "var password, token string", "const ( password = iota; token; _; secret )", "const ( password = \"x\"; token; secret, pw = \"\", ``; a, b )",
		"var password = R", "var password, token = two()", "var ( password, token string = R, R; secret = R )", "var _ = R", "const password = \"lQ7xP2vR9kZ4mW8tYc3nB6\"", "var password = func() string { return R }()",
		"var password = [...]string{R}", "var password = S0{R}", "var password = map[string]string{\"token\": R}", "type password string\nvar token password = password(R)", "var password, token = R, func() string { return R }",
		"func password() string { return R }", "func (password S0) token() string { return password.f }", "func f(password string) (token string) { token = R; return }", "func init() {}\nfunc init() { password := R; use(password) }",
		"type T interface { password() string }", "type T[P any] struct { password P }\nvar x = T[string]{password: R}", "func gen[T ~string](password T) bool { return password == T(R) }\nvar _ = gen(\"x\")", "var (\n)", "import ()", "const ()", "type ()",
		"var password chan string", "var password func(string) (string, error)", "var f = func() {}\nvar _ = f", "type S1 struct { S0; password string `json:\"x\"` }\nvar v = S1{S0{R}, R}", "var e error = nil\nfunc h() error { return e }\nfunc k() { h() ; _ = h(); defer h(); go h() }",
		"func f(password ...string) { f(password...); f() }", "func f() { f() }", "func f(func()) {}\nfunc h() { f(func() { h() }) }", "func f(_ string, _ ...[]byte) {}", "func f(string) {}", "func f() (_ string, _ error) { return }", "type T struct{ *T }\nfunc (t T) m() { t.T.m() }",
		"func f()", "func int32() int { return 1 }\nvar v = int32()",
	} {
		for ri, r := range []string{`""`, `"x"`, "ovStr", "otherStr()", `okStr + "x"`, "string(ovBytes)"} {
			body := strings.ReplaceAll(t, "R", r)
			add(fmt.Sprintf("pkg%d/%d?", i, ri), "type S0 struct{ f string }\n"+body+"\n")
		}
	}
	// user-defined functions with the names of builtins, types and matched functions
	names := strings.Fields("int int8 int16 int32 int64 uint8 uint16 uint32 uint64 uintptr string byte rune len cap make new append copy panic recover print delete close min max clear complex any error true false nil iota bool float64 Command Open Create ReadFile Get Join Sprintf Query Exec Copy Seal")
	for _, nm := range names {
		for k := 0; k <= 2; k++ {
			var ps, as []string
			for i := 0; i < k; i++ {
				ps = append(ps, fmt.Sprintf("a%d any", i))
				as = append(as, "\"x\"")
			}
			if nm == "any" {
				continue
			}
			add(fmt.Sprintf("named %s/%d", nm, k), fmt.Sprintf("func f() { %s := func(%s) (*OS, func()) { panic(0) }\n %s(%s); v, w := %s(%s); _, _ = v, w; defer %s(%s) }\n", nm, strings.Join(ps, ", "), nm, strings.Join(as, ", "), nm, strings.Join(as, ", "), nm, strings.Join(as, ", ")))
			add(fmt.Sprintf("pkgnamed %s/%d?", nm, k), fmt.Sprintf("func %s(%s) (_ *OS) { return }\nfunc f() { %s(%s); v := %s(%s); _ = v }\n", nm, strings.Join(ps, ", "), nm, strings.Join(as, ", "), nm, strings.Join(as, ", ")))
		}
	}
	// composite literals and fields of configuration structs, with every value shape
	type fld struct{ pkg, typ, name, t string }
	flds := []fld{{"crypto/tls", "tls.Config", "MinVersion", "uint16"}, {"crypto/tls", "tls.Config", "MaxVersion", "uint16"}, {"crypto/tls", "tls.Config", "InsecureSkipVerify", "bool"}, {"crypto/tls", "tls.Config", "PreferServerCipherSuites", "bool"},
		{"crypto/tls", "tls.Config", "CipherSuites", "[]uint16"}, {"net/http", "http.Server", "Addr", "string"}, {"net/http", "http.Server", "ReadHeaderTimeout", "time.Duration"}, {"net/http", "http.Server", "ReadTimeout", "time.Duration"}, {"net/http", "http.Cookie", "Value", "string"}}
	for _, f := range flds {
		vals := []string{"p", "l", "(p)", "*q", "s.f", "s.g().f", "a[0]", "fnv()", "mm.K", "ident(p)", "T(p)", "opv", "func() T { return p }()", "<-ch", "any(p).(T)", "m[1]", "s.h.f", "(s).f", "K1", "K2", "a2[0].f", "ident(s).f"}
		switch f.t {
		case "uint16":
			vals = append(vals, "0", "0x0303", "tls.VersionTLS12", "(tls.VersionTLS12)", "tls.VersionTLS12 + 0", "1 << 2", "uint16(tls.VersionTLS10)", "'a'", "tls.VersionSSL30")
		case "[]uint16":
			vals = append(vals, "nil", "[]uint16{}", "[]uint16{1, p[0], tls.TLS_RSA_WITH_RC4_128_SHA, s.f[0]}", "[]uint16{0: tls.TLS_RSA_WITH_RC4_128_SHA}", "[]uint16{(tls.TLS_RSA_WITH_RC4_128_SHA)}", "append(p, 1)", "make([]uint16, 1)", "p[:1]", "append([]uint16(nil), tls.TLS_RSA_WITH_RC4_128_SHA)")
		case "bool":
			vals = append(vals, "true", "false", "!p", "p == true", "(true)", "1 < 2")
		case "string":
			vals = append(vals, `""`, `":80"`, `"a" + p`)
		default:
			vals = append(vals, "0", "1", "time.Second", "5 * time.Second")
		}
		for vi, v := range vals {
			v = strings.ReplaceAll(v, "T(", f.t+"(")
			v = strings.ReplaceAll(v, "T {", f.t+" {")
			v = strings.ReplaceAll(v, "(T)", "("+f.t+")")
			pre := "import \"" + f.pkg + "\"\n"
			if f.t == "time.Duration" {
				pre += "import \"time\"\n"
			}
			if strings.HasPrefix(v, "[]uint16(") {
				v = "(" + v + ")"
			}
			decl := fmt.Sprintf("type SS struct { f %s; h *SS }\nfunc (s SS) g() SS { return s }\nvar mm struct{ K %s }\nfunc fnv() (x %s) { return }\n", f.t, f.t, f.t)
			k := "var K1, K2 " + f.t + "\n"
			if vi%2 == 0 {
				k = fmt.Sprintf("var K1 = mm.K\nvar K2, K3 = fnv2()\nfunc fnv2() (a, b %s) { return }\nvar _ = K3\n", f.t)
			}
			if v == "K1" || v == "K2" {
				for ki, kd := range []string{
					"type NN struct { K T; N *NN }\nvar nn NN\nvar K1, K2 = nn.N.K, nfn().N.K\nfunc nfn() *NN { return &nn }\n", "var K1, K2 = []T{fnv()}[0], (mm).K\n",
					"type NN struct { K T; N *NN }\nvar nn NN\nvar K2, K1 = nn.N.K, nfn().N.K\nfunc nfn() *NN { return &nn }\n", "var K1, K2 = any(mm.K).(T), func() T { return mm.K }()\n", "var K1, K2 = fnv2()\nfunc fnv2() (a, b T) { return }\n"} {
					kd = strings.ReplaceAll(kd, "T", f.t)
					kd = strings.ReplaceAll(kd, "NN"+f.t, "NNT")
					t := fmt.Sprintf("%s%s%sfunc f() { use(&%s{%s: %s}) }\n", pre, decl, kd, f.typ, f.name, v)
					add(fmt.Sprintf("struct %s.%s %d/k%d?", f.typ, f.name, vi, ki), t)
				}
			}
			for bi, b := range []string{
				"c := TY{N: V}; use(&c)", "use(&TY{N: V})", "var c TY; c.N = V; use(&c)", "c := new(TY); c.N = V; use(c)", "c, d := &TY{}, 1; c.N, d = V, 2; use(c, d)", "c, d := &TY{}, 1; d, c.N = 2, V; use(c, d)", "use([]*TY{{N: V}, {}})", "use(map[string]*TY{`k`: {N: V}})",
				"c := (&TY{}); (*c).N = V; use(c)", "c := struct{ *TY }{&TY{N: V}}; c.N = V; use(c)", "cs := []*TY{{}}; cs[0].N = V; use(cs)", "func() *TY { return &TY{} }().N = V", "use(func() (c TY) { c.N = V; return })", "c := &TY{}; var e any; c.N, e = fn2(); use(c, e)", "c := &TY{}; for _, c.N = range a { use(c) }"} {
				b = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(b, "TY", f.typ), "N:", f.name+":"), ".N", "."+f.name)
				b = strings.ReplaceAll(b, "V", v)
				b = strings.ReplaceAll(b, strings.ReplaceAll(f.name, "V", v), f.name)
				b = strings.ReplaceAll(b, "InsecureSkip"+v+"erify", "InsecureSkipVerify")
				t := fmt.Sprintf("%s%s%sfunc fn2() (x %s, y any) { return }\nvar opv %s\nfunc f(p %s, q *%s, s SS, a []%s, a2 []SS, ch chan %s, m map[int]%s) { var l %s; use(l)\n%s }\n", pre, decl, k, f.t, f.t, f.t, f.t, f.t, f.t, f.t, f.t, b)
				t = strings.ReplaceAll(t, "tls."+v+"ersion", "tls.Version")
				add(fmt.Sprintf("struct %s.%s %d/%d?", f.typ, f.name, vi, bi), t)
				pn := strings.Split(f.typ, ".")[0]
				add(fmt.Sprintf("dot struct %s.%s %d/%d?", f.typ, f.name, vi, bi), strings.ReplaceAll(strings.ReplaceAll(t, "import \""+f.pkg, "import . \""+f.pkg), pn+".", ""))
			}
		}
	}
	return out
}

var p05IntSteps = []string{
	"x = x + 1", "x = -x", "x = (x * 2) & 0xff", "x /= 2", "x >>= 3", "x = x << uint(x&3)", "x = ^x", "x = y", "x = 5", "x = -1",
	"for i := 0; i < n; i++ { x = x + i }", "for x < 10 { x++ }", "for { x++; if x > n { break } }", "for i := range 5 { x = i }", "for c { for c { x, y = y, x } }", "for c { x = y; y = x }", "for c { if n > 3 { continue }; x = y - 1 }",
	"if c { x = y }", "if c { x = 3 } else if n > 2 { x = y } else { y = x }", "switch n { case 1: x = 1; fallthrough; case 2: x = y; default: x = -x }", "if x < 10 { return }", "if x > y { return }", "if x < -5 || x > 100 { return }", "if c && x < 5 || x > 9 { panic(x) }", "if !(x >= 0 && x <= 255) { return }", "if 0 > x { x = 0 }",
	"x = recSelf(x)", "x = recA(x)", "x = recOnly(x)", "x = ident(x)", "x = ident[int](x)", "x = f(s, a, x, y, n, c)", "if c { use(f(s, a, x, y, n, c)) }", "if c { return f(s, a, y, x, n, c) }", "defer f(s, a, x, x, x, c)", "func() { x++ }()", "x = func(v int) int { return v + x }(x)", "var h func(int) int; h = func(v int) int { if v > 0 { return h(v - 1) }; return x }; x = h(x)", "x = ovRec(x)",
	"{ p := &x; *p = 3; q := &p; **q = x; x = *p }", "{ m := M{v: x}; x = m.get() + m.val() + m.v }", "{ var i I = &M{v: x}; x = i.get() }", "{ z := [3]int{x, y}; x = z[1]; z[0] = x }", "{ z := map[int]int{x: y}; x = z[x] }", "{ ch := make(chan int, 1); ch <- x; x = <-ch }", "{ var i any = x; x, _ = i.(int) }", "{ var i any = x; switch v := i.(type) { case int: x = v; case string: x = len(v) } }",
	"x = len(s)", "x = cap(s) - len(s)", "x = int(uint8(x))", "x = int(s[0])", "x = min(x, y, 3)", "x = max(x, 0)", "x = g; g = x", "defer func() { x = n; recover() }()", "select { case x = <-make(chan int): default: x = y }", "goto L; L: x++", "if v, err := strconv.Atoi(string(s)); err == nil { x = v }", "if v, err := strconv.ParseInt(string(s), 10, n); err == nil { x = int(v) }", "if v, err := strconv.ParseUint(string(s), 10, 64); err == nil { x = int(v) }", "if v, err := strconv.ParseInt(string(s), n, 8*x); err != nil { x = int(v) }",
}

const p05IntSink = `	use(int8(x), uint8(x), int16(x), uint16(x), int32(x), uint32(x), int64(x), uint64(x), uint(x), uintptr(x), float64(x), string(rune(x)), int8(uint64(x)), uint8(int8(x+y)))
	use(int8(y), time(int64(y)))
`

var p05SliceSteps = []string{
	"s = s[1:]", "s = s[:x]", "s = s[x:]", "s = s[x:y]", "s = s[1:2:3]", "s = s[:x:n]", "s = s[:]", "s = append(s, 1)", "s = append(s[:1], s[2:]...)", "s = append([]byte(nil), s...)", "s = make([]byte, 5)", "s = make([]byte, 5, 10)", "s = make([]byte, x)", "s = make([]byte, x, n)", "s = make([]byte, 0)", "s = []byte{1, 2, 3}", "s = []byte(\"abcdef\")", "s = nil", "s = a[:]", "s = a[1:3]", "s = (&a)[2:]",
	"if len(s) > 5 { return }", "if len(s) < 3 { return }", "if 3 < len(s) && cap(s) >= 8 { s = s[:8] }", "if n := len(s); n == 0 { return }", "for i := 0; i < len(s); i++ { s = s[i:] }", "for len(s) > 0 { s = s[1:] }", "for i := range s { use(s[i], s[:i], s[i:]) }", "for i, v := range s { s[i] = v }", "if c { s = s[2:] } else { s = make([]byte, 1) }", "for c { s = s[1:]; if x > 2 { s = nil } }",
	"s = bSelf(s)", "s = bA(s)", "s = bOnly(s)", "s = bVar(s...)", "s = bVar(1, 2, 3)", "s, _ = bTwo(s)", "s = ident(s)", "func() { s = s[1:] }()", "var h func([]byte) []byte; h = func(v []byte) []byte { if len(v) > 2 { return h(v[1:]) }; return s[9:] }; s = h(s)", "s = func(v []byte) []byte { return v[1:] }(s)", "{ p := &s; *p = (*p)[1:]; q := &p; s = **q }", "{ m := &M{b: s}; s = m.buf(); s = m.b[1:] }", "{ z := [][]byte{s, s[1:]}; s = z[1]; z[0] = z[1][:1] }", "{ z := map[int][]byte{1: s}; s = z[1][1:] }",
	"{ ch := make(chan []byte, 1); ch <- s; s = <-ch }", "{ var i any = s; s, _ = i.([]byte) }", "defer func() { s = s[1:] }()", "copy(s, s[1:])", "copy(s[1:], \"abc\")", "gs = s; s = gs", "go func(v []byte) { v = v[7:]; use(v) }(s)", "s = []byte(string(s)[1:])", "switch len(s) { case 0: return; case 1: s = s[:1] }", "s = s[len(s)-1:]", "if len(s)%2 == 0 && len(s[1:]) > 4 { s = s[4:] }", "t := s[2:]; s = t[1:]; use(t)?", "s = bytesOf(s, 3)", "s = s[:cap(s)]",
	"io.ReadFull(rand.Reader, s)", "rand.Read(s)", "s = f2(s, a, x, y, n, c)",
	"if c { use(f2(s, a, x, y, n, c)) }", "if c { return f2(gs, a, x, y, n, c) }", "if c { use(f2(s[1:], a, x, y, n, c)) }", "defer f2(s, a, x, y, n, c)", "use(func() []byte { return f2(s, a, x, y, n, c) })",
	"use(m3(bl, ae, s, c))", "if c { use(m1(bl, ae, s, c)) }",
}

const p05SliceSink = `	use(s[0], s[3], s[x], s[:3], s[5:], s[1:2], s[:x], s[:9:9], len(s), a[x], a[:x], (&a)[1], string(s)[2], string(s)[1:])
	use(ae.Seal(nil, s, s, nil), ae.Seal(s, s[:1], nil, nil)); use(cipher.NewCBCEncrypter(bl, s)); use(cipher.NewCTR(bl, s[1:])); use(cipher.NewCFBEncrypter(bl, append(s, 1))); use(cipher.NewOFB(bl, ident(s)))
`

func p05Flows(e *core.Env) []p05Case {
	var out []p05Case
	imp := func(body string) string {
		s := ""
		for _, p := range []string{"crypto/cipher", "crypto/rand", "io", "strconv"} {
			if strings.Contains(body, p[strings.LastIndex(p, "/")+1:]+".") {
				s += fmt.Sprintf("import %q\n", p)
			}
		}
		return s
	}
	intProg := func(name string, steps ...string) {
		body := ""
		for _, s := range steps {
			body += "\t{\n\t" + s + "\n\t}\n"
		}
		out = append(out, p05Case{"flow int " + name + "?", imp(body) + "type time int64\nfunc f(s []byte, a [4]byte, x, y, n int, c bool) (ret int) {\n" + body + p05IntSink + "\treturn x\n}\nfunc f0() { use(f(nil, [4]byte{}, 1, 2, 3, true)) }\n"})
	}
	sliceProg := func(name string, steps ...string) {
		body := ""
		for _, s := range steps {
			body += "\t" + strings.ReplaceAll(strings.TrimSuffix(s, "?"), "f2(", "f2("+"bl, ae, ") + "\n"
		}
		body += p05SliceSink
		out = append(out, p05Case{"flow slice " + name + "?", imp(body) + "func m1(bl cipher.Block, ae cipher.AEAD, s []byte, c bool) []byte { use(ae.Seal(nil, s, nil, nil)); if c { return m2(bl, ae, s, !c) }; return s }\nfunc m2(bl cipher.Block, ae cipher.AEAD, s []byte, c bool) []byte { use(cipher.NewCTR(bl, s)); return m1(bl, ae, s, c) }\nfunc m3(bl cipher.Block, ae cipher.AEAD, s []byte, c bool) []byte { return m2(bl, ae, s, c) }\nfunc bytesOf(v []byte, n int) []byte { return v[n:] }\nfunc f2(bl cipher.Block, ae cipher.AEAD, s []byte, a [4]byte, x, y, n int, c bool) (ret []byte) {\n" + body + "\treturn s\n}\nfunc f0(bl cipher.Block, ae cipher.AEAD) { s := make([]byte, 4, 6); use(f2(bl, ae, s, [4]byte{}, 1, 2, 3, true), f2(bl, ae, s[1:], [4]byte{}, 1, 2, 3, true), f2(bl, ae, []byte(\"ILoveMyNonce\"), [4]byte{}, 1, 2, 3, true)) }\n"})
	}
	// scale: a step repeated many times must not make the analysis explode
	rep := func(step string, n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, step)
		}
		return
	}
	for i, a := range p05IntSteps {
		if !strings.Contains(a, "goto") {
			intProg(fmt.Sprint("scale ", i), rep(a, 24)...)
		}
		nested := a
		for d := 0; d < 10; d++ {
			nested = "if c && x != " + fmt.Sprint(d) + " {\n" + nested + "\n} else { y++ }"
		}
		intProg(fmt.Sprint("nestif ", i), nested)
		nested = a
		for d := 0; d < 8; d++ {
			nested = "for x < n {\n" + nested + "\nn--\n}"
		}
		intProg(fmt.Sprint("nestfor ", i), nested)
	}
	for i, a := range p05SliceSteps {
		if !strings.Contains(a, ":= s[2:]") && !strings.Contains(a, "var h ") {
			sliceProg(fmt.Sprint("scale ", i), rep(a, 24)...)
		}
	}
	for _, k := range []int{2, 3} { // call chains which branch at every level
		t := "import \"crypto/cipher\"\n"
		for d := 0; d < 26; d++ {
			t += fmt.Sprintf("func c%d(ae cipher.AEAD, s []byte, x int) []byte {\n", d)
			for j := 0; j < k; j++ {
				if d < 25 {
					t += fmt.Sprintf("\tuse(c%d(ae, s, x+%d))\n", d+1, j)
				} else {
					t += "\tuse(ae.Seal(nil, s, nil, nil), s[3], int8(x))\n"
				}
			}
			t += "\treturn s\n}\n"
		}
		t += "func f0(ae cipher.AEAD) { s := make([]byte, 2); use(c0(ae, s, 1), c0(ae, []byte(\"abc\"), 2)) }\n"
		out = append(out, p05Case{fmt.Sprintf("flow chain %d", k), t})
	}
	for i, a := range p05IntSteps {
		intProg(fmt.Sprint(i), a)
		for j, b := range p05IntSteps {
			intProg(fmt.Sprint(i, " ", j), a, b)
			if e.Thorough {
				for k, c := range p05IntSteps {
					intProg(fmt.Sprint(i, " ", j, " ", k), a, b, c)
				}
			}
		}
	}
	for i, a := range p05SliceSteps {
		sliceProg(fmt.Sprint(i), a)
		for j, b := range p05SliceSteps {
			sliceProg(fmt.Sprint(i, " ", j), a, b)
			if e.Thorough {
				for k, c := range p05SliceSteps {
					if (i+j+k)%3 == 0 {
						sliceProg(fmt.Sprint(i, " ", j, " ", k), a, b, c)
					}
				}
			}
		}
	}
	return out
}
