package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"verifharness/core"
)

// D11: values which come from one call, pass through a variable and end in another one, and addresses of loop variables.

const d11Head = `package p

import (
	"archive/tar"
	"archive/zip"
	"bufio"
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/gzip"
	gz "compress/gzip"
	"compress/lzw"
	"compress/zlib"
	"io"
	io2 "io"
	"os"
	"path"
	"path/filepath"
	fp2 "path/filepath"
	"strconv"
	s2 "strconv"
	"strings"
)

var (
	_ = tar.NewReader
	_ = zip.NewReader
	_ = bufio.NewReader
	_ = bytes.NewReader
	_ = bzip2.NewReader
	_ = flate.NewReader
	_ = gzip.NewReader
	_ = gz.NewReader
	_ = lzw.NewReader
	_ = zlib.NewReader
	_ = io.Copy
	_ = io2.Copy
	_ = os.Open
	_ = path.Join
	_ = filepath.Join
	_ = fp2.Join
	_ = strconv.Atoi
	_ = s2.Atoi
	_ = strings.Join
)

`

const d11Other = `package p

import (
	"archive/zip"
	"io"
	"os"
)

type oth struct{}
type Header struct{ Name string }
type holder struct {
	n int
	r io.Reader
	File []Header
	zf *zip.File
}
type zali = *zip.File
type in struct{ b int }
type T struct {
	a int
	p *int
	q any
	in in
}

func (oth) Atoi(string) (int, error) { return 1, nil }
func (oth) NewReader(io.Reader) io.Reader { return nil }
func (oth) Open() (io.Reader, error) { return nil, nil }
func (oth) Copy(io.Writer, io.Reader) (int, error) { return 1, nil }
func (oth) Join(...string) string { return "" }
func getzf() *zip.File { return nil }
func atoi2(string) (int, error) { return 1, nil }
func two(i int) (int, error) { return i, nil }
func use(...any) bool { return yes }

var yes bool
var gs = os.Args[0]
var grd io.Reader
`

const d11Params = `p string, i int, s *holder, xs []string, rd io.Reader, w io.Writer, zf *zip.File, zr *zip.Reader, th *tar.Header, za zali, hd *Header, d oth, ts []T, ps []*T, m map[string]T, ch chan T, tv T`

type d11Case struct {
	pre, body, rule string
	want            int
}

// d11Two bind the first result S of two to v, and use it at U. The number is whether what U uses is S.
var d11Two = []struct {
	code string
	is   bool
}{
	{`v, err := S; use(err); U`, true},
	{`v, _ := S; U`, true},
	{`var v, err = S; use(err); U`, true},
	{`var v, _ = S; U`, true},
	{`var ( x = 1; v, err = S ); use(x, err); U`, true},
	{`var v V; var err error; v, err = S; use(err); U`, true},
	{`var v V; v, _ = S; U`, true},
	{`v, err := Z, error(nil); use(v, err); v, err = S; U`, true},
	{`if v, err := S; err == nil { U }`, true},
	{`if v, err := S; err != nil { use(v) } else { U }`, true},
	{`if v, err := S; err != nil { use(v) } else if yes { U }`, true},
	{`switch v, err := S; { case err == nil: U }`, true},
	{`for v, err := S; err == nil; { U }`, true},
	{`func() { v, _ := S; U }()`, true},
	{`v, _ := S; func() { U }()`, true},
	{`v, _ := S; for range xs { if yes { U } }`, true},
	{`v, _ := S; { v := v; use(v) }; U`, true},
	{`v, _ := S; func(v V) { use(v) }(v); U`, true},
	{`var v V; func() { v, _ = S }(); U`, true},
	{`v, _ := (S); U`, true},
	{`(v), _ := two(1), 1; U`, false}, // left out: does not compile
	{`ww, _ := S; v, _ := S; use(ww); U`, true},
	{`v, _ := S; ww, _ := S; use(ww); U`, true},
	{`G = 1`, true}, // package variables, see d11Globals
	{`v, _ := S; use(v); { v := Z; U }`, false},
	{`v, _ := S; use(v); func(v V) { U }(Z)`, false},
	{`v := Z; if v, _ := S; yes { use(v) }; U`, false},
	{`v := Z; { v, _ := S; use(v) }; U`, false},
	{`ww, _ := S; v := Z; use(ww); U`, false},
	{`ww, v := S; use(ww, v); { v := Z; U }`, false},
	{`use(S); v := Z; U`, false},
	{`_, err := S; v := Z; use(err); U`, false},
	{`var _, err = S; v := Z; use(err); U`, false},
	{`_, _ = S; v := Z; U`, false},
	{`var v = Z; F, _ = S; U`, false},
	{`func() { v, _ := S; use(v) }(); v := Z; U`, false},
	{`v := Z; func() { v, _ := S; use(v) }(); U`, false},
	{`var v V = Z; U`, false},
}

// d11One do it with the only result.
var d11One = []struct {
	code string
	is   bool
}{
	{`v := S; U`, true},
	{`var v = S; U`, true},
	{`var v V = S; U`, true},
	{`var ( x = 1; v = S ); use(x); U`, true},
	{`var v V; v = S; U`, true},
	{`x, v := 1, S; use(x); U`, true},
	{`v, x := S, 1; use(x); U`, true},
	{`x, v, y := 1, S, 2; use(x, y); U`, true},
	{`var x, v = 1, S; use(x); U`, true},
	{`var v, x = S, 1; use(x); U`, true},
	{`x, v := Z, S; use(x); U`, true},
	{`v, x := S, Z; use(x); U`, true},
	{`if v := S; yes { U }`, true},
	{`if v := S; yes { use(v) } else { U }`, true},
	{`switch v := S; { case yes: U }`, true},
	{`for v := S; yes; { U }`, true},
	{`func() { v := S; U }()`, true},
	{`v := S; func() { U }()`, true},
	{`v := S; for range xs { if yes { U } }`, true},
	{`v := S; { v := v; use(v) }; U`, true},
	{`v := (S); U`, true},
	{`ww := S; v := S; use(ww); U`, true},
	{`_, v := S, S; U`, true},
	{`v, x := S, S; use(x); U`, true},
	{`x, v := S, S; use(x); U`, true},
	{`v, x, y := S, S, S; use(x, y); U`, true},
	{`x, v, y := S, S, S; use(x, y); U`, true},
	{`v, x, y := S, Z, S; use(x, y); U`, true},
	{`x, v, y := S, Z, S; use(x, y); U`, false},
	{`var v, x = S, S; use(x); U`, true},
	{`var x, v, y = S, S, Z; use(x, y); U`, true},
	{`v := S; use(v); { v := Z; U }`, false},
	{`v := S; use(v); func(v V) { U }(Z)`, false},
	{`v := Z; if v := S; yes { use(v) }; U`, false},
	{`v := Z; { v := S; use(v) }; U`, false},
	{`ww := S; v := Z; use(ww); U`, false},
	{`v, x := Z, S; use(x); U`, false},
	{`x, v := S, Z; use(x); U`, false},
	{`var v, x = Z, S; use(x); U`, false},
	{`var x, v = S, Z; use(x); U`, false},
	{`v, _ := Z, S; U`, false},
	{`_, v := S, Z; U`, false},
	{`_ = S; v := Z; U`, false},
	{`use(S); v := Z; U`, false},
	{`var v = Z; F = S; U`, false},
	{`v := Z; func() { v := S; use(v) }(); U`, false},
	{`var v V = Z; U`, false},
}

// d11Spots are the places of D10 without the name which the values have here.
var d11Spots = func() []string {
	var out []string
	for _, s := range d10Spots {
		out = append(out, strings.ReplaceAll(s, `var v = X; use(v)`, `var vv = X; use(vv)`))
	}
	return out
}()

func d11Build(unit string) []d11Case {
	var out []d11Case
	add := func(pre, body, rule string, want int) {
		out = append(out, d11Case{pre, strings.ReplaceAll(body, "{ return }", "{ i++ }"), rule, want})
	}
	n := 0
	flow := func(rule, typ, zero, field string, globals []string, one, two []string, good int, sinks []string, goodSinks int, spots []string, follows bool) {
		each := func(body, s string, from bool) {
			for k, u := range sinks {
				want := 0
				if from && k < goodSinks {
					want = 1
				}
				for j, spot := range spots {
					if n++; j > 1 && k > 1 && (n+j)%3 != 0 {
						continue
					}
					used := d11V.MatchString(u)
					u := strings.ReplaceAll(spot, "X", u)
					if !used {
						u = "use(v); " + u
					}
					b := strings.NewReplacer("S", s, "U", u, "V", typ, "Z", zero, "F", field).Replace(body)
					add("", b, rule, want)
				}
			}
		}
		for i, s := range two {
			for _, f := range d11Two {
				if strings.HasPrefix(f.code, "(v)") || strings.HasPrefix(f.code, "G") {
					continue
				}
				each(f.code, s, f.is && i < good)
			}
		}
		for i, s := range one {
			for _, f := range d11One {
				if !follows && strings.Contains(f.code, "v = S") && strings.Contains(f.code, "var v V;") {
					continue
				}
				each(f.code, s, f.is && i < good)
			}
		}
		// variables of the package: declared in front of the function, or assigned there and declared in another file
		for k, u := range sinks {
			for j, spot := range spots {
				call := func(v string) string {
					return strings.ReplaceAll(spot, "X", d11V.ReplaceAllString(u, v))
				}
				w := func(i int, is bool) int {
					if is && i < good && k < goodSinks {
						return 1
					}
					return 0
				}
				if !d11V.MatchString(u) {
					continue
				}
				for i, l := range [][]string{two, one} {
					for si, s := range l {
						g := strings.NewReplacer("(p)", "(gs)", "(rd", "(grd", "zf.", "getzf().", "(zf)", "(getzf())", "(p,", "(gs,", "hd.", "hd.", "d.", "oth{}.").Replace(s)
						tail := []string{", _", ""}[i]
						if g != "p" && !strings.ContainsAny(g, "[") && !strings.Contains(g, "th.") && !strings.Contains(g, "zr.") && !strings.Contains(g, "za.") && !strings.Contains(g, "hd.") && !strings.Contains(g, "two(") && !strings.Contains(g, "s.") && !strings.Contains(u, "filepath") {
							add("var gID"+tail+" = "+g+"; ", call("gID"), rule, w(si, true))
							add("var hhID"+tail+" = "+g+"; var gID "+typ+"; ", "use(hhID); "+call("gID"), rule, w(si, false))
							add("func oID() { v"+tail+" := "+g+"; use(v) }; ", "v := "+zero+"; "+call("v"), rule, w(si, false))
						}
						if follows && j%3 == 0 {
							add("", globals[0]+tail+" = "+s+"; "+call(globals[0]), rule, w(si, true))
							add("", globals[0]+tail+" = "+s+"; "+call(globals[1]), rule, w(si, false))
							add("", call(globals[0])+"; "+globals[1]+tail+" = "+s, rule, w(si, false))
						}
					}
				}
			}
		}
	}
	switch unit {
	case "atoi":
		flow("G109", "int", "i", "s.n", []string{"gxID", "gyID"}, nil, []string{`strconv.Atoi(p)`, `s2.Atoi(p)`, `(strconv.Atoi)(p)`, `strconv.Atoi(xs[0] + p)`, `d.Atoi(p)`, `atoi2(p)`, `two(i)`}, 4,
			[]string{`int32(v)`, `int16(v)`, `(int32)(v)`, `int32((v))`, `int64(v)`, `int(v)`, `float64(v)`, `int32(i)`, `int16(len(xs))`, `uint64(v + i)`}, 4, d11Spots, true)
	case "copy":
		sinks := []string{`io.Copy(w, v)`, `io.CopyBuffer(w, v, nil)`, `io2.Copy(w, (v))`, `(io.Copy)(w, v)`, `io.CopyN(w, v, 10)`, `io.Copy(w, io.LimitReader(v, 9))`, `d.Copy(w, v)`, `io.ReadAll(v)`, `io.Copy(w, rd)`, `io.CopyBuffer(w, rd, nil)`}
		one := []string{`flate.NewReader(rd)`, `flate.NewReaderDict(rd, nil)`, `bzip2.NewReader(rd)`, `lzw.NewReader(rd, lzw.LSB, 8)`, `tar.NewReader(rd)`, `bufio.NewReader(rd)`, `bytes.NewReader(nil)`, `strings.NewReader(p)`, `d.NewReader(rd)`, `io.LimitReader(rd, 5)`}
		two := []string{`gzip.NewReader(rd)`, `gz.NewReader(rd)`, `zlib.NewReader(rd)`, `zlib.NewReaderDict(rd, nil)`, `zf.Open()`, `os.Open(p)`, `d.Open()`}
		more := []string{`zr.File[0].Open()`, `getzf().Open()`, `s.zf.Open()`, `za.Open()`, `(zf).Open()`, `zr.Open(p)`}
		flow("G110", "io.Reader", "rd", "s.r", []string{"grID", "gqID"}, one, two, 5, sinks, 4, d10Calls, true)
		flow("G110", "io.Reader", "rd", "s.r", []string{"grID", "gqID"}, nil, more, 5, sinks[:8], 4, d10Calls[:4], true)
		for i, s := range one {
			for k, u := range sinks[:8] {
				want := 0
				if i < 5 && k < 4 {
					want = 1
				}
				for _, spot := range d10Calls {
					add("", strings.ReplaceAll(spot, "X", d11V.ReplaceAllString(u, s)), "G110", want)
				}
			}
		}
	case "archive":
		names := []string{`zf.Name`, `th.Name`, `zr.File[0].Name`, `zr.File[i].Name`, `getzf().Name`, `(zf).Name`, `za.Name`, `s.zf.Name`, `th.Linkname`, `hd.Name`, `s.File[0].Name`, `p`, `xs[0]`, `filepath.Base(zf.Name)`, `gs`, `"x"`}
		sinks := []string{`filepath.Join(p, v)`, `fp2.Join(v)`, `path.Join(p, "a", v, "b")`, `(filepath.Join)(v, p)`, `filepath.Join(p, (v))`, `filepath.Dir(v)`, `d.Join(p, v)`, `strings.Join(xs, v)`, `filepath.Join(p, "x", xs[0])`, `path.Join(xs...)`}
		flow("G305", "string", "p", "s.File[0].Name", []string{"gs", "gs"}, names, nil, 9, sinks, 5, d11Spots, false)
		for i, s := range names {
			for k, u := range sinks {
				want := 0
				if i < 9 && k < 5 {
					want = 1
				}
				for _, spot := range d11Spots {
					add("", strings.ReplaceAll(spot, "X", d11V.ReplaceAllString(u, s)), "G305", want)
				}
			}
		}
		for _, c := range []string{`filepath.Join(zf.Name, th.Name)`, `path.Join(p, zf.Name, zf.Name)`} {
			add("", "use("+c+")", "G305", 1)
		}
		add("", "use(filepath.Join(p, path.Join(p, zf.Name)))", "G305", 1)
		add("", "for _, f := range zr.File { use(filepath.Join(p, f.Name)) }", "G305", 1)
		add("", "for _, f := range zr.File { use(filepath.Join(p, f.Name), path.Join(f.Name)) }", "G305", 2)
		add("", "for _, f := range s.File { use(filepath.Join(p, f.Name)) }", "G305", 0)
		add("", "for _, n := range xs { use(filepath.Join(p, n)) }", "G305", 0)
		add("", "for { th, err := tar.NewReader(rd).Next(); if err != nil { break }; use(filepath.Join(p, th.Name)) }", "G305", 1)
	default: // loops
		loops := []struct {
			code string
			ptr  bool
		}{
			{`for _, v := range ts { B }`, false}, {`for i, v := range ts { use(i); B }`, false}, {`for _, v := range m { B }`, false}, {`for k, v := range m { use(k); B }`, false}, {`for _, v := range [2]T{} { B }`, false},
			{`for _, v := range &[2]T{} { B }`, false}, {`for _, v := range ps { B }`, true}, {`for _, v := range append(ps, &tv) { B }`, true}, {`for _, o := range ts { use(o); for _, v := range ts { B } }`, false},
			{`for _, v := range ts { for _, o := range ts { use(o) }; B }`, false}, {`for _, v := range ts { for _, o := range ts { use(o); B } }`, false}, {`func() any { for _, v := range ts { B }; return nil }()`, false},
			{`for _, o := range ts { use(o) }; for _, v := range ts { B }`, false}, {`for _, v := range ts { use(v) }; for _, v := range ts { B }`, false}, {`if yes { for _, v := range ps { B } }`, true},
			{`L: for _, v := range ts { if yes { continue L }; B }`, false}, {`for _, v := range ts { B }; for i := range ts { use(i) }; use(-i)`, false}, {`for _, v := range ts { if yes { B } else { use(-i, &tv) } }`, false},
			{`for _, v := range ts { v.a++; B }`, false}, {`for _, v := range ts { switch { case yes: B } }`, false}, {`for _, v := range func() []T { for _, v := range ts { use(v) }; return ts }() { B }`, false},
		}
		bodies := []struct {
			code    string
			val, to int // expected where v is a value and where it is a pointer
		}{
			{`use(&v)`, 1, 1}, {`use(&v.a)`, 1, 0}, {`use(&v.in.b)`, 1, -1}, {`use(&(v))`, 1, 1}, {`x := &v; use(x)`, 1, 1}, {`var x any = &v; use(x)`, 1, 1}, {`var l []any; l = append(l, &v); use(l)`, 1, 1},
			{`func() { use(&v) }()`, 1, 1}, {`go use(&v)`, 1, 1}, {`defer use(&v)`, 1, 1}, {`func() { func() { use(&v.a) }() }()`, 1, 0}, {`if use(&v) { break }`, 1, 1}, {`return use(&v)`, 1, 1}, {`return []any{&v}`, 1, 1},
			{`return &v`, 0, 0}, {`return (&v)`, 0, 0}, {`return &v.a`, 0, 0}, {`if yes { return &v }`, 0, 0}, {`if yes { return &v }; use(&v)`, 1, 1}, {`w := v; use(&w)`, 0, 0}, {`v := v; use(&v)`, 0, 0}, {`{ v := v; use(&v) }; use(&v)`, 1, 1},
			{`use(v)`, 0, 0}, {`use(-v.a)`, 0, 0}, {`use(!yes)`, 0, 0}, {`use(&tv)`, 0, 0}, {`use(<-ch)`, 0, 0}, {`use(^v.a, +v.in.b)`, 0, 0}, {`use(&T{a: v.a})`, 0, 0}, {`use(&T{q: &v})`, 1, 1}, {`return &T{q: &v}`, 1, 1}, {`use(!yes, &v)`, 1, 1}, {`use(&v, &v)`, 2, 2},
			{`use(&v, &v.a)`, 2, 1}, {`use(&tv, &xs, &v, &i)`, 1, 1}, {`use(map[any]any{&v: 1})`, 1, 1}, {`*(&v) = v`, 1, 1}, {`func(v T) { use(&v) }(tv)`, 0, 0}, {`for v := 0; v < 2; v++ { use(&v) }`, 0, 0},
		}
		for k, b := range bodies {
			if !d11V.MatchString(b.code) || strings.HasPrefix(b.code, "func(v") || strings.HasPrefix(b.code, "for v") {
				bodies[k].code = "use(v); " + b.code
			}
		}
		on := func(want int) int {
			if strings.HasSuffix(unit, "-") {
				return 0
			}
			return want
		}
		for _, l := range loops {
			for _, b := range bodies {
				want := b.val
				if l.ptr {
					want = b.to
				}
				if want < 0 {
					continue
				}
				add("", strings.ReplaceAll(l.code, "B", b.code), "G601", on(want))
			}
		}
		for _, a := range bodies { // two in one function, the second one behind or within the first
			for _, b := range bodies {
				add("", `for _, v := range ts { `+a.code+` }; for _, v := range ps { `+b.code+` }`, "G601", on(a.val+max(b.to, 0)))
				if b.to < 0 {
					out = out[:len(out)-1]
				}
				if !strings.HasPrefix(b.code, "v :=") && !strings.Contains(b.code, "return (") {
					add("", `for _, u := range ts { `+d11V.ReplaceAllString(a.code, "u")+`; for _, v := range ts { `+b.code+` }; use(-i) }`, "G601", on(a.val+b.val))
				}
			}
		}
		for _, b := range []string{
			`v := tv; for _, v := range ts { use(v) }; use(&v)`, `v := tv; use(&v); for _, v := range ts { use(v) }`, `for v := (T{}); yes; { use(&v) }`, `for i := range ts { v := ts[i]; use(&v) }`, `for _, v := range ts { use(v) }; func(v T) { use(&v) }(tv)`,
			`for range ts { use(&tv) }`, `for _, _ = range ts { use(&tv) }`, `for i := 0; i < 3; i++ { use(&ts[i]) }`, `for i := range ts { use(&ts[i]) }`, `for _, v := range ts { use(v) }; for i := range ts { v := &ts[i]; use(v, &v.a) }`,
		} {
			add("", b, "G601", 0)
		}
	}
	return out
}

var d11V = regexp.MustCompile(`\bv\b`)

var d11Versions = []struct {
	env, mod string
	on       bool
}{
	{"go1.21", "", true}, {"go1.20", "", true}, {"1.21", "", true}, {"go1.21.13", "", true}, {"go1.21rc2", "", true}, {"go1.9", "", true}, {"go1.0", "", true}, {"1.2.22", "", true}, {"go1.18beta1", "", true},
	{"go1.22", "", false}, {"1.22", "", false}, {"go1.22.0", "", false}, {"go1.22rc1", "", false}, {"go1.23.4", "", false}, {"go1.30", "", false}, {"go1.100", "", false}, {"go1.22-custom", "", false},
	{"", "1.21", true}, {"", "1.20", true}, {"", "1.21.5", true}, {"", "1.22", false}, {"", "1.23.0", false}, {"", "", false},
}

func init() {
	core.Register(&core.Check{
		ID: "D11", Level: "model_checking",
		Rule:    "a state is a distinct generated function (source call, way to the variable, decoys of the same name, sink, place) under a Go version; the real rules run on it within a generated package of several files and must report it exactly as often as the source reaches the sink",
		Bounds:  "7 to 17 sources and non-sources x 37 ways through a variable (declared, assigned, in several at once, package variables of this and another file, shadowed, of the same name elsewhere) x 10 sinks and non-sinks x up to 12 places for G109, G110 and G305; 21 range loops x 39 bodies and all pairs of bodies in sequence and nested for G601, under 23 Go versions given by environment and by go.mod",
		Prepare: core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for _, k := range []string{"atoi", "copy", "archive", "loop+/go1.21"} {
				name, ver, _ := strings.Cut(k, "/")
				n := (len(d11Build(name)) + 2999) / 3000
				for j := range n {
					u = append(u, fmt.Sprintf("%s/%s/%d", name, ver, j))
				}
			}
			for _, v := range d11Versions[1:] {
				name := "loop-"
				if v.on {
					name = "loop+"
				}
				key := "env " + v.env
				if v.env == "" {
					key = "mod " + v.mod
				}
				u = append(u, fmt.Sprintf("%s/%s/0", name, key))
			}
			return u
		},
		UnitTimeout: 600e9,
		Run: func(e *core.Env, unit string, r *core.Rec) {
			l := getLoader(e)
			f := strings.Split(unit, "/")
			n, _ := strconv.Atoi(f[2])
			cases := d11Build(f[0])
			cases = cases[n*3000 : min(len(cases), n*3000+3000)]
			old, had := os.LookupEnv("GOSECGOVERSION")
			defer func() {
				if had {
					os.Setenv("GOSECGOVERSION", old)
				}
			}()
			kind, ver, _ := strings.Cut(f[1], " ")
			switch {
			case kind == "mod":
				dir, err := os.MkdirTemp(e.Scratch, "d11mod")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				text := "module ex.test/p\n\n"
				if ver != "" {
					text += "go " + ver + "\n"
					if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(text), 0o644); err != nil {
						panic(err)
					}
				}
				wd, err := os.Getwd()
				if err != nil {
					panic(err)
				}
				defer os.Chdir(wd)
				if err := os.Chdir(dir); err != nil {
					panic(err)
				}
				os.Unsetenv("GOSECGOVERSION")
				// every node asks for the version with a command
				var few []d11Case
				for j := 0; j < len(cases) && len(few) < 60; j += 53 {
					few = append(few, cases[j])
				}
				cases = few
			case kind == "env":
				os.Setenv("GOSECGOVERSION", ver)
			case f[1] != "":
				os.Setenv("GOSECGOVERSION", f[1])
			}
			const per = 1500
			for at := 0; at < len(cases); at += per {
				part := cases[at:min(at+per, len(cases))]
				var files [2]strings.Builder
				for k := range files {
					files[k].WriteString(d11Head)
				}
				other := d11Other
				for j, c := range part {
					if strings.Contains(c.body, "gxID") || strings.Contains(c.body, "gyID") {
						other += fmt.Sprintf("var gx%d, gy%d int\n", j, j)
					} else if strings.Contains(c.body, "grID") || strings.Contains(c.body, "gqID") {
						other += fmt.Sprintf("var gr%d, gq%d io.Reader\n", j, j)
					}
					fmt.Fprintf(&files[j%2], "%s\n", strings.ReplaceAll(c.pre+"func hID("+d11Params+") any { "+c.body+"; return nil }", "ID", fmt.Sprint(j)))
				}
				first := 1 + strings.Count(d11Head, "\n")
				p := l.MustLoad("ex.test/p", core.File{Name: "a.go", Src: files[0].String()}, core.File{Name: "z.go", Src: files[1].String()}, core.File{Name: "o.go", Src: other})
				is, _ := core.Scan(core.Opts{Include: []string{"G109", "G110", "G305", "G601"}, NoSSA: true}, p)
				got := map[int]map[string]int{}
				for _, i := range is {
					line, _ := lineRange(i.Line)
					j := (line - first) * 2
					switch filepath.Base(i.File) {
					case "a.go":
					case "z.go":
						j++
					default:
						r.Violate(unit+i.File, i.Code, "%s: finding %s in %s", unit, i.RuleID, i.File)
						continue
					}
					if got[j] == nil {
						got[j] = map[string]int{}
					}
					got[j][i.RuleID]++
				}
				r.Evals += len(part)
				r.Transitions += len(part)
				for j, c := range part {
					src := c.pre + "func hID() { " + c.body + " }"
					r.State(f[1] + src)
					if g := got[j][c.rule]; g != c.want {
						r.Violate(f[0]+" "+f[1]+src, src, "%s: %s reported %d times, should be %d: %s", unit, c.rule, g, c.want, src)
					}
					delete(got[j], c.rule)
					if len(got[j]) > 0 {
						r.Violate(src+" other", src, "%s: other rules report %v: %s", unit, got[j], src)
					}
				}
			}
			r.Sample(cases[len(cases)/2].body)
		},
	})
}
