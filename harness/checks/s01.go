package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"verifharness/core"

	"github.com/securego/gosec/v2"
)

// S01: suppression scoping. Alphabet: skeleton files with numbered comment slots, each slot empty, neutral or a
// directive with one of the rule lists. Oracle: go/ast's comment association on an independent parse + line-span rule.

type s01Skel struct {
	name string
	src  string // slots are written @N@ ; a slot is a whole comment including its marker
	n    int
	ssa  bool
}

var s01Skels = []s01Skel{
	{name: "nest", src: `@0@
package p

import (
	"crypto/md5" @1@
	"math/rand"
)

@2@
func f(c bool) { @3@
	@4@
	use(md5.New(), rand.Int()) @5@
	if c { @6@
		use(md5.New(), rand.Int()) @7@
		for c { @8@
			use(md5.New(), rand.Int()) @9@
		} @10@
	} else {
		@11@
		use(rand.Int(), md5.New())
	}
	use(rand.Int(), md5.New())
}

func use(a ...any) {}
`, n: 12},
	{name: "multi", src: `package p

import (
	"crypto/md5"
	"math/rand"
)

@0@
var v = []any{ @1@
	md5.New(), @2@
	@3@
	rand.Int(), @4@
} @5@

type t struct{ a, b any }

func f() {
	@6@
	x := t{ @7@
		a: md5.New(), @8@
		b: func() any { @9@
			return rand.Int() @10@
		}(),
	} @11@
	_ = x
	use(
		md5.New(), @12@
		rand.Int(),
	) @13@
	go use(md5.New(),
		rand.Int()) @14@
}

@15@

func g() { use(md5.New()); use(rand.Int()) } @16@

func use(a ...any) {}
`, n: 17},
	{name: "span", src: `package p

import (
	"crypto/md5"
	"math/rand"
)

@0@
var v = []any{ @1@
	md5.Sum( @2@
		[]byte( @3@
			"x" + @4@
				"y"), @5@
		@6@
	), @7@
}

func f() {
	x := rand.Intn(1 + @8@
		rand.Intn(2 + @9@
			3 @15@)) @10@
	_ = x
	x = rand.Intn(5 +
		x @16@)
	use(rand.Intn( @17@
		6 @18@), md5.Sum(
		[]byte(
			"y") @19@))
	_ = rand.Intn(4 + func() int {
		return 2 @11@
	}()) + rand.Intn( @12@
		len(v), @13@
	) @14@
}

func use(a ...any) {}
`, n: 20},
	{name: "flow", ssa: true, src: `package p

@0@
import "math/rand" @1@

@2@
func f(x int) { @3@
	a := int8(x) @4@
	for rand.Int() > 2 { @5@
		a += int8(x + @6@
			rand.Int()) @7@
	}
	_ = a
	_ = uint32(x) @8@
} @9@
`, n: 10},
	{name: "switch", src: `package p

import (
	"crypto/md5"
	"math/rand"
)

func f(k int) (r any) {
	switch k { @0@
	case 1: @1@
		@2@
		r = md5.New()
		@3@
		r = rand.Int() @4@
	@5@
	case rand.Int(): @6@
		r = md5.New() @7@

	default:
		r = []any{md5.New(), rand.Int(), @8@
			md5.New()} @9@
	}
	defer use(rand.Int()); use(md5.New()) @10@
	return md5.New() @11@
}

func use(a ...any) {}
`, n: 12},
}

var s01Dirs = []struct {
	text string
	rule []string // nil: not a directive; empty: all
	is   bool
}{
	{text: "#nosec", is: true},
	{text: "#nosec G401", is: true, rule: []string{"G401"}},
	{text: "#nosec G404 -- why", is: true, rule: []string{"G404"}},
	{text: "#nosec G401 G404", is: true, rule: []string{"G401", "G404"}},
	{text: "gosec:disable G401", is: true, rule: []string{"G401"}},
	{text: "#nosec G101", is: true, rule: []string{"G101"}},
}

type s01Choice struct{ slot, dir int }

// s01Pad moves the skeleton down.
func s01Pad(sk s01Skel, lines int) s01Skel {
	sk.src = strings.Replace(sk.src, "package p\n", "package p\n"+strings.Repeat("\n", lines), 1)
	sk.name += fmt.Sprint("+", lines)
	return sk
}

func s01Render(sk s01Skel, fill int, ch []s01Choice) (string, map[string][]string) {
	out := sk.src
	texts := map[string][]string{}
	for i := 0; i < sk.n; i++ {
		c := ""
		if fill == 1 {
			c = fmt.Sprintf("// note %d", i)
		}
		inline := strings.Contains(sk.src, fmt.Sprintf("@%d@)", i)) // code follows on the line
		if inline {
			c = ""
		}
		for _, x := range ch {
			if x.slot == i {
				d := s01Dirs[x.dir]
				if strings.HasPrefix(d.text, "gosec:") && !inline {
					c = "//" + d.text
				} else if inline {
					c = "/* " + strings.Replace(d.text, "gosec:disable", "#nosec", 1) + " */"
				} else if (i+x.dir)%3 == 2 {
					c = "/* " + d.text + " */"
				} else {
					c = "// " + d.text
				}
				texts[c] = d.rule
			}
		}
		out = strings.Replace(out, fmt.Sprintf("@%d@", i), c, 1)
	}
	return out, texts
}

type span struct {
	s, e  int
	rules []string
}

var s01Rules = []string{"G401", "G404", "G115"}

// s01Variants are settings which do not change what is withheld.
var s01Variants = []core.Opts{{}, {ExclGen: true}, {Track: true}, {Tests: true}, {Tests: true, ExclGen: true, Track: true}}

func (sp span) hits(s, e int, rule string) bool {
	if !(sp.s <= s && sp.e >= e || s <= sp.s && e >= sp.e) {
		return false
	}
	if len(sp.rules) == 0 {
		return true
	}
	for _, r := range sp.rules {
		if r == rule {
			return true
		}
	}
	return false
}

// s01Spans is the reference: every directive comment with the line span of the code it is attached to.
func s01Spans(src string, texts map[string][]string) []span {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		core.Infra("s01: %v\n%s", err, src)
	}
	var out []span
	for n, groups := range ast.NewCommentMap(fs, f, f.Comments) {
		for _, g := range groups {
			for _, c := range g.List {
				if r, ok := texts[c.Text]; ok {
					out = append(out, span{fs.Position(n.Pos()).Line, fs.Position(n.End()).Line, r})
				}
			}
		}
	}
	return out
}

func parseLines(l string) (int, int) {
	a, b, ok := strings.Cut(l, "-")
	s, _ := strconv.Atoi(a)
	if !ok {
		return s, s
	}
	e, _ := strconv.Atoi(b)
	return s, e
}

// two adjacent directives in one comment group are excluded from S01 (a group is one annotation; see S02).
func s01SameGroup(src string, texts map[string][]string) bool {
	fs := token.NewFileSet()
	f, _ := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	for _, g := range f.Comments {
		n := 0
		for _, c := range g.List {
			if _, ok := texts[c.Text]; ok {
				n++
			}
		}
		if n > 1 {
			return true
		}
	}
	return false
}

func init() {
	core.Register(&core.Check{
		ID: "S01", Level: "model_checking",
		Rule:        "a state is a distinct (directive spans, expected outcome) pair of the reference model; every program is executed on the real scanner and compared",
		Bounds:      "5 skeleton files with 10-17 comment slots; up to 2 (quick) / 3 (thorough) directives from 6 rule lists, neutral or empty other slots; patterns of directives in every, every second or every third slot; one directive with up to 1009 lines in front; two files per scan in both orders; five combinations of unrelated settings (all for one directive, two per program otherwise)",
		Assumptions: []string{"go/ast comment association is the meaning of 'attached'", "one comment group holds one annotation"},
		Prepare:     core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for i, sk := range s01Skels {
				for fill := 0; fill < 2; fill++ {
					for a := 0; a < sk.n; a++ {
						u = append(u, fmt.Sprintf("%d/%d/%d", i, fill, a))
					}
				}
				u = append(u, fmt.Sprintf("%d/0/-1", i), fmt.Sprintf("%d/0/-2", i))
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var si, fill, a int
			fmt.Sscanf(strings.ReplaceAll(unit, "/", " "), "%d %d %d", &si, &fill, &a)
			sk := s01Skels[si]
			l := getLoader(e)
			// other: a second file with its own directive, which must not leak
			prog := 0
			one := func(ch []s01Choice) {
				src, texts := s01Render(sk, fill, ch)
				if s01SameGroup(src, texts) {
					return
				}
				raw, _ := s01Render(sk, 1, nil)
				_ = raw
				other := "package p\n\nimport \"math/rand\"\n\nfunc g2() { // #nosec G401\n\t_ = rand.Int() // #nosec G101\n\t_ = rand.Int() // #nosec\n}\n"
				r.Mark(src)
				files := []core.File{{Name: "a.go", Src: src}, {Name: "b.go", Src: other}}
				if (len(ch)+a)%2 == 1 {
					files[0], files[1] = files[1], files[0]
				}
				pkg := l.MustLoad("p", files...)
				// raw findings: directives disarmed textually, same layout
				dis := src
				for t := range texts {
					dis = strings.ReplaceAll(dis, t, strings.NewReplacer("#nosec", "#xosec", "gosec:disable", "gosec:xisable").Replace(t))
				}
				base := s01Base(l, dis, sk.ssa)
				spans := s01Spans(src, texts)
				var want []string
				for _, b := range base {
					hit := false
					for _, sp := range spans {
						if sp.hits(b.s, b.e, b.rule) {
							hit = true
						}
					}
					if !hit {
						want = append(want, fmt.Sprintf("a.go:%d-%d %s", b.s, b.e, b.rule))
					}
				}
				want = append(want, "b.go:6-6 G404")
				sort.Strings(want)
				sort.Slice(spans, func(i, j int) bool { return fmt.Sprint(spans[i]) < fmt.Sprint(spans[j]) })
				r.State(fmt.Sprint(si, spans, want))
				prog++
				for vi, o := range s01Variants {
					if vi != 0 && len(ch) > 1 && prog%(len(s01Variants)-1) != vi-1 {
						continue
					}
					o.NoSSA, o.Include, o.Conf = !sk.ssa, s01Rules, gosec.NewConfig()
					is, _ := core.Scan(o, pkg)
					var got []string
					for _, i := range is {
						if o.Track && len(i.Suppressions) > 0 {
							continue // withheld from the findings, kept as a record
						}
						s, e := parseLines(i.Line)
						got = append(got, fmt.Sprintf("%s:%d-%d %s", i.File[strings.LastIndexByte(i.File, '/')+1:], s, e, i.RuleID))
					}
					sort.Strings(got)
					r.Evals++
					r.Transitions += len(ch)
					if core.Join(got) != core.Join(want) {
						r.Violate(fmt.Sprintf("%s/fill%d/%v/%d", sk.name, fill, ch, vi), src, "directive spans %v\nsettings %+v\nwant %v\ngot  %v", spans, o, want, got)
					}
				}
				if len(ch) == 2 {
					r.Sample(fmt.Sprintf("%s\n=> reported %v", src, want))
				}
			}
			if a == -1 { // directives in many slots at once
				for stride := 1; stride <= 3; stride++ {
					for off := 0; off < stride; off++ {
						for code := 0; code < 6*6*6; code++ {
							var ch []s01Choice
							c := code
							for k := off; k < sk.n; k += stride {
								ch = append(ch, s01Choice{k, c % 6})
								if c /= 6; c == 0 {
									c = code
								}
							}
							one(ch)
						}
					}
				}
				return
			}
			if a == -2 { // lines with other numbers of digits
				plain := sk
				for pad := range 110 {
					if pad >= 10 && pad < 60 {
						continue
					}
					sk = s01Pad(plain, pad+900*(pad%2))
					for k := range sk.n {
						for d := range 3 {
							if (k+d+pad/2)%3 == 0 || e.Thorough {
								one([]s01Choice{{k, d}})
							}
						}
					}
				}
				return
			}
			ds := []int{0, 1, 2, 3, 4, 5}
			for _, d := range ds {
				c1 := s01Choice{a, d}
				one([]s01Choice{c1})
				for b := a + 1; b < sk.n; b++ {
					for _, d2 := range ds {
						c2 := s01Choice{b, d2}
						one([]s01Choice{c1, c2})
						if e.Thorough {
							for c := b + 1; c < sk.n; c++ {
								for _, d3 := range ds[:5] {
									one([]s01Choice{c1, c2, {c, d3}})
								}
							}
						} else if d < 3 && d2 < 3 {
							for c := b + 1; c < sk.n; c++ {
								one([]s01Choice{c1, c2, {c, 1 + (d+d2)%2}})
							}
						}
					}
				}
			}
		},
	})
}

type rawFinding struct {
	s, e int
	rule string
}

func s01Base(l *core.Loader, src string, ssa bool) []rawFinding {
	pkg := l.MustLoad("p", core.File{Name: "a.go", Src: src})
	is, _ := core.Scan(core.Opts{NoSSA: !ssa, Include: s01Rules}, pkg)
	var out []rawFinding
	for _, i := range is {
		s, e := parseLines(i.Line)
		out = append(out, rawFinding{s, e, i.RuleID})
	}
	if len(out) == 0 {
		core.Broken("s01: no raw findings in\n%s", src)
	}
	return out
}
