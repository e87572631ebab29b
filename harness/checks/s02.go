package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verifharness/core"

	"github.com/securego/gosec/v2"
)

// S02: the directive language. Every comment text over a token alphabet, attached to a statement with a G401 and a
// G404 finding, under several tag configurations; oracle: a small reference recogniser written from the README.

type s02Cfg struct {
	name   string
	opt    gosec.GlobalOption
	val    string
	tags   []string // tags in force
	altTok string   // the token used for the alternative tag in the alphabet
}

var s02Cfgs = []s02Cfg{
	{"default", "", "", []string{"#nosec"}, "#falsepos"},
	{"alt", gosec.NoSecAlternative, "falsepos", []string{"#nosec", "#falsepos"}, "#falsepos"},
	{"alt-hash", gosec.NoSecAlternative, "#falsepos", []string{"#nosec", "#falsepos"}, "#falsepos"},
	{"alt-dot", gosec.NoSecAlternative, "a.b", []string{"#nosec", "#a.b"}, "#axb"},
	{"alt-dot2", gosec.NoSecAlternative, "a.b", []string{"#nosec", "#a.b"}, "#a.b"},
	{"alt-paren", gosec.NoSecAlternative, "ok(", []string{"#nosec", "#ok("}, "#ok("},
	{"alt-plus", gosec.NoSecAlternative, "z+", []string{"#nosec", "#z+"}, "#zz"},
	{"nosec-false", gosec.Nosec, "false", []string{"#nosec"}, "#false"},
	{"nosec-disabled", gosec.Nosec, "disabled", []string{"#nosec"}, "#disabled"},
	{"show-false", gosec.ShowIgnored, "false", []string{"#nosec"}, "#false"},
	{"audit-on", gosec.Audit, "enabled", []string{"#nosec"}, "#true"},
}

type s02Ann struct {
	found bool
	rules []string
	just  string
}

var s02Dash = regexp.MustCompile(`--+`)
var s02Rule = regexp.MustCompile(`G[0-9][0-9][0-9]`)

func s02Parse(args string) s02Ann {
	a := s02Ann{found: true}
	head := args
	if m := s02Dash.FindStringIndex(args); m != nil {
		head = args[:m[0]]
		a.just = strings.TrimSpace(args[m[1]:])
	}
	a.rules = s02Rule.FindAllString(head, -1)
	return a
}

func s02Model(g *ast.CommentGroup, tags []string) s02Ann {
	lines := strings.Split(strings.TrimSpace(g.Text()), "\n")
	for _, tag := range tags {
		for i, l := range lines {
			l = strings.TrimLeft(l, " ")
			if strings.HasPrefix(l, tag) {
				return s02Parse(strings.Join(append([]string{l[len(tag):]}, lines[i+1:]...), "\n"))
			}
		}
	}
	for _, c := range g.List {
		if c.Text == "//gosec:disable" {
			return s02Parse("")
		}
		if r, ok := strings.CutPrefix(c.Text, "//gosec:disable "); ok && r != "" {
			return s02Parse(r)
		}
	}
	return s02Ann{}
}

// s02Batch scans comments (each a list of full comment source lines placed before or at the end of a statement).
func s02Batch(l *core.Loader, cfg s02Cfg, cs []string, r *core.Rec) {
	var b strings.Builder
	b.WriteString("package p\n\nimport (\n\t\"crypto/md5\"\n\t\"math/rand\"\n)\n\nfunc use(a ...any) {}\n\nfunc f() {\n")
	for _, c := range cs {
		if body, ok := strings.CutPrefix(c, "^"); ok {
			b.WriteString("\n" + body + "\nuse(md5.New(), rand.Int())\n\n")
		} else {
			b.WriteString("use(md5.New(), rand.Int()) " + c + "\n\n")
		}
	}
	b.WriteString("}\n")
	src := b.String()
	r.Mark(src)
	pkg, err := l.Load("p", core.File{Name: "a.go", Src: src})
	if err != nil {
		core.Infra("s02: %v\n%s", err, src)
	}
	fs := token.NewFileSet()
	f, _ := parser.ParseFile(fs, "a.go", src, parser.ParseComments)
	byLine := map[int]s02Ann{}
	txt := map[int]string{}
	nann := 0
	cm := ast.NewCommentMap(fs, f, f.Comments)
	for n, gs := range cm {
		if _, ok := n.(*ast.ExprStmt); !ok {
			core.Infra("s02: comment attached to %T in\n%s", n, src)
		}
		line := fs.Position(n.Pos()).Line
		for _, g := range gs {
			a := s02Model(g, cfg.tags)
			byLine[line] = a
			var t []string
			for _, c := range g.List {
				t = append(t, c.Text)
			}
			txt[line] = strings.Join(t, "\n")
			if a.found {
				nann++
			}
		}
	}
	conf := gosec.NewConfig()
	if cfg.opt != "" {
		conf.SetGlobal(cfg.opt, cfg.val)
	}
	is, m := core.Scan(core.Opts{NoSSA: true, Track: true, Include: []string{"G401", "G404"}, Conf: conf}, pkg)
	got := map[string][]string{}
	for _, i := range is {
		if i.RuleID != "G401" && i.RuleID != "G404" {
			continue
		}
		s, _ := parseLines(i.Line)
		v := []string{}
		for _, x := range i.Suppressions {
			v = append(v, x.Kind+"|"+x.Justification)
		}
		k := fmt.Sprintf("%d %s", s, i.RuleID)
		got[k] = append(got[k], strings.Join(v, ";"))
	}
	_ = filepath.Base
	for line, a := range byLine {
		r.Evals++
		r.Transitions += len(txt[line])
		for _, rule := range []string{"G401", "G404"} {
			want := ""
			if a.found {
				hit := len(a.rules) == 0
				for _, x := range a.rules {
					hit = hit || x == rule
				}
				if hit {
					want = "inSource|" + a.just
				}
			}
			g := got[fmt.Sprintf("%d %s", line, rule)]
			if len(g) != 1 || g[0] != want {
				r.Violate(fmt.Sprintf("%s %q %s", cfg.name, txt[line], rule), txt[line], "config %s=%q comment %q: %s finding should carry suppression %q, has %q", cfg.opt, cfg.val, txt[line], rule, want, g)
			}
		}
		sort.Strings(a.rules)
		r.State(fmt.Sprintf("%v", a))
	}
	if m.NumNosec != nann {
		r.Violate(fmt.Sprintf("%s count %016x", cfg.name, core.Hash(src)), src, "directives counted %d, present %d", m.NumNosec, nann)
	}
	if len(cs) > 0 {
		r.Sample(cfg.name + ": " + cs[0])
	}
}

func s02Seqs(toks []string, n int) []string {
	out := []string{""}
	cur := []string{""}
	for i := 0; i < n; i++ {
		var nx []string
		for _, c := range cur {
			for _, t := range toks {
				nx = append(nx, c+t)
			}
		}
		out = append(out, nx...)
		cur = nx
	}
	seen := map[string]bool{}
	var u []string
	for _, s := range out {
		s = strings.TrimRight(s, " ")
		if !seen[s] {
			seen[s] = true
			u = append(u, s)
		}
	}
	return u
}

func init() {
	core.Register(&core.Check{
		ID: "S02", Level: "model_checking",
		Rule:        "a state is a distinct parsed annotation (directive or not, rule list, justification); transitions count recognised characters; every comment text is executed on the real scanner",
		Bounds:      "all token sequences up to length 4 (quick) / 6 (thorough) over 10 tokens in 6 comment forms, all 2- and 3-line groups over 13 lines in 3 forms, lists of 17 lengths up to 300 identifiers with four separators, and justifications and texts around of such lengths, under 11 configurations",
		Assumptions: []string{"ast.CommentGroup.Text defines the text of a comment group", "adjacent comment lines form one comment"},
		Prepare:     core.PrepareStd,
		Units: func(e *core.Env) []string {
			var u []string
			for i := range s02Cfgs {
				for form := 0; form < 6; form++ {
					u = append(u, fmt.Sprintf("%d seq %d", i, form))
				}
				u = append(u, fmt.Sprintf("%d long 0", i))
				for form := 0; form < 3; form++ {
					u = append(u, fmt.Sprintf("%d multi %d", i, form))
				}
			}
			return u
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			var ci, form int
			var kind string
			fmt.Sscan(unit, &ci, &kind, &form)
			cfg := s02Cfgs[ci]
			l := getLoader(e)
			var cs []string
			if kind == "long" { // long lists, justifications and texts in front, in every form
				for _, n := range []int{1, 2, 3, 5, 9, 10, 11, 16, 17, 30, 33, 60, 64, 65, 100, 129, 300} {
					for _, at := range []int{-1, 0, 1, n / 2, n - 1} {
						var ids []string
						for j := range n {
							ids = append(ids, fmt.Sprintf("G%03d", 500+j))
						}
						if at >= n {
							continue
						}
						if at >= 0 {
							ids[at] = "G401"
						}
						for _, sep := range []string{" ", ",", ", ", "  "} {
							list := strings.Join(ids, sep)
							for _, t := range []string{"#nosec", cfg.altTok} {
								cs = append(cs, "// "+t+" "+list, "// "+t+" "+list+" -- why", "/* "+t+" "+list+strings.Repeat("-", n+1)+" "+list+" -- "+strings.Repeat("w", n)+" */", "//"+t+" -- "+list)
							}
							cs = append(cs, "//gosec:disable "+list, "//gosec:disable "+list+" -- "+strings.Repeat("é ", n)+"x")
						}
					}
					for _, t := range []string{"#nosec G404", cfg.altTok + " G404"} {
						cs = append(cs, "^// "+strings.Repeat("some text\n// ", n)+t, "^// "+t+strings.Repeat("\n// G401", n), "^/*\n"+strings.Repeat("text\n", n)+t+"\n*/", "// "+strings.Repeat(" ", n)+t, "// "+strings.Repeat("x", n)+t)
					}
				}
			} else if kind == "seq" {
				toks := []string{" ", "#nosec", cfg.altTok, "G401", "G404", "-", "--", "---", "why", ":"}
				n := 4
				if e.Thorough {
					n = 5
					if ci == 1 {
						n = 6
					}
				}
				for _, s := range s02Seqs(toks, n) {
					switch form {
					case 0:
						cs = append(cs, "//"+s)
					case 1:
						cs = append(cs, "// "+s)
					case 2:
						cs = append(cs, "/*"+s+"*/")
					case 3:
						cs = append(cs, "//gosec:disable "+s)
					case 4:
						cs = append(cs, "//gosec:disable"+s)
					case 5:
						cs = append(cs, "// gosec:disable "+s)
					}
				}
				for i := range cs {
					cs[i] = strings.TrimRight(cs[i], " ")
				}
			} else {
				menu := []string{"", "note", "#nosec", "#nosec G401", "  #nosec G404 -- why", "see #nosec G404", "G404", "-- because", "#nosec -- a -- b", cfg.altTok + " G401", cfg.altTok, "x " + cfg.altTok + " G404", "nosec"}
				gd := []string{"gosec:disable G401", "gosec:disable"}
				var groups [][]string
				for _, a := range menu {
					for _, b := range menu {
						groups = append(groups, []string{a, b})
						for _, c := range menu {
							groups = append(groups, []string{a, b, c})
						}
					}
				}
				for _, g := range groups {
					switch form {
					case 0:
						cs = append(cs, "^// "+strings.Join(g, "\n// "))
					case 1:
						cs = append(cs, "^/* "+strings.Join(g, "\n")+" */")
					case 2:
						for _, d := range gd {
							cs = append(cs, "^// "+g[0]+"\n//"+d+"\n// "+strings.Join(g[1:], "\n// "))
						}
					}
				}
			}
			// comments mixing both tags are ambiguous by design (the default tag wins): keep only one tag per comment
			var use []string
			for _, c := range cs {
				if strings.Contains(c, "#nosec") && strings.Contains(c, cfg.altTok) && len(cfg.tags) > 1 {
					continue
				}
				use = append(use, c)
			}
			for len(use) > 0 {
				n := 60
				if n > len(use) {
					n = len(use)
				}
				s02Batch(l, cfg, use[:n], r)
				use = use[n:]
			}
		},
	})
}
