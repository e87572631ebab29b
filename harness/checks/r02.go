package checks

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"bytes"

	"verifharness/core"
)

// R02: all sequences of findings over a rule and location alphabet, crossed with root path lists, are written as SARIF
// by the real writer and read back.

type sarifText struct{ Text, Markdown string }

type sarifRule struct {
	ID, Name, GUID, HelpURI                 string
	ShortDescription, FullDescription, Help *sarifText
	DefaultConfiguration                    *struct{ Level string }
	Properties                              struct {
		Tags      []string
		Precision string
	}
	Relationships []*struct {
		Target struct {
			ID, GUID      string
			ToolComponent struct{ Name, GUID string }
		}
		Kinds []string
	}
}

type sarifDoc struct {
	Version string
	Schema  string `json:"$schema"`
	Runs    []struct {
		Tool struct {
			Driver struct {
				Name, GUID, SemanticVersion, Version string
				Rules                                []sarifRule
				SupportedTaxonomies                  []struct{ Name, GUID string }
			}
		}
		Taxonomies []struct {
			Name, GUID string
			Taxa       []sarifRule
		}
		Results []struct {
			RuleID       string
			RuleIndex    *int
			Level        string
			Message      sarifText
			Suppressions []struct{ Kind, Justification string }
			Fixes        []struct{ Description sarifText }
			Locations    []struct {
				PhysicalLocation struct {
					ArtifactLocation struct{ URI string }
					Region           struct {
						StartLine, EndLine, StartColumn, EndColumn int
						SourceLanguage                             string
						Snippet                                    *sarifText
					}
				}
			}
		}
	}
}

// r02Snippet is the code of the finding's own lines, without indentation.
func r02Snippet(i issue.Issue) []string {
	s, e := lineRange(i.Line)
	var out []string
	for _, l := range strings.Split(i.Code, "\n") {
		if s <= e && strings.HasPrefix(l, fmt.Sprint(s)+":") {
			out = append(out, strings.TrimSpace(strings.TrimPrefix(l, fmt.Sprint(s)+":")))
			s++
		}
	}
	return out
}

// r02Judge compares a SARIF report with the findings. uriOf gives the acceptable paths for a file (none: not checked).
func r02Judge(issues []issue.Issue, uriOf func(string) []string, out string) string {
	var d sarifDoc
	if err := json.Unmarshal([]byte(out), &d); err != nil {
		return "not readable: " + err.Error()
	}
	if d.Version != "2.1.0" || len(d.Runs) != 1 {
		return "version or runs"
	}
	run := d.Runs[0]
	if !strings.Contains(out, "\"results\": [") {
		return "no results array"
	}
	rules := run.Tool.Driver.Rules
	ids := []string{}
	wantIDs := map[string]bool{}
	for _, r := range rules {
		ids = append(ids, r.ID)
	}
	for _, i := range issues {
		wantIDs[i.RuleID] = true
	}
	if !sort.StringsAreSorted(ids) {
		return fmt.Sprintf("rules not sorted: %q", ids)
	}
	seen := map[string]bool{}
	for _, id := range ids {
		if seen[id] {
			return "rule entry twice: " + id
		}
		seen[id] = true
		if !wantIDs[id] {
			return "rule entry without result: " + id
		}
	}
	for id := range wantIDs {
		if !seen[id] {
			return "no rule entry: " + id
		}
	}
	taxa := map[string]sarifRule{}
	for _, t := range run.Taxonomies {
		for _, x := range t.Taxa {
			if _, dup := taxa[x.ID]; dup {
				return "weakness twice: " + x.ID
			}
			taxa[x.ID] = x
		}
	}
	levels := map[issue.Score]string{issue.Low: "warning", issue.Medium: "error", issue.High: "error"}
	for _, r := range rules {
		var first *issue.Issue
		ok := false
		for k := range issues {
			if issues[k].RuleID == r.ID {
				if first == nil {
					first = &issues[k]
				}
				x := issues[k]
				if r.FullDescription != nil && r.FullDescription.Text == x.What && r.DefaultConfiguration != nil && r.DefaultConfiguration.Level == levels[x.Severity] &&
					r.Properties.Precision == strings.ToLower(x.Confidence.String()) && core.Join(r.Properties.Tags) == core.Join([]string{"security", x.Severity.String()}) &&
					r.Help != nil && strings.Contains(r.Help.Text, x.What) {
					ok = true
				}
			}
		}
		if !ok {
			return fmt.Sprintf("the entry of rule %s describes none of its findings: %+v", r.ID, r)
		}
		want := ""
		if first.Cwe != nil {
			want = first.Cwe.ID
		}
		got := ""
		for _, rel := range r.Relationships {
			if rel == nil {
				return "null relationship of rule " + r.ID
			}
			got += rel.Target.ID
			t, ok := taxa[rel.Target.ID]
			if !ok {
				return "weakness not in the taxonomy: " + rel.Target.ID
			}
			if t.GUID != rel.Target.GUID {
				return "weakness with another GUID: " + rel.Target.ID
			}
		}
		if got != want {
			return fmt.Sprintf("rule %s refers to weakness %q instead of %q", r.ID, got, want)
		}
	}
	for _, i := range issues {
		if i.Cwe != nil {
			if _, ok := taxa[i.Cwe.ID]; !ok {
				return "weakness not listed: " + i.Cwe.ID
			}
		}
	}
	if len(run.Results) != len(issues) {
		return fmt.Sprintf("%d results for %d findings", len(run.Results), len(issues))
	}
	for k, i := range issues {
		g := run.Results[k]
		at := fmt.Sprintf("result %d (%s %s:%s): ", k, i.RuleID, i.File, i.Line)
		if g.RuleID != i.RuleID {
			return at + "rule " + g.RuleID
		}
		// an absent index means that the rule ID decides, or entry 0 for readers which take it as 0
		idx := 0
		if g.RuleIndex != nil {
			idx = *g.RuleIndex
		}
		if idx < 0 || idx >= len(rules) || rules[idx].ID != i.RuleID {
			return fmt.Sprintf("%srule index %d among %q", at, idx, ids)
		}
		if g.Level != levels[i.Severity] {
			return at + "level " + g.Level
		}
		if g.Message.Text != i.What {
			return at + "message " + g.Message.Text
		}
		var gs, ws []string
		for _, s := range g.Suppressions {
			gs = append(gs, fmt.Sprintf("%q", []string{s.Kind, s.Justification}))
		}
		for _, s := range i.Suppressions {
			ws = append(ws, fmt.Sprintf("%q", []string{s.Kind, s.Justification}))
		}
		if core.Join(gs) != core.Join(ws) {
			return at + "suppressions " + core.Join(gs)
		}
		fix := ""
		for _, f := range g.Fixes {
			fix += f.Description.Text + f.Description.Markdown
		}
		if fix != i.Autofix {
			return at + "fix " + fix
		}
		if len(g.Locations) != 1 {
			return fmt.Sprintf("%s%d locations", at, len(g.Locations))
		}
		l := g.Locations[0].PhysicalLocation
		if acc := uriOf(i.File); len(acc) > 0 {
			un, err := url.PathUnescape(l.ArtifactLocation.URI)
			if !has(acc, l.ArtifactLocation.URI) && !(err == nil && has(acc, un)) {
				return fmt.Sprintf("%suri %q, want one of %q", at, l.ArtifactLocation.URI, acc)
			}
		}
		s, e := lineRange(i.Line)
		col, _ := strconv.Atoi(i.Col)
		r := l.Region
		if r.StartLine != s || r.EndLine != e || r.StartColumn != col {
			return fmt.Sprintf("%sregion %+v", at, r)
		}
		want := strings.TrimSpace(strings.Join(r02Snippet(i), "\n"))
		got := ""
		if r.Snippet != nil {
			got = strings.TrimSpace(r.Snippet.Text)
		}
		if got != want {
			return fmt.Sprintf("%ssnippet %q, want %q", at, got, want)
		}
	}
	return ""
}

// r02Uris are the paths of f relative to the roots which contain it.
func r02Uris(roots []string) func(string) []string {
	return func(f string) []string {
		var out []string
		for _, r := range roots {
			p := strings.TrimSuffix(r, "/") + "/"
			if strings.HasPrefix(f, p) {
				out = append(out, strings.TrimPrefix(f, p))
			}
		}
		return out
	}
}

func r02Alphabet() []issue.Issue {
	var out []issue.Issue
	add := func(rule, file, line, col, code string, sev, conf issue.Score, sup ...issue.SuppressionInfo) {
		out = append(out, issue.Issue{Severity: sev, Confidence: conf, RuleID: rule, What: "message of " + rule, File: file, Line: line, Col: col, Code: code, Cwe: issue.GetCweByRule(rule), Suppressions: sup})
	}
	in := func(j string) issue.SuppressionInfo { return issue.SuppressionInfo{Kind: "inSource", Justification: j} }
	add("G101", "/r/p/a.go", "3", "7", "2: a\n3: \tb := 1\n4: c\n", issue.High, issue.Low)
	add("G201", "/r/p/b/c.go", "9-11", "2", "8: x\n9: y(\n10: \tz,\n11: )\n12: \n", issue.Medium, issue.High)
	add("G204", "/r/p2/a.go", "1", "1", "1: package p\n", issue.Low, issue.Medium, in("x"), issue.SuppressionInfo{Kind: "external", Justification: "Globally suppressed."})
	add("G204", "/r/q/p/r/p/a.go", "10-12", "80", "9: a\n10: \n11: b\n12: c\n13: d\n", issue.Low, issue.Medium, in(""))
	add("G999", "/r/p/a.go", "100", "12", "99: 100: x\n100: y\n101: z\n", issue.High, issue.High)
	add("G401", "/r/q/a b%41.go", "2", "3", "1: 2: \n2: q // 2: r\n3: \n", issue.High, issue.Medium)
	// the same rule with another message, severity and weakness
	x := out[0]
	x.What, x.Severity, x.File = "another message", issue.Low, "/r/q/z.go"
	out = append(out, x)
	y := out[1]
	y.RuleID, y.Cwe = "G1", nil
	y.Autofix = "some `fix`"
	out = append(out, y)
	return out
}

var r02Roots = [][]string{
	{"/r/p", "/r/p2", "/r/q"}, {"/r/q", "/r/p2", "/r/p"}, {"/r"}, {"/"}, {"/r", "/r/p"}, {"/r/p", "/r"}, {"/r/q/p", "/r/p2", "/r/p"},
}

func init() {
	core.Register(&core.Check{
		ID: "R02", Level: "model_checking",
		Rule:    "a state is a distinct report; every sequence of findings is written as SARIF by the real writer and read back: index, rule entries, taxonomy, location, region, snippet, level, suppressions and fix of each result against its finding",
		Bounds:  "all sequences up to length 4 (quick; length 4 with one root list) / 5 (thorough) over 8 findings of 7 rules (unknown rules, no weakness, same rule with another message), with 7 root path lists in either order, nested, and with a common name prefix; lists of up to all rules and 60 unknown ones in several orders, up to 9 times each; up to 1000 suppressions of a finding",
		Prepare: func(e *core.Env) error { return nil },
		Units: func(e *core.Env) []string {
			var u []string
			for i := 0; i < 8; i++ {
				for j := 0; j < 8; j++ {
					u = append(u, fmt.Sprintf("%d %d", i, j))
				}
			}
			return append(u, "short", "many")
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			al := r02Alphabet()
			var judge func(id string, is []issue.Issue, roots []string)
			check := func(seq []int, roots []string) {
				var is []issue.Issue
				for _, k := range seq {
					is = append(is, al[k])
				}
				judge(fmt.Sprint(seq, roots), is, roots)
			}
			judge = func(id string, is []issue.Issue, roots []string) {
				c := r01Case{issues: is}
				d := c.data()
				var b bytes.Buffer
				var err error
				r.Mark(id)
				if p := core.Protect(func() { err = report.CreateReport(&b, "sarif", false, roots, d) }); p != nil {
					r.Violate(id, id, "SARIF of %s: panic %v", id, p)
					return
				}
				r.Evals++
				r.Transitions += len(is)
				if err != nil {
					r.Violate(id, id, "SARIF of %s: %v", id, err)
					return
				}
				r.State(b.String())
				if bad := r02Judge(is, r02Uris(roots), b.String()); bad != "" {
					r.Violate("SARIF "+id, id, "SARIF of findings %s with roots %q: %.2000s", id, roots, bad)
				}
			}
			depth := 4
			if e.Thorough {
				depth = 5
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				for n, roots := range r02Roots {
					if len(seq) < depth || n == 0 {
						check(seq, roots)
					}
				}
				if len(seq) < depth {
					for k := range al {
						rec(append(append([]int{}, seq...), k))
					}
				}
			}
			if unit == "many" { // findings of many rules, in several orders, each several times
				var rules []string
				for id := range r05Class {
					rules = append(rules, id)
				}
				sort.Strings(rules)
				for j := range 60 {
					rules = append(rules, fmt.Sprintf("G%d", 800+j))
				}
				gcd := func(a, b int) int {
					for b > 0 {
						a, b = b, a%b
					}
					return a
				}
				for n := 1; n <= len(rules); n++ {
					if n > 20 && n%9 > 1 && !e.Thorough {
						continue
					}
					for _, step := range []int{1, 7, n - 1, n/2 + 1} { // ascending, mixed, descending
						if step < 1 || gcd(step, n) != 1 {
							continue
						}
						for _, times := range []int{1, 2, 9} {
							var is []issue.Issue
							for j := range n * times {
								x := al[j%len(al)]
								x.RuleID = rules[j*step%n]
								x.Cwe = issue.GetCweByRule(x.RuleID)
								x.What = "message of " + x.RuleID
								is = append(is, x)
							}
							judge(fmt.Sprintf("of %d rules in steps of %d, %d times", n, step, times), is, r02Roots[n%3])
						}
					}
				}
				for _, n := range []int{3, 10, 100, 1000} { // many suppressions
					x := al[0]
					for j := range n {
						x.Suppressions = append(x.Suppressions, issue.SuppressionInfo{Kind: []string{"inSource", "external"}[j%2], Justification: fmt.Sprint(j / 3)})
					}
					judge(fmt.Sprintf("with %d suppressions", n), []issue.Issue{al[1], x, al[2]}, r02Roots[0])
				}
				return
			}
			if unit == "short" {
				for _, roots := range r02Roots {
					check(nil, roots)
					for k := range al {
						check([]int{k}, roots)
					}
				}
				return
			}
			var i, j int
			fmt.Sscan(unit, &i, &j)
			rec([]int{i, j})
			r.Sample("sequences starting with " + unit)
		},
	})
}
