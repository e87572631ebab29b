package checks

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"verifharness/core"
)

// R01: every list of findings over an alphabet with hostile field values is rendered by the real report writers in
// every format (and every sequence of two formats) and read back with the consumer's parser.

var r01Formats = []string{"json", "yaml", "csv", "junit-xml", "html", "text", "sonarqube", "golint", "sarif", "color"}

const r01Root = "/r/p"

var r01Hostile = []string{
	"", " ", "plain text", `<b>&amp;"'</b>`, "a, b; \"c\"", "]]> </failure> --> </script>", "tab\there", "\\n \\u0041 %s {{.}} $x", "é 世界 \u2028 🎉 e\u0301",
	"- : # ? | > * & ! % @ `", "null", "true", "1e3", "~", "=1+1", "0x10", "<info>x</>", "(Rule:G1, Severity:LOW)",
}

// r01Block are hostile values for fields which may contain line breaks.
var r01Block = []string{
	"3: a\n", "2: x\n3: \tif a < b && c > d { s := \"]]>\" }\n4: }\n", "9: \n10: a\n11: \n", "3: \x0c\x01 \x7f\n", "3: `raw\n4: 5: y`\n", "3: trailing  \n4:\n", "1: no newline at the end",
}

func r01Base() []issue.Issue {
	w := func(rule string) *cwe.Weakness { return issue.GetCweByRule(rule) }
	return []issue.Issue{
		{Severity: issue.High, Confidence: issue.High, Cwe: w("G101"), RuleID: "G101", What: "Potential hardcoded credentials", File: "/r/p/a.go", Code: "2: a\n3: b\n4: c\n", Line: "3", Col: "7"},
		{Severity: issue.Medium, Confidence: issue.Low, Cwe: w("G204"), RuleID: "G204", What: "Subprocess launched with a < b & \"c\"", File: "/r/p/sub/b c.go", Code: "9: x\n10: y(\n11: z)\n12: \n", Line: "10-11", Col: "2", Autofix: "use <x> & ]]> `y`\nsecond line"},
		{Severity: issue.Low, Confidence: issue.Medium, Cwe: w("G501"), RuleID: "G501", What: "Blocklisted import crypto/md5: weak cryptographic primitive", File: "/r/p/é<&>'.go", Code: "1: package p\n", Line: "1", Col: "1", NoSec: true},
		{Severity: issue.High, Confidence: issue.Low, Cwe: nil, RuleID: "G999", What: "Potential hardcoded credentials", File: "/r/p/a.go", Code: "", Line: "100-101", Col: "33"},
		{Severity: issue.Medium, Confidence: issue.High, Cwe: w("G401"), RuleID: "G401", What: "Use of weak cryptographic primitive", File: "/r/p/x,\"y\".go", Code: "7: \"q\",r\n", Line: "7", Col: "12",
			Suppressions: []issue.SuppressionInfo{{Kind: "inSource", Justification: "because <a> & \"b\""}}},
		{Severity: issue.Low, Confidence: issue.Low, Cwe: w("G115"), RuleID: "G115", What: "integer overflow conversion uint64 -> int8", File: "/r/p/a.go", Code: "3: b\n", Line: "3", Col: "7", NoSec: true,
			Suppressions: []issue.SuppressionInfo{{Kind: "external", Justification: "Globally suppressed."}, {Kind: "inSource"}}},
	}
}

type r01Case struct {
	name   string
	issues []issue.Issue
	errors map[string][]gosec.Error
}

func (c r01Case) data() *gosec.ReportInfo {
	is := []*issue.Issue{}
	for i := range c.issues {
		x := c.issues[i]
		is = append(is, &x)
	}
	errs := map[string][]gosec.Error{}
	for k, v := range c.errors {
		errs[k] = append([]gosec.Error{}, v...)
	}
	return gosec.NewReportInfo(is, &gosec.Metrics{NumFiles: 3, NumLines: 1234, NumNosec: 2, NumFound: len(is)}, errs).WithVersion("v1.2.3")
}

func r01Render(format string, d *gosec.ReportInfo) (string, error) {
	var b bytes.Buffer
	color := format == "color"
	if color {
		format = "text"
	}
	var err error
	if p := core.Protect(func() { err = report.CreateReport(&b, format, color, []string{r01Root}, d) }); p != nil {
		return "", fmt.Errorf("panic: %v", p)
	}
	return b.String(), err
}

func rel(f string) string { return strings.TrimPrefix(f, r01Root+"/") }

func lineRange(l string) (int, int) {
	s, e, ok := strings.Cut(l, "-")
	a, _ := strconv.Atoi(s)
	b := a
	if ok {
		b, _ = strconv.Atoi(e)
	}
	return a, b
}

// r01XMLText is what an XML document can hold of s.
func r01XMLText(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 {
			return r
		}
		return '\uFFFD'
	}, s)
}

var r01ANSI = regexp.MustCompile("\x1b\\[[0-9;]*m")

// r01Text is the reference text report.
func r01Text(c r01Case, shown []issue.Issue) string {
	var b strings.Builder
	for _, i := range shown {
		cw := "CWE"
		if i.Cwe != nil {
			cw = "CWE-" + i.Cwe.ID
		}
		ns := ""
		if i.NoSec {
			ns = " (NoSec)"
		}
		fmt.Fprintf(&b, "\n[%s:%s] - %s%s (%s): %s (Confidence: %s, Severity: %s)\n", i.File, i.Line, i.RuleID, ns, cw, i.What, i.Confidence, i.Severity)
		s, e := lineRange(i.Line)
		code := i.Code
		if code != "" {
			for _, l := range strings.Split(strings.TrimSuffix(code, "\n"), "\n") {
				n, _, ok := strings.Cut(l, ":")
				k, err := strconv.Atoi(n)
				if ok && err == nil && k == s && s <= e {
					b.WriteString("  > ")
					s++
				} else {
					b.WriteString("    ")
				}
				b.WriteString(l + "\n")
			}
		}
		fmt.Fprintf(&b, "\nAutofix: %s\n", i.Autofix)
	}
	return b.String()
}

// r01Judge reads the report back and returns what is wrong with it ("" if nothing).
func r01Judge(format string, c r01Case, out string) string {
	var open []issue.Issue
	for _, i := range c.issues {
		if len(i.Suppressions) == 0 {
			open = append(open, i)
		}
	}
	cweOf := func(i issue.Issue) string {
		if i.Cwe == nil {
			return ""
		}
		return i.Cwe.ID
	}
	jsonReport := func(raw string, want []issue.Issue) string {
		var got struct {
			Errors map[string][]gosec.Error `json:"Golang errors"`
			Issues []struct {
				Severity, Confidence string
				Cwe                  *struct{ ID, URL string }
				RuleID               string `json:"rule_id"`
				Details, File, Code  string
				Line, Column         string
				Nosec                bool
				Suppressions         []issue.SuppressionInfo
				Autofix              string
			}
			Stats        gosec.Metrics
			GosecVersion string
		}
		dec := json.NewDecoder(strings.NewReader(raw))
		dec.DisallowUnknownFields()
		if err := dec.Decode(&got); err != nil {
			return "not readable: " + err.Error()
		}
		var g, w []string
		for _, i := range got.Issues {
			id, url := "", ""
			if i.Cwe != nil {
				id, url = i.Cwe.ID, i.Cwe.URL
			}
			g = append(g, fmt.Sprintf("%q", []string{i.Severity, i.Confidence, id, url, i.RuleID, i.Details, i.File, i.Code, i.Line, i.Column, fmt.Sprint(i.Nosec), fmt.Sprint(i.Suppressions), i.Autofix}))
		}
		for _, i := range want {
			id, url := cweOf(i), ""
			if id != "" {
				url = "https://cwe.mitre.org/data/definitions/" + id + ".html"
			}
			w = append(w, fmt.Sprintf("%q", []string{i.Severity.String(), i.Confidence.String(), id, url, i.RuleID, i.What, i.File, i.Code, i.Line, i.Col, fmt.Sprint(i.NoSec), fmt.Sprint(i.Suppressions), i.Autofix}))
		}
		if core.Join(g) != core.Join(w) {
			return diffLists(w, g)
		}
		if fmt.Sprint(got.Errors) != fmt.Sprint(c.data().Errors) || got.Stats != *c.data().Stats || got.GosecVersion != "v1.2.3" {
			return fmt.Sprintf("errors, stats or version: %v %v %v", got.Errors, got.Stats, got.GosecVersion)
		}
		return ""
	}
	switch format {
	case "json":
		return jsonReport(out, c.issues)
	case "html":
		_, rest, ok := strings.Cut(out, "var data = ")
		if !ok || strings.Count(out, "var data = ") != 1 {
			return "no data in the page"
		}
		raw, _, _ := strings.Cut(rest, "\n")
		if strings.Contains(strings.ToLower(raw), "</script") || strings.Contains(raw, "<!--") {
			return "the data ends the script: " + raw
		}
		return jsonReport(strings.TrimSuffix(strings.TrimSpace(raw), ";"), open)
	case "yaml":
		var got gosec.ReportInfo
		if err := yaml.Unmarshal([]byte(out), &got); err != nil {
			return "not readable: " + err.Error()
		}
		var g, w []string
		for _, i := range got.Issues {
			g = append(g, fmt.Sprintf("%q %v", []string{cweOf(*i), i.RuleID, i.What, i.File, i.Code, i.Line, i.Col, i.Autofix}, []any{int(i.Severity), int(i.Confidence), i.NoSec, len(i.Suppressions)}))
		}
		for _, i := range open {
			w = append(w, fmt.Sprintf("%q %v", []string{cweOf(i), i.RuleID, i.What, i.File, i.Code, i.Line, i.Col, i.Autofix}, []any{int(i.Severity), int(i.Confidence), i.NoSec, 0}))
		}
		if core.Join(g) != core.Join(w) {
			return diffLists(w, g)
		}
		if fmt.Sprint(got.Errors) != fmt.Sprint(c.data().Errors) || *got.Stats != *c.data().Stats || got.GosecVersion != "v1.2.3" {
			return fmt.Sprintf("errors, stats or version: %v %v %v", got.Errors, got.Stats, got.GosecVersion)
		}
	case "csv":
		rows, err := csv.NewReader(strings.NewReader(out)).ReadAll()
		if err != nil {
			return "not readable: " + err.Error()
		}
		var g, w []string
		for _, x := range rows {
			g = append(g, fmt.Sprintf("%q", x))
		}
		for _, i := range open {
			id := "CWE-0000"
			if i.Cwe != nil {
				id = "CWE-" + i.Cwe.ID
			}
			w = append(w, fmt.Sprintf("%q", []string{i.File, i.Line, i.What, i.Severity.String(), i.Confidence.String(), i.Code, id}))
		}
		if core.Join(g) != core.Join(w) {
			return diffLists(w, g)
		}
	case "junit-xml":
		var got struct {
			XMLName xml.Name `xml:"testsuites"`
			Suites  []struct {
				Name  string `xml:"name,attr"`
				Tests int    `xml:"tests,attr"`
				Cases []struct {
					Name    string `xml:"name,attr"`
					Failure []struct {
						Message string `xml:"message,attr"`
						Text    string `xml:",chardata"`
						Inner   []struct {
							XMLName xml.Name
						} `xml:",any"`
					} `xml:"failure"`
				} `xml:"testcase"`
			} `xml:"testsuite"`
		}
		dec := xml.NewDecoder(strings.NewReader(out))
		dec.Strict = true
		if err := dec.Decode(&got); err != nil {
			return "not readable: " + err.Error()
		}
		if rest := strings.TrimSpace(out[dec.InputOffset():]); rest != "" {
			return "text after the document: " + rest
		}
		var g, w []string
		for _, s := range got.Suites {
			if s.Tests != len(s.Cases) {
				return fmt.Sprintf("suite %q counts %d of %d tests", s.Name, s.Tests, len(s.Cases))
			}
			for _, t := range s.Cases {
				for _, f := range t.Failure {
					g = append(g, fmt.Sprintf("%q", []string{s.Name, t.Name, f.Text, fmt.Sprint(len(f.Inner))}))
				}
			}
		}
		var order []string
		by := map[string][]issue.Issue{}
		for _, i := range open {
			if by[i.What] == nil {
				order = append(order, i.What)
			}
			by[i.What] = append(by[i.What], i)
		}
		for _, o := range order {
			for _, i := range by[o] {
				id := "CWE"
				if i.Cwe != nil {
					id = i.Cwe.ID
				}
				text := fmt.Sprintf("Results:\n[%s:%s] - %s (Confidence: %d, Severity: %d, CWE: %s)\n> %s\n Autofix: %s", i.File, i.Line, i.What, i.Confidence, i.Severity, id, i.Code, i.Autofix)
				w = append(w, fmt.Sprintf("%q", []string{r01XMLText(i.What), r01XMLText(i.File), r01XMLText(text), "0"}))
			}
		}
		if core.Join(g) != core.Join(w) {
			return diffLists(w, g)
		}
	case "golint":
		w := ""
		for _, i := range open {
			s, _ := lineRange(i.Line)
			cw := ""
			if i.Cwe != nil {
				cw = "[CWE-" + i.Cwe.ID + "] "
			}
			w += fmt.Sprintf("%s:%d:%s: %s%s (Rule:%s, Severity:%s, Confidence:%s)\n", i.File, s, i.Col, cw, i.What, i.RuleID, i.Severity, i.Confidence)
		}
		if w != out {
			return fmt.Sprintf("want %q\ngot  %q", w, out)
		}
	case "text", "color":
		body := out
		if format == "color" {
			body = r01ANSI.ReplaceAllString(out, "")
		}
		want := r01Text(c, open)
		i := strings.Index(body, want)
		if i < 0 || len(open) > 0 && strings.Count(body, "\n\nAutofix: ")+strings.Count(body, ")\n\nAutofix: ") < len(open) {
			return fmt.Sprintf("want %q\ngot  %q", want, body)
		}
		if len(open) == 0 {
			i = max(0, strings.LastIndex(body, "Summary:"))
		}
		head, tail := body[:i], body[i+len(want):]
		if strings.Contains(tail, "Autofix: ") || len(open) > 0 && strings.Contains(head, "Autofix: ") {
			return fmt.Sprintf("additional findings in %q", body)
		}
		for f, es := range c.errors {
			if !strings.Contains(head, "Golang errors in file: ["+f+"]:") {
				return "errors of " + f + " missing"
			}
			for _, e := range es {
				if !strings.Contains(head, fmt.Sprintf("> [line %d : column %d] - %s\n", e.Line, e.Column, e.Err)) {
					return "error missing: " + e.Err
				}
			}
		}
		sum := fmt.Sprintf("Summary:\n  Gosec  : v1.2.3\n  Files  : 3\n  Lines  : 1234\n  Nosec  : 2\n  Issues : %d\n", len(c.issues))
		if !strings.Contains(tail, sum) {
			return fmt.Sprintf("summary %q", tail)
		}
	case "sonarqube":
		var got struct {
			Issues []struct {
				EngineID        string `json:"engineId"`
				RuleID          string `json:"ruleId"`
				Type, Severity  string
				EffortMinutes   int
				PrimaryLocation struct {
					Message, FilePath string
					TextRange         struct{ StartLine, EndLine int }
				}
			}
		}
		if err := json.Unmarshal([]byte(out), &got); err != nil {
			return "not readable: " + err.Error()
		}
		var g, w []string
		for _, i := range got.Issues {
			l := i.PrimaryLocation
			g = append(g, fmt.Sprintf("%q %v", []string{i.EngineID, i.RuleID, i.Type, i.Severity, l.Message, l.FilePath}, l.TextRange))
		}
		sev := map[issue.Score]string{issue.Low: "MINOR", issue.Medium: "MAJOR", issue.High: "BLOCKER"}
		for _, i := range open {
			s, e := lineRange(i.Line)
			w = append(w, fmt.Sprintf("%q %v", []string{"gosec", i.RuleID, "VULNERABILITY", sev[i.Severity], i.What, rel(i.File)}, struct{ S, E int }{s, e}))
		}
		if core.Join(g) != core.Join(w) {
			return diffLists(w, g)
		}
	case "sarif":
		return r02Judge(c.issues, func(f string) []string { return []string{rel(f)} }, out)
	}
	return ""
}

func r01Check(c r01Case, r *core.Rec, pairs bool) {
	r.Mark(c.name)
	alone := map[string]string{}
	for _, f := range r01Formats {
		d := c.data()

		out, err := r01Render(f, d)
		r.Evals++
		r.Transitions++
		if err != nil {
			r.Violate(c.name+" "+f, c.name, "%s of %s: %v", f, c.name, err)
			continue
		}
		alone[f] = out
		r.State(f + core.Join([]string{out}))
		if bad := r01Judge(f, c, out); bad != "" {
			r.Violate(c.name+" "+f, c.name, "%s of %s\n%.1500s", f, c.name, bad)
		}
		if d2 := c.data(); !reflect.DeepEqual(d, d2) {
			r.Violate(c.name+" changed by "+f, c.name, "writing %s changed the findings of %s (%d before, %d after)", f, c.name, len(d2.Issues), len(d.Issues))
		}
	}
	if !pairs {
		return
	}
	for _, a := range r01Formats {
		for _, b := range r01Formats {
			d := c.data()
			_, err := r01Render(a, d)
			out, err2 := r01Render(b, d)
			r.Evals++
			r.Transitions += 2
			if err == nil && err2 == nil && out != alone[b] {
				r.Violate(c.name+" "+b+" after "+a, c.name, "%s report of %s differs after a %s report\nalone %.600q\nafter %.600q", b, c.name, a, alone[b], out)
			}
		}
	}
}

// r01Cases enumerates the lists of unit k of n.
func r01Cases(e *core.Env) []r01Case {
	var out []r01Case
	base := r01Base()
	errs := map[string][]gosec.Error{"/r/p/a.go": {{Line: 1, Column: 2, Err: "expected <x> & \"y\""}, {Line: 1, Column: 3, Err: "é: %s"}}, "/r/p/b, c.go": {{Err: "z"}}}
	depth := 2
	if e.Thorough {
		depth = 4
	}
	var rec func(name string, l []issue.Issue)
	rec = func(name string, l []issue.Issue) {
		out = append(out, r01Case{"list" + name, append([]issue.Issue{}, l...), nil})
		if len(l) < depth {
			for i := range base {
				rec(name+fmt.Sprint(" ", i), append(l, base[i]))
			}
		}
	}
	rec("", nil)
	out = append(out, r01Case{"errors only", nil, errs}, r01Case{"errors and findings", base, errs})
	// many findings, of few and of many rules, files and messages
	for _, n := range []int{3, 7, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1025} {
		for k, f := range []func(x *issue.Issue, j int){
			func(x *issue.Issue, j int) { x.Line = strconv.Itoa(j + 1); x.Code = fmt.Sprintf("%d: x\n", j+1) },
			func(x *issue.Issue, j int) { x.File = fmt.Sprintf("/r/p/f%d.go", j) },
			func(x *issue.Issue, j int) {
				x.RuleID, x.What = fmt.Sprintf("G%d", 101+j), fmt.Sprintf("message %d", j)
			},
			func(x *issue.Issue, j int) { x.What, x.Col = fmt.Sprintf("message %d", j%40), strconv.Itoa(j+1) },
		} {
			if n > 260 && k != n/500%2 && !e.Thorough {
				continue
			}
			var l []issue.Issue
			for j := range n {
				x := base[j%len(base)]
				f(&x, j)
				l = append(l, x)
			}
			out = append(out, r01Case{fmt.Sprintf("many %d %d", n, k), l, nil})
		}
	}
	for _, n := range []int{100, 1000, 5000, 70000} { // long values
		for _, f := range []func(*issue.Issue, string){func(i *issue.Issue, s string) { i.What = s }, func(i *issue.Issue, s string) { i.Autofix = s }, func(i *issue.Issue, s string) { i.Code = "3: " + s + "\n" },
			func(i *issue.Issue, s string) {
				i.Suppressions = []issue.SuppressionInfo{{Kind: "inSource", Justification: s}}
			}, func(i *issue.Issue, s string) { i.File = "/r/p/" + strings.ReplaceAll(s[:n/2], " ", "/") + "/z.go" }} {
			x := base[0]
			f(&x, strings.TrimSpace(strings.Repeat("long éx ", n/9))+strings.Repeat("z", n))
			out = append(out, r01Case{fmt.Sprintf("long %d", n), []issue.Issue{base[1], x, base[2]}, nil})
		}
	}
	// every hostile value in every field, alone and beside an ordinary finding
	fields := map[string]func(*issue.Issue, string){
		"what": func(i *issue.Issue, s string) { i.What = s }, "file": func(i *issue.Issue, s string) { i.File = "/r/p/" + s + ".go" },
		"rule": func(i *issue.Issue, s string) { i.RuleID = "G" + s }, "autofix": func(i *issue.Issue, s string) { i.Autofix = s },
		"code": func(i *issue.Issue, s string) { i.Code = "3: " + s + "\n" }, "just": func(i *issue.Issue, s string) {
			i.Suppressions = []issue.SuppressionInfo{{Kind: "inSource", Justification: s}}
		},
	}
	for _, f := range []string{"what", "file", "rule", "autofix", "code", "just"} {
		for hi, h := range r01Hostile {
			x := base[0]
			if f == "what" && h == "" || f == "file" && h == "" {
				continue
			}
			fields[f](&x, h)
			out = append(out, r01Case{fmt.Sprintf("%s %d", f, hi), []issue.Issue{x}, nil}, r01Case{fmt.Sprintf("%s %d and another", f, hi), []issue.Issue{base[1], x, base[0]}, nil})
			if e.Thorough {
				for _, f2 := range []string{"what", "file", "autofix", "code"} {
					for hj, h2 := range r01Hostile {
						if f2 == f || h2 == "" {
							continue
						}
						y := x
						fields[f2](&y, h2)
						out = append(out, r01Case{fmt.Sprintf("%s %d %s %d", f, hi, f2, hj), []issue.Issue{y}, nil})
					}
				}
			}
		}
	}
	for bi, b := range r01Block {
		for _, f := range []string{"code", "autofix"} {
			for _, ln := range []string{"1", "3", "3-4", "10", "9-11", "2-4"} {
				x := base[0]
				x.Line = ln
				if s, _ := lineRange(ln); f == "code" && !strings.Contains("\n"+b, fmt.Sprintf("\n%d:", s)) {
					continue // the snippet of a finding shows its first line
				}
				if f == "code" {
					x.Code = b
				} else {
					x.Autofix = b
				}
				out = append(out, r01Case{fmt.Sprintf("%s block %d line %s", f, bi, ln), []issue.Issue{x, base[2]}, nil})
			}
		}
	}
	for _, sev := range []issue.Score{issue.Low, issue.Medium, issue.High} {
		for _, conf := range []issue.Score{issue.Low, issue.Medium, issue.High} {
			for _, ns := range []bool{false, true} {
				for _, c := range []string{"", "G101", "G407"} {
					x := base[0]
					x.Severity, x.Confidence, x.NoSec, x.Cwe = sev, conf, ns, nil
					if c != "" {
						x.Cwe = issue.GetCweByRule(c)
					}
					out = append(out, r01Case{fmt.Sprintf("scores %v %v %v %s", sev, conf, ns, c), []issue.Issue{x}, nil})
				}
			}
		}
	}
	return out
}

// r01Pages executes the scripts of the HTML reports and compares what the pages show with the findings.
func r01Pages(e *core.Env, r *core.Rec) {
	var cases []r01Case
	var docs []string
	for _, c := range r01Cases(e) {
		if len(c.issues) > 3 && !strings.HasPrefix(c.name, "errors") {
			continue
		}
		out, err := r01Render("html", c.data())
		if err != nil {
			r.Violate(c.name+" page", c.name, "html of %s: %v", c.name, err)
			continue
		}
		cases, docs = append(cases, c), append(docs, out)
	}
	raw, err := json.Marshal(docs)
	if err != nil {
		core.Infra("%v", err)
	}
	in := filepath.Join(e.Scratch, "pages.json")
	if err := os.WriteFile(in, raw, 0o600); err != nil {
		core.Infra("%v", err)
	}
	cmd := exec.Command("node", filepath.Join(e.Verif, "harness/page/render.js"), in)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		core.Infra("node: %v", err)
	}
	var got []struct {
		Text, Error string
		Codes       []string
	}
	if err := json.Unmarshal(out, &got); err != nil || len(got) != len(cases) {
		core.Infra("node: %v, %d answers for %d pages", err, len(got), len(cases))
	}
	for k, c := range cases {
		r.Evals++
		r.Transitions++
		g := got[k]
		if g.Error != "" {
			r.Violate(c.name+" page", c.name, "the html page of %s fails: %s", c.name, g.Error)
			continue
		}
		n := 0
		text := g.Text
		for _, i := range c.issues {
			if len(i.Suppressions) > 0 {
				continue
			}
			cw := "CWE"
			if i.Cwe != nil {
				cw = "CWE-" + i.Cwe.ID
			}
			if n < len(g.Codes) && g.Codes[n] != i.Code {
				r.Violate(c.name+" page", c.name, "the html page of %s shows for finding %d the code %q instead of %q", c.name, n, g.Codes[n], i.Code)
			}
			n++
			waived := []string{}
			if i.NoSec {
				waived = []string{"WAIVED"}
			}
			for _, part := range append(append([]string{i.File, i.Line, i.RuleID, cw, i.What}, waived...), i.Severity.String(), i.Confidence.String(), i.Code) {
				at := strings.Index(text, part)
				if at < 0 {
					r.Violate(c.name+" page", c.name, "the html page of %s does not show %q of finding %d\n%.1500q", c.name, part, n, g.Text)
					break
				}
				text = text[at+len(part):]
			}
		}
		if n != len(g.Codes) {
			r.Violate(c.name+" page", c.name, "the html page of %s shows %d of %d findings", c.name, len(g.Codes), n)
		}
	}
}

func init() {
	core.Register(&core.Check{
		ID: "R01", Level: "model_checking",
		Rule:    "a state is a distinct rendered report; every findings list is rendered by the real writers in every format, and in every sequence of two formats, and read back with the consumer's parser against the list",
		Bounds:  "all lists up to length 2 (quick) / 4 (thorough) over 6 findings; lists of 22 lengths up to 1025 of equal and different files, rules and messages; values of up to 140 kB; 18 hostile values in 6 fields (thorough: in every pair of fields), 7 multi-line values at 6 line ranges; all severity, confidence, nosec and weakness combinations; 10 formats, all 100 format pairs for every list up to length 2",
		Prepare: func(e *core.Env) error { return nil },
		Units: func(e *core.Env) []string {
			var u []string
			for i := 0; i < 64; i++ {
				u = append(u, fmt.Sprint(i))
			}
			return append(u, "page")
		},
		Run: func(e *core.Env, unit string, r *core.Rec) {
			if unit == "page" {
				r01Pages(e, r)
				return
			}
			k, _ := strconv.Atoi(unit)
			for i, c := range r01Cases(e) {
				if i%64 == k {
					r01Check(c, r, strings.HasPrefix(c.name, "list") && len(c.issues) < 3 || strings.HasPrefix(c.name, "errors"))
					r.Sample(c.name)
				}
			}
		},
	})
}
