package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

// StdPkgs are the standard packages generated programs may import.
var StdPkgs = strings.Fields(`archive/tar archive/zip bufio bytes compress/bzip2 compress/flate compress/gzip compress/lzw compress/zlib
 context crypto crypto/aes crypto/cipher crypto/des crypto/md5 crypto/rand crypto/rc4 crypto/rsa crypto/sha1 crypto/sha256 crypto/tls crypto/x509
 database/sql encoding/base64 encoding/hex encoding/json errors fmt hash html/template io io/ioutil io/fs log math math/big math/rand math/rand/v2 net net/http net/http/cgi
 net/http/pprof net/url os os/exec path path/filepath regexp runtime sort strconv strings sync syscall text/template time unsafe`)

// PrepareStd resolves export data of the standard packages once (parent side).
func PrepareStd(e *Env) error {
	m, err := exportMap(e)
	if err != nil {
		return err
	}
	b, _ := json.Marshal(m)
	f := filepath.Join(e.Scratch, "export.json")
	e.Data["export"] = f
	return os.WriteFile(f, b, 0o600)
}

func exportMap(e *Env) (map[string]string, error) {
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, StdPkgs...)...)
	cmd.Dir = filepath.Join(e.Verif, "harness")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list -export: %v %s", err, eb.String())
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(l, "\t"); ok {
			m[p] = f
		}
	}
	return m, nil
}

// Stubs are third-party packages given as source, by import path.
var Stubs = map[string]string{
	"golang.org/x/crypto/ssh": `package ssh
type HostKeyCallback func() error
func InsecureIgnoreHostKey() HostKeyCallback { return nil }
func FixedHostKey(k string) HostKeyCallback { return nil }
type ClientConfig struct { User string; HostKeyCallback HostKeyCallback }
`,
	"golang.org/x/crypto/md4": `package md4
import "hash"
const Size = 16
func New() hash.Hash { return nil }
`,
	"golang.org/x/crypto/ripemd160": `package ripemd160
import "hash"
const Size = 20
func New() hash.Hash { return nil }
`,
}

// Loader type-checks generated programs in process.
type Loader struct {
	export  map[string]string
	impFset *token.FileSet
	gc      types.Importer
	cache   map[string]*types.Package
	stubs   map[string]string
	Sizes   types.Sizes
}

// NewLoader builds a loader from the prepared export map.
func NewLoader(e *Env) *Loader {
	l := &Loader{export: map[string]string{}, impFset: token.NewFileSet(), cache: map[string]*types.Package{}, stubs: map[string]string{}, Sizes: types.SizesFor("gc", "amd64")}
	b, err := os.ReadFile(e.Data["export"])
	if err != nil {
		Infra("export map: %v", err)
	}
	json.Unmarshal(b, &l.export)
	for k, v := range Stubs {
		l.stubs[k] = v
	}
	l.gc = importer.ForCompiler(l.impFset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := l.export[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	return l
}

// AddStub registers a source-only package.
func (l *Loader) AddStub(path, src string) {
	if l.stubs[path] != src {
		l.stubs[path] = src
		delete(l.cache, path)
	}
}

// Import implements types.Importer.
func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := l.cache[path]; ok {
		return p, nil
	}
	if src, ok := l.stubs[path]; ok {
		f, err := parser.ParseFile(l.impFset, "/stub/"+path+"/stub.go", src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		conf := types.Config{Importer: l, Sizes: l.Sizes}
		p, err := conf.Check(path, l.impFset, []*ast.File{f}, nil)
		if err != nil {
			return nil, err
		}
		l.cache[path] = p
		return p, nil
	}
	p, err := l.gc.Import(path)
	if err == nil {
		l.cache[path] = p
	}
	return p, err
}

// File is one source file of a generated program.
type File struct{ Name, Src string }

// Load parses and type-checks a package the way go/packages would. Any error means the generator is wrong.
func (l *Loader) Load(pkgPath string, files ...File) (*packages.Package, error) {
	fset := token.NewFileSet()
	fset.AddFile("imported", -1, l.impFset.Base()) // positions of imported objects stay resolvable
	p := &packages.Package{ID: pkgPath, PkgPath: pkgPath, Fset: fset, TypesSizes: l.Sizes}
	for _, f := range files {
		name := f.Name
		if !filepath.IsAbs(name) {
			name = "/virt/" + pkgPath + "/" + name
		}
		af, err := parser.ParseFile(fset, name, f.Src, parser.AllErrors|parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.Syntax = append(p.Syntax, af)
		p.GoFiles = append(p.GoFiles, name)
		p.CompiledGoFiles = append(p.CompiledGoFiles, name)
		p.Name = af.Name.Name
	}
	p.TypesInfo = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: l, Sizes: l.Sizes, GoVersion: "go1.23"}
	var err error
	p.Types, err = conf.Check(pkgPath, fset, p.Syntax, p.TypesInfo)
	return p, err
}

// MustLoad is Load for generators that only produce well-typed programs.
func (l *Loader) MustLoad(pkgPath string, files ...File) *packages.Package {
	p, err := l.Load(pkgPath, files...)
	if err != nil {
		s := ""
		for _, f := range files {
			s += "--- " + f.Name + "\n" + f.Src
		}
		Infra("generated program does not type-check: %v\n%s", err, s)
	}
	return p
}

// Opts configure an analyzer.
type Opts struct {
	Conf    gosec.Config
	Include []string
	Exclude []string
	Track   bool
	ExclGen bool
	NoSSA   bool // only syntax rules
	Tests   bool
}

var discard = log.New(io.Discard, "", 0)

// NewAnalyzer builds a real analyzer as the command does.
func NewAnalyzer(o Opts) *gosec.Analyzer { return NewAnalyzerN(o, 1) }

// NewAnalyzerN is NewAnalyzer with the given number of loading workers.
func NewAnalyzerN(o Opts, workers int) *gosec.Analyzer {
	conf := o.Conf
	if conf == nil {
		conf = gosec.NewConfig()
	}
	a := gosec.NewAnalyzer(conf, o.Tests, o.ExclGen, o.Track, workers, discard)
	var rf []rules.RuleFilter
	var af []analyzers.AnalyzerFilter
	if len(o.Include) > 0 {
		rf = append(rf, rules.NewRuleFilter(false, o.Include...))
		af = append(af, analyzers.NewAnalyzerFilter(false, o.Include...))
	}
	if len(o.Exclude) > 0 {
		rf = append(rf, rules.NewRuleFilter(true, o.Exclude...))
		af = append(af, analyzers.NewAnalyzerFilter(true, o.Exclude...))
	}
	a.LoadRules(rules.Generate(o.Track, rf...).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(o.Track, af...).AnalyzersInfo())
	return a
}

// Check runs rules and analyzers over the packages and returns the issues.
func Scan(o Opts, pkgs ...*packages.Package) ([]*issue.Issue, *gosec.Metrics) {
	a := NewAnalyzer(o)
	for _, p := range pkgs {
		a.CheckRules(p)
		if !o.NoSSA {
			a.CheckAnalyzers(p)
		}
	}
	is, m, _ := a.Report()
	return is, m
}

// IssueKey renders an issue canonically.
func IssueKey(i *issue.Issue) string {
	s := fmt.Sprintf("%s:%s:%s %s %s/%s %s", filepath.Base(i.File), i.Line, i.Col, i.RuleID, i.Severity, i.Confidence, i.What)
	if i.NoSec {
		s += " nosec"
	}
	for _, x := range i.Suppressions {
		s += fmt.Sprintf(" {%s|%s}", x.Kind, x.Justification)
	}
	return s
}

// IssueKeys renders a list canonically (sorted multiset).
func IssueKeys(is []*issue.Issue) []string {
	var out []string
	for _, i := range is {
		out = append(out, IssueKey(i))
	}
	sort.Strings(out)
	return out
}

// Join is a compact multiset rendering.
func Join(ss []string) string { return strings.Join(ss, "; ") }

// Protect runs f and returns a recovered panic value.
func Protect(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// LoadLoose parses and type-checks a package which may have any errors, keeping what go/packages would keep.
func (l *Loader) LoadLoose(pkgPath string, files ...File) (p *packages.Package, errs int) {
	fset := token.NewFileSet()
	fset.AddFile("imported", -1, l.impFset.Base())
	p = &packages.Package{ID: pkgPath, PkgPath: pkgPath, Fset: fset, TypesSizes: l.Sizes}
	for _, f := range files {
		name := "/virt/" + pkgPath + "/" + f.Name
		af, err := parser.ParseFile(fset, name, f.Src, parser.AllErrors|parser.ParseComments)
		if err != nil {
			errs++
			p.Errors = append(p.Errors, packages.Error{Pos: name + ":1:1", Msg: err.Error(), Kind: packages.ParseError})
		}
		if af == nil {
			continue
		}
		p.Syntax = append(p.Syntax, af)
		p.GoFiles = append(p.GoFiles, name)
		p.CompiledGoFiles = append(p.CompiledGoFiles, name)
		p.Name = af.Name.Name
	}
	p.TypesInfo = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: l, Sizes: l.Sizes, GoVersion: "go1.23", Error: func(err error) {
		errs++
		if t, ok := err.(types.Error); ok {
			p.TypeErrors = append(p.TypeErrors, t)
			p.Errors = append(p.Errors, packages.Error{Pos: fset.Position(t.Pos).String(), Msg: t.Msg, Kind: packages.TypeError})
		}
	}}
	p.Types, _ = conf.Check(pkgPath, fset, p.Syntax, p.TypesInfo)
	p.IllTyped = errs > 0
	return p, errs
}

// BreakImport makes the importer return what the type checker could make of a faulty package, as go/packages does for
// dependencies, and reports whether it is faulty.
func (l *Loader) BreakImport(path, src string) (faulty bool) {
	f, err := parser.ParseFile(l.impFset, "/stub/"+path+"/stub.go", src, parser.AllErrors|parser.ParseComments)
	faulty = err != nil
	if f == nil {
		return
	}
	conf := types.Config{Importer: l, Sizes: l.Sizes, IgnoreFuncBodies: true, Error: func(error) { faulty = true }}
	p, _ := conf.Check(path, l.impFset, []*ast.File{f}, nil)
	if p == nil {
		p = types.NewPackage(path, "a")
	}
	p.MarkComplete()
	l.cache[path] = p
	return
}
