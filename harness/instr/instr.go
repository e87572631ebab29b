// Package instr rewrites the scanner's sources so that goroutines, channels, locks, package loading and map iteration
// go through package shim. It works on the type-checked current tree, so it follows refactorings of the code.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Options select what is rewritten.
type Options struct {
	Repo  string
	Out   string // directory for the rewritten files
	Sched bool   // goroutines, channels, locks and statement points of the root package
	Maps  bool   // map iteration everywhere
}

// Summary says what was rewritten.
type Summary struct {
	Overlay string
	Maps    []string // map iteration sites
	Sched   []string // rewritten concurrency constructs
	Points  int
}

type edit struct {
	lo, hi int
	text   string
	seq    int
}

type file struct {
	src   []byte
	edits []edit
	tf    *token.File
	info  *types.Info
	pkg   *types.Package
	name  string
	used  map[string]bool
	sum   *Summary
	err   error
	tmp   int
}

func (f *file) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *file) replace(lo, hi token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(lo), f.off(hi), text, len(f.edits)})
}
func (f *file) insert(p token.Pos, text string) { f.replace(p, p, text) }

// render returns the text of [lo,hi) with the edits inside applied; an edit covering others wins over them.
func (f *file) render(lo, hi int) string {
	var in []edit
	for _, e := range f.edits {
		if e.lo >= lo && e.hi <= hi {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].lo != in[j].lo {
			return in[i].lo < in[j].lo
		}
		if (in[i].hi == in[i].lo) != (in[j].hi == in[j].lo) {
			return in[i].hi == in[i].lo // insertions first
		}
		if in[i].hi != in[j].hi {
			return in[i].hi > in[j].hi
		}
		return in[i].seq < in[j].seq
	})
	var b strings.Builder
	at := lo
	for _, e := range in {
		if e.lo < at {
			continue // inside a replaced range
		}
		b.Write(f.src[at:e.lo])
		b.WriteString(e.text)
		at = e.hi
	}
	b.Write(f.src[at:hi])
	return b.String()
}

func (f *file) text(n ast.Node) string { return f.render(f.off(n.Pos()), f.off(n.End())) }

func (f *file) fail(n ast.Node, format string, a ...any) {
	if f.err == nil {
		f.err = fmt.Errorf("%s:%d: %s", f.name, f.tf.Line(n.Pos()), fmt.Sprintf(format, a...))
	}
}

func (f *file) where(n ast.Node) string { return fmt.Sprintf("%s:%d", f.name, f.tf.Line(n.Pos())) }

// Instrument rewrites the tree and writes the overlay.
func Instrument(o Options) (*Summary, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		Dir: o.Repo}
	pats := []string{"./..."}
	if !o.Maps {
		pats = []string{"."}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	sum := &Summary{}
	overlay := map[string]string{}
	for _, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, "github.com/securego/gosec/v2"), "/")
		if rel == "testutils" || strings.HasPrefix(rel, "cmd/") && rel != "cmd/gosec" {
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
		var funcs map[*ast.BlockStmt]bool
		if o.Sched && rel == "" {
			funcs = reached(p)
		}
		for i, af := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if filepath.Ext(name) != ".go" || !strings.HasPrefix(name, o.Repo) {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			rn, _ := filepath.Rel(o.Repo, name)
			f := &file{src: src, tf: p.Fset.File(af.FileStart), info: p.TypesInfo, pkg: p.Types, name: rn, used: map[string]bool{}, sum: sum}
			if o.Maps {
				f.maps(af)
			}
			if o.Sched && rel == "" {
				f.points(af, funcs)
				f.sched(af)
			}
			if f.err != nil {
				return nil, f.err
			}
			if len(f.edits) == 0 {
				continue
			}
			f.insert(af.Name.End(), "\n\nimport vhshim \"verifharness/shim\"\n")
			out := f.render(0, len(src))
			for _, u := range []string{"sync", "maps", "golang.org/x/tools/go/packages"} {
				if f.used[u] {
					out += keepImport(af, u)
				}
			}
			dst := filepath.Join(o.Out, strings.ReplaceAll(rn, "/", "__"))
			if err := os.WriteFile(dst, []byte(out), 0o600); err != nil {
				return nil, err
			}
			overlay[name] = dst
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": overlay})
	sum.Overlay = filepath.Join(o.Out, "overlay.json")
	return sum, os.WriteFile(sum.Overlay, b, 0o600)
}

func keepImport(af *ast.File, path string) string {
	name := path[strings.LastIndexByte(path, '/')+1:]
	for _, i := range af.Imports {
		if strings.Trim(i.Path.Value, "\"`") == path && i.Name != nil {
			name = i.Name.Name
		}
	}
	switch path {
	case "sync":
		return "\nvar _ " + name + ".Mutex\n"
	case "maps":
		return "\nvar _ = " + name + ".Clone[map[int]int]\n"
	}
	return "\nvar _ " + name + ".Package\n"
}

func (f *file) maps(af *ast.File) {
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			t := f.info.TypeOf(n.X)
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				return true
			}
			w := f.where(n)
			f.sum.Maps = append(f.sum.Maps, w)
			f.insert(n.X.Pos(), fmt.Sprintf("vhshim.Range(%q, ", w))
			f.insert(n.X.End(), ")")
		case *ast.SelectorExpr:
			fn, ok := f.info.Uses[n.Sel].(*types.Func)
			if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "maps" && fn.Pkg().Path() != "golang.org/x/exp/maps" {
				return true
			}
			switch fn.Name() {
			case "Keys", "Values", "All":
				if fn.Pkg().Path() != "maps" {
					f.fail(n, "x/exp/maps")
					return true
				}
				f.sum.Maps = append(f.sum.Maps, f.where(n))
				f.used["maps"] = true
				f.replace(n.Pos(), n.End(), "vhshim.Maps"+fn.Name())
			}
		}
		return true
	})
}

func (f *file) isChan(e ast.Expr) bool {
	t := f.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (f *file) note(n ast.Node, what string) {
	f.sum.Sched = append(f.sum.Sched, f.where(n)+" "+what)
}

var syncShim = map[string]bool{"Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Map": true, "Locker": true}

func isBuiltin(info *types.Info, e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = info.Uses[id].(*types.Builtin)
	return ok
}

// sched rewrites bottom-up: the handlers of a node run after those of its children.
func (f *file) sched(af *ast.File) {
	var stack []ast.Node
	ast.Inspect(af, func(n ast.Node) bool {
		if n != nil {
			stack = append(stack, n)
			return true
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		f.post(top, stack)
		return true
	})
}

func (f *file) post(n ast.Node, stack []ast.Node) {
	var parent ast.Node
	if len(stack) > 0 {
		parent = stack[len(stack)-1]
	}
	switch n := n.(type) {
	case *ast.ChanType:
		f.note(n, "chan type")
		f.replace(n.Pos(), n.Value.Pos(), "*vhshim.Chan[")
		f.insert(n.Value.End(), "]")
	case *ast.SendStmt:
		if cc, ok := parent.(*ast.CommClause); ok && cc.Comm == n {
			return
		}
		f.note(n, "send")
		f.replace(n.Chan.End(), n.Value.Pos(), ".Send(")
		f.insert(n.Value.End(), ")")
	case *ast.UnaryExpr:
		if n.Op != token.ARROW || f.inComm(n, stack) {
			return
		}
		f.note(n, "receive")
		two := false
		switch p := parent.(type) {
		case *ast.AssignStmt:
			two = len(p.Lhs) == 2 && len(p.Rhs) == 1
		case *ast.ValueSpec:
			two = len(p.Names) == 2 && len(p.Values) == 1
		}
		f.replace(n.Pos(), n.X.Pos(), "")
		if two {
			f.insert(n.X.End(), ".Recv2()")
		} else {
			f.insert(n.X.End(), ".Recv()")
		}
	case *ast.RangeStmt:
		if f.isChan(n.X) {
			f.note(n, "range")
			f.insert(n.X.End(), ".Range()")
		}
	case *ast.CallExpr:
		if len(n.Args) == 0 {
			return
		}
		switch {
		case isBuiltin(f.info, n.Fun, "make") && f.isChan(n.Args[0]):
			ct, ok := n.Args[0].(*ast.ChanType)
			if !ok {
				f.fail(n, "make of a named channel type")
				return
			}
			f.note(n, "make")
			size := "0"
			if len(n.Args) == 2 {
				size = "int(" + f.text(n.Args[1]) + ")"
			}
			elem := f.render(f.off(ct.Value.Pos()), f.off(ct.Value.End()))
			elem = strings.TrimSuffix(elem, "]") // the closing bracket of the enclosing channel type
			f.replace(n.Pos(), n.End(), "vhshim.MakeChan["+elem+"]("+size+")")
		case isBuiltin(f.info, n.Fun, "close"):
			f.note(n, "close")
			f.replace(n.Pos(), n.Args[0].Pos(), "")
			f.replace(n.Args[0].End(), n.End(), ".Close()")
		case isBuiltin(f.info, n.Fun, "len") && f.isChan(n.Args[0]), isBuiltin(f.info, n.Fun, "cap") && f.isChan(n.Args[0]):
			m := ".Len()"
			if isBuiltin(f.info, n.Fun, "cap") {
				m = ".Cap()"
			}
			f.replace(n.Pos(), n.Args[0].Pos(), "")
			f.replace(n.Args[0].End(), n.End(), m)
		}
	case *ast.SelectorExpr:
		o := f.info.Uses[n.Sel]
		if o == nil || o.Pkg() == nil {
			return
		}
		if id, ok := n.X.(*ast.Ident); !ok || f.info.Uses[id] == nil {
			return
		} else if _, ok := f.info.Uses[id].(*types.PkgName); !ok {
			return
		}
		switch {
		case o.Pkg().Path() == "sync" && syncShim[o.Name()]:
			f.note(n, "sync."+o.Name())
			f.used["sync"] = true
			f.replace(n.Pos(), n.End(), "vhshim."+o.Name())
		case o.Pkg().Path() == "sync" && (o.Name() == "Cond" || o.Name() == "NewCond"), strings.HasPrefix(o.Pkg().Path(), "golang.org/x/sync"):
			f.fail(n, "%s.%s is not modelled", o.Pkg().Path(), o.Name())
		case o.Pkg().Path() == "golang.org/x/tools/go/packages" && o.Name() == "Load":
			f.note(n, "packages.Load")
			f.used["golang.org/x/tools/go/packages"] = true
			f.replace(n.Pos(), n.End(), "vhshim.Load")
		}
		if v, ok := o.(*types.Var); ok && v.Pkg() != f.pkg {
			if _, ok := v.Type().Underlying().(*types.Chan); ok {
				f.fail(n, "channel of another package")
			}
		}
	case *ast.GoStmt:
		f.goStmt(n)
	case *ast.SelectStmt:
		f.selectStmt(n)
	}
	if e, ok := n.(*ast.CallExpr); ok && f.isChan(e) {
		// a channel made by code which is not instrumented cannot be modelled
		if fn := callee(f.info, e); fn != nil && fn.Pkg() != f.pkg {
			f.fail(n, "channel returned by %s", fn.FullName())
		}
	}
}

func callee(info *types.Info, c *ast.CallExpr) *types.Func {
	switch x := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		fn, _ := info.Uses[x].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := info.Uses[x.Sel].(*types.Func)
		return fn
	}
	return nil
}

// inComm says whether the receive is the communication of a select clause.
func (f *file) inComm(u *ast.UnaryExpr, stack []ast.Node) bool {
	for i := len(stack) - 1; i >= 0 && i >= len(stack)-3; i-- {
		if cc, ok := stack[i].(*ast.CommClause); ok && cc.Comm != nil {
			return recvOf(cc.Comm) == u
		}
	}
	return false
}

func recvOf(s ast.Stmt) *ast.UnaryExpr {
	var e ast.Expr
	switch s := s.(type) {
	case *ast.ExprStmt:
		e = s.X
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 {
			e = s.Rhs[0]
		}
	}
	if e == nil {
		return nil
	}
	u, _ := ast.Unparen(e).(*ast.UnaryExpr)
	return u
}

func (f *file) goStmt(n *ast.GoStmt) {
	f.note(n, "go")
	f.tmp++
	id := f.tmp
	out := fmt.Sprintf("{ vhf%d := %s; ", id, f.text(n.Call.Fun))
	var args []string
	for i, a := range n.Call.Args {
		tv := f.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, f.text(a))
			continue
		}
		out += fmt.Sprintf("vha%d_%d := %s; ", id, i, f.text(a))
		args = append(args, fmt.Sprintf("vha%d_%d", id, i))
	}
	dots := ""
	if n.Call.Ellipsis.IsValid() {
		dots = "..."
	}
	site := f.where(n)
	if _, ok := n.Call.Fun.(*ast.Ident); !ok { // a literal may capture loop variables, a method value its receiver
		site = ""
	}
	out += fmt.Sprintf("vhshim.GoSym(func() { vhf%d(%s%s) }, %q%s) }", id, strings.Join(args, ", "), dots, site, strings.Join(append([]string{""}, args...), ", "))
	f.replace(n.Pos(), n.End(), out)
}

func (f *file) selectStmt(n *ast.SelectStmt) {
	f.note(n, "select")
	f.tmp++
	id := f.tmp
	iv, vv, ov := fmt.Sprintf("vhi%d", id), fmt.Sprintf("vhv%d", id), fmt.Sprintf("vho%d", id)
	def := false
	var cases, body []string
	k := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		stmts := ""
		if len(cc.Body) > 0 {
			stmts = f.render(f.off(cc.Colon)+1, f.off(cc.Body[len(cc.Body)-1].End()))
		}
		use := fmt.Sprintf("_, _ = %s, %s; ", vv, ov)
		if cc.Comm == nil {
			def = true
			body = append(body, "case -1: "+use+stmts)
			continue
		}
		head := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("vhshim.SendCase(%s, %s)", f.text(s.Chan), f.text(s.Value)))
		case *ast.ExprStmt:
			cases = append(cases, fmt.Sprintf("vhshim.RecvCase(%s)", f.text(recvOf(s).X)))
		case *ast.AssignStmt:
			ch := f.text(recvOf(s).X)
			cases = append(cases, fmt.Sprintf("vhshim.RecvCase(%s)", ch))
			if _, ok := ast.Unparen(recvOf(s).X).(*ast.CallExpr); ok {
				f.fail(n, "receive from a call in a select")
				return
			}
			rhs := fmt.Sprintf("vhshim.As(%s, %s)", ch, vv)
			if len(s.Lhs) == 2 {
				rhs += ", " + ov
			}
			head = fmt.Sprintf("%s %s %s; ", f.render(f.off(s.Lhs[0].Pos()), f.off(s.Lhs[len(s.Lhs)-1].End())), s.Tok, rhs)
		}
		body = append(body, fmt.Sprintf("case %d: %s%s%s", k, use, head, stmts))
		k++
	}
	out := fmt.Sprintf("switch %s, %s, %s := vhshim.SelectOp(%s); %s {\n%s\n}", iv, vv, ov,
		strings.Join(append([]string{fmt.Sprint(def)}, cases...), ", "), iv, strings.Join(body, "\n"))
	f.replace(n.Pos(), n.End(), out)
}

// reached lists the blocks of Process and of the functions of the package it calls, up to a small depth.
func reached(p *packages.Package) map[*ast.BlockStmt]bool {
	decls := map[*types.Func]*ast.FuncDecl{}
	for _, af := range p.Syntax {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if fn, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					decls[fn] = fd
				}
			}
		}
	}
	out := map[*ast.BlockStmt]bool{}
	var walk func(fd *ast.FuncDecl, depth int)
	walk = func(fd *ast.FuncDecl, depth int) {
		if out[fd.Body] || depth > 1 || fd.Name.Name == "updateIgnores" || fd.Name.Name == "ignore" {
			return
		}
		out[fd.Body] = true
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if fn, ok := p.TypesInfo.Uses[id].(*types.Func); ok && fn.Pkg() == p.Types && decls[fn] != nil {
					walk(decls[fn], depth+1)
				}
			}
			return true
		})
	}
	for fn, fd := range decls {
		if fn.Name() == "Process" {
			walk(fd, 0)
		}
	}
	return out
}

// points inserts a scheduling point before every statement of the reached functions.
func (f *file) points(af *ast.File, blocks map[*ast.BlockStmt]bool) {
	var inside func(n ast.Node)
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.LabeledStmt); ok {
				continue
			}
			f.sum.Points++
			f.insert(s.Pos(), "vhshim.Point(); ")
		}
	}
	inside = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			}
			return true
		})
	}
	for _, d := range af.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && blocks[fd.Body] {
			inside(fd.Body)
		}
	}
}
