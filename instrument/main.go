// Command instrument copies the packages under test from a source tree into a
// scratch module and puts every source of nondeterminism behind the simulator.
//
// usage: instrument REPO OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	modPath = "github.com/jcorbin/anansi"
	simPath = modPath + "/zz/sim"
	shims   = modPath + "/zz/shim/"
)

var shimFor = map[string]string{
	"os": "os", "os/signal": "signal", "os/user": "user", "syscall": "syscall",
	"time": "time", "sync": "sync", "log": "log", "fmt": "fmt",
	"io/ioutil": "ioutil", "runtime": "runtime", "runtime/pprof": "pprof",
	"runtime/trace": "trace", "flag": "flag", "math/rand": "rand", "context": "context", "io": "io", "os/exec": "exec",
}

var refused = map[string]bool{
	"net": true, "net/http": true,
	"golang.org/x/sys/unix": true, "math/rand/v2": true, "crypto/rand": true,
}

var targets = []string{"", "ansi", "terminfo", "x/platform", "cmd/decode", "cmd/to24bit", "cmd/demo", "cmd/interact", "cmd/lolwut"}

// lightPoints are packages without goroutines of their own, which only get
// schedule points in loops.
var lightPoints = map[string]bool{"ansi": true}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instrument:"}, args...)...)
	os.Exit(2)
}

type pkg struct {
	rel   string
	path  string
	dir   string
	files []string
	asts  []*ast.File
	std   map[string]bool
	deps  []string
	tpkg  *types.Package
	info  *types.Info
}

type loader struct {
	repo string
	fset *token.FileSet
	pkgs map[string]*pkg
	list []*pkg
	std  types.Importer
}

func main() {
	if len(os.Args) != 3 {
		fatal("usage: instrument REPO OUT")
	}
	repo, out := os.Args[1], os.Args[2]
	l := &loader{repo: repo, fset: token.NewFileSet(), pkgs: map[string]*pkg{}}
	stdSet := map[string]bool{}
	for _, t := range targets {
		l.parse(t)
	}
	for _, p := range l.list {
		for s := range p.std {
			stdSet[s] = true
		}
	}
	l.std = stdImporter(l.fset, stdSet)
	for _, p := range l.list {
		l.check(p)
	}
	var resets []*pkg
	for _, p := range l.list {
		l.rewrite(p, out)
		resets = append(resets, p)
	}
	var b bytes.Buffer
	b.WriteString("// Code generated by instrument; DO NOT EDIT.\n\npackage main\n\nimport (\n")
	for i, p := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p.path)
	}
	b.WriteString(")\n\nfunc simSnapshotAll() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.SimSnapshot()\n", i)
	}
	b.WriteString("}\n\nfunc simResetAll() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
	}
	b.WriteString("}\n")
	if err := os.MkdirAll(filepath.Join(out, "zz/harness"), 0o755); err != nil {
		fatal(err)
	}
	write(filepath.Join(out, "zz/harness/zz_reset.go"), b.Bytes())
	write(filepath.Join(out, "go.mod"), []byte("module "+modPath+"\n\ngo 1.21\n"))
}

func write(fn string, b []byte) {
	if strings.HasSuffix(fn, ".go") {
		f, err := format.Source(b)
		if err != nil {
			fatal(fn, err)
		}
		b = f
	}
	if err := os.WriteFile(fn, b, 0o644); err != nil {
		fatal(err)
	}
}

func (l *loader) parse(rel string) *pkg {
	if p := l.pkgs[rel]; p != nil {
		return p
	}
	p := &pkg{rel: rel, path: strings.TrimSuffix(modPath+"/"+rel, "/"), dir: filepath.Join(l.repo, rel), std: map[string]bool{}}
	l.pkgs[rel] = p
	bp, err := build.ImportDir(p.dir, 0)
	if err != nil {
		fatal(err)
	}
	if len(bp.CgoFiles) > 0 {
		fatal(rel, "uses cgo")
	}
	p.files = bp.GoFiles
	for _, fn := range p.files {
		f, err := parser.ParseFile(l.fset, filepath.Join(p.dir, fn), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		p.asts = append(p.asts, f)
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if refused[ip] {
				fatal(rel, "imports", ip, "which is not simulated")
			}
			if ip == modPath || strings.HasPrefix(ip, modPath+"/") {
				d := strings.TrimPrefix(strings.TrimPrefix(ip, modPath), "/")
				l.parse(d)
				p.deps = append(p.deps, d)
			} else if ip != "C" {
				p.std[ip] = true
			}
		}
	}
	l.list = append(l.list, p) // dependencies first
	return p
}

func stdImporter(fset *token.FileSet, set map[string]bool) types.Importer {
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
	var ps []string
	for p := range set {
		if p != "unsafe" {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	cmd := exec.Command("go", append(args, ps...)...)
	cmd.Dir = os.TempDir()
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	exp := map[string]string{}
	for _, line := range strings.Split(string(o), "\n") {
		if a, b, ok := strings.Cut(line, "\t"); ok {
			exp[a] = b
		}
	}
	return importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		fn := exp[path]
		if fn == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(fn)
	})
}

// Import implements types.Importer.
func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		p := l.pkgs[strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")]
		if p == nil || p.tpkg == nil {
			return nil, fmt.Errorf("package %s not loaded", path)
		}
		return p.tpkg, nil
	}
	return l.std.Import(path)
}

func (l *loader) check(p *pkg) {
	p.info = &types.Info{
		Types:     map[ast.Expr]types.TypeAndValue{},
		Uses:      map[*ast.Ident]types.Object{},
		Defs:      map[*ast.Ident]types.Object{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	cfg := types.Config{Importer: l, GoVersion: "go1.21"}
	tp, err := cfg.Check(p.path, l.fset, p.asts, p.info)
	if err != nil {
		fatal("type checking", p.path, ":", err)
	}
	p.tpkg = tp
}

// ---- rewriting

type rewriter struct {
	p       *pkg
	info    *types.Info
	n       int
	light   bool
	useSim  bool
	origPos map[ast.Node]bool
}

func sel(pkg, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(name)}
}

func (r *rewriter) sim(name string) ast.Expr {
	r.useSim = true
	return sel("zzsim", name)
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zzt%d", r.n))
}

func (l *loader) rewrite(p *pkg, out string) {
	dir := filepath.Join(out, p.rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal(err)
	}
	isMain := p.tpkg.Name() == "main"
	name := p.tpkg.Name()
	if isMain {
		name = "zz" + filepath.Base(p.rel)
	}
	for i, f := range p.asts {
		r := &rewriter{p: p, info: p.info, light: lightPoints[p.rel]}
		f.Name = ast.NewIdent(name)
		for _, d := range f.Decls {
			r.decl(d)
		}
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if s := shimFor[ip]; s != "" {
				im.Path.Value = strconv.Quote(shims + s)
			}
		}
		var body bytes.Buffer
		f.Comments = nil
		f.Doc = nil
		if err := format.Node(&body, token.NewFileSet(), strip(f)); err != nil {
			fatal(p.files[i], err)
		}
		src := body.Bytes()
		if r.useSim {
			clause := []byte("package " + name)
			j := bytes.Index(src, clause) + len(clause)
			src = append(append(append([]byte{}, src[:j]...), []byte("\n\nimport zzsim "+strconv.Quote(simPath)+"\n")...), src[j:]...)
		}
		write(filepath.Join(dir, p.files[i]), src)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by instrument; DO NOT EDIT.\n\npackage %s\n\nimport zzsim %q\n\nvar _ = zzsim.Point\n\nvar zzResets []func()\n\n", name, simPath)
	b.WriteString("// SimSnapshot records package variables.\nfunc SimSnapshot() {\n")
	names := p.tpkg.Scope().Names()
	for _, n := range names {
		v, ok := p.tpkg.Scope().Lookup(n).(*types.Var)
		if !ok || n == "_" {
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Map:
			fmt.Fprintf(&b, "\t{\n\t\ts := zzsim.CloneMap(%s)\n\t\tzzResets = append(zzResets, func() { %s = zzsim.CloneMap(s) })\n\t}\n", n, n)
		case *types.Slice:
			fmt.Fprintf(&b, "\t{\n\t\ts := append(%s[:0:0], %s...)\n\t\to := %s\n\t\tzzResets = append(zzResets, func() { %s = o; copy(o, s) })\n\t}\n", n, n, n, n)
		default:
			fmt.Fprintf(&b, "\t{\n\t\ts := %s\n\t\tzzResets = append(zzResets, func() { %s = s })\n\t}\n", n, n)
		}
	}
	b.WriteString("}\n\n// SimReset restores package variables.\nfunc SimReset() {\n\tfor _, f := range zzResets {\n\t\tf()\n\t}\n}\n")
	if isMain {
		b.WriteString("\n// SimMain runs the command.\nfunc SimMain() { main() }\n")
	}
	write(filepath.Join(dir, "zz_sim.go"), b.Bytes())
}

// strip forgets comments attached to nodes (positions are not kept).
func strip(f *ast.File) *ast.File {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	return f
}

func (r *rewriter) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			r.block(d.Body)
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			if vs, ok := s.(*ast.ValueSpec); ok {
				r.valueSpec(vs)
			}
		}
	}
}

func (r *rewriter) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u := recvOf(vs.Values[0]); u != nil {
			r.exprs(&u.X)
			vs.Values[0] = r.call("Recv2", u.X)
			return
		}
	}
	for i := range vs.Values {
		r.exprs(&vs.Values[i])
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
			return nil
		default:
			return nil
		}
	}
}

func (r *rewriter) point() ast.Stmt { return &ast.ExprStmt{X: r.call("Point")} }

func (r *rewriter) block(b *ast.BlockStmt) { b.List = r.stmts(b.List, false) }

func (r *rewriter) stmts(list []ast.Stmt, loop bool) []ast.Stmt {
	var out []ast.Stmt
	if loop {
		out = append(out, r.point())
	}
	for i, s := range list {
		if !r.light && !(loop && i == 0) {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt:
			default:
				out = append(out, r.point())
			}
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		r.exprs(&s.X)
	case *ast.SendStmt:
		r.exprs(&s.Chan)
		r.exprs(&s.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", s.Chan), Args: []ast.Expr{s.Value}}}
	case *ast.IncDecStmt:
		r.exprs(&s.X)
	case *ast.AssignStmt:
		for i := range s.Lhs {
			r.exprs(&s.Lhs[i])
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				r.exprs(&u.X)
				s.Rhs[0] = r.call("Recv2", u.X)
				return s
			}
		}
		for i := range s.Rhs {
			r.exprs(&s.Rhs[i])
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		var e ast.Expr = s.Call
		r.exprs(&e)
		s.Call = e.(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			r.exprs(&s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		r.exprs(&s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			r.exprs(&s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				r.exprs(&cc.List[i])
			}
			cc.Body = r.stmts(cc.Body, false)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body, false)
		}
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			r.exprs(&s.Cond)
		}
		s.Post = r.stmt(s.Post)
		s.Body.List = r.stmts(s.Body.List, true)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.DeclStmt:
		r.decl(s.Decl)
	}
	return s
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(s.X)
	r.exprs(&s.X)
	var under types.Type
	if t != nil {
		under = t.Underlying()
	}
	switch under.(type) {
	case *types.Chan:
		// for x := range c  =>  for { x, ok := Recv2(c); if !ok { break }; body }
		c := r.tmp()
		ok := r.tmp()
		var key ast.Expr = ast.NewIdent("_")
		tok := token.DEFINE
		body := []ast.Stmt{}
		if s.Key != nil {
			if s.Tok == token.DEFINE {
				key = s.Key
			} else {
				v := r.tmp()
				key = v
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
		}
		recv := &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: tok, Rhs: []ast.Expr{r.call("Recv2", c)}}
		brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		list := append([]ast.Stmt{recv, brk}, body...)
		if s.Key != nil && s.Tok == token.DEFINE {
			if id, isID := s.Key.(*ast.Ident); isID && id.Name != "_" {
				list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}})
			}
		}
		list = append(list, &ast.BlockStmt{List: r.stmts(s.Body.List, true)})
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
			Body: &ast.BlockStmt{List: list},
		}
	case *types.Map:
		// iterate in a fixed order: for _, k := range SortedKeys(m)
		m := r.tmp()
		k := r.tmp()
		v := r.tmp()
		ok := r.tmp()
		list := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		}
		bind := func(e, x ast.Expr) {
			if e == nil {
				return
			}
			if id, isID := e.(*ast.Ident); isID && id.Name == "_" {
				return
			}
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: s.Tok, Rhs: []ast.Expr{x}})
		}
		bind(s.Key, k)
		bind(s.Value, v)
		list = append(list, &ast.BlockStmt{List: r.stmts(s.Body.List, true)})
		// keep a plain range statement so that labels still work
		inner := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
			X: r.call("SortedKeys", s.X), Body: &ast.BlockStmt{List: list}}
		mx := s.X
		inner.X = r.call("SortedKeys", mx)
		list[0] = &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: &ast.ParenExpr{X: mx}, Index: k}}}
		_ = m
		return inner
	}
	s.Body.List = r.stmts(s.Body.List, true)
	return s
}

// instance is whether e names a generic function.
func (r *rewriter) instance(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.instance(x.X)
	case *ast.IndexExpr:
		return r.instance(x.X)
	case *ast.IndexListExpr:
		return r.instance(x.X)
	case *ast.SelectorExpr:
		_, ok := r.info.Instances[x.Sel]
		return ok
	case *ast.Ident:
		_, ok := r.info.Instances[x]
		return ok
	}
	return false
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.block(fl.Body)
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}
	var pre []ast.Stmt
	keep := func(e *ast.Expr) {
		tv := r.info.Types[*e]
		if r.instance(*e) {
			return // a function, with type arguments still to be inferred
		}
		if tup, ok := tv.Type.(*types.Tuple); ok && tv.Value == nil && tup.Len() > 1 && len(c.Args) == 1 && e == &c.Args[0] {
			r.exprs(e)
			call := *e
			var ts []ast.Expr
			for i := 0; i < tup.Len(); i++ {
				ts = append(ts, r.tmp())
			}
			pre = append(pre, &ast.AssignStmt{Lhs: ts, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
			c.Args = append([]ast.Expr(nil), ts...)
			return
		}
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin() {
			r.exprs(e)
			return
		}
		if sig, ok := tv.Type.(*types.Signature); ok && sig.TypeParams().Len() > 0 {
			return
		}
		r.exprs(e)
		t := r.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{*e}})
		*e = t
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || !r.info.Types[id].IsBuiltin() {
		keep(&c.Fun)
	}
	for i, n := 0, len(c.Args); i < n; i++ {
		keep(&c.Args[i])
	}
	var e ast.Expr = c
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" && r.info.Types[id].IsBuiltin() {
		e = r.call("Close", c.Args...)
	}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")}}}}
	}
	hasDefault := false
	var lhs []ast.Expr
	var rhs []ast.Expr
	var clauses []ast.Stmt
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: r.stmts(cc.Body, false)})
			continue
		}
		t := r.tmp()
		var bind []ast.Stmt
		field := func(n string) ast.Expr { return sel(t.Name, n) }
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			r.exprs(&cm.Chan)
			r.exprs(&cm.Value)
			rhs = append(rhs, &ast.CallExpr{Fun: r.call("SendCase", cm.Chan), Args: []ast.Expr{cm.Value}})
		case *ast.ExprStmt:
			u := recvOf(cm.X)
			r.exprs(&u.X)
			rhs = append(rhs, r.call("RecvCase", u.X))
		case *ast.AssignStmt:
			u := recvOf(cm.Rhs[0])
			r.exprs(&u.X)
			rhs = append(rhs, r.call("RecvCase", u.X))
			blank := true
			for i := range cm.Lhs {
				if id, ok := cm.Lhs[i].(*ast.Ident); !ok || id.Name != "_" {
					blank = false
				}
				r.exprs(&cm.Lhs[i])
			}
			vals := []ast.Expr{field("V")}
			if len(cm.Lhs) == 2 {
				vals = append(vals, field("OK"))
			}
			if !blank {
				bind = append(bind, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: vals})
			}
		}
		lhs = append(lhs, t)
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(bind, r.stmts(cc.Body, false)...),
		})
		idx++
	}
	if !hasDefault {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	def := "false"
	if hasDefault {
		def = "true"
	}
	args := append([]ast.Expr{ast.NewIdent(def)}, lhs...)
	sw := &ast.SwitchStmt{Tag: r.call("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

// exprs rewrites an expression in place.
func (r *rewriter) exprs(e *ast.Expr) {
	switch x := (*e).(type) {
	case nil:
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.CompositeLit:
		for i := range x.Elts {
			r.exprs(&x.Elts[i])
		}
	case *ast.ParenExpr:
		r.exprs(&x.X)
	case *ast.SelectorExpr:
		r.exprs(&x.X)
	case *ast.IndexExpr:
		r.exprs(&x.X)
		r.exprs(&x.Index)
	case *ast.SliceExpr:
		r.exprs(&x.X)
		if x.Low != nil {
			r.exprs(&x.Low)
		}
		if x.High != nil {
			r.exprs(&x.High)
		}
		if x.Max != nil {
			r.exprs(&x.Max)
		}
	case *ast.TypeAssertExpr:
		r.exprs(&x.X)
	case *ast.StarExpr:
		r.exprs(&x.X)
	case *ast.BinaryExpr:
		r.exprs(&x.X)
		r.exprs(&x.Y)
	case *ast.KeyValueExpr:
		r.exprs(&x.Value)
	case *ast.UnaryExpr:
		r.exprs(&x.X)
		if x.Op == token.ARROW {
			*e = r.call("Recv", x.X)
		}
	case *ast.CallExpr:
		isClose := false
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
				isClose = true
			}
		}
		var ptrArg bool
		if se, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
			if tn, ok := r.info.Uses[se.Sel].(*types.TypeName); ok && tn.Pkg() == types.Unsafe && tn.Name() == "Pointer" {
				if t := r.typeOf(x.Args[0]); t != nil {
					_, ptrArg = t.Underlying().(*types.Pointer)
				}
			}
		}
		r.exprs(&x.Fun)
		for i := range x.Args {
			r.exprs(&x.Args[i])
		}
		if isClose {
			x.Fun = r.sim("Close")
		}
		if ptrArg {
			x.Args[0] = r.call("Escape", x.Args[0])
		}
	}
}
