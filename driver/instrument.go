package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter turns the current sources of the repository into a copy in
// which every source of nondeterminism is owned by simrt.

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	SFiles     []string
	HFiles     []string
	EmbedFiles []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path, Dir, GoVersion string }
	Error      *struct{ Err string }
}

type instrumenter struct {
	root   string
	out    string
	tags   string
	level  int // 2 full, 1 light
	mod    string
	fset   *token.FileSet
	pkgs   map[string]*listPkg
	types  map[string]*types.Package
	gc     types.Importer
	counts map[string]int
	nFuncs int
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off")
	return env
}

func run(dir string, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return out.Bytes(), fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

// roots are the packages under test.
var roots = []string{"./math/...", "./tfhe/...", "./mktfhe/...", "./xtfhe/..."}

func instrument(root, out, tags string, level int) (map[string]int, error) {
	in := &instrumenter{root: root, out: out, tags: tags, level: level, fset: token.NewFileSet(),
		pkgs: map[string]*listPkg{}, types: map[string]*types.Package{}, counts: map[string]int{}}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,SFiles,HFiles,EmbedFiles,Export,Standard,Imports,ImportMap,Module,Error", "-tags=" + tags}
	// -modfile keeps go.mod and go.sum of the repository untouched.
	mf := filepath.Join(out, "go.mod")
	if err := os.MkdirAll(out, 0o755); err != nil {
		return nil, err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			if f == "go.sum" {
				continue
			}
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(out, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	b, err := run(root, "go", append(append(args, "-modfile="+mf), roots...)...)
	if err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(mustRead(mf))
	if m == nil {
		return nil, fmt.Errorf("no module line in go.mod")
	}
	in.mod = string(m[1])
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		in.pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	in.gc = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := in.pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	for _, p := range order {
		if p.Module == nil || p.Module.Path != in.mod {
			continue
		}
		if err := in.doPkg(p); err != nil {
			return nil, fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	return in.counts, nil
}

func mustRead(f string) []byte { b, _ := os.ReadFile(f); return b }

func (in *instrumenter) Import(path string) (*types.Package, error) {
	if t, ok := in.types[path]; ok {
		return t, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return in.gc.Import(path)
}

type importFn func(string) (*types.Package, error)

func (f importFn) Import(p string) (*types.Package, error) { return f(p) }

var directive = regexp.MustCompile(`(?m)^//go:(linkname|embed|cgo_\w+|noescape|nosplit)`)
var buildLine = regexp.MustCompile(`(?m)^//go:build .*$`)

func (in *instrumenter) doPkg(p *listPkg) error {
	rel, err := filepath.Rel(in.root, p.Dir)
	if err != nil {
		return err
	}
	dst := filepath.Join(in.out, rel)
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	var files []*ast.File
	verbatim := map[*ast.File]bool{}
	srcs := map[*ast.File][]byte{}
	for _, f := range p.GoFiles {
		src, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(in.fset, filepath.Join(p.Dir, f), src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs[af] = src
		if directive.Match(src) {
			verbatim[af] = true
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil {
				verbatim[af] = true
			}
		}
	}
	for _, f := range append(append(append([]string{}, p.SFiles...), p.HFiles...), p.EmbedFiles...) {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, f), mustRead(filepath.Join(p.Dir, f)), 0o644); err != nil {
			return err
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importFn(func(path string) (*types.Package, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		return in.Import(path)
	}), GoVersion: "go" + strings.TrimPrefix(p.Module.GoVersion, "go"), Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, in.fset, files, info)
	if err != nil {
		return err
	}
	in.types[p.ImportPath] = tp
	for i, af := range files {
		name := filepath.Join(dst, p.GoFiles[i])
		if verbatim[af] {
			in.counts["files verbatim"]++
			if err := os.WriteFile(name, srcs[af], 0o644); err != nil {
				return err
			}
			continue
		}
		in.counts["files instrumented"]++
		w := &rewriter{in: in, info: info, pkg: tp, file: af, mode: in.pkgMode(rel)}
		w.rewrite()
		var buf bytes.Buffer
		if m := buildLine.Find(srcs[af]); m != nil {
			buf.Write(m)
			buf.WriteString("\n\n")
		}
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, token.NewFileSet(), af); err != nil {
			return err
		}
		if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

type mode struct {
	stmt       bool // yield before every statement (else per function and loop)
	split      bool // split read-modify-write
	splitStore bool // yield between computing and storing an element
}

func (in *instrumenter) pkgMode(rel string) mode {
	full := in.level >= 2
	rel = filepath.ToSlash(rel)
	switch {
	case strings.HasPrefix(rel, "math/num"):
		return mode{}
	case strings.HasPrefix(rel, "math/vec"), strings.HasPrefix(rel, "math/poly"):
		return mode{stmt: full && strings.HasPrefix(rel, "math/poly"), split: full, splitStore: full && in.tags == "purego"}
	}
	return mode{stmt: full, split: full, splitStore: full && in.tags == "purego"}
}

type rewriter struct {
	in    *instrumenter
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	mode  mode
	n     int
	used  bool
	repl  map[types.Object]int // replaced uses of an import
	funcs []ast.Node           // enclosing functions, innermost last
}

const simName = "simrt_"

func (w *rewriter) sim(f string) *ast.SelectorExpr {
	w.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(simName), Sel: ast.NewIdent(f)}
}

func (w *rewriter) call(f string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: w.sim(f), Args: args}
}

func (w *rewriter) yield() ast.Stmt {
	w.in.counts["preemption points"]++
	return &ast.ExprStmt{X: w.call("Yield")}
}

func (w *rewriter) tmp() string { w.n++; return fmt.Sprintf("simtmp%d", w.n) }

func (w *rewriter) rewrite() {
	w.repl = map[types.Object]int{}
	for _, d := range w.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			w.fieldTypes(d.Recv)
			w.funcType(d.Type)
			if d.Body != nil {
				w.funcs = append(w.funcs, d)
				w.funcBody(d.Body)
				w.funcs = w.funcs[:0]
			}
		case *ast.GenDecl:
			w.genDecl(d)
		}
	}
	// imports
	uses := map[types.Object]int{}
	for _, o := range w.info.Uses {
		if pn, ok := o.(*types.PkgName); ok {
			uses[pn]++
		}
	}
	for _, d := range w.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			is.EndPos = token.NoPos
			if is.Path.Value == `"sync"` {
				if is.Name == nil {
					is.Name = ast.NewIdent("sync")
				}
				is.Path.Value = fmt.Sprintf("%q", w.in.mod+"/simrt/simsync")
			}
			var obj types.Object
			if is.Name != nil {
				obj = w.info.Defs[is.Name]
			}
			if obj == nil {
				obj = w.info.Implicits[is]
			}
			if obj != nil && w.repl[obj] > 0 && w.repl[obj] >= w.fileUses(obj) {
				continue
			}
			keep = append(keep, s)
		}
		gd.Specs = keep
		if len(keep) > 1 {
			gd.Lparen = 1
			gd.Rparen = 2
		}
	}
	var decls []ast.Decl
	if w.used {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent(simName), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", w.in.mod+"/simrt")}}}})
	}
	for _, d := range w.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT && len(gd.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	w.file.Decls = decls
	w.file.Comments = nil
	w.file.Doc = nil
}

// fileUses counts the uses of an import; PkgName objects are per file.
func (w *rewriter) fileUses(o types.Object) int {
	n := 0
	for _, u := range w.info.Uses {
		if u == o {
			n++
		}
	}
	return n
}

func (w *rewriter) genDecl(d *ast.GenDecl) {
	if d.Tok == token.IMPORT {
		return
	}
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			w.fieldTypes(s.TypeParams)
			w.expr(&s.Type)
		case *ast.ValueSpec:
			if s.Type != nil {
				w.expr(&s.Type)
			}
			for i := range s.Values {
				w.expr(&s.Values[i])
			}
		}
	}
}

func (w *rewriter) fieldTypes(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		w.expr(&f.Type)
	}
}

func (w *rewriter) funcType(t *ast.FuncType) {
	w.fieldTypes(t.TypeParams)
	w.fieldTypes(t.Params)
	w.fieldTypes(t.Results)
}

func (w *rewriter) funcBody(b *ast.BlockStmt) {
	w.block(b)
	if w.mode.stmt && len(b.List) > 0 {
		if isYield(b.List[0]) {
			b.List = b.List[1:]
		}
	}
	w.in.counts["preemption points"]++
	w.in.nFuncs++
	id := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(w.in.nFuncs)}
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: w.call("Enter", id)}}, b.List...)
}

// isYield reports whether s is an inserted preemption point.
func isYield(s ast.Stmt) bool {
	if e, ok := s.(*ast.ExprStmt); ok {
		if c, ok := e.X.(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.SelectorExpr); ok {
				x, ok := f.X.(*ast.Ident)
				return ok && x.Name == simName && f.Sel.Name == "Yield"
			}
		}
	}
	return false
}

func (w *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.stmts(b.List)
	}
}

func (w *rewriter) loopBody(b *ast.BlockStmt) {
	w.block(b)
	if !w.mode.stmt || len(b.List) == 0 {
		b.List = append([]ast.Stmt{w.yield()}, b.List...)
	}
}

func (w *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if w.mode.stmt {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt:
			default:
				out = append(out, w.yield())
			}
		}
		out = append(out, w.stmt(s))
	}
	return out
}

func (w *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := w.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// single-type core
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
		}
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		s.Stmt = w.stmt(s.Stmt)
	case *ast.BlockStmt:
		w.block(s)
	case *ast.ExprStmt:
		w.expr(&s.X)
	case *ast.SendStmt:
		w.expr(&s.Chan)
		w.expr(&s.Value)
		return &ast.ExprStmt{X: w.call("ChanSend", s.Chan, s.Value)}
	case *ast.IncDecStmt:
		if w.splittable(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return w.splitOp(s.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		w.expr(&s.X)
	case *ast.AssignStmt:
		return w.assign(s)
	case *ast.GoStmt:
		return w.goStmt(s)
	case *ast.DeferStmt:
		var e ast.Expr = s.Call
		w.expr(&e)
		if c, ok := e.(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		for i := range s.Results {
			w.expr(&s.Results[i])
		}
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = w.simple(s.Init)
		}
		w.expr(&s.Cond)
		w.block(s.Body)
		if s.Else != nil {
			s.Else = w.stmt(s.Else)
		}
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = w.simple(s.Init)
		}
		if s.Tag != nil {
			w.expr(&s.Tag)
		}
		w.block2(s.Body)
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = w.simple(s.Init)
		}
		w.simple(s.Assign)
		w.block2(s.Body)
	case *ast.SelectStmt:
		return w.selectStmt(s)
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = w.simple(s.Init)
		}
		if s.Cond != nil {
			w.expr(&s.Cond)
		}
		if s.Post != nil {
			s.Post = w.simple(s.Post)
		}
		w.loopBody(s.Body)
	case *ast.RangeStmt:
		return w.rangeStmt(s)
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok {
			w.genDecl(gd)
		}
	}
	return s
}

// block2 rewrites the body of a switch, whose statements are clauses.
func (w *rewriter) block2(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				w.expr(&cc.List[i])
			}
			cc.Body = w.stmts(cc.Body)
		}
	}
}

// simple rewrites a statement in a position that must stay simple.
func (w *rewriter) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		for i := range s.Lhs {
			w.expr(&s.Lhs[i])
		}
		w.assignRhs(s)
	case *ast.IncDecStmt:
		w.expr(&s.X)
	case *ast.ExprStmt:
		w.expr(&s.X)
	case *ast.SendStmt:
		w.expr(&s.Chan)
		w.expr(&s.Value)
		return &ast.ExprStmt{X: w.call("ChanSend", s.Chan, s.Value)}
	}
	return s
}

func (w *rewriter) assignRhs(s *ast.AssignStmt) {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			w.expr(&u.X)
			s.Rhs[0] = w.call("ChanRecv2", u.X)
			return
		}
	}
	for i := range s.Rhs {
		w.expr(&s.Rhs[i])
	}
}

func (w *rewriter) assign(s *ast.AssignStmt) ast.Stmt {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		if len(s.Lhs) == 1 && w.splittable(s.Lhs[0]) && pure(s.Rhs[0], w.info) {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
				token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
				token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
			w.expr(&s.Rhs[0])
			return w.splitOp(s.Lhs[0], op, &ast.ParenExpr{X: s.Rhs[0]})
		}
	}
	if w.mode.splitStore && s.Tok == token.ASSIGN && len(s.Lhs) == 1 {
		if ix, ok := s.Lhs[0].(*ast.IndexExpr); ok && simpleOperand(ix, w.info) && w.splitRhs(s.Lhs[0], s.Rhs[0]) {
			w.expr(&s.Lhs[0])
			w.expr(&s.Rhs[0])
			t := w.tmp()
			w.in.counts["split element stores"]++
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Rhs[0]}},
				w.yield(),
				&ast.AssignStmt{Lhs: []ast.Expr{s.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t)}},
			}}
		}
	}
	for i := range s.Lhs {
		w.expr(&s.Lhs[i])
	}
	w.assignRhs(s)
	return s
}

// splitRhs reports whether rhs can be computed into a temporary first.
func (w *rewriter) splitRhs(lhs, rhs ast.Expr) bool {
	tv, ok := w.info.Types[rhs]
	if !ok || tv.Value != nil || tv.Type == nil {
		return false
	}
	lt := w.typeOf(lhs)
	if lt == nil || !types.Identical(lt, tv.Type) || isMap(w.typeOf(ast.Unparen(lhs).(*ast.IndexExpr).X)) {
		return false
	}
	good := true
	reads := false
	ast.Inspect(rhs, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			if n.Op == token.SHL || n.Op == token.SHR {
				if x, ok := w.info.Types[n.X]; ok && x.Value != nil {
					good = false
				}
			}
			switch n.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ, token.LAND, token.LOR:
				good = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				good = false
			}
		case *ast.IndexExpr:
			if tv, ok := w.info.Types[n]; ok && tv.IsValue() {
				reads = true
			}
		case *ast.FuncLit:
			good = false
		}
		return good
	})
	if id, ok := rhs.(*ast.Ident); ok && id.Name == "nil" {
		return false
	}
	return good && reads
}

func (w *rewriter) splitOp(x ast.Expr, op token.Token, e ast.Expr) ast.Stmt {
	w.in.counts["split read-modify-writes"]++
	y := cloneExpr(x)
	w.expr(&x)
	t := w.tmp()
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		w.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{y}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(t), Op: op, Y: e}}},
	}}
}

func cloneExpr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(e.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: cloneExpr(e.X), Sel: ast.NewIdent(e.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: cloneExpr(e.X), Index: cloneExpr(e.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: cloneExpr(e.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: cloneExpr(e.X)}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: cloneExpr(e.X), Op: e.Op, Y: cloneExpr(e.Y)}
	}
	panic("cloneExpr")
}

// splittable: the location may be shared between goroutines and can be named twice.
func (w *rewriter) splittable(x ast.Expr) bool {
	if !w.mode.split || !simpleOperand(x, w.info) {
		return false
	}
	switch x := ast.Unparen(x).(type) {
	case *ast.Ident:
		o := w.info.Uses[x]
		if o == nil {
			return false
		}
		if o.Parent() == w.pkg.Scope() {
			return true
		}
		// captured by the innermost function literal
		f := w.funcs[len(w.funcs)-1]
		return o.Pos() < f.Pos() || o.Pos() > f.End()
	case *ast.IndexExpr:
		if isMap(w.typeOf(x.X)) {
			return false
		}
		return w.mode.splitStore || w.mode.stmt && !strings.Contains(w.pkg.Path(), "/math/")
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	}
	return false
}

// simpleOperand: no calls, no side effects, clonable.
func simpleOperand(e ast.Expr, info *types.Info) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simpleOperand(e.X, info)
	case *ast.IndexExpr:
		return simpleOperand(e.X, info) && simpleOperand(e.Index, info)
	case *ast.StarExpr:
		return simpleOperand(e.X, info)
	case *ast.ParenExpr:
		return simpleOperand(e.X, info)
	case *ast.BinaryExpr:
		return simpleOperand(e.X, info) && simpleOperand(e.Y, info)
	}
	return false
}

// pure: evaluating e later in the same statement makes no difference.
func pure(e ast.Expr, info *types.Info) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if tv, k := info.Types[n.Fun]; k && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (w *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	w.in.counts["go statements"]++
	c := s.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		t := w.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(t)
	}
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
		// bind the parameters with a call, so that untyped arguments convert as they should
		var e ast.Expr = fl
		w.expr(&e)
		for i := range c.Args {
			w.expr(&c.Args[i])
		}
		inner := &ast.CallExpr{Fun: w.sim("Go"), Args: []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: fl.Body}}}
		if fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
			// keep the results: call the literal inside
			inner.Args[0] = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fl.Type.Results}, Body: fl.Body}}}}}}
		}
		if len(c.Args) == 0 {
			return &ast.ExprStmt{X: inner}
		}
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: fl.Type.Params},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}, Args: c.Args, Ellipsis: c.Ellipsis}}
	}
	builtin := false
	if tv, ok := w.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		builtin = true
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := w.info.Types[a]
		w.expr(&a)
		if tv.Value != nil || tv.IsNil() {
			args[i] = a
		} else {
			args[i] = bind(a)
		}
	}
	fun := c.Fun
	if !builtin {
		isFn := false
		switch f := ast.Unparen(fun).(type) {
		case *ast.Ident:
			_, isFn = w.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if id, ok := f.X.(*ast.Ident); ok {
				_, isFn = w.info.Uses[id].(*types.PkgName)
			}
		}
		w.expr(&fun)
		if !isFn {
			if _, ok := ast.Unparen(fun).(*ast.IndexExpr); !ok {
				fun = bind(fun)
			}
		}
	}
	var body ast.Expr = &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	if builtin {
		w.expr(&body)
	}
	pre = append(pre, &ast.ExprStmt{X: w.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})})
	return &ast.BlockStmt{List: pre}
}

func (w *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := w.typeOf(s.X)
	w.expr(&s.X)
	switch {
	case isChan(t):
		w.in.counts["channel loops"]++
		w.loopBody(s.Body)
		var v ast.Expr = ast.NewIdent("_")
		if s.Key != nil {
			w.expr(&s.Key)
			v = s.Key
		}
		ch, ok := w.tmp(), w.tmp()
		if s.Tok != token.DEFINE && s.Key != nil {
			// v already exists
			body := append([]ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch + "v"), ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("ChanRecv2", ast.NewIdent(ch))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(ch + "v")}},
			}, s.Body.List...)
			return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, Body: &ast.BlockStmt{List: body}}
		}
		body := append([]ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("ChanRecv2", ast.NewIdent(ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}, s.Body.List...)
		if id, isId := v.(*ast.Ident); isId && id.Name != "_" {
			// keep "declared and not used" away
			body = append(body[:2:2], append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}}}, s.Body.List...)...)
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, Body: &ast.BlockStmt{List: body}}
	case isMap(t):
		w.in.counts["map loops"]++
		w.loopBody(s.Body)
		m, k := w.tmp(), w.tmp()
		var body []ast.Stmt
		body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: w.call("MapHas", ast.NewIdent(m), ast.NewIdent(k))},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		set := func(lhs ast.Expr, rhs ast.Expr) {
			if id, ok := lhs.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: s.Tok, Rhs: []ast.Expr{rhs}})
			if id, ok := lhs.(*ast.Ident); ok && s.Tok == token.DEFINE {
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(id.Name)}})
			}
		}
		if s.Key != nil {
			w.expr(&s.Key)
			set(s.Key, ast.NewIdent(k))
		}
		if s.Value != nil {
			w.expr(&s.Value)
			set(s.Value, &ast.IndexExpr{X: ast.NewIdent(m), Index: ast.NewIdent(k)})
		}
		body = append(body, s.Body.List...)
		// the map expression is evaluated once, in an enclosing for so that labels keep working
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(k), Tok: token.DEFINE,
			X: w.call("MapKeys", s.X), Body: &ast.BlockStmt{List: body}}
		if simpleOperand(s.X, w.info) {
			// name the map again inside
			loop.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{cloneExpr(s.X)}}}, loop.Body.List...)
			return loop
		}
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
			&ast.RangeStmt{Key: loop.Key, Value: loop.Value, Tok: token.DEFINE, X: w.call("MapKeys", ast.NewIdent(m)), Body: loop.Body},
		}}
	}
	if s.Key != nil && s.Tok != token.DEFINE {
		w.expr(&s.Key)
	}
	if s.Value != nil && s.Tok != token.DEFINE {
		w.expr(&s.Value)
	}
	w.loopBody(s.Body)
	return s
}

func (w *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	w.in.counts["selects"]++
	var names []ast.Expr
	var inits []ast.Expr
	hasDefault := "false"
	body := &ast.BlockStmt{}
	i := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			body.List = append(body.List, &ast.CaseClause{List: nil, Body: w.stmts(cc.Body)})
			continue
		}
		t := w.tmp()
		var pre []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			w.expr(&u.X)
			return w.call("RecvCase", u.X)
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			w.expr(&m.Chan)
			w.expr(&m.Value)
			inits = append(inits, w.call("SendCase", m.Chan, m.Value))
		case *ast.ExprStmt:
			inits = append(inits, recv(m.X))
		case *ast.AssignStmt:
			inits = append(inits, recv(m.Rhs[0]))
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(t), Sel: ast.NewIdent("Val")}}
			if len(m.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(t), Sel: ast.NewIdent("Ok")})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rhs})
		}
		names = append(names, ast.NewIdent(t))
		body.List = append(body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}, Body: append(pre, w.stmts(cc.Body)...)})
		i++
	}
	args := []ast.Expr{ast.NewIdent(hasDefault)}
	for _, n := range names {
		args = append(args, ast.NewIdent(n.(*ast.Ident).Name))
	}
	sw := &ast.SwitchStmt{Tag: w.call("Select", args...), Body: body}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: inits}
	}
	return sw
}

var selRepl = map[string]map[string]string{
	"runtime":      {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Gosched", "NumGoroutine": "NumGoroutine"},
	"crypto/rand":  {"Read": "RandRead", "Reader": "RandReader"},
	"time":         {"Now": "Now", "Sleep": "Sleep", "Since": "Since", "After": "After"},
	"math/rand":    {},
	"math/rand/v2": {},
}

// expr rewrites an expression in place.
func (w *rewriter) expr(p *ast.Expr) {
	switch e := (*p).(type) {
	case nil:
	case *ast.ChanType:
		w.expr(&e.Value)
		*p = &ast.StarExpr{X: &ast.IndexExpr{X: w.sim("Chan"), Index: e.Value}}
	case *ast.UnaryExpr:
		w.expr(&e.X)
		if e.Op == token.ARROW {
			*p = w.call("ChanRecv", e.X)
		}
	case *ast.CallExpr:
		if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
			if _, isB := w.info.Uses[id].(*types.Builtin); isB && len(e.Args) > 0 {
				t := w.typeOf(e.Args[0])
				switch {
				case id.Name == "make" && isChan(t):
					if ct, ok := ast.Unparen(e.Args[0]).(*ast.ChanType); ok {
						w.expr(&ct.Value)
						args := e.Args[1:]
						for i := range args {
							w.expr(&args[i])
						}
						*p = &ast.CallExpr{Fun: &ast.IndexExpr{X: w.sim("MakeChan"), Index: ct.Value}, Args: args}
						w.in.counts["channels"]++
						return
					}
				case id.Name == "close" && isChan(t):
					w.expr(&e.Args[0])
					*p = w.call("ChanClose", e.Args[0])
					return
				case (id.Name == "len" || id.Name == "cap") && isChan(t):
					w.expr(&e.Args[0])
					*p = w.call(map[string]string{"len": "ChanLen", "cap": "ChanCap"}[id.Name], e.Args[0])
					return
				}
			}
		}
		w.expr(&e.Fun)
		for i := range e.Args {
			w.expr(&e.Args[i])
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if m, ok := selRepl[path]; ok {
					if r, ok := m[e.Sel.Name]; ok {
						w.repl[pn]++
						w.in.counts["seams: "+path+"."+e.Sel.Name]++
						*p = w.sim(r)
						return
					}
					if path == "math/rand" || path == "math/rand/v2" {
						if f, ok := w.info.Uses[e.Sel].(*types.Func); ok && !strings.HasPrefix(f.Name(), "New") {
							w.repl[pn]++
							w.in.counts["seams: "+path+"."+e.Sel.Name]++
							g := "MathRand"
							if path == "math/rand/v2" {
								g = "MathRandV2"
							}
							*p = &ast.SelectorExpr{X: w.call(g), Sel: e.Sel}
							return
						}
					}
				}
				return
			}
		}
		w.expr(&e.X)
	case *ast.FuncLit:
		w.funcType(e.Type)
		w.funcs = append(w.funcs, e)
		w.funcBody(e.Body)
		w.funcs = w.funcs[:len(w.funcs)-1]
	case *ast.FuncType:
		w.funcType(e)
	case *ast.ParenExpr:
		w.expr(&e.X)
	case *ast.IndexExpr:
		w.expr(&e.X)
		w.expr(&e.Index)
	case *ast.IndexListExpr:
		w.expr(&e.X)
		for i := range e.Indices {
			w.expr(&e.Indices[i])
		}
	case *ast.SliceExpr:
		w.expr(&e.X)
		for _, q := range []*ast.Expr{&e.Low, &e.High, &e.Max} {
			if *q != nil {
				w.expr(q)
			}
		}
	case *ast.StarExpr:
		w.expr(&e.X)
	case *ast.TypeAssertExpr:
		w.expr(&e.X)
		if e.Type != nil {
			w.expr(&e.Type)
		}
	case *ast.BinaryExpr:
		w.expr(&e.X)
		w.expr(&e.Y)
	case *ast.KeyValueExpr:
		w.expr(&e.Key)
		w.expr(&e.Value)
	case *ast.CompositeLit:
		if e.Type != nil {
			w.expr(&e.Type)
		}
		for i := range e.Elts {
			w.expr(&e.Elts[i])
		}
	case *ast.ArrayType:
		if e.Len != nil {
			w.expr(&e.Len)
		}
		w.expr(&e.Elt)
	case *ast.MapType:
		w.expr(&e.Key)
		w.expr(&e.Value)
	case *ast.StructType:
		w.fieldTypes(e.Fields)
	case *ast.InterfaceType:
		w.fieldTypes(e.Methods)
	case *ast.Ellipsis:
		if e.Elt != nil {
			w.expr(&e.Elt)
		}
	}
}

// copySim adds the runtime and the harness to an instrumented copy.
func copySim(verif, out, mod string) error {
	for _, d := range []string{"simrt", "simrt/simsync", "harness"} {
		src := filepath.Join(verif, d)
		dst := filepath.Join(out, d)
		if d == "harness" {
			dst = filepath.Join(out, "simharness")
		}
		if err := os.MkdirAll(dst, 0o755); err != nil {
			return err
		}
		es, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		var names []string
		for _, e := range es {
			if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") {
				names = append(names, e.Name())
			}
		}
		sort.Strings(names)
		for _, n := range names {
			b := mustRead(filepath.Join(src, n))
			b = bytes.ReplaceAll(b, []byte("SIMMODULE"), []byte(mod))
			if err := os.WriteFile(filepath.Join(dst, n), b, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}
