// Command instr copies the packages of the tree under test into a scratch module in which every
// concurrency operation goes through the controlled scheduler (packages verifmc/vs, vsync, ...).
// The rewriting is syntactic plus go/types; it does not depend on how the code is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/DanLavine/willow"
const rtPath = modPath + "/verifmc/"

var thirdParty = map[string]string{
	"github.com/DanLavine/goasync":    "goasync",
	"github.com/DanLavine/channelops": "channelops",
	"github.com/DanLavine/gonotify":   "gonotify",
	"github.com/DanLavine/contextops": "contextops",
}

var redirect = map[string]string{
	"sync":                       rtPath + "vsync",
	"sync/atomic":                rtPath + "vatomic",
	"time":                       rtPath + "vtime",
	"context":                    rtPath + "vctx",
	"golang.org/x/net/context":   rtPath + "vctx",
	"github.com/segmentio/ksuid": rtPath + "vksuid",
	"github.com/google/uuid":     rtPath + "vuuid",
	"os/signal":                  rtPath + "vsignal",
	"log":                        rtPath + "vlog",
}

// replaced maps functions and methods of packages that are not rewritten to their stand-ins. A method is replaced by
// a function that takes the receiver and gives the bound method.
var replaced = map[string][2]string{
	"os.Exit":                              {"vproc", "Exit"},
	"net.Listen":                           {"vhttp", "Listen"},
	"net/http.ListenAndServe":              {"vhttp", "ListenAndServeAddr"},
	"net/http.ListenAndServeTLS":           {"vhttp", "ListenAndServeTLSAddr"},
	"(*net/http.Server).ListenAndServe":    {"vhttp", "ListenAndServe"},
	"(*net/http.Server).ListenAndServeTLS": {"vhttp", "ListenAndServeTLS"},
	"(*net/http.Server).Serve":             {"vhttp", "Serve"},
	"(*net/http.Server).ServeTLS":          {"vhttp", "ServeTLS"},
	"(*net/http.Server).Shutdown":          {"vhttp", "Shutdown"},
	"(*net/http.Server).Close":             {"vhttp", "Close"},
	"(*net/http.Client).Do":                {"vhttp", "Do"},
	"(go.uber.org/zap.Config).Build":       {"vlog", "Build"},
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Export     string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

var (
	repo  = flag.String("repo", "/repo", "tree under test")
	out   = flag.String("out", "", "scratch module directory")
	roots = flag.String("roots", "./internal/... ./pkg/...", "package patterns")
	extra = flag.String("extra", "", "additional std/third-party import paths")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func goList(args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list %v: %v\n%s", args, err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var ps []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

func isLocal(p *listPkg) bool {
	if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
		return true
	}
	_, ok := thirdName(p.ImportPath)
	return ok
}

func thirdName(ip string) (string, bool) {
	for k, v := range thirdParty {
		if ip == k || strings.HasPrefix(ip, k+"/") {
			return modPath + "/verifmc/third/" + v + strings.TrimPrefix(ip, k), true
		}
	}
	return "", false
}

type importerT struct {
	src map[string]*types.Package
	gc  types.Importer
}

func (i *importerT) Import(path string) (*types.Package, error) {
	if p := i.src[path]; p != nil {
		return p, nil
	}
	return i.gc.Import(path)
}

func main() {
	flag.Parse()
	if *out == "" {
		die("-out required")
	}
	ps := goList(append([]string{"-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports,Standard,Error"}, strings.Fields(*roots)...)...)
	var local []*listPkg
	var ext []string
	for _, p := range ps {
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		if isLocal(p) {
			local = append(local, p)
		}
	}
	need := map[string]bool{}
	for _, p := range local {
		for _, im := range p.Imports {
			need[im] = true
		}
	}
	for _, p := range local {
		delete(need, p.ImportPath)
	}
	delete(need, "unsafe")
	delete(need, "C")
	for k := range need {
		ext = append(ext, k)
	}
	sort.Strings(ext)
	exp := map[string]string{}
	for _, p := range goList(append([]string{"-deps", "-export", "-json=ImportPath,Export"}, ext...)...) {
		exp[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &importerT{src: map[string]*types.Package{}, gc: gc}
	stats := map[string]int{}
	for _, p := range local {
		one(fset, imp, p, stats)
	}
	var ks []string
	for k := range stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("%s=%d ", k, stats[k])
	}
	fmt.Printf("packages=%d\n", len(local))
}

func one(fset *token.FileSet, imp *importerT, p *listPkg, stats map[string]int) {
	var files []*ast.File
	var names []string
	var heads []string
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, f)
		heads = append(heads, buildLines(src))
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.27", Error: func(err error) {}}
	if strings.HasPrefix(p.ImportPath, modPath) {
		conf.GoVersion = "go1.22"
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	imp.src[p.ImportPath] = tp
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
	if t, ok := thirdName(p.ImportPath); ok {
		rel = strings.TrimPrefix(t, modPath+"/")
	}
	dir := filepath.Join(*out, rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	for i, af := range files {
		r := &rewriter{info: info, fset: fset, stats: stats, pkg: tp}
		r.file(af)
		var b bytes.Buffer
		b.WriteString(heads[i])
		if err := format.Node(&b, fset, af); err != nil {
			die("print %s/%s: %v", p.ImportPath, names[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, names[i]), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func buildLines(src []byte) string {
	var o strings.Builder
	for _, l := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) {
			o.WriteString(t + "\n\n")
		}
	}
	return o.String()
}

// ---------------------------------------------------------------- rewriting

type rewriter struct {
	info  *types.Info
	fset  *token.FileSet
	stats map[string]int
	pkg   *types.Package
	useVS bool
	use   map[string]bool // further stand-in packages
	keep  []ast.Expr      // selectors whose package has to stay used
	n     int
}

// stand replaces a selector of a function or method that has a stand-in.
func (r *rewriter) stand(e *ast.SelectorExpr) ast.Expr {
	fn, ok := r.info.Uses[e.Sel].(*types.Func)
	if !ok {
		return nil
	}
	to, ok := replaced[fn.FullName()]
	if !ok {
		return nil
	}
	r.stats["standins"]++
	if r.use == nil {
		r.use = map[string]bool{}
	}
	r.use[to[0]] = true
	f := &ast.SelectorExpr{X: ast.NewIdent("_" + to[0]), Sel: ast.NewIdent(to[1])}
	sel, ok := r.info.Selections[e]
	if !ok { // a function of a package
		r.keep = append(r.keep, e)
		return f
	}
	x, t := r.expr(e.X), sel.Recv()
	for _, i := range sel.Index()[:len(sel.Index())-1] {
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		fld := u.(*types.Struct).Field(i)
		x, t = &ast.SelectorExpr{X: x, Sel: ast.NewIdent(fld.Name())}, fld.Type()
	}
	_, have := t.Underlying().(*types.Pointer)
	_, want := fn.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
	switch {
	case sel.Kind() != types.MethodVal:
		return nil
	case want && !have:
		x = &ast.UnaryExpr{Op: token.AND, X: x}
	case have && !want:
		x = &ast.StarExpr{X: x}
	}
	return &ast.CallExpr{Fun: f, Args: []ast.Expr{x}}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent("_vs" + p + strconv.Itoa(r.n))
}

func (r *rewriter) vs(name string) ast.Expr {
	r.useVS = true
	return &ast.SelectorExpr{X: ast.NewIdent("_vs"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vs(name), Args: args}
}

func (r *rewriter) file(f *ast.File) {
	// imports
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := redirect[path]; ok {
			if im.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				im.Name = ast.NewIdent(base)
			}
			im.Path.Value = strconv.Quote(to)
			im.EndPos = 0
			r.stats["imports"]++
		} else if to, ok := thirdName(path); ok {
			im.Path.Value = strconv.Quote(to)
		}
	}
	for i, d := range f.Decls {
		f.Decls[i] = r.decl(d)
	}
	for _, k := range r.keep {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{k}}}})
	}
	var also []string
	for k := range r.use {
		also = append(also, k)
	}
	sort.Strings(also)
	for _, k := range also {
		spec := &ast.ImportSpec{Name: ast.NewIdent("_" + k), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath + k)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if r.pkg.Name() == "main" {
		// the mains of the services become functions of ordinary packages
		f.Name.Name = "service"
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				fd.Name.Name = "Main"
			}
		}
	}
	if r.useVS {
		spec := &ast.ImportSpec{Name: ast.NewIdent("_vs"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath + "vs")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
}

func (r *rewriter) decl(d ast.Decl) ast.Decl {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			r.block(d.Body)
			r.tick(d.Body)
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				for i := range v.Values {
					v.Values[i] = r.expr(v.Values[i])
				}
				if len(v.Names) == 2 && len(v.Values) == 1 {
					v.Values[0] = r.recv2(v.Values[0])
				}
			}
		}
	}
	return d
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recv2 turns a rewritten vs.Recv(ch) into vs.Recv2(ch).
func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	if c, ok := unparen(e).(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "_vs" && s.Sel.Name == "Recv" {
				s.Sel.Name = "Recv2"
			}
		}
	}
	return e
}

func (r *rewriter) under(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := r.info.Uses[id]; o != nil {
				return coreType(o.Type())
			}
		}
		return nil
	}
	return coreType(tv.Type)
}

func coreType(t types.Type) types.Type {
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		// the single underlying type of the constraint, if any
		if in, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			var res types.Type
			for i := 0; i < in.NumEmbeddeds(); i++ {
				switch e := in.EmbeddedType(i).(type) {
				case *types.Union:
					for j := 0; j < e.Len(); j++ {
						res = e.Term(j).Type().Underlying()
					}
				default:
					res = e.Underlying()
				}
			}
			if res != nil {
				return res
			}
		}
	}
	return u
}

func (r *rewriter) isChan(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Chan)
	return ok
}

func (r *rewriter) isMap(e ast.Expr) bool {
	_, ok := r.under(e).(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.stats["recv"]++
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if r.isBuiltin(e.Fun, "make") && len(e.Args) > 0 && r.isChan(e.Args[0]) {
			r.stats["make"]++
			for i := 1; i < len(e.Args); i++ {
				e.Args[i] = r.expr(e.Args[i])
			}
			return r.call("Make", e)
		}
		if r.isBuiltin(e.Fun, "close") {
			r.stats["close"]++
			r.exprs(e.Args)
			return r.call("Close", e.Args...)
		}
		if r.isBuiltin(e.Fun, "len") && len(e.Args) == 1 && r.isChan(e.Args[0]) {
			r.stats["len"]++
			r.exprs(e.Args)
			return r.call("Len", e.Args...)
		}
		if s, ok := unparen(e.Fun).(*ast.SelectorExpr); ok && s.Sel.Name == "Select" {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "reflect" {
					r.stats["reflectselect"]++
					r.exprs(e.Args)
					// keep the reflect import used
					return r.call("ReflectSelect", e.Args...)
				}
			}
		}
		if tv, ok := r.info.Types[e.Fun]; !ok || !tv.IsType() {
			e.Fun = r.expr(e.Fun)
		}
		if r.isBuiltin(e.Fun, "new") {
			return e
		}
		r.exprs(e.Args)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		if x := r.stand(e); x != nil {
			return x
		}
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X = r.expr(e.X)
		if tv, ok := r.info.Types[e.Index]; !ok || !tv.IsType() {
			e.Index = r.expr(e.Index)
		}
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		e.Low, e.High, e.Max = r.expr2(e.Low), r.expr2(e.High), r.expr2(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	}
	return e
}

func (r *rewriter) expr2(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e)
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		r.stats["send"]++
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: r.call("SendTo", r.expr(s.Chan)), Sel: ast.NewIdent("Do")},
			Args: []ast.Expr{r.expr(s.Value)},
		}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = r.recv2(s.Rhs[0])
		}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		r.exprs(s.Results)
		if len(s.Results) == 1 {
			// "return <-ch" in a two result function is not legal go, nothing to do
		}
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init = r.stmt2(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt2(s.Else)
	case *ast.CaseClause:
		for i := range s.List {
			if tv, ok := r.info.Types[s.List[i]]; ok && tv.IsType() {
				continue
			}
			s.List[i] = r.expr(s.List[i])
		}
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt2(s.Init)
		s.Tag = r.expr2(s.Tag)
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt2(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		s.Init = r.stmt2(s.Init)
		s.Cond = r.expr2(s.Cond)
		s.Post = r.stmt2(s.Post)
		r.block(s.Body)
		r.tick(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		r.decl(s.Decl)
	}
	return s
}

// tick counts the executions of a block.
func (r *rewriter) tick(b *ast.BlockStmt) {
	b.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("Tick")}}, b.List...)
}

func (r *rewriter) stmt2(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s)
}

func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	r.stats["go"]++
	c := s.Call
	// builtin or conversion targets: run inside
	var pre []ast.Stmt
	fun := c.Fun
	inline := false
	switch f := unparen(fun).(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			inline = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				inline = true
			}
		}
	case *ast.FuncLit:
		inline = true
	case *ast.IndexExpr, *ast.IndexListExpr:
		inline = true
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, r.expr(a))
			continue
		}
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			args = append(args, r.expr(a))
			continue
		}
		t := r.tmp("a")
		pre = append(pre, define(t, r.expr(a)))
		args = append(args, t)
	}
	nf := r.expr(fun)
	if !inline {
		t := r.tmp("f")
		pre = append([]ast.Stmt{define(t, nf)}, pre...)
		nf = t
	}
	var body ast.Expr
	call := &ast.CallExpr{Fun: nf, Args: args, Ellipsis: token.NoPos}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	if fl, ok := nf.(*ast.FuncLit); ok && len(args) == 0 && fl.Type.Params.NumFields() == 0 && fl.Type.Results.NumFields() == 0 {
		body = fl
	} else {
		inner := r.expr1Builtin(c, call)
		body = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	}
	st := &ast.ExprStmt{X: r.call("Go", body)}
	if len(pre) == 0 {
		return st
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func (r *rewriter) expr1Builtin(orig, c *ast.CallExpr) ast.Expr {
	if r.isBuiltin(orig.Fun, "close") {
		return r.call("Close", c.Args...)
	}
	return c
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.stats["select"]++
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: r.call("BlockForever")}
	}
	var ids, rhs []ast.Expr
	var clauses []ast.Stmt
	hasDefault := false
	n := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: r.stmts(cc.Body)})
			continue
		}
		id := r.tmp("c")
		ids = append(ids, id)
		var pre []ast.Stmt
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: r.call("NewSendOf", r.expr(c.Chan)), Sel: ast.NewIdent("Val")},
				Args: []ast.Expr{r.expr(c.Value)},
			})
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			rhs = append(rhs, r.call("NewRecv", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			rhs = append(rhs, r.call("NewRecv", r.expr(u.X)))
			vals := []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V")}}
			if len(c.Lhs) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: id, Sel: ast.NewIdent("OK")})
			}
			r.exprs(c.Lhs)
			tok := c.Tok
			if tok == token.DEFINE {
				// all blanks would be illegal with :=
				all := true
				for _, l := range c.Lhs {
					if x, ok := l.(*ast.Ident); !ok || x.Name != "_" {
						all = false
					}
				}
				if all {
					tok = token.ASSIGN
				}
			}
			pre = append(pre, &ast.AssignStmt{Lhs: c.Lhs, Tok: tok, Rhs: vals})
		}
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
			Body: append(pre, r.stmts(cc.Body)...),
		})
		n++
	}
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("unreachable")}}}}}})
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{List: clauses}}
	def := "false"
	if hasDefault {
		def = "true"
	}
	if len(ids) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = r.call("Select", append([]ast.Expr{ast.NewIdent(def)}, ids...)...)
	return sw
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	isC, isM := r.isChan(s.X), r.isMap(s.X)
	// key and value may be arbitrary lvalues
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	if !isC && !isM {
		s.X = r.expr(s.X)
		r.block(s.Body)
		return s
	}
	it := r.tmp("it")
	r.block(s.Body)
	var lhs, rhs []ast.Expr
	add := func(e ast.Expr, f string) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		lhs = append(lhs, e)
		rhs = append(rhs, &ast.SelectorExpr{X: it, Sel: ast.NewIdent(f)})
	}
	fn := "RangeOf"
	if isC {
		r.stats["rangechan"]++
		add(s.Key, "V")
	} else {
		r.stats["rangemap"]++
		fn = "MapRange"
		add(s.Key, "K")
		add(s.Value, "V")
	}
	body := s.Body
	if len(lhs) > 0 {
		body = &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs}, s.Body}}
		// one scope, so that "declared and not used" behaves as in the original
		body.List = append([]ast.Stmt{body.List[0]}, s.Body.List...)
		if redeclares(s.Body, lhs) {
			body.List = []ast.Stmt{body.List[0], s.Body}
		}
	}
	return &ast.ForStmt{
		Init: define(it, r.call(fn, r.expr(s.X))),
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}},
		Body: body,
	}
}

// redeclares reports whether the body declares one of the loop variables again at its top level.
func redeclares(b *ast.BlockStmt, lhs []ast.Expr) bool {
	names := map[string]bool{}
	for _, l := range lhs {
		if id, ok := l.(*ast.Ident); ok {
			names[id.Name] = true
		}
	}
	for _, s := range b.List {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				for _, l := range s.Lhs {
					if id, ok := l.(*ast.Ident); ok && names[id.Name] {
						return true
					}
				}
			}
		case *ast.DeclStmt:
			return true
		}
	}
	return false
}
