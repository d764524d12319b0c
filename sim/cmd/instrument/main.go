// Command instrument copies the library from a source tree into a build
// directory, replacing every source of nondeterminism by the simulator's seams:
// sync, sync/atomic, time and math/rand imports, go statements, channel operations,
// select, range over channels, runtime.Gosched; and it inserts scheduling points before
// statements and loop counters into loops. It works on any Go code of the
// tree as it is at that moment; the tree itself is not touched.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

const simPath = "verifsim/simrt"

var replaced = map[string]string{
	"sync":         "verifsim/shim/sync",
	"sync/atomic":  "verifsim/shim/atomic",
	"time":         "verifsim/shim/time",
	"math/rand":    "verifsim/shim/rand",
	"math/rand/v2": "verifsim/shim/randv2",
	"net":          "verifsim/shim/net",
}

type pkg struct {
	path   string
	dir    string
	name   string
	files  []string
	deps   []string
	outdir string
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(3)
}

var needContext bool

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("-out missing")
	}
	build.Default.CgoEnabled = false

	gomod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	modPath := firstMatch(`(?m)^module\s+(\S+)`, string(gomod))
	goVer := firstMatch(`(?m)^go\s+(\S+)`, string(gomod))
	if modPath == "" || goVer == "" {
		die("cannot parse go.mod")
	}

	// find the packages below memcache/
	pkgs := map[string]*pkg{}
	err = filepath.Walk(filepath.Join(*src, "memcache"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		if b := filepath.Base(p); b == "testdata" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") {
			return filepath.SkipDir
		}
		bp, err := build.ImportDir(p, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				return nil
			}
			return err
		}
		if bp.Name == "main" {
			return nil
		}
		rel, _ := filepath.Rel(*src, p)
		ip := modPath + "/" + filepath.ToSlash(rel)
		pk := &pkg{path: ip, dir: p, name: bp.Name, files: bp.GoFiles, deps: bp.Imports, outdir: filepath.Join(*out, rel)}
		pkgs[ip] = pk
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	for _, p := range pkgs {
		for _, d := range p.deps {
			if d == "context" {
				needContext = true
			}
		}
	}
	// topological order
	var order []*pkg
	state := map[string]int{}
	var visit func(string)
	visit = func(ip string) {
		p := pkgs[ip]
		if p == nil || state[ip] == 2 {
			return
		}
		if state[ip] == 1 {
			die("import cycle through %s", ip)
		}
		state[ip] = 1
		for _, d := range p.deps {
			visit(d)
		}
		state[ip] = 2
		order = append(order, p)
	}
	var names []string
	for ip := range pkgs {
		names = append(names, ip)
	}
	sort.Strings(names)
	for _, ip := range names {
		visit(ip)
	}

	fset := token.NewFileSet()
	imp := &chainImporter{std: importer.ForCompiler(fset, "source", nil), done: map[string]*types.Package{}}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	if needContext {
		cdir := filepath.Join(runtime.GOROOT(), "src", "context")
		instrumentContext(fset, imp, cdir, filepath.Join(*out, "verif_context"), modPath)
	}
	for _, p := range order {
		instrumentPkg(fset, imp, p, modPath)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+modPath+"\n\ngo "+goVer+"\n"), 0o644); err != nil {
		die("%v", err)
	}
}

func firstMatch(re, s string) string {
	m := regexp.MustCompile(re).FindStringSubmatch(s)
	if m == nil {
		return ""
	}
	return m[1]
}

type chainImporter struct {
	std  types.Importer
	done map[string]*types.Package
}

func (c *chainImporter) Import(path string) (*types.Package, error) {
	if p := c.done[path]; p != nil {
		return p, nil
	}
	return c.std.Import(path)
}

func instrumentPkg(fset *token.FileSet, imp *chainImporter, p *pkg, modPath string) {
	var files []*ast.File
	for _, f := range p.files {
		af, err := parser.ParseFile(fset, filepath.Join(p.dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp}
	tp, err := conf.Check(p.path, fset, files, info)
	if err != nil {
		die("type check of %s: %v", p.path, err)
	}
	imp.done[p.path] = tp
	if err := os.MkdirAll(p.outdir, 0o755); err != nil {
		die("%v", err)
	}
	for i, f := range files {
		t := &transformer{fset: fset, info: info, modPath: modPath}
		t.file(f)
		writeFile(fset, f, filepath.Join(p.outdir, p.files[i]))
	}
}

func instrumentContext(fset *token.FileSet, imp *chainImporter, dir, outdir, modPath string) {
	b, err := os.ReadFile(filepath.Join(dir, "context.go"))
	if err != nil {
		die("context: %v", err)
	}
	srcText := strings.ReplaceAll(string(b), `"internal/reflectlite"`, `reflectlite "reflect"`)
	af, err := parser.ParseFile(fset, filepath.Join(dir, "context.go"), srcText, parser.SkipObjectResolution)
	if err != nil {
		die("context: %v", err)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp}
	if _, err := conf.Check("context", fset, []*ast.File{af}, info); err != nil {
		die("context: %v", err)
	}
	if err := os.MkdirAll(outdir, 0o755); err != nil {
		die("%v", err)
	}
	t := &transformer{fset: fset, info: info, modPath: modPath}
	t.file(af)
	writeFile(fset, af, filepath.Join(outdir, "context.go"))
}

func writeFile(fset *token.FileSet, f *ast.File, path string) {
	f.Comments = nil
	var buf bytes.Buffer
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
	if err := cfg.Fprint(&buf, fset, f); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, buf.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
}

type transformer struct {
	fset    *token.FileSet
	info    *types.Info
	modPath string
	tmp     int
	used    bool
}

func (t *transformer) file(f *ast.File) {
	for _, spec := range f.Imports {
		path, _ := strconv.Unquote(spec.Path.Value)
		np := replaced[path]
		base := filepath.Base(path)
		if path == "math/rand/v2" {
			base = "rand"
		}
		if path == "context" {
			np = t.modPath + "/verif_context"
		}
		if np == "" {
			continue
		}
		spec.Path.Value = strconv.Quote(np)
		if spec.Name == nil {
			spec.Name = ast.NewIdent(base)
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				t.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for i := range vs.Values {
						vs.Values[i] = t.expr(vs.Values[i])
					}
				}
			}
		}
	}
	if t.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
}

func (t *transformer) sim(name string) ast.Expr {
	t.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent(name)}
}

func (t *transformer) call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: fn, Args: args}
}

func (t *transformer) stmtCall(name string) ast.Stmt {
	return &ast.ExprStmt{X: t.call(t.sim(name))}
}

func (t *transformer) fresh(p string) *ast.Ident {
	t.tmp++
	return ast.NewIdent(fmt.Sprintf("%s__%d", p, t.tmp))
}

func (t *transformer) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = t.stmts(b.List)
}

func (t *transformer) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch x := s.(type) {
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		case *ast.BranchStmt:
			if x.Tok == token.FALLTHROUGH { // must stay last
				out = append(out, s)
				continue
			}
		}
		out = append(out, t.stmtCall("Y"))
		if sp := t.split(s); sp != nil {
			out = append(out, sp)
			continue
		}
		out = append(out, t.stmt(s))
	}
	return out
}

// split makes an update of a memory location that other goroutines may see two
// steps, with a scheduling point between them: what is stored is computed first.
//
//	x.f++      =>  { tmp := x.f; Y(); x.f = tmp + 1 }
//	x.f = expr =>  { tmp := expr; Y(); x.f = tmp }
func (t *transformer) split(s ast.Stmt) ast.Stmt {
	var lhs, rhs ast.Expr
	var op token.Token
	switch x := s.(type) {
	case *ast.IncDecStmt:
		lhs, rhs, op = x.X, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || isRecv(x.Rhs[0]) != nil {
			return nil
		}
		lhs, rhs = x.Lhs[0], x.Rhs[0]
		if x.Tok != token.ASSIGN {
			op = x.Tok - token.ADD_ASSIGN + token.ADD
		}
	default:
		return nil
	}
	if !t.sharedPlace(lhs) {
		return nil
	}
	lt := t.info.Types[lhs]
	tmp := t.fresh("u")
	use := func() ast.Expr { return ast.NewIdent(tmp.Name) }
	if op != token.ILLEGAL {
		if t.calls(rhs) { // may change the place itself: the order of evaluation matters
			return nil
		}
		// the value read first, the right side and the store after the scheduling point
		if _, isLit := rhs.(*ast.BasicLit); !isLit {
			rhs = &ast.ParenExpr{X: t.expr(rhs)}
		}
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{tmp}, Tok: token.DEFINE, Rhs: []ast.Expr{copyPlace(lhs)}},
			t.stmtCall("Y"),
			&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: use(), Op: op, Y: rhs}}},
		}}
	}
	rt, ok := t.info.Types[rhs]
	if !ok || rt.Value != nil || rt.IsNil() || rt.Type == nil || lt.Type == nil || !types.Identical(rt.Type, lt.Type) || t.constShift(rhs) {
		return nil
	}
	if b, ok := lt.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && !types.Identical(lt.Type, types.Typ[types.Bool]) {
		return nil // a comparison is of no type until it is assigned
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{tmp}, Tok: token.DEFINE, Rhs: []ast.Expr{t.expr(rhs)}},
		t.stmtCall("Y"),
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{use()}},
	}}
}

// calls reports whether e calls a function or receives from a channel.
func (t *transformer) calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv := t.info.Types[x.Fun]; !tv.IsType() && !tv.IsBuiltin() {
				found = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return found
}

// constShift: such an expression takes its type from where it is used.
func (t *transformer) constShift(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.SHL || b.Op == token.SHR) && t.info.Types[b.X].Value != nil {
			found = true
		}
		return true
	})
	return found
}

// sharedPlace reports whether e denotes memory other goroutines may reach (a field, an
// element, a pointer's target or a package variable) by a path without side effects.
func (t *transformer) sharedPlace(e ast.Expr) bool {
	tv, ok := t.info.Types[e]
	if !ok || !tv.Addressable() {
		return false // map elements, among others
	}
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.Ident:
			v, ok := t.info.Uses[x].(*types.Var)
			return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
			return simplePath(e)
		}
		return false
	}
}

func simplePath(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return simplePath(x.X)
	case *ast.SelectorExpr:
		return simplePath(x.X)
	case *ast.StarExpr:
		return simplePath(x.X)
	case *ast.IndexExpr:
		return simplePath(x.X) && simplePath(x.Index)
	}
	return false
}

// copyPlace makes a copy of the syntax of a path.
func copyPlace(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(x.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: copyPlace(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: copyPlace(x.X), Sel: ast.NewIdent(x.Sel.Name)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: copyPlace(x.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: copyPlace(x.X), Index: copyPlace(x.Index)}
	}
	panic("copyPlace")
}

func (t *transformer) loopBody(b *ast.BlockStmt) {
	t.block(b)
	b.List = append([]ast.Stmt{t.stmtCall("L")}, b.List...)
}

func (t *transformer) isChan(e ast.Expr) bool {
	tv, ok := t.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (t *transformer) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = t.expr(l[i])
	}
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (t *transformer) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = t.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: t.call(t.call(t.sim("SendTo"), t.expr(x.Chan)), t.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = t.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := isRecv(x.Rhs[0]); u != nil {
				t.exprs(x.Lhs)
				x.Rhs[0] = t.call(t.sim("Recv2"), t.expr(u.X))
				return x
			}
		}
		t.exprs(x.Lhs)
		t.exprs(x.Rhs)
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if u := isRecv(vs.Values[0]); u != nil {
							vs.Values[0] = t.call(t.sim("Recv2"), t.expr(u.X))
							continue
						}
					}
					t.exprs(vs.Values)
				}
			}
		}
	case *ast.GoStmt:
		return t.goStmt(x)
	case *ast.DeferStmt:
		x.Call = t.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		t.exprs(x.Results)
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.BlockStmt:
		t.block(x)
	case *ast.IfStmt:
		x.Init = t.stmt(x.Init)
		x.Cond = t.expr(x.Cond)
		t.block(x.Body)
		x.Else = t.stmt(x.Else)
	case *ast.CaseClause:
		t.exprs(x.List)
		x.Body = t.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = t.stmt(x.Init)
		if x.Tag != nil {
			x.Tag = t.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			t.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = t.stmt(x.Init)
		x.Assign = t.stmt(x.Assign)
		for _, c := range x.Body.List { // case lists hold types
			cc := c.(*ast.CaseClause)
			cc.Body = t.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return t.selectStmt(x, nil)
	case *ast.ForStmt:
		x.Init = t.stmt(x.Init)
		if x.Cond != nil {
			x.Cond = t.expr(x.Cond)
		}
		x.Post = t.stmt(x.Post)
		t.loopBody(x.Body)
	case *ast.RangeStmt:
		if t.isChan(x.X) {
			return t.rangeChan(x)
		}
		if x.Key != nil {
			x.Key = t.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = t.expr(x.Value)
		}
		x.X = t.expr(x.X)
		t.loopBody(x.Body)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return t.selectStmt(sel, x.Label)
		}
		x.Stmt = t.stmt(x.Stmt)
	default:
		die("%s: unknown statement %T", t.fset.Position(s.Pos()), s)
	}
	return s
}

// for v := range ch { body }  =>  for v, ok := Recv2(ch); ok; v, ok = Recv2(ch) { body }
func (t *transformer) rangeChan(x *ast.RangeStmt) ast.Stmt {
	ch := t.fresh("ch")
	ok := t.fresh("ok")
	chExpr := t.expr(x.X)
	t.loopBody(x.Body)
	recv := func() ast.Expr { return t.call(t.sim("Recv2"), ast.NewIdent(ch.Name)) }
	id := func(i *ast.Ident) ast.Expr { return ast.NewIdent(i.Name) }
	var v ast.Expr = ast.NewIdent("_")
	if x.Tok == token.DEFINE && x.Key != nil {
		if kid, isID := x.Key.(*ast.Ident); isID && kid.Name != "_" {
			tmp := t.fresh("v")
			x.Body.List = append([]ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{id(tmp)}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(kid.Name)}},
			}, x.Body.List...)
			v = tmp
		}
	} else if x.Key != nil {
		tmp := t.fresh("v")
		x.Body.List = append([]ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{t.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tmp)}},
		}, x.Body.List...)
		v = tmp
	}
	vid := v.(*ast.Ident)
	loop := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id(vid), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv()}},
		Cond: id(ok),
		Post: &ast.AssignStmt{Lhs: []ast.Expr{id(vid), id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}},
		Body: x.Body,
	}
	// the channel expression is evaluated once; a label on the loop stays usable because
	// the channel goes into the loop's own init through a closure-free trick: evaluate it
	// in the init statement together with the first receive.
	loop.Init = &ast.AssignStmt{
		Lhs: []ast.Expr{id(ch), id(vid), id(ok)}, Tok: token.DEFINE,
		Rhs: []ast.Expr{t.call(t.sim("RangeInit"), chExpr)},
	}
	return loop
}

func (t *transformer) goStmt(x *ast.GoStmt) ast.Stmt {
	call := x.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		t.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: t.call(t.sim("Go"), fl)}
		}
		return &ast.ExprStmt{X: t.call(t.sim("Go"), wrapCall(t.call(fl)))}
	}
	// evaluate function value and arguments now
	var pre []ast.Stmt
	save := func(e ast.Expr) ast.Expr {
		if tv, ok := t.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return t.expr(e)
		}
		v := t.fresh("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{t.expr(e)}})
		return ast.NewIdent(v.Name)
	}
	isBuiltin := false
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, b := t.info.Uses[id].(*types.Builtin); b {
			isBuiltin = true
		}
	}
	fun := call.Fun
	if !isBuiltin {
		if tv, ok := t.info.Types[call.Fun]; ok && !tv.IsType() {
			if id, isID := call.Fun.(*ast.Ident); isID {
				if _, isFn := t.info.Uses[id].(*types.Func); isFn {
					fun = call.Fun // a plain function, possibly generic
				} else {
					fun = save(call.Fun)
				}
			} else if sel, isSel := call.Fun.(*ast.SelectorExpr); isSel {
				if pid, ok := sel.X.(*ast.Ident); ok {
					if _, isPkg := t.info.Uses[pid].(*types.PkgName); isPkg {
						fun = t.expr(call.Fun)
						goto args
					}
				}
				fun = save(call.Fun) // method value: binds the receiver now
			} else {
				fun = save(call.Fun)
			}
		}
	}
args:
	nc := &ast.CallExpr{Fun: fun, Ellipsis: call.Ellipsis}
	for _, a := range call.Args {
		nc.Args = append(nc.Args, save(a))
	}
	var inner ast.Expr = nc
	if isBuiltin {
		inner = t.builtin(nc, call)
	}
	pre = append(pre, &ast.ExprStmt{X: t.call(t.sim("Go"), wrapCall(inner))})
	return &ast.BlockStmt{List: pre}
}

func wrapCall(e ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
}

func (t *transformer) builtin(nc, orig *ast.CallExpr) ast.Expr {
	if id, ok := orig.Fun.(*ast.Ident); ok && id.Name == "close" {
		nc.Fun = t.sim("Close")
	}
	return nc
}

func (t *transformer) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var caseVars []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := t.stmts(cc.Body)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{
				List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: body})
			continue
		}
		v := t.fresh("c")
		var head []ast.Stmt
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE,
				Rhs: []ast.Expr{t.call(t.call(t.sim("S"), t.expr(comm.Chan)), t.expr(comm.Value))}})
		case *ast.ExprStmt:
			u := isRecv(comm.X)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE,
				Rhs: []ast.Expr{t.call(t.sim("R"), t.expr(u.X))}})
		case *ast.AssignStmt:
			u := isRecv(comm.Rhs[0])
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE,
				Rhs: []ast.Expr{t.call(t.sim("R"), t.expr(u.X))}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("V")}}
			if len(comm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent("OK")})
			}
			allBlank := true
			for _, l := range comm.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
			}
			tok := comm.Tok
			if allBlank {
				tok = token.ASSIGN
			}
			t.exprs(comm.Lhs)
			head = append(head, &ast.AssignStmt{Lhs: comm.Lhs, Tok: tok, Rhs: rhs})
		default:
			die("%s: unknown communication clause %T", t.fset.Position(cc.Pos()), cc.Comm)
		}
		caseVars = append(caseVars, ast.NewIdent(v.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(head, body...)})
		idx++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
		&ast.ExprStmt{X: t.call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	def := "false"
	if hasDefault {
		def = "true"
	}
	sw.Tag = t.call(t.sim("Select"), append([]ast.Expr{ast.NewIdent(def)}, caseVars...)...)
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func (t *transformer) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return t.call(t.sim("Recv"), t.expr(x.X))
		}
		x.X = t.expr(x.X)
	case *ast.FuncLit:
		t.block(x.Body)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
			if _, b := t.info.Uses[id].(*types.Builtin); b {
				x.Fun = t.sim("Close")
				t.exprs(x.Args)
				return x
			}
		}
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Gosched" {
			if pid, ok := sel.X.(*ast.Ident); ok {
				if pn, isPkg := t.info.Uses[pid].(*types.PkgName); isPkg && pn.Imported().Path() == "runtime" {
					t.used = true
					x.Fun = t.sim("GoschedOf")
					x.Args = []ast.Expr{sel}
					return x
				}
			}
		}
		x.Fun = t.expr(x.Fun)
		t.exprs(x.Args)
	case *ast.ParenExpr:
		x.X = t.expr(x.X)
	case *ast.SelectorExpr:
		x.X = t.expr(x.X)
	case *ast.IndexExpr:
		x.X = t.expr(x.X)
		x.Index = t.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = t.expr(x.X)
	case *ast.SliceExpr:
		x.X = t.expr(x.X)
		x.Low = t.expr(x.Low)
		x.High = t.expr(x.High)
		x.Max = t.expr(x.Max)
	case *ast.StarExpr:
		x.X = t.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = t.expr(x.X)
	case *ast.BinaryExpr:
		x.X = t.expr(x.X)
		x.Y = t.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Value = t.expr(x.Value)
		if _, isID := x.Key.(*ast.Ident); !isID {
			x.Key = t.expr(x.Key)
		}
	case *ast.CompositeLit:
		t.exprs(x.Elts)
	}
	return e
}
