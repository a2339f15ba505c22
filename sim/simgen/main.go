// Command simgen rewrites the library's current source so that every source of
// nondeterminism goes through the simulator: package-level functions and types
// of sync, sync/atomic, time, os, os/signal, syscall, io.Pipe, net and
// runtime.Gosched are redirected to simulated ones, channel operations, select
// and go statements become simulator calls, and a yield point is put before
// every statement. It judges nothing and depends on no identifier of the
// library.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const (
	simPath = "verifsim/simrt"
	simName = "simrt_"
)

var overrides = map[string]struct {
	path  string
	names string // space separated; "*" = everything
}{
	"sync":        {"verifsim/xsync", "*"},
	"sync/atomic": {"verifsim/xatomic", "*"},
	"time":        {"verifsim/xtime", "Now Since Until Sleep Timer Ticker NewTimer NewTicker AfterFunc After Tick"},
	"os": {"verifsim/xos", "File Stdin Stdout Stderr OpenFile Open Create Rename Remove Truncate Mkdir MkdirAll Stat Lstat Chmod ReadFile WriteFile CreateTemp " +
		"Getpid Getppid TempDir Getenv LookupEnv UserHomeDir Process FindProcess Exit"},
	"io/ioutil": {"verifsim/xos", "ReadFile WriteFile"},
	"os/signal": {"verifsim/xsignal", "*"},
	"syscall":   {"verifsim/xsyscall", "Syscall Syscall6 RawSyscall Read Write Getpid Getppid Kill"},
	"io":        {"verifsim/xio", "Pipe PipeReader PipeWriter"},
	"net":       {"verifsim/xnet", "Listen Dial DialTimeout Pipe"},
	"runtime":   {"verifsim/xruntime", "Gosched"},
	"fmt":       {"verifsim/xfmt", "Print Println Printf"},
}

func overridden(path, name string) string {
	o, ok := overrides[path]
	if !ok {
		return ""
	}
	if o.names == "*" {
		return o.path
	}
	for _, n := range strings.Fields(o.names) {
		if n == name {
			return o.path
		}
	}
	return ""
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

type listPkg struct {
	ImportPath string
	Export     string
	Dir        string
	Standard   bool
	Imports    []string
}

var sites []string

func main() {
	src := flag.String("src", "/repo", "library source")
	out := flag.String("out", "", "module directory to write packages into")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,Standard,Imports", ".")
	cmd.Dir = *src
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOOS=linux", "GOARCH=amd64", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	pk := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pk[p.ImportPath] = p
		order = append(order, p)
	}
	root := order[len(order)-1]
	internal := map[string]string{}
	for _, p := range order {
		if p.Standard {
			continue
		}
		if p.ImportPath == root.ImportPath {
			internal[p.ImportPath] = "verifsim/readline"
		} else if strings.HasPrefix(p.ImportPath, root.ImportPath+"/") {
			internal[p.ImportPath] = "verifsim/readline" + strings.TrimPrefix(p.ImportPath, root.ImportPath)
		} else {
			die("dependency outside the module and the standard library: %s", p.ImportPath)
		}
	}
	for _, p := range order {
		if to, ok := internal[p.ImportPath]; ok {
			gen(p, pk, internal, filepath.Join(*out, strings.TrimPrefix(to, "verifsim/")))
		}
	}
}

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	tmp      int
	used     map[string]string // import path -> local name, current file
	native   map[string]bool   // original imports still referenced
	fn       string
	internal map[string]string
	pkg      *types.Package
}

func gen(p *listPkg, pk map[string]*listPkg, internal map[string]string, dir string) {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", "amd64", false
	bp, err := ctx.ImportDir(p.Dir, 0)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := pk[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	conf := types.Config{Importer: imp}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("%v", err)
	}
	if err := os.MkdirAll(dir, 0777); err != nil {
		die("%v", err)
	}
	siteBase := len(sites)
	var inits []string
	initOf := map[*types.Var]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			initOf[v] = true
		}
	}
	type reset struct {
		names []string
		rhs   ast.Expr
		file  *ast.File
	}
	var resets []reset
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.Pos() <= pos && pos <= f.End() {
				return f
			}
		}
		return nil
	}
	scope := tp.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok && !initOf[v] {
			resets = append(resets, reset{names: []string{n}, file: fileOf(v.Pos())})
		}
	}
	for _, in := range info.InitOrder {
		var ns []string
		for _, v := range in.Lhs {
			ns = append(ns, v.Name())
		}
		resets = append(resets, reset{names: ns, rhs: in.Rhs, file: fileOf(in.Lhs[0].Pos())})
	}
	perFileReset := map[*ast.File][]int{}
	for i, r := range resets {
		perFileReset[r.file] = append(perFileReset[r.file], i)
	}
	rw := &rewriter{fset: fset, info: info, internal: internal, pkg: tp}
	for fi, f := range files {
		rw.used, rw.native = map[string]string{}, map[string]bool{}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				fd.Name.Name = fmt.Sprintf("simInit_%d_%d", fi, len(inits))
				inits = append(inits, fd.Name.Name)
			}
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				rw.fn = d.Name.Name
				rw.walk(reflect.ValueOf(d))
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					continue
				}
				rw.fn = "var"
				rw.walk(reflect.ValueOf(d))
			}
		}
		rw.use(simPath)
		// imports
		var decls []ast.Decl
		imports := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.IMPORT {
				decls = append(decls, d)
				continue
			}
			for _, sp := range gd.Specs {
				is := sp.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				keep := rw.native[path] || (is.Name != nil && (is.Name.Name == "_" || is.Name.Name == "."))
				if to, ok := internal[path]; ok {
					n := is.Name
					if n == nil {
						n = ast.NewIdent(pk[path].name(info, is))
					}
					imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: n, Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}})
					continue
				}
				if keep {
					imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
				}
			}
		}
		var paths []string
		for q := range rw.used {
			paths = append(paths, q)
		}
		sort.Strings(paths)
		for _, q := range paths {
			imports.Specs = append(imports.Specs, &ast.ImportSpec{Name: ast.NewIdent(rw.used[q]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(q)}})
		}
		f.Decls = decls
		f.Comments = nil
		var buf bytes.Buffer
		buf.WriteString("// Code generated by simgen. DO NOT EDIT.\n\npackage " + f.Name.Name + "\n\nimport (\n")
		for _, sp := range imports.Specs {
			is := sp.(*ast.ImportSpec)
			if is.Name != nil {
				buf.WriteString(is.Name.Name + " ")
			}
			buf.WriteString(is.Path.Value + "\n")
		}
		buf.WriteString(")\n\nvar _ = simrt_.P\n\n")
		for _, d := range f.Decls {
			if err := format.Node(&buf, token.NewFileSet(), strip(d)); err != nil {
				die("format: %v", err)
			}
			buf.WriteString("\n\n")
		}
		for _, i := range perFileReset[f] {
			r := resets[i]
			fmt.Fprintf(&buf, "func simReset_%d() {\n", i)
			if r.rhs == nil {
				fmt.Fprintf(&buf, "\tsimrt_.Zero(&%s)\n", r.names[0])
			} else {
				buf.WriteString("\t" + strings.Join(r.names, ", ") + " = ")
				if err := format.Node(&buf, token.NewFileSet(), strip(r.rhs)); err != nil {
					die("format: %v", err)
				}
				buf.WriteString("\n")
			}
			buf.WriteString("}\n\n")
		}
		src, err := format.Source(buf.Bytes())
		if err != nil {
			os.WriteFile(filepath.Join(dir, "broken.txt"), buf.Bytes(), 0666)
			die("generated source of %s does not parse: %v", fset.Position(f.Pos()).Filename, err)
		}
		name := filepath.Base(fset.Position(f.Package).Filename)
		name = "g_" + strings.TrimSuffix(name, ".go") + "_.go"
		if err := os.WriteFile(filepath.Join(dir, name), src, 0666); err != nil {
			die("%v", err)
		}
	}
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "// Code generated by simgen. DO NOT EDIT.\n\npackage %s\n\nimport simrt_ %q\n\nfunc simReset() {\n", tp.Name(), simPath)
	for i := range resets {
		if len(resets[i].names) == 1 && resets[i].names[0] == "_" && resets[i].rhs == nil {
			continue
		}
		fmt.Fprintf(&buf, "\tsimReset_%d()\n", i)
	}
	for _, n := range inits {
		fmt.Fprintf(&buf, "\t%s()\n", n)
	}
	buf.WriteString("}\n\nfunc init() {\n\tsimrt_.Resets = append(simrt_.Resets, simReset)\n")
	for _, n := range inits {
		fmt.Fprintf(&buf, "\t%s()\n", n)
	}
	fmt.Fprintf(&buf, "\tsimrt_.AddSites(%d, []string{\n", siteBase)
	for _, s := range sites[siteBase:] {
		fmt.Fprintf(&buf, "\t\t%q,\n", s)
	}
	buf.WriteString("\t})\n}\n")
	if err := os.WriteFile(filepath.Join(dir, "zz_sim.go"), buf.Bytes(), 0666); err != nil {
		die("%v", err)
	}
}

func (p *listPkg) name(info *types.Info, is *ast.ImportSpec) string {
	if o, ok := info.Implicits[is].(*types.PkgName); ok {
		return o.Name()
	}
	return filepath.Base(p.ImportPath)
}

// strip clears positions so that the printer lays the code out afresh.
func strip(n ast.Node) ast.Node {
	clearPos(reflect.ValueOf(n))
	return n
}

var posType = reflect.TypeOf(token.Pos(0))

func clearPos(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			clearPos(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.CommentGroup)(nil)) {
			return
		}
		if ce, ok := v.Interface().(*ast.CallExpr); ok {
			had := ce.Ellipsis.IsValid()
			clearStruct(v.Elem())
			if had {
				ce.Ellipsis = 1
			}
			return
		}
		if ts, ok := v.Interface().(*ast.TypeSpec); ok {
			had := ts.Assign.IsValid()
			clearStruct(v.Elem())
			if had {
				ts.Assign = 1
			}
			ts.Doc, ts.Comment = nil, nil
			return
		}
		if gd, ok := v.Interface().(*ast.GenDecl); ok {
			had := gd.Lparen.IsValid()
			clearStruct(v.Elem())
			if had {
				gd.Lparen = 1
			}
			gd.Doc = nil
			return
		}
		clearPos(v.Elem())
		switch x := v.Interface().(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i))
		}
	case reflect.Struct:
		clearStruct(v)
	}
}

func clearStruct(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == posType {
			if f.CanSet() {
				f.SetInt(0)
			}
			continue
		}
		if f.CanSet() {
			clearPos(f)
		}
	}
}

func (r *rewriter) use(path string) string {
	if n, ok := r.used[path]; ok {
		return n
	}
	n := filepath.Base(path) + "_"
	r.used[path] = n
	return n
}

func (r *rewriter) sim(name string) ast.Expr {
	r.use(simPath)
	return &ast.SelectorExpr{X: ast.NewIdent(simName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}

func (r *rewriter) name(p string) string {
	r.tmp++
	return fmt.Sprintf("sim%s_%d", p, r.tmp)
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// walk rewrites everything below v, replacing expressions and statements in the
// fields that hold them.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == reflect.TypeOf((*ast.Object)(nil)) || v.Type() == reflect.TypeOf((*ast.CommentGroup)(nil)) {
			return
		}
		r.node(v)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		r.walk(v.Elem())
		if v.CanSet() {
			switch v.Type() {
			case exprType:
				v.Set(reflect.ValueOf(r.expr(v.Interface().(ast.Expr))))
			case stmtType:
				v.Set(reflect.ValueOf(r.stmt(v.Interface().(ast.Stmt))))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				r.walk(v.Field(i))
			}
		}
	}
}

// node handles a concrete node before or around its children.
func (r *rewriter) node(v reflect.Value) {
	switch n := v.Interface().(type) {
	case *ast.FuncDecl:
		r.fn = n.Name.Name
		if n.Recv != nil && len(n.Recv.List) == 1 {
			t := n.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok {
				r.fn = id.Name + "." + n.Name.Name
			}
		}
		r.walk(v.Elem())
		return
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := paren(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.walkExprs(n.Lhs)
				x := &u.X
				r.walk(reflect.ValueOf(x).Elem())
				n.Rhs[0] = r.call("Recv2", u.X)
				return
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := paren(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.walk(reflect.ValueOf(&n.Type).Elem())
				r.walk(reflect.ValueOf(&u.X).Elem())
				n.Values[0] = r.call("Recv2", u.X)
				return
			}
		}
	case *ast.SelectStmt:
		// handled as a whole in stmt; only bodies and operands are walked here
		for _, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				r.walk(reflect.ValueOf(&s.Chan).Elem())
				r.walk(reflect.ValueOf(&s.Value).Elem())
			case *ast.ExprStmt:
				u := paren(s.X).(*ast.UnaryExpr)
				r.walk(reflect.ValueOf(&u.X).Elem())
			case *ast.AssignStmt:
				u := paren(s.Rhs[0]).(*ast.UnaryExpr)
				r.walk(reflect.ValueOf(&u.X).Elem())
				if s.Tok == token.ASSIGN {
					r.walkExprs(s.Lhs)
				}
			}
			r.body(&cc.Body)
		}
		return
	case *ast.BlockStmt:
		r.body(&n.List)
		return
	case *ast.CaseClause:
		r.walkExprs(n.List)
		r.body(&n.Body)
		return
	case *ast.ForStmt:
		r.walk(v.Elem())
		if len(n.Body.List) == 0 {
			n.Body.List = []ast.Stmt{r.point(n.Pos())}
		}
		return
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if to := overridden(path, n.Sel.Name); to != "" {
					n.X = ast.NewIdent(r.use(to))
				} else if _, ok := r.internal[path]; !ok {
					r.native[path] = true
				}
				return
			}
		}
		r.walk(reflect.ValueOf(&n.X).Elem())
		return
	}
	r.walk(v.Elem())
}

func (r *rewriter) walkExprs(l []ast.Expr) {
	for i := range l {
		r.walk(reflect.ValueOf(&l[i]).Elem())
	}
}

func (r *rewriter) point(pos token.Pos) ast.Stmt {
	p := r.fset.Position(pos)
	sites = append(sites, fmt.Sprintf("%s:%d %s", filepath.Base(p.Filename), p.Line, r.fn))
	return &ast.ExprStmt{X: r.call("P", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites) - 1)})}
}

// body rewrites a statement list and puts a yield point before every statement.
func (r *rewriter) body(list *[]ast.Stmt) {
	var out []ast.Stmt
	for _, s := range *list {
		if s == nil {
			continue
		}
		pos := s.Pos()
		var h ast.Stmt = s
		r.walk(reflect.ValueOf(&h).Elem())
		switch h.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			out = append(out, r.point(pos))
		}
		out = append(out, h)
	}
	*list = out
}

func paren(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok && t.Type != nil {
		return t.Type.Underlying()
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil && o.Type() != nil {
			return o.Type().Underlying()
		}
	}
	return nil
}

func isChan(t types.Type) bool { _, ok := t.(*types.Chan); return ok }

func (r *rewriter) builtin(e ast.Expr) string {
	if id, ok := paren(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return r.call("Recv", n.X)
		}
	case *ast.CallExpr:
		switch r.builtin(n.Fun) {
		case "close":
			return r.call("Close", n.Args[0])
		case "len":
			if isChan(r.typeOf(n.Args[0])) {
				return r.call("Len", n.Args[0])
			}
		}
	}
	return e
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch n := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", n.Chan), Args: []ast.Expr{n.Value}}}
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.SelectStmt:
		return r.selectStmt(n)
	case *ast.RangeStmt:
		t := r.typeOf(n.X)
		if isChan(t) {
			return r.rangeChan(n)
		}
		if _, ok := t.(*types.Map); ok && simple(n.X) {
			return r.rangeMap(n)
		}
		if len(n.Body.List) == 0 {
			n.Body.List = []ast.Stmt{r.point(n.Pos())}
		}
	}
	return s
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	}
	return false
}

func assign(tok token.Token, l, rr []ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: rr}
}

func (r *rewriter) goStmt(n *ast.GoStmt) ast.Stmt {
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.call("Go", fl)}
	}
	var lhs, rhs []ast.Expr
	hoist := func(e ast.Expr) ast.Expr {
		id := ast.NewIdent(r.name("a"))
		lhs = append(lhs, id)
		rhs = append(rhs, e)
		return ast.NewIdent(id.Name)
	}
	fun := c.Fun
	if r.builtin(fun) == "" {
		if tv := r.info.Types[fun]; !tv.IsType() {
			if _, ok := fun.(*ast.FuncLit); !ok {
				fun = hoist(fun)
			}
		}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args[i] = a
			continue
		}
		args[i] = hoist(a)
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	g := &ast.ExprStmt{X: r.call("Go", fl)}
	if len(lhs) == 0 {
		return g
	}
	return &ast.BlockStmt{List: []ast.Stmt{assign(token.DEFINE, lhs, rhs), g}}
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")}}}}
	}
	hasDef := false
	for _, c := range n.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	var lhs, rhs []ast.Expr
	var clauses []ast.Stmt
	flag := ast.NewIdent("false")
	if hasDef {
		flag = ast.NewIdent("true")
	}
	args := []ast.Expr{flag}
	idx := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		nm := r.name("c")
		lhs = append(lhs, ast.NewIdent(nm))
		args = append(args, ast.NewIdent(nm))
		body := cc.Body
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{Fun: r.call("CaseSend", s.Chan), Args: []ast.Expr{s.Value}})
		case *ast.ExprStmt:
			rhs = append(rhs, r.call("CaseRecv", paren(s.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			rhs = append(rhs, r.call("CaseRecv", paren(s.Rhs[0]).(*ast.UnaryExpr).X))
			vals := []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(nm), Sel: ast.NewIdent("V")}}}
			if len(s.Lhs) == 2 {
				vals = append(vals, &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(nm), Sel: ast.NewIdent("Ok")}})
			}
			body = append([]ast.Stmt{assign(s.Tok, s.Lhs, vals)}, body...)
		}
		cl := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body}
		idx++
		clauses = append(clauses, cl)
	}
	if !hasDef {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	sw := &ast.SwitchStmt{Tag: r.call("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = assign(token.DEFINE, lhs, rhs)
	}
	return sw
}

func (r *rewriter) rangeChan(n *ast.RangeStmt) ast.Stmt {
	c, ok := r.name("ch"), r.name("ok")
	id := ast.NewIdent
	body := n.Body
	var v ast.Expr = id("_")
	if n.Key != nil {
		if n.Tok == token.DEFINE {
			v = n.Key
		} else {
			nm := r.name("v")
			v = id(nm)
			body = &ast.BlockStmt{List: append([]ast.Stmt{assign(token.ASSIGN, []ast.Expr{n.Key}, []ast.Expr{id(nm)})}, body.List...)}
		}
	}
	v2 := v
	if x, isID := v.(*ast.Ident); isID {
		v2 = id(x.Name)
	}
	if len(body.List) == 0 {
		body.List = []ast.Stmt{r.point(n.Pos())}
	}
	return &ast.ForStmt{
		Init: assign(token.DEFINE, []ast.Expr{id(c), v, id(ok)}, []ast.Expr{r.call("RangeStart", n.X)}),
		Cond: id(ok),
		Post: assign(token.ASSIGN, []ast.Expr{v2, id(ok)}, []ast.Expr{r.call("Recv2", id(c))}),
		Body: body,
	}
}

func (r *rewriter) rangeMap(n *ast.RangeStmt) ast.Stmt {
	id := ast.NewIdent
	k, v, in := r.name("k"), r.name("v"), r.name("in")
	var pre []ast.Stmt
	pre = append(pre, assign(token.DEFINE, []ast.Expr{id(v), id(in)}, []ast.Expr{&ast.IndexExpr{X: n.X, Index: id(k)}}))
	pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(in)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	pre = append(pre, assign(token.ASSIGN, []ast.Expr{id("_")}, []ast.Expr{id(v)}))
	if n.Key != nil {
		if x, ok := n.Key.(*ast.Ident); !ok || x.Name != "_" {
			pre = append(pre, assign(n.Tok, []ast.Expr{n.Key}, []ast.Expr{id(k)}))
		}
	}
	if n.Value != nil {
		if x, ok := n.Value.(*ast.Ident); !ok || x.Name != "_" {
			pre = append(pre, assign(n.Tok, []ast.Expr{n.Value}, []ast.Expr{id(v)}))
		}
	}
	n.Body.List = append(pre, n.Body.List...)
	return &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: r.call("MapKeys", n.X), Body: n.Body}
}
