// Command instr copies the Go package in a directory and puts calls of package vrt around
// everything that matters for concurrency: go statements, channel operations, operations of
// sync and sync/atomic, element accesses of slices, accesses to package-level variables and to
// fields of structs declared in the package, and function entries. It looks at syntax and types
// only, so it works on any version of the package. Comments (with them go:nosplit and build
// tags) are dropped.
//
//	instr -dir /repo -tags tuneparam -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const vrtPath, vrtName = "vh/vrt", "vrtZz"

type pkgInfo struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
	DepOnly                 bool
}

func main() {
	dir := flag.String("dir", "", "package directory")
	tags := flag.String("tags", "", "build tags")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if err := run(*dir, *tags, *out); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func run(dir, tags, out string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,DepOnly", "-tags", tags, ".")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var target pkgInfo
	for dec := json.NewDecoder(bytes.NewReader(data)); ; {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			target = p
		}
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range target.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(target.Dir, f), nil, 0)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(target.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	for i, f := range files {
		r := &rewriter{info: info, pkg: pkg, fset: fset}
		r.file(f)
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, fset, f); err != nil {
			return err
		}
		fmt.Fprintf(&b, "\nvar _ = %s.Used\n", vrtName)
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							fmt.Fprintf(&b, "var _ = %s.Glob(&%s, %q)\n", vrtName, id.Name, id.Name)
						}
					}
				}
			}
		}
		if err := os.WriteFile(filepath.Join(out, target.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

type rewriter struct {
	info *types.Info
	pkg  *types.Package
	fset *token.FileSet
	n    int
	cap  map[types.Object]bool // local variables that closures use or whose address is taken
}

// captured finds local variables that several goroutines might use
func (r *rewriter) captured(body ast.Node) {
	r.cap = map[types.Object]bool{}
	local := func(id *ast.Ident) *types.Var {
		v, ok := r.info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() != r.pkg || v.Parent() == r.pkg.Scope() || r.syncType(v.Type()) {
			return nil
		}
		switch v.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return nil
		}
		return v
	}
	written := map[types.Object]bool{} // reading alone harms nobody
	wr := func(e ast.Expr) {
		if id, ok := unparen(e).(*ast.Ident); ok {
			written[r.info.Uses[id]] = true
		}
	}
	defer func() {
		for v := range r.cap {
			if !written[v] {
				delete(r.cap, v)
			}
		}
	}()
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				wr(e)
			}
		case *ast.IncDecStmt:
			wr(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				wr(x.Key)
				wr(x.Value)
			}
		case *ast.FuncLit:
			ast.Inspect(x.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if v := local(id); v != nil && (v.Pos() < x.Pos() || v.Pos() > x.End()) {
						r.cap[v] = true
					}
				}
				return true
			})
		case *ast.UnaryExpr:
			if id, ok := unparen(x.X).(*ast.Ident); ok && x.Op == token.AND {
				if v := local(id); v != nil {
					r.cap[v], written[v] = true, true
				}
			}
		}
		return true
	})
}

// is e a variable found by captured?
func (r *rewriter) isCaptured(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && r.info.Uses[id] != nil && r.cap[r.info.Uses[id]]
}

func (r *rewriter) tmp() *ast.Ident { r.n++; return ast.NewIdent("vrtT" + strconv.Itoa(r.n)) }

func vcall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vrtName), Sel: ast.NewIdent(name)}, Args: args}
}
func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
func deref(e ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: e}}
}
func stmt(e ast.Expr) ast.Stmt { return &ast.ExprStmt{X: e} }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok && t.Type != nil {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

// is e an element of a slice?
func (r *rewriter) sliceElem(e ast.Expr) *ast.IndexExpr {
	x, ok := e.(*ast.IndexExpr)
	if !ok {
		return nil
	}
	t := r.typ(x.X)
	if _, ok := t.Underlying().(*types.Slice); ok {
		return x
	}
	return nil
}

// is e a package-level variable of this package that is not a function?
func (r *rewriter) global(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := r.info.Uses[id].(*types.Var)
	return ok && !v.IsField() && v.Parent() == r.pkg.Scope() && !r.syncType(v.Type())
}

// is e a part of a package-level variable, without going through pointers, slices or maps?
func (r *rewriter) globalPath(e ast.Expr) (ast.Expr, bool) {
	var in ast.Expr
	for x := e; ; {
		switch y := unparen(x).(type) {
		case *ast.Ident:
			return in, in != nil && r.global(y)
		case *ast.SelectorExpr:
			sel := r.info.Selections[y]
			if sel == nil || sel.Kind() != types.FieldVal || sel.Indirect() {
				return nil, false
			}
			x = y.X
		case *ast.IndexExpr:
			if _, ok := r.typ(y.X).Underlying().(*types.Array); !ok {
				return nil, false
			}
			x = y.X
		default:
			return nil, false
		}
		if in == nil {
			in = unparen(x)
		}
	}
}

func (r *rewriter) pathName(e ast.Expr) string {
	for {
		switch y := unparen(e).(type) {
		case *ast.Ident:
			return y.Name
		case *ast.SelectorExpr:
			e = y.X
		case *ast.IndexExpr:
			e = y.X
		default:
			return "?"
		}
	}
}

// keeps everything a path goes through
func (r *rewriter) keepPath(keep map[ast.Node]bool, e ast.Expr) {
	for {
		keep[unparen(e)] = true
		switch y := unparen(e).(type) {
		case *ast.SelectorExpr:
			e = y.X
		case *ast.IndexExpr:
			e = y.X
		default:
			return
		}
	}
}

// is e a field of a struct type declared in this package (not of a sync type)?
func (r *rewriter) field(e ast.Expr) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	sel := r.info.Selections[s]
	if sel == nil || sel.Kind() != types.FieldVal {
		return false
	}
	t := sel.Recv()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != r.pkg {
		return false
	}
	if r.syncType(sel.Type()) {
		return false
	}
	return r.addressable(s)
}

func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if sel := r.info.Selections[x]; sel != nil {
			if _, ok := r.typ(x.X).Underlying().(*types.Pointer); ok {
				return true
			}
			return r.addressable(x.X)
		}
		return r.info.Uses[x.Sel] != nil
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch r.typ(x.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.addressable(x.X)
		}
	}
	return false
}

func (r *rewriter) syncType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// classifies a call: kind is "", "atomicfn" (function of sync/atomic), "method" (of a sync type),
// "lock"/"rlock" (may block while the holder is parked)
func (r *rewriter) syncCall(c *ast.CallExpr) (kind, name string, recv ast.Expr) {
	fun := unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	s, ok := fun.(*ast.SelectorExpr)
	if !ok {
		return
	}
	o := r.info.Uses[s.Sel]
	f, ok := o.(*types.Func)
	if !ok || f.Pkg() == nil {
		return
	}
	p := f.Pkg().Path()
	if p != "sync" && p != "sync/atomic" {
		return
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		if p == "sync/atomic" && len(c.Args) > 0 {
			return "atomicfn", f.Name(), nil
		}
		return
	}
	switch f.Name() {
	case "Lock":
		return "lock", "Lock", s.X
	case "RLock":
		return "lock", "RLock", s.X
	}
	if rt := sig.Recv().Type(); rt != nil {
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if n, ok := rt.(*types.Named); ok {
			switch n.Obj().Name() {
			case "WaitGroup":
				if f.Name() == "Go" {
					return "wggo", "Go", s.X
				}
				return "block", f.Name(), s.X
			case "Cond":
				return "block", f.Name(), s.X
			}
		}
	}
	return "method", f.Name(), s.X
}

func (r *rewriter) ptrTo(e ast.Expr) ast.Expr {
	if _, ok := r.typ(e).Underlying().(*types.Pointer); ok {
		return e
	}
	return addr(e)
}

func (r *rewriter) file(f *ast.File) {
	// import of vrt
	spec := &ast.ImportSpec{Name: ast.NewIdent(vrtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vrtPath)}}
	decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}

	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue // package-level initialisers run before anything is traced
		}
		if fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		r.captured(fd.Body)
		fd.Body = r.rewrite(fd.Body).(*ast.BlockStmt)
		fd.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: vcall("Enter")}}}, fd.Body.List...)
	}
	f.Decls = append([]ast.Decl{decl}, f.Decls...)
	f.Comments = nil
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		}
	}
}

// constant or nil, or a name of a function or type: can be evaluated any time
func (r *rewriter) inert(e ast.Expr) bool {
	t, ok := r.info.Types[e]
	if ok && (t.Value != nil || t.IsNil() || t.IsType() || t.IsBuiltin()) {
		return true
	}
	switch x := unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			_, ok := r.info.Uses[x.Sel].(*types.Func)
			return ok
		}
	}
	return false
}

// skip marks expressions that must stay as they are
func (r *rewriter) rewrite(root ast.Node) ast.Node {
	keep := map[ast.Node]bool{}    // do not wrap this node (descend, though)
	lhs := map[ast.Expr]string{}   // assigned to: "W" or "RW"
	upd := map[ast.Stmt]ast.Expr{} // updates of shared variables
	lval := func(e ast.Expr, kind string) {
		e = unparen(e)
		lhs[e] = kind
	}
	pre := func(c *Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				// address-of is not an access; neither is the base it goes through
				for e := unparen(n.X); ; {
					keep[e] = true
					if s, ok := e.(*ast.SelectorExpr); ok {
						if _, isp := r.typ(s.X).Underlying().(*types.Pointer); !isp {
							e = unparen(s.X)
							continue
						}
					}
					if ix, ok := e.(*ast.IndexExpr); ok {
						if _, isa := r.typ(ix.X).Underlying().(*types.Array); isa {
							e = unparen(ix.X)
							continue
						}
					}
					break
				}
			}
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE && n.Tok != token.ASSIGN && r.shared(n.Lhs[0]) && inList(c) {
				upd[n] = n.Lhs[0]
				r.keepPath(keep, n.Lhs[0])
			} else if n.Tok == token.DEFINE {
				for _, e := range n.Lhs {
					keep[e] = true
				}
			} else {
				for _, e := range n.Lhs {
					if n.Tok == token.ASSIGN {
						lval(e, "W")
					} else {
						lval(e, "RW")
					}
				}
			}
		case *ast.IncDecStmt:
			if r.shared(n.X) && inList(c) {
				upd[n] = n.X
				r.keepPath(keep, n.X)
			} else {
				lval(n.X, "RW")
			}
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				for _, e := range []ast.Expr{n.Key, n.Value} {
					if e != nil {
						lval(e, "W")
					}
				}
			}
			// ranging over a package-level or field array/slice reads the header only
		case *ast.SelectorExpr:
			keep[n.Sel] = true
			if in, ok := r.globalPath(n); ok {
				r.keepPath(keep, in)
			}
			// x.f where x is addressable struct value: base is not an access of its own
			if sel := r.info.Selections[n]; sel != nil {
				if _, isp := r.typ(n.X).Underlying().(*types.Pointer); !isp {
					keep[unparen(n.X)] = true
				}
			}
		case *ast.IndexExpr:
			if in, ok := r.globalPath(n); ok {
				r.keepPath(keep, in)
			}
			if _, isa := r.typ(n.X).Underlying().(*types.Array); isa && (keep[n] || lhs[n] != "") {
				keep[unparen(n.X)] = true
			}
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); ok {
				keep[id] = true
			}
		case *ast.SliceExpr:
			if _, isa := r.typ(n.X).Underlying().(*types.Array); isa {
				keep[unparen(n.X)] = true
			}
		case *ast.CommClause:
			// channel operations of select stay
			switch s := n.Comm.(type) {
			case *ast.SendStmt:
				keep[s] = true
			case *ast.ExprStmt:
				keep[unparen(s.X)] = true
			case *ast.AssignStmt:
				keep[unparen(s.Rhs[0])] = true
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				if r.global(unparen(n.Args[0])) {
					keep[unparen(n.Args[0])] = true
				}
			}
		case *ast.FuncDecl, *ast.GenDecl:
		}
		return true
	}
	post := func(c *Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.FuncLit:
			n.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: vcall("Enter")}}}, n.Body.List...)
		case *ast.IndexExpr:
			if r.info.Types[n.X].IsType() || keep[n] {
				return true
			}
			if _, ok := r.globalPath(n); ok {
				if lhs[n] != "" {
					r.replace(c, deref(vcall("G"+lhs[n], addr(n), strLit(r.pathName(n)))))
				} else {
					r.replace(c, vcall("GR", addr(n), strLit(r.pathName(n))))
				}
				return true
			}
			if r.sliceElem(n) != nil {
				switch lhs[n] {
				case "W":
					r.replace(c, deref(vcall("W", n.X, n.Index)))
				case "RW":
					r.replace(c, deref(vcall("RW", n.X, n.Index)))
				default:
					r.replace(c, vcall("R", n.X, n.Index))
				}
			}
		case *ast.Ident:
			if keep[n] || !r.global(n) && !r.isCaptured(n) {
				return true
			}
			if lhs[n] != "" {
				r.replace(c, deref(vcall("G"+lhs[n], addr(n), strLit(n.Name))))
			} else {
				r.replace(c, vcall("GR", addr(n), strLit(n.Name)))
			}
		case *ast.SelectorExpr:
			if _, ok := r.globalPath(n); keep[n] || !r.field(n) && !ok {
				return true
			}
			if lhs[n] != "" {
				r.replace(c, deref(vcall("G"+lhs[n], addr(n), strLit(n.Sel.Name))))
			} else {
				r.replace(c, vcall("GR", addr(n), strLit(n.Sel.Name)))
			}
		case *ast.StarExpr:
			if t, ok := r.info.Types[n]; !ok || !t.IsValue() || keep[n] || r.syncType(t.Type) {
				return true
			}
			if lhs[n] != "" {
				r.replace(c, deref(vcall("PW", n.X)))
			} else {
				r.replace(c, vcall("PR", n.X))
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !keep[n] {
				if as, ok := c.Parent().(*ast.AssignStmt); ok && len(as.Lhs) == 2 && len(as.Rhs) == 1 {
					r.replace(c, vcall("Recv2", n.X))
				} else {
					r.replace(c, vcall("Recv", n.X))
				}
			}
		case *ast.SendStmt:
			if !keep[n] {
				c.Replace(stmt(vcall("Send", n.Chan, n.Value)))
			}
		case *ast.IncDecStmt:
			if x := upd[n]; x != nil {
				r.update(c, x, func(t ast.Expr) ast.Stmt { return &ast.IncDecStmt{X: t, Tok: n.Tok} })
			}
		case *ast.AssignStmt:
			if x := upd[n]; x != nil {
				r.update(c, x, func(t ast.Expr) ast.Stmt {
					return &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: n.Tok, Rhs: n.Rhs}
				})
			}
		case *ast.GoStmt:
			r.goStmt(c, n)
		case *ast.DeferStmt:
			if kind, _, recv := r.syncCall(n.Call); kind == "block" && len(n.Call.Args) == 0 {
				t := r.tmp()
				n.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("SyncPre", r.ptrTo(recv))}},
					stmt(n.Call), stmt(&ast.CallExpr{Fun: &ast.SelectorExpr{X: t, Sel: ast.NewIdent("Done")}})}}}}
			} else if kind == "method" {
				r.preMethod(n.Call, recv)
			}
		case *ast.RangeStmt:
			if t, ok := r.typ(n.X).Underlying().(*types.Slice); ok && t != nil && n.Value != nil {
				n.X = vcall("Range", n.X)
			} else if _, ok := r.typ(n.X).Underlying().(*types.Chan); ok {
				v, k := ast.Expr(ast.NewIdent("_")), r.tmp()
				tok := token.DEFINE
				list := []ast.Stmt{}
				if n.Key != nil {
					if n.Tok == token.DEFINE {
						v = n.Key
					} else {
						t := r.tmp()
						v = t
						list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}})
					}
				}
				list = append([]ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{v, k}, Tok: tok, Rhs: []ast.Expr{vcall("Recv2", n.X)}},
					&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: k}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, list...)
				c.Replace(&ast.ForStmt{Body: &ast.BlockStmt{List: append(list, n.Body)}})
			}
		case *ast.SelectStmt:
			if _, ok := c.Parent().(*ast.LabeledStmt); !ok {
				c.Replace(&ast.BlockStmt{List: append(r.selects(n), n)})
			}
		case *ast.LabeledStmt:
			if x, ok := n.Stmt.(*ast.SelectStmt); ok {
				c.Replace(&ast.BlockStmt{List: append(r.selects(x), n)})
			}
		case *ast.ExprStmt:
			call, ok := n.X.(*ast.CallExpr)
			if !ok {
				return true
			}
			kind, name, recv := r.syncCall(call)
			switch kind {
			case "lock":
				c.Replace(stmt(vcall(name, r.ptrTo(recv))))
			case "atomicfn":
				if len(call.Args) > 0 {
					call.Args[0] = vcall(preFor(name), call.Args[0])
				}
			case "wggo":
				c.Replace(stmt(vcall("WgGo", r.ptrTo(recv), call.Args[0])))
			case "method":
				r.preMethod(call, recv)
			case "block":
				t := r.tmp()
				c.Replace(&ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("SyncPre", r.ptrTo(recv))}},
					n, stmt(&ast.CallExpr{Fun: &ast.SelectorExpr{X: t, Sel: ast.NewIdent("Done")}})}})
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok {
					switch b.Name() {
					case "make":
						if _, ok := r.typ(n).Underlying().(*types.Chan); ok {
							r.replace(c, vcall("MakeChan", n))
						}
					case "close":
						r.replace(c, vcall("Close", n.Args[0]))
					case "clear":
						if _, ok := r.typ(n.Args[0]).Underlying().(*types.Slice); ok {
							n.Args[0] = vcall("Clear", n.Args[0])
						}
					case "copy":
						n.Args[0] = vcall("WriteAll", n.Args[0], n.Args[1])
					}
					return true
				}
			}
			if _, ok := c.Parent().(*ast.ExprStmt); ok {
				return true
			}
			if _, ok := c.Parent().(*ast.GoStmt); ok {
				return true
			}
			if _, ok := c.Parent().(*ast.DeferStmt); ok {
				return true
			}
			kind, name, recv := r.syncCall(n)
			switch kind {
			case "atomicfn":
				n.Args[0] = vcall(preFor(name), n.Args[0])
			case "method":
				r.preMethod(n, recv)
			}
		}
		return true
	}
	return Apply(root, pre, post)
}

// replace an expression by another of the same type
func (r *rewriter) replace(c *Cursor, e ast.Expr) {
	if old, ok := c.Node().(ast.Expr); ok {
		r.info.Types[e] = types.TypeAndValue{Type: r.typ(old)}
	}
	c.Replace(e)
}

// selects returns what must come before a select statement
func (r *rewriter) selects(n *ast.SelectStmt) (list []ast.Stmt) {
	t := r.tmp()
	var chans []ast.Expr
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		var ch *ast.Expr
		recv := func(e ast.Expr) {
			if u, ok := unparen(e).(*ast.UnaryExpr); ok {
				ch = &u.X
			}
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			ch = &s.Chan
		case *ast.ExprStmt:
			recv(s.X)
		case *ast.AssignStmt:
			recv(s.Rhs[0])
		}
		if ch != nil {
			v := r.tmp()
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{*ch}})
			*ch = v
			chans = append(chans, v)
		}
		cc.Body = append([]ast.Stmt{stmt(&ast.CallExpr{Fun: &ast.SelectorExpr{X: t, Sel: ast.NewIdent("Done")}})}, cc.Body...)
	}
	return append(list, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{vcall("Select", chans...)}})
}

func (r *rewriter) preMethod(n *ast.CallExpr, recv ast.Expr) {
	if s, ok := unparen(n.Fun).(*ast.SelectorExpr); ok && (r.addressable(recv) || r.isPtr(recv)) {
		s.X = deref(vcall(preFor(s.Sel.Name), r.ptrTo(s.X)))
	}
}

// preFor returns what comes before an operation of that name
func preFor(name string) string {
	if strings.HasPrefix(name, "Load") {
		return "PreLoad"
	}
	return "Pre"
}

// shared: a field or a package-level variable or a part of one
func (r *rewriter) shared(e ast.Expr) bool {
	e = unparen(e)
	if r.global(e) || r.field(e) {
		return true
	}
	_, ok := r.globalPath(e)
	return ok
}

func inList(c *Cursor) bool {
	switch c.Parent().(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

// update is split in reading and writing, since that is what happens
func (r *rewriter) update(c *Cursor, x ast.Expr, op func(ast.Expr) ast.Stmt) {
	p, t := r.tmp(), r.tmp()
	name := strLit(r.pathName(x))
	def := func(a, b ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{a}, Tok: token.DEFINE, Rhs: []ast.Expr{b}}
	}
	c.Replace(&ast.BlockStmt{List: []ast.Stmt{def(p, addr(x)), def(t, vcall("GR", p, name)), op(t),
		&ast.AssignStmt{Lhs: []ast.Expr{deref(vcall("GW", p, name))}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}}})
}

func (r *rewriter) isPtr(e ast.Expr) bool {
	_, ok := r.typ(e).Underlying().(*types.Pointer)
	return ok
}

func strLit(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
}

func (r *rewriter) goStmt(c *Cursor, n *ast.GoStmt) {
	call := n.Call
	var names, vals []ast.Expr
	bind := func(e ast.Expr) ast.Expr {
		t := r.tmp()
		names = append(names, t)
		vals = append(vals, e)
		return t
	}
	if _, lit := unparen(call.Fun).(*ast.FuncLit); !lit && !r.inert(call.Fun) {
		call.Fun = bind(call.Fun)
	}
	for i, a := range call.Args {
		if !r.inert(a) {
			call.Args[i] = bind(a)
		}
	}
	body := &ast.BlockStmt{List: []ast.Stmt{stmt(call)}}
	list := []ast.Stmt{stmt(vcall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}))}
	if len(names) > 0 {
		list = append([]ast.Stmt{&ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}}, list...)
	}
	c.Replace(&ast.BlockStmt{List: list})
}
