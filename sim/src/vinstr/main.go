// vinstr copies Go packages and puts the simulator under them: package net and
// sync are replaced, goroutines become simulated tasks, channel operations and
// time.Sleep go through the scheduler, run-time make() sizes are checked, and
// a preemption point is inserted before every statement.  Package-level state
// can be put back to its initial value (VsimReset__), so that runs in one
// process are independent, and map accesses are reported to the simulator.
//
//	vinstr SRCDIR DSTDIR
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const sim = "vsim__"

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(sim), Sel: ast.NewIdent(name)}, Args: args}
}

func yield() ast.Stmt { return &ast.ExprStmt{X: call("Y")} }

type rw struct {
	timeName    string
	runtimeName string
	tmp         int
	info        *types.Info
	pkg         *types.Package
}

// fieldAcc reports an access to a field or package variable.
func fieldAcc(e ast.Expr, write bool) ast.Stmt {
	w := "false"
	if write {
		w = "true"
	}
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.InterfaceType{Methods: &ast.FieldList{}}}}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: e}}}}}}
	return &ast.IfStmt{Cond: &ast.SelectorExpr{X: ast.NewIdent(sim), Sel: ast.NewIdent("Races")},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call("FieldAcc", f, ast.NewIdent(w))}}}}
}

// shared tells whether e is a field of this package's types, reached through
// a pointer, or a variable of this package, that holds a plain value.
func (r *rw) shared(e ast.Expr, pos token.Pos) bool {
	var id *ast.Ident
	switch x := e.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	default:
		return false
	}
	v, ok := r.info.Uses[id].(*types.Var)
	if !ok || v.Pkg() != r.pkg || r.pkg == nil {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	if v.Parent() == r.pkg.Scope() {
		return true
	}
	se, ok := e.(*ast.SelectorExpr)
	if !ok || !v.IsField() || !r.pure(e, pos) {
		return false
	}
	_, ok = r.kind(se.X).(*types.Pointer)
	return ok
}

// fields returns the reports of accesses to shared plain variables that a
// statement certainly makes itself: those to make before it, those to make
// after it, and those to make at the start of a loop's body.
func (r *rw) fields(s ast.Stmt) (before, after, loop []ast.Stmt) {
	if r.info == nil {
		return
	}
	pos := s.Pos()
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	called := false // a call was made earlier in the statement
	into := &before
	var read func(e ast.Node)
	read = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit, *ast.KeyValueExpr:
				return false
			case *ast.BinaryExpr:
				if x.Op == token.LAND || x.Op == token.LOR {
					read(x.X)
					return false
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					return false
				}
				if x.Op == token.ARROW {
					read(x.X)
					called = true
					return false
				}
			case *ast.CallExpr:
				if tv, ok := r.info.Types[x.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					for _, a := range x.Args {
						read(a)
					}
					return false
				}
				read(x.Fun)
				for _, a := range x.Args {
					read(a)
				}
				called = true
				return false
			case *ast.SelectorExpr:
				if r.shared(x, pos) && !called {
					*into = append(*into, fieldAcc(x, false))
				}
				read(x.X)
				return false
			case *ast.Ident:
				if r.shared(x, pos) && !called {
					*into = append(*into, fieldAcc(x, false))
				}
			}
			return true
		})
	}
	write := func(e ast.Expr, op bool) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if !r.shared(e, pos) {
			if _, ok := e.(*ast.Ident); !ok {
				read(e)
			}
			return
		}
		if se, ok := e.(*ast.SelectorExpr); ok {
			read(se.X)
		}
		after = append(after, fieldAcc(e, true))
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			for _, e := range x.Rhs {
				read(e)
			}
			return
		}
		for _, e := range x.Rhs {
			read(e)
		}
		for _, e := range x.Lhs {
			write(e, x.Tok != token.ASSIGN)
		}
		if !called { // another task may act between a report and the statement
			before, after = append(before, after...), nil
		}
	case *ast.IncDecStmt:
		write(x.X, true)
		before, after = append(before, after...), nil
	case *ast.ExprStmt:
		read(x.X)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			read(e)
		}
	case *ast.IfStmt:
		if x.Init == nil {
			read(x.Cond)
		}
	case *ast.SwitchStmt:
		if x.Init == nil && x.Tag != nil {
			read(x.Tag)
		}
	case *ast.ForStmt:
		if x.Init == nil && x.Cond != nil {
			into = &loop
			read(x.Cond)
		}
	case *ast.RangeStmt:
		read(x.X)
	case *ast.SendStmt:
		read(x.Chan)
		read(x.Value)
	case *ast.DeferStmt:
		for _, a := range x.Call.Args {
			read(a)
		}
	case *ast.GoStmt:
		for _, a := range x.Call.Args {
			read(a)
		}
	}
	return
}

func (r *rw) kind(e ast.Expr) types.Type {
	if r.info == nil || e == nil {
		return nil
	}
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) isMap(e ast.Expr) bool { _, ok := r.kind(e).(*types.Map); return ok }
func (r *rw) isChan(e ast.Expr) bool {
	_, ok := r.kind(e).(*types.Chan)
	return ok
}

// pure reports whether e names a variable without running code, using only
// names declared before pos.
func (r *rw) pure(e ast.Expr, pos token.Pos) bool {
	switch x := e.(type) {
	case *ast.Ident:
		o := r.info.ObjectOf(x)
		if o == nil {
			return false
		}
		switch o.(type) {
		case *types.Var, *types.PkgName:
		default:
			return false
		}
		return o.Parent() == nil || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || o.Pos() < pos
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.ObjectOf(id).(*types.PkgName); ok {
				return true
			}
		}
		return r.pure(x.X, pos)
	case *ast.ParenExpr:
		return r.pure(x.X, pos)
	case *ast.StarExpr:
		return r.pure(x.X, pos)
	}
	return false
}

func mapAcc(e ast.Expr, write bool) ast.Stmt {
	w := "false"
	if write {
		w = "true"
	}
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.InterfaceType{Methods: &ast.FieldList{}}}}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}}}
	return &ast.ExprStmt{X: call("MapAcc", f, ast.NewIdent(w))}
}

// maps returns the reports of map accesses a statement makes itself (not in
// nested blocks or function literals), and of atomic operations.
func (r *rw) maps(s ast.Stmt) (out []ast.Stmt) {
	if r.info == nil {
		return nil
	}
	pos := s.Pos()
	add := func(e ast.Expr, write bool) {
		if r.isMap(e) && r.pure(e, pos) {
			out = append(out, mapAcc(e, write))
		}
	}
	written := map[ast.Expr]bool{}
	lhs := func(e ast.Expr) {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			break
		}
		if ix, ok := e.(*ast.IndexExpr); ok {
			written[ix] = true
		}
	}
	atomic := false
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				lhs(e)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.RangeStmt:
			add(x.X, false)
			if x.Key != nil {
				lhs(x.Key)
			}
			if x.Value != nil {
				lhs(x.Value)
			}
		case *ast.IndexExpr:
			add(x.X, written[x])
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				switch id.Name {
				case "delete", "clear":
					add(x.Args[0], true)
				case "len":
					add(x.Args[0], false)
				}
			}
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if o := r.info.ObjectOf(se.Sel); o != nil && o.Pkg() != nil && (o.Pkg().Path() == "sync/atomic" || o.Pkg().Path() == "sync") {
					atomic = true
				}
			}
		}
		return true
	}
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	switch s.(type) {
	case *ast.BlockStmt:
		return nil
	}
	ast.Inspect(s, visit)
	if atomic {
		out = append([]ast.Stmt{&ast.ExprStmt{X: call("SyncOp")}}, out...)
	}
	return
}

func (r *rw) list(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in)+1)
	if len(in) == 0 {
		return []ast.Stmt{yield()}
	}
	for _, s := range in {
		out = append(out, yield())
		out = append(out, r.maps(s)...)
		before, after, loop := r.fields(s)
		out = append(out, before...)
		st := r.stmt(s)
		if len(loop) > 0 {
			x := s
			if l, ok := x.(*ast.LabeledStmt); ok {
				x = l.Stmt
			}
			if f, ok := x.(*ast.ForStmt); ok {
				f.Body.List = append(loop, f.Body.List...)
			}
		}
		out = append(out, st...)
		out = append(out, after...)
	}
	return out
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.list(b.List)
	}
}

func one(s []ast.Stmt) ast.Stmt {
	if len(s) == 1 {
		return s[0]
	}
	return &ast.BlockStmt{List: s}
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	o := r.stmt(s)
	if len(o) != 1 {
		panic("simple statement expanded")
	}
	return o[0]
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: call("Sender", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				x.Rhs[0] = call("Recv2", r.expr(u.X))
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return []ast.Stmt{x}
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
	case *ast.GoStmt:
		x.Call.Args = r.exprs(x.Call.Args)
		if id, ok := x.Call.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "print" || id.Name == "println" || id.Name == "panic") {
			return []ast.Stmt{x}
		}
		x.Call.Fun = call("LibGo", r.expr(x.Call.Fun))
		return []ast.Stmt{x}
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = one(r.stmt(x.Else))
		}
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		r.clauses(x.Body)
	case *ast.SelectStmt:
		hasDefault := false
		for _, c := range x.Body.List {
			if c.(*ast.CommClause).Comm == nil {
				hasDefault = true
			}
		}
		r.tmp++
		tok := fmt.Sprintf("vsimTok%d__", r.tmp)
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = r.list(cc.Body)
			if !hasDefault {
				cc.Body = append([]ast.Stmt{&ast.ExprStmt{X: call("After", ast.NewIdent(tok))}}, cc.Body...)
			}
		}
		if hasDefault {
			return []ast.Stmt{x}
		}
		return []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(tok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Before")}},
			x,
		}
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
		var acc ast.Stmt
		if r.isMap(x.X) && r.pure(x.X, x.Pos()) {
			acc = mapAcc(x.X, false)
		}
		m := r.isMap(x.X)
		x.X = r.expr(x.X)
		if m { // the order is the simulator's choice
			x.X = call("MapRange", x.X)
		}
		r.block(x.Body)
		if acc != nil {
			x.Body.List = append([]ast.Stmt{acc}, x.Body.List...)
		}
	case *ast.LabeledStmt:
		o := r.stmt(x.Stmt)
		x.Stmt = o[len(o)-1]
		if len(o) > 1 {
			return []ast.Stmt{&ast.BlockStmt{List: append(o[:len(o)-1:len(o)-1], x)}}
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				r.exprs(sp.(*ast.ValueSpec).Values)
			}
		}
	}
	return []ast.Stmt{s}
}

// rangeChan turns a loop over a channel into explicit receives.
func (r *rw) rangeChan(x *ast.RangeStmt) []ast.Stmt {
	r.tmp++
	c, v, ok := ast.NewIdent(fmt.Sprintf("vsimC%d__", r.tmp)), ast.NewIdent(fmt.Sprintf("vsimV%d__", r.tmp)), ast.NewIdent(fmt.Sprintf("vsimOk%d__", r.tmp))
	ch := &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}}
	r.block(x.Body)
	head := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", c)}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}
	if x.Key != nil {
		head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
	}
	return []ast.Stmt{ch, &ast.ForStmt{Body: &ast.BlockStmt{List: append(head, x.Body)}}}
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			r.exprs(cc.List)
			if len(cc.Body) > 0 {
				cc.Body = r.list(cc.Body)
			}
		}
	}
}

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	for i := range l {
		l[i] = r.expr(l[i])
	}
	return l
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.UnaryExpr:
		x.X = r.expr(x.X)
		if x.Op == token.ARROW {
			return call("Recv", x.X)
		}
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
	case *ast.CompositeLit:
		r.exprs(x.Elts)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "make") {
			for i := 1; i < len(x.Args); i++ {
				x.Args[i] = r.expr(x.Args[i])
				if _, lit := x.Args[i].(*ast.BasicLit); !lit {
					x.Args[i] = call("Alloc", x.Args[i])
				}
			}
			return x
		}
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "new" {
			return x
		}
		if se, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && r.timeName != "" && id.Name == r.timeName && id.Obj == nil && se.Sel.Name == "Sleep" {
				r.exprs(x.Args)
				x.Fun = &ast.SelectorExpr{X: ast.NewIdent(sim), Sel: ast.NewIdent("Sleep")}
				return x
			}
			if id, ok := se.X.(*ast.Ident); ok && r.timeName != "" && id.Name == r.timeName && id.Obj == nil && se.Sel.Name == "AfterFunc" && len(x.Args) == 2 {
				r.exprs(x.Args)
				x.Args[1] = call("Timer", x.Args[1])
				return x
			}
			if id, ok := se.X.(*ast.Ident); ok && r.runtimeName != "" && id.Name == r.runtimeName && id.Obj == nil && se.Sel.Name == "Gosched" {
				x.Fun = &ast.SelectorExpr{X: ast.NewIdent(sim), Sel: ast.NewIdent("Gosched")}
				return x
			}
			if se.Sel.Name == "Grow" && len(x.Args) == 1 {
				x.Fun = r.expr(x.Fun)
				x.Args[0] = call("Alloc", r.expr(x.Args[0]))
				return x
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	}
	return e
}

func usesName(f *ast.File, name string) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && id.Name == name {
				found = true
			}
		}
		return !found
	})
	return found
}

type file struct {
	src, dst string
	ast      *ast.File
}

type pkg struct {
	fset  *token.FileSet
	files []*file
	info  *types.Info
	tpkg  *types.Package
	order []string // reset functions in initialisation order
	inits []string
}

// check resolves types as far as possible; without them the instrumenter
// still works, but does not see maps, channel loops and the order of package
// variables.
func (p *pkg) check(name string) {
	defer func() {
		if r := recover(); r != nil {
			p.info = nil
			fmt.Fprintln(os.Stderr, "vinstr: no type information:", r)
		}
	}()
	var fs []*ast.File
	for _, f := range p.files {
		fs = append(fs, f.ast)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	c := types.Config{Importer: importer.ForCompiler(p.fset, "source", nil), Error: func(err error) { fmt.Fprintln(os.Stderr, "vinstr: type check:", err) }}
	p.tpkg, _ = c.Check(name, p.fset, fs, info)
	p.info = info
}

// resets writes, for every package-level variable, a function that gives it
// its initial value again.
func (p *pkg) resets() {
	type ini struct {
		f   *file
		lhs []ast.Expr
		rhs ast.Expr
		pos token.Pos
		fn  string
	}
	byVar := map[types.Object]*ini{}
	var all []*ini
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				emit := func(names []*ast.Ident, rhs ast.Expr) {
					n := &ini{f: f, rhs: rhs, pos: vs.Pos()}
					used := false
					for _, id := range names {
						n.lhs = append(n.lhs, ast.NewIdent(id.Name))
						used = used || id.Name != "_"
						if p.info != nil {
							if o := p.info.Defs[id]; o != nil {
								byVar[o] = n
							}
						}
					}
					if used {
						all = append(all, n)
					}
				}
				switch {
				case len(vs.Values) == 0:
					for _, id := range vs.Names {
						emit([]*ast.Ident{id}, &ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}})
					}
				case len(vs.Values) == len(vs.Names):
					for i, id := range vs.Names {
						emit([]*ast.Ident{id}, vs.Values[i])
					}
				default:
					emit(vs.Names, vs.Values[0])
				}
			}
		}
	}
	done := map[*ini]bool{}
	put := func(n *ini) {
		if done[n] {
			return
		}
		done[n] = true
		n.fn = fmt.Sprintf("vsimVar%d__", len(p.order))
		p.order = append(p.order, n.fn)
		n.f.ast.Decls = append(n.f.ast.Decls, &ast.FuncDecl{Name: ast.NewIdent(n.fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: n.lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{n.rhs}}}}})
	}
	for _, n := range all { // zero values first: nothing depends on them being set
		if st, ok := n.rhs.(*ast.StarExpr); ok {
			if c, ok := st.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "new" && !c.Pos().IsValid() {
					put(n)
				}
			}
		}
	}
	if p.info != nil {
		for _, in := range p.info.InitOrder {
			for _, v := range in.Lhs {
				if n := byVar[v]; n != nil {
					put(n)
				}
			}
		}
	}
	for _, n := range all {
		put(n)
	}
	for _, f := range p.files {
		var more []ast.Decl
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			fn := fmt.Sprintf("vsimInit%d__", len(p.inits))
			p.inits = append(p.inits, fn)
			fd.Name = ast.NewIdent(fn)
			more = append(more, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(fn)}}}}})
		}
		f.ast.Decls = append(f.ast.Decls, more...)
	}
}

func (p *pkg) instrument(fl *file) error {
	f := fl.ast
	r := &rw{info: p.info, pkg: p.tpkg}
	for _, im := range f.Imports {
		q, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		repl := ""
		switch q {
		case "net":
			repl = "vnet"
		case "sync":
			repl = "vsync"
		case "time":
			r.timeName = "time"
			if name != "" {
				r.timeName = name
			}
		case "runtime":
			r.runtimeName = "runtime"
			if name != "" {
				r.runtimeName = name
			}
		}
		if repl != "" {
			if name == "" {
				im.Name = ast.NewIdent(q)
			}
			im.Path.Value = strconv.Quote(repl)
		}
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if strings.HasPrefix(x.Name.Name, "vsimVar") {
				continue // shares its expression with the declaration
			}
			r.block(x.Body)
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				for _, sp := range x.Specs {
					r.exprs(sp.(*ast.ValueSpec).Values)
				}
			}
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(sim), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsim"`}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	keep := func(x, sel string) {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(sel)}}}}})
	}
	keep(sim, "Y")
	if r.timeName != "" && r.timeName != "_" && r.timeName != "." && !usesName(f, r.timeName) {
		keep(r.timeName, "Now")
	}
	if r.runtimeName != "" && r.runtimeName != "_" && r.runtimeName != "." && !usesName(f, r.runtimeName) {
		keep(r.runtimeName, "GC")
	}
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		return fmt.Errorf("%s: %v", fl.src, err)
	}
	return os.WriteFile(fl.dst, b.Bytes(), 0644)
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		die("usage: vinstr SRC DST")
	}
	src, dst := os.Args[1], os.Args[2]
	fis, err := os.ReadDir(src)
	if err != nil {
		die(err)
	}
	if err := os.MkdirAll(dst, 0755); err != nil {
		die(err)
	}
	p := &pkg{fset: token.NewFileSet()}
	for _, fi := range fis {
		name := fi.Name()
		if fi.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(src, name); err != nil {
			die(err)
		} else if !ok {
			continue
		}
		a, err := parser.ParseFile(p.fset, filepath.Join(src, name), nil, 0)
		if err != nil {
			die(err)
		}
		p.files = append(p.files, &file{src: filepath.Join(src, name), dst: filepath.Join(dst, name), ast: a})
	}
	if len(p.files) == 0 {
		die("vinstr: no Go files in", src)
	}
	p.check(p.files[0].ast.Name.Name)
	p.resets()
	for _, f := range p.files {
		if err := p.instrument(f); err != nil {
			die(err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// VsimReset__ puts package-level state back to its initial value.\nfunc VsimReset__() {\n", p.files[0].ast.Name.Name)
	for _, fn := range append(p.order, p.inits...) {
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	fmt.Fprintf(&b, "}\n")
	if err := os.WriteFile(filepath.Join(dst, "zz_vsim_reset.go"), b.Bytes(), 0644); err != nil {
		die(err)
	}
}
