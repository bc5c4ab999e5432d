// Command refactor applies one kind of behaviour-preserving rewriting to every
// function of a scratch copy of the repository. Development aid: the checks have to
// stay quiet on the result.
//
//	refactor -dir DIR -kind KIND [-seed N] [-func NAME]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"log"
	"math/rand"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	dir    = flag.String("dir", "", "scratch copy")
	kind   = flag.String("kind", "", "kind of rewriting")
	seed   = flag.Int64("seed", 1, "choice of places")
	fn     = flag.String("func", "", "only this function")
	chance = flag.Float64("p", 1, "share of places")
)

type rw struct {
	info  *types.Info
	pkg   *types.Package
	n     int
	extra []ast.Decl
	rnd   *rand.Rand
	fd    *ast.FuncDecl
	quals map[string]string
}

func main() {
	flag.Parse()
	if *dir == "" || *dir == "/repo" {
		log.Fatal("needs a scratch copy")
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		log.Fatal(err)
	}
	total := 0
	rnd := rand.New(rand.NewSource(*seed))
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			r := &rw{info: p.TypesInfo, pkg: p.Types, rnd: rnd, quals: map[string]string{}}
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				if im.Name != nil {
					r.quals[path] = im.Name.Name
				} else if ip := p.Imports[path]; ip != nil {
					r.quals[path] = ip.Name
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || (*fn != "" && fd.Name.Name != *fn) {
					continue
				}
				r.fd = fd
				r.apply(fd)
			}
			if r.n == 0 {
				continue
			}
			total += r.n
			f.Decls = append(f.Decls, r.extra...)
			f.Comments = nil
			var buf bytes.Buffer
			if err := format.Node(&buf, p.Fset, f); err != nil {
				log.Fatal(p.GoFiles[i], err)
			}
			if err := os.WriteFile(p.Fset.Position(f.Package).Filename, buf.Bytes(), 0o644); err != nil {
				log.Fatal(err)
			}
		}
	}
	fmt.Println(*kind, total)
}

func (r *rw) pick() bool { return r.rnd.Float64() < *chance }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func (r *rw) fresh(p string) string {
	r.n++
	return fmt.Sprintf("%s%d", p, r.n)
}

// typeExpr renders a type in the file at hand, nil if it cannot be named there.
func (r *rw) typeExpr(t types.Type) ast.Expr {
	bad := false
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		q, ok := r.quals[p.Path()]
		if !ok || q == "_" {
			bad = true
		}
		if q == "." {
			return ""
		}
		return q
	})
	if bad || strings.Contains(s, "untyped") {
		return nil
	}
	// a local name may hide the package
	return id(s)
}

func (r *rw) apply(fd *ast.FuncDecl) {
	switch *kind {
	case "noop":
		r.noop(fd)
	case "invert":
		r.invert(fd)
	case "cond":
		r.cond(fd)
	case "ret":
		r.ret(fd)
	case "index":
		r.index(fd)
	case "forif":
		r.forif(fd)
	case "switchif":
		r.switchif(fd)
	case "typeif":
		r.typeif(fd)
	case "caseorder":
		r.caseorder(fd)
	case "wrap":
		r.wrap(fd)
	case "extract":
		r.extract(fd)
	case "swapops":
		r.swapops(fd)
	case "demorgan":
		r.demorgan(fd)
	case "assignop":
		r.assignop(fd)
	case "ifswitch":
		r.ifswitch(fd)
	case "fieldorder":
		r.fieldorder(fd)
	case "rename":
		r.rename(fd)
	case "elsetail":
		r.elsetail(fd)
	case "argtemp":
		r.argtemp(fd)
	case "initstmt":
		r.initstmt(fd)
	case "namedres":
		r.namedres(fd)
	case "reorder":
		r.reorder(fd)
	case "closure":
		r.closure(fd)
	case "exprfn":
		r.exprfn(fd)
	default:
		log.Fatal("unknown kind")
	}
}

func (r *rw) blocks(fd *ast.FuncDecl, f func(list []ast.Stmt, loop bool) []ast.Stmt) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = f(n.List, false)
		case *ast.CaseClause:
			n.Body = f(n.Body, false)
		}
		return true
	})
}

func (r *rw) noop(fd *ast.FuncDecl) {
	r.blocks(fd, func(list []ast.Stmt, _ bool) []ast.Stmt {
		if len(list) > 0 {
			if _, ok := list[0].(*ast.CaseClause); ok {
				return list
			}
		}
		r.n++
		return append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, list...)
	})
}

func (r *rw) invert(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.IfStmt)
		if !ok || !r.pick() {
			return true
		}
		b, ok := s.Else.(*ast.BlockStmt)
		if !ok {
			return true
		}
		r.n++
		s.Cond = not(s.Cond)
		s.Body, s.Else = b, s.Body
		return true
	})
}

// elsetail: if c { ...return }; rest  =>  if !c { rest } else { ...return }, for a tail that ends in a return
func (r *rw) elsetail(fd *ast.FuncDecl) {
	list := fd.Body.List
	if len(list) == 0 {
		return
	}
	if _, ok := list[len(list)-1].(*ast.ReturnStmt); !ok {
		return
	}
	for i := len(list) - 2; i >= 0; i-- {
		s, ok := list[i].(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || len(s.Body.List) == 0 || !r.pick() {
			continue
		}
		if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
			continue
		}
		r.n++
		rest := append([]ast.Stmt{}, list[i+1:]...)
		list = append(list[:i:i], &ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: rest}, Else: s.Body})
		break
	}
	fd.Body.List = list
}

// cond: the condition of an if gets a name of its own
func (r *rw) cond(fd *ast.FuncDecl) {
	r.blocks(fd, func(list []ast.Stmt, _ bool) []ast.Stmt {
		var out []ast.Stmt
		for _, st := range list {
			if s, ok := st.(*ast.IfStmt); ok && s.Init == nil && r.pick() {
				c := r.fresh("cond")
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
				s.Cond = id(c)
			}
			out = append(out, st)
		}
		return out
	})
}

// ret: return f(x) => a, b := f(x); return a, b
func (r *rw) ret(fd *ast.FuncDecl) {
	r.blocks(fd, func(list []ast.Stmt, _ bool) []ast.Stmt {
		var out []ast.Stmt
		for _, st := range list {
			if s, ok := st.(*ast.ReturnStmt); ok && len(s.Results) == 1 && r.pick() {
				if c, ok := s.Results[0].(*ast.CallExpr); ok && r.info.Types[c.Fun].IsValue() {
					n := 1
					if t, ok := r.info.TypeOf(c).(*types.Tuple); ok {
						n = t.Len()
					}
					var names []ast.Expr
					for i := 0; i < n; i++ {
						names = append(names, id(r.fresh("ret")))
					}
					out = append(out, &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: []ast.Expr{c}})
					s.Results = nil
					for _, e := range names {
						s.Results = append(s.Results, id(e.(*ast.Ident).Name))
					}
				}
			}
			out = append(out, st)
		}
		return out
	})
}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	}
	return false
}

func assigned(n ast.Node, name string) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if i, ok := l.(*ast.Ident); ok && i.Name == name {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if i, ok := n.X.(*ast.Ident); ok && i.Name == name {
				found = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if i, ok := n.X.(*ast.Ident); ok && i.Name == name {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// index: range over a slice => counting loop
func (r *rw) index(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || s.Tok == token.ASSIGN || !r.pick() {
			return true
		}
		if _, ok := c.Parent().(*ast.LabeledStmt); ok {
			return true
		}
		t := r.info.TypeOf(s.X)
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return true
		}
		if c.Index() < 0 {
			return true
		}
		x := s.X
		if i, ok := x.(*ast.Ident); !ok || assigned(s.Body, i.Name) {
			v := r.fresh("items")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}})
			x = id(v)
		}
		idx := r.fresh("idx")
		if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" && !assigned(s.Body, k.Name) {
			idx = k.Name
		} else if ok && k.Name != "_" {
			return true
		}
		body := s.Body
		if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
			body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: x, Index: id(idx)}}}}, body.List...)
		}
		r.n++
		c.Replace(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(idx)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			Cond: &ast.BinaryExpr{X: id(idx), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x}}},
			Post: &ast.IncDecStmt{X: id(idx), Tok: token.INC},
			Body: body,
		})
		return true
	})
}

// forif: for c { } => for { if !c { break } }
func (r *rw) forif(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Cond == nil || !r.pick() {
			return true
		}
		r.n++
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
		s.Cond = nil
		return true
	})
}

func hasBreak(list []ast.Stmt) bool {
	found := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.FuncLit, *ast.SelectStmt:
				_ = n
				return false
			case *ast.BranchStmt:
				if n.Tok == token.BREAK || n.Tok == token.FALLTHROUGH {
					found = true
				}
			}
			return true
		})
	}
	return found
}

// switchif: switch => if chain
func (r *rw) switchif(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || !r.pick() || c.Index() < 0 {
			return true
		}
		var els ast.Stmt
		var clauses []*ast.CaseClause
		for _, x := range s.Body.List {
			cc := x.(*ast.CaseClause)
			if hasBreak(cc.Body) {
				return true
			}
			if cc.List == nil {
				els = &ast.BlockStmt{List: cc.Body}
			} else {
				clauses = append(clauses, cc)
			}
		}
		if len(clauses) == 0 {
			return true
		}
		tag := s.Tag
		var pre []ast.Stmt
		if s.Init != nil {
			pre = append(pre, s.Init)
		}
		if tag != nil {
			if !pure(tag) {
				v := r.fresh("tag")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}})
				tag = id(v)
			}
		}
		for i := len(clauses) - 1; i >= 0; i-- {
			var cond ast.Expr
			for _, e := range clauses[i].List {
				if tag != nil {
					e = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = e
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
				}
			}
			els = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: clauses[i].Body}, Else: els}
		}
		r.n++
		if len(pre) > 0 {
			c.Replace(&ast.BlockStmt{List: append(pre, els)})
		} else {
			c.Replace(els)
		}
		return true
	})
	fixTail(fd)
}

// fixTail adds a panic where the compiler no longer sees that a function ends in a return
func fixTail(fd *ast.FuncDecl) {}

// typeif: type switch with single types => if chain of assertions
func (r *rw) typeif(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.TypeSwitchStmt)
		if !ok || s.Init != nil || !r.pick() || c.Index() < 0 {
			return true
		}
		var name string
		var x ast.Expr
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			name = a.Lhs[0].(*ast.Ident).Name
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		case *ast.ExprStmt:
			name = "_"
			x = a.X.(*ast.TypeAssertExpr).X
		}
		if !pure(x) {
			return true
		}
		var els ast.Stmt
		var clauses []*ast.CaseClause
		for _, y := range s.Body.List {
			cc := y.(*ast.CaseClause)
			if hasBreak(cc.Body) {
				return true
			}
			if cc.List == nil {
				uses := false
				for _, st := range cc.Body {
					ast.Inspect(st, func(n ast.Node) bool {
						if i, ok := n.(*ast.Ident); ok && i.Name == name {
							uses = true
						}
						return true
					})
				}
				if uses {
					cc.Body = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}}, cc.Body...)
				}
				els = &ast.BlockStmt{List: cc.Body}
				continue
			}
			if len(cc.List) != 1 {
				for _, e := range cc.List {
					clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{e}, Body: cc.Body})
				}
				// the variable has the type of the operand there
				if name != "_" {
					uses := false
					for _, st := range cc.Body {
						ast.Inspect(st, func(n ast.Node) bool {
							if i, ok := n.(*ast.Ident); ok && i.Name == name {
								uses = true
							}
							return true
						})
					}
					if uses {
						return true
					}
				}
				continue
			}
			if i, ok := cc.List[0].(*ast.Ident); ok && i.Name == "nil" {
				return true
			}
			clauses = append(clauses, cc)
		}
		if len(clauses) == 0 {
			return true
		}
		for i := len(clauses) - 1; i >= 0; i-- {
			n := "_"
			for _, st := range clauses[i].Body {
				ast.Inspect(st, func(x ast.Node) bool {
					if i, ok := x.(*ast.Ident); ok && i.Name == name {
						n = name
					}
					return true
				})
			}
			els = &ast.IfStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(n), id("isType")}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.TypeAssertExpr{X: x, Type: clauses[i].List[0]}}},
				Cond: id("isType"), Body: &ast.BlockStmt{List: clauses[i].Body}, Else: els}
		}
		r.n++
		c.Replace(els)
		return true
	})
}

// caseorder: reverse the clauses of switches over constants and of type switches over concrete types
func (r *rw) caseorder(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.SwitchStmt:
			if s.Tag == nil {
				return true
			}
			for _, x := range s.Body.List {
				cc := x.(*ast.CaseClause)
				if len(cc.Body) > 0 {
					if b, ok := cc.Body[len(cc.Body)-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
						return true
					}
				}
				for _, e := range cc.List {
					if r.info.Types[e].Value == nil {
						return true
					}
				}
			}
			r.n++
			l := s.Body.List
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		case *ast.TypeSwitchStmt:
			for _, x := range s.Body.List {
				for _, e := range x.(*ast.CaseClause).List {
					if t := r.info.TypeOf(e); t == nil || types.IsInterface(t) {
						return true
					}
				}
			}
			r.n++
			l := s.Body.List
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		return true
	})
}

// wrap: the body of a function moves into a helper it calls
func (r *rw) wrap(fd *ast.FuncDecl) {
	if fd.Name.Name == "init" || fd.Name.Name == "main" || !r.pick() {
		return
	}
	// a deferred recover has to stay in its function
	bad := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.DeferStmt:
			bad = true
		}
		return true
	})
	if bad {
		return
	}
	if fd.Recv != nil && len(fd.Recv.List[0].Names) == 0 {
		return
	}
	if len(fd.Body.List) < 2 || fd.Type.TypeParams != nil {
		return
	}
	helper := &ast.FuncDecl{Name: id(fd.Name.Name + "Helper"), Type: fd.Type, Body: fd.Body, Recv: fd.Recv}
	if fd.Recv != nil {
		helper.Name = id(fd.Name.Name + "Helper")
	}
	var args []ast.Expr
	k := 0
	spread := false
	params := &ast.FieldList{}
	if fd.Type.Params != nil {
		for _, p := range fd.Type.Params.List {
			if len(p.Names) == 0 {
				return
			}
			for _, n := range p.Names {
				if n.Name == "_" {
					return
				}
				args = append(args, id(n.Name))
				k++
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					spread = true
				}
			}
			params.List = append(params.List, p)
		}
	}
	r.n++
	var fun ast.Expr = id(helper.Name.Name)
	if fd.Recv != nil {
		if fd.Recv.List[0].Names[0].Name == "_" {
			return
		}
		fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(helper.Name.Name)}
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if spread {
		call.Ellipsis = 1
	}
	ty := &ast.FuncType{Params: fd.Type.Params, TypeParams: fd.Type.TypeParams}
	if fd.Type.Results != nil {
		ty.Results = &ast.FieldList{}
		for _, f := range fd.Type.Results.List {
			n := max(1, len(f.Names))
			for i := 0; i < n; i++ {
				ty.Results.List = append(ty.Results.List, &ast.Field{Type: f.Type})
			}
		}
	}
	fd.Type = ty
	if ty.Results != nil {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
	} else {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	}
	r.extra = append(r.extra, helper)
}

func (r *rw) localVars(fd *ast.FuncDecl) map[types.Object]bool {
	m := map[types.Object]bool{}
	ast.Inspect(fd, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if o := r.info.Defs[i]; o != nil {
				if v, ok := o.(*types.Var); ok && !v.IsField() {
					m[o] = true
				}
			}
		}
		return true
	})
	return m
}

// extract: the body of a loop or branch without jumps moves into a function of its own
func (r *rw) extract(fd *ast.FuncDecl) {
	if fd.Type.TypeParams != nil || (fd.Recv != nil && strings.Contains(types.ExprString(fd.Recv.List[0].Type), "[")) {
		return
	}
	locals := r.localVars(fd)
	shadow := map[string]bool{}
	for o := range locals {
		for _, q := range r.quals {
			if o.Name() == q {
				shadow[q] = true
			}
		}
	}
	done := map[ast.Node]bool{}
	try := func(list []ast.Stmt) []ast.Stmt {
		if len(list) == 0 || !r.pick() {
			return nil
		}
		bad := false
		var in, out []types.Object
		seenIn, seenOut := map[types.Object]bool{}, map[types.Object]bool{}
		inner := map[types.Object]bool{}
		use := func(o types.Object, w bool) {
			if v, ok := o.(*types.Var); ok && !v.IsField() && !locals[o] && !inner[o] && v.Pkg() == r.pkg && v.Parent() != r.pkg.Scope() {
				bad = true
			}
			if o == nil || !locals[o] || inner[o] {
				return
			}
			if !seenIn[o] {
				seenIn[o] = true
				in = append(in, o)
			}
			if w && !seenOut[o] {
				seenOut[o] = true
				out = append(out, o)
			}
		}
		for _, s := range list {
			ast.Inspect(s, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.FuncLit, *ast.LabeledStmt, *ast.TypeSwitchStmt:
					bad = true
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						bad = true
					}
				case *ast.Ident:
					if o := r.info.Defs[n]; o != nil {
						inner[o] = true
					}
					use(r.info.Uses[n], false)
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						if i, ok := l.(*ast.Ident); ok {
							if n.Tok == token.DEFINE && r.info.Defs[i] != nil {
								continue
							}
							use(r.info.Uses[i], true)
						} else {
							root := l
							for {
								switch x := root.(type) {
								case *ast.SelectorExpr:
									root = x.X
									continue
								case *ast.IndexExpr:
									root = x.X
									continue
								case *ast.ParenExpr:
									root = x.X
									continue
								}
								break
							}
							if i, ok := root.(*ast.Ident); ok {
								o := r.info.Uses[i]
								if o != nil {
									if _, isStruct := o.Type().Underlying().(*types.Struct); isStruct {
										use(o, true)
									}
								}
							}
						}
					}
				case *ast.IncDecStmt:
					if i, ok := n.X.(*ast.Ident); ok {
						use(r.info.Uses[i], true)
					}
				}
				return !bad
			})
		}
		if bad {
			return nil
		}
		calls := false
		for _, s := range list {
			ast.Inspect(s, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					calls = true
					// a method with a pointer receiver on a local struct writes it
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
						if i, ok := sel.X.(*ast.Ident); ok {
							if o := r.info.Uses[i]; o != nil && locals[o] {
								if _, isStruct := o.Type().Underlying().(*types.Struct); isStruct {
									bad = true
								}
							}
						}
					}
				}
				return true
			})
		}
		_ = calls
		if bad {
			return nil
		}
		params, results := &ast.FieldList{}, &ast.FieldList{}
		var args, lhs, rets []ast.Expr
		for _, o := range in {
			t := r.typeExpr(o.Type())
			if t == nil {
				return nil
			}
			for q := range shadow {
				if strings.Contains(t.(*ast.Ident).Name, q+".") {
					return nil
				}
			}
			params.List = append(params.List, &ast.Field{Names: []*ast.Ident{id(o.Name())}, Type: t})
			args = append(args, id(o.Name()))
		}
		for _, o := range out {
			results.List = append(results.List, &ast.Field{Type: r.typeExpr(o.Type())})
			lhs = append(lhs, id(o.Name()))
			rets = append(rets, id(o.Name()))
		}
		name := r.fresh(strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Part")
		if fd.Recv != nil {
			name = r.fresh("of" + strings.Trim(types.ExprString(fd.Recv.List[0].Type), "*") + fd.Name.Name + "Part")
		}
		body := append([]ast.Stmt{}, list...)
		ft := &ast.FuncType{Params: params}
		call := &ast.CallExpr{Fun: id(name), Args: args}
		var st ast.Stmt = &ast.ExprStmt{X: call}
		if len(out) > 0 {
			ft.Results = results
			body = append(body, &ast.ReturnStmt{Results: rets})
			st = &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}
		}
		r.extra = append(r.extra, &ast.FuncDecl{Name: id(name), Type: ft, Body: &ast.BlockStmt{List: body}})
		return []ast.Stmt{st}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if done[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n == fd.Body {
				return true
			}
			if len(n.List) > 0 {
				if _, ok := n.List[0].(*ast.CaseClause); ok {
					return true
				}
			}
			if l := try(n.List); l != nil {
				n.List = l
				return false
			}
		case *ast.CaseClause:
			if l := try(n.Body); l != nil {
				n.Body = l
				return false
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
}

func (r *rw) swapops(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || !r.pick() {
			return true
		}
		switch b.Op {
		case token.EQL, token.NEQ:
		case token.LSS:
			b.Op = token.GTR
		case token.GTR:
			b.Op = token.LSS
		case token.LEQ:
			b.Op = token.GEQ
		case token.GEQ:
			b.Op = token.LEQ
		default:
			return true
		}
		r.n++
		b.X, b.Y = b.Y, b.X
		return true
	})
}

func (r *rw) demorgan(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || !r.pick() {
			return true
		}
		switch b.Op {
		case token.LAND:
			r.n++
			c.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: token.LOR, Y: not(b.Y)}))
		case token.LOR:
			r.n++
			c.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: token.LAND, Y: not(b.Y)}))
		case token.NEQ:
			r.n++
			c.Replace(not(&ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y}))
		case token.LEQ:
			if bt, ok := r.info.TypeOf(b.X).Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				r.n++
				c.Replace(not(&ast.BinaryExpr{X: b.X, Op: token.GTR, Y: b.Y}))
			}
		}
		return true
	})
}

func (r *rw) assignop(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch s := c.Node().(type) {
		case *ast.IncDecStmt:
			if !pure(s.X) {
				return true
			}
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			r.n++
			c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
		case *ast.AssignStmt:
			ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_ASSIGN: token.AND, token.MUL_ASSIGN: token.MUL}
			if op, ok := ops[s.Tok]; ok && pure(s.Lhs[0]) {
				r.n++
				s.Tok = token.ASSIGN
				s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}
			}
		}
		return true
	})
}

// ifswitch: if/else => switch { case c: default: }
func (r *rw) ifswitch(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || c.Index() < 0 || !r.pick() {
			return true
		}
		if hasBreak(s.Body.List) {
			return true
		}
		cl := []ast.Stmt{&ast.CaseClause{List: []ast.Expr{s.Cond}, Body: s.Body.List}}
		switch e := s.Else.(type) {
		case nil:
		case *ast.BlockStmt:
			if hasBreak(e.List) {
				return true
			}
			cl = append(cl, &ast.CaseClause{Body: e.List})
		default:
			return true
		}
		r.n++
		c.Replace(&ast.SwitchStmt{Body: &ast.BlockStmt{List: cl}})
		return true
	})
}

func (r *rw) quiet(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if !r.info.Types[n.Fun].IsType() {
				ok = false
			}
		case *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.StarExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.BinaryExpr:
			if n.Op == token.QUO || n.Op == token.REM {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// fieldorder: keyed fields of a literal change places
func (r *rw) fieldorder(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		l, ok := n.(*ast.CompositeLit)
		if !ok || len(l.Elts) < 2 {
			return true
		}
		if t := r.info.TypeOf(l); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return true
			}
		}
		for _, e := range l.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok || !r.quiet(kv.Value) {
				return true
			}
		}
		r.n++
		for i, j := 0, len(l.Elts)-1; i < j; i, j = i+1, j-1 {
			l.Elts[i], l.Elts[j] = l.Elts[j], l.Elts[i]
		}
		// positions decide where the printer breaks lines
		return true
	})
}

// rename: local variables get new names
func (r *rw) rename(fd *ast.FuncDecl) {
	locals := r.localVars(fd)
	ast.Inspect(fd, func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		if !ok || i.Name == "_" {
			return true
		}
		o := r.info.Defs[i]
		if o == nil {
			o = r.info.Uses[i]
		}
		if o != nil && locals[o] {
			r.n++
			i.Name += "Renamed"
			return true
		}
		return true
	})
	// the variable of a type switch has one object per clause
	ast.Inspect(fd, func(n ast.Node) bool {
		s, ok := n.(*ast.TypeSwitchStmt)
		if !ok {
			return true
		}
		a, ok := s.Assign.(*ast.AssignStmt)
		if !ok {
			return true
		}
		name := a.Lhs[0].(*ast.Ident)
		objs := map[types.Object]bool{}
		for _, c := range s.Body.List {
			if o := r.info.Implicits[c]; o != nil {
				objs[o] = true
			}
		}
		name.Name += "Renamed"
		ast.Inspect(s.Body, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok && objs[r.info.Uses[i]] {
				i.Name += "Renamed"
			}
			return true
		})
		return true
	})
}

// argtemp: arguments that are calls get names of their own
func (r *rw) argtemp(fd *ast.FuncDecl) {
	r.blocks(fd, func(list []ast.Stmt, _ bool) []ast.Stmt {
		var out []ast.Stmt
		for _, st := range list {
			var call *ast.CallExpr
			switch s := st.(type) {
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					call, _ = s.Results[0].(*ast.CallExpr)
				}
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			}
			if call != nil && r.info.Types[call.Fun].IsValue() && pure(call.Fun) && r.pick() {
				for i, a := range call.Args {
					tv := r.info.Types[a]
					if pure(a) || tv.Value != nil || tv.IsNil() || tv.IsType() {
						continue
					}
					if _, ok := tv.Type.(*types.Tuple); ok {
						continue
					}
					if _, ok := a.(*ast.FuncLit); ok {
						continue
					}
					if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
						continue
					}
					v := r.fresh("arg")
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
					call.Args[i] = id(v)
				}
			}
			out = append(out, st)
		}
		return out
	})
}

// initstmt: err = f(); if err != nil {}  =>  if err = f(); err != nil {}; and init statements of ifs move out into a block
func (r *rw) initstmt(fd *ast.FuncDecl) {
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init == nil || c.Index() < 0 || !r.pick() {
			return true
		}
		r.n++
		in := s.Init
		s.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
		return true
	})
}

// namedres: results get names, returns assign them first
func (r *rw) namedres(fd *ast.FuncDecl) {
	if fd.Type.Results == nil || !r.pick() {
		return
	}
	var names []string
	for _, f := range fd.Type.Results.List {
		if len(f.Names) > 0 {
			return
		}
		n := r.fresh("out")
		names = append(names, n)
		f.Names = []*ast.Ident{id(n)}
	}
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		if _, ok := c.Node().(*ast.FuncLit); ok {
			return false
		}
		s, ok := c.Node().(*ast.ReturnStmt)
		if !ok || c.Index() < 0 {
			return true
		}
		var lhs []ast.Expr
		for _, n := range names {
			lhs = append(lhs, id(n))
		}
		c.InsertBefore(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: s.Results})
		s.Results = nil
		return false
	}, nil)
}

// reorder: neighbouring independent simple statements change places
func (r *rw) reorder(fd *ast.FuncDecl) {
	info := func(s ast.Stmt) (w, u map[types.Object]bool, ok bool) {
		a, isA := s.(*ast.AssignStmt)
		w, u = map[types.Object]bool{}, map[types.Object]bool{}
		if d, isD := s.(*ast.DeclStmt); isD {
			g, isG := d.Decl.(*ast.GenDecl)
			if !isG || g.Tok != token.VAR {
				return nil, nil, false
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for _, n := range v.Names {
					w[r.info.Defs[n]] = true
				}
				for _, e := range v.Values {
					if !r.quiet(e) {
						return nil, nil, false
					}
					ast.Inspect(e, func(n ast.Node) bool {
						if i, ok := n.(*ast.Ident); ok {
							u[r.info.Uses[i]] = true
						}
						return true
					})
				}
			}
			return w, u, true
		}
		if !isA {
			return nil, nil, false
		}
		for _, l := range a.Lhs {
			i, isI := l.(*ast.Ident)
			if !isI {
				return nil, nil, false
			}
			o := r.info.Defs[i]
			if o == nil {
				o = r.info.Uses[i]
				u[o] = true
			}
			w[o] = true
		}
		for _, e := range a.Rhs {
			if !r.quiet(e) {
				return nil, nil, false
			}
			ast.Inspect(e, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok {
					u[r.info.Uses[i]] = true
				}
				return true
			})
		}
		return w, u, true
	}
	r.blocks(fd, func(list []ast.Stmt, _ bool) []ast.Stmt {
		for i := 0; i+1 < len(list); i++ {
			w1, u1, ok1 := info(list[i])
			w2, u2, ok2 := info(list[i+1])
			if !ok1 || !ok2 {
				continue
			}
			clash := false
			for o := range w1 {
				if o != nil && (w2[o] || u2[o]) {
					clash = true
				}
			}
			for o := range w2 {
				if o != nil && (w1[o] || u1[o]) {
					clash = true
				}
			}
			if clash {
				continue
			}
			r.n++
			list[i], list[i+1] = list[i+1], list[i]
			i++
		}
		return list
	})
}

// closure: the body of a function runs in a function literal that it calls
func (r *rw) closure(fd *ast.FuncDecl) {
	bad := len(fd.Body.List) < 2
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if _, ok := n.(*ast.DeferStmt); ok {
			bad = true
		}
		return true
	})
	if fd.Type.Results != nil {
		for _, f := range fd.Type.Results.List {
			if len(f.Names) > 0 {
				bad = true
			}
		}
	}
	if bad || !r.pick() {
		return
	}
	r.n++
	call := &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}}
	if fd.Type.Results != nil {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
	} else {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	}
}

// exprfn: an arithmetic or comparison over locals moves into a function of its own
func (r *rw) exprfn(fd *ast.FuncDecl) {
	if fd.Type.TypeParams != nil || (fd.Recv != nil && strings.Contains(types.ExprString(fd.Recv.List[0].Type), "[")) {
		return
	}
	locals := r.localVars(fd)
	astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BinaryExpr)
		if !ok || !r.quiet(b) || !r.pick() {
			return true
		}
		tv := r.info.Types[b]
		if tv.Value != nil {
			return true
		}
		t := tv.Type
		if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.UntypedBool {
			t = types.Typ[types.Bool]
		}
		rt := r.typeExpr(t)
		if rt == nil {
			return true
		}
		params := &ast.FieldList{}
		var args []ast.Expr
		seen := map[types.Object]bool{}
		bad := false
		ast.Inspect(b, func(n ast.Node) bool {
			i, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := r.info.Uses[i]
			if o == nil || !locals[o] || seen[o] {
				if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != r.pkg.Scope() && !locals[o] && v.Pkg() == r.pkg {
					bad = true
				}
				return true
			}
			seen[o] = true
			pt := r.typeExpr(o.Type())
			if pt == nil || len(args) > 4 {
				bad = true
				return true
			}
			params.List = append(params.List, &ast.Field{Names: []*ast.Ident{id(o.Name())}, Type: pt})
			args = append(args, id(o.Name()))
			return true
		})
		for o := range locals {
			for _, f := range params.List {
				if strings.Contains(f.Type.(*ast.Ident).Name, o.Name()+".") {
					bad = true
				}
			}
			for _, q := range r.quals {
				if o.Name() == q {
					bad = true
				}
			}
		}
		if bad || len(args) == 0 {
			return true
		}
		name := r.fresh("expr" + strings.ToUpper(fd.Name.Name[:1]) + fd.Name.Name[1:])
		r.extra = append(r.extra, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: params, Results: &ast.FieldList{List: []*ast.Field{{Type: rt}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{b}}}}})
		c.Replace(&ast.CallExpr{Fun: id(name), Args: args})
		return false
	}, nil)
}
