// refac rewrites a copy of the repository without changing what it does, to
// test that the checks judge behaviour and not form. Development tool only.
//
//	refac DIR TRANSFORM
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type ctx struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	n       int
	cnt     int
	direct  map[types.Object]bool
	direct2 map[types.Object]string
}

func (c *ctx) name(p string) string { c.n++; return fmt.Sprintf("%sZ%d", p, c.n) }

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	}
	return false
}

// pure expressions: no calls, no receives
func pure(e ast.Node) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if f, isID := n.Fun.(*ast.Ident); !isID || f.Name != "len" {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		case *ast.FuncLit, *ast.IndexExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func str(e ast.Node, fset *token.FileSet) string {
	var b strings.Builder
	format.Node(&b, fset, e)
	return b.String()
}

func (c *ctx) typeExpr(t types.Type) ast.Expr {
	return id(types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		return p.Name()
	}))
}

func neg(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

var flip = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
var inv = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}

func hasBranch(s ast.Node) bool {
	f := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BranchStmt:
			f = true
		}
		return true
	})
	return f
}

func transforms(c *ctx) map[string]func(*ast.File) {
	apply := func(f func(cur *astutil.Cursor)) func(*ast.File) {
		return func(file *ast.File) {
			astutil.Apply(file, nil, func(cur *astutil.Cursor) bool { f(cur); return true })
		}
	}
	isSliceOrArr := func(e ast.Expr) (types.Type, bool) {
		tv, ok := c.info.Types[e]
		if !ok {
			return nil, false
		}
		switch tv.Type.Underlying().(type) {
		case *types.Slice, *types.Array:
			return tv.Type, true
		}
		return nil, false
	}
	return map[string]func(*ast.File){
		// a statement that does nothing at the start of every function
		"noop": apply(func(cur *astutil.Cursor) {
			if fd, ok := cur.Node().(*ast.FuncDecl); ok && fd.Body != nil {
				c.cnt++
				fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, fd.Body.List...)
			}
		}),
		"noopvar": apply(func(cur *astutil.Cursor) {
			if fd, ok := cur.Node().(*ast.BlockStmt); ok {
				if _, isF := cur.Parent().(*ast.SelectStmt); isF {
					return
				}
				if _, isF := cur.Parent().(*ast.SwitchStmt); isF {
					return
				}
				if _, isF := cur.Parent().(*ast.TypeSwitchStmt); isF {
					return
				}
				c.cnt++
				nm := c.name("t")
				fd.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}, &ast.IncDecStmt{X: id(nm), Tok: token.INC}}, fd.List...)
			}
		}),
		// if c {A} else {B} -> if !c {B} else {A}; if c {A} -> if !c {} else {A}
		"ifinvert": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok {
				return
			}
			if _, chain := cur.Parent().(*ast.IfStmt); chain {
				return
			}
			c.cnt++
			switch el := s.Else.(type) {
			case nil:
				s.Cond, s.Else, s.Body = neg(s.Cond), s.Body, &ast.BlockStmt{}
			case *ast.BlockStmt:
				s.Cond, s.Body, s.Else = neg(s.Cond), el, s.Body
			}
		}),
		// a < b -> b > a
		"cmpflip": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.BinaryExpr)
			if ok && flip[s.Op] != 0 && pure(s.X) && pure(s.Y) {
				c.cnt++
				s.X, s.Y, s.Op = s.Y, s.X, flip[s.Op]
			}
		}),
		// a < b -> !(a >= b)
		"cmpneg": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.BinaryExpr)
			if !ok || inv[s.Op] == 0 {
				return
			}
			if tv, ok := c.info.Types[s]; ok && tv.Value != nil {
				return
			}
			c.cnt++
			cur.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: s.X, Op: inv[s.Op], Y: s.Y}}})
		}),
		// a && b -> !(!a || !b)
		"demorgan": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.BinaryExpr)
			if !ok || s.Op != token.LAND && s.Op != token.LOR {
				return
			}
			c.cnt++
			op := token.LOR
			if s.Op == token.LOR {
				op = token.LAND
			}
			cur.Replace(neg(&ast.BinaryExpr{X: neg(s.X), Op: op, Y: neg(s.Y)}))
		}),
		// if a && b {A} -> if a { if b {A} }
		"andnest": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Else != nil {
				return
			}
			b, ok := s.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND {
				return
			}
			c.cnt++
			s.Cond = b.X
			s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
		}),
		// if x := e; c {} -> { x := e; if c {} }
		"ifinit": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Init == nil || cur.Index() < 0 {
				return
			}
			c.cnt++
			in := s.Init
			s.Init = nil
			cur.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
		}),
		// for i, v := range X -> for i := 0; i < len(X); i++ { v := X[i] }
		"rangeindex": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE {
				return
			}
			if _, ok := isSliceOrArr(s.X); !ok || !simple(s.X) {
				return
			}
			xs := str(s.X, c.fset)
			mod := false
			ast.Inspect(s.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						if str(l, c.fset) == xs {
							mod = true
						}
					}
				case *ast.BranchStmt:
					if n.Label != nil {
						mod = true
					}
				}
				return true
			})
			if mod {
				return
			}
			c.cnt++
			k, _ := s.Key.(*ast.Ident)
			if k == nil || k.Name == "_" {
				k = id(c.name("i"))
			}
			body := s.Body
			if v, _ := s.Value.(*ast.Ident); v != nil && v.Name != "_" {
				body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: s.X, Index: id(k.Name)}}}}, s.Body.List...)}
			}
			cur.Replace(&ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: id(k.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{s.X}}},
				Post: &ast.IncDecStmt{X: id(k.Name), Tok: token.INC},
				Body: body,
			})
		}),
		// for c { body } -> for { if !c { break }; body }
		"forbreak": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.ForStmt)
			if !ok || s.Cond == nil {
				return
			}
			c.cnt++
			s.Body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.IfStmt{Cond: neg(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)}
			s.Cond = nil
		}),
		// a op= b -> a = a op b
		"opassign": apply(func(cur *astutil.Cursor) {
			switch s := cur.Node().(type) {
			case *ast.AssignStmt:
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.AND_NOT_ASSIGN: token.AND_NOT, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
				if op != 0 {
					c.cnt++
					s.Tok = token.ASSIGN
					s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}
				}
			case *ast.IncDecStmt:
				if _, isFor := cur.Parent().(*ast.ForStmt); isFor {
					return
				}
				op := token.ADD
				if s.Tok == token.DEC {
					op = token.SUB
				}
				c.cnt++
				cur.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
			}
		}),
		// return e -> r := e; return r
		"retvar": func(file *ast.File) {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Type.Results == nil {
					continue
				}
				res := c.info.Defs[fd.Name].(*types.Func).Type().(*types.Signature).Results()
				astutil.Apply(fd.Body, func(cur *astutil.Cursor) bool {
					_, lit := cur.Node().(*ast.FuncLit)
					return !lit
				}, func(cur *astutil.Cursor) bool {
					r, ok := cur.Node().(*ast.ReturnStmt)
					if !ok || len(r.Results) != res.Len() || cur.Index() < 0 {
						return true
					}
					c.cnt++
					var ss []ast.Stmt
					var rs []ast.Expr
					for i, e := range r.Results {
						nm := c.name("r")
						ss = append(ss, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(nm)}, Type: c.typeExpr(res.At(i).Type()), Values: []ast.Expr{e}}}}})
						rs = append(rs, id(nm))
					}
					for _, s := range ss {
						cur.InsertBefore(s)
					}
					cur.Replace(&ast.ReturnStmt{Results: rs})
					return true
				})
			}
		},
		// func f(a) r { body } -> func f(a) r { return fImpl(a) }
		"extract": func(file *ast.File) {
			var add []ast.Decl
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || len(fd.Body.List) < 2 || fd.Name.Name == "init" || fd.Name.Name == "main" {
					continue
				}
				c.cnt++
				nm := c.name("impl" + fd.Name.Name)
				var args []ast.Expr
				ell := false
				ft := *fd.Type
				for _, p := range fd.Type.Params.List {
					if len(p.Names) == 0 {
						p.Names = []*ast.Ident{id(c.name("p"))}
					}
					for i, n := range p.Names {
						if n.Name == "_" {
							p.Names[i] = id(c.name("p"))
						}
						args = append(args, id(p.Names[i].Name))
					}
					if _, e := p.Type.(*ast.Ellipsis); e {
						ell = true
					}
				}
				im := &ast.FuncDecl{Name: id(nm), Type: &ft, Body: fd.Body, Recv: fd.Recv}
				var fun ast.Expr = id(nm)
				if fd.Recv != nil {
					if len(fd.Recv.List[0].Names) == 0 {
						fd.Recv.List[0].Names = []*ast.Ident{id(c.name("rcv"))}
					}
					if fd.Recv.List[0].Names[0].Name == "_" {
						fd.Recv.List[0].Names[0] = id(c.name("rcv"))
					}
					fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(nm)}
				}
				call := &ast.CallExpr{Fun: fun, Args: args}
				if ell {
					call.Ellipsis = 1
				}
				var st ast.Stmt = &ast.ExprStmt{X: call}
				if fd.Type.Results != nil {
					st = &ast.ReturnStmt{Results: []ast.Expr{call}}
				}
				nt := *fd.Type
				fd.Type = &nt
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
				add = append(add, im)
			}
			file.Decls = append(file.Decls, add...)
		},
		// the body of every block in an if becomes a closure that is called
		"closure": apply(func(cur *astutil.Cursor) {
			fd, ok := cur.Node().(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) == 0 {
				return
			}
			for _, s := range fd.Body.List {
				is, ok := s.(*ast.IfStmt)
				if !ok {
					continue
				}
				bad := false
				ast.Inspect(is.Body, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
						bad = true
					}
					return true
				})
				if bad {
					continue
				}
				c.cnt++
				is.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: is.Body}}}}}
			}
		}),
		// the whole body becomes a closure
		"bodyclosure": apply(func(cur *astutil.Cursor) {
			fd, ok := cur.Node().(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) < 2 {
				return
			}
			var rs ast.Stmt
			call := &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}}
			rs = &ast.ExprStmt{X: call}
			if fd.Type.Results != nil {
				for _, f := range fd.Type.Results.List {
					if len(f.Names) > 0 {
						return
					}
				}
				rs = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			c.cnt++
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{rs}}
		}),
		// switch x { case a: A default: B } -> if x == a {A} else {B}
		"switchif": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.SwitchStmt)
			if !ok || s.Tag == nil && false || cur.Index() < 0 {
				return
			}
			brk := false
			ast.Inspect(s.Body, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.FuncLit:
					return false
				case *ast.BranchStmt:
					if b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH {
						brk = true
					}
				}
				return true
			})
			if brk || len(s.Body.List) == 0 {
				return
			}
			c.cnt++
			var blk []ast.Stmt
			if s.Init != nil {
				blk = append(blk, s.Init)
			}
			var tag ast.Expr
			if s.Tag != nil {
				nm := c.name("tag")
				blk = append(blk, &ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}}, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(nm)}})
				tag = id(nm)
			}
			var def *ast.BlockStmt
			var first, last *ast.IfStmt
			for _, cl := range s.Body.List {
				cc := cl.(*ast.CaseClause)
				b := &ast.BlockStmt{List: cc.Body}
				if cc.List == nil {
					def = b
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					var ce ast.Expr = &ast.ParenExpr{X: e}
					if tag != nil {
						ce = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: &ast.ParenExpr{X: e}}
					}
					if cond == nil {
						cond = ce
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: ce}
					}
				}
				is := &ast.IfStmt{Cond: cond, Body: b}
				if first == nil {
					first = is
				} else {
					last.Else = is
				}
				last = is
			}
			if first == nil {
				if def != nil {
					blk = append(blk, def)
				}
			} else {
				if def != nil {
					last.Else = def
				}
				blk = append(blk, first)
			}
			// a switch in return position keeps the function terminating
			if len(blk) == 1 {
				cur.Replace(blk[0])
				return
			}
			cur.Replace(&ast.BlockStmt{List: blk})
		}),
		// arguments of calls through variables
		"argvar": apply(func(cur *astutil.Cursor) {
			es, ok := cur.Node().(*ast.ExprStmt)
			if !ok || cur.Index() < 0 {
				return
			}
			call, ok := es.X.(*ast.CallExpr)
			if !ok || call.Ellipsis != 0 {
				return
			}
			if _, isID := call.Fun.(*ast.Ident); isID {
				return
			}
			for i, a := range call.Args {
				tv, ok := c.info.Types[a]
				if !ok || tv.IsNil() || tv.Value != nil {
					continue
				}
				c.cnt++
				nm := c.name("a")
				cur.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				call.Args[i] = id(nm)
			}
		}),
		// x := T{...} composite literals with fields assigned later
		"litfields": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.AssignStmt)
			if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || cur.Index() < 0 {
				return
			}
			v, ok := s.Lhs[0].(*ast.Ident)
			if !ok || v.Name == "_" {
				return
			}
			e := s.Rhs[0]
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
				e = u.X
			}
			l, ok := e.(*ast.CompositeLit)
			if !ok || l.Type == nil || len(l.Elts) == 0 {
				return
			}
			if tv := c.info.Types[l]; tv.Type == nil {
				return
			} else if _, ok := tv.Type.Underlying().(*types.Struct); !ok {
				return
			}
			els := l.Elts
			for _, x := range els {
				if kv, ok := x.(*ast.KeyValueExpr); !ok {
					return
				} else if cl, ok := kv.Value.(*ast.CompositeLit); ok && cl.Type == nil {
					return
				}
			}
			c.cnt++
			l.Elts = nil
			for i := len(els) - 1; i >= 0; i-- {
				kv := els[i].(*ast.KeyValueExpr)
				cur.InsertAfter(&ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(v.Name), Sel: id(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
		}),
		// return at the end of the then-branch: else-less continuation in an else
		"elsewrap": apply(func(cur *astutil.Cursor) {
			b, ok := cur.Node().(*ast.BlockStmt)
			if !ok {
				return
			}
			for i, s := range b.List {
				is, ok := s.(*ast.IfStmt)
				if !ok || is.Else != nil || len(is.Body.List) == 0 || i == len(b.List)-1 {
					continue
				}
				if _, ret := is.Body.List[len(is.Body.List)-1].(*ast.ReturnStmt); !ret {
					continue
				}
				lab := false
				for _, t := range b.List[i+1:] {
					if _, ok := t.(*ast.LabeledStmt); ok {
						lab = true
					}
				}
				if lab {
					continue
				}
				c.cnt++
				is.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
				b.List = b.List[:i+1]
				return
			}
		}),
		// every field read through a pointer to the struct
		"recvalias": apply(func(cur *astutil.Cursor) {
			fd, ok := cur.Node().(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil || len(fd.Recv.List[0].Names) == 0 {
				return
			}
			if _, ptr := fd.Recv.List[0].Type.(*ast.StarExpr); !ptr {
				return
			}
			rn := fd.Recv.List[0].Names[0].Name
			if rn == "_" {
				return
			}
			obj := c.info.Defs[fd.Recv.List[0].Names[0]]
			nm := c.name("self")
			used := false
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if x, ok := n.(*ast.Ident); ok && c.info.Uses[x] == obj {
					x.Name = nm
					used = true
				}
				return true
			})
			if !used {
				return
			}
			c.cnt++
			fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(rn)}}}, fd.Body.List...)
		}),
		// pure independent neighbouring assignments swapped
		"swapassign": apply(func(cur *astutil.Cursor) {
			b, ok := cur.Node().(*ast.BlockStmt)
			if !ok {
				return
			}
			for i := 0; i+1 < len(b.List); i += 2 {
				x, ok1 := b.List[i].(*ast.AssignStmt)
				y, ok2 := b.List[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || len(x.Lhs) != 1 || len(y.Lhs) != 1 || !pure(x.Rhs[0]) || !pure(y.Rhs[0]) || !simple(x.Lhs[0]) || !simple(y.Lhs[0]) {
					continue
				}
				xs, ys := str(x.Lhs[0], c.fset), str(y.Lhs[0], c.fset)
				if xs == ys || strings.Contains(str(y, c.fset), xs) || strings.Contains(str(x, c.fset), ys) {
					continue
				}
				c.cnt++
				b.List[i], b.List[i+1] = b.List[i+1], b.List[i]
			}
		}),
		// declarations in reverse order, consts and types untouched
		"reorder": func(file *ast.File) {
			var fs []ast.Decl
			for _, d := range file.Decls {
				if _, ok := d.(*ast.FuncDecl); ok {
					fs = append(fs, d)
				}
			}
			k := len(fs)
			for i, d := range file.Decls {
				if _, ok := d.(*ast.FuncDecl); ok {
					k--
					file.Decls[i] = fs[k]
					c.cnt++
				}
			}
		},
		// conditions through variables
		"condvar": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.IfStmt)
			if !ok || s.Init != nil || cur.Index() < 0 {
				return
			}
			c.cnt++
			nm := c.name("c")
			cur.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
			s.Cond = id(nm)
		}),
		// unlock in a deferred closure
		"deferclosure": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.DeferStmt)
			if !ok {
				return
			}
			if _, lit := s.Call.Fun.(*ast.FuncLit); lit || len(s.Call.Args) > 0 {
				return
			}
			c.cnt++
			s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: s.Call}}}}}
		}),
		// go f(x) -> go func() { f(x) }() with x evaluated before
		"goclosure": apply(func(cur *astutil.Cursor) {
			s, ok := cur.Node().(*ast.GoStmt)
			if !ok || cur.Index() < 0 {
				return
			}
			if _, lit := s.Call.Fun.(*ast.FuncLit); lit {
				return
			}
			c.cnt++
			for i, a := range s.Call.Args {
				nm := c.name("g")
				cur.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(nm)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				s.Call.Args[i] = id(nm)
			}
			s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: s.Call}}}}}
		}),
		// methods of the receiver become functions taking it: x.m(a) -> mFn(x, a) for unexported methods
		"methodfunc": func(file *ast.File) {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || ast.IsExported(fd.Name.Name) || len(fd.Recv.List[0].Names) == 0 {
					continue
				}
				if !c.direct[c.info.Defs[fd.Name]] {
					continue
				}
				c.cnt++
				fd.Type.Params.List = append([]*ast.Field{fd.Recv.List[0]}, fd.Type.Params.List...)
				fd.Recv = nil
				fd.Name = id(c.direct2[c.info.Defs[fd.Name]])
			}
			astutil.Apply(file, nil, func(cur *astutil.Cursor) bool {
				call, ok := cur.Node().(*ast.CallExpr)
				if !ok {
					return true
				}
				sel, ok := call.Fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				o := c.info.Uses[sel.Sel]
				if !c.direct[o] {
					return true
				}
				x := sel.X
				rt := o.Type().(*types.Signature).Recv().Type()
				xt := c.info.Types[x].Type
				_, rp := rt.(*types.Pointer)
				_, xp := xt.Underlying().(*types.Pointer)
				if rp && !xp {
					x = &ast.UnaryExpr{Op: token.AND, X: x}
				}
				if !rp && xp {
					x = &ast.StarExpr{X: x}
				}
				call.Fun = id(c.direct2[o])
				call.Args = append([]ast.Expr{x}, call.Args...)
				return true
			})
		},
	}
}

func main() {
	dir, name := os.Args[1], os.Args[2]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	total := 0
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "example") || strings.Contains(p.PkgPath, "cmd") {
			continue
		}
		c := &ctx{fset: p.Fset, info: p.TypesInfo, pkg: p.Types, direct: map[types.Object]bool{}, direct2: map[types.Object]string{}}
		ts := transforms(c)
		if name == "list" {
			for k := range ts {
				fmt.Println(k)
			}
			return
		}
		if name == "methodfunc" {
			if p.Name != "artnet" { // tests call methods elsewhere
				continue
			}
			called := map[*ast.Ident]bool{}
			for _, f := range p.Syntax {
				ast.Inspect(f, func(n ast.Node) bool {
					if call, ok := n.(*ast.CallExpr); ok {
						if s, ok := call.Fun.(*ast.SelectorExpr); ok {
							called[s.Sel] = true
						}
					}
					return true
				})
			}
			for i, o := range p.TypesInfo.Defs {
				f, ok := o.(*types.Func)
				if !ok || ast.IsExported(i.Name) || f.Type().(*types.Signature).Recv() == nil {
					continue
				}
				if _, isI := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isI {
					continue
				}
				all, any := true, false
				for u, uo := range p.TypesInfo.Uses {
					if uo == o {
						any = true
						if !called[u] {
							all = false
						}
					}
				}
				if all && any {
					c.direct[o] = true
					rt := f.Type().(*types.Signature).Recv().Type()
					if pt, ok := rt.(*types.Pointer); ok {
						rt = pt.Elem()
					}
					c.direct2[o] = strings.ToLower(rt.(*types.Named).Obj().Name()[:1]) + rt.(*types.Named).Obj().Name()[1:] + "Fn" + i.Name
				}
			}
			// embedded promotion would change the receiver
			for sel := range p.TypesInfo.Selections {
				s := p.TypesInfo.Selections[sel]
				if c.direct[s.Obj()] && len(s.Index()) > 1 {
					delete(c.direct, s.Obj())
				}
			}
			for _, q := range p.TypesInfo.Implicits {
				_ = q
			}
		}
		t := ts[name]
		if t == nil {
			panic("no transform " + name)
		}
		for i, f := range p.Syntax {
			fn := p.CompiledGoFiles[i]
			f.Comments = nil
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					n.Doc = nil
				case *ast.GenDecl:
					n.Doc = nil
				case *ast.Field:
					n.Doc, n.Comment = nil, nil
				case *ast.ValueSpec:
					n.Doc, n.Comment = nil, nil
				case *ast.TypeSpec:
					n.Doc, n.Comment = nil, nil
				}
				return true
			})
			t(f)
			w, err := os.Create(fn)
			if err != nil {
				panic(err)
			}
			if err := format.Node(w, p.Fset, f); err != nil {
				panic(err)
			}
			w.Close()
		}
		total += c.cnt
	}
	fmt.Println(name, total)
}
