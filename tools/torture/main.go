// torture applies one behaviour-keeping edit everywhere it applies in the
// repository (a copy of it): torture DIR MODE.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var n int
var info *types.Info

func fresh() *ast.Ident { n++; return ast.NewIdent(fmt.Sprintf("tq%d", n)) }

func define(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func isCall(e ast.Expr) bool { _, ok := e.(*ast.CallExpr); return ok }

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

func hasDefine(l []ast.Stmt) bool { return false }

func main() {
	root, mode := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Fset: fset, ParseFile: func(fs *token.FileSet, f string, src []byte) (*ast.File, error) {
		if strings.HasPrefix(f, root) {
			return parser.ParseFile(fs, f, src, parser.SkipObjectResolution)
		}
		return parser.ParseFile(fs, f, src, parser.SkipObjectResolution)
	}}, "./...")
	if err != nil {
		panic(err)
	}
	cnt := 0
	for _, p := range ps {
		if strings.HasSuffix(p.PkgPath, "/pb") || strings.HasSuffix(p.PkgPath, "/test") {
			continue
		}
		info = p.TypesInfo
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if !strings.HasPrefix(name, root) || strings.HasSuffix(name, "_test.go") || filepath.Ext(name) != ".go" {
				continue
			}
			k := apply(f, mode)
			if k == 0 {
				continue
			}
			cnt += k
			var b bytes.Buffer
			if err := format.Node(&b, token.NewFileSet(), strip(f)); err != nil {
				panic(err)
			}
			os.WriteFile(name, b.Bytes(), 0o644)
		}
	}
	fmt.Println(mode, cnt)
}

func strip(f *ast.File) *ast.File { f.Comments = nil; return f }

func apply(f *ast.File, mode string) int {
	k := 0
	post := func(c *astutil.Cursor) bool { return true }
	switch mode {
	case "swap": // if c {A} else {B} -> if !c {B} else {A}
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if b, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond = not(s.Cond)
					s.Body, s.Else = b, s.Body
					k++
				}
			}
			return true
		}
	case "nest": // if c {..return}; rest -> if c {..return} else {rest}
		post = func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BlockStmt); ok {
				for i := len(b.List) - 2; i >= 0; i-- {
					s, ok := b.List[i].(*ast.IfStmt)
					if !ok || s.Else != nil || !terminates(s.Body) || s.Init != nil {
						continue
					}
					// only when the rest ends in a return
					rest := &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
					if !terminates(rest) || labelled(rest) {
						continue
					}
					s.Else = rest
					b.List = b.List[:i+1]
					k++
				}
			}
			return true
		}
	case "cond": // if c -> t := c; if t
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && c.Index() >= 0 {
				if _, isB := c.Parent().(*ast.LabeledStmt); isB {
					return true
				}
				id := fresh()
				l := []ast.Stmt{}
				if s.Init != nil {
					l = append(l, s.Init)
					s.Init = nil
				}
				l = append(l, define(id, s.Cond))
				s.Cond = id
				l = append(l, s)
				c.Replace(&ast.BlockStmt{List: l})
				k++
			}
			return true
		}
	case "demorgan": // a != b -> !(a == b), a && b -> !(!a || !b)
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.NEQ: token.EQL, token.EQL: token.NEQ, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
				if o, ok := m[s.Op]; ok {
					s.Op = o
					c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s}})
					k++
				} else if s.Op == token.LAND || s.Op == token.LOR {
					s.X, s.Y = not(s.X), not(s.Y)
					if s.Op == token.LAND {
						s.Op = token.LOR
					} else {
						s.Op = token.LAND
					}
					c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s}})
					k++
				}
			}
			return true
		}
	case "flip": // a < b -> b > a, when neither side calls
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.NEQ: token.NEQ, token.EQL: token.EQL, token.LSS: token.GTR, token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ}
				if o, ok := m[s.Op]; ok && !calls(s) {
					s.Op = o
					s.X, s.Y = s.Y, s.X
					k++
				}
			}
			return true
		}
	case "results": // return f(x) -> a, b := f(x); return a, b
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.ReturnStmt); ok && c.Index() >= 0 && len(s.Results) == 1 && isCall(s.Results[0]) {
				tv, ok := info.Types[s.Results[0]]
				if !ok {
					return true
				}
				var ids []ast.Expr
				if tp, ok := tv.Type.(*types.Tuple); ok {
					for i := 0; i < tp.Len(); i++ {
						ids = append(ids, fresh())
					}
				} else {
					return true
				}
				c.InsertBefore(&ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: s.Results})
				s.Results = ids
				k++
			}
			return true
		}
	case "forever": // for c {} -> for { if !c {break} ... }
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.ForStmt); ok && s.Cond != nil {
				s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
				s.Cond = nil
				k++
			}
			return true
		}
	case "index": // for i, x := range slice -> index loop
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.RangeStmt); ok && s.Tok == token.DEFINE {
				tv, ok := info.Types[s.X]
				if !ok {
					return true
				}
				if _, ok := tv.Type.Underlying().(*types.Slice); !ok {
					return true
				}
				if _, isL := c.Parent().(*ast.LabeledStmt); isL || c.Index() < 0 {
					return true
				}
				xs, i := fresh(), fresh()
				var pre []ast.Stmt
				if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
					pre = append(pre, define(s.Key, i))
				}
				if s.Value != nil {
					pre = append(pre, define(s.Value, &ast.IndexExpr{X: xs, Index: i}))
				}
				fs := &ast.ForStmt{
					Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}),
					Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{xs}}},
					Post: &ast.IncDecStmt{X: i, Tok: token.INC},
					Body: &ast.BlockStmt{List: append(pre, s.Body.List...)},
				}
				c.InsertBefore(define(xs, s.X))
				c.Replace(fs)
				k++
			}
			return true
		}
	case "opassign": // x += y -> x = x + y; x++ -> x = x + 1
		post = func(c *astutil.Cursor) bool {
			switch s := c.Node().(type) {
			case *ast.IncDecStmt:
				if _, isFor := c.Parent().(*ast.ForStmt); isFor || calls(s.X) {
					return true
				}
				op := token.ADD
				if s.Tok == token.DEC {
					op = token.SUB
				}
				c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
				k++
			case *ast.AssignStmt:
				m := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB}
				if o, ok := m[s.Tok]; ok && !calls(s.Lhs[0]) {
					s.Tok = token.ASSIGN
					s.Rhs = []ast.Expr{&ast.BinaryExpr{X: s.Lhs[0], Op: o, Y: &ast.ParenExpr{X: s.Rhs[0]}}}
					k++
				}
			}
			return true
		}
	case "args": // f(g(x)) -> t := g(x); f(t), for statements whose first evaluated thing is that
		post = func(c *astutil.Cursor) bool {
			s, ok := c.Node().(ast.Stmt)
			if !ok || c.Index() < 0 {
				return true
			}
			if _, inBlock := c.Parent().(*ast.BlockStmt); !inBlock {
				return true
			}
			var call *ast.CallExpr
			switch s := s.(type) {
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 && plain(s.Lhs) {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					call, _ = s.Results[0].(*ast.CallExpr)
				}
			}
			if call == nil || calls(call.Fun) {
				return true
			}
			if tv, ok := info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
				return true
			}
			for i, a := range call.Args {
				if !isCall(a) {
					continue
				}
				tv, ok := info.Types[a]
				if !ok || !tv.IsValue() || tv.Value != nil {
					continue
				}
				if _, isT := tv.Type.(*types.Tuple); isT {
					break
				}
				id := fresh()
				c.InsertBefore(define(id, a))
				call.Args[i] = id
				k++
			}
			return true
		}
	case "fieldtmp": // p := &x.f style: receiver in a local: r := recv at entry and used throughout
		post = func(c *astutil.Cursor) bool {
			fd, ok := c.Node().(*ast.FuncDecl)
			if !ok || fd.Recv == nil || fd.Body == nil || len(fd.Recv.List[0].Names) == 0 {
				return true
			}
			if _, isP := fd.Recv.List[0].Type.(*ast.StarExpr); !isP {
				return true
			}
			o := info.Defs[fd.Recv.List[0].Names[0]]
			if o == nil || o.Name() == "_" {
				return true
			}
			id := fresh()
			used := false
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if u, ok := x.(*ast.Ident); ok && info.Uses[u] == o {
					u.Name = id.Name
					used = true
				}
				return true
			})
			if used {
				fd.Body.List = append([]ast.Stmt{define(id, ast.NewIdent(o.Name()))}, fd.Body.List...)
				k++
			}
			return true
		}
	case "thunk", "thunkp", "thunke": // bodies of functions move to a new function of the same parameters
		var more []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "String" {
				continue
			}
			if mode == "thunkp" && fd.Name.IsExported() || mode == "thunke" && !fd.Name.IsExported() {
				continue
			}
			named := true
			var args []ast.Expr
			ell := token.NoPos
			if fd.Type.Params != nil {
				for _, p := range fd.Type.Params.List {
					if len(p.Names) == 0 {
						named = false
					}
					for _, nm := range p.Names {
						if nm.Name == "_" {
							named = false
						}
						args = append(args, ast.NewIdent(nm.Name))
					}
					if _, ok := p.Type.(*ast.Ellipsis); ok {
						ell = 1
					}
				}
			}
			if !named || (fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_")) {
				continue
			}
			nm := "x" + fd.Name.Name + "Impl"
			if fd.Recv == nil {
				nm += "Fn"
			}
			impl := &ast.FuncDecl{Name: ast.NewIdent(nm), Recv: fd.Recv, Type: fd.Type, Body: fd.Body}
			var fun ast.Expr = ast.NewIdent(nm)
			if fd.Recv != nil {
				fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: ast.NewIdent(nm)}
			}
			call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
			var st ast.Stmt = &ast.ExprStmt{X: call}
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				st = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{st}}
			fd.Doc = nil
			more = append(more, impl)
			k++
		}
		f.Decls = append(f.Decls, more...)
	case "ifinit": // if x := f(); c {} -> { x := f(); if c {} }
		post = func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && c.Index() >= 0 && s.Init != nil {
				l := []ast.Stmt{s.Init, s}
				s.Init = nil
				c.Replace(&ast.BlockStmt{List: l})
				k++
			}
			return true
		}
	case "switchif": // tagless switches and value switches become if chains
		post = func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || c.Index() < 0 || s.Init != nil {
				return true
			}
			if _, isL := c.Parent().(*ast.LabeledStmt); isL || breaks(s.Body) {
				return true
			}
			var pre []ast.Stmt
			var tag ast.Expr
			if s.Tag != nil {
				id := fresh()
				pre = append(pre, define(id, s.Tag))
				tag = id
			}
			var def *ast.BlockStmt
			type br struct {
				c ast.Expr
				b *ast.BlockStmt
			}
			var brs []br
			for _, x := range s.Body.List {
				cc := x.(*ast.CaseClause)
				b := &ast.BlockStmt{List: cc.Body}
				for _, st := range cc.Body {
					if bs, ok := st.(*ast.BranchStmt); ok && bs.Tok == token.FALLTHROUGH {
						return true
					}
				}
				if cc.List == nil {
					def = b
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					if tag != nil {
						e = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = e
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
					}
				}
				brs = append(brs, br{cond, b})
			}
			if len(brs) == 0 {
				return true
			}
			var els ast.Stmt
			if def != nil {
				els = def
			}
			for i := len(brs) - 1; i >= 0; i-- {
				st := &ast.IfStmt{Cond: brs[i].c, Body: brs[i].b}
				if els != nil {
					st.Else = els
				}
				els = st
			}
			for _, x := range pre {
				c.InsertBefore(x)
			}
			c.Replace(els)
			k++
			return true
		}
	case "var": // x := e -> var x = e
		post = func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || s.Tok != token.DEFINE || c.Index() < 0 {
				return true
			}
			var names []*ast.Ident
			for _, l := range s.Lhs {
				id := l.(*ast.Ident)
				if info.Defs[id] == nil && id.Name != "_" {
					return true
				}
				names = append(names, id)
			}
			if _, inB := c.Parent().(*ast.CommClause); inB && c.Name() == "Comm" {
				return true
			}
			c.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: names, Values: s.Rhs}}}})
			k++
			return true
		}
	default:
		panic("mode " + mode)
	}
	astutil.Apply(f, nil, post)
	return k
}

func plain(l []ast.Expr) bool {
	for _, e := range l {
		if _, ok := e.(*ast.Ident); !ok {
			return false
		}
	}
	return true
}

func calls(e ast.Expr) bool {
	y := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			y = true
		}
		if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			y = true
		}
		return true
	})
	return y
}

func breaks(b *ast.BlockStmt) bool {
	y := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BranchStmt:
			y = y || x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
			return n == ast.Node(b)
		}
		return true
	})
	return y
}

func labelled(b *ast.BlockStmt) bool {
	y := false
	ast.Inspect(b, func(n ast.Node) bool {
		if _, ok := n.(*ast.LabeledStmt); ok {
			y = true
		}
		return true
	})
	return y
}
