// mutgen lists or applies small source mutations of the production code:
//	mutgen DIR           lists "n file:line op: text"
//	mutgen DIR n         applies the n-th in place
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file     string
	line     int
	op, text string
	do       func()
}

func main() {
	root := os.Args[1]
	pick := -1
	if len(os.Args) > 2 {
		pick, _ = strconv.Atoi(os.Args[2])
	}
	var files []string
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if i.IsDir() && (i.Name() == ".git" || i.Name() == "pb" || i.Name() == "test") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var muts []mut
	for _, fn := range files {
		fset := token.NewFileSet()
		src, _ := os.ReadFile(fn)
		f, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		txt := func(n ast.Node) string {
			b := string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			b = strings.Join(strings.Fields(b), " ")
			if len(b) > 90 {
				b = b[:90]
			}
			return b
		}
		add := func(n ast.Node, op string, do func()) {
			muts = append(muts, mut{fn, fset.Position(n.Pos()).Line, op, txt(n), func() {
				do()
				var b bytes.Buffer
				format.Node(&b, token.NewFileSet(), strip(f))
				os.WriteFile(fn, b.Bytes(), 0o644)
			}})
		}
		list := func(l *[]ast.Stmt) {
			for i, s := range *l {
				i, s := i, s
				del := func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) }
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt:
					add(s, "delete", del)
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s, "delete", del)
					}
				case *ast.IfStmt:
					if s.Else == nil {
						add(s, "delete-if", del)
					}
				case *ast.BranchStmt:
					add(s, "delete", del)
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(&x.List)
			case *ast.CaseClause:
				list(&x.Body)
			case *ast.CommClause:
				list(&x.Body)
			case *ast.IfStmt:
				add(x.Cond, "negate", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
			case *ast.BinaryExpr:
				m := map[token.Token][]token.Token{token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}}
				for _, o := range m[x.Op] {
					o := o
					add(x, "op"+o.String(), func() { x.Op = o })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					add(x, "int+1", func() { x.Value = "(" + x.Value + "+1)" })
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					i := i
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(x, "return-nil", func() { x.Results[i] = ast.NewIdent("nil") })
					}
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						v := map[string]string{"true": "false", "false": "true"}[id.Name]
						add(x, "return-"+v, func() { x.Results[i] = ast.NewIdent(v) })
					}
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 {
					add(x, "swap-args", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
				}
			case *ast.KeyValueExpr:
				_ = x
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					i := i
					if _, ok := e.(*ast.KeyValueExpr); ok {
						add(e, "drop-field", func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
					}
				}
			}
			return true
		})
	}
	if pick >= 0 {
		muts[pick].do()
		return
	}
	for i, m := range muts {
		r, _ := filepath.Rel(root, m.file)
		fmt.Printf("%d %s:%d %s: %s\n", i, r, m.line, m.op, m.text)
	}
}

func strip(f *ast.File) *ast.File { f.Comments = nil; return f }
