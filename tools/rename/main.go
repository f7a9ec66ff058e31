// rename gives every unexported declaration of the repository (functions,
// methods, types, fields, package variables; with -locals parameters and local
// variables too) another name: a behaviour-keeping edit.
package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func main() {
	root, locals := os.Args[1], len(os.Args) > 2
	fset := token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	type ed struct {
		off int
		n   string
	}
	edits := map[string]map[int]ed{}
	rename := func(o types.Object) bool {
		if o == nil || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), "github.com/ipfs/go-unixfs") || o.Exported() || o.Name() == "_" || o.Name() == "init" || o.Name() == "main" {
			return false
		}
		if strings.HasSuffix(o.Pkg().Path(), "/pb") {
			return false
		}
		switch o := o.(type) {
		case *types.Func, *types.TypeName:
			return true
		case *types.Const:
			return o.Parent() == o.Pkg().Scope() || locals
		case *types.Var:
			return o.IsField() || o.Parent() == o.Pkg().Scope() || locals
		}
		return false
	}
	for _, p := range ps {
		for _, m := range []map[string]bool{nil} {
			_ = m
		}
		add := func(pos token.Pos, o types.Object) {
			if !rename(o) {
				return
			}
			q := fset.Position(pos)
			if !strings.HasPrefix(q.Filename, root) {
				return
			}
			if edits[q.Filename] == nil {
				edits[q.Filename] = map[int]ed{}
			}
			edits[q.Filename][q.Offset] = ed{q.Offset, o.Name()}
		}
		for id, o := range p.TypesInfo.Defs {
			if o != nil && id.Name == o.Name() {
				add(id.Pos(), o)
			}
		}
		if locals {
			for _, f := range p.Syntax {
				ast.Inspect(f, func(n ast.Node) bool {
					if ts, ok := n.(*ast.TypeSwitchStmt); ok {
						if as, ok := ts.Assign.(*ast.AssignStmt); ok {
							id := as.Lhs[0].(*ast.Ident)
							q := fset.Position(id.Pos())
							if strings.HasPrefix(q.Filename, root) && !strings.Contains(q.Filename, "/pb/") {
								if edits[q.Filename] == nil {
									edits[q.Filename] = map[int]ed{}
								}
								edits[q.Filename][q.Offset] = ed{q.Offset, id.Name}
							}
						}
					}
					return true
				})
			}
		}
		for id, o := range p.TypesInfo.Uses {
			if id.Name == o.Name() {
				add(id.Pos(), o)
			}
		}
	}
	n := 0
	for f, es := range edits {
		b, _ := os.ReadFile(f)
		var l []ed
		for _, e := range es {
			l = append(l, e)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].off > l[j].off })
		for _, e := range l {
			if string(b[e.off:e.off+len(e.n)]) != e.n {
				panic(f)
			}
			b = []byte(string(b[:e.off]) + e.n + "Zq" + string(b[e.off+len(e.n):]))
			n++
		}
		os.WriteFile(f, b, 0o644)
	}
	fmt.Println("renamed", n)
}
