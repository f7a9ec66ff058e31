package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded, type-checked program under analysis.
type World struct {
	Repo    string
	Fset    *token.FileSet
	Prog    *ssa.Program
	Pkgs    []*packages.Package
	SPkgs   map[string]*ssa.Package // by import path
	Fns     []*ssa.Function         // all in-repo non-test functions with bodies, incl. closures
	TS      *terms
	ids     map[ssa.Value]int
	isRepo  map[*ssa.Function]bool
	mutable map[string]bool
	consume map[*ssa.Function]bool
	users   map[*ssa.Function][]*ssa.Function
}

func Load(repo string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type-check %s: %v", p.PkgPath, e)
		}
	}
	if ren := renames(pkgs); len(ren) > 0 {
		// read the renamed declarations under the names the rules use
		if ov := overlayOf(pkgs, ren); ov != nil {
			c2 := *cfg
			c2.Overlay = ov
			p2, err := packages.Load(&c2, "./...")
			ok := err == nil && len(p2) == len(pkgs)
			for _, p := range p2 {
				ok = ok && len(p.Errors) == 0
			}
			if ok {
				pkgs = p2
			}
		}
	}
	if len(pkgs) < 10 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Repo: repo, Fset: prog.Fset, Prog: prog, Pkgs: pkgs, SPkgs: map[string]*ssa.Package{}, TS: newTerms(), ids: map[ssa.Value]int{}, isRepo: map[*ssa.Function]bool{}}
	inrepo := map[*ssa.Package]bool{}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.SPkgs[pkgs[i].PkgPath] = sp
		inrepo[sp] = true
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil && inrepo[p.Pkg] {
			w.isRepo[fn] = true
			w.Fns = append(w.Fns, fn)
		} else if p.Pkg == nil && p.Origin() != nil && p.Origin().Pkg != nil && inrepo[p.Origin().Pkg] {
			w.isRepo[fn] = true
			w.Fns = append(w.Fns, fn)
		}
	}
	sort.Slice(w.Fns, func(i, j int) bool {
		a, b := w.Fns[i], w.Fns[j]
		if a.Pos() != b.Pos() {
			return w.posLess(a.Pos(), b.Pos())
		}
		return a.String() < b.String()
	})
	return w, nil
}

func (w *World) posLess(a, b token.Pos) bool {
	pa, pb := w.Fset.Position(a), w.Fset.Position(b)
	if pa.Filename != pb.Filename {
		return pa.Filename < pb.Filename
	}
	return pa.Offset < pb.Offset
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	f, err := filepath.Rel(w.Repo, ps.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = filepath.Base(ps.Filename)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// InRepo reports whether fn has an analysable body in the repository.
func (w *World) InRepo(fn *ssa.Function) bool { return fn != nil && w.isRepo[fn] }

func (w *World) id(v ssa.Value) int {
	if i, ok := w.ids[v]; ok {
		return i
	}
	i := len(w.ids) + 1
	w.ids[v] = i
	return i
}

// Fn finds a function by its short name (pkg.Func or pkg.Type.Method).
func (w *World) Fn(name string) *ssa.Function {
	for _, f := range w.Fns {
		if f.Synthetic == "" && fnName(f) == name {
			return f
		}
	}
	return nil
}

// Pkg returns the repo package with short name.
func (w *World) Pkg(short string) *ssa.Package {
	for p, sp := range w.SPkgs {
		if shortPkg(p) == short {
			return sp
		}
	}
	return nil
}

// Named finds a named type "pkg.T" in the repo.
func (w *World) Named(pkg, name string) *types.Named {
	sp := w.Pkg(pkg)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// FieldByType returns the unique field of struct pkg.T whose type prints as
// typ (short form); falls back to the given name.
func (w *World) FieldByType(pkg, tname, typ, fallback string) string {
	n := w.Named(pkg, tname)
	if n == nil {
		return fallback
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return fallback
	}
	var found []string
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fallback {
			return fallback
		}
		if types.TypeString(st.Field(i).Type(), shortQual) == typ {
			found = append(found, st.Field(i).Name())
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	return fallback
}

// production reports whether fn belongs to non-test-support code.
func (w *World) production(fn *ssa.Function) bool {
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	pk := p.Pkg
	if pk == nil && p.Origin() != nil {
		pk = p.Origin().Pkg
	}
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	return path != repoMod+"/test" && path != repoMod+"/pb"
}
