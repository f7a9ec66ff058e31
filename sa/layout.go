package main

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules name a few unexported declarations by their role: the table in
// layout.json lists the unexported types, fields and functions of the tree
// the rules were written for. When the tree under analysis lacks one of them
// and has, in its place, exactly one unlisted declaration of the same shape,
// that declaration is read under the listed name (an overlay of the source,
// same lines); nothing else changes.

//go:embed layout.json
var layoutJSON []byte

type layoutType struct {
	Name   string
	Fields [][2]string // name, type; embedded fields are marked by a leading '&'
	Meths  []string
}

type layoutFn struct{ Name, Recv, Sig string }

type layoutPkg struct {
	Types []layoutType
	Fns   []layoutFn
}

type layout map[string]*layoutPkg

func layoutOf(pkgs []*packages.Package) layout {
	l := layout{}
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/pb") || strings.HasSuffix(p.PkgPath, "/test") {
			continue
		}
		lp := &layoutPkg{}
		l[p.PkgPath] = lp
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				nt, ok := o.Type().(*types.Named)
				if !ok {
					continue
				}
				lt := layoutType{Name: n}
				if st, ok := nt.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						nm := f.Name()
						if f.Embedded() {
							nm = "&" + nm
						}
						lt.Fields = append(lt.Fields, [2]string{nm, types.TypeString(f.Type(), shortQual)})
					}
				}
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					if m.Exported() {
						lt.Meths = append(lt.Meths, m.Name())
					} else {
						lp.Fns = append(lp.Fns, layoutFn{m.Name(), n, sigString(m)})
					}
				}
				sort.Strings(lt.Meths)
				lp.Types = append(lp.Types, lt)
			case *types.Func:
				if !o.Exported() && n != "init" {
					lp.Fns = append(lp.Fns, layoutFn{n, "", sigString(o)})
				}
			}
		}
		sort.Slice(lp.Fns, func(i, j int) bool {
			a, b := lp.Fns[i], lp.Fns[j]
			return a.Recv < b.Recv || a.Recv == b.Recv && a.Name < b.Name
		})
	}
	return l
}

func sigString(f *types.Func) string {
	s := f.Type().(*types.Signature)
	var l []string
	for i := 0; i < s.Params().Len(); i++ {
		l = append(l, types.TypeString(s.Params().At(i).Type(), shortQual))
	}
	l = append(l, "->")
	for i := 0; i < s.Results().Len(); i++ {
		l = append(l, types.TypeString(s.Results().At(i).Type(), shortQual))
	}
	return strings.Join(l, ",")
}

func cmdLayout(repo string) {
	w, err := Load(repo)
	if err != nil {
		panic(err)
	}
	b, _ := json.MarshalIndent(layoutOf(w.Pkgs), "", " ")
	os.Stdout.Write(append(b, '\n'))
}

// renames finds the declarations of the tree that stand for a listed one.
func renames(pkgs []*packages.Package) map[types.Object]string {
	var known layout
	if json.Unmarshal(layoutJSON, &known) != nil {
		return nil
	}
	out := map[types.Object]string{}
	for _, p := range pkgs {
		kp := known[p.PkgPath]
		if kp == nil {
			continue
		}
		sc := p.Types.Scope()
		lower := func(n string) bool { return n != "" && (n[0] >= 'a' && n[0] <= 'z') }
		listed := map[string]bool{}
		for _, t := range kp.Types {
			listed[t.Name] = true
		}
		now := layoutOf([]*packages.Package{p})[p.PkgPath]
		var extra []layoutType
		for _, t := range now.Types {
			if !listed[t.Name] && lower(t.Name) {
				extra = append(extra, t)
			}
		}
		// types: the most similar unlisted one, if alone
		ren := map[string]string{} // actual -> listed, in this package
		var missing []layoutType
		for _, t := range kp.Types {
			if lower(t.Name) && sc.Lookup(t.Name) == nil {
				missing = append(missing, t)
			}
		}
		for round := 0; round < 3; round++ {
			sub := func(s string) string { return substTypes(s, shortPkg(p.PkgPath), ren) }
			for _, t := range missing {
				if valueOf(ren, t.Name) {
					continue
				}
				best, bestN, tie := -1, 0, false
				for i, x := range extra {
					if _, used := ren[x.Name]; used {
						continue
					}
					n := likeness(t, x, sub)
					if n > bestN {
						best, bestN, tie = i, n, false
					} else if n == bestN {
						tie = true
					}
				}
				if best >= 0 && !tie {
					ren[extra[best].Name] = t.Name
					out[sc.Lookup(extra[best].Name)] = t.Name
				}
			}
		}
		sub := func(s string) string { return substTypes(s, shortPkg(p.PkgPath), ren) }
		// fields
		nowByName := map[string]layoutType{}
		for _, t := range now.Types {
			n := t.Name
			if r := ren[n]; r != "" {
				n = r
			}
			nowByName[n] = t
		}
		for _, t := range kp.Types {
			x, ok := nowByName[t.Name]
			if !ok {
				continue
			}
			st, ok := sc.Lookup(x.Name).Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			have, want := map[string]bool{}, map[string]bool{}
			for _, f := range x.Fields {
				have[f[0]] = true
			}
			for _, f := range t.Fields {
				want[f[0]] = true
			}
			free := map[string][]int{} // type -> unlisted fields
			for i, f := range x.Fields {
				if !want[f[0]] && lower(f[0]) {
					free[sub(f[1])] = append(free[sub(f[1])], i)
				}
			}
			miss := map[string][]string{}
			for _, f := range t.Fields {
				if !have[f[0]] && lower(f[0]) {
					miss[f[1]] = append(miss[f[1]], f[0])
				}
			}
			for ty, ms := range miss {
				if len(free[ty]) != len(ms) {
					continue
				}
				for j, m := range ms {
					out[st.Field(free[ty][j])] = m
				}
			}
		}
		// functions
		type key struct{ recv, sig string }
		have := map[layoutFn]bool{}
		norm := func(f layoutFn) layoutFn {
			if r := ren[f.Recv]; r != "" {
				f.Recv = r
			}
			f.Sig = sub(f.Sig)
			return f
		}
		hn := map[[2]string]bool{}
		for _, f := range now.Fns {
			f = norm(f)
			have[f] = true
			hn[[2]string{f.Recv, f.Name}] = true
		}
		wantN := map[[2]string]bool{}
		for _, f := range kp.Fns {
			wantN[[2]string{f.Recv, f.Name}] = true
		}
		free, miss := map[key][]layoutFn{}, map[key][]layoutFn{}
		for _, raw := range now.Fns {
			f := norm(raw)
			if !wantN[[2]string{f.Recv, f.Name}] {
				free[key{f.Recv, f.Sig}] = append(free[key{f.Recv, f.Sig}], raw)
			}
		}
		for _, f := range kp.Fns {
			if !hn[[2]string{f.Recv, f.Name}] {
				miss[key{f.Recv, f.Sig}] = append(miss[key{f.Recv, f.Sig}], f)
			}
		}
		for k, ms := range miss {
			if len(ms) != 1 || len(free[k]) != 1 {
				continue
			}
			f := free[k][0]
			var o types.Object
			if f.Recv == "" {
				o = sc.Lookup(f.Name)
			} else if nt, ok := sc.Lookup(f.Recv).Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					if nt.Method(i).Name() == f.Name {
						o = nt.Method(i)
					}
				}
			}
			if o != nil {
				out[o] = ms[0].Name
			}
		}
	}
	return out
}

func valueOf(m map[string]string, v string) bool {
	for _, x := range m {
		if x == v {
			return true
		}
	}
	return false
}

// substTypes rewrites pkg.actual to pkg.listed in a type string.
func substTypes(s, pkg string, ren map[string]string) string {
	for a, l := range ren {
		for i := 0; ; {
			j := strings.Index(s[i:], pkg+"."+a)
			if j < 0 {
				break
			}
			j += i
			e := j + len(pkg) + 1 + len(a)
			if e < len(s) && (s[e] == '_' || s[e] >= '0' && s[e] <= '9' || s[e] >= 'a' && s[e] <= 'z' || s[e] >= 'A' && s[e] <= 'Z') {
				i = e
				continue
			}
			s = s[:j] + pkg + "." + l + s[e:]
			i = j + len(pkg) + 1 + len(l)
		}
	}
	return s
}

// likeness counts what the type x shares with the listed type t: exported
// methods and fields by type. It is 0 unless most of t is there.
func likeness(t, x layoutType, sub func(string) string) int {
	n, total := 0, len(t.Fields)+len(t.Meths)
	xs := map[string]int{}
	for _, f := range x.Fields {
		xs[sub(f[1])]++
	}
	for _, f := range t.Fields {
		if xs[f[1]] > 0 {
			xs[f[1]]--
			n++
		}
	}
	ms := map[string]bool{}
	for _, m := range x.Meths {
		ms[m] = true
	}
	for _, m := range t.Meths {
		if ms[m] {
			n++
		}
	}
	if total == 0 || n*4 < total*3 {
		return 0
	}
	return n*100 - len(x.Fields) - len(x.Meths)
}

// overlayOf writes the renames into copies of the source files.
func overlayOf(pkgs []*packages.Package, ren map[types.Object]string) map[string][]byte {
	type ed struct {
		off int
		old string
		new string
	}
	edits := map[string]map[int]ed{}
	for _, p := range pkgs {
		add := func(id *ast.Ident, o types.Object) {
			n, ok := ren[o]
			if !ok {
				// an embedded field is called after its type
				if v, isV := o.(*types.Var); isV && v.Embedded() {
					if nt, isN := deref(v.Type()).(*types.Named); isN {
						n, ok = ren[nt.Obj()]
					}
				}
			}
			if !ok || id.Name != o.Name() {
				return
			}
			q := p.Fset.Position(id.Pos())
			if edits[q.Filename] == nil {
				edits[q.Filename] = map[int]ed{}
			}
			edits[q.Filename][q.Offset] = ed{q.Offset, id.Name, n}
		}
		for id, o := range p.TypesInfo.Defs {
			if o != nil {
				add(id, o)
			}
		}
		for id, o := range p.TypesInfo.Uses {
			add(id, o)
		}
	}
	out := map[string][]byte{}
	for f, es := range edits {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil
		}
		var l []ed
		for _, e := range es {
			l = append(l, e)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].off > l[j].off })
		for _, e := range l {
			if e.off+len(e.old) > len(b) || string(b[e.off:e.off+len(e.old)]) != e.old {
				return nil
			}
			b = append(append(append([]byte{}, b[:e.off]...), e.new...), b[e.off+len(e.old):]...)
		}
		out[f] = b
	}
	return out
}
