package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unexported fields of in-repo structs that are assigned only while their
// struct is being built keep their value across opaque calls.
func (w *World) buildImmutable() {
	w.mutable = map[string]bool{}
	bad := func(n *types.Named, f string) { w.mutable[n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+f] = true }
	named := func(t types.Type) (*types.Named, *types.Struct) {
		n, ok := types.Unalias(deref(t)).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return nil, nil
		}
		st, _ := n.Underlying().(*types.Struct)
		return n, st
	}
	for _, fn := range w.Fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.FieldAddr:
					n, st := named(i.X.Type())
					if n == nil || st == nil {
						continue
					}
					_, fresh := i.X.(*ssa.Alloc)
					for _, r := range *i.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp:
						case *ssa.DebugRef:
						case *ssa.Store:
							if r.Val == ssa.Value(i) || !fresh {
								bad(n, st.Field(i.Field).Name())
							}
						default:
							bad(n, st.Field(i.Field).Name())
						}
					}
				case *ssa.Store:
					if _, fresh := i.Addr.(*ssa.Alloc); fresh {
						continue
					}
					if n, st := named(i.Val.Type()); n != nil && st != nil {
						if _, isPtr := i.Val.Type().Underlying().(*types.Pointer); isPtr {
							continue
						}
						for k := 0; k < st.NumFields(); k++ {
							bad(n, st.Field(k).Name())
						}
					}
				}
			}
		}
	}
}

// immutable: addr is a field that never changes once its struct is built.
func (w *World) immutable(addr *Term) bool {
	if addr.Op != "fieldaddr" || addr.Args[0].Typ == nil {
		return false
	}
	n, ok := types.Unalias(deref(addr.Args[0].Typ)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), repoMod) || addr.Sym == "" || addr.Sym[0] < 'a' || addr.Sym[0] > 'z' {
		return false
	}
	if w.mutable == nil {
		w.buildImmutable()
	}
	return !w.mutable[n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+addr.Sym]
}
