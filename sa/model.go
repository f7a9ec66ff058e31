package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- stop predicates ----

// stopOther stops at exported functions of other packages than those named.
func (c *Checker) stopOther(pkgs ...string) func(*ssa.Function, int) bool {
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	return func(f *ssa.Function, d int) bool {
		if f.Parent() != nil || f.Pkg == nil {
			return false
		}
		return !in[shortPkg(f.Pkg.Pkg.Path())] && exported(f)
	}
}

func stopNames(names ...string) func(*ssa.Function, int) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function, d int) bool { return m[fnName(f)] }
}

func stopAny(fs ...func(*ssa.Function, int) bool) func(*ssa.Function, int) bool {
	return func(f *ssa.Function, d int) bool {
		for _, g := range fs {
			if g(f, d) {
				return true
			}
		}
		return false
	}
}

// ---- UnixFS messages ----

// pbType is the value of a Data_DataType constant by its schema name.
func (c *Checker) pbType(name string) int64 {
	sp := c.W.Pkg("pb")
	if sp == nil {
		panic("package pb not found")
	}
	k, ok := sp.Pkg.Scope().Lookup("Data_" + name).(*types.Const)
	if !ok {
		panic("no constant Data_" + name)
	}
	v, _ := constant.Int64Val(k.Val())
	return v
}

var pbTypeNames = []string{"Raw", "Directory", "File", "Metadata", "Symlink", "HAMTShard"}

// pbField is what the getter of field f returns for the message at address obj.
func (in *Interp) pbField(s *snap, obj *Term, f string) *Term {
	n := in.W.Named("pb", "Data")
	if obj.Typ != nil {
		if nn, ok := types.Unalias(deref(obj.Typ)).(*types.Named); ok && nn.Obj().Pkg() != nil && shortPkg(nn.Obj().Pkg().Path()) == "pb" {
			n = nn
		}
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != f {
			continue
		}
		ft := st.Field(i).Type()
		v := in.load(s, in.fieldAddr(obj, f, types.NewPointer(ft)), ft)
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			typ := pt.Elem()
			if v.Op == "pure" && strings.HasPrefix(v.Sym, "proto.") {
				return v.Args[0]
			}
			if v.isNil() {
				return in.TS.zero(typ)
			}
			if v.Op == "alloc" || v.Op == "fieldaddr" {
				return in.load(s, v, typ)
			}
			return in.TS.mk("pure", "deref0", typ, v)
		}
		return v
	}
	panic("no field " + f)
}

// pbRaw is the raw (pointer) value of field f.
func (in *Interp) pbRaw(s *snap, obj *Term, f string) *Term {
	st := deref(obj.Typ).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return in.load(s, in.fieldAddr(obj, f, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
		}
	}
	panic("no field " + f)
}

// formatAddr is the address of the message inside an FSNode.
func (c *Checker) formatAddr(in *Interp, fsn *Term) *Term {
	f := c.W.FieldByType("unixfs", "FSNode", "pb.Data", "format")
	n := c.W.Named("pb", "Data")
	return in.fieldAddr(fsn, f, types.NewPointer(n))
}

// decode is a protobuf decoding step of a trace.
type decode struct {
	e     *Event
	bytes *Term
	obj   *Term
	err   *Term
}

// decodes lists the decodings of UnixFS messages on a trace.
func (t *Trace) decodes() []decode {
	var out []decode
	for _, e := range t.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Name, ".Unmarshal") && len(e.Args) >= 2 {
			out = append(out, decode{e, e.Args[0], e.Args[1], t.In.errOf(e)})
		}
	}
	return out
}

// typePossible: may the message's type be k at snapshot s?
func (c *Checker) typePossible(in *Interp, s *snap, obj *Term, k int64) bool {
	T := in.pbField(s, obj, "Type")
	v, known := in.decide(s, in.eq(T, in.TS.constant(constant.MakeInt64(k), T.Typ)))
	return !known || v
}

// typesPossible lists the type names the message may have, and whether a
// value outside the schema is possible.
func (c *Checker) typesPossible(in *Interp, s *snap, obj *Term) map[string]bool {
	out := map[string]bool{}
	for _, n := range pbTypeNames {
		if c.typePossible(in, s, obj, c.pbType(n)) {
			out[n] = true
		}
	}
	T := in.pbField(s, obj, "Type")
	if k, ok := s.eqv.get(T.UID); !ok || !k.isConst() {
		if !T.isConst() {
			out["unknown"] = true
		}
	}
	return out
}

func keys(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sortStrings(s)
	return strings.Join(s, ",")
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

func subset(m map[string]bool, ok ...string) bool {
	a := map[string]bool{}
	for _, k := range ok {
		a[k] = true
	}
	for k := range m {
		if !a[k] {
			return false
		}
	}
	return true
}

// nodeIs: the dynamic type of the node value is known to be typ ("*dag.ProtoNode").
func (in *Interp) nodeIs(s *snap, x *Term, typ string) bool {
	d := in.dynType(s, x)
	return d != nil && types.TypeString(d, shortQual) == typ
}

// fieldVal loads a field of the struct behind ptr.
func (in *Interp) fieldVal(s *snap, ptr *Term, name string) *Term {
	if ptr == nil || ptr.Typ == nil {
		return nil
	}
	st, ok := isStruct(deref(ptr.Typ))
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.load(s, in.fieldAddr(ptr, name, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
		}
	}
	return nil
}

// known decides a condition; both results must hold.
func (in *Interp) holds(s *snap, t *Term) bool {
	v, ok := in.decide(s, t)
	return ok && v
}

func (in *Interp) eqKnown(s *snap, a, b *Term) bool {
	if same(a, b) {
		return true
	}
	if in.holds(s, in.eq(a, b)) {
		return true
	}
	return isInteger(a.Typ) && isInteger(b.Typ) && linEqual(a, b)
}

// proveEq: a == b follows from the facts (linear arithmetic).
func (in *Interp) proveEq(s *snap, a, b *Term) bool {
	return in.eqKnown(s, a, b) || in.Prove(s, a, "<=", b) && in.Prove(s, b, "<=", a)
}

func (c *Checker) fieldName(pkg, typ, ftyp, fallback string) string {
	return c.W.FieldByType(pkg, typ, ftyp, fallback)
}

func short(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

// isFieldStore: the event stores to field f of object base.
func isFieldStore(e *Event, base *Term, f string) bool {
	return e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == f && e.Addr.Args[0] == base
}

func intConst(n int64) constant.Value { return constant.MakeInt64(n) }

func strConst(s string) constant.Value { return constant.MakeString(s) }
