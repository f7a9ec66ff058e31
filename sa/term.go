package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is a hash-consed abstract value: the value an SSA register holds on
// one path, written over the entry's parameters, loads, call results and
// allocation sites.
type Term struct {
	Op   string
	Sym  string
	Args []*Term
	UID  int
	Typ  types.Type
	Fn   *ssa.Function // closures and functions
	CV   constant.Value
	Elem *Term // loopvar: the term it stands for on this visit
	Ev   *Event
}

type terms struct {
	uids map[int]*Term
	tab  map[string]*Term
	next int
}

func newTerms() *terms { return &terms{tab: map[string]*Term{}} }

// byUID finds a hash-consed term.
func (ts *terms) byUID(uid int) *Term {
	if ts.uids == nil {
		ts.uids = map[int]*Term{}
	}
	if len(ts.uids) != len(ts.tab) {
		for _, t := range ts.tab {
			ts.uids[t.UID] = t
		}
	}
	return ts.uids[uid]
}

func (ts *terms) mk(op, sym string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sym)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.UID)
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	ts.next++
	t := &Term{Op: op, Sym: sym, Args: args, UID: ts.next, Typ: typ}
	ts.tab[k] = t
	return t
}

func (ts *terms) fresh(op, sym string, typ types.Type, args ...*Term) *Term {
	ts.next++
	return &Term{Op: op, Sym: sym, Args: args, UID: ts.next, Typ: typ}
}

func (ts *terms) constant(v constant.Value, typ types.Type) *Term {
	if v == nil {
		// zero value: nil, or zero struct
		if isNilable(typ) {
			return ts.nil_()
		}
		return ts.mk("zero", types.TypeString(typ, shortQual), typ)
	}
	t := ts.mk("const", v.ExactString(), typ)
	t.CV = v
	return t
}

func (ts *terms) nil_() *Term { return ts.mk("const", "nil", nil) }
func (ts *terms) boolean(b bool) *Term {
	return ts.constant(constant.MakeBool(b), types.Typ[types.Bool])
}
func (ts *terms) integer(n int64) *Term {
	return ts.constant(constant.MakeInt64(n), types.Typ[types.Int])
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer
	}
	return false
}

func (ts *terms) zero(t types.Type) *Term {
	if isNilable(t) {
		return ts.nil_()
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return ts.boolean(false)
		case b.Info()&types.IsString != 0:
			return ts.constant(constant.MakeString(""), t)
		case b.Info()&types.IsNumeric != 0:
			return ts.constant(constant.MakeInt64(0), t)
		}
	}
	return ts.mk("zero", types.TypeString(t, shortQual), t)
}

func (t *Term) isNil() bool   { return t.Op == "const" && t.Sym == "nil" }
func (t *Term) isConst() bool { return t.Op == "const" && t.CV != nil }
func (t *Term) Int() (int64, bool) {
	if t.CV == nil {
		return 0, false
	}
	v := constant.ToInt(t.CV)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
func (t *Term) Bool() (bool, bool) {
	if t.CV != nil && t.CV.Kind() == constant.Bool {
		return constant.BoolVal(t.CV), true
	}
	return false, false
}
func (t *Term) Str() (string, bool) {
	if t.CV != nil && t.CV.Kind() == constant.String {
		return constant.StringVal(t.CV), true
	}
	return "", false
}

// peel strips loop variables, returning the term the variable stands for on
// this visit of the loop header.
func (t *Term) peel() *Term {
	for t != nil && t.Op == "loopvar" && t.Elem != nil {
		t = t.Elem
	}
	return t
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 12 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.Sym
	case "param":
		if i := strings.IndexByte(t.Sym, 0); i >= 0 {
			return t.Sym[:i]
		}
		return t.Sym
	case "global":
		return "&" + t.Sym
	case "func":
		return "func " + t.Sym
	case "closure":
		return "closure " + t.Sym
	case "alloc":
		return fmt.Sprintf("new#%d(%s)", t.UID, t.Sym)
	case "fieldaddr":
		return "&" + t.Args[0].str(d+1) + "." + t.Sym
	case "indexaddr":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "load":
		s := t.Args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		return s + t.Sym
	case "field":
		return t.Args[0].str(d+1) + "." + t.Sym
	case "index":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "bin":
		return "(" + t.Args[0].str(d+1) + " " + t.Sym + " " + t.Args[1].str(d+1) + ")"
	case "call":
		return fmt.Sprintf("%s#%d(%s)", t.Sym, t.UID, as())
	case "extract":
		return t.Args[0].str(d+1) + "." + t.Sym
	case "slice":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "]"
	case "loopvar":
		return fmt.Sprintf("loop#%d{%s}", t.UID, t.Elem.str(d+4))
	case "pure":
		return t.Sym + "(" + as() + ")"
	}
	return fmt.Sprintf("%s%s(%s)", t.Op, t.Sym, as())
}

// contains reports whether sub occurs in t (through loop variables too).
func (t *Term) contains(sub *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == sub {
			return true
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return rec(x.Elem)
	}
	return rec(t)
}

// containsF reports whether any subterm satisfies f.
func (t *Term) containsF(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		if f(x) {
			return true
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return rec(x.Elem)
	}
	return rec(t)
}

func shortPkg(path string) string {
	if p, ok := pkgAlias[path]; ok {
		return p
	}
	if i := strings.LastIndex(path, "/"); i >= 0 {
		path = path[i+1:]
	}
	path = strings.TrimPrefix(path, "go-ipfs-")
	path = strings.TrimPrefix(path, "go-")
	return path
}

func shortQual(p *types.Package) string { return shortPkg(p.Path()) }

const repoMod = "github.com/ipfs/go-unixfs"

var pkgAlias = map[string]string{
	repoMod:                                "unixfs",
	repoMod + "/io":                        "uio",
	repoMod + "/file":                      "unixfile",
	"github.com/ipfs/go-ipld-format":       "ipld",
	"github.com/ipfs/go-merkledag":         "dag",
	"github.com/ipfs/go-ipfs-chunker":      "chunker",
	"github.com/gogo/protobuf/proto":       "proto",
	"github.com/ipfs/go-ipfs-posinfo":      "posinfo",
	"golang.org/x/sync/errgroup":           "errgroup",
	"github.com/spaolacci/murmur3":         "murmur3",
	"github.com/ipfs/go-ipfs-files":        "files",
	repoMod + "/private/linksize":          "linksize",
	"github.com/multiformats/go-multihash": "mh",
}

// objName gives a stable short name: pkg.Func or pkg.Type.Method.
func objName(f *types.Func) string {
	if f == nil {
		return "?"
	}
	f = f.Origin()
	pkg := ""
	if f.Pkg() != nil {
		pkg = shortPkg(f.Pkg().Path()) + "."
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch n := t.(type) {
		case *types.Named:
			p := ""
			if n.Obj().Pkg() != nil {
				p = shortPkg(n.Obj().Pkg().Path()) + "."
			}
			return p + n.Obj().Name() + "." + f.Name()
		default:
			return pkg + "?." + f.Name()
		}
	}
	return pkg + f.Name()
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Parent() != nil {
		// closure: name by parent
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fnName(fn.Parent()) + n
	}
	if o, ok := fn.Object().(*types.Func); ok && o != nil {
		return objName(o)
	}
	if fn.Pkg != nil {
		return shortPkg(fn.Pkg.Pkg.Path()) + "." + fn.Name()
	}
	return fn.Name()
}
