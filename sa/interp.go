package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of an abstract path.
type Event struct {
	Kind   string // call enter leave store branch go defer send recv select close panic copy index slice assert deref div cut
	Name   string
	Instr  ssa.Instruction
	In     *ssa.Function
	Callee *ssa.Function
	Args   []*Term
	Res    *Term
	Rets   []*Term
	Addr   *Term
	Val    *Term
	Cond   *Term
	Taken  bool
	N      int // select: chosen case; -1 default
	Block  bool
	Depth  int
	Idx    int
	S      snap
	prev   *Event
}

type fact struct {
	t *Term
	v bool
}

// snap is an immutable view of the abstract state.
type snap struct {
	heap  pmap[*Term]
	addrs pmap[*Term] // uid -> address term, for enumeration
	eps   pmap[int]
	facts pmap[fact]
	eqv   pmap[*Term] // term -> const-like term it is known to equal
	isv   pmap[*Term] // term -> "type" term of known dynamic type
}

type deferRec struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr ssa.Instruction
}

type nativeK struct {
	kind string
	n    int
	dst  ssa.Value
	args []*Term
	ev   *Event
}

type frame struct {
	fn     *ssa.Function
	env    pmap[*Term]
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	visits pmap[int]
	pinit  pmap[*Term]
	defers []deferRec
	bind   []*Term
	dst    ssa.Value
	k      *nativeK
	args   []*Term
}

// State is one abstract path in progress.
type State struct {
	snap
	frames []*frame
	last   *Event
	serial int
}

func (s *State) clone() *State {
	c := *s
	c.frames = make([]*frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		c.frames[i] = &g
	}
	return &c
}

func (s *State) top() *frame { return s.frames[len(s.frames)-1] }

// Config tunes one enumeration.
type Config struct {
	Stop      func(fn *ssa.Function, depth int) bool
	Inline    func(fn *ssa.Function) bool // if set, only these are inlined
	MaxDepth  int
	MaxVisits int
	MaxPaths  int
	MaxSteps  int
	Bounds    bool
	Arith     bool
	AllowRec  int  // levels of recursion followed
	ExactLoop bool // no fresh loop variables
	Setup     func(in *Interp, st *State, args []*Term)
	// Model may give the result of an opaque call that has no effect.
	Model func(in *Interp, st *State, name string, callee *ssa.Function, args []*Term) *Term
	// Fork may give the possible outcomes of an opaque call.
	Fork    func(in *Interp, st *State, name string, callee *ssa.Function, args []*Term, typ types.Type) []outcome
	Buffers bool // model bytes.Buffer
	Math    bool // sizes and positions are assumed to fit: no wrap-around
}

type outcome struct {
	st  *State
	res *Term
}

type Trace struct {
	Events  []*Event
	Outcome string // return, panic
	Rets    []*Term
	S       snap
	In      *Interp
	Entry   *ssa.Function
	Args    []*Term
	Free    []*Term
}

type Stats struct {
	Paths, Cut, Steps, Infeasible int
	Truncated                     bool
	Fns                           map[*ssa.Function]bool
}

type Interp struct {
	W     *World
	TS    *terms
	Cfg   Config
	Stats Stats
	Axiom func(pc *provCtx, atom *Term) []*linForm
}

func NewInterp(w *World, cfg Config) *Interp {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	if cfg.MaxVisits == 0 {
		cfg.MaxVisits = 2
	}
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 60_000_000
	}
	return &Interp{W: w, TS: w.TS, Cfg: cfg, Stats: Stats{Fns: map[*ssa.Function]bool{}}}
}

// Run enumerates the abstract paths of fn and calls visit for each.
func (in *Interp) Run(fn *ssa.Function, visit func(*Trace)) {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, in.paramTerm(fn, i, p))
	}
	var free []*Term
	for _, f := range fn.FreeVars {
		free = append(free, in.TS.mk("free", fnName(fn)+":"+f.Name(), f.Type()))
	}
	in.RunFrom(snap{}, fn, args, free, visit)
}

func (in *Interp) paramTerm(fn *ssa.Function, i int, p *ssa.Parameter) *Term {
	return in.TS.mk("param", p.Name()+"\x00"+fn.String(), p.Type())
}

// RunFrom enumerates fn from a given abstract state.
func (in *Interp) RunFrom(s snap, fn *ssa.Function, args, free []*Term, visit func(*Trace)) {
	st := &State{snap: s}
	if in.Cfg.Setup != nil {
		in.Cfg.Setup(in, st, args)
	}
	in.push(st, fn, args, free, nil, nil)
	stack := []*State{st}
	for len(stack) > 0 {
		cur := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for {
			in.Stats.Steps++
			if in.Stats.Steps > in.Cfg.MaxSteps || in.Stats.Paths > in.Cfg.MaxPaths {
				in.Stats.Truncated = true
				return
			}
			next, tr := in.step(cur)
			if tr != nil {
				tr.Entry, tr.Args, tr.Free, tr.In = fn, args, free, in
				in.Stats.Paths++
				visit(tr)
				break
			}
			if len(next) == 0 {
				break
			}
			cur = next[0]
			for i := len(next) - 1; i >= 1; i-- {
				stack = append(stack, next[i])
			}
		}
	}
}

func (in *Interp) push(st *State, fn *ssa.Function, args, bind []*Term, dst ssa.Value, k *nativeK) {
	fr := &frame{fn: fn, block: fn.Blocks[0], bind: bind, dst: dst, k: k, args: args}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env = fr.env.set(in.W.id(p), args[i])
		}
	}
	in.Stats.Fns[fn] = true
	st.frames = append(st.frames, fr)
}

func (in *Interp) emit(st *State, e *Event) *Event {
	e.prev = st.last
	if st.last != nil {
		e.Idx = st.last.Idx + 1
	}
	e.Depth = len(st.frames)
	if e.In == nil && len(st.frames) > 0 {
		e.In = st.top().fn
	}
	e.S = st.snap
	st.last = e
	return e
}

// emitAt emits with the state before the call.
func (in *Interp) emitAt(st *State, e *Event, pre *snap) {
	in.emit(st, e)
	e.S = *pre
}

func (in *Interp) trace(st *State, outcome string, rets []*Term) *Trace {
	n := 0
	if st.last != nil {
		n = st.last.Idx + 1
	}
	evs := make([]*Event, n)
	for e := st.last; e != nil; e = e.prev {
		evs[e.Idx] = e
	}
	return &Trace{Events: evs, Outcome: outcome, Rets: rets, S: st.snap}
}

// ---- values ----

func (in *Interp) val(st *State, fr *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return in.TS.constant(v.Value, v.Type())
	case *ssa.Global:
		n := v.Name()
		if v.Pkg != nil {
			n = shortPkg(v.Pkg.Pkg.Path()) + "." + n
		}
		return in.TS.mk("global", n, v.Type())
	case *ssa.Function:
		t := in.TS.mk("func", fnName(v), v.Type())
		t.Fn = v
		return t
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				if i < len(fr.bind) {
					return fr.bind[i]
				}
			}
		}
		return in.TS.mk("free", fnName(fr.fn)+":"+v.Name(), v.Type())
	case *ssa.Builtin:
		return in.TS.mk("builtin", v.Name(), v.Type())
	}
	if t, ok := fr.env.get(in.W.id(v)); ok {
		return t
	}
	return in.TS.mk("undef", v.Name(), v.Type())
}

func (in *Interp) bind(fr *frame, v ssa.Value, t *Term) {
	if v != nil {
		fr.env = fr.env.set(in.W.id(v), t)
	}
}

func baseOf(addr *Term) *Term {
	for addr.Op == "fieldaddr" || addr.Op == "indexaddr" {
		addr = addr.Args[0]
	}
	return addr
}

func (in *Interp) fieldAddr(base *Term, name string, typ types.Type) *Term {
	return in.TS.mk("fieldaddr", name, typ, base)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// opaqueStruct: value types treated as atoms (cid.Cid, sync types).
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "github.com/ipfs/go-cid", "sync", "bytes", "time":
		return n.Obj().Name() != "Prefix"
	}
	return false
}

func (in *Interp) load(s *snap, addr *Term, typ types.Type) *Term {
	if v, ok := s.heap.get(addr.UID); ok {
		return v
	}
	if st, ok := isStruct(typ); ok && !opaqueStruct(typ) && st.NumFields() > 0 && st.NumFields() < 24 {
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fs = append(fs, in.load(s, in.fieldAddr(addr, f.Name(), types.NewPointer(f.Type())), f.Type()))
		}
		return in.TS.mk("struct", types.TypeString(typ, shortQual), typ, fs...)
	}
	if addr.Op == "indexaddr" && addr.Args[0].Op == "lit" {
		if i, ok := addr.Args[1].Int(); ok && i >= 0 && int(i) < len(addr.Args[0].Args) {
			return addr.Args[0].Args[i]
		}
	}
	if addr.Op == "fieldaddr" && addr.Args[0].Op == "indexaddr" {
		// element of a literal slice of structs
		ia := addr.Args[0]
		if ia.Args[0].Op == "lit" {
			if i, ok := ia.Args[1].Int(); ok && i >= 0 && int(i) < len(ia.Args[0].Args) {
				return in.field(ia.Args[0].Args[i], addr.Sym, typ)
			}
		}
	}
	b := baseOf(addr)
	ep, _ := s.eps.get(b.UID)
	if b.Op == "alloc" && (ep == 0 || in.W.immutable(addr)) {
		return in.TS.zero(typ)
	}
	if addr.Op == "global" {
		if types.Identical(typ, types.Universe.Lookup("error").Type()) {
			return in.TS.mk("sentinel", addr.Sym, typ)
		}
	}
	sym := ""
	if ep > 0 && !in.W.immutable(addr) {
		sym = fmt.Sprintf("@%d", ep)
	}
	return in.TS.mk("load", sym, typ, addr)
}

func (in *Interp) store(st *State, addr, val *Term, typ types.Type) {
	if s, ok := isStruct(typ); ok && !opaqueStruct(typ) && s.NumFields() > 0 && s.NumFields() < 24 {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			in.store(st, in.fieldAddr(addr, f.Name(), types.NewPointer(f.Type())), in.field(val, f.Name(), f.Type()), f.Type())
		}
		return
	}
	st.heap = st.heap.set(addr.UID, val)
	st.addrs = st.addrs.set(addr.UID, addr)
}

func (in *Interp) field(v *Term, name string, typ types.Type) *Term {
	if v.Op == "struct" {
		if s, ok := isStruct(v.Typ); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name && i < len(v.Args) {
					return v.Args[i]
				}
			}
		}
	}
	if v.Op == "zero" {
		return in.TS.zero(typ)
	}
	return in.TS.mk("field", name, typ, v)
}

// bump forgets everything known about the object base.
func (in *Interp) bump(st *State, base *Term) {
	base = baseOf(base)
	e, _ := st.eps.get(base.UID)
	st.eps = st.eps.set(base.UID, e+1)
	var drop []int
	st.addrs.each(func(k int, a *Term) {
		if baseOf(a) == base && !strings.HasPrefix(a.Sym, "$") && !in.W.immutable(a) {
			drop = append(drop, k)
		}
	})
	for _, k := range drop {
		st.heap = st.heap.del(k)
		st.addrs = st.addrs.del(k)
	}
}

// ---- conditions ----

func (in *Interp) not(t *Term) *Term {
	if t.Op == "not" {
		return t.Args[0]
	}
	if b, ok := t.Bool(); ok {
		return in.TS.boolean(!b)
	}
	return in.TS.mk("not", "", types.Typ[types.Bool], t)
}

func constLike(t *Term) bool { return t.Op == "const" || t.Op == "sentinel" }

func (in *Interp) nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "fieldaddr", "indexaddr", "sentinel", "newerr", "make", "global", "iface", "lit", "struct":
		if t.Op == "lit" && len(t.Args) == 0 {
			return t.Sym == "nonnil"
		}
		return true
	case "const":
		return t.CV != nil
	case "extract":
		if t.Args[0].Op == "call" && nonNilResults[t.Args[0].Sym] {
			return true
		}
	case "call", "pure":
		return nonNilResults[t.Sym]
	case "append":
		for _, a := range t.Args[1:] {
			if a.Op != "spread" {
				return true
			}
		}
	case "slice":
		return false
	}
	if t.Typ != nil {
		switch t.Typ.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			return true
		}
	}
	return false
}

var nonNilResults = map[string]bool{
	"context.WithCancel": true, "context.TODO": true, "context.Background": true,
	"dag.NodeWithData": true, "dag.NewRawNode": true, "ipld.NewWalker": true, "ipld.NewNavigableIPLDNode": true,
	"bytes.NewReader": true, "bytes.NewBuffer": true, "io.LimitReader": true, "chunker.NewSizeSplitter": true,
	"cid.NewSet": true, "errgroup.WithContext": true, "dag.NewReadOnlyDagService": true,
	"murmur3.New64": true, "proto.Uint64": true, "proto.Int64": true, "proto.String": true, "proto.Bool": true,
	"Copy": true, "files.NewLinkFile": true, "proto.Uint32": true, "proto.Int32": true, "context.Context.Done": true,
	"context.WithTimeout": true, "context.WithValue": true, "context.WithCancelCause": true,
}

func (in *Interp) eq(x, y *Term) *Term {
	if x == y {
		return in.TS.boolean(true)
	}
	if x.Op == "const" && y.Op == "const" {
		if x.CV != nil && y.CV != nil && x.CV.Kind() == y.CV.Kind() {
			return in.TS.boolean(constant.Compare(x.CV, token.EQL, y.CV))
		}
		if x.isNil() != y.isNil() {
			return in.TS.boolean(false)
		}
	}
	if x.Op == "sentinel" && y.Op == "sentinel" {
		return in.TS.boolean(false) // distinct names
	}
	if (x.isNil() && in.nonNil(y)) || (y.isNil() && in.nonNil(x)) {
		return in.TS.boolean(false)
	}
	if (x.Op == "newerr" && y.Op == "sentinel") || (y.Op == "newerr" && x.Op == "sentinel") {
		return in.TS.boolean(false)
	}
	if b, ok := y.Bool(); ok {
		if b {
			return x
		}
		return in.not(x)
	}
	if b, ok := x.Bool(); ok {
		if b {
			return y
		}
		return in.not(y)
	}
	if x.UID > y.UID {
		x, y = y, x
	}
	return in.TS.mk("eq", "", types.Typ[types.Bool], x, y)
}

func (in *Interp) lt(x, y *Term) *Term {
	if x == y {
		return in.TS.boolean(false)
	}
	if a, ok := x.Int(); ok {
		if b, ok := y.Int(); ok {
			return in.TS.boolean(a < b)
		}
	}
	if x.CV != nil && y.CV != nil && x.CV.Kind() == y.CV.Kind() {
		return in.TS.boolean(constant.Compare(x.CV, token.LSS, y.CV))
	}
	return in.TS.mk("lt", "", types.Typ[types.Bool], x, y)
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// typeTerm represents a type.
func (in *Interp) typeTerm(t types.Type) *Term {
	return in.TS.mk("type", types.TypeString(t, shortQual), t)
}

// dynType returns the known dynamic type of an (interface) value.
func (in *Interp) dynType(s *snap, x *Term) types.Type {
	if x.Typ != nil && !types.IsInterface(x.Typ) && !x.isNil() {
		return x.Typ
	}
	if t, ok := s.isv.get(x.UID); ok {
		return t.Typ
	}
	return nil
}

// decide evaluates a condition under the facts of s.
func (in *Interp) decide(s *snap, t *Term) (bool, bool) {
	if b, ok := t.Bool(); ok {
		return b, true
	}
	if t.Op == "not" {
		v, ok := in.decide(s, t.Args[0])
		return !v, ok
	}
	if f, ok := s.facts.get(t.UID); ok {
		return f.v, true
	}
	switch t.Op {
	case "eq":
		x, y := t.Args[0], t.Args[1]
		kx, okx := s.eqv.get(x.UID)
		ky, oky := s.eqv.get(y.UID)
		if constLike(x) {
			kx, okx = x, true
		}
		if constLike(y) {
			ky, oky = y, true
		}
		if okx && oky {
			c := in.eq(kx, ky)
			if b, ok := c.Bool(); ok {
				return b, true
			}
		}
		if x.isNil() || y.isNil() {
			o := x
			if x.isNil() {
				o = y
			}
			if k, ok := s.eqv.get(o.UID); ok && in.nonNil(k) {
				return false, true
			}
			if _, ok := s.isv.get(o.UID); ok {
				return false, true
			}
			if f, ok := s.facts.get(in.TS.mk("nonnil", "", nil, o).UID); ok && f.v {
				return false, true
			}
		}
		// a length is not zero exactly when it is positive
		for i, z := range t.Args {
			if k, ok := z.Int(); ok && k == 0 && isLen(t.Args[1-i]) {
				if f, ok := s.facts.get(in.lt(z, t.Args[1-i]).UID); ok {
					return !f.v, true
				}
			}
		}
	case "lt":
		if k, ok := t.Args[0].Int(); ok && k == 0 && isLen(t.Args[1]) {
			if v, ok := in.decide(s, in.eq(t.Args[0], t.Args[1])); ok {
				return !v, true
			}
		}
	case "is":
		if d := in.dynType(s, t.Args[0]); d != nil {
			if T := t.Typ; T != nil {
				if types.IsInterface(T) {
					return types.Implements(d, T.Underlying().(*types.Interface)), true
				}
				return types.Identical(d, T), true
			}
		}
		if t.Args[0].isNil() {
			return false, true
		}
		if v, ok := in.decide(s, in.eq(t.Args[0], in.TS.nil_())); ok && v {
			return false, true
		}
	}
	if in.Cfg.Arith && (t.Op == "lt" || t.Op == "eq") && len(t.Args) == 2 {
		x := t.Args[0]
		y := t.Args[1]
		if (isInteger(x.Typ) || isInteger(y.Typ)) && !x.isNil() && !y.isNil() {
			return in.decideArith(s, t)
		}
	}
	return false, false
}

// assume adds a fact; false when it contradicts.
func (in *Interp) assume(s *snap, t *Term, v bool) bool {
	if t.Op == "not" {
		return in.assume(s, t.Args[0], !v)
	}
	if b, ok := in.decide(s, t); ok {
		return b == v
	}
	s.facts = s.facts.set(t.UID, fact{t, v})
	if t.Op == "eq" && v {
		x, y := t.Args[0], t.Args[1]
		if x.Op == "struct" && y.Op == "struct" && x.Sym == y.Sym && len(x.Args) == len(y.Args) {
			for i := range x.Args {
				if e := in.eq(x.Args[i], y.Args[i]); e != in.TS.boolean(true) && !in.assume(s, e, true) {
					return false
				}
			}
		}
		if constLike(x) {
			s.eqv = s.eqv.set(y.UID, x)
		} else if constLike(y) {
			s.eqv = s.eqv.set(x.UID, y)
		}
	}
	if t.Op == "is" && v && t.Typ != nil && !types.IsInterface(t.Typ) {
		s.isv = s.isv.set(t.Args[0].UID, in.typeTerm(t.Typ))
	}
	return true
}

func (in *Interp) isNilKnown(s *snap, t *Term) (bool, bool) {
	return in.decide(s, in.eq(t, in.TS.nil_()))
}

// ---- arithmetic ----

func (in *Interp) bin(op token.Token, x, y *Term, typ types.Type) *Term {
	b := types.Typ[types.Bool]
	_ = b
	switch op {
	case token.EQL:
		return in.eq(x, y)
	case token.NEQ:
		return in.not(in.eq(x, y))
	case token.LSS:
		return in.lt(x, y)
	case token.GTR:
		return in.lt(y, x)
	case token.LEQ:
		return in.not(in.lt(y, x))
	case token.GEQ:
		return in.not(in.lt(x, y))
	}
	if x.CV != nil && y.CV != nil {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.CV.Kind() == y.CV.Kind() {
				v := constant.BinaryOp(x.CV, op, y.CV)
				if v.Kind() == constant.Int && isInteger(typ) && intSize(typ) < 64 {
					v = wrapConst(v, typ)
				}
				if !(isUnsigned(typ) && constant.Sign(v) < 0) {
					return in.TS.constant(v, typ)
				}
			}
		case token.QUO, token.REM:
			if constant.Sign(y.CV) != 0 && x.CV.Kind() == constant.Int && y.CV.Kind() == constant.Int {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return in.TS.constant(constant.BinaryOp(x.CV, o, y.CV), typ)
			}
		case token.SHL, token.SHR:
			if n, ok := y.Int(); ok && n >= 0 && n < 63 && x.CV.Kind() == constant.Int {
				return in.TS.constant(wrapConst(constant.Shift(x.CV, op, uint(n)), typ), typ)
			}
		}
	}
	switch op {
	case token.ADD:
		if n, ok := y.Int(); ok && n == 0 {
			return x
		}
		if n, ok := x.Int(); ok && n == 0 {
			return y
		}
		if s, ok := x.Str(); ok && s == "" {
			return y
		}
		if isInteger(typ) {
			// (a + c1) + c2, (a - b) + b
			if yc, ok := y.Int(); ok && x.Op == "bin" && (x.Sym == "+" || x.Sym == "-") {
				if xc, ok := x.Args[1].Int(); ok {
					if x.Sym == "-" {
						xc = -xc
					}
					return in.addConst(x.Args[0], xc+yc, typ)
				}
			}
			if x.CV != nil && y.CV == nil {
				return in.bin(token.ADD, y, x, typ)
			}
			if x.Op == "bin" && x.Sym == "-" && x.Args[1] == y {
				return x.Args[0]
			}
			if y.CV == nil && x.UID > y.UID {
				x, y = y, x
			}
		}
	case token.SUB:
		if n, ok := y.Int(); ok && n == 0 {
			return x
		}
		if x == y && isInteger(typ) {
			return in.TS.constant(constant.MakeInt64(0), typ)
		}
		if isInteger(typ) {
			if x.Op == "bin" && x.Sym == "+" {
				if x.Args[0] == y {
					return x.Args[1]
				}
				if x.Args[1] == y {
					return x.Args[0]
				}
			}
			if yc, ok := y.Int(); ok {
				return in.addConst(x, -yc, typ)
			}
		}
	case token.MUL, token.AND, token.OR:
		if x.UID > y.UID {
			x, y = y, x
		}
	}
	return in.TS.mk("bin", op.String(), typ, x, y)
}

func (in *Interp) addConst(x *Term, c int64, typ types.Type) *Term {
	if x.Op == "bin" && (x.Sym == "+" || x.Sym == "-") {
		if xc, ok := x.Args[1].Int(); ok {
			if x.Sym == "-" {
				xc = -xc
			}
			return in.addConst(x.Args[0], c+xc, typ)
		}
	}
	if v, ok := x.Int(); ok {
		return in.TS.constant(constant.MakeInt64(v+c), typ)
	}
	if c == 0 {
		return x
	}
	if c < 0 {
		return in.TS.mk("bin", "-", typ, x, in.TS.constant(constant.MakeInt64(-c), typ))
	}
	return in.TS.mk("bin", "+", typ, x, in.TS.constant(constant.MakeInt64(c), typ))
}

// wrapConst reduces an integer constant to its type's range.
func wrapConst(v constant.Value, t types.Type) constant.Value {
	if v.Kind() != constant.Int || !isInteger(t) {
		return v
	}
	n := uint(intSize(t))
	m := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, n), token.SUB, constant.MakeInt64(1))
	u := v
	if constant.Sign(v) < 0 {
		// two's complement
		u = constant.BinaryOp(m, token.SUB, constant.BinaryOp(constant.UnaryOp(token.XOR, v, 0), token.AND, m))
	} else {
		u = constant.BinaryOp(v, token.AND, m)
	}
	if !isUnsigned(t) && constant.Compare(u, token.GTR, constant.Shift(m, token.SHR, 1)) {
		u = constant.BinaryOp(u, token.SUB, constant.BinaryOp(m, token.ADD, constant.MakeInt64(1)))
	}
	return u
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// convert models numeric and string conversions.
func (in *Interp) convert(x *Term, to types.Type) *Term {
	from := x.Typ
	if from == nil {
		return x
	}
	if isInteger(from) && isInteger(to) {
		fu, tu := isUnsigned(from), isUnsigned(to)
		if x.CV != nil {
			if !(tu && constant.Sign(x.CV) < 0) {
				return in.TS.constant(wrapConst(x.CV, to), to)
			}
		}
		fs, tsz := intSize(from), intSize(to)
		if tsz >= fs && (fu == tu || (fu && tsz > fs)) {
			return x
		}
		if tsz >= fs && fu && !tu {
			if x.Op == "conv" && x.Sym == "s2u" {
				return x.Args[0]
			}
			return in.TS.mk("conv", "u2s", to, x)
		}
		if tsz >= fs && !fu && tu {
			if x.Op == "conv" && x.Sym == "u2s" {
				return x.Args[0]
			}
			return in.TS.mk("conv", "s2u", to, x)
		}
		return in.TS.mk("conv", types.TypeString(to, shortQual), to, x)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if x.Op == "conv" && x.Sym == "bytes" {
			return x.Args[0]
		}
		if _, ok := from.Underlying().(*types.Slice); ok {
			return in.TS.mk("conv", "string", to, x)
		}
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return in.TS.mk("conv", "bytes", to, x)
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
		return in.TS.mk("conv", types.TypeString(to, shortQual), to, x)
	}
	return x
}

// lenOf computes len(x).
func (in *Interp) lenOf(x *Term) *Term {
	tint := types.Typ[types.Int]
	switch x.Op {
	case "lit":
		return in.TS.integer(int64(len(x.Args)))
	case "const":
		if s, ok := x.Str(); ok {
			return in.TS.integer(int64(len(s)))
		}
		if x.isNil() {
			return in.TS.integer(0)
		}
	case "slice":
		return in.bin(token.SUB, x.Args[2], x.Args[1], tint)
	case "append":
		n := in.lenOf(x.Args[0])
		for _, a := range x.Args[1:] {
			if a.Op == "spread" {
				n = in.bin(token.ADD, n, in.lenOf(a.Args[0]), tint)
			} else {
				n = in.bin(token.ADD, n, in.TS.integer(1), tint)
			}
		}
		return n
	case "make":
		if x.Sym == "slice" {
			return x.Args[0]
		}
	case "conv":
		if x.Sym == "bytes" || x.Sym == "string" {
			return in.lenOf(x.Args[0])
		}
	case "bin":
		if x.Sym == "+" && !isInteger(x.Typ) {
			return in.bin(token.ADD, in.lenOf(x.Args[0]), in.lenOf(x.Args[1]), tint)
		}
	}
	if x.Typ != nil {
		t := x.Typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return in.TS.integer(a.Len())
		}
	}
	return in.TS.mk("pure", "len", tint, x)
}

func (in *Interp) slice(x, lo, hi *Term, typ types.Type) *Term {
	tint := types.Typ[types.Int]
	if lo == nil {
		lo = in.TS.integer(0)
	}
	full := hi == nil
	if full {
		hi = in.lenOf(x)
	}
	if n, ok := lo.Int(); ok && n == 0 && full {
		return x
	}
	if x.Op == "slice" {
		return in.TS.mk("slice", "", typ, x.Args[0], in.bin(token.ADD, x.Args[1], lo, tint), in.bin(token.ADD, x.Args[1], hi, tint))
	}
	if x.Op == "lit" {
		a, ok1 := lo.Int()
		b, ok2 := hi.Int()
		if ok1 && ok2 && a >= 0 && b <= int64(len(x.Args)) && a <= b {
			return in.TS.mk("lit", "nonnil", typ, x.Args[a:b]...)
		}
	}
	return in.TS.mk("slice", "", typ, x, lo, hi)
}

func isLen(t *Term) bool { return t.Op == "pure" && t.Sym == "len" }
