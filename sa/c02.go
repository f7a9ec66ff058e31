package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C02"] = ruleDef{ruleC02} }

// ruleC02: every operation that can panic is guarded.
func ruleC02(c *Checker) {
	c.explain = "Path-sensitive guard analysis over the SSA form with a linear-inequality domain. Every exported function, every head of a recursion and every closure that is started or handed out is explored with its unexported helpers and accessors inlined (loops to two generic visits). At each index, slice expression, checked type assertion, division, shift and allocation the failing case must be excluded by the facts of the path; a pointer or interface obtained from a call must have been used only after its error was found nil, and a field or table entry the library itself treats as absent at times (set to or compared with nil) only where it is known present; no path may reach an explicit panic other than for the failure of encoding the library's own message."
	c.Assume("parameters, receivers and the fields of live objects that are never set to or compared with nil are not nil; the state of a HAMT child table agrees with itself (C11) and the links of a builder node with its block sizes (C04)")
	c.Assume("an index passed to the accessors FSNode.BlockSize, FSNode.RemoveBlockSize, FSNodeOverDag.GetChild and RemoveChild by a user is in range; the library's own calls are checked; a call that returns no error returns a value that is not nil")
	p := &panics{c: c, f: c.hamtFields(), seen: map[*Event]bool{}, nilable: c.nilable(), entered: map[*ssa.Function]bool{}, todo: map[*ssa.Function]bool{}}
	skip := func(fn *ssa.Function) bool {
		return !c.W.production(fn) || fn.Synthetic != "" || fn.Pkg == nil && fn.Parent() == nil || strings.HasPrefix(fn.Name(), "init")
	}
	for _, fn := range c.W.Fns {
		if !skip(fn) && fn.Parent() == nil && (exported(fn) || recursive(fn)) && !accessorByIndex(fn) {
			p.run(fn)
		}
	}
	// what runs on a goroutine of its own, or is only handed out
	for i := 0; i < len(c.W.Fns); i++ {
		fn := c.W.Fns[i]
		if !skip(fn) && fn.Parent() != nil && !p.entered[fn] {
			p.run(fn)
		}
	}
	for done := false; !done; {
		done = true
		for _, fn := range c.W.Fns {
			if p.todo[fn] && !p.entered[fn] {
				done = false
				p.run(fn)
			}
		}
	}
	c.Min("slice-guarded", 5)
	c.Min("index-guarded", 5)
	c.Min("used-after-check", 20)
	c.Min("present-when-used", 10)
	c.Min("allocation-bounded", 1)
}

type panics struct {
	c       *Checker
	f       hf
	seen    map[*Event]bool
	nilable map[string]bool
	fn      *ssa.Function
	entered map[*ssa.Function]bool // analysed, on their own or inlined
	needed  map[*ssa.Function]map[string]bool
	todo    map[*ssa.Function]bool // left to be analysed on their own
}

// accessorByIndex: exported accessors taking a position from the caller: they
// are judged where the library calls them.
func accessorByIndex(fn *ssa.Function) bool {
	return exported(fn) && recvIs(fn, "unixfs.FSNode", "helpers.FSNodeOverDag") && fn.Signature.Params().Len() >= 1 &&
		types.Identical(fn.Signature.Params().At(0).Type(), types.Typ[types.Int])
}

// accessor: a function that only reads.
func accessor(w *World, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if g == nil || g.Blocks == nil || len(g.Blocks) > 4 || !w.InRepo(g) || seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Call:
				if _, ok := i.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				if !accessor(w, i.Call.StaticCallee(), seen) {
					return false
				}
			case ssa.CallInstruction, *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
				return false
			}
		}
	}
	return true
}

func (p *panics) run(fn *ssa.Function) {
	c := p.c
	p.fn = fn
	p.entered[fn] = true
	cfg := Config{Bounds: true, Arith: true, Setup: p.setup(fn), Stop: func(g *ssa.Function, d int) bool {
		if fn.Parent() != nil && g.Parent() == nil && !accessor(c.W, g, map[*ssa.Function]bool{}) {
			if !exported(g) && !recursive(g) {
				p.todo[g] = true
			}
			return true
		}
		if g == fn || recvIs(g, "unixfs.FSNode") && g.Name() != "GetBytes" || accessorByIndex(g) || accessor(c.W, g, map[*ssa.Function]bool{}) {
			return false
		}
		return exported(g) && g.Parent() == nil || recursive(g)
	}}
	c.Run(fn, cfg, func(t *Trace) {
		if t.Outcome == "panic" {
			c.Ob("no-panic", fnName(fn), p.encodingFailed(t), t.pos(nil), t, "%s panics on a path that does not follow a failed encoding", fnName(fn))
		}
		for _, e := range t.Events {
			if !p.seen[e] {
				p.seen[e] = true
				if e.Kind == "enter" && e.Callee != nil {
					p.entered[e.Callee] = true
				}
				p.judge(t, e)
			}
		}
	})
}

func (p *panics) judge(t *Trace, e *Event) {
	c, in := p.c, t.In
	site := fnName(e.In)
	zero, one := in.TS.integer(0), in.TS.integer(1)
	s := &e.S
	switch e.Kind {
	case "index":
		ok := p.table(t, e, e.Args[0], e.Args[1], true)
		if !ok {
			s = p.lemmas(t, e)
			ok = in.Prove(s, zero, "<=", e.Args[1]) && in.Prove(s, e.Args[1], "<", e.Args[2])
		}
		c.Ob("index-guarded", site, ok, t.pos(e), t, "element %s of %s is accessed without being known to exist (in %s)", short(e.Args[1]), short(e.Args[0]), fnName(p.fn))
	case "slice":
		ok := p.table(t, e, e.Args[0], e.Args[1], false) && p.table(t, e, e.Args[0], e.Args[2], false)
		if !ok {
			s = p.lemmas(t, e)
			ok = in.Prove(s, zero, "<=", e.Args[1]) && in.Prove(s, e.Args[1], "<=", e.Args[2]) && in.Prove(s, e.Args[2], "<=", e.Args[3])
		}
		c.Ob("slice-guarded", site, ok, t.pos(e), t, "%s is cut at [%s:%s] without that being known to lie within it (in %s)", short(e.Args[0]), short(e.Args[1]), short(e.Args[2]), fnName(p.fn))
	case "assert":
		v, k := in.decide(s, e.Cond)
		c.Ob("assertion-guarded", site, k && v || p.onlyType(in, s, e), t.pos(e), t, "%s is asserted to be of one type without that being known", short(e.Args[0]))
	case "div":
		s = p.lemmas(t, e)
		v, k := in.decide(s, in.eq(e.Args[1], zero))
		c.Ob("division-guarded", site, k && !v || in.Prove(s, one, "<=", e.Args[1]), t.pos(e), t, "division by %s, which may be zero", short(e.Args[1]))
	case "makeslice":
		s = p.lemmas(t, e)
		c.Ob("allocation-bounded", site, in.Prove(s, zero, "<=", e.Args[0]), t.pos(e), t, "a slice of %s elements is made, which may be negative", short(e.Args[0]))
	case "shift":
		s = p.lemmas(t, e)
		c.Ob("shift-guarded", site, in.Prove(s, zero, "<=", e.Args[1]), t.pos(e), t, "shift by %s, which may be negative", short(e.Args[1]))
	case "call":
		if takesPart(e.Callee) {
			hb, i := e.Args[0], e.Args[1]
			bf, cf := c.hashFields()
			cons, ln := in.fieldVal(s, hb, cf), in.lenOf(in.fieldVal(s, hb, bf))
			ok := in.Prove(s, in.bin(token.ADD, cons, i, types.Typ[types.Int]), "<=", in.bin(token.MUL, ln, in.TS.integer(8), types.Typ[types.Int]))
			c.Ob("bits-left", site, ok, t.pos(e), t, "bits are taken from the hash without enough being known to be left")
		}
		if e.Name == "dyn" && len(e.Args) == 1 && e.Args[0].Typ != nil && types.TypeString(e.Args[0].Typ, shortQual) == "*hamt.Shard" {
			n, k := in.isNilKnown(s, in.fieldVal(s, e.Args[0], p.f.val))
			c.Ob("entry-has-link", site, k && !n, t.pos(e), t, "a shard without a link is handed out as an entry")
		}
		if strings.HasPrefix(e.Name, "bitfield.NewBitfield") || strings.HasPrefix(e.Name, "bitfield.FromBytes") {
			s = p.lemmas(t, e)
			ok := in.Prove(s, e.Args[0], "<=", in.TS.integer(1<<20)) || e.Args[0].Op == "load" && p.boundedField(e.Args[0])
			c.Ob("allocation-bounded", site, ok, t.pos(e), t, "a bitmap of %s bits is allocated, with no limit", short(e.Args[0]))
		}
		if g := e.Callee; g != nil && g.Signature.Recv() != nil && len(e.Args) > 0 && !strings.Contains(e.Name, "pb.") {
			p.deref(t, e, e.Args[0])
		}
		if e.Callee != nil {
			for f := range p.needs(e.Callee) {
				v := in.fieldVal(s, e.Args[0], f)
				n, k := in.isNilKnown(s, v)
				ok := k && !n || p.stillThere(t, e, v)
				c.Ob("present-when-used", site, ok, t.pos(e), t, "%s is called without %s being known present (in %s)", fnName(e.Callee), short(v), fnName(p.fn))
			}
		}
		if e.Name == "dyn" && e.Val != nil {
			p.deref(t, e, e.Val)
		}
		for i, a := range e.Args {
			if typ := argType(e, i); typ != nil && nodeType(typ) && !asksNil(e.Callee, i, 3) {
				p.deref(t, e, a)
			}
		}
	case "deref":
		p.deref(t, e, e.Args[0])
	}
}

// takesPart: the recursive part of taking bits, called when enough are left.
func takesPart(g *ssa.Function) bool {
	if g == nil || exported(g) || !recvIs(g, "hamt.hashBits") {
		return false
	}
	sig := g.Signature
	return recursive(g) && sig.Params().Len() == 1 && sig.Results().Len() == 1
}

// setup states what holds on entry: enough bits are left when a part of them
// is taken, and an entry handed to a callback has a link.
func (p *panics) setup(fn *ssa.Function) func(in *Interp, st *State, args []*Term) {
	c := p.c
	return func(in *Interp, st *State, args []*Term) {
		s := &st.snap
		zero, one := in.TS.integer(0), in.TS.integer(1)
		if takesPart(fn) {
			bf, cf := c.hashFields()
			cons, arr := in.fieldVal(s, args[0], cf), in.lenOf(in.fieldVal(s, args[0], bf))
			in.assume(s, in.lt(cons, zero), false)
			in.assume(s, in.lt(args[1], one), false)
			in.assume(s, in.lt(in.bin(token.MUL, arr, in.TS.integer(8), types.Typ[types.Int]), in.bin(token.ADD, cons, args[1], types.Typ[types.Int])), false)
		}
		for f := range p.needs(fn) {
			in.assume(s, in.eq(in.fieldVal(s, args[0], f), in.TS.nil_()), false)
		}
		for _, a := range args {
			if fn.Parent() != nil && a.Typ != nil && types.TypeString(a.Typ, shortQual) == "*hamt.Shard" {
				in.assume(s, in.eq(in.fieldVal(s, a, p.f.val), in.TS.nil_()), false)
			}
		}
	}
}

// encodingFailed: the panic follows a failed encoding of the library's own
// message.
func (p *panics) encodingFailed(t *Trace) bool {
	in := t.In
	for _, e := range t.Events {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "proto.Marshal") {
			if er := in.errOf(e); er != nil {
				if n, k := in.isNilKnown(&t.S, er); k && !n {
					return true
				}
			}
		}
	}
	return false
}

// lemmas adds what holds of the fields read to the facts of s.
func (p *panics) lemmas(t *Trace, e *Event) *snap {
	in, args := t.In, e.Args
	s2 := e.S
	// the nodes the walker has visited: its position is that of one of their links
	var visited []*Term
	for _, b := range t.Events[:e.Idx] {
		if b.Kind == "call" && strings.HasSuffix(b.Name, "ipld.ExtractIPLDNode") {
			if n := in.resOf(b, 0); n != nil {
				visited = append(visited, n)
			}
		}
	}
	for i := 0; i < len(args); i++ {
		args[i].containsF(func(x *Term) bool {
			if (x.Op == "call" || x.Op == "pure") && strings.Contains(x.Sym, "Walker.ActiveChildIndex") {
				v := in.convert(x, types.Typ[types.Int])
				in.assume(&s2, in.lt(v, in.TS.integer(0)), false)
				for _, n := range visited {
					in.assume(&s2, in.lt(v, in.lenOf(in.linksOf(n))), true)
				}
			}
			if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Typ != nil && isInteger(x.Typ) && p.nonNegField(x.Args[0]) {
				in.assume(&s2, in.lt(x, in.TS.integer(0)), false)
			}
			return false
		})
	}
	for _, b := range t.Events[:e.Idx] {
		if b.Kind == "branch" {
			b.Cond.containsF(func(x *Term) bool {
				if x.Op == "load" && x.Typ != nil && isInteger(x.Typ) {
					if n, _ := ownerField(x.Args[0]); n != nil && types.TypeString(n, shortQual) == "helpers.DagBuilderHelper" {
						in.assume(&s2, in.lt(x, in.TS.integer(0)), false)
					}
				}
				return false
			})
		}
	}
	// the links of a builder node and its block sizes are as many
	if len(args) > 0 {
		args[0].containsF(func(x *Term) bool {
			if x.Op != "pure" || x.Sym != "Links" || x.Args[0].Op != "load" {
				return false
			}
			d := x.Args[0]
			n, _ := ownerField(d.Args[0])
			if n == nil || types.TypeString(n, shortQual) != "helpers.FSNodeOverDag" {
				return false
			}
			obj := d.Args[0].Args[0]
			for _, b := range t.Events[:e.Idx] {
				if b.Kind != "enter" || b.Callee == nil || !exported(b.Callee) || !recvIs(b.Callee, "helpers.FSNodeOverDag") || b.Args[0] != obj {
					continue
				}
				if in.linksOf(in.fieldVal(&b.S, obj, d.Args[0].Sym)) != x {
					continue
				}
				file := in.fieldVal(&b.S, obj, p.c.fieldName("helpers", "FSNodeOverDag", "*unixfs.FSNode", "file"))
				if file == nil {
					continue
				}
				msg := in.fieldAddr(file, p.c.fieldName("unixfs", "FSNode", "pb.Data", "format"), in.W.ptrTo("pb", "Data"))
				in.assume(&s2, in.eq(in.lenOf(in.pbField(&b.S, msg, "Blocksizes")), in.lenOf(x)), true)
			}
			return false
		})
	}
	return &s2
}

// ownerField finds the struct and field index an address names.
func ownerField(a *Term) (*types.Named, int) {
	if a.Op != "fieldaddr" || a.Args[0].Typ == nil {
		return nil, -1
	}
	n, ok := deref(a.Args[0].Typ).(*types.Named)
	if !ok {
		return nil, -1
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == a.Sym {
			return n, i
		}
	}
	return nil, -1
}

// fieldStores: the values stored into a field anywhere in the repository.
func (c *Checker) fieldStores(n *types.Named, i int) []ssa.Value {
	var out []ssa.Value
	for _, fn := range c.W.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(deref(fa.X.Type()), n) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// nonNegField: every value stored into the field is a length, a constant or
// the same field of another object.
func (p *panics) nonNegField(a *Term) bool {
	n, i := ownerField(a)
	if n == nil || n.Underlying().(*types.Struct).Field(i).Exported() {
		return false
	}
	key := "nonneg:" + n.String() + "." + a.Sym
	v, ok := p.nilable[key]
	if ok {
		return v
	}
	v = true
	var good func(x ssa.Value, d int) bool
	good = func(x ssa.Value, d int) bool {
		switch x := x.(type) {
		case *ssa.Const:
			return x.Value != nil && x.Value.Kind() == constant.Int && constant.Sign(x.Value) >= 0
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && (b.Name() == "len" || b.Name() == "cap")
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					return fa.Field == i && types.Identical(deref(fa.X.Type()), n)
				}
			}
		case *ssa.Phi:
			if d > 3 {
				return false
			}
			for _, e := range x.Edges {
				if !good(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, x := range p.c.fieldStores(n, i) {
		v = v && good(x, 0)
	}
	p.nilable[key] = v
	return v
}

// boundedField: the width of a shard, limited where it is made.
func (p *panics) boundedField(x *Term) bool {
	return x.Args[0].Op == "fieldaddr" && x.Args[0].Sym == p.f.size
}

// table: i is a position of a child table: the rank of a bit of its bitmap (a
// set one, for an access), or the number of set bits before the current one.
func (p *panics) table(t *Trace, e *Event, tab, i *Term, access bool) bool {
	in := t.In
	x := tab
	for x.Op == "slice" || x.Op == "append" {
		x = x.Args[0]
	}
	if x.Op != "load" || x.Args[0].Op != "fieldaddr" || x.Args[0].Sym != p.f.children && x.Args[0].Sym != p.f.links {
		return false
	}
	ch := x.Args[0].Args[0]
	s := &e.S
	if !access && (same(i, in.lenOf(tab)) || i == in.TS.integer(0)) {
		return true
	}
	// the two tables are of one length
	other := p.f.links
	if x.Args[0].Sym == other {
		other = p.f.children
	}
	if o := in.fieldVal(s, ch, other); access && o != nil && in.Prove(s, in.TS.integer(0), "<=", i) && in.Prove(s, i, "<", in.lenOf(o)) {
		return true
	}
	set := func(j *Term) bool {
		for _, b := range t.Events[:e.Idx] {
			if b.Kind == "call" && strings.HasSuffix(b.Name, "Bitfield.Bit") && b.Res != nil && same(b.Args[1], j) && tableBits(b.Args[0], ch, p.f.bits) && in.holds(s, b.Res) {
				return true
			}
		}
		return false
	}
	if i.Op == "pure" && strings.HasSuffix(i.Sym, "Bitfield.OnesBefore") && tableBits(i.Args[0], ch, p.f.bits) {
		return !access || set(i.Args[1])
	}
	// the rank plus one, as the end of a cut
	if i.Op == "bin" && !access && len(i.Args) == 2 {
		for k := range i.Args {
			if n, ok := i.Args[1-k].Int(); ok && n == 1 && i.Args[k].Op == "pure" && strings.HasSuffix(i.Args[k].Sym, "Bitfield.OnesBefore") {
				if tableBits(i.Args[k].Args[0], ch, p.f.bits) && set(i.Args[k].Args[1]) {
					return true
				}
			}
		}
	}
	// counting the set bits from the first on
	n, ok := in.unloop(i).Int()
	if !ok {
		return false
	}
	val := map[int64]bool{}
	var last int64 = -1
	for _, b := range t.Events[:e.Idx] {
		if b.Kind == "call" && strings.HasSuffix(b.Name, "Bitfield.Bit") && b.Res != nil && tableBits(b.Args[0], ch, p.f.bits) {
			j, isC := in.unloop(b.Args[1]).Int()
			v, k := in.decide(s, b.Res)
			if isC && k {
				val[j] = v
				last = j
			}
		}
	}
	if last < 0 || !val[last] {
		return false
	}
	var cnt int64
	for j := int64(0); j < last; j++ {
		v, known := val[j]
		if !known {
			return false
		}
		if v {
			cnt++
		}
	}
	return cnt == n
}

func tableBits(b, ch *Term, bits string) bool {
	return b != nil && b.Op == "load" && b.Args[0].Op == "fieldaddr" && b.Args[0].Sym == bits && b.Args[0].Args[0] == ch
}

// onlyType: the field asserted only ever holds the library's own types, and
// all others are excluded on the path.
func (p *panics) onlyType(in *Interp, s *snap, e *Event) bool {
	x := e.Args[0]
	if x.Op != "load" {
		return false
	}
	n, i := ownerField(x.Args[0])
	if n == nil {
		return false
	}
	kinds := map[string]types.Type{}
	var add func(v ssa.Value, d int) bool
	add = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.MakeInterface:
			kinds[v.X.Type().String()] = v.X.Type()
			return true
		case *ssa.ChangeInterface:
			return add(v.X, d)
		case *ssa.Phi:
			if d > 4 {
				return false
			}
			for _, e := range v.Edges {
				if !add(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return false
		}
		return false
	}
	for _, v := range p.c.fieldStores(n, i) {
		if !add(v, 0) {
			return false
		}
	}
	ok := false
	for _, k := range kinds {
		if types.Identical(k, e.Cond.Typ) {
			ok = true
			continue
		}
		v, known := in.decide(s, in.TS.mk("is", types.TypeString(k, shortQual), k, x))
		if !known || v {
			return false
		}
	}
	return ok
}

// nilable: the fields of pointer, interface, function or slice type that the
// library compares with nil or sets to nil.
func (c *Checker) nilable() map[string]bool {
	out := map[string]bool{}
	key := func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		n, ok := deref(fa.X.Type()).(*types.Named)
		if !ok {
			return ""
		}
		return n.String() + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
	}
	isNil := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value == nil
	}
	for _, fn := range c.W.Fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if isNil(i.Val) {
						if k := key(i.Addr); k != "" {
							out[k] = true
						}
					}
				case *ssa.BinOp:
					x, y := i.X, i.Y
					if isNil(x) {
						x, y = y, x
					}
					if u, ok := x.(*ssa.UnOp); ok && isNil(y) && u.Op == token.MUL {
						if k := key(u.X); k != "" {
							out[k] = true
						}
					}
				}
			}
		}
	}
	return out
}

// deref: a value that may be absent is used.
func (p *panics) deref(t *Trace, e *Event, a *Term) {
	c, in := p.c, t.In
	s := &e.S
	x := a.peel()
	site := fnName(e.In)
	known := func() bool {
		n, k := in.isNilKnown(s, a)
		return k && !n || p.stillThere(t, e, x)
	}
	switch {
	case x.isNil():
		c.Ob("present-when-used", site, false, t.pos(e), t, "nil is used (in %s)", fnName(p.fn))
	case x.Op == "load" && x.Args[0].Op == "fieldaddr":
		n, _ := ownerField(x.Args[0])
		if n == nil || !p.nilable[n.String()+"."+x.Args[0].Sym] {
			return
		}
		c.Ob("present-when-used", site, known(), t.pos(e), t, "%s, which is absent at times, is used without being known present (in %s)", short(a), fnName(p.fn))
	case x.Op == "load" && x.Args[0].Op == "indexaddr":
		if tab := x.Args[0].Args[0]; tab.Op != "load" || tab.Args[0].Op != "fieldaddr" || tab.Args[0].Sym != p.f.links && tab.Args[0].Sym != p.f.children {
			return
		}
		c.Ob("present-when-used", site, known() || p.entryPresent(in, s, x), t.pos(e), t, "%s, which may be absent, is used (in %s)", short(a), fnName(p.fn))
	case x.Op == "extract" && len(x.Args) > 0 && x.Args[0].Ev != nil:
		ok := known()
		if er := in.errOf(x.Args[0].Ev); er != nil && !ok {
			n, k := in.isNilKnown(s, er)
			ok = k && n
		}
		c.Ob("used-after-check", site, ok, t.pos(e), t, "%s is used before the failure of the call that gave it is excluded (in %s)", short(a), fnName(p.fn))
	}
}

// entryPresent: table and link entries that are there by construction.
func (p *panics) entryPresent(in *Interp, s *snap, x *Term) bool {
	tab := x.Args[0].Args[0]
	if tab.Op == "load" && tab.Args[0].Op == "fieldaddr" {
		switch tab.Args[0].Sym {
		case p.f.links:
			// a child that is not loaded has its link
			ch := in.fieldVal(s, tab.Args[0].Args[0], p.f.children)
			if ch == nil {
				return false
			}
			el := in.load(s, in.indexAddr(ch, x.Args[0].Args[1], nil), in.W.ptrTo("hamt", "Shard"))
			n, k := in.isNilKnown(s, el)
			return k && n
		}
	}
	return false
}

// nodeType: values that are used, not just carried, by what they are given to.
func nodeType(t types.Type) bool {
	switch types.TypeString(t, shortQual) {
	case "ipld.Node", "*dag.ProtoNode", "*dag.RawNode", "*unixfs.FSNode", "*helpers.FSNodeOverDag", "*hamt.Shard":
		return true
	}
	return false
}

// needs: the fields of its receiver an unexported head of a recursion uses
// without asking whether they are there.
func (p *panics) needs(fn *ssa.Function) map[string]bool {
	if v, ok := p.needed[fn]; ok {
		return v
	}
	out := map[string]bool{}
	if p.needed == nil {
		p.needed = map[*ssa.Function]map[string]bool{}
	}
	p.needed[fn] = out
	if fn.Blocks == nil || !p.c.W.production(fn) || exported(fn) || !recursive(fn) || fn.Signature.Recv() == nil {
		return out
	}
	asked := map[string]bool{}
	p.uses(fn, out, asked, 3)
	for n := range asked {
		delete(out, n)
	}
	return out
}

// stillThere: the field was known present and no call since then may have
// changed it.
func (p *panics) stillThere(t *Trace, e *Event, x *Term) bool {
	in := t.In
	if x == nil {
		return false
	}
	if x = x.peel(); x.Op != "load" {
		return false
	}
	n, i := ownerField(x.Args[0])
	if n == nil {
		return false
	}
	obj, f := x.Args[0].Args[0], x.Args[0].Sym
	for k := e.Idx - 1; k >= 0; k-- {
		b := t.Events[k]
		if b.Kind == "store" && b.Addr != nil && b.Addr.Op == "fieldaddr" && b.Addr.Sym == f {
			return false
		}
		if b.Kind != "call" {
			continue
		}
		if b.Callee != nil && p.mayStore(b.Callee, n, i) {
			return false
		}
		if v := in.fieldVal(&b.S, obj, f); v != nil {
			if nl, known := in.isNilKnown(&b.S, v); known {
				return !nl
			}
		}
	}
	return false
}

// mayStore: fn, or what it calls in the repository, stores to the field.
func (p *panics) mayStore(fn *ssa.Function, n *types.Named, i int) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == nil || seen[g] || g.Blocks == nil || !p.c.W.InRepo(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(deref(fa.X.Type()), n) {
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// argType: the declared type of argument i of the call.
func argType(e *Event, i int) types.Type {
	k, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return e.Args[i].Typ
	}
	cc := k.Common()
	if cc.IsInvoke() {
		i--
	}
	if i >= 0 && i < len(cc.Args) {
		return cc.Args[i].Type()
	}
	return nil
}

// asksNil: parameter i of the function is compared with nil.
func asksNil(g *ssa.Function, i, d int) bool {
	if g == nil || g.Blocks == nil || i >= len(g.Params) {
		return false
	}
	for _, r := range *g.Params[i].Referrers() {
		if k, ok := r.(ssa.CallInstruction); ok {
			h := k.Common().StaticCallee()
			for j, a := range k.Common().Args {
				if a == ssa.Value(g.Params[i]) && h != nil && h != g && len(h.Blocks) > 0 && d > 0 && asksNil(h, j, d-1) {
					return true
				}
			}
		}
		if b, ok := r.(*ssa.BinOp); ok {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value == nil {
					return true
				}
			}
		}
	}
	return false
}

// uses collects the fields of the receiver that fn, and the unexported methods
// it calls on the same object, use and ask about.
func (p *panics) uses(fn *ssa.Function, out, asked map[string]bool, d int) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if k, ok := i.(ssa.CallInstruction); ok && d > 0 {
				h := k.Common().StaticCallee()
				if a := k.Common().Args; h != nil && h != fn && len(a) > 0 && a[0] == ssa.Value(fn.Params[0]) && h.Signature.Recv() != nil && !exported(h) && !recursive(h) && h.Blocks != nil {
					p.uses(h, out, asked, d-1)
				}
			}
			fa, ok := i.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(fn.Params[0]) {
				continue
			}
			n, ok := deref(fa.X.Type()).(*types.Named)
			if !ok {
				continue
			}
			name := n.Underlying().(*types.Struct).Field(fa.Field).Name()
			if !p.nilable[n.String()+"."+name] {
				continue
			}
			for _, r := range *fa.Referrers() {
				u, ok := r.(*ssa.UnOp)
				if !ok {
					continue
				}
				for _, q := range *u.Referrers() {
					switch q := q.(type) {
					case *ssa.BinOp:
						asked[name] = true
					case ssa.CallInstruction:
						if len(q.Common().Args) > 0 && q.Common().Args[0] == ssa.Value(u) || q.Common().Value == ssa.Value(u) {
							out[name] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						out[name] = true
					}
				}
			}
		}
	}
}
