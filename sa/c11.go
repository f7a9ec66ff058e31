package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C11"] = ruleDef{ruleC11}
	rules["C12"] = ruleDef{ruleC12}
}

const hamtMurmur = 0x22

// hf are the roles of the fields of the shard and its child table.
type hf struct {
	childer, key, val, size, lg2, pad, fmt, builder, hash, dserv string
	sd, bits, links, children                                    string
}

func (c *Checker) hamtFields() hf {
	f := func(t, ft, fb string) string { return c.fieldName("hamt", t, ft, fb) }
	return hf{
		childer: f("Shard", "*hamt.childer", "childer"), key: f("Shard", "", "key"), val: f("Shard", "*ipld.Link", "val"),
		size: f("Shard", "", "tableSize"), lg2: f("Shard", "", "tableSizeLg2"), pad: f("Shard", "", "maxpadlen"), fmt: f("Shard", "", "prefixPadStr"),
		builder: f("Shard", "cid.Builder", "builder"), hash: f("Shard", "uint64", "hashFunc"), dserv: f("Shard", "ipld.DAGService", "dserv"),
		sd: f("childer", "*hamt.Shard", "sd"), bits: f("childer", "bitfield.Bitfield", "bitfield"),
		links: f("childer", "[]*ipld.Link", "links"), children: f("childer", "[]*hamt.Shard", "children"),
	}
}

// pow2Known: the facts of s imply that v, known positive, is a power of two.
func pow2Known(in *Interp, s *snap, v *Term) bool {
	strip := func(t *Term) *Term {
		for t.Op == "conv" && len(t.Args) > 0 || strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t
	}
	isV := func(t *Term) bool { return linEqual(t, v) || strip(t) == strip(v) }
	isOneShl := func(t *Term) bool {
		t = strip(t)
		if t.Op != "bin" || t.Sym != "<<" {
			return false
		}
		n, ok := t.Args[0].Int()
		return ok && n == 1
	}
	vMinus1 := func(t *Term) bool {
		return isV(in.bin(token.ADD, t, in.TS.integer(1), t.Typ))
	}
	found := false
	s.facts.each(func(_ int, f fact) {
		t, val := f.t, f.v
		for t.Op == "not" {
			t, val = t.Args[0], !val
		}
		if t.Op != "eq" || !val {
			return
		}
		a, b := t.Args[0], t.Args[1]
		for k := 0; k < 2; k++ {
			if isV(a) && isOneShl(b) {
				found = true
			}
			if n, ok := b.Int(); ok && n == 0 {
				x := strip(a)
				if x.Op == "bin" && x.Sym == "&" && (isV(x.Args[0]) && vMinus1(x.Args[1]) || isV(x.Args[1]) && vMinus1(x.Args[0])) {
					found = true
				}
			}
			if n, ok := b.Int(); ok && n == 1 {
				x := strip(a)
				if x.Op == "pure" && strings.HasPrefix(x.Sym, "bits.OnesCount") && isV(x.Args[0]) {
					found = true
				}
			}
			a, b = b, a
		}
	})
	if found {
		return true
	}
	// constant-like equalities are kept apart
	s.eqv.each(func(uid int, k *Term) {
		n, ok := k.Int()
		if !ok {
			return
		}
		t := in.TS.byUID(uid)
		if t == nil {
			return
		}
		x := strip(t)
		if n == 0 && x.Op == "bin" && x.Sym == "&" && (isV(x.Args[0]) && vMinus1(x.Args[1]) || isV(x.Args[1]) && vMinus1(x.Args[0])) {
			found = true
		}
		if n == 1 && x.Op == "pure" && strings.HasPrefix(x.Sym, "bits.OnesCount") && isV(x.Args[0]) {
			found = true
		}
		if n > 0 && n&(n-1) == 0 && isV(t) {
			found = true
		}
	})
	return found
}

// isLog2 recognises the base-2 logarithm of the power of two v.
func isLog2(in *Interp, t, v *Term) bool {
	strip := func(t *Term) *Term {
		for strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t
	}
	x := strip(t)
	if x.Op == "pure" && strings.HasPrefix(x.Sym, "bits.TrailingZeros") && strip(x.Args[0]) == strip(v) {
		return true
	}
	y := strip(in.bin(token.ADD, t, in.TS.integer(1), t.Typ))
	if y.Op == "pure" && strings.HasPrefix(y.Sym, "bits.Len") && strip(y.Args[0]) == strip(v) {
		return true
	}
	// bits.Len(v-1)
	if x.Op == "pure" && strings.HasPrefix(x.Sym, "bits.Len") {
		return strip(in.bin(token.ADD, x.Args[0], in.TS.integer(1), x.Args[0].Typ)) == strip(v)
	}
	return false
}

// ruleC11: which stored nodes are accepted as shards.
func ruleC11(c *Checker) {
	c.explain = "Typestate of the node being loaded: every abstract path of NewHamtFromDag that can succeed (helpers inlined) must carry the facts that the node is a protobuf node, its data decoded to a message whose type can only be the sharded directory, the hash id is murmur3, the fan-out is positive, at most 1024 and a power of two, the bitmap decoding for that width succeeded and its population count equals the number of links; and the shard returned must hold exactly that width, bitmap, hash id, builder and those links. Every fetched node that becomes a shard passes through it."
	c.Assume("bitfield.FromBytes fails for a bitmap longer than the width; Ones counts set bits")
	f := c.hamtFields()
	name := "hamt.NewHamtFromDag"
	tint := types.Typ[types.Int]
	c.Run(c.Fn(name), Config{Arith: true}, func(t *Trace) {
		if t.Outcome != "return" {
			c.Ob("no-panic", name, false, t.pos(nil), t, "loading a shard panics")
			return
		}
		in, s, nd := t.In, &t.S, t.Args[1]
		if t.Failed() {
			c.Ob("no-shard-on-error", name, t.IsNil(t.Rets[0]), t.pos(nil), t, "a refused node still yields a shard")
			return
		}
		data := in.TS.mk("pure", "Data", nil, nd)
		links := in.TS.mk("pure", "Links", nil, nd)
		c.Ob("protobuf-only", name, in.nodeIs(s, nd, "*dag.ProtoNode"), t.pos(nil), t, "a node that is not known to be a protobuf node is accepted")
		var dec *decode
		for _, d := range t.decodes() {
			d := d
			if same(d.bytes, data) && t.IsNil(d.err) {
				dec = &d
			}
		}
		if !c.Ob("decoded", name, dec != nil, t.pos(nil), t, "a node is accepted without its data having been decoded successfully") {
			return
		}
		poss := c.typesPossible(in, s, dec.obj)
		c.Ob("type", name, subset(poss, "HAMTShard"), t.pos(nil), t, "a node whose type may be %s is accepted as a shard", keys(poss))
		ht := in.pbField(s, dec.obj, "HashType")
		c.Ob("hash", name, in.holds(s, in.eq(ht, in.TS.constant(intConst(hamtMurmur), ht.Typ))), t.pos(nil), t, "a shard is accepted without its hash function being known to be murmur3")
		fan := in.pbField(s, dec.obj, "Fanout")
		size := in.convert(fan, tint)
		sh := t.Rets[0]
		ld := func(base *Term, fld string) *Term { return in.fieldVal(s, base, fld) }
		if !c.Ob("new-shard", name, sh.Op == "alloc", t.pos(nil), t, "the shard returned is %s, not a new one", short(sh)) {
			return
		}
		ts := ld(sh, f.size)
		c.Ob("width-kept", name, linEqual(ts, size), t.pos(nil), t, "the shard's width is %s, not the stored fan-out", short(ts))
		c.Ob("width-positive", name, in.Prove(s, in.TS.integer(1), "<=", ts), t.pos(nil), t, "a shard whose width may be zero or negative is accepted")
		c.Ob("width-limit", name, in.Prove(s, ts, "<=", in.TS.integer(1024)), t.pos(nil), t, "a shard whose width may exceed 1024 is accepted")
		c.Ob("width-power-of-two", name, pow2Known(in, s, ts), t.pos(nil), t, "a shard whose width is not known to be a power of two is accepted")
		c.Ob("width-bits", name, isLog2(in, ld(sh, f.lg2), ts), t.pos(nil), t, "the shard takes %s bits per level, not the logarithm of its width", short(ld(sh, f.lg2)))
		ch := ld(sh, f.childer)
		bits := ld(ch, f.bits)
		okB := false
		if bits.Op == "extract" && bits.Sym == "0" && bits.Args[0].Op == "call" && bits.Args[0].Sym == "bitfield.FromBytes" {
			a := bits.Args[0].Args
			okB = linEqual(a[0], ts) && same(a[1], in.pbField(s, dec.obj, "Data"))
			okB = okB && t.IsNil(in.errOfTerm(bits.Args[0]))
		}
		c.Ob("bitmap", name, okB, t.pos(nil), t, "the shard's bitmap is %s, not the stored one checked against the width", short(bits))
		ones := in.TS.mk("pure", "bitfield.Bitfield.Ones", tint, bits)
		c.Ob("bits-equal-links", name, in.proveEq(s, ones, in.lenOf(links)), t.pos(nil), t, "a shard is accepted without its bitmap population being known to equal its number of links")
		// children: unloaded, one per link; links: the node's
		kids, lk := ld(ch, f.children), ld(ch, f.links)
		c.Ob("children-unloaded", name, in.proveEq(s, in.lenOf(kids), in.lenOf(links)) && (kids.Op == "make" || kids.isNil() || kids.Op == "lit"), t.pos(nil), t, "the loaded shard's children are %s, not one unloaded slot per link", short(kids))
		q := in.replay(t.Events)
		ss := q.norm(q.content(lk))
		okL := !q.bad && (len(ss) == 1 && ss[0].src == links && linEqual(ss[0].lo, in.TS.integer(0)) && linEqual(ss[0].hi, in.lenOf(links)) ||
			len(ss) == 0 && in.proveEq(s, in.lenOf(links), in.TS.integer(0)))
		stored, copied := in.proveEq(s, in.lenOf(links), in.TS.integer(0)), false
		for _, e := range t.Events {
			stored = stored || e.Kind == "store" && e.Addr.Op == "indexaddr" && e.Addr.Args[0] == lk
			copied = copied || e.Kind == "copy" && e.Args[0].contains(lk)
		}
		if !okL && lk.Op == "make" && !q.bad && !copied {
			// element-wise copy loop: every element stored comes from the same position
			okL = in.proveEq(s, in.lenOf(lk), in.lenOf(links)) && stored
			for _, e := range t.Events {
				if e.Kind == "store" && e.Addr.Op == "indexaddr" && e.Addr.Args[0] == lk {
					okL = okL && e.Val.Op == "load" && e.Val.Args[0].Op == "indexaddr" && e.Val.Args[0].Args[0] == links && linEqual(e.Val.Args[0].Args[1], e.Addr.Args[1])
				}
			}
		}
		c.Ob("links-kept", name, okL, t.pos(nil), t, "the shard's links are not exactly the node's links")
		c.Ob("hash-kept", name, same(ld(sh, f.hash), ht) || in.eqKnown(s, ld(sh, f.hash), ht), t.pos(nil), t, "the shard's hash id is %s, not the stored one", short(ld(sh, f.hash)))
		b := ld(sh, f.builder)
		c.Ob("builder-kept", name, same(b, in.TS.mk("pure", "CidBuilder", nil, nd)), t.pos(nil), t, "the shard's CID builder is %s, not the node's", short(b))
		c.Ob("not-a-value", name, ld(sh, f.val).isNil() || in.holds(s, in.eq(ld(sh, f.key), in.TS.constant(strConst(""), types.Typ[types.String]))), t.pos(nil), t, "the loaded shard is a value entry")
	})
	// no other way from a stored bitmap to a shard
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || !reachesOwn(fn, "bitfield.FromBytes") {
			continue
		}
		bad := c.reachedWithout(fn, name)
		c.Ob("only-loader", fnName(fn), bad == nil, c.W.Pos(fn.Pos()), nil, "%s turns a stored bitmap into a shard's and can be reached from %s without going through %s", fnName(fn), fnName(bad), name)
	}
	c.Min("type", 1)
}

// reachedWithout: an exported function that can reach fn by static calls not
// passing through the function named via (nil if there is none).
func (c *Checker) reachedWithout(fn *ssa.Function, via string) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) *ssa.Function
	walk = func(g *ssa.Function) *ssa.Function {
		for g.Parent() != nil {
			g = g.Parent()
		}
		if seen[g] || fnName(g) == via {
			return nil
		}
		seen[g] = true
		if exported(g) && g.Signature.Recv() == nil || exported(g) && g.Signature.Recv() != nil && recvExported(g) {
			return g
		}
		for _, h := range c.W.Fns {
			if !c.W.production(h) {
				continue
			}
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					var ops []*ssa.Value
					for _, o := range i.Operands(ops) {
						if *o == ssa.Value(g) {
							if r := walk(h); r != nil {
								return r
							}
						}
					}
				}
			}
		}
		return nil
	}
	return walk(fn)
}

func recvExported(fn *ssa.Function) bool {
	n, ok := types.Unalias(deref(fn.Signature.Recv().Type())).(*types.Named)
	return ok && n.Obj().Exported()
}

// reachesOwn: fn itself calls the named function.
func reachesOwn(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if s := ci.Common().StaticCallee(); s != nil && fnName(s) == name {
					return true
				}
			}
		}
	}
	return false
}

// withClosures: the function and the functions nested in it.
func withClosures(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

// ruleC12: the bitmap, links and children of a shard change together.
func ruleC12(c *Checker) {
	c.explain = "Symbolic sequence tracking of the two parallel slices of every shard touched on each abstract path of the hamt package's exported operations and its recursive core (helpers inlined, copy/append/element stores replayed): a path either leaves a shard's bitmap, links and children alone, replaces the same position in both slices with exactly one of link and child, or sets one bit known clear and inserts at its rank in both, or clears one bit known set and removes its rank from both. Every function that writes these fields must lie on an analysed path."
	c.Assume("OnesBefore(i) is the rank of bit i; slices obtained from different shards do not share memory")
	f := c.hamtFields()
	var entries []*ssa.Function
	for _, fn := range c.W.Fns {
		if c.W.production(fn) && fn.Pkg != nil && shortPkg(fn.Pkg.Pkg.Path()) == "hamt" && fn.Parent() == nil && fn.Synthetic == "" && fn.Blocks != nil {
			entries = append(entries, fn)
		}
	}
	seen := map[*ssa.Function]bool{}
	run := func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		rec := map[*ssa.Function]bool{}
		c.Run(fn, Config{Stop: stopAny(stopNames("hamt.NewHamtFromDag"), func(g *ssa.Function, d int) bool { return recursive(g) && g != fn })}, func(t *Trace) {
			c.lockstep(t, f)
			for _, e := range t.Events {
				if e.Kind == "call" && e.Callee != nil && c.W.InRepo(e.Callee) && recursive(e.Callee) {
					rec[e.Callee] = true
				}
			}
		})
	}
	for _, fn := range entries {
		if exported(fn) || recursive(fn) {
			run(fn)
		}
	}
	// every writer of these fields was analysed
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n, ok := deref(fa.X.Type()).(*types.Named)
				if !ok || n.Obj().Name() != "childer" {
					continue
				}
				ff := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				if ff == f.bits || ff == f.links || ff == f.children {
					c.Ob("writers-analysed", fnName(fn), c.fns[fn] || !hasCallers(c.W, fn), c.W.Pos(st.Pos()), nil, "%s writes %s but lies on no analysed path", fnName(fn), ff)
				}
			}
		}
	}
	c.Min("insert", 1)
	c.Min("remove", 1)
	c.Min("replace", 1)
}

func hasCallers(w *World, fn *ssa.Function) bool {
	for _, g := range w.Fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					if *o == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return exported(fn)
}

// recursive: fn is the head of a recursion: it can reach itself through
// static calls in its package, and is exported or called from outside the
// cycle. The other functions of the cycle are parts of their heads.
func recursive(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	h, ok := recHeads[fn.Pkg]
	if !ok {
		h = headsOf(fn.Pkg)
		recHeads[fn.Pkg] = h
	}
	return h[fn]
}

var recHeads = map[*ssa.Package]map[*ssa.Function]bool{}

func headsOf(pkg *ssa.Package) map[*ssa.Function]bool {
	var fns []*ssa.Function
	for _, m := range pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			fns = append(fns, m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := pkg.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := pkg.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pkg && f.Synthetic == "" {
						fns = append(fns, f)
					}
				}
			}
		}
	}
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fns {
		if succ[f] != nil {
			continue
		}
		succ[f] = map[*ssa.Function]bool{}
		for _, h := range withClosures(f) {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil && s.Blocks != nil && s.Pkg == pkg && s.Parent() == nil {
							succ[f][s] = true
						}
					}
				}
			}
		}
	}
	heads := map[*ssa.Function]bool{}
	for {
		// what can be reached without passing a head
		reach := func(f *ssa.Function) map[*ssa.Function]bool {
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function)
			walk = func(g *ssa.Function) {
				for s := range succ[g] {
					if !seen[s] && !heads[s] {
						seen[s] = true
						walk(s)
					}
				}
			}
			walk(f)
			return seen
		}
		rs := map[*ssa.Function]map[*ssa.Function]bool{}
		for f := range succ {
			if !heads[f] {
				rs[f] = reach(f)
			}
		}
		var cyc []*ssa.Function
		for f, r := range rs {
			if r[f] {
				cyc = append(cyc, f)
			}
		}
		if len(cyc) == 0 {
			return heads
		}
		var found []*ssa.Function
		for _, f := range cyc {
			outside, called := false, false
			for g, ss := range succ {
				if !ss[f] {
					continue
				}
				called = true
				if heads[g] || !(rs[g][f] && rs[f][g]) {
					outside = true
				}
			}
			if exported(f) || outside || !called {
				found = append(found, f)
			}
		}
		if len(found) == 0 {
			found = cyc
		}
		for _, f := range found {
			heads[f] = true
		}
	}
}

// lockstep judges the effect of a path on every shard's tables.
func (c *Checker) lockstep(t *Trace, f hf) {
	in := t.In
	fn := fnName(t.Entry)
	type tab struct {
		obj        *Term
		bits       []*Event
		first      *Event
		fields     map[string]bool
		kids, lks  []*Event
		structural bool
	}
	tabs := map[*Term]*tab{}
	var order []*Term
	get := func(o *Term, e *Event) *tab {
		if tabs[o] == nil {
			tabs[o] = &tab{obj: o, first: e, fields: map[string]bool{}}
			order = append(order, o)
		}
		return tabs[o]
	}
	owner := map[*Term]*Term{} // slice/bitfield value -> childer
	kind := map[*Term]string{}
	own := func(v *Term) (*Term, string) {
		for v != nil {
			if v.Op == "slice" || v.Op == "append" {
				v = v.Args[0]
				continue
			}
			break
		}
		if v == nil {
			return nil, ""
		}
		if o, ok := owner[v]; ok {
			return o, kind[v]
		}
		if v.Op == "load" && v.Args[0].Op == "fieldaddr" {
			switch v.Args[0].Sym {
			case f.bits, f.links, f.children:
				return v.Args[0].Args[0], v.Args[0].Sym
			}
		}
		return nil, ""
	}
	for _, e := range t.Events {
		switch e.Kind {
		case "store":
			if e.Addr.Op == "fieldaddr" && (e.Addr.Sym == f.bits || e.Addr.Sym == f.links || e.Addr.Sym == f.children) && c.isChilder(e.Addr.Args[0]) {
				o := e.Addr.Args[0]
				tb := get(o, e)
				tb.fields[e.Addr.Sym] = true
				tb.structural = true
				v := e.Val
				for v.Op == "slice" || v.Op == "append" {
					v = v.Args[0]
				}
				if v.Op != "lit" && !v.isNil() {
					owner[v], kind[v] = o, e.Addr.Sym
				}
			}
			if e.Addr.Op == "indexaddr" {
				if o, k := own(e.Addr.Args[0]); o != nil {
					tb := get(o, e)
					if k == f.links {
						tb.lks = append(tb.lks, e)
					} else if k == f.children {
						tb.kids = append(tb.kids, e)
					}
				}
			}
		case "copy":
			if o, _ := own(e.Args[0]); o != nil {
				get(o, e).structural = true
			}
		case "call":
			if e.Name == "bitfield.Bitfield.SetBit" || e.Name == "bitfield.Bitfield.UnsetBit" {
				if o, k := own(e.Args[0]); o != nil && k == f.bits {
					tb := get(o, e)
					tb.bits = append(tb.bits, e)
				} else {
					c.Ob("bit-owner", fn, false, t.pos(e), t, "a bit is changed in %s, which is not a shard's bitmap", short(e.Args[0]))
				}
			}
		}
	}
	for _, o := range order {
		tb := tabs[o]
		fld := func(s *snap, n string) *Term { return in.fieldVal(s, o, n) }
		start := before(t, tb.first)
		C0, L0 := fld(start, f.children), fld(start, f.links)
		C1, L1 := fld(&t.S, f.children), fld(&t.S, f.links)
		if o.Op == "alloc" && tb.fields[f.bits] && len(tb.bits) == 0 {
			// a new table: nothing in it, or the stored one (its counts are C11's)
			ok := linEqual(in.lenOf(C1), in.lenOf(L1)) || in.proveEq(&t.S, in.lenOf(C1), in.lenOf(L1))
			c.Ob("fresh", fn, ok, t.pos(tb.first), t, "a new shard has %s children slots but %s link slots", short(in.lenOf(C1)), short(in.lenOf(L1)))
			continue
		}
		if tb.fields[f.bits] {
			b := fld(&t.S, f.bits)
			okF := b.Op == "extract" && b.Args[0].Sym == "bitfield.FromBytes" && in.proveEq(&t.S, in.lenOf(C1), in.lenOf(L1))
			c.Ob("bitmap-replaced", fn, okF || t.Failed(), t.pos(tb.first), t, "the bitmap of an existing shard is replaced without its links and children")
			continue
		}
		if len(tb.bits) == 0 && !tb.structural {
			ok := len(tb.kids) == len(tb.lks)
			for i := 0; ok && i < len(tb.kids); i++ {
				a, b := tb.kids[i], tb.lks[i]
				ok = same(a.Addr.Args[1], b.Addr.Args[1]) && a.Val.isNil() != b.Val.isNil()
			}
			var p *Event
			if len(tb.kids) > 0 {
				p = tb.kids[0]
			} else if len(tb.lks) > 0 {
				p = tb.lks[0]
			}
			c.Ob("replace", fn, ok, t.pos(p), t, "a position is changed in the links or children without the other, or holds both or neither afterwards")
			continue
		}
		q := in.replay(t.Events)
		c0, l0 := q.norm(q.content(C1)), q.norm(q.content(L1))
		if len(tb.bits) == 0 {
			id := func(ss []seg, x *Term) bool {
				return len(ss) == 1 && ss[0].src == x && linEqual(ss[0].lo, in.TS.integer(0)) && linEqual(ss[0].hi, in.lenOf(x)) || len(ss) == 0 && x.isNil()
			}
			c.Ob("no-bit-no-change", fn, !q.bad && id(c0, C0) && id(l0, L0), t.pos(tb.first), t, "the links or children of a shard change without its bitmap")
			continue
		}
		if !c.Ob("one-bit", fn, len(tb.bits) == 1, t.pos(tb.bits[0]), t, "several bits of one shard change on one path") {
			continue
		}
		be := tb.bits[0]
		idx := be.Args[1]
		bm := fld(start, f.bits)
		bit := in.TS.mk("pure", "bitfield.Bitfield.Bit", types.Typ[types.Bool], bm, idx)
		rank := in.TS.mk("pure", "bitfield.Bitfield.OnesBefore", types.Typ[types.Int], bm, idx)
		if ep, _ := start.eps.get(bm.UID); ep > 0 {
			bit = in.TS.mk("pure", "bitfield.Bitfield.Bit@"+itoa(ep), types.Typ[types.Bool], bm, idx)
			rank = in.TS.mk("pure", "bitfield.Bitfield.OnesBefore@"+itoa(ep), types.Typ[types.Int], bm, idx)
		}
		// facts about the bit as it was found
		v, known := in.decide(&be.S, bit)
		part := func(ss []seg, i int, x, lo, hi *Term) bool {
			return i < len(ss) && ss[i].el == nil && ss[i].src == x && linEqual(ss[i].lo, lo) && linEqual(ss[i].hi, hi)
		}
		zero := in.TS.integer(0)
		if be.Name == "bitfield.Bitfield.SetBit" {
			ins := func(ss []seg, x *Term, isNil bool) bool {
				return len(ss) == 3 && part(ss, 0, x, zero, rank) && ss[1].el != nil && ss[1].el.isNil() == isNil && part(ss, 2, x, rank, in.lenOf(x))
			}
			c.Ob("insert-clear-bit", fn, t.Entry != nil && (known && !v || !c.readsBit(t)), t.pos(be), t, "a bit is set without being known to be clear before")
			okI := ins(c0, C0, false) && ins(l0, L0, true) || ins(c0, C0, true) && ins(l0, L0, false)
			c.Ob("insert", fn, !q.bad && okI, t.pos(be), t, "setting a bit does not go with inserting at its rank in both links and children (children %s, links %s)", segStr(c0), segStr(l0))
		} else {
			rm := func(ss []seg, x *Term) bool {
				return len(ss) == 2 && part(ss, 0, x, zero, rank) && part(ss, 1, x, in.bin(token.ADD, rank, in.TS.integer(1), types.Typ[types.Int]), in.lenOf(x))
			}
			c.Ob("remove-set-bit", fn, known && v || !c.readsBit(t), t.pos(be), t, "a bit is cleared without being known to be set before")
			c.Ob("remove", fn, !q.bad && rm(c0, C0) && rm(l0, L0), t.pos(be), t, "clearing a bit does not go with removing its rank from both links and children (children %s, links %s)", segStr(c0), segStr(l0))
		}
	}
}

// readsBit: the path looks at a bitmap bit (otherwise the analysed function is
// a helper whose caller does).
func (c *Checker) readsBit(t *Trace) bool {
	return len(t.calls("bitfield.Bitfield.Bit")) > 0 || exported(t.Entry)
}

func (c *Checker) isChilder(o *Term) bool {
	if o.Typ == nil {
		return false
	}
	n, ok := types.Unalias(deref(o.Typ)).(*types.Named)
	return ok && n.Obj().Name() == "childer"
}

func segStr(ss []seg) string {
	s := ""
	for _, x := range ss {
		if x.el != nil {
			s += " ‹" + short(x.el) + "›"
		} else {
			s += " [" + short(x.lo) + ":" + short(x.hi) + "]"
		}
	}
	return s
}
