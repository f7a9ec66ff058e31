package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C13"] = ruleDef{ruleC13}
	rules["C14"] = ruleDef{ruleC14}
}

// hamtCores: the recursive functions of the hamt package that are entered from
// outside their own recursion and walk down by hash bits.
func (c *Checker) hamtCores() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "hamt" || fn.Parent() != nil || fn.Blocks == nil || !recursive(fn) {
			continue
		}
		if c.param(fn, "*hamt.hashBits") < 0 || c.param(fn, "*hamt.Shard") < 0 || c.param(fn, "string") < 0 {
			continue
		}
		entered := false
		for _, g := range c.W.Fns {
			if g != fn && c.W.production(g) && !recursive(g) && reachesOwn(g, fnName(fn)) {
				entered = true
			}
		}
		if entered {
			out = append(out, fn)
		}
	}
	return out
}

// param: index of the only parameter with the given type, or -1.
func (c *Checker) param(fn *ssa.Function, typ string) int {
	r := -1
	for i, p := range fn.Params {
		if types.TypeString(p.Type(), shortQual) == typ {
			if r >= 0 && typ != "*hamt.Shard" {
				return -1
			}
			if r < 0 {
				r = i
			}
		}
	}
	return r
}

// takesBits: the bit-taking method of the hash bits type.
func takesBits(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() != nil && types.TypeString(s.Recv().Type(), shortQual) == "*hamt.hashBits" && s.Params().Len() == 1 && s.Results().Len() == 2 && isErr(s.Results().At(1).Type())
}

func (c *Checker) hashFields() (b, consumed string) {
	return c.fieldName("hamt", "hashBits", "[]byte", "b"), c.fieldName("hamt", "hashBits", "int", "consumed")
}

// hashOf: v is the hash of the string name.
func hashOf(v, name *Term) bool {
	return v != nil && v.Op == "pure" && v.Sym == "internal.HAMTHashFunction" && v.Args[0].Op == "conv" && same(v.Args[0].Args[0], name)
}

// slot describes one level of the walk.
type slot struct {
	idx      *Term
	bit      *Term
	rank     *Term
	occupied bool
	known    bool
	next     *Event
}

func (c *Checker) slotOf(t *Trace, f hf, ds, hv *Term) *slot {
	in := t.In
	s := &slot{}
	for _, e := range t.Events {
		if e.Kind == "call" && e.Callee != nil && takesBits(e.Callee) && same(e.Args[0], hv) {
			if s.next != nil {
				return nil
			}
			s.next = e
			s.idx = in.resOf(e, 0)
		}
	}
	if s.next == nil {
		return nil
	}
	bm := in.fieldVal(&s.next.S, in.fieldVal(&s.next.S, ds, f.childer), f.bits)
	s.bit = in.TS.mk("pure", "bitfield.Bitfield.Bit", types.Typ[types.Bool], bm, s.idx)
	s.rank = in.TS.mk("pure", "bitfield.Bitfield.OnesBefore", types.Typ[types.Int], bm, s.idx)
	s.occupied, s.known = in.decide(&t.S, s.bit)
	return s
}

func ruleC13(c *Checker) {
	c.explain = "Provenance along the shard walk: on every abstract path of the two recursive walks (lookup and swap) the slot is the next tableSizeLg2 bits of the name's hash, the child used is the one at that slot's rank, recursion passes the same hash state, name and value on, an entry is returned, replaced or removed only with its full name known equal, and a collision re-inserts both entries into one new shard of the same width with the old entry's own hash advanced to the position reached. The operations enter the walk with the murmur3 hash of their own name at position zero. The bit extraction itself is evaluated in a bit-provenance domain for every bit position and width. Serialisation is checked for slot-numbered names in slot order."
	c.Assume("murmur3.New64/Write/Sum is the murmur3 hash; Sprintf pads as its format says")
	f := c.hamtFields()
	hb, hcons := c.hashFields()
	tint := types.Typ[types.Int]
	cores := c.hamtCores()
	if len(cores) == 0 {
		c.Fail("anchor", "hamt walks", "", nil, "no recursive walk by hash bits found in package hamt")
		return
	}
	isCore := map[*ssa.Function]bool{}
	for _, k := range cores {
		isCore[k] = true
	}
	stopBits := func(g *ssa.Function, d int) bool { return takesBits(g) || fnName(g) == "hamt.NewHamtFromDag" }
	for _, fn := range cores {
		fn := fn
		name := fnName(fn)
		pd, ph, pk, pv := c.param(fn, "*hamt.Shard"), c.param(fn, "*hamt.hashBits"), c.param(fn, "string"), c.param(fn, "*ipld.Link")
		c.Run(fn, Config{Stop: stopBits}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			ds, hv, key := t.Args[pd], t.Args[ph], t.Args[pk]
			sl := c.slotOf(t, f, ds, hv)
			if sl == nil {
				c.Ob("one-slot-per-level", name, t.Failed(), t.pos(nil), t, "a level of the walk does not take its slot from the hash exactly once")
				return
			}
			lg2 := in.fieldVal(before(t, sl.next), ds, f.lg2)
			c.Ob("bits-per-level", name, same(sl.next.Args[1], lg2), t.pos(sl.next), t, "a level takes %s bits of the hash, not its table's %s", short(sl.next.Args[1]), short(lg2))
			// every bitmap operation of this shard is about that slot
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "bitfield.Bitfield.") && len(e.Args) == 2 && same(e.Args[0], sl.bit.Args[0]) {
					c.Ob("slot-used", name, same(e.Args[1], sl.idx), t.pos(e), t, "slot %s is used where the hash gives %s", short(e.Args[1]), short(sl.idx))
				}
			}
			ch := in.fieldVal(&sl.next.S, ds, f.childer)
			// the entry found in the slot
			isChild := func(x *Term, s *snap) bool {
				kids := in.fieldVal(&sl.next.S, ch, f.children)
				if x.Op == "load" && x.Args[0].Op == "indexaddr" && same(x.Args[0].Args[0], kids) {
					return same(x.Args[0].Args[1], sl.rank) || in.eqKnown(s, x.Args[0].Args[1], sl.rank)
				}
				// loaded on this path and stored at that position
				v := in.load(s, in.indexAddr(kids, sl.rank, nil), nil)
				return same(v, x) && v.Op != "load"
			}
			var child *Term
			recs := []*Event{}
			var forked *Term
			for _, e := range t.Events {
				if e.Kind != "call" || e.Callee == nil || !isCore[e.Callee] {
					continue
				}
				recs = append(recs, e)
			}
			for _, e := range recs {
				ep := fnParams(c, e.Callee)
				r := e.Args[ep.d]
				if r.Op == "alloc" && !isChild(r, before(t, e)) {
					forked = r
				} else {
					child = r
				}
			}
			if forked == nil {
				c.Ob("one-descent", name, len(recs) <= 1, t.pos(sl.next), t, "the walk descends more than once from one level")
				for _, e := range recs {
					ep := fnParams(c, e.Callee)
					c.Ob("descends-into-slot", name, e.Callee == fn && isChild(e.Args[ep.d], before(t, e)), t.pos(e), t, "the walk goes on in %s, not in the child of the slot", short(e.Args[ep.d]))
					ok := same(e.Args[ep.h], hv) && same(e.Args[ep.k], key)
					if pv >= 0 {
						ok = ok && same(e.Args[ep.v], t.Args[pv])
					}
					c.Ob("same-request-below", name, ok, t.pos(e), t, "the walk goes on with another hash state, name or value (%s)", short(e.Args))
					k := in.fieldVal(before(t, e), e.Args[ep.d], f.key)
					v := in.fieldVal(before(t, e), e.Args[ep.d], f.val)
					if k == nil || v == nil {
						c.Ob("descends-into-shards-only", name, false, t.pos(e), t, "the walk goes on in %s, which is not an entry of this package", short(e.Args[ep.d]))
						continue
					}
					isV := !in.holds(before(t, e), in.eq(k, in.TS.constant(strConst(""), types.Typ[types.String]))) && !in.holds(before(t, e), in.eq(v, in.TS.nil_()))
					c.Ob("descends-into-shards-only", name, !isV, t.pos(e), t, "the walk may descend into a value entry")
				}
			}
			if forked != nil {
				// collision: both entries go into one new shard
				c.Ob("fork-occupied", name, sl.known && sl.occupied, t.pos(recs[0]), t, "a shard is forked for a slot not known to be occupied")
				w := in.fieldVal(before(t, recs[0]), forked, f.size)
				c.Ob("fork-width", name, same(w, in.fieldVal(before(t, recs[0]), ds, f.size)), t.pos(recs[0]), t, "the new shard has width %s, not its parent's", short(w))
				reached := in.load(before(t, recs[0]), in.fieldAddr(hv, hcons, nil), tint)
				var newIn, oldIn bool
				for _, e := range recs {
					ep := fnParams(c, e.Callee)
					if !same(e.Args[ep.d], forked) {
						c.Ob("fork-one-shard", name, false, t.pos(e), t, "colliding entries are inserted into different shards")
						continue
					}
					if same(e.Args[ep.k], key) && same(e.Args[ep.h], hv) && pv >= 0 && same(e.Args[ep.v], t.Args[pv]) {
						newIn = true
						continue
					}
					k := e.Args[ep.k]
					okE := k.Op == "load" && k.Args[0].Op == "fieldaddr" && k.Args[0].Sym == f.key || true
					own := k
					var entry *Term
					if own.Op == "load" && own.Args[0].Op == "fieldaddr" {
						entry = own.Args[0].Args[0]
					} else {
						// entry created on this path from its link
						kids := in.fieldVal(&sl.next.S, ch, f.children)
						entry = in.load(before(t, recs[0]), in.indexAddr(kids, sl.rank, nil), nil)
						okE = entry.Op == "alloc" && same(in.fieldVal(before(t, recs[0]), entry, f.key), k)
					}
					okE = okE && entry != nil && isChild(entry, before(t, recs[0]))
					var ev *Term
					if entry != nil && entry.Typ != nil {
						ev = in.fieldVal(before(t, recs[0]), entry, f.val)
					}
					c.Ob("fork-keeps-old", name, okE && ev != nil && same(e.Args[ep.v], ev), t.pos(e), t, "the entry re-inserted below is not the one found in the slot under its own name and link (%s)", short(e.Args))
					h2 := e.Args[ep.h]
					hbv := in.load(before(t, e), in.fieldAddr(h2, hb, nil), nil)
					hcv := in.load(before(t, e), in.fieldAddr(h2, hcons, nil), tint)
					c.Ob("fork-old-hash", name, hashOf(hbv, k), t.pos(e), t, "the old entry is re-inserted by %s, not by the hash of its own name", short(hbv))
					c.Ob("fork-old-position", name, same(hcv, reached) && reached != nil, t.pos(e), t, "the old entry is re-inserted from bit position %s, not from %s", short(hcv), short(reached))
					oldIn = true
				}
				if !t.Failed() {
					c.Ob("fork-both", name, newIn && oldIn && len(recs) == 2, t.pos(recs[0]), t, "a collision does not re-insert both entries exactly once")
					kids := in.fieldVal(&t.S, ch, f.children)
					v := in.load(&t.S, in.indexAddr(kids, sl.rank, nil), nil)
					c.Ob("fork-installed", name, same(v, forked), t.pos(recs[0]), t, "after a collision the slot holds %s, not the new shard", short(v))
				}
				child = nil
			}
			_ = child
			// full-name match before an entry is used
			uses := func(e *Event) (*Term, string) {
				if e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == f.val && e.Addr.Args[0].Op != "alloc" {
					return e.Addr.Args[0], "replaced"
				}
				if e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == f.val && isChild(e.Addr.Args[0], before(t, e)) {
					return e.Addr.Args[0], "replaced"
				}
				if e.Kind == "call" && e.Name == "dyn" && len(e.Args) > 0 {
					return e.Args[0], "handed out"
				}
				return nil, ""
			}
			keyKnown := func(s *snap, x *Term) bool {
				k := in.fieldVal(s, x, f.key)
				return k != nil && in.holds(s, in.eq(k, key))
			}
			// the name of an entry loaded here is what follows the slot number
			// in its link
			linkNamed := func(s *snap, x *Term) bool {
				if x.Op != "alloc" {
					return true
				}
				lk := in.load(&sl.next.S, in.indexAddr(in.fieldVal(&sl.next.S, ch, f.links), sl.rank, nil), nil)
				k := in.fieldVal(s, x, f.key)
				if k == nil || lk == nil {
					return false
				}
				nm := in.fieldVal(&sl.next.S, lk, "Name")
				back := in.fieldVal(s, in.fieldVal(s, ds, f.childer), f.sd)
				return in.tail(k, nm, in.fieldVal(s, ds, f.pad)) || back != nil && in.tail(k, nm, in.fieldVal(s, back, f.pad))
			}
			for _, e := range t.Events {
				x, what := uses(e)
				if x == nil {
					if e.Kind == "call" && e.Name == "bitfield.Bitfield.UnsetBit" && len(recs) == 0 {
						kids := in.fieldVal(&sl.next.S, ch, f.children)
						x, what = in.load(before(t, e), in.indexAddr(kids, sl.rank, nil), in.W.ptrTo("hamt", "Shard")), "removed"
						if x.Op != "load" {
							// loaded on this path
						}
						// the slot may have been shifted already: look it up before the edit
						ok := false
						for _, p := range t.Events[:e.Idx] {
							if p.Kind == "branch" {
								y := in.load(&p.S, in.indexAddr(kids, sl.rank, nil), in.W.ptrTo("hamt", "Shard"))
								if keyKnown(&e.S, y) {
									ok = true
									c.Ob("loaded-name", name+" removed", linkNamed(&e.S, y), t.pos(e), t, "the name of an entry loaded from its link is %s, not what follows the slot number in the link's name", short(in.fieldVal(&e.S, y, f.key)))
								}
							}
						}
						c.Ob("full-name-match", name+" removed", ok, t.pos(e), t, "an entry is removed without its full name being known to be the requested one")
					}
					continue
				}
				if x.Typ == nil || types.TypeString(x.Typ, shortQual) != "*hamt.Shard" {
					continue
				}
				c.Ob("full-name-match", name+" "+what, isChild(x, before(t, e)) && keyKnown(before(t, e), x), t.pos(e), t, "an entry is %s without its full name being known to be the requested one", what)
				c.Ob("loaded-name", name+" "+what, linkNamed(before(t, e), x), t.pos(e), t, "the name of an entry loaded from its link is %s, not what follows the slot number in the link's name", short(in.fieldVal(before(t, e), x, f.key)))
				if what == "replaced" && pv >= 0 {
					c.Ob("replaced-by-value", name, same(e.Val, t.Args[pv]), t.pos(e), t, "an entry is replaced by %s, not by the given link", short(e.Val))
				}
			}
			// insertion of a new entry in a clear slot
			if pv >= 0 && sl.known && !sl.occupied && !t.Failed() {
				val := t.Args[pv]
				kids := in.fieldVal(&t.S, ch, f.children)
				q := in.replay(t.Events)
				ok := false
				for _, g := range q.norm(q.content(kids)) {
					if g.el != nil && g.el.Op == "alloc" {
						ok = same(in.fieldVal(&t.S, g.el, f.key), key) && same(in.fieldVal(&t.S, g.el, f.val), val)
					}
				}
				c.Ob("inserted-entry", name, ok, t.pos(sl.next), t, "the entry inserted does not carry the given name and link")
				nm := in.load(&t.S, in.fieldAddr(val, "Name", nil), types.Typ[types.String])
				c.Ob("inserted-name", name, c.slotName(in, &t.S, ds, f, nm, sl.idx, key), t.pos(sl.next), t, "the inserted link is named %s, not by its slot and name", short(nm))
			}
		})
	}
	// operations enter the walk with their own name's hash at position zero
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "hamt" || !exported(fn) || fn.Signature.Recv() == nil || c.param(fn, "string") < 0 || c.param(fn, "*hamt.Shard") != 0 {
			continue
		}
		name := fnName(fn)
		pk := c.param(fn, "string")
		c.Run(fn, Config{Stop: func(g *ssa.Function, d int) bool { return isCore[g] }}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			n := 0
			for _, e := range t.Events {
				if e.Kind != "call" || e.Callee == nil || !isCore[e.Callee] {
					continue
				}
				n++
				ep := fnParams(c, e.Callee)
				c.Ob("enters-own-root", name, same(e.Args[ep.d], t.Args[0]), t.pos(e), t, "the walk starts at %s, not at this shard", short(e.Args[ep.d]))
				c.Ob("enters-own-name", name, same(e.Args[ep.k], t.Args[pk]), t.pos(e), t, "the walk looks for %s, not for the given name", short(e.Args[ep.k]))
				hbv := in.load(before(t, e), in.fieldAddr(e.Args[ep.h], hb, nil), nil)
				hcv := in.load(before(t, e), in.fieldAddr(e.Args[ep.h], hcons, nil), tint)
				z, isC := hcv.Int()
				c.Ob("enters-own-hash", name, hashOf(hbv, t.Args[pk]) && isC && z == 0, t.pos(e), t, "the walk uses %s from position %s, not the hash of the given name from the start", short(hbv), short(hcv))
			}
			if !t.Failed() {
				c.Ob("one-walk", name, n == 1, t.pos(nil), t, "the operation succeeds with %d walks instead of one", n)
			}
		})
	}
	c.Min("enters-own-hash", 2)
	c.Min("full-name-match", 2)
	c.ruleNextBits(hb, hcons)
	c.ruleHashFunction()
	c.ruleShardNode(f)
}

type coreParams struct{ d, h, k, v int }

func fnParams(c *Checker, fn *ssa.Function) coreParams {
	return coreParams{c.param(fn, "*hamt.Shard"), c.param(fn, "*hamt.hashBits"), c.param(fn, "string"), c.param(fn, "*ipld.Link")}
}

// slotName: nm is the fixed-width hexadecimal number of slot idx followed by label.
func (c *Checker) slotName(in *Interp, s *snap, ds *Term, f hf, nm, idx, label *Term) bool {
	pre, rest := nm, (*Term)(nil)
	// a field of this shard, reached directly or by its table's back pointer
	own := func(x *Term, fld string) bool {
		back := in.fieldVal(s, in.fieldVal(s, ds, f.childer), f.sd)
		return same(x, in.fieldVal(s, ds, fld)) || back != nil && same(x, in.fieldVal(s, back, fld))
	}
	if nm.Op == "bin" && nm.Sym == "+" {
		pre, rest = nm.Args[0], nm.Args[1]
	} else if nm.Op == "pure" && nm.Sym == "fmt.Sprintf" {
		// Sprintf(prefixfmt+"%s", idx, label)
		if x := nm.Args[0]; x.Op == "bin" && x.Sym == "+" && len(nm.Args[1].Args) == 2 {
			if sfx, ok := x.Args[1].Str(); ok && sfx == "%s" {
				return own(x.Args[0], f.fmt) && same(nm.Args[1].Args[0], idx) && same(nm.Args[1].Args[1], label)
			}
		}
	}
	if rest == nil {
		if z, ok := label.Str(); !(ok && z == "") {
			return false
		}
	} else if !same(rest, label) {
		return false
	}
	if pre.Op != "pure" || !strings.HasPrefix(pre.Sym, "fmt.Sprintf") {
		return false
	}
	a := pre.Args[1].Args
	if own(pre.Args[0], f.fmt) && len(a) == 1 {
		return same(a[0], idx)
	}
	if fs, ok := pre.Args[0].Str(); ok && fs == "%0*X" && len(a) == 2 {
		return own(a[0], f.pad) && same(a[1], idx)
	}
	return false
}

// ruleNextBits evaluates the bit extraction for every position and width.
func (c *Checker) ruleNextBits(hb, hcons string) {
	tint := types.Typ[types.Int]
	var next *ssa.Function
	for _, fn := range c.W.Fns {
		if c.W.production(fn) && takesBits(fn) {
			next = fn
		}
	}
	if next == nil {
		c.Fail("anchor", "hash bits", "", nil, "no method taking the next bits of a hash found")
		return
	}
	name := fnName(next)
	for cons := int64(0); cons < 16; cons++ {
		for n := int64(1); n <= 10; n++ {
			cfg := Config{ExactLoop: true, AllowRec: 12, MaxVisits: 70, MaxDepth: 40, Arith: true}
			in := NewInterp(c.W, cfg)
			hv := in.TS.mk("param", "hb", next.Params[0].Type())
			var s snap
			a := in.fieldAddr(hv, hcons, types.NewPointer(tint))
			s.heap = s.heap.set(a.UID, in.TS.integer(cons))
			s.addrs = s.addrs.set(a.UID, a)
			arr := in.load(&snap{}, in.fieldAddr(hv, hb, nil), nil)
			cons2 := fmt.Sprintf("%s(position %d, %d bits)", name, cons, n)
			okSeen := false
			in.RunFrom(s, next, []*Term{hv, in.TS.integer(n)}, nil, func(t *Trace) {
				if t.Outcome != "return" {
					return
				}
				bits := in.bin(token.MUL, in.lenOf(arr), in.TS.integer(8), tint)
				if t.Failed() {
					c.Ob("too-deep-only", cons2, in.Prove(&t.S, bits, "<", in.TS.integer(cons+n)), t.pos(nil), t, "taking bits fails although they may be there")
					return
				}
				okSeen = true
				c.Ob("enough-bits", cons2, in.Prove(&t.S, in.TS.integer(cons+n), "<=", bits), t.pos(nil), t, "bits are taken although the hash may have run out")
				after, isC := in.load(&t.S, a, tint).Int()
				c.Ob("position-advances", cons2, isC && after == cons+n, t.pos(nil), t, "after taking %d bits at position %d the position is %d", n, cons, after)
				v := bitsOf(t.Rets[0], arr)
				ok := true
				for j := int64(0); j < 64; j++ {
					w := bitv{k: '0'}
					if j < n {
						p := cons + n - 1 - j
						w = bitv{'b', p / 8, 7 - p%8}
					}
					ok = ok && v[j] == w
				}
				c.Ob("right-bits", cons2, ok, t.pos(nil), t, "taking %d bits at position %d gives %s, not those bits in order", n, cons, short(t.Rets[0]))
			})
			c.account(in)
			c.Ob("evaluated", cons2, okSeen && !in.Stats.Truncated, c.W.Pos(next.Pos()), nil, "the bit extraction has no path returning bits here")
		}
	}
	c.entries[name] = true
}

// ruleHashFunction: the hash hook is only ever set to murmur3.
func (c *Checker) ruleHashFunction() {
	n := 0
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() != "HAMTHashFunction" {
					continue
				}
				n++
				h, ok := st.Val.(*ssa.Function)
				if !c.Ob("hash-hook", fnName(fn), ok, c.W.Pos(st.Pos()), nil, "the directory hash function is set to something that is not a fixed function") {
					continue
				}
				c.Run(h, Config{}, func(t *Trace) {
					if t.Outcome != "return" {
						return
					}
					in := t.In
					var ws []*Event
					var sum *Event
					for _, e := range t.Events {
						if e.Kind != "call" {
							continue
						}
						if strings.HasSuffix(e.Name, ".Write") {
							ws = append(ws, e)
						}
						if strings.HasSuffix(e.Name, ".Sum") {
							sum = e
						}
					}
					ok := false
					if sum != nil && len(ws) == 1 {
						h := sum.Args[0]
						ok = same(ws[0].Args[0], h) && same(ws[0].Args[1], t.Args[0]) && ws[0].Idx < sum.Idx && same(t.Rets[0], in.resOf(sum, 0)) && strings.HasPrefix(h.Sym, "murmur3.New64") && (sum.Args[1].isNil() || sum.Args[1].Op == "lit" && len(sum.Args[1].Args) == 0)
					}
					c.Ob("murmur3", fnName(h), ok, t.pos(nil), t, "the directory hash is not the 64-bit murmur3 of exactly the given bytes")
				})
			}
		}
	}
	c.Ob("hash-hook-set", "hamt", n == 1, "", nil, "the directory hash function is set at %d places", n)
}

// ruleShardNode: serialisation names and order.
func (c *Checker) ruleShardNode(f hf) {
	name := "hamt.Shard.Node"
	tint := types.Typ[types.Int]
	c.Run(c.Fn(name), Config{ExactLoop: true, MaxVisits: 4, Stop: stopNames("unixfs.HAMTShardData", "hamt.Shard.Link")}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		in, ds := t.In, t.Args[0]
		s0 := &snap{}
		ch := in.fieldVal(s0, ds, f.childer)
		bm := in.fieldVal(s0, ch, f.bits)
		kids, lks := in.fieldVal(s0, ch, f.children), in.fieldVal(s0, ch, f.links)
		// slots known occupied / clear, in the order asked
		adds := t.calls("dag.ProtoNode.AddRawLink", "dag.ProtoNode.AddNodeLink")
		k := int64(0)
		ai := 0
		var last int64 = -1
		for _, e := range t.Events {
			if e.Kind != "branch" {
				continue
			}
			cd, v := e.Cond, e.Taken
			for cd.Op == "not" {
				cd, v = cd.Args[0], !v
			}
			if cd.Op != "pure" || !strings.HasPrefix(cd.Sym, "bitfield.Bitfield.Bit") || !same(cd.Args[0], bm) {
				continue
			}
			ix, isC := cd.Args[1].Int()
			if !c.Ob("slots-in-order", name, isC && ix == last+1, t.pos(e), t, "slots are not visited one after the other from zero (slot %s after %d)", short(cd.Args[1]), last) {
				return
			}
			last = ix
			if !v {
				continue
			}
			if !c.Ob("every-slot-linked", name, ai < len(adds), t.pos(e), t, "an occupied slot is left out of the node") {
				return
			}
			a := adds[ai]
			ai++
			rank := in.TS.mk("pure", "bitfield.Bitfield.OnesBefore", tint, bm, cd.Args[1])
			pos := in.TS.integer(k)
			at := func(arr *Term, typ types.Type) []*Term {
				return []*Term{in.load(s0, in.indexAddr(arr, pos, nil), typ), in.load(s0, in.indexAddr(arr, rank, nil), typ)}
			}
			k++
			okL := false
			var label *Term
			for _, kid := range at(kids, in.W.ptrTo("hamt", "Shard")) {
				// the loaded child's own link
				for _, l := range t.calls("hamt.Shard.Link") {
					if same(l.Args[0], kid) && same(a.Args[2], in.resOf(l, 0)) && l.Idx < a.Idx {
						okL = true
						label = in.fieldVal(before(t, a), kid, f.key)
						if k0 := in.fieldVal(before(t, l), kid, f.key); !c.slotName(in, before(t, a), ds, f, a.Args[1], cd.Args[1], label) {
							label = k0
						}
					}
				}
			}
			for _, l := range at(lks, nil) {
				if same(a.Args[2], l) {
					// only when there is no loaded child
					for _, kid := range at(kids, in.W.ptrTo("hamt", "Shard")) {
						if n, kn := in.isNilKnown(before(t, a), kid); kn && n {
							okL = true
						}
					}
					nm := in.load(before(t, a), in.fieldAddr(l, "Name", nil), types.Typ[types.String])
					label = in.slice(nm, in.fieldVal(before(t, a), ds, f.pad), nil, nm.Typ)
				}
			}
			c.Ob("slot-link", name, okL, t.pos(a), t, "slot %d is stored with link %s, not with the link or loaded child of its position", ix, short(a.Args[2]))
			if label != nil {
				c.Ob("slot-name", name, c.slotName(in, before(t, a), ds, f, a.Args[1], cd.Args[1], label), t.pos(a), t, "slot %d is stored under name %s, not its number and entry name", ix, short(a.Args[1]))
			}
		}
		c.Ob("only-slots-linked", name, ai == len(adds), t.pos(nil), t, "the node has links that belong to no slot")
		size := in.fieldVal(s0, ds, f.size)
		c.Ob("all-slots", name, in.Prove(&t.S, size, "<=", in.TS.integer(last+1)), t.pos(nil), t, "serialisation stops after slot %d without the table being known to end there", last)
		hd := t.calls("unixfs.HAMTShardData")
		if c.Ob("shard-data", name, len(hd) == 1, t.pos(nil), t, "the node's data is not made by one HAMTShardData call") {
			a := hd[0].Args
			bb := in.TS.mk("pure", "bitfield.Bitfield.Bytes", nil, bm)
			h, okH := a[2].Int()
			okH = okH && h == hamtMurmur || same(a[2], in.fieldVal(s0, ds, f.hash))
			c.Ob("shard-data-fields", name, same(a[0], bb) && same(a[1], in.convert(size, types.Typ[types.Uint64])) && okH, t.pos(hd[0]), t, "the stored bitmap, width or hash id is not the shard's (%s)", short(a))
			nd := t.Rets[0]
			c.Ob("shard-data-stored", name, same(in.vfieldSnap(&t.S, nd, "Data"), in.resOf(hd[0], 0)), t.pos(hd[0]), t, "the node returned does not carry the shard's data")
			for _, a := range adds {
				c.Ob("links-in-node", name, same(a.Args[0], nd), t.pos(a), t, "a link is added to another node than the one returned")
			}
		}
	})
	c.Min("slot-name", 1)
	c.Min("slot-link", 1)
	// the format and width used
	c.Run(c.Fn("hamt.NewShard"), Config{}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		in, sh := t.In, t.Rets[0]
		if sh.Op != "alloc" {
			return
		}
		size := in.fieldVal(&t.S, sh, f.size)
		pad := in.fieldVal(&t.S, sh, f.pad)
		if back := in.fieldVal(&t.S, in.fieldVal(&t.S, sh, f.childer), f.sd); back != nil {
			c.Ob("back-pointer", "hamt.NewShard", same(back, sh), t.pos(nil), t, "the new shard's table belongs to %s", short(back))
		}
		ok := false
		if pad.Op == "pure" && pad.Sym == "len" {
			x := pad.Args[0]
			if x.Op == "pure" && x.Sym == "fmt.Sprintf" && len(x.Args[1].Args) == 1 {
				fs, _ := x.Args[0].Str()
				ok = (fs == "%X" || fs == "%x") && linEqual(x.Args[1].Args[0], in.bin(token.SUB, size, in.TS.integer(1), tint))
			}
			if x.Op == "pure" && x.Sym == "strconv.FormatInt" {
				b, _ := x.Args[1].Int()
				ok = b == 16 && linEqual(x.Args[0], in.bin(token.SUB, size, in.TS.integer(1), tint))
			}
		}
		c.Ob("prefix-width", "hamt.NewShard", ok, t.pos(nil), t, "the slot number width is %s, not that of the largest slot number in hexadecimal", short(pad))
		pf := in.fieldVal(&t.S, sh, f.fmt)
		ok = false
		if pf != nil && pf.Op == "pure" && pf.Sym == "fmt.Sprintf" && len(pf.Args[1].Args) == 1 {
			fs, _ := pf.Args[0].Str()
			ok = fs == "%%0%dX" && same(pf.Args[1].Args[0], pad)
		}
		c.Ob("prefix-format", "hamt.NewShard", ok || pf == nil, t.pos(nil), t, "the slot number format is %s, not upper-case hexadecimal padded to the width", short(pf))
		c.Ob("new-shard-width", "hamt.NewShard", same(size, t.Args[1]), t.pos(nil), t, "the new shard's width is %s, not the given one", short(size))
	})
	c.Min("prefix-width", 1)
}

func (in *Interp) vfieldSnap(s *snap, node *Term, f string) *Term {
	a := in.TS.mk("fieldaddr", "$"+f, nil, node)
	if v, ok := s.heap.get(a.UID); ok {
		return v
	}
	return in.TS.mk("pure", f, nil, node)
}

// ptrTo is the type *pkg.name.
func (w *World) ptrTo(pkg, name string) types.Type {
	return types.NewPointer(w.Named(pkg, name))
}
