package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ruleC14: pruning and collapsing.
func ruleC14(c *Checker) {
	c.explain = "Case analysis of the recursive removal walk: on every abstract path on which an entry was removed from a sub-shard and the removal is reported as done, the path must know whether the sub-shard has no, one or more entries left; with none the slot is cleared, with a single plain entry (known by its name length when not loaded, by being a value node when loaded) the slot holds that entry, and otherwise the slot is untouched. A path that does not find the name returns exactly the does-not-exist error and edits nothing. Insertions never clear slots. The old value is passed up unchanged, and the exported removals and lookups pass the walk's error on."
	c.Assume("HAMT entry names are not empty")
	f := c.hamtFields()
	cores := c.hamtCores()
	if len(cores) == 0 {
		c.Fail("anchor", "hamt walks", "", nil, "no recursive walk by hash bits found in package hamt")
		return
	}
	isCore := map[*ssa.Function]bool{}
	for _, k := range cores {
		isCore[k] = true
	}
	stop := func(g *ssa.Function, d int) bool { return takesBits(g) || fnName(g) == "hamt.NewHamtFromDag" }
	for _, fn := range cores {
		fn := fn
		name := fnName(fn)
		pd, ph, pk, pv := c.param(fn, "*hamt.Shard"), c.param(fn, "*hamt.hashBits"), c.param(fn, "string"), c.param(fn, "*ipld.Link")
		c.Run(fn, Config{Stop: stop, Arith: true}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			ds, key := t.Args[pd], t.Args[pk]
			sl := c.slotOf(t, f, ds, t.Args[ph])
			if sl == nil || callFailedEv(t, sl.next) {
				return
			}
			removing := pv < 0
			if pv >= 0 {
				n, kn := in.isNilKnown(&t.S, t.Args[pv])
				if !kn {
					// a path that never asks: it must not depend on it
					n = false
				}
				removing = kn && n
			}
			// edits of this shard's table
			ch0 := in.fieldVal(&sl.next.S, ds, f.childer)
			var unset []*Event
			for _, e := range t.Events {
				if e.Kind == "call" && e.Name == "bitfield.Bitfield.UnsetBit" && same(e.Args[0], sl.bit.Args[0]) {
					unset = append(unset, e)
				}
			}
			kids0, lks0 := in.fieldVal(&sl.next.S, ch0, f.children), in.fieldVal(&sl.next.S, ch0, f.links)
			at := func(s *snap, arr, i *Term, typ types.Type) *Term { return in.load(s, in.indexAddr(arr, i, nil), typ) }
			pS, pL := c.W.ptrTo("hamt", "Shard"), types.Type(nil)
			if pv >= 0 {
				pL = fn.Params[pv].Type()
			}
			var rec *Event
			nrec := 0
			for _, e := range t.Events {
				if e.Kind == "call" && e.Callee == fn && fnParams(c, fn).k >= 0 && same(e.Args[pk], key) && same(e.Args[ph], t.Args[ph]) {
					rec = e
					nrec++
				}
			}
			if pv < 0 {
				// lookup: it ends with the entry, the lower level's answer or the exact error
				if nrec == 1 {
					c.Ob("answer-passed-up", name, t.Failed() == t.NonNil(in.errOf(rec)) || same(t.ErrRet(), in.errOf(rec)), t.pos(rec), t, "the answer of the level below is not passed on")
					return
				}
				found := false
				for _, e := range t.Events {
					found = found || e.Kind == "call" && e.Name == "dyn"
				}
				if found {
					return
				}
				if c.Ob("missing-is-error", name, t.Failed(), t.pos(nil), t, "a lookup that finds nothing succeeds") && !callFailed(t) {
					c.missing(t, f, name, sl, "lookup")
				}
				return
			}
			if !removing {
				c.Ob("insert-clears-nothing", name, len(unset) == 0, t.pos(nil), t, "setting an entry clears a slot")
				return
			}
			if nrec == 0 {
				if !t.Failed() {
					c.Ob("removed-slot", name, len(unset) == 1 && same(unset[0].Args[1], sl.idx), t.pos(nil), t, "a removal succeeds at this level without clearing exactly its slot")
					// the value handed back is the removed entry's
					old, named := false, false
					for _, e := range t.Events {
						if e.Kind != "branch" {
							continue
						}
						x := at(&e.S, kids0, sl.rank, pS)
						if same(t.Rets[0], in.fieldVal(&e.S, x, f.val)) {
							old = true
							if k := in.fieldVal(&e.S, x, f.key); k != nil && in.holds(&t.S, in.eq(k, key)) {
								named = true
							}
						}
					}
					c.Ob("removed-entry-named", name, !old || named, t.pos(unset0(unset)), t, "an entry is removed without its full name being known to be the requested one")
					c.Ob("old-value", name, old, t.pos(nil), t, "the value returned is %s, not the removed entry's", short(t.Rets[0]))
					return
				}
				c.Ob("failed-removal-clears-nothing", name, len(unset) == 0 || callFailed(t), t.pos(nil), t, "a failing removal clears a slot")
				if !callFailed(t) {
					c.missing(t, f, name, sl, "removal")
				}
				return
			}
			if callFailedEv(t, rec) {
				c.Ob("failed-below", name, t.Failed() && len(unset) == 0, t.pos(rec), t, "a removal that failed below is not passed on unchanged")
				if t.Failed() {
					c.Ob("failed-below-error", name, same(t.ErrRet(), in.errOf(rec)), t.pos(rec), t, "the error of the level below is replaced by %s", short(t.ErrRet()))
				}
				return
			}
			child, aft := rec.Args[pd], after(t, rec)
			sub := in.fieldVal(aft, child, f.childer)
			sk, slk := in.fieldVal(aft, sub, f.children), in.fieldVal(aft, sub, f.links)
			left := in.lenOf(sk)
			z, one := in.TS.integer(0), in.TS.integer(1)
			if t.Failed() {
				// a link whose name is too short to classify
				nm := in.load(aft, in.fieldAddr(at(aft, slk, z, pL), "Name", nil), types.Typ[types.String])
				bad := false
				for _, o := range []*Term{ds, child, in.fieldVal(&t.S, sub, f.sd)} {
					bad = bad || o != nil && in.Prove(&t.S, in.lenOf(nm), "<", in.fieldVal(aft, o, f.pad))
				}
				c.Ob("done-below-is-done", name, bad || callFailed(t) || t.posErr(in, sl.rank, kids0), t.pos(rec), t, "a removal done below is reported as failed")
				return
			}
			c.Ob("old-value-up", name, same(t.Rets[0], in.resOf(rec, 0)), t.pos(rec), t, "the value returned is %s, not the one removed below", short(t.Rets[0]))
			is := func(n *Term) bool { return in.proveEq(&t.S, left, n) || in.eqKnown(&t.S, left, n) }
			isNot := func(n *Term) bool {
				v, k := in.decide(&t.S, in.eq(left, n))
				return k && !v || in.Prove(&t.S, n, "<", left)
			}
			kid, lnk := at(&t.S, kids0, sl.rank, pS), at(&t.S, lks0, sl.rank, pL)
			kidB, lnkB := at(aft, kids0, sl.rank, pS), at(aft, lks0, sl.rank, pL)
			untouched := len(unset) == 0 && same(kid, kidB) && same(lnk, lnkB) && same(in.fieldVal(&t.S, ch0, f.children), in.fieldVal(aft, ch0, f.children))
			switch {
			case is(z):
				c.Ob("empty-is-pruned", name, len(unset) == 1 && same(unset[0].Args[1], sl.idx) && unset[0].Idx > rec.Idx, t.pos(rec), t, "a sub-shard left empty is not removed from its parent")
			case is(one):
				c.Ob("single-not-pruned", name, len(unset) == 0, t.pos(rec), t, "a sub-shard with one entry left is removed from its parent")
				e, l := at(&t.S, sk, z, pS), at(&t.S, slk, z, pL)
				enil, ekn := in.isNilKnown(&t.S, e)
				if e.Op == "alloc" {
					enil, ekn = false, true
				}
				nm := in.load(aft, in.fieldAddr(at(aft, slk, z, pL), "Name", nil), types.Typ[types.String])
				var plain, shard bool
				if ekn && !enil {
					k, v := in.fieldVal(&t.S, e, f.key), in.fieldVal(&t.S, e, f.val)
					ke := in.eq(k, in.TS.constant(strConst(""), types.Typ[types.String]))
					ve := in.eq(v, in.TS.nil_())
					kv, k1 := in.decide(&t.S, ke)
					vv, k2 := in.decide(&t.S, ve)
					plain = k1 && !kv && (k2 && !vv) || e.Op == "alloc" && k2 && !vv
					shard = k1 && kv || k2 && vv
				}
				if !plain && !shard && !(ekn && !enil && e.Op != "alloc") {
					for _, o := range []*Term{ds, child, in.fieldVal(&t.S, sub, f.sd)} {
						if o == nil {
							continue
						}
						pad := in.fieldVal(aft, o, f.pad)
						pad2 := in.fieldVal(&t.S, o, f.pad)
						for _, p := range []*Term{pad, pad2} {
							plain = plain || in.Prove(&t.S, p, "<", in.lenOf(nm))
							// longer or equal, and not equal
							v, k := in.decide(&t.S, in.eq(in.lenOf(nm), p))
							if k && !v && in.Prove(&t.S, p, "<=", in.lenOf(nm)) {
								plain = true
							}
							shard = shard || k && v || in.proveEq(&t.S, in.lenOf(nm), p)
						}
					}
					if plain && !ekn {
						c.Ob("loaded-first", name, false, t.pos(rec), t, "the remaining entry's stored link is used without knowing that it is not loaded")
					}
				}
				collapsed := same(kid, e) && !(ekn && enil) || same(lnk, l) && ekn && enil && in.isNil(&t.S, kid)
				switch {
				case plain:
					c.Ob("single-is-collapsed", name, collapsed, t.pos(rec), t, "a sub-shard left with one plain entry is not replaced by it (slot holds %s / %s)", short(kid), short(lnk))
				case shard:
					c.Ob("single-shard-stays", name, untouched, t.pos(rec), t, "a sub-shard left with only another shard is replaced in its parent")
				default:
					c.Ob("single-classified", name, false, t.pos(rec), t, "a sub-shard left with one entry is handled without knowing whether that is a plain entry")
				}
			case isNot(z) && isNot(one):
				c.Ob("others-stay", name, untouched, t.pos(rec), t, "a sub-shard with more than one entry left is edited in its parent")
			default:
				c.Ob("remaining-known", name, false, t.pos(rec), t, "a removal succeeds without knowing how many entries the sub-shard has left")
			}
		})
	}
	c.Min("empty-is-pruned", 1)
	c.Min("single-is-collapsed", 1)
	c.Min("others-stay", 1)
	c.Min("missing-exact", 2)
	// the exported operations pass the walk's outcome on
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "hamt" || !exported(fn) || fn.Signature.Recv() == nil || c.param(fn, "string") < 0 || c.param(fn, "*hamt.Shard") != 0 {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{Stop: func(g *ssa.Function, d int) bool { return isCore[g] }}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			for _, e := range t.Events {
				if e.Kind != "call" || e.Callee == nil || !isCore[e.Callee] {
					continue
				}
				if !t.IsNil(in.errOf(e)) {
					c.Ob("error-passed-on", name, same(t.ErrRet(), in.errOf(e)), t.pos(e), t, "the walk's error is replaced by %s", short(t.ErrRet()))
				}
				pv := c.param(e.Callee, "*ipld.Link")
				n := len(t.Rets)
				if pv >= 0 && n == 2 && (!t.Failed() || !t.NonNil(in.errOf(e))) {
					c.Ob("old-value-out", name, same(t.Rets[0], in.resOf(e, 0)), t.pos(e), t, "the operation returns %s, not the previous link", short(t.Rets[0]))
				}
				if pv >= 0 {
					nn, kn := in.isNilKnown(before(t, e), e.Args[pv])
					if fn.Signature.Params().Len() == 2 {
						c.Ob("removal-removes", name, kn && nn, t.pos(e), t, "the removal passes a value to the walk")
					} else {
						isV := e.Args[pv].Op == "alloc" || kn && !nn
						if e.Args[pv].Op == "extract" {
							isV = isV || t.callOKTerm(in, e.Args[pv].Args[0])
						}
						c.Ob("set-sets", name, isV, t.pos(e), t, "the setting operation may pass no value to the walk, which removes the entry")
					}
				}
			}
		})
	}
	c.Min("error-passed-on", 1)
}

// missing: a path that did not find the name reports exactly that, without edits.
func (c *Checker) missing(t *Trace, f hf, name string, sl *slot, what string) {
	in := t.In
	e := t.ErrRet()
	// the position check of the table may also fail, and the slot's link may be unusable
	if e.Op != "sentinel" && (sl.known && sl.occupied) && !t.keyCompared() {
		return
	}
	ok := e.Op == "sentinel" && e.Sym == "os.ErrNotExist"
	c.Ob("missing-exact", name, ok, t.pos(nil), t, "a %s that finds nothing reports %s, not os.ErrNotExist", what, short(e))
	for _, ev := range t.Events {
		if ev.Kind == "call" && (ev.Name == "bitfield.Bitfield.UnsetBit" || ev.Name == "bitfield.Bitfield.SetBit") {
			c.Ob("missing-changes-nothing", name, false, t.pos(ev), t, "a %s that finds nothing changes the table", what)
		}
	}
	_ = in
}

// keyCompared: a string comparison decided this path.
func (t *Trace) keyCompared() bool {
	for _, e := range t.Events {
		if e.Kind != "branch" {
			continue
		}
		cd := e.Cond
		for cd.Op == "not" {
			cd = cd.Args[0]
		}
		if cd.Op == "eq" {
			for _, a := range cd.Args {
				if b, ok := a.Typ.(*types.Basic); ok && b.Info()&types.IsString != 0 && a.Op == "param" {
					return true
				}
			}
		}
	}
	return false
}

// posErr: the path fails because a position is known to be outside the table.
func (t *Trace) posErr(in *Interp, rank, arr *Term) bool {
	n := in.lenOf(arr)
	return in.Prove(&t.S, n, "<=", rank) || in.Prove(&t.S, rank, "<", in.TS.integer(0))
}

func callFailedEv(t *Trace, e *Event) bool {
	er := t.In.errOf(e)
	return er != nil && t.NonNil(er)
}

// callOKTerm: the call with this result is known to have succeeded.
func (t *Trace) callOKTerm(in *Interp, call *Term) bool {
	e := in.errOfTerm(call)
	return e != nil && t.IsNil(e)
}

func (in *Interp) isNil(s *snap, x *Term) bool {
	n, k := in.isNilKnown(s, x)
	return k && n || x.isNil()
}

// after is the state just after call event e.
func after(t *Trace, e *Event) *snap {
	if e.Idx+1 < len(t.Events) && (t.Events[e.Idx+1].Kind == "branch" || t.Events[e.Idx+1].Kind == "enter") {
		return &t.Events[e.Idx+1].S
	}
	return &t.S
}

func unset0(es []*Event) *Event {
	if len(es) == 0 {
		return nil
	}
	return es[0]
}
