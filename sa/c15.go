package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C15: what the enumerations of a directory deliver.

func init() {
	rules["C15"] = ruleDef{ruleC15}
}

type listing struct {
	c *Checker
	f hf
	k *conc
	// roles
	listers []*ssa.Function // list the entries and sub-shards of one shard
	walkers []*ssa.Function // pass every child to a callback
	getters []*ssa.Function // the child of a slot
}

func ruleC15(c *Checker) {
	c.explain = "Every enumeration is followed path by path. The function that lists one shard must, for each of its links in turn, hand the callback the entry (own CID and size, name without the slot prefix), or queue the sub-shard, according to what the slot is known to hold; workers walk every shard of a batch and every shard fetched for its CIDs and pass the results on; the dispatcher, explored over bounded histories of its select loop with counters evaluated exactly, sends everything it receives and ends only when nothing is outstanding; consumers report success only after the stream was closed and the context is known not to have ended; sequential walks pass every child, fetched by its own link, to the callback or descend into it."
	c.Assume("a DAG service delivers every node asked of GetMany or an error, unless the context ends")
	l := &listing{c: c, f: c.hamtFields(), k: newConc(c)}
	isShardRes := func(s *types.Signature) bool {
		return s.Results().Len() == 2 && types.TypeString(s.Results().At(0).Type(), shortQual) == "*hamt.Shard" && isErr(s.Results().At(1).Type())
	}
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "hamt" || fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		s := fn.Signature
		if c.param(fn, "func(*ipld.Link) error") >= 0 || c.param(fn, "func(formattedLink *ipld.Link) error") >= 0 || hasParamLike(fn, isLinkCallback) {
			if s.Results().Len() == 2 && isErr(s.Results().At(1).Type()) && queueFields(s.Results().At(0).Type()) != nil {
				l.listers = append(l.listers, fn)
			}
		}
		if hasParamLike(fn, isShardCallback) && c.param(fn, "string") < 0 && c.param(fn, "*hamt.hashBits") < 0 && s.Results().Len() == 1 && isErr(s.Results().At(0).Type()) {
			l.walkers = append(l.walkers, fn)
		}
		if isShardRes(s) && c.param(fn, "int") >= 0 && c.param(fn, "string") < 0 && s.Recv() != nil {
			l.getters = append(l.getters, fn)
		}
	}
	for _, fn := range l.listers {
		l.lister(fn)
	}
	for _, fn := range l.getters {
		l.getter(fn)
	}
	for _, fn := range l.walkers {
		l.walker(fn)
	}
	for _, fn := range l.k.roots {
		l.workers(fn)
		l.dispatcher(fn)
	}
	l.consumers()
	l.methods()
	c.Min("lists-all", 1)
	c.Min("child-of-slot", 1)
	c.Min("walks-all", 1)
	c.Min("worker-walks", 1)
	c.Min("dispatch-complete", 1)
	c.Min("listing-complete", 1)
	c.Min("layout-lists-all", 3)
}

func hasParamLike(fn *ssa.Function, like func(types.Type) bool) bool {
	for _, p := range fn.Params {
		if like(p.Type()) {
			return true
		}
	}
	return false
}

func callbackOf(t types.Type, arg string) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && types.TypeString(s.Params().At(0).Type(), shortQual) == arg && s.Results().Len() == 1 && isErr(s.Results().At(0).Type())
}
func isLinkCallback(t types.Type) bool  { return callbackOf(t, "*ipld.Link") }
func isShardCallback(t types.Type) bool { return callbackOf(t, "*hamt.Shard") }

// queueFields: the fields of a work list: CIDs to fetch and shards to walk.
func queueFields(t types.Type) []string {
	st, ok := isStruct(deref(t))
	if !ok {
		return nil
	}
	var cids, shards string
	for i := 0; i < st.NumFields(); i++ {
		switch types.TypeString(st.Field(i).Type(), shortQual) {
		case "[]cid.Cid":
			cids = st.Field(i).Name()
		case "[]*hamt.Shard":
			shards = st.Field(i).Name()
		}
	}
	if cids == "" || shards == "" {
		return nil
	}
	return []string{cids, shards}
}

// elems are the elements of a list built from literals and appends.
func elems(x *Term) []*Term {
	x = x.peel()
	switch x.Op {
	case "lit":
		return x.Args
	case "append":
		var out []*Term
		for _, a := range x.Args {
			out = append(out, elems(a)...)
		}
		return out
	}
	return nil
}

// elemOf finds the element of slice base that x was read from.
func elemOf(x, base *Term) (idx, elem *Term) {
	if x == nil {
		return nil, nil
	}
	x.containsF(func(y *Term) bool {
		if idx != nil {
			return true
		}
		if y.Op == "load" && y.Args[0].Op == "indexaddr" && same(y.Args[0].Args[0], base) {
			idx, elem = y.Args[0].Args[1], y
			return true
		}
		return false
	})
	return
}

// tail: x is s without its first n bytes.
func (in *Interp) tail(x, s, n *Term) bool {
	x = x.peel()
	return x.Op == "slice" && same(x.Args[0], s) && linEqual(x.Args[1], n) && linEqual(x.Args[2], in.lenOf(s))
}

// entryOf checks a link handed on for a slot of ds against the slot: its index, or what is wrong.
func (l *listing) entryOf(in *Interp, s *snap, ds, lnk *Term) (idx *Term, why string) {
	ch := in.fieldVal(s, ds, l.f.childer)
	links, children := in.fieldVal(s, ch, l.f.links), in.fieldVal(s, ch, l.f.children)
	cd, nm, sz := in.fieldVal(s, lnk, "Cid"), in.fieldVal(s, lnk, "Name"), in.fieldVal(s, lnk, "Size")
	if i, e := elemOf(cd, links); e != nil {
		own := in.fieldVal(s, e, "Name")
		pad := in.fieldVal(s, ds, l.f.pad)
		c := in.load(s, in.indexAddr(children, i, types.NewPointer(e.Typ)), l.shardType())
		switch {
		case !same(cd, in.fieldVal(s, e, "Cid")):
			return nil, "its CID is not the entry's"
		case !same(sz, in.fieldVal(s, e, "Size")):
			return nil, "its size is not the entry's"
		case !in.tail(nm, own, pad):
			return nil, "its name is not the entry's without the slot prefix"
		}
		if v, k := in.isNilKnown(s, c); !k || !v {
			return nil, "the slot may hold a loaded child that differs from its link"
		}
		if v, k := in.decide(s, in.eq(in.lenOf(own), pad)); !k || v {
			return nil, "the slot may be a sub-shard"
		}
		return i, ""
	}
	if i, e := elemOf(cd, children); e != nil {
		val := in.fieldVal(s, e, l.f.val)
		switch {
		case !same(cd, in.fieldVal(s, val, "Cid")):
			return nil, "its CID is not the entry's"
		case !same(sz, in.fieldVal(s, val, "Size")):
			return nil, "its size is not the entry's"
		case !same(nm, in.fieldVal(s, e, l.f.key)):
			return nil, "its name is not the entry's"
		}
		if v, k := in.isNilKnown(s, val); !k || v {
			return nil, "the child may be a sub-shard"
		}
		return i, ""
	}
	return nil, "it is not the entry of a slot"
}

func (l *listing) shardType() types.Type { return l.c.W.ptrTo("hamt", "Shard") }

// lister: each slot is handed on or queued, in order.
func (l *listing) lister(fn *ssa.Function) {
	c := l.c
	q := queueFields(fn.Signature.Results().At(0).Type())
	ai := c.param(fn, "*hamt.Shard")
	name := fnName(fn)
	c.Run(fn, Config{MaxVisits: 3, Stop: func(f *ssa.Function, d int) bool { return exported(f) || f == fn }}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		ds := t.Args[ai]
		if t.Failed() {
			return
		}
		ch := in.fieldVal(&snap{}, ds, l.f.childer)
		links, children := in.fieldVal(&snap{}, ch, l.f.links), in.fieldVal(&snap{}, ch, l.f.children)
		var idxs []*Term
		res := t.Rets[0].peel()
		qc, qs := elems(in.fieldVal(&t.S, res, q[0])), elems(in.fieldVal(&t.S, res, q[1]))
		nc, ns := 0, 0
		for _, e := range t.Events {
			switch {
			case e.Kind == "call" && e.Val != nil && e.Val.Op == "param" && isLinkCallback(e.Val.Typ):
				i, why := l.entryOf(in, &e.S, ds, e.Args[0])
				c.Ob("lists-all", name+" entry", why == "", t.pos(e), t, "%s hands on a link for an entry, but %s", name, why)
				if i != nil {
					idxs = append(idxs, i)
				}
			case e.Kind == "append" && len(e.Args) == 2 && e.Args[1].Op == "lit" && len(e.Args[1].Args) == 1:
				x := e.Args[1].Args[0]
				if i, el := elemOf(x, links); el != nil && same(x, in.fieldVal(&e.S, el, "Cid")) {
					nm := in.fieldVal(&e.S, el, "Name")
					v, k := in.decide(&e.S, in.eq(in.lenOf(nm), in.fieldVal(&e.S, ds, l.f.pad)))
					cv, ck := in.isNilKnown(&e.S, in.load(&e.S, in.indexAddr(children, i, types.NewPointer(el.Typ)), l.shardType()))
					c.Ob("lists-all", name+" sub-shard", k && v && ck && cv, t.pos(e), t, "%s queues a CID that need not be an unloaded sub-shard's", name)
					c.Ob("lists-all", name+" queued", nc < len(qc) && qc[nc] == x, t.pos(e), t, "%s loses a sub-shard to fetch", name)
					nc++
					idxs = append(idxs, i)
				} else if i, el := elemOf(x, children); el != nil && same(x, el) {
					v, k := in.isNilKnown(&e.S, in.fieldVal(&e.S, el, l.f.val))
					cv, ck := in.isNilKnown(&e.S, el)
					c.Ob("lists-all", name+" sub-shard", k && v && ck && !cv, t.pos(e), t, "%s queues a child that need not be a sub-shard", name)
					c.Ob("lists-all", name+" queued", ns < len(qs) && qs[ns] == x, t.pos(e), t, "%s loses a sub-shard", name)
					ns++
					idxs = append(idxs, i)
				}
			}
		}
		c.Ob("lists-all", name+" queued", nc == len(qc) && ns == len(qs), c.W.Pos(fn.Pos()), t, "%s queues sub-shards that are not its own", name)
		ok, why := in.covers(&t.S, idxs, in.lenOf(links))
		if !ok {
			ok, _ = in.covers(&t.S, idxs, in.lenOf(children))
		}
		c.Ob("lists-all", name, ok, c.W.Pos(fn.Pos()), t, "%s: not every slot is handed on or queued exactly once: %s", name, why)
	})
}

// getter: the child returned for a slot is the one kept, or the one its link describes.
func (l *listing) getter(fn *ssa.Function) {
	c := l.c
	name := fnName(fn)
	ip := c.param(fn, "int")
	c.Run(fn, Config{Stop: func(f *ssa.Function, d int) bool {
		return f != fn && (exported(f) || containsFn(l.getters, f))
	}}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		in := t.In
		recv := t.Args[0]
		s0 := &snap{}
		table, owner := recv, recv
		if types.TypeString(recv.Typ, shortQual) == "*hamt.Shard" {
			table = in.fieldVal(s0, recv, l.f.childer)
		} else {
			owner = in.fieldVal(s0, recv, l.f.sd)
		}
		links, children := in.fieldVal(s0, table, l.f.links), in.fieldVal(s0, table, l.f.children)
		i := t.Args[ip]
		r := t.Rets[0].peel()
		ok, why := false, "what it returns is not the child of the slot"
		if j, el := elemOf(r, children); el != nil && el == r && linEqual(j, i) {
			v, k := in.isNilKnown(&t.S, r)
			ok, why = k && !v, "the child of the slot may not be loaded"
		} else {
			for _, e := range t.Events {
				if e.Kind != "call" || in.resOf(e, 0) != r {
					continue
				}
				if e.Callee != nil && containsFn(l.getters, e.Callee) {
					ok = same(e.Args[0], recv) && linEqual(e.Args[c.param(e.Callee, "int")], i)
					why = "it returns the child of another slot"
				}
				if e.Name == "hamt.NewHamtFromDag" {
					nd := e.Args[1].peel()
					for _, g := range t.Events[:e.Idx] {
						if g.Kind != "call" || in.resOf(g, 0) == nil || in.resOf(g, 0).peel() != nd {
							continue
						}
						j, el := (*Term)(nil), (*Term)(nil)
						for _, a := range g.Args {
							if x, y := elemOf(a, links); y != nil {
								j, el = x, y
							}
						}
						if el == nil || !linEqual(j, i) {
							why = "the node is fetched by another slot's link"
							continue
						}
						v, k := in.decide(&t.S, in.eq(in.lenOf(in.fieldVal(s0, el, "Name")), in.fieldVal(s0, owner, l.f.pad)))
						ok, why = k && v, "the slot may be an entry"
					}
				}
			}
			if r.Op == "alloc" {
				val := in.fieldVal(&t.S, r, l.f.val)
				cd := in.fieldVal(&t.S, val, "Cid")
				if j, el := elemOf(cd, links); el != nil && linEqual(j, i) {
					nm := in.fieldVal(s0, el, "Name")
					pad := in.fieldVal(s0, owner, l.f.pad)
					v, k := in.decide(&t.S, in.eq(in.lenOf(nm), pad))
					ok = same(cd, in.fieldVal(s0, el, "Cid")) && same(in.fieldVal(&t.S, val, "Size"), in.fieldVal(s0, el, "Size")) &&
						in.tail(in.fieldVal(&t.S, r, l.f.key), nm, pad) && k && !v
					why = "the entry made for the slot is not the one its link describes"
				}
			}
		}
		c.Ob("child-of-slot", name, ok, c.W.Pos(fn.Pos()), t, "%s: %s", name, why)
	})
}

func containsFn(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if f == g {
			return true
		}
	}
	return false
}

// walker: every child is handed to the callback or descended into.
func (l *listing) walker(fn *ssa.Function) {
	c := l.c
	name := fnName(fn)
	cbi := -1
	for i, p := range fn.Params {
		if isShardCallback(p.Type()) {
			cbi = i
		}
	}
	c.Run(fn, Config{MaxVisits: 3, Stop: func(f *ssa.Function, d int) bool {
		return f != fn && (exported(f) || containsFn(l.getters, f)) || f == fn
	}}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		in := t.In
		recv := t.Args[0]
		table := recv
		if types.TypeString(recv.Typ, shortQual) == "*hamt.Shard" {
			table = in.fieldVal(&snap{}, recv, l.f.childer)
		}
		deep := types.TypeString(recv.Typ, shortQual) == "*hamt.Shard"
		links, children := in.fieldVal(&snap{}, table, l.f.links), in.fieldVal(&snap{}, table, l.f.children)
		var idxs []*Term
		var cur, curIdx *Term
		visited := true
		for _, e := range t.Events {
			if e.Kind != "call" {
				continue
			}
			if e.Callee != nil && containsFn(l.getters, e.Callee) && same(e.Args[0], table) {
				if !visited {
					c.Ob("walks-all", name, false, t.pos(e), t, "%s goes on without having passed a child on", name)
				}
				cur, curIdx, visited = in.resOf(e, 0), e.Args[c.param(e.Callee, "int")], false
				continue
			}
			isCb := e.Val != nil && same(e.Val, t.Args[cbi])
			isRec := e.Callee == fn
			if !isCb && !isRec {
				continue
			}
			x := e.Args[0].peel()
			i := curIdx
			ok := cur != nil && same(x, cur)
			if !ok {
				if j, el := elemOf(x, children); el == x && el != nil {
					v, k := in.isNilKnown(&e.S, x)
					ok, i = k && !v, j
				}
			}
			c.Ob("walks-all", name+" child", ok, t.pos(e), t, "%s passes on something that is not the child of the slot in turn", name)
			if isRec {
				c.Ob("walks-all", name+" descent", same(e.Args[cbi], t.Args[cbi]), t.pos(e), t, "%s descends with another callback", name)
			}
			if deep && ok {
				val := in.fieldVal(&e.S, x, l.f.val)
				v, k := in.isNilKnown(&e.S, val)
				if isCb {
					c.Ob("walks-all", name+" kind", k && !v, t.pos(e), t, "%s passes on a child that may be a sub-shard", name)
				} else if !k || !v { // not an entry: known by its missing value or key
					kv, kk := in.decide(&e.S, in.eq(in.fieldVal(&e.S, x, l.f.key), in.TS.constant(constant.MakeString(""), types.Typ[types.String])))
					c.Ob("walks-all", name+" kind", kk && kv, t.pos(e), t, "%s descends into a child that may be an entry", name)
				}
			}
			if ok && !visited || ok && cur == nil {
				idxs = append(idxs, i)
			} else if ok && visited && cur != nil {
				c.Ob("walks-all", name, false, t.pos(e), t, "%s passes a child on twice", name)
			}
			visited = true
		}
		ok, why := in.covers(&t.S, idxs, in.lenOf(children))
		for _, n := range []*Term{links, in.fieldVal(&t.S, table, l.f.children), in.fieldVal(&t.S, table, l.f.links)} {
			if !ok { // the table may be asked for its length after each child
				ok, _ = in.covers(&t.S, idxs, in.lenOf(n))
			}
		}
		if len(idxs) == 0 && !ok {
			// the walk of another walker's children
			for _, e := range t.Events {
				if e.Kind == "call" && e.Callee != nil && containsFn(l.walkers, e.Callee) {
					ok = ok || same(e.Args[0], recv) || same(e.Args[0], table)
				}
			}
		}
		c.Ob("walks-all", name, ok && visited, c.W.Pos(fn.Pos()), t, "%s ends without error although not every child was passed on: %s", name, why)
	})
}
