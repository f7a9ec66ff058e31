package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C06"] = ruleDef{ruleC06}
	rules["C35"] = ruleDef{ruleC35}
}

const layerWidth = 4 // sub-trees per depth of the trickle layout

// ghost: what a path knows about the number of children of a builder node.
type ghost struct {
	ns     []*Term // terms equal to the number of children
	ge     bool    // at least the fan-out
	fill   *Event  // filled with leaves; not yet known to be full
	below  bool    // had at most the fan-out before that
	hole   bool    // a child was taken out
	holeK  []*Term // children before it was taken out, less one
	resume bool    // continuing the row of the child put back
	runD   *Term
}

// fanoutCfg runs an importer function with only the builder API and the pair
// functions opaque, every loop unrolled exactly.
func fanoutCfg(fn *ssa.Function) Config {
	return Config{Model: builderModel, ExactLoop: true, MaxVisits: 6, Stop: func(g *ssa.Function, d int) bool {
		return g != fn && (builderAPI(g, d) || isPairFn(g))
	}}
}

func (c *Checker) fanoutFns() []*ssa.Function {
	adds := c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.FSNodeOverDag.AddChild" })
	var out []*ssa.Function
	for _, fn := range c.importerFns() {
		if fnName(fn) != "helpers.FSNodeOverDag.AddChild" && adds[fn] && c.onlyParam(fn, "*helpers.DagBuilderHelper") >= 0 && !(recursive(fn) && !isPairFn(fn)) {
			out = append(out, fn)
		}
	}
	return out
}

// attach is one AddChild on a path with what is known about its parent.
type attach struct {
	e       *Event
	parent  *Term
	g       ghost
	sub     *Event // the pair-function call that made the child; nil for a leaf
	depth   *Term  // its depth argument
	regular bool   // the parent is known to have room
	putBack bool
}

// doneConsistent: the answers of Done on the path agree with each other.
func (c *Checker) doneConsistent(t *Trace, consumes map[*ssa.Function]bool) bool {
	in := t.In
	last := false
	for _, e := range t.Events {
		if e.Kind != "call" {
			continue
		}
		if api(e, "Done") {
			v, k := in.decide(&t.S, in.resOf(e, 0))
			if k && !v && last {
				return false
			}
			last = k && v || last
		} else if e.Callee != nil && consumes[e.Callee] {
			last = false
		}
	}
	return true
}

func intParam(fn *ssa.Function) int {
	r := -1
	for i, p := range fn.Params {
		if b, ok := p.Type().(*types.Basic); ok && b.Kind() == types.Int {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// attaches lists the AddChild calls of a path; false if what the path knows
// of the number of children is contradictory.
func (c *Checker) attaches(t *Trace, consumes map[*ssa.Function]bool) ([]attach, bool) {
	in := t.In
	mf := c.fieldName("helpers", "DagBuilderHelper", "int", "maxlinks")
	m := in.fieldVal(&snap{}, t.Args[c.onlyParam(t.Entry, "*helpers.DagBuilderHelper")], mf)
	gs := map[*Term]*ghost{}
	of := func(x *Term) *ghost {
		x = x.peel()
		if gs[x] == nil {
			gs[x] = &ghost{}
		}
		return gs[x]
	}
	int_ := types.Typ[types.Int]
	shift := func(ns []*Term, d int64) []*Term {
		var out []*Term
		for _, n := range ns {
			out = append(out, in.bin(token.ADD, n, in.TS.integer(d), int_))
		}
		return out
	}
	for i, a := range t.Args {
		if isBuilderNode(a) && c.freshParam(t.Entry, i) {
			*of(a) = ghost{ns: []*Term{in.TS.integer(0)}}
		}
	}
	made := map[*Term]*Event{}
	var out []attach
	for _, e := range t.Events {
		if e.Kind != "call" {
			continue
		}
		if er := in.errOf(e); er != nil && t.NonNil(er) {
			continue
		}
		switch {
		case api(e, "Done"):
			if v, k := in.decide(&t.S, in.resOf(e, 0)); k && !v {
				for _, g := range gs {
					if g.fill == nil {
						continue
					}
					took := false
					for _, x := range t.Events[g.fill.Idx+1 : e.Idx] {
						took = took || c.takes(x, consumes)
					}
					if !took {
						g.ge = true
						if g.below {
							g.ns = []*Term{m}
						}
					}
					g.fill = nil
				}
			}
		case api(e, "NewFSNodeOverDag"):
			*of(in.resOf(e, 0)) = ghost{ns: []*Term{in.TS.integer(0)}}
		case api(e, "NumChildren"):
			g := of(e.Args[0])
			r := in.resOf(e, 0)
			if g.fill != nil && g.below && in.Prove(&t.S, m, "<", r) || g.ge && in.Prove(&t.S, r, "<", m) {
				return nil, false
			}
			for _, n := range g.ns {
				if in.Prove(&t.S, n, "<", r) || in.Prove(&t.S, r, "<", n) {
					return nil, false
				}
			}
			g.ns = append(g.ns, r)
		case api(e, "FillNodeLayer"):
			g := of(e.Args[1])
			full := g.ge
			for _, n := range g.ns {
				full = full || c.proveAt(t, e, m, "<=", n)
			}
			if full {
				g.ge = true
				break
			}
			below := false
			for _, n := range g.ns {
				below = below || c.proveAt(t, e, n, "<=", m) || linEqual(n, in.TS.integer(0))
			}
			*g = ghost{fill: e, below: below}
		case api(e, "RemoveChild"):
			g := of(e.Args[0])
			g.ns = shift(g.ns, -1)
			g.hole, g.holeK = true, g.ns
		case api(e, "Commit", "GetDagNode"):
			if p := made[e.Args[0].peel()]; p != nil {
				made[in.resOf(e, 0).peel()] = p
			}
		case api(e, "AddChild"):
			g := of(e.Args[0])
			a := attach{e: e, parent: e.Args[0], g: *g, sub: made[e.Args[1].peel()], putBack: g.hole}
			a.g.ns = append([]*Term{}, g.ns...)
			for _, n := range g.ns {
				a.regular = a.regular || c.proveAt(t, e, n, "<", m) || linEqual(n, in.TS.integer(0))
			}
			if a.sub != nil {
				if i := intParam(a.sub.Callee); i >= 0 {
					a.depth = a.sub.Args[i]
				}
			}
			if g.hole {
				g.hole, g.resume, g.runD = false, true, nil
			} else if g.resume && a.depth != nil {
				if g.runD == nil {
					g.runD = a.depth
				} else if !linEqual(g.runD, a.depth) {
					g.resume = false
				}
				a.g.resume = g.resume
			}
			out = append(out, a)
			g.ns = shift(g.ns, 1)
		default:
			if e.Callee != nil && isPairFn(e.Callee) && !api(e, "NewLeafDataNode") {
				made[in.resOf(e, 0).peel()] = e
				for _, x := range e.Args {
					if isBuilderNode(x) {
						*of(x) = ghost{}
						made[x.peel()] = e
					}
				}
			}
		}
	}
	return out, true
}

// freshParam: every call passes a node without children as parameter i.
func (c *Checker) freshParam(fn *ssa.Function, i int) bool {
	if c.fresh == nil {
		c.fresh = map[string]bool{}
		passes := map[string][]string{} // parameters handed on unedited
		for _, f := range c.fanoutFns() {
			in := NewInterp(c.W, importerCfg(f))
			in.Run(f, func(t *Trace) {
				for _, e := range t.Events {
					if e.Kind != "call" || e.Callee == nil || !isPairFn(e.Callee) {
						continue
					}
					for k, a := range e.Args {
						if !isBuilderNode(a) {
							continue
						}
						ok := false
						for j, p := range t.Args {
							if p == a.peel() && isPairFn(f) {
								from := fnName(f) + "," + itoa(j)
								to := fnName(e.Callee) + "," + itoa(k)
								ok = true
								for _, x := range t.Events[:e.Idx] {
									ok = ok && !editsNode(x, a)
								}
								if ok {
									passes[from] = append(passes[from], to)
								}
							}
						}
						for _, x := range t.Events[:e.Idx] {
							if x.Kind == "call" && x.Res == a.peel() && api(x, "NewFSNodeOverDag") {
								ok = true
							}
							if editsNode(x, a) {
								ok = false
								break
							}
						}
						key := fnName(e.Callee) + "," + itoa(k)
						if v, seen := c.fresh[key]; !seen || v {
							c.fresh[key] = ok
						}
					}
				}
			})
			c.account(in)
		}
		for changed := true; changed; {
			changed = false
			for from, tos := range passes {
				for _, to := range tos {
					if !c.fresh[from] && c.fresh[to] {
						c.fresh[to] = false
						changed = true
					}
				}
			}
		}
	}
	return isPairFn(fn) && c.fresh[fnName(fn)+","+itoa(i)]
}

// children: K = number of children less the fan-out, as one of the terms the
// path knows it by, satisfying ok.
func (in *Interp) someK(ns []*Term, m *Term, ok func(K *Term) bool) bool {
	for _, n := range ns {
		if ok(in.bin(token.SUB, n, m, types.Typ[types.Int])) {
			return true
		}
	}
	return false
}

func (c *Checker) fanTerm(t *Trace) *Term {
	return t.In.fieldVal(&snap{}, t.Args[c.onlyParam(t.Entry, "*helpers.DagBuilderHelper")], c.fieldName("helpers", "DagBuilderHelper", "int", "maxlinks"))
}

// lin4 is a*x + b.
func (in *Interp) lin4(x *Term, a, b int64) *Term {
	int_ := types.Typ[types.Int]
	return in.bin(token.ADD, in.bin(token.MUL, x, in.TS.integer(a), int_), in.TS.integer(b), int_)
}

func ruleC06(c *Checker) {
	c.explain = "Counting the children of every builder node along every importer path: a child is attached only while the path knows fewer children than the fan-out, or to a fresh node, or in place of a child just taken out, or as one of four sub-trees of its depth (the number of children less the fan-out is proved, in linear arithmetic, to lie in the row of four belonging to the sub-tree's depth). Plus: leaves only within the size limit; no-copy builders only with a path; path, offset and file info recorded at each raw leaf, the offset advancing by the chunk's length."
	c.Assume("the configured fan-out is at least one")
	consumes := c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.DagBuilderHelper.Next" })
	for _, fn := range c.fanoutFns() {
		fn := fn
		name := fnName(fn)
		c.Run(fn, fanoutCfg(fn), func(t *Trace) {
			if t.Failed() || !c.doneConsistent(t, consumes) {
				return
			}
			m := c.fanTerm(t)
			as, ok := c.attaches(t, consumes)
			if !ok {
				return
			}
			for _, a := range as {
				if a.regular || a.putBack {
					c.Ob("room-for-child", name, true, "", t, "")
					continue
				}
				if a.sub == nil || a.depth == nil {
					c.Ob("room-for-child", name, false, t.pos(a.e), t, "a child is added to a node that may already have the maximum number of links")
					continue
				}
				ok := c.rowHasRoom(t, a, m)
				c.Ob("four-per-depth", name, ok, t.pos(a.e), t, "a sub-tree of depth %s is added although there may be four of that depth already (children: %s)", short(a.depth), shortAll(a.g.ns))
			}
		})
	}
	c.Min("room-for-child", 2)
	c.Min("four-per-depth", 2)
	c.leafLimit()
	c.noCopy()
	c.ownLimits()
}

func (c *Checker) leafLimit() {
	fn := c.Fn("helpers.DagBuilderHelper.NewLeafNode")
	if fn == nil {
		return
	}
	pd := c.onlyParam(fn, "[]byte")
	limit := func(in *Interp) *Term {
		g := c.W.SPkgs[fn.Pkg.Pkg.Path()].Var("BlockSizeLimit")
		if g == nil {
			return nil
		}
		return in.load(&snap{}, in.TS.mk("global", "helpers.BlockSizeLimit", g.Type()), deref(g.Type()))
	}
	c.Run(fn, Config{}, func(t *Trace) {
		in := t.In
		lim := limit(in)
		if t.Outcome != "return" || pd < 0 {
			return
		}
		n := in.lenOf(t.Args[pd])
		if !t.Failed() {
			c.Ob("leaf-within-limit", fnName(fn), lim != nil && in.Prove(&t.S, n, "<=", lim), t.pos(nil), t, "a leaf may be made from a chunk larger than the block size limit")
		} else if lim != nil && in.Prove(&t.S, in.bin(token.ADD, lim, in.TS.integer(1), types.Typ[types.Int]), "<=", n) {
			er := t.ErrRet()
			c.Ob("limit-error", fnName(fn), er.Op == "sentinel" && strings.HasSuffix(er.Sym, "ErrSizeLimitExceeded"), t.pos(nil), t, "an over-long chunk is reported as %s", short(er))
		}
	})
	c.Min("leaf-within-limit", 1)
	c.Min("limit-error", 1)
	// leaves are made nowhere else
	for _, f := range c.W.Fns {
		if !c.W.production(f) || !inImporter(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if s := ci.Common().StaticCallee(); s != nil && (strings.HasPrefix(fnName(s), "dag.NewRawNode") || fnName(s) == "dag.NodeWithData") {
					c.Ob("one-leaf-maker", fnName(f), c.onlyVia(f, map[string]bool{fnName(fn): true}), c.W.Pos(ci.Pos()), nil, "a block is made without passing the size limit check")
				}
			}
		}
	}
	c.Min("one-leaf-maker", 1)
}

// ownLimits: the importers and the modifier of the library build with the
// default fan-out.
func (c *Checker) ownLimits() {
	work, seen := []*ssa.Function{}, map[*ssa.Function]bool{}
	if fn := c.Fn("helpers.DagBuilderParams.New"); fn != nil {
		work = c.W.callers(fn)
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if seen[fn] || !c.W.production(fn) {
			continue
		}
		seen[fn] = true
		up := false
		c.Run(fn, Config{Stop: func(g *ssa.Function, d int) bool { return exported(g) && g.Parent() == nil || recursive(g) }}, func(t *Trace) {
			in := t.In
			for _, e := range t.calls("helpers.DagBuilderParams.New") {
				m := in.fieldVal(&e.S, e.Args[0], "Maxlinks")
				if m == nil || m.containsF(isParamTerm) && !exported(fn) {
					up = true
					continue
				}
				k, isC := m.Int()
				ok := isC && k > 1 || m.Op == "load" && m.Args[0].Op == "global" && strings.HasSuffix(m.Args[0].Sym, ".DefaultLinksPerBlock") || m.containsF(isParamTerm)
				c.Ob("default-fan-out", fnName(fn), ok, t.pos(e), t, "data is imported with a fan-out of %s", short(m))
			}
		})
		if up {
			work = append(work, c.W.callers(fn)...)
		}
	}
	c.Min("default-fan-out", 1)
}

func (c *Checker) noCopy() {
	path := c.fieldName("helpers", "DagBuilderHelper", "string", "fullPath")
	stat := c.fieldName("helpers", "DagBuilderHelper", "fs.FileInfo", "stat")
	off := c.fieldName("helpers", "DagBuilderHelper", "uint64", "offset")
	if fn := c.Fn("helpers.DagBuilderParams.New"); fn != nil {
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			nc := in.fieldVal(&snap{}, t.Args[0], "NoCopy")
			v, k := in.decide(&t.S, nc)
			if t.Failed() {
				er := t.ErrRet()
				c.Ob("refusal", fnName(fn), k && v && er.Op == "sentinel" && strings.HasSuffix(er.Sym, "ErrMissingFsRef"), t.pos(nil), t, "a builder is refused with %s outside no-copy mode", short(er))
				return
			}
			p := in.fieldVal(&t.S, t.Rets[0], path)
			st := in.fieldVal(&t.S, t.Rets[0], stat)
			s := t.S
			empty := in.eq(p, in.TS.constant(strConst(""), types.Typ[types.String]))
			ev, ek := in.decide(&s, empty)
			if !k || v {
				// no-copy may be on
				c.Ob("nocopy-has-path", fnName(fn), k && v && ek && !ev, t.pos(nil), t, "a no-copy builder may be made without a file path")
				okP, okS := false, false
				for _, e := range t.Events {
					if e.Kind != "call" {
						continue
					}
					okP = okP || strings.HasSuffix(e.Name, "FileInfo.AbsPath") && same(in.resOf(e, 0), p)
					okS = okS || strings.HasSuffix(e.Name, "FileInfo.Stat") && same(in.resOf(e, 0), st)
				}
				c.Ob("nocopy-source", fnName(fn), okP && okS, t.pos(nil), t, "the path or file info recorded is not the source's")
			} else {
				c.Ob("copy-no-path", fnName(fn), ek && ev, t.pos(nil), t, "a builder outside no-copy mode gets a file path")
			}
			o, isC := in.fieldVal(&t.S, t.Rets[0], off).Int()
			c.Ob("offset-starts-at-zero", fnName(fn), isC && o == 0, t.pos(nil), t, "the offset does not start at zero")
		})
		c.Min("nocopy-has-path", 1)
		c.Min("refusal", 1)
	}
	fn := c.Fn("helpers.DagBuilderHelper.ProcessFileStore")
	if fn == nil {
		return
	}
	pn, ps := c.onlyParam(fn, "ipld.Node"), c.onlyParam(fn, "uint64")
	c.Run(fn, Config{}, func(t *Trace) {
		if t.Outcome != "return" || pn < 0 || ps < 0 {
			return
		}
		in, db, nd := t.In, t.Args[0], t.Args[pn]
		s0 := &snap{}
		p0, st0, o0 := in.fieldVal(s0, db, path), in.fieldVal(s0, db, stat), in.fieldVal(s0, db, off)
		o1 := in.fieldVal(&t.S, db, off)
		r := t.Rets[0].peel()
		wrapped := r.Typ != nil && types.TypeString(deref(r.Typ), shortQual) == "posinfo.FilestoreNode"
		raw, rk := c.isRaw(in, &t.S, nd)
		ev, ek := in.decide(&t.S, in.eq(p0, in.TS.constant(strConst(""), types.Typ[types.String])))
		if !wrapped {
			c.Ob("nocopy-records", fnName(fn), ek && ev || rk && !raw, t.pos(nil), t, "a raw leaf of a no-copy import may go unrecorded")
			c.Ob("offset-kept", fnName(fn), same(o1, o0), t.pos(nil), t, "the offset changes without a leaf being recorded")
			return
		}
		pi := in.fieldVal(&t.S, r, "PosInfo")
		ok := same(in.fieldVal(&t.S, pi, "FullPath"), p0) && same(in.fieldVal(&t.S, pi, "Stat"), st0)
		c.Ob("records-source", fnName(fn), ok, t.pos(nil), t, "the leaf records another path or file info than the source's")
		c.Ob("records-offset", fnName(fn), same(in.fieldVal(&t.S, pi, "Offset"), o0), t.pos(nil), t, "the leaf records offset %s, not its chunk's", short(in.fieldVal(&t.S, pi, "Offset")))
		c.Ob("offset-advances", fnName(fn), linEqual(o1, in.bin(token.ADD, o0, t.Args[ps], o0.Typ)), t.pos(nil), t, "the offset becomes %s after the leaf", short(o1))
	})
	c.Min("records-offset", 1)
	// the offset belongs to ProcessFileStore, and every chunk's leaf goes through it
	for _, f := range c.W.Fns {
		if !c.W.production(f) || !inImporter(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.TypeString(deref(fa.X.Type()), shortQual) == "helpers.DagBuilderHelper" {
						if deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() == off {
							c.Ob("offset-private", fnName(f), c.onlyVia(f, map[string]bool{fnName(fn): true, "helpers.DagBuilderParams.New": true}), c.W.Pos(st.Pos()), nil, "the offset is changed outside ProcessFileStore")
						}
					}
				}
			}
		}
	}
	c.Min("offset-private", 1)
	if nl := c.Fn("helpers.DagBuilderHelper.NewLeafDataNode"); nl != nil {
		cfg := importerCfg(nl)
		stop := cfg.Stop
		cfg.Stop = func(g *ssa.Function, d int) bool { return stop(g, d) && (exported(g) || recursive(g)) }
		c.Run(nl, cfg, func(t *Trace) {
			if t.Failed() {
				return
			}
			in := t.In
			ok := false
			var chunk *Term
			for _, e := range t.Events {
				if api(e, "Next") {
					chunk = in.resOf(e, 0)
				}
				if api(e, "ProcessFileStore") && same(in.resOf(e, 0), t.Rets[0]) && chunk != nil {
					ok = linEqual(in.convert(e.Args[2], types.Typ[types.Int64]), in.convert(in.lenOf(chunk), types.Typ[types.Int64]))
				}
			}
			c.Ob("every-leaf-recorded", fnName(nl), ok, t.pos(nil), t, "the leaf of a chunk is returned without being recorded with the chunk's length")
		})
		c.Min("every-leaf-recorded", 1)
	}
}

// isRaw: is the node known (not) to be a raw block?
func (c *Checker) isRaw(in *Interp, s *snap, nd *Term) (bool, bool) {
	if d := in.dynType(s, nd); d != nil {
		return types.TypeString(d, shortQual) == "*dag.RawNode", true
	}
	p := types.NewPointer(in.W.Named("dag", "RawNode"))
	return in.decide(s, in.TS.mk("is", "*dag.RawNode", p, nd))
}

// ruleC35: trickle layout of built and appended files.
// rowHasRoom: the child takes one of the four places of its depth, or one of
// those of the row that holds the child put back.
func (c *Checker) rowHasRoom(t *Trace, a attach, m *Term) bool {
	in := t.In
	return in.someK(a.g.ns, m, func(K *Term) bool {
		if c.proveAt(t, a.e, K, "<=", in.lin4(a.depth, layerWidth, -1)) {
			return true
		}
		return a.g.resume && c.proveAt(t, a.e, K, "<=", in.lin4(a.depth, layerWidth, layerWidth-1)) &&
			in.someK(a.g.holeK, m, func(H *Term) bool {
				return c.proveAt(t, a.e, in.lin4(a.depth, layerWidth, 0), "<=", H)
			})
	})
}

func ruleC35(c *Checker) {
	c.explain = "On every path of the trickle importer (building and appending, loops unrolled exactly), for every child attached: leaves only while the node has fewer children than the fan-out; sub-trees only once it has at least that many; the depth a sub-tree is built or extended to is proved, in linear arithmetic over the node's number of children, not to exceed the row of four it is put in; and a node built with a depth bound only gets sub-trees of smaller depth."
	c.Assume("the configured fan-out is at least one; the DAG appended to is itself a trickle DAG of the same fan-out; sub-trees per depth: four")
	consumes := c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.DagBuilderHelper.Next" })
	for _, fn := range c.fanoutFns() {
		fn := fn
		if p := shortPkg(fn.Pkg.Pkg.Path()); p != "trickle" && p != "helpers" {
			continue
		}
		name := fnName(fn)
		c.Run(fn, fanoutCfg(fn), func(t *Trace) {
			in := t.In
			if t.Failed() || !c.doneConsistent(t, consumes) {
				return
			}
			m := c.fanTerm(t)
			as, ok := c.attaches(t, consumes)
			if !ok {
				return
			}
			for _, a := range as {
				if a.sub == nil {
					c.Ob("leaves-first", name, a.regular, t.pos(a.e), t, "a leaf is attached where a sub-tree belongs")
					continue
				}
				if a.depth == nil {
					c.Ob("depth-of-row", name, false, t.pos(a.e), t, "the depth of the sub-tree cannot be determined")
					continue
				}
				if !a.putBack {
					ge := a.g.ge
					for _, n := range a.g.ns {
						ge = ge || c.proveAt(t, a.e, m, "<=", n)
					}
					c.Ob("subtrees-after-leaves", name, ge, t.pos(a.e), t, "a sub-tree is attached although the node may have room for leaves")
				}
				ok := in.someK(a.g.ns, m, func(K *Term) bool {
					return c.proveAt(t, a.e, in.lin4(a.depth, layerWidth, -layerWidth), "<=", K)
				})
				if !a.putBack {
					c.Ob("four-per-depth", name, c.rowHasRoom(t, a, m), t.pos(a.e), t, "a sub-tree of depth %s is added although there may be four of that depth already (children: %s)", short(a.depth), shortAll(a.g.ns))
				}
				c.Ob("depth-of-row", name, ok, t.pos(a.e), t, "a sub-tree of depth %s is attached where a shallower one belongs (children: %s)", short(a.depth), shortAll(a.g.ns))
				// bounded nodes only get shallower sub-trees
				if i := intParam(fn); i >= 0 && isPairFn(fn) && !a.putBack && !a.g.resume {
					D := t.Args[i]
					free := in.holds(&a.e.S, in.eq(D, in.TS.integer(-1)))
					c.Ob("depth-below-bound", name, free || c.proveAt(t, a.e, a.depth, "<", D), t.pos(a.e), t, "a sub-tree of depth %s is attached to a node bounded by %s", short(a.depth), short(D))
				}
			}
		})
	}
	c.Min("leaves-first", 1)
	c.Min("subtrees-after-leaves", 2)
	c.Min("depth-of-row", 1)
	c.Min("depth-below-bound", 2)
}

// proveAt proves a relation in the state at event e; paths share events.
func (c *Checker) proveAt(t *Trace, e *Event, a *Term, op string, b *Term) bool {
	k := [3]any{e, op, [2]int{a.UID, b.UID}}
	if c.proofs == nil {
		c.proofs = map[[3]any]bool{}
	}
	v, ok := c.proofs[k]
	if !ok {
		v = t.In.Prove(&e.S, a, op, b)
		c.proofs[k] = v
	}
	return v
}

func shortAll(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, short(t))
	}
	return strings.Join(s, " = ")
}

func isParamTerm(x *Term) bool { return x.Op == "param" }
