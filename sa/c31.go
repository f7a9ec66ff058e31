package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C31"] = ruleDef{ruleC31} }

// ruleC31: heights of the sub-trees of the balanced layout, by induction.
func ruleC31(c *Checker) {
	c.explain = "Induction over the balanced importer. Every node on every path gets a height: a leaf 0, the result of the recursive filler the height its depth argument stands for, a node one more than its children. Proved in linear arithmetic on every path: all children attached to a node have one height; a node handed to the filler to go on with has children of the height its depth asks for; the filler returns a tree of exactly that height, and only when the node has the maximum number of links or the data is used up; leaves and sub-trees are begun only while there is data, so that whatever is followed by more data is full."
	c.Assume("the configured fan-out is at least one; the loop that raises the root is followed through five levels, exactly")
	consumes := c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.DagBuilderHelper.Next" })
	for _, fn := range c.importerFns() {
		if shortPkg(fn.Pkg.Pkg.Path()) != "balanced" || c.onlyParam(fn, "*helpers.DagBuilderHelper") < 0 || !exported(fn) && !recursive(fn) {
			continue
		}
		c.entries[fnName(fn)] = true
	}
	// what the depth argument stands for: tried in turn, 0 being "the height"
	var best []heightOb
	for _, k := range []int64{0, 1, -1, 2} {
		obs := c.heights(k, consumes)
		bad := 0
		for _, o := range obs {
			if !o.ok {
				bad++
			}
		}
		if best == nil || bad == 0 {
			best = obs
		}
		if bad == 0 {
			break
		}
	}
	for _, o := range best {
		c.Ob(o.rule, o.name, o.ok, o.pos, o.t, "%s", o.msg)
	}
	c.Min("one-height", 2)
	c.Min("height-of-depth", 1)
	c.Min("full-or-done", 1)
	c.Min("begun-with-data", 2)
}

type heightOb struct {
	rule, name, pos, msg string
	ok                   bool
	t                    *Trace
}

func (c *Checker) heights(k int64, consumes map[*ssa.Function]bool) []heightOb {
	var out []heightOb
	filler := func(g *ssa.Function) bool { return g != nil && isPairFn(g) && recursive(g) && inImporter(g) }
	for _, fn := range c.importerFns() {
		fn := fn
		if shortPkg(fn.Pkg.Pkg.Path()) != "balanced" || c.onlyParam(fn, "*helpers.DagBuilderHelper") < 0 || !exported(fn) && !recursive(fn) {
			continue
		}
		name := fnName(fn)
		cfg := Config{Model: builderModel, Arith: true, ExactLoop: true, MaxVisits: 6, Stop: func(g *ssa.Function, d int) bool {
			return g != fn && (builderAPI(g, d) || filler(g))
		}}
		c.Run(fn, cfg, func(t *Trace) {
			if t.Failed() || t.Outcome != "return" || !c.doneConsistent(t, consumes) {
				return
			}
			p := &heightPath{c: c, t: t, k: k, consumes: consumes, filler: filler, name: name}
			if p.run(fn) {
				out = append(out, p.obs...)
			}
		})
	}
	return out
}

type heightPath struct {
	c        *Checker
	t        *Trace
	k        int64
	consumes map[*ssa.Function]bool
	filler   func(*ssa.Function) bool
	name     string
	obs      []heightOb
}

func (p *heightPath) ob(rule string, ok bool, e *Event, msg string) {
	p.obs = append(p.obs, heightOb{rule, p.name, p.t.pos(e), msg, ok, p.t})
}

// run follows one path; false if the path cannot happen.
func (p *heightPath) run(fn *ssa.Function) bool {
	c, t, in := p.c, p.t, p.t.In
	int_ := types.Typ[types.Int]
	plus := func(x *Term, d int64) *Term { return in.bin(token.ADD, x, in.TS.integer(d), int_) }
	zero, m := in.TS.integer(0), c.fanTerm(t)
	h := map[*Term]*Term{}    // heights of finished nodes
	kids := map[*Term]*Term{} // height of the children of nodes being built
	full := map[*Term]bool{}
	fresh := map[*Term]bool{}
	count := map[*Term][]*Term{} // terms equal to the number of children
	isFull := func(n *Term, s *snap) bool {
		if full[n] {
			return true
		}
		for _, x := range count[n] {
			if in.Prove(s, m, "<=", x) {
				return true
			}
		}
		return false
	}
	own := p.filler(fn)
	var D *Term
	if i := intParam(fn); own && i >= 0 {
		D = t.Args[i]
		for _, a := range t.Args {
			if isBuilderNode(a) {
				kids[a.peel()] = plus(D, p.k-1)
			}
		}
	} else if own {
		p.ob("height-of-depth", false, nil, "the filler takes no depth")
		return true
	}
	data := own // there is data: known since the last take
	done := false
	same := func(s *snap, a, b *Term) bool { return a == b || linEqual(a, b) || in.proveEq(s, a, b) }
	for _, e := range t.Events {
		if e.Kind != "call" {
			continue
		}
		if er := in.errOf(e); er != nil && t.NonNil(er) {
			continue
		}
		begun := func(what string) {
			p.ob("begun-with-data", data, e, what+" is begun without data being known to be left")
		}
		switch {
		case api(e, "Done"):
			v, k := in.decide(&t.S, in.resOf(e, 0))
			if k && v && data {
				return false
			}
			data, done = k && !v, k && v
		case api(e, "NewFSNodeOverDag"):
			fresh[in.resOf(e, 0).peel()] = true
			count[in.resOf(e, 0).peel()] = []*Term{zero}
		case api(e, "NewLeafDataNode"):
			begun("a leaf")
			h[in.resOf(e, 0).peel()] = zero
		case api(e, "NewLeafNode"):
			h[in.resOf(e, 0).peel()] = zero
		case api(e, "NumChildren"):
			n := e.Args[0].peel()
			r := in.resOf(e, 0)
			if fresh[n] && kids[n] == nil {
				s := t.S
				if !in.assume(&s, in.lt(m, in.TS.integer(1)), false) || !in.assume(&s, in.eq(r, zero), true) || in.Prove(&s, m, "<=", zero) {
					return false
				}
			}
			count[n] = append(count[n], r)
		case api(e, "FillNodeLayer"):
			n := e.Args[1].peel()
			p.ob("one-height", kids[n] == nil || same(&e.S, kids[n], zero), e, "leaves are added to a node whose children are sub-trees")
			kids[n], full[n] = zero, true
		case api(e, "Commit", "GetDagNode"):
			n := e.Args[0].peel()
			if kids[n] != nil {
				h[in.resOf(e, 0).peel()] = plus(kids[n], 1)
				full[in.resOf(e, 0).peel()] = isFull(n, &t.S)
			}
		case api(e, "AddChild"):
			n, x := e.Args[0].peel(), h[e.Args[1].peel()]
			if x == nil {
				p.ob("one-height", false, e, "a child of unknown height is attached")
				break
			}
			ok := kids[n] == nil || same(&e.S, kids[n], x)
			p.ob("one-height", ok, e, "a child of height "+short(x)+" is attached to a node with children of height "+short(kids[n]))
			kids[n], full[n] = x, false
			var ns []*Term
			for _, y := range count[n] {
				ns = append(ns, plus(y, 1))
			}
			count[n] = ns
		case p.filler(e.Callee):
			begun("a sub-tree")
			i := intParam(e.Callee)
			if i < 0 {
				break
			}
			d := e.Args[i]
			for _, a := range e.Args {
				if isBuilderNode(a) && !a.peel().isNil() {
					n := a.peel()
					ok := kids[n] == nil && fresh[n] || kids[n] != nil && same(&e.S, kids[n], plus(d, p.k-1))
					p.ob("height-of-depth", ok, e, "a node with children of height "+short(kids[n])+" is filled to depth "+short(d))
				}
			}
			r := in.resOf(e, 0).peel()
			h[r], full[r] = plus(d, p.k), true
			for _, a := range e.Args {
				delete(count, a.peel())
			}
		}
		if c.takes(e, p.consumes) {
			data, done = false, false
		}
	}
	if !own {
		return true
	}
	r := t.Rets[0].peel()
	if h[r] == nil {
		p.ob("height-of-depth", false, nil, "the filler returns a tree of unknown height")
		return true
	}
	p.ob("height-of-depth", same(&t.S, h[r], plus(D, p.k)), nil, "the filler returns a tree of height "+short(h[r])+" for depth "+short(D))
	p.ob("full-or-done", full[r] || done, nil, "the filler returns while there may be room and data")
	return true
}
