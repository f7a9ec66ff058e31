package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C25"] = ruleDef{ruleC25} }

// vparams reads the verification parameters from a value or pointer.
type vparams struct {
	in *Interp
	v  *Term
}

var vpFields = []string{"Getter", "Direct", "LayerRepeat", "Prefix", "RawLeaves"}

func (p vparams) get(s *snap, f string) *Term {
	if _, ok := p.v.Typ.Underlying().(*types.Pointer); ok {
		return p.in.fieldVal(s, p.v, f)
	}
	st, _ := isStruct(p.v.Typ)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return p.in.field(p.v, f, st.Field(i).Type())
		}
	}
	return nil
}

func vpParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if types.TypeString(deref(p.Type()), shortQual) == "trickle.VerifyParams" {
			return i
		}
	}
	return -1
}

func (c *Checker) onlyParam(fn *ssa.Function, typ string) int {
	r := -1
	for i, p := range fn.Params {
		if types.TypeString(p.Type(), shortQual) == typ {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// ruleC25: acceptance conditions of the trickle verifier.
func ruleC25(c *Checker) {
	c.explain = "Typestate of every accepting path of the trickle verifier's recursion (helpers inlined, the recursion by its own contract): a node accepted as a leaf (depth zero) must be known to be without links and either a raw-typed protobuf node with protobuf leaves configured or a raw block with raw leaves configured; any other accepted node must be a decoded protobuf node of file type without inline data whose links were all fetched, in order from the first to the end, and accepted in turn at depth zero below the direct count and otherwise at (i-Direct)/LayerRepeat+1, known smaller than the node's own depth unless that is unbounded; every accepted node's CID prefix must be known equal to the configured one field by field, up to the codec of its kind and the two documented allowances. The exported entry starts unbounded at the given node with the given parameters."
	c.Assume("a raw block has no links")
	entry := "trickle.VerifyTrickleDagStructure"
	cores := map[*ssa.Function]bool{}
	recur := func(g *ssa.Function, d int) bool { return recursive(g) && c.W.InRepo(g) && vpParam(g) >= 0 }
	c.Run(c.Fn(entry), Config{Stop: recur}, func(t *Trace) {
		if t.Outcome != "return" {
			c.Ob("no-panic", entry, false, t.pos(nil), t, "the verifier panics")
			return
		}
		in := t.In
		n := 0
		for _, e := range t.Events {
			if e.Kind != "call" || e.Callee == nil || !recur(e.Callee, 0) {
				continue
			}
			n++
			cores[e.Callee] = true
			pn, pd, pp := c.onlyParam(e.Callee, "ipld.Node"), c.onlyParam(e.Callee, "int"), vpParam(e.Callee)
			if !c.Ob("anchor", fnName(e.Callee), pn >= 0 && pd >= 0, c.W.Pos(e.Callee.Pos()), nil, "the recursion does not take one node and one depth") {
				continue
			}
			c.Ob("starts-at-node", entry, same(e.Args[pn], t.Args[0]), t.pos(e), t, "verification starts at %s, not at the given node", short(e.Args[pn]))
			d, ok := e.Args[pd].Int()
			c.Ob("starts-unbounded", entry, ok && (d < 0 || d > 1<<20), t.pos(e), t, "verification starts with depth %s", short(e.Args[pd]))
			a, b := vparams{in, e.Args[pp]}, vparams{in, t.Args[1]}
			for _, f := range vpFields {
				c.Ob("starts-with-params", entry, same(a.get(before(t, e), f), b.get(before(t, e), f)), t.pos(e), t, "verification uses another %s", f)
			}
			c.Ob("outcome-returned", entry, same(t.ErrRet(), in.errOf(e)) || t.IsNil(in.errOf(e)) && t.IsNil(t.ErrRet()) || t.NonNil(in.errOf(e)) && t.Failed(), t.pos(e), t, "the verification's outcome is not what is returned")
		}
		c.Ob("verifies", entry, n == 1 || t.Failed(), t.pos(nil), t, "the entry accepts after %d verifications", n)
	})
	for fn := range cores {
		fn := fn
		name := fnName(fn)
		pn, pd, pp := c.onlyParam(fn, "ipld.Node"), c.onlyParam(fn, "int"), vpParam(fn)
		if pn < 0 || pd < 0 {
			continue
		}
		c.Run(fn, Config{Arith: true, MaxVisits: 3}, func(t *Trace) {
			if t.Outcome != "return" {
				c.Ob("no-panic", name, false, t.pos(nil), t, "the verifier panics")
				return
			}
			if t.Failed() {
				return
			}
			in, s := t.In, &t.S
			nd, depth, p := t.Args[pn], t.Args[pd], vparams{in, t.Args[pp]}
			zero, known := in.decide(s, in.eq(depth, in.TS.integer(0)))
			if known && zero {
				c.leafOK(t, s, name, nd, p)
				return
			}
			// inner node
			c.Ob("inner-protobuf", name, in.nodeIs(s, nd, "*dag.ProtoNode"), t.pos(nil), t, "an inner node is accepted without being known to be a protobuf node")
			dec := t.decodedOf(nd)
			if !c.Ob("inner-decoded", name, dec != nil, t.pos(nil), t, "an inner node is accepted without its data having been decoded") {
				return
			}
			poss := c.typesPossible(in, s, dec.obj)
			c.Ob("inner-file", name, subset(poss, "File"), t.pos(nil), t, "an inner node of type %s is accepted", keys(poss))
			c.Ob("inner-no-data", name, in.Prove(s, in.lenOf(in.pbField(s, dec.obj, "Data")), "<=", in.TS.integer(0)), t.pos(nil), t, "an inner node that may carry inline data is accepted")
			c.prefixOK(t, s, name, nd, p, false)
			// children
			links := in.TS.mk("pure", "Links", nil, nd)
			var idxs []*Term
			direct, rep := p.get(s, "Direct"), p.get(s, "LayerRepeat")
			for _, e := range t.Events {
				child, link := in.fetched(e)
				if child == nil || link == nil {
					continue
				}
				if !(link.Op == "load" && link.Args[0].Op == "indexaddr" && same(link.Args[0].Args[0], links)) {
					continue
				}
				i := link.Args[0].Args[1]
				idxs = append(idxs, i)
				c.Ob("child-fetched", name, t.IsNil(in.errOf(e)), t.pos(e), t, "a node is accepted although a child may not have been fetched")
				c.Ob("child-getter", name, same(fetchedFrom(e), p.get(before(t, e), "Getter")), t.pos(e), t, "a child is fetched from %s, not the configured getter", short(fetchedFrom(e)))
				// accepted in turn
				var rec *Event
				for _, r := range t.Events[e.Idx:] {
					if r.Kind == "call" && r.Callee == fn && same(r.Args[pn], child) {
						rec = r
					}
				}
				isDirect, dk := in.decide(s, in.lt(i, direct))
				if !dk {
					if in.Prove(s, i, "<", direct) {
						isDirect, dk = true, true
					} else if in.Prove(s, direct, "<=", i) {
						isDirect, dk = false, true
					}
				}
				if !c.Ob("child-kind", name, dk, t.pos(e), t, "a child is accepted without knowing whether it is a direct one") {
					continue
				}
				if rec == nil {
					if isDirect {
						c.leafOK(t, s, name, child, p)
					} else {
						c.Ob("child-verified", name, false, t.pos(e), t, "a child is not verified")
					}
					continue
				}
				c.Ob("child-accepted", name, t.IsNil(in.errOf(rec)), t.pos(rec), t, "a node is accepted although a child may have been rejected")
				q := vparams{in, rec.Args[pp]}
				for _, f := range vpFields {
					c.Ob("child-params", name, same(q.get(before(t, rec), f), p.get(before(t, rec), f)), t.pos(rec), t, "a child is verified with another %s", f)
				}
				d := rec.Args[pd]
				if isDirect {
					z, isC := d.Int()
					c.Ob("direct-is-leaf", name, isC && z == 0, t.pos(rec), t, "a direct child is verified at depth %s", short(d))
					continue
				}
				tint := types.Typ[types.Int]
				want := in.bin(token.ADD, in.bin(token.QUO, in.bin(token.SUB, i, direct, tint), rep, tint), in.TS.integer(1), tint)
				c.Ob("layer-depth", name, linEqual(d, want), t.pos(rec), t, "a later child is verified at depth %s, not (i-Direct)/LayerRepeat+1", short(d))
				c.Ob("layer-repeat", name, in.Prove(s, in.TS.integer(1), "<=", rep), t.pos(rec), t, "a later child is placed in a layer without the repeat count being known positive")
				bound := in.Prove(s, d, "<", depth) || in.Prove(s, depth, "<=", in.TS.integer(0))
				c.Ob("not-too-deep", name, bound, t.pos(rec), t, "a later child may be as deep as its parent")
			}
			ok, why := in.covers(s, idxs, in.lenOf(links))
			c.Ob("all-children", name, ok, t.pos(nil), t, "not every child is verified: %s", why)
		})
	}
	c.Min("all-children", 1)
	c.Min("layer-depth", 1)
	c.Min("leaf-kind", 1)
	c.Min("cid-version", 1)
}

// decodedOf: the successful decoding of the node's data on this path.
func (t *Trace) decodedOf(nd *Term) *decode {
	data := t.In.TS.mk("pure", "Data", nil, nd)
	var dec *decode
	for _, d := range t.decodes() {
		d := d
		if same(d.bytes, data) && t.IsNil(d.err) {
			dec = &d
		}
	}
	return dec
}

// fetched: the node fetched by a call and the link it was fetched by.
func (in *Interp) fetched(e *Event) (node, link *Term) {
	if e.Kind != "call" || e.Res == nil {
		return nil, nil
	}
	switch {
	case e.Name == "ipld.Link.GetNode":
		return in.resOf(e, 0), e.Args[0]
	case strings.HasSuffix(e.Name, "NodeGetter.Get") || strings.HasSuffix(e.Name, "DAGService.Get"):
		if len(e.Args) < 3 {
			return nil, nil
		}
		x := e.Args[2].peel()
		if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Sym == "Cid" {
			return in.resOf(e, 0), x.Args[0].Args[0]
		}
		return in.resOf(e, 0), x
	}
	return nil, nil
}

func fetchedFrom(e *Event) *Term {
	if e.Name == "ipld.Link.GetNode" {
		return e.Args[2]
	}
	return e.Args[0]
}

func (c *Checker) leafOK(t *Trace, s *snap, name string, nd *Term, p vparams) {
	in := t.In
	raw := in.nodeIs(s, nd, "*dag.RawNode")
	proto := in.nodeIs(s, nd, "*dag.ProtoNode")
	if !c.Ob("leaf-kind", name, raw || proto, t.pos(nil), t, "a leaf is accepted without being known to be a raw block or protobuf node") {
		return
	}
	v, known := in.decide(s, p.get(s, "RawLeaves"))
	c.Ob("leaf-configured", name, known && v == raw, t.pos(nil), t, "a leaf is accepted without being known to be of the configured kind")
	if proto {
		links := in.TS.mk("pure", "Links", nil, nd)
		c.Ob("leaf-no-links", name, in.Prove(s, in.lenOf(links), "<=", in.TS.integer(0)), t.pos(nil), t, "a leaf that may have links is accepted")
		dec := t.decodedOf(nd)
		if c.Ob("leaf-decoded", name, dec != nil, t.pos(nil), t, "a protobuf leaf is accepted without its data having been decoded") {
			poss := c.typesPossible(in, s, dec.obj)
			c.Ob("leaf-raw-type", name, subset(poss, "Raw"), t.pos(nil), t, "a leaf of type %s is accepted", keys(poss))
		}
	}
	c.prefixOK(t, s, name, nd, p, raw)
}

// prefixOK: the node's CID format is the configured one.
func (c *Checker) prefixOK(t *Trace, s *snap, name string, nd *Term, p vparams, raw bool) {
	in := t.In
	pp := p.get(s, "Prefix")
	n, k := in.isNilKnown(s, pp)
	if k && n {
		return
	}
	if !c.Ob("cid-checked", name, k, t.pos(nil), t, "a node is accepted without looking at whether a CID format is configured") {
		return
	}
	var act *Term
	for _, e := range t.Events {
		if e.Kind == "call" && e.Name == "cid.Cid.Prefix" && e.Args[0].Op == "pure" && e.Args[0].Sym == "Cid" && same(e.Args[0].Args[0], nd) {
			act = e.Res
		}
	}
	if !c.Ob("cid-prefix", name, act != nil, t.pos(nil), t, "a node is accepted without looking at its CID's format") {
		return
	}
	st, _ := isStruct(act.Typ)
	ft := func(f string) types.Type {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return st.Field(i).Type()
			}
		}
		return nil
	}
	A := func(f string) *Term { return in.field(act, f, ft(f)) }
	P := func(f string) *Term { return in.fieldVal(s, pp, f) }
	is := func(x *Term, v int64) bool {
		return in.holds(s, in.eq(x, in.TS.constant(intConst(v), x.Typ)))
	}
	eq := func(a, b *Term) bool { return same(a, b) || in.eqKnown(s, a, b) || in.holds(s, in.eq(a, b)) }
	codec := int64(0x70)
	if raw {
		codec = 0x55
	}
	c.Ob("cid-codec", name, is(A("Codec"), codec), t.pos(nil), t, "a node is accepted without its CID's codec being known to be that of its kind")
	c.Ob("cid-hash", name, eq(A("MhType"), P("MhType")), t.pos(nil), t, "a node is accepted without its CID's hash function being known to be the configured one")
	c.Ob("cid-version", name, eq(A("Version"), P("Version")) || raw && is(P("Version"), 0) && is(A("Version"), 1), t.pos(nil), t, "a node is accepted without its CID's version being known to be the configured one")
	c.Ob("cid-hash-length", name, eq(A("MhLength"), P("MhLength")) || is(P("MhLength"), -1), t.pos(nil), t, "a node is accepted without its CID's hash length being known to be the configured one")
}
