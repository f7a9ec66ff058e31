package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C04"] = ruleDef{ruleC04} }

// sizeTerms: declared size, data length and child sizes of the message at obj.
type sizeTerms struct {
	size, data, blocks *Term
}

func (in *Interp) sizesOf(s *snap, obj *Term) sizeTerms {
	return sizeTerms{in.pbField(s, obj, "Filesize"), in.pbField(s, obj, "Data"), in.pbField(s, obj, "Blocksizes")}
}

// sizeBalance: declared size minus data length minus the sum of child sizes
// is the same for b (now) as for a (before), or zero for b. blocks of b are
// read as a sequence over the blocks of a.
func (in *Interp) sizeBalance(t *Trace, a, b sizeTerms) (bool, string) {
	i64 := types.Typ[types.Int64]
	cv := func(x *Term) *Term { return in.convert(x, i64) }
	q := in.replay(t.Events)
	segs := q.norm(q.content(b.blocks))
	if q.bad {
		return false, "the child sizes are edited in a way that cannot be followed"
	}
	add := in.TS.integer(0)
	rest := []seg{}
	for _, g := range segs {
		if g.el != nil {
			add = in.bin(token.ADD, add, cv(g.el), i64)
		} else if g.src == a.blocks {
			rest = append(rest, g)
		} else if !in.Prove(&t.S, q.segLen(g), "<=", in.TS.integer(0)) {
			return false, "the child sizes come from another list"
		}
	}
	n := in.lenOf(a.blocks)
	z := in.TS.integer(0)
	// what of the old list is gone
	gone, all := in.TS.integer(0), false
	switch {
	case a.blocks == b.blocks || len(rest) == 1 && linEqual(rest[0].lo, z) && linEqual(rest[0].hi, n):
	case len(rest) == 0 && a.blocks.isNil():
	case len(rest) == 0:
		all = true
	case len(rest) == 2 && linEqual(rest[0].lo, z) && linEqual(rest[1].hi, n) && linEqual(in.bin(token.SUB, rest[1].lo, rest[0].hi, types.Typ[types.Int]), in.TS.integer(1)):
		gone = cv(in.load(&snap{}, in.indexAddr(a.blocks, rest[0].hi, nil), types.Typ[types.Uint64]))
	case len(rest) == 1 && linEqual(rest[0].lo, z) && linEqual(rest[0].hi, in.bin(token.SUB, n, in.TS.integer(1), types.Typ[types.Int])):
		gone = cv(in.load(&snap{}, in.indexAddr(a.blocks, rest[0].hi, nil), types.Typ[types.Uint64]))
	default:
		return false, "child sizes are dropped in a way that cannot be followed"
	}
	got := cv(b.size)
	now := in.bin(token.ADD, cv(in.lenOf(b.data)), add, i64)
	if linEqual(got, now) && (all || len(rest) == 0) {
		return true, ""
	}
	if all {
		return false, "the declared size after clearing the child sizes is " + short(b.size)
	}
	want := in.bin(token.ADD, cv(a.size), in.bin(token.SUB, now, in.bin(token.ADD, cv(in.lenOf(a.data)), gone, i64), i64), i64)
	if linEqual(got, want) {
		return true, ""
	}
	return false, "the declared size becomes " + short(b.size) + ", not " + short(want)
}

func ruleC04(c *Checker) {
	c.explain = "Relational size accounting. (1) Every exported operation on a UnixFS node keeps declared size minus data length minus the sum of child sizes constant (or makes it zero), computed symbolically with sequence tracking of the child sizes; new nodes and encoders start at zero balance. (2) Every operation of the builder's node keeps its child sizes and its links in the same shape: appended together, removed at the same position, and stores the message it holds. (3) Every (child, size) pair given to AddChild or returned together is one of: leaf and its chunk's length; committed node and its own declared size with no edit in between; the pair another such function returned. (4) In the modifier each re-encoded message keeps its balance, and a rewritten leaf keeps its length."
	c.Assume("sizes fit 63 bits; AddNodeLink appends one link; SetLinks replaces the links")
	// (1) FSNode operations
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || !exported(fn) || !recvIs(fn, "unixfs.FSNode") {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			obj := c.formatAddr(in, t.Args[0])
			a, b := in.sizesOf(&snap{}, obj), in.sizesOf(&t.S, obj)
			if same(a.size, b.size) && same(a.data, b.data) && same(a.blocks, b.blocks) {
				return
			}
			if strings.HasSuffix(name, ".UpdateFilesize") {
				i64 := types.Typ[types.Int64]
				want := in.bin(token.ADD, in.convert(a.size, i64), t.Args[1], i64)
				c.Ob("primitive", name, linEqual(in.convert(b.size, i64), want) && same(a.data, b.data) && same(a.blocks, b.blocks), t.pos(nil), t, "the declared size becomes %s, not %s", short(b.size), short(want))
				return
			}
			ok, why := in.sizeBalance(t, a, b)
			c.Ob("balanced-edit", name, ok, t.pos(nil), t, "%s", why)
		})
	}
	c.Min("balanced-edit", 2)
	c.Run(c.Fn("unixfs.NewFSNode"), Config{}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		b := in.sizesOf(&t.S, c.formatAddr(in, t.Rets[0]))
		v, isC := b.size.Int()
		c.Ob("new-is-empty", "unixfs.NewFSNode", isC && v == 0 && b.data.isNil() && b.blocks.isNil(), t.pos(nil), t, "a new node does not start empty with size zero (%s)", short(b.size))
	})
	// encoders building a message from scratch
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || !exported(fn) || fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "unixfs" || fn.Signature.Recv() != nil || fn.Blocks == nil {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{}, func(t *Trace) {
			in := t.In
			for _, m := range t.marshals() {
				if m.msg != "Data" || baseOf(m.obj).Op != "alloc" || t.decodedObj(m.obj) != nil {
					continue
				}
				poss := c.typesPossible(in, &m.e.S, m.obj)
				if !subset(poss, "File", "Raw") {
					continue
				}
				b := in.sizesOf(&m.e.S, m.obj)
				given := false
				for _, p := range t.Args {
					given = given || same(b.size, p)
				}
				ok, why := in.sizeBalance(t, sizeTerms{in.TS.integer(0), in.TS.nil_(), in.TS.nil_()}, b)
				c.Ob("encoded-size", name, ok || given, t.pos(m.e), t, "a new file message declares another size than its content's: %s", why)
			}
		})
	}
	// a total size given by the caller is consistent at in-repo callers
	for _, site := range c.callSites("unixfs.FilePBData") {
		a := site.Call.Common().Args
		k, ok := a[1].(*ssa.Const)
		n, ok2 := a[0].(*ssa.Const)
		c.Ob("given-size", fnName(site.Parent), ok && ok2 && n.IsNil() && k.Uint64() == 0, c.W.Pos(site.Call.Pos()), nil, "an in-repo caller declares a file size that is not its data's length")
	}
	// (2) builder node operations
	dagF := c.fieldName("helpers", "FSNodeOverDag", "*dag.ProtoNode", "dag")
	fileF := c.fieldName("helpers", "FSNodeOverDag", "*unixfs.FSNode", "file")
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || !exported(fn) || !recvIs(fn, "helpers.FSNodeOverDag") {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			s0 := &snap{}
			nd, file := in.fieldVal(s0, t.Args[0], dagF), in.fieldVal(s0, t.Args[0], fileF)
			nd1, file1 := in.fieldVal(&t.S, t.Args[0], dagF), in.fieldVal(&t.S, t.Args[0], fileF)
			c.Ob("same-parts", name, same(nd, nd1) && same(file, file1), t.pos(nil), t, "the operation replaces the node or its file message")
			obj := c.formatAddr(in, file)
			a, b := in.sizesOf(s0, obj), in.sizesOf(&t.S, obj)
			L0 := in.TS.mk("pure", "Links", nil, nd)
			q := in.replay(t.Events)
			links, okL := q.linksOf(t, nd)
			blocks := q.norm(q.content(b.blocks))
			shape := okL && !q.bad && len(links) == len(blocks)
			if shape {
				for i := range links {
					g, h := links[i], blocks[i]
					if (g.el != nil) != (h.el != nil) {
						shape = false
						break
					}
					if g.el != nil {
						continue
					}
					lenOK := func(x, y *Term) bool {
						// equal, or each is its own list's length
						return linEqual(x, y) || linEqual(x, in.lenOf(L0)) && linEqual(y, in.lenOf(a.blocks))
					}
					shape = shape && g.src == L0 && h.src == a.blocks && lenOK(g.lo, h.lo) && lenOK(g.hi, h.hi)
				}
			}
			c.Ob("links-and-sizes", name, shape, t.pos(nil), t, "the node's links and its recorded child sizes are changed differently")
			if !(same(a.size, b.size) && same(a.data, b.data) && same(a.blocks, b.blocks)) {
				ok, why := in.sizeBalance(t, a, b)
				c.Ob("balanced-edit", name, ok, t.pos(nil), t, "%s", why)
			}
			// one child added: the one given, with the size given
			if len(links) > 0 && links[len(links)-1].el != nil {
				last := blocks[len(blocks)-1].el
				pn, ps := c.onlyParam(fn, "ipld.Node"), c.onlyParam(fn, "uint64")
				c.Ob("adds-what-was-given", name, pn >= 0 && ps >= 0 && last != nil && same(links[len(links)-1].el, t.Args[pn]) && same(last, t.Args[ps]), t.pos(nil), t, "the child or size added is not the one given")
			}
			// committing stores the current message
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasSuffix(e.Name, "ProtoNode.SetData") && same(e.Args[0], nd) {
					ok := false
					for _, m := range t.marshals() {
						ok = ok || same(m.obj, obj) && same(e.Args[1], in.resOf(m.e, 0)) && t.IsNil(in.errOf(m.e)) && m.e.Idx < e.Idx
					}
					c.Ob("stores-own-message", name, ok, t.pos(e), t, "the node's data is set to something other than its encoded message")
				}
			}
			if isPairLike(fn) && !t.Failed() {
				stored := false
				for _, e := range t.Events {
					stored = stored || e.Kind == "call" && strings.HasSuffix(e.Name, "ProtoNode.SetData") && same(e.Args[0], nd)
				}
				if strings.HasSuffix(name, ".Commit") {
					c.Ob("commit-commits", name, stored && same(t.Rets[0], nd), t.pos(nil), t, "committing does not return the node with its message stored")
				}
			}
			if strings.HasSuffix(name, ".FileSize") {
				poss := c.typesPossible(in, &t.S, obj)
				ok := same(t.Rets[0], a.size) || !poss["File"] && !poss["Raw"]
				c.Ob("reports-declared-size", name, ok, t.pos(nil), t, "the size reported for a file node is %s, not its declared size", short(t.Rets[0]))
			}
			if strings.HasSuffix(name, ".NumChildren") {
				c.Ob("reports-children", name, linEqual(t.Rets[0], in.lenOf(a.blocks)) || linEqual(t.Rets[0], in.lenOf(L0)), t.pos(nil), t, "the number of children reported is %s", short(t.Rets[0]))
			}
		})
	}
	c.Min("links-and-sizes", 2)
	c.Min("commit-commits", 1)
	// (3) pairs
	for _, fn := range c.importerFns() {
		fn := fn
		name := fnName(fn)
		pair := isPairFn(fn)
		cfg := importerCfg(fn)
		cfg.MaxVisits = 3
		c.Run(fn, cfg, func(t *Trace) {
			in := t.In
			for _, e := range t.Events {
				if api(e, "AddChild") && recvIs(e.Callee, "helpers.FSNodeOverDag") {
					ok, why := c.isPair(t, e.Args[1], e.Args[2], e.Idx)
					c.Ob("child-with-its-size", name, ok, t.pos(e), t, "a child is added with size %s: %s", short(e.Args[2]), why)
				}
			}
			if pair && t.Outcome == "return" && !t.Failed() {
				if p := t.passThrough(); p != nil && isPairFn(p.Callee) {
					return
				}
				ok, why := c.isPair(t, t.Rets[0], t.Rets[1], len(t.Events))
				c.Ob("node-with-its-size", name, ok, t.pos(nil), t, "the node is returned with size %s: %s", short(t.Rets[1]), why)
			}
			_ = in
		})
	}
	c.Min("child-with-its-size", 1)
	c.Min("node-with-its-size", 2)
	// (4) the modifier's own edits
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "mod" || fn.Parent() != nil || !recursive(fn) || fn.Blocks == nil {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{ExactLoop: true, MaxVisits: 3, Stop: func(g *ssa.Function, d int) bool { return inImporter(g) }}, func(t *Trace) {
			in := t.In
			for _, m := range t.marshals() {
				if m.msg != "Data" {
					continue
				}
				d := t.decodedObj(m.obj)
				b := in.sizesOf(&m.e.S, m.obj)
				a := sizeTerms{in.TS.integer(0), in.TS.nil_(), in.TS.nil_()}
				if d != nil {
					a = in.sizesOf(after(t, d.e), m.obj)
				}
				ok, why := in.sizeBalance(t, a, b)
				c.Ob("balanced-message", name, ok, t.pos(m.e), t, "%s", why)
			}
			// as many child sizes as links
			for _, e := range t.Events {
				if t.Outcome != "return" || t.Failed() || e.Kind != "call" || !strings.HasSuffix(e.Name, "ProtoNode.SetData") {
					continue
				}
				for _, m := range t.marshals() {
					d := t.decodedObj(m.obj)
					if m.msg != "Data" || d == nil || !same(e.Args[1], in.resOf(m.e, 0)) {
						continue
					}
					q := in.replay(t.Events[:m.e.Idx])
					blocks := q.norm(q.content(in.sizesOf(&m.e.S, m.obj).blocks))
					ql := in.replay(t.Events)
					links, ok := ql.linksOf(t, e.Args[0])
					a := in.sizesOf(after(t, d.e), m.obj).blocks
					full := func(g []seg, src *Term) bool {
						return len(g) == 1 && g[0].el == nil && g[0].src == src && linEqual(g[0].lo, in.TS.integer(0)) && linEqual(g[0].hi, in.lenOf(src))
					}
					if full(blocks, a) && full(links, in.TS.mk("pure", "Links", nil, e.Args[0])) {
						continue
					}
					n, k := in.TS.integer(0), in.TS.integer(0)
					for _, g := range blocks {
						n = in.bin(token.ADD, n, q.segLen(g), types.Typ[types.Int])
					}
					for _, g := range links {
						k = in.bin(token.ADD, k, ql.segLen(g), types.Typ[types.Int])
					}
					c.Ob("size-per-link", name, ok && !q.bad && linEqual(n, k), t.pos(e), t, "the node ends with %s links but its message with %s child sizes", short(k), short(n))
				}
			}
			// a rewritten raw leaf keeps its length unless truncated
			if t.Outcome != "return" || t.Failed() {
				return
			}
			if types.TypeString(fn.Signature.Results().At(0).Type(), shortQual) == "cid.Cid" {
				for _, e := range t.Events {
					if e.Kind == "call" && strings.HasPrefix(e.Name, "dag.NewRawNode") {
						pn := c.onlyParam(fn, "ipld.Node")
						if pn < 0 {
							continue
						}
						old := in.TS.mk("pure", "RawData", nil, t.Args[pn])
						_ = old
						l := in.lenOf(e.Args[0])
						c.Ob("leaf-keeps-length", name, in.rawLen(&t.S, l, t.Args[pn]), t.pos(e), t, "a rewritten leaf has length %s, not the old leaf's", short(l))
					}
				}
			}
		})
	}
	c.Min("balanced-message", 2)
	c.Min("leaf-keeps-length", 1)
	c.Min("size-per-link", 1)
}

// linksOf: the links of nd at the end of the path, as a sequence over its
// links at entry.
func (q *seqs) linksOf(t *Trace, nd *Term) ([]seg, bool) {
	in := t.In
	L0 := in.TS.mk("pure", "Links", nil, nd)
	links, ok := []seg{{src: L0, lo: in.TS.integer(0), hi: in.lenOf(L0)}}, true
	for _, e := range t.Events {
		if e.Kind != "call" || len(e.Args) == 0 || !same(e.Args[0], nd) {
			continue
		}
		switch {
		case strings.HasSuffix(e.Name, "ProtoNode.SetLinks"):
			links = q.norm(q.content(e.Args[1]))
		case strings.HasSuffix(e.Name, "ProtoNode.AddNodeLink") || strings.HasSuffix(e.Name, "ProtoNode.AddRawLink"):
			if er := in.errOf(e); t.IsNil(er) {
				links = append(links, seg{el: e.Args[2]})
			} else if !t.NonNil(er) {
				ok = false
			}
		case strings.HasSuffix(e.Name, "ProtoNode.RemoveNodeLink"):
			ok = false
		}
	}
	return links, ok && !q.bad
}

func isPairLike(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && types.TypeString(r.At(0).Type(), shortQual) == "ipld.Node"
}

// rawLen: l is the length of the node's raw data.
func (in *Interp) rawLen(s *snap, l, nd *Term) bool {
	l = l.peel()
	if l.Op == "pure" && l.Sym == "len" {
		x := l.Args[0]
		return x.Op == "pure" && x.Sym == "RawData" && same(x.Args[0], nd)
	}
	return false
}

// decodedObj: the decoding that filled the message at obj on this path.
func (t *Trace) decodedObj(obj *Term) *decode {
	var r *decode
	for _, d := range t.decodes() {
		d := d
		if same(d.obj, obj) {
			r = &d
		}
	}
	return r
}

// passThrough: the path returns exactly the results of its last call.
func (t *Trace) passThrough() *Event {
	if len(t.Rets) == 0 {
		return nil
	}
	x := t.Rets[0]
	if x.Op != "extract" {
		return nil
	}
	for i, r := range t.Rets {
		if r.Op != "extract" || r.Args[0] != x.Args[0] || r.Sym != itoa(i) {
			return nil
		}
	}
	for _, e := range t.Events {
		if e.Kind == "call" && e.Res == x.Args[0] && e.Callee != nil {
			return e
		}
	}
	return nil
}

// edits: does event e change the builder node X?
func editsNode(e *Event, X *Term) bool {
	if e.Kind != "call" {
		return false
	}
	if api(e, "Commit", "FileSize", "NumChildren", "GetDagNode", "GetChild") && recvIs(e.Callee, "helpers.FSNodeOverDag") {
		return false
	}
	for _, a := range e.Args {
		if same(a, X) {
			return true
		}
	}
	return false
}

// isPair: node and size belong together at event index at.
func (c *Checker) isPair(t *Trace, node, size *Term, at int) (bool, string) {
	in := t.In
	size = in.unloop(size)
	prod := func(x *Term) *Event {
		if x.Op != "extract" && x.Op != "call" {
			return nil
		}
		r := x
		if x.Op == "extract" {
			r = x.Args[0]
		}
		for _, e := range t.Events {
			if e.Kind == "call" && e.Res == r {
				return e
			}
		}
		return nil
	}
	clean := func(X *Term, from int) bool {
		for _, e := range t.Events[from+1 : at] {
			if editsNode(e, X) {
				return false
			}
		}
		return true
	}
	fileSizeOf := func(X *Term) (*Event, bool) {
		e := prod(size)
		if e != nil && api(e, "FileSize") && same(e.Args[0], X) {
			return e, true
		}
		return nil, false
	}
	if node.Op == "iface" || node.Op == "makeiface" {
		node = node.peel()
	}
	p := prod(node)
	if p != nil && p.Callee != nil {
		if isPairFn(p.Callee) && node.Op == "extract" && node.Sym == "0" {
			if same(size, in.resOf(p, 1)) {
				if types.TypeString(node.Typ, shortQual) == "*helpers.FSNodeOverDag" && !clean(node, p.Idx) {
					return false, "the node was edited after its size was taken"
				}
				return true, ""
			}
			if e, ok := fileSizeOf(node); ok && clean(node, e.Idx) {
				return true, ""
			}
			return false, "it is not the size returned with the node"
		}
		if api(p, "Commit", "GetDagNode") {
			X := p.Args[0]
			if !clean(X, p.Idx) {
				return false, "the node was edited after it was committed"
			}
			if e, ok := fileSizeOf(X); ok {
				if !clean(X, e.Idx) {
					return false, "the node was edited after its size was taken"
				}
				return true, ""
			}
			q := prod(X)
			if q != nil && q.Callee != nil && isPairFn(q.Callee) && same(size, in.resOf(q, 1)) && clean(X, q.Idx) {
				return true, ""
			}
			return false, "it is not the committed node's own size"
		}
		if api(p, "ProcessFileStore") {
			if !linEqual(in.convert(p.Args[2], types.Typ[types.Int64]), in.convert(size, types.Typ[types.Int64])) {
				return false, "the leaf is stored with another size"
			}
			return c.isPair(t, p.Args[1], size, at)
		}
		if api(p, "NewLeafNode") {
			l := in.convert(in.lenOf(p.Args[1]), types.Typ[types.Uint64])
			if linEqual(l, size) {
				return true, ""
			}
			return false, "it is not the length of the leaf's data"
		}
	}
	if types.TypeString(node.Typ, shortQual) == "*helpers.FSNodeOverDag" {
		if e, ok := fileSizeOf(node); ok && clean(node, e.Idx) {
			return true, ""
		}
	}
	return false, "the child's origin and the size do not match"
}

type callSite struct {
	Call   ssa.CallInstruction
	Parent *ssa.Function
}

// callSites: production call sites of the named function.
func (c *Checker) callSites(name string) []callSite {
	var out []callSite
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil && fnName(s) == name {
						out = append(out, callSite{ci, fn})
					}
				}
			}
		}
	}
	return out
}
