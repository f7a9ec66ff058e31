package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: when directories switch layout, and how.

func init() {
	rules["C18"] = ruleDef{ruleC18}
}

// dirParts names the parts of the directory types by their types.
type dirParts struct {
	c                   *Checker
	node, est           string // BasicDirectory
	shard, change       string // HAMTDirectory
	inner               string // DynamicDirectory
	basicT, hamtT, dynT string
	pkg                 *ssa.Package
}

func newDirParts(c *Checker) *dirParts {
	return &dirParts{c: c, pkg: c.Fn("uio.NewDirectory").Pkg,
		node:   c.fieldName("uio", "BasicDirectory", "*dag.ProtoNode", "node"),
		est:    c.fieldName("uio", "BasicDirectory", "int", "estimatedSize"),
		shard:  c.fieldName("uio", "HAMTDirectory", "*hamt.Shard", "shard"),
		change: c.fieldName("uio", "HAMTDirectory", "int", "sizeChange"),
		inner:  c.fieldName("uio", "DynamicDirectory", "uio.Directory", "Directory"),
		basicT: "*uio.BasicDirectory", hamtT: "*uio.HAMTDirectory", dynT: "*uio.DynamicDirectory",
	}
}

func typStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, shortQual)
}

// recvType is the receiver type of a method, "" for other functions.
func recvType(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return typStr(r.Type())
	}
	return ""
}

// convOf: the function turns one layout into the other.
func (p *dirParts) convOf(fn *ssa.Function) bool {
	r := recvType(fn)
	res := fn.Signature.Results()
	if res.Len() != 2 || !isErr(res.At(1).Type()) {
		return false
	}
	to := typStr(res.At(0).Type())
	return r == p.basicT && to == p.hamtT || r == p.hamtT && to == p.basicT
}

func isHamtFn(f *ssa.Function) bool {
	return f.Pkg != nil && shortPkg(f.Pkg.Pkg.Path()) == "hamt"
}

// sizeOf is the estimate of one entry.
func sizeOf(in *Interp, name, cd *Term) *Term {
	return in.TS.mk("pure", "linksize.LinkSizeFunction", types.Typ[types.Int], name, cd)
}

func (p *dirParts) threshold(in *Interp) *Term {
	g := p.pkg.Var("HAMTShardingSize")
	if g == nil {
		return in.TS.mk("pure", "no threshold", types.Typ[types.Int])
	}
	return in.load(&snap{}, in.TS.mk("global", "uio.HAMTShardingSize", g.Type()), deref(g.Type()))
}

func ruleC18(c *Checker) {
	c.explain = "The estimate of a plain directory is an invariant: on every path of every function of the package that creates one or edits its links, the estimate changes by exactly the sizes of the links added less those removed (linear normal forms over LinkSizeFunction terms); likewise the size change of a sharded directory against Swap and Take. Every path of DynamicDirectory.AddChild and RemoveChild is then judged: a switch to the sharded layout only when the threshold is known non-zero and not above estimate plus new less old entry, staying plain only when it is zero or above; a switch back only after the enumeration of the same directory was read to its end under a context that has not ended, with sum plus change proved below the threshold; on success the pending change is applied once, to the directory then installed, on failure the old directory stays in place. The conversions must carry over every entry under its own name."
	c.Assume("entry names are unique; removing a link that was just looked up does not fail; link size estimates are not negative")
	p := newDirParts(c)
	p.estimates()
	p.changes()
	p.switching()
	p.conversions()
	p.measure()
	c.Min("estimate-exact", 2)
	c.Min("estimate-initial", 1)
	c.Min("change-exact", 2)
	c.Min("switch-decision", 4)
	c.Min("switch-atomic", 2)
	c.Min("conversion-complete", 2)
	c.Min("size-measure", 1)
}

// dirFns lists the functions of the directory package.
func (p *dirParts) fns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.c.W.Fns {
		if p.c.W.production(fn) && fn.Blocks != nil && fn.Pkg != nil && fn.Synthetic == "" && shortPkg(fn.Pkg.Pkg.Path()) == "uio" {
			out = append(out, fn)
		}
	}
	return out
}

// edits sums what a path does to the links of a node, as sizes.
func (p *dirParts) edits(t *Trace, nd *Term) (sum *Term, n int, why string, infeasible bool) {
	in := t.In
	sum = in.TS.integer(0)
	intT := types.Typ[types.Int]
	for i, e := range t.Events {
		if e.Kind != "call" || len(e.Args) == 0 || !strings.HasPrefix(e.Name, "dag.ProtoNode.") || !same(e.Args[0].peel(), nd.peel()) {
			continue
		}
		failed := in.errOf(e) != nil && t.NonNil(in.errOf(e))
		switch strings.TrimPrefix(e.Name, "dag.ProtoNode.") {
		case "AddRawLink":
			if !failed {
				sum = in.bin(token.ADD, sum, sizeOf(in, e.Args[1], in.fieldVal(&e.S, e.Args[2], "Cid")), intT)
				n++
			}
		case "AddNodeLink":
			if !failed {
				sum = in.bin(token.ADD, sum, sizeOf(in, e.Args[1], in.cidOf(e.Args[2])), intT)
				n++
			}
		case "RemoveNodeLink":
			var got *Event
			for _, g := range t.Events[:i] {
				if g.Kind != "call" || len(g.Args) == 0 || !same(g.Args[0].peel(), nd.peel()) {
					continue
				}
				switch g.Name {
				case "dag.ProtoNode.GetNodeLink":
					if same(g.Args[1], e.Args[1]) && t.IsNil(in.errOf(g)) {
						got = g
					}
				case "dag.ProtoNode.AddRawLink", "dag.ProtoNode.AddNodeLink", "dag.ProtoNode.RemoveNodeLink", "dag.ProtoNode.SetLinks":
					got = nil
				}
			}
			if got == nil {
				if failed {
					continue
				}
				return sum, n, "a link is removed that was not looked up", false
			}
			if failed {
				return sum, n, "", true // it was just found
			}
			sum = in.bin(token.SUB, sum, sizeOf(in, e.Args[1], in.fieldVal(&got.S, in.resOf(got, 0), "Cid")), intT)
			n++
		case "SetLinks":
			if !failed {
				return sum, n, "the links are replaced as a whole", false
			}
		}
	}
	return
}

// cidOf: the CID term of a node value.
func (in *Interp) cidOf(nd *Term) *Term { return in.TS.mk("pure", "Cid", nil, nd) }

func (in *Interp) linksOf(nd *Term) *Term { return in.TS.mk("pure", "Links", nil, nd.peel()) }

// normNames: a link found under a name has that name.
func (p *dirParts) normNames(t *Trace, x *Term) *Term {
	in := t.In
	if x == nil {
		return nil
	}
	for _, e := range t.Events {
		if e.Kind != "call" || e.Name != "dag.ProtoNode.GetNodeLink" && e.Name != "hamt.Shard.Find" && e.Name != "hamt.Shard.Take" {
			continue
		}
		l := in.resOf(e, 0)
		nm := in.fieldVal(&snap{}, l, "Name")
		x = in.subst(x, nm, e.Args[len(e.Args)-1])
	}
	return x
}

// subst replaces a subterm.
func (in *Interp) subst(x, old, new *Term) *Term {
	if x == nil || same(x, old) {
		if x == nil {
			return nil
		}
		return new
	}
	if len(x.Args) == 0 || !x.contains(old) {
		return x
	}
	as := make([]*Term, len(x.Args))
	for i, a := range x.Args {
		as[i] = in.subst(a, old, new)
	}
	switch {
	case x.Op == "bin" && x.Sym == "+":
		return in.bin(token.ADD, as[0], as[1], x.Typ)
	case x.Op == "bin" && x.Sym == "-":
		return in.bin(token.SUB, as[0], as[1], x.Typ)
	}
	return in.TS.mk(x.Op, x.Sym, x.Typ, as...)
}

// underflow: the path takes the estimate for negative.
func underflow(t *Trace, est *Term) bool {
	in := t.In
	hit := false
	t.S.facts.each(func(_ int, f fact) {
		x, v := f.t, f.v
		for x.Op == "not" {
			x, v = x.Args[0], !v
		}
		if x.Op == "lt" && v && len(x.Args) == 2 && linEqual(x.Args[1], in.TS.integer(0)) && x.Args[0].contains(est) {
			hit = true
		}
	})
	return hit
}

func (p *dirParts) estimates() {
	c := p.c
	for _, fn := range p.fns() {
		if fn.Parent() != nil {
			continue
		}
		name := fnName(fn)
		on := recvType(fn) == p.basicT && exported(fn)
		makes := false
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			switch typStr(fn.Signature.Results().At(i).Type()) {
			case p.basicT, p.dynT, "uio.Directory":
				makes = true
			}
		}
		if p.convOf(fn) || !on && !makes {
			continue
		}
		cfg := Config{MaxVisits: 3, Arith: true, Stop: func(f *ssa.Function, d int) bool {
			return f != fn && (isHamtFn(f) || recursive(f) || recvType(f) == p.hamtT)
		}}
		c.Run(fn, cfg, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			if on {
				d := t.Args[0]
				e0 := in.fieldVal(&snap{}, d, p.est)
				nd := in.fieldVal(&snap{}, d, p.node)
				if underflow(t, e0) {
					return
				}
				sum, _, why, skip := p.edits(t, nd)
				if skip {
					return
				}
				e1 := in.fieldVal(&t.S, d, p.est)
				ok := why == "" && linEqual(p.normNames(t, e1), p.normNames(t, in.bin(token.ADD, e0, sum, e0.Typ)))
				if !same(in.fieldVal(&t.S, d, p.node).peel(), nd.peel()) {
					ok, why = false, "the node is exchanged"
				}
				if why == "" {
					why = "it becomes " + short(e1)
				}
				c.Ob("estimate-exact", name, ok, t.pos(nil), t, "the size estimate does not follow the links of the directory: %s", why)
			}
			seen := map[*Term]bool{}
			for _, e := range t.Events {
				if e.Kind != "store" || e.Addr.Op != "fieldaddr" || e.Addr.Sym != p.node {
					continue
				}
				d := e.Addr.Args[0]
				if d.Op != "alloc" || typStr(d.Typ) != p.basicT || seen[d] {
					continue
				}
				seen[d] = true
				if t.Failed() {
					continue
				}
				p.initial(fn, t, d)
			}
		})
	}
}

// initial: the estimate of a new directory is that of the links of its node.
func (p *dirParts) initial(fn *ssa.Function, t *Trace, d *Term) {
	in := t.In
	c := p.c
	name := fnName(fn)
	nd := in.fieldVal(&t.S, d, p.node)
	links := in.linksOf(nd)
	if q := nd.peel(); q.Op == "call" && q.Sym == "Copy" {
		links = in.linksOf(q.Args[0])
	}
	var idxs []*Term
	sum := in.TS.integer(0)
	for _, e := range t.Events {
		if e.Kind != "call" || e.Name != "linksize.LinkSizeFunction" {
			continue
		}
		i, l := linkIn(e.Args[0], links)
		if l == nil {
			continue
		}
		if !e.Args[1].contains(l) {
			continue
		}
		idxs = append(idxs, i)
		sum = in.bin(token.ADD, sum, e.Res, types.Typ[types.Int])
	}
	ok, why := in.covers(&t.S, idxs, in.lenOf(links))
	if len(idxs) == 0 && links.Op == "lit" && len(links.Args) == 0 {
		ok = true
	}
	_, n, w2, _ := p.edits(t, nd)
	if n > 0 || w2 != "" {
		ok, why = false, "the links change meanwhile"
	}
	e1 := in.fieldVal(&t.S, d, p.est)
	if ok && !linEqual(in.unloop(e1), sum) && !linEqual(e1, sum) {
		ok, why = false, "it is "+short(e1)
	}
	c.Ob("estimate-initial", name, ok, t.pos(nil), t, "the size estimate of a new directory is not that of its links: %s", why)
}

// linkIn: the link of a list that a value was read from.
func linkIn(x, links *Term) (idx, l *Term) {
	var f func(x *Term) bool
	f = func(x *Term) bool {
		if x == nil {
			return false
		}
		if i, el := elemOf(x, links); el != nil {
			idx, l = i, el
			return true
		}
		for _, a := range x.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	f(x)
	return
}

// changes: the size change of a sharded directory.
func (p *dirParts) changes() {
	c := p.c
	for _, fn := range p.fns() {
		if fn.Parent() != nil || recvType(fn) != p.hamtT || p.convOf(fn) || !exported(fn) {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{Arith: true, Stop: func(f *ssa.Function, d int) bool { return f != fn && (isHamtFn(f) || recursive(f)) }}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			d := t.Args[0]
			c0, c1 := in.fieldVal(&snap{}, d, p.change), in.fieldVal(&t.S, d, p.change)
			sum := in.TS.integer(0)
			n, why := 0, ""
			for _, e := range t.Events {
				if e.Kind != "call" || e.Callee == nil || recvType(e.Callee) != "*hamt.Shard" || !same(e.Args[0], in.fieldVal(&snap{}, d, p.shard)) {
					continue
				}
				er := in.errOf(e)
				if er != nil && (t.NonNil(er) || same(er, t.ErrRet()) && t.Failed()) {
					continue
				}
				switch e.Callee.Name() {
				case "Swap", "Take":
					old := in.resOf(e, 0)
					v, k := in.isNilKnown(&t.S, old)
					if !k {
						why = "the entry replaced is not examined"
						break
					}
					if !v {
						sum = in.bin(token.SUB, sum, sizeOf(in, e.Args[2], in.fieldVal(&e.S, old, "Cid")), sum.Typ)
					}
					if e.Callee.Name() == "Swap" {
						var s *Term
						for _, z := range t.calls("linksize.LinkSizeFunction") {
							if same(z.Args[0], e.Args[2]) && in.isCidOf(z.Args[1], e.Args[3]) {
								s = z.Res
							}
						}
						if s == nil {
							why = "the new entry is not counted"
							break
						}
						sum = in.bin(token.ADD, sum, s, sum.Typ)
					}
					n++
				case "Set", "SetLink", "Remove":
					why = "the entry replaced is not known"
					n++
				}
			}
			if n == 0 && why == "" && same(c0, c1) {
				return
			}
			want := in.bin(token.ADD, c0, sum, c0.Typ)
			ok := why == "" && linEqual(p.normNames(t, c1), p.normNames(t, want))
			if why == "" {
				why = "it becomes " + short(c1)
			}
			c.Ob("change-exact", name, ok, t.pos(nil), t, "the size change does not follow the entries of the directory: %s", why)
		})
	}
}

// isCidOf: c is the CID of node nd.
func (in *Interp) isCidOf(c, nd *Term) bool {
	c = c.peel()
	return (c.Op == "pure" || c.Op == "call") && (c.Sym == "Cid" || strings.HasSuffix(c.Sym, ".Cid")) && len(c.Args) > 0 && same(c.Args[0].peel(), nd.peel())
}

func (p *dirParts) switching() {
	c := p.c
	for _, fn := range p.fns() {
		if fn.Parent() != nil || recvType(fn) != p.dynT || fn.Name() != "AddChild" && fn.Name() != "RemoveChild" {
			continue
		}
		fn := fn
		cfg := Config{MaxVisits: 3, Arith: true, ExactLoop: true, Stop: func(f *ssa.Function, d int) bool {
			if f == fn {
				return false
			}
			return isHamtFn(f) || p.convOf(f) || recursive(f) || exported(f) && f.Parent() == nil && recvType(f) != p.dynT
		}}
		c.Run(fn, cfg, func(t *Trace) {
			if t.Outcome == "return" {
				p.judge(fn, t)
			}
		})
	}
}

// judge decides one path of DynamicDirectory.AddChild or RemoveChild.
func (p *dirParts) judge(fn *ssa.Function, t *Trace) {
	c, in := p.c, t.In
	if len(t.Args) > 3 && t.IsNil(t.Args[3]) {
		return // no node to add: nothing is promised
	}
	name := fnName(fn)
	self := t.Args[0]
	d0 := in.fieldVal(&snap{}, self, p.inner).peel()
	d1 := in.fieldVal(&t.S, self, p.inner).peel()
	at := t.pos(nil)
	op := fn.Name()
	layout := func(d *Term) string { return typStr(in.dynType(&t.S, d)) }
	l0 := layout(d0)
	if l0 == "" { // not told apart: passed on to the directory held
		l0 = typStr(d0.Typ)
	}
	var onOld, onNew []*Event
	for _, e := range t.Events {
		if e.Kind != "call" || len(e.Args) == 0 {
			continue
		}
		n := e.Name[strings.LastIndex(e.Name, ".")+1:]
		if n != "AddChild" && n != "RemoveChild" && n != "SetCidBuilder" || !strings.HasPrefix(e.Name, "uio.") {
			continue
		}
		if same(e.Args[0].peel(), d0) {
			onOld = append(onOld, e)
		} else {
			onNew = append(onNew, e)
		}
	}
	pass := func(e *Event) bool { // the operation, with the arguments given
		if !strings.HasSuffix(e.Name, "."+op) || len(e.Args) != len(t.Args) {
			return false
		}
		for i := 2; i < len(e.Args); i++ {
			if !same(e.Args[i], t.Args[i]) {
				return false
			}
		}
		return true
	}
	done := func(e *Event) bool {
		er := in.errOf(e)
		return er != nil && (t.IsNil(er) || same(t.ErrRet(), er))
	}
	if t.Failed() {
		c.Ob("switch-atomic", name+" failed", same(d1, d0), at, t, "%s exchanges the directory although it fails", name)
		if nd := in.partOf(&snap{}, d0, c.W.ptrTo("uio", "BasicDirectory"), p.node); nd != nil {
			_, n, why, _ := p.edits(t, nd)
			c.Ob("switch-atomic", name+" failed", n == 0 && why == "", at, t, "%s changes the links of the directory although it fails", name)
		}
		ok := len(onOld) == 0 || len(onOld) == 1 && in.errOf(onOld[0]) != nil && same(in.errOf(onOld[0]), t.ErrRet())
		c.Ob("switch-atomic", name+" failed", ok, at, t, "%s changes the directory although it fails", name)
		return
	}
	if same(d1, d0) {
		ok := len(onOld) == 1 && pass(onOld[0]) && done(onOld[0])
		c.Ob("switch-atomic", name+" applied", ok, at, t, "%s does not apply the change once to the directory", name)
		if l0 == p.basicT && op == "AddChild" {
			T, after, why := p.afterwards(t, d0)
			ok := why == "" && (p.zero(t, T) || in.Prove(&t.S, after, "<", T))
			c.Ob("switch-decision", name+" stays plain", ok, at, t, "%s keeps the plain layout although the size may have reached the threshold %s", name, why)
		}
		return
	}
	ok := len(onOld) == 0 && len(onNew) == 1 && pass(onNew[0]) && done(onNew[0]) && same(onNew[0].Args[0].peel(), d1)
	if ok && !t.IsNil(in.errOf(onNew[0])) { // it may have failed
		c.Ob("switch-atomic", name+" failed", false, at, t, "%s exchanges the directory although the change may fail", name)
	}
	c.Ob("switch-atomic", name+" applied", ok, at, t, "%s does not apply the change once to the new directory", name)
	conv := false
	for _, e := range t.Events {
		if e.Kind == "call" && e.Callee != nil && p.convOf(e.Callee) && same(in.resOf(e, 0).peel(), d1) {
			conv = same(e.Args[0].peel(), d0) && t.IsNil(in.errOf(e))
		}
	}
	c.Ob("switch-atomic", name+" converted", conv, at, t, "%s installs a directory that is not the old one converted", name)
	l1 := layout(d1)
	switch {
	case l0 == p.basicT && l1 == p.hamtT:
		T, after, why := p.afterwards(t, d0)
		ok := why == "" && p.nonzero(t, T) && in.Prove(&t.S, T, "<=", after)
		c.Ob("switch-decision", name+" to sharded", ok, at, t, "%s switches to the sharded layout although the size may be below the threshold %s", name, why)
	case l0 == p.hamtT && l1 == p.basicT:
		T, after, why := p.measured(t, d0)
		ok := why == "" && p.nonzero(t, T) && in.Prove(&t.S, after, "<", T)
		c.Ob("switch-decision", name+" to plain", ok, at, t, "%s switches to the plain layout although the size is not known to be below the threshold %s", name, why)
	default:
		c.Ob("switch-decision", name, false, at, t, "%s exchanges the directory for one of the same layout", name)
	}
}

func (p *dirParts) zero(t *Trace, T *Term) bool {
	v, k := t.In.decide(&t.S, t.In.eq(T, t.In.TS.integer(0)))
	return k && v
}

func (p *dirParts) nonzero(t *Trace, T *Term) bool {
	v, k := t.In.decide(&t.S, t.In.eq(T, t.In.TS.integer(0)))
	return k && !v
}

// newSize is the size of the entry being added.
func (p *dirParts) newSize(t *Trace) *Term {
	in := t.In
	if len(t.Args) < 4 {
		return in.TS.integer(0)
	}
	for _, z := range t.calls("linksize.LinkSizeFunction") {
		if same(z.Args[0], t.Args[2]) && in.isCidOf(z.Args[1], t.Args[3]) {
			return z.Res
		}
	}
	return nil
}

// oldSize is the size of the entry in the way, looked up by one of the calls.
func (p *dirParts) oldSize(t *Trace, lookup string, on *Term, absent func(er *Term) bool) (*Term, bool) {
	in := t.In
	for _, e := range t.calls(lookup) {
		if !same(e.Args[0].peel(), on.peel()) || !same(e.Args[len(e.Args)-1], t.Args[2]) {
			continue
		}
		er := in.errOf(e)
		if t.IsNil(er) {
			return sizeOf(in, t.Args[2], in.fieldVal(&e.S, in.resOf(e, 0), "Cid")), true
		}
		if absent(er) {
			return in.TS.integer(0), true
		}
	}
	return nil, false
}

func (t *Trace) isSentinel(er *Term, name string) bool {
	s := t.In.TS.mk("sentinel", name, errType)
	if v, k := t.In.decide(&t.S, t.In.eq(er, s)); k {
		return v
	}
	return false
}

// afterwards: the estimate of the plain directory after the change.
func (p *dirParts) afterwards(t *Trace, d *Term) (T, after *Term, why string) {
	in := t.In
	T = p.threshold(in)
	if p.zero(t, T) {
		return T, nil, ""
	}
	b := p.c.W.ptrTo("uio", "BasicDirectory")
	e0 := in.partOf(&snap{}, d, b, p.est)
	nw := p.newSize(t)
	old, ok := p.oldSize(t, "dag.ProtoNode.GetNodeLink", in.partOf(&snap{}, d, b, p.node), func(er *Term) bool { return t.isSentinel(er, "dag.ErrLinkNotFound") })
	if nw == nil {
		return T, e0, "(the new entry is not counted)"
	}
	if !ok {
		return T, e0, "(the entry replaced is not looked up)"
	}
	intT := types.Typ[types.Int]
	return T, in.bin(token.SUB, in.bin(token.ADD, e0, nw, intT), old, intT), ""
}

// measured: the sum of the entries enumerated, and the change.
func (p *dirParts) measured(t *Trace, d *Term) (T, after *Term, why string) {
	in := t.In
	T = p.threshold(in)
	sh := in.partOf(&snap{}, d, p.c.W.ptrTo("uio", "HAMTDirectory"), p.shard)
	var mk *Event
	for _, e := range t.Events {
		if e.Kind == "call" && e.Res != nil && isStream(e.Res.Typ) && (same(e.Args[0].peel(), d) || same(e.Args[0].peel(), sh.peel())) {
			mk = e
		}
	}
	if mk == nil {
		return T, nil, "(it is not enumerated)"
	}
	closed := false
	intT := types.Typ[types.Int]
	after = in.TS.integer(0)
	var end int
	for _, e := range t.Events[mk.Idx:] {
		if (e.Kind != "recv" && !(e.Kind == "select" && e.Name == "recv")) || e.Addr != mk.Res || closed {
			continue
		}
		if !e.Taken {
			closed, end = true, e.Idx
			continue
		}
		if !t.IsNil(in.field(e.Res, errField(e.Res.Typ), errType)) {
			return T, nil, "(the enumeration failed)"
		}
		lk := in.field(e.Res, linkField(e.Res.Typ), nil)
		s := (*Term)(nil)
		for _, z := range t.calls("linksize.LinkSizeFunction") {
			if isFieldOf(z.Args[0], lk, "Name") && isFieldOf(z.Args[1], lk, "Cid") {
				s = z.Res
			}
		}
		if s == nil {
			return T, nil, "(an entry is not counted)"
		}
		after = in.bin(token.ADD, after, s, intT)
	}
	if !closed {
		return T, nil, "(the enumeration is not read to its end)"
	}
	live := false
	for _, e := range t.Events[end:] {
		live = live || e.Kind == "call" && e.Name == "context.Context.Err" && derives(ctxArg2(mk), e.Args[0]) && !deadlinedWithin(ctxArg2(mk), e.Args[0]) && t.IsNil(e.Res)
	}
	if !live {
		return T, nil, "(the enumeration may have been cut short)"
	}
	nw := p.newSize(t)
	if nw == nil {
		return T, nil, "(the new entry is not counted)"
	}
	old, ok := p.oldSize(t, "hamt.Shard.Find", sh, func(er *Term) bool { return t.isSentinel(er, "os.ErrNotExist") })
	if !ok {
		return T, nil, "(the entry replaced is not looked up)"
	}
	return T, in.bin(token.SUB, in.bin(token.ADD, after, nw, intT), old, intT), ""
}

// partOf: a field of the struct that an interface is known to hold.
func (in *Interp) partOf(s *snap, x *Term, typ types.Type, name string) *Term {
	st, ok := isStruct(deref(typ))
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return in.load(s, in.fieldAddr(x, name, types.NewPointer(st.Field(i).Type())), st.Field(i).Type())
		}
	}
	return nil
}

func (p *dirParts) conversions() {
	c := p.c
	for _, fn := range p.fns() {
		if !p.convOf(fn) {
			continue
		}
		fn := fn
		name := fnName(fn)
		toHamt := recvType(fn) == p.basicT
		cfg := Config{MaxVisits: 3, Arith: true, Stop: func(f *ssa.Function, d int) bool {
			return f != fn && (isHamtFn(f) || recursive(f))
		}}
		c.Run(fn, cfg, func(t *Trace) {
			if t.Outcome != "return" || t.Failed() {
				return
			}
			in := t.In
			at := t.pos(nil)
			d, n := t.Args[0], t.Rets[0].peel()
			p.untouched(t, name, d, toHamt)
			if toHamt {
				sh := in.fieldVal(&t.S, n, p.shard)
				fresh := sh != nil && sh.peel().Op == "extract" && sh.peel().Args[0].Op == "call" && strings.HasPrefix(sh.peel().Args[0].Sym, "hamt.NewShard")
				c.Ob("conversion-complete", name+" fresh", fresh, at, t, "%s does not start from an empty sharded directory", name)
				c.Ob("conversion-complete", name+" change", linEqual(in.fieldVal(&t.S, n, p.change), in.TS.integer(0)), at, t, "the size change of the directory returned by %s is not zero", name)
				links := in.linksOf(in.fieldVal(&snap{}, d, p.node))
				var idxs []*Term
				for _, e := range t.Events {
					if e.Kind != "call" || e.Callee == nil || recvType(e.Callee) != "*hamt.Shard" || sh == nil || !same(e.Args[0], sh) {
						continue
					}
					switch e.Callee.Name() {
					case "SetLink", "Set", "Swap":
						i, l := elemOf(e.Args[3], links)
						ok := e.Callee.Name() == "SetLink" && l != nil && isFieldOf(e.Args[2], l, "Name") && t.IsNil(in.errOf(e))
						c.Ob("conversion-complete", name+" entry", ok, t.pos(e), t, "%s adds something else than the entry in turn under its name", name)
						if ok {
							idxs = append(idxs, i)
						}
					case "Remove", "Take":
						c.Ob("conversion-complete", name+" entry", false, t.pos(e), t, "%s removes an entry", name)
					}
				}
				ok, why := in.covers(&t.S, idxs, in.lenOf(links))
				c.Ob("conversion-complete", name, ok, at, t, "%s does not carry over every entry: %s", name, why)
				return
			}
			// to plain: every link of the enumeration is added
			sh := in.fieldVal(&snap{}, d, p.shard)
			nd := in.fieldVal(&t.S, n, p.node)
			c.Ob("conversion-complete", name+" fresh", nd != nil && p.emptyNode(in, t, nd), at, t, "%s does not start from an empty directory node", name)
			walked := false
			for _, e := range t.Events {
				if e.Kind != "call" || e.Name != "hamt.Shard.ForEachLink" || !same(e.Args[0], sh) || !t.IsNil(in.errOf(e)) {
					continue
				}
				cb := e.Args[len(e.Args)-1].peel()
				if cb.Op != "closure" || cb.Fn == nil || walked {
					c.Ob("conversion-complete", name, !walked, t.pos(e), t, "%s adds the entries twice", name)
					continue
				}
				walked = true
				var ps []*Term
				for i, q := range cb.Fn.Params {
					ps = append(ps, in.TS.mk("param", fnName(cb.Fn)+":"+itoa(i), q.Type()))
				}
				in.RunFrom(e.S, cb.Fn, ps, cb.Args, func(ct *Trace) {
					if ct.Outcome != "return" || ct.Failed() {
						return
					}
					k := 0
					for _, x := range ct.Events {
						if x.Kind == "call" && x.Name == "dag.ProtoNode.AddRawLink" && same(x.Args[0].peel(), nd.peel()) && same(x.Args[2].peel(), ps[len(ps)-1]) && isFieldOf(x.Args[1], ps[len(ps)-1], "Name") {
							k++
						}
					}
					c.Ob("conversion-complete", name+" entry", k == 1, c.W.Pos(cb.Fn.Pos()), ct, "%s goes on without having added an entry under its name", name)
					e0, e1 := in.fieldVal(&e.S, n, p.est), in.fieldVal(&ct.S, n, p.est)
					sum, _, why, skip := p.edits(ct, nd)
					if underflow(ct, e0) || skip {
						return
					}
					if why == "" {
						why = "it becomes " + short(e1)
					}
					c.Ob("estimate-exact", name+" entry", linEqual(p.normNames(ct, e1), p.normNames(ct, in.bin(token.ADD, e0, sum, e0.Typ))), c.W.Pos(cb.Fn.Pos()), ct, "the size estimate of the directory made by %s does not follow its links: %s", name, why)
				})
			}
			if !walked { // or the list of all entries
				for _, e := range t.Events {
					if e.Kind != "call" || e.Name != "hamt.Shard.EnumLinks" || !same(e.Args[0], sh) || !t.IsNil(in.errOf(e)) {
						continue
					}
					links := in.resOf(e, 0)
					var idxs []*Term
					for _, x := range t.calls("dag.ProtoNode.AddRawLink") {
						if i, l := elemOf(x.Args[2], links); l != nil && same(x.Args[0].peel(), nd.peel()) && isFieldOf(x.Args[1], l, "Name") {
							idxs = append(idxs, i)
						}
					}
					walked, _ = in.covers(&t.S, idxs, in.lenOf(links))
				}
			}
			c.Ob("conversion-complete", name, walked, at, t, "%s does not carry over every entry", name)
		})
	}
}

// untouched: a conversion leaves the directory it reads as it is.
func (p *dirParts) untouched(t *Trace, name string, d *Term, plain bool) {
	in := t.In
	ok := true
	if plain {
		_, n, why, _ := p.edits(t, in.fieldVal(&snap{}, d, p.node))
		ok = n == 0 && why == ""
	} else {
		for _, e := range t.Events {
			if e.Kind == "call" && e.Callee != nil && recvType(e.Callee) == "*hamt.Shard" && same(e.Args[0], in.fieldVal(&snap{}, d, p.shard)) {
				switch e.Callee.Name() {
				case "Set", "SetLink", "Swap", "Take", "Remove":
					ok = false
				}
			}
		}
	}
	p.c.Ob("conversion-complete", name+" source", ok, t.pos(nil), t, "%s changes the directory that it converts", name)
}

// emptyNode: the node of an empty directory.
func (p *dirParts) emptyNode(in *Interp, t *Trace, nd *Term) bool {
	nd = nd.peel()
	if nd.Op == "call" && nd.Sym == "Copy" {
		return p.emptyNode(in, t, nd.Args[0])
	}
	return nd.Op == "call" && (nd.Sym == "dag.NodeWithData" || strings.HasSuffix(nd.Sym, "EmptyDirNode")) || nd.Op == "alloc"
}

// measure: the size of an entry.
func (p *dirParts) measure() {
	c := p.c
	for _, fn := range c.W.Fns {
		if fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "uio" || fn.Parent() != nil || !strings.HasPrefix(fn.Name(), "init") || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || g.Name() != "LinkSizeFunction" {
					continue
				}
				f, ok := s.Val.(*ssa.Function)
				if !ok || f.Blocks == nil {
					c.Ob("size-measure", "LinkSizeFunction", false, c.W.Pos(s.Pos()), nil, "the size function is not known")
					continue
				}
				c.Run(f, Config{Arith: true}, func(t *Trace) {
					in := t.In
					var bl *Term
					for _, e := range t.Events {
						if e.Kind == "call" && e.Name == "cid.Cid.ByteLen" && same(e.Args[0], t.Args[1]) {
							bl = e.Res
						}
					}
					ok := t.Outcome == "return" && bl != nil && linEqual(t.Rets[0], in.bin(token.ADD, in.lenOf(t.Args[0]), bl, types.Typ[types.Int]))
					c.Ob("size-measure", fnName(f), ok, c.W.Pos(f.Pos()), t, "the size of an entry is not the length of its name plus that of its CID")
				})
			}
		}
	}
}
