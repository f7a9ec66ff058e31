package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C05"] = ruleDef{ruleC05} }

// reaching: the in-repo functions from which a function satisfying p can be
// reached through static calls and closures.
func (c *Checker) reaching(p func(*ssa.Function) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, fn := range c.W.Fns {
		if p(fn) {
			r[fn] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range c.W.Fns {
			if r[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					hit := false
					if ci, ok := i.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil && r[s] {
							hit = true
						}
					}
					if mc, ok := i.(*ssa.MakeClosure); ok && r[mc.Fn.(*ssa.Function)] {
						hit = true
					}
					if hit && !r[fn] {
						r[fn], ch = true, true
					}
				}
			}
		}
	}
	return r
}

// item: something holding imported data on a path.
type item struct {
	name     string
	node     *Term // builder node or finished node
	pos      *Event
	last     int // index of the last chunk consumption into it; -1 old content
	content  bool
	builder  bool
	fresh    bool
	attached bool
	param    bool
	done     bool  // its content was moved elsewhere
	base     *Term // source node (NewFSNFromDag)
	of       *item // GetChild
	ofIdx    *Term
	dirty    bool
	hole     *item // child taken out and to be put back
	edits    int
	ofEdits  int
}

func ruleC05(c *Checker) {
	c.explain = "(1) The look-ahead of the builder is a state machine over (waiting chunk, source error): the source is asked only when nothing waits and no error is pending, what it returned is kept until handed out, Next hands out the waiting chunk once, a source error is kept and reported, Done is true exactly when nothing waits after asking and no error is pending; nothing else touches that state. (2) A leaf made for a chunk holds exactly that chunk. (3) Linearity: on every successful path of every importer function, each leaf or subtree holding new chunks is attached exactly once (or returned), before any later chunk is taken, after what was there before; a child taken out for extension goes back last. (4) Success of an import is reachable only with Done known true since the last chunk was taken."
	c.Assume("chunker.Splitter.NextBytes returns each chunk once; AddNodeLink appends")
	c.lookahead()
	c.leafContent()
	c.linear()
}

func (c *Checker) lookahead() {
	buf := c.fieldName("helpers", "DagBuilderHelper", "[]byte", "nextData")
	ef := c.fieldName("helpers", "DagBuilderHelper", "error", "recvdErr")
	spl := c.fieldName("helpers", "DagBuilderHelper", "chunker.Splitter", "spl")
	get := func(in *Interp, s *snap, p *Term) (a, b, d *Term) {
		return in.fieldVal(s, p, buf), in.fieldVal(s, p, ef), in.fieldVal(s, p, spl)
	}
	nilAt := func(in *Interp, s *snap, x *Term) bool { n, k := in.isNilKnown(s, x); return k && n || x.isNil() }
	for _, nm := range []string{"helpers.DagBuilderHelper.Done", "helpers.DagBuilderHelper.Next"} {
		fn := c.Fn(nm)
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in, db := t.In, t.Args[0]
			s0 := &snap{}
			b0, e0, sp0 := get(in, s0, db)
			var chunk, cerr *Term
			asked := 0
			for _, e := range t.Events {
				if e.Kind != "call" || !strings.HasSuffix(e.Name, "Splitter.NextBytes") {
					continue
				}
				asked++
				b, er, _ := get(in, &e.S, db)
				c.Ob("asks-when-empty", nm, nilAt(in, &e.S, b) && nilAt(in, &e.S, er) && asked == 1, t.pos(e), t, "the source is asked for a chunk while one is waiting or after it failed")
				c.Ob("asks-own-source", nm, same(e.Args[0], sp0), t.pos(e), t, "another source is read")
				chunk, cerr = in.resOf(e, 0), in.resOf(e, 1)
			}
			b1, e1, sp1 := get(in, &t.S, db)
			c.Ob("source-fixed", nm, same(sp0, sp1), t.pos(nil), t, "the source is replaced")
			cur, ce := b0, e0 // the chunk and error in force
			if asked > 0 {
				cur, ce = chunk, cerr
				eof := nilAt(in, &t.S, cerr) || in.eqKnown(&t.S, cerr, in.TS.mk("sentinel", "io.EOF", cerr.Typ))
				c.Ob("keeps-source-error", nm, same(e1, cerr) || eof && nilAt(in, &t.S, e1), t.pos(nil), t, "an error of the source is dropped")
				if eof {
					ce = in.TS.nil_()
				}
			} else {
				c.Ob("keeps-source-error", nm, same(e1, e0), t.pos(nil), t, "a pending source error is changed")
			}
			if strings.HasSuffix(nm, ".Done") {
				c.Ob("keeps-waiting", nm, same(b1, cur), t.pos(nil), t, "asking whether the source is done loses the waiting chunk")
				for _, v := range []bool{true, false} {
					s := t.S
					if !in.assume(&s, t.Rets[0], v) {
						continue
					}
					bn, bk := in.isNilKnown(&s, cur)
					en, ek := in.isNilKnown(&s, ce)
					bn, bk = bn || cur.isNil(), bk || cur.isNil()
					en, ek = en || ce.isNil(), ek || ce.isNil()
					if v {
						c.Ob("done-means-exhausted", nm, bk && bn && ek && en && asked > 0, t.pos(nil), t, "done is reported although a chunk or an error may be pending, or without asking the source")
					} else {
						c.Ob("not-done-means-more", nm, bk && !bn || ek && !en, t.pos(nil), t, "more data is promised although the source is exhausted")
					}
				}
				return
			}
			if t.Failed() {
				c.Ob("reports-source-error", nm, same(t.ErrRet(), ce), t.pos(nil), t, "another error than the source's is reported")
				return
			}
			c.Ob("hands-out-waiting", nm, same(t.Rets[0], cur), t.pos(nil), t, "the chunk handed out is %s, not the waiting one", short(t.Rets[0]))
			c.Ob("hands-out-once", nm, nilAt(in, &t.S, b1), t.pos(nil), t, "the chunk handed out stays in the look-ahead")
			c.Ob("no-data-after-error", nm, nilAt(in, &t.S, ce), t.pos(nil), t, "a chunk is handed out although the source failed")
		})
	}
	c.Min("done-means-exhausted", 1)
	c.Min("hands-out-once", 1)
	// nothing else touches the look-ahead
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil || !inImporter(fn) {
			continue
		}
		var writes string
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || types.TypeString(deref(fa.X.Type()), shortQual) != "helpers.DagBuilderHelper" {
					continue
				}
				f := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				if f == buf || f == ef || f == spl {
					if al, ok := fa.X.(*ssa.Alloc); ok && f == spl && al != nil {
						continue // construction
					}
					writes = f
				}
			}
		}
		if writes != "" {
			ok := c.onlyVia(fn, map[string]bool{"helpers.DagBuilderHelper.Done": true, "helpers.DagBuilderHelper.Next": true})
			c.Ob("lookahead-private", fnName(fn), ok, c.W.Pos(fn.Pos()), nil, "the look-ahead (%s) is changed outside Done and Next", writes)
		}
	}
	c.Min("lookahead-private", 1)
	if fn := c.Fn("helpers.DagBuilderParams.New"); fn != nil {
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Failed() {
				return
			}
			in := t.In
			b, e, sp := get(in, &t.S, t.Rets[0])
			ps := c.onlyParam(fn, "chunker.Splitter")
			c.Ob("starts-empty", fnName(fn), nilAt(in, &t.S, b) && nilAt(in, &t.S, e) && ps >= 0 && same(sp, t.Args[ps]), t.pos(nil), t, "a new builder does not start with the given source and an empty look-ahead")
		})
	}
}

// onlyVia: fn is one of the named functions or called only from such.
func (c *Checker) onlyVia(fn *ssa.Function, names map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		if names[fnName(f)] {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if exported(f) {
			return false
		}
		n := 0
		for _, s := range c.callSites(fnName(f)) {
			n++
			if !ok(s.Parent) {
				return false
			}
		}
		return n > 0
	}
	return ok(fn)
}

func (c *Checker) leafContent() {
	fn := c.Fn("helpers.DagBuilderHelper.NewLeafNode")
	if fn == nil {
		return
	}
	pd := c.onlyParam(fn, "[]byte")
	pt := -1
	for i, p := range fn.Params {
		if strings.HasSuffix(types.TypeString(p.Type(), shortQual), "Data_DataType") {
			pt = i
		}
	}
	c.Run(fn, Config{}, func(t *Trace) {
		if t.Failed() || pd < 0 || pt < 0 {
			return
		}
		in := t.In
		r := t.Rets[0]
		for _, e := range t.Events {
			if e.Kind == "call" && strings.HasPrefix(e.Name, "dag.NewRawNode") && same(in.resOf(e, 0), r) {
				c.Ob("leaf-holds-chunk", fnName(fn), same(e.Args[0], t.Args[pd]), t.pos(e), t, "the raw leaf holds %s, not the chunk", short(e.Args[0]))
				return
			}
		}
		d := in.load(&t.S, in.TS.mk("fieldaddr", "$Data", nil, r), nil)
		ok, why := false, "its content is not an encoded message"
		for _, m := range t.marshals() {
			if m.msg == "Data" && same(d, in.resOf(m.e, 0)) {
				z := in.sizesOf(&m.e.S, m.obj)
				n := len(in.replay(t.Events[:m.e.Idx]).norm(in.replay(t.Events[:m.e.Idx]).content(z.blocks)))
				ok = same(z.data, t.Args[pd]) && (z.blocks.isNil() || n == 0) && same(in.pbField(&m.e.S, m.obj, "Type"), t.Args[pt])
				why = "its message holds " + short(z.data) + " with type " + short(in.pbField(&m.e.S, m.obj, "Type"))
			}
		}
		c.Ob("leaf-holds-chunk", fnName(fn), ok, t.pos(nil), t, "the leaf does not hold exactly the chunk under the type asked for: %s", why)
	})
	c.Min("leaf-holds-chunk", 1)
	if fn := c.Fn("helpers.DagBuilderHelper.ProcessFileStore"); fn != nil {
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			r, n := t.Rets[0].peel(), t.Args[c.onlyParam(fn, "ipld.Node")]
			ok := same(r, n)
			if !ok && r.Typ != nil && types.TypeString(deref(r.Typ), shortQual) == "posinfo.FilestoreNode" {
				ok = same(in.fieldVal(&t.S, r, "Node"), n)
			}
			c.Ob("filestore-wraps-leaf", fnName(fn), ok, t.pos(nil), t, "the node returned (%s) does not wrap the leaf given", short(r))
		})
		c.Min("filestore-wraps-leaf", 1)
	}
}

func (c *Checker) linear() {
	consumes := c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.DagBuilderHelper.Next" })
	c.demanding(consumes)
	for _, fn := range c.importerFns() {
		name := fnName(fn)
		if !consumes[fn] || name == "helpers.DagBuilderHelper.Next" {
			continue
		}
		if fn.Signature.Recv() == nil && exported(fn) || isPairFn(fn) || recursive(fn) || builderAPI(fn, 0) {
			c.linearFn(fn, consumes)
		}
	}
	c.Min("linear", 3)
	c.Min("exhausted", 1)
}

func isBuilderNode(x *Term) bool {
	return x.Typ != nil && types.TypeString(x.Typ, shortQual) == "*helpers.FSNodeOverDag"
}

// linearFn checks chunk linearity of fn; an entry point may also succeed only
// once the source is exhausted.
func (c *Checker) linearFn(fn *ssa.Function, consumes map[*ssa.Function]bool) {
	name := fnName(fn)
	entry := exported(fn) && fn.Signature.Recv() == nil && hasErrResult(fn.Signature)
	cfg := importerCfg(fn)
	cfg.MaxVisits = 3
	c.Run(fn, cfg, func(t *Trace) {
		if t.Failed() {
			return
		}
		bad, at, tail := c.linearPath(t, consumes)
		c.Ob("linear", name, bad == "", t.pos(at), t, "%s", bad)
		if !entry {
			return
		}
		if tail != "" {
			c.Ob("exhausted", name, false, t.pos(nil), t, "%s", tail)
			return
		}
		c.Ob("exhausted", name, true, t.pos(nil), t, "")
	})
}

// demanding finds the unexported helpers that make a leaf before asking
// whether the source has another chunk: their callers have to know.
func (c *Checker) demanding(consumes map[*ssa.Function]bool) {
	c.demand = map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, fn := range c.importerFns() {
			if exported(fn) || !consumes[fn] || c.demand[fn] || !(isPairFn(fn) || recursive(fn) || builderAPI(fn, 0)) {
				continue
			}
			cfg := importerCfg(fn)
			c.asking = nil
			in := NewInterp(c.W, cfg)
			c.probe = true
			in.Run(fn, func(t *Trace) {
				if !t.Failed() {
					c.linearPath(t, consumes)
				}
			})
			c.probe = false
			c.account(in)
			if c.asking == fn {
				c.demand[fn], again = true, true
			}
		}
	}
}

// demands: fn may rely on its callers knowing that there is another chunk.
func (c *Checker) demands(fn *ssa.Function) bool {
	if c.probe && !exported(fn) {
		c.asking = fn
	}
	return c.demand[fn]
}

// linearPath follows the chunk-holding items along a successful path.
func (c *Checker) linearPath(t *Trace, consumes map[*ssa.Function]bool) (bad string, at *Event, tail string) {
	in := t.In
	items := []*item{}
	byNode := map[*Term]*item{}
	add := func(it *item) *item {
		items = append(items, it)
		byNode[it.node.peel()] = it
		return it
	}
	fail := func(e *Event, s string) {
		if bad == "" {
			bad, at = s, e
		}
	}
	// parameters
	returnsNode := false
	if r := t.Entry.Signature.Results(); r.Len() > 0 {
		switch types.TypeString(r.At(0).Type(), shortQual) {
		case "ipld.Node", "*helpers.FSNodeOverDag":
			returnsNode = true
		}
	}
	for i, a := range t.Args {
		if isBuilderNode(a) && !t.IsNil(a) && i >= 0 {
			if recvIs(t.Entry, "helpers.FSNodeOverDag") {
				continue
			}
			add(&item{name: "the node given", node: a, last: -1, content: true, builder: true, param: true})
		}
	}
	doneAt, doneTrue := -1, false // last Done() and its known answer
	lastTake := -1
	taken := func(e *Event) { lastTake, doneAt, doneTrue = e.Idx, -1, false }
	for _, e := range t.Events {
		if e.Kind != "call" {
			continue
		}
		if er := in.errOf(e); er != nil && t.NonNil(er) {
			continue
		}
		switch {
		case api(e, "Done"):
			if v, k := in.decide(&t.S, in.resOf(e, 0)); k {
				doneAt, doneTrue = e.Idx, v
			}
		case api(e, "NewFSNodeOverDag"):
			add(&item{name: "a new node", node: in.resOf(e, 0), pos: e, last: -1, builder: true, fresh: true})
		case strings.HasSuffix(e.Name, "NewFSNFromDag"):
			add(&item{name: "the existing file", node: in.resOf(e, 0), pos: e, last: -1, builder: true, content: true, base: e.Args[len(e.Args)-1]})
		case api(e, "GetChild"):
			if p := byNode[e.Args[0].peel()]; p != nil {
				add(&item{name: "an existing child", node: in.resOf(e, 0), pos: e, last: -1, builder: true, content: true, of: p, ofIdx: in.unloop(e.Args[2]), ofEdits: p.edits})
			}
		case api(e, "Next"):
			add(&item{name: "a chunk", node: in.resOf(e, 0), pos: e, last: e.Idx, content: true})
			taken(e)
		case api(e, "NewLeafDataNode"):
			if !(doneAt > lastTake && !doneTrue || lastTake < 0 && c.demands(t.Entry)) {
				fail(e, "a leaf is made without knowing that the source has another chunk")
			}
			add(&item{name: "a leaf", node: in.resOf(e, 0), pos: e, last: e.Idx, content: true})
			taken(e)
		case api(e, "NewLeafNode"):
			data := e.Args[1]
			it := add(&item{name: "a leaf", node: in.resOf(e, 0), pos: e, last: -1})
			if src := byNode[data.peel()]; src != nil && src.pos != nil && api(src.pos, "Next") {
				if src.done {
					fail(e, "a chunk is put into two leaves")
				}
				src.done, it.content, it.last = true, true, src.last
				break
			}
			if data.isNil() {
				it.fresh = true
				break
			}
			moved := false
			for _, b := range items {
				if b.base != nil && !b.done && c.dataOf(t, data, b.base) && b.last < 0 && !b.attached && t.noLinks(b.base) {
					b.done, it.content, moved = true, true, true
				}
			}
			if !moved {
				fail(e, "a leaf is made from "+short(data)+", which is not a chunk of the source")
			}
		case api(e, "ProcessFileStore"):
			if it := byNode[e.Args[1].peel()]; it != nil {
				byNode[in.resOf(e, 0).peel()] = it
				it.node = in.resOf(e, 0)
			}
		case api(e, "Commit", "GetDagNode"):
			if it := byNode[e.Args[0].peel()]; it != nil {
				byNode[in.resOf(e, 0).peel()] = it
			}
		case api(e, "AddChild"):
			p, ch := byNode[e.Args[0].peel()], byNode[e.Args[1].peel()]
			if p == nil || ch == nil {
				fail(e, "a child of unknown origin is attached")
				break
			}
			if p.attached {
				fail(e, p.name+" is changed after it was attached")
			}
			if ch.attached {
				fail(e, ch.name+" is attached twice")
			}
			if ch.of != nil && (p.hole != ch || ch.of != p) {
				fail(e, "an existing child is attached again without having been taken out")
			}
			if p.hole != nil && p.hole != ch {
				fail(e, "something else is attached where a child was taken out")
			}
			if p.hole == ch {
				p.hole = nil
			}
			if ch.content {
				for _, x := range t.Events[ch.last+1 : e.Idx] {
					if x.Kind == "call" && x.Callee != nil && x.Idx > ch.last && c.takes(x, consumes) && !(ch.last < 0 && ch.of != nil && x.Idx < ch.pos.Idx) {
						fail(e, ch.name+" is attached after later data was taken from the source")
					}
				}
				if ch.last < 0 && ch.of == nil && (p.content || !p.fresh) {
					fail(e, "old content is attached after other content")
				}
			}
			ch.attached = true
			p.content, p.last = true, max(p.last, ch.last)
			p.edits++
		case api(e, "RemoveChild"):
			p := byNode[e.Args[0].peel()]
			if p == nil {
				break
			}
			var b *item
			for _, x := range items {
				if x.of == p && !x.attached && linEqual(x.ofIdx, in.unloop(e.Args[1])) && x.ofEdits == p.edits {
					b = x
				}
			}
			if b == nil {
				fail(e, "a child is removed whose content is not kept")
				break
			}
			if !c.lastIndex(t, p.node, e.Args[1]) {
				fail(e, "the child taken out is not the last one")
			}
			p.hole = b
			p.edits++
		default:
			if e.Callee == nil || !c.takes(e, consumes) {
				break
			}
			if c.demand[e.Callee] && !(doneAt > lastTake && !doneTrue || lastTake < 0 && c.demands(t.Entry)) {
				fail(e, "a leaf may be made without knowing that the source has another chunk")
			}
			var X *item
			for _, a := range e.Args {
				if it := byNode[a.peel()]; it != nil && isBuilderNode(a) {
					X = it
				}
			}
			taken(e)
			if X != nil {
				if X.attached {
					fail(e, X.name+" is extended after it was attached")
				}
				if X.hole != nil {
					fail(e, "more data is added where a child was taken out")
				}
				X.content, X.last, X.dirty = true, e.Idx, true
				X.edits++
			}
			if isPairFn(e.Callee) || resultIsNode(e.Callee) {
				if X != nil {
					byNode[in.resOf(e, 0).peel()] = X
				} else {
					add(&item{name: "a subtree", node: in.resOf(e, 0), pos: e, last: e.Idx, content: true})
				}
			}
			// a callee known to run until the source is exhausted
			if c.exhausts(e, consumes) {
				doneAt, doneTrue = e.Idx+1, true
			}
		}
	}
	var R *item
	if returnsNode {
		R = byNode[t.Rets[0].peel()]
		if R == nil {
			fail(nil, "the node returned is not the one that was built ("+short(t.Rets[0])+")")
		}
	}
	for _, it := range items {
		if it.hole != nil {
			fail(nil, "a child that was taken out is not put back")
		}
		if !it.content || it.done || it == R {
			if it == R && it.attached {
				fail(nil, "the node returned is also attached elsewhere")
			}
			continue
		}
		if it.attached || it.param && !returnsNode || it.of != nil && !it.dirty {
			continue
		}
		fail(it.pos, it.name+" is built or extended but not part of the result")
	}
	if !(doneTrue && doneAt > lastTake) {
		tail = "success is reported although the source may have more chunks"
	}
	return
}

func resultIsNode(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && (types.TypeString(r.At(0).Type(), shortQual) == "ipld.Node" || types.TypeString(r.At(0).Type(), shortQual) == "*helpers.FSNodeOverDag")
}

// takes: the call may take chunks from the source.
func (c *Checker) takes(e *Event, consumes map[*ssa.Function]bool) bool {
	return e.Kind == "call" && e.Callee != nil && consumes[e.Callee]
}

// dataOf: data is the file data held by the message of base.
func (c *Checker) dataOf(t *Trace, data, base *Term) bool {
	in := t.In
	for _, d := range t.decodes() {
		if same(in.pbField(after(t, d.e), d.obj, "Data"), data) || same(in.pbField(&t.S, d.obj, "Data"), data) {
			return c.decodedFrom(t, d, base)
		}
	}
	return false
}

func (c *Checker) decodedFrom(t *Trace, d decode, base *Term) bool {
	x := d.e.Args[0]
	return x.Op == "pure" && x.Sym == "Data" && same(x.Args[0], base)
}

// noLinks: the path knows that nd has no links.
func (t *Trace) noLinks(nd *Term) bool {
	in := t.In
	l := in.lenOf(in.TS.mk("pure", "Links", nil, nd))
	return in.Prove(&t.S, l, "<=", in.TS.integer(0))
}

// lastIndex: i is the number of children of X, less one.
func (c *Checker) lastIndex(t *Trace, X, i *Term) bool {
	in := t.In
	for _, e := range t.Events {
		if api(e, "NumChildren") && same(e.Args[0], X) && linEqual(in.unloop(i), in.bin(token.SUB, in.resOf(e, 0), in.TS.integer(1), types.Typ[types.Int])) {
			return true
		}
	}
	return false
}

// exhausts: the callee, with the constants given, returns successfully only
// when the source is exhausted.
func (c *Checker) exhausts(e *Event, consumes map[*ssa.Function]bool) bool {
	key := fnName(e.Callee)
	consts := make([]*Term, len(e.Args))
	n := 0
	for i, a := range e.Args {
		if v, ok := a.Int(); ok {
			consts[i] = a
			key += "," + itoa(i) + "=" + itoa(int(v))
			n++
		}
	}
	if c.memo == nil {
		c.memo = map[string]bool{}
	}
	if v, ok := c.memo[key]; ok {
		return v
	}
	if c.memo["~"+key] {
		return false
	}
	c.memo["~"+key] = true
	ok, seen := true, 0
	cfg := importerCfg(e.Callee)
	cfg.MaxVisits = 3
	in := NewInterp(c.W, cfg)
	var args []*Term
	for i, p := range e.Callee.Params {
		if i < len(consts) && consts[i] != nil {
			args = append(args, consts[i])
		} else {
			args = append(args, in.paramTerm(e.Callee, i, p))
		}
	}
	in.RunFrom(snap{}, e.Callee, args, nil, func(t *Trace) {
		if t.Failed() {
			return
		}
		seen++
		if _, _, tail := c.linearPath(t, consumes); tail != "" {
			ok = false
		}
	})
	c.account(in)
	ok = ok && !in.Stats.Truncated
	c.memo[key] = ok && seen > 0
	return c.memo[key]
}
