package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ruleC21(c *Checker) {
	m := c.modRules()
	c.explain = "Position invariant of the modifier, assumed at entry and proved (linear arithmetic) at every exit of each exported method: pending bytes form one run ending at the current position, an open reader stands at the current position, and both positions agree when nothing is pending. Writes go to the buffer at the requested position, pending bytes are only replaced by a write covering them, positions returned by Seek follow whence, gaps are filled with exactly as many zeros as are missing, and a flush overwrites from the first pending byte on: the recursive walk passes each child its own relative offset, visits every child overlapped until the bytes are used up, and leaves all other bytes of a leaf alone; the rest is appended."
	c.Assume("bytes.Buffer, DagReader and merkledag calls by contract; sizes and positions fit 63 bits")
	if fn := c.Fn("mod.NewDagModifier"); fn != nil {
		c.Run(fn, Config{Math: true}, func(t *Trace) {
			if t.Failed() || t.Outcome != "return" {
				return
			}
			in := t.In
			dm := t.Rets[0]
			ok := in.get0(&t.S, dm, m.buf) && in.proveEq(&t.S, m.get(in, &t.S, dm, m.start), m.get(in, &t.S, dm, m.pos)) && in.get0(&t.S, dm, m.read)
			p, isC := m.get(in, &t.S, dm, m.pos).Int()
			c.Ob("starts-at-zero", fnName(fn), ok && isC && p == 0, t.pos(nil), t, "a new modifier does not start at position 0 with nothing pending")
		})
	}
	c.Min("starts-at-zero", 1)
	for _, fn := range m.methods() {
		fn := fn
		name := fnName(fn)
		m.run(fn, func(t *Trace, dm *Term) {
			in := t.In
			s := &t.S
			ok, why := m.positionKept(in, s, dm)
			c.Ob("pending-run", name, ok, t.pos(nil), t, "%s", why)
			// an open reader stands at the position
			r := m.get(in, s, dm, m.read)
			if n, k := in.isNilKnown(s, r); !(k && n) && !r.isNil() {
				p := m.readerPos(t, dm, r, s)
				c.Ob("reader-position", name, p != nil && in.proveEq(s, p, m.get(in, s, dm, m.pos)), t.pos(nil), t, "the reader kept stands at %s, the position is %s", short(p), short(m.get(in, s, dm, m.pos)))
			}
			for _, e := range t.Events {
				if isReaderCall(e, "Read", "CtxReadFull", "WriteTo") {
					var before *Term
					tt := *t
					tt.Events = t.Events[:e.Idx]
					before = m.readerPos(&tt, dm, e.Args[0], &e.S)
					c.Ob("reads-at-position", name, before != nil && in.proveEq(s, before, m.get(in, &e.S, dm, m.pos)), t.pos(e), t, "data is read at %s, the position is %s", short(before), short(m.get(in, &e.S, dm, m.pos)))
					b := c.onlyParam(fn, "[]byte")
					if b >= 0 {
						c.Ob("reads-into-buffer", name, same(e.Args[len(e.Args)-1], t.Args[b]) && same(t.Rets[0], in.resOf(e, 0)), t.pos(e), t, "data is read into another buffer, or another count is reported")
					}
				}
			}
			m.pendingKept(t, dm, fn)
			m.gaps(t, dm, fn)
			switch fn.Name() {
			case "Write", "WriteAt":
				m.written(t, dm, fn)
			case "Seek":
				m.seeked(t, dm, fn)
			case "Sync":
				m.flushed(t, dm, fn)
			}
		})
	}
	for _, fn := range m.walks("cid.Cid") {
		m.overwrite(fn)
	}
	c.Min("pending-run", 2)
	c.Min("reader-position", 1)
	c.Min("reads-at-position", 1)
	c.Min("written-at", 1)
	c.Min("seek-target", 1)
	c.Min("gap", 1)
	c.Min("flush-at-start", 1)
	c.Min("flush-complete", 1)
	c.Min("child-offset", 1)
	c.Min("leaf-overwrite", 1)
	c.Min("pending-kept", 1)
}

// get0: the field is known to be nil.
func (in *Interp) get0(s *snap, obj *Term, f string) bool {
	v := in.fieldVal(s, obj, f)
	n, k := in.isNilKnown(s, v)
	return v.isNil() || k && n
}

// pendingKept: pending bytes go away only by flushing or by being
// overwritten.
func (m *modRules) pendingKept(t *Trace, dm *Term, fn *ssa.Function) {
	in, c := t.In, m.c
	name := fnName(fn)
	covered := func(e *Event) bool {
		buf := m.get(in, &e.S, dm, m.buf)
		l := in.bufLenAt(&e.S, buf)
		if in.Prove(&e.S, l, "<=", in.TS.integer(0)) {
			return true
		}
		p := c.onlyParam(fn, "[]byte")
		if p < 0 || !in.Prove(&e.S, l, "<=", in.lenOf(t.Args[p])) {
			return false
		}
		// the bytes given follow at the same place
		for _, w := range t.Events[e.Idx+1:] {
			if w.Kind == "call" && w.Name == "bytes.Buffer.Write" && same(w.Args[0], m.get(in, &w.S, dm, m.buf)) && same(w.Args[1], t.Args[p]) {
				return in.proveEq(&w.S, m.get(in, &w.S, dm, m.pos), m.get(in, &e.S, dm, m.start)) && in.proveEq(&w.S, m.get(in, &w.S, dm, m.start), m.get(in, &e.S, dm, m.start))
			}
			if w.Kind == "ret" {
				break
			}
		}
		return false
	}
	for _, e := range t.Events {
		if e.Kind == "call" && (e.Name == "bytes.Buffer.Reset" || e.Name == "bytes.Buffer.Truncate" || e.Name == "bytes.Buffer.Next") && same(e.Args[0], m.get(in, &e.S, dm, m.buf)) {
			c.Ob("pending-kept", name, covered(e), t.pos(e), t, "pending bytes are discarded without being written or overwritten")
		}
		if isFieldStore(e, dm, m.buf) && fn.Name() != "Sync" {
			// a flush inlined into another method is checked as Sync only
			old := m.get(in, prior(t, e), dm, m.buf)
			n, k := in.isNilKnown(&e.S, old)
			c.Ob("pending-kept", name, k && n || old.isNil(), t.pos(e), t, "the pending bytes are replaced")
		}
	}
}

// prior is the state before a store.
func prior(t *Trace, e *Event) *snap {
	if e.Idx == 0 {
		return &snap{}
	}
	for i := e.Idx - 1; i >= 0; i-- {
		return &t.Events[i].S
	}
	return &snap{}
}

// gaps: zeros are appended only to fill what is missing.
func (m *modRules) gaps(t *Trace, dm *Term, fn *ssa.Function) {
	in, c := t.In, m.c
	name := fnName(fn)
	i64 := types.Typ[types.Int64]
	for _, x := range m.appends(t) {
		if x.amount == nil {
			if fn.Name() == "Sync" {
				continue // the pending bytes, see flushed
			}
			c.Ob("gap", name, false, t.pos(x.e), t, "something other than zeros is appended outside a flush")
			continue
		}
		have := in.convert(in.fsize(m.orig(x.node)), i64)
		var want *Term
		switch fn.Name() {
		case "Sync":
			want = m.get(in, &x.e.S, dm, m.start)
		case "WriteAt":
			want = t.Args[c.onlyParam(fn, "int64")]
		case "Truncate":
			want = t.Args[c.onlyParam(fn, "int64")]
		default:
			// the position reached at the end
			want = m.get(in, &t.S, dm, m.pos)
			if t.Failed() {
				continue
			}
		}
		miss := in.bin(token.SUB, in.convert(want, i64), have, i64)
		s := after(t, x.e)
		c.Ob("gap", name, x.zeros && in.proveEq(s, in.convert(x.amount, i64), miss), t.pos(x.e), t, "%s bytes are appended to the file of size %s to reach %s", short(x.amount), short(have), short(want))
	}
}

// orig follows copies.
func (m *modRules) orig(x *Term) *Term {
	x = x.peel()
	for isCopy(x) {
		x = x.Args[0].peel()
	}
	return x
}

// written: the bytes given are buffered at the requested position.
func (m *modRules) written(t *Trace, dm *Term, fn *ssa.Function) {
	in, c := t.In, m.c
	name := fnName(fn)
	b := t.Args[c.onlyParam(fn, "[]byte")]
	off := m.get(in, &snap{}, dm, m.pos)
	if i := c.onlyParam(fn, "int64"); i >= 0 {
		off = in.convert(t.Args[i], types.Typ[types.Uint64])
		if !t.Failed() {
			c.Ob("negative-refused", name, in.Prove(&t.S, in.TS.integer(0), "<=", t.Args[i]), t.pos(nil), t, "a negative position is accepted")
		}
	}
	var ws []*Event
	for _, e := range t.Events {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "bytes.Buffer.Write") {
			ws = append(ws, e)
		}
	}
	for _, e := range ws {
		s := &e.S
		buf := m.get(in, s, dm, m.buf)
		ok := e.Name == "bytes.Buffer.Write" && same(e.Args[0], buf) && same(e.Args[1], b)
		c.Ob("written-at", name, ok, t.pos(e), t, "something other than the bytes given is buffered")
		end := in.bin(token.ADD, m.get(in, s, dm, m.start), in.convert(in.bufLenAt(s, buf), types.Typ[types.Uint64]), types.Typ[types.Uint64])
		s2 := after(t, e)
		c.Ob("written-at", name, in.proveEq(s2, end, off), t.pos(e), t, "the bytes are buffered for position %s, not %s", short(end), short(off))
	}
	if t.Failed() {
		return
	}
	c.Ob("written-at", name, len(ws) == 1, t.pos(nil), t, "the bytes given are buffered %d times", len(ws))
	n := in.lenOf(b)
	c.Ob("written-at", name, in.proveEq(&t.S, t.Rets[0], n), t.pos(nil), t, "%s is reported as written", short(t.Rets[0]))
	end := in.bin(token.ADD, off, in.convert(n, off.Typ), types.Typ[types.Uint64])
	p := m.get(in, &t.S, dm, m.pos)
	c.Ob("written-at", name, in.proveEq(&t.S, p, end), t.pos(nil), t, "the position after the write is %s", short(p))
}

// seeked: the new position follows whence and is not negative.
func (m *modRules) seeked(t *Trace, dm *Term, fn *ssa.Function) {
	if t.Failed() {
		return
	}
	in, c := t.In, m.c
	name := fnName(fn)
	i64 := types.Typ[types.Int64]
	off, whence := t.Args[c.onlyParam(fn, "int64")], t.Args[c.onlyParam(fn, "int")]
	s := &t.S
	p := in.convert(m.get(in, s, dm, m.pos), i64)
	p0 := in.convert(m.get(in, &snap{}, dm, m.pos), i64)
	// the size of the file before it was extended
	size := in.convert(in.fsize(m.get(in, s, dm, m.node)), i64)
	for _, x := range m.appends(t) {
		size = in.convert(in.fsize(m.orig(x.node)), i64)
		break
	}
	known := false
	for w, base := range []*Term{in.TS.integer(0), p0, size} {
		if in.holds(s, in.eq(whence, in.TS.integer(int64(w)))) {
			known = true
			want := in.bin(token.ADD, base, off, i64)
			c.Ob("seek-target", name, in.proveEq(s, p, want) && in.proveEq(s, t.Rets[0], want), t.pos(nil), t, "the position becomes %s, not %s", short(p), short(want))
		}
	}
	c.Ob("seek-target", name, known, t.pos(nil), t, "an unknown whence is accepted")
	c.Ob("negative-refused", name, in.Prove(s, in.TS.integer(0), "<=", t.Rets[0]), t.pos(nil), t, "a negative position is accepted")
	// the file reaches that far
	now := in.convert(in.fsize(m.get(in, s, dm, m.node)), i64)
	grown := len(m.appends(t)) > 0
	c.Ob("seek-target", name, grown || in.Prove(s, p, "<=", now), t.pos(nil), t, "the position may lie behind the end of the file")
}

// flushed: the walk starts at the first pending byte on the current node and
// what it leaves is appended.
func (m *modRules) flushed(t *Trace, dm *Term, fn *ssa.Function) {
	in, c := t.In, m.c
	name := fnName(fn)
	if t.Failed() || m.bufNil(in, &snap{}, dm) {
		return
	}
	if n, k := in.isNilKnown(&t.S, m.get(in, &snap{}, dm, m.buf)); k && n {
		return
	}
	var walk *Event
	for _, e := range t.Events {
		if e.Kind == "call" && e.Callee != nil && inMod(e.Callee) && recursive(e.Callee) && returnsCid(e.Callee) {
			c.Ob("flush-at-start", name, walk == nil, t.pos(e), t, "the pending bytes are written twice")
			walk = e
		}
	}
	if walk == nil {
		c.Ob("flush-at-start", name, false, t.pos(nil), t, "pending bytes are dropped without being written")
		return
	}
	nd := walk.Args[c.onlyParam(walk.Callee, "ipld.Node")]
	off := walk.Args[c.onlyParam(walk.Callee, "uint64")]
	start := m.get(in, &snap{}, dm, m.start)
	c.Ob("flush-at-start", name, m.isCurrent(in, &walk.S, dm, nd) && in.proveEq(&walk.S, off, start), t.pos(walk), t, "the pending bytes are written to %s at %s", short(nd), short(off))
	b0 := m.get(in, &snap{}, dm, m.buf)
	c.Ob("flush-at-start", name, same(m.get(in, &walk.S, dm, m.buf), b0) && in.proveEq(&walk.S, in.bufLenAt(&walk.S, b0), in.bufLenAt(&snap{}, b0)), t.pos(walk), t, "pending bytes are gone before they are written")
	// the file reaches the start
	reach := in.Prove(&walk.S, start, "<=", in.fsize(m.orig(nd)))
	for _, x := range m.appends(t) {
		reach = reach || x.e.Idx < walk.Idx && x.amount != nil && same(m.orig(in.resOf(x.e, 0)), m.orig(nd))
	}
	c.Ob("flush-at-start", name, reach, t.pos(walk), t, "bytes are written behind the end of the file")
	// the rest
	k := in.resOf(walk, 0)
	isGot := func(x *Term) bool {
		x = m.orig(x)
		return x.Op == "extract" && x.Args[0].Op == "call" && strings.HasSuffix(x.Args[0].Sym, ".Get") && same(x.Args[0].Args[2], k)
	}
	final := m.get(in, &t.S, dm, m.node)
	rest := false
	for _, x := range m.appends(t) {
		if x.e.Idx < walk.Idx {
			continue
		}
		rest = true
		fromBuf := false
		for _, e := range t.Events {
			if e.Kind == "call" && e.Name == "dyn" && len(e.Args) == 1 && same(e.Args[0].peel(), b0) && e.Idx > walk.Idx && e.Idx < x.e.Idx {
				for _, b := range t.Events[:x.e.Idx] {
					fromBuf = fromBuf || b.Kind == "call" && strings.HasSuffix(b.Name, "DagBuilderParams.New") && same(in.resOf(b, 0), x.e.Args[2]) && same(b.Args[1].peel(), e.Res)
				}
			}
		}
		c.Ob("flush-complete", name, fromBuf && isGot(x.node), t.pos(x.e), t, "what is appended is not the rest of the pending bytes, or not to the node just written")
		c.Ob("flush-complete", name, same(m.orig(final), m.orig(in.resOf(x.e, 0))), t.pos(nil), t, "the node with the rest appended is not installed")
	}
	if !rest {
		left := in.bufLenAt(after(t, walk), b0)
		c.Ob("flush-complete", name, in.Prove(&t.S, left, "<=", in.TS.integer(0)), t.pos(nil), t, "pending bytes behind the end of the file are dropped")
		c.Ob("flush-complete", name, isGot(final), t.pos(nil), t, "the node written is not installed (%s)", short(final))
	}
}

// fetched: x is the node fetched through the i-th link of nd.
func (in *Interp) fetchedChild(t *Trace, x, nd *Term) *Term {
	x = x.peel()
	L := in.TS.mk("pure", "Links", nil, nd)
	for _, e := range t.Events {
		if e.Kind != "call" || in.resOf(e, 0) == nil || !same(in.resOf(e, 0).peel(), x) {
			continue
		}
		var l *Term
		switch {
		case strings.HasSuffix(e.Name, "Link.GetNode"):
			l = e.Args[0]
		case strings.HasSuffix(e.Name, ".Get") && len(e.Args) > 2:
			l = e.Args[2]
		default:
			continue
		}
		// the index of the link the term is read from
		for l != nil {
			l = l.peel()
			if l.Op == "load" && len(l.Args) > 0 && l.Args[0].Op == "indexaddr" {
				if same(l.Args[0].Args[0], L) {
					return in.unloop(l.Args[0].Args[1])
				}
				return nil
			}
			if l.Op == "index" && same(l.Args[0], L) {
				return in.unloop(l.Args[1])
			}
			if (l.Op == "load" || l.Op == "field" || l.Op == "fieldaddr" || l.Op == "indexaddr") && len(l.Args) > 0 {
				if l.Op == "indexaddr" && same(l.Args[0], L) {
					return in.unloop(l.Args[1])
				}
				l = l.Args[0]
				continue
			}
			return nil
		}
	}
	return nil
}

// overwrite: the walk writing pending bytes over a file.
func (m *modRules) overwrite(fn *ssa.Function) {
	c := m.c
	name := fnName(fn)
	cfg := m.cfg(fn, true)
	cfg = m.walkCfg(cfg)
	pn, po := c.onlyParam(fn, "ipld.Node"), c.onlyParam(fn, "uint64")
	c.Run(fn, cfg, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		in := t.In
		nd, off := t.Args[pn].peel(), t.Args[po]
		s := &t.S
		links := in.TS.mk("pure", "Links", nil, nd)
		leaf := in.Prove(s, in.lenOf(links), "<=", in.TS.integer(0))
		u64 := types.Typ[types.Uint64]
		if v, k := in.decide(s, in.eq(in.TS.integer(0), in.lenOf(links))); leaf && k && !v {
			return // contradictory facts: the path does not exist
		}
		if leaf {
			var rd *Event
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "bytes.Buffer.") && e.Name != "bytes.Buffer.Len" {
					c.Ob("leaf-overwrite", name, rd == nil && e.Name == "bytes.Buffer.Read", t.pos(e), t, "pending bytes are used twice")
					rd = e
				}
			}
			if rd == nil {
				c.Ob("leaf-overwrite", name, false, t.pos(nil), t, "no pending bytes reach the leaf")
				return
			}
			root, lo := sliceRoot(rd.Args[1])
			if lo == nil {
				lo = in.TS.integer(0)
			}
			hi := in.lenOf(root)
			if rd.Args[1].Op == "slice" {
				hi = rd.Args[1].Args[2]
			}
			var orig *Term
			for _, d := range t.decodes() {
				if t.IsNil(d.err) {
					orig = in.sizesOf(after(t, d.e), d.obj).data
				}
			}
			// the data of the new leaf
			var out *Term
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "dag.NewRawNode") {
					out = e.Args[0]
					orig = in.TS.mk("pure", "RawData", nil, nd, in.TS.integer(0))
				}
			}
			for _, mm := range t.marshals() {
				if mm.msg == "Data" {
					out = in.sizesOf(&mm.e.S, mm.obj).data
				}
			}
			if out == nil || orig == nil {
				c.Ob("leaf-overwrite", name, false, t.pos(nil), t, "the rewritten leaf cannot be followed")
				return
			}
			oroot, olo := sliceRoot(out)
			okD := same(oroot, root) && (olo == nil || in.proveEq(s, olo, in.TS.integer(0)))
			okD = okD && in.proveEq(s, in.convert(lo, u64), off) && in.proveEq(s, hi, in.lenOf(out))
			c.Ob("leaf-overwrite", name, okD, t.pos(rd), t, "pending bytes are read into %s of a leaf asked to change at %s", short(rd.Args[1]), short(off))
			// everything else is as before
			n := in.resOf(rd, 0)
			q := in.replay(t.Events)
			segs := q.norm(q.content(out))
			acc, good := in.TS.integer(0), !q.bad
			tint := types.Typ[types.Int]
			for _, g := range segs {
				end := in.bin(token.ADD, acc, q.segLen(g), tint)
				switch {
				case g.el == nil && g.src == orig:
					good = good && in.proveEq(s, g.lo, acc)
				case g.el == nil && g.src == root:
					good = good && in.Prove(s, in.convert(off, tint), "<=", acc) && in.Prove(s, end, "<=", in.bin(token.ADD, in.convert(off, tint), n, tint))
				default:
					good = false
				}
				acc = end
			}
			c.Ob("leaf-overwrite", name, good && in.proveEq(s, acc, in.lenOf(orig)), t.pos(rd), t, "bytes of the leaf outside the part written change")
			return
		}
		// inner node
		var blocks *Term
		for _, d := range t.decodes() {
			if t.IsNil(d.err) {
				blocks = in.sizesOf(after(t, d.e), d.obj).blocks
			}
		}
		if blocks == nil {
			c.Ob("child-offset", name, false, t.pos(nil), t, "the child sizes are not read")
			return
		}
		prefix := func(i int) *Term {
			x := in.convert(in.TS.integer(0), u64)
			for j := 0; j < i; j++ {
				x = in.bin(token.ADD, x, in.load(&snap{}, in.indexAddr(blocks, in.TS.integer(int64(j)), nil), u64), u64)
			}
			return x
		}
		next := -1
		for _, e := range t.Events {
			if e.Kind != "call" || e.Callee != fn {
				continue
			}
			ix := in.fetchedChild(t, e.Args[pn], nd)
			i := -1
			if ix != nil {
				if k, ok := in.constOf(s, ix); ok {
					i = int(k)
				}
			}
			if i < 0 {
				c.Ob("child-offset", name, false, t.pos(e), t, "the walk descends into a node that is not a child (%s)", short(e.Args[pn]))
				return
			}
			p := prefix(i)
			a := e.Args[po]
			rel := in.proveEq(s, in.bin(token.ADD, a, p, u64), off) && in.Prove(s, p, "<=", off)
			zero := in.proveEq(s, a, in.convert(in.TS.integer(0), u64)) && in.Prove(s, off, "<=", p)
			c.Ob("child-offset", name, rel || zero, t.pos(e), t, "child %d is written at %s for offset %s of the node", i, short(a), short(off))
			if next < 0 {
				c.Ob("child-order", name, in.Prove(s, prefix(i), "<=", off), t.pos(e), t, "child %d is the first written although bytes belong before it", i)
			} else {
				// children in between are empty
				c.Ob("child-order", name, i >= next && in.Prove(s, prefix(i), "<=", prefix(next)), t.pos(e), t, "child %d is written after child %d", i, next-1)
			}
			next = i + 1
			// the link at that place gets the result
			put := false
			for _, w := range t.Events[e.Idx:] {
				if w.Kind != "store" {
					continue
				}
				ad := w.Addr
				if ad.Op == "indexaddr" && same(ad.Args[0], links) {
					k, ok := in.constOf(s, in.unloop(ad.Args[1]))
					if ok && int(k) == i && w.Val.Typ != nil {
						cidv := in.fieldVal(&w.S, w.Val, "Cid")
						put = put || cidv != nil && same(cidv, in.resOf(e, 0))
					}
				}
			}
			c.Ob("child-replaced", name, put, t.pos(e), t, "the rewritten child %d does not replace the old one", i)
		}
		// nothing left over: bytes used up, or no further child
		dm := t.Args[0]
		used := in.Prove(s, m.pendLen(in, s, dm), "<=", in.TS.integer(0))
		n := in.lenOf(blocks)
		if next >= 0 {
			ok := used
			for i := next; i <= next+8 && !ok; i++ {
				ok = in.Prove(s, n, "<=", in.TS.integer(int64(i))) && in.Prove(s, prefix(i), "<=", prefix(next))
			}
			c.Ob("walk-complete", name, ok, t.pos(nil), t, "the walk ends after child %d with bytes left although there may be more children", next-1)
		} else {
			// all children lie before the offset
			ok := false
			for i := 0; i <= 8 && !ok; i++ {
				ok = in.Prove(s, n, "<=", in.TS.integer(int64(i))) && in.Prove(s, prefix(i), "<=", off)
			}
			c.Ob("walk-complete", name, ok || used, t.pos(nil), t, "no child is written although one may be concerned")
		}
	})
	c.Min("child-replaced", 1)
	c.Min("walk-complete", 1)
}

// constOf: the integer value of a term, if known.
func (in *Interp) constOf(s *snap, x *Term) (int64, bool) {
	if k, ok := x.Int(); ok {
		return k, true
	}
	f := linMath(x)
	if f.isConst() && f.c.IsInt64() {
		return f.c.Int64(), true
	}
	for k := int64(0); k < 8; k++ {
		if in.proveEq(s, x, in.TS.integer(k)) {
			return k, true
		}
	}
	return 0, false
}

func ruleC28(c *Checker) {
	m := c.modRules()
	c.explain = "Size accounting of truncation along every path: Truncate refuses negative sizes, changes nothing when the size is unchanged, appends exactly the missing number of zeros when growing, and otherwise installs the result of cutting the current node at exactly the requested size; the recursive cut returns a leaf with the first size bytes of the old leaf and that declared size, or an inner node whose links are the first children unchanged followed by the one cut, whose recorded child sizes are those children's own sizes followed by the cut child's, and whose recorded sizes add up to the requested size; each child is fetched by its own link."
	c.Assume("inner nodes carry no data of their own; merkledag calls by contract; sizes fit 63 bits")
	fn := c.Fn("mod.DagModifier.Truncate")
	if fn != nil {
		name := fnName(fn)
		m.run(fn, func(t *Trace, dm *Term) {
			if t.Failed() {
				return
			}
			in := t.In
			s := &t.S
			i64 := types.Typ[types.Int64]
			size := t.Args[c.onlyParam(fn, "int64")]
			c.Ob("negative-refused", name, in.Prove(s, in.TS.integer(0), "<=", size), t.pos(nil), t, "a negative size is accepted")
			final := m.get(in, s, dm, m.node)
			base := m.get(in, &snap{}, dm, m.node) // the node after flushing
			for _, e := range t.Events {
				if e.Kind == "call" && modMethod(e.Callee, "Sync") {
					base = m.get(in, after(t, e), dm, m.node)
				}
			}
			have := in.convert(in.fsize(m.orig(base)), i64)
			apps := m.appends(t)
			var cut *Event
			for _, e := range t.Events {
				if e.Kind == "call" && e.Callee != nil && inMod(e.Callee) && recursive(e.Callee) {
					cut = e
				}
			}
			switch {
			case same(m.orig(final), m.orig(base)):
				c.Ob("requested-size", name, in.proveEq(s, size, have), t.pos(nil), t, "the file keeps its size although another was requested")
			case len(apps) == 1 && same(m.orig(final), m.orig(in.resOf(apps[0].e, 0))):
				x := apps[0]
				ok := x.zeros && x.amount != nil && same(m.orig(x.node), m.orig(base)) && in.proveEq(s, in.convert(x.amount, i64), in.bin(token.SUB, size, have, i64)) && in.Prove(s, have, "<", size)
				c.Ob("requested-size", name, ok, t.pos(x.e), t, "the file of size %s is extended by %s to reach %s", short(have), short(x.amount), short(size))
			case cut != nil && same(m.orig(final), m.orig(in.resOf(cut, 0))):
				nd := cut.Args[c.onlyParam(cut.Callee, "ipld.Node")]
				to := cut.Args[c.onlyParam(cut.Callee, "uint64")]
				ok := same(m.orig(nd), m.orig(base)) && in.proveEq(s, in.convert(to, i64), size) && in.Prove(s, size, "<=", have)
				c.Ob("requested-size", name, ok, t.pos(cut), t, "%s is cut at %s instead of %s", short(nd), short(to), short(size))
			default:
				c.Ob("requested-size", name, false, t.pos(nil), t, "the file becomes %s, whose size is unknown", short(final))
			}
		})
	}
	for _, f := range m.walks("ipld.Node") {
		m.cutting(f)
	}
	c.Min("requested-size", 1)
	c.Min("leaf-cut", 1)
	c.Min("inner-cut", 1)
	c.Min("cut-refused", 1)
	m.sizerContract()
}

func (m *modRules) cutting(fn *ssa.Function) {
	c := m.c
	name := fnName(fn)
	cfg := m.cfg(fn, false)
	cfg = m.walkCfg(cfg)
	pn, po := c.onlyParam(fn, "ipld.Node"), c.onlyParam(fn, "uint64")
	c.Run(fn, cfg, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		if t.Failed() {
			m.refused(t, fn, t.Args[pn].peel(), t.Args[po])
			return
		}
		in := t.In
		s := &t.S
		u64 := types.Typ[types.Uint64]
		nd, size := t.Args[pn].peel(), t.Args[po]
		links := in.TS.mk("pure", "Links", nil, nd)
		ret := t.Rets[0].peel()
		if in.Prove(s, in.lenOf(links), "<=", in.TS.integer(0)) {
			// a leaf
			var out, declared, orig *Term
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "dag.NewRawNode") && in.resOf(e, 0) != nil && same(in.resOf(e, 0).peel(), ret) {
					out, declared = e.Args[0], in.lenOf(e.Args[0])
					orig = in.TS.mk("pure", "RawData", nil, nd, in.TS.integer(0))
				}
			}
			if out == nil {
				for _, d := range t.decodes() {
					if t.IsNil(d.err) {
						orig = in.sizesOf(after(t, d.e), d.obj).data
					}
				}
				data := in.nodeData(t, ret)
				for _, mm := range t.marshals() {
					if mm.msg == "Data" && data != nil && same(in.resOf(mm.e, 0), data) {
						z := in.sizesOf(&mm.e.S, mm.obj)
						out, declared = z.data, z.size
					}
				}
			}
			if out == nil || orig == nil {
				c.Ob("leaf-cut", name, false, t.pos(nil), t, "the cut leaf %s cannot be followed", short(ret))
				return
			}
			q := in.replay(t.Events)
			segs := q.norm(q.content(out))
			ok := !q.bad && (len(segs) == 1 && segs[0].el == nil && segs[0].src == orig && in.proveEq(s, segs[0].lo, in.TS.integer(0)) || len(segs) == 0)
			ok = ok && in.proveEq(s, in.convert(q.length(segs), u64), size) && in.proveEq(s, declared, size)
			c.Ob("leaf-cut", name, ok, t.pos(nil), t, "a leaf cut at %s holds %s and declares %s", short(size), short(out), short(declared))
			return
		}
		if !same(ret, nd) {
			c.Ob("inner-cut", name, false, t.pos(nil), t, "the cut of an inner node returns %s", short(ret))
			return
		}
		data := in.nodeData(t, nd)
		var blocks *Term
		var at *Event
		for _, mm := range t.marshals() {
			if mm.msg == "Data" && data != nil && same(in.resOf(mm.e, 0), data) {
				blocks, at = in.sizesOf(&mm.e.S, mm.obj).blocks, mm.e
			}
		}
		if blocks == nil {
			c.Ob("inner-cut", name, false, t.pos(nil), t, "the message of the cut node is not written back")
			return
		}
		qb := in.replay(t.Events[:at.Idx])
		bs := qb.norm(qb.content(blocks))
		q := in.replay(t.Events)
		ls, okL := q.linksOf(t, nd)
		if qb.bad || !okL {
			c.Ob("inner-cut", name, false, t.pos(at), t, "the links or child sizes cannot be followed")
			return
		}
		kept := 0
		var last *Term
		good := true
		why := ""
		bad := func(f string) { good, why = false, f }
		for i, g := range ls {
			switch {
			case g.el == nil && i == 0 && g.src == links && in.proveEq(s, g.lo, in.TS.integer(0)):
				k, ok := in.constOf(s, in.unloop(g.hi))
				if !ok {
					bad("an unknown number of children is kept")
				}
				kept = int(k)
			case g.el != nil && i == len(ls)-1:
				last = g.el
			default:
				bad("the children kept are not the first ones")
			}
		}
		want := kept
		if last != nil {
			want++
		}
		if len(bs) != want {
			bad("the numbers of links and child sizes differ")
		}
		sum := in.convert(in.TS.integer(0), u64)
		for i, g := range bs {
			if g.el == nil {
				bad("child sizes from another list are kept")
				break
			}
			sum = in.bin(token.ADD, sum, g.el, u64)
			if i < kept && good {
				// the size of child i
				ok := false
				for _, e := range t.Events {
					if e.Kind == "call" && isSizer(e.Callee) && same(in.resOf(e, 0), g.el) {
						if ix := in.fetchedChild(t, e.Args[0], nd); ix != nil {
							k, kn := in.constOf(s, ix)
							ok = ok || kn && int(k) == i
						}
					}
				}
				if !ok {
					ok = m.blockOf(t, g.el, nd, i)
				}
				if !ok {
					bad("the size recorded for a kept child is not that child's")
				}
			}
		}
		c.Ob("inner-cut", name, good, t.pos(at), t, "%s", why)
		if !good {
			return
		}
		c.Ob("inner-cut", name, in.proveEq(s, sum, size), t.pos(at), t, "the recorded child sizes add up to %s, not %s", short(sum), short(size))
		if last != nil {
			ok := false
			for _, e := range t.Events {
				if e.Kind == "call" && e.Callee == fn && same(in.resOf(e, 0).peel(), last.peel()) {
					ix := in.fetchedChild(t, e.Args[pn], nd)
					k, kn := int64(-1), false
					if ix != nil {
						k, kn = in.constOf(s, ix)
					}
					ok = kn && int(k) == kept && in.proveEq(s, e.Args[po], bs[kept].el)
					ok = ok && in.Prove(&e.S, in.TS.integer(0), "<=", in.convert(e.Args[po], types.Typ[types.Int64]))
				}
			}
			c.Ob("inner-cut", name, ok, t.pos(at), t, "the last child is not the child behind those kept, cut at its recorded size")
		}
	})
}

// refused: a cut fails of itself only when the node holds less than asked for.
func (m *modRules) refused(t *Trace, fn *ssa.Function, nd, size *Term) {
	in, c := t.In, m.c
	s := &t.S
	for _, e := range t.Events {
		if er := in.errOf(e); er != nil && t.NonNil(er) {
			return
		}
		if r := in.resOf(e, 0); r != nil && e.Callee == fn && t.IsNil(r) {
			return // no node without an error
		}
	}
	name := fnName(fn)
	u64 := types.Typ[types.Uint64]
	links := in.TS.mk("pure", "Links", nil, nd)
	raw, kr := c.isRaw(in, s, nd)
	pt := types.NewPointer(in.W.Named("dag", "ProtoNode"))
	proto, kp := in.decide(s, in.TS.mk("is", "*dag.ProtoNode", pt, nd))
	if kp && !proto && (kr && !raw || in.Prove(s, in.TS.integer(1), "<=", in.lenOf(links))) {
		return // not a unixfs node
	}
	if in.Prove(s, in.lenOf(links), "<=", in.TS.integer(0)) {
		data := in.TS.mk("pure", "RawData", nil, nd, in.TS.integer(0))
		for _, d := range t.decodes() {
			if t.IsNil(d.err) {
				data = in.sizesOf(after(t, d.e), d.obj).data
			}
		}
		ok := in.Prove(s, in.convert(in.lenOf(data), u64), "<", size)
		c.Ob("cut-refused", name, ok, t.pos(nil), t, "a leaf refuses to be cut although it may hold enough bytes")
		return
	}
	if kp && !proto {
		return
	}
	n, sum := 0, in.convert(in.TS.integer(0), u64)
	for _, e := range t.Events {
		if e.Kind == "call" && isSizer(e.Callee) {
			ix := in.fetchedChild(t, e.Args[0], nd)
			k, kn := int64(-1), false
			if ix != nil {
				k, kn = in.constOf(s, ix)
			}
			if !kn || int(k) != n {
				c.Ob("cut-refused", name, false, t.pos(e), t, "children are sized out of order")
				return
			}
			n++
			sum = in.bin(token.ADD, sum, in.resOf(e, 0), u64)
		}
	}
	ok := in.Prove(s, in.lenOf(links), "<=", in.TS.integer(int64(n))) && in.Prove(s, sum, "<=", size)
	c.Ob("cut-refused", name, ok, t.pos(nil), t, "a node refuses to be cut although a child may hold the place")
}

// blockOf: x is the size recorded for child i in the node's own message.
func (m *modRules) blockOf(t *Trace, x, nd *Term, i int) bool {
	return false
}

// nodeData is the data set on the node last.
func (in *Interp) nodeData(t *Trace, nd *Term) *Term {
	var out *Term
	for _, e := range t.Events {
		if e.Kind != "call" || len(e.Args) == 0 {
			continue
		}
		if strings.HasSuffix(e.Name, "ProtoNode.SetData") && same(e.Args[0].peel(), nd) {
			out = e.Args[1]
		}
		if strings.HasSuffix(e.Name, "dag.NodeWithData") && same(e.Res.peel(), nd) {
			out = e.Args[0]
		}
	}
	return out
}

// walkCfg runs a recursive walk: messages are followed, loops unrolled.
func (m *modRules) walkCfg(cfg Config) Config {
	cfg.Setup, cfg.ExactLoop, cfg.MaxVisits = nil, true, 3
	stop := cfg.Stop
	cfg.Stop = func(g *ssa.Function, d int) bool {
		if g.Pkg != nil && shortPkg(g.Pkg.Pkg.Path()) == "unixfs" {
			return false
		}
		return stop(g, d)
	}
	return cfg
}
