package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C20"] = ruleDef{ruleC20}
	rules["C21"] = ruleDef{ruleC21}
	rules["C28"] = ruleDef{ruleC28}
}

// modRules analyses the modifier: its fields and the contracts its methods
// are used by.
type modRules struct {
	c                                   *Checker
	node, buf, start, pos, read, cancel string
}

func (c *Checker) modRules() *modRules {
	m := &modRules{c: c}
	m.node = c.fieldName("mod", "DagModifier", "ipld.Node", "curNode")
	m.buf = c.fieldName("mod", "DagModifier", "*bytes.Buffer", "wrBuf")
	m.read = c.fieldName("mod", "DagModifier", "uio.DagReader", "read")
	m.cancel = c.fieldName("mod", "DagModifier", "func()", "readCancel")
	m.start, m.pos = "writeStart", "curWrOff"
	return m
}

// isSizer: a function giving the size of a node.
func isSizer(g *ssa.Function) bool {
	if g == nil || g.Pkg == nil || shortPkg(g.Pkg.Pkg.Path()) != "mod" || exported(g) {
		return false
	}
	sig := g.Signature
	return sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 2 &&
		types.TypeString(sig.Params().At(0).Type(), shortQual) == "ipld.Node" &&
		types.TypeString(sig.Results().At(0).Type(), shortQual) == "uint64" && isErr(sig.Results().At(1).Type())
}

func modMethod(g *ssa.Function, names ...string) bool {
	if g == nil {
		return false
	}
	for _, n := range names {
		if fnName(g) == "mod.DagModifier."+n {
			return true
		}
	}
	return false
}

func inMod(g *ssa.Function) bool {
	return g != nil && g.Pkg != nil && shortPkg(g.Pkg.Pkg.Path()) == "mod"
}

func (in *Interp) fsize(nd *Term) *Term {
	return in.TS.mk("pure", "FileSize", types.Typ[types.Uint64], nd.peel())
}

func (m *modRules) get(in *Interp, s *snap, dm *Term, f string) *Term { return in.fieldVal(s, dm, f) }

// pendLen is the number of pending bytes.
func (m *modRules) pendLen(in *Interp, s *snap, dm *Term) *Term {
	return in.bufLenAt(s, m.get(in, s, dm, m.buf))
}

func (m *modRules) set(in *Interp, st *State, dm *Term, f string, v *Term) {
	sty, _ := isStruct(deref(dm.Typ))
	for i := 0; i < sty.NumFields(); i++ {
		if sty.Field(i).Name() == f {
			in.store(st, in.fieldAddr(dm, f, types.NewPointer(sty.Field(i).Type())), v, sty.Field(i).Type())
		}
	}
}

func (m *modRules) fieldType(dm *Term, f string) types.Type {
	sty, _ := isStruct(deref(dm.Typ))
	for i := 0; i < sty.NumFields(); i++ {
		if sty.Field(i).Name() == f {
			return sty.Field(i).Type()
		}
	}
	return nil
}

// fork gives the outcomes of the calls the modifier's functions are stopped at.
func (m *modRules) fork(in *Interp, st *State, name string, callee *ssa.Function, args []*Term, typ types.Type) []outcome {
	ts := in.TS
	if callee == nil || !inMod(callee) {
		return nil
	}
	res := ts.fresh("call", name, typ, args...)
	n := callee.Signature.Results().Len()
	err := in.errOfTerm(res)
	okFail := func(onOK func(s *State)) []outcome {
		b := st.clone()
		in.assume(&st.snap, in.eq(err, ts.nil_()), true)
		in.assume(&b.snap, in.eq(err, ts.nil_()), false)
		onOK(st)
		return []outcome{{st, res}, {b, res}}
	}
	first := func() *Term { return ts.mk("extract", "0", callee.Signature.Results().At(0).Type(), res) }
	switch {
	case isSizer(callee):
		return okFail(func(s *State) {
			in.assume(&s.snap, in.eq(first(), in.fsize(args[0])), true)
		})
	case modMethod(callee, "Size"):
		dm := args[0]
		return okFail(func(s *State) {
			buf := m.get(in, &s.snap, dm, m.buf)
			if v, k := in.isNilKnown(&s.snap, buf); k && v {
				in.assume(&s.snap, in.eq(first(), in.convert(in.fsize(m.get(in, &s.snap, dm, m.node)), types.Typ[types.Int64])), true)
			}
			in.assume(&s.snap, in.lt(first(), ts.integer(0)), false)
		})
	case modMethod(callee, "Sync"):
		dm := args[0]
		buf := m.get(in, &st.snap, dm, m.buf)
		isNil, known := in.isNilKnown(&st.snap, buf)
		var out []outcome
		if !known || isNil {
			s := st.clone()
			if in.assume(&s.snap, in.eq(buf, ts.nil_()), true) && in.assume(&s.snap, in.eq(err, ts.nil_()), true) {
				out = append(out, outcome{s, res})
			}
		}
		if !known || !isNil {
			s := st.clone()
			if in.assume(&s.snap, in.eq(buf, ts.nil_()), false) {
				l := in.bufLen(s, buf)
				p := m.get(in, &s.snap, dm, m.pos)
				m.set(in, s, dm, m.node, ts.fresh("synced", "node", m.fieldType(dm, m.node)))
				m.set(in, s, dm, m.read, ts.nil_())
				f := s.clone()
				in.assume(&s.snap, in.eq(err, ts.nil_()), true)
				m.set(in, s, dm, m.buf, ts.nil_())
				m.set(in, s, dm, m.start, p)
				in.assume(&f.snap, in.eq(err, ts.nil_()), false)
				nb := ts.fresh("synced", "buffer", m.fieldType(dm, m.buf))
				in.assume(&f.snap, in.eq(nb, ts.nil_()), false)
				m.set(in, f, dm, m.buf, nb)
				in.assume(&f.snap, in.eq(in.bufLen(f, nb), l), true)
				out = append(out, outcome{s, res}, outcome{f, res})
			}
		}
		return out
	case recursive(callee) && callee.Signature.Recv() != nil:
		// the recursive walks only consume pending bytes (checked)
		dm := args[0]
		if types.TypeString(deref(dm.Typ), shortQual) != "mod.DagModifier" {
			return nil
		}
		if buf := m.get(in, &st.snap, dm, m.buf); !buf.isNil() {
			l := in.bufLen(st, buf)
			in.bump(st, buf)
			in.assume(&st.snap, in.lt(l, in.bufLen(st, buf)), false)
		}
		return []outcome{{st, res}}
	}
	_ = n
	return nil
}

// cfg runs a function of the modifier; the case of pending bytes is chosen by
// pending.
func (m *modRules) cfg(fn *ssa.Function, pending bool) Config {
	return Config{Buffers: true, Math: true, Fork: m.fork, Stop: func(g *ssa.Function, d int) bool {
		if g == fn {
			return false
		}
		if inMod(g) {
			return recursive(g) || isSizer(g) || modMethod(g, "Sync", "Size")
		}
		return true
	}, Setup: func(in *Interp, st *State, args []*Term) {
		if len(args) == 0 || args[0].Typ == nil || types.TypeString(args[0].Typ, shortQual) != "*mod.DagModifier" {
			return
		}
		dm := args[0]
		buf := m.get(in, &st.snap, dm, m.buf)
		p, s := m.get(in, &st.snap, dm, m.pos), m.get(in, &st.snap, dm, m.start)
		in.assume(&st.snap, in.eq(m.get(in, &st.snap, dm, m.node), in.TS.nil_()), false)
		in.assume(&st.snap, in.eq(buf, in.TS.nil_()), !pending)
		if pending {
			in.assume(&st.snap, in.eq(p, in.bin(token.ADD, s, in.convert(in.bufLen(st, buf), s.Typ), s.Typ)), true)
		} else {
			in.assume(&st.snap, in.eq(p, s), true)
		}
	}}
}

// methods of the modifier, exported.
func (m *modRules) methods() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range m.c.W.Fns {
		if m.c.W.production(fn) && inMod(fn) && fn.Parent() == nil && fn.Blocks != nil && fn.Synthetic == "" && exported(fn) && recvIs(fn, "mod.DagModifier") {
			out = append(out, fn)
		}
	}
	return out
}

// walks are the recursive functions of the package.
func (m *modRules) walks(ret string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range m.c.W.Fns {
		if m.c.W.production(fn) && inMod(fn) && fn.Parent() == nil && fn.Blocks != nil && fn.Synthetic == "" && recursive(fn) {
			r := fn.Signature.Results()
			if ret == "" || r.Len() > 0 && types.TypeString(r.At(0).Type(), shortQual) == ret && m.c.onlyParam(fn, "ipld.Node") >= 0 && m.c.onlyParam(fn, "uint64") >= 0 {
				out = append(out, fn)
			}
		}
	}
	return out
}

func (m *modRules) run(fn *ssa.Function, visit func(t *Trace, dm *Term)) {
	for _, pending := range []bool{false, true} {
		m.c.Run(fn, m.cfg(fn, pending), func(t *Trace) {
			if t.Outcome == "return" {
				visit(t, t.Args[0])
			}
		})
	}
}

func (m *modRules) bufNil(in *Interp, s *snap, dm *Term) bool {
	v, k := in.isNilKnown(s, m.get(in, s, dm, m.buf))
	return k && v
}

// positionKept: pending bytes end at the position, and none means both
// positions agree.
func (m *modRules) positionKept(in *Interp, s *snap, dm *Term) (bool, string) {
	p, w := m.get(in, s, dm, m.pos), m.get(in, s, dm, m.start)
	buf := m.get(in, s, dm, m.buf)
	none := func() (bool, string) {
		return in.proveEq(s, p, w), "no bytes are pending but the next write goes to " + short(w) + " while the position is " + short(p)
	}
	some := func() (bool, string) {
		end := in.bin(token.ADD, w, in.convert(in.bufLenAt(s, buf), w.Typ), w.Typ)
		return in.proveEq(s, p, end), "the pending bytes starting at " + short(w) + " do not end at the position " + short(p)
	}
	if v, k := in.isNilKnown(s, buf); k {
		if v {
			return none()
		}
		return some()
	}
	if ok, why := none(); !ok {
		return ok, why
	}
	return some()
}

// isReaderCall: a call on the modifier's reader.
func isReaderCall(e *Event, names ...string) bool {
	if e.Kind != "call" || len(e.Args) == 0 || e.Args[0].Typ == nil {
		return false
	}
	if n := types.TypeString(e.Args[0].Typ, shortQual); n != "uio.DagReader" && n != "*uio.dagReader" {
		return false
	}
	for _, n := range names {
		if strings.HasSuffix(e.Name, "."+n) {
			return true
		}
	}
	return false
}

// readerPos is the position of reader r after the events, if known.
func (m *modRules) readerPos(t *Trace, dm, r *Term, s *snap) *Term {
	in := t.In
	r = r.peel()
	u64 := types.Typ[types.Uint64]
	var p *Term
	if same(r, m.get(in, &snap{}, dm, m.read)) {
		p = m.get(in, &snap{}, dm, m.pos)
	}
	for _, e := range t.Events {
		if e.Kind != "call" || len(e.Args) == 0 || !same(e.Args[0].peel(), r) {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "uio.NewDagReader") && in.resOf(e, 0) != nil && same(in.resOf(e, 0).peel(), r) {
				p = in.TS.mk("const", "0", u64)
				p = in.convert(in.TS.integer(0), u64)
			}
			continue
		}
		switch {
		case isReaderCall(e, "Seek"):
			w, isC := e.Args[2].Int()
			switch {
			case !t.IsNil(in.errOf(e)) || !isC:
				p = nil
			case w == 0:
				p = in.convert(e.Args[1], u64)
			case w == 1 && p != nil:
				p = in.bin(token.ADD, p, in.convert(e.Args[1], u64), u64)
			default:
				p = nil
			}
		case isReaderCall(e, "Read", "CtxReadFull", "WriteTo"):
			if p != nil {
				p = in.bin(token.ADD, p, in.convert(in.resOf(e, 0), u64), u64)
			}
		}
	}
	return p
}

// extension: zero bytes appended to a node.
type extension struct {
	e      *Event // the append
	node   *Term  // extended
	amount *Term
	zeros  bool
}

// appends lists the appends of a path.
func (m *modRules) appends(t *Trace) []extension {
	in := t.In
	var out []extension
	for _, e := range t.Events {
		if e.Kind != "call" || !strings.HasSuffix(e.Name, "trickle.Append") {
			continue
		}
		x := extension{e: e, node: e.Args[1]}
		var spl *Term
		for _, b := range t.Events[:e.Idx] {
			if b.Kind == "call" && strings.HasSuffix(b.Name, "DagBuilderParams.New") && same(in.resOf(b, 0), e.Args[2]) {
				spl = b.Args[1].peel()
			}
		}
		if spl != nil && spl.Op == "call" && len(spl.Args) > 0 {
			src := spl.Args[0].peel()
			if src.Op == "call" && src.Sym == "io.LimitReader" {
				x.amount = src.Args[1]
				x.zeros = m.zeroReader(src.Args[0])
			}
			if src.Op == "call" && src.Sym == "bytes.NewReader" && src.Args[0].Op == "makeslice" {
				x.amount, x.zeros = in.lenOf(src.Args[0]), true
			}
		}
		out = append(out, x)
	}
	return out
}

// zeroReader: the term's type reads endless zeros.
func (m *modRules) zeroReader(x *Term) bool {
	x = x.peel()
	if x.Typ == nil {
		return false
	}
	n := types.TypeString(deref(x.Typ), shortQual)
	fn := m.c.W.Fn(n + ".Read")
	if fn == nil {
		return false
	}
	ok, any := true, false
	in := NewInterp(m.c.W, Config{})
	in.Run(fn, func(t *Trace) {
		any = true
		in := t.In
		b := t.Args[len(t.Args)-1]
		var idx []*Term
		for _, e := range t.Events {
			if e.Kind == "store" && e.Addr.Op == "indexaddr" && e.Addr.Args[0] == b {
				if v, isC := e.Val.Int(); !isC || v != 0 {
					ok = false
				}
				idx = append(idx, e.Addr.Args[1])
			}
			if e.Kind == "call" && e.Name == "clear" && same(e.Args[0], b) {
				idx = nil
				return
			}
		}
		if t.Outcome != "return" || !t.IsNil(t.Rets[1]) || !in.proveEq(&t.S, t.Rets[0], in.lenOf(b)) {
			ok = false
		}
		if full, _ := in.covers(&t.S, idx, in.lenOf(b)); !full {
			ok = false
		}
	})
	m.c.account(in)
	return ok && any
}

func isCopy(x *Term) bool {
	return x.Op == "call" && (x.Sym == "Copy" || strings.HasSuffix(x.Sym, ".Copy")) && len(x.Args) > 0
}

// isCurrent: x is the node held in state s, or a copy.
func (m *modRules) isCurrent(in *Interp, s *snap, dm, x *Term) bool {
	cur := m.get(in, s, dm, m.node).peel()
	x = x.peel()
	for isCopy(x) {
		x = x.Args[0].peel()
	}
	for isCopy(cur) {
		cur = cur.Args[0].peel()
	}
	return same(x, cur)
}

// changed: the events that change the file's content or its pending bytes.
func (m *modRules) contentChange(t *Trace, dm *Term) int {
	in := t.In
	last := -1
	for _, e := range t.Events {
		switch {
		case isFieldStore(e, dm, m.node):
			if !same(e.Val, m.get(in, &e.S, dm, m.node)) {
				last = e.Idx
			}
		case e.Kind == "call" && strings.HasPrefix(e.Name, "bytes.Buffer.Write"):
			last = e.Idx
		}
	}
	return last
}

func ruleC20(c *Checker) {
	m := c.modRules()
	c.explain = "Typestate of the modifier's pending bytes, file node and reader along every path of each exported method, once with and once without pending bytes at entry (flushing is replaced by its own checked contract in the callers): reads, reader seeks, truncation, extension and handing out the node happen only with no bytes pending and on the current node; after a change of the content the old reader is gone and its context cancelled; flushing succeeds with nothing pending and fails with everything pending and a file node in place; the size reported covers the pending bytes."
	c.Assume("bytes.Buffer, DagReader and merkledag calls by contract; sizes and positions fit 63 bits")
	for _, fn := range m.methods() {
		fn := fn
		name := fnName(fn)
		sync := fn.Name() == "Sync"
		m.run(fn, func(t *Trace, dm *Term) {
			in := t.In
			for _, e := range t.Events {
				if isReaderCall(e, "Read", "CtxReadFull", "WriteTo", "Seek") {
					c.Ob("flushed-before-read", name, m.bufNil(in, &e.S, dm), t.pos(e), t, "the file is read while bytes may be pending")
					made := e.Args[0].peel()
					if !same(made, m.get(in, &snap{}, dm, m.read).peel()) {
						c.Ob("reader-on-current", name, m.readerOn(t, dm, made, &e.S), t.pos(e), t, "the reader was not opened on the current file node")
					} else {
						ok := same(m.get(in, &e.S, dm, m.node), m.get(in, &snap{}, dm, m.node))
						c.Ob("reader-on-current", name, ok, t.pos(e), t, "a reader opened before the content changed is used")
					}
				}
				if !sync && e.Kind == "call" && (strings.HasSuffix(e.Name, "trickle.Append") || e.Callee != nil && inMod(e.Callee) && recursive(e.Callee)) {
					c.Ob("flushed-before-change", name, m.bufNil(in, &e.S, dm), t.pos(e), t, "the file is extended or cut while bytes may be pending")
					x := e.Args[1]
					if e.Callee != nil && inMod(e.Callee) {
						x = e.Args[c.onlyParam(e.Callee, "ipld.Node")]
					}
					c.Ob("change-on-current", name, m.isCurrent(in, &e.S, dm, x), t.pos(e), t, "the change is made to %s, not to the current file node", short(x))
				}
				if isFieldStore(e, dm, m.node) {
					n, k := in.isNilKnown(&e.S, e.Val)
					okv := k && !n || !e.Val.isNil() && m.certain(t, e)
					c.Ob("file-kept", name, okv, t.pos(e), t, "the file node may be replaced by nothing (%s)", short(e.Val))
				}
			}
			if !t.Failed() && len(t.Rets) > 0 && types.TypeString(fn.Signature.Results().At(0).Type(), shortQual) == "ipld.Node" {
				c.Ob("node-after-flush", name, m.bufNil(in, &t.S, dm) && m.isCurrent(in, &t.S, dm, t.Rets[0]), t.pos(nil), t, "the node handed out is %s, or bytes may still be pending", short(t.Rets[0]))
			}
			// the reader after a change
			last := m.contentChange(t, dm)
			r0 := m.get(in, &snap{}, dm, m.read)
			r1 := m.get(in, &t.S, dm, m.read)
			rn, rk := in.isNilKnown(&t.S, r1)
			gone := rk && rn || r1.isNil()
			if last >= 0 && !gone {
				ok := false
				for _, e := range t.Events[last:] {
					ok = ok || e.Kind == "call" && strings.HasSuffix(e.Name, "uio.NewDagReader") && same(in.resOf(e, 0).peel(), r1.peel())
				}
				c.Ob("reader-dropped", name, ok, t.pos(nil), t, "after a change of the content the old reader is kept")
			} else if last >= 0 {
				c.Ob("reader-dropped", name, true, t.pos(nil), t, "")
			}
			// a dropped reader's context is cancelled
			if n0, k0 := in.isNilKnown(&t.S, r0); !(k0 && n0) && !same(r0, r1) && !m.syncDropped(t, dm) {
				can := false
				cf := m.get(in, &snap{}, dm, m.cancel)
				for _, e := range t.Events {
					can = can || e.Kind == "call" && e.Val != nil && same(e.Val, cf)
				}
				c.Ob("reader-cancelled", name, can, t.pos(nil), t, "a reader is discarded without cancelling its context")
			}
			// the node installed is in the store
			if v := m.orig(m.get(in, &t.S, dm, m.node)); !same(v, m.orig(m.get(in, &snap{}, dm, m.node))) && v.Op != "synced" && t.Outcome == "return" {
				kept := v.Op == "extract" && v.Args[0].Op == "call" && strings.HasSuffix(v.Args[0].Sym, ".Get")
				for _, e := range t.Events {
					stored := isAdd(e) && same(m.orig(e.Args[2]), v)
					if isAddMany(e) {
						for _, x := range in.elems(e.Args[2]) {
							stored = stored || same(m.orig(x), v)
						}
					}
					if er := in.errOf(e); stored && er != nil && t.IsNil(er) {
						kept = true
					}
				}
				c.Ob("installed-when-stored", name, kept, t.pos(nil), t, "the file node becomes %s, which may not be in the store", short(v))
			}
			if sync {
				m.syncContract(t, dm)
			}
			if fn.Name() == "Size" {
				m.sizeContract(t, dm)
			}
		})
	}
	for _, fn := range m.walks("") {
		m.walkContract(fn)
	}
	c.Min("flushed-before-read", 1)
	c.Min("reader-on-current", 1)
	c.Min("flushed-before-change", 1)
	c.Min("file-kept", 1)
	c.Min("node-after-flush", 1)
	c.Min("reader-dropped", 1)
	c.Min("reader-cancelled", 1)
	c.Min("flush-contract", 1)
	c.Min("size-covers-pending", 1)
	c.Min("walks-change-nothing-else", 1)
	m.sizerContract()
}

// certain: the stored node is the result of calls that succeeded.
func (m *modRules) certain(t *Trace, e *Event) bool {
	in := t.In
	v := e.Val.peel()
	if v.Op == "extract" && v.Sym == "0" {
		er := in.errOfTerm(v.Args[0])
		if er == nil {
			return true
		}
		n, k := in.isNilKnown(&e.S, er)
		return k && n
	}
	if isCopy(v) {
		return true
	}
	return v.Op == "alloc" || v.Op == "synced"
}

// readerOn: the reader was opened on the current node.
func (m *modRules) readerOn(t *Trace, dm, r *Term, s *snap) bool {
	in := t.In
	for _, e := range t.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "uio.NewDagReader") && in.resOf(e, 0) != nil && same(in.resOf(e, 0).peel(), r) {
			return m.isCurrent(in, s, dm, e.Args[1]) && m.bufNil(in, &e.S, dm)
		}
	}
	return false
}

// syncDropped: the reader was discarded by a flush (checked there).
func (m *modRules) syncDropped(t *Trace, dm *Term) bool {
	for _, e := range t.Events {
		if e.Kind == "call" && modMethod(e.Callee, "Sync") && !m.bufNil(t.In, &e.S, dm) {
			r := m.get(t.In, &e.S, dm, m.read)
			return same(r, m.get(t.In, &snap{}, dm, m.read))
		}
	}
	return false
}

func (m *modRules) syncContract(t *Trace, dm *Term) {
	c, in := m.c, t.In
	name := fnName(t.Entry)
	s0 := &snap{}
	p0, p1 := m.get(in, s0, dm, m.pos), m.get(in, &t.S, dm, m.pos)
	w0, w1 := m.get(in, s0, dm, m.start), m.get(in, &t.S, dm, m.start)
	b0, b1 := m.get(in, s0, dm, m.buf), m.get(in, &t.S, dm, m.buf)
	c.Ob("flush-contract", name, in.proveEq(&t.S, p0, p1), t.pos(nil), t, "flushing moves the position to %s", short(p1))
	if n, k := in.isNilKnown(&t.S, b0); k && n {
		ok := !t.Failed() && m.bufNil(in, &t.S, dm) && in.proveEq(&t.S, w0, w1) && same(m.get(in, s0, dm, m.node), m.get(in, &t.S, dm, m.node))
		c.Ob("flush-contract", name, ok, t.pos(nil), t, "flushing nothing changes the file or fails")
		return
	}
	r := m.get(in, &t.S, dm, m.read)
	rn, rk := in.isNilKnown(&t.S, r)
	c.Ob("flush-contract", name, rk && rn, t.pos(nil), t, "a reader survives a flush")
	if t.Failed() {
		n, k := in.isNilKnown(&t.S, b1)
		ok := k && !n && in.proveEq(&t.S, w0, w1) && in.proveEq(&t.S, in.bufLenAt(&t.S, b1), in.bufLenAt(s0, b0))
		c.Ob("flush-contract", name, ok, t.pos(nil), t, "a failed flush loses pending bytes or their position")
		return
	}
	ok := m.bufNil(in, &t.S, dm) && in.proveEq(&t.S, w1, p1)
	c.Ob("flush-contract", name, ok, t.pos(nil), t, "after a flush bytes may still be pending, or the next write would go to %s while the position is %s", short(w1), short(p1))
}

func (m *modRules) sizeContract(t *Trace, dm *Term) {
	c, in := m.c, t.In
	name := fnName(t.Entry)
	if t.Failed() {
		return
	}
	r := t.Rets[0]
	s := &t.S
	fs := in.convert(in.fsize(m.get(in, &snap{}, dm, m.node)), types.Typ[types.Int64])
	if m.bufNil(in, s, dm) {
		c.Ob("size-covers-pending", name, in.proveEq(s, r, fs), t.pos(nil), t, "the size reported is %s, not the file's", short(r))
		return
	}
	end := in.convert(in.bin(token.ADD, m.get(in, &snap{}, dm, m.start), in.convert(m.pendLen(in, &snap{}, dm), types.Typ[types.Uint64]), types.Typ[types.Uint64]), types.Typ[types.Int64])
	ok := in.Prove(s, fs, "<=", r) && in.Prove(s, end, "<=", r) && (in.proveEq(s, r, fs) || in.proveEq(s, r, end))
	c.Ob("size-covers-pending", name, ok, t.pos(nil), t, "the size reported (%s) does not cover the file and its pending bytes", short(r))
}

// walkContract: the recursive walks change no field of the modifier.
func (m *modRules) walkContract(fn *ssa.Function) {
	c := m.c
	if !recvIs(fn, "mod.DagModifier") {
		return
	}
	cfg := m.cfg(fn, true)
	cfg.Setup = nil
	c.Run(fn, cfg, func(t *Trace) {
		ok := true
		var at *Event
		for _, e := range t.Events {
			if e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Args[0] == t.Args[0] {
				ok, at = false, e
			}
			if e.Kind == "call" && modMethod(e.Callee, "Sync") {
				ok, at = false, e
			}
			if e.Kind == "call" && (e.Name == "bytes.Buffer.Reset" || strings.HasPrefix(e.Name, "bytes.Buffer.Write") || e.Name == "bytes.Buffer.Truncate") {
				ok, at = false, e
			}
		}
		c.Ob("walks-change-nothing-else", fnName(fn), ok, t.pos(at), t, "a recursive walk changes the modifier's own state")
	})
}

// sizerContract: the size helpers report the node's declared size.
func (m *modRules) sizerContract() {
	c := m.c
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil || !isSizer(fn) {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" || t.Failed() {
				return
			}
			in := t.In
			ok := m.declared(t, t.Rets[0], t.Args[0])
			c.Ob("declared-size", name, ok, t.pos(nil), t, "the size of a node is given as %s", short(t.Rets[0]))
			_ = in
		})
	}
}

// declared: x is the size node nd declares.
func (m *modRules) declared(t *Trace, x, nd *Term) bool {
	in, c := t.In, m.c
	if same(x, in.fsize(nd)) || in.holds(&t.S, in.eq(x, in.fsize(nd))) {
		return true
	}
	y := x.peel()
	for y.Op == "conv" {
		y = y.Args[0].peel()
	}
	if in.rawLen(&t.S, y, nd) {
		return true
	}
	for _, d := range t.decodes() {
		b := d.bytes.peel()
		if !(b.Op == "pure" && strings.HasPrefix(b.Sym, "Data") && same(b.Args[0].peel(), nd.peel())) || !t.IsNil(d.err) {
			continue
		}
		s := after(t, d.e)
		sz := in.sizesOf(s, d.obj)
		if same(x, sz.size) {
			return true
		}
		// a message without content of its own type
		poss := c.typesPossible(in, &t.S, d.obj)
		if !poss["File"] && !poss["Raw"] {
			return true
		}
	}
	return false
}
