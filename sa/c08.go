package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	rules["C08"] = ruleDef{ruleC08}
	rules["C10"] = ruleDef{ruleC10}
}

// drFields: the roles of the reader's fields.
type drFields struct{ buf, off, walker, size, root string }

func (c *Checker) drFields() drFields {
	return drFields{
		buf:    c.fieldName("uio", "dagReader", "*bytes.Reader", "currentNodeData"),
		off:    c.fieldName("uio", "dagReader", "int64", "offset"),
		walker: c.fieldName("uio", "dagReader", "*ipld.Walker", "dagWalker"),
		size:   c.fieldName("uio", "dagReader", "uint64", "size"),
		root:   c.fieldName("uio", "dagReader", "ipld.Node", "rootNode"),
	}
}

// before is the state just before event e.
func before(t *Trace, e *Event) *snap {
	if e.Idx == 0 {
		return &snap{}
	}
	return &t.Events[e.Idx-1].S
}

// emptyBuf: the reader buffer b holds no more bytes (or is nil) at s.
func emptyBuf(in *Interp, s *snap, b *Term) bool {
	if n, k := in.isNilKnown(s, b); k && n {
		return true
	}
	sym := "bytes.Reader.Len"
	if ep, _ := s.eps.get(b.UID); ep > 0 {
		sym += "@" + itoa(ep)
	}
	l := in.TS.mk("pure", sym, types.Typ[types.Int], b)
	return in.holds(s, in.eq(l, in.TS.integer(0)))
}

func itoa(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if s == "" {
		s = "0"
	}
	return s
}

// activations lists the callback invocations of a trace: enter..leave events.
type activation struct {
	enter, leave *Event
	events       []*Event
	node         *Term
}

func (t *Trace) activations(kinds ...string) []activation {
	var out []activation
	var cur *activation
	for _, e := range t.Events {
		if e.Kind == "enter" && len(e.Args) > 0 && e.Args[0].Op == "cbarg" {
			for _, k := range kinds {
				if strings.HasPrefix(e.Args[0].Sym, k+":") {
					out = append(out, activation{enter: e})
					cur = &out[len(out)-1]
				}
			}
			continue
		}
		if cur != nil {
			if e.Kind == "leave" && e.Callee == cur.enter.Callee {
				cur.leave = e
				cur = nil
				continue
			}
			cur.events = append(cur.events, e)
		}
	}
	for i := range out {
		out[i].node = t.In.TS.mk("pure", "ipld.ExtractIPLDNode", nil, out[i].enter.Args[0])
	}
	return out
}

// hasLinks: the node is known to have links.
func hasLinks(in *Interp, s *snap, node *Term) bool {
	l := in.TS.mk("pure", "Links", nil, node)
	return in.Prove(s, in.TS.integer(1), "<=", in.lenOf(l))
}

// dataOfNode: the reader's buffer b was made from the data of node.
func (c *Checker) dataOfNode(in *Interp, s *snap, t *Trace, b, node *Term) bool {
	if b.Op != "call" || b.Sym != "bytes.NewReader" {
		return false
	}
	ok, _ := c.fileData(in, s, t, b.Args[0], node)
	return ok
}

func ruleC08(c *Checker) {
	c.explain = "Linear value tracking through the reader's read and write-out paths (helpers and the walker callback inlined, callback body unrolled to two generic activations): on every abstract path the byte count returned and the final position are compared, as linear forms over the counts the buffers handed out, with the sum of those counts; every destination slice must start at the count so far; a buffer may be dropped, replaced or passed over only when known empty; every visited leaf must be read; end of file needs the walker's end-of-DAG and a short read needs an error."
	c.Assume("bytes.Reader.Read copies min(len(dst), Len()) bytes; bytes.Reader.WriteTo either fails or leaves nothing unread")
	f := c.drFields()
	for _, name := range []string{"uio.dagReader.CtxReadFull", "uio.dagReader.Read", "uio.dagReader.WriteTo"} {
		name := name
		fn := c.Fn(name)
		toWriter := strings.HasSuffix(name, "WriteTo")
		c.Run(fn, Config{Arith: true}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in, dr, out := t.In, t.Args[0], t.Args[len(t.Args)-1]
			tint := types.Typ[types.Int]
			offA := in.fieldAddr(dr, f.off, types.NewPointer(types.Typ[types.Int64]))
			bufA := in.fieldAddr(dr, f.buf, nil)
			sum := in.TS.integer(0)
			for _, e := range t.Events {
				switch {
				case e.Kind == "call" && (e.Name == "bytes.Reader.Read" || e.Name == "bytes.Reader.WriteTo"):
					if toWriter {
						c.Ob("destination", name, e.Name == "bytes.Reader.WriteTo" && same(e.Args[1], out), t.pos(e), t, "the buffered data goes to %s, not to the caller's writer", short(e.Args[1]))
					} else {
						d := e.Args[1]
						ok := e.Name == "bytes.Reader.Read"
						if ok {
							want := in.slice(out, sum, nil, out.Typ)
							ok = same(d, want)
							if !ok && d.Op == "slice" && same(d.Args[0], out) {
								ok = linEqual(d.Args[1], sum) && linEqual(d.Args[2], in.lenOf(out))
							}
						}
						c.Ob("destination", name, ok, t.pos(e), t, "bytes are read into %s, not just behind the %s bytes delivered so far", short(d), short(sum))
					}
					b := in.load(before(t, e), bufA, nil)
					c.Ob("reads-own-buffer", name, same(e.Args[0], b), t.pos(e), t, "data is taken from %s, not from the reader's buffer", short(e.Args[0]))
					sum = in.bin(token.ADD, sum, in.resOf(e, 0), tint)
				case e.Kind == "store" && e.Addr == bufA:
					old := in.load(before(t, e), bufA, nil)
					c.Ob("leftover-kept", name, emptyBuf(in, before(t, e), old), t.pos(e), t, "the reader's buffer is dropped or replaced while it may still hold undelivered bytes")
				case e.Kind == "call" && strings.HasPrefix(e.Name, "ipld.Walker.") && (e.Name == "ipld.Walker.Iterate" || e.Name == "ipld.Walker.Seek" || e.Name == "ipld.Walker.Next"):
					old := in.load(before(t, e), bufA, nil)
					c.Ob("leftover-first", name, emptyBuf(in, before(t, e), old), t.pos(e), t, "the walk continues although the buffer may still hold undelivered bytes")
				}
			}
			final := in.load(&t.S, offA, types.Typ[types.Int64])
			init := in.load(&snap{}, offA, types.Typ[types.Int64])
			c.Ob("count", name, linEqual(t.Rets[0], sum), t.pos(nil), t, "the count returned is %s but %s bytes were delivered", short(t.Rets[0]), short(sum))
			c.Ob("position", name, linEqual(final, in.bin(token.ADD, init, sum, types.Typ[types.Int64])), t.pos(nil), t, "the position ends at %s although %s bytes were delivered from %s", short(final), short(sum), short(init))
			for _, a := range t.activations("ipld.Walker.Iterate") {
				if a.leave == nil {
					continue
				}
				if n, k := in.isNilKnown(&a.leave.S, a.leave.Rets[0]); k && !n {
					continue
				}
				if hasLinks(in, &a.leave.S, a.node) {
					continue
				}
				installs, read := 0, false
				for _, e := range a.events {
					if e.Kind == "store" && e.Addr == bufA && !e.Val.isNil() {
						installs++
						c.Ob("leaf-data", name, c.dataOfNode(in, &a.leave.S, t, e.Val, a.node), t.pos(e), t, "the buffer installed for a leaf does not hold that leaf's data")
					}
					if e.Kind == "call" && (e.Name == "bytes.Reader.Read" || e.Name == "bytes.Reader.WriteTo") && c.dataOfNode(in, &a.leave.S, t, e.Args[0], a.node) {
						read = true
					}
				}
				c.Ob("leaf-read-once", name, read && installs == 1, t.pos(a.leave), t, "a leaf is passed over, or buffered more than once, without an error (buffered %d times)", installs)
			}
			e := t.ErrRet()
			kk := e
			if k, ok := t.S.eqv.get(e.UID); ok {
				kk = k
			}
			ended := false
			for _, ev := range t.Events {
				if ev.Kind == "cbreturn" {
					r := ev.Res
					if k, ok := t.S.eqv.get(r.UID); ok {
						r = k // a writer or node that itself fails with EndOfDag counts as the end
					}
					ended = r.Op == "sentinel" && r.Sym == "ipld.EndOfDag"
				}
			}
			if kk.Op == "sentinel" && (kk.Sym == "io.EOF" || kk.Sym == "ipld.EndOfDag") {
				c.Ob("eof-only-at-end", name, ended && kk.Sym == "io.EOF" && !toWriter, t.pos(nil), t, "%s is reported without the walk having ended", kk.Sym)
			}
			if t.Ok() && !toWriter {
				c.Ob("full-or-error", name, in.proveEq(&t.S, t.Rets[0], in.lenOf(out)), t.pos(nil), t, "the read may end short (%s bytes) without an error", short(t.Rets[0]))
			}
			if t.Ok() && toWriter {
				c.Ob("all-or-error", name, ended, t.pos(nil), t, "the write-out may stop before the end of the DAG without an error")
			}
			if ended && !t.Ok() && !toWriter {
				c.Ob("end-is-eof", name, kk.Op == "sentinel" && kk.Sym == "io.EOF", t.pos(nil), t, "the end of the DAG is reported as %s", short(kk))
			}
			if ended && toWriter {
				c.Ob("end-is-success", name, t.IsNil(e), t.pos(nil), t, "reaching the end of the DAG fails the write-out")
			}
		})
	}
	c.Min("position", 1)
	c.Min("count", 1)
	c.Min("leaf-read-once", 1)
	c.Min("full-or-error", 2)
	c.Min("eof-only-at-end", 2)
	c.Min("all-or-error", 1)
}

func ruleC10(c *Checker) {
	c.explain = "Path-sensitive analysis of the reader's Seek (helpers and the walker callback inlined): the target is computed symbolically per origin; every path that can succeed must return it, leave the position equal to it with non-negativity proved, and must have started a fresh walk from the root with the buffer dropped; inside the walk every skipped child must be proved (linear arithmetic) to end at or before the target, every stop on an inner node must have the child reach past it, and the leaf must be entered at the target minus the sizes skipped. Refusals must precede any change; a failed walk must end with the reader reset to the start."
	c.Assume("the reader's position is never negative; ipld.Walker.Seek visits each node from the root down the active children and stops when the callback neither descends nor advances")
	f := c.drFields()
	name := "uio.dagReader.Seek"
	fn := c.Fn(name)
	c.Run(fn, Config{Arith: true, ExactLoop: true}, func(t *Trace) {
		if t.Outcome != "return" {
			c.Ob("no-panic", name, false, t.pos(nil), t, "Seek panics")
			return
		}
		in, dr, off, wh := t.In, t.Args[0], t.Args[1], t.Args[2]
		i64 := types.Typ[types.Int64]
		offA := in.fieldAddr(dr, f.off, types.NewPointer(i64))
		bufA := in.fieldAddr(dr, f.buf, nil)
		walkA := in.fieldAddr(dr, f.walker, nil)
		init := in.load(&snap{}, offA, i64)
		size := in.load(&snap{}, in.fieldAddr(dr, f.size, nil), types.Typ[types.Uint64])
		target := func(o, w *Term) (*Term, bool) {
			k := w
			if x, ok := t.S.eqv.get(w.UID); ok {
				k = x
			}
			n, ok := k.Int()
			if !ok {
				return nil, false
			}
			switch n {
			case 0:
				return o, true
			case 1:
				return in.bin(token.ADD, init, o, i64), true
			case 2:
				return in.bin(token.ADD, in.convert(size, i64), o, i64), true
			}
			return nil, false
		}
		T, known := target(off, wh)
		touched := func() *Event {
			for _, e := range t.Events {
				if e.Kind == "store" && baseOf(e.Addr) == dr {
					return e
				}
				if e.Kind == "call" && strings.HasPrefix(e.Name, "ipld.Walker.") {
					return e
				}
			}
			return nil
		}()
		rec := t.calls(name)
		final := in.load(&t.S, offA, i64)
		// last walker operation and last fresh walker
		lastOp, lastFresh := -1, -1
		for _, e := range t.Events {
			if e.Kind == "store" && e.Addr == walkA && e.Val.Op == "call" && e.Val.Sym == "ipld.NewWalker" && e.Val.contains(in.load(&snap{}, in.fieldAddr(dr, f.root, nil), nil)) {
				lastFresh = e.Idx
			}
			if (e.Kind == "call" || e.Kind == "cbreturn") && strings.HasPrefix(e.Name, "ipld.Walker.") && e.Name != "ipld.Walker.SetContext" {
				lastOp = e.Idx
			}
		}
		bufNil := func(s *snap) bool {
			b := in.load(s, bufA, nil)
			n, k := in.isNilKnown(s, b)
			return k && n
		}
		if len(rec) > 0 {
			e := rec[len(rec)-1]
			T2, k2 := target(e.Args[1], e.Args[2])
			ok := known && k2 && same(e.Args[0], dr) && touched == nil && len(rec) == 1
			c.Ob("same-target", name, ok && linEqual(T, T2), t.pos(e), t, "the seek is passed on with target %s, but the request is for %s", short(T2), short(T))
			c.Ob("result-passed-on", name, same(t.Rets[0], in.resOf(e, 0)) && same(t.Rets[1], in.resOf(e, 1)), t.pos(e), t, "the result of the inner seek is not what is returned")
			return
		}
		if !known {
			// unknown origin, or not even inspected
			if !c.Ob("unknown-origin", name, t.Failed(), t.pos(nil), t, "a seek with an unknown origin can succeed") {
				return
			}
			c.Ob("refused-unmoved", name, touched == nil, t.pos(touched), t, "a refused seek moves the reader")
			return
		}
		neg := in.Prove(&t.S, T, "<", in.TS.integer(0))
		if t.Failed() {
			if touched == nil {
				c.Ob("refused-unmoved", name, true, t.pos(nil), t, "")
				// a refusal needs a reason
				c.Ob("refused-for-cause", name, neg || callFailed(t), t.pos(nil), t, "a seek to a valid target is refused")
				return
			}
			z, isC := final.Int()
			c.Ob("failed-seek-resets", name, lastFresh > lastOp && isC && z == 0 && bufNil(&t.S), t.pos(nil), t, "a seek that fails on the way leaves the walk, the buffer or the position (%s) out of step", short(final))
			c.Ob("not-after-refusal", name, !neg, t.pos(nil), t, "a negative target is refused only after the reader was moved")
			return
		}
		c.Ob("returns-target", name, linEqual(t.Rets[0], T) || in.proveEq(&t.S, t.Rets[0], T), t.pos(nil), t, "a successful seek to %s returns %s", short(T), short(t.Rets[0]))
		c.Ob("position-is-target", name, linEqual(final, T) || in.proveEq(&t.S, final, T), t.pos(nil), t, "after a successful seek to %s the position is %s", short(T), short(final))
		if touched == nil {
			c.Ob("unmoved-when-there", name, linEqual(T, init) || in.proveEq(&t.S, T, init), t.pos(nil), t, "a seek to %s succeeds without moving the reader", short(T))
			return
		}
		c.Ob("target-not-negative", name, in.Prove(&t.S, in.TS.integer(0), "<=", T), t.pos(nil), t, "a seek to a target that may be negative succeeds")
		acts := t.activations("ipld.Walker.Seek")
		seeks := t.calls("ipld.Walker.Seek")
		if len(seeks) == 0 && lastOp < 0 && lastFresh < 0 {
			// moving inside the bytes at hand, which continue at the position
			inside := false
			if es := t.calls("bytes.Reader.Seek"); len(es) == 1 {
				e := es[0]
				w, _ := e.Args[2].Int()
				b := before(t, e)
				if e.Args[2].isConst() && w == 1 && same(e.Args[0], in.load(&snap{}, bufA, nil)) && linEqual(in.bin(token.ADD, init, e.Args[1], i64), T) && in.Prove(b, in.TS.integer(0), "<=", e.Args[1]) {
					for _, l := range t.calls("bytes.Reader.Len") {
						if l.Idx < e.Idx && same(l.Args[0], e.Args[0]) && in.Prove(b, e.Args[1], "<=", in.convert(l.Res, i64)) {
							inside = true
						}
					}
				}
			}
			c.Ob("inside-buffer", name, inside && same(in.load(&t.S, bufA, nil), in.load(&snap{}, bufA, nil)), t.pos(nil), t, "a seek to %s succeeds without searching the DAG, and not by moving inside the bytes at hand", short(T))
			return
		}
		if len(seeks) == 0 {
			c.Ob("reset-only-to-start", name, lastFresh > lastOp && in.proveEq(&t.S, T, in.TS.integer(0)) && bufNil(&t.S), t.pos(nil), t, "a seek to %s succeeds without searching the DAG", short(T))
			return
		}
		s := seeks[0]
		c.Ob("search-from-root", name, len(seeks) == 1 && lastFresh >= 0 && lastFresh < s.Idx && bufNil(before(t, s)) && same(in.load(&s.S, walkA, nil), s.Args[0]), t.pos(s), t, "the search does not start on a fresh walk from the root with the buffer dropped")
		rem := T
		for _, a := range acts {
			if a.leave == nil {
				break
			}
			if n, k := in.isNilKnown(&a.leave.S, a.leave.Rets[0]); k && !n {
				continue // ends the search with an error
			}
			data := in.TS.mk("pure", "Data", nil, a.node)
			inner := hasLinks(in, &a.leave.S, a.node)
			var obj *Term
			for _, d := range t.decodes() {
				if same(d.bytes, data) {
					if n, k := in.isNilKnown(&a.leave.S, d.err); k && n {
						obj = d.obj
					}
				}
			}
			cs := func(s *snap) *Term {
				sym := "ipld.Walker.ActiveChildIndex"
				w := in.load(s, walkA, nil)
				if ep, _ := s.eps.get(w.UID); ep > 0 {
					sym += "@" + itoa(ep)
				}
				idx := in.convert(in.TS.mk("pure", sym, types.Typ[types.Uint], w), types.Typ[types.Int])
				u := types.Typ[types.Uint64]
				return in.load(s, in.indexAddr(in.pbField(s, obj, "Blocksizes"), idx, types.NewPointer(u)), u)
			}
			exhausted, entered := false, false
			for _, e := range a.events {
				if e.Kind == "call" && e.Name == "ipld.Walker.NextChild" {
					if !c.Ob("skip-inner-only", name, inner && obj != nil, t.pos(e), t, "children are skipped on a node that was not decoded as an inner file node") {
						return
					}
					k := cs(before(t, e))
					c.Ob("skip-only-before-target", name, in.Prove(before(t, e), k, "<=", rem) || in.Prove(before(t, e), k, "<=", in.convert(rem, types.Typ[types.Uint64])), t.pos(e), t, "a child may be skipped although its size %s is not known to be at most the remaining %s", short(k), short(rem))
					rem = in.bin(token.SUB, rem, in.convert(k, i64), i64)
					if x := in.errOf(e); x != nil {
						if n, kn := in.isNilKnown(&a.leave.S, x); !kn || !n {
							exhausted = true
						}
					}
				}
				if e.Kind == "call" && e.Name == "bytes.Reader.Seek" {
					w, _ := e.Args[2].Int()
					okW := e.Args[2].isConst() && w == 0
					c.Ob("leaf-offset", name, okW && linEqual(e.Args[1], rem), t.pos(e), t, "the leaf is entered at %s, but %s of the target remain", short(e.Args[1]), short(rem))
					okB := same(e.Args[0], in.load(before(t, e), bufA, nil)) && c.dataOfNode(in, &a.leave.S, t, e.Args[0], a.node)
					c.Ob("leaf-buffer", name, okB, t.pos(e), t, "the position is set in %s, not in the visited leaf's data", short(e.Args[0]))
					entered = true
				}
			}
			if inner {
				ok := exhausted
				if !ok && obj != nil {
					k := cs(&a.leave.S)
					ok = in.Prove(&a.leave.S, rem, "<", k) || in.Prove(&a.leave.S, in.convert(rem, types.Typ[types.Uint64]), "<", k)
				}
				c.Ob("descend-only-into-target", name, ok, t.pos(a.leave), t, "the search descends into a child that is not known to reach past the target (%s remaining)", short(rem))
				hints := obj != nil && in.proveEq(&a.leave.S, in.lenOf(in.pbField(&a.leave.S, obj, "Blocksizes")), in.lenOf(in.TS.mk("pure", "Links", nil, a.node)))
				c.Ob("size-hints-complete", name, hints, t.pos(a.leave), t, "the search trusts child sizes without one per link")
			} else {
				c.Ob("leaf-entered", name, entered, t.pos(a.leave), t, "the search ends on a leaf without moving to the target inside it")
			}
		}
		c.Ob("walk-not-disturbed", name, lastFresh < s.Idx, t.pos(s), t, "the walk is reset after the search")
	})
	for r, n := range map[string]int{"unknown-origin": 1, "refused-unmoved": 1, "failed-seek-resets": 1, "returns-target": 1, "position-is-target": 1,
		"target-not-negative": 1, "skip-only-before-target": 1, "leaf-offset": 1, "descend-only-into-target": 1, "search-from-root": 1} {
		c.Min(r, n)
	}
}
