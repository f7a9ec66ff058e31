package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// workers: each batch taken from the feed is walked in full.
func (l *listing) workers(fn *ssa.Function) {
	c := l.c
	r := l.k.explore(fn, l.k.config(fn))
	c.account(r.in)
	for _, g := range r.gors {
		for _, t := range g.ts {
			for _, e := range t.Events {
				if e.Kind == "makechan" {
					r.chans[e.Res] = e
				}
			}
		}
	}
	for _, t := range r.ts {
		if t.Outcome == "return" && !t.Failed() {
			l.noDeadline(fn, t)
		}
	}
	for _, g := range r.gors {
		if g.group == nil || !g.many {
			continue
		}
		for _, t := range g.ts {
			if t.Outcome != "return" || t.Failed() {
				continue
			}
			l.noDeadline(fn, t)
			start := -1
			for i, e := range t.Events {
				rc := e.Kind == "recv" || e.Kind == "select" && e.Name == "recv"
				if rc && r.chans[e.Addr] != nil && !isSignal(e.Addr) {
					if start >= 0 {
						l.batch(r, g, t, start, i)
					}
					start = -1
					if e.Taken {
						start = i
					}
				}
			}
			if start >= 0 {
				l.batch(r, g, t, start, len(t.Events))
			}
		}
	}
}

func (l *listing) batch(r *concRun, g *gor, t *Trace, from, to int) {
	c, in := l.c, r.in
	b := t.Events[from]
	q := queueFields(b.Res.Typ)
	if q == nil {
		return
	}
	for _, e := range t.Events[from:to] {
		if e.Kind == "select" && e.Name == "recv" && doneOf(e.Addr) != nil {
			return // the context has ended
		}
	}
	name := g.name
	s := &b.S
	cids, shards := in.fieldVal(s, b.Res, q[0]), in.fieldVal(s, b.Res, q[1])
	sent := map[*Term]bool{}
	for _, e := range t.Events[from:to] {
		if (e.Kind == "send" || e.Kind == "select" && e.Name == "send") && r.chans[e.Addr] != nil && !isSignal(e.Addr) {
			sent[e.Val.peel()] = true
		}
	}
	var walked, visits []*Term
	subjects := map[*Term]bool{}
	var want []*Term
	for _, e := range t.Events[from:to] {
		if e.Kind != "call" {
			continue
		}
		if e.Callee != nil && containsFn(l.listers, e.Callee) {
			x := e.Args[c.param(e.Callee, "*hamt.Shard")].peel()
			subjects[x] = true
			if i, el := elemOf(x, shards); el == x && el != nil {
				walked = append(walked, i)
			}
			c.Ob("worker-walks", name+" result", sent[in.resOf(e, 0).peel()], t.pos(e), t, "%s walks a shard and does not pass its sub-shards on", name)
		}
		if e.Name == "cid.Set.Visit" && len(e.Args) == 2 {
			set := e.Args[0].peel()
			c.Ob("worker-walks", name+" visited set", set.Op == "call" && set.Sym == "cid.NewSet" || set.Op == "alloc", t.pos(e), t, "%s skips shards by a set that outlives the enumeration", name)
			if i, el := elemOf(e.Args[1], cids); el != nil {
				visits = append(visits, i)
				if v, k := in.decide(&t.S, e.Res); !k || v {
					want = append(want, e.Args[1])
				}
			}
		}
	}
	ok, why := in.covers(&t.S, walked, in.lenOf(shards))
	c.Ob("worker-walks", name+" shards", ok, t.pos(b), t, "%s: not every loaded shard of a batch is walked: %s", name, why)
	// the CIDs: fetched, or seen before
	var asked []*Term
	whole := false
	for i, e := range t.Events[from:to] {
		if e.Kind != "call" || e.Res == nil {
			continue
		}
		if _, is := e.Res.Typ.Underlying().(*types.Chan); !is || isDone(e) {
			continue
		}
		for _, a := range e.Args {
			if types.TypeString(a.Typ, shortQual) != "[]cid.Cid" {
				continue
			}
			whole = whole || same(a, cids)
			asked = append(asked, elems(a)...)
		}
		l.stream(r, g, t, e, from+i, to, subjects)
	}
	if whole {
		return
	}
	if len(visits) == 0 {
		for _, a := range asked {
			if i, el := elemOf(a, cids); el != nil {
				visits = append(visits, i)
			}
		}
	}
	ok, why = in.covers(&t.S, visits, in.lenOf(cids))
	c.Ob("worker-walks", name+" cids", ok, t.pos(b), t, "%s: not every sub-shard of a batch is fetched: %s", name, why)
	for _, w := range want {
		found := false
		for _, a := range asked {
			found = found || same(a, w)
		}
		c.Ob("worker-walks", name+" cids", found, t.pos(b), t, "%s does not fetch a sub-shard it has not visited before", name)
	}
}

func isDone(e *Event) bool { return e.Name == "context.Context.Done" }

// stream: the nodes fetched are read to the end, loaded and walked.
func (l *listing) stream(r *concRun, g *gor, t *Trace, mk *Event, from, to int, subjects map[*Term]bool) {
	c, in := l.c, r.in
	closed := false
	for _, e := range t.Events[from:to] {
		if e.Kind != "recv" && !(e.Kind == "select" && e.Name == "recv") || e.Addr != mk.Res {
			continue
		}
		if !e.Taken {
			closed = true
			continue
		}
		var nd *Term
		errOk := false
		st, _ := isStruct(deref(e.Res.Typ))
		for k := 0; st != nil && k < st.NumFields(); k++ {
			f := st.Field(k)
			var v *Term
			if _, ptr := e.Res.Typ.Underlying().(*types.Pointer); ptr {
				v = in.fieldVal(&t.S, e.Res, f.Name())
			} else {
				v = in.field(e.Res, f.Name(), f.Type())
			}
			if isErr(f.Type()) {
				n, k := in.isNilKnown(&t.S, v)
				errOk = k && n
			} else {
				nd = v
			}
		}
		c.Ob("worker-walks", g.name+" fetch error", errOk, t.pos(e), t, "%s goes on although a sub-shard could not be fetched", g.name)
		walked := false
		for _, x := range t.Events[e.Idx:to] {
			if x.Kind == "call" && x.Name == "hamt.NewHamtFromDag" && nd != nil && same(x.Args[1], nd) {
				walked = walked || subjects[in.resOf(x, 0).peel()]
			}
		}
		c.Ob("worker-walks", g.name+" fetched", walked, t.pos(e), t, "%s does not walk a sub-shard it fetched", g.name)
	}
	c.Ob("worker-walks", g.name+" stream", closed, t.pos(mk), t, "%s stops reading the sub-shards it asked for before the last one", g.name)
}

// exact evaluates a condition of the dispatcher with its counters resolved.
func exact(in *Interp, x *Term) *Term {
	if x == nil {
		return nil
	}
	if x.Op == "loopvar" && x.Elem != nil {
		return exact(in, x.Elem)
	}
	if len(x.Args) == 0 {
		return x
	}
	var as []*Term
	for _, a := range x.Args {
		as = append(as, exact(in, a))
	}
	switch x.Op {
	case "not":
		return in.not(as[0])
	case "eq":
		return in.eq(as[0], as[1])
	case "lt":
		return in.lt(as[0], as[1])
	case "bin":
		if x.Sym == "+" {
			return in.bin(token.ADD, as[0], as[1], x.Typ)
		}
		if x.Sym == "-" {
			return in.bin(token.SUB, as[0], as[1], x.Typ)
		}
	case "pure":
		if isLen(x) {
			return in.lenOf(as[len(as)-1])
		}
	}
	return x
}

// dispatcher: everything received from the workers is sent to them, the walk
// starts at the root, and it ends exactly when nothing is outstanding.
func (l *listing) dispatcher(fn *ssa.Function) {
	c := l.c
	cfg := l.k.config(fn)
	base := cfg.Stop
	cfg.Stop = base
	cfg.MaxVisits = 8
	cfg.MaxPaths, cfg.MaxSteps = 400_000, 60_000_000
	r := l.k.explore(fn, l.k.config(fn))
	feed, outs, sigs := map[*Term]bool{}, map[*Term]bool{}, map[*Term]bool{}
	instrs := map[ssa.Instruction]string{} // role of the channel made there
	for _, g := range r.gors {
		for _, t := range g.ts {
			for _, e := range t.Events {
				if e.Kind == "makechan" {
					r.chans[e.Res] = e
				}
			}
		}
	}
	nw := 0
	for _, g := range r.gors {
		if g.group == nil || !g.many {
			continue
		}
		nw++
		for _, t := range g.ts {
			for _, o := range r.blocking(g, t) {
				mk := r.chans[o.ch]
				if mk == nil {
					continue
				}
				switch {
				case !o.send && queueFields(elemType(o.ch)) != nil:
					feed[o.ch] = true
					instrs[mk.Instr] = "feed"
				case o.send && isSignal(o.ch):
					sigs[o.ch] = true
					instrs[mk.Instr] = "signal"
				case o.send:
					outs[o.ch] = true
					instrs[mk.Instr] = "out"
				}
			}
		}
	}
	if nw == 0 || len(feed) == 0 {
		return
	}
	rootArg := c.param(fn, "*hamt.Shard")
	name := fnName(fn)
	n := 0
	history := func(t *Trace) {
		in := t.In
		if t.Outcome != "return" {
			return
		}
		roles := map[*Term]string{}
		for _, e := range t.Events {
			if e.Kind == "makechan" {
				roles[e.Res] = instrs[e.Instr]
			}
		}
		role := func(ch *Term) string { return roles[ch] }
		sent, done := 0, 0
		pending := map[*Term]bool{}
		order := 0
		first := true
		seenSel, quit := false, false
		var bad []string
		for _, e := range t.Events {
			if e.Kind == "branch" && seenSel {
				x, taken := exact(in, e.Cond), e.Taken
				for x.Op == "not" {
					x, taken = x.Args[0], !taken
				}
				if x.Op == "eq" && taken && (x.Args[0].isNil() && x.Args[1].Op == "recv" || x.Args[1].isNil() && x.Args[0].Op == "recv") {
					return // workers never send nil
				}
				if v, k := in.decide(&snap{}, exact(in, e.Cond)); k && v != e.Taken {
					return // the counters exclude this path
				}
			}
			if e.Kind == "close" && role(e.Addr) == "feed" {
				break
			}
			if e.Kind != "select" && e.Kind != "send" && e.Kind != "recv" {
				continue
			}
			seenSel = true
			if e.Kind == "select" && e.Block && !first {
				can := map[string]bool{}
				for _, ch := range e.Args {
					if !ch.isNil() {
						can[role(ch)] = true
					}
				}
				if sent == done && len(pending) == 0 {
					bad = append(bad, "goes on waiting although nothing is outstanding")
				} else if len(pending) > 0 && sent == done && !can["feed"] {
					bad = append(bad, "does not offer work that is waiting while nothing else is outstanding")
				} else if sent > done && (!can["signal"] || !can["out"]) {
					bad = append(bad, "stops listening to a worker")
				}
			}
			isSend := e.Kind == "send" || e.Kind == "select" && e.Name == "send"
			switch {
			case !isSend && doneOf(e.Addr) != nil:
				quit = true
			case isSend && role(e.Addr) == "feed":
				v := e.Val.peel()
				if first {
					q := queueFields(v.Typ)
					ok := false
					if q != nil && rootArg >= 0 {
						el := elems(in.fieldVal(&e.S, v, q[1]))
						ok = len(el) == 1 && same(el[0], t.Args[rootArg])
					}
					c.Ob("dispatch-complete", name+" start", ok, t.pos(e), t, "%s does not start with the root shard", name)
					first = false
				} else if !pending[v] {
					bad = append(bad, "sends a batch twice, or one it has not received")
				}
				delete(pending, v)
				sent++
			case !isSend && role(e.Addr) == "signal":
				done++
				if done > sent {
					return // no worker has a batch
				}
			case !isSend && role(e.Addr) == "out":
				if done >= sent {
					return
				}
				order++
				pending[e.Res.peel()] = true
			}
			if quit {
				break
			}
		}
		if !seenSel {
			return
		}
		if !quit {
			n++
			if len(pending) > 0 {
				bad = append(bad, "ends with sub-shards still to be walked")
			}
			if sent != done {
				bad = append(bad, "ends while a worker is still walking a batch")
			}
		}
		why := ""
		if len(bad) > 0 {
			why = bad[0]
		}
		c.Ob("dispatch-complete", name, why == "", c.W.Pos(fn.Pos()), t, "%s %s", name, why)
	}
	// as many rounds of the loop as the budget allows, five at least
	var in *Interp
	for ; ; cfg.MaxVisits-- {
		in = NewInterp(c.W, cfg)
		var ts []*Trace
		in.Run(fn, func(t *Trace) { ts = append(ts, t) })
		if in.Stats.Truncated && cfg.MaxVisits > 5 {
			continue
		}
		for _, t := range ts {
			history(t)
		}
		break
	}
	c.account(in)
	if in.Stats.Truncated {
		c.Fail("undecided", name, c.W.Pos(fn.Pos()), nil, "the histories of %s exceed the analysis budget", name)
	}
	c.Ob("dispatch-complete", name+" ends", n > 0, c.W.Pos(fn.Pos()), nil, "no history of %s ends by itself", name)
}

// noDeadline: a listing ends early without an error only when its caller calls
// it off.
func (l *listing) noDeadline(fn *ssa.Function, t *Trace) {
	name := fnName(fn)
	for _, e := range t.Events {
		var ctx *Term
		switch {
		case e.Kind == "call" && e.Callee != nil && l.k.isrt[e.Callee]:
			ctx = ctxArg2(e)
		case e.Kind == "select" && e.Name == "recv":
			ctx = doneOf(e.Addr)
		case e.Kind == "call" && e.Name == "context.Context.Err" && t.NonNil(e.Res):
			ctx = e.Args[0]
		}
		if ctx != nil {
			l.c.Ob("listing-complete", name+" deadline", !deadlined(ctx), t.pos(e), t, "%s is cut short by a deadline of its own, without an error", name)
		}
	}
}

// failure: the failure of the walk is delivered, or the listing was called off.
func (l *listing) failure(fn *ssa.Function, t *Trace) {
	in := t.In
	for _, e := range t.Events {
		if e.Kind != "call" || e.Callee == nil || !l.k.isrt[e.Callee] || !hasErrResult(e.Callee.Signature) {
			continue
		}
		err := in.errOf(e)
		if err == nil || t.IsNil(err) {
			continue
		}
		ok := false
		for _, f := range t.Events[e.Idx:] {
			if f.Kind == "send" || f.Kind == "select" && f.Name == "send" {
				if fl := errField(f.Val.Typ); fl != "" {
					v, kn := in.isNilKnown(&f.S, in.field(f.Val, fl, errType))
					ok = ok || kn && !v || same(in.field(f.Val, fl, errType), err)
				}
			}
			if f.Kind == "select" && f.Name == "recv" && doneOf(f.Addr) != nil || f.Kind == "call" && f.Name == "context.Context.Err" && t.NonNil(f.Res) {
				ok = true
			}
		}
		for _, x := range t.Rets {
			ok = ok || same(x, err) || isErr(x.Typ) && t.NonNil(x)
		}
		l.c.Ob("listing-complete", fnName(fn)+" failure", ok, t.pos(e), t, "%s ends the listing without an error although the walk failed", fnName(fn))
	}
}

// deadlined: the context ends by itself, whatever the caller's does.
func deadlined(x *Term) bool { return deadlinedWithin(x, nil) }

func deadlinedWithin(x, outer *Term) bool {
	for i := 0; x != nil && x != outer && i < 20; i++ {
		switch x.Op {
		case "extract", "convert", "makeinterface":
		case "call":
			if x.Sym == "context.WithTimeout" || x.Sym == "context.WithDeadline" || x.Sym == "context.WithTimeoutCause" || x.Sym == "context.WithDeadlineCause" {
				return true
			}
		default:
			return false
		}
		if len(x.Args) == 0 {
			return false
		}
		x = x.Args[0]
	}
	return false
}

func elemType(ch *Term) types.Type {
	return ch.Typ.Underlying().(*types.Chan).Elem()
}

// consumers: success is reported only for a stream read to its end under a
// context that is known not to have ended.
func (l *listing) consumers() {
	c, k := l.c, l.k
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Parent() != nil || !k.receives(fn) || !hasErrResult(fn.Signature) {
			continue
		}
		name := fnName(fn)
		c.Run(fn, k.config(fn), func(t *Trace) {
			if t.Outcome != "return" || t.Failed() {
				return
			}
			in := t.In
			for _, mk := range t.Events {
				if mk.Kind != "call" || mk.Res == nil || !isStream(mk.Res.Typ) || !k.ours(mk) {
					continue
				}
				var closed *Event
				var got []*Term
				for _, e := range t.Events[mk.Idx:] {
					if (e.Kind == "recv" || e.Kind == "select" && e.Name == "recv") && e.Addr == mk.Res && !abandoned(t, e) {
						if !e.Taken {
							closed = e
						} else {
							got = append(got, e.Res)
						}
					}
				}
				list := types.TypeString(fn.Signature.Results().At(0).Type(), shortQual) == "[]*ipld.Link"
				claims := list
				if v, kn := in.decide(&t.S, boolOf(t.Rets[0])); isBool(fn.Signature.Results().At(0).Type()) && (!kn || v) {
					claims = true
				}
				if !claims && closed == nil {
					continue
				}
				c.Ob("listing-complete", name+" read to the end", closed != nil, t.pos(mk), t, "%s reports success without having read the enumeration to its end", name)
				if closed == nil {
					continue
				}
				ok := false
				for _, e := range t.Events[closed.Idx:] {
					if e.Kind == "call" && e.Name == "context.Context.Err" && derives(ctxArg2(mk), e.Args[0]) && !deadlinedWithin(ctxArg2(mk), e.Args[0]) && t.IsNil(e.Res) {
						ok = true
					}
				}
				c.Ob("listing-complete", name+" not cut short", ok, t.pos(closed), t, "%s takes the end of the enumeration for its completion although the context may have ended", name)
				if list {
					el := elems(t.Rets[0])
					good := len(el) == len(got)
					for i := range got {
						good = good && same(el[i], in.field(got[i], linkField(got[i].Typ), el[i].Typ))
					}
					c.Ob("listing-complete", name+" entries", good, t.pos(closed), t, "%s returns other entries than it received", name)
				}
			}
		})
	}
}

func ctxArg2(e *Event) *Term {
	for _, a := range e.Args {
		if a.Typ != nil && types.TypeString(a.Typ, shortQual) == "context.Context" {
			return a
		}
	}
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func boolOf(x *Term) *Term { return x }

func linkField(t types.Type) string {
	st, ok := isStruct(deref(t))
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.TypeString(st.Field(i).Type(), shortQual) == "*ipld.Link" {
			return st.Field(i).Name()
		}
	}
	return ""
}

// methods: the enumerating methods of both layouts and of the shard.
func (l *listing) methods() {
	c, k := l.c, l.k
	nodeF := func(t types.Type, want string) string {
		st, ok := isStruct(deref(t))
		if !ok {
			return ""
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.TypeString(st.Field(i).Type(), shortQual) == want {
				return st.Field(i).Name()
			}
		}
		return ""
	}
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Recv() == nil || fn.Blocks == nil {
			continue
		}
		rt := fn.Signature.Recv().Type()
		nf, sf := nodeF(rt, "*dag.ProtoNode"), nodeF(rt, "*hamt.Shard")
		rn := types.TypeString(rt, shortQual)
		isDir := strings.HasPrefix(rn, "*uio.") && (nf != "" || sf != "")
		isShard := rn == "*hamt.Shard"
		if !isDir && !isShard {
			continue
		}
		name := fnName(fn)
		cbi := -1
		for i, p := range fn.Params {
			if isLinkCallback(p.Type()) {
				cbi = i
			}
		}
		streams := fn.Signature.Results().Len() == 1 && isStream(fn.Signature.Results().At(0).Type())
		lists := fn.Signature.Results().Len() == 2 && types.TypeString(fn.Signature.Results().At(0).Type(), shortQual) == "[]*ipld.Link"
		walks := cbi >= 0 && fn.Signature.Results().Len() == 1 && hasErrResult(fn.Signature) && exported(fn)
		switch {
		case isDir && nf != "" && (walks || lists):
			c.Run(fn, Config{MaxVisits: 3}, func(t *Trace) {
				if t.Outcome != "return" || t.Failed() {
					return
				}
				in := t.In
				L := in.TS.mk("pure", "Links", nil, in.fieldVal(&snap{}, t.Args[0], nf))
				if lists {
					ok := t.sameList(t.Rets[0], L)
					c.Ob("layout-lists-all", name, ok, c.W.Pos(fn.Pos()), t, "%s does not list the links of the directory's node", name)
					return
				}
				var idxs []*Term
				for _, e := range t.Events {
					if e.Kind == "call" && e.Val != nil && same(e.Val, t.Args[cbi]) {
						i, el := elemOf(e.Args[0], L)
						c.Ob("layout-lists-all", name+" link", el != nil && same(el, e.Args[0]), t.pos(e), t, "%s passes on a link that is not one of the directory's", name)
						if i != nil {
							idxs = append(idxs, i)
						}
					}
				}
				ok, why := in.covers(&t.S, idxs, in.lenOf(L))
				c.Ob("layout-lists-all", name, ok, c.W.Pos(fn.Pos()), t, "%s: not every link is passed on once: %s", name, why)
			})
		case isDir && nf != "" && streams && k.isrt[fn]:
			r := k.explore(fn, k.config(fn))
			c.account(r.in)
			for _, g := range r.gors {
				if g.spawn == nil || g.cb {
					continue
				}
				for _, t := range g.ts {
					if t.Outcome != "return" {
						continue
					}
					in := t.In
					var L *Term
					var idxs []*Term
					quit := false
					for _, e := range t.Events {
						if e.Kind == "select" && e.Name == "recv" && doneOf(e.Addr) != nil || e.Kind == "call" && e.Name == "context.Context.Err" && t.NonNil(e.Res) {
							quit = true
						}
						if !(e.Kind == "send" || e.Kind == "select" && e.Name == "send") {
							continue
						}
						lk := in.field(e.Val, linkField(e.Val.Typ), nil)
						lk.containsF(func(y *Term) bool {
							if y.Op == "pure" && y.Sym == "Links" {
								L = y
							}
							return false
						})
						if L != nil {
							if i, el := elemOf(lk, L); el != nil && same(el, lk) {
								idxs = append(idxs, i)
							}
						}
						er := in.field(e.Val, errField(e.Val.Typ), errType)
						n, kn := in.isNilKnown(&e.S, er)
						c.Ob("layout-lists-all", name+" result", kn && n, t.pos(e), t, "%s delivers an entry with an error", name)
					}
					if quit {
						continue
					}
					if L == nil {
						for _, x := range r.ts[0].Args {
							if d := deref(x.Typ); d != nil && nodeF(x.Typ, "*dag.ProtoNode") == nf {
								L = in.TS.mk("pure", "Links", nil, in.fieldVal(&snap{}, x, nf))
							}
						}
					}
					ok, why := in.covers(&t.S, idxs, in.lenOf(L))
					c.Ob("layout-lists-all", name, ok, c.W.Pos(fn.Pos()), t, "%s: not every link is delivered once: %s", name, why)
				}
			}
		case isDir && sf != "" && (walks || lists || streams):
			cfg := k.config(fn)
			if stop := cfg.Stop; stop != nil {
				cfg.Stop = func(g *ssa.Function, d int) bool {
					if !exported(g) && !recursive(g) && g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), fn.Signature.Recv().Type()) {
						return false // a part of fn
					}
					return stop(g, d) || exported(g) && recvIs(g, "hamt.Shard")
				}
			}
			c.Run(fn, cfg, func(t *Trace) {
				if t.Outcome != "return" {
					return
				}
				in := t.In
				sh := in.fieldVal(&snap{}, t.Args[0], sf)
				ok := false
				for _, e := range t.Events {
					if e.Kind != "call" || e.Callee == nil || !strings.HasPrefix(fnName(e.Callee), "hamt.Shard.") || !same(e.Args[0], sh) {
						continue
					}
					same1 := false
					for _, x := range t.Rets {
						same1 = same1 || x.contains(e.Res) || same(x, e.Res)
					}
					if walks {
						has := false
						for _, a := range e.Args {
							has = has || same(a, t.Args[cbi]) || a.Op == "closure"
						}
						same1 = has && (same1 || t.IsNil(e.Res))
					}
					ok = ok || same1
				}
				for _, e := range t.Events { // by another enumeration of this directory
					if e.Kind == "call" && e.Res != nil && isStream(e.Res.Typ) {
						ok = true
					}
				}
				c.Ob("layout-lists-all", name, ok, c.W.Pos(fn.Pos()), t, "%s does not list the entries of the directory's shard", name)
			})
		case isShard && walks:
			c.Run(fn, Config{Stop: func(f *ssa.Function, d int) bool { return f != fn && containsFn(l.walkers, f) }}, func(t *Trace) {
				if t.Outcome != "return" || t.Failed() {
					return
				}
				ok := false
				for _, e := range t.Events {
					if e.Kind != "call" || e.Callee == nil || !containsFn(l.walkers, e.Callee) || !same(e.Args[0], t.Args[0]) {
						continue
					}
					for _, a := range e.Args {
						if a.Op == "closure" && isShardCallback(a.Typ) {
							ok = true
							l.perEntry(fn, t, e, a, t.Args[cbi])
						}
					}
				}
				c.Ob("layout-lists-all", name, ok, c.W.Pos(fn.Pos()), t, "%s does not walk the shard", name)
			})
		case isShard && streams && k.isrt[fn]:
			r := k.explore(fn, k.config(fn))
			c.account(r.in)
			l.emits(fn, r)
		}
	}
}

// perEntry: the callback passes the entry on under its own name.
func (l *listing) perEntry(fn *ssa.Function, t *Trace, e *Event, cl, user *Term) {
	c, in := l.c, t.In
	name := fnName(fn)
	sv := in.TS.mk("param", "entry\x00"+name, l.shardType())
	in.RunFrom(e.S, cl.Fn, []*Term{sv}, cl.Args, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		n := 0
		for _, e := range t.Events {
			if e.Kind != "call" || e.Val == nil || !same(e.Val, user) {
				continue
			}
			n++
			lnk := e.Args[0]
			val := in.fieldVal(&e.S, sv, l.f.val)
			ok := same(in.fieldVal(&e.S, lnk, "Name"), in.fieldVal(&e.S, sv, l.f.key)) &&
				same(in.fieldVal(&e.S, lnk, "Cid"), in.fieldVal(&e.S, val, "Cid")) && same(in.fieldVal(&e.S, lnk, "Size"), in.fieldVal(&e.S, val, "Size"))
			c.Ob("layout-lists-all", name+" entry", ok, t.pos(e), t, "%s passes on an entry that is not the one of the shard under its own name", name)
		}
		c.Ob("layout-lists-all", name+" entry", n == 1, c.W.Pos(fn.Pos()), t, "%s does not pass an entry on exactly once", name)
	})
}

// emits: each entry the walk finds is sent, or the context has ended; the walk
// starts at the shard itself.
func (l *listing) emits(fn *ssa.Function, r *concRun) {
	c := l.c
	name := fnName(fn)
	started := false
	for _, g := range r.gors {
		for _, t := range g.ts {
			in := t.In
			if t.Outcome != "return" {
				continue
			}
			for _, e := range t.Events {
				if e.Kind == "call" && e.Callee != nil && l.k.isrt[e.Callee] {
					for _, a := range e.Args {
						started = started || same(a, r.ts[0].Args[0])
					}
				}
			}
			l.noDeadline(fn, t)
			l.failure(fn, t)
			if !g.cb || len(t.Args) != 1 || types.TypeString(t.Args[0].Typ, shortQual) != "*ipld.Link" || t.Failed() {
				continue
			}
			n, quit := 0, false
			for _, e := range t.Events {
				if e.Kind == "select" && e.Name == "recv" && doneOf(e.Addr) != nil || e.Kind == "call" && e.Name == "context.Context.Err" && t.NonNil(e.Res) {
					quit = true
				}
				if e.Kind == "send" || e.Kind == "select" && e.Name == "send" {
					lk := in.field(e.Val, linkField(e.Val.Typ), nil)
					er, kn := in.isNilKnown(&e.S, in.field(e.Val, errField(e.Val.Typ), errType))
					c.Ob("layout-lists-all", name+" result", same(lk, t.Args[0]) && kn && er, t.pos(e), t, "%s delivers something else than the entry found", name)
					n++
				}
			}
			c.Ob("layout-lists-all", name+" result", n == 1 || n == 0 && quit, c.W.Pos(fn.Pos()), t, "%s drops an entry although its context has not ended", name)
		}
	}
	c.Ob("layout-lists-all", name, started, c.W.Pos(fn.Pos()), nil, "%s does not enumerate its own shard", name)
}
