package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory shared between goroutines.

// extWrites: methods of other modules that change (or must not overlap a
// change of) the object they are called on.
var extWrites = map[string]bool{
	"cid.Set.Visit": true, "cid.Set.Add": true, "cid.Set.Remove": true, "cid.Set.Has": true, "cid.Set.Len": true, "cid.Set.ForEach": true, "cid.Set.Keys": true,
	"dag.ProtoNode.AddNodeLink": true, "dag.ProtoNode.AddRawLink": true, "dag.ProtoNode.RemoveNodeLink": true, "dag.ProtoNode.SetLinks": true,
	"dag.ProtoNode.SetData": true, "dag.ProtoNode.SetCidBuilder": true, "dag.ProtoNode.EncodeProtobuf": true, "dag.ProtoNode.RawData": true,
	"dag.ProtoNode.Cid": true, "dag.ProtoNode.Size": true, "dag.ProtoNode.Stat": true, "dag.ProtoNode.String": true, "dag.ProtoNode.Multihash": true,
	"bytes.Buffer.Write": true, "sync.Map.Store": false,
}

// owner follows an address or value to what it is reachable from.
func (r *concRun) local(x *Term, start int) bool {
	for i := 0; x != nil && i < 200; i++ {
		switch x.Op {
		case "alloc", "make", "lit", "litnonnil", "closure", "struct", "zero", "const", "nil", "append":
			return x.UID >= start
		case "param", "free", "global", "sentinel", "recv":
			return false
		case "call":
			if x.UID < start {
				return false
			}
			if x.Ev != nil && x.Ev.Callee != nil && r.k.c.W.InRepo(x.Ev.Callee) {
				return r.k.effectsOf(x.Ev.Callee).fresh
			}
			return true // made by another module for this call
		}
		if len(x.Args) == 0 {
			return false
		}
		x = x.Args[0]
	}
	return false
}

type sharedWrite struct {
	e    *Event
	base *Term
	what string
	held []*Term
}

// writesOf lists the writes of a trace to memory that is not local.
func (k *conc) writesOf(t *Trace, local func(*Term) bool) []sharedWrite {
	var out []sharedWrite
	var held []*Term
	add := func(e *Event, x *Term, what string) {
		if x == nil || local(x) {
			return
		}
		out = append(out, sharedWrite{e, x, what, append([]*Term(nil), held...)})
	}
	for _, e := range t.Events {
		switch e.Kind {
		case "store":
			add(e, baseOf(e.Addr), "writes "+short(e.Addr))
		case "mapupdate":
			add(e, e.Addr, "writes a map")
		case "call":
			if strings.HasPrefix(e.Name, "sync.") && len(e.Args) > 0 {
				switch {
				case strings.HasSuffix(e.Name, ".Lock"):
					held = append(held, e.Args[0])
				case strings.HasSuffix(e.Name, ".Unlock"):
					for i, h := range held {
						if h == e.Args[0] {
							held = append(held[:i:i], held[i+1:]...)
							break
						}
					}
				}
				continue
			}
			if e.Idx+1 < len(t.Events) && t.Events[e.Idx+1].Kind == "enter" {
				continue
			}
			if extWrites[e.Name] && len(e.Args) > 0 {
				add(e, e.Args[0], "calls "+e.Name)
				continue
			}
			for _, f := range k.targets(e) {
				ef := k.effectsOf(f)
				for i := range ef.params {
					if i < len(e.Args) {
						add(e, e.Args[i], "calls "+fnName(f)+", which changes its argument "+itoa(i))
					}
				}
			}
		}
	}
	return out
}

// targets: the functions of the library a call may run.
func (k *conc) targets(e *Event) []*ssa.Function {
	w := k.c.W
	if e.Callee != nil {
		if w.InRepo(e.Callee) && e.Callee.Blocks != nil {
			return []*ssa.Function{e.Callee}
		}
		return nil
	}
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() {
		return nil
	}
	m := ci.Common().Method
	if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), repoMod) {
		return nil
	}
	iface, ok := ci.Common().Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range w.Fns {
		if !w.production(f) || f.Name() != m.Name() || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		rt := f.Signature.Recv().Type()
		if types.Implements(rt, iface) {
			out = append(out, f)
		}
	}
	return out
}

// effectsOf: the parameters through which a function changes memory.
func (k *conc) effectsOf(fn *ssa.Function) *effects {
	if ef, ok := k.effs[fn]; ok {
		return ef
	}
	ef := &effects{params: map[int]*Event{}, free: map[int]*Event{}, fresh: true}
	k.effs[fn] = ef
	r := &concRun{k: k, bySp: map[*Event][]*gor{}, chans: map[*Term]*Event{}, root: fn}
	in := NewInterp(k.c.W, Config{Stop: func(f *ssa.Function, d int) bool {
		return f != fn && (k.isrt[f] || exported(f) && f.Parent() == nil || d > 4)
	}, MaxPaths: 20_000, MaxSteps: 3_000_000})
	r.in = in
	start := in.TS.next
	rets := 0
	main := &gor{in: in, fn: fn, name: fnName(fn)}
	in.Run(fn, func(t *Trace) { main.ts = append(main.ts, t) })
	for _, t := range main.ts {
		if len(t.Rets) > 0 && t.Outcome == "return" && !t.Failed() {
			rets++
			if x := t.Rets[0]; !x.isNil() && !r.local(x, start) {
				ef.fresh = false
			}
		}
	}
	r.gors = append(r.gors, main)
	for i := 0; i < len(r.gors); i++ {
		r.expand(r.gors[i])
	}
	if rets == 0 {
		ef.fresh = false
	}
	for _, g := range r.gors {
		for _, t := range g.ts {
			for _, w := range k.writesOf(t, func(x *Term) bool { return r.local(x, start) }) {
				k.blame(ef, fn, w, main)
			}
		}
	}
	k.c.account(in)
	ef.done = true
	return ef
}

// blame finds the parameter the written memory is reachable from.
func (k *conc) blame(ef *effects, fn *ssa.Function, w sharedWrite, main *gor) {
	x := w.base
	for x != nil {
		if x.Op == "param" {
			for i, p := range fn.Params {
				if main.ts[0].Args[i] == x {
					_ = p
					ef.params[i] = w.e
					return
				}
			}
		}
		if x.Op == "free" || x.Op == "global" {
			ef.global = w.e
			return
		}
		if len(x.Args) == 0 {
			return
		}
		x = x.Args[0]
	}
}

// checkShared: memory that a goroutine did not make itself is changed only
// under a lock it shares with the others.
func (r *concRun) checkShared() {
	c, k := r.k.c, r.k
	locks := map[*Term][]*Term{}
	for _, g := range r.gors {
		if g.spawn == nil || g.cb && g.inMain() {
			continue
		}
		bad := 0
		for _, t := range g.ts {
			for _, w := range k.writesOf(t, func(x *Term) bool { return r.local(x, g.start) }) {
				if r.handed(g, w) {
					continue
				}
				var hs []*Term
				for _, h := range w.held {
					if !r.local(h, g.start) {
						hs = append(hs, h)
					}
				}
				if prev, ok := locks[w.base]; ok {
					var both []*Term
					for _, h := range hs {
						for _, p := range prev {
							if p == h {
								both = append(both, h)
							}
						}
					}
					hs = both
				}
				locks[w.base] = hs
				c.Ob("no-shared-write", g.name+" "+w.what, len(hs) > 0, t.pos(w.e), t, "%s %s without a lock, while other goroutines may use it", g.name, w.what)
				if len(hs) == 0 {
					bad++
				}
			}
			// locks are released before waiting or ending
			var held []*Term
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Name, "sync.") && len(e.Args) > 0 {
					if strings.HasSuffix(e.Name, ".Lock") {
						c.Ob("lock-released", g.name, !containsTerm(held, e.Args[0]), t.pos(e), t, "%s takes a lock it already holds", g.name)
						held = append(held, e.Args[0])
					} else if strings.HasSuffix(e.Name, ".Unlock") && len(held) > 0 {
						held = held[:len(held)-1]
					}
				}
				if len(held) > 0 && (e.Kind == "send" || e.Kind == "recv" || e.Kind == "select" && e.Block) {
					c.Ob("lock-released", g.name, false, t.pos(e), t, "%s may block while it holds a lock", g.name)
				}
			}
			if t.Outcome == "return" {
				c.Ob("lock-released", g.name, len(held) == 0, c.W.Pos(g.fn.Pos()), t, "%s ends while it holds a lock", g.name)
			}
		}
		c.Ob("no-shared-write", g.name, bad == 0, c.W.Pos(g.fn.Pos()), nil, "%s changes shared memory", g.name)
	}
	// the spawner leaves what it gave away alone
	for _, g := range r.gors {
		for _, t := range g.ts {
			given := map[*Term]*gor{}
			for _, e := range t.Events {
				if e.Kind == "call" && (e.Name == "errgroup.Group.Wait" || e.Name == "sync.WaitGroup.Wait") {
					given = map[*Term]*gor{}
				}
				for _, n := range r.bySp[e] {
					if n.cb && !n.many {
						continue
					}
					fn, args, _, ok := spawnOf(e)
					if !ok {
						continue
					}
					for _, a := range append(append([]*Term{}, fn.Args...), args...) {
						if a.Op == "alloc" {
							given[a] = n
						}
					}
				}
				if e.Kind == "store" {
					if n := given[baseOf(e.Addr)]; n != nil {
						c.Ob("no-write-after-spawn", g.name, false, t.pos(e), t, "%s changes %s while %s may use it", g.name, short(e.Addr), n.name)
					}
				}
			}
		}
	}
}

func containsTerm(xs []*Term, x *Term) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// inMain: the callback is run by the root itself.
func (g *gor) inMain() bool {
	for g.cb {
		if g.many {
			return false
		}
		g = g.parent
	}
	return g.spawn == nil
}

// handed: a variable of the starting function that one goroutine sets for it.
func (r *concRun) handed(g *gor, w sharedWrite) bool {
	if g.many || g.cb || w.e.Kind != "store" || w.base.Op != "alloc" {
		return false
	}
	for _, o := range r.gors {
		if o == g || o.spawn == nil || o.spawn == g.spawn {
			continue
		}
		f, args, _, ok := spawnOf(o.spawn)
		if !ok {
			continue
		}
		for _, a := range append(append([]*Term{}, f.Args...), args...) {
			if a == w.base {
				return false
			}
		}
	}
	return true
}

// consumers: a function that reads an enumeration of the library does not
// return before the enumeration has ended, since it reads the directory.
func (k *conc) consumers() {
	c := k.c
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Parent() != nil || !k.ops[fn] && !k.receives(fn) {
			continue
		}
		if !k.receives(fn) {
			continue
		}
		in := NewInterp(c.W, k.config(fn))
		in.Run(fn, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			streams := map[*Term]*Event{}
			for _, e := range t.Events {
				if e.Kind == "call" && e.Res != nil && isStream(e.Res.Typ) && k.ours(e) {
					streams[e.Res] = e
				}
			}
			for ch, mk := range streams {
				returned := false
				for _, x := range t.Rets {
					returned = returned || stripConv(x) == ch
				}
				ended := returned
				for _, e := range t.Events[mk.Idx:] {
					if (e.Kind == "recv" || e.Kind == "select" && e.Name == "recv") && e.Addr == ch {
						if !e.Taken {
							ended = true
						} else if e.Res != nil {
							if f := errField(e.Res.Typ); f != "" {
								ended = ended || t.NonNil(in.field(e.Res, f, errType))
							}
						}
					}
					for _, a := range e.Args {
						if e.Kind == "go" || e.Kind == "call" {
							ended = ended || stripConv(a) == ch
						}
					}
				}
				c.Ob("drained", fnName(fn)+" <- "+mk.Name, ended, t.pos(mk), t, "%s may return while the enumeration it started still reads the directory", fnName(fn))
			}
		})
		c.account(in)
	}
}

// readers: a function that reads a channel kept in a field waits for a
// channel that is closed in every case.
func (k *conc) readers() {
	c := k.c
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Parent() != nil || !k.ops[fn] || k.isrt[fn] {
			continue
		}
		r := &concRun{k: k, root: fn, chans: map[*Term]*Event{}}
		g := &gor{fn: fn, name: fnName(fn)}
		in := NewInterp(c.W, k.config(fn))
		in.Run(fn, func(t *Trace) {
			for _, o := range r.blocking(g, t) {
				ch := o.ch
				if o.send || ch.Op != "load" && ch.Op != "field" {
					continue
				}
				ok := false
				for _, q := range o.rel {
					ok = ok || governed(q)
				}
				key := ""
				if ch.Op == "load" && ch.Args[0].Op == "fieldaddr" {
					key = fieldKey(ch.Args[0])
					ok = ok || k.fed[key]
				}
				c.Ob("cancellable", g.name+" receive at field "+key, ok, t.pos(o.e), t, "%s waits for a channel that need not ever be closed", g.name)
			}
		})
		c.account(in)
	}
}

func isStream(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && errField(ch.Elem()) != ""
}

func (k *conc) ours(e *Event) bool {
	if e.Callee != nil {
		return k.c.W.InRepo(e.Callee)
	}
	return len(k.targets(e)) > 0
}

func (k *conc) receives(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if _, ok := i.(ssa.CallInstruction); ok && isStream(v.Type()) {
					return true
				}
			}
		}
	}
	return false
}
