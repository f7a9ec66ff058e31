package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: the goroutines of the library, the channels and the state they share.

func init() {
	rules["C16"] = ruleDef{ruleC16}
}

type conc struct {
	c     *Checker
	ops   map[*ssa.Function]bool // contains channel, lock or spawn operations, itself or through callees
	roots []*ssa.Function
	isrt  map[*ssa.Function]bool
	effs  map[*ssa.Function]*effects
	fed   map[string]bool // fields holding a channel whose closing is checked
}

type effects struct {
	params map[int]*Event // parameters through which memory is written
	free   map[int]*Event
	global *Event
	fresh  bool // the first result is made by the call
	done   bool
}

// gor is one goroutine (or a callback run by one).
type gor struct {
	spawn  *Event
	in     *Interp
	fn     *ssa.Function
	name   string
	ts     []*Trace
	start  int // terms made by the goroutine have larger UIDs
	many   bool
	group  *Term
	parent *gor
	cb     bool
}

func carriesChan(t types.Type, depth int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return u.Dir() != types.RecvOnly
	case *types.Struct:
		s := types.TypeString(t, shortQual)
		if s == "errgroup.Group" || s == "sync.WaitGroup" {
			return true
		}
		if depth == 0 {
			return false
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), repoMod) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if carriesChan(u.Field(i).Type(), depth-1) {
				return true
			}
		}
	}
	return false
}

func staticName(ci ssa.CallInstruction) string {
	if f := ci.Common().StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func newConc(c *Checker) *conc {
	k := &conc{c: c, ops: map[*ssa.Function]bool{}, isrt: map[*ssa.Function]bool{}, effs: map[*ssa.Function]*effects{}, fed: map[string]bool{}}
	w := c.W
	spawns := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	for _, fn := range w.Fns {
		if !w.production(fn) {
			continue
		}
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Send, *ssa.Select, *ssa.MakeChan:
					k.ops[fn] = true
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						k.ops[fn] = true
					}
				case *ssa.Go:
					k.ops[fn], spawns[fn] = true, true
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					n := staticName(ci)
					if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
						k.ops[fn] = true
					}
					if strings.HasPrefix(n, "errgroup.") || strings.HasPrefix(n, "sync.") {
						k.ops[fn] = true
						if n == "errgroup.Group.Go" || n == "errgroup.Group.TryGo" {
							spawns[fn] = true
						}
					}
					if f := ci.Common().StaticCallee(); f != nil && w.InRepo(f) {
						calls[fn] = append(calls[fn], f)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			if k.ops[fn] {
				continue
			}
			for _, g := range calls[fn] {
				if k.ops[g] && !exported(g) {
					k.ops[fn], changed = true, true
				}
			}
		}
	}
	// the function whose body makes the channels and groups is the root
	seen := map[*ssa.Function]bool{}
	var up func(fn *ssa.Function)
	up = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if p := fn.Parent(); p != nil {
			up(p)
			return
		}
		takes := false
		for _, p := range fn.Params {
			takes = takes || carriesChan(p.Type(), 1)
		}
		if takes {
			n := 0
			for _, g := range fns {
				for _, h := range calls[g] {
					if h == fn {
						n++
						up(g)
						break
					}
				}
			}
			if n > 0 {
				return
			}
		}
		k.isrt[fn] = true
	}
	for _, fn := range fns {
		if spawns[fn] {
			up(fn)
		}
	}
	for _, fn := range fns {
		if k.isrt[fn] {
			k.roots = append(k.roots, fn)
		}
	}
	return k
}

func (k *conc) config(root *ssa.Function) Config {
	return Config{
		Stop: func(f *ssa.Function, d int) bool {
			return f != root && k.isrt[f] || !k.ops[f] && !(f.Parent() != nil && k.ops[f.Parent()])
		},
		MaxPaths: 200_000,
	}
}

func ruleC16(c *Checker) {
	k := newConc(c)
	c.explain = ("goroutine bodies and the callbacks they pass on are explored from the state at the point where they are started")
	c.Assume("services passed in (DAG service, node getter) are safe for concurrent use and end a stream when its context ends")
	for _, r := range k.roots {
		k.root(r)
	}
	k.consumers()
	k.readers()
	c.Min("cancellable", 4)
	c.Min("closed-once", 2)
	c.Min("worker-ends", 1)
	c.Min("group-waited", 1)
	c.Min("no-shared-write", 2)
	c.Min("drained", 1)
}

// fieldKey names the field an address is of.
func fieldKey(a *Term) string {
	t := a.Args[0].Typ
	if t == nil {
		return a.Sym
	}
	return types.TypeString(deref(t), shortQual) + "." + a.Sym
}

func spawnOf(e *Event) (fn *Term, args []*Term, group *Term, ok bool) {
	switch {
	case e.Kind == "go":
		return e.Val, e.Args, nil, true
	case e.Kind == "call" && (e.Name == "errgroup.Group.Go" || e.Name == "errgroup.Group.TryGo") && len(e.Args) > 1:
		return e.Args[1], nil, e.Args[0], true
	}
	return nil, nil, nil, false
}

// inLoop: the instruction may be executed more than once per call.
func inLoop(i ssa.Instruction) bool {
	b := i.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

type concRun struct {
	k     *conc
	root  *ssa.Function
	in    *Interp
	ts    []*Trace
	gors  []*gor
	bySp  map[*Event][]*gor
	chans map[*Term]*Event // channels made by the root
}

// explore runs a root, its goroutines and their callbacks.
func (k *conc) explore(fn *ssa.Function, cfg Config) *concRun {
	in := NewInterp(k.c.W, cfg)
	r := &concRun{k: k, root: fn, in: in, bySp: map[*Event][]*gor{}, chans: map[*Term]*Event{}}
	in.Run(fn, func(t *Trace) { r.ts = append(r.ts, t) })
	main := &gor{in: in, fn: fn, name: fnName(fn), ts: r.ts}
	r.gors = append(r.gors, main)
	for i := 0; i < len(r.gors); i++ {
		r.expand(r.gors[i])
	}
	k.c.account(in)
	k.c.entries[fnName(fn)] = true
	if in.Stats.Truncated {
		k.c.Fail("undecided", fnName(fn), k.c.W.Pos(fn.Pos()), nil, "the abstract paths of %s exceed the analysis budget", fnName(fn))
	}
	for _, g := range r.gors {
		for _, t := range g.ts {
			for _, e := range t.Events {
				if e.Kind == "makechan" {
					r.chans[e.Res] = e
				}
			}
		}
	}
	return r
}

func (k *conc) root(fn *ssa.Function) {
	r := k.explore(fn, k.config(fn))
	for _, t := range r.ts {
		for _, e := range t.Events {
			if e.Kind == "store" && e.Addr.Op == "fieldaddr" && r.chans[stripConv(e.Val)] != nil {
				k.fed[fieldKey(e.Addr)] = r.handedOut(stripConv(e.Val)) && r.closedAlways(stripConv(e.Val))
			}
		}
	}
	r.checkClosing()
	r.checkBlocking()
	r.checkWait()
	r.checkWorkers()
	r.checkShared()
}

// expand runs what a goroutine starts: goroutines and callbacks.
func (r *concRun) expand(g *gor) {
	in, k := r.in, r.k
	for _, t := range g.ts {
		for _, e := range t.Events {
			if _, done := r.bySp[e]; done {
				continue
			}
			fn, args, group, ok := spawnOf(e)
			if ok {
				if group == nil && e.Kind == "go" && fn == nil {
					continue
				}
				if fn == nil || fn.Fn == nil || fn.Fn.Blocks == nil {
					k.c.Ob("goroutine-known", g.name, false, t.pos(e), t, "the function run by a goroutine of %s is not known", g.name)
					continue
				}
				n := &gor{spawn: e, in: in, fn: fn.Fn, name: fnName(fn.Fn), start: in.TS.next, group: group, parent: g,
					many: g.many || inLoop(e.Instr) || callerInLoop(t, e)}
				in.RunFrom(e.S, fn.Fn, args, fn.Args, func(t *Trace) { n.ts = append(n.ts, t) })
				r.gors = append(r.gors, n)
				r.bySp[e] = append(r.bySp[e], n)
				continue
			}
			if e.Kind != "call" || r.followed(t, e) {
				continue
			}
			for _, a := range e.Args {
				if a.Op != "closure" || a.Fn == nil || a.Fn.Blocks == nil || !k.c.W.InRepo(a.Fn) {
					continue
				}
				par := e.Callee != nil && k.isrt[e.Callee]
				n := &gor{spawn: e, in: in, fn: a.Fn, name: fnName(a.Fn), start: g.start, parent: g, many: g.many || par, cb: true}
				if par {
					n.start = in.TS.next
				}
				var ps []*Term
				for i, p := range a.Fn.Params {
					ps = append(ps, in.TS.mk("param", fnName(a.Fn)+":"+itoa(i), p.Type()))
				}
				in.RunFrom(e.S, a.Fn, ps, a.Args, func(t *Trace) { n.ts = append(n.ts, t) })
				r.gors = append(r.gors, n)
				r.bySp[e] = append(r.bySp[e], n)
			}
		}
	}
}

// followed: the call was inlined.
func (r *concRun) followed(t *Trace, e *Event) bool {
	return e.Idx+1 < len(t.Events) && t.Events[e.Idx+1].Kind == "enter" && t.Events[e.Idx+1].Instr == e.Instr
}

// callerInLoop: a call on the way to the spawn is in a loop.
func callerInLoop(t *Trace, e *Event) bool {
	var stack []*Event
	for _, x := range t.Events[:e.Idx] {
		switch x.Kind {
		case "enter":
			stack = append(stack, x)
		case "leave":
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		}
	}
	for _, x := range stack {
		if x.Instr != nil && inLoop(x.Instr) {
			return true
		}
	}
	return false
}

// governed: the context ends when a context of the caller does.
func governed(x *Term) bool {
	for i := 0; x != nil && i < 20; i++ {
		switch x.Op {
		case "param", "free":
			return true
		case "load", "field":
			return true // a context kept by the receiver
		case "convert", "makeinterface", "assert":
			x = x.Args[0]
			continue
		case "extract":
			x = x.Args[0]
			continue
		case "call":
			if (strings.HasPrefix(x.Sym, "context.With") || x.Sym == "errgroup.WithContext") && len(x.Args) > 0 {
				x = x.Args[0]
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// derives: r ends when q does.
func derives(r, q *Term) bool {
	for i := 0; r != nil && i < 20; i++ {
		if r == q {
			return true
		}
		switch {
		case r.Op == "extract" || r.Op == "convert" || r.Op == "makeinterface":
			r = r.Args[0]
		case r.Op == "call" && (strings.HasPrefix(r.Sym, "context.With") || r.Sym == "errgroup.WithContext") && len(r.Args) > 0:
			r = r.Args[0]
		default:
			return false
		}
	}
	return false
}

// doneOf: the context whose Done channel this is.
func doneOf(ch *Term) *Term {
	if ch != nil && (ch.Op == "call" || ch.Op == "pure") && strings.HasSuffix(ch.Sym, "context.Context.Done") && len(ch.Args) > 0 {
		return ch.Args[0]
	}
	return nil
}

func ctxArg(e *Term) *Term {
	for _, a := range e.Args {
		if a.Typ != nil && types.TypeString(a.Typ, shortQual) == "context.Context" {
			return a
		}
	}
	return nil
}

type chanOp struct {
	g    *gor
	t    *Trace
	e    *Event
	send bool
	ch   *Term
	rel  []*Term // contexts that end it
}

// blocking lists the operations of a trace that may block on a channel.
func (r *concRun) blocking(g *gor, t *Trace) []chanOp {
	var out []chanOp
	for _, e := range t.Events {
		switch e.Kind {
		case "send":
			out = append(out, chanOp{g: g, t: t, e: e, send: true, ch: e.Addr})
		case "recv":
			if doneOf(e.Addr) == nil {
				out = append(out, chanOp{g: g, t: t, e: e, ch: e.Addr})
			}
		case "select":
			var rel []*Term
			for _, ch := range e.Args {
				if q := doneOf(ch); q != nil {
					rel = append(rel, q)
				}
			}
			if !e.Block {
				continue
			}
			sel := e.Instr.(*ssa.Select)
			for i, ch := range e.Args {
				if doneOf(ch) != nil || ch.isNil() {
					continue
				}
				out = append(out, chanOp{g: g, t: t, e: e, send: sel.States[i].Dir == types.SendOnly, ch: ch, rel: rel})
			}
		}
	}
	return out
}

// ended: the trace leaves its last wait because of this context, or fails.
func (r *concRun) quits(g *gor) []*Term {
	var out []*Term
	for _, t := range g.ts {
		if t.Outcome != "return" {
			continue
		}
		for _, e := range t.Events {
			if e.Kind == "select" && e.Name == "recv" {
				if q := doneOf(e.Addr); q != nil {
					out = append(out, q)
				}
			}
		}
		if g.group != nil && !t.Ok() {
			out = append(out, r.groupCtx(g.group))
		}
	}
	return out
}

// groupCtx is the call that made the group and its context, nil for a plain group.
func (r *concRun) groupCtx(grp *Term) *Term {
	if grp.Op != "extract" || grp.Args[0].Op != "call" || grp.Args[0].Sym != "errgroup.WithContext" {
		return nil
	}
	return grp.Args[0]
}

func (r *concRun) checkBlocking() {
	c := r.k.c
	var ops []chanOp
	for _, g := range r.gors {
		for _, t := range g.ts {
			ops = append(ops, r.blocking(g, t)...)
		}
	}
	uses := map[*Term]map[*gor][2]bool{} // channel -> goroutine -> {receives, sends}
	for _, o := range ops {
		if uses[o.ch] == nil {
			uses[o.ch] = map[*gor][2]bool{}
		}
		u := uses[o.ch][o.g]
		if o.send {
			u[1] = true
		} else {
			u[0] = true
		}
		uses[o.ch][o.g] = u
	}
	quits := map[*gor][]*Term{}
	for _, g := range r.gors {
		quits[g] = r.quits(g)
	}
	for _, o := range ops {
		t, e := o.t, o.e
		what := "receive"
		if o.send {
			what = "send"
		}
		site := o.g.name + " " + what + " " + o.e.Kind + " at " + c.chanName(o.ch, r)
		mk := r.chans[o.ch]
		if len(o.rel) == 0 {
			switch {
			case !o.send && mk == nil && o.ch.Op != "load" && o.ch.Op != "field":
				// the stream of a call that was given a context
				src := o.ch
				for src.Op == "extract" || src.Op == "convert" {
					src = src.Args[0]
				}
				ok := src.Op == "call" && ctxArg(src) != nil && governed(ctxArg(src))
				c.Ob("cancellable", site, ok, t.pos(e), t, "%s receives from a stream that no context of the caller ends", o.g.name)
			case !o.send && mk != nil:
				c.Ob("cancellable", site, r.closedAlways(o.ch), t.pos(e), t, "%s waits on a channel that is not closed on every path", o.g.name)
			case o.send && mk != nil:
				n := 0
				for _, s := range t.Events {
					if s.Kind == "send" && s.Addr == o.ch {
						n++
					}
				}
				cp, isC := intOf(mk.Args[0])
				only := !o.g.cb && !inLoop(e.Instr) && !callerInLoop(t, e)
				for g, u := range uses[o.ch] {
					if u[1] && (g != o.g || g.many) {
						only = false
					}
				}
				c.Ob("cancellable", site, isC && int64(n) <= cp && only, t.pos(e), t, "%s blocks on a send that no context ends", o.g.name)
			default:
				c.Ob("cancellable", site, false, t.pos(e), t, "%s blocks on a %s that no context ends", o.g.name, what)
			}
			continue
		}
		ok := false
		for _, q := range o.rel {
			ok = ok || governed(q)
		}
		c.Ob("cancellable", site, ok, t.pos(e), t, "%s blocks on a %s that no context of the caller ends", o.g.name, what)
		// the other side may leave: what makes it leave must end this too
		for g, u := range uses[o.ch] {
			if o.send && !u[0] || !o.send && !u[1] {
				continue
			}
			for _, q := range quits[g] {
				rel := false
				for _, x := range o.rel {
					rel = rel || q != nil && derives(x, q)
				}
				c.Ob("released-with-peer", site+" / "+g.name, rel, t.pos(e), t, "%s may wait for %s after that has ended: their contexts differ", o.g.name, g.name)
			}
		}
	}
	// contexts given to calls made by the goroutines
	for _, g := range r.gors {
		if g.spawn == nil {
			continue
		}
		for _, t := range g.ts {
			for _, e := range t.Events {
				if e.Kind != "call" || r.followed(t, e) {
					continue
				}
				for _, a := range e.Args {
					if a.Typ != nil && types.TypeString(a.Typ, shortQual) == "context.Context" && !strings.HasPrefix(e.Name, "context.") {
						c.Ob("cancellable", g.name+" call "+e.Name, governed(a), t.pos(e), t, "%s calls %s with a context its consumer cannot cancel", g.name, e.Name)
					}
				}
			}
		}
	}
}

func intOf(x *Term) (int64, bool) {
	if x == nil || x.CV == nil {
		if x != nil {
			if v, ok := x.Int(); ok {
				return v, true
			}
		}
		return 0, false
	}
	v, ok := constant.Int64Val(x.CV)
	return v, ok
}

func (c *Checker) chanName(ch *Term, r *concRun) string {
	if mk := r.chans[ch]; mk != nil {
		return "channel of " + types.TypeString(ch.Typ.Underlying().(*types.Chan).Elem(), shortQual)
	}
	src := ch
	for src.Op == "extract" || src.Op == "convert" {
		src = src.Args[0]
	}
	if src.Op == "call" {
		return "stream of " + src.Sym
	}
	return short(ch)
}

// closers lists the goroutines that close the channel.
func (r *concRun) closers(ch *Term) []*gor {
	var out []*gor
	for _, g := range r.gors {
		has := false
		for _, t := range g.ts {
			for _, e := range t.Events {
				has = has || e.Kind == "close" && e.Addr == ch
			}
		}
		if has {
			out = append(out, g)
		}
	}
	return out
}

func (r *concRun) closedAlways(ch *Term) bool {
	for _, g := range r.closers(ch) {
		all := true
		for _, t := range g.ts {
			if t.Outcome == "return" && r.made(t, g, ch) && closes(t, ch) == 0 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// made: the channel exists on this trace.
func (r *concRun) made(t *Trace, g *gor, ch *Term) bool {
	if g.spawn != nil {
		return true
	}
	for _, e := range t.Events {
		if e.Kind == "makechan" && e.Res == ch {
			return true
		}
	}
	return false
}

func closes(t *Trace, ch *Term) int {
	n := 0
	for _, e := range t.Events {
		if e.Kind == "close" && e.Addr == ch {
			n++
		}
	}
	return n
}

// handedOut: the channel leaves the function that made it.
func (r *concRun) handedOut(ch *Term) bool {
	for _, t := range r.ts {
		for _, x := range t.Rets {
			if x == ch || stripConv(x) == ch {
				return true
			}
		}
		for _, e := range t.Events {
			if e.Kind == "store" && stripConv(e.Val) == ch {
				if b := baseOf(e.Addr); e.Addr.Op == "fieldaddr" && b.Op == "alloc" {
					for _, x := range t.Rets {
						if x.contains(b) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func stripConv(x *Term) *Term {
	for x != nil && (x.Op == "convert" || x.Op == "makeinterface" || x.Op == "changetype") {
		x = x.Args[0]
	}
	return x
}

func (r *concRun) sends(t *Trace, from int, ch *Term) *Event {
	for _, e := range t.Events[from:] {
		if (e.Kind == "send" || e.Kind == "select" && e.Name == "send") && e.Addr == ch {
			return e
		}
		for _, g := range r.bySp[e] {
			if !g.cb {
				continue
			}
			for _, t2 := range g.ts {
				if s := r.sends(t2, 0, ch); s != nil {
					return e
				}
			}
		}
	}
	return nil
}

func (r *concRun) checkClosing() {
	c := r.k.c
	for ch, mk := range r.chans {
		name := fnName(mk.In) + " " + c.chanName(ch, r)
		cl := r.closers(ch)
		if r.handedOut(ch) {
			ok := len(cl) == 1 && !cl[0].many && !cl[0].cb && r.closedAlways(ch)
			msg := "a path of " + fnName(mk.In) + " never closes it"
			if len(cl) > 1 {
				msg = "several goroutines close it"
			} else if len(cl) == 1 && cl[0].many {
				msg = "a goroutine started several times closes it"
			}
			c.Ob("closed-once", name, ok, c.W.Pos(mk.Instr.Pos()), nil, "the channel made in %s is not closed exactly once: %s", fnName(mk.In), msg)
		} else if len(cl) > 0 {
			c.Ob("closed-once", name, len(cl) == 1 && !cl[0].many && !cl[0].cb, c.W.Pos(mk.Instr.Pos()), nil, "the channel made in %s may be closed more than once", fnName(mk.In))
		}
		for _, g := range cl {
			for _, t := range g.ts {
				for _, e := range t.Events {
					if e.Kind != "close" || e.Addr != ch {
						continue
					}
					c.Ob("closed-once", name, closes(t, ch) == 1, t.pos(e), t, "%s closes a channel twice", g.name)
					s := r.sends(t, e.Idx+1, ch)
					c.Ob("no-send-after-close", name, s == nil, t.pos(e), t, "%s closes a channel it sends on later", g.name)
					// other senders must have been waited for
					for _, o := range r.gors {
						if o == g || o.cb && r.partOf(o, g) || !r.sendsOn(o, ch) {
							continue
						}
						w := false
						for _, x := range t.Events[:e.Idx] {
							w = w || x.Kind == "call" && x.Name == "errgroup.Group.Wait" && o.group != nil && x.Args[0] == o.group ||
								x.Kind == "call" && x.Name == "sync.WaitGroup.Wait"
						}
						c.Ob("no-send-after-close", name+" / "+o.name, w, t.pos(e), t, "%s closes a channel that %s may still send on", g.name, o.name)
					}
				}
			}
		}
	}
}

// partOf: the callback o is run by g (not by goroutines that g's callee starts and leaves).
func (r *concRun) partOf(o, g *gor) bool {
	for o.cb {
		o = o.parent
		if o == g {
			return true
		}
	}
	return o == g
}

func (r *concRun) sendsOn(g *gor, ch *Term) bool {
	for _, t := range g.ts {
		for _, e := range t.Events {
			if e.Addr == ch && (e.Kind == "send" || e.Kind == "select" && e.Name == "send") {
				return true
			}
		}
	}
	return false
}

func (r *concRun) checkWait() {
	c := r.k.c
	for _, g := range r.gors {
		for _, t := range g.ts {
			if t.Outcome != "return" {
				continue
			}
			last := map[*Term]*Event{}
			for _, e := range t.Events {
				if _, _, grp, ok := spawnOf(e); ok && grp != nil {
					last[grp] = e
				}
			}
			for grp, e := range last {
				ok := false
				for _, x := range t.Events[e.Idx:] {
					ok = ok || x.Kind == "call" && x.Name == "errgroup.Group.Wait" && x.Args[0] == grp
				}
				for _, o := range r.gors { // waited for by a goroutine
					if o == g || ok {
						continue
					}
					all := len(o.ts) > 0
					for _, t2 := range o.ts {
						w := false
						for _, x := range t2.Events {
							w = w || x.Kind == "call" && x.Name == "errgroup.Group.Wait" && x.Args[0] == grp
						}
						all = all && w
					}
					ok = all && o.spawn != nil
				}
				c.Ob("group-waited", g.name, ok, t.pos(e), t, "%s returns while the goroutines of its group may be running", g.name)
			}
			// before waiting, the channels the group reads to the end are closed
			for _, x := range t.Events {
				if x.Kind != "call" || x.Name != "errgroup.Group.Wait" {
					continue
				}
				for _, o := range r.gors {
					if o.group != x.Args[0] {
						continue
					}
					for _, ch := range r.exhausts(o) {
						cl := false
						for _, y := range t.Events[:x.Idx] {
							cl = cl || y.Kind == "close" && y.Addr == ch
						}
						c.Ob("group-waited", g.name+" closes", cl, t.pos(x), t, "%s waits for %s, which waits for a channel not yet closed", g.name, o.name)
					}
				}
			}
		}
	}
}

// exhausts: channels that a goroutine reads with nothing but closing to end it.
func (r *concRun) exhausts(g *gor) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range g.ts {
		for _, o := range r.blocking(g, t) {
			if !o.send && len(o.rel) == 0 && r.chans[o.ch] != nil && !seen[o.ch] {
				seen[o.ch] = true
				out = append(out, o.ch)
			}
		}
	}
	return out
}

// checkWorkers: a worker ends without error only when its feed is closed or its
// context has ended, and reports a batch only after its results.
func (r *concRun) checkWorkers() {
	c := r.k.c
	for _, g := range r.gors {
		if g.group == nil || !g.many {
			continue
		}
		feeds := map[*Term]bool{}
		for _, t := range g.ts {
			for _, e := range t.Events {
				if (e.Kind == "recv" || e.Kind == "select" && e.Name == "recv") && r.chans[e.Addr] != nil {
					feeds[e.Addr] = true
				}
			}
		}
		for _, t := range g.ts {
			if t.Outcome == "return" && !t.Failed() {
				ok := false
				for _, e := range t.Events {
					if e.Kind == "recv" && feeds[e.Addr] && !e.Taken || e.Kind == "select" && e.Name == "recv" && (doneOf(e.Addr) != nil || feeds[e.Addr] && !e.Taken) {
						ok = true
					}
					if e.Kind == "call" && e.Name == "context.Context.Err" && e.Res != nil && t.NonNil(e.Res) {
						ok = true
					}
				}
				c.Ob("worker-ends", g.name, ok, c.W.Pos(g.fn.Pos()), t, "%s ends without an error although its work is not exhausted and no context has ended", g.name)
			}
			r.batches(g, t, feeds)
		}
	}
}

func isSignal(ch *Term) bool {
	c, ok := ch.Typ.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	switch u := c.Elem().Underlying().(type) {
	case *types.Struct:
		return u.NumFields() == 0
	case *types.Basic:
		return true
	}
	return false
}

func (r *concRun) batches(g *gor, t *Trace, feeds map[*Term]bool) {
	c := r.k.c
	var batch, signal *Event
	quit := false
	for _, e := range t.Events {
		ch := e.Addr
		switch {
		case (e.Kind == "recv" || e.Kind == "select" && e.Name == "recv") && feeds[ch]:
			if batch != nil && !quit {
				c.Ob("batch-reported", g.name, signal != nil, t.pos(batch), t, "%s takes more work without having reported a batch as finished", g.name)
			}
			batch, signal = nil, nil
			if e.Taken {
				batch = e
			}
		case e.Kind == "select" && e.Name == "recv" && doneOf(ch) != nil:
			quit = true
		case (e.Kind == "send" || e.Kind == "select" && e.Name == "send") && r.chans[ch] != nil && batch != nil:
			if isSignal(ch) {
				c.Ob("batch-reported", g.name, signal == nil, t.pos(e), t, "%s reports a batch as finished twice", g.name)
				signal = e
			} else {
				c.Ob("batch-done-last", g.name, signal == nil, t.pos(e), t, "%s sends a result of a batch after reporting the batch as finished", g.name)
			}
		}
	}
	if t.Outcome == "return" && batch != nil && !quit && !t.Failed() {
		c.Ob("batch-reported", g.name, signal != nil, t.pos(batch), t, "%s ends without having reported a batch as finished", g.name)
	}
}
