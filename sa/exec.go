package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step executes one instruction of the path. It returns the successor states,
// or a finished trace; neither means the path was cut or is infeasible.
func (in *Interp) step(st *State) ([]*State, *Trace) {
	fr := st.top()
	if fr.pc >= len(fr.block.Instrs) {
		panic("fell off block in " + fr.fn.String())
	}
	instr := fr.block.Instrs[fr.pc]
	ts := in.TS
	one := func() ([]*State, *Trace) { fr.pc++; return []*State{st}, nil }
	v := func(x ssa.Value) *Term { return in.val(st, fr, x) }

	switch i := instr.(type) {
	case *ssa.DebugRef:
		return one()
	case *ssa.Phi:
		// handled at block entry
		return one()
	case *ssa.Alloc:
		t := ts.fresh("alloc", i.Comment, i.Type())
		in.bind(fr, i, t)
		return one()
	case *ssa.UnOp:
		x := v(i.X)
		switch i.Op {
		case token.MUL:
			in.boundEv(st, "deref", i, x)
			in.bind(fr, i, in.load(&st.snap, x, i.Type()))
		case token.NOT:
			in.bind(fr, i, in.not(x))
		case token.SUB:
			in.bind(fr, i, in.bin(token.SUB, ts.integer(0), x, i.Type()))
		case token.XOR:
			if x.CV != nil && x.CV.Kind() == constant.Int && isInteger(i.Type()) {
				in.bind(fr, i, ts.constant(wrapConst(constant.UnaryOp(token.XOR, x.CV, 0), i.Type()), i.Type()))
				return one()
			}
			in.bind(fr, i, ts.mk("un", "^", i.Type(), x))
		case token.ARROW:
			return in.recv(st, fr, i, x)
		default:
			in.bind(fr, i, ts.mk("un", i.Op.String(), i.Type(), x))
		}
		return one()
	case *ssa.BinOp:
		x, y := v(i.X), v(i.Y)
		if in.Cfg.Bounds && (i.Op == token.QUO || i.Op == token.REM) && isInteger(i.Type()) {
			in.emit(st, &Event{Kind: "div", Instr: i, Args: []*Term{x, y}})
		}
		if in.Cfg.Bounds && (i.Op == token.SHL || i.Op == token.SHR) {
			in.emit(st, &Event{Kind: "shift", Instr: i, Args: []*Term{x, y}})
		}
		in.bind(fr, i, in.bin(i.Op, x, y, i.Type()))
		return one()
	case *ssa.ChangeType:
		in.bind(fr, i, v(i.X))
		return one()
	case *ssa.ChangeInterface:
		in.bind(fr, i, v(i.X))
		return one()
	case *ssa.MakeInterface:
		x := v(i.X)
		in.bind(fr, i, x)
		return one()
	case *ssa.Convert:
		in.bind(fr, i, in.convert(v(i.X), i.Type()))
		return one()
	case *ssa.MultiConvert:
		in.bind(fr, i, v(i.X))
		return one()
	case *ssa.SliceToArrayPointer:
		in.bind(fr, i, v(i.X))
		return one()
	case *ssa.FieldAddr:
		x := v(i.X)
		in.boundEv(st, "deref", i, x)
		s := deref(i.X.Type()).Underlying().(*types.Struct)
		in.bind(fr, i, in.fieldAddr(x, s.Field(i.Field).Name(), i.Type()))
		return one()
	case *ssa.Field:
		s := i.X.Type().Underlying().(*types.Struct)
		in.bind(fr, i, in.field(v(i.X), s.Field(i.Field).Name(), i.Type()))
		return one()
	case *ssa.IndexAddr:
		x, idx := v(i.X), v(i.Index)
		if in.Cfg.Bounds {
			in.emit(st, &Event{Kind: "index", Instr: i, Args: []*Term{x, idx, in.lenOf(x)}})
			in.assume(&st.snap, in.lt(idx, in.lenOf(x)), true)
		}
		in.bind(fr, i, in.indexAddr(x, idx, i.Type()))
		return one()
	case *ssa.Index:
		x, idx := v(i.X), v(i.Index)
		if in.Cfg.Bounds {
			in.emit(st, &Event{Kind: "index", Instr: i, Args: []*Term{x, idx, in.lenOf(x)}})
		}
		in.bind(fr, i, ts.mk("index", "", i.Type(), x, idx))
		return one()
	case *ssa.Lookup:
		x, k := v(i.X), v(i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			if in.Cfg.Bounds {
				in.emit(st, &Event{Kind: "index", Instr: i, Args: []*Term{x, k, in.lenOf(x)}})
			}
			in.bind(fr, i, ts.mk("index", "", i.Type(), x, k))
			return one()
		}
		ep, _ := st.eps.get(x.UID)
		r := ts.mk("lookup", fmt.Sprint("@", ep), i.Type(), x, k)
		if i.CommaOk {
			in.bind(fr, i, ts.mk("tuple", "", i.Type(), r, ts.mk("haskey", fmt.Sprint("@", ep), types.Typ[types.Bool], x, k)))
		} else {
			in.bind(fr, i, r)
		}
		return one()
	case *ssa.MapUpdate:
		x := v(i.Map)
		in.emit(st, &Event{Kind: "mapupdate", Instr: i, Args: []*Term{x, v(i.Key), v(i.Value)}})
		e, _ := st.eps.get(x.UID)
		st.eps = st.eps.set(x.UID, e+1)
		return one()
	case *ssa.Slice:
		x := v(i.X)
		var lo, hi *Term
		if i.Low != nil {
			lo = v(i.Low)
		}
		if i.High != nil {
			hi = v(i.High)
		}
		return in.doSlice(st, fr, i, x, lo, hi)
	case *ssa.MakeSlice:
		in.bind(fr, i, ts.fresh("make", "slice", i.Type(), v(i.Len)))
		if in.Cfg.Bounds {
			in.emit(st, &Event{Kind: "makeslice", Instr: i, Args: []*Term{v(i.Len)}})
		}
		return one()
	case *ssa.MakeChan:
		t := ts.fresh("make", "chan", i.Type(), v(i.Size))
		in.bind(fr, i, t)
		in.emit(st, &Event{Kind: "makechan", Instr: i, Res: t, Args: []*Term{v(i.Size)}})
		return one()
	case *ssa.MakeMap:
		in.bind(fr, i, ts.fresh("make", "map", i.Type()))
		return one()
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, v(b))
		}
		fn := i.Fn.(*ssa.Function)
		t := ts.fresh("closure", fnName(fn), i.Type(), bs...)
		t.Fn = fn
		in.bind(fr, i, t)
		return one()
	case *ssa.Extract:
		t := v(i.Tuple)
		if t.Op == "tuple" {
			in.bind(fr, i, t.Args[i.Index])
		} else {
			in.bind(fr, i, ts.mk("extract", fmt.Sprint(i.Index), i.Type(), t))
		}
		return one()
	case *ssa.TypeAssert:
		return in.typeAssert(st, fr, i, v(i.X))
	case *ssa.Range:
		in.bind(fr, i, ts.fresh("range", "", i.Type(), v(i.X)))
		return one()
	case *ssa.Next:
		t := ts.fresh("next", "", i.Type(), v(i.Iter))
		in.bind(fr, i, t)
		return one()
	case *ssa.Store:
		a, x := v(i.Addr), v(i.Val)
		in.boundEv(st, "deref", i, a)
		in.emit(st, &Event{Kind: "store", Instr: i, Addr: a, Val: x})
		in.store(st, a, x, i.Val.Type())
		return one()
	case *ssa.Send:
		in.emit(st, &Event{Kind: "send", Instr: i, Addr: v(i.Chan), Val: v(i.X), Block: true})
		return one()
	case *ssa.Select:
		return in.selectInstr(st, fr, i)
	case *ssa.Go:
		fn, args := in.callTarget(st, fr, &i.Call)
		in.emit(st, &Event{Kind: "go", Instr: i, Val: fn, Args: args})
		in.escape(st, fn, args)
		return one()
	case *ssa.Defer:
		fn, args := in.callTarget(st, fr, &i.Call)
		fr.defers = append(fr.defers, deferRec{call: &i.Call, fn: fn, args: args, instr: i})
		in.emit(st, &Event{Kind: "defer", Instr: i, Val: fn, Args: args, Name: in.targetName(&i.Call, fn)})
		return one()
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			return one()
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return in.doCall(st, fr, i, d.call, d.fn, d.args, nil, false)
	case *ssa.Call:
		fn, args := in.callTarget(st, fr, &i.Call)
		return in.doCall(st, fr, i, &i.Call, fn, args, i, true)
	case *ssa.Panic:
		e := in.emit(st, &Event{Kind: "panic", Instr: i, Val: v(i.X)})
		_ = e
		return nil, in.trace(st, "panic", nil)
	case *ssa.Return:
		var rets []*Term
		for _, r := range i.Results {
			rets = append(rets, v(r))
		}
		return in.doReturn(st, fr, i, rets)
	case *ssa.Jump:
		return in.jump(st, fr, fr.block.Succs[0])
	case *ssa.If:
		c := v(i.Cond)
		if b, ok := in.decide(&st.snap, c); ok {
			in.emit(st, &Event{Kind: "branch", Instr: i, Cond: c, Taken: b})
			s := 1
			if b {
				s = 0
			}
			return in.jump(st, fr, fr.block.Succs[s])
		}
		var out []*State
		s1 := st.clone()
		for k, s := range []*State{st, s1} {
			if in.assume(&s.snap, c, k == 0) {
				in.emit(s, &Event{Kind: "branch", Instr: i, Cond: c, Taken: k == 0})
				n, _ := in.jump(s, s.top(), s.top().block.Succs[k])
				out = append(out, n...)
			} else {
				in.Stats.Infeasible++
			}
		}
		return out, nil
	}
	panic(fmt.Sprintf("unhandled instruction %T in %s", instr, fr.fn))
}

func (in *Interp) indexAddr(x, idx *Term, typ types.Type) *Term {
	if x.Op == "slice" {
		return in.TS.mk("indexaddr", "", typ, x.Args[0], in.bin(token.ADD, x.Args[1], idx, types.Typ[types.Int]))
	}
	return in.TS.mk("indexaddr", "", typ, x, idx)
}

func (in *Interp) boundEv(st *State, kind string, instr ssa.Instruction, x *Term) {
	if !in.Cfg.Bounds || in.nonNil(x) {
		return
	}
	in.emit(st, &Event{Kind: kind, Instr: instr, Args: []*Term{x}})
}

func (in *Interp) jump(st *State, fr *frame, to *ssa.BasicBlock) ([]*State, *Trace) {
	from := fr.block
	fr.prev = from
	back := to.Dominates(from)
	if back {
		n, _ := fr.visits.get(to.Index)
		n++
		if n >= in.Cfg.MaxVisits {
			in.Stats.Cut++
			return nil, nil
		}
		fr.visits = fr.visits.set(to.Index, n)
	} else {
		// fresh entry into a loop: forget visit counts of this header and
		// nested ones
		fr.visits = fr.visits.set(to.Index, 0)
	}
	// phis
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	type upd struct {
		p *ssa.Phi
		t *Term
	}
	var us []upd
	for _, x := range to.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		t := in.val(st, fr, p.Edges[pi])
		us = append(us, upd{p, t})
	}
	for _, u := range us {
		id := in.W.id(u.p)
		t := u.t
		isHeader := false
		for _, p := range to.Preds {
			if to.Dominates(p) {
				isHeader = true
			}
		}
		if isHeader && isInteger(u.p.Type()) && !in.Cfg.ExactLoop {
			if !back {
				fr.pinit = fr.pinit.set(id, t)
			} else {
				old, _ := fr.env.get(id)
				if t != old { // loop-carried
					lv := in.TS.fresh("loopvar", u.p.Comment, u.p.Type())
					lv.Elem = t
					if init, ok := fr.pinit.get(id); ok {
						if d, ok := in.stepOf(u.p); ok {
							if d > 0 {
								in.assume(&st.snap, in.lt(lv, init), false)
							} else if d < 0 {
								in.assume(&st.snap, in.lt(init, lv), false)
							}
						}
					}
					t = lv
				}
			}
		}
		in.bind(fr, u.p, t)
	}
	fr.block = to
	fr.pc = len(us)
	return []*State{st}, nil
}

// stepOf returns the constant step of an induction phi.
func (in *Interp) stepOf(p *ssa.Phi) (int64, bool) {
	step := int64(0)
	found := false
	for k, e := range p.Edges {
		if !p.Block().Dominates(p.Block().Preds[k]) {
			continue
		}
		d, ok := stepExpr(p, e, map[ssa.Value]bool{})
		if !ok {
			return 0, false
		}
		if found && (d > 0) != (step > 0) && d != 0 && step != 0 {
			return 0, false
		}
		if !found || step == 0 {
			step = d
		}
		found = true
	}
	return step, found
}

func stepExpr(p *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) (int64, bool) {
	if e == p {
		return 0, true
	}
	if seen[e] {
		return 0, true
	}
	seen[e] = true
	switch x := e.(type) {
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		d, ok := stepExpr(p, x.X, seen)
		if !ok {
			return 0, false
		}
		n := c.Int64()
		switch x.Op {
		case token.ADD:
			if d >= 0 && n >= 0 {
				return d + n, true
			}
			if d <= 0 && n <= 0 {
				return d + n, true
			}
		case token.SUB:
			if d <= 0 && n >= 0 {
				return d - n, true
			}
		}
	case *ssa.Phi:
		step := int64(0)
		for _, y := range x.Edges {
			d, ok := stepExpr(p, y, seen)
			if !ok {
				return 0, false
			}
			if d != 0 && step != 0 && (d > 0) != (step > 0) {
				return 0, false
			}
			if step == 0 {
				step = d
			}
		}
		return step, true
	}
	return 0, false
}

func (in *Interp) doSlice(st *State, fr *frame, i *ssa.Slice, x, lo, hi *Term) ([]*State, *Trace) {
	ts := in.TS
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok && x.Op == "alloc" && a.Len() <= 64 {
			var el []*Term
			for k := int64(0); k < a.Len(); k++ {
				el = append(el, in.load(&st.snap, in.indexAddr(x, ts.integer(k), types.NewPointer(a.Elem())), a.Elem()))
			}
			lit := ts.mk("lit", "nonnil", i.Type(), el...)
			if lo != nil || hi != nil {
				in.bind(fr, i, in.slice(lit, lo, hi, i.Type()))
			} else {
				in.bind(fr, i, lit)
			}
			fr.pc++
			return []*State{st}, nil
		}
	}
	if in.Cfg.Bounds {
		l, h := lo, hi
		if l == nil {
			l = ts.integer(0)
		}
		if h == nil {
			h = in.lenOf(x)
		}
		in.emit(st, &Event{Kind: "slice", Instr: i, Args: []*Term{x, l, h, in.lenOf(x)}})
		in.assume(&st.snap, in.lt(h, l), false)
	}
	in.bind(fr, i, in.slice(x, lo, hi, i.Type()))
	fr.pc++
	return []*State{st}, nil
}

func (in *Interp) typeAssert(st *State, fr *frame, i *ssa.TypeAssert, x *Term) ([]*State, *Trace) {
	ts := in.TS
	c := ts.mk("is", types.TypeString(i.AssertedType, shortQual), i.AssertedType, x)
	if !i.CommaOk {
		if in.Cfg.Bounds {
			in.emit(st, &Event{Kind: "assert", Instr: i, Args: []*Term{x}, Cond: c})
		}
		if !in.assume(&st.snap, c, true) {
			return nil, nil
		}
		in.bind(fr, i, x)
		fr.pc++
		return []*State{st}, nil
	}
	var out []*State
	branches := []bool{true, false}
	if b, ok := in.decide(&st.snap, c); ok {
		branches = []bool{b}
	}
	for n, b := range branches {
		s := st
		if n < len(branches)-1 {
			s = st.clone()
		}
		if !in.assume(&s.snap, c, b) {
			continue
		}
		in.emit(s, &Event{Kind: "branch", Name: "typeassert", Instr: i, Cond: c, Taken: b})
		val := x
		if !b {
			val = ts.zero(i.AssertedType)
		}
		f := s.top()
		in.bind(f, i, ts.mk("tuple", "", i.Type(), val, ts.boolean(b)))
		f.pc++
		out = append(out, s)
	}
	return out, nil
}

func (in *Interp) recv(st *State, fr *frame, i *ssa.UnOp, ch *Term) ([]*State, *Trace) {
	ts := in.TS
	et := i.X.Type().Underlying().(*types.Chan).Elem()
	if !i.CommaOk {
		r := ts.fresh("recv", "", et, ch)
		in.emit(st, &Event{Kind: "recv", Instr: i, Addr: ch, Res: r, Block: true, Taken: true})
		in.ctxEnded(st, ch)
		in.bind(fr, i, r)
		fr.pc++
		return []*State{st}, nil
	}
	var out []*State
	for n, ok := range []bool{true, false} {
		s := st
		if n == 0 {
			s = st.clone()
		}
		val := ts.zero(et)
		if ok {
			val = ts.fresh("recv", "", et, ch)
		}
		in.emit(s, &Event{Kind: "recv", Instr: i, Addr: ch, Res: val, Block: true, Taken: ok})
		f := s.top()
		in.bind(f, i, ts.mk("tuple", "", i.Type(), val, ts.boolean(ok)))
		f.pc++
		out = append(out, s)
	}
	return out, nil
}

// ctxEnded: what is received on the Done channel of a context makes its Err
// non-nil from then on.
func (in *Interp) ctxEnded(st *State, ch *Term) {
	ctx := doneOf(ch)
	if ctx == nil {
		return
	}
	a := in.TS.mk("fieldaddr", "$err", nil, ctx)
	if v, ok := st.heap.get(a.UID); ok {
		if isnil, known := in.isNilKnown(&st.snap, v); known && !isnil {
			return
		}
	}
	t := in.TS.fresh("call", "context.Context.Err", errType, ctx)
	in.assume(&st.snap, in.eq(t, in.TS.nil_()), false)
	st.heap = st.heap.set(a.UID, t)
	st.addrs = st.addrs.set(a.UID, a)
}

func (in *Interp) selectInstr(st *State, fr *frame, i *ssa.Select) ([]*State, *Trace) {
	ts := in.TS
	var out []*State
	chans := make([]*Term, len(i.States))
	for k, s := range i.States {
		chans[k] = in.val(st, fr, s.Chan)
	}
	mk := func(idx int, ok bool) {
		s := st.clone()
		f := s.top()
		tup := []*Term{ts.integer(int64(idx)), ts.boolean(ok)}
		e := &Event{Kind: "select", Instr: i, N: idx, Block: i.Blocking, Args: chans, Taken: ok}
		for _, c := range i.States {
			if c.Dir == types.SendOnly {
				e.Rets = append(e.Rets, in.val(s, f, c.Send))
			}
		}
		for k, c := range i.States {
			if c.Dir == types.RecvOnly {
				et := c.Chan.Type().Underlying().(*types.Chan).Elem()
				val := ts.zero(et)
				if k == idx && ok {
					val = ts.fresh("recv", "", et, chans[k])
					e.Res = val
				}
				tup = append(tup, val)
			}
			if k == idx {
				e.Addr = chans[k]
				if c.Dir == types.SendOnly {
					e.Name = "send"
					e.Val = in.val(s, f, c.Send)
				} else {
					e.Name = "recv"
				}
			}
		}
		in.emit(s, e)
		if e.Name == "recv" {
			in.ctxEnded(s, e.Addr)
		}
		in.bind(f, i, ts.mk("tuple", "", i.Type(), tup...))
		f.pc++
		out = append(out, s)
	}
	okUsed := false
	for _, r := range *i.Referrers() {
		if e, is := r.(*ssa.Extract); is && e.Index == 1 {
			okUsed = true
		}
	}
	for k, c := range i.States {
		if chans[k].isNil() {
			continue // nil channel: never ready
		}
		mk(k, true)
		if c.Dir == types.RecvOnly && okUsed {
			mk(k, false)
		}
	}
	if !i.Blocking {
		mk(-1, false)
	}
	return out, nil
}

// callTarget evaluates callee and arguments.
func (in *Interp) callTarget(st *State, fr *frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		args = append(args, in.val(st, fr, c.Value))
	} else {
		fn = in.val(st, fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, in.val(st, fr, a))
	}
	return fn, args
}

func (in *Interp) targetName(c *ssa.CallCommon, fn *Term) string {
	if c.IsInvoke() {
		return objName(c.Method)
	}
	if fn != nil {
		switch fn.Op {
		case "func", "closure":
			return fnName(fn.Fn)
		case "builtin":
			return fn.Sym
		case "load":
			if fn.Args[0].Op == "global" {
				return fn.Args[0].Sym
			}
		}
	}
	return "dyn"
}

// escape: a function value or its arguments may from now on be used concurrently.
func (in *Interp) escape(st *State, fn *Term, args []*Term) {}

func (in *Interp) onStack(st *State, fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (in *Interp) doCall(st *State, fr *frame, instr ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, dst ssa.Value, advance bool) ([]*State, *Trace) {
	ts := in.TS
	adv := func() {
		if advance {
			fr.pc++
		}
	}
	finish := func(t *Term) ([]*State, *Trace) {
		if dst != nil {
			in.bind(fr, dst, t)
		}
		adv()
		return []*State{st}, nil
	}
	if fn != nil && fn.Op == "builtin" {
		return in.builtin(st, fr, instr, fn.Sym, c, args, finish)
	}
	var callee *ssa.Function
	var bind []*Term
	name := in.targetName(c, fn)
	var typ types.Type
	if dst != nil {
		typ = dst.Type()
	} else {
		typ = c.Signature().Results()
		if c.Signature().Results().Len() == 1 {
			typ = c.Signature().Results().At(0).Type()
		}
	}
	if c.IsInvoke() {
		in.boundEv(st, "deref", instr, args[0])
		if d := in.dynType(&st.snap, args[0]); d != nil {
			if m := in.W.Prog.LookupMethod(d, c.Method.Pkg(), c.Method.Name()); m != nil {
				callee = m
				if o, ok := m.Object().(*types.Func); ok && m.Synthetic == "" {
					name = objName(o)
				}
			}
		}
	} else if fn != nil && (fn.Op == "func" || fn.Op == "closure") {
		callee = fn.Fn
		if fn.Op == "closure" {
			bind = fn.Args
		}
	}
	if callee != nil && callee.Blocks == nil && callee.Synthetic != "" {
		// not built
	}
	// natives
	if t, ok := in.native(st, fr, instr, name, callee, args, typ); ok {
		return finish(t)
	}
	if out, ok := in.nativeCB(st, fr, instr, name, args, dst, typ, advance); ok {
		return out, nil
	}
	inl := callee != nil && callee.Blocks != nil && (in.W.InRepo(callee) || callee.Synthetic != "" && callee.Package() == nil || callee.Synthetic != "" && in.W.InRepo(callee)) && in.onStack(st, callee) <= in.Cfg.AllowRec && len(st.frames) < in.Cfg.MaxDepth
	if inl && in.Cfg.Stop != nil && callee.Synthetic == "" && in.Cfg.Stop(callee, len(st.frames)) {
		inl = false
	}
	if inl && in.Cfg.Inline != nil && callee.Synthetic == "" && callee.Parent() == nil && !in.Cfg.Inline(callee) {
		inl = false
	}
	if inl {
		in.emit(st, &Event{Kind: "enter", Name: name, Callee: callee, Instr: instr, Args: args})
		adv()
		in.push(st, callee, args, bind, dst, nil)
		return []*State{st}, nil
	}
	// opaque call
	if pureCalls[name] {
		ep, _ := 0, 0
		if len(args) > 0 {
			ep, _ = st.eps.get(args[0].UID)
		}
		sym := name
		if ep > 0 {
			sym = fmt.Sprintf("%s@%d", name, ep)
		}
		t := ts.mk("pure", sym, typ, args...)
		in.emit(st, &Event{Kind: "call", Name: name, Callee: callee, Instr: instr, Args: args, Res: t})
		return finish(t)
	}
	if in.Cfg.Model != nil {
		if t := in.Cfg.Model(in, st, name, callee, args); t != nil {
			in.emit(st, &Event{Kind: "call", Name: name, Callee: callee, Instr: instr, Args: args, Res: t, Val: fn})
			return finish(t)
		}
	}
	if in.Cfg.Fork != nil || in.Cfg.Buffers && strings.HasPrefix(name, "bytes.") {
		at := &Event{Kind: "call", Name: name, Callee: callee, Instr: instr, Args: args, Val: fn}
		pre := st.clone()
		var outs []outcome
		if in.Cfg.Fork != nil {
			outs = in.Cfg.Fork(in, st, name, callee, args, typ)
		}
		if outs == nil && in.Cfg.Buffers {
			outs = in.bufferCall(st, name, args, typ)
		}
		if outs != nil {
			var sts []*State
			for _, o := range outs {
				e := *at
				e.Res = o.res
				in.emitAt(o.st, &e, &pre.snap)
				if o.res != nil && o.res.Op == "call" && o.res.Ev == nil {
					o.res.Ev = &e
				}
				if dst != nil {
					in.bind(o.st.top(), dst, o.res)
				}
				if advance {
					o.st.top().pc++
				}
				sts = append(sts, o.st)
			}
			return sts, nil
		}
	}
	res := ts.fresh("call", name, typ, args...)
	e := in.emit(st, &Event{Kind: "call", Name: name, Callee: callee, Instr: instr, Args: args, Res: res, Val: fn})
	res.Ev = e
	// effects
	switch {
	case callee != nil && in.W.InRepo(callee) || name == "dyn" && !strings.HasPrefix(name, "ctx"):
		for _, a := range args {
			in.bumpArg(st, a)
		}
	default:
		sig := c.Signature()
		if (c.IsInvoke() || sig.Recv() != nil) && len(args) > 0 && !readonlyCall(name) {
			e, _ := st.eps.get(args[0].UID)
			_ = e
			in.bump(st, args[0])
		}
		if !strings.HasPrefix(name, "ipld.") && !strings.HasPrefix(name, "dag.") && !strings.Contains(name, "Marshal") {
			for _, a := range args {
				if b := baseOf(a); b.Op == "alloc" || a.Op == "fieldaddr" {
					if !(c.IsInvoke() || sig.Recv() != nil) || a != args[0] {
						in.bump(st, a)
					}
				}
				if a.Op == "closure" {
					in.bumpArg(st, a)
				}
			}
		}
		if strings.HasSuffix(name, ".Unmarshal") && len(args) > 1 {
			in.bump(st, args[1])
		}
	}
	return finish(res)
}

// readonlyCall: external methods that do not change their receiver.
func readonlyCall(name string) bool {
	for _, p := range []string{"ipld.NodeGetter.", "ipld.NodeAdder.", "ipld.DAGService.", "ipld.Node.", "ipld.Link.", "dag.ProtoNode.", "dag.RawNode.", "context.Context.", "uio.Directory.", "format.", "cid.", "files.", "error."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (in *Interp) bumpArg(st *State, a *Term) {
	switch a.Op {
	case "const", "sentinel", "func", "newerr":
		return
	case "closure":
		for i, b := range a.Args {
			if b.Op == "alloc" && (a.Fn == nil || i >= len(a.Fn.FreeVars) || closureWrites(a.Fn.FreeVars[i])) {
				in.bump(st, b)
			}
		}
		return
	}
	if a.Typ == nil {
		return
	}
	switch a.Typ.Underlying().(type) {
	case *types.Pointer:
		if !strings.HasPrefix(types.TypeString(a.Typ, shortQual), "*dag.") {
			in.bump(st, a)
		}
	case *types.Slice:
		in.bump(st, a)
	}
}

func (in *Interp) doReturn(st *State, fr *frame, i *ssa.Return, rets []*Term) ([]*State, *Trace) {
	if len(st.frames) == 1 {
		in.emit(st, &Event{Kind: "ret", Instr: i, Rets: rets})
		return nil, in.trace(st, "return", rets)
	}
	in.emit(st, &Event{Kind: "leave", Name: fnName(fr.fn), Callee: fr.fn, Instr: i, Rets: rets, Args: fr.args})
	st.frames = st.frames[:len(st.frames)-1]
	caller := st.top()
	if fr.k != nil {
		return in.resume(st, caller, fr.k, rets), nil
	}
	if fr.dst != nil {
		switch len(rets) {
		case 0:
		case 1:
			in.bind(caller, fr.dst, rets[0])
		default:
			in.bind(caller, fr.dst, in.TS.mk("tuple", "", fr.dst.Type(), rets...))
		}
	}
	return []*State{st}, nil
}

func (in *Interp) builtin(st *State, fr *frame, instr ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, finish func(*Term) ([]*State, *Trace)) ([]*State, *Trace) {
	ts := in.TS
	switch name {
	case "len":
		t := c.Args[0].Type().Underlying()
		if _, ok := t.(*types.Chan); ok {
			return finish(ts.fresh("call", "len(chan)", types.Typ[types.Int], args...))
		}
		if _, ok := t.(*types.Map); ok {
			return finish(ts.fresh("call", "len(map)", types.Typ[types.Int], args...))
		}
		return finish(in.lenOf(args[0]))
	case "cap":
		return finish(ts.mk("pure", "cap", types.Typ[types.Int], args[0]))
	case "append":
		in.emit(st, &Event{Kind: "append", Instr: instr, Args: args})
		// appending to a slice cut short overwrites what followed in its array
		if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil {
			if x := args[0].peel(); x.Op == "slice" {
				in.bump(st, x.Args[0])
			}
		}
		return finish(in.appendTerm(args[0], args[1:], c.Args[0].Type()))
	case "copy":
		t := ts.fresh("call", "copy", types.Typ[types.Int], args...)
		in.emit(st, &Event{Kind: "copy", Instr: instr, Args: args, Res: t})
		return finish(t)
	case "close":
		in.emit(st, &Event{Kind: "close", Instr: instr, Addr: args[0]})
		return finish(nil)
	case "panic":
		in.emit(st, &Event{Kind: "panic", Instr: instr, Val: args[0]})
		return nil, in.trace(st, "panic", nil)
	case "min", "max":
		return finish(ts.mk("pure", name, c.Args[0].Type(), args...))
	case "ssa:wrapnilchk":
		return finish(args[0])
	case "recover":
		return finish(ts.nil_())
	}
	var t types.Type
	if v, ok := instr.(ssa.Value); ok {
		t = v.Type()
	}
	r := ts.fresh("call", name, t, args...)
	in.emit(st, &Event{Kind: "call", Name: name, Instr: instr, Args: args, Res: r})
	return finish(r)
}

func (in *Interp) appendTerm(a *Term, rest []*Term, typ types.Type) *Term {
	ts := in.TS
	var els []*Term
	base := a
	if a.Op == "append" {
		base = a.Args[0]
		els = append(els, a.Args[1:]...)
	}
	if a.Op == "lit" {
		base = ts.nil_()
		els = append(els, a.Args...)
	}
	for _, r := range rest {
		switch {
		case r.Op == "lit":
			els = append(els, r.Args...)
		case r.isNil():
		case r.Op == "append":
			if r.Args[0].Op == "lit" {
				els = append(els, r.Args[0].Args...)
			} else if !r.Args[0].isNil() {
				els = append(els, ts.mk("spread", "", r.Typ, r.Args[0]))
			}
			els = append(els, r.Args[1:]...)
		default:
			els = append(els, ts.mk("spread", "", r.Typ, r))
		}
	}
	if len(els) == 0 {
		return base
	}
	if base.isNil() {
		all := true
		for _, e := range els {
			if e.Op == "spread" {
				all = false
			}
		}
		if all {
			return ts.mk("lit", "nonnil", typ, els...)
		}
	}
	return ts.mk("append", "", typ, append([]*Term{base}, els...)...)
}

// closureWrites: may the variable captured as v be changed through it?
func closureWrites(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return true
			}
		case *ssa.FieldAddr:
			if closureWrites(r) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v && closureWrites(r.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}
