package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C01"] = ruleDef{ruleC01} }

// handledSentinel: failures that are turned into a normal outcome on purpose,
// by the call that fails and the sentinel it may be recognised by.
var handledSentinel = map[string]string{
	"dag.ProtoNode.GetNodeLink":      "dag.ErrLinkNotFound", // missing entry: reported as os.ErrNotExist, or nothing to replace
	"hamt.Shard.Find":                "os.ErrNotExist",      // no old entry
	"uio.BasicDirectory.RemoveChild": "os.ErrNotExist",      // no old entry
	"ipld.Walker.Iterate":            "ipld.EndOfDag",       // end of the file
	"ipld.Walker.NextChild":          "ipld.ErrNextNoChild", // seek beyond the last child
	"chunker.Splitter.NextBytes":     "io.EOF",              // end of the input
	"bytes.Buffer.Read":              "io.EOF",              // no pending bytes
}

// neverFails: calls whose error result is nil by contract.
var neverFails = map[string]string{
	"bytes.Reader.Read":  "copies from memory; io.EOF only when empty",
	"bytes.Buffer.Write": "documented: err is always nil",
	"fmt.Fprintf":        "diagnostic output",
	"fmt.Printf":         "diagnostic output",
	"fmt.Println":        "diagnostic output",
}

// ruleC01: error-flow analysis of every function.
func ruleC01(c *Checker) {
	c.explain = "Path-sensitive error-flow analysis over the SSA form of every production function. On every abstract path (loops unrolled to two generic iterations), each error produced by a call, received from a channel, or carried in a received result must, at the function's exit, be known nil, or be matched by a non-nil error return, a delivery on a result stream, or a store into an error field; an error compared with a sentinel may be absorbed only for the (callee, sentinel) pairs of the frozen table. Functions with error results are summarised at their call sites, all others (predicates, emit helpers, closures) are inlined."
	c.Assume("the external packages follow their documented error contracts; hash writes never fail")
	w := c.W
	inlinedOnly := map[*ssa.Function]bool{}
	for _, fn := range w.Fns {
		if !exported(fn) && !hasErrResult(fn.Signature) && fn.Parent() == nil {
			inlinedOnly[fn] = true
		}
	}
	// unexported functions without error result are analysed inside their callers
	for _, fn := range w.Fns {
		if !w.production(fn) || fn.Synthetic != "" || inlinedOnly[fn] && called(w, fn) || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		if fn.Parent() != nil && !hasErrResult(fn.Signature) && !isGoTarget(fn) && !escapes(fn) {
			continue // inlined where it is called
		}
		c01fn(c, fn)
	}
	c.Min("error-handled", 75)
}

// called reports whether some in-repo function calls fn statically.
func called(w *World, fn *ssa.Function) bool {
	refs := fn.Referrers()
	_ = refs
	for _, g := range w.Fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
					return true
				}
			}
		}
	}
	return false
}

func isGoTarget(fn *ssa.Function) bool {
	p := fn.Parent()
	if p == nil {
		return false
	}
	for _, b := range p.Blocks {
		for _, i := range b.Instrs {
			if g, ok := i.(*ssa.Go); ok {
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == fn {
					return true
				}
				if g.Call.Value == fn {
					return true
				}
			}
		}
	}
	return false
}

// escapes: the closure is used other than by being called directly.
func escapes(fn *ssa.Function) bool {
	p := fn.Parent()
	if p == nil {
		return false
	}
	esc := false
	for _, b := range p.Blocks {
		for _, i := range b.Instrs {
			mc, ok := i.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for _, r := range *mc.Referrers() {
				switch r := r.(type) {
				case *ssa.Call:
					if r.Call.Value != mc {
						esc = true
					}
				case *ssa.Defer, *ssa.DebugRef:
				default:
					esc = true
				}
			}
		}
	}
	return esc
}

func c01fn(c *Checker, fn *ssa.Function) {
	cfg := Config{Stop: func(f *ssa.Function, d int) bool {
		if !exported(f) && hasErrResult(f.Signature) && boolResult(f.Signature) {
			return false // what the boolean says about the error matters
		}
		return hasErrResult(f.Signature) || exported(f) && f.Parent() == nil && !hasErrParam(f)
	}}
	name := fnName(fn)
	c.Run(fn, cfg, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		for _, s := range errSources(t) {
			site := name + " <- " + s.what
			ok, known := errHandled(c, t, s)
			msg := "the failure of %s is dropped on a path of %s that ends without reporting it"
			if !known {
				msg = "the error of %s is never tested on a path of %s and is not passed on"
			}
			c.Ob("error-handled", site, ok, t.pos(s.e), t, msg, s.what, name)
		}
	})
}

func boolResult(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if isBool(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func hasErrParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isErr(p.Type()) || errField(p.Type()) != "" {
			return true
		}
	}
	return false
}

type errSrc struct {
	e    *Event
	err  *Term
	what string
}

// errSources lists the failures that may occur on a trace.
func errSources(t *Trace) []errSrc {
	in := t.In
	var srcs []errSrc
	for _, e := range t.Events {
		switch e.Kind {
		case "call":
			if e.Name == "context.Context.Err" || neverFails[e.Name] != "" {
				continue
			}
			if strings.HasSuffix(e.Name, ".Write") && len(e.Args) > 0 && hashWriter(e.Args[0]) {
				continue
			}
			if err := in.errOf(e); err != nil && err.Op != "newerr" {
				srcs = append(srcs, errSrc{e, err, e.Name})
			}
		case "cbreturn":
			if e.Res != nil && isErr(e.Res.Typ) {
				for i, s := range srcs { // an error the callback returned: judged here
					if s.err == e.Res {
						srcs = append(srcs[:i:i], srcs[i+1:]...)
						break
					}
				}
				srcs = append(srcs, errSrc{e, e.Res, e.Name})
			}
		case "recv", "select":
			if e.Res == nil || e.Res.Op != "recv" || !e.Taken || abandoned(t, e) {
				continue
			}
			if p, ok := e.Res.Typ.Underlying().(*types.Pointer); ok {
				if f := errField(p.Elem()); f != "" {
					srcs = append(srcs, errSrc{e, in.load(&e.S, in.fieldAddr(e.Res, f, types.NewPointer(errType)), errType), "received " + f})
				}
				continue
			}
			if isErr(e.Res.Typ) {
				srcs = append(srcs, errSrc{e, e.Res, "receive"})
			} else if f := errField(e.Res.Typ); f != "" {
				srcs = append(srcs, errSrc{e, in.field(e.Res, f, errType), "received " + f})
			}
		}
	}
	return srcs
}

// abandoned: the receive only waits for a stream to end whose context the
// function itself has cancelled: what arrives after that was given up.
func abandoned(t *Trace, e *Event) bool {
	if e.Addr == nil {
		return false
	}
	for _, d := range t.Events[:e.Idx] {
		if d.Kind != "call" || d.Val == nil || d.Val.Op != "extract" || len(d.Val.Args) == 0 {
			continue
		}
		mk := d.Val.Args[0]
		if mk.Op == "call" && strings.HasPrefix(mk.Sym, "context.With") && e.Addr.containsF(func(x *Term) bool { return x == mk }) {
			return true
		}
	}
	return false
}

func hashWriter(x *Term) bool {
	return x.containsF(func(y *Term) bool {
		if y.Typ == nil {
			return false
		}
		s := types.TypeString(y.Typ, shortQual)
		return strings.HasPrefix(s, "hash.Hash") || strings.HasPrefix(s, "murmur3.")
	})
}

// errHandled: at the end of the trace the failure is absent or reported.
func errHandled(c *Checker, t *Trace, s errSrc) (ok, known bool) {
	in := t.In
	nilv, known := in.isNilKnown(&t.S, s.err)
	if known && nilv {
		return true, true
	}
	if r := t.ErrRet(); r != nil {
		if n, k := in.isNilKnown(&t.S, r); k && !n {
			return true, known
		}
	}
	for _, r := range t.Rets {
		if r.contains(s.err) || s.e.Res != nil && r == s.e.Res {
			return true, known
		}
	}
	if delivered(t, s.err, s.e) {
		return true, known
	}
	if known {
		k := s.err
		if x, has := t.S.eqv.get(s.err.UID); has {
			k = x
		}
		if k.Op == "sentinel" && (handledSentinel[s.what] == k.Sym || passesOn(c.W, s.e.Callee, k.Sym, map[*ssa.Function]bool{})) {
			return true, known
		}
		// plain-IPLD resolution of a node that is not UnixFS
		if c.W.within(t.Entry, "uio.ResolveUnixfsOnce") && s.what == "unixfs.FSNodeFromBytes" {
			return true, known
		}
	}
	// the size of a node type that has none is reported as zero (see C26)
	if c.W.within(s.e.In, "unixfs.FSNode.FileSize") {
		return true, known
	}
	if s.e.Callee != nil && len(s.e.Args) > 0 && infallible(c, s.e) {
		return true, known
	}
	return false, known
}

// within: fn is the named function or a part of it: a closure in it, or an
// unexported function that only parts of it call.
func (w *World) within(fn *ssa.Function, name string) bool {
	var in func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	in = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if f == nil {
			return false
		}
		if fnName(f) == name || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return in(f.Parent(), seen)
		}
		if exported(f) {
			return false
		}
		cs := w.callers(f)
		for _, g := range cs {
			if !in(g, seen) {
				return false
			}
		}
		return len(cs) > 0
	}
	return in(fn, map[*ssa.Function]bool{})
}

// callers lists the functions that use fn.
func (w *World) callers(fn *ssa.Function) []*ssa.Function {
	if w.users == nil {
		w.users = map[*ssa.Function][]*ssa.Function{}
		for _, g := range w.Fns {
			seen := map[*ssa.Function]bool{}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && !seen[f] {
							seen[f] = true
							w.users[f] = append(w.users[f], g)
						}
					}
				}
			}
		}
	}
	return w.users[fn]
}

// passesOn: the unexported callee may hand on the sentinel of a call it makes
// that reports it for something handled.
func passesOn(w *World, fn *ssa.Function, sym string, seen map[*ssa.Function]bool) bool {
	if fn == nil || exported(fn) || seen[fn] || !w.InRepo(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil {
				if handledSentinel[fnName(g)] == sym || passesOn(w, g, sym, seen) {
					return true
				}
			} else if m := ci.Common().Method; m != nil && handledSentinel[types.TypeString(deref(ci.Common().Value.Type()), shortQual)+"."+m.Name()] == sym {
				return true
			}
		}
	}
	return false
}

// infallible: the callee fails only with an error of its callback, and the
// callback passed never fails.
func infallible(c *Checker, e *Event) bool {
	var cb *ssa.Function
	for _, a := range e.Args {
		if (a.Op == "closure" || a.Op == "func") && a.Fn != nil && hasErrResult(a.Fn.Signature) {
			cb = a.Fn
		}
	}
	if cb == nil || !c.W.InRepo(e.Callee) {
		return false
	}
	ok := true
	stop := Config{Stop: func(f *ssa.Function, d int) bool { return true }}
	NewInterp(c.W, stop).Run(cb, func(t *Trace) {
		if r := t.ErrRet(); r == nil || !t.IsNil(r) {
			ok = false
		}
	})
	NewInterp(c.W, stop).Run(e.Callee, func(t *Trace) {
		r := t.ErrRet()
		if r == nil || t.IsNil(r) {
			return
		}
		if r.Op == "call" && r.Sym == "dyn" && r.Ev != nil && r.Ev.Val != nil && r.Ev.Val.Op == "param" {
			return
		}
		ok = false
	})
	return ok
}

func errField(t types.Type) string {
	st, ok := isStruct(t)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isErr(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// delivered: the error reached a result stream or an error field.
func delivered(t *Trace, err *Term, src *Event) bool {
	emit := -1 // depth of a helper the error was handed to
	for _, e := range t.Events[src.Idx:] {
		if e == src {
			continue
		}
		switch e.Kind {
		case "enter":
			if emit < 0 {
				for _, a := range e.Args {
					if a.contains(err) {
						emit = e.Depth
					}
				}
			}
		case "leave":
			if emit >= 0 && e.Depth <= emit+1 {
				emit = -1
			}
		case "send":
			if e.Val.contains(err) {
				return true
			}
		case "select":
			has := emit >= 0
			for _, v := range e.Rets {
				has = has || v != nil && v.contains(err)
			}
			if !has {
				continue
			}
			if e.Name == "send" && e.Val != nil && e.Val.contains(err) {
				return true
			}
			// given up because the consumer's context ended
			if e.Name == "recv" && e.Addr != nil && strings.HasPrefix(e.Addr.Sym, "context.Context.Done") {
				return true
			}
		case "store":
			if e.Val == err && e.Addr.Op == "fieldaddr" && baseOf(e.Addr).Op != "alloc" {
				return true
			}
		case "call":
			// handed to a caller-supplied function
			for _, a := range e.Args {
				if a.contains(err) && e.Name == "dyn" {
					return true
				}
			}
		}
	}
	return false
}
