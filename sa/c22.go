package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the caller's context governs every fetch; derived ones are released.

func init() {
	rules["C22"] = ruleDef{ruleC22}
}

func ruleC22(c *Checker) {
	c.explain = "Every call in the library that passes a context is traced back, through variables, captured variables, branches and the functions deriving contexts, to where the context comes from: it must be the context given to the function (or to one enclosing it) where there is one, else the context held by the object worked on where there is one; a fresh context only in operations that have neither, and not in a helper of an operation that has. Contexts put into objects obey the same rule. Every context derived is followed along every path of the function deriving it: its cancel function is called, deferred, called on every path of a goroutine started with it, handed to the caller, or kept in an object that calls it when closed and before the kept reader is dropped or replaced. A reader's walker runs under the caller's context where the operation takes one, else under the reader's."
	k := &ctxRules{c: c, callers: map[*ssa.Function][]*ssa.Function{}}
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc, ok := i.(ssa.CallInstruction); ok {
					if f := cc.Common().StaticCallee(); f != nil {
						k.callers[f] = append(k.callers[f], fn)
					}
				}
			}
		}
	}
	for _, fn := range c.W.Fns {
		if c.W.production(fn) && fn.Blocks != nil && fn.Synthetic == "" {
			k.uses(fn)
		}
	}
	k.released()
	k.walker()
	c.Min("context-used", 30)
	c.Min("context-kept", 3)
	c.Min("derived-released", 4)
	c.Min("kept-cancel", 2)
	c.Min("walker-context", 2)
}

type ctxRules struct {
	c       *Checker
	callers map[*ssa.Function][]*ssa.Function
}

// from collects where a context value comes from: "param", "field", "fresh",
// "nil" or "unknown".
func (k *ctxRules) from(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		if isContext(v.Type()) {
			out["param"] = true
		} else {
			out["unknown"] = true
		}
	case *ssa.FreeVar:
		for _, b := range bindings(v) {
			k.from(b, out, seen)
		}
	case *ssa.Alloc:
		n := 0
		for _, s := range storesTo(v) {
			n++
			k.from(s, out, seen)
		}
		if n == 0 {
			out["nil"] = true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			k.from(e, out, seen)
		}
	case *ssa.UnOp:
		switch a := v.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			k.from(a, out, seen)
		case *ssa.FieldAddr:
			out["field"] = true
		default:
			out["unknown"] = true
		}
	case *ssa.Field:
		out["field"] = true
	case *ssa.MakeInterface:
		k.from(v.X, out, seen)
	case *ssa.ChangeInterface:
		k.from(v.X, out, seen)
	case *ssa.ChangeType:
		k.from(v.X, out, seen)
	case *ssa.Extract:
		k.from(v.Tuple, out, seen)
	case *ssa.Const:
		out["nil"] = true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			out["unknown"] = true
			return
		}
		switch n := fnName(f); {
		case n == "context.Background" || n == "context.TODO" || n == "context.WithoutCancel":
			out["fresh"] = true
		case strings.HasPrefix(n, "context.With") || n == "errgroup.WithContext":
			k.from(v.Call.Args[0], out, seen)
		default:
			if f.Blocks == nil || !k.c.W.production(f) {
				out["unknown"] = true
				return
			}
			// a helper returning a context
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					r, ok := i.(*ssa.Return)
					if !ok {
						continue
					}
					for _, x := range r.Results {
						if !isContext(x.Type()) {
							continue
						}
						sub := map[string]bool{}
						k.from(x, sub, map[ssa.Value]bool{})
						for s := range sub {
							if s != "param" {
								out[s] = true
								continue
							}
							for _, a := range v.Call.Args {
								if isContext(a.Type()) {
									k.from(a, out, seen)
								}
							}
						}
					}
				}
			}
		}
	default:
		out["unknown"] = true
	}
}

// bindings are the values captured under a free variable.
func bindings(v *ssa.FreeVar) []ssa.Value {
	fn := v.Parent()
	at := -1
	for i, f := range fn.FreeVars {
		if f == v {
			at = i
		}
	}
	var out []ssa.Value
	if p := fn.Parent(); p != nil && at >= 0 {
		for _, b := range p.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == fn {
					out = append(out, m.Bindings[at])
				}
			}
		}
	}
	return out
}

// storesTo are the values stored in a local variable, also by closures.
func storesTo(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	refs := a.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				out = append(out, r.Val)
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == a {
					out = append(out, storesTo(r.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return out
}

// has tells what contexts a function has at hand: its own or an enclosing
// function's parameter, or a field of an object it works on.
func (k *ctxRules) has(fn *ssa.Function) (param, field bool) {
	for f := fn; f != nil; f = f.Parent() {
		for i, p := range f.Params {
			if isContext(p.Type()) {
				param = true
			}
			if i == 0 && f.Signature.Recv() != nil && ctxFieldOf(p.Type()) >= 0 {
				field = true
			}
		}
	}
	return
}

// ctxFieldOf is the index of the context field of a struct.
func ctxFieldOf(t types.Type) int {
	st, ok := isStruct(deref(t))
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if isContext(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// askedWith: some operation with a context of its own uses this helper.
func (k *ctxRules) askedWith(fn *ssa.Function, seen map[*ssa.Function]bool) *ssa.Function {
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	if seen[top] || exported(top) {
		return nil
	}
	seen[top] = true
	for _, f := range k.callers[top] {
		if p, fd := k.has(f); p || fd {
			return f
		}
		if g := k.askedWith(f, seen); g != nil {
			return g
		}
	}
	return nil
}

// givenField: a helper that is only ever given the object's own context.
func (k *ctxRules) givenField(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if exported(fn) || len(k.callers[fn]) == 0 {
		return false
	}
	for _, f := range k.callers[fn] {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cc, ok := i.(ssa.CallInstruction)
				if !ok || cc.Common().StaticCallee() != fn {
					continue
				}
				for _, a := range cc.Common().Args {
					if !isContext(a.Type()) {
						continue
					}
					src := map[string]bool{}
					k.from(a, src, map[ssa.Value]bool{})
					for s := range src {
						if s != "field" && !(s == "param" && k.givenField(f, seen)) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func srcNames(m map[string]bool) string {
	var s []string
	for n := range m {
		s = append(s, n)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (k *ctxRules) uses(fn *ssa.Function) {
	c := k.c
	name := fnName(fn)
	param, field := k.has(fn)
	c.entries[name] = true
	judge := func(v ssa.Value, opens bool) (bool, string) {
		src := map[string]bool{}
		k.from(v, src, map[ssa.Value]bool{})
		only := func(allowed ...string) bool {
			for s := range src {
				ok := false
				for _, a := range allowed {
					ok = ok || s == a
				}
				if !ok {
					return false
				}
			}
			return len(src) > 0
		}
		switch {
		case param && opens && field:
			return only("param", "field"), srcNames(src)
		case param:
			if field && k.givenField(fn, map[*ssa.Function]bool{}) {
				return only("param", "field"), srcNames(src)
			}
			return only("param"), srcNames(src)
		case field:
			return only("field"), srcNames(src)
		case only("field"):
			return true, ""
		default:
			if f := k.askedWith(fn, map[*ssa.Function]bool{}); f != nil {
				return false, srcNames(src) + ", on behalf of " + fnName(f)
			}
			return only("fresh", "field"), srcNames(src)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case ssa.CallInstruction:
				cc := i.Common()
				f := cc.StaticCallee()
				if f != nil && (strings.HasPrefix(fnName(f), "context.") || fnName(f) == "errgroup.WithContext") {
					continue
				}
				for n, a := range cc.Args {
					if !isContext(a.Type()) || f != nil && ctxUnused(f, n) {
						continue
					}
					opens := keptResult(i)
					ok, why := judge(a, opens)
					callee := "a function value"
					if f != nil {
						callee = fnName(f)
					} else if cc.IsInvoke() {
						callee = cc.Method.Name()
					}
					c.Ob("context-used", name+" -> "+callee, ok, c.W.Pos(i.Pos()), nil, "%s passes on a context that is not the one it was given (%s)", name, why)
				}
			case *ssa.Store:
				fa, ok := i.Addr.(*ssa.FieldAddr)
				if !ok || !isContext(i.Val.Type()) {
					continue
				}
				good, why := judge(i.Val, true)
				c.Ob("context-kept", name+" "+typStr(fa.X.Type()), good, c.W.Pos(i.Pos()), nil, "%s keeps a context that is not the one it was given (%s)", name, why)
			case *ssa.Alloc:
				n := ctxFieldOf(i.Type())
				if n < 0 || !k.ownType(i.Type()) {
					continue
				}
				c.Ob("context-kept", name+" "+typStr(i.Type())+" set", initialised(i, n), c.W.Pos(i.Pos()), nil, "%s makes an object without the context it is to work under", name)
			}
		}
	}
}

func (k *ctxRules) ownType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoMod)
}

// initialised: a field of a local object is set, or the object as a whole.
func initialised(a *ssa.Alloc, n int) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				return true
			}
		case *ssa.FieldAddr:
			if r.Field == n {
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == r {
						return true
					}
				}
			}
		case *ssa.Call:
			return true // set by a function
		}
	}
	return false
}

// ctxUnused: the function does not look at its context.
func ctxUnused(f *ssa.Function, n int) bool {
	if f.Blocks == nil || n >= len(f.Params) {
		return false
	}
	return len(*f.Params[n].Referrers()) == 0
}

// keptResult: what the call returns is put into an object.
func keptResult(i ssa.CallInstruction) bool {
	v := i.Value()
	if v == nil {
		return false
	}
	var kept func(v ssa.Value, d int) bool
	kept = func(v ssa.Value, d int) bool {
		if v == nil || v.Referrers() == nil || d > 4 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if _, ok := r.Addr.(*ssa.FieldAddr); ok && r.Val == v && !isErr(v.Type()) {
					return true
				}
			case *ssa.Extract:
				if kept(r, d+1) {
					return true
				}
			case *ssa.MakeInterface:
				if kept(r, d+1) {
					return true
				}
			case *ssa.Phi:
				if kept(r, d+1) {
					return true
				}
			}
		}
		return false
	}
	return kept(v, 0)
}

// released follows every derived context.
func (k *ctxRules) released() {
	c := k.c
	roots := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if !roots[fn] {
			roots[fn] = true
			work = append(work, fn)
		}
	}
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc, ok := i.(ssa.CallInstruction); ok {
					if f := cc.Common().StaticCallee(); f != nil && cancelFrom(fnName(f)) {
						add(fn)
					}
				}
			}
		}
	}
	kept := map[string]bool{}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		name := fnName(fn)
		up := false
		cfg := Config{MaxVisits: 3, Stop: func(f *ssa.Function, d int) bool {
			return f != fn && (recursive(f) || f.Parent() == nil && !roots[f] && !k.helper(f))
		}}
		c.Run(fn, cfg, func(t *Trace) {
			in := t.In
			for _, e := range t.Events {
				if e.Kind != "call" || !cancelFrom(e.Name) {
					continue
				}
				if t.Outcome != "return" {
					continue
				}
				cancel := in.resOf(e, 1)
				how := ""
				for _, x := range t.Events[e.Idx:] {
					switch x.Kind {
					case "call":
						if x.Val != nil && same(x.Val.peel(), cancel) {
							how = "called"
						}
					case "store":
						if same(x.Val.peel(), cancel) && x.Addr.Op == "fieldaddr" {
							how = "kept"
							if x.Addr.Args[0].Typ != nil {
								kept[typStr(x.Addr.Args[0].Typ)+"\x00"+x.Addr.Sym] = true
							}
						}
					case "go":
						if k.goReleases(t, x, cancel) {
							how = "goroutine"
						}
					}
				}
				for _, r := range t.Rets {
					if r.peel().contains(cancel) && how == "" {
						how = "returned"
						up = true
					}
				}
				c.Ob("derived-released", name, how != "", t.pos(e), t, "a context derived in %s is not released on this path", name)
			}
		})
		if up {
			for _, f := range k.callers[fn] {
				add(f)
			}
		}
	}
	var ks []string
	for s := range kept {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	for _, s := range ks {
		p := strings.SplitN(s, "\x00", 2)
		k.keptCancel(p[0], p[1])
	}
}

func cancelFrom(n string) bool {
	switch n {
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		return true
	}
	return false
}

// helper: a small function that may call the cancel function for its caller.
func (k *ctxRules) helper(f *ssa.Function) bool {
	if f.Blocks == nil || !k.c.W.production(f) || exported(f) {
		return false
	}
	for _, p := range f.Params {
		if typStr(p.Type()) == "context.CancelFunc" || typStr(p.Type()) == "func()" {
			return true
		}
	}
	return false
}

// goReleases: the goroutine calls the cancel function on every path.
func (k *ctxRules) goReleases(t *Trace, g *Event, cancel *Term) bool {
	in := t.In
	f := g.Val
	if f == nil || f.peel().Fn == nil || f.peel().Fn.Blocks == nil {
		return false
	}
	f = f.peel()
	ok, n := true, 0
	in.RunFrom(g.S, f.Fn, g.Args, f.Args, func(gt *Trace) {
		if gt.Outcome != "return" {
			return
		}
		n++
		called := false
		for _, e := range gt.Events {
			if e.Kind == "call" && e.Val != nil && same(e.Val.peel(), cancel) {
				called = true
			}
		}
		ok = ok && called
	})
	return ok && n > 0
}

// keptCancel: an object keeping a cancel function calls it when closed, and
// before what runs under the context is dropped.
func (k *ctxRules) keptCancel(typ, field string) {
	c := k.c
	closer := false
	// what is stored together with the cancel function
	companions := map[string]bool{}
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			has := false
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typStr(fa.X.Type()) == typ && fieldNameOf(fa) == field {
						has = true
					}
				}
			}
			if !has {
				continue
			}
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typStr(fa.X.Type()) == typ && fieldNameOf(fa) != field && k.readerLike(s.Val.Type()) {
						companions[fieldNameOf(fa)] = true
					}
				}
			}
		}
	}
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil || fn.Parent() != nil || recvType(fn) != typ {
			continue
		}
		fn := fn
		name := fnName(fn)
		isClose := fn.Name() == "Close" && fn.Signature.Params().Len() == 0
		touches := isClose
		for _, f := range withClosures(fn) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typStr(fa.X.Type()) == typ && (fieldNameOf(fa) == field || companions[fieldNameOf(fa)]) {
							touches = true
						}
					}
				}
			}
		}
		if !touches {
			continue
		}
		c.Run(fn, Config{MaxVisits: 3, Stop: func(f *ssa.Function, d int) bool {
			return f != fn && (recursive(f) || exported(f) || recvType(f) != typ)
		}}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			in := t.In
			self := t.Args[0]
			old := in.fieldVal(&snap{}, self, field)
			calledBy := func(to int, v *Term) bool {
				for _, e := range t.Events[:to] {
					if e.Kind == "call" && e.Val != nil && same(e.Val.peel(), v.peel()) {
						return true
					}
				}
				return false
			}
			if isClose {
				closer = true
				nilOld := t.IsNil(old)
				c.Ob("kept-cancel", name, nilOld || calledBy(len(t.Events), old), t.pos(nil), t, "%s does not release the context derived for the object", name)
			}
			for _, e := range t.Events {
				if e.Kind != "store" || e.Addr.Op != "fieldaddr" || !same(e.Addr.Args[0].peel(), self.peel()) || e.Addr.Sym != field && !companions[e.Addr.Sym] {
					continue
				}
				prev := before(t, e)
				if companions[e.Addr.Sym] {
					o := in.fieldVal(prev, self, e.Addr.Sym)
					if v, kn := in.isNilKnown(prev, o); kn && v {
						continue // nothing was running
					}
				} else {
					// the reader it governs must be gone
					gone := t.IsNil(old) || calledBy(e.Idx, in.fieldVal(prev, self, field))
					for cp := range companions {
						if v, kn := in.isNilKnown(prev, in.fieldVal(prev, self, cp)); kn && v {
							gone = true
						}
					}
					c.Ob("kept-cancel", name+" replaced", gone, t.pos(e), t, "%s replaces the cancel function of a context that was not released", name)
					continue
				}
				// dropped or replaced: released on this path, before or after
				cur := in.fieldVal(prev, self, field)
				c.Ob("kept-cancel", name+" dropped", calledBy(len(t.Events), cur), t.pos(e), t, "%s drops what runs under a derived context without releasing it", name)
			}
		})
	}
	c.Ob("kept-cancel", typ, closer || len(companions) > 0, "", nil, "nothing ever calls the cancel function kept in %s", typ)
}

func (k *ctxRules) readerLike(t types.Type) bool {
	s := typStr(t)
	return strings.HasSuffix(s, "Reader") || strings.HasSuffix(s, "DagReader")
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	st, ok := isStruct(deref(fa.X.Type()))
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

// walker: a reader walks under the context of the operation.
func (k *ctxRules) walker() {
	c := k.c
	for _, fn := range c.W.Fns {
		if !c.W.production(fn) || fn.Blocks == nil || fn.Parent() != nil || fn.Signature.Recv() == nil || !exported(fn) {
			continue
		}
		st, ok := isStruct(deref(fn.Signature.Recv().Type()))
		if !ok {
			continue
		}
		w := false
		cf := ""
		for i := 0; i < st.NumFields(); i++ {
			if typStr(st.Field(i).Type()) == "*ipld.Walker" {
				w = true
			}
			if isContext(st.Field(i).Type()) {
				cf = st.Field(i).Name()
			}
		}
		if !w || cf == "" {
			continue
		}
		fn := fn
		name := fnName(fn)
		c.Run(fn, Config{MaxVisits: 2, Stop: func(f *ssa.Function, d int) bool { return f != fn && recursive(f) }}, func(t *Trace) {
			in := t.In
			want := in.fieldVal(&snap{}, t.Args[0], cf)
			for i, q := range fn.Params {
				if isContext(q.Type()) {
					want = t.Args[i]
				}
			}
			for _, e := range t.Events {
				if e.Kind != "call" || e.Name != "ipld.Walker.Iterate" && e.Name != "ipld.Walker.Seek" && e.Name != "ipld.Walker.Next" {
					continue
				}
				var cur *Term
				for _, x := range t.Events[:e.Idx] {
					if x.Kind != "call" {
						continue
					}
					if x.Name == "ipld.Walker.SetContext" && same(x.Args[0].peel(), e.Args[0].peel()) {
						cur = x.Args[1]
					}
					if x.Name == "ipld.NewWalker" && x.Res != nil && same(x.Res.peel(), e.Args[0].peel()) {
						cur = x.Args[0]
					}
				}
				c.Ob("walker-context", name, cur != nil && derives(cur.peel(), want.peel()), t.pos(e), t, "%s walks the DAG under %s, not under its context", name, short(cur))
			}
		})
	}
}
