package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C37"] = ruleDef{ruleC37} }

// ruleC37: objects are independent: nothing process-wide changes.
func ruleC37(c *Checker) {
	c.explain = "Points-to and effect analysis of the whole library (inclusion based, field sensitive, three call sites of context). The package variables and all they reach, as left by the package initialisers, are the process-wide state. No store, map update, append, copy into, node edit or call of a method with a mutable receiver outside the initialisers may reach any of it, and no exported function may hand any of it out, so that what is done with one object cannot show in another, whatever the history or the schedule."
	p := newPointsTo(c.W)
	starts := map[*ssa.Function]bool{}
	var inits []*ssa.Function
	for fn := range p.inlib {
		if fn.Pkg != nil && fn.Parent() == nil && fn.Pkg.Func("init") != nil {
			starts[fn.Pkg.Func("init")] = true
		}
	}
	for fn := range starts {
		p.inlib[fn] = true
		inits = append(inits, fn)
		// what only the initialisers call is part of them
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if k, ok := i.(*ssa.Call); ok && k.Call.StaticCallee() != nil && strings.HasPrefix(k.Call.StaticCallee().Name(), "init#") {
					p.inlib[k.Call.StaticCallee()] = true
				}
			}
		}
	}
	for _, fn := range inits {
		p.visit(pfn{f: fn})
	}
	// what callers pass
	for _, fn := range p.fns {
		if p.public(fn) {
			c.entries[fnName(fn)] = true
			for i := range fn.Params {
				p.caller(fn, i)
			}
		}
	}
	p.solve()
	c.Ob("analysis-complete", "points-to analysis", !p.unsolved, "", nil, "no fixed point")
	for w := range p.seen {
		c.fns[w.f] = true
	}
	// the process-wide state
	var from []loc
	p.x = pctx{}
	name := map[*pobj]string{}
	for fn := range starts {
		for _, m := range fn.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				o := p.obj(g, nil, "global "+g.Name())
				name[o] = shortPkg(fn.Pkg.Pkg.Path()) + "." + g.Name()
				from = append(from, loc{o, ""})
				c.note("variable-only-read", name[o])
			}
		}
	}
	state := map[loc]bool{}
	owner := map[loc]string{}
	for _, l := range from {
		for x := range p.reach([]loc{l}) {
			state[x] = true
			if n := name[l.o]; owner[x] == "" || n < owner[x] {
				owner[x] = n
			}
		}
	}
	isInitFn := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
	}
	// what happens during initialisation is in an initialiser or called from
	// one: the oldest call site of the context tells
	isInit := func(x pctx, fn *ssa.Function) bool {
		for _, i := range x {
			if i != nil {
				return isInitFn(i.Parent())
			}
		}
		return isInitFn(fn)
	}
	// links a node shares with its copies are judged where they are changed
	nodePart := func(l loc) bool {
		return strings.HasPrefix(l.path, "$L") || strings.HasPrefix(l.path, "$l")
	}
	for _, m := range p.mutation {
		if isInit(m.x, m.fn) {
			continue
		}
		if l, ok := touches(m.to, state); ok {
			pos := c.W.Pos(m.at.Pos())
			c.Fail("variable-only-read", owner[l]+"@"+fnName(m.fn), pos, nil, "%s in %s changes what the package variable %s holds or reaches", m.what, fnName(m.fn), owner[l])
		}
	}
	// calls that may change what they are given, and results handed out
	for w := range p.seen {
		if isInit(w.x, w.f) {
			continue
		}
		p.x = w.x
		for _, b := range w.f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case ssa.CallInstruction:
					cc := i.Common()
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					if f := cc.StaticCallee(); f != nil && p.inlib[f] {
						continue
					}
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}
					for k, a := range args {
						if !mutableOutside(a.Type()) {
							continue
						}
						for _, l := range p.get(a) {
							if state[l] && !nodePart(l) {
								c.Fail("variable-not-used-up", owner[l]+"@"+fnName(w.f), c.W.Pos(i.Pos()), nil, "%s in %s is given the package variable %s (argument %d), which it may change", cc.String(), fnName(w.f), owner[l], k)
							}
						}
					}
					c.note("variable-not-used-up", fnName(w.f))
				case *ssa.Return:
					if !p.public(w.f) || w.x != (pctx{}) {
						continue
					}
					c.note("variable-not-handed-out", fnName(w.f))
					for _, r := range i.Results {
						if isErr(r.Type()) {
							continue
						}
						for _, l := range p.get(r) {
							if state[l] && !nodePart(l) && p.fnOf[l.o].f == nil {
								c.Fail("variable-not-handed-out", owner[l]+"@"+fnName(w.f), c.W.Pos(i.Pos()), nil, "%s hands out what the package variable %s holds", fnName(w.f), owner[l])
							}
						}
					}
				}
			}
		}
	}
	c.Min("variable-only-read", 5)
	c.Min("variable-not-used-up", 20)
	c.Min("variable-not-handed-out", 20)
	c.Assume("loggers and the types of package sync are safe to share; merkledag's methods on a node change it only where their contract says so; the hash function users may install keeps no state")
}

// mutableOutside: a type whose methods, or functions it is given to, may
// change what it refers to.
func mutableOutside(t types.Type) bool {
	if isErr(t) || isContext(t) || nodeLike(typStr(t)) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
	default:
		return false
	}
	s := typStr(t)
	for _, ok := range []string{"sync.", "atomic.", "log.", "zap.", "cid.Builder", "reflect."} {
		if strings.Contains(s, ok) {
			return false
		}
	}
	return true
}
