package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The importer packages are judged against an abstraction of their builder
// API: the exported methods of FSNodeOverDag and DagBuilderHelper are opaque
// (each is checked on its own), everything else is inlined.

func recvIs(fn *ssa.Function, names ...string) bool {
	if fn.Signature.Recv() == nil {
		return false
	}
	s := types.TypeString(deref(fn.Signature.Recv().Type()), shortQual)
	for _, n := range names {
		if s == n {
			return true
		}
	}
	return false
}

func builderAPI(g *ssa.Function, d int) bool {
	if recvIs(g, "helpers.DagBuilderHelper") && getter(g) {
		return false
	}
	return exported(g) && recvIs(g, "helpers.FSNodeOverDag", "helpers.DagBuilderHelper") || fnName(g) == "helpers.NewFSNFromDag"
}

// isPairFn: functions returning a node together with its file size.
func isPairFn(g *ssa.Function) bool {
	r := g.Signature.Results()
	if r.Len() < 2 {
		return false
	}
	n := types.TypeString(r.At(0).Type(), shortQual)
	b, ok := r.At(1).Type().Underlying().(*types.Basic)
	return (n == "ipld.Node" || n == "*helpers.FSNodeOverDag") && ok && b.Kind() == types.Uint64
}

func inImporter(g *ssa.Function) bool {
	if g.Pkg == nil {
		return false
	}
	switch shortPkg(g.Pkg.Pkg.Path()) {
	case "balanced", "trickle", "helpers", "importer":
		return true
	}
	return false
}

// importerFns: the functions of the importer packages worth running on their
// own: exported ones and those that are opaque elsewhere.
func (c *Checker) importerFns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.W.Fns {
		if c.W.production(fn) && inImporter(fn) && fn.Parent() == nil && fn.Blocks != nil && fn.Synthetic == "" && (exported(fn) || recursive(fn) || isPairFn(fn)) {
			out = append(out, fn)
		}
	}
	return out
}

// importerCfg runs fn against the builder abstraction.
func importerCfg(fn *ssa.Function) Config {
	api := builderAPI(fn, 0)
	return Config{Model: builderModel, Stop: func(g *ssa.Function, d int) bool {
		if g == fn {
			return false
		}
		return builderAPI(g, d) || isPairFn(g) || recursive(g) && !api
	}}
}

func api(e *Event, names ...string) bool {
	if e.Kind != "call" {
		return false
	}
	for _, n := range names {
		if strings.HasSuffix(e.Name, "."+n) && (strings.HasPrefix(e.Name, "helpers.FSNodeOverDag.") || strings.HasPrefix(e.Name, "helpers.DagBuilderHelper.") || strings.HasPrefix(e.Name, "helpers.")) {
			return true
		}
	}
	return false
}

// getter: a single block without calls or stores.
func getter(g *ssa.Function) bool {
	if len(g.Blocks) != 1 {
		return false
	}
	for _, i := range g.Blocks[0].Instrs {
		if k, ok := i.(*ssa.Call); ok {
			if s := k.Call.StaticCallee(); s != nil && s != g && !exported(s) && s.Parent() == nil && s.Pkg == g.Pkg && getter(s) {
				continue
			}
		}
		switch i.(type) {
		case ssa.CallInstruction, *ssa.Store, *ssa.MapUpdate, *ssa.Send:
			return false
		}
	}
	return true
}

// consumers: the functions that may take a chunk from the source.
func (w *World) consumers() map[*ssa.Function]bool {
	if w.consume == nil {
		c := &Checker{W: w}
		w.consume = c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.DagBuilderHelper.Next" })
	}
	return w.consume
}

// builderModel: Done gives the same answer until a chunk is taken (proved by
// C05), the number of children stays until the node is passed to an editing
// call.
func builderModel(in *Interp, st *State, name string, callee *ssa.Function, args []*Term) *Term {
	done, num := name == "helpers.DagBuilderHelper.Done", name == "helpers.FSNodeOverDag.NumChildren"
	if !done && !num {
		return nil
	}
	for e := st.last; e != nil; e = e.prev {
		if e.Kind != "call" {
			continue
		}
		if e.Name == name && e.Args[0] == args[0] {
			return e.Res
		}
		if done && e.Callee != nil && in.W.consumers()[e.Callee] {
			return nil
		}
		if num && editsNode(e, args[0]) {
			return nil
		}
	}
	return nil
}
