package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C07"] = ruleDef{ruleC07} }

func ruleC07(c *Checker) {
	c.explain = "Provenance of the CID builder of every node: import nodes get the builder the import was configured with (raw leaves exactly when configured, with that builder or, without one, the default), set in two functions only, the settings never changing; a node the modifier creates gets the builder or CID prefix of the node it replaces, the blocks it appends the modifier's own settings, which come from the node it was opened on (raw leaves exactly for version 1 or later); a serialised shard gets its shard's builder, a new sub-shard its parent's before anything is inserted, a loaded shard its node's; a converted directory gets its predecessor's builder before entries are inserted."
	c.Assume("merkledag and cid functions by contract: SetCidBuilder sets the builder, NewRawNodeWPrefix uses it, Copy and edits keep it, Prefix describes the CID")
	c.builderImporter()
	c.builderMod()
	c.builderHamt()
	c.builderDirs()
}

// builderOf is the CID builder of node nd in state s.
func (in *Interp) builderOf(s *snap, nd *Term) *Term {
	nd = nd.peel()
	if v, ok := s.heap.get(in.TS.mk("fieldaddr", "$CidBuilder", nil, nd).UID); ok {
		return v
	}
	if nd.Op == "alloc" {
		return in.TS.nil_()
	}
	return in.TS.mk("pure", "CidBuilder", nil, nd)
}

func makesNode(f *types.Func) bool {
	if f == nil || f.Pkg() == nil || shortPkg(f.Pkg().Path()) != "dag" {
		return false
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil || sig.Results().Len() == 0 {
		return false
	}
	n := types.TypeString(sig.Results().At(0).Type(), shortQual)
	return n == "*dag.ProtoNode" || n == "*dag.RawNode"
}

// nodeMakers calls visit for every instruction of f creating a node or
// setting a builder.
func nodeMakers(f *ssa.Function, visit func(i ssa.Instruction, what string)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Alloc:
				if t := types.TypeString(deref(i.Type()), shortQual); t == "dag.ProtoNode" || t == "dag.RawNode" {
					visit(i, "creates a node")
				}
			case ssa.CallInstruction:
				if s := i.Common().StaticCallee(); s != nil {
					if o, ok := s.Object().(*types.Func); ok {
						if makesNode(o) {
							visit(i, "creates a node")
						}
						if o.Name() == "SetCidBuilder" && o.Pkg() != nil && shortPkg(o.Pkg().Path()) == "dag" {
							visit(i, "sets a CID builder")
						}
					}
				}
			}
		}
	}
}

func (c *Checker) builderImporter() {
	bf := c.fieldName("helpers", "DagBuilderHelper", "cid.Builder", "cidBuilder")
	rf := c.fieldName("helpers", "DagBuilderHelper", "bool", "rawLeaves")
	makers := map[string]bool{"helpers.DagBuilderHelper.NewFSNodeOverDag": true, "helpers.DagBuilderHelper.NewLeafNode": true}
	for _, f := range c.W.Fns {
		if !c.W.production(f) || !inImporter(f) {
			continue
		}
		nodeMakers(f, func(i ssa.Instruction, what string) {
			c.Ob("made-in-one-place", fnName(f), c.onlyVia(f, makers), c.W.Pos(i.Pos()), nil, "an import function %s itself", what)
		})
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || types.TypeString(deref(fa.X.Type()), shortQual) != "helpers.DagBuilderHelper" {
					continue
				}
				n := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				if n == bf || n == rf {
					c.Ob("settings-kept", fnName(f), c.onlyVia(f, map[string]bool{"helpers.DagBuilderParams.New": true}), c.W.Pos(st.Pos()), nil, "the CID settings of a running import are changed")
				}
			}
		}
	}
	c.Min("made-in-one-place", 1)
	c.Min("settings-kept", 1)
	if fn := c.Fn("helpers.DagBuilderParams.New"); fn != nil {
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Failed() {
				return
			}
			in, db := t.In, t.Rets[0]
			if db.Typ == nil {
				db = db.peel()
			}
			ok := same(in.fieldVal(&t.S, db, bf), in.fieldVal(&snap{}, t.Args[0], "CidBuilder")) && same(in.fieldVal(&t.S, db, rf), in.fieldVal(&snap{}, t.Args[0], "RawLeaves"))
			c.Ob("settings-used", fnName(fn), ok, t.pos(nil), t, "the import runs with other CID settings than configured")
		})
	}
	if fn := c.Fn("helpers.DagBuilderHelper.NewFSNodeOverDag"); fn != nil {
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Failed() {
				return
			}
			in := t.In
			want := in.fieldVal(&snap{}, t.Args[0], bf)
			n := 0
			for _, x := range in.nodesOn(t) {
				n++
				b := in.builderOf(&t.S, x)
				c.Ob("import-node-builder", fnName(fn), same(b, want) || b.isNil() && t.IsNil(want), t.pos(nil), t, "a new node gets the CID builder %s", short(b))
			}
			c.Ob("import-node-builder", fnName(fn), n > 0, t.pos(nil), t, "no node is made")
		})
	}
	if fn := c.Fn("helpers.DagBuilderHelper.NewLeafNode"); fn != nil {
		c.Run(fn, importerCfg(fn), func(t *Trace) {
			if t.Failed() {
				return
			}
			in, r := t.In, t.Rets[0].peel()
			want := in.fieldVal(&snap{}, t.Args[0], bf)
			rawV, rawK := in.decide(&t.S, in.fieldVal(&snap{}, t.Args[0], rf))
			var src *Event
			for _, e := range t.Events {
				if e.Kind == "call" && e.Res != nil && in.resOf(e, 0) != nil && in.resOf(e, 0).peel() == r {
					src = e
				}
			}
			name := ""
			if src != nil {
				name = src.Name
			} else if r.Op == "call" {
				name = r.Sym
			}
			switch {
			case strings.HasSuffix(name, "dag.NewRawNodeWPrefix"):
				c.Ob("raw-leaf-builder", fnName(fn), rawK && rawV && same(src.Args[1], want), t.pos(src), t, "a raw leaf is made with another CID builder, or although raw leaves are off")
			case strings.HasSuffix(name, "dag.NewRawNode"):
				c.Ob("raw-leaf-builder", fnName(fn), rawK && rawV && t.IsNil(want), t.pos(src), t, "a raw leaf ignores the configured CID builder, or is made although raw leaves are off")
			case src != nil && api(src, "Commit", "GetDagNode"):
				c.Ob("raw-leaf-builder", fnName(fn), rawK && !rawV, t.pos(src), t, "a leaf is wrapped although raw leaves are configured")
			default:
				c.Ob("raw-leaf-builder", fnName(fn), false, t.pos(nil), t, "the leaf %s is made in an unknown way", short(r))
			}
		})
	}
	c.Min("settings-used", 1)
	c.Min("import-node-builder", 1)
	c.Min("raw-leaf-builder", 1)
}

// nodesOn are the nodes created on a path.
func (in *Interp) nodesOn(t *Trace) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if x != nil && !seen[x.peel()] {
			seen[x.peel()] = true
			out = append(out, x.peel())
		}
	}
	var visit func(x *Term)
	done := map[*Term]bool{}
	visit = func(x *Term) {
		if x == nil || done[x] {
			return
		}
		done[x] = true
		if x.Op == "alloc" && x.Typ != nil && types.TypeString(deref(x.Typ), shortQual) == "dag.ProtoNode" {
			add(x)
		}
		for _, a := range x.Args {
			visit(a)
		}
	}
	for _, e := range t.Events {
		if e.Kind == "call" && e.Callee != nil {
			if o, ok := e.Callee.Object().(*types.Func); ok && makesNode(o) {
				add(in.resOf(e, 0))
			}
		}
		visit(e.Addr)
		visit(e.Val)
		for _, a := range e.Args {
			visit(a)
		}
	}
	for _, r := range t.Rets {
		visit(r)
	}
	return out
}

func (c *Checker) builderMod() {
	for _, fn := range c.W.Fns {
		fn := fn
		if !c.W.production(fn) || fn.Blocks == nil || fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" || shortPkg(fn.Pkg.Pkg.Path()) != "mod" {
			continue
		}
		if !exported(fn) && !recursive(fn) && !c.referring(fn) {
			continue
		}
		name := fnName(fn)
		c.Run(fn, Config{Stop: func(g *ssa.Function, d int) bool {
			return g != fn && (recursive(g) || exported(g) && nodePkg(g) || g.Pkg == nil || shortPkg(g.Pkg.Pkg.Path()) == "trickle")
		}}, func(t *Trace) {
			in := t.In
			if t.Failed() {
				return
			}
			var givens []*Term
			for i, a := range t.Args {
				if types.TypeString(fn.Params[i].Type(), shortQual) == "ipld.Node" || a.Typ != nil && types.TypeString(a.Typ, shortQual) == "*dag.ProtoNode" {
					givens = append(givens, a.peel())
				}
			}
			from := func(b *Term) bool {
				if b == nil {
					return false
				}
				b = b.peel()
				for _, g := range givens {
					if b.Op == "pure" && b.Sym == "CidBuilder" && same(b.Args[0], g) {
						return true
					}
					if b.Op == "pure" && b.Sym == "cid.Cid.Prefix" && b.Args[0].Op == "pure" && b.Args[0].Sym == "Cid" && same(b.Args[0].Args[0], g) {
						return true
					}
				}
				return false
			}
			for _, x := range in.nodesOn(t) {
				var src *Event
				for _, e := range t.Events {
					if e.Kind == "call" && e.Res != nil && in.resOf(e, 0) != nil && in.resOf(e, 0).peel() == x {
						src = e
					}
				}
				if src != nil && strings.HasSuffix(src.Name, "NewRawNodeWPrefix") {
					c.Ob("rewritten-keeps-builder", name, from(src.Args[1]), t.pos(src), t, "a raw leaf is rewritten with the CID prefix %s, not that of the node it replaces", short(src.Args[1]))
					continue
				}
				for _, e := range t.Events {
					if isAdd(e) && same(e.Args[2], x) {
						c.Ob("rewritten-keeps-builder", name, from(in.builderOf(&e.S, x)), t.pos(e), t, "a node is stored with the CID builder %s, not that of the node it replaces", short(in.builderOf(&e.S, x)))
					}
				}
				b := in.builderOf(&t.S, x)
				c.Ob("rewritten-keeps-builder", name, from(b), t.pos(src), t, "a node is made with the CID builder %s, not that of the node it replaces", short(b))
			}
			for _, e := range t.calls("dag.ProtoNode.SetCidBuilder") {
				c.Ob("rewritten-keeps-builder", name, from(e.Args[1]), t.pos(e), t, "a node gets the CID builder %s", short(e.Args[1]))
			}
			for _, e := range t.Events {
				// builders for appended data
				if e.Kind == "call" && (strings.HasSuffix(e.Name, "DagBuilderParams.New") || strings.HasSuffix(e.Name, "trickle.Append")) || e.Kind == "enter" && strings.HasSuffix(e.Name, "DagBuilderParams.New") {
					if strings.HasSuffix(e.Name, "trickle.Append") {
						continue
					}
					dm := t.Args[0]
					p := e.Args[0]
					b := in.fieldVal(&e.S, p, "CidBuilder")
					raw := in.fieldVal(&e.S, p, "RawLeaves")
					ok := b != nil && same(b, in.fieldVal(&e.S, dm, "Prefix")) && same(raw, in.fieldVal(&e.S, dm, "RawLeaves"))
					c.Ob("append-settings", name, ok, t.pos(e), t, "data is appended with the CID builder %s and raw leaves %s", short(b), short(raw))
				}
				if e.Kind == "store" && e.Addr.Op == "fieldaddr" && (e.Addr.Sym == "Prefix" || e.Addr.Sym == "RawLeaves") && len(e.Addr.Args) > 0 && e.Addr.Args[0].Op != "alloc" {
					c.Ob("settings-fixed", name, false, t.pos(e), t, "the modifier's CID settings are changed")
				}
			}
			if name == "mod.NewDagModifier" {
				r := t.Rets[0]
				p := in.fieldVal(&t.S, r, "Prefix")
				raw := in.fieldVal(&t.S, r, "RawLeaves")
				given := in.TS.mk("pure", "none", nil)
				for _, e := range t.Events {
					if e.Res != nil && e.Res.Op == "pure" && e.Res.Sym == "Cid" && from(in.TS.mk("pure", "cid.Cid.Prefix", nil, e.Res)) {
						given = e.Res
					}
				}
				sub := func(f string) *Term {
					x := in.field(p, f, types.Typ[types.Uint64])
					return x
				}
				okP := true
				for _, f := range []string{"Version", "MhType", "MhLength"} {
					x := sub(f)
					for x != nil && (x.Op == "field" || x.Op == "conv") && x.Args[0].Op != "pure" {
						x = x.Args[0]
					}
					okP = okP && x != nil && x.Op == "field" && x.Sym == f && x.Args[0].Op == "pure" && x.Args[0].Sym == "cid.Cid.Prefix" && same(x.Args[0].Args[0], given)
				}
				c.Ob("format-from-node", name, okP, t.pos(nil), t, "the format (%s) is not that of the node given", short(p))
				cd := sub("Codec")
				dp, isC := cd.Int()
				c.Ob("format-from-node", name, isC && dp == 0x70, t.pos(nil), t, "inner nodes get the codec %s", short(cd))
				v := sub("Version")
				pos := in.lt(in.TS.integer(0), v)
				zero := in.eq(v, in.TS.integer(0))
				for _, val := range []bool{true, false} {
					s := t.S
					if !in.assume(&s, pos, val) || !in.assume(&s, zero, !val) {
						continue
					}
					rv, rk := in.decide(&s, raw)
					c.Ob("raw-leaves-from-version", name, rk && rv == val, t.pos(nil), t, "raw leaves are %s for a node whose CID version is %s", short(raw), map[bool]string{true: "1 or later", false: "0"}[val])
				}
			}
		})
	}
	c.Min("rewritten-keeps-builder", 2)
	c.Min("append-settings", 1)
	c.Min("format-from-node", 1)
	c.Min("raw-leaves-from-version", 1)
}

func (c *Checker) builderHamt() {
	bf := c.fieldName("hamt", "Shard", "cid.Builder", "builder")
	vf := c.fieldName("hamt", "Shard", "*ipld.Link", "val")
	for _, fn := range c.W.Fns {
		fn := fn
		if !c.W.production(fn) || fn.Blocks == nil || fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" || shortPkg(fn.Pkg.Pkg.Path()) != "hamt" {
			continue
		}
		if !exported(fn) && !recursive(fn) && !c.referring(fn) {
			continue
		}
		name := fnName(fn)
		self := -1
		for i, p := range fn.Params {
			if types.TypeString(p.Type(), shortQual) == "*hamt.Shard" {
				self = i
				break
			}
		}
		nodeArg := c.onlyParam(fn, "ipld.Node")
		makes := false
		c.Run(fn, Config{Stop: func(g *ssa.Function, d int) bool { return g != fn && recursive(g) }}, func(t *Trace) {
			in := t.In
			var own *Term
			if self >= 0 {
				own = in.fieldVal(&snap{}, t.Args[self], bf)
			}
			var dirs []*Term // nodes loaded
			for _, e := range t.Events {
				if e.Kind == "call" && (strings.HasSuffix(e.Name, "Link.GetNode") || strings.HasSuffix(e.Name, "NodeGetter.Get")) {
					dirs = append(dirs, in.resOf(e, 0).peel())
				}
			}
			if nodeArg >= 0 {
				dirs = append(dirs, t.Args[nodeArg].peel())
			}
			good := func(b *Term, s *snap) bool {
				if b == nil {
					return false
				}
				b = b.peel()
				if own != nil && same(b, own) {
					return true
				}
				if b.Op == "pure" && b.Sym == "CidBuilder" {
					for _, d := range dirs {
						if same(b.Args[0], d) {
							return true
						}
					}
					return len(dirs) == 0 && b.Args[0].Op != "alloc"
				}
				return false
			}
			// nodes made
			if !t.Failed() {
				for _, x := range in.nodesOn(t) {
					for _, e := range t.Events {
						if isAdd(e) && same(e.Args[2], x) {
							b := in.builderOf(&e.S, x)
							c.Ob("shard-node-builder", name, good(b, &e.S) || b.isNil() && own != nil && t.IsNil(own), t.pos(e), t, "a shard is serialised with the CID builder %s", short(b))
						}
					}
				}
			}
			// shards made
			shards := map[*Term]bool{}
			for _, e := range t.Events {
				for _, x := range append([]*Term{e.Val}, e.Args...) {
					if x != nil && x.Op == "alloc" && x.Typ != nil && types.TypeString(deref(x.Typ), shortQual) == "hamt.Shard" {
						shards[x] = true
					}
				}
			}
			for x := range shards {
				inner := func(s *snap) bool {
					v := in.fieldVal(s, x, vf)
					n, k := in.isNilKnown(s, v)
					return k && n || v.isNil()
				}
				if self >= 0 || name == "hamt.NewHamtFromDag" {
					for _, e := range t.Events {
						if e.Kind == "call" && e.Callee != nil && recursive(e.Callee) && len(e.Args) > 0 && same(e.Args[0], x) && inner(&e.S) {
							makes = true
							b := in.fieldVal(&e.S, x, bf)
							c.Ob("sub-shard-builder", name, good(b, &e.S), t.pos(e), t, "entries are inserted into a new sub-shard whose CID builder is %s", short(b))
						}
					}
				}
				if t.Failed() || !inner(&t.S) {
					continue
				}
				b := in.fieldVal(&t.S, x, bf)
				switch {
				case nodeArg >= 0 && len(t.Rets) > 0 && same(t.Rets[0], x):
					c.Ob("loaded-shard-builder", name, good(b, &t.S), t.pos(nil), t, "a shard is loaded with the CID builder %s", short(b))
				case self >= 0:
					makes = true
					c.Ob("sub-shard-builder", name, good(b, &t.S), t.pos(nil), t, "a new sub-shard gets the CID builder %s", short(b))
				}
			}
			// builder stores
			for _, e := range t.Events {
				if e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == bf && len(e.Addr.Args) > 0 && e.Addr.Args[0].Op != "alloc" {
					ok := exported(fn) && fn.Name() == "SetCidBuilder" && same(e.Val, t.Args[1]) && same(e.Addr.Args[0], t.Args[0])
					c.Ob("builder-set", name, ok, t.pos(e), t, "the CID builder of an existing shard is changed to %s", short(e.Val))
				}
			}
			if fn.Name() == "SetCidBuilder" && self == 0 {
				c.Ob("builder-set", name, same(in.fieldVal(&t.S, t.Args[0], bf), t.Args[1]), t.pos(nil), t, "the CID builder given is not used")
			}
			if fn.Name() == "CidBuilder" && self == 0 {
				c.Ob("builder-get", name, same(t.Rets[0], own), t.pos(nil), t, "another CID builder than the shard's is reported")
			}
		})
		_ = makes
	}
	c.Min("shard-node-builder", 1)
	c.Min("sub-shard-builder", 1)
	c.Min("loaded-shard-builder", 1)
	c.Min("builder-set", 1)
	c.Min("builder-get", 1)
}

// dirBuilder is the builder of a directory object in state s.
func (c *Checker) dirBuilder(in *Interp, s *snap, d *Term) *Term {
	d = d.peel()
	switch types.TypeString(deref(d.Typ), shortQual) {
	case "uio.BasicDirectory":
		return in.builderOf(s, in.fieldVal(s, d, c.fieldName("uio", "BasicDirectory", "*dag.ProtoNode", "node")))
	case "uio.HAMTDirectory":
		sh := in.fieldVal(s, d, c.fieldName("uio", "HAMTDirectory", "*hamt.Shard", "shard"))
		if sh == nil {
			return nil
		}
		return c.shardBuilder(in, s, sh)
	case "uio.DynamicDirectory":
		x := in.fieldVal(s, d, "Directory")
		if x == nil || x.peel() == d {
			return nil
		}
		if x.peel().Typ == nil || types.IsInterface(x.peel().Typ) {
			return nil
		}
		return c.dirBuilder(in, s, x)
	}
	return nil
}

// shardBuilder: NewHamtFromDag gives the shard its node's builder.
func (c *Checker) shardBuilder(in *Interp, s *snap, sh *Term) *Term {
	sh = sh.peel()
	return in.fieldVal(s, sh, c.fieldName("hamt", "Shard", "cid.Builder", "builder"))
}

func (c *Checker) builderDirs() {
	stop := func(fn *ssa.Function) Config {
		return Config{Stop: func(g *ssa.Function, d int) bool {
			if g == fn {
				return false
			}
			if g.Pkg != nil && shortPkg(g.Pkg.Pkg.Path()) == "hamt" && recvIs(g, "hamt.Shard") {
				return exported(g) && len(g.Blocks) > 1 && g.Name() != "ForEachLink" || recursive(g)
			}
			return recursive(g)
		}}
	}
	isDir := func(ty types.Type) bool {
		switch types.TypeString(deref(ty), shortQual) {
		case "uio.BasicDirectory", "uio.HAMTDirectory", "uio.DynamicDirectory", "uio.Directory":
			return true
		}
		return false
	}
	for _, fn := range c.W.Fns {
		fn := fn
		if !c.W.production(fn) || fn.Blocks == nil || fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" || shortPkg(fn.Pkg.Pkg.Path()) != "uio" {
			continue
		}
		name := fnName(fn)
		res := fn.Signature.Results()
		conv := fn.Signature.Recv() != nil && isDir(fn.Signature.Recv().Type()) && res.Len() > 0 && isDir(res.At(0).Type())
		node := c.onlyParam(fn, "ipld.Node")
		load := fn.Signature.Recv() == nil && node >= 0 && res.Len() > 0 && isDir(res.At(0).Type())
		set := fn.Name() == "SetCidBuilder" && fn.Signature.Recv() != nil
		get := fn.Name() == "GetCidBuilder" && fn.Signature.Recv() != nil
		if !conv && !load && !set && !get {
			continue
		}
		c.Run(fn, stop(fn), func(t *Trace) {
			in := t.In
			if t.Failed() {
				return
			}
			switch {
			case conv:
				want := c.dirBuilder(in, &snap{}, t.Args[0])
				b := c.dirBuilder(in, &t.S, t.Rets[0])
				// insertions do not change the builder (sub-shard-builder, builder-set)
				for _, e := range t.Events {
					if e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == c.fieldName("hamt", "Shard", "cid.Builder", "builder") && types.TypeString(deref(t.Rets[0].peel().Typ), shortQual) == "uio.HAMTDirectory" {
						if sh := in.fieldVal(&t.S, t.Rets[0].peel(), c.fieldName("uio", "HAMTDirectory", "*hamt.Shard", "shard")); sh != nil && same(e.Addr.Args[0], sh) {
							b = e.Val
						}
					}
				}
				c.Ob("converted-keeps-builder", name, b != nil && same(b, want), t.pos(nil), t, "the converted directory has the CID builder %s", short(b))
				var sh *Term
				if r := t.Rets[0].peel(); types.TypeString(deref(r.Typ), shortQual) == "uio.HAMTDirectory" {
					sh = in.fieldVal(&t.S, r, c.fieldName("uio", "HAMTDirectory", "*hamt.Shard", "shard"))
				}
				for _, e := range t.Events {
					if sh != nil && e.Kind == "call" && e.Callee != nil && recvIs(e.Callee, "hamt.Shard") && len(e.Args) > 2 && same(e.Args[0], sh) {
						b := c.shardBuilder(in, &e.S, e.Args[0])
						c.Ob("builder-before-entries", name, b != nil && same(b, want), t.pos(e), t, "entries are inserted while the CID builder is %s", short(b))
					}
				}
			case load:
				b := c.dirBuilder(in, &t.S, t.Rets[0])
				ok := b != nil && b.peel().Op == "pure" && b.peel().Sym == "CidBuilder" && same(b.peel().Args[0], t.Args[node])
				c.Ob("loaded-keeps-builder", name, ok, t.pos(nil), t, "the directory loaded has the CID builder %s", short(b))
			case set:
				for _, e := range t.calls("dag.ProtoNode.SetCidBuilder") {
					c.Ob("directory-builder-set", name, same(e.Args[1], t.Args[1]), t.pos(e), t, "another CID builder is set")
				}
				b := c.dirBuilder(in, &t.S, t.Args[0])
				if b == nil {
					return
				}
				c.Ob("directory-builder-set", name, same(b, t.Args[1]), t.pos(nil), t, "the CID builder given is not used")
			case get:
				if b := c.dirBuilder(in, &snap{}, t.Args[0]); b != nil {
					c.Ob("directory-builder-get", name, same(t.Rets[0], b), t.pos(nil), t, "another CID builder than the directory's is reported")
				}
			}
		})
	}
	c.Min("converted-keeps-builder", 2)
	c.Min("builder-before-entries", 1)
	c.Min("loaded-keeps-builder", 1)
	c.Min("directory-builder-set", 2)
	c.Min("directory-builder-get", 2)
}
