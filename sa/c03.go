package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C03"] = ruleDef{ruleC03} }

func ruleC03(c *Checker) {
	c.explain = "On every successful path of the importer, the modifier and the sharded directory: a node that is linked from another one (AddNodeLink, MakeLink, a link's CID), installed as the modifier's file, or returned by an entry point has been passed to the DAG service, successfully, or was read from it; between being stored and that use no edit of the node is possible (setters, link edits, stores into its link slice), and its encoding was refreshed after every edit that bypasses the node's setters. Builder nodes count as stored only in the form last committed: an edit after the commit, or after the node was attached, is a violation."
	c.Assume("an Add or AddMany of the DAG service that returns no error stores the node; nodes read from the DAG service are stored; edits of a node happen through the calls and stores the analysis sees (no aliases)")
	c.storedImporter()
	c.storedNodes()
}

// builder side: what is attached or returned is the committed form.
func (c *Checker) storedImporter() {
	consumes := c.reaching(func(f *ssa.Function) bool { return fnName(f) == "helpers.DagBuilderHelper.Next" })
	for _, fn := range c.importerFns() {
		fn := fn
		name := fnName(fn)
		res := fn.Signature.Results()
		if res.Len() == 0 || recvIs(fn, "helpers.FSNodeOverDag") {
			continue
		}
		pair := isPairFn(fn)
		retNode := types.TypeString(res.At(0).Type(), shortQual) == "ipld.Node"
		entry := exported(fn) && fn.Signature.Recv() == nil && retNode && hasErrResult(fn.Signature)
		appends := entry && c.appender(fn)
		if !retNode && !pair && !consumes[fn] {
			continue
		}
		c.Run(fn, importerCfg(fn), func(t *Trace) {
			if t.Failed() {
				return
			}
			bad, at, b := c.committed(t)
			c.Ob("finished-when-attached", name, bad == "", t.pos(at), t, "%s", bad)
			if name == "helpers.DagBuilderHelper.FillNodeLayer" {
				x := b.of(t.Args[1])
				c.Ob("layer-committed", name, x != nil && x.commit > x.edit, t.pos(nil), t, "the node filled was changed after it was committed")
			}
			if !retNode || t.Rets[0].isNil() {
				return
			}
			r := t.In.unloop(t.Rets[0])
			if !recvIs(fn, "helpers.DagBuilderHelper") || pair {
				x := b.of(r)
				c.Ob("finished-when-returned", name, x == nil || x.commit > x.edit, t.pos(nil), t, "the node returned was changed after it was committed")
			}
			if entry && !appends {
				ok := b.stored[r.peel()] != nil
				for _, e := range t.Events {
					if e.Kind == "call" && e.Callee != nil && t.In.resOf(e, 0).peel() == r.peel() && inImporter(e.Callee) && exported(e.Callee) && e.Callee.Signature.Recv() == nil && !c.appender(e.Callee) {
						ok = true
					}
				}
				c.Ob("root-stored", name, ok, t.pos(nil), t, "the root returned was not stored")
			}
		})
	}
	c.Min("finished-when-attached", 3)
	c.Min("finished-when-returned", 2)
	c.Min("root-stored", 2)

	// the builder's own calls
	for _, nm := range []string{"helpers.DagBuilderHelper.Add", "helpers.FSNodeOverDag.AddChild"} {
		fn := c.Fn(nm)
		if fn == nil {
			continue
		}
		p := c.onlyParam(fn, "ipld.Node")
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Failed() {
				return
			}
			s := t.storing(t.Args[p])
			c.Ob("stores-child", nm, s != nil, t.pos(nil), t, "the node given is not stored")
			if s != nil {
				c.Ob("stores-child", nm, !t.editedAfter(t.Args[p], 0), t.pos(nil), t, "the node given is changed")
			}
		})
	}
	if fn := c.Fn("helpers.FSNodeOverDag.Commit"); fn != nil {
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Failed() {
				return
			}
			n := t.Rets[0].peel()
			at := -1
			for _, e := range t.Events {
				if e.Kind == "call" && strings.HasSuffix(e.Name, "ProtoNode.SetData") && same(e.Args[0], n) {
					at = e.Idx
				}
			}
			c.Ob("commit-refreshes", fnName(fn), at >= 0 && !t.editedAfter(n, at+1), t.pos(nil), t, "the node committed does not get the current data")
		})
	}
	c.Min("stores-child", 2)
	c.Min("commit-refreshes", 1)
}

// appender: extends an existing node, leaving its storage to the caller.
func (c *Checker) appender(fn *ssa.Function) bool {
	return c.onlyParam(fn, "ipld.Node") >= 0 || c.onlyParam(fn, "*dag.ProtoNode") >= 0
}

type bnode struct {
	name         string
	edit, commit int
	frozen       *Event
}

type bstate struct {
	owner  map[*Term]*bnode
	stored map[*Term]*Event
}

func (b *bstate) of(x *Term) *bnode { return b.owner[x.peel()] }

// committed follows the builder nodes of a successful path.
func (c *Checker) committed(t *Trace) (bad string, at *Event, b *bstate) {
	in := t.In
	b = &bstate{map[*Term]*bnode{}, map[*Term]*Event{}}
	fail := func(e *Event, s string) {
		if bad == "" {
			bad, at = s, e
		}
	}
	for _, a := range t.Args {
		if isBuilderNode(a) {
			b.owner[a.peel()] = &bnode{name: "the node given", edit: 0, commit: -1}
		}
	}
	use := func(e *Event, n *Term, how string) {
		if x := b.of(n); x != nil {
			if x.commit < x.edit {
				fail(e, x.name+" is "+how+" in a form older than its last change")
			}
			x.frozen = e
		}
	}
	edit := func(e *Event, n *Term) *bnode {
		x := b.of(n)
		if x == nil {
			x = &bnode{name: "a node", commit: -1}
			b.owner[n.peel()] = x
		}
		if x.frozen != nil {
			fail(e, x.name+" is changed after it was stored")
		}
		x.edit = e.Idx
		return x
	}
	for _, e := range t.Events {
		if e.Kind != "call" {
			continue
		}
		if er := in.errOf(e); er != nil && t.NonNil(er) {
			continue
		}
		switch {
		case api(e, "NewFSNodeOverDag"):
			b.owner[in.resOf(e, 0).peel()] = &bnode{name: "a new node", edit: e.Idx, commit: -1}
		case strings.HasSuffix(e.Name, "NewFSNFromDag"):
			b.owner[in.resOf(e, 0).peel()] = &bnode{name: "the existing node", edit: -1, commit: e.Idx}
		case api(e, "GetChild"):
			b.owner[in.resOf(e, 0).peel()] = &bnode{name: "an existing child", edit: -1, commit: e.Idx}
		case api(e, "Commit"):
			if x := b.of(e.Args[0]); x != nil {
				x.commit = e.Idx
				b.owner[in.resOf(e, 0).peel()] = x
			}
		case api(e, "GetDagNode"):
			if x := b.of(e.Args[0]); x != nil {
				b.owner[in.resOf(e, 0).peel()] = x
			}
		case api(e, "ProcessFileStore"):
			if x := b.of(e.Args[1]); x != nil {
				b.owner[in.resOf(e, 0).peel()] = x
			}
		case api(e, "FillNodeLayer"):
			x := edit(e, e.Args[1])
			x.commit = e.Idx + 1
		case api(e, "AddChild"):
			use(e, e.Args[1], "attached")
			b.stored[e.Args[1].peel()] = e
			edit(e, e.Args[0])
		case e.Name == "helpers.DagBuilderHelper.Add":
			use(e, e.Args[1], "stored")
			b.stored[e.Args[1].peel()] = e
		case isAdd(e):
			n := e.Args[len(e.Args)-1]
			use(e, n, "stored")
			b.stored[n.peel()] = e
		default:
			var X *bnode
			for _, a := range e.Args {
				if isBuilderNode(a) && editsNode(e, a) {
					X = edit(e, a)
				}
			}
			if X != nil && e.Callee != nil && (isPairFn(e.Callee) || resultIsNode(e.Callee)) {
				r := in.resOf(e, 0)
				b.owner[r.peel()] = X
				if !isBuilderNode(r) {
					X.commit = e.Idx + 1
				}
			}
		}
	}
	return
}

func isAdd(e *Event) bool {
	return e.Kind == "call" && (strings.HasSuffix(e.Name, ".NodeAdder.Add") || strings.HasSuffix(e.Name, ".DAGService.Add")) && len(e.Args) == 3
}

func isAddMany(e *Event) bool {
	return e.Kind == "call" && (strings.HasSuffix(e.Name, ".NodeAdder.AddMany") || strings.HasSuffix(e.Name, ".DAGService.AddMany")) && len(e.Args) == 3
}

// storing is the last call storing nd whose success the path's success
// implies; nil if there is none.
func (t *Trace) storing(nd *Term) *Event {
	in := t.In
	var found *Event
	for _, e := range t.Events {
		ok := isAdd(e) && same(in.unloop(e.Args[2]), in.unloop(nd))
		if !ok && isAddMany(e) {
			for _, x := range in.elems(e.Args[2]) {
				ok = ok || same(in.unloop(x), in.unloop(nd))
			}
		}
		if !ok {
			continue
		}
		er := in.errOf(e)
		if er == nil || t.IsNil(er) || t.ErrRet() != nil && same(t.ErrRet(), er) {
			found = e
		}
	}
	return found
}

func (in *Interp) elems(s *Term) []*Term {
	if s == nil || s.Op != "lit" {
		return nil
	}
	return s.Args
}

// nodeEdit: the event may change node X; stale: without refreshing its
// encoding.
func (t *Trace) nodeEdit(e *Event, X *Term) (edit, stale bool) {
	in := t.In
	switch e.Kind {
	case "call":
		if len(e.Args) == 0 {
			return false, false
		}
		if m, ok := nodeMethod(e.Name); ok && same(e.Args[0], X) {
			switch m {
			case "SetData", "AddNodeLink", "AddRawLink", "RemoveNodeLink", "SetCidBuilder", "UnmarshalJSON":
				return true, false
			case "SetLinks":
				return true, true
			}
			return false, false
		}
		if e.Callee != nil && recursive(e.Callee) && t.Entry.Pkg == e.Callee.Pkg {
			for _, a := range e.Args {
				if same(a, X) {
					return true, true
				}
			}
		}
	case "store":
		a := e.Addr
		for a != nil && (a.Op == "indexaddr" || a.Op == "fieldaddr" || a.Op == "load") && len(a.Args) > 0 {
			x := a.Args[0]
			if a.Op == "fieldaddr" && len(a.Args) > 0 {
				x = a.Args[len(a.Args)-1]
			}
			if x.Op == "pure" && x.Sym == "Links" && len(x.Args) > 0 && same(x.Args[0], X) {
				return true, true
			}
			a = x
		}
		_ = in
	}
	return false, false
}

// editedAfter: X may be changed by an event from index i on.
func (t *Trace) editedAfter(X *Term, i int) bool {
	for _, e := range t.Events[min(i, len(t.Events)):] {
		if ed, _ := t.nodeEdit(e, X); ed {
			return true
		}
	}
	return false
}

// staleAt: at event index i the cached encoding of X may be older than its
// last change.
func (t *Trace) staleAt(X *Term, i int) bool {
	st := false
	for _, e := range t.Events[:i] {
		ed, s := t.nodeEdit(e, X)
		if ed {
			st = s
		}
		if e.Kind == "call" && strings.HasSuffix(e.Name, "ProtoNode.EncodeProtobuf") && same(e.Args[0], X) && (e.Args[1].Op == "true" || e.Args[1] == t.In.TS.boolean(true)) {
			st = false
		}
	}
	return st
}

// keptNode: X is stored in the form it has from event index use on.
func (t *Trace) keptNode(X *Term, use int) string {
	in := t.In
	X = in.unloop(X)
	if s := t.storing(X); s != nil {
		if t.staleAt(X, s.Idx) {
			return "is stored with an outdated encoding"
		}
		if t.editedAfter(X, min(s.Idx, use)+1) {
			return "is changed after it was stored or used"
		}
		return ""
	}
	// read from the DAG service
	for _, e := range t.Events {
		if e.Kind == "call" && (in.resOf(e, 0) != nil && in.resOf(e, 0).peel() == X.peel()) {
			if strings.HasSuffix(e.Name, "NodeGetter.Get") || strings.HasSuffix(e.Name, "DAGService.Get") || strings.HasSuffix(e.Name, "Link.GetNode") ||
				e.Callee != nil && exported(e.Callee) && nodePkg(e.Callee) {
				if t.editedAfter(X, e.Idx+1) {
					return "is changed without being stored again"
				}
				return ""
			}
		}
	}
	return "is not stored"
}

// node side: modifier and sharded directory.
func (c *Checker) storedNodes() {
	cur := c.fieldName("mod", "DagModifier", "ipld.Node", "curNode")
	uses := 0
	for _, fn := range c.W.Fns {
		fn := fn
		if !c.W.production(fn) || fn.Blocks == nil || fn.Pkg == nil || fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		pkg := shortPkg(fn.Pkg.Pkg.Path())
		if !nodePkg(fn) {
			continue
		}
		if !exported(fn) && !recursive(fn) && !c.referring(fn) {
			continue
		}
		name := fnName(fn)
		res := fn.Signature.Results()
		result := ""
		if res.Len() > 0 {
			result = types.TypeString(res.At(0).Type(), shortQual)
		}
		c.Run(fn, Config{Stop: func(g *ssa.Function, d int) bool {
			return g != fn && (recursive(g) || exported(g) && nodePkg(g) || g.Pkg == nil || shortPkg(g.Pkg.Pkg.Path()) == "trickle" || shortPkg(g.Pkg.Pkg.Path()) == "helpers")
		}}, func(t *Trace) {
			in := t.In
			if t.Failed() {
				return
			}
			cidOf := func(x *Term, use *Event) string {
				x = in.unloop(x)
				if x.Op == "pure" && x.Sym == "Cid" {
					X := x.Args[0]
					at := 0
					for _, e := range t.Events {
						if e.Res == x {
							at = e.Idx
						}
					}
					if t.staleAt(X, at) {
						return "has an outdated encoding"
					}
					if t.editedAfter(X, at) {
						return "is changed after its CID was taken"
					}
					return t.keptNode(X, at)
				}
				if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Sym == "Cid" || x.Op == "field" && x.Sym == "Cid" {
					return "" // taken from an existing link
				}
				for _, e := range t.Events {
					if e.Kind == "call" && e.Callee != nil && in.resOf(e, 0) != nil && in.resOf(e, 0).peel() == x.peel() && returnsCid(e.Callee) {
						return "" // by its own check
					}
				}
				return "?"
			}
			for _, e := range t.Events {
				switch {
				case e.Kind == "call" && (strings.HasSuffix(e.Name, "ProtoNode.AddNodeLink") || strings.HasSuffix(e.Name, "ipld.MakeLink")):
					n := e.Args[len(e.Args)-1]
					uses++
					s := t.keptNode(n, e.Idx)
					c.Ob("linked-node-stored", name, s == "", t.pos(e), t, "the node linked (%s) %s", short(n), s)
				case e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == "Cid" && e.Val != nil:
					if s := cidOf(e.Val, e); s != "?" {
						c.Ob("linked-node-stored", name, s == "", t.pos(e), t, "the node linked %s", s)
					} else {
						c.Ob("linked-node-stored", name, false, t.pos(e), t, "a link gets the CID %s, which is not that of a stored node", short(e.Val))
					}
				case e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == cur && pkg == "mod":
					v := in.unloop(e.Val)
					if in.copyOfParam(t, v) {
						break
					}
					s := t.keptNode(v, e.Idx)
					c.Ob("file-node-stored", name, s == "", t.pos(e), t, "the node installed as the file %s", s)
				}
			}
			switch {
			case returnsCid(fn):
				s := cidOf(t.Rets[0], nil)
				c.Ob("returned-cid-stored", name, s == "", t.pos(nil), t, "the node whose CID is returned (%s) %s", short(t.Rets[0]), s)
			case exported(fn) && result == "ipld.Node" && !t.Rets[0].isNil():
				r := in.unloop(t.Rets[0])
				s := t.keptNode(r, len(t.Events))
				if s == "is not stored" && in.copyOfField(t, r, cur) && !t.editedAfter(r, 0) {
					s = ""
				}
				c.Ob("returned-node-stored", name, s == "", t.pos(nil), t, "the node returned %s", s)
			}
		})
	}
	c.Min("linked-node-stored", 1)
	c.Min("file-node-stored", 1)
	c.Min("returned-cid-stored", 1)
	c.Min("returned-node-stored", 2)
}

// nodePkg: packages whose exported functions return stored nodes.
func nodePkg(g *ssa.Function) bool {
	return g.Pkg != nil && (shortPkg(g.Pkg.Pkg.Path()) == "mod" || shortPkg(g.Pkg.Pkg.Path()) == "hamt")
}

func returnsCid(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && types.TypeString(r.At(0).Type(), shortQual) == "cid.Cid" && hasErrResult(fn.Signature)
}

// copyOfParam: a copy of a node parameter, or the parameter itself.
func (in *Interp) copyOfParam(t *Trace, v *Term) bool {
	x := v.peel()
	if x.Op == "call" && x.Sym == "Copy" && len(x.Args) > 0 {
		x = x.Args[0].peel()
	}
	for _, a := range t.Args {
		if a.peel() == x {
			return true
		}
	}
	return false
}

// copyOfField: a copy of what the receiver's field holds.
func (in *Interp) copyOfField(t *Trace, v *Term, f string) bool {
	x := v.peel()
	if x.Op == "call" && x.Sym == "Copy" && len(x.Args) > 0 {
		return len(t.Args) > 0 && same(x.Args[0], in.fieldVal(&t.S, t.Args[0], f))
	}
	return false
}

// referring: an unexported function that is not called from its own package
// statically (so is not analysed inlined).
func (c *Checker) referring(fn *ssa.Function) bool {
	return len(c.callSites(fnName(fn))) == 0
}
