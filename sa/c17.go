package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: plain and sharded directories honour the same entry contract.

func init() {
	rules["C17"] = ruleDef{ruleC17}
}

func ruleC17(c *Checker) {
	c.explain = "Every path of every exported method of the two directory layouts and of the dynamic one is classified by what is known of the lookup of the given name: a path on which the lookup found nothing must report os.ErrNotExist itself and edit nothing, a path reporting it must know that nothing was found, an accepting Find must return the result of fetching the CID of the link looked up under the given name with the caller's service, an accepting removal must remove the given name once after finding it, an accepting addition must leave exactly one link of the given name, made from the given node. The sharded layout must pass name, node and result through to the shard unchanged; the methods of the dynamic directory to the directory it holds. The shard's own lookups are judged the same way (and their walks by C13 and C14); listings by C15, CID builders here for both layouts."
	c.Assume("merkledag's GetNodeLink reports ErrLinkNotFound exactly for missing names, RemoveNodeLink removes every link of the name")
	p := newDirParts(c)
	k := &entryRules{c: c, p: p}
	for _, fn := range p.fns() {
		if fn.Parent() != nil || !exported(fn) {
			continue
		}
		switch recvType(fn) {
		case p.basicT:
			k.plain(fn)
		case p.hamtT:
			k.sharded(fn)
		case p.dynT:
			k.dynamic(fn)
		}
	}
	k.shardFind()
	c.Min("missing-reported", 2)
	c.Min("fetched-by-link", 2)
	c.Min("removed-once", 2)
	c.Min("added-once", 2)
	c.Min("builder-reported", 4)
	c.Min("listing-covered", 2)
}

type entryRules struct {
	c *Checker
	p *dirParts
}

func (k *entryRules) notExist(t *Trace, er *Term) bool {
	return er != nil && t.isSentinel(er, "os.ErrNotExist")
}

const (
	unseen = iota
	found
	missing
	failed
	unclear
)

// looked: what a path knows of the entry under a name in a node.
func (k *entryRules) looked(t *Trace, nd, name *Term) (int, *Event) {
	in := t.In
	st, ev := unseen, (*Event)(nil)
	for _, e := range t.Events {
		if e.Kind != "call" || e.Name != "dag.ProtoNode.GetNodeLink" || !same(e.Args[0].peel(), nd.peel()) || !same(e.Args[1], name) {
			continue
		}
		er := in.errOf(e)
		switch {
		case t.IsNil(er):
			return found, e
		case t.isSentinel(er, "dag.ErrLinkNotFound"):
			st, ev = missing, e
		case t.NonNil(er):
			// it fails only by not finding the name
			if v, k := in.decide(&t.S, in.eq(er, in.TS.mk("sentinel", "dag.ErrLinkNotFound", errType))); k && !v {
				if st == unseen {
					st, ev = failed, e
				}
			} else {
				st, ev = missing, e
			}
		default:
			if st == unseen {
				st, ev = unclear, e
			}
		}
	}
	return st, ev
}

// plainEdits lists the edits of the links of a node.
func plainEdits(t *Trace, nd *Term) (adds, rems, other []*Event) {
	for _, e := range t.Events {
		if e.Kind != "call" || len(e.Args) == 0 || !strings.HasPrefix(e.Name, "dag.ProtoNode.") || !same(e.Args[0].peel(), nd.peel()) {
			continue
		}
		switch strings.TrimPrefix(e.Name, "dag.ProtoNode.") {
		case "AddRawLink", "AddNodeLink":
			adds = append(adds, e)
		case "RemoveNodeLink":
			rems = append(rems, e)
		case "SetLinks":
			other = append(other, e)
		}
	}
	return
}

func (k *entryRules) stop(fn *ssa.Function) func(*ssa.Function, int) bool {
	return func(f *ssa.Function, d int) bool { return f != fn && (isHamtFn(f) || recursive(f)) }
}

func (k *entryRules) plain(fn *ssa.Function) {
	c, p := k.c, k.p
	name := fnName(fn)
	c.Run(fn, Config{MaxVisits: 3, Stop: k.stop(fn)}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		at := t.pos(nil)
		d := t.Args[0]
		nd := in.fieldVal(&snap{}, d, p.node)
		adds, rems, other := plainEdits(t, nd)
		switch fn.Name() {
		case "Find", "RemoveChild":
			key := t.Args[2]
			st, ev := k.looked(t, nd, key)
			er := t.ErrRet()
			switch st {
			case missing:
				c.Ob("missing-reported", name, k.notExist(t, er), at, t, "%s of a missing name reports %s, not os.ErrNotExist", name, short(er))
				c.Ob("missing-reported", name+" untouched", len(adds)+len(rems)+len(other) == 0, at, t, "%s of a missing name changes the directory", name)
				return
			case failed:
				c.Ob("error-kept", name, t.NonNil(er), at, t, "%s succeeds although the lookup failed", name)
				return
			case unclear:
				c.Ob("missing-reported", name, false, at, t, "%s does not tell a missing name from a found one", name)
				return
			}
			if fn.Name() == "Find" {
				if t.Failed() {
					ok := st == found || k.failedCall(t)
					c.Ob("found-not-missing", name, ok && !k.says(t, er), at, t, "%s reports an error although the name was found", name)
					return
				}
				c.Ob("fetched-by-link", name, st == found && k.fetched(t, ev), at, t, "%s does not return the node of the link stored under the name", name)
				c.Ob("fetched-by-link", name+" read-only", len(adds)+len(rems)+len(other) == 0, at, t, "%s changes the directory", name)
				return
			}
			ok := len(adds)+len(other) == 0
			for _, r := range rems {
				ok = ok && same(r.Args[1], key)
			}
			if t.Failed() {
				c.Ob("removed-once", name+" failed", ok && !k.says(t, er), at, t, "%s of an existing name reports an error of its own", name)
				return
			}
			if st != found && len(rems) == 1 { // the removal itself told
				re := in.errOf(rems[0])
				c.Ob("missing-reported", name, t.IsNil(re), at, t, "%s of a missing name may report %s, not os.ErrNotExist", name, short(er))
			}
			c.Ob("removed-once", name, ok && len(rems) == 1, at, t, "%s does not remove exactly the entry of the given name", name)
		case "AddChild":
			key, node := t.Args[2], t.Args[3]
			st, _ := k.looked(t, nd, key)
			if t.Failed() {
				c.Ob("added-once", name+" failed", len(other) == 0 && (len(adds) == 0 || k.failedCall(t)), at, t, "%s fails after having added the entry", name)
				return
			}
			if st == failed {
				return // GetNodeLink fails only by not finding the name
			}
			ok := len(other) == 0 && len(adds) == 1 && same(adds[0].Args[1], key)
			if ok {
				a := adds[0]
				if strings.HasSuffix(a.Name, "AddNodeLink") {
					ok = same(a.Args[2].peel(), node.peel())
				} else {
					ok = k.linkOfNode(t, a.Args[2], node)
				}
			}
			c.Ob("added-once", name, ok, at, t, "%s does not add exactly one link of the given name to the given node", name)
			gone := st == missing && len(rems) == 0
			for _, r := range rems {
				if !same(r.Args[1], key) {
					gone, ok = false, false
					break
				}
				re := in.errOf(r)
				gone = len(adds) > 0 && r.Idx < adds[0].Idx && (st == found || t.IsNil(re) || t.isSentinel(re, "dag.ErrLinkNotFound"))
			}
			c.Ob("replaced", name, gone, at, t, "%s may leave the old entry beside the new one, or remove another", name)
		case "SetCidBuilder":
			c.Ob("builder-reported", name, same(k.builder(in, &t.S, nd), t.Args[1]), at, t, "%s does not set the builder given", name)
		case "GetCidBuilder":
			c.Ob("builder-reported", name, same(t.Rets[0].peel(), k.builder(in, &snap{}, nd).peel()), at, t, "%s does not report the builder of the directory", name)
		case "Links":
			if t.Failed() {
				return
			}
			c.Ob("listing-covered", name, t.sameList(t.Rets[0], in.linksOf(nd)), at, t, "%s does not return every entry", name)
			c.Ob("listing-covered", name+" read-only", len(adds)+len(rems)+len(other) == 0, at, t, "%s changes the directory", name)
		case "ForEachLink":
			c.Ob("listing-covered", name+" read-only", len(adds)+len(rems)+len(other) == 0, at, t, "%s changes the directory", name)
			if t.Failed() {
				return
			}
			links := in.linksOf(nd)
			var idxs []*Term
			ok := true
			for _, e := range t.Events {
				if e.Kind == "call" && e.Val != nil && same(e.Val.peel(), t.Args[2]) {
					i, l := elemOf(e.Args[0], links)
					if l == nil || !same(e.Args[0].peel(), l.peel()) {
						ok = false
						continue
					}
					if !t.IsNil(in.errOf(e)) {
						ok = false
					}
					idxs = append(idxs, i)
				}
			}
			cov, why := in.covers(&t.S, idxs, in.lenOf(links))
			c.Ob("listing-covered", name, ok && cov, at, t, "%s ends well without having passed on every entry: %s", name, why)
		}
	})
}

func (k *entryRules) builder(in *Interp, s *snap, nd *Term) *Term {
	b := in.builderOf(s, nd)
	if b == nil {
		return in.TS.mk("pure", "unknown builder", types.NewInterfaceType(nil, nil))
	}
	return b
}

// sameList: the list is that of the links, or a copy of it.
func (t *Trace) sameList(x, links *Term) bool {
	in := t.In
	x = x.peel()
	if same(x, links) {
		return true
	}
	for _, e := range t.Events { // copied as a whole
		if e.Kind == "copy" && len(e.Args) > 1 && same(e.Args[0].peel(), x) && same(e.Args[1].peel(), links) {
			return in.proveEq(&t.S, in.lenOf(x), in.lenOf(links))
		}
	}
	var idxs []*Term
	for _, e := range elems(x) { // built up here
		i, l := elemOf(e, links)
		if l == nil || !same(e.peel(), l.peel()) {
			return false
		}
		idxs = append(idxs, i)
	}
	cov, _ := in.covers(&t.S, idxs, in.lenOf(links))
	return cov
}

// says: the error is surely "does not exist", made here.
func (k *entryRules) says(t *Trace, er *Term) bool {
	return er != nil && er.Op == "sentinel" && er.Sym == "os.ErrNotExist"
}

// failedCall: the error returned is that of a call.
func (k *entryRules) failedCall(t *Trace) bool {
	for _, e := range t.Events {
		if e.Kind == "call" {
			if er := t.In.errOf(e); er != nil && (same(er, t.ErrRet()) || t.NonNil(er)) {
				return true
			}
		}
	}
	return false
}

// fetched: the node and error returned are those of fetching the link found.
func (k *entryRules) fetched(t *Trace, look *Event) bool {
	in := t.In
	l := in.resOf(look, 0)
	cd := in.fieldVal(&look.S, l, "Cid")
	dserv := k.service(t)
	for _, e := range t.Events {
		if e.Kind != "call" || e.Idx < look.Idx {
			continue
		}
		hit := false
		switch {
		case strings.HasSuffix(e.Name, ".Get") && len(e.Args) == 3:
			hit = same(e.Args[0].peel(), dserv) && same(e.Args[2], cd)
		case strings.HasSuffix(e.Name, "Link.GetNode") && len(e.Args) == 3:
			hit = same(e.Args[0].peel(), l.peel()) && same(e.Args[2].peel(), dserv)
		}
		if hit && same(t.Rets[0].peel(), in.resOf(e, 0).peel()) && (same(t.ErrRet(), in.errOf(e)) || t.IsNil(in.errOf(e)) && t.IsNil(t.ErrRet())) {
			return true
		}
	}
	return false
}

// service is the DAG service of the directory.
func (k *entryRules) service(t *Trace) *Term {
	st, _ := isStruct(deref(t.Args[0].Typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if s := typStr(st.Field(i).Type()); strings.HasSuffix(s, ".DAGService") || strings.HasSuffix(s, ".NodeGetter") {
			return t.In.fieldVal(&snap{}, t.Args[0], st.Field(i).Name()).peel()
		}
	}
	return nil
}

// linkOfNode: the link was made from the node.
func (k *entryRules) linkOfNode(t *Trace, l, node *Term) bool {
	in := t.In
	for _, e := range t.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "MakeLink") && len(e.Args) == 1 && same(e.Args[0].peel(), node.peel()) && same(in.resOf(e, 0).peel(), l.peel()) && t.IsNil(in.errOf(e)) {
			c := in.fieldVal(&t.S, l, "Cid")
			return c == nil || same(c, in.fieldVal(&snap{}, in.resOf(e, 0), "Cid"))
		}
	}
	if cd := in.fieldVal(&t.S, l, "Cid"); l.peel().Op == "alloc" && cd != nil && in.isCidOf(cd, node) { // a literal
		sz := in.fieldVal(&t.S, l, "Size")
		for _, e := range t.Events {
			if e.Kind == "call" && strings.HasSuffix(e.Name, ".Size") && same(e.Args[0].peel(), node.peel()) && same(in.resOf(e, 0), sz) {
				return true
			}
		}
	}
	return false
}

var shardFor = map[string][]string{
	"AddChild":       {"Swap", "Set"},
	"RemoveChild":    {"Take", "Remove"},
	"Find":           {"Find"},
	"Links":          {"EnumLinks"},
	"ForEachLink":    {"ForEachLink"},
	"EnumLinksAsync": {"EnumLinksAsync"},
	"SetCidBuilder":  {"SetCidBuilder"},
	"GetCidBuilder":  {"CidBuilder"},
	"GetNode":        {"Node"},
}

func (k *entryRules) sharded(fn *ssa.Function) {
	c, p := k.c, k.p
	name := fnName(fn)
	want, known := shardFor[fn.Name()]
	if !known {
		return
	}
	rule := map[string]string{"AddChild": "added-once", "RemoveChild": "removed-once", "Find": "fetched-by-link", "SetCidBuilder": "builder-reported", "GetCidBuilder": "builder-reported", "GetNode": "node-of-shard"}[fn.Name()]
	if rule == "" {
		rule = "listing-covered"
	}
	c.Run(fn, Config{MaxVisits: 3, Stop: k.stop(fn)}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		at := t.pos(nil)
		sh := in.fieldVal(&snap{}, t.Args[0], p.shard)
		var on []*Event
		edits := 0
		for _, e := range t.Events {
			if e.Kind != "call" || e.Callee == nil || recvType(e.Callee) != "*hamt.Shard" || !same(e.Args[0], sh) {
				continue
			}
			switch n := e.Callee.Name(); n {
			case "Set", "SetLink", "Swap", "Take", "Remove":
				edits++
			}
			for _, w := range want {
				if e.Callee.Name() == w {
					on = append(on, e)
				}
			}
		}
		er := t.ErrRet()
		mayEdit := fn.Name() == "AddChild" || fn.Name() == "RemoveChild"
		c.Ob(rule, name+" edits", mayEdit && edits <= 1 || edits == 0, at, t, "%s changes other entries than the one given", name)
		if len(on) != 1 {
			// a path failing before it touched the shard
			ok := len(on) == 0 && edits == 0 && t.Failed() && !k.says(t, er)
			c.Ob(rule, name, ok, at, t, "%s does not pass the request to its shard once", name)
			return
		}
		e := on[0]
		ok := true
		for q := 1; q < len(t.Args); q++ {
			a, w := e.Args[q], t.Args[q]
			if isContext(w.Typ) {
				continue // C22
			}
			ok = ok && same(a.peel(), w.peel())
		}
		c.Ob(rule, name+" arguments", ok, t.pos(e), t, "%s passes something else than what it was given to its shard", name)
		se := in.errOf(e)
		if se != nil && t.NonNil(se) || se != nil && er != nil && same(er, se) && t.Failed() {
			c.Ob("missing-reported", name, same(er, se) || k.notExist(t, er) && k.notExist(t, se), t.pos(e), t, "%s reports %s, not the error of its shard", name, short(er))
			return
		}
		switch fn.Name() {
		case "Find":
			if t.Failed() {
				c.Ob("found-not-missing", name, !k.says(t, er) && k.failedCall(t), at, t, "%s reports an error although the name was found", name)
				return
			}
			c.Ob(rule, name, k.fetched(t, e), at, t, "%s does not return the node of the link stored under the name", name)
		case "SetCidBuilder":
		case "AddChild", "RemoveChild":
			c.Ob(rule, name, same(er, se) || t.IsNil(er), at, t, "%s reports an error although the shard did what was asked", name)
		default:
			r := e.Res
			if in.errOf(e) != nil && len(t.Rets) > 1 {
				r = in.resOf(e, 0)
			}
			c.Ob(rule, name, same(t.Rets[0].peel(), r.peel()) && (len(t.Rets) < 2 || same(er, se) || t.IsNil(er)), at, t, "%s does not return what its shard gave", name)
		}
	})
}

func isContext(t types.Type) bool { return typStr(t) == "context.Context" }

// dynamic: methods that the dynamic directory has of its own, besides the two
// that switch (C18), pass the request to the directory held.
func (k *entryRules) dynamic(fn *ssa.Function) {
	c, p := k.c, k.p
	name := fnName(fn)
	sw := fn.Name() == "AddChild" || fn.Name() == "RemoveChild"
	if _, known := shardFor[fn.Name()]; !known {
		return
	}
	c.Run(fn, Config{Arith: true, Stop: func(f *ssa.Function, d int) bool {
		return f != fn && (isHamtFn(f) || p.convOf(f) || recursive(f) || exported(f) && f.Parent() == nil && recvType(f) != p.dynT)
	}}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		d0 := in.fieldVal(&snap{}, t.Args[0], p.inner).peel()
		var on []*Event
		for _, e := range t.Events {
			if e.Kind == "call" && len(e.Args) > 0 && strings.HasPrefix(e.Name, "uio.") && strings.HasSuffix(e.Name, "."+fn.Name()) {
				on = append(on, e)
			}
		}
		if sw {
			// the operation's own error is passed on; no other may be
			// reported as "does not exist"
			if len(on) == 1 && t.Failed() {
				se := in.errOf(on[0])
				c.Ob("missing-reported", name, same(t.ErrRet(), se), t.pos(on[0]), t, "%s reports %s, not the error of the directory held", name, short(t.ErrRet()))
			} else if t.Failed() {
				c.Ob("missing-reported", name, !k.says(t, t.ErrRet()), t.pos(nil), t, "%s reports a missing entry without having asked the directory", name)
			}
			return
		}
		ok := len(on) == 1 && same(on[0].Args[0].peel(), d0) && len(on[0].Args) == len(t.Args)
		for i := 1; ok && i < len(t.Args); i++ {
			ok = same(on[0].Args[i].peel(), t.Args[i].peel())
		}
		for i := range t.Rets {
			if ok && len(t.Rets) == 1 {
				ok = same(t.Rets[0].peel(), on[0].Res.peel())
			} else if ok {
				ok = same(t.Rets[i].peel(), in.resOf(on[0], i).peel()) || !isErr(fn.Signature.Results().At(i).Type()) && t.Failed() && t.NonNil(in.errOf(on[0])) || isErr(fn.Signature.Results().At(i).Type()) && t.IsNil(t.Rets[i]) && t.IsNil(in.errOf(on[0]))
			}
		}
		c.Ob("passed-through", name, ok, t.pos(nil), t, "%s does not pass the request to the directory held", name)
	})
}

// shardFind: the shard's lookup gives out the link of the entry found.
func (k *entryRules) shardFind() {
	c := k.c
	fn := c.Fn("hamt.Shard.Find")
	name := fnName(fn)
	c.Run(fn, Config{}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		c.Ob("shard-find", name, !t.IsNil(t.Rets[0]), t.pos(nil), t, "a lookup succeeds without a link")
	})
}
