package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: the file-tree view of a node.

func init() {
	rules["C27"] = ruleDef{ruleC27}
}

func ruleC27(c *Checker) {
	c.explain = "Every accepting path of NewUnixfsFile is classified by what it knows of the node (dynamic type, decoded Type) and must return the matching view: a directory view over the node for both directory types, files.NewLinkFile over the stored target for a symlink, a view over NewDagReader of the node otherwise, nothing for other nodes. Next of every iterator type is followed from an unknown iterator state: true only with no earlier failure, the name of the one link received and the view of the node fetched by that link, without error; false only with the error kept, or with entries and result both exhausted and no error. The producer, explored from the state at its start, lists a directory made from the viewed node, delivers each link given to its callback or fails it, sends the failure of the listing and closes what the iterator waits for."
	v := &view{c: c, k: newConc(c)}
	v.kinds()
	for _, n := range c.W.Fns {
		if n.Pkg == nil || !c.W.production(n) || n.Signature.Recv() == nil || n.Synthetic != "" || shortPkg(n.Pkg.Pkg.Path()) != "unixfile" {
			continue
		}
		sig := n.Signature
		if n.Name() == "Next" && sig.Params().Len() == 0 && sig.Results().Len() == 1 && isBool(sig.Results().At(0).Type()) {
			v.next(n)
		}
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.TypeString(sig.Results().At(0).Type(), shortQual) == "files.DirIterator" {
			v.entries(n)
		}
	}
	c.Min("view-kind", 4)
	c.Min("next-true", 1)
	c.Min("next-false", 1)
	c.Min("iterator-state", 3)
	c.Min("producer", 3)
	c.Min("sizes", 2)
}

type view struct {
	c *Checker
	k *conc
}

// fieldOfType: the fields of a struct with a type.
func fieldsOfType(st *types.Struct, is func(types.Type) bool) []string {
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if is(st.Field(i).Type()) {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

func typeIs(s string) func(types.Type) bool {
	return func(t types.Type) bool { return types.TypeString(t, shortQual) == s }
}

func chanOf(s string) func(types.Type) bool {
	return func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && (types.TypeString(ch.Elem(), shortQual) == s || s == "error" && isErr(ch.Elem()))
	}
}

func (v *view) kinds() {
	c := v.c
	const name = "unixfile.NewUnixfsFile"
	fn := c.Fn(name)
	if fn == nil {
		return
	}
	stop := map[string]bool{"uio.NewDirectoryFromNode": true, "uio.NewDagReader": true}
	ni := c.param(fn, "ipld.Node")
	sawReader := map[*types.TypeName]string{}
	dirs := map[*types.TypeName]bool{}
	c.Run(fn, Config{Stop: func(f *ssa.Function, d int) bool { return stop[fnName(f)] }}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() || len(t.Rets) != 2 {
			return
		}
		in, s := t.In, &t.S
		nd := t.Args[ni]
		res := t.Rets[0].peel()
		proto, raw := in.nodeIs(s, nd, "*dag.ProtoNode"), in.nodeIs(s, nd, "*dag.RawNode")
		if !t.IsNil(t.Rets[1]) {
			c.Ob("view-kind", name+" result", false, c.W.Pos(fn.Pos()), t, "%s may return a view together with an error", name)
			return
		}
		c.Ob("view-kind", name+" other nodes", proto || raw, c.W.Pos(fn.Pos()), t, "%s returns a view of a node it knows neither as a UnixFS nor as a raw node", name)
		if !proto && !raw {
			return
		}
		var poss map[string]bool
		var obj *Term
		if proto {
			for _, e := range t.calls("proto.Unmarshal") {
				if len(e.Args) == 2 && e.Args[0].Op == "pure" && same(e.Args[0], in.fieldVal(&e.S, nd, "$Data")) || isDataOf(e.Args[0], nd) {
					if t.IsNil(in.errOf(e)) {
						obj = e.Args[1].peel()
					}
				}
			}
			c.Ob("view-kind", name+" decoded", obj != nil, c.W.Pos(fn.Pos()), t, "%s accepts a node without decoding its data", name)
			if obj == nil {
				return
			}
			poss = c.typesPossible(in, s, obj)
		}
		// what is returned
		if res.Op == "call" && res.Sym == "files.NewLinkFile" {
			ok := proto && len(poss) == 1 && poss["Symlink"]
			c.Ob("view-kind", name+" symlink", ok, c.W.Pos(fn.Pos()), t, "%s views a node that may not be a symlink as one", name)
			if ok {
				tgt := unconv(res.Args[0])
				c.Ob("view-kind", name+" target", same(tgt, in.pbField(s, obj, "Data")), c.W.Pos(fn.Pos()), t, "%s gives the symlink another target than the stored one", name)
			}
			return
		}
		tn := namedOf(res.Typ)
		st, isS := isStruct(deref(res.Typ))
		if tn == nil || !isS {
			c.Ob("view-kind", name+" result", false, c.W.Pos(fn.Pos()), t, "%s returns a view of unknown kind", name)
			return
		}
		ctxi, dsi := c.param(fn, "context.Context"), c.param(fn, "ipld.DAGService")
		isNode := func(x *Term) bool {
			for x != nil && (x.Op == "call" && x.Sym == "Copy" || x.Op == "assert" || x.Op == "convert" || x.Op == "makeinterface") {
				x = x.Args[0]
			}
			return x != nil && same(x.peel(), nd.peel())
		}
		given := func(e *Event) bool { // the arguments are the caller's
			for i, a := range e.Args {
				var ok bool
				switch types.TypeString(e.Callee.Params[i].Type(), shortQual) {
				case "ipld.Node":
					ok = isNode(a)
				case "context.Context":
					ok = same(a, t.Args[ctxi])
				case "ipld.DAGService", "ipld.NodeGetter":
					ok = same(a.peel(), t.Args[dsi])
				default:
					ok = true
				}
				if !ok {
					return false
				}
			}
			return true
		}
		if _, pt := res.Typ.Underlying().(*types.Pointer); pt && implementsDir(c, res.Typ) {
			ok := proto && len(poss) > 0
			for p := range poss {
				ok = ok && (p == "Directory" || p == "HAMTShard")
			}
			c.Ob("view-kind", name+" directory", ok, c.W.Pos(fn.Pos()), t, "%s views a node that may not be a directory as one", name)
			checked := false
			for _, e := range t.calls("uio.NewDirectoryFromNode") {
				checked = checked || given(e) && t.IsNil(in.errOf(e))
			}
			c.Ob("view-kind", name+" directory decoded", checked, c.W.Pos(fn.Pos()), t, "%s views a directory it has not decoded", name)
			for _, f := range fieldsOfType(st, func(x types.Type) bool {
				n := types.TypeString(x, shortQual)
				return n == "*dag.ProtoNode" || n == "ipld.Node"
			}) {
				c.Ob("view-kind", name+" directory node", isNode(in.fieldVal(s, res, f)), c.W.Pos(fn.Pos()), t, "%s keeps another node than the one viewed", name)
			}
			for _, f := range fieldsOfType(st, typeIs("context.Context")) {
				c.Ob("view-kind", name+" directory context", same(in.fieldVal(s, res, f), t.Args[ctxi]), c.W.Pos(fn.Pos()), t, "%s keeps another context than the caller's", name)
			}
			for _, f := range fieldsOfType(st, typeIs("ipld.DAGService")) {
				c.Ob("view-kind", name+" directory service", same(in.fieldVal(s, res, f), t.Args[dsi]), c.W.Pos(fn.Pos()), t, "%s keeps another DAG service than the caller's", name)
			}
			// the size of the view
			for _, f := range fieldsOfType(st, func(x types.Type) bool { return isInteger(x) }) {
				x := unconv(in.fieldVal(s, res, f))
				ok := x.Op == "extract" && len(x.Args) == 1 && x.Args[0].Op == "call" && (x.Args[0].Sym == "dag.ProtoNode.Size" || x.Args[0].Sym == "ipld.Node.Size") && isNode(x.Args[0].Args[0])
				c.Ob("sizes", name+" directory", ok, c.W.Pos(fn.Pos()), t, "%s gives a directory view another size than the cumulative size of the node", name)
			}
			dirs[tn] = true
			return
		}
		// a file
		fl := fieldsOfType(st, typeIs("uio.DagReader"))
		ok := raw
		if proto {
			ok = len(poss) > 0 && !poss["Directory"] && !poss["HAMTShard"] && !poss["Symlink"]
		}
		c.Ob("view-kind", name+" file", ok, c.W.Pos(fn.Pos()), t, "%s views a directory or symlink as a file", name)
		read := false
		if len(fl) == 1 {
			x := in.fieldVal(s, res, fl[0]).peel()
			for _, e := range t.calls("uio.NewDagReader") {
				read = read || same(x, in.resOf(e, 0)) && given(e) && t.IsNil(in.errOf(e))
			}
			sawReader[tn] = fl[0]
		}
		c.Ob("view-kind", name+" reader", read, c.W.Pos(fn.Pos()), t, "the file view of %s does not read the node", name)
	})
	// sizes of the views
	for _, n := range c.W.Fns {
		if n.Name() != "Size" || n.Signature.Recv() == nil || n.Synthetic != "" {
			continue
		}
		tn := namedOf(n.Signature.Recv().Type())
		switch {
		case tn != nil && sawReader[tn] != "":
			c.Run(n, Config{}, func(t *Trace) {
				if t.Outcome != "return" || t.Failed() {
					return
				}
				x := unconv(t.Rets[0])
				ok := (x.Op == "call" || x.Op == "pure") && x.Sym == "uio.DagReader.Size" && same(x.Args[len(x.Args)-1], t.In.fieldVal(&snap{}, t.Args[0], sawReader[tn]))
				c.Ob("sizes", fnName(n), ok, c.W.Pos(n.Pos()), t, "%s does not return the size of the file", fnName(n))
			})
		case tn != nil && dirs[tn]:
			c.Run(n, Config{}, func(t *Trace) {
				if t.Outcome != "return" || t.Failed() {
					return
				}
				x := unconv(t.Rets[0])
				c.Ob("sizes", fnName(n), x.Op == "load" && x.Args[0].Op == "fieldaddr" && same(x.Args[0].Args[0], t.Args[0]), c.W.Pos(n.Pos()), t, "%s does not return the size of the directory node", fnName(n))
			})
		}
	}
}

// isDataOf: the bytes held by a node.
func isDataOf(x, nd *Term) bool {
	x = x.peel()
	return x.Op == "pure" && x.Sym == "Data" && len(x.Args) > 0 && x.Args[0].peel() == nd.peel()
}

func namedOf(t types.Type) *types.TypeName {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		return n.Obj()
	}
	return nil
}

// implementsDir: the type has the methods of files.Directory.
func implementsDir(c *Checker, t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Entries")
	f, ok := o.(*types.Func)
	return ok && f.Type().(*types.Signature).Results().Len() == 1 && types.TypeString(f.Type().(*types.Signature).Results().At(0).Type(), shortQual) == "files.DirIterator"
}

type iterRoles struct{ links, errs, err, name, node string }

func rolesOf(st *types.Struct) (r iterRoles, ok bool) {
	one := func(dst *string, is func(types.Type) bool) bool {
		f := fieldsOfType(st, is)
		if len(f) == 1 {
			*dst = f[0]
		}
		return len(f) == 1
	}
	ok = one(&r.links, chanOf("*ipld.Link"))
	ok = one(&r.errs, chanOf("error")) && ok
	ok = one(&r.err, isErr) && ok
	ok = one(&r.name, typeIs("string")) && ok
	ok = one(&r.node, typeIs("files.Node")) && ok
	return
}

// next: what the iterator reports.
func (v *view) next(fn *ssa.Function) {
	c := v.c
	name := fnName(fn)
	st, _ := isStruct(deref(fn.Signature.Recv().Type()))
	r, ok := rolesOf(st)
	if !ok {
		c.Fail("undecided", name, c.W.Pos(fn.Pos()), nil, "the state of the iterator %s is not understood", name)
		return
	}
	c.Run(fn, Config{MaxVisits: 4, Stop: func(f *ssa.Function, d int) bool { return exported(f) }}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		it := t.Args[0]
		links, errs := in.fieldVal(&snap{}, it, r.links), in.fieldVal(&snap{}, it, r.errs)
		errAt := in.fieldVal(&snap{}, it, r.err)
		had, hadK := in.isNilKnown(&t.S, errAt)
		var got []*Event
		linksDone, errDone := false, false // how the iterator learnt it
		var failed *Term
		isRecv := func(e *Event) bool { return e.Kind == "recv" || e.Kind == "select" && e.Name == "recv" }
		for _, e := range t.Events {
			switch {
			case isRecv(e) && same(e.Addr, links):
				if e.Taken {
					if t.IsNil(e.Res) {
						return // links delivered are not nil
					}
					got = append(got, e)
				} else {
					linksDone = true
				}
			case isRecv(e) && same(e.Addr, errs):
				if e.Taken && !t.IsNil(e.Res) {
					failed = e.Res
				}
				errDone = true
			}
		}
		isNilAt := func(x *Term) bool { n, k := in.isNilKnown(&t.S, x); return k && n }
		linksDone = linksDone || isNilAt(links)
		errDone = errDone || isNilAt(errs)
		errEnd := in.fieldVal(&t.S, it, r.err)
		at := c.W.Pos(fn.Pos())
		// a channel is put aside only when it has nothing more to give
		for _, f := range []struct {
			name string
			old  *Term
			done bool
		}{{r.links, links, linksDone}, {r.errs, errs, errDone}} {
			now := in.fieldVal(&t.S, it, f.name)
			c.Ob("iterator-state", name+" "+elemType(f.old).String(), same(now, f.old) || f.done, at, t, "%s puts a channel aside that has more to give", name)
		}
		if x := in.fieldVal(&t.S, it, r.err); !same(x, errAt) {
			c.Ob("iterator-state", name+" error", hadK && had, at, t, "%s replaces the error of an earlier call", name)
		}
		b := t.Rets[0]
		val, known := in.decide(&t.S, b)
		canTrue := !known || val
		canFalse := !known || !val
		if canTrue {
			// judged under the assumption that it returns true
			s := t.S
			if !known {
				in.assume(&s, b, true)
			}
			nilAt := func(x *Term) bool { n, k := in.isNilKnown(&s, x); return k && n }
			ok := len(got) == 1
			c.Ob("next-true", name+" one entry", ok, at, t, "%s returns true although it received %d entries", name, len(got))
			c.Ob("next-true", name+" after error", hadK && had && failed == nil, at, t, "%s returns true after an error", name)
			c.Ob("next-true", name+" error", nilAt(errEnd), at, t, "%s returns true with an error set", name)
			if ok {
				l := got[0].Res
				nm := in.fieldVal(&s, it, r.name)
				c.Ob("next-true", name+" name", same(nm, in.fieldVal(&got[0].S, l, "Name")) || isFieldOf(nm, l, "Name"), at, t, "%s names another entry than the one received", name)
				good := false
				cur := in.fieldVal(&s, it, r.node).peel()
				for _, e := range t.calls("unixfile.NewUnixfsFile") {
					if !same(cur, in.resOf(e, 0)) || !nilAt(in.errOf(e)) {
						continue
					}
					for _, a := range e.Args {
						if types.TypeString(a.Typ, shortQual) == "ipld.Node" {
							good = v.fetchedBy(t, &s, a, l)
						}
					}
				}
				c.Ob("next-true", name+" node", good, at, t, "%s does not give the node of the entry received", name)
			}
		}
		if canFalse {
			s := t.S
			if !known {
				in.assume(&s, b, false)
			}
			n, k := in.isNilKnown(&s, errEnd)
			kept := k && !n || hadK && !had && same(errEnd, errAt)
			exhausted := len(got) == 0 && linksDone && errDone && failed == nil && k && n
			if failed != nil {
				c.Ob("next-false", name+" enumeration error", kept, at, t, "%s drops the error of the enumeration", name)
			}
			c.Ob("next-false", name, kept || exhausted, at, t, "%s ends without an error although there may be more entries, or an entry failed", name)
		}
	})
	// the accessors
	for mname, f := range map[string]string{"Name": r.name, "Node": r.node, "Err": r.err} {
		m := v.method(fn, mname)
		if m == nil {
			continue
		}
		c.Run(m, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				return
			}
			c.Ob("iterator-state", fnName(m), same(t.Rets[0], t.In.fieldVal(&t.S, t.Args[0], f)), c.W.Pos(m.Pos()), t, "%s does not return what Next has stored", fnName(m))
		})
	}
}

func (v *view) method(fn *ssa.Function, name string) *ssa.Function {
	for _, m := range v.c.W.Fns {
		if m.Name() == name && m.Signature.Recv() != nil && m.Synthetic == "" && types.Identical(m.Signature.Recv().Type(), fn.Signature.Recv().Type()) {
			return m
		}
	}
	return nil
}

func isFieldOf(x, ptr *Term, f string) bool {
	x = x.peel()
	return x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Sym == f && same(x.Args[0].Args[0].peel(), ptr.peel())
}

// fetchedBy: nd is the node the link points to.
func (v *view) fetchedBy(t *Trace, s *snap, nd, l *Term) bool {
	in := t.In
	for _, e := range t.Events {
		if e.Kind != "call" || e.Res == nil {
			continue
		}
		ok := false
		switch e.Name {
		case "ipld.Link.GetNode":
			ok = same(e.Args[0], l)
		case "ipld.NodeGetter.Get", "ipld.DAGService.Get":
			x := e.Args[len(e.Args)-1]
			ok = isFieldOf(x, l, "Cid")
		}
		if ok && same(in.resOf(e, 0), nd.peel()) {
			n, k := in.isNilKnown(s, in.errOf(e))
			return k && n
		}
	}
	return false
}

// entries: the producer behind an iterator.
func (v *view) entries(fn *ssa.Function) {
	c, k := v.c, v.k
	name := fnName(fn)
	at := c.W.Pos(fn.Pos())
	cfg := k.config(fn)
	own := fn.Pkg
	cfg.Stop = func(f *ssa.Function, d int) bool {
		return f != fn && (exported(f) && f.Parent() == nil || f.Pkg != own && f.Pkg != nil)
	}
	r := k.explore(fn, cfg)
	for _, t := range r.ts {
		if t.Outcome != "return" {
			continue
		}
		in := t.In
		it := t.Rets[0].peel()
		st, isS := isStruct(deref(it.Typ))
		ro, ok := iterRoles{}, false
		if isS {
			ro, ok = rolesOf(st)
		}
		if !ok {
			c.Fail("undecided", name, at, t, "the iterator returned by %s is not understood", name)
			continue
		}
		links, errs := stripConv(in.fieldVal(&t.S, it, ro.links)), stripConv(in.fieldVal(&t.S, it, ro.errs))
		c.Ob("producer", name+" channels", r.chans[links] != nil && r.chans[errs] != nil, at, t, "%s returns an iterator without channels of its own", name)
		c.Ob("producer", name+" start", t.IsNil(in.fieldVal(&t.S, it, ro.err)), at, t, "%s returns an iterator with an error set", name)
		var gs, cbs []*gor
		for _, g := range r.gors {
			if g.parent == nil {
				continue
			}
			if g.cb {
				cbs = append(cbs, g)
			} else {
				gs = append(gs, g)
			}
		}
		isSend := func(e *Event, ch *Term) bool {
			return (e.Kind == "send" || e.Kind == "select" && e.Name == "send") && same(e.Addr, ch)
		}
		c.Ob("producer", name+" runs", len(gs) > 0, at, t, "nothing feeds the iterator of %s", name)
		for _, g := range gs {
			for _, gt := range g.ts {
				if gt.Outcome != "return" {
					continue
				}
				gi := gt.In
				var list, mk *Event
				var listRes *Term
				var sent []*Event
				closedL, closedE := false, false
				for _, e := range gt.Events {
					switch {
					case e.Kind == "call" && e.Name == "uio.NewDirectoryFromNode":
						mk = e
					case e.Kind == "call" && (e.Name == "uio.Directory.ForEachLink" || e.Name == "uio.DynamicDirectory.ForEachLink"):
						list = e
					case e.Kind == "cbreturn" && list != nil && e.Instr == list.Instr:
						listRes = e.Res
					case isSend(e, errs):
						sent = append(sent, e)
					case e.Kind == "close" && same(e.Addr, links):
						closedL = true
					case e.Kind == "close" && same(e.Addr, errs):
						closedE = true
					}
				}
				// the directory listed is the one viewed
				if mk != nil {
					c.Ob("producer", name+" directory", v.viewed(gi, mk, t.Args[0]), gt.pos(mk), gt, "%s lists another directory than the one viewed", g.name)
				}
				if list != nil && mk != nil {
					c.Ob("producer", name+" directory", same(list.Args[0].peel(), gi.resOf(mk, 0)), gt.pos(list), gt, "%s lists another directory than the one it opened", g.name)
				} else if list != nil {
					x := list.Args[0].peel() // the directory held by the view
					c.Ob("producer", name+" directory", x.Op == "load" && same(x.Args[0].Args[0], t.Args[0]), gt.pos(list), gt, "%s lists another directory than the one viewed", g.name)
				}
				// the outcome
				var res *Term
				switch {
				case listRes != nil:
					res = listRes
				case list != nil:
					res = gi.errOf(list)
				case mk != nil && gt.NonNil(gi.errOf(mk)):
					res = gi.errOf(mk)
				}
				okRes := len(sent) == 1 && res != nil && same(sent[0].Val, res)
				if res != nil && gt.IsNil(res) {
					okRes = len(sent) == 0 && closedE || len(sent) == 1 && gt.IsNil(sent[0].Val)
				} else if res != nil && len(sent) == 1 && gt.NonNil(sent[0].Val) && gt.NonNil(res) {
					okRes = true
				}
				c.Ob("producer", name+" result", okRes, at, gt, "%s ends without passing on the outcome of the listing", g.name)
				c.Ob("producer", name+" end", closedL && (closedE || len(sent) > 0), at, gt, "%s ends without telling the iterator", g.name)
			}
		}
		for _, g := range cbs {
			for _, ct := range g.ts {
				if len(ct.Args) == 1 && ct.IsNil(ct.Args[0]) {
					continue
				}
				if ct.Outcome != "return" || len(ct.Args) != 1 || types.TypeString(ct.Args[0].Typ, shortQual) != "*ipld.Link" {
					continue
				}
				var sent []*Event
				for _, e := range ct.Events {
					if isSend(e, links) {
						sent = append(sent, e)
					}
				}
				if ct.Failed() {
					continue
				}
				ok := len(sent) == 1 && ct.In.sameLink(sent[0], ct.Args[0])
				c.Ob("producer", name+" entry", ok, at, ct, "the producer of %s goes on without having delivered an entry", name)
				c.Ob("producer", name+" entry result", ct.IsNil(ct.Rets[0]), at, ct, "the producer of %s may fail for an entry it delivered", name)
			}
		}
		c.Ob("producer", name+" callback", len(cbs) > 0, at, t, "the producer of %s has no entry callback", name)
	}
}

// sameLink: the value sent is the link, or a copy of it.
func (in *Interp) sameLink(e *Event, l *Term) bool {
	x := e.Val.peel()
	if same(x, l.peel()) {
		return true
	}
	if types.TypeString(x.Typ, shortQual) != "*ipld.Link" {
		return false
	}
	for _, f := range []string{"Name", "Size", "Cid"} {
		a, b := in.fieldVal(&e.S, x, f), in.fieldVal(&e.S, l, f)
		if !same(a, b) {
			return false
		}
	}
	return true
}

// viewed: the directory is made from the node and service of the view.
func (v *view) viewed(in *Interp, mk *Event, recv *Term) bool {
	for _, a := range mk.Args {
		for a.Op == "call" && a.Sym == "Copy" || a.Op == "assert" || a.Op == "convert" || a.Op == "makeinterface" {
			a = a.Args[0]
		}
		a = a.peel()
		if !(a.Op == "load" && a.Args[0].Op == "fieldaddr" && same(a.Args[0].Args[0].peel(), recv.peel())) {
			return false
		}
	}
	return true
}

// unconv strips conversions of values.
func unconv(x *Term) *Term {
	for x = stripConv(x); x != nil && strings.HasPrefix(x.Op, "conv") && len(x.Args) == 1; {
		x = stripConv(x.Args[0])
	}
	return x
}
