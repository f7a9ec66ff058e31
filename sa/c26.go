package main

import (
	"go/types"
)

func init() {
	rules["C26"] = ruleDef{ruleC26}
	rules["C24"] = ruleDef{ruleC24}
	rules["C09"] = ruleDef{ruleC09}
}

// ruleC26: per-type size and directory tests.
func ruleC26(c *Checker) {
	c.explain = "Exhaustive case analysis over the UnixFS node types: on every abstract path of DataSize, FSNode.FileSize and FSNode.IsDir (helpers inlined), the set of node types the path condition leaves possible is computed, and for each of them the returned value term and error must be the one the property prescribes."
	check := func(name string, viaDecode bool) {
		fn := c.Fn(name)
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				c.Ob("size-by-type", name+" panics", false, t.pos(nil), t, "%s panics", name)
				return
			}
			in := t.In
			var obj *Term
			if viaDecode {
				ds := t.decodes()
				if len(ds) == 0 {
					c.Ob("size-by-type", name+" decodes", false, t.pos(nil), t, "%s returns without decoding its argument", name)
					return
				}
				if !t.IsNil(ds[0].err) {
					return // C01
				}
				c.Ob("size-by-type", name+" decodes its argument", same(ds[0].bytes, t.Args[0]), t.pos(ds[0].e), t, "%s decodes something other than its argument", name)
				obj = ds[0].obj
			} else {
				obj = c.formatAddr(in, t.Args[0])
			}
			poss := c.typesPossible(in, &t.S, obj)
			for ty := range poss {
				cons := name + "/" + ty
				switch ty {
				case "File", "Raw":
					ok := (!viaDecode || t.IsNil(t.Rets[1])) && in.eqKnown(&t.S, t.Rets[0], in.pbField(&t.S, obj, "Filesize"))
					c.Ob("size-by-type", cons, ok, t.pos(nil), t, "for a %s node %s returns %s instead of the declared file size", ty, name, short(t.Rets))
				case "Symlink":
					ok := (!viaDecode || t.IsNil(t.Rets[1])) && linEqual(t.Rets[0], in.lenOf(in.pbField(&t.S, obj, "Data")))
					c.Ob("size-by-type", cons, ok, t.pos(nil), t, "for a symlink %s returns %s instead of the length of its target", name, short(t.Rets))
				default:
					if viaDecode {
						c.Ob("size-by-type", cons, t.NonNil(t.Rets[1]), t.pos(nil), t, "for a node of type %s %s returns no error", ty, name)
					} else {
						n, ok := t.Rets[0].Int()
						c.Ob("size-by-type", cons, ok && n == 0, t.pos(nil), t, "for a node of type %s %s returns %s instead of zero", ty, name, short(t.Rets))
					}
				}
			}
		})
	}
	check("unixfs.DataSize", true)
	check("unixfs.FSNode.FileSize", false)
	c.Run(c.Fn("unixfs.FSNode.IsDir"), Config{}, func(t *Trace) {
		in := t.In
		obj := c.formatAddr(in, t.Args[0])
		for ty := range c.typesPossible(in, &t.S, obj) {
			want := ty == "Directory" || ty == "HAMTShard"
			b, known := in.decide(&t.S, t.Rets[0])
			if !known && !t.Rets[0].isConst() {
				// `return T == a || ...`: decide under the type
				s := t.S
				if ty != "unknown" {
					T := in.pbField(&s, obj, "Type")
					in.assume(&s, in.eq(T, in.TS.constant(intConst(c.pbType(ty)), T.Typ)), true)
					b, known = in.decide(&s, t.Rets[0])
				} else if t.Rets[0].Op == "eq" {
					b, known = false, true
				}
			}
			c.Ob("isdir-by-type", "unixfs.FSNode.IsDir/"+ty, known && b == want, t.pos(nil), t, "IsDir gives %s for type %s", short(t.Rets), ty)
		}
	})
	c.Min("size-by-type", 7)
	c.Min("isdir-by-type", 3)
}

// ruleC24: path segment resolution.
func ruleC24(c *Checker) {
	c.explain = "Path-sensitive value tracking through ResolveUnixfsOnce (decoders inlined, hamt API opaque): every path that can succeed is either the sharded case — node decoded and known to be of the sharded type, shard loaded from that node through a read-only DAG service, Find called with the first name, its link and names[1:] returned — or a plain delegation to the node's own ResolveLink with the unchanged names; a sharded node never reaches the delegation, and an empty path never reaches a lookup. Shard.Find itself is checked to return an error whenever it has no entry."
	fn := c.Fn("uio.ResolveUnixfsOnce")
	if fn == nil {
		return
	}
	hamtK := c.pbType("HAMTShard")
	c.Run(fn, Config{Stop: stopNames("hamt.NewHamtFromDag", "hamt.Shard.Find", "hamt.Shard.Set"), Arith: true}, func(t *Trace) {
		in := t.In
		ds, nd, names := t.Args[1], t.Args[2], t.Args[3]
		if t.Outcome != "return" {
			return
		}
		sharded := false // known to be a decoded sharded directory
		maybe := false
		for _, d := range t.decodes() {
			if t.IsNil(d.err) {
				p := c.typesPossible(in, &t.S, d.obj)
				if p["HAMTShard"] {
					maybe = true
					if len(p) == 1 {
						sharded = true
					}
				}
			}
		}
		_ = hamtK
		finds := t.calls("hamt.Shard.Find")
		res := t.calls("ipld.Resolver.ResolveLink", "ipld.Node.ResolveLink", "dag.ProtoNode.ResolveLink")
		if t.Failed() {
			c.Ob("no-link-on-error", "uio.ResolveUnixfsOnce", t.Rets[0].isNil() || len(res) > 0 || t.IsNil(t.Rets[0]), t.pos(nil), t, "a failing resolution returns link %s", short(t.Rets[0]))
			// an error needs a cause: a failed call, or an empty path
			cause := len(finds) == 0 && in.holds(&t.S, in.eq(in.lenOf(names), in.TS.integer(0)))
			for _, e := range t.Events {
				if e.Kind == "call" && e.Name != "errors.New" && e.Name != "fmt.Errorf" {
					if x := in.errOf(e); x != nil && t.NonNil(x) {
						cause = true
					}
				}
			}
			c.Ob("fails-for-a-reason", "uio.ResolveUnixfsOnce", cause, t.pos(nil), t, "resolution fails although no step failed and the path is not empty")
			return
		}
		if len(finds) > 0 {
			f := finds[0]
			c.Ob("one-lookup", "uio.ResolveUnixfsOnce", len(finds) == 1, t.pos(f), t, "more than one lookup for one path segment")
			c.Ob("sharded-only", "uio.ResolveUnixfsOnce", sharded, t.pos(f), t, "the shard lookup is reached without the node being known to be a sharded directory")
			load := f.Args[0]
			okLoad := false
			if load.Op == "extract" && load.Args[0].Op == "call" && load.Args[0].Sym == "hamt.NewHamtFromDag" {
				a := load.Args[0].Args
				okLoad = same(a[1], nd)
				ro := a[0].Op == "pure" && a[0].Sym == "dag.NewReadOnlyDagService" && a[0].contains(ds)
				c.Ob("read-only", "uio.ResolveUnixfsOnce", ro, t.pos(f), t, "the shard is loaded through %s, not a read-only DAG service over the caller's getter", short(a[0]))
			}
			c.Ob("right-shard", "uio.ResolveUnixfsOnce", okLoad, t.pos(f), t, "the shard searched is %s, not the one loaded from the node", short(load))
			first := in.load(&t.S, in.indexAddr(names, in.TS.integer(0), types.NewPointer(types.Typ[types.String])), types.Typ[types.String])
			c.Ob("first-name", "uio.ResolveUnixfsOnce", same(f.Args[2], first), t.pos(f), t, "the name looked up is %s, not the first one", short(f.Args[2]))
			c.Ob("link-returned", "uio.ResolveUnixfsOnce", same(t.Rets[0], in.resOf(f, 0)), t.pos(f), t, "the link returned is %s, not the one found", short(t.Rets[0]))
			rest := in.slice(names, in.TS.integer(1), nil, names.Typ)
			c.Ob("rest-unchanged", "uio.ResolveUnixfsOnce", same(t.Rets[1], rest), t.pos(f), t, "the remaining names are %s, not names[1:]", short(t.Rets[1]))
			c.Ob("non-empty", "uio.ResolveUnixfsOnce", in.Prove(&f.S, in.TS.integer(1), "<=", in.lenOf(names)), t.pos(f), t, "the lookup is reached with a possibly empty path")
			return
		}
		ok := len(res) > 0
		c.Ob("delegates", "uio.ResolveUnixfsOnce", ok, t.pos(nil), t, "resolution succeeds without a lookup or the node's own ResolveLink")
		if !ok {
			return
		}
		e := res[len(res)-1]
		c.Ob("delegates-unchanged", "uio.ResolveUnixfsOnce", same(e.Args[0], nd) && same(e.Args[1], names) && same(t.Rets[0], in.resOf(e, 0)) && same(t.Rets[1], in.resOf(e, 1)), t.pos(e), t, "delegation changes the node, the names or the results")
		c.Ob("sharded-not-delegated", "uio.ResolveUnixfsOnce", !maybe, t.pos(e), t, "a sharded directory can be resolved by the plain ResolveLink")
	})
	c.Min("first-name", 1)
	c.Min("delegates-unchanged", 1)
	c.Min("non-empty", 1)
	// Shard.Find: no success without the value it found
	c.Run(c.Fn("hamt.Shard.Find"), Config{Stop: stopNames("hamt.childer.get")}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		if t.Failed() {
			c.Ob("find-missing-no-link", "hamt.Shard.Find", t.IsNil(t.Rets[0]), t.pos(nil), t, "Find fails but returns a link")
			return
		}
		c.Ob("find-success-has-link", "hamt.Shard.Find", !t.Rets[0].isNil(), t.pos(nil), t, "Find reports success with a nil link")
		_ = in
	})
}

// ruleC09: what may be opened and read.
func ruleC09(c *Checker) {
	c.explain = "Typestate of the node opened or read: on every abstract path of NewDagReader and ReadUnixFSNodeData (decoders inlined) the set of node kinds and UnixFS types the path condition leaves possible is computed; a success exit needs a raw block or a decoded message whose type can only be file or raw (metadata only through its first child), directories and symlinks need their dedicated errors. Every buffer a dagReader installs must hold data extracted this way."
	c.Run(c.Fn("uio.NewDagReader"), Config{}, func(t *Trace) {
		if t.Outcome != "return" {
			return
		}
		in := t.In
		nd := t.Args[1]
		raw := in.nodeIs(&t.S, nd, "*dag.RawNode")
		proto := in.nodeIs(&t.S, nd, "*dag.ProtoNode")
		var dec *decode
		for _, d := range t.decodes() {
			d := d
			if d.bytes.Op == "pure" && d.bytes.Sym == "Data" && same(d.bytes.Args[0], nd) {
				dec = &d
			}
		}
		var poss map[string]bool
		if dec != nil && t.IsNil(dec.err) {
			poss = c.typesPossible(in, &t.S, dec.obj)
		}
		name := "uio.NewDagReader"
		if proto && poss != nil && !t.Failed() && poss["Metadata"] && len(poss) == 1 {
			// through its first child
			re := t.calls("uio.NewDagReader")
			ok := false
			if len(re) == 1 {
				child := re[0].Args[1]
				if child.Op == "extract" && child.Args[0].Op == "call" && child.Args[0].Sym == "ipld.Link.GetNode" {
					l := child.Args[0].Args[0]
					ok = firstElem(l, nd)
				}
				ok = ok && t.Rets[0] == in.resOf(re[0], 0) && same(re[0].Args[2], t.Args[2])
			}
			c.Ob("metadata-first-child", name, ok, t.pos(nil), t, "a metadata node is not opened as its first child")
			return
		}
		if t.Failed() {
			e := t.ErrRet()
			if k, ok := t.S.eqv.get(e.UID); ok {
				e = k
			}
			if proto && poss != nil && len(poss) > 0 {
				if subset(poss, "Directory", "HAMTShard") {
					c.Ob("dedicated-error", name+"/directory", e.Op == "sentinel" && e.Sym == "uio.ErrIsDir", t.pos(nil), t, "opening a directory fails with %s, not ErrIsDir", short(e))
				} else if subset(poss, "Symlink") {
					c.Ob("dedicated-error", name+"/symlink", e.Op == "sentinel" && e.Sym == "uio.ErrCantReadSymlinks", t.pos(nil), t, "opening a symlink fails with %s, not ErrCantReadSymlinks", short(e))
				} else if subset(poss, "File", "Raw") {
					c.Ob("file-accepted", name, callFailed(t), t.pos(nil), t, "a file or raw node is refused")
				} else if !callFailed(t) {
					mixed := ""
					for _, k := range []string{"Directory", "File", "HAMTShard", "Raw", "Symlink"} {
						if poss[k] {
							mixed = k
						}
					}
					c.Ob("refused-by-type", name, mixed == "", t.pos(nil), t, "a %s node may be refused together with other types (%s), by %s", mixed, keys(poss), short(e))
				}
			}
			if raw {
				c.Ob("file-accepted", name, callFailed(t), t.pos(nil), t, "a raw block is refused")
			}
			return
		}
		ok := raw || proto && poss != nil && len(poss) > 0 && subset(poss, "File", "Raw")
		what := "a node that is neither raw nor protobuf"
		if proto {
			what = "types " + keys(poss)
		}
		if !c.Ob("opens-only-files", name, ok, t.pos(nil), t, "a reader can be opened on %s", what) {
			return
		}
		r := t.Rets[0]
		// the reader refers to this node and declares its size
		sizeF := c.fieldName("uio", "dagReader", "uint64", "size")
		rootF := c.fieldName("uio", "dagReader", "ipld.Node", "rootNode")
		sz := in.fieldVal(&t.S, r, sizeF)
		rt := in.fieldVal(&t.S, r, rootF)
		if sz == nil || rt == nil {
			c.Ob("reader-size", name, false, t.pos(nil), t, "the reader returned has no size or root node: %s", short(r))
			return
		}
		want := in.TS.nil_()
		if raw {
			want = in.lenOf(in.TS.mk("pure", "RawData", nil, nd, in.TS.integer(0)))
			c.Ob("reader-size", name+"/raw", linEqual(sz, want), t.pos(nil), t, "the reader of a raw block has size %s", short(sz))
		} else {
			want = in.pbField(&t.S, dec.obj, "Filesize")
			c.Ob("reader-size", name+"/proto", same(sz, want), t.pos(nil), t, "the reader of a file node has size %s, not the declared file size", short(sz))
		}
		c.Ob("reader-root", name, same(rt, nd), t.pos(nil), t, "the reader's root is %s, not the node opened", short(rt))
	})
	c.Min("opens-only-files", 1)
	c.Min("dedicated-error", 2)
	c.Min("reader-size", 2)
	c.Min("metadata-first-child", 1)

	// Size methods
	c.Run(c.Fn("uio.dagReader.Size"), Config{}, func(t *Trace) {
		sizeF := c.fieldName("uio", "dagReader", "uint64", "size")
		c.Ob("size-method", "uio.dagReader.Size", same(t.Rets[0], t.In.fieldVal(&t.S, t.Args[0], sizeF)), t.pos(nil), t, "Size returns %s", short(t.Rets))
	})
	c.Run(c.Fn("unixfile.ufsFile.Size"), Config{}, func(t *Trace) {
		cs := t.calls("uio.DagReader.Size")
		ok := len(cs) == 1 && linEqual(t.Rets[0], cs[0].Res) && t.IsNil(t.Rets[1])
		c.Ob("size-method", "unixfile.ufsFile.Size", ok, t.pos(nil), t, "Size returns %s", short(t.Rets))
	})

	// data extraction
	c.Run(c.Fn("unixfs.ReadUnixFSNodeData"), Config{}, func(t *Trace) {
		if t.Outcome != "return" || t.Failed() {
			return
		}
		ok, why := c.fileData(t.In, &t.S, t, t.Rets[0], t.Args[0])
		c.Ob("data-only-from-files", "unixfs.ReadUnixFSNodeData", ok, t.pos(nil), t, "%s", why)
	})
	// what the reader hands out
	bufF := c.fieldName("uio", "dagReader", "*bytes.Reader", "currentNodeData")
	for _, n := range []string{"uio.dagReader.CtxReadFull", "uio.dagReader.WriteTo", "uio.dagReader.Seek"} {
		n := n
		c.Run(c.Fn(n), Config{}, func(t *Trace) {
			for _, e := range t.Events {
				if e.Kind == "store" && e.Addr.Op == "fieldaddr" && e.Addr.Sym == bufF && !e.Val.isNil() {
					ok, why := false, "the reader installs a buffer of unknown origin"
					if e.Val.Op == "call" && e.Val.Sym == "bytes.NewReader" {
						ok, why = c.fileData(t.In, &e.S, t, e.Val.Args[0], nil)
					}
					c.Ob("reader-data-only-from-files", n, ok, t.pos(e), t, "%s", why)
				}
			}
		})
	}
	c.Min("data-only-from-files", 1)
	c.Min("reader-data-only-from-files", 1)
}

func firstElem(l, nd *Term) bool {
	// load of &Links(nd)[0]
	if l.Op != "load" || l.Args[0].Op != "indexaddr" {
		return false
	}
	ia := l.Args[0]
	n, ok := ia.Args[1].Int()
	return ok && n == 0 && ia.Args[0].Op == "pure" && ia.Args[0].Sym == "Links" && same(ia.Args[0].Args[0], nd)
}

// callFailed: some call on the trace is known to have failed.
func callFailed(t *Trace) bool {
	for _, e := range t.Events {
		if e.Kind == "call" && e.Name != "errors.New" && e.Name != "fmt.Errorf" {
			if x := t.In.errOf(e); x != nil && t.NonNil(x) {
				return true
			}
		}
	}
	return false
}

// fileData: x is the file content of a node (node, if given) known at s to be
// a raw block or a decoded file or raw message.
func (c *Checker) fileData(in *Interp, s *snap, t *Trace, x, node *Term) (bool, string) {
	if x.Op == "pure" && x.Sym == "RawData" {
		n := x.Args[0]
		if !in.nodeIs(s, n, "*dag.RawNode") {
			return false, "the encoded block of a node not known to be raw is taken as data"
		}
		if node != nil && !same(n, node) {
			return false, "data of another node"
		}
		return true, ""
	}
	for _, d := range t.decodes() {
		if !same(in.pbField(s, d.obj, "Data"), x) {
			continue
		}
		if n, k := in.isNilKnown(s, d.err); !k || !n {
			return false, "data of a message whose decoding was not checked"
		}
		if node != nil && !(d.bytes.Op == "pure" && d.bytes.Sym == "Data" && same(d.bytes.Args[0], node)) {
			return false, "data of another node"
		}
		p := c.typesPossible(in, s, d.obj)
		if len(p) == 0 || !subset(p, "File", "Raw") {
			return false, "data of a node that may be of type " + keys(p) + " is accepted as file content"
		}
		return true, ""
	}
	return false, "data of unknown origin: " + short(x)
}
