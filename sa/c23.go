package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C23"] = ruleDef{ruleC23} }

type marshal struct {
	e   *Event
	obj *Term
	msg string // Data, Metadata
}

// marshals lists the encodings of UnixFS messages on a trace.
func (t *Trace) marshals() []marshal {
	var out []marshal
	for _, e := range t.Events {
		if e.Kind != "call" || !(strings.HasSuffix(e.Name, ".Marshal") || strings.HasSuffix(e.Name, ".XXX_Marshal")) {
			continue
		}
		for _, a := range e.Args {
			if a.Typ == nil {
				continue
			}
			if n, ok := types.Unalias(deref(a.Typ)).(*types.Named); ok && n.Obj().Pkg() != nil && shortPkg(n.Obj().Pkg().Path()) == "pb" {
				out = append(out, marshal{e, a, n.Obj().Name()})
				break
			}
		}
	}
	return out
}

// encSpec says what an encoder stores. A nil function means: not set.
type encSpec struct {
	typ    string
	fields map[string]func(t *Trace) *Term
	node   bool // result is a node around the bytes
}

func arg(n int) func(*Trace) *Term { return func(t *Trace) *Term { return t.Args[n] } }
func lenArg(n int) func(*Trace) *Term {
	return func(t *Trace) *Term { return t.In.lenOf(t.Args[n]) }
}

func zeroU(t *Trace) *Term { return t.In.TS.constant(intConst(0), types.Typ[types.Uint64]) }
func nilT(t *Trace) *Term  { return t.In.TS.nil_() }

func ruleC23(c *Checker) {
	c.explain = "Value tracking through every UnixFS encoder (helpers inlined) to the protobuf Marshal call: the abstract contents of the message encoded there are compared field by field with the encoder's table entry (type, content, size, fan-out, hash; everything else unset), and the bytes returned must be that call's result. Decoders and accessors are checked to return the named field of the message decoded from their argument; getters to return the field or the zero value. The schema file is parsed and compared with the generated types' struct tags, enum constants and name tables."
	enc := map[string]encSpec{
		"unixfs.FilePBData":    {typ: "File", fields: map[string]func(*Trace) *Term{"Data": arg(0), "Filesize": arg(1)}},
		"unixfs.FolderPBData":  {typ: "Directory", fields: map[string]func(*Trace) *Term{}},
		"unixfs.WrapData":      {typ: "Raw", fields: map[string]func(*Trace) *Term{"Data": arg(0), "Filesize": lenArg(0)}},
		"unixfs.SymlinkData":   {typ: "Symlink", fields: map[string]func(*Trace) *Term{"Data": arg(0)}},
		"unixfs.HAMTShardData": {typ: "HAMTShard", fields: map[string]func(*Trace) *Term{"Data": arg(0), "Fanout": arg(1), "HashType": arg(2)}},
		"unixfs.EmptyDirNode":  {typ: "Directory", node: true, fields: map[string]func(*Trace) *Term{}},
		"unixfs.EmptyFileNode": {typ: "File", node: true, fields: map[string]func(*Trace) *Term{"Data": nilT, "Filesize": zeroU}},
	}
	all := []string{"Data", "Filesize", "Blocksizes", "HashType", "Fanout"}
	for name, sp := range enc {
		name, sp := name, sp
		c.Run(c.Fn(name), Config{}, func(t *Trace) {
			in := t.In
			if t.Failed() {
				return
			}
			ms := t.marshals()
			if !c.Ob("encodes", name, len(ms) == 1 && ms[0].msg == "Data", t.pos(nil), t, "%s succeeds with %d encodings of a UnixFS message", name, len(ms)) {
				return
			}
			m := ms[0]
			s := &m.e.S
			T := in.pbField(s, m.obj, "Type")
			n, ok := T.Int()
			c.Ob("type", name, ok && n == c.pbType(sp.typ) && !in.pbRaw(s, m.obj, "Type").isNil(), t.pos(m.e), t, "%s encodes type %s, not %s", name, short(T), sp.typ)
			for _, f := range all {
				v := in.pbField(s, m.obj, f)
				if w, set := sp.fields[f]; set {
					want := w(t)
					ok := same(v, want) || in.eqKnown(s, v, want) || v.Op == "conv" && same(v.Args[0], want)
					if f == "Filesize" {
						ok = (same(v, want) || linEqual(v, want)) && (!in.pbRaw(s, m.obj, f).isNil())
					}
					c.Ob("content", name+"/"+f, ok, t.pos(m.e), t, "%s encodes %s as field %s instead of %s", name, short(v), f, short(want))
				} else {
					raw := in.pbRaw(s, m.obj, f)
					c.Ob("unset", name+"/"+f, raw.isNil() || raw.Op == "lit" && len(raw.Args) == 0, t.pos(m.e), t, "%s sets field %s to %s, which its type does not carry", name, f, short(v))
				}
			}
			res := in.resOf(m.e, 0)
			if sp.node {
				c.Ob("returns-encoding", name, t.Rets[0].Op == "call" && t.Rets[0].Sym == "dag.NodeWithData" && same(t.Rets[0].Args[0], res), t.pos(nil), t, "%s returns %s, not a node holding the encoding", name, short(t.Rets[0]))
			} else {
				c.Ob("returns-encoding", name, same(t.Rets[0], res), t.pos(nil), t, "%s returns %s, not the encoding", name, short(t.Rets[0]))
			}
		})
	}
	// FSNode: created with its type and a declared size; encoded as it is
	c.Run(c.Fn("unixfs.NewFSNode"), Config{}, func(t *Trace) {
		in := t.In
		if t.Outcome != "return" {
			return
		}
		obj := c.formatAddr(in, t.Rets[0])
		v := in.pbField(&t.S, obj, "Type")
		c.Ob("type", "unixfs.NewFSNode", same(v, t.Args[0]), t.pos(nil), t, "NewFSNode sets type %s", short(v))
		fs := in.pbField(&t.S, obj, "Filesize")
		n, ok := fs.Int()
		c.Ob("content", "unixfs.NewFSNode/Filesize", ok && n == 0 && !in.pbRaw(&t.S, obj, "Filesize").isNil(), t.pos(nil), t, "a new node declares size %s", short(fs))
		for _, f := range []string{"Data", "Blocksizes", "HashType", "Fanout"} {
			c.Ob("unset", "unixfs.NewFSNode/"+f, in.pbRaw(&t.S, obj, f).isNil(), t.pos(nil), t, "a new node sets %s", f)
		}
	})
	c.Run(c.Fn("unixfs.FSNode.GetBytes"), Config{}, func(t *Trace) {
		in := t.In
		ms := t.marshals()
		if t.Failed() {
			return
		}
		ok := len(ms) == 1 && same(ms[0].obj, c.formatAddr(in, t.Args[0])) && same(t.Rets[0], in.resOf(ms[0].e, 0))
		c.Ob("returns-encoding", "unixfs.FSNode.GetBytes", ok, t.pos(nil), t, "GetBytes does not return the encoding of the node itself")
		for _, e := range t.Events {
			if e.Kind == "store" && baseOf(e.Addr) == t.Args[0] {
				c.Ob("encodes-unchanged", "unixfs.FSNode.GetBytes", false, t.pos(e), t, "encoding changes field %s", short(e.Addr))
			}
		}
	})
	// metadata
	c.Run(c.Fn("unixfs.Metadata.Bytes"), Config{}, func(t *Trace) {
		if t.Failed() {
			return
		}
		c.metaEnc(t, "unixfs.Metadata.Bytes", t.Args[0], t.Rets[0])
	})
	c.Run(c.Fn("unixfs.BytesForMetadata"), Config{}, func(t *Trace) {
		if t.Failed() {
			return
		}
		in := t.In
		name := "unixfs.BytesForMetadata"
		ms := t.marshals()
		var m *marshal
		for i := range ms {
			if ms[i].msg == "Data" {
				m = &ms[i]
			}
		}
		if !c.Ob("encodes", name, m != nil && len(ms) == 2, t.pos(nil), t, "BytesForMetadata does not encode the metadata inside a UnixFS message") {
			return
		}
		s := &m.e.S
		n, ok := in.pbField(s, m.obj, "Type").Int()
		c.Ob("type", name, ok && n == c.pbType("Metadata"), t.pos(m.e), t, "metadata is encoded with type %s", short(in.pbField(s, m.obj, "Type")))
		sz := in.pbField(s, m.obj, "Filesize")
		c.Ob("content", name+"/Filesize", same(sz, in.fieldVal(&snap{}, t.Args[0], "Size")), t.pos(m.e), t, "metadata is encoded with size %s", short(sz))
		c.metaEnc(t, name, t.Args[0], in.pbField(s, m.obj, "Data"))
		c.Ob("returns-encoding", name, same(t.Rets[0], in.resOf(m.e, 0)), t.pos(nil), t, "BytesForMetadata returns %s", short(t.Rets[0]))
	})
	c.Run(c.Fn("unixfs.MetadataFromBytes"), Config{}, func(t *Trace) {
		if t.Failed() || t.Outcome != "return" {
			return
		}
		in := t.In
		name := "unixfs.MetadataFromBytes"
		ds := t.decodes()
		ok := len(ds) == 2 && same(ds[0].bytes, t.Args[0])
		if !c.Ob("decodes", name, ok, t.pos(nil), t, "MetadataFromBytes does not decode its argument and the metadata inside it") {
			return
		}
		inner := in.pbField(&ds[0].e.S, ds[0].obj, "Data")
		c.Ob("decodes-inner", name, same(ds[1].bytes, inner) || same(ds[1].bytes, in.pbField(&t.S, ds[0].obj, "Data")), t.pos(ds[1].e), t, "the metadata decoded is %s, not the message's data", short(ds[1].bytes))
		p := c.typesPossible(in, &t.S, ds[0].obj)
		c.Ob("decodes-type", name, subset(p, "Metadata"), t.pos(nil), t, "a message of type %s is accepted as metadata", keys(p))
		r := t.Rets[0]
		c.Ob("decoded-field", name+"/MimeType", same(in.fieldVal(&t.S, r, "MimeType"), in.pbField(&t.S, ds[1].obj, "MimeType")), t.pos(nil), t, "the MIME type read back is %s", short(in.fieldVal(&t.S, r, "MimeType")))
		c.Ob("decoded-field", name+"/Size", same(in.fieldVal(&t.S, r, "Size"), in.pbField(&t.S, ds[0].obj, "Filesize")), t.pos(nil), t, "the size read back is %s", short(in.fieldVal(&t.S, r, "Size")))
	})
	// decoders
	for _, name := range []string{"unixfs.FSNodeFromBytes", "unixfs.FromBytes", "unixfs.UnwrapData", "unixfs.ExtractFSNode"} {
		name := name
		c.Run(c.Fn(name), Config{}, func(t *Trace) {
			if t.Failed() || t.Outcome != "return" {
				return
			}
			in := t.In
			ds := t.decodes()
			src := t.Args[0]
			if name == "unixfs.ExtractFSNode" {
				src = in.TS.mk("pure", "Data", nil, t.Args[0])
			}
			if !c.Ob("decodes", name, len(ds) == 1 && same(ds[0].bytes, src), t.pos(nil), t, "%s does not decode its argument", name) {
				return
			}
			ok := false
			switch name {
			case "unixfs.FromBytes":
				ok = same(t.Rets[0], ds[0].obj)
			case "unixfs.UnwrapData":
				ok = same(t.Rets[0], in.pbField(&t.S, ds[0].obj, "Data"))
			default:
				ok = same(c.formatAddr(in, t.Rets[0]), ds[0].obj)
				if !ok { // decoded elsewhere and copied over field by field
					ok = true
					for _, f := range append([]string{"Type"}, all...) {
						if in.pbRaw(&t.S, c.formatAddr(in, t.Rets[0]), f) != in.pbRaw(&t.S, ds[0].obj, f) {
							ok = false
						}
					}
				}
			}
			c.Ob("returns-decoded", name, ok, t.pos(nil), t, "%s returns %s, not what it decoded", name, short(t.Rets[0]))
		})
	}
	// accessors
	acc := map[string]string{"HashType": "HashType", "Fanout": "Fanout", "BlockSizes": "Blocksizes", "Data": "Data", "Type": "Type"}
	for m, f := range acc {
		name := "unixfs.FSNode." + m
		f := f
		c.Run(c.Fn(name), Config{}, func(t *Trace) {
			want := t.In.pbField(&snap{}, c.formatAddr(t.In, t.Args[0]), f)
			c.Ob("accessor", name, t.Outcome == "return" && same(t.Rets[0], want), t.pos(nil), t, "%s returns %s instead of field %s", name, short(t.Rets), f)
		})
	}
	c.Run(c.Fn("unixfs.FSNode.NumChildren"), Config{}, func(t *Trace) {
		want := t.In.lenOf(t.In.pbField(&snap{}, c.formatAddr(t.In, t.Args[0]), "Blocksizes"))
		c.Ob("accessor", "unixfs.FSNode.NumChildren", same(t.Rets[0], want), t.pos(nil), t, "NumChildren returns %s", short(t.Rets))
	})
	c.Run(c.Fn("unixfs.FSNode.BlockSize"), Config{}, func(t *Trace) {
		in := t.In
		if t.Outcome != "return" {
			return
		}
		u := types.Typ[types.Uint64]
		want := in.load(&snap{}, in.indexAddr(in.pbField(&snap{}, c.formatAddr(in, t.Args[0]), "Blocksizes"), t.Args[1], types.NewPointer(u)), u)
		c.Ob("accessor", "unixfs.FSNode.BlockSize", same(t.Rets[0], want), t.pos(nil), t, "BlockSize returns %s", short(t.Rets))
	})
	// the sharded directory's own encoding
	c.Run(c.Fn("hamt.Shard.Node"), Config{Stop: stopNames("unixfs.HAMTShardData", "hamt.Shard.Link", "hamt.Shard.childLinkType"), MaxVisits: 2}, func(t *Trace) {
		if t.Failed() {
			return
		}
		in := t.In
		es := t.calls("unixfs.HAMTShardData")
		if !c.Ob("shard-encoding", "hamt.Shard.Node", len(es) == 1, t.pos(nil), t, "a shard is serialised without its UnixFS header") {
			return
		}
		a := es[0].Args
		sizeF := c.fieldName("hamt", "Shard", "?", "tableSize")
		c.Ob("shard-encoding", "hamt.Shard.Node/fanout", linEqual(a[1], in.fieldVal(before(t, es[0]), t.Args[0], sizeF)), t.pos(es[0]), t, "a shard is serialised with fan-out %s", short(a[1]))
		n, ok := a[2].Int()
		hf := in.fieldVal(before(t, es[0]), t.Args[0], "hashFunc")
		c.Ob("shard-encoding", "hamt.Shard.Node/hash", ok && n == c.hamtHash() || hf != nil && same(a[2], hf), t.pos(es[0]), t, "a shard is serialised with hash id %s", short(a[2]))
		c.Ob("shard-encoding", "hamt.Shard.Node/bitmap", a[0].Op == "pure" && strings.HasPrefix(a[0].Sym, "bitfield.Bitfield.Bytes"), t.pos(es[0]), t, "a shard is serialised with %s instead of its bitmap", short(a[0]))
		set := in.load(&t.S, in.TS.mk("fieldaddr", "$Data", nil, t.Rets[0]), nil)
		c.Ob("shard-encoding", "hamt.Shard.Node/stored", same(set, in.resOf(es[0], 0)), t.pos(nil), t, "the shard's node carries %s, not the encoded header", short(set))
	})
	c.getters()
	c.schema()
	c.Min("type", 9)
	c.Min("content", 11)
	c.Min("decoded-field", 2)
	c.Min("accessor", 3)
	c.Min("schema-field", 7)
	c.Min("schema-enum", 6)
	c.Min("getter", 3)
	c.Min("shard-encoding", 2)
}

func (c *Checker) hamtHash() int64 {
	sp := c.W.Pkg("hamt")
	if sp == nil {
		return -1
	}
	k, ok := sp.Pkg.Scope().Lookup("HashMurmur3").(*types.Const)
	if !ok {
		return -1
	}
	v, _ := constant.Int64Val(constant.ToInt(k.Val()))
	return v
}

// metaEnc: got is the encoding of the MIME type of the Metadata at ptr.
func (c *Checker) metaEnc(t *Trace, name string, ptr, got *Term) {
	in := t.In
	for _, m := range t.marshals() {
		if m.msg != "Metadata" {
			continue
		}
		v := in.pbField(&m.e.S, m.obj, "MimeType")
		want := in.fieldVal(&snap{}, ptr, "MimeType")
		ok := same(v, want)
		c.Ob("content", name+"/MimeType", ok, t.pos(m.e), t, "metadata is encoded with MIME type %s", short(v))
		c.Ob("returns-encoding", name+"/inner", same(got, in.resOf(m.e, 0)), t.pos(m.e), t, "the encoded metadata is dropped: %s", short(got))
		return
	}
	c.Ob("encodes", name+"/inner", false, t.pos(nil), t, "%s does not encode the metadata", name)
}

// getters: each generated getter returns its own field, or the zero value.
func (c *Checker) getters() {
	for _, fn := range c.W.Fns {
		if fn.Pkg == nil || fn.Synthetic != "" || shortPkg(fn.Pkg.Pkg.Path()) != "pb" || fn.Signature.Recv() == nil || !strings.HasPrefix(fn.Name(), "Get") {
			continue
		}
		fn := fn
		f := fn.Name()[3:]
		name := fnName(fn)
		c.Run(fn, Config{}, func(t *Trace) {
			if t.Outcome != "return" {
				c.Ob("getter", name, false, t.pos(nil), t, "%s panics", name)
				return
			}
			in, m := t.In, t.Args[0]
			raw := in.pbRaw(&t.S, m, f)
			isPtr := false
			if raw.Typ != nil {
				_, isPtr = raw.Typ.Underlying().(*types.Pointer)
			}
			if t.IsNil(m) || isPtr && t.IsNil(raw) {
				z := in.TS.zero(fn.Signature.Results().At(0).Type())
				okz := same(t.Rets[0], z) || t.Rets[0].CV != nil && z.CV != nil && constant.ToInt(t.Rets[0].CV).ExactString() == constant.ToInt(z.CV).ExactString()
				c.Ob("getter", name, okz, t.pos(nil), t, "%s returns %s for an unset field", name, short(t.Rets))
				return
			}
			want := raw
			if isPtr {
				want = in.load(&t.S, raw, fn.Signature.Results().At(0).Type())
			}
			c.Ob("getter", name, same(t.Rets[0], want), t.pos(nil), t, "%s returns %s instead of field %s", name, short(t.Rets), f)
		})
	}
}

var reField = regexp.MustCompile(`^(required|optional|repeated)\s+(\w+)\s+(\w+)\s*=\s*(\d+)\s*;`)
var reEnum = regexp.MustCompile(`^(\w+)\s*=\s*(\d+)\s*;`)

// schema compares the schema file with the generated Go types.
func (c *Checker) schema() {
	path := filepath.Join(c.W.Repo, "pb", "unixfs.proto")
	b, err := os.ReadFile(path)
	if err != nil {
		c.Ob("schema-file", "pb/unixfs.proto", false, "pb/unixfs.proto", nil, "the schema cannot be read: %v", err)
		return
	}
	var msg, enum string
	goTyp := map[string]string{"bytes": "[]byte", "uint64": "uint64", "string": "string", "int64": "int64", "bool": "bool", "uint32": "uint32", "int32": "int32"}
	wire := map[string]string{"bytes": "bytes", "string": "bytes"}
	enumVals := map[string]map[string]int64{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "message "):
			msg = strings.Fields(l)[1]
		case strings.HasPrefix(l, "enum "):
			enum = strings.Fields(l)[1]
			enumVals[msg+"_"+enum] = map[string]int64{}
		case l == "}":
			if enum != "" {
				enum = ""
			} else {
				msg = ""
			}
		}
		if m := reEnum.FindStringSubmatch(l); m != nil && enum != "" {
			n, _ := strconv.ParseInt(m[2], 10, 64)
			enumVals[msg+"_"+enum][m[1]] = n
			k, ok := c.W.Pkg("pb").Pkg.Scope().Lookup(msg + "_" + m[1]).(*types.Const)
			got := int64(-1)
			if ok {
				got, _ = constant.Int64Val(k.Val())
			}
			c.Ob("schema-enum", msg+"."+enum+"."+m[1], ok && got == n, "pb/unixfs.pb.go", nil, "type value %s is %d in the schema but %d in the generated code", m[1], n, got)
		}
		if m := reField.FindStringSubmatch(l); m != nil && msg != "" {
			label, typ, fname, num := m[1], m[2], m[3], m[4]
			cons := msg + "." + fname
			n := c.W.Named("pb", msg)
			if !c.Ob("schema-field", cons, n != nil, "pb/unixfs.pb.go", nil, "message %s has no generated type", msg) {
				continue
			}
			st := n.Underlying().(*types.Struct)
			found := false
			for i := 0; i < st.NumFields(); i++ {
				tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
				parts := strings.Split(tag, ",")
				if len(parts) < 4 || parts[3] != "name="+fname {
					continue
				}
				found = true
				w := wire[typ]
				if w == "" {
					w = "varint"
				}
				lab := map[string]string{"required": "req", "optional": "opt", "repeated": "rep"}[label]
				c.Ob("schema-field", cons, parts[0] == w && parts[1] == num && parts[2] == lab, "pb/unixfs.pb.go", nil, "field %s is %s/%s/%s in the schema but %q in the generated code", fname, w, num, lab, tag)
				ft := types.TypeString(st.Field(i).Type(), shortQual)
				want := goTyp[typ]
				if want == "" {
					want = "pb." + msg + "_" + typ
				}
				if label == "repeated" {
					want = "[]" + want
				} else if want != "[]byte" {
					want = "*" + want
				}
				c.Ob("schema-field", cons, ft == want, "pb/unixfs.pb.go", nil, "field %s has Go type %s, the schema says %s", fname, ft, want)
				c.Ob("schema-field", cons, strings.EqualFold(st.Field(i).Name(), fname), "pb/unixfs.pb.go", nil, "field %s is generated as %s", fname, st.Field(i).Name())
			}
			c.Ob("schema-field", cons, found, "pb/unixfs.pb.go", nil, "field %s of the schema is missing in the generated type", fname)
		}
	}
	// name tables
	for _, p := range c.W.Pkgs {
		if shortPkg(p.PkgPath) != "pb" {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				vs, ok := n.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || len(vs.Values) != 1 {
					return true
				}
				nm := vs.Names[0].Name
				for en, vals := range enumVals {
					lit, ok := vs.Values[0].(*ast.CompositeLit)
					if !ok || nm != en+"_name" && nm != en+"_value" {
						continue
					}
					got := map[string]int64{}
					for _, e := range lit.Elts {
						kv := e.(*ast.KeyValueExpr)
						k, v := p.TypesInfo.Types[kv.Key].Value, p.TypesInfo.Types[kv.Value].Value
						if nm == en+"_name" {
							k, v = v, k
						}
						if k == nil || v == nil || k.Kind() != constant.String {
							continue
						}
						x, _ := constant.Int64Val(constant.ToInt(v))
						got[constant.StringVal(k)] = x
					}
					c.Ob("schema-names", nm, reflect.DeepEqual(got, vals), c.W.Pos(vs.Pos()), nil, "the name table %s is %v, the schema says %v", nm, got, vals)
				}
				return true
			})
		}
	}
	c.Min("schema-names", 2)
	// registration under the schema's names
	reg := map[string]string{}
	for _, fn := range c.W.Fns {
		if fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "pb" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(fnName(call.Call.StaticCallee()), "proto.Register") {
					continue
				}
				if len(call.Call.Args) == 2 {
					if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
							reg[constant.StringVal(k.Value)] = types.TypeString(deref(mi.X.Type()), shortQual)
						}
					}
				}
			}
		}
	}
	for _, m := range []string{"Data", "Metadata"} {
		c.Ob("schema-registered", m, reg["unixfs.pb."+m] == "pb."+m, "pb/unixfs.pb.go", nil, "message unixfs.pb.%s is registered as %s", m, reg["unixfs.pb."+m])
	}
	_ = fmt.Sprint
}
