package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureCalls are external functions whose result depends only on their
// arguments and the state of the first one, and that change nothing.
var pureCalls = map[string]bool{
	"bytes.Buffer.Len": true, "bytes.Reader.Len": true, "bytes.Reader.Size": true,
	"bitfield.Bitfield.Bit": true, "bitfield.Bitfield.Ones": true, "bitfield.Bitfield.OnesBefore": true,
	"bitfield.Bitfield.OnesAfter": true, "bitfield.Bitfield.Bytes": true,
	"cid.Cid.Prefix": true, "cid.Cid.ByteLen": true, "cid.Cid.Bytes": true, "cid.Cid.Version": true, "cid.Cid.Type": true,
	"cid.Cid.Equals": true, "cid.Cid.Defined": true, "cid.Cid.String": true, "cid.Cid.KeyString": true,
	"ipld.ExtractIPLDNode": true, "ipld.Walker.ActiveChildIndex": true,
	"bits.TrailingZeros": true, "bits.Len": true, "bits.OnesCount": true, "bits.TrailingZeros64": true, "bits.OnesCount64": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "linksize.LinkSizeFunction": true, "internal.HAMTHashFunction": true,
	"strings.TrimPrefix": true, "strings.HasPrefix": true, "strings.Repeat": true, "strconv.Itoa": true, "strconv.FormatInt": true,
	"pb.Data_DataType.String": true, "context.Context.Done": true, "dag.NewReadOnlyDagService": true,
	"proto.Uint64": true, "context.TODO": true, "context.Background": true, "chunker.Splitter.Reader": true,
	"files.FileInfo.AbsPath": true, "files.FileInfo.Stat": true, "ipld.NewNavigableIPLDNode": true,
	"slices.Clone": true, "error.Error": true, "errors.Is": true,
}

// node getters: (virtual field, pure per version)
func nodeMethod(name string) (string, bool) {
	for _, p := range []string{"dag.ProtoNode.", "dag.RawNode.", "ipld.Node.", "blocks.Block.", "ipld.Resolver.", "block-format.Block.", "format.Block."} {
		if strings.HasPrefix(name, p) {
			return name[len(p):], true
		}
	}
	return "", false
}

func (in *Interp) vfield(st *State, node *Term, f string, typ types.Type) *Term {
	a := in.TS.mk("fieldaddr", "$"+f, typ, node)
	if v, ok := st.heap.get(a.UID); ok {
		return v
	}
	if node.Op == "alloc" {
		switch f {
		case "Links", "Data", "CidBuilder":
			return in.TS.nil_()
		}
	}
	t := in.TS.mk("pure", f, typ, node)
	return t
}

func (in *Interp) setV(st *State, node *Term, f string, v *Term) {
	a := in.TS.mk("fieldaddr", "$"+f, nil, node)
	st.heap = st.heap.set(a.UID, v)
	st.addrs = st.addrs.set(a.UID, a)
}

func (in *Interp) nodeVer(st *State, node *Term) *Term {
	a := in.TS.mk("fieldaddr", "$ver", nil, node)
	if v, ok := st.heap.get(a.UID); ok {
		return v
	}
	return in.TS.integer(0)
}

func snapVer(in *Interp, s *snap, node *Term) *Term {
	a := in.TS.mk("fieldaddr", "$ver", nil, node)
	if v, ok := s.heap.get(a.UID); ok {
		return v
	}
	return in.TS.integer(0)
}

// native evaluates modelled calls that neither branch nor call back.
func (in *Interp) native(st *State, fr *frame, instr ssa.Instruction, name string, callee *ssa.Function, args []*Term, typ types.Type) (*Term, bool) {
	ts := in.TS
	ev := func(res *Term) *Event {
		return in.emit(st, &Event{Kind: "call", Name: name, Callee: callee, Instr: instr, Args: args, Res: res})
	}
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == repoMod+"/pb" {
		if t, ok := in.pbGetter(st, callee, args, typ); ok {
			return t, true
		}
	}
	if m, ok := nodeMethod(name); ok && len(args) > 0 {
		n := args[0]
		in.boundEv(st, "deref", instr, n)
		// a raw node's promoted methods run on its embedded block
		if n.Op == "load" && n.Args[0].Op == "fieldaddr" && n.Args[0].Sym == "Block" {
			n = n.Args[0].Args[0]
			args = append([]*Term{n}, args[1:]...)
		}
		switch m {
		case "Links", "Data", "CidBuilder", "RawData":
			if m == "RawData" || m == "Data" {
				if n.Op == "call" && n.Sym == "dag.NewRawNode" && m == "RawData" {
					return n.Args[0], true
				}
			}
			if m == "RawData" {
				t := ts.mk("pure", "RawData", typ, n, in.nodeVer(st, n))
				return t, true
			}
			t := in.vfield(st, n, m, typ)
			if m == "Links" && t.isNil() {
				t = ts.mk("lit", "", typ)
			}
			return t, true
		case "Cid":
			t := ts.mk("pure", "Cid", typ, n, in.nodeVer(st, n))
			ev(t)
			return t, true
		case "Copy":
			t := ts.fresh("call", "Copy", typ, n)
			for _, f := range []string{"Links", "Data", "CidBuilder"} {
				in.setV(st, t, f, in.vfield(st, n, f, nil))
			}
			if d := in.dynType(&st.snap, n); d != nil {
				st.isv = st.isv.set(t.UID, in.typeTerm(d))
			}
			ev(t)
			return t, true
		case "SetData", "SetLinks", "SetCidBuilder":
			f := strings.TrimPrefix(m, "Set")
			in.setV(st, n, f, args[1])
			e := ev(nil)
			in.setV(st, n, "ver", ts.integer(int64(e.Idx+1)))
			e.S = st.snap
			return ts.mk("zero", "void", nil), true
		case "AddNodeLink", "AddRawLink":
			old := in.vfield(st, n, "Links", nil)
			var l *Term
			if m == "AddRawLink" {
				l = ts.mk("rawlink", "", nil, args[1], args[2])
			} else {
				l = ts.mk("nodelink", "", nil, args[1], args[2])
			}
			res := ts.fresh("call", name, typ, args...)
			in.setV(st, n, "Links", in.appendTerm(old, []*Term{ts.mk("lit", "nonnil", nil, l)}, nil))
			e := ev(res)
			res.Ev = e
			in.setV(st, n, "ver", ts.integer(int64(e.Idx+1)))
			e.S = st.snap
			return res, true
		case "RemoveNodeLink":
			res := ts.fresh("call", name, typ, args...)
			e := ev(res)
			res.Ev = e
			in.setV(st, n, "Links", ts.fresh("pure", "LinksAfterRemove", nil, n))
			in.setV(st, n, "ver", ts.integer(int64(e.Idx+1)))
			e.S = st.snap
			return res, true
		}
		return nil, false
	}
	switch name {
	case "errors.New", "fmt.Errorf", "xerrors.Errorf", "errors.Join", "xerrors.New":
		t := ts.fresh("newerr", name, typ, args...)
		ev(t)
		return t, true
	case "context.Context.Err":
		a := ts.mk("fieldaddr", "$err", nil, args[0])
		if v, ok := st.heap.get(a.UID); ok {
			if isnil, known := in.isNilKnown(&st.snap, v); known && !isnil {
				return v, true
			}
		}
		t := ts.fresh("call", name, typ, args...)
		e := ev(t)
		t.Ev = e
		st.heap = st.heap.set(a.UID, t)
		st.addrs = st.addrs.set(a.UID, a)
		return t, true
	case "ipld.Walker.Pause":
		ev(nil)
		in.setV(st, args[0], "paused", ts.boolean(true))
		return ts.mk("zero", "void", nil), true
	case "ipld.Walker.SetContext":
		ev(nil)
		return ts.mk("zero", "void", nil), true
	case "errors.Is":
		// errors.Is(x, sentinel) is treated as equality
		if len(args) == 2 {
			return in.eq(args[0], args[1]), true
		}
	}
	return nil, false
}

func (in *Interp) pbGetter(st *State, callee *ssa.Function, args []*Term, typ types.Type) (*Term, bool) {
	n := callee.Name()
	if !strings.HasPrefix(n, "Get") || len(args) != 1 || callee.Signature.Recv() == nil {
		return nil, false
	}
	s, ok := isStruct(deref(callee.Signature.Recv().Type()))
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != n[3:] {
			continue
		}
		a := in.fieldAddr(args[0], f.Name(), types.NewPointer(f.Type()))
		v := in.load(&st.snap, a, f.Type())
		if _, isPtr := f.Type().Underlying().(*types.Pointer); isPtr {
			if v.Op == "pure" && strings.HasPrefix(v.Sym, "proto.") {
				return v.Args[0], true
			}
			if v.isNil() {
				return in.TS.zero(typ), true
			}
			if v.Op == "alloc" || v.Op == "fieldaddr" {
				return in.load(&st.snap, v, typ), true
			}
			return in.TS.mk("pure", "deref0", typ, v), true
		}
		return v, true
	}
	return nil, false
}

// nativeCB models external functions that call back into the repository.
func (in *Interp) nativeCB(st *State, fr *frame, instr ssa.Instruction, name string, args []*Term, dst ssa.Value, typ types.Type, advance bool) ([]*State, bool) {
	var cb *Term
	switch name {
	case "bytes.Reader.Read", "bytes.Reader.WriteTo":
		// Read copies min(len, Len); WriteTo fails or leaves nothing behind.
		ts := in.TS
		res := ts.fresh("call", name, typ, args...)
		in.boundEv(st, "deref", instr, args[0])
		e := in.emit(st, &Event{Kind: "call", Name: name, Instr: instr, Args: args, Res: res})
		res.Ev = e
		n := ts.mk("extract", "0", types.Typ[types.Int], res)
		if name == "bytes.Reader.WriteTo" {
			n.Typ = types.Typ[types.Int64]
		}
		err := ts.mk("extract", "1", types.Universe.Lookup("error").Type(), res)
		in.bump(st, args[0])
		left := in.purePerEpoch(st, "bytes.Reader.Len", types.Typ[types.Int], args[0])
		b := st.clone()
		in.assume(&st.snap, in.eq(left, ts.integer(0)), true)
		if name == "bytes.Reader.Read" {
			in.assume(&st.snap, in.lt(in.lenOf(args[1]), n), false)
			in.assume(&b.snap, in.eq(n, in.lenOf(args[1])), true)
		} else {
			in.assume(&b.snap, in.eq(err, ts.nil_()), false)
		}
		var out []*State
		for _, s := range []*State{st, b} {
			if dst != nil {
				in.bind(s.top(), dst, res)
			}
			if advance {
				s.top().pc++
			}
			out = append(out, s)
		}
		return out, true
	case "ipld.Walker.Iterate", "ipld.Walker.Seek":
		cb = args[1]
	case "uio.Directory.ForEachLink":
		cb = args[2]
	default:
		return nil, false
	}
	ev := in.emit(st, &Event{Kind: "call", Name: name, Instr: instr, Args: args})
	if cb.Op != "closure" && cb.Op != "func" {
		res := in.TS.fresh("call", name, typ, args...)
		res.Ev = ev
		in.bind(fr, dst, res)
		if advance {
			fr.pc++
		}
		return []*State{st}, true
	}
	in.setV(st, args[0], "paused", in.TS.boolean(false))
	if advance {
		fr.pc++
	}
	k := &nativeK{kind: name, dst: dst, args: append([]*Term{cb}, args...), ev: ev}
	return in.cbChoices(st, fr, k), true
}

// purePerEpoch names the result of a pure method in the current state of its
// receiver.
func (in *Interp) purePerEpoch(st *State, name string, typ types.Type, args ...*Term) *Term {
	sym := name
	if ep, _ := st.eps.get(args[0].UID); ep > 0 {
		sym = fmt.Sprintf("%s@%d", name, ep)
	}
	return in.TS.mk("pure", sym, typ, args...)
}

func (in *Interp) cbReturn(st *State, k *nativeK, t *Term) *State {
	s := st.clone()
	in.bind(s.top(), k.dst, t)
	in.emit(s, &Event{Kind: "cbreturn", Name: k.kind, Res: t, Args: k.args[1:], Instr: k.ev.Instr})
	return s
}

// cbChoices: what the native iteration may do next.
func (in *Interp) cbChoices(st *State, fr *frame, k *nativeK) []*State {
	var out []*State
	et := types.Universe.Lookup("error").Type()
	fail := in.TS.fresh("newerr", k.kind+".failure", et, k.args[1])
	out = append(out, in.cbReturn(st, k, fail))
	switch k.kind {
	case "ipld.Walker.Iterate":
		out = append(out, in.cbReturn(st, k, in.TS.mk("sentinel", "ipld.EndOfDag", et)))
	default:
		out = append(out, in.cbReturn(st, k, in.TS.nil_()))
	}
	if k.n < in.Cfg.MaxVisits {
		s := st.clone()
		nk := *k
		nk.n++
		var a []*Term
		cb := k.args[0]
		for i, p := range cb.Fn.Params {
			a = append(a, in.TS.fresh("cbarg", fmt.Sprintf("%s:%d", k.kind, i), p.Type()))
		}
		in.emit(s, &Event{Kind: "enter", Name: fnName(cb.Fn), Callee: cb.Fn, Args: a, Instr: k.ev.Instr})
		in.push(s, cb.Fn, a, cb.Args, nil, &nk)
		out = append(out, s)
	}
	return out
}

func (in *Interp) resume(st *State, caller *frame, k *nativeK, rets []*Term) []*State {
	var out []*State
	r := rets[0]
	isnil, known := in.isNilKnown(&st.snap, r)
	if !known || !isnil {
		s := st.clone()
		if in.assume(&s.snap, in.eq(r, in.TS.nil_()), false) {
			out = append(out, in.cbReturn(s, k, r))
		}
	}
	if !known || isnil {
		s := st
		if in.assume(&s.snap, in.eq(r, in.TS.nil_()), true) {
			if p, ok := in.vfield(s, k.args[1], "paused", nil).Bool(); ok && p {
				out = append(out, in.cbReturn(s, k, in.TS.nil_()))
			} else {
				out = append(out, in.cbChoices(s, s.top(), k)...)
			}
		}
	}
	return out
}
