package main

import (
	"go/token"
	"go/types"
)

// bufLen is the number of unread bytes of a bytes.Buffer.
func (in *Interp) bufLen(st *State, b *Term) *Term {
	l := in.purePerEpoch(st, "bytes.Buffer.Len", types.Typ[types.Int], b)
	if ep, _ := st.eps.get(b.UID); ep == 0 && b.Op == "alloc" {
		in.assume(&st.snap, in.eq(l, in.TS.integer(0)), true)
	}
	return l
}

// bufLenAt is the same for an ended path.
func (in *Interp) bufLenAt(s *snap, b *Term) *Term {
	return in.bufLen(&State{snap: *s}, b)
}

// bufferCall is the contract of bytes.Buffer.
func (in *Interp) bufferCall(st *State, name string, args []*Term, typ types.Type) []outcome {
	ts := in.TS
	tint := types.Typ[types.Int]
	res := ts.fresh("call", name, typ, args...)
	ext := func(i string, t types.Type) *Term { return ts.mk("extract", i, t, res) }
	add := func(a, b *Term) *Term { return in.bin(token.ADD, a, b, tint) }
	switch name {
	case "bytes.NewBuffer":
		in.assume(&st.snap, in.eq(in.bufLen(st, res), in.lenOf(args[0])), true)
		return []outcome{{st, res}}
	case "bytes.Buffer.Bytes":
		in.assume(&st.snap, in.eq(in.lenOf(res), in.bufLen(st, args[0])), true)
		return []outcome{{st, res}}
	case "bytes.Buffer.Reset":
		in.bump(st, args[0])
		in.assume(&st.snap, in.eq(in.bufLen(st, args[0]), ts.integer(0)), true)
		return []outcome{{st, nil}}
	case "bytes.Buffer.Write":
		old := in.bufLen(st, args[0])
		in.bump(st, args[0])
		in.assume(&st.snap, in.eq(ext("1", errType), ts.nil_()), true)
		in.assume(&st.snap, in.eq(ext("0", tint), in.lenOf(args[1])), true)
		in.assume(&st.snap, in.eq(in.bufLen(st, args[0]), add(old, in.lenOf(args[1]))), true)
		return []outcome{{st, res}}
	case "bytes.Buffer.Read":
		old := in.bufLen(st, args[0])
		in.bump(st, args[0])
		n, now := ext("0", tint), in.bufLen(st, args[0])
		in.assume(&st.snap, in.eq(add(now, n), old), true)
		in.assume(&st.snap, in.lt(n, ts.integer(0)), false)
		b := st.clone()
		// everything read, or the slice filled
		in.assume(&st.snap, in.eq(now, ts.integer(0)), true)
		in.assume(&st.snap, in.lt(in.lenOf(args[1]), n), false)
		in.assume(&b.snap, in.eq(n, in.lenOf(args[1])), true)
		in.assume(&b.snap, in.eq(ext("1", errType), ts.nil_()), true)
		return []outcome{{st, res}, {b, res}}
	}
	return nil
}
