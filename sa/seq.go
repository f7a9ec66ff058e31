package main

import (
	"go/token"
	"go/types"
)

// seg is a run of a symbolic sequence: elements lo..hi of the slice src as it
// was at the start, or one element.
type seg struct {
	src    *Term
	lo, hi *Term
	el     *Term
}

type seqs struct {
	in     *Interp
	arrays map[*Term][]seg
	bad    bool // an operation could not be followed
}

func sliceRoot(x *Term) (root, lo *Term) {
	if x.Op == "slice" {
		return x.Args[0], x.Args[1]
	}
	return x, nil
}

func (q *seqs) add(a, b *Term) *Term { return q.in.bin(token.ADD, a, b, types.Typ[types.Int]) }
func (q *seqs) sub(a, b *Term) *Term { return q.in.bin(token.SUB, a, b, types.Typ[types.Int]) }

func (q *seqs) segLen(s seg) *Term {
	if s.el != nil {
		return q.in.TS.integer(1)
	}
	return q.sub(s.hi, s.lo)
}

func (q *seqs) length(ss []seg) *Term {
	n := q.in.TS.integer(0)
	for _, s := range ss {
		n = q.add(n, q.segLen(s))
	}
	return n
}

// content of a slice value at this point of the replay.
func (q *seqs) content(x *Term) []seg {
	if x.isNil() || x.Op == "lit" && len(x.Args) == 0 {
		return nil
	}
	if c, ok := q.arrays[x]; ok {
		return c
	}
	switch x.Op {
	case "slice":
		c := q.content(x.Args[0])
		return q.cut(c, x.Args[1], x.Args[2])
	case "lit":
		var out []seg
		for _, e := range x.Args {
			out = append(out, seg{el: e})
		}
		return out
	case "append":
		out := append([]seg(nil), q.content(x.Args[0])...)
		for _, e := range x.Args[1:] {
			if e.Op == "spread" {
				out = append(out, q.content(e.Args[0])...)
			} else {
				out = append(out, seg{el: e})
			}
		}
		return out
	}
	return []seg{{src: x, lo: q.in.TS.integer(0), hi: q.in.lenOf(x)}}
}

// split returns the segments before and from position pos.
func (q *seqs) split(ss []seg, pos *Term) ([]seg, []seg, bool) {
	acc := q.in.TS.integer(0)
	if linEqual(pos, acc) {
		return nil, ss, true
	}
	for i, s := range ss {
		acc = q.add(acc, q.segLen(s))
		if linEqual(pos, acc) {
			return ss[: i+1 : i+1], ss[i+1:], true
		}
	}
	acc = q.in.TS.integer(0)
	for i, s := range ss {
		end := q.add(acc, q.segLen(s))
		d := linMath(pos).add(linMath(end), -1)
		if d.isConst() && d.c.Sign() > 0 {
			acc = end
			continue
		}
		if s.el != nil {
			acc = end
			continue
		}
		mid := q.add(s.lo, q.sub(pos, acc))
		a := append(append([]seg(nil), ss[:i]...), seg{src: s.src, lo: s.lo, hi: mid})
		b := append([]seg{{src: s.src, lo: mid, hi: s.hi}}, ss[i+1:]...)
		return a, b, true
	}
	return nil, nil, false
}

func (q *seqs) cut(ss []seg, lo, hi *Term) []seg {
	_, r, ok := q.split(ss, lo)
	if !ok {
		q.bad = true
		return nil
	}
	l, _, ok := q.split(r, q.sub(hi, lo))
	if !ok {
		q.bad = true
		return nil
	}
	return l
}

// write replaces the elements from position pos by ss.
func (q *seqs) write(root, pos *Term, ss []seg) {
	c := q.content(root)
	a, b, ok := q.split(c, pos)
	if !ok {
		q.bad = true
		return
	}
	_, b, ok = q.split(b, q.length(ss))
	if !ok {
		q.bad = true
		return
	}
	q.arrays[root] = append(append(append([]seg(nil), a...), ss...), b...)
}

// replay follows the slice operations of the events up to and including last.
func (in *Interp) replay(events []*Event) *seqs {
	q := &seqs{in: in, arrays: map[*Term][]seg{}}
	tainted := map[*Term]bool{} // arrays overwritten through a shorter slice
	for _, e := range events {
		switch e.Kind {
		case "append":
			for _, a := range e.Args[1:] {
				r, _ := sliceRoot(a)
				if tainted[r] {
					q.bad = true
				}
			}
			res := in.appendTerm(e.Args[0], e.Args[1:], e.Args[0].Typ)
			c := append([]seg(nil), q.content(e.Args[0])...)
			for _, a := range e.Args[1:] {
				c = append(c, q.content(a)...)
			}
			q.arrays[res] = c
			b := e.Args[0]
			if b.Op == "append" {
				b = b.Args[0]
			}
			if b.Op == "slice" && b.Args[0].Op != "lit" && !linEqual(b.Args[2], in.lenOf(b.Args[0])) {
				tainted[b.Args[0]] = true
			}
		case "copy":
			d, dlo := sliceRoot(e.Args[0])
			if dlo == nil {
				dlo = in.TS.integer(0)
			}
			src := q.content(e.Args[1])
			ld, ls := in.lenOf(e.Args[0]), in.lenOf(e.Args[1])
			df := linMath(ld).add(linMath(ls), -1)
			if df.isConst() && df.c.Sign() < 0 {
				src = q.cut(src, in.TS.integer(0), ld)
			}
			q.write(d, dlo, src)
		case "store":
			if e.Addr.Op == "indexaddr" {
				d, dlo := sliceRoot(e.Addr.Args[0])
				pos := e.Addr.Args[1]
				if dlo != nil {
					pos = q.add(dlo, pos)
				}
				if d.Op == "alloc" || d.Op == "lit" {
					continue
				}
				q.write(d, pos, []seg{{el: e.Val}})
			}
		}
	}
	return q
}

// norm merges adjacent runs and drops empty ones.
func (q *seqs) norm(ss []seg) []seg {
	var out []seg
	for _, s := range ss {
		if s.el == nil && linEqual(s.lo, s.hi) {
			continue
		}
		if n := len(out); n > 0 && s.el == nil && out[n-1].el == nil && out[n-1].src == s.src && linEqual(out[n-1].hi, s.lo) {
			out[n-1].hi = s.hi
			continue
		}
		out = append(out, s)
	}
	return out
}
