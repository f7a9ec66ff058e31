package main

import "go/token"

// unloop replaces loop variables by the value they were assigned on this path.
func (in *Interp) unloop(t *Term) *Term {
	switch {
	case t.Op == "loopvar" && t.Elem != nil:
		return t.Elem
	case t.Op == "bin" && (t.Sym == "+" || t.Sym == "-") && len(t.Args) == 2:
		a, b := in.unloop(t.Args[0]), in.unloop(t.Args[1])
		if a == t.Args[0] && b == t.Args[1] {
			return t
		}
		op := token.ADD
		if t.Sym == "-" {
			op = token.SUB
		}
		return in.bin(op, a, b, t.Typ)
	}
	return t
}

// covers: idxs are the positions visited in order on this path; they start at
// zero, advance by one, and the path knows that the n elements end there.
func (in *Interp) covers(s *snap, idxs []*Term, n *Term) (bool, string) {
	if len(idxs) == 0 {
		if in.Prove(s, n, "<=", in.TS.integer(0)) {
			return true, ""
		}
		return false, "no element is visited although there may be some"
	}
	one := in.TS.integer(1)
	for k, i := range idxs {
		if k == 0 {
			if !linEqual(i, in.TS.integer(0)) {
				return false, "the first element visited is not element zero"
			}
			continue
		}
		next := in.bin(token.ADD, idxs[k-1], one, i.Typ)
		if !linEqual(i, next) && !linEqual(in.unloop(i), next) {
			return false, "elements are skipped or repeated"
		}
	}
	end := in.bin(token.ADD, idxs[len(idxs)-1], one, n.Typ)
	if in.Prove(s, n, "<=", end) {
		return true, ""
	}
	ok := false
	s.facts.each(func(_ int, f fact) {
		t, v := f.t, f.v
		for t.Op == "not" {
			t, v = t.Args[0], !v
		}
		if ok || len(t.Args) != 2 {
			return
		}
		x := t.Args[0]
		hit := func(x, m *Term) bool {
			return (linEqual(m, n) || in.proveEq(s, m, n)) && linEqual(in.unloop(x), end) && in.unloop(x) != x
		}
		switch {
		case t.Op == "lt" && !v:
			ok = hit(x, t.Args[1])
		case t.Op == "eq" && v:
			ok = hit(x, t.Args[1]) || hit(t.Args[1], x)
		}
	})
	if ok {
		return true, ""
	}
	return false, "the path ends without knowing that there are no more elements"
}
