package main

import (
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A linear-inequality domain over integer terms: facts gathered on the path
// are a conjunction of linear constraints; queries are decided by
// Fourier-Motzkin elimination over the constraints connected to the query.

type linForm struct {
	co map[*Term]int64
	c  *big.Int
}

func newLin() *linForm { return &linForm{co: map[*Term]int64{}, c: new(big.Int)} }

func (f *linForm) add(g *linForm, k int64) *linForm {
	for t, v := range g.co {
		f.co[t] += k * v
		if f.co[t] == 0 {
			delete(f.co, t)
		}
	}
	f.c.Add(f.c, new(big.Int).Mul(g.c, big.NewInt(k)))
	return f
}

func (f *linForm) clone() *linForm { return newLin().add(f, 1) }

func (f *linForm) isConst() bool { return len(f.co) == 0 }

var maxInt63 = new(big.Int).SetUint64(1<<63 - 1)

// linMath is the mathematical linear form of t: conversions are transparent
// and arithmetic is assumed not to wrap. Used to compare terms.
func linMath(t *Term) *linForm { return linOf(t, nil, 0, true) }

// linMathPeel also replaces loop variables by the value they stand for.
func linMathPeel(t *Term) *linForm {
	f := linMath(t)
	for n := 0; n < 8; n++ {
		ch := false
		g := newLin()
		g.c.Set(f.c)
		for a, k := range f.co {
			if a.Op == "loopvar" && a.Elem != nil {
				g.add(linMath(a.Elem), k)
				ch = true
			} else {
				h := newLin()
				h.co[a] = 1
				g.add(h, k)
			}
		}
		f = g
		if !ch {
			break
		}
	}
	return f
}

func linEqual(a, b *Term) bool {
	d := linMathPeel(a).add(linMathPeel(b), -1)
	return d.isConst() && d.c.Sign() == 0
}

type provCtx struct {
	in    *Interp
	s     *snap
	cons  []*linForm // each >= 0
	raw   []fact
	diseq [][2]*Term
	built bool
	depth int
	lins  map[*Term]*linForm
	known map[*Term]bool
}

func linOf(t *Term, pc *provCtx, d int, math bool) *linForm {
	f := newLin()
	atom := func() *linForm { f.co[t] = 1; return f }
	if t.CV != nil {
		if n, ok := t.Int(); ok {
			f.c.SetInt64(n)
			return f
		}
		if isInteger(t.Typ) {
			if v, ok := new(big.Int).SetString(t.Sym, 10); ok {
				f.c = v
				return f
			}
		}
		return atom()
	}
	if d > 20 {
		return atom()
	}
	switch t.Op {
	case "bin":
		switch t.Sym {
		case "+", "-":
			if !isInteger(t.Typ) {
				return atom()
			}
			a := linOf(t.Args[0], pc, d+1, math)
			b := linOf(t.Args[1], pc, d+1, math)
			if !math && isUnsigned(t.Typ) {
				if t.Sym == "-" {
					if pc == nil || !pc.proveForm(a.clone().add(b, -1)) {
						return atom()
					}
				} else {
					if pc == nil {
						return atom()
					}
					lim := newLin()
					lim.c.Lsh(big.NewInt(1), 64)
					lim.c.Sub(lim.c, big.NewInt(1))
					if !pc.proveForm(lim.add(a, -1).add(b, -1)) {
						return atom()
					}
				}
			}
			if t.Sym == "+" {
				return a.add(b, 1)
			}
			return a.add(b, -1)
		case "*":
			if n, ok := t.Args[0].Int(); ok {
				return f.add(linOf(t.Args[1], pc, d+1, math), n)
			}
			if n, ok := t.Args[1].Int(); ok {
				return f.add(linOf(t.Args[0], pc, d+1, math), n)
			}
		}
	case "conv":
		switch t.Sym {
		case "u2s":
			if math {
				return linOf(t.Args[0], pc, d+1, math)
			}
			a := linOf(t.Args[0], pc, d+1, math)
			if pc != nil {
				q := newLin()
				q.c.Set(maxInt63)
				if pc.proveForm(q.add(a, -1)) {
					return a
				}
			}
		case "s2u":
			if math {
				return linOf(t.Args[0], pc, d+1, math)
			}
			a := linOf(t.Args[0], pc, d+1, math)
			if pc != nil && pc.proveForm(a.clone()) {
				return a
			}
		}
	}
	return atom()
}

func (in *Interp) newProv(s *snap) *provCtx {
	pc := &provCtx{in: in, s: s}
	s.facts.each(func(_ int, f fact) {
		t := f.t
		if t.Op != "lt" && t.Op != "eq" || len(t.Args) != 2 {
			return
		}
		x, y := t.Args[0], t.Args[1]
		if x.isNil() || y.isNil() || x.Op == "sentinel" || y.Op == "sentinel" {
			return
		}
		if !(isInteger(x.Typ) || isInteger(y.Typ)) {
			return
		}
		if t.Op == "eq" && !f.v {
			pc.diseq = append(pc.diseq, [2]*Term{x, y})
			return
		}
		pc.raw = append(pc.raw, f)
	})
	return pc
}

func (pc *provCtx) lin(t *Term) *linForm { return linOf(t, pc, 0, pc.in.Cfg.Math) }

// build turns the collected facts into constraints, twice so that conversions
// whose transparency depends on other facts are resolved.
func (pc *provCtx) build() {
	if pc.built {
		return
	}
	pc.built = true
	for round := 0; round < 6; round++ {
		var cons []*linForm
		for _, f := range pc.raw {
			x, y := pc.lin(f.t.Args[0]), pc.lin(f.t.Args[1])
			switch {
			case f.t.Op == "eq":
				cons = append(cons, x.clone().add(y, -1), y.clone().add(x, -1))
			case f.v:
				g := y.clone().add(x, -1)
				g.c.Sub(g.c, big.NewInt(1))
				cons = append(cons, g)
			default:
				cons = append(cons, x.clone().add(y, -1))
			}
		}
		same := len(pc.cons) == len(cons)
		for i := 0; same && i < len(cons); i++ {
			same = equalForm(cons[i], pc.cons[i])
		}
		pc.cons = cons
		if same {
			break
		}
	}
	for _, d := range pc.diseq {
		x, y := pc.lin(d[0]), pc.lin(d[1])
		if pc.proveForm(x.clone().add(y, -1)) {
			g := x.clone().add(y, -1)
			g.c.Sub(g.c, big.NewInt(1))
			pc.cons = append(pc.cons, g)
		} else if pc.proveForm(y.clone().add(x, -1)) {
			g := y.clone().add(x, -1)
			g.c.Sub(g.c, big.NewInt(1))
			pc.cons = append(pc.cons, g)
		}
	}
}

func equalForm(a, b *linForm) bool {
	if len(a.co) != len(b.co) || a.c.Cmp(b.c) != 0 {
		return false
	}
	for t, v := range a.co {
		if b.co[t] != v {
			return false
		}
	}
	return true
}

func atomForm(t *Term) *linForm {
	f := newLin()
	f.co[t] = 1
	return f
}

func constForm(n int64) *linForm {
	f := newLin()
	f.c.SetInt64(n)
	return f
}

// intrinsic constraints of an atom.
func (pc *provCtx) intrinsic(t *Term) []*linForm {
	var out []*linForm
	ge := func(lo int64) { out = append(out, atomForm(t).add(constForm(lo), -1)) }
	le := func(g *linForm) { out = append(out, g.clone().add(atomForm(t), -1)) }
	if isUnsigned(t.Typ) {
		ge(0)
		if n := intSize(t.Typ); n < 64 {
			le(constForm(1<<uint(n) - 1))
		}
	} else if isInteger(t.Typ) {
		g := newLin()
		g.c.Set(maxInt63)
		le(g)
	}
	base := t
	if t.Op == "extract" {
		base = t.Args[0]
	}
	name := base.Sym
	if i := strings.IndexByte(name, '@'); i >= 0 {
		name = name[:i]
	}
	switch {
	case t.Op == "pure" && (name == "len" || name == "cap" || name == "bytes.Buffer.Len" || name == "bytes.Reader.Len" || name == "bytes.Reader.Size"):
		ge(0)
	case t.Op == "pure" && strings.HasPrefix(name, "bitfield.Bitfield.Ones"):
		ge(0)
		if name == "bitfield.Bitfield.OnesBefore" || name == "bitfield.Bitfield.OnesAfter" {
			// OnesBefore(i) <= Ones(); strictly less when bit i is set
			ones := pc.in.TS.mk("pure", strings.Replace(t.Sym, name, "bitfield.Bitfield.Ones", 1), t.Typ, t.Args[0])
			le(atomForm(ones))
			bit := pc.in.TS.mk("pure", strings.Replace(t.Sym, name, "bitfield.Bitfield.Bit", 1), nil, t.Args[0], t.Args[1])
			if f, ok := pc.s.facts.get(bit.UID); ok && f.v {
				g := atomForm(ones)
				g.c.SetInt64(-1)
				le(g)
			}
		}
	case t.Op == "pure" && strings.HasPrefix(name, "bits."):
		ge(0)
		le(constForm(64))
	case base.Op == "call" && name == "copy":
		ge(0)
		le(pc.lin(pc.in.lenOf(base.Args[0])))
		le(pc.lin(pc.in.lenOf(base.Args[1])))
	case t.Op == "extract" && t.Sym == "0" && base.Op == "call" && (strings.HasSuffix(name, ".Read") || name == "io.ReadFull" || name == "io.ReadAtLeast") && len(base.Args) >= 2:
		ge(0)
		le(pc.lin(pc.in.lenOf(base.Args[1])))
	case t.Op == "bin" && t.Sym == "%":
		if n, ok := t.Args[1].Int(); ok && n > 0 {
			le(constForm(n - 1))
			if isUnsigned(t.Args[0].Typ) || pc.depth < 3 && pc.proveForm(pc.lin(t.Args[0])) {
				ge(0)
				// x = n*(x/n) + x%n
				q := atomForm(pc.in.bin(token.QUO, t.Args[0], t.Args[1], t.Typ))
				d := pc.lin(t.Args[0]).clone().add(q, -n).add(atomForm(t), -1)
				out = append(out, d, newLin().add(d, -1))
			}
		}
	case t.Op == "bin" && t.Sym == "/":
		if n, ok := t.Args[1].Int(); ok && n > 0 {
			x := pc.lin(t.Args[0])
			if isUnsigned(t.Args[0].Typ) || pc.depth < 3 && pc.proveForm(x) {
				ge(0)
				// n*t <= x  and x <= n*t + n-1
				out = append(out, x.clone().add(atomForm(t), -n))
				out = append(out, newLin().add(atomForm(t), n).add(constForm(n-1), 1).add(x, -1))
				r := atomForm(pc.in.bin(token.REM, t.Args[0], t.Args[1], t.Typ))
				d := x.clone().add(atomForm(t), -n).add(r, -1)
				out = append(out, d, newLin().add(d, -1))
			}
		}
	case t.Op == "bin" && t.Sym == "&":
		for k := 0; k < 2; k++ {
			if n, ok := t.Args[k].Int(); ok && n >= 0 {
				ge(0)
				le(constForm(n))
			}
		}
	case t.Op == "pure" && (name == "min" || name == "max"):
		for _, a := range t.Args {
			if name == "min" {
				le(pc.lin(a))
			} else {
				out = append(out, atomForm(t).add(pc.lin(a), -1))
			}
		}
		if name == "min" && len(t.Args) == 2 && pc.depth < 2 {
			ok := true
			for _, a := range t.Args {
				if !pc.proveForm(pc.lin(a)) {
					ok = false
				}
			}
			if ok {
				ge(0)
			}
		}
	}
	if t.Op == "loopvar" && pc.in.Axiom == nil {
	}
	if pc.in.Axiom != nil {
		out = append(out, pc.in.Axiom(pc, t)...)
	}
	return out
}

// proveForm reports whether f >= 0 follows.
func (pc *provCtx) proveForm(f *linForm) bool {
	if f.isConst() {
		return f.c.Sign() >= 0
	}
	if pc.depth > 4 {
		return false
	}
	pc.depth++
	defer func() { pc.depth-- }()
	neg := newLin().add(f, -1)
	neg.c.Sub(neg.c, big.NewInt(1))
	// closure of relevant constraints
	atoms := map[*Term]bool{}
	var work []*Term
	addAtoms := func(g *linForm) {
		for t := range g.co {
			if !atoms[t] {
				atoms[t] = true
				work = append(work, t)
			}
		}
	}
	sys := []*linForm{neg}
	addAtoms(neg)
	used := make([]bool, len(pc.cons))
	for len(work) > 0 && len(sys) < 120 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range pc.intrinsic(t) {
			sys = append(sys, g)
			addAtoms(g)
		}
		for i, g := range pc.cons {
			if used[i] {
				continue
			}
			if _, ok := g.co[t]; ok {
				used[i] = true
				sys = append(sys, g)
				addAtoms(g)
			}
		}
	}
	return infeasible(sys)
}

type row struct {
	co map[*Term]*big.Int
	c  *big.Int
}

func infeasible(sys []*linForm) bool {
	var rows []*row
	for _, f := range sys {
		r := &row{co: map[*Term]*big.Int{}, c: new(big.Int).Set(f.c)}
		for t, v := range f.co {
			r.co[t] = big.NewInt(v)
		}
		rows = append(rows, r)
	}
	for step := 0; step < 60; step++ {
		// constant contradictions
		var live []*row
		cnt := map[*Term][2]int{}
		for _, r := range rows {
			if len(r.co) == 0 {
				if r.c.Sign() < 0 {
					return true
				}
				continue
			}
			live = append(live, r)
			for t, v := range r.co {
				c := cnt[t]
				if v.Sign() > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[t] = c
			}
		}
		if len(live) == 0 {
			return false
		}
		var best *Term
		bs := 0
		for t, c := range cnt {
			s := c[0]*c[1] - c[0] - c[1]
			if best == nil || s < bs || s == bs && t.UID < best.UID {
				best, bs = t, s
			}
		}
		var pos, neg, rest []*row
		for _, r := range live {
			v := r.co[best]
			switch {
			case v == nil:
				rest = append(rest, r)
			case v.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		if len(pos)*len(neg)+len(rest) > 1500 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a := p.co[best]
				b := new(big.Int).Neg(n.co[best])
				g := &row{co: map[*Term]*big.Int{}, c: new(big.Int)}
				g.c.Add(new(big.Int).Mul(p.c, b), new(big.Int).Mul(n.c, a))
				for t, v := range p.co {
					g.co[t] = new(big.Int).Mul(v, b)
				}
				for t, v := range n.co {
					w := new(big.Int).Mul(v, a)
					if o, ok := g.co[t]; ok {
						w.Add(w, o)
					}
					g.co[t] = w
				}
				for t, v := range g.co {
					if v.Sign() == 0 {
						delete(g.co, t)
					}
				}
				rest = append(rest, g)
			}
		}
		rows = rest
	}
	return false
}

// Prove decides a OP b from the facts of s: "<=", "<".
func (in *Interp) Prove(s *snap, a *Term, op string, b *Term) bool {
	pc := in.newProv(s)
	pc.build()
	f := pc.lin(b).clone().add(pc.lin(a), -1)
	if op == "<" {
		f.c.Sub(f.c, big.NewInt(1))
	}
	return pc.proveForm(f)
}

func (in *Interp) decideArith(s *snap, t *Term) (bool, bool) {
	pc := in.newProv(s)
	pc.build()
	x, y := pc.lin(t.Args[0]), pc.lin(t.Args[1])
	if t.Op == "lt" {
		f := y.clone().add(x, -1)
		f.c.Sub(f.c, big.NewInt(1))
		if pc.proveForm(f) {
			return true, true
		}
		if pc.proveForm(x.clone().add(y, -1)) {
			return false, true
		}
		return false, false
	}
	d := x.clone().add(y, -1)
	if d.isConst() {
		return d.c.Sign() == 0, true
	}
	lo := d.clone()
	lo.c.Sub(lo.c, big.NewInt(1))
	if pc.proveForm(lo) {
		return false, true
	}
	hi := newLin().add(d, -1)
	hi.c.Sub(hi.c, big.NewInt(1))
	if pc.proveForm(hi) {
		return false, true
	}
	if pc.proveForm(d) && pc.proveForm(newLin().add(d, -1)) {
		return true, true
	}
	return false, false
}

var _ = token.ADD
var _ ssa.Value
