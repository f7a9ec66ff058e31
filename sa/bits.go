package main

import (
	"strings"
)

// bitv is one bit of a value: constant, unknown, or bit `bit` of byte `byt`
// of the tracked slice.
type bitv struct {
	k        byte // '0' '1' '?' 'b'
	byt, bit int64
}

type bitvec [64]bitv

func constBits(n uint64) bitvec {
	var b bitvec
	for i := range b {
		b[i].k = '0'
		if n>>uint(i)&1 == 1 {
			b[i].k = '1'
		}
	}
	return b
}

func topBits() bitvec {
	var b bitvec
	for i := range b {
		b[i].k = '?'
	}
	return b
}

// bitsOf evaluates a term in the bit-provenance domain; arr is the byte slice
// whose bits are tracked.
func bitsOf(t, arr *Term) bitvec {
	if n, ok := t.Int(); ok {
		return constBits(uint64(n))
	}
	trunc := func(b bitvec, n int) bitvec {
		for i := n; i < 64; i++ {
			b[i] = bitv{k: '0'}
		}
		return b
	}
	switch {
	case t.Op == "load" && t.Args[0].Op == "indexaddr" && same(t.Args[0].Args[0], arr):
		k, ok := t.Args[0].Args[1].Int()
		if !ok {
			return topBits()
		}
		b := constBits(0)
		for i := 0; i < 8; i++ {
			b[i] = bitv{'b', k, int64(i)}
		}
		return b
	case strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1:
		b := bitsOf(t.Args[0], arr)
		if isInteger(t.Typ) {
			b = trunc(b, intSize(t.Typ))
		}
		return b
	case t.Op == "un" && t.Sym == "^":
		b := bitsOf(t.Args[0], arr)
		for i := range b {
			switch b[i].k {
			case '0':
				b[i].k = '1'
			case '1':
				b[i].k = '0'
			default:
				b[i] = bitv{k: '?'}
			}
		}
		if t.Typ != nil {
			b = trunc(b, intSize(t.Typ))
		}
		return b
	case t.Op == "bin":
		x := bitsOf(t.Args[0], arr)
		y := bitsOf(t.Args[1], arr)
		n := 64
		if isInteger(t.Typ) {
			n = intSize(t.Typ)
		}
		r := topBits()
		switch t.Sym {
		case "&", "|", "&^", "+", "^":
			if t.Sym == "&^" {
				for i := range y {
					switch y[i].k {
					case '0':
						y[i].k = '1'
					case '1':
						y[i].k = '0'
					default:
						y[i] = bitv{k: '?'}
					}
				}
			}
			if t.Sym == "+" {
				for i := range x {
					if x[i].k != '0' && y[i].k != '0' {
						return topBits()
					}
				}
			}
			for i := range r {
				a, b := x[i], y[i]
				if b.k == '0' || b.k == '1' {
					a, b = b, a
				}
				switch t.Sym {
				case "&", "&^":
					if a.k == '0' {
						r[i] = a
					} else if a.k == '1' || a == b && a.k == 'b' {
						r[i] = b
					}
				case "|", "+":
					if a.k == '1' {
						r[i] = a
					} else if a.k == '0' || a == b && a.k == 'b' {
						r[i] = b
					}
				case "^":
					if a.k == '0' {
						r[i] = b
					} else if a.k == '1' && b.k == '1' {
						r[i].k = '0'
					} else if a.k == '1' && b.k == '0' {
						r[i].k = '1'
					}
				}
			}
		case "<<", ">>", "*", "/", "%":
			k, ok := t.Args[1].Int()
			if t.Sym == "*" || t.Sym == "/" || t.Sym == "%" {
				if !ok || k <= 0 || k&(k-1) != 0 {
					return topBits()
				}
				l := int64(0)
				for 1<<uint(l) != k {
					l++
				}
				if t.Sym == "%" {
					return trunc(x, int(l))
				}
				k = l
			}
			if !ok || k < 0 || k > 63 {
				return topBits()
			}
			for i := range r {
				j := i - int(k)
				if t.Sym == ">>" || t.Sym == "/" {
					j = i + int(k)
				}
				if j >= 0 && j < 64 {
					r[i] = x[j]
				} else {
					r[i] = bitv{k: '0'}
				}
			}
		}
		return trunc(r, n)
	}
	return topBits()
}
