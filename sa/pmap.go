package main

// pmap is a small persistent map from int to V (a treap with hashed priorities).
type pmap[V any] struct{ root *pnode[V] }

type pnode[V any] struct {
	k    int
	p    uint32
	v    V
	l, r *pnode[V]
}

func prio(k int) uint32 {
	x := uint32(k) * 2654435761
	x ^= x >> 15
	x *= 2246822519
	x ^= x >> 13
	return x
}

func (m pmap[V]) get(k int) (V, bool) {
	n := m.root
	for n != nil {
		if k == n.k {
			return n.v, true
		}
		if k < n.k {
			n = n.l
		} else {
			n = n.r
		}
	}
	var z V
	return z, false
}

func (m pmap[V]) set(k int, v V) pmap[V] { return pmap[V]{pset(m.root, k, v)} }

func pset[V any](n *pnode[V], k int, v V) *pnode[V] {
	if n == nil {
		return &pnode[V]{k: k, p: prio(k), v: v}
	}
	c := *n
	if k == n.k {
		c.v = v
		return &c
	}
	if k < n.k {
		c.l = pset(n.l, k, v)
		if c.l.p > c.p { // rotate right
			l := *c.l
			c.l = l.r
			l.r = &c
			return &l
		}
		return &c
	}
	c.r = pset(n.r, k, v)
	if c.r.p > c.p {
		r := *c.r
		c.r = r.l
		r.l = &c
		return &r
	}
	return &c
}

func (m pmap[V]) each(f func(int, V)) {
	var rec func(n *pnode[V])
	rec = func(n *pnode[V]) {
		if n == nil {
			return
		}
		rec(n.l)
		f(n.k, n.v)
		rec(n.r)
	}
	rec(m.root)
}

// del removes a key.
func (m pmap[V]) del(k int) pmap[V] { return pmap[V]{pdel(m.root, k)} }

func pdel[V any](n *pnode[V], k int) *pnode[V] {
	if n == nil {
		return nil
	}
	if k == n.k {
		return pmerge(n.l, n.r)
	}
	c := *n
	if k < n.k {
		c.l = pdel(n.l, k)
	} else {
		c.r = pdel(n.r, k)
	}
	return &c
}

func pmerge[V any](a, b *pnode[V]) *pnode[V] {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.p > b.p {
		c := *a
		c.r = pmerge(a.r, b)
		return &c
	}
	c := *b
	c.l = pmerge(a, b.l)
	return &c
}
