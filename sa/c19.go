package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C19"] = ruleDef{func(c *Checker) { c19(c) }}
	rules["C36"] = ruleDef{func(c *Checker) { c36(c) }}
}

func givenType(s string) bool {
	return nodeLike(s) || s == "*ipld.Link" || s == "[]*ipld.Link"
}

func c19(c *Checker) {
	p := newPointsTo(c.W)
	given := map[*pobj]bool{}
	for _, fn := range p.fns {
		if !p.public(fn) || !keepsNodes(fn) {
			continue
		}
		for i, prm := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				continue
			}
			if givenType(typStr(prm.Type())) {
				given[p.caller(fn, i)] = true
				c.entries[fnName(fn)] = true
			}
		}
	}
	p.solve()
	c.Ob("analysis-complete", "points-to analysis", !p.unsolved, "", nil, "no fixed point")
	reach := map[*pobj]map[loc]bool{}
	for o := range given {
		reach[o] = p.reach([]loc{{o, ""}})
	}
	type handed struct {
		fn  *ssa.Function
		set map[loc]bool
	}
	var out []handed
	for _, fn := range p.roots {
		if recvType(fn) != "*mod.DagModifier" {
			continue
		}
		rs := fn.Signature.Results()
		for n := 0; n < rs.Len(); n++ {
			if givenType(typStr(rs.At(n).Type())) {
				var from []loc
				for l := range p.cont[loc{p.retIn(pctx{}, fn), "#" + itoa(n)}] {
					from = append(from, l)
				}
				c.Ob("handed-out-node", fnName(fn), len(from) > 0, c.W.Pos(fn.Pos()), nil, "where the node handed out by %s comes from is not known", fnName(fn))
				out = append(out, handed{fn, p.reach(from)})
			}
		}
	}
	for _, m := range p.mutation {
		if m.what == spare {
			continue
		}
		c.fns[m.fn] = true
		bad := ""
		for o, set := range reach {
			if _, ok := touches(m.to, set); ok && (bad == "" || o.what < bad) {
				bad = o.what
			}
		}
		where := fnName(m.fn) + "@" + c.W.Pos(m.at.Pos()) + " " + m.to.o.what + m.to.path
		if c.once("own " + where) {
			c.Ob("callers-node-untouched", where, bad == "", c.W.Pos(m.at.Pos()), nil, "%s (%s) changes part of %s", m.what, fnName(m.fn), bad)
		} else if bad != "" {
			c.Fail("callers-node-untouched", where, c.W.Pos(m.at.Pos()), nil, "%s (%s) changes part of %s", m.what, fnName(m.fn), bad)
		}
		for _, h := range out {
			l, hit := touches(m.to, h.set)
			hit = hit && !fresh(m.at)
			if hit {
				c.Fail("handed-out-node", where, c.W.Pos(m.at.Pos()), nil, "%s (%s) changes part of the node handed out by %s (%s)", m.what, fnName(m.fn), fnName(h.fn), l.o.what)
			} else if c.once("out " + fnName(h.fn) + where) {
				c.note("handed-out-node", where)
			}
		}
	}
	for w := range p.seen {
		c.fns[w.f] = true
	}
	c.Assume("merkledag's nodes behave as documented: Copy copies the node, its data and its list of links but not the links; Links and Data hand out what the node keeps; AddNodeLink and AddRawLink keep a link of their own; RemoveNodeLink and SetLinks change the list of the node only")
	c.Assume("a DAGService hands out a node of its own on every Get, and neither it nor a callback changes the nodes it is passed")
	c.Min("callers-node-untouched", 100)
	c.Min("handed-out-node", 100)
}

// keepsNodes: the function promises its caller not to change what is passed.
func keepsNodes(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		return false
	}
	switch shortPkg(pk.Pkg.Path()) {
	case "uio", "hamt", "mod", "unixfile", "unixfs":
		return true
	}
	return fnName(fn) == "trickle.VerifyTrickleDagStructure"
}

// fresh: a store into something the function has just made and not yet put
// anywhere.
func fresh(at ssa.Instruction) bool {
	st, ok := at.(*ssa.Store)
	if !ok {
		return false
	}
	v := st.Addr
	for {
		if f, ok := v.(*ssa.FieldAddr); ok {
			v = f.X
			continue
		}
		break
	}
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	var esc []ssa.Instruction
	uses(a, func(i ssa.Instruction) { esc = append(esc, i) }, map[ssa.Value]bool{})
	for _, e := range esc {
		if flowsTo(e, at, a) {
			return false
		}
	}
	return true
}

// uses finds the instructions that put a pointer somewhere else.
func uses(v ssa.Value, f func(ssa.Instruction), seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			uses(r, f, seen)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == v {
				f(r)
			}
		default:
			f(r)
		}
	}
}

// flowsTo: the second instruction can run after the first without the third
// running in between.
func flowsTo(from, to, but ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(is []ssa.Instruction, b *ssa.BasicBlock) bool
	walk = func(is []ssa.Instruction, b *ssa.BasicBlock) bool {
		for _, i := range is {
			if i == to {
				return true
			}
			if i == but {
				return false
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				if walk(n.Instrs, n) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for k, i := range b.Instrs {
		if i == from {
			return walk(b.Instrs[k+1:], b)
		}
	}
	return true
}

// c36: the byte slices passed to Read and Write calls.
func c36(c *Checker) {
	p := newPointsTo(c.W)
	type buf struct {
		fn *ssa.Function
		i  int
		o  *pobj
		w  bool
	}
	var bufs []buf
	for _, fn := range p.fns {
		if !p.public(fn) || fn.Signature.Recv() == nil {
			continue
		}
		n := fn.Name()
		read, write := n == "Read" || n == "ReadAt" || n == "CtxReadFull", n == "Write" || n == "WriteAt"
		if !read && !write {
			continue
		}
		for i, prm := range fn.Params {
			if typStr(prm.Type()) == "[]byte" {
				c.entries[fnName(fn)] = true
				bufs = append(bufs, buf{fn, i, p.caller(fn, i), write})
			}
		}
	}
	p.solve()
	c.Ob("analysis-complete", "points-to analysis", !p.unsolved, "", nil, "no fixed point")
	for w := range p.seen {
		c.fns[w.f] = true
	}
	for _, b := range bufs {
		name := fnName(b.fn)
		p.x = pctx{}
		kept := ""
		for l := range p.reach(p.get(b.fn.Params[0])) {
			if l.o == b.o && (kept == "" || l.path < kept) {
				kept = "the receiver"
			}
		}
		for _, o := range p.all {
			if o.what != "" && strings.HasPrefix(o.what, "global ") {
				for l := range p.reach([]loc{{o, ""}}) {
					if l.o == b.o {
						kept = o.what
					}
				}
			}
		}
		c.Ob("buffer-not-kept", name, kept == "", c.W.Pos(b.fn.Pos()), nil, "%s keeps the slice passed as %s in %s", name, b.fn.Params[b.i].Name(), kept)
		if !b.w {
			continue
		}
		set := map[loc]bool{{b.o, ""}: true}
		bad := false
		for _, m := range p.mutation {
			if _, ok := touches(m.to, set); ok {
				bad = true
				c.Fail("written-bytes-untouched", name+"@"+c.W.Pos(m.at.Pos()), c.W.Pos(m.at.Pos()), nil, "%s (%s) changes the bytes passed to %s", m.what, fnName(m.fn), name)
			}
		}
		if !bad {
			c.note("written-bytes-untouched", name)
		}
	}
	c.Min("buffer-not-kept", 4)
	c.Min("written-bytes-untouched", 2)
	c.Assume("bytes.Buffer, the DAGService and merkledag copy what they are given to write or to read into, unless a constructor is documented to use the slice itself (bytes.NewBuffer, bytes.NewReader, NewRawNode, NodeWithData, SetData)")
}
