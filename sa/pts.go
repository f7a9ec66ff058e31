package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A whole-library points-to analysis (inclusion based, flow and context
// insensitive, field sensitive) with contracts for merkledag's nodes.

type loc struct {
	o    *pobj
	path string
}

// pobj is an abstract object: a place in the code that makes one, or a value
// that comes from outside.
type pobj struct {
	id    int
	site  ssa.Instruction // nil for the callers' objects
	what  string
	entry string // the parameter a caller passes it as
	typ   types.Type
}

type locset map[loc]bool

// pctx is a calling context: the last call sites.
type pctx [pctxLen]ssa.CallInstruction

const pctxLen = 3

func (x pctx) then(i ssa.CallInstruction) pctx {
	copy(x[:], x[1:])
	x[pctxLen-1] = i
	return x
}

type pkey struct {
	x pctx
	k any
}

type pval struct {
	x pctx
	v ssa.Value
}

type pfn struct {
	x pctx
	f *ssa.Function
}

// closureObj is the code of a function value and where it was made.
type closureObj struct {
	f  *ssa.Function
	x  pctx
	bs []ssa.Value
}

type pointsTo struct {
	w        *World
	objs     map[pkey]*pobj
	all      []*pobj
	cont     map[loc]locset     // what a place holds
	byObj    map[*pobj][]string // paths with contents
	vals     map[pval]*pobj     // the register of a value
	rets     map[pfn]*pobj
	x        pctx // the context being looked at
	seen     map[pfn]bool
	work     []pfn
	roots    []*ssa.Function
	fns      []*ssa.Function
	inlib    map[*ssa.Function]bool
	changed  bool
	impls    map[string][]*ssa.Function
	fnOf     map[*pobj]closureObj
	mutation []mutation
	unsolved bool
}

type mutation struct {
	fn   *ssa.Function
	at   ssa.Instruction
	what string
	to   loc
	x    pctx
}

// spare: an append that may only write behind the end of the slice.
const spare = "append"

func newPointsTo(w *World) *pointsTo {
	p := &pointsTo{w: w, objs: map[pkey]*pobj{}, cont: map[loc]locset{}, byObj: map[*pobj][]string{}, vals: map[pval]*pobj{}, rets: map[pfn]*pobj{}, inlib: map[*ssa.Function]bool{}, impls: map[string][]*ssa.Function{}, fnOf: map[*pobj]closureObj{}, seen: map[pfn]bool{}}
	for _, fn := range w.Fns {
		if w.production(fn) && fn.Blocks != nil {
			p.fns = append(p.fns, fn)
			p.inlib[fn] = true
			if fn.Signature.Recv() != nil {
				p.impls[fn.Name()] = append(p.impls[fn.Name()], fn)
			}
		}
	}
	return p
}

func (p *pointsTo) obj(key any, site ssa.Instruction, what string) *pobj {
	k := pkey{p.x, key}
	if site == nil {
		k.x = pctx{}
	}
	if o := p.objs[k]; o != nil {
		return o
	}
	o := &pobj{id: len(p.all), site: site, what: what}
	p.objs[k] = o
	p.all = append(p.all, o)
	return o
}

// reg is the place of a value.
func (p *pointsTo) reg(v ssa.Value) *pobj {
	return p.regIn(p.x, v)
}

func (p *pointsTo) regIn(x pctx, v ssa.Value) *pobj {
	k := pval{x, v}
	if o := p.vals[k]; o != nil {
		return o
	}
	o := &pobj{id: -1, what: "value"}
	p.vals[k] = o
	return o
}

func (p *pointsTo) add(l loc, t loc) {
	if len(l.path) > 80 || len(t.path) > 80 {
		return
	}
	s := p.cont[l]
	if s == nil {
		s = locset{}
		p.cont[l] = s
		p.byObj[l.o] = append(p.byObj[l.o], l.path)
	}
	if !s[t] {
		s[t] = true
		p.changed = true
	}
}

// flow copies the contents below one place to below another.
func (p *pointsTo) flow(from, to loc) {
	if from == to {
		return
	}
	for _, path := range append([]string(nil), p.byObj[from.o]...) {
		if !strings.HasPrefix(path, from.path) {
			continue
		}
		rest := path[len(from.path):]
		if rest != "" && from.path != "" && rest[0] != '.' && rest[0] != '[' && rest[0] != '$' {
			continue
		}
		for t := range p.cont[loc{from.o, path}] {
			p.add(loc{to.o, to.path + rest}, t)
		}
	}
}

// get is what a pointer-like value may point to.
func (p *pointsTo) get(v ssa.Value) []loc {
	switch v := v.(type) {
	case *ssa.Global:
		return []loc{{p.obj(v, nil, "global "+v.Name()), ""}}
	case *ssa.Function:
		o := p.obj(v, nil, "func")
		if p.inlib[v] {
			p.fnOf[o] = closureObj{f: v}
		}
		return []loc{{o, ""}}
	case *ssa.Const, nil:
		return nil
	}
	var out []loc
	for t := range p.cont[loc{p.reg(v), ""}] {
		out = append(out, t)
	}
	return out
}

func (p *pointsTo) set(v ssa.Value, t loc) { p.add(loc{p.reg(v), ""}, t) }

// assign: one value to another, whatever their type.
func (p *pointsTo) assign(from, to ssa.Value) {
	switch from.(type) {
	case *ssa.Global, *ssa.Function:
		for _, t := range p.get(from) {
			p.set(to, t)
		}
		return
	case *ssa.Const, nil:
		return
	}
	p.flow(loc{p.reg(from), ""}, loc{p.reg(to), ""})
}

// outside fills an object that comes from outside.
func (p *pointsTo) outside(o *pobj, t types.Type) {
	s := typStr(t)
	switch {
	case nodeLike(s):
		p.nodeParts(o)
		p.add(loc{o, "$L[]"}, loc{o, "$l"})
	case s == "[]*ipld.Link":
		p.add(loc{o, "[]"}, loc{o, "$l"})
	}
}

func nodeLike(s string) bool {
	switch s {
	case "ipld.Node", "*dag.ProtoNode", "*dag.RawNode", "dag.ProtoNode", "dag.RawNode":
		return true
	}
	return false
}

// nodeParts: the lists a node keeps.
func (p *pointsTo) nodeParts(o *pobj) {
	p.add(loc{o, ".$links"}, loc{o, "$L"})
	p.add(loc{o, ".$data"}, loc{o, "$D"})
	p.add(loc{o, ".$raw"}, loc{o, "$R"})
}

// caller makes the object passed by a caller as a parameter.
func (p *pointsTo) caller(fn *ssa.Function, i int) *pobj {
	prm := fn.Params[i]
	o := p.obj("caller "+fnName(fn)+strconv.Itoa(i), nil, "what the caller of "+fnName(fn)+" passes as "+prm.Name())
	o.entry = fnName(fn) + ":" + prm.Name()
	p.outside(o, prm.Type())
	p.set(prm, loc{o, ""})
	return o
}

func (p *pointsTo) solve() {
	for _, fn := range p.fns {
		if p.public(fn) {
			p.roots = append(p.roots, fn)
			p.visit(pfn{f: fn})
		}
	}
	for n := 0; n < 200; n++ {
		p.changed = false
		p.mutation = p.mutation[:0]
		p.x = pctx{}
		p.receivers()
		for k := 0; k < len(p.work); k++ {
			w := p.work[k]
			p.x = w.x
			for _, b := range w.f.Blocks {
				for _, i := range b.Instrs {
					p.instr(w.f, i)
				}
			}
		}
		if !p.changed {
			return
		}
	}
	p.unsolved = true
}

// public: callers can reach the function.
func (p *pointsTo) public(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported()
}

func (p *pointsTo) visit(k pfn) {
	if !p.seen[k] {
		p.seen[k] = true
		p.work = append(p.work, k)
		p.changed = true
	}
}

// receivers: a public function works on whatever the library made that fits.
func (p *pointsTo) receivers() {
	for _, fn := range p.roots {
		for _, prm := range fn.Params {
			t := prm.Type()
			if nodeLike(typStr(t)) {
				continue
			}
			it, isI := t.Underlying().(*types.Interface)
			if !strings.Contains(t.String(), repoMod) {
				continue
			}
			for _, o := range p.all {
				if o.typ == nil {
					continue
				}
				if types.Identical(o.typ, t) || isI && types.Implements(o.typ, it) {
					p.set(prm, loc{o, ""})
				}
			}
		}
	}
}

func (p *pointsTo) mutate(fn *ssa.Function, at ssa.Instruction, what string, to loc) {
	p.mutation = append(p.mutation, mutation{fn, at, what, to, p.x})
}

func (p *pointsTo) instr(fn *ssa.Function, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Alloc:
		o := p.obj(i, i, "made in "+fnName(fn))
		o.typ = i.Type()
		if nodeLike(typStr(deref(i.Type()))) {
			p.nodeParts(o)
		}
		p.set(i, loc{o, ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		p.set(i.(ssa.Value), loc{p.obj(i, i, "made in "+fnName(fn)), ""})
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		o := p.obj(i, i, "closure")
		p.set(i, loc{o, ""})
		p.fnOf[o] = closureObj{f, p.x, i.Bindings}
	case *ssa.Phi:
		for _, e := range i.Edges {
			p.assign(e, i)
		}
	case *ssa.MakeInterface:
		p.assign(i.X, i)
	case *ssa.ChangeInterface:
		p.assign(i.X, i)
	case *ssa.ChangeType:
		p.assign(i.X, i)
	case *ssa.Convert:
		p.assign(i.X, i)
	case *ssa.TypeAssert:
		if i.CommaOk {
			p.flow(loc{p.reg(i.X), ""}, loc{p.reg(i), "#0"})
		} else {
			p.assign(i.X, i)
		}
	case *ssa.Extract:
		p.flow(loc{p.reg(i.Tuple), "#" + strconv.Itoa(i.Index)}, loc{p.reg(i), ""})
	case *ssa.FieldAddr:
		f := "." + fieldNameOf(i)
		for _, t := range p.get(i.X) {
			p.set(i, loc{t.o, t.path + f})
		}
	case *ssa.Field:
		st, _ := isStruct(i.X.Type())
		p.flow(loc{p.reg(i.X), "." + st.Field(i.Field).Name()}, loc{p.reg(i), ""})
	case *ssa.IndexAddr:
		for _, t := range p.get(i.X) {
			p.set(i, loc{t.o, t.path + "[]"})
		}
	case *ssa.Index:
		p.flow(loc{p.reg(i.X), "[]"}, loc{p.reg(i), ""})
	case *ssa.Slice:
		for _, t := range p.get(i.X) {
			p.set(i, t)
		}
	case *ssa.UnOp:
		switch i.Op.String() {
		case "*":
			for _, t := range p.get(i.X) {
				p.flow(t, loc{p.reg(i), ""})
			}
		case "<-":
			to := loc{p.reg(i), ""}
			if i.CommaOk {
				to.path = "#0"
			}
			for _, t := range p.get(i.X) {
				p.flow(loc{t.o, t.path + "[]"}, to)
			}
		}
	case *ssa.Store:
		p.store(fn, i)
	case *ssa.Send:
		for _, t := range p.get(i.Chan) {
			p.flow(loc{p.reg(i.X), ""}, loc{t.o, t.path + "[]"})
		}
	case *ssa.Select:
		n := 2
		for _, s := range i.States {
			for _, t := range p.get(s.Chan) {
				if s.Send != nil {
					p.flow(loc{p.reg(s.Send), ""}, loc{t.o, t.path + "[]"})
				} else {
					p.flow(loc{t.o, t.path + "[]"}, loc{p.reg(i), "#" + strconv.Itoa(n)})
				}
			}
			if s.Send == nil {
				n++
			}
		}
	case *ssa.MapUpdate:
		for _, t := range p.get(i.Map) {
			p.flow(loc{p.reg(i.Value), ""}, loc{t.o, t.path + "[]"})
			p.flow(loc{p.reg(i.Key), ""}, loc{t.o, t.path + "[k]"})
			p.mutate(fn, i, "map update", loc{t.o, t.path + "[]"})
		}
	case *ssa.Lookup:
		to := loc{p.reg(i), ""}
		if i.CommaOk {
			to.path = "#0"
		}
		for _, t := range p.get(i.X) {
			p.flow(loc{t.o, t.path + "[]"}, to)
		}
	case *ssa.Range:
		p.assign(i.X, i)
	case *ssa.Next:
		for _, t := range p.get(i.Iter) {
			p.flow(loc{t.o, t.path + "[k]"}, loc{p.reg(i), "#1"})
			p.flow(loc{t.o, t.path + "[]"}, loc{p.reg(i), "#2"})
		}
	case *ssa.Return:
		r := p.ret(fn)
		for n, x := range i.Results {
			to := loc{r, "#" + strconv.Itoa(n)}
			switch x.(type) {
			case *ssa.Function, *ssa.Global:
				for _, t := range p.get(x) {
					p.add(to, t)
				}
			default:
				if x != nil {
					p.flow(loc{p.reg(x), ""}, to)
				}
			}
		}
	case ssa.CallInstruction:
		p.call(fn, i)
	}
}

func (p *pointsTo) ret(fn *ssa.Function) *pobj {
	return p.retIn(p.x, fn)
}

func (p *pointsTo) retIn(x pctx, fn *ssa.Function) *pobj {
	k := pfn{x, fn}
	if p.rets[k] == nil {
		p.rets[k] = &pobj{id: -1, what: "results"}
	}
	return p.rets[k]
}

func (p *pointsTo) store(fn *ssa.Function, i *ssa.Store) {
	for _, t := range p.get(i.Addr) {
		switch i.Val.(type) {
		case *ssa.Function, *ssa.Global:
			for _, x := range p.get(i.Val) {
				p.add(t, x)
			}
		case *ssa.Const:
		default:
			p.flow(loc{p.reg(i.Val), ""}, t)
		}
		p.mutate(fn, i, "store", t)
	}
}

// args of a call, the receiver of an interface call first.
func (p *pointsTo) call(fn *ssa.Function, i ssa.CallInstruction) {
	cc := i.Common()
	res := i.Value()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		p.builtin(fn, i, b.Name(), cc.Args, res)
		return
	}
	var callees []closureObj
	args := cc.Args
	name := ""
	external := false
	switch {
	case cc.IsInvoke():
		name = cc.Method.Name()
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		if !nodeLike(typStr(cc.Value.Type())) {
			it, _ := cc.Value.Type().Underlying().(*types.Interface)
			for _, f := range p.impls[name] {
				if it != nil && types.Implements(f.Signature.Recv().Type(), it) {
					callees = append(callees, closureObj{f: f})
				}
			}
		}
		external = len(callees) == 0 || !strings.HasPrefix(typStr(cc.Value.Type()), "uio.")
	default:
		if f := cc.StaticCallee(); f != nil {
			if p.inlib[f] {
				callees = append(callees, closureObj{f: f})
			} else {
				external = true
				name = fnName(f)
			}
			if _, ok := cc.Value.(*ssa.MakeClosure); !ok {
				break
			}
			callees, external = nil, false
		}
		for _, t := range p.get(cc.Value) {
			if f, ok := p.fnOf[t.o]; ok {
				callees = append(callees, f)
			}
		}
		external = len(callees) == 0
	}
	for _, f := range callees {
		p.enter(i, f, args, res)
	}
	if external {
		p.external(fn, i, name, args, res)
	}
}

// enter hands the arguments of a call to a function and takes its results.
func (p *pointsTo) enter(i ssa.CallInstruction, f closureObj, args []ssa.Value, res ssa.Value) {
	x := p.x.then(i)
	for n, a := range args {
		if n < len(f.f.Params) {
			p.hand(p.x, a, x, f.f.Params[n])
		}
	}
	for n, b := range f.bs {
		p.hand(f.x, b, x, f.f.FreeVars[n])
	}
	p.visit(pfn{x, f.f})
	if res != nil {
		r := p.retIn(x, f.f)
		if f.f.Signature.Results().Len() == 1 {
			p.flow(loc{r, "#0"}, loc{p.reg(res), ""})
		} else {
			p.flow(loc{r, ""}, loc{p.reg(res), ""})
		}
	}
}

func (p *pointsTo) hand(x pctx, from ssa.Value, y pctx, to ssa.Value) {
	old := p.x
	defer func() { p.x = old }()
	p.x = x
	switch from.(type) {
	case *ssa.Const, nil:
	case *ssa.Global, *ssa.Function:
		for _, t := range p.get(from) {
			p.add(loc{p.regIn(y, to), ""}, t)
		}
	default:
		p.flow(loc{p.reg(from), ""}, loc{p.regIn(y, to), ""})
	}
}

func (p *pointsTo) builtin(fn *ssa.Function, i ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	switch name {
	case "append":
		o := p.obj(i, i, "made in "+fnName(fn))
		for _, t := range p.get(args[0]) {
			p.set(res, t)
			p.flow(loc{t.o, t.path + "[]"}, loc{o, "[]"})
		}
		p.set(res, loc{o, ""})
		if len(args) > 1 {
			for _, t := range p.get(args[1]) {
				p.flow(loc{t.o, t.path + "[]"}, loc{o, "[]"})
				for _, d := range p.get(args[0]) {
					p.flow(loc{t.o, t.path + "[]"}, loc{d.o, d.path + "[]"})
				}
			}
		}
		for _, d := range p.get(args[0]) {
			if cutShort(args[0], map[ssa.Value]bool{}) {
				p.mutate(fn, i, "append in place", loc{d.o, d.path + "[]"})
			} else {
				p.mutate(fn, i, spare, loc{d.o, d.path + "[]"})
			}
		}
	case "copy":
		for _, d := range p.get(args[0]) {
			for _, t := range p.get(args[1]) {
				p.flow(loc{t.o, t.path + "[]"}, loc{d.o, d.path + "[]"})
			}
			p.mutate(fn, i, "copy", loc{d.o, d.path + "[]"})
		}
	case "delete", "clear":
		for _, d := range p.get(args[0]) {
			p.mutate(fn, i, name, loc{d.o, d.path + "[]"})
		}
	}
}

// cutShort: the slice may have been cut, so that appending overwrites.
func cutShort(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.High != nil && v.Max == nil {
			return true
		}
		return cutShort(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if cutShort(e, seen) {
				return true
			}
		}
	}
	return false
}

func (p *pointsTo) external(fn *ssa.Function, i ssa.CallInstruction, name string, args []ssa.Value, res ssa.Value) {
	m := name
	if k := strings.LastIndex(m, "."); k >= 0 {
		m = m[k+1:]
	}
	isNode := len(args) > 0 && nodeLike(typStr(args[0].Type()))
	site := p.obj(i, i, "made in "+fnName(fn))
	if isNode {
		for _, t := range p.get(args[0]) {
			if t.path != "" {
				continue
			}
			n := t.o
			edit := func(what string) { p.mutate(fn, i, what, loc{n, ""}) }
			links := func(what string) {
				for l := range p.cont[loc{n, ".$links"}] {
					p.mutate(fn, i, what, loc{l.o, l.path + "[]"})
				}
			}
			switch m {
			case "Links":
				p.flow(loc{n, ".$links"}, loc{p.reg(res), ""})
			case "Data":
				p.flow(loc{n, ".$data"}, loc{p.reg(res), ""})
			case "RawData":
				p.flow(loc{n, ".$raw"}, loc{p.reg(res), ""})
			case "Copy":
				p.nodeParts(site)
				for l := range p.cont[loc{n, ".$links"}] {
					p.flow(loc{l.o, l.path + "[]"}, loc{site, "$L[]"})
				}
				p.set(res, loc{site, ""})
			case "SetData":
				edit(m)
				if len(args) > 1 {
					p.flow(loc{p.reg(args[1]), ""}, loc{n, ".$data"})
				}
			case "SetLinks":
				edit(m)
				if len(args) > 1 {
					p.flow(loc{p.reg(args[1]), ""}, loc{n, ".$links"})
				}
			case "AddNodeLink", "AddRawLink":
				edit(m)
				for l := range p.cont[loc{n, ".$links"}] {
					p.add(loc{l.o, l.path + "[]"}, loc{site, "$l"})
				}
			case "RemoveNodeLink":
				edit(m)
				links(m)
			case "SetCidBuilder", "UnmarshalJSON":
				edit(m)
			}
		}
	}
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		for _, t := range p.get(args[0]) {
			p.mutate(fn, i, name, loc{t.o, t.path + "[]"})
		}
	}
	// bit fields are byte slices their methods write to
	if (m == "SetBit" || m == "UnsetBit" || m == "SetBytes") && strings.Contains(name, "bitfield") {
		for _, t := range p.get(args[0]) {
			p.mutate(fn, i, m, loc{t.o, t.path + "[]"})
		}
	}
	// byte slices filled by readers
	if m == "Read" || m == "ReadFull" || m == "ReadAtLeast" || m == "ReadAt" || m == "CtxReadFull" || m == "MarshalTo" || m == "PutUint64" {
		for _, a := range args {
			if typStr(a.Type()) == "[]byte" {
				for _, t := range p.get(a) {
					p.mutate(fn, i, m, loc{t.o, t.path + "[]"})
				}
			}
		}
	}
	if (name == "bytes.NewBuffer" || name == "bytes.NewReader") && len(args) > 0 {
		p.flow(loc{p.reg(args[0]), ""}, loc{site, ".$raw"})
	}
	if m == "NewRawNode" || m == "NewRawNodeWPrefix" || m == "NodeWithData" {
		p.nodeParts(site)
		if len(args) > 0 {
			f := ".$raw"
			if m == "NodeWithData" {
				f = ".$data"
			}
			p.flow(loc{p.reg(args[0]), ""}, loc{site, f})
		}
	}
	// functions handed out are called with things from outside
	for _, a := range args {
		for _, t := range p.get(a) {
			f, ok := p.fnOf[t.o]
			if !ok {
				continue
			}
			p.enter(i, f, nil, nil)
			for n, q := range f.f.Params {
				o := p.obj([2]any{i, n}, i, "from outside")
				p.outside(o, q.Type())
				p.add(loc{p.regIn(p.x.then(i), q), ""}, loc{o, ""})
			}
		}
	}
	if res == nil || isNode && (m == "Links" || m == "Data" || m == "RawData" || m == "Copy") {
		return
	}
	rs := i.Common().Signature().Results()
	for n := 0; n < rs.Len(); n++ {
		t := rs.At(n).Type()
		if isErr(t) || isContext(t) {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan:
		default:
			continue
		}
		o := site
		if n > 0 {
			o = p.obj([2]any{i, "r" + strconv.Itoa(n)}, i, "made in "+fnName(fn))
		}
		p.outside(o, t)
		to := loc{p.reg(res), ""}
		if rs.Len() > 1 {
			to.path = "#" + strconv.Itoa(n)
		}
		p.add(to, loc{o, ""})
	}
}

// reach collects what is reachable from some places.
func (p *pointsTo) reach(from []loc) map[loc]bool {
	out := map[loc]bool{}
	work := append([]loc(nil), from...)
	for len(work) > 0 {
		l := work[0]
		work = work[1:]
		if out[l] {
			continue
		}
		out[l] = true
		if f, ok := p.fnOf[l.o]; ok {
			old := p.x
			p.x = f.x
			for _, b := range f.bs {
				work = append(work, p.get(b)...)
			}
			p.x = old
		}
		for _, path := range p.byObj[l.o] {
			if strings.HasPrefix(path, l.path) {
				for t := range p.cont[loc{l.o, path}] {
					if !out[t] {
						work = append(work, t)
					}
				}
			}
		}
	}
	return out
}

// touches: a place changed is part of a place of the set.
func touches(to loc, set map[loc]bool) (loc, bool) {
	var hits []loc
	for l := range set {
		if l.o == to.o && strings.HasPrefix(to.path, l.path) {
			hits = append(hits, l)
		}
	}
	if len(hits) == 0 {
		return loc{}, false
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].path < hits[j].path })
	return hits[0], true
}
