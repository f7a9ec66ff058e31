package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Checker runs the rules of one property and collects their obligations.
type Checker struct {
	W        *World
	ID       string
	Tier     string
	Seed     int
	obl      map[string]int             // rule -> obligations evaluated
	sites    map[string]map[string]bool // rule -> distinct constructs
	order    []string
	viols    []*violation
	vkeys    map[string]bool
	paths    int
	cut      int
	steps    int
	infeas   int
	fns      map[*ssa.Function]bool
	entries  map[string]bool
	assume   []string
	samples  []string
	explain  string
	mins     []minReq
	undecide []string
	memo     map[string]bool
	proofs   map[[3]any]bool
	fresh    map[string]bool
	demand   map[*ssa.Function]bool // helpers whose callers know there is another chunk
	asking   *ssa.Function
	probe    bool
}

type minReq struct {
	rule string
	n    int
}

type violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Msg       string   `json:"message"`
	Path      []string `json:"path,omitempty"`
}

func (v *violation) key() string { return v.Rule + "|" + v.Construct }

func newChecker(w *World, id, tier string, seed int) *Checker {
	return &Checker{W: w, ID: id, Tier: tier, Seed: seed, obl: map[string]int{}, sites: map[string]map[string]bool{},
		vkeys: map[string]bool{}, fns: map[*ssa.Function]bool{}, entries: map[string]bool{}}
}

func (c *Checker) note(rule, construct string) {
	if c.sites[rule] == nil {
		c.sites[rule] = map[string]bool{}
		c.order = append(c.order, rule)
	}
	c.obl[rule]++
	if !c.sites[rule][construct] {
		c.sites[rule][construct] = true
		if len(c.sites[rule]) <= 4 {
			c.samples = append(c.samples, rule+": "+construct)
		}
	}
}

// Ob records one obligation of a rule at a construct, and its outcome.
func (c *Checker) Ob(rule, construct string, ok bool, pos string, t *Trace, format string, a ...any) bool {
	c.note(rule, construct)
	if !ok {
		c.Fail(rule, construct, pos, t, format, a...)
	}
	return ok
}

// once: the first time it is asked about a key.
func (c *Checker) once(key string) bool {
	if c.memo == nil {
		c.memo = map[string]bool{}
	}
	if c.memo[key] {
		return false
	}
	c.memo[key] = true
	return true
}

// Fail reports a violation (once per rule and construct).
func (c *Checker) Fail(rule, construct, pos string, t *Trace, format string, a ...any) {
	v := &violation{Rule: rule, Construct: construct, Pos: pos, Msg: fmt.Sprintf(format, a...)}
	if c.vkeys[v.key()] {
		return
	}
	c.vkeys[v.key()] = true
	if t != nil {
		v.Path = append(v.Path, "entry "+fnName(t.Entry))
		n := 0
		for _, e := range t.Events {
			switch e.Kind {
			case "branch", "call", "store", "ret", "panic", "enter", "leave", "select", "send", "recv", "close", "cbreturn":
				if n++; n < 400 {
					s := c.W.fmtEvent(e)
					if len(s) > 400 {
						s = s[:400] + "…"
					}
					v.Path = append(v.Path, s)
				}
			}
		}
	}
	c.viols = append(c.viols, v)
}

// Min: the rule must have met at least n distinct constructs.
func (c *Checker) Min(rule string, n int) { c.mins = append(c.mins, minReq{rule, n}) }

func (c *Checker) Assume(s string) { c.assume = append(c.assume, s) }

// Fn resolves an anchor function; a missing one is a violation.
func (c *Checker) Fn(name string) *ssa.Function {
	f := c.W.Fn(name)
	if f == nil {
		c.Fail("anchor", name, "", nil, "function %s, which the property is about, does not exist any more: its obligations cannot be decided", name)
	}
	return f
}

// Run enumerates the abstract paths of fn.
func (c *Checker) Run(fn *ssa.Function, cfg Config, visit func(*Trace)) *Interp {
	return c.RunWith(fn, cfg, nil, visit)
}

func (c *Checker) RunWith(fn *ssa.Function, cfg Config, prep func(in *Interp), visit func(*Trace)) *Interp {
	if fn == nil {
		return nil
	}
	if c.Tier == "thorough" && cfg.MaxVisits == 0 {
		cfg.MaxVisits = 3
		if cfg.MaxPaths == 0 {
			cfg.MaxPaths = 1_000_000
		}
		if cfg.MaxSteps == 0 {
			cfg.MaxSteps = 400_000_000
		}
	}
	in := NewInterp(c.W, cfg)
	if prep != nil {
		prep(in)
	}
	n := 0
	in.Run(fn, func(t *Trace) { n++; visit(t) })
	c.account(in)
	c.entries[fnName(fn)] = true
	if in.Stats.Truncated && cfg.MaxVisits == 3 {
		// too many paths at the thorough unrolling: fall back to the quick one
		cfg.MaxVisits, cfg.MaxPaths, cfg.MaxSteps = 2, 0, 0
		in = NewInterp(c.W, cfg)
		if prep != nil {
			prep(in)
		}
		in.Run(fn, visit)
		c.account(in)
	}
	if in.Stats.Truncated {
		c.Fail("undecided", fnName(fn), c.W.Pos(fn.Pos()), nil, "the abstract paths of %s exceed the analysis budget", fnName(fn))
	}
	if n == 0 {
		c.Fail("undecided", fnName(fn), c.W.Pos(fn.Pos()), nil, "no abstract path of %s reaches an exit", fnName(fn))
	}
	return in
}

func (c *Checker) account(in *Interp) {
	c.paths += in.Stats.Paths
	c.cut += in.Stats.Cut
	c.steps += in.Stats.Steps
	c.infeas += in.Stats.Infeasible
	for f := range in.Stats.Fns {
		c.fns[f] = true
	}
}

// ---- command ----

type ruleDef struct {
	run func(*Checker)
}

var rules = map[string]ruleDef{}

func cmdCheck(args []string) int {
	repo, verif, id := "/repo", "/verif", ""
	verbose := false
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
		case "-v":
			verbose = true
		default:
			id = args[i]
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	ids := []string{id}
	if id == "all" {
		ids = nil
		for k := range rules {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	w, lerr := safeLoad(repo)
	rc := 0
	for _, id := range ids {
		if r := checkOne(w, lerr, repo, verif, id, tier, seed, verbose, start); r > rc {
			rc = r
		}
		start = time.Now()
	}
	return rc
}

func safeLoad(repo string) (w *World, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("load panicked: %v", r)
		}
	}()
	return Load(repo)
}

func checkOne(w *World, lerr error, repo, verif, id, tier string, seed int, verbose bool, start time.Time) int {
	c := newChecker(w, id, tier, seed)
	if lerr != nil {
		c.Fail("load", repo, "", nil, "the repository cannot be loaded and type-checked: %v", lerr)
	} else {
		r, ok := rules[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "no rules for", id)
			return 2
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail("undecided", "analyser", "", nil, "analysis of the current source failed: %v", e)
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}()
			r.run(c)
		}()
		for _, m := range c.mins {
			if n := len(c.sites[m.rule]); n < m.n {
				c.Fail("count", m.rule, "", nil, "rule %s matched %d constructs, fewer than the %d confirmed: the rest cannot be decided", m.rule, n, m.n)
			}
		}
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), id)
	var fresh []*violation
	for _, v := range c.viols {
		if known[v.key()] {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", id, v.key(), v.Pos, v.Msg)
			continue
		}
		fresh = append(fresh, v)
	}
	writeEvidence(c, verif, start, len(fresh))
	total := 0
	for _, n := range c.obl {
		total += n
	}
	nsites := 0
	for _, s := range c.sites {
		nsites += len(s)
	}
	if verbose {
		for _, r := range c.order {
			fmt.Printf("  %-40s %6d obligations %4d constructs\n", r, c.obl[r], len(c.sites[r]))
			for s := range c.sites[r] {
				fmt.Println("      ", s)
			}
		}
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s: %d obligations at %d constructs on %d paths through %d functions (%.1fs)\n", id, total, nsites, c.paths, len(c.fns), time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(verif, "evidence", id+".replay.json")
	b, _ := json.MarshalIndent(map[string]any{"property": id, "rerun": "./check " + id, "violations": fresh}, "", " ")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	os.WriteFile(rp, b, 0o644)
	for _, v := range fresh {
		fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
		if verbose {
			for _, l := range v.Path {
				fmt.Println("      ", l)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func loadKnown(path, id string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + id + " "
		if strings.HasPrefix(l, p) {
			// key is quoted: "rule|construct"
			rest := l[len(p):]
			if len(rest) > 1 && rest[0] == '"' {
				if j := strings.IndexByte(rest[1:], '"'); j >= 0 {
					out[rest[1:1+j]] = true
				}
			}
		}
	}
	return out
}

func writeEvidence(c *Checker, verif string, start time.Time, nv int) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	total, nsites := 0, 0
	per := map[string]any{}
	for _, r := range c.order {
		total += c.obl[r]
		nsites += len(c.sites[r])
		per[r] = map[string]any{"obligations": c.obl[r], "constructs": len(c.sites[r])}
	}
	failed := len(c.viols)
	ex := c.explain
	if ex == "" {
		ex = "static analysis of the type-checked SSA form"
	}
	var ents []string
	for e := range c.entries {
		ents = append(ents, e)
	}
	sort.Strings(ents)
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "other",
		"coverage": map[string]any{
			"explanation":             ex,
			"rules":                   per,
			"obligations":             total,
			"constructs":              nsites,
			"constructs_violated":     failed,
			"abstract_paths":          c.paths,
			"paths_cut_at_loop_bound": c.cut,
			"infeasible_branches":     c.infeas,
			"functions_analysed":      len(c.fns),
			"entries":                 ents,
			"samples":                 c.samples,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nv,
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
	}
}

// ---- trace helpers ----

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return t != nil && types.Identical(t, errType) }

func hasErrResult(sig *types.Signature) bool {
	r := sig.Results()
	return r.Len() > 0 && isErr(r.At(r.Len()-1).Type())
}

// ErrRet returns the error result of the trace, or nil if it has none.
func (t *Trace) ErrRet() *Term {
	if t.Outcome != "return" || !hasErrResult(t.Entry.Signature) || len(t.Rets) == 0 {
		return nil
	}
	return t.Rets[len(t.Rets)-1]
}

// Failed: the trace certainly reports an error (or panics).
func (t *Trace) Failed() bool {
	if t.Outcome != "return" {
		return true
	}
	e := t.ErrRet()
	if e == nil {
		return false
	}
	n, known := t.In.isNilKnown(&t.S, e)
	return known && !n
}

// Ok: the trace may report success.
func (t *Trace) Ok() bool { return !t.Failed() }

// IsNil / NonNil at the end of the trace.
func (t *Trace) IsNil(x *Term) bool {
	n, k := t.In.isNilKnown(&t.S, x)
	return k && n
}
func (t *Trace) NonNil(x *Term) bool {
	n, k := t.In.isNilKnown(&t.S, x)
	return k && !n
}

// errOf is the error term of a call event.
func (in *Interp) errOf(e *Event) *Term {
	if e.Res == nil {
		return nil
	}
	return in.errOfTerm(e.Res)
}

func (in *Interp) errOfTerm(r *Term) *Term {
	if r.Typ == nil {
		return nil
	}
	if isErr(r.Typ) {
		return r
	}
	if tp, ok := r.Typ.(*types.Tuple); ok && tp.Len() > 0 {
		if tp.Len() == 1 {
			if isErr(tp.At(0).Type()) {
				return r
			}
			return nil
		}
		if isErr(tp.At(tp.Len() - 1).Type()) {
			return in.TS.mk("extract", fmt.Sprint(tp.Len()-1), errType, r)
		}
	}
	return nil
}

// resOf is result n of a call event.
func (in *Interp) resOf(e *Event, n int) *Term {
	r := e.Res
	if r == nil {
		return nil
	}
	if r.Op == "tuple" {
		if n >= len(r.Args) {
			return nil
		}
		return r.Args[n]
	}
	if tp, ok := r.Typ.(*types.Tuple); ok {
		if n >= tp.Len() {
			return nil
		}
		if tp.Len() == 1 && n == 0 {
			return r
		}
		return in.TS.mk("extract", fmt.Sprint(n), tp.At(n).Type(), r)
	}
	return r
}

// calls yields the call events with the given name.
func (t *Trace) calls(names ...string) []*Event {
	var out []*Event
	for _, e := range t.Events {
		if e.Kind != "call" {
			continue
		}
		for _, n := range names {
			if e.Name == n {
				out = append(out, e)
			}
		}
	}
	return out
}

func (t *Trace) pos(e *Event) string {
	if e != nil && e.Instr != nil {
		p := e.Instr.Pos()
		if !p.IsValid() && e.In != nil {
			return t.In.W.Pos(e.In.Pos())
		}
		return t.In.W.Pos(p)
	}
	return t.In.W.Pos(t.Entry.Pos())
}

// callOK: at the end of the trace, the call did not certainly fail.
func (t *Trace) callOK(e *Event) bool {
	x := t.In.errOf(e)
	return x == nil || !t.NonNil(x)
}

// same: terms equal up to loop variables.
func same(a, b *Term) bool { return a == b || a.peel() == b.peel() }

func exported(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported()
}
