package main

// The check framework: obligations, reports and evidence files.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Rule  string // the rule applied
	What  string // the construct it was applied to
	OK    bool
	Pos   string
	Found string // what the code does instead
}

type Ctx struct {
	r       *Repo
	id      string
	obs     []Ob
	fns     map[string]bool
	loops   int
	events  int
	instrs  int
	models  map[string]bool
	warns   map[string]bool
	engines []*Engine
	samples []string
	notes   []string
	tier    string
	hv      *hdrView
	dv      []*dataView
	av      *archView
}

type Prop struct {
	id, level string
	title     string
	explain   string
	run       func(c *Ctx)
	trusted   []string
}

var props = map[string]*Prop{}

func register(id, level, explain string, run func(c *Ctx)) {
	props[id] = &Prop{id: id, level: level, explain: explain, run: run}
}

// ok records one decided obligation.
func (c *Ctx) ok(cond bool, rule, what, pos, found string, a ...any) bool {
	if len(a) > 0 {
		found = fmt.Sprintf(found, a...)
	}
	o := Ob{Rule: rule, What: what, OK: cond, Pos: pos}
	if !cond {
		o.Found = found
	}
	c.obs = append(c.obs, o)
	return cond
}

type undecided struct{ msg string }

func fail(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

func (c *Ctx) engine(paths ...string) *Engine {
	en := c.r.engine(paths...)
	c.engines = append(c.engines, en)
	return en
}

func (c *Ctx) libEngine() *Engine { return c.engine(libPath) }

func (c *Ctx) violated() []Ob {
	var v []Ob
	for _, o := range c.obs {
		if !o.OK {
			v = append(v, o)
		}
	}
	return v
}

func runProp(r *Repo, p *Prop, tier string) (c *Ctx) {
	deadline = time.Now().Add(timeLimit)
	c = &Ctx{r: r, id: p.id, fns: map[string]bool{}, models: map[string]bool{}, warns: map[string]bool{}, tier: tier}
	defer func() {
		if e := recover(); e != nil {
			msg := ""
			switch e := e.(type) {
			case undecided:
				msg = e.msg
			case budgetExceeded:
				msg = "analysis budget exceeded: " + e.what
			default:
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				msg = fmt.Sprintf("%v\n%s", e, buf)
			}
			c.ok(false, "every obligation must be decided", "analysis of the property", "", "undecided: %s", msg)
		}
		for _, en := range c.engines {
			for f := range en.fns {
				c.fns[f.String()] = true
			}
			for m := range en.models {
				c.models[m] = true
			}
			for w := range en.warns() {
				c.warns[w] = true
			}
			c.loops += len(en.loops)
			c.events += len(en.events)
			c.instrs += en.instrs
		}
		if len(c.obs) == 0 {
			c.ok(false, "a check must have obligations", "the property", "", "no obligation was generated")
		}
	}()
	p.run(c)
	return c
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func report(p *Prop, c *Ctx, t0 time.Time) int {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	bad := c.violated()
	rules := map[string]int{}
	for _, o := range c.obs {
		rules[o.Rule]++
	}
	var samples []string
	per := map[string]int{}
	for _, o := range c.obs {
		if per[o.Rule] < 2 && len(samples) < 24 {
			per[o.Rule]++
			samples = append(samples, fmt.Sprintf("%s: %s %s", o.Rule, o.What, o.Pos))
		}
	}
	samples = append(samples, c.samples...)
	cov := map[string]any{
		"obligations":            len(c.obs),
		"discharged":             len(c.obs) - len(bad),
		"checker_cmd":            "bin/radocheck -p " + p.id,
		"explanation":            p.explain,
		"obligations_per_rule":   rules,
		"functions_analysed":     sortedKeys(c.fns),
		"functions":              len(c.fns),
		"loops":                  c.loops,
		"ssa_instructions":       c.instrs,
		"events":                 c.events,
		"library_models":         sortedKeys(c.models),
		"samples":                samples,
		"repository_files":       c.r.files,
		"value_graph_nodes":      nextID,
		"analysis_notes":         append(c.notes, sortedKeys(c.warns)...),
		"trusted_base":           trustedBase,
		"exhaustive_over_inputs": true,
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": p.id, "tier": c.tier, "seed": seed, "level": p.level,
		"coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged; %d functions, %d loops, %d SSA instructions analysed in %.1fs\n",
		p.id, len(c.obs), len(c.obs)-len(bad), len(c.fns), c.loops, c.instrs, time.Since(t0).Seconds())
	rp := filepath.Join(dir, p.id+".violation.txt")
	if len(bad) == 0 {
		os.Remove(rp)
		return 0
	}
	var sb strings.Builder
	for i, o := range bad {
		fmt.Fprintf(&sb, "[%d] %s\n    rule: %s\n    at:   %s\n    found: %s\n", i+1, o.What, o.Rule, o.Pos, o.Found)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = strings.ToValidUTF8(s[:6000], "") + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, rp)
	return 1
}

var trustedBase = []string{
	"go/packages, go/types and go/ssa (golang.org/x/tools): the analysed program is the compiled one",
	"the value-graph engine in /verif/checker (term normalisation, loop recurrences, linear facts)",
	"models of the standard library functions listed under library_models",
}
var assumptions = []string{
	"int arithmetic on positions and sizes does not overflow 64 bits (A-int)",
	"floating-point expressions are compared as real-number expressions with constants to 1e-9; rounding is not decided (A-real)",
}

// ---------------------------------------------------------------- drivers

// Drv is a sequence of calls on an abstract state.
type Drv struct {
	*Engine
	c  *Ctx
	st State
	n  int
}

func (c *Ctx) drv(en *Engine) *Drv { return &Drv{Engine: en, c: c, st: en.start()} }

func (d *Drv) call(fn *ssa.Function, args ...*Term) *Term {
	d.n++
	res, st := d.callFn(nil, nil, fn, nil, args, d.st, fmt.Sprintf("|d%d", d.n))
	d.st = st
	return res
}

func (c *Ctx) lib(name string) *ssa.Function { return c.need(c.r.lib, name) }
func (c *Ctx) need(p *ssa.Package, name string) *ssa.Function {
	f := c.r.fn(p, name)
	if f == nil {
		fail("function %s not found in %s", name, p.Pkg.Path())
	}
	return f
}

func (c *Ctx) fpos(f *ssa.Function) string { return c.pos(f.Pos()) }
func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := c.r.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/since/radolan/"); i >= 0 {
		f = f[i+len("/since/radolan/"):]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (c *Ctx) typ(p *ssa.Package, name string) types.Type {
	t, ok := p.Members[name].(*ssa.Type)
	if !ok {
		fail("type %s not found in %s", name, p.Pkg.Path())
	}
	return t.Type()
}
func fieldIndex(T types.Type, name string) int {
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	fail("field %s not found in %s", name, T)
	return -1
}

// get reads field f of the struct behind pointer p.
func (d *Drv) get(p *Term, f string) *Term {
	T := d.c.typ(d.c.r.lib, "Composite")
	return d.field(p, T, f)
}
func (d *Drv) field(p *Term, T types.Type, f string) *Term {
	i := fieldIndex(T, f)
	FT := T.Underlying().(*types.Struct).Field(i).Type()
	pf := lift1(func(p *Term) *Term {
		o, path := d.address(p, T)
		return Ptr(o, append(append([]*Term{}, path...), Field(i))...)
	}, p)
	return d.load(d.st, pf, FT)
}

// at reads element i of a slice value.
func (d *Drv) at(s, i *Term, ET types.Type) *Term {
	return d.load(d.st, d.sliceElem(s, i, ET), ET)
}

// same decides whether two terms denote the same value wherever guard holds.
func same(g, a, b *Term) bool {
	if a == b {
		return true
	}
	return deepRestrict(a, g) == deepRestrict(b, g)
}

// eq is an equality obligation.
func (c *Ctx) eq(g, got, want *Term, rule, what, pos string) bool {
	if same(g, got, want) {
		return c.ok(true, rule, what, pos, "")
	}
	return c.ok(false, rule, what, pos, "%s", firstDiff(g, got, want))
}

// eq is an equality obligation that also uses what is known about the
// quantities involved.
func (d *Drv) eq(g, got, want *Term, rule, what, pos string) bool {
	if same(g, got, want) || d.equal(g, got, want) {
		return d.c.ok(true, rule, what, pos, "")
	}
	return d.c.ok(false, rule, what, pos, "%s", firstDiff(g, got, want))
}

// equal proves two values equal under g.
func (d *Drv) equal(g, a, b *Term) bool {
	ok := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(budgetExceeded); !is {
					panic(e)
				}
			}
		}()
		bad := And(g, mayDiffer(deepRestrict(a, g), deepRestrict(b, g), 0))
		var why string
		ok, why = d.infeasible(bad)
		if os.Getenv("EQDBG") != "" {
			fmt.Println("EQ", why)
		}
	}()
	return ok
}

// mayDiffer is a necessary condition for two values to differ.
func mayDiffer(a, b *Term, depth int) *Term {
	return lift(func(as []*Term) *Term {
		a, b := as[0], as[1]
		if a == b {
			return False
		}
		r := True
		if numericLeaf(a) && numericLeaf(b) && isIntTerm(a) && isIntTerm(b) {
			r = Not(Eq0(Sub(a, b)))
		}
		if depth < 6 && a.Op == b.Op && (a.Op == OpApp || a.Op == OpStruct || a.Op == OpTuple) && a.S == b.S && len(a.A) == len(b.A) {
			// equal arguments give equal values
			d := False
			for i := range a.A {
				d = Or(d, mayDiffer(a.A[i], b.A[i], depth+1))
			}
			r = And(r, d)
		}
		return r
	}, a, b)
}

// unsat is the obligation that a condition never holds.
func (d *Drv) unsat(bad *Term, rule, what, pos, f string) bool {
	ok := bad == False
	if !ok {
		var why string
		if ok, why = d.infeasible(bad); os.Getenv("EQDBG") != "" {
			fmt.Println("UNSAT", why)
		}
	}
	return d.c.ok(ok, rule, what, pos, f, firstCube(bad))
}

// prune drops the cases of a value that cannot occur under g.
func (en *Engine) prune(t, g *Term) *Term {
	n := 0
	memo := map[[2]int]*Term{}
	var rec func(t, g *Term) *Term
	rec = func(t, g *Term) *Term {
		t = restrict(t, g)
		if t.Op != OpIte {
			return t
		}
		k := [2]int{t.ID, g.ID}
		if r, ok := memo[k]; ok {
			return r
		}
		if n++; n > 400 {
			return t
		}
		a := typed(top(t))
		yes, no := And(g, a), And(g, Not(a))
		var r *Term
		if bad, _ := en.infeasible(yes); bad {
			r = rec(cof(t, top(t), false), no)
		} else if bad, _ := en.infeasible(no); bad {
			r = rec(cof(t, top(t), true), yes)
		} else {
			r = Ite(a, rec(cof(t, top(t), true), yes), rec(cof(t, top(t), false), no))
		}
		memo[k] = r
		return r
	}
	return rec(deepRestrict(t, g), g)
}

// firstDiff describes one gated case in which the values differ.
func firstDiff(g, a, b *Term) string {
	a, b = deepRestrict(a, g), deepRestrict(b, g)
	var conds []string
	for i := 0; i < 200 && (a.Op == OpIte || b.Op == OpIte); i++ {
		v := top(a)
		if x := top(b); x != nil && (v == nil || x.ID < v.ID) {
			v = x
		}
		at := typed(v)
		a1, b1, a0, b0 := cof(a, v, true), cof(b, v, true), cof(a, v, false), cof(b, v, false)
		_ = at
		if a1 != b1 {
			conds = append(conds, show(v, 5))
			a, b = a1, b1
		} else {
			conds = append(conds, "not "+show(v, 5))
			a, b = a0, b0
		}
	}
	if a.Op == b.Op && (a.Op == OpStruct || a.Op == OpTuple) && len(a.A) == len(b.A) {
		for i := range a.A {
			if a.A[i] != b.A[i] {
				return firstDiff(True, a.A[i], b.A[i])
			}
		}
	}
	w := ""
	if len(conds) > 0 {
		w = " when " + strings.Join(conds, " and ")
	}
	return fmt.Sprintf("the code computes %s but the property demands %s%s", show(a, 9), show(b, 9), w)
}

func (c *Ctx) global(p *ssa.Package, name string) *ssa.Global {
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		fail("variable %s not found in %s", name, p.Pkg.Path())
	}
	return g
}
