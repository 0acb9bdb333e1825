package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// terminates requires a termination argument for every loop of the engine.
func (c *Ctx) terminates(en *Engine, name string) int {
	n := 0
	for _, l := range en.loops {
		if strings.HasPrefix(l.Fn.Name(), "init") && l.Fn.Signature.Recv() == nil && l.Fn.Synthetic != "" {
			continue
		}
		n++
		what := fmt.Sprintf("loop in %s (%s)", l.Fn.Name(), name)
		why, ok := en.ranked(l)
		rule := "every loop terminates"
		if ok {
			rule += ": " + why
		}
		c.ok(ok, rule, what, c.pos(l.Pos), "no iteration count, stream progress or ranking function: %s", why)
	}
	for _, e := range en.events {
		switch e.Kind {
		case "recursion", "chan":
			c.ok(false, "every loop terminates", name, c.pos(e.Pos), "%s", e.Rule)
		}
	}
	for _, w := range sortedKeys(en.warns()) {
		if strings.Contains(w, "recurs") {
			c.ok(false, "every loop terminates", name, "", "%s", w)
		}
	}
	return n
}

// ranked looks for a termination argument.
func (en *Engine) ranked(l *Loop) (string, bool) {
	if l.N != nil {
		return "iteration count", true
	}
	if l.ContG == False {
		return "the body is not repeated", true
	}
	if ok, _ := en.infeasible(And(l.EntryG, l.ContG)); ok {
		return "the body is not repeated", true
	}
	// progress on a finite stream
	own := func(t *Term) bool {
		return mentions(t, func(x *Term) bool { return x == l.K || x.appPrefix("carry:"+l.ID+":") })
	}
	for _, e := range collect(l.ContG, func(x *Term) bool {
		return x.Op == OpApp && (x.S == "tarnexterr" || x.S == "until.err" || x.S == "readbyteerr" || x.S == "readfullerr")
	}) {
		if own(e.A[0]) || !own(e.A[1]) || And(l.ContG, Not(IsNilT(e))) != False {
			continue
		}
		if e.S == "readfullerr" {
			if ok, _ := en.infeasible(And(l.ContG, Lt(e.A[2], One))); !ok {
				continue
			}
		}
		return "every iteration consumes the stream", true
	}
	// ranking functions
	type cand struct{ now, next *Term }
	var cands []cand
	ints := []cand{}
	for _, c := range l.Carries {
		if c.T == nil || !isInt(c.T) || c.Next == nil {
			continue
		}
		if c.Solved != nil {
			ints = append(ints, cand{c.Solved, substT(c.Solved, map[*Term]*Term{l.K: AddC(l.K, 1)})})
		} else {
			ints = append(ints, cand{c.Sym, c.Next})
		}
	}
	abs := func(t *Term) *Term { return Ite(Ge0(t), t, Neg(t)) }
	consts := []*Term{Zero}
	seen := map[*Term]bool{}
	for _, g := range []*Term{l.ContG, l.EntryG} {
		for _, x := range collect(g, func(x *Term) bool { return x.Op != OpIte && x.K == KInt && !x.isNum() }) {
			if !own(x) && !seen[x] && len(consts) < 8 {
				seen[x] = true
				consts = append(consts, x)
			}
		}
	}
	for _, x := range ints {
		cands = append(cands, cand{abs(x.now), abs(x.next)})
		for _, k := range consts {
			cands = append(cands, cand{Sub(x.now, k), Sub(x.next, k)}, cand{Sub(k, x.now), Sub(k, x.next)})
		}
		for _, y := range ints {
			if y != x {
				cands = append(cands, cand{Sub(x.now, y.now), Sub(x.next, y.next)})
				cands = append(cands, cand{Add(x.now, y.now), Add(x.next, y.next)})
			}
		}
	}
	for _, r := range cands {
		if ok, _ := en.infeasible(And(l.ContG, Lt(r.now, Zero))); !ok {
			continue
		}
		if os.Getenv("INV") != "" {
			ok, w := en.infeasible(And(l.ContG, Ge(r.next, r.now)))
			fmt.Fprintln(os.Stderr, "RANK", r.now, ok, w)
		}
		if ok, _ := en.infeasible(And(l.ContG, Ge(r.next, r.now))); ok {
			return "ranking function", true
		}
	}
	return "continues while " + firstCube(l.ContG), false
}

func init() {
	register("C03", "proof", "value analysis of every exported operation: each loop has an iteration count fixed on entry, or each iteration consumes part of the stream and the loop ends at its first error, or an integer ranking function decreases; there is no recursion", func(c *Ctx) {
		n := c.terminates(c.header().Engine, "parsing the header")
		for _, v := range c.data() {
			n += c.terminates(v.Engine, "parsing the data, "+v.name)
		}
		n += c.terminates(c.archive().Engine, "parsing an archive")
		// everything else that is exported
		for _, pkg := range []*ssa.Package{c.r.lib, c.r.vis} {
			en := c.engine(pkg.Pkg.Path())
			d := c.drv(en)
			for _, f := range exported(c.r, pkg) {
				switch f.Name() {
				case "NewComposite", "NewComposites":
					continue
				}
				d.enter(f)
			}
			n += c.terminates(en, pkg.Pkg.Name())
		}
		c.ok(n >= 6, "a check must have obligations", "loops", "", "only %d loops found", n)
	})
}

// exported lists the exported functions and methods of a package.
func exported(r *Repo, p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && f.Synthetic == "" {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, name := range sortedMembers(p) {
		switch m := p.Members[name].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() {
				add(m)
			}
		case *ssa.Type:
			if !m.Object().Exported() {
				continue
			}
			for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := r.prog.MethodSets.MethodSet(T)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Exported() {
						add(r.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	return out
}

func sortedMembers(p *ssa.Package) []string {
	m := map[string]bool{}
	for n := range p.Members {
		m[n] = true
	}
	return sortedKeys(m)
}

// enter analyses an exported function for arbitrary arguments, and the function
// it returns, if it returns one.
func (d *Drv) enter(f *ssa.Function) (*Term, State) {
	d.n++
	var args []*Term
	for _, p := range f.Params {
		args = append(args, d.arg(fmt.Sprintf("%s.%d.%s", f.Name(), d.n, p.Name()), p.Type()))
	}
	res, st := d.callFn(nil, nil, f, nil, args, d.start(), fmt.Sprintf("|e%d", d.n))
	if sig, ok := f.Signature.Results(), true; ok && sig.Len() == 1 {
		if s, ok := sig.At(0).Type().Underlying().(*types.Signature); ok {
			lift1(func(t *Term) *Term {
				if t.Op == OpClosure {
					d.n++
					var as []*Term
					for i := 0; i < s.Params().Len(); i++ {
						as = append(as, d.arg(fmt.Sprintf("%s.%d.arg%d", f.Name(), d.n, i), s.Params().At(i).Type()))
					}
					d.callClosure(t, as, st, fmt.Sprintf("|e%d", d.n))
				}
				return t
			}, res)
		}
	}
	return res, st
}

// callClosure calls a function value.
func (en *Engine) callClosure(f *Term, args []*Term, st State, ctx string) (*Term, State) {
	switch f.Op {
	case OpClosure:
		return en.callFn(nil, nil, f.X.(*ssa.Function), f.A, args, st, ctx)
	case OpFunc:
		return en.callFn(nil, nil, f.X.(*ssa.Function), nil, args, st, ctx)
	}
	fail("not a known function value: %s", show(f, 4))
	return nil, st
}
