package main

// Unsatisfiability of guards by linear integer facts: ranges of terms, facts
// about library results, what leaving a loop means, and inductive invariants of
// loop recurrences.

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"
)

// linAtom returns the polynomial of an integer atom.
func linAtom(a *Term) (p *Term, eq, ok bool) {
	if (a.app("ge0") || a.app("eq0")) && len(a.A) == 1 && numericLeaf(a.A[0]) && isIntTerm(a.A[0]) {
		return a.A[0], a.S == "eq0", true
	}
	return nil, false, false
}

type solver struct {
	en     *Engine
	vars   map[string]int
	vterm  []*Term // base term of a variable, nil for products
	vfac   [][]Fac
	cons   []lcon
	pols   []*Term // the constraints as polynomials
	diseq  []*Term
	bools  map[*Term]bool
	steps  int
	start  time.Time
	budget int
	giveUp bool
	prop   bool // simplify the facts before choosing one
	cube   []string
	found  []string
}

func (s *solver) varOf(fs []Fac) int {
	k := monoKey(fs)
	if v, ok := s.vars[k]; ok {
		return v
	}
	v := len(s.vars)
	s.vars[k] = v
	var t *Term
	if len(fs) == 1 && fs[0].E == 1 {
		t = fs[0].T
	}
	s.vterm = append(s.vterm, t)
	s.vfac = append(s.vfac, fs)
	return v
}

// row turns p >= 0 into a constraint with integer tightening.
func (s *solver) row(p *Term) lcon {
	k := lcon{map[int]*big.Rat{}, new(big.Rat)}
	g := new(big.Int)
	ints := true
	for _, m := range polyOf(p) {
		if len(m.F) == 0 {
			k.c = m.C
			continue
		}
		k.co[s.varOf(m.F)] = m.C
		if m.C.IsInt() {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.C.Num()))
		} else {
			ints = false
		}
	}
	if ints && g.Sign() > 0 && (g.Cmp(big.NewInt(1)) != 0 || !k.c.IsInt()) {
		gr := new(big.Rat).SetInt(g)
		n := lcon{map[int]*big.Rat{}, floorRat(new(big.Rat).Quo(k.c, gr))}
		for v, c := range k.co {
			n.co[v] = new(big.Rat).Quo(c, gr)
		}
		return n
	}
	return k
}

// ok checks the current constraints together with the ranges of their variables.
func (s *solver) ok() bool { return s.check(false) }

// check: with products also multiplies the constraints by the variables they
// occur with in products.
func (s *solver) check(products bool) bool {
	s.steps++
	var cons []lcon
	seen := map[int]bool{}
	var todo []int
	add := func(k lcon) {
		cons = append(cons, k)
		for v := range k.co {
			if !seen[v] {
				seen[v] = true
				todo = append(todo, v)
			}
		}
	}
	lo, hi := map[int]*big.Rat{}, map[int]*big.Rat{}
	for _, p := range s.pols {
		k := s.row(p)
		add(k)
		if len(k.co) == 1 {
			for v, a := range k.co {
				b := new(big.Rat).Quo(new(big.Rat).Neg(k.c), a)
				if a.Sign() > 0 {
					if lo[v] == nil || lo[v].Cmp(b) < 0 {
						lo[v] = b
					}
				} else if hi[v] == nil || hi[v].Cmp(b) > 0 {
					hi[v] = b
				}
			}
		}
	}
	bounds := func(v int) rng {
		r := rng{lo[v], hi[v]}
		if t := s.vterm[v]; t != nil {
			q := rangeOf(t)
			if q.lo != nil && (r.lo == nil || r.lo.Cmp(q.lo) < 0) {
				r.lo = q.lo
			}
			if q.hi != nil && (r.hi == nil || r.hi.Cmp(q.hi) > 0) {
				r.hi = q.hi
			}
		}
		return r
	}
	for len(todo) > 0 {
		v := todo[0]
		todo = todo[1:]
		if s.vterm[v] != nil {
			r := rangeOf(s.vterm[v])
			if r.lo != nil {
				add(lcon{map[int]*big.Rat{v: ratOne}, new(big.Rat).Neg(r.lo)})
			}
			if r.hi != nil {
				add(lcon{map[int]*big.Rat{v: big.NewRat(-1, 1)}, r.hi})
			}
			continue
		}
		// product: first factor times the rest
		fs := s.vfac[v]
		a := []Fac{{fs[0].T, 1}}
		var b []Fac
		if fs[0].E > 1 {
			b = append(b, Fac{fs[0].T, fs[0].E - 1})
		}
		b = append(b, fs[1:]...)
		if len(b) == 0 || fs[0].E < 1 {
			continue
		}
		va, vb := s.varOf(a), s.varOf(b)
		ra, rb := bounds(va), bounds(vb)
		prod := func(x, y *big.Rat, sx, sy int64) {
			if x == nil || y == nil {
				return
			}
			// sx*(va-x) * sy*(vb-y) >= 0
			sg := big.NewRat(sx*sy, 1)
			k := lcon{map[int]*big.Rat{v: sg}, new(big.Rat).Mul(sg, new(big.Rat).Mul(x, y))}
			acc := func(w int, c *big.Rat) {
				if c.Sign() == 0 {
					return
				}
				if o := k.co[w]; o != nil {
					c = new(big.Rat).Add(o, c)
				}
				k.co[w] = c
			}
			acc(va, new(big.Rat).Mul(sg, new(big.Rat).Neg(y)))
			acc(vb, new(big.Rat).Mul(sg, new(big.Rat).Neg(x)))
			add(k)
		}
		prod(ra.lo, rb.lo, 1, 1)
		prod(ra.hi, rb.lo, -1, 1)
		prod(ra.lo, rb.hi, 1, -1)
		prod(ra.hi, rb.hi, -1, -1)
	}
	if !products {
		return feasible(cons)
	}
	// equalities are used to eliminate quantities, which allows further tightening
	red, ok := s.eliminate(seen)
	if !ok {
		return false
	}
	for _, p := range red {
		add(s.row(p))
	}
	// p >= 0 and b >= lo give p*(b-lo) >= 0
	type pair struct{ a, b int }
	partners := map[int]map[int]bool{}
	nv := len(s.vterm)
	for v := 0; v < nv; v++ {
		if fs := s.vfac[v]; seen[v] && s.vterm[v] == nil && len(fs) == 2 && fs[0].E == 1 && fs[1].E == 1 {
			a, b := s.varOf(fs[:1]), s.varOf(fs[1:])
			for _, x := range []pair{{a, b}, {b, a}} {
				if partners[x.a] == nil {
					partners[x.a] = map[int]bool{}
				}
				partners[x.a][x.b] = true
			}
		}
	}
	n := len(red)
	for _, p := range s.pols {
		ms := polyOf(p)
		lin := true
		with := map[int]bool{}
		for _, m := range ms {
			if len(m.F) > 1 || len(m.F) == 1 && m.F[0].E != 1 {
				lin = false
			} else if len(m.F) == 1 {
				for b := range partners[s.varOf(m.F)] {
					with[b] = true
				}
			}
		}
		if !lin || len(ms) < 2 {
			continue
		}
		for b := range with {
			r := bounds(b)
			if r.lo == nil || !r.lo.IsInt() || !r.lo.Num().IsInt64() || s.vterm[b] == nil {
				continue
			}
			if n++; n > 60 {
				break
			}
			add(s.row(Mul(p, AddC(s.vterm[b], -r.lo.Num().Int64()))))
		}
	}
	return n == 0 || feasible(cons)
}

// eliminate solves the equalities among the constraints and returns the others
// with the solutions inserted; false: they contradict each other.
func (s *solver) eliminate(vars map[int]bool) ([]*Term, bool) {
	have := map[*Term]bool{}
	var work []*Term
	put := func(p *Term) {
		if !have[p] {
			have[p] = true
			work = append(work, p)
		}
	}
	for _, p := range s.pols {
		put(p)
	}
	for v := range s.vterm {
		if t := s.vterm[v]; t != nil && vars[v] {
			r := rangeOf(t)
			if r.lo != nil {
				put(Sub(t, NumR(r.lo)))
			}
			if r.hi != nil {
				put(Sub(NumR(r.hi), t))
			}
		}
	}
	for round := 0; round < 12; round++ {
		var x, v, p *Term
	find:
		for _, q := range work {
			if !have[Neg(q)] {
				continue
			}
			for _, m := range polyOf(q) {
				if len(m.F) != 1 || m.F[0].E != 1 || !m.C.IsInt() || m.C.Num().CmpAbs(big.NewInt(1)) != 0 {
					continue
				}
				y := m.F[0].T
				w := Sub(y, q)
				if m.C.Sign() < 0 {
					w = Add(y, q)
				}
				if !mentions(w, func(z *Term) bool { return z == y }) {
					x, v, p = y, w, q
					break find
				}
			}
		}
		if x == nil {
			if round == 0 {
				return nil, true
			}
			break
		}
		old := work
		work, have = nil, map[*Term]bool{}
		for _, q := range old {
			if q == p || q == Neg(p) {
				continue
			}
			r := substT(q, map[*Term]*Term{x: v})
			if r.isNum() {
				if r.R.Sign() < 0 {
					return nil, false
				}
				continue
			}
			if !numericLeaf(r) {
				continue
			}
			put(r)
		}
	}
	return work, true
}

const solverBudget = 60000
const houdiniBudget = 1500

// sat explores the conjunction of fs[i:]; true: a consistent case was found.
func (s *solver) sat(f *Term, rest []*Term) bool {
	if s.steps > s.budget || s.steps&0x1f == 0 && (late() || time.Since(s.start) > queryLimit) {
		s.giveUp = true
		return true
	}
	if f == False {
		return false
	}
	if f == True {
		if len(rest) > 0 && s.prop {
			var ok bool
			if rest, ok = s.simplify(rest); !ok {
				return false
			}
		}
		if len(rest) > 0 {
			return s.sat(rest[0], rest[1:])
		}
		return s.leaf()
	}
	a := f.A[0]
	p, eq, isLin := linAtom(a)
	if !isLin {
		if v, ok := s.bools[a]; ok {
			if v {
				return s.sat(f.A[1], rest)
			}
			return s.sat(f.A[2], rest)
		}
		for _, v := range []bool{true, false} {
			c := f.A[1]
			if !v {
				c = f.A[2]
			}
			if c == False {
				continue
			}
			s.bools[a] = v
			s.push(a, v)
			r := s.sat(c, rest)
			s.pop()
			delete(s.bools, a)
			if r {
				return true
			}
		}
		return false
	}
	np, nd := len(s.pols), len(s.diseq)
	try := func(v bool, c *Term, ps ...*Term) bool {
		if c == False {
			return false
		}
		s.push(a, v)
		s.pols = append(s.pols, ps...)
		r := false
		if (len(ps) == 0 || s.ok()) && !s.forced(ps) {
			r = s.sat(c, rest)
		}
		s.pols, s.diseq = s.pols[:np], s.diseq[:nd]
		s.pop()
		return r
	}
	if eq {
		if try(true, f.A[1], p, Neg(p)) {
			return true
		}
		if f.A[2] == False {
			return false
		}
		s.diseq = append(s.diseq, p)
		if s.zero(p) {
			s.diseq = s.diseq[:nd]
			return false
		}
		return try(false, f.A[2])
	}
	if try(true, f.A[1], p) {
		return true
	}
	return try(false, f.A[2], AddC(Neg(p), -1))
}

// zero: nothing but p = 0 is possible.
func (s *solver) zero(p *Term) bool {
	n := len(s.pols)
	defer func() { s.pols = s.pols[:n] }()
	for _, q := range []*Term{AddC(p, -1), AddC(Neg(p), -1)} {
		s.pols = append(s.pols[:n], q)
		if s.ok() {
			return false
		}
	}
	return true
}

// forced: new constraints contradict a disequality about the same expression.
func (s *solver) forced(ps []*Term) bool {
	for _, q := range ps {
		for _, d := range s.diseq {
			if (Sub(d, q).isNum() || Add(d, q).isNum()) && s.zero(d) {
				return true
			}
		}
	}
	return false
}

// simplify evaluates facts as far as the current assumptions decide them and
// puts those first that leave no choice.
func (s *solver) simplify(fs []*Term) ([]*Term, bool) {
	var unit, open []*Term
	for _, f := range fs {
		f = s.eval(f)
		switch {
		case f == False:
			return nil, false
		case f == True:
		case f.A[1] == False || f.A[2] == False:
			unit = append(unit, f)
		default:
			open = append(open, f)
		}
	}
	return append(unit, open...), true
}

// eval descends a diagram while its tests are decided.
func (s *solver) eval(f *Term) *Term {
	with := func(ps ...*Term) bool {
		n := len(s.pols)
		s.pols = append(s.pols, ps...)
		ok := s.ok()
		s.pols = s.pols[:n]
		return ok
	}
	for f.Op == OpIte {
		a := f.A[0]
		p, eq, isLin := linAtom(a)
		if !isLin {
			v, ok := s.bools[a]
			if !ok {
				return f
			}
			if v {
				f = f.A[1]
			} else {
				f = f.A[2]
			}
			continue
		}
		var t, e bool
		if eq {
			t, e = with(p, Neg(p)), with(AddC(p, -1)) || with(AddC(Neg(p), -1))
			for _, d := range s.diseq {
				if d == p || d == Neg(p) {
					t = false
				}
			}
		} else {
			t, e = with(p), with(AddC(Neg(p), -1))
		}
		switch {
		case t && e:
			return f
		case t:
			f = f.A[1]
		case e:
			f = f.A[2]
		default:
			return False
		}
	}
	return f
}

func (s *solver) push(a *Term, v bool) {
	t := show(a, 5)
	if !v {
		t = "not " + t
	}
	s.cube = append(s.cube, t)
}
func (s *solver) pop() { s.cube = s.cube[:len(s.cube)-1] }

// leaf splits the disequalities.
func (s *solver) leaf() bool {
	if !s.ok() {
		return false
	}
	return s.split(s.diseq)
}

// incongruent: two properties that are assumed and denied are about the same
// object, because all positions in which they differ are equal.
func (s *solver) incongruent() bool {
	var diff func(a, b *Term, ds []*Term) ([]*Term, bool)
	diff = func(a, b *Term, ds []*Term) ([]*Term, bool) {
		switch {
		case a == b:
			return ds, true
		case a.Op == OpApp && b.Op == OpApp && a.S == b.S && len(a.A) == len(b.A) && len(a.A) > 0:
			for i := range a.A {
				var ok bool
				if ds, ok = diff(a.A[i], b.A[i], ds); !ok {
					return nil, false
				}
			}
			return ds, true
		case isIntTerm(a) && isIntTerm(b) && a.Op != OpIte && b.Op != OpIte:
			if d := Sub(a, b); !d.isNum() {
				return append(ds, d), true
			}
		}
		return nil, false
	}
	for a, v := range s.bools {
		if !v || a.Op != OpApp {
			continue
		}
		for b, w := range s.bools {
			if w || b.Op != OpApp || a.S != b.S {
				continue
			}
			ds, ok := diff(a, b, nil)
			for _, d := range ds {
				ok = ok && s.zero(d)
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func (s *solver) split(ds []*Term) bool {
	if len(ds) == 0 {
		if !s.check(true) || s.incongruent() {
			return false
		}
		s.found = append([]string{}, s.cube...)
		if os.Getenv("DBGV") != "" {
			for i, t := range s.vterm {
				if t != nil {
					fmt.Fprintf(os.Stderr, "V%d = %p %s\n", i, t, show(t, 9))
				}
			}
			for _, p := range s.pols {
				k := s.row(p)
				for v, c := range k.co {
					fmt.Fprintf(os.Stderr, " %s*V%d", c.RatString(), v)
				}
				fmt.Fprintf(os.Stderr, " + %s >= 0\n", k.c.RatString())
			}
		}
		return true
	}
	if s.steps > s.budget {
		s.giveUp = true
		return true
	}
	n := len(s.pols)
	// one side of a disequality may be impossible already
	for again := true; again; {
		again = false
		var open []*Term
		for _, d := range ds {
			var side *Term
			sides := 0
			for _, q := range []*Term{AddC(d, -1), AddC(Neg(d), -1)} {
				m := len(s.pols)
				s.pols = append(s.pols, q)
				if s.ok() {
					side = q
					sides++
				}
				s.pols = s.pols[:m]
			}
			switch sides {
			case 0:
				s.pols = s.pols[:n]
				return false
			case 1:
				s.pols = append(s.pols, side)
				again = true
			default:
				open = append(open, d)
			}
		}
		ds = open
	}
	if len(ds) == 0 {
		r := s.split(nil)
		s.pols = s.pols[:n]
		return r
	}
	defer func() { s.pols = s.pols[:n] }()
	n2 := len(s.pols)
	for _, q := range []*Term{AddC(ds[0], -1), AddC(Neg(ds[0]), -1)} {
		s.pols = append(s.pols, q)
		r := s.ok() && s.split(ds[1:])
		s.pols = s.pols[:n2]
		if r {
			return true
		}
	}
	return false
}

// exists projects boolean atoms away that no fact mentions.
func exists(f *Term, keep func(*Term) bool, memo map[*Term]*Term) *Term {
	if f.Op != OpIte {
		return f
	}
	if r, ok := memo[f]; ok {
		return r
	}
	h, l := exists(f.A[1], keep, memo), exists(f.A[2], keep, memo)
	var r *Term
	if _, _, lin := linAtom(f.A[0]); lin || keep(f.A[0]) {
		r = Ite(typed(f.A[0]), h, l)
	} else {
		r = Or(h, l)
	}
	memo[f] = r
	return r
}

// decideCases drops the cases of an integer that the part of g about the same
// quantities excludes.
func (en *Engine) decideCases(t, g *Term) *Term {
	for i := 0; i < 4 && t.Op == OpIte; i++ {
		p, _, ok := linAtom(t.A[0])
		if !ok {
			return t
		}
		vars := map[*Term]bool{}
		for _, m := range polyOf(p) {
			for _, f := range m.F {
				vars[f.T] = true
			}
		}
		part := about(g, vars, map[*Term]*Term{})
		if part == True || part == False {
			return t
		}
		a := typed(t.A[0])
		if bad, _ := en.infeasibleWith(And(part, a), nil); bad {
			t = t.A[2]
		} else if bad, _ := en.infeasibleWith(And(part, Not(a)), nil); bad {
			t = t.A[1]
		} else {
			return t
		}
	}
	return t
}

// about weakens a guard to what it says about some quantities alone.
func about(f *Term, vars map[*Term]bool, memo map[*Term]*Term) *Term {
	if f.Op != OpIte {
		return f
	}
	if r, ok := memo[f]; ok {
		return r
	}
	h, l := about(f.A[1], vars, memo), about(f.A[2], vars, memo)
	p, _, lin := linAtom(f.A[0])
	if lin {
		for _, m := range polyOf(p) {
			for _, x := range m.F {
				lin = lin && vars[x.T]
			}
		}
	}
	var r *Term
	if lin {
		r = Ite(typed(f.A[0]), h, l)
	} else {
		r = Or(h, l)
	}
	memo[f] = r
	return r
}

// infeasible proves a guard unsatisfiable; otherwise it describes a case that
// could not be excluded.
func (en *Engine) infeasible(g *Term, extra ...*Term) (bool, string) {
	if g == False {
		return true, ""
	}
	// definitions first, then what is known about the loops involved
	local := en.facts(false, append([]*Term{g}, extra...)...)
	ok, why := en.infeasibleWith(g, append(local, extra...))
	if ok {
		return ok, why
	}
	if en.lastIter {
		// the loops the question is about, without the loops those depend on
		en.factRounds = 1
		near := en.facts(true, append([]*Term{g}, extra...)...)
		en.factRounds = 0
		if ok, why := en.infeasibleWith(g, append(near, extra...)); ok {
			return ok, why
		}
	}
	facts := en.facts(true, append([]*Term{g}, extra...)...)
	if len(facts) == len(local) {
		return ok, why
	}
	return en.infeasibleWith(g, append(facts, extra...))
}

func (en *Engine) infeasibleWith(g *Term, facts []*Term) (bool, string) {
	// drop facts that only talk about variables nothing else mentions is left to the solver
	mention := map[*Term]bool{}
	for _, f := range facts {
		var rec func(t *Term)
		seen := map[*Term]bool{}
		rec = func(t *Term) {
			if t.Op != OpIte || seen[t] {
				return
			}
			seen[t] = true
			mention[t.A[0]] = true
			rec(t.A[1])
			rec(t.A[2])
		}
		rec(f)
	}
	q := exists(g, func(a *Term) bool { return mention[a] }, map[*Term]*Term{})
	budget := solverBudget * effort
	if en.houdini > 0 {
		budget = houdiniBudget
	}
	if late() {
		return false, "time limit exceeded"
	}
	s := &solver{en: en, start: time.Now(), budget: budget, vars: map[string]int{}, bools: map[*Term]bool{}}
	sat := s.sat(q, facts)
	if sat && s.giveUp && en.houdini == 0 && !late() {
		s = &solver{en: en, start: time.Now(), budget: budget, vars: map[string]int{}, bools: map[*Term]bool{}, prop: true}
		sat = s.sat(q, facts)
	}
	if sat {
		d := strings.Join(tail(s.found, tailN), " and ")
		if s.giveUp {
			d = "case analysis too large: " + firstCube(g)
		}
		return false, d
	}
	return true, ""
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return append([]string{"..."}, s[len(s)-n:]...)
	}
	return s
}

// comparedWith: the numbers below 256 that the terms compare b for equality with.
func comparedWith(cmps map[*Term][]int64, ts []*Term, b *Term) []int64 {
	if len(cmps) == 0 {
		cmps[nil] = []int64{}
		seen := map[*Term]bool{}
		for _, t := range ts {
			for _, x := range collect(t, func(x *Term) bool { return x.app("eq0") }) {
				if seen[x] {
					continue
				}
				seen[x] = true
				p, _, ok := linAtom(x)
				if !ok {
					continue
				}
				ms := polyOf(p)
				var v *Term
				c := Zero
				for _, m := range ms {
					switch {
					case len(m.F) == 0:
						c = Neg(fromMonos([]Mono{m}))
					case len(m.F) == 1 && m.F[0].E == 1 && m.C.IsInt() && m.C.Num().IsInt64() && m.C.Num().Int64() == 1 && v == nil:
						v = m.F[0].T
					default:
						v = nil
						c = Num(-1)
					}
				}
				if n, ok := c.int64(); ok && n >= 0 && n < 256 && v != nil && len(ms) <= 2 {
					cmps[v] = append(cmps[v], n)
				}
			}
		}
	}
	return cmps[b]
}

// bytesRead: one of the terms compares byte b with a number.
func bytesRead(sels map[*Term]bool, ts []*Term, b *Term) bool {
	if len(sels) == 0 {
		sels[nil] = true
		for _, t := range ts {
			for _, x := range collect(t, func(x *Term) bool { return x.app("ge0") || x.app("eq0") }) {
				if p, _, ok := linAtom(x); ok {
					for _, m := range polyOf(p) {
						for _, f := range m.F {
							sels[f.T] = true
						}
					}
				}
			}
		}
	}
	return sels[b]
}

func spTerm(x *Term) bool {
	if x.Op != OpApp {
		return false
	}
	switch x.S {
	case "until.len", "until.err", "until.cap", "rng.idx", "rng.count", "quo", "rem", "shr", "bit", "bits", "cap.app", "eqv":
		return true
	}
	return hasPrefixAny(x.S, "carry:", "kx:", "done:", "exit:", "scan.", "strings.Index", "strings.LastIndex", "idx:", "trim.")
}

// facts collects the facts about the special terms of the given ones.
func (en *Engine) facts(loops bool, ts ...*Term) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	seen := map[*Term]bool{}
	idx := map[*Term][]*Term{} // string -> positions
	add := func(f *Term) bool {
		if f == True || have[f] {
			return false
		}
		have[f] = true
		out = append(out, f)
		ts = append(ts, f)
		return true
	}
	loopSeen := map[string]bool{}
	sels := map[*Term]bool{}
	cmps := map[*Term][]int64{}
	var fields, flags []*Term
	for round := 0; round < 4 && (en.factRounds == 0 || round < en.factRounds); round++ {
		work := ts
		ts = nil
		for _, t := range work {
			for _, x := range collect(t, spTerm) {
				if seen[x] {
					continue
				}
				seen[x] = true
				switch x.S {
				case "eqv":
					// a short string next to its own bytes
					str, k := x.A[0], x.A[1]
					if k.Op != OpStr || len(k.S) == 0 || len(k.S) > 4 || Len(str) != Num(int64(len(k.S))) {
						continue
					}
					all, near := True, false
					for i := 0; i < len(k.S); i++ {
						b := typed(App("sel", tByte, str, Num(int64(i))))
						near = near || bytesRead(sels, work, b)
						all = And(all, EqInt(b, Num(int64(k.S[i]))))
					}
					if near {
						xb := typed(x)
						add(And(Implies(xb, all), Implies(all, xb)))
					}
				case "cap.app":
					add(Ge(x, x.A[0]))
				case "until.len", "until.err", "until.cap":
					n, e, c := App("until.len", tInt, x.A...), App("until.err", tErr, x.A...), App("until.cap", tInt, x.A...)
					add(Implies(IsNilT(e), Ge(n, Num(1))))
					if x.S == "until.cap" {
						add(Ge(c, n))
					}
				case "rng.count":
					n := Len(x.A[0])
					add(And(Ge(n, x), Implies(Ge(n, Num(1)), Ge(x, Num(1)))))
				case "rng.idx":
					s, k := x.A[0], x.A[1]
					cnt, n := App("rng.count", tInt, s), Len(s)
					in := And(Ge0(k), Ge(cnt, k))
					add(Implies(in, And(Ge(x, k), Ge(Sub(n, cnt), Sub(x, k)))))
					add(Ge(n, cnt))
					for _, j := range idx[s] {
						y := App("rng.idx", tInt, s, j)
						if d, ok := Sub(k, j).int64(); ok {
							both := And(in, And(Ge0(j), Ge(cnt, j)))
							if d > 0 {
								add(Implies(both, Ge(Sub(x, y), Num(d))))
							} else {
								add(Implies(both, Ge(Sub(y, x), Num(-d))))
							}
						}
					}
					idx[s] = append(idx[s], k)
				case "shr":
					if n, ok := x.A[1].int64(); ok && n > 0 && n < 62 {
						r := Sub(x.A[0], Mul(Num(1<<uint(n)), x))
						add(And(Ge0(r), Lt(r, Num(1<<uint(n)))))
						if n == 1 {
							if bt := BitOf(x.A[0], 0); bt != True && bt != False {
								add(And(Implies(bt, EqInt(r, One)), Implies(Not(bt), EqInt(r, Zero))))
							}
						}
					}
				case "bits":
					fields = append(fields, x)
					for _, b := range flags {
						add(bitFact(x, b))
					}
				case "bit":
					flags = append(flags, x)
					for _, f := range fields {
						add(bitFact(f, x))
					}
					if w, ok := bitWidth(x.A[0]); ok && w <= 8 {
						// a byte that is compared with a number and taken apart
						for _, c := range comparedWith(cmps, work, x.A[0]) {
							all := True
							for i := 0; i < w; i++ {
								bt := BitOf(x.A[0], int64(i))
								if c>>uint(i)&1 == 0 {
									bt = Not(bt)
								}
								all = And(all, bt)
							}
							e := EqInt(x.A[0], Num(c))
							add(And(Implies(e, all), Implies(all, e)))
						}
					}
					if n, ok := x.A[1].int64(); ok && n == 0 && isIntTerm(x.A[0]) {
						h := Shr(x.A[0], One)
						r := Sub(x.A[0], Mul(Num(2), h))
						bt := BitOf(x.A[0], 0)
						add(And(Implies(bt, EqInt(r, One)), Implies(Not(bt), EqInt(r, Zero))))
					}
				case "quo", "rem":
					a, b := x.A[0], x.A[1]
					q, r := App("quo", tInt, a, b), App("rem", tInt, a, b)
					if !q.app("quo") || !r.app("rem") {
						continue
					}
					bq := Mul(b, q)
					if n, ok := b.int64(); ok && n == 2 && isIntTerm(a) {
						add(Implies(Not(BitOf(a, 0)), And(EqInt(a, bq), Eq0(r))))
					}
					add(Implies(Not(Eq0(b)), EqInt(a, Add(bq, r))))
					pos := And(Ge(b, Num(1)), Ge0(a))
					add(Implies(pos, AndN(Ge0(r), Lt(r, b), Ge0(q), Le(q, a))))
					add(Implies(And(Ge(b, Num(1)), Lt(a, Zero)), AndN(Le(r, Zero), Lt(Neg(r), b), Le(q, Zero), Ge(q, a))))
				default:
					if hasPrefixAny(x.S, "idx:") {
						// a position in a text or -1
						add(And(Ge(x, Num(-1)), Implies(Ge0(x), Lt(x, x.A[0]))))
						continue
					}
					if hasPrefixAny(x.S, "strings.Index", "strings.LastIndex") {
						n := Len(x.A[0])
						switch x.S {
						case "strings.Index", "strings.LastIndex":
							n = AddC(Sub(n, Len(x.A[1])), 1)
						}
						add(And(Ge(x, Num(-1)), Implies(Ge0(x), Lt(x, n))))
						continue
					}
					if hasPrefixAny(x.S, "trim.") {
						n := Len(x.A[0])
						add(And(Ge0(x), Le(x, n)))
						if strings.HasPrefix(x.S, "trim.hi:") {
							if lo := App("trim.lo:"+x.S[len("trim.hi:"):], tInt, x.A...); seen[lo] {
								add(Le(lo, x))
							}
						} else if hi := App("trim.hi:"+x.S[len("trim.lo:"):], tInt, x.A...); seen[hi] {
							add(Le(x, hi))
						}
						continue
					}
					if hasPrefixAny(x.S, "scan.") {
						// a decimal number of at most d characters
						if x.K != KInt || len(x.A) < 2 || !decimalScan(x.A[1]) {
							continue
						}
						n := Len(x.A[0])
						lim := int64(1)
						for d := int64(1); d <= 9; d++ {
							lim *= 10
							if m, ok := n.int64(); ok && m != d || !ok && d > 4 {
								continue
							}
							add(Implies(Le(n, Num(d)), And(Lt(x, Num(lim)), Lt(Num(-lim/10), x))))
						}
						continue
					}
					if !loops {
						continue
					}
					for _, r := range en.loopRefs(x) {
						l := r.l
						if hasPrefixAny(x.S, "carry:") {
							if f := en.carryFact(x); f != nil {
								add(f)
							}
							continue
						}
						key := l.ID
						for _, a := range r.args {
							key += "," + a.String()
						}
						if loopSeen[key] {
							continue
						}
						loopSeen[key] = true
						for _, e := range l.Exits {
							xg := r.inst(e.Guard)
							add(Implies(xg, And(Ge0(r.inst(e.At)), r.inst(substT(e.G, map[*Term]*Term{l.K: e.At})))))
							if en.lastIter && e.Counting {
								last := Sub(e.At, One)
								add(Implies(AndN(xg, Ge0(r.inst(last))), r.inst(substT(l.ContG, map[*Term]*Term{l.K: last}))))
							}
						}
					}
				}
			}
		}
	}
	return out
}

// bitFact relates a bit field to one of its bits.
func bitFact(f, b *Term) *Term {
	if f.A[0] != b.A[0] {
		return True
	}
	lo, _ := f.A[1].int64()
	w, _ := f.A[2].int64()
	i, ok := b.A[1].int64()
	if !ok || i < lo || i >= lo+w || w > 8 {
		return True
	}
	none := True
	for j := lo; j < lo+w; j++ {
		none = And(none, Not(BitOf(f.A[0], j)))
	}
	return And(Implies(BitOf(f.A[0], i), Ge(f, Num(1<<uint(i-lo)))), Implies(none, Le(f, Zero)))
}

// carryFact instantiates the invariants of the loop a recurrence value belongs to.
func (en *Engine) carryFact(x *Term) *Term {
	id := strings.Split(x.S, ":")[1]
	for _, l := range en.loops {
		if l.ID != id {
			continue
		}
		k, args := x.A[0], x.A[1:]
		r := loopRef{l, args}
		reached := True
		if k != l.K && !(k.Op == OpApp && strings.HasPrefix(k.S, "kx:"+id+":")) {
			if l.N == nil {
				return nil
			}
			n := r.inst(l.N)
			if !hasLeaf(n, k) {
				return nil
			}
			reached = And(Ge0(k), EqInt(n, k))
		}
		f := True
		for _, i := range en.invariants(l) {
			f = And(f, r.inst(substT(i, map[*Term]*Term{l.K: k})))
		}
		return Implies(reached, f)
	}
	return nil
}

// invariants finds inductive bounds of the unsolved integer recurrences of a
// loop against each other, the iteration number and the sizes the loop mentions.
func (en *Engine) invariants(l *Loop) []*Term {
	if l.invDone || l.busy {
		return l.inv
	}
	l.busy = true
	en.houdini++
	defer func() { en.houdini-- }()
	var cs []*Carry
	for _, c := range l.Carries {
		if c.Solved == nil && c.T != nil && isInt(c.T) && c.Next != nil && c.Init != nil {
			cs = append(cs, c)
		}
	}
	if len(cs) == 0 || len(cs) > 8 {
		l.busy, l.invDone = false, true
		return nil
	}
	// terms to compare with
	terms := []*Term{Zero, l.K}
	have := map[*Term]bool{Zero: true, l.K: true}
	addT := func(t *Term) {
		if !have[t] && len(terms) < 10 && t.K == KInt {
			have[t] = true
			terms = append(terms, t)
		}
	}
	src := []*Term{l.ContG, l.EntryG}
	for _, x := range l.Exits {
		src = append(src, x.G)
	}
	for _, c := range cs {
		src = append(src, c.Next)
		if numericLeaf(c.Init) && !c.Init.isNum() {
			addT(c.Init)
		}
	}
	for _, s := range src {
		for _, x := range collect(s, func(x *Term) bool { return x.app("rng.count") }) {
			addT(App("rng.idx", tInt, x.A[0], l.K))
			addT(Len(x.A[0]))
		}
	}
	for _, x := range collect(l.ContG, func(x *Term) bool { return x.app("until.len") || x.app("len") }) {
		if len(en.loopRefs(x)) == 0 {
			addT(x)
		}
	}
	for _, e := range en.events {
		if e.Kind == "ob" && e.Unsafe != False && e.Fn == l.Fn {
			for _, x := range collect(e.Unsafe, func(x *Term) bool { return x.app("len") || x.app("hdr.dim0") || x.app("hdr.dim1") }) {
				addT(x)
			}
		}
	}
	type cand struct{ now, init, next *Term }
	var cands []cand
	sym := func(t *Term) (now, init, next *Term) {
		for _, c := range cs {
			if c.Sym == t {
				return c.Sym, c.Init, c.Next
			}
		}
		return t, substT(t, map[*Term]*Term{l.K: Zero}), substT(t, map[*Term]*Term{l.K: AddC(l.K, 1)})
	}
	for _, c := range cs {
		ts := append([]*Term{}, terms...)
		for _, d := range cs {
			if d != c {
				ts = append(ts, d.Sym)
			}
		}
		for _, t := range ts {
			tn, ti, tx := sym(t)
			for off := int64(-1); off <= 1; off++ {
				cands = append(cands, cand{Ge(c.Sym, AddC(tn, off)), Ge(c.Init, AddC(ti, off)), Ge(c.Next, AddC(tx, off))})
				cands = append(cands, cand{Le(c.Sym, AddC(tn, off)), Le(c.Init, AddC(ti, off)), Le(c.Next, AddC(tx, off))})
			}
		}
	}
	for _, c := range cs {
		cands = append(cands, cand{Not(Eq0(c.Sym)), Not(Eq0(c.Init)), Not(Eq0(c.Next))})
	}
	// a phase: one of some constants, the first of which it may leave for good
	for _, c := range cs {
		if !c.finite() {
			continue
		}
		lo, hi := constRange(c.Init, c.Next)
		cands = append(cands, cand{Ge(c.Sym, lo), Ge(c.Init, lo), Ge(c.Next, lo)}, cand{Le(c.Sym, hi), Le(c.Init, hi), Le(c.Next, hi)})
		if c.Init.isNum() {
			cands = append(cands, cand{Or(Lt(l.K, One), Not(EqInt(c.Sym, c.Init))), True, Not(EqInt(c.Next, c.Init))})
		}
	}
	// a position that is -1 while there is none
	for _, c := range cs {
		if !hasLeaf(c.Init, Num(-1)) && !hasLeaf(c.Next, Num(-1)) {
			continue
		}
		for _, d := range cs {
			if d == c {
				continue
			}
			for off := int64(0); off <= 1; off++ {
				rel := func(a, b *Term) *Term { return Or(Lt(a, Zero), Ge(a, AddC(b, off))) }
				cands = append(cands, cand{rel(c.Sym, d.Sym), rel(c.Init, d.Init), rel(c.Next, d.Next)})
			}
		}
	}
	// a property of the position that the previous iteration established
	for _, c := range cs {
		for _, p := range en.atCarry(l, c) {
			if os.Getenv("INV") != "" {
				fmt.Fprintln(os.Stderr, "ATC", p, "NEXT", c.Next)
			}
			for _, q := range []*Term{p, Not(p)} {
				at := func(x *Term, k *Term) *Term {
					return substT(Implies(l.ContG, q), map[*Term]*Term{c.Sym: x, l.K: k})
				}
				cands = append(cands, cand{at(c.Sym, l.K), at(c.Init, Zero), at(c.Next, AddC(l.K, 1))})
			}
		}
	}
	var live []cand
	for _, c := range cands {
		if c.now == True {
			continue
		}
		ok, why := en.infeasible(And(l.EntryG, Not(c.init)))
		if ok {
			live = append(live, c)
		} else if os.Getenv("INVD") != "" {
			fmt.Fprintln(os.Stderr, "INVD", c.now, "initially", why)
		}
	}
	if os.Getenv("INV") != "" {
		fmt.Fprintln(os.Stderr, "INV", l.Fn.Name(), len(cs), "carries", len(cands), "cands", len(live), "live")
		defer func() { fmt.Fprintln(os.Stderr, "INV", l.Fn.Name(), l.inv) }()
	}
	for changed := true; changed && len(live) > 0; {
		changed = false
		var hyp []*Term
		for _, c := range live {
			hyp = append(hyp, c.now)
		}
		var keep []cand
		for _, c := range live {
			if ok, _ := en.infeasible(And(l.ContG, Not(c.next)), hyp...); ok {
				keep = append(keep, c)
			} else {
				changed = true
			}
		}
		live = keep
	}
	for _, c := range live {
		l.inv = append(l.inv, c.now)
	}
	l.busy, l.invDone = false, true
	return l.inv
}

// atCarry lists the properties of a recurrence value that the first iteration
// of the loops inside depends on.
func (en *Engine) atCarry(l *Loop, c *Carry) (ps []*Term) {
	seen := map[*Term]bool{}
	for _, i := range en.loops {
		if len(i.Outer) == 0 || i.Outer[len(i.Outer)-1] != l {
			continue
		}
		g := substT(i.ContG, map[*Term]*Term{i.K: Zero})
		for _, p := range collect(g, func(x *Term) bool { return x.Op == OpApp && x.K == KBool && x.S != "ge0" && x.S != "eq0" }) {
			if seen[p] || len(ps) >= 3 || !mentions(p, func(x *Term) bool { return x == c.Sym }) {
				continue
			}
			seen[p] = true
			rest := substT(p, map[*Term]*Term{c.Sym: Zero})
			if mentions(rest, func(x *Term) bool { return x == l.K || x == i.K }) || len(en.loopRefs(rest)) > 0 {
				continue
			}
			ps = append(ps, typed(p))
		}
	}
	return ps
}

// finite: the values of a recurrence are constants the code names.
func (c *Carry) finite() bool {
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if t.Op == OpIte {
			return ok(t.A[1]) && ok(t.A[2])
		}
		return t.isNum() || t == c.Sym
	}
	return c.Init != nil && c.Next != nil && c.Solved == nil && ok(c.Init) && ok(c.Next) && c.Next != c.Sym
}

// constRange gives the smallest and largest constant among some values.
func constRange(ts ...*Term) (lo, hi *Term) {
	var min, max int64
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == OpIte {
			rec(t.A[1])
			rec(t.A[2])
		} else if n, ok := t.int64(); ok {
			if !found || n < min {
				min = n
			}
			if !found || n > max {
				max = n
			}
			found = true
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return Num(min), Num(max)
}

// hasLeaf: one of the values of a case distinction is v.
func hasLeaf(t, v *Term) bool {
	if t.Op == OpIte {
		return hasLeaf(t.A[1], v) || hasLeaf(t.A[2], v)
	}
	return t == v
}

// decimalScan: a Sscanf format that reads decimal integers only.
func decimalScan(f *Term) bool {
	return f.Op == OpStr && strings.Contains(f.S, "d") && !strings.ContainsAny(f.S, "vxXobq")
}

// BitOf is bit i of an integer.
func BitOf(x *Term, i int64) *Term { return App("bit", tBool, x, Num(i)) }

var tailN = func() int {
	if os.Getenv("EQDBG") != "" {
		return 100
	}
	return 14
}()
