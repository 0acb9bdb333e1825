package main

// Loops as recurrences. A loop whose exit decision is constant is unrolled;
// every other loop gets an iteration symbol K. Header phis and the memory
// locations the body modifies become recurrences X(K); affine, invariant,
// peeled and array-fill recurrences are solved in closed form, the others stay
// symbolic functions of K whose step is recorded in the Loop.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Carry struct {
	Key    string
	Phi    *ssa.Phi
	Obj    *Term
	Path   []*Term
	T      types.Type
	Init   *Term
	Next   *Term // value after one iteration, in terms of K
	Solved *Term // closed form in K, nil if none
	Sym    *Term // opaque form at K
	name   string
	outer  []*Term
	split  []*Carry // offset, length and capacity of a slice; bounds of a substring
	part   bool
	never  bool // no closed form holds
}

// At gives the value at the start of iteration k.
func (c *Carry) At(l *Loop, k *Term) *Term {
	v := c.Solved
	if v == nil {
		v = c.Sym
	}
	return substT(v, map[*Term]*Term{l.K: k})
}

type LoopExit struct {
	From, To *ssa.BasicBlock
	G        *Term // guard of taking this exit in iteration K
	Counting bool
	At       *Term // iteration number at which it is taken (N or kx)
	Guard    *Term // guard of the edge after the loop
	State    State // state on the edge, in terms of K
}

type Loop struct {
	ID      string
	K       *Term
	Outer   []*Loop
	Fn      *ssa.Function
	Ctx     string
	Header  *ssa.BasicBlock
	Pos     token.Pos
	N       *Term // trip count, nil if not counted
	EntryG  *Term
	ContG   *Term // guard of completing iteration K and going round again
	Done    *Term
	Carries []*Carry
	Exits   []*LoopExit
	gens    []*Term // arrays of solved accumulators
	inv     []*Term // proved invariants in terms of K
	invDone bool
	busy    bool
	frame   *Frame
}

func (l *Loop) outerKs() []*Term {
	ks := make([]*Term, len(l.Outer))
	for i, o := range l.Outer {
		ks[i] = o.K
	}
	return ks
}

const maxUnroll = 40

func (l *SLoop) exported() []ssa.Value {
	var out []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (fr *Frame) loop(L *SLoop, es []Edge) []Edge {
	en := fr.en
	init := fr.phiVals(L.header, es)
	var sts []State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	st := en.mergeStates(sts)
	if st.g == False {
		return nil
	}
	for p, v := range init {
		init[p] = deepRestrict(v, st.g)
	}
	// drop stale exports of this loop
	loc := map[ssa.Value]*Term{}
	for v, t := range st.loc {
		in, ok := v.(ssa.Instruction)
		if ok && L.blocks[in.Block()] {
			continue
		}
		loc[v] = t
	}
	st.loc = loc

	outs, init2, st2, ok := fr.unroll(L, init, st)
	if ok {
		return outs
	}
	return append(outs, fr.generic(L, init2, st2)...)
}

type snap struct{ ev, rets, defs, loops, warns, pure int }

func (fr *Frame) snapshot() snap {
	return snap{len(fr.en.events), len(fr.rets), len(fr.defers), len(fr.en.loops), len(fr.en.warnLog), len(fr.en.pureMemo)}
}
func (fr *Frame) rollback(s snap) {
	fr.en.events = fr.en.events[:s.ev]
	fr.rets = fr.rets[:s.rets]
	fr.defers = fr.defers[:s.defs]
	fr.en.loops = fr.en.loops[:s.loops]
	fr.en.pureMemo = fr.en.pureMemo[:s.pure]
	fr.en.warnLog = fr.en.warnLog[:s.warns]
}

func (fr *Frame) exportTo(L *SLoop, e Edge, f func(*Term) *Term) Edge {
	loc := map[ssa.Value]*Term{}
	for k, v := range e.st.loc {
		loc[k] = v
	}
	for _, v := range L.exported() {
		if t, ok := e.st.loc[v]; ok {
			loc[v] = f(t)
		} else if t, ok := fr.env[v]; ok {
			loc[v] = f(t)
		}
	}
	e.st.loc = loc
	return e
}

func (fr *Frame) unroll(L *SLoop, init map[*ssa.Phi]*Term, st State) (outs []Edge, rinit map[*ssa.Phi]*Term, rst State, ok bool) {
	s0 := fr.snapshot()
	savedU, savedK := fr.unrolls, fr.unrollK
	defer func() { fr.unrolls, fr.unrollK = savedU, savedK }()
	vals, cur := init, st
	// the loop must have a governing exit branch
	var gov []*ssa.If
	for b := range L.blocks {
		if fr.static.inner[b] != L {
			continue
		}
		if iff, is := b.Instrs[len(b.Instrs)-1].(*ssa.If); is {
			if L.blocks[b.Succs[0]] != L.blocks[b.Succs[1]] {
				gov = append(gov, iff)
			}
		}
	}
	for it := 0; it <= maxUnroll; it++ {
		s1 := fr.snapshot()
		for p, v := range vals {
			fr.env[p] = v
		}
		fr.unrolls = fmt.Sprintf("%s~%d", savedU, it)
		fr.unrollK = Num(int64(it))
		if fr.conds == nil {
			fr.conds = map[*ssa.If]int{}
		}
		for _, g := range gov {
			delete(fr.conds, g)
		}
		if it == 0 && fr.longTrip(L, init, cur) {
			return nil, init, st, false
		}
		lat, ex := fr.region(L.blocks, L.header, cur, L)
		decided := false
		for _, g := range gov {
			if d := fr.conds[g]; d == 1 || d == 2 {
				decided = true
			}
		}
		if !decided {
			if it > 0 && fr.en.peel {
				fr.rollback(s1)
				return outs, vals, cur, false
			}
			fr.rollback(s0)
			return nil, init, st, false
		}
		for _, e := range ex {
			outs = append(outs, fr.exportTo(L, e, func(t *Term) *Term { return t }))
		}
		if len(lat) == 0 {
			return outs, nil, st, true
		}
		vals = fr.phiVals(L.header, lat)
		var sts []State
		for _, e := range lat {
			sts = append(sts, e.st)
		}
		cur = fr.en.mergeStates(sts)
		for p, v := range vals {
			vals[p] = deepRestrict(v, cur.g)
		}
	}
	fr.rollback(s0)
	return nil, init, st, false
}

// longTrip decides from the header's own test whether a counting loop runs
// for more than maxUnroll iterations or an undetermined number of them.
func (fr *Frame) longTrip(L *SLoop, init map[*ssa.Phi]*Term, st State) bool {
	h := L.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || L.blocks[h.Succs[0]] == L.blocks[h.Succs[1]] {
		return false
	}
	stay := 1
	if !L.blocks[h.Succs[0]] {
		stay = 2
	}
	affineAll := true
	// what the test of the header depends on
	tested := map[ssa.Value]bool{}
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		if tested[v] {
			return
		}
		tested[v] = true
		in, ok := v.(ssa.Instruction)
		if _, phi := v.(*ssa.Phi); !ok || phi || in.Block() != h {
			return
		}
		for _, o := range in.Operands(nil) {
			if *o != nil {
				uses(*o)
			}
		}
	}
	uses(iff.Cond)
	probe := func(n int64) (int, bool) {
		s := fr.snapshot()
		defer fr.rollback(s)
		defer func() {
			for p, v := range init {
				fr.env[p] = v
			}
		}()
		for _, in := range h.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				fr.env[in] = init[in]
				step, ok := phiStep(in, L)
				if ok && init[in] != nil {
					fr.env[in] = Add(init[in], Mul(step, Num(n)))
				} else if n > 0 {
					fr.env[in] = Sym(fmt.Sprintf("probe.%s", in.Name()), in.Type())
					if tested[in] {
						affineAll = false
					}
				}
			case *ssa.BinOp, *ssa.UnOp, *ssa.Call, *ssa.Convert, *ssa.DebugRef, *ssa.If:
				if c, ok := in.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
						return 3, false
					}
				}
			default:
				return 3, false
			}
		}
		delete(fr.conds, iff)
		fr.exec(h, st)
		return fr.conds[iff], true
	}
	c40, ok := probe(maxUnroll)
	if !ok {
		return false
	}
	if c40 == stay {
		return true
	}
	return c40 == 3 && affineAll
}

// phiStep returns the constant step of an induction variable.
func phiStep(p *ssa.Phi, L *SLoop) (*Term, bool) {
	var step *Term
	for i, e := range p.Edges {
		if !L.blocks[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil, false
		}
		c, ok := b.Y.(*ssa.Const)
		x := b.X
		if !ok && b.Op == token.ADD {
			c, ok = b.X.(*ssa.Const)
			x = b.Y
		}
		if !ok || x != ssa.Value(p) || !isInt(p.Type()) && !isFloat(p.Type()) {
			return nil, false
		}
		n := constTerm(c)
		if !n.isNum() {
			return nil, false
		}
		if b.Op == token.SUB {
			n = Neg(n)
		}
		if step != nil && n != step {
			return nil, false
		}
		step = n
	}
	return step, step != nil
}

func (fr *Frame) generic(L *SLoop, init map[*ssa.Phi]*Term, st State) []Edge {
	en := fr.en
	idKey := fr.fn.String() + "|" + fr.ctx + fr.unrolls + "|" + fmt.Sprint(L.header.Index)
	for _, o := range fr.outer {
		idKey += "|" + o.ID
	}
	if en.idNames == nil {
		en.idNames = map[string]string{}
	}
	id, have := en.idNames[idKey]
	if !have {
		id = fmt.Sprintf("L%d", len(en.idNames)+1)
		en.idNames[idKey] = id
	}
	lp := &Loop{ID: id, Outer: fr.outer, Fn: fr.fn, Ctx: fr.ctx, Header: L.header, EntryG: st.g, frame: fr}
	lp.K = Sym("k@"+id, tInt)
	for _, b := range []*ssa.BasicBlock{L.header} {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				lp.Pos = in.Pos()
				break
			}
		}
	}
	if !lp.Pos.IsValid() {
		for _, b := range fr.static.rpo {
			if !L.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					lp.Pos = in.Pos()
					break
				}
			}
			if lp.Pos.IsValid() {
				break
			}
		}
	}
	en.loopByK[lp.K] = lp
	prefix := "carry:" + id + ":"
	outerKs := lp.outerKs()

	saveOuter, saveU, saveK := fr.outer, fr.unrolls, fr.unrollK
	defer func() { fr.outer, fr.unrolls, fr.unrollK = saveOuter, saveU, saveK }()
	fr.outer = append(append([]*Loop{}, saveOuter...), lp)
	fr.unrollK = nil

	mkCarry := func(key string, T types.Type) *Carry {
		c := &Carry{Key: key, T: T, name: prefix + key, outer: outerKs}
		if T != nil && !isInt(T) {
			// terms are shared between engines, where the same name may have another type
			c.name += "'" + types.TypeString(T, func(*types.Package) string { return "" })
		}
		s := App(c.name, T, append([]*Term{lp.K}, outerKs...)...)
		if T != nil {
			s = expandStruct(T, s)
		}
		c.Sym = s
		return c
	}
	var carries []*Carry
	for _, in := range L.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c := mkCarry("phi."+p.Name(), p.Type())
		c.Phi, c.Init = p, init[p]
		if p.Comment != "" {
			c.Key += "(" + p.Comment + ")"
		}
		carries = append(carries, c)
		if ps := splitInit(c); ps != nil {
			for i, v := range ps {
				s := mkCarry(fmt.Sprintf("phi.%s#%d", p.Name(), i), tInt)
				s.Init, s.part = v, true
				c.split = append(c.split, s)
				carries = append(carries, s)
			}
		}
	}
	locs := map[string]*Carry{}
	var value func(c *Carry) *Term
	value = func(c *Carry) *Term {
		if c.split != nil {
			var vs []*Term
			for _, s := range c.split {
				vs = append(vs, value(s))
			}
			return splitValue(c, vs)
		}
		if c.Solved != nil {
			return c.Solved
		}
		return c.Sym
	}
	fits := func(c *Carry) bool {
		if c.Solved == nil || c.Next == nil || c.split != nil {
			return true
		}
		w := substT(c.Solved, map[*Term]*Term{lp.K: AddC(lp.K, 1)})
		if _, ok := underArray(c.T); ok && w != c.Solved {
			return true // a growing array: the shape of its update is what was solved
		}
		w = deepRestrict(w, lp.ContG)
		return w == c.Next || wrapInt(c.T, w) == c.Next || restrict(Not(Eq(w, c.Next)), lp.ContG) == False
	}
	var lat, ex []Edge
	var hdr State
	s0 := fr.snapshot()
	for pass := 0; ; pass++ {
		if pass > 24 {
			panic(budgetExceeded{"loop fixpoint did not settle: " + fr.fn.String()})
		}
		fr.rollback(s0)
		for k := range en.loopSeen {
			_ = k
		}
		// header state
		m := st.mem.clone()
		ord := make([]string, 0, len(locs))
		for k := range locs {
			ord = append(ord, k)
		}
		sort.Strings(ord)
		for _, k := range ord {
			c := locs[k]
			T := en.objType[c.Obj]
			old, ok := m.get(c.Obj)
			if !ok {
				if isFresh(c.Obj) {
					old = appRaw("unalloc:"+c.Obj.S, nil)
				} else {
					old = en.content(m, c.Obj)
				}
			}
			m.m[c.Obj] = en.writePath(T, old, c.Path, value(c))
		}
		for _, o := range lp.gens {
			if _, ok := m.get(o); !ok {
				m.m[o] = en.genContent[o]
			}
		}
		hdr = State{st.g, m, st.loc}
		for _, c := range carries {
			if c.Phi != nil {
				fr.env[c.Phi] = value(c)
			}
		}
		lat, ex = fr.region(L.blocks, L.header, hdr, L)
		changed := false
		if len(lat) > 0 {
			nv := fr.phiVals(L.header, lat)
			var sts []State
			for _, e := range lat {
				sts = append(sts, e.st)
			}
			nx := en.mergeStates(sts)
			lp.ContG = nx.g
			for _, c := range carries {
				if c.Phi != nil {
					c.Next = deepRestrict(nv[c.Phi], nx.g)
				}
				if c.split == nil {
					continue
				}
				if ps := splitNext(c, value(c)); ps != nil {
					for i, s := range c.split {
						s.Next = ps[i]
					}
					continue
				}
				if os.Getenv("SPL") != "" {
					fmt.Fprintln(os.Stderr, "SPL", c.Key, "INIT", c.Init, "NEXT", c.Next)
				}
				// something else is assigned
				drop := map[*Carry]bool{}
				for _, s := range c.split {
					drop[s] = true
				}
				c.split = nil
				kept := carries[:0:0]
				for _, x := range carries {
					if !drop[x] {
						kept = append(kept, x)
						if x.Solved != nil {
							x.Solved = nil
						}
					}
				}
				carries, changed = kept, true
				for _, x := range locs {
					x.Solved = nil
				}
			}
			// discover modified locations
			found := false
			keys := map[*Term]bool{}
			for k := range nx.mem.m {
				keys[k] = true
			}
			for k := range hdr.mem.m {
				keys[k] = true
			}
			kord := make([]*Term, 0, len(keys))
			for k := range keys {
				kord = append(kord, k)
			}
			sort.Slice(kord, func(i, j int) bool { return kord[i].ID < kord[j].ID })
			for _, o := range kord {
				a, ok := hdr.mem.get(o)
				if !ok {
					if isFresh(o) {
						a = appRaw("unalloc:"+o.S, nil)
					} else {
						a = en.content(hdr.mem, o)
					}
				}
				b, ok := nx.mem.get(o)
				if !ok {
					b = a
				}
				if a == b {
					continue
				}
				if mentions(o, func(t *Term) bool { return t == lp.K || t.appPrefix(prefix) }) {
					if o.S == "stream" {
						continue // one stream per archive entry
					}
					en.warn("store through an iteration-dependent unknown pointer in %s", fr.fn)
					continue
				}
				fr.diff(lp, prefix, en.objType[o], a, b, nil, func(path []*Term, T types.Type) {
					key := "mem." + o.S
					for _, x := range o.A {
						key += fmt.Sprintf(",%d", x.ID)
					}
					for _, p := range path {
						if p.Op == OpField {
							key += "." + p.S
						} else {
							key += fmt.Sprintf("[%d]", p.ID)
						}
					}
					// covered by an existing location?
					for _, c := range locs {
						if c.Obj == o && isPrefix(c.Path, path) {
							return
						}
					}
					// a coarser location replaces finer ones
					for k2, c := range locs {
						if c.Obj == o && isPrefix(path, c.Path) {
							delete(locs, k2)
						}
					}
					c := mkCarry(key, T)
					c.Obj, c.Path = o, append([]*Term{}, path...)
					base, ok := st.mem.get(o)
					if !ok {
						if isFresh(o) {
							base = appRaw("unalloc:"+o.S, nil)
						} else {
							base = en.content(st.mem, o)
						}
					}
					c.Init, _ = en.readPath(en.objType[o], base, path)
					locs[key] = c
					changed, found = true, true
				})
			}
			for _, c := range locs {
				b, ok := nx.mem.get(c.Obj)
				if !ok {
					b = en.content(nx.mem, c.Obj)
				}
				nvv, _ := en.readPath(en.objType[c.Obj], b, c.Path)
				c.Next = deepRestrict(nvv, nx.g)
			}
			if found {
				// solutions found while the location was taken to be constant are void
				for _, c := range carries {
					c.Solved = nil
				}
				for _, c := range locs {
					c.Solved = nil
				}
			}
			if !changed {
				// a store that went to an unknown place may become known with the pointers
				lost := len(en.warnLog) > s0.warns
				all := append([]*Carry{}, carries...)
				ord = ord[:0]
				for k := range locs {
					ord = append(ord, k)
				}
				sort.Strings(ord)
				for _, k := range ord {
					all = append(all, locs[k])
				}
				for _, relaxed := range []bool{false, true} {
					for _, c := range all {
						if c.split != nil || c.never || lost && c.Obj != nil && !relaxed {
							continue
						}
						if lost && relaxed && changed {
							break
						}
						if c.Solved == nil && c.Next != nil && !changed || c.Solved == nil && c.Next != nil && !relaxed {
							if s := fr.solve(lp, prefix, c, relaxed); s != nil {
								c.Solved = s
								changed = true
							}
						}
					}
				}
			}
		} else {
			lp.ContG = False
		}
		if !changed && pass < 16 {
			all := append([]*Carry{}, carries...)
			for _, c := range locs {
				all = append(all, c)
			}
			for _, c := range all {
				if !fits(c) {
					c.never, changed = true, true
				}
			}
			if changed {
				for _, c := range all {
					c.Solved = nil
				}
			}
		}
		if !changed {
			break
		}
	}
	ord := make([]string, 0, len(locs))
	for k := range locs {
		ord = append(ord, k)
	}
	sort.Strings(ord)
	lp.Carries = carries
	for _, k := range ord {
		lp.Carries = append(lp.Carries, locs[k])
	}
	en.loops = append(en.loops, lp)
	// every solution is checked against the recurrence of the last pass
	for _, c := range lp.Carries {
		if !fits(c) {
			en.warn("the solution of %s in %s does not fit its recurrence", c.Key, fr.fn)
			if os.Getenv("CONS") != "" {
				println("CONS", c.Key, "SOLVED", c.Solved.String(), "NEXT", c.Next.String())
			}
		}
	}
	for _, c := range carries {
		if c.split != nil {
			c.Solved = value(c)
		}
	}

	// ------------------------------------------------ exits
	dominatesLatches := func(b *ssa.BasicBlock) bool {
		for _, e := range lat {
			if !b.Dominates(e.from) {
				return false
			}
		}
		return true
	}
	count, unequal := -1, false
	for i, e := range ex {
		if count >= 0 || fr.static.inner[e.from] != L || !dominatesLatches(e.from) {
			continue
		}
		iff, ok := e.from.Instrs[len(e.from.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c := fr.get(e.st, iff.Cond)
		if e.to == e.from.Succs[0] {
			c = Not(c)
		}
		c = restrict(c, st.g)
		if n := tripOf(c, lp.K, prefix); n != nil {
			count = i
			// a test for inequality bounds the iterations only together with their number
			unequal = c.Op == OpIte && c.A[0].S == "eq0" && lp.N == nil
			lp.N = en.decideCases(deepRestrict(n, st.g), st.g)
			cg := And(st.g, c)
			if restrict(lp.ContG, cg) == True {
				lp.Done = True
			}
		}
	}
	bottom := count >= 0 && (ex[count].from != L.header || unequal)
	for _, e := range lat {
		bottom = bottom || count >= 0 && e.from == L.header
	}
	if bottom {
		// the test is not at the top: an iteration K that has started has K completed ones before it
		cur := hdr
		cur.g = And(st.g, Ge0(Sub(lp.N, lp.K)))
		fr.rollback(s0)
		for _, c := range carries {
			if c.Phi != nil {
				fr.env[c.Phi] = value(c)
			}
		}
		from := ex[count].from
		lat, ex = fr.region(L.blocks, L.header, cur, L)
		en.loops = append(en.loops, lp)
		count = -1
		for i, e := range ex {
			if e.from == from {
				count = i
			}
		}
		lp.ContG = False
		if len(lat) > 0 {
			var sts []State
			for _, e := range lat {
				sts = append(sts, e.st)
			}
			lp.ContG = en.mergeStates(sts).g
		}
	}
	var order []int
	if count >= 0 {
		order = append(order, count)
	}
	for i := range ex {
		if i != count {
			order = append(order, i)
		}
	}
	if lp.Done == nil && len(ex) == 1 && count < 0 {
		lp.Done = True
	}
	// a value at the start of the first iteration is the value before the loop
	first := map[*Term]*Term{}
	for _, c := range lp.Carries {
		if c.Solved == nil && c.Init != nil && c.Sym != nil && c.split == nil {
			if at0 := substT(c.Sym, map[*Term]*Term{lp.K: Zero}); at0 != c.Sym {
				first[at0] = c.Init
			}
		}
	}
	rest := True
	var outs []Edge
	for n, i := range order {
		e := ex[i]
		x := &LoopExit{From: e.from, To: e.to, G: e.st.g, State: e.st}
		var atom *Term
		last := n == len(order)-1
		if i == count {
			x.Counting = true
			x.At = lp.N
			if lp.Done == True {
				atom = True
			} else {
				atom = App("done:"+id, tBool, outerKs...)
			}
		} else {
			x.At = App(fmt.Sprintf("kx:%s:%d", id, n), tInt, outerKs...)
			if last {
				atom = True
				if count >= 0 && len(order) == 1 {
					atom = True
				}
			} else {
				atom = App(fmt.Sprintf("exit:%s:%d", id, n), tBool, outerKs...)
			}
		}
		x.Guard = And(st.g, And(rest, atom))
		if last && i != count && lp.N == nil && len(order) == 1 {
			x.Guard = st.g
		}
		rest = And(rest, Not(atom))
		lp.Exits = append(lp.Exits, x)
		if x.Guard == False {
			continue
		}
		sub := map[*Term]*Term{lp.K: x.At}
		f := func(t *Term) *Term { return deepRestrict(substT(substT(t, sub), first), x.Guard) }
		ne := fr.exportTo(L, e, f)
		nm := st.mem.clone()
		for o, c := range e.st.mem.m {
			if old, ok := nm.m[o]; ok && old == c {
				continue
			}
			o2 := substT(o, sub)
			if o2 != o {
				en.objType[o2] = en.objType[o]
			}
			nm.m[o2] = f(c)
		}
		ne.st.mem = nm
		ne.st.g = x.Guard
		outs = append(outs, ne)
	}
	return outs
}

func isPrefix(a, b []*Term) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// diff reports the finest loop-invariant locations whose content changed.
func (fr *Frame) diff(lp *Loop, prefix string, T types.Type, a, b *Term, path []*Term, report func([]*Term, types.Type)) {
	if a == b {
		return
	}
	if T == nil {
		report(path, T)
		return
	}
	variant := func(t *Term) bool {
		return mentions(t, func(x *Term) bool {
			if x == lp.K || x.appPrefix(prefix) {
				return true
			}
			if l, ok := fr.en.loopByK[x]; ok { // symbol of a loop nested inside
				for _, o := range lp.Outer {
					if o == l || o.ID == l.ID {
						return false
					}
				}
				return true
			}
			return false
		})
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		x, y := expandStruct(T, a), expandStruct(T, b)
		if x.Op == OpStruct && y.Op == OpStruct && len(x.A) == len(y.A) {
			for i := range x.A {
				fr.diff(lp, prefix, u.Field(i).Type(), x.A[i], y.A[i], append(append([]*Term{}, path...), Field(i)), report)
			}
			return
		}
	case *types.Array:
		idx := map[*Term]bool{}
		var order []*Term
		add := func(i *Term) {
			if !idx[i] {
				idx[i] = true
				order = append(order, i)
			}
		}
		strip := func(t *Term) *Term {
			for t.Op == OpArrUpd {
				add(t.A[1])
				t = t.A[0]
			}
			return t
		}
		ba, bb := strip(a), strip(b)
		ok := ba == bb
		if !ok && ba.Op == OpArr && bb.Op == OpArr && ba.A[0] == bb.A[0] {
			ok = true
			for i := 1; i < len(ba.A); i += 2 {
				add(ba.A[i])
			}
			for i := 1; i < len(bb.A); i += 2 {
				add(bb.A[i])
			}
		}
		if ok {
			for _, i := range order {
				if variant(i) {
					ok = false
				}
			}
		}
		if ok && len(order) > 1 {
			for _, i := range order {
				if !i.isNum() {
					ok = false
				}
			}
		}
		if ok {
			for _, i := range order {
				fr.diff(lp, prefix, u.Elem(), App("sel", u.Elem(), a, i), App("sel", u.Elem(), b, i), append(append([]*Term{}, path...), i), report)
			}
			return
		}
	}
	report(path, T)
}

// splitInit decomposes a slice or string that a loop may shorten.
func splitInit(c *Carry) []*Term {
	if c.Init == nil || c.T == nil {
		return nil
	}
	switch u := c.T.Underlying().(type) {
	case *types.Slice:
		if c.Init.Op == OpSlice {
			return []*Term{c.Init.A[1], c.Init.A[2], c.Init.A[3]}
		}
		if c.Init.Op == OpApp && !c.Init.app("append") {
			return []*Term{Zero, Len(c.Init), App("cap", tInt, c.Init)}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 && c.Init.Op == OpApp {
			if c.Init.app("substr") {
				return []*Term{c.Init.A[1], c.Init.A[2]}
			}
			return []*Term{Zero, Len(c.Init)}
		}
	}
	return nil
}

func splitBase(c *Carry) *Term {
	if c.Init.Op == OpSlice || c.Init.app("substr") {
		return c.Init.A[0]
	}
	return c.Init
}

func splitValue(c *Carry, vs []*Term) *Term {
	if len(vs) == 3 {
		if b := splitBase(c); b.Op == OpApp && vs[0] == Zero && vs[1] == Len(b) {
			return b
		}
		return Slice(splitBase(c), vs[0], vs[1], vs[2])
	}
	return App("substr", c.T, splitBase(c), vs[0], vs[1])
}

// splitNext decomposes the value after an iteration.
func splitNext(c *Carry, cur *Term) []*Term {
	n := c.Next
	if n == nil {
		return nil
	}
	b := splitBase(c)
	if len(c.split) == 3 {
		if n.Op == OpSlice && n.A[0] == b {
			return []*Term{n.A[1], n.A[2], n.A[3]}
		}
		if n == b && b.Op == OpApp {
			return []*Term{Zero, Len(b), App("cap", tInt, b)}
		}
		return nil
	}
	if n.Op == OpIte {
		hi, lo := *c, *c
		hi.Next, lo.Next = n.A[1], n.A[2]
		h, l := splitNext(&hi, cur), splitNext(&lo, cur)
		if h == nil || l == nil {
			return nil
		}
		at := typed(n.A[0])
		return []*Term{Ite(at, h[0], l[0]), Ite(at, h[1], l[1])}
	}
	if n.app("substr") && n.A[0] == b {
		return []*Term{n.A[1], n.A[2]}
	}
	if n == b {
		return []*Term{Zero, Len(b)}
	}
	if n == Str("") { // empty at its end
		var hi *Term
		if cur.app("substr") && cur.A[0] == b {
			hi = cur.A[2]
		} else {
			hi = c.split[1].Init
		}
		return []*Term{hi, hi}
	}
	return nil
}

// solve finds a closed form for a recurrence.
// A relaxed solution of an array may refer to recurrences that have none.
func (fr *Frame) solve(lp *Loop, prefix string, c *Carry, relaxed bool) *Term {
	unsolved := func(t *Term) bool {
		return mentions(t, func(x *Term) bool { return x.appPrefix(prefix) })
	}
	hasK := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == lp.K }) }
	n := c.Next
	if n == c.Sym {
		return c.Init
	}
	if c.Init == nil {
		return nil
	}
	if n == c.Init && !unsolved(n) && !hasK(n) {
		return n
	}
	numeric := c.T != nil && (kindOf(c.T) == KInt || kindOf(c.T) == KFloat)
	if numeric && c.Sym.Op == OpApp {
		d := Sub(n, c.Sym)
		if !unsolved(d) {
			if !hasK(d) {
				return Add(c.Init, Mul(d, lp.K))
			}
			// polynomial of degree one in K
			if b, a, ok := affine(d, lp.K); ok && !hasK(a) && !hasK(b) {
				s := Add(c.Init, Mul(a, lp.K))
				return Add(s, Mul(b, Mul(NumR(big.NewRat(1, 2)), Mul(lp.K, Sub(lp.K, One)))))
			}
		}
		// slices of a fixed stride etc. stay symbolic
	}
	if !unsolved(n) {
		prev := substT(n, map[*Term]*Term{lp.K: Sub(lp.K, One)})
		at0 := substT(n, map[*Term]*Term{lp.K: Num(-1)})
		if at0 == c.Init && !hasK(n) {
			return n
		}
		if at0 == c.Init && prev.Op != OpIte {
			return prev
		}
		if isStructured(prev) || isStructured(c.Init) {
			return nil2(c, lp, prev)
		}
		return Ite(Eq0(lp.K), c.Init, prev)
	}
	if arr, ok := underArray(c.T); ok {
		return fr.solveArr(lp, prefix, c, arr.Elem(), relaxed)
	}
	if n.app("append") && n.A[0] == c.Sym && c.Sym.Op == OpApp {
		return fr.solveAppend(lp, prefix, c, n.A[1:])
	}
	return nil
}

// solveAppend solves an accumulator that grows by the same number of elements
// in every iteration: it becomes a slice of an array of all elements.
func (fr *Frame) solveAppend(lp *Loop, prefix string, c *Carry, es []*Term) *Term {
	en := fr.en
	for _, e := range es {
		if mentions(e, func(x *Term) bool { return x.appPrefix(prefix) }) {
			return nil
		}
	}
	if c.Init.Op == OpIte {
		return nil
	}
	ET := elemType(c.T)
	n0 := Len(c.Init)
	per := Num(int64(len(es)))
	AT := types.NewArray(ET, 1<<40)
	base := Arr(AT, zeroOf(ET))
	if c.Init.Op != OpNil && n0 != Zero {
		return nil
	}
	kk := Sym("k@b.gen."+c.name, tInt)
	var at func(i int, k *Term) *Term
	at = func(i int, k *Term) *Term { return substT(es[i], map[*Term]*Term{lp.K: k}) }
	var v *Term
	if len(es) == 1 {
		v = at(0, kk)
	} else {
		q, r := Quo(kk, per), Rem(kk, per)
		v = at(len(es)-1, q)
		for i := len(es) - 2; i >= 0; i-- {
			v = Ite(EqInt(r, Num(int64(i))), at(i, q), v)
		}
	}
	arr := ArrLam(true, base, Zero, Num(1<<40), One, kk, v)
	ks := lp.outerKs()
	o := Obj("gen:" + c.name)
	en.objType[o] = familyType(AT, len(ks))
	for i := len(ks) - 1; i >= 0; i-- {
		kb := Sym(fmt.Sprintf("k@b.geno%d.%s", i, c.name), tInt)
		arr = ArrLam(true, Arr(familyType(AT, len(ks)-i), Zero), Zero, Num(1<<40), One, kb, substT(arr, map[*Term]*Term{ks[i]: kb}))
	}
	if en.genContent == nil {
		en.genContent = map[*Term]*Term{}
	}
	en.genContent[o] = arr
	lp.gens = append(lp.gens, o)
	n := Mul(per, lp.K)
	return Slice(Ptr(o, ks...), Zero, n, App("cap.app", tInt, n))
}

func nil2(c *Carry, lp *Loop, prev *Term) *Term {
	return mergeContent(Eq0(lp.K), c.Init, prev)
}

func isStructured(t *Term) bool {
	switch t.Op {
	case OpArr, OpArrUpd, OpArrLam, OpStruct:
		return true
	}
	return false
}

func underArray(T types.Type) (*types.Array, bool) {
	if T == nil {
		return nil, false
	}
	a, ok := T.Underlying().(*types.Array)
	return a, ok
}

// affine writes t = b*x + a for terms without x in b.
func affine(t, x *Term) (b, a *Term, ok bool) {
	if t.Op == OpIte {
		if mentions(t.A[0], func(y *Term) bool { return y == x }) {
			return nil, nil, false
		}
		b1, a1, ok1 := affine(t.A[1], x)
		b2, a2, ok2 := affine(t.A[2], x)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		c := typed(t.A[0])
		return Ite(c, b1, b2), Ite(c, a1, a2), true
	}
	var bs, as []Mono
	for _, m := range polyOf(t) {
		deg := 0
		var rest []Fac
		for _, f := range m.F {
			if f.T == x {
				deg += f.E
				continue
			}
			if mentions(f.T, func(y *Term) bool { return y == x }) {
				return nil, nil, false
			}
			rest = append(rest, f)
		}
		switch deg {
		case 0:
			as = append(as, m)
		case 1:
			bs = append(bs, Mono{m.C, rest})
		default:
			return nil, nil, false
		}
	}
	return fromMonos(bs), fromMonos(as), true
}

func (fr *Frame) solveArr(lp *Loop, prefix string, c *Carry, ET types.Type, relaxed bool) *Term {
	n := c.Next
	if n.Op == OpArrLam && n.A[0] == c.Sym {
		return fr.solveRows(lp, prefix, c, ET, relaxed)
	}
	if n.Op != OpArrUpd || n.A[0] != c.Sym {
		return nil
	}
	idx, v := n.A[1], contentRestrict(n.A[2], lp.ContG)
	b, a, ok := affine(idx, lp.K)
	if !ok || idx.Op == OpIte {
		return nil
	}
	var step *Term
	if b == One {
		step = One
	} else if b == Num(-1) {
		step = Num(-1)
	} else {
		return nil
	}
	if mentions(a, func(x *Term) bool { return x.appPrefix(prefix) }) {
		return nil
	}
	// the stored value may read the old element at the same index only
	old := App("sel", ET, c.Sym, idx)
	base := App("sel", ET, c.Init, idx)
	m := map[*Term]*Term{}
	rawOld := rawAtomOf(old)
	if rawOld != nil {
		m[rawOld] = base
	} else {
		m[old] = base
	}
	if old.Op == OpStruct {
		return nil
	}
	v2 := substT(v, m)
	if mentions(v2, func(x *Term) bool {
		return x.appPrefix(prefix) && (!relaxed || x.S == c.name || strings.HasPrefix(x.S, c.name+"."))
	}) {
		return nil
	}
	if mentions(v2, func(x *Term) bool { return x.appPrefix(prefix) && len(x.A) > 0 && x.A[0] != lp.K }) {
		return nil
	}
	total := c.Init.appPrefix("unalloc:") || (c.Init.app("sel") && mentions(c.Init, func(x *Term) bool { return x.appPrefix("unalloc:") }))
	kk := Sym("k@b."+c.name, tInt)
	return ArrLam(total, c.Init, a, lp.K, step, kk, substT(v2, map[*Term]*Term{lp.K: kk}))
}

// solveRows solves an array whose elements lo, lo+step, ... are each updated on
// their own in every iteration (an inner loop over rows, the outer one over
// columns).
func (fr *Frame) solveRows(lp *Loop, prefix string, c *Carry, ET types.Type, relaxed bool) *Term {
	n := c.Next
	lo, cnt, step, kk, val := n.A[1], n.A[2], n.A[3], n.A[4], n.A[5]
	variant := func(x *Term) bool { return x == lp.K || x.appPrefix(prefix) }
	if mentions(lo, variant) || mentions(cnt, variant) {
		return nil
	}
	idx := Add(lo, kk)
	if step != One {
		idx = Sub(lo, kk)
	}
	old := App("sel", ET, c.Sym, idx)
	if old.Op != OpApp || !old.appPrefix("sel") {
		return nil
	}
	row := &Carry{name: c.name + ".row", T: ET, Init: App("sel", ET, c.Init, idx)}
	row.Sym = appRaw(prefix+row.name, ET, lp.K, kk)
	row.Next = substT(val, map[*Term]*Term{old: row.Sym})
	if mentions(row.Next, func(x *Term) bool { return x == c.Sym }) {
		return nil
	}
	sol := fr.solve(lp, prefix, row, relaxed)
	if sol == nil || mentions(sol, func(x *Term) bool { return x == row.Sym }) {
		return nil
	}
	return ArrLam(n.S == "total", c.Init, lo, cnt, step, kk, sol)
}

func rawAtomOf(t *Term) *Term {
	if t.Op == OpIte && t.A[1] == True && t.A[2] == False {
		return t.A[0]
	}
	return nil
}

// tripOf computes how many iterations satisfy the continue condition c(K),
// K = 0, 1, ..., assuming c is monotone; nil if it is not a counting condition.
func tripOf(c, K *Term, prefix string) *Term {
	has := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == K }) }
	uns := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x.appPrefix(prefix) }) }
	if c == False {
		return Zero
	}
	if c.Op != OpIte {
		return nil
	}
	a := c.A[0]
	if uns(a) {
		return nil
	}
	if !has(a) {
		h, l := tripOf(c.A[1], K, prefix), tripOf(c.A[2], K, prefix)
		if h == nil || l == nil {
			return nil
		}
		return Ite(typed(a), h, l)
	}
	var pos bool
	var rest *Term
	switch {
	case c.A[2] == False:
		pos, rest = true, c.A[1]
	case c.A[1] == False:
		pos, rest = false, c.A[2]
	default:
		return nil
	}
	var n *Term
	p := a.A[0]
	switch a.S {
	case "ge0":
		if !pos {
			p = Sub(Num(-1), p)
		}
		b, k0, ok := affine(p, K)
		if !ok || !b.isNum() || b.R.Sign() >= 0 {
			return nil
		}
		if b == Num(-1) {
			n = Max0(AddC(k0, 1))
		} else {
			d := Neg(b)
			n = Ite(Ge0(k0), AddC(Quo(k0, d), 1), Zero)
		}
	case "eq0":
		if pos {
			return nil
		}
		b, k0, ok := affine(p, K)
		if !ok {
			return nil
		}
		if b == One {
			n = Neg(k0)
		} else if b == Num(-1) {
			n = k0
		} else {
			return nil
		}
		if r := rangeOf(n); r.lo == nil || r.lo.Sign() < 0 {
			return nil
		}
	case "flt0", "fle0":
		b, k0, ok := affine(p, K)
		if !ok || !b.isNum() || !k0.isNum() {
			return nil
		}
		if !pos {
			// continue while not(p < 0): p >= 0
			if b.R.Sign() >= 0 {
				return nil
			}
			q := new(big.Rat).Quo(k0.R, new(big.Rat).Neg(b.R))
			f := floorRat(q)
			m := NumR(f)
			if a.S == "flt0" || f.Cmp(q) != 0 {
				m = AddC(m, 1)
			}
			n = Max0(m)
			break
		}
		if b.R.Sign() <= 0 {
			return nil
		}
		q := new(big.Rat).Quo(new(big.Rat).Neg(k0.R), b.R) // p(q) == 0
		f := floorRat(q)
		m := NumR(f)
		if f.Cmp(q) != 0 || a.S == "fle0" {
			m = AddC(m, 1)
		}
		n = Max0(m)
	default:
		return nil
	}
	if rest == True {
		return n
	}
	n2 := tripOf(rest, K, prefix)
	if n2 == nil {
		return nil
	}
	return Ite(Le(n, n2), n, n2)
}

func Max0(t *Term) *Term { return Ite(Ge0(t), t, Zero) }

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
