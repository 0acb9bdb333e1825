package main

// Run-length rows: the loop over the bytes of a row as a transducer, compared
// step by step with the specified one.

import (
	"fmt"
	"go/types"
	"strings"
)

// rlView is the row decoder of a view.
type rlView struct {
	*pix
	rows  *Loop  // loop over the rows
	bytes *Loop  // loop over the bytes of a row
	row   *Carry // content of the row
	S     *Carry // stream position of the row
	K, R  *Term  // iteration symbols
	i     *Term  // position in the line of the byte of iteration K
	i0    int64
	b     *Term // that byte
	L     *Term // length of the line without its terminator
	g     *Term // a complete iteration of a row that was decoded
	entry *Term
	pos   *Carry // column
	off   *Term  // offsets are still expected
	offC  *Carry
	offN  *Term // off after the iteration
	at    string
	start *Term    // position in the line of the first byte the loop reads
	pre   *rlPhase // a loop of its own over the offset bytes, which the loop continues
}

// rlPhase is a loop over the offset bytes of a row.
type rlPhase struct {
	*Loop
	i, b *Term
	pos  *Carry
	g    *Term
	at   string
}

// carriesIn lists the recurrences a value mentions directly.
func (en *Engine) carriesIn(t *Term) map[*Carry][]*Term {
	out := map[*Carry][]*Term{}
	for _, l := range en.loops {
		for _, c := range l.Carries {
			for _, x := range collect(t, func(x *Term) bool {
				return x.appPrefix("carry:") && (x.S == c.name || strings.HasPrefix(x.S, c.name+"."))
			}) {
				out[c] = append(out[c], x)
			}
		}
	}
	return out
}

func (l *Loop) has(c *Carry) bool {
	for _, x := range l.Carries {
		if x == c {
			return true
		}
	}
	return false
}

// runlength finds the row decoder.
func (p *pix) runlength() *rlView {
	g := And(p.g, p.lvl)
	if g == False {
		fail("run-length data cannot be parsed (%s)", p.name)
	}
	val := deepRestrict(p.val, g)
	v := &rlView{pix: p}
	// the loop over rows: completed in iteration r
	for i := 0; i < 3; i++ {
		for c, xs := range p.carriesIn(val) {
			for _, l := range p.loops {
				if !l.has(c) || len(l.Outer) != 1 || c.T == nil {
					continue
				}
				if _, ok := underArray(c.T); !ok {
					continue
				}
				for _, x := range xs {
					if len(x.A) == 2 {
						v.rows, v.bytes, v.row = l.Outer[0], l, c
					}
				}
			}
		}
		if v.rows == nil {
			break
		}
		g = And(g, substT(v.rows.ContG, map[*Term]*Term{v.rows.K: p.r}))
		n := deepRestrict(val, g)
		if n == val {
			break
		}
		val = n
	}
	if v.rows == nil {
		fail("no loop over the bytes of a row found: an arbitrary pixel is %s", show(val, 6))
	}
	v.val = val
	v.K, v.R = v.bytes.K, v.rows.K
	v.at = v.c.pos(v.bytes.Pos)
	q, lits := v.byteOf(v.bytes)
	for c := range p.carriesIn(q) {
		if v.rows.has(c) && c.T != nil && isInt(c.T) && And(True, EqInt(q, q)) == True {
			if d := Sub(q, c.Sym); !mentions(d, func(x *Term) bool { return x == c.Sym }) {
				v.S = c
			}
		}
	}
	if v.S == nil {
		fail("the bytes of a row are not read relative to a position of the stream: %s", show(q, 6))
	}
	v.b, v.i = v.byteAt(q), Sub(q, v.S.Sym)
	v.start = substT(v.i, map[*Term]*Term{v.K: Zero})
	if Sub(v.i, v.K) != v.start {
		fail("the bytes of a row are not read one after the other: %s", show(v.i, 6))
	}
	v.L = Sub(App("until.len", tInt, v.B, v.S.Sym, Num(10)), One)
	v.entry = And(v.bytes.EntryG, p.lvl)
	v.g = AndN(v.bytes.ContG, p.lvl, lits)
	// the state
	for _, c := range v.bytes.Carries {
		if c.Phi == nil && c.Obj == nil || c.Solved != nil || c.T == nil {
			continue
		}
		switch {
		case isInt(c.T) && c.Sym.K == KInt && c.finite():
			if v.offC != nil {
				fail("the loop over the bytes of a row has two phases: %s and %s", v.offC.Key, c.Key)
			}
			v.offC = c
		case isInt(c.T) && c.Sym.K == KInt:
			if v.pos != nil {
				fail("the loop over the bytes of a row has two unsolved numbers: %s and %s", v.pos.Key, c.Key)
			}
			v.pos = c
		case kindOf(c.T) == KBool:
			if v.offC != nil {
				fail("the loop over the bytes of a row has two flags: %s and %s", v.offC.Key, c.Key)
			}
			v.offC = c
		}
	}
	if v.pos == nil {
		fail("the loop over the bytes of a row has no column")
	}
	if v.offC == nil {
		v.offsetLoop()
		return v
	}
	n, ok := v.start.int64()
	if !ok || n < 0 || n > 1 {
		fail("the bytes of a row are not read from its beginning: %s", show(v.i, 6))
	}
	v.i0 = n
	if v.offC.Sym.K == KInt {
		// the phase in which offsets are expected: the one the row number leads to
		off := deepRestrict(v.offC.Init, v.entry)
		if v.i0 == 0 {
			m := map[*Term]*Term{v.K: Zero}
			off = deepRestrict(substT(substT(v.offC.Next, m), map[*Term]*Term{substT(v.offC.Sym, m): off}), substT(v.g, m))
		}
		if !off.isNum() {
			fail("the phase after the row number is %s", show(off, 6))
		}
		v.off, v.offN = EqInt(v.offC.Sym, off), EqInt(v.offC.Next, off)
		return v
	}
	v.off, v.offN = v.offC.Sym, v.offC.Next
	if deepRestrict(v.offC.Init, v.entry) == False {
		v.off, v.offN = Not(v.off), Not(v.offN)
	}
	return v
}

// byteOf is the position in the stream of the byte an iteration of l reads,
// and the case distinctions that are decided then.
func (v *rlView) byteOf(l *Loop) (q, lits *Term) {
	conds := []*Term{l.ContG}
	for _, c := range l.Carries {
		conds = append(conds, c.Next)
	}
	return v.byteIn(l, conds)
}

func (v *rlView) byteIn(l *Loop, conds []*Term) (q, lits *Term) {
	lits = True
	read := func() (twice *Term) {
		q = nil
		for i, t := range conds {
			g := And(v.lvl, lits)
			if (i > 0 || t != l.ContG) && lits != True {
				g = And(g, deepRestrict(l.ContG, g))
			}
			for _, b := range collect(contentRestrict(t, g), v.isByte) {
				if q == nil {
					q = b.A[1]
				} else if b.A[1] != q {
					return b.A[1]
				}
			}
		}
		return nil
	}
	if read() != nil {
		lits = v.decided(And(l.ContG, v.lvl), conds)
		if q2 := read(); q2 != nil {
			fail("an iteration over the bytes of a row reads two bytes, at %s and %s", show(q, 6), show(q2, 6))
		}
	}
	if q == nil {
		fail("the loop over the bytes of a row does not read the stream")
	}
	return q, lits
}

// offsetLoop finds the loop over the offset bytes that precedes the loop over
// the run bytes.
func (v *rlView) offsetLoop() {
	v.off, v.offN = False, False
	for _, l := range v.loops {
		if l == v.bytes || len(l.Outer) != 1 || l.Outer[0] != v.rows || l.EntryG == False {
			continue
		}
		var pos *Carry
		n := 0
		for _, c := range l.Carries {
			if c.Solved == nil && c.Phi != nil && c.T != nil {
				n++
				if isInt(c.T) && mentions(v.pos.Init, func(x *Term) bool { return x.appPrefix("carry:") && x.S == c.name }) {
					pos = c
				}
			}
		}
		if pos == nil || n != 1 {
			continue
		}
		q, lits := v.byteIn(l, []*Term{pos.Next})
		v.pre = &rlPhase{Loop: l, i: Sub(q, v.S.Sym), b: v.byteAt(q), pos: pos, g: AndN(l.ContG, v.lvl, lits), at: v.c.pos(l.Pos)}
	}
	if v.pre == nil {
		fail("the loop over the bytes of a row has neither a flag nor a loop over offset bytes before it")
	}
	if v.pre.i != AddC(v.pre.K, 1) {
		fail("the offset bytes of a row are not read one after the other: %s", show(v.pre.i, 6))
	}
}

// end is a way the loop over the offset bytes of a decoded row can end.
type rlEnd struct {
	counting bool
	g        *Term
	m        map[*Term]*Term // the iteration
	read     int64           // bytes this iteration has read
}

// at gives the byte the n-th iteration before the last one read.
func (v *rlView) byteBefore(e rlEnd, n int64) *Term {
	return substT(v.pre.b, map[*Term]*Term{v.pre.K: AddC(e.m[v.pre.K], -n)})
}

func (v *rlView) ends(cont *Term) (es []rlEnd) {
	for _, x := range v.pre.Exits {
		if x.Counting {
			es = append(es, rlEnd{counting: true, g: And(cont, x.Guard)})
			continue
		}
		m := map[*Term]*Term{v.pre.K: x.At}
		prev := substT(v.pre.ContG, map[*Term]*Term{v.pre.K: AddC(x.At, -1)})
		e := rlEnd{g: AndN(cont, x.Guard, substT(x.G, m), Ge0(x.At), Implies(Ge(x.At, One), prev)), m: m}
		if e.g == False {
			continue
		}
		if ok, _ := v.infeasible(e.g); ok {
			continue
		}
		n, ok := Sub(contentRestrict(v.start, e.g), substT(v.pre.i, m)).int64()
		if !ok || n < 0 || n > 1 {
			fail("the runs of a row do not follow its offset bytes: they start at %s", show(contentRestrict(v.start, e.g), 6))
		}
		e.read = n
		es = append(es, e)
	}
	return es
}

// decided collects the case distinctions in ts whose outcome follows from g.
func (en *Engine) decided(g *Term, ts []*Term) *Term {
	out := True
	seen := map[*Term]bool{}
	for _, t := range ts {
		for _, x := range collect(t, func(x *Term) bool { return linInt(x) != nil }) {
			a := typed(x)
			if seen[a] {
				continue
			}
			seen[a] = true
			if never, _ := en.infeasible(And(g, Not(a))); never {
				out = And(out, a)
			} else if never, _ := en.infeasible(And(g, a)); never {
				out = And(out, Not(a))
			}
		}
	}
	return out
}

func linInt(a *Term) *Term {
	p, _, ok := linAtom(a)
	if !ok {
		return nil
	}
	return p
}

// level is the specified value of a level index.
func (v *rlView) levelOf(n *Term) *Term {
	lt := v.fieldType("level")
	tab := App("hdr.level", lt)
	return Ite(Eq0(n), NaNT, Ite(Lt(Len(tab), n), NaNT, dropRounding(v.Drv.at(tab, Sub(n, One), elemType(lt)))))
}

func (v *rlView) cell(arr, x *Term) *Term {
	return dropRounding(App("sel", types.Typ[types.Float32], arr, x))
}

// counts: in runs that satisfy g, loop l is only left after its last iteration.
func (c *Ctx) counts(en *Engine, g *Term, l *Loop, what, at string) {
	for _, x := range l.Exits {
		if x.Counting {
			continue
		}
		ok, d := en.infeasible(And(g, x.Guard))
		c.ok(ok, "a loop runs to its end", what, at, "it is left early when %s", d)
	}
}

func (c *Ctx) eachRunlength(f func(v *rlView)) {
	c.eachPixel(func(p *pix) { f(p.runlength()) })
}

func (c *Ctx) runlengthRows(p *pix) {
	v := p.runlength()
	// the pixel's value is the content of its row after the last byte
	inRow := map[*Term]*Term{v.R: p.r}
	after := substT(v.row.Sym, map[*Term]*Term{v.K: substT(v.bytes.N, inRow), v.R: p.r})
	after = substT(after, map[*Term]*Term{substT(v.row.Sym, map[*Term]*Term{v.K: Zero, v.R: p.r}): substT(v.row.Init, inRow)})
	last := App("sel", types.Typ[types.Float32], after, p.x)
	g := AndN(p.g, p.lvl, substT(v.rows.ContG, map[*Term]*Term{v.R: p.r}))
	if e := substT(v.bytes.EntryG, map[*Term]*Term{v.R: p.r}); v.pre != nil || And(g, Not(e)) != False {
		// lines without a byte after the row number
		v.unsat(AndN(v.rows.ContG, v.lvl, Not(v.bytes.EntryG), Lt(One, v.L)), "row of a pixel", "a line is only left out when it is empty ("+p.name+")", v.at, "it is left out when %s")
		c.eqLin(v.Engine, And(g, Not(e)), v.val, NaNT, "row of a pixel", "the pixels of a row are NaN if its line is empty ("+p.name+")", v.at)
		g = And(g, e)
	}
	c.eqLin(v.Engine, g, v.val, dropRounding(last), "row of a pixel", "the run-length pixel at (column, row) is that column of the row decoded in the iteration of that number ("+p.name+")", v.at)
	// iteration r reads line r of the data
	v.eq(And(v.rows.EntryG, p.lvl), v.S.Init, p.P, "stream position of a row", "the first line starts after the header ("+p.name+")", v.at)
	v.eq(And(v.rows.ContG, p.lvl), v.S.Next, Add(v.S.Sym, App("until.len", tInt, v.B, v.S.Sym, Num(10))), "stream position of a row", "every line starts after the newline of the previous one ("+p.name+")", v.at)
	c.eqLin(v.Engine, And(p.ok, p.lvl), v.rows.N, p.alt.py, "number of rows", "there is a line for every row ("+p.name+")", v.at)
	c.counts(v.Engine, And(p.ok, p.lvl), v.rows, "loop over the rows ("+p.name+")", v.at)
}

func init() {
	register("C12", "proof", "value analysis of NewComposite: the loop over the bytes of a run-length row is a recurrence over column, phase and row content whose initial state, step and end are compared with the specified transducer", func(c *Ctx) {
		c.eachRunlength(func(v *rlView) {
			const rule = "step of the row decoder"
			w := func(s string) string { return s + " (" + v.name + ")" }
			cont := And(v.rows.ContG, v.lvl)
			if v.pre != nil {
				c.offsetBytes(v, cont, w)
			} else {
				v.eq(v.entry, v.pos.Init, Zero, rule, w("rows start at column 0"), v.at)
				c.ok(restrict(v.off0(), v.entry) == True, rule, w("the first byte after the row number is an offset"), v.at, "it is not")
				// the whole line is decoded
				end := Sub(v.L, Num(v.i0))
				c.eqLin(v.Engine, And(cont, v.bytes.EntryG), v.bytes.N, Ite(Ge0(end), end, Zero), "number of bytes", w("every byte of the line is decoded"), v.at)
				v.unsat(AndN(cont, Not(v.bytes.EntryG), Lt(One, v.L)), "number of bytes", w("a line is only left out when it is empty"), v.at, "it is left out when %s")
			}
			c.counts(v.Engine, cont, v.bytes, w("loop over the bytes of a row"), v.at)
			x := Sym("k@b.x", tInt)
			inside := And(Ge0(x), Lt(x, v.alt.px))
			old, nw := v.cell(v.row.Sym, x), v.cell(v.row.Next, x)
			if v.i0 == 0 && v.pre == nil {
				g := And(v.g, Eq0(v.K))
				v.eq(g, v.pos.Next, v.pos.Sym, rule, w("the first byte does not move the column"), v.at)
				c.ok(v.offC.Sym.K == KInt || same(g, v.offN, v.off), rule, w("the first byte does not end the offset"), v.at, "the phase becomes %s", show(deepRestrict(v.offN, g), 6))
				c.eqLin(v.Engine, And(g, inside), nw, old, rule, w("the first byte writes no pixel"), v.at)
			}
			after := And(v.g, Gt0(v.i))
			g := And(after, v.off)
			if v.pre == nil {
				c.ok(g != False, "guard satisfiable", w("offset bytes are accepted"), v.at, "no offset byte is accepted")
				g = And(g, Ge(v.b, Num(16)))
				c.eqLin(v.Engine, g, v.pos.Next, Add(v.pos.Sym, Sub(v.b, Num(16))), rule, w("an offset byte advances the column by its value minus 16"), v.at)
				c.eqLin(v.Engine, g, Ite(v.offN, One, Zero), Ite(EqInt(v.b, Num(255)), One, Zero), rule, w("offset bytes continue exactly after 255"), v.at)
				c.eqLin(v.Engine, And(g, inside), nw, old, rule, w("an offset byte writes no pixel"), v.at)
			}
			g = And(after, Not(v.off))
			c.ok(g != False, "guard satisfiable", w("run bytes are accepted"), v.at, "no run byte is accepted")
			hi := Bits(v.b, 4, 4)
			c.eqLin(v.Engine, g, Ite(v.offN, One, Zero), Zero, rule, w("a run byte is not followed by offset bytes"), v.at)
			g = And(g, Le(Add(v.pos.Sym, hi), v.alt.px))
			c.eqLin(v.Engine, g, v.pos.Next, Add(v.pos.Sym, hi), rule, w("a run byte advances the column by its high four bits"), v.at)
			covered := And(Ge(x, v.pos.Sym), Lt(x, Add(v.pos.Sym, hi)))
			for n := int64(0); n < 16; n++ {
				m := map[*Term]*Term{v.b: Add(Mul(Num(16), hi), Num(n))}
				c.eqLin(v.Engine, substT(AndN(g, inside, covered), m), substT(nw, m), v.levelOf(Num(n)), rule, w(fmt.Sprintf("a run byte sets the covered columns to the level of its low four bits (%d)", n)), v.at)
			}
			c.eqLin(v.Engine, AndN(g, inside, Not(covered)), nw, old, rule, w("a run byte keeps the other columns"), v.at)
		})
	})
	register("C13", "proof", "value analysis of NewComposite: initial content of a run-length row, columns an iteration over its bytes can change, and infeasibility of completing an iteration that overruns the row or reads an offset below 16", func(c *Ctx) {
		c.eachRunlength(func(v *rlView) {
			const rule = "row confinement"
			w := func(s string) string { return s + " (" + v.name + ")" }
			x := Sym("k@b.x", tInt)
			inside := And(Ge0(x), Lt(x, v.alt.px))
			c.eqLin(v.Engine, And(v.entry, inside), v.cell(v.row.Init, x), NaNT, rule, w("a row consists of NaN before its first byte"), v.at)
			hi := Bits(v.b, 4, 4)
			covered := AndN(Not(v.off), Gt0(v.i), Ge(x, v.pos.Sym), Lt(x, Add(v.pos.Sym, hi)))
			c.eqLin(v.Engine, AndN(v.g, inside, Not(covered)), v.cell(v.row.Next, x), v.cell(v.row.Sym, x), rule, w("columns a byte does not cover are not written"), v.at)
			// one row of the image per line
			cont := And(v.rows.ContG, v.lvl)
			c.writesOneRow(v, cont, w)
			c.counts(v.Engine, And(v.ok, v.lvl), v.rows, w("loop over the rows"), v.at)
			c.counts(v.Engine, cont, v.bytes, w("loop over the bytes of a row"), v.at)
			g := And(cont, v.g)
			v.lastIter = true
			ok, d := v.infeasible(AndN(g, Gt0(v.i), Not(v.off), Gt0(hi), Lt(v.alt.px, Add(v.pos.Sym, hi))))
			c.ok(ok, rule, w("a row running past the right edge fails"), v.at, "it is accepted when %s", d)
			v.lastIter = false
			if v.pre != nil {
				c.offsetConfined(v, cont, w)
				return
			}
			ok, d = v.infeasible(AndN(g, Gt0(v.i), v.off, Lt(v.b, Num(16))))
			c.ok(ok, rule, w("an offset byte below 16 fails"), v.at, "it is accepted when %s", d)
		})
	})
}

// offsetBytes compares a loop over the offset bytes and what follows it.
func (c *Ctx) offsetBytes(v *rlView, cont *Term, w func(string) string) {
	const rule = "step of the row decoder"
	a := v.pre
	v.eq(And(a.EntryG, v.lvl), a.pos.Init, Zero, rule, w("rows start at column 0"), a.at)
	v.unsat(AndN(cont, Not(a.EntryG), Lt(One, v.L)), "number of bytes", w("a line is only left out when it is empty"), a.at, "it is left out when %s")
	cont = And(cont, a.EntryG)
	c.ok(And(cont, a.g) != False, "guard satisfiable", w("offset bytes are accepted"), a.at, "no offset byte is accepted")
	c.eqLin(v.Engine, a.g, a.pos.Next, Add(a.pos.Sym, Sub(a.b, Num(16))), rule, w("an offset byte advances the column by its value minus 16"), a.at)
	next := func(t *Term) *Term { return substT(t, map[*Term]*Term{a.K: AddC(a.K, 1)}) }
	v.unsat(AndN(cont, a.g, next(a.ContG), Not(EqInt(a.b, Num(255)))), rule, w("offset bytes continue only after 255"), a.at, "they continue when %s")
	c.offsetWrites(v, rule, w)
	left := 0
	for _, e := range v.ends(cont) {
		g := e.g
		if e.counting {
			v.unsat(AndN(g, Ge0(a.N), Lt(AddC(a.N, 1), v.L)), "number of bytes", w("every byte of the line is decoded"), a.at, "the offset bytes end early when %s")
			v.unsat(AndN(g, v.bytes.EntryG, Lt(Zero, v.bytes.N)), "number of bytes", w("nothing follows an offset that ends the line"), v.at, "a byte is decoded when %s")
			continue
		}
		left++
		s := func(t *Term) *Term { return substT(t, e.m) }
		kx := s(a.K)
		last, col := v.byteBefore(e, 1-e.read), s(a.pos.Sym)
		if e.read == 1 {
			col = Add(col, Sub(last, Num(16)))
			v.unsat(AndN(g, Ge(kx, One), Not(EqInt(v.byteBefore(e, 1), Num(255)))), rule, w("offset bytes continue only after 255"), a.at, "they continue when %s")
		}
		end := Sub(v.L, Add(s(a.i), Num(e.read)))
		v.unsat(AndN(g, Lt(kx, Num(1-e.read)), Lt(Zero, end)), rule, w("the first byte after the row number is an offset"), a.at, "it is not when %s")
		v.unsat(AndN(g, Ge(kx, Num(1-e.read)), EqInt(last, Num(255)), Lt(Zero, end)), rule, w("offset bytes continue after 255"), a.at, "they end when %s")
		c.eqLin(v.Engine, And(g, v.bytes.EntryG), v.pos.Init, col, rule, w("the runs start at the column given by the offset bytes"), v.at)
		c.eqLin(v.Engine, And(g, v.bytes.EntryG), v.bytes.N, Ite(Ge0(end), end, Zero), "number of bytes", w("every byte of the line is decoded"), v.at)
		v.unsat(AndN(g, Not(v.bytes.EntryG), Lt(Zero, end)), "number of bytes", w("a line is only left out when it is empty"), v.at, "it is left out when %s")
	}
	c.ok(left > 0, "a check must have obligations", w("end of the offset bytes"), a.at, "there is none")
}

func (c *Ctx) offsetWrites(v *rlView, rule string, w func(string) string) {
	for _, k := range v.pre.Carries {
		if k.Obj == v.row.Obj {
			c.ok(k.Next == k.Sym, rule, w("an offset byte writes no pixel"), v.pre.at, "it writes %s", show(k.Next, 6))
		}
	}
}

// offsetConfined: the offset bytes of a decoded row are at least 16 and write nothing.
func (c *Ctx) offsetConfined(v *rlView, cont *Term, w func(string) string) {
	const rule = "row confinement"
	a := v.pre
	c.offsetWrites(v, rule, w)
	cont = And(cont, a.EntryG)
	v.unsat(AndN(cont, a.g, Lt(a.b, Num(16))), rule, w("an offset byte below 16 fails"), a.at, "it is accepted when %s")
	for _, e := range v.ends(cont) {
		if !e.counting && e.read == 1 {
			v.unsat(And(e.g, Lt(v.byteBefore(e, 0), Num(16))), rule, w("an offset byte below 16 fails"), a.at, "it is accepted when %s")
		}
	}
}

// off0 is the phase before the first byte.
func (v *rlView) off0() *Term {
	if v.offC.Sym.K == KInt {
		return True // by the definition of the phase
	}
	t := deepRestrict(v.offC.Init, v.entry)
	if v.off != v.offC.Sym {
		t = Not(t)
	}
	return t
}

// writesOneRow: an iteration over the rows changes no row but its own.
func (c *Ctx) writesOneRow(v *rlView, cont *Term, w func(string) string) {
	n := 0
	for _, k := range v.rows.Carries {
		if k.Obj != v.row.Obj {
			continue
		}
		n++
		y := Sym("k@b.y", tInt)
		ok := true
		d := ""
		sel := func(t *Term) *Term {
			for range k.Path {
			}
			return App("sel", nil, t, y)
		}
		cur := k.Sym
		if k.Solved != nil {
			cur = k.Solved
		}
		a, b := sel(cur), sel(k.Next)
		g := AndN(cont, Not(EqInt(y, v.R)), Ge0(y), Lt(y, v.alt.py))
		if !same(g, a, b) {
			ok, d = false, firstDiff(g, b, a)
		}
		c.ok(ok, "row confinement", w("decoding a line changes its own row only"), v.at, "%s", d)
	}
	c.ok(n == 1, "a check must have obligations", w("content of the image in the loop over rows"), v.at, fmt.Sprintf("%d recurrences", n))
}

func Gt0(t *Term) *Term { return Lt(Zero, t) }
