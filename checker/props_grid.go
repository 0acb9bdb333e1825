package main

// Grid detection, calibration and projection.

import (
	"fmt"
	"go/types"
	"math"
)

// gridSpec is one of the DWD grids: smallest dimensions of its aspect, corner
// coordinates (north, east) per format.
type gridSpec struct {
	name string
	x, y int64
	// upper left and lower right, below format 5 and from format 5 on
	old, wgs [4]float64
	hasWGS   bool
}

var grids = []gridSpec{
	{"national grid 900 x 900", 225, 225, [4]float64{54.5877, 2.0715, 47.0705, 14.6209}, [4]float64{}, false},
	{"national picture grid 920 x 920", 115, 115, [4]float64{54.66218275, 1.900684377, 46.98044293, 14.73300934}, [4]float64{}, false},
	{"extended national grid 900 x 1100", 225, 275, [4]float64{55.5482, 3.0889, 46.1827, 15.4801}, [4]float64{}, false},
	{"DE1200 grid 1100 x 1200", 275, 300, [4]float64{55.86584289, 1.435612143, 45.68358331, 16.60186543}, [4]float64{55.86208711, 1.463301510, 45.68460578, 16.58086935}, true},
	{"middle european grid 1400 x 1500", 350, 375, [4]float64{56.5423, -0.8654, 43.8736, 18.2536}, [4]float64{}, false},
}

// calView is a calibrated composite as a function of its dimensions.
type calView struct {
	*Drv
	name   string
	comp   *Term
	g      *Term
	dx, dy *Term
	format *Term
	pos    string
	loop   *Loop // the loop that halves the dimensions
	cx, cy *Carry
}

func (c *Ctx) calViews() []*calView {
	var vs []*calView
	en := c.libEngine()
	d := c.drv(en)
	fn := c.lib("NewDummy")
	dx, dy, f := Sym("dx", tInt), Sym("dy", tInt), Sym("format", tInt)
	comp := d.call(fn, Sym("product", tStr), f, dx, dy)
	vs = append(vs, &calView{Drv: d, name: "NewDummy", comp: comp, g: d.st.g, dx: dx, dy: dy, format: f, pos: c.fpos(fn)})
	for _, v := range c.data() {
		if v.alt.dx.isNum() != v.alt.dy.isNum() {
			fail("headers with one constant dimension")
		}
		vs = append(vs, &calView{Drv: v.Drv, name: "NewComposite, " + v.name, comp: v.comp, g: v.ok, dx: v.alt.dx, dy: v.alt.dy, format: App("hdr.Format", tInt), pos: c.fpos(v.fn)})
	}
	for _, v := range vs {
		v.findLoop()
	}
	return vs
}

// findLoop finds the loop whose state starts as the pair of dimensions.
func (v *calView) findLoop() {
	if v.dx.isNum() {
		return
	}
	for _, l := range v.loops {
		if l.N != nil || len(l.Outer) > 0 {
			continue
		}
		var cx, cy *Carry
		for _, k := range l.Carries {
			if k.T == nil || !isInt(k.T) {
				continue
			}
			switch i := deepRestrict(k.Init, l.EntryG); {
			case i == deepRestrict(v.dx, l.EntryG):
				cx = k
			case i == deepRestrict(v.dy, l.EntryG):
				cy = k
			}
		}
		if cx != nil && cy != nil {
			if v.loop != nil {
				fail("several loops start from the dimensions (%s)", v.name)
			}
			v.loop, v.cx, v.cy = l, cx, cy
		}
	}
	if v.loop == nil {
		fail("the dimensions are not reduced by a loop over both of them (%s)", v.name)
	}
}

// in instantiates a term over the loop state.
func (v *calView) in(t, x, y *Term) *Term {
	return substT(t, map[*Term]*Term{v.cx.Sym: x, v.cy.Sym: y})
}

// atExit gives the value of t (after the loop) if the loop was left by exit e
// in state (x, y), and the condition under which that exit is taken there.
func (v *calView) atExit(t *Term, e *LoopExit, x, y *Term) (val, g *Term) {
	m := map[*Term]*Term{}
	for _, a := range collect(Tuple(t, e.Guard), func(a *Term) bool { return a.appPrefix("carry:" + v.loop.ID + ":") }) {
		m[a] = v.stateOf(a, x, y)
	}
	g = v.in(e.G, x, y)
	val = deepRestrict(substT(t, m), And(v.g, e.Guard))
	return val, g
}

func (v *calView) stateOf(a, x, y *Term) *Term {
	switch {
	case a.S == v.cx.Sym.S:
		return x
	case a.S == v.cy.Sym.S:
		return y
	}
	return a
}

// entered is the guard under which the loop is entered.
func (v *calView) entered() *Term { return v.loop.EntryG }

// smallest calls f for the value of the tuple t for every way a pair of
// dimensions that cannot both be halved gets classified.
func (v *calView) leaves(t *Term, x, y *Term, f func(val, g *Term, how string)) {
	m := map[*Term]*Term{v.dx: x, v.dy: y}
	if v.loop == nil {
		f(t, v.g, "constant dimensions")
		return
	}
	// not entered
	f(substT(deepRestrict(t, And(v.g, Not(v.entered()))), m), substT(And(v.g, Not(v.entered())), m), "without halving")
	for i, e := range v.loop.Exits {
		val, g := v.atExit(t, e, x, y)
		f(val, g, fmt.Sprintf("after halving, exit %d", i))
	}
}

var (
	tU32 types.Type = types.Typ[types.Uint32]
	tF64 types.Type = types.Typ[types.Float64]
)

func want5(x, y, format, wgs *Term) (has, w *Term) {
	has, w = False, False
	for _, g := range grids {
		is := And(EqInt(x, Num(g.x)), EqInt(y, Num(g.y)))
		if g.hasWGS {
			has = Or(has, is)
			w = And(is, Ge(format, Num(5)))
		} else {
			has = Or(has, And(is, Lt(format, Num(5))))
		}
	}
	return has, w
}

func init() {
	register("C25", "proof", "value analysis of the calibration in NewDummy and NewComposite: the loop over the dimensions is shown to halve both exactly while both are even, and the classification of every pair that cannot be halved is compared with the list of grids", func(c *Ctx) {
		for _, v := range c.calViews() {
			c.classify(v)
		}
	})
}

// classify: the loop over the dimensions halves them as long as both are even,
// and every pair that cannot be halved gets the projection of its grid.
func (c *Ctx) classify(v *calView) {
	c.halving(v)
	a, b := Sym("a", tU32), Sym("b", tU32)
	two := Num(2)
	odd := func(t *Term) *Term { return AddC(Mul(two, t), 1) }
	states := []struct {
		what string
		x, y *Term
		g    *Term
	}{
		{"both odd", odd(a), odd(b), True},
		{"odd width", odd(a), Mul(two, AddC(b, 1)), True},
		{"odd height", Mul(two, AddC(a, 1)), odd(b), True},
	}
	if v.loop == nil {
		states = states[:1]
	}
	for _, s := range states {
		x, y := s.x, s.y
		n := 0
		t := Tuple(v.get(v.comp, "HasProjection"), v.wgs())
		v.leaves(t, x, y, func(val, g *Term, how string) {
			if v.loop == nil {
				x, y = v.dx, v.dy
				for x.isNum() && y.isNum() && Rem(x, two) == Zero && Rem(y, two) == Zero && x != Zero {
					x, y = Quo(x, two), Quo(y, two)
				}
			}
			if g == False {
				return
			}
			n++
			has, w := want5(x, y, v.format, nil)
			c.eqLin(v.Engine, g, pick(val, 0), has, "grid and format decide about the projection", v.name+", "+s.what+" "+how, v.pos)
			if !v.hasWGS() {
				return // C27 decides about the values
			}
			c.eqLin(v.Engine, And(g, has), pick(val, 1), w, "the ellipsoid is used exactly for DE1200 from format 5 on", v.name+", "+s.what+" "+how, v.pos)
		})
		c.ok(n > 0, "every pair of dimensions is classified", v.name+", "+s.what, v.pos, "no way out of the loop found")
	}
}

func pick(t *Term, i int) *Term { return lift1(func(t *Term) *Term { return t.A[i] }, t) }

// wgs says whether the WGS84 projection is selected.
func (v *calView) wgs() *Term {
	if !v.hasWGS() {
		return False
	}
	return Not(IsNilT(v.get(v.comp, "proj_wgs84")))
}

// hasWGS: there is a pointer that selects the projection.
func (v *calView) hasWGS() bool {
	T := v.c.typ(v.c.r.lib, "Composite").Underlying().(*types.Struct)
	for i := 0; i < T.NumFields(); i++ {
		if T.Field(i).Name() == "proj_wgs84" {
			_, ptr := T.Field(i).Type().Underlying().(*types.Pointer)
			return ptr
		}
	}
	return false
}

// halving shows by induction that the loop maps (2a, 2b) to what it does for
// (a, b), for positive a and b, and that nothing else is classified.
func (c *Ctx) halving(v *calView) {
	l := v.loop
	if l == nil {
		return
	}
	pos := c.pos(l.Pos)
	a, b := AddC(Sym("a", tU32), 1), AddC(Sym("b", tU32), 1)
	x, y := Mul(Num(2), a), Mul(Num(2), b)
	dims := func(t *Term) *Term { return substT(t, map[*Term]*Term{v.dx: x, v.dy: y}) }
	en := v.Engine
	infeas := func(g *Term) (bool, string) { return en.infeasible(g) }
	ok, why := infeas(And(dims(v.g), Not(dims(v.entered()))))
	c.ok(ok, "dimensions that are both even are halved", v.name, pos, "the loop is not entered when %s", why)
	cont := v.in(l.ContG, x, y)
	ok, why = infeas(And(l.EntryG, Not(cont)))
	c.ok(ok, "dimensions that are both even are halved", v.name, pos, "the loop ends when %s", why)
	c.eq(cont, v.in(v.cx.Next, x, y), a, "dimensions that are both even are halved", "width, "+v.name, pos)
	c.eq(cont, v.in(v.cy.Next, x, y), b, "dimensions that are both even are halved", "height, "+v.name, pos)
	// no other state
	for _, k := range l.Carries {
		if k == v.cx || k == v.cy || !k.feeds(l, v) {
			continue
		}
		c.ok(false, "the classification depends on the reduced dimensions alone", v.name, pos, "it also depends on %s", k.Key)
	}
	// odd pairs end the loop
	o := func(s string) *Term { return AddC(Mul(Num(2), Sym(s, tU32)), 1) }
	for _, p := range [][2]*Term{{o("a"), o("b")}, {o("a"), y}, {x, o("b")}} {
		g := v.in(l.ContG, p[0], p[1])
		ok, why := infeas(g)
		c.ok(ok, "dimensions that are not both even are not halved", v.name, pos, "they are halved when %s", why)
	}
	// dimensions below one are never recognised
	sx, sy := Sym("x", tInt), Sym("y", tInt)
	bad := Or(Lt(sx, One), Lt(sy, One))
	t := Tuple(v.get(v.comp, "HasProjection"))
	v.leaves(t, sx, sy, func(val, g *Term, how string) {
		c.eqLin(en, AndN(g, bad), pick(val, 0), False, "degenerate dimensions have no grid", v.name+" "+how, v.pos)
	})
	nx, ny := v.in(v.cx.Next, sx, sy), v.in(v.cy.Next, sx, sy)
	g := v.in(l.ContG, sx, sy)
	for _, p := range []struct{ n, o *Term }{{nx, sx}, {ny, sy}} {
		ok, why := infeas(AndN(g, Lt(p.o, One), Ge(p.n, One)))
		c.ok(ok, "degenerate dimensions stay degenerate", v.name, pos, "fails when %s", why)
	}
}

// feeds says whether a carried value reaches the result.
func (k *Carry) feeds(l *Loop, v *calView) bool {
	pre := k.Sym.S
	uses := func(t *Term) bool {
		return t != nil && mentions(t, func(x *Term) bool { return x.Op == OpApp && x.S == pre })
	}
	if uses(l.ContG) {
		return true
	}
	for _, e := range l.Exits {
		if uses(e.G) {
			return true
		}
	}
	for _, f := range []string{"HasProjection", "Rx", "Ry", "offx", "offy", "proj_wgs84"} {
		if f == "proj_wgs84" && !v.hasWGS() {
			continue
		}
		if uses(v.get(v.comp, f)) {
			return true
		}
	}
	return false
}

// The projections as specified by the DWD, in km from the pole; y grows southwards.
func sphereRef(n, e float64) (x, y float64) {
	const R = 6370.04
	p, l := n*math.Pi/180, (e-10)*math.Pi/180
	m := (1 + math.Sin(60*math.Pi/180)) / (1 + math.Sin(p))
	return R * m * math.Cos(p) * math.Sin(l), R * m * math.Cos(p) * math.Cos(l)
}

func wgsRef(n, e float64) (x, y float64) {
	const a, b = 6378137.0, 6356752.3142451802
	ecc := math.Sqrt(1 - b*b/(a*a))
	t := func(p float64) float64 {
		return math.Tan(math.Pi/4-p/2) / math.Pow((1-ecc*math.Sin(p))/(1+ecc*math.Sin(p)), ecc/2)
	}
	ts := 60 * math.Pi / 180
	m := math.Cos(ts) / math.Sqrt(1-ecc*ecc*math.Sin(ts)*math.Sin(ts))
	p, l := n*math.Pi/180, (e-10)*math.Pi/180
	rho := a * m / t(ts) * t(p) / 1000
	return rho * math.Sin(l), rho * math.Cos(l)
}

// mode is one supported combination of grid and format.
type gridMode struct {
	g   *gridSpec
	wgs bool
}

func gridModes() (ms []gridMode) {
	for i := range grids {
		ms = append(ms, gridMode{&grids[i], false})
		if grids[i].hasWGS {
			ms = append(ms, gridMode{&grids[i], true})
		}
	}
	return
}

func (m gridMode) corners() [4]float64 {
	if m.wgs {
		return m.g.wgs
	}
	return m.g.old
}
func (m gridMode) ref(n, e float64) (float64, float64) {
	if m.wgs {
		return wgsRef(n, e)
	}
	return sphereRef(n, e)
}
func (m gridMode) guard(format *Term) *Term {
	if m.wgs {
		return Ge(format, Num(5))
	}
	return Lt(format, Num(5))
}
func (m gridMode) String() string {
	if m.wgs {
		return m.g.name + " from format 5 on"
	}
	return m.g.name + " below format 5"
}

// extent is the projected size of the grid.
func (m gridMode) extent() (x, y float64) {
	k := m.corners()
	x0, y0 := m.ref(k[0], k[1])
	x1, y1 := m.ref(k[2], k[3])
	return x1 - x0, y1 - y0
}

// valueLeaves lists the alternatives of t that are feasible under g.
func (en *Engine) valueLeaves(g, t *Term, f func(g, t *Term)) {
	n := 0
	var rec func(g, t *Term)
	rec = func(g, t *Term) {
		if g == False {
			return
		}
		if n++; n > 400 {
			fail("too many cases of a value")
		}
		t = deepRestrict(t, g)
		a := innerAtom(t)
		if a == nil {
			if ok, _ := en.infeasible(g); !ok {
				f(g, t)
			}
			return
		}
		rec(And(g, a), t)
		rec(And(g, Not(a)), t)
	}
	rec(g, t)
}

// innerAtom finds a condition a value depends on, also inside its operands.
func innerAtom(t *Term) *Term {
	if a := top(t); a != nil {
		return typed(a)
	}
	is := collect(t, func(x *Term) bool { return x.Op == OpIte })
	if len(is) > 0 {
		return typed(top(is[0]))
	}
	return nil
}

func near(a, b, scale float64) bool { return math.Abs(a-b) <= 1e-9*math.Max(1, scale) }

// numAt evaluates a closed term.
func numAt(t *Term, m map[*Term]*Term) (float64, bool) {
	if len(m) > 0 {
		t = substT(t, m)
	}
	return evalF(t)
}

// calibrated lists the calibrated views with a projection for a mode.
func (c *Ctx) modeLeaves(v *calView, m gridMode, t *Term, f func(g, t *Term)) {
	x, y := Num(m.g.x), Num(m.g.y)
	if v.loop == nil {
		return
	}
	n := 0
	v.leaves(t, x, y, func(val, g *Term, how string) {
		g = AndN(g, m.guard(v.format), Ge(v.dx, One), Ge(v.dy, One))
		v.valueLeaves(g, val, func(g, t *Term) {
			n++
			f(g, t)
		})
	})
	c.ok(n > 0, "every supported grid is calibrated", v.name+", "+m.String(), v.pos, "the code has no case for it")
}

// perPixel divides a coordinate by the number of pixels.
func (v *calView) perPixel(t, d *Term) (*Term, bool) {
	q := Div(t, d)
	return q, !mentions(q, func(x *Term) bool { return x == v.dx || x == v.dy })
}

func init() {
	register("C26", "proof", "value analysis of the calibration and of Project: for each grid and format the value the code computes for the published corners, and the resolution, are folded numerically with symbolic image dimensions", func(c *Ctx) {
		project := c.lib("Composite.Project")
		for _, v := range c.calViews() {
			if v.loop == nil {
				continue
			}
			for _, m := range gridModes() {
				k := m.corners()
				x0 := v.call(project, v.comp, NumF(k[0]), NumF(k[1]))
				x1 := v.call(project, v.comp, NumF(k[2]), NumF(k[3]))
				t := Tuple(x0.A[0], x0.A[1], x1.A[0], x1.A[1], v.get(v.comp, "Rx"), v.get(v.comp, "Ry"))
				ex, ey := m.extent()
				c.modeLeaves(v, m, t, func(g, t *Term) {
					for i, w := range []struct {
						what string
						d    *Term
						want float64
					}{
						{"the upper left corner projects to x = 0", v.dx, 0},
						{"the upper left corner projects to y = 0", v.dy, 0},
						{"the lower right corner projects to x = Dx", v.dx, 1},
						{"the lower right corner projects to y = Dy", v.dy, 1},
					} {
						q, ok := v.perPixel(t.A[i], w.d)
						f, ok2 := numAt(q, nil)
						c.ok(ok && ok2 && near(f, w.want, 1), w.what, v.name+", "+m.String(), v.pos, "the code computes %s (%v per pixel)", show(t.A[i], 6), f)
					}
					for i, w := range []struct {
						what string
						d    *Term
						want float64
					}{{"Rx", v.dx, ex}, {"Ry", v.dy, ey}} {
						q, ok := v.perPixel(Mul(Mul(t.A[4+i], w.d), w.d), w.d)
						f, ok2 := numAt(q, nil)
						c.ok(ok && ok2 && near(f, w.want, math.Abs(w.want)), w.what+" is the projected extent divided by the pixel count", v.name+", "+m.String(), v.pos, "the code computes %s (%v times the count instead of %v)", show(t.A[4+i], 6), f, w.want)
					}
				})
			}
		}
	})
	register("C27", "proof", "value analysis of Project on calibrated composites: for each grid and format the computed expression in latitude and longitude is compared with the polar stereographic formulas of the specification", func(c *Ctx) {
		project := c.lib("Composite.Project")
		n, e := Sym("north", tF64), Sym("east", tF64)
		var pts [][2]float64
		for a := 44.0; a <= 57; a += 1.37 {
			for b := -1.0; b <= 19; b += 1.61 {
				pts = append(pts, [2]float64{a, b})
			}
		}
		pts = append(pts, [][2]float64{{0, 0}, {89.3, 100}, {-41.5, -170.3}, {12, 190}}...)
		for _, v := range c.calViews() {
			if v.loop == nil {
				continue
			}
			r := v.call(project, v.comp, n, e)
			for _, m := range gridModes() {
				k := m.corners()
				x0, y0 := m.ref(k[0], k[1])
				ex, ey := m.extent()
				c.modeLeaves(v, m, Tuple(r.A[0], r.A[1]), func(g, t *Term) {
					qx, okx := v.perPixel(t.A[0], v.dx)
					qy, oky := v.perPixel(t.A[1], v.dy)
					if !c.ok(okx && oky, "coordinates follow the polar stereographic projection", v.name+", "+m.String(), c.fpos(project), "the coordinates are not proportional to the pixel count: %s", show(t, 8)) {
						return
					}
					bad := ""
					for _, p := range pts {
						s := map[*Term]*Term{n: NumF(p[0]), e: NumF(p[1])}
						fx, ok1 := numAt(qx, s)
						fy, ok2 := numAt(qy, s)
						rx, ry := m.ref(p[0], p[1])
						rx, ry = (rx-x0)/ex, (ry-y0)/ey
						if !ok1 || !ok2 || !near(fx, rx, 100) || !near(fy, ry, 100) {
							bad = fmt.Sprintf("the code computes x = %s, y = %s per pixel count; at %v N %v E that is (%v, %v) instead of (%v, %v)", show(qx, 8), show(qy, 8), p[0], p[1], fx, fy, rx, ry)
							break
						}
					}
					c.ok(bad == "", "coordinates follow the polar stereographic projection", v.name+", "+m.String(), c.fpos(project), "%s", bad)
				})
			}
		}
	})
	register("C28", "proof", "value analysis of the calibration and of Project for every pair of dimensions and format without a supported grid", func(c *Ctx) {
		project := c.lib("Composite.Project")
		n, e := Sym("north", tF64), Sym("east", tF64)
		hrx, hry := App("hdr.Rx", tF64), App("hdr.Ry", tF64)
		var cat [][2]*Term
		h := c.header()
		seen := map[string]bool{}
		h.valueLeaves(h.ok, Tuple(h.get(h.comp, "Rx"), h.get(h.comp, "Ry")), func(g, t *Term) {
			if !t.A[0].isNum() || !t.A[1].isNum() {
				fail("the header defines a resolution that is not constant: %s", show(t, 6))
			}
			if !seen[t.String()] {
				seen[t.String()] = true
				cat = append(cat, [2]*Term{t.A[0], t.A[1]})
			}
		})
		for _, v := range c.calViews() {
			r := v.call(project, v.comp, n, e)
			t := Tuple(r.A[0], r.A[1], v.get(v.comp, "Rx"), v.get(v.comp, "Ry"), v.get(v.comp, "HasProjection"))
			sx, sy := Sym("x", tInt), Sym("y", tInt)
			if v.loop == nil {
				sx, sy = v.dx, v.dy
			}
			v.leaves(t, sx, sy, func(val, g *Term, how string) {
				g = And(g, Not(pick(val, 4)))
				for i, f := range []string{"x", "y"} {
					c.eqLin(v.Engine, g, pick(val, i), NaNT, "nothing is projected without a projection", v.name+", "+f+" "+how, c.fpos(project))
				}
				for _, k := range cat {
					m := map[*Term]*Term{hrx: k[0], hry: k[1]}
					for i, f := range []string{"Rx", "Ry"} {
						want := k[i]
						if want == Zero {
							want = NaNT
						}
						c.eqLin(v.Engine, substT(g, m), substT(pick(val, 2+i), m), want, "the resolution is undefined unless the catalogue defines it", v.name+", "+f+" "+how, v.pos)
					}
					if v.name == "NewDummy" {
						break
					}
				}
			})
		}
	})
}
