package main

// Unit conversions, unit names and the border table.

import (
	"go/types"
	"math"
	"strings"
)

func (c *Ctx) noUnsafe(en *Engine, what string) {
	n := 0
	for _, e := range en.events {
		if e.Kind != "ob" {
			continue
		}
		n++
		safe, _ := en.infeasible(e.Unsafe)
		c.ok(safe, "no run-time panic", what+": "+e.Rule, en.pos(e.Pos), "fails when %s", firstCube(e.Unsafe))
	}
	for _, e := range en.events {
		if e.Kind == "panic" {
			never, _ := en.infeasible(e.Guard)
			c.ok(never, "no explicit panic", what, en.pos(e.Pos), "reached when %s", firstCube(e.Guard))
		}
	}
}

func init() {
	register("C23", "proof", "value analysis of toDBZ and toRVP6: the computed expressions are the defined linear maps, and composing them in either order gives the argument back", func(c *Ctx) {
		d := c.drv(c.libEngine())
		f32 := types.Typ[types.Float32]
		v := Sym("v", f32)
		toDBZ, toRVP6 := c.lib("toDBZ"), c.lib("toRVP6")
		dbz := d.call(toDBZ, v)
		c.eq(True, dbz, Sub(Mul(NumF(0.5), v), NumF(32.5)), "value equality", "toDBZ(v) is v/2 - 32.5", c.fpos(toDBZ))
		rvp := d.call(toRVP6, v)
		c.eq(True, rvp, Mul(Num(2), Add(v, NumF(32.5))), "value equality", "toRVP6(v) is 2 (v + 32.5)", c.fpos(toRVP6))
		c.eq(True, d.call(toRVP6, dbz), v, "value equality", "toRVP6(toDBZ(v)) is v", c.fpos(toRVP6))
		c.eq(True, d.call(toDBZ, rvp), v, "value equality", "toDBZ(toRVP6(v)) is v", c.fpos(toDBZ))
		c.eq(True, d.st.g, True, "total function", "the conversions return for every value", c.fpos(toDBZ))
	})
	register("C24", "proof", "value analysis of NewZR, PrecipitationRate and Reflectivity: the computed expressions equal the solution of Z = a R^b as real-number expressions, and their composition is the identity", func(c *Ctx) {
		d := c.drv(c.libEngine())
		f32, f64 := types.Typ[types.Float32], types.Typ[types.Float64]
		a, b := Sym("a", f64), Sym("b", f64)
		z, r := Sym("dBZ", f32), Sym("rate", f64)
		nz, pr, rf := c.lib("NewZR"), c.lib("PrecipitationRate"), c.lib("Reflectivity")
		zr := d.call(nz, a, b)
		ln10 := Ln(Num(10))
		rate := func(a, b *Term) *Term {
			return Exp(Div(Sub(Div(Mul(z, ln10), Num(10)), Ln(a)), b))
		}
		refl := func(a, b, r *Term) *Term {
			return Div(Mul(Num(10), Add(Ln(a), Mul(b, Ln(r)))), ln10)
		}
		got := d.call(pr, zr, z)
		c.eq(True, got, rate(a, b), "value equality", "PrecipitationRate solves 10 log10(a R^b) = dBZ", c.fpos(pr))
		back := d.call(rf, zr, r)
		c.eq(True, unround(back), refl(a, b, r), "value equality", "Reflectivity is 10 log10(a R^b)", c.fpos(rf))
		c.eq(True, unround(d.call(rf, zr, got)), z, "value equality", "Reflectivity(PrecipitationRate(dBZ)) is dBZ", c.fpos(rf))
		c.eq(True, d.call(pr, zr, unround(back)), r, "value equality", "PrecipitationRate(Reflectivity(rate)) is rate", c.fpos(pr))
		for _, k := range []struct {
			name string
			a, b float64
		}{{"Aniol80", 256, 1.42}, {"Doelling98", 316, 1.5}, {"JossWaldvogel70", 300, 1.5}, {"MarshallPalmer55", 200, 1.6}} {
			g := c.global(c.r.lib, k.name)
			rel := d.load(d.st, d.globalPtr(g), deref(g.Type()))
			c.close(d.call(pr, rel, z), rate(NumF(k.a), NumF(k.b)), map[*Term][]float64{z: {-32.5, 0, 17.3, 55}}, k.name+" has its published coefficients (rate)", c.pos(g.Pos()))
			c.close(unround(d.call(rf, rel, r)), refl(NumF(k.a), NumF(k.b), r), map[*Term][]float64{r: {0.01, 1, 25, 120}}, k.name+" has its published coefficients (reflectivity)", c.pos(g.Pos()))
		}
		c.eq(True, d.st.g, True, "total function", "the conversions return for every value", c.fpos(pr))
	})
	register("C38", "proof", "evaluation of the initialiser of the border table: every entry is checked against the bounding box", func(c *Ctx) {
		en := c.engine(cmdPath)
		d := c.drv(en)
		g := c.global(c.r.cmd, "border")
		tab := d.load(d.st, d.globalPtr(g), deref(g.Type()))
		n, ok := Len(tab).int64()
		if !ok || n == 0 {
			fail("the border table has no constant size")
		}
		ET := elemType(deref(g.Type()))
		bad := 0
		for i := int64(0); i < n; i++ {
			e, pos := d.entry(tab, Num(i), ET)
			why := ""
			if e == nil {
				why = "is not initialised"
			} else if l, ok := lenOf(ET, e).int64(); !ok || l != 2 {
				why = "does not consist of two numbers"
			} else {
				lat, lon := d.elem(e, 0, ET), d.elem(e, 1, ET)
				if !inside(lat, 47.2, 55.1) {
					why = "latitude " + show(lat, 3) + " outside 47.2-55.1"
				} else if !inside(lon, 5.8, 15.1) {
					why = "longitude " + show(lon, 3) + " outside 5.8-15.1"
				}
			}
			if why != "" {
				bad++
			}
			if bad <= 20 || why == "" {
				c.ok(why == "", "table entry inside the bounding box", "border["+Num(i).String()+"]", pos, "%s", why)
			}
		}
	})
	register("C39", "proof", "evaluation of Unit.String for every unit constant, and safety of its table lookup for every unit parsing can yield", func(c *Ctx) {
		en := c.libEngine()
		d := c.drv(en)
		f := c.lib("Unit.String")
		seen := map[string]string{}
		for _, u := range []struct{ unit, name string }{{"unknown", ""}, {"mm", "mm"}, {"dBZ", "dBZ"}, {"km", "km"}, {"mps", "m/s"}} {
			t := d.call(f, c.constant(c.r.lib, "Unit_"+u.unit))
			if !c.ok(t.Op == OpStr, "constant evaluation", "the name of Unit_"+u.unit, c.fpos(f), "the name is not constant: %s", show(t, 6)) {
				continue
			}
			c.ok(t.S != "", "constant evaluation", "the name of Unit_"+u.unit+" is not empty", c.fpos(f), "empty")
			if u.name != "" {
				c.ok(strings.Contains(t.S, u.name), "constant evaluation", "the name of Unit_"+u.unit+" is "+u.name, c.fpos(f), "it is %q", t.S)
			}
			o, dup := seen[t.S]
			c.ok(!dup, "constant evaluation", "the name of Unit_"+u.unit+" is unique", c.fpos(f), "same as that of Unit_%s", o)
			seen[t.S] = u.unit
		}
		c.eq(True, d.st.g, True, "total function", "the name function returns", c.fpos(f))
		// every unit a successfully parsed header can carry
		n := c.headerNorm()
		units := map[*Term]bool{}
		var rec func(t *Term, vis map[*Term]bool)
		rec = func(t *Term, vis map[*Term]bool) {
			if vis[t] {
				return
			}
			vis[t] = true
			if t.Op == OpIte {
				rec(t.A[1], vis)
				rec(t.A[2], vis)
				return
			}
			units[t] = true
		}
		for _, u := range mapValues(n.fld("DataUnit")) {
			rec(u, map[*Term]bool{})
		}
		for u := range units {
			c.ok(u.isNum(), "constant evaluation", "unit "+show(u, 4)+" stored by the header parser", n.at(), "the unit is not a constant")
			d.call(f, u)
		}
		c.noUnsafe(en, "naming a unit")
	})
}

// mapValues gives the possible results of a lookup in a constant table.
func mapValues(t *Term) []*Term {
	if t.Op == OpIte {
		return append(mapValues(t.A[1]), mapValues(t.A[2])...)
	}
	if t.app("mapget") && t.A[0].Op == OpMap {
		var vs []*Term
		for i := 1; i < len(t.A[0].A); i += 2 {
			vs = append(vs, mapValues(t.A[0].A[i])...)
		}
		return append(vs, mapValues(t.A[2])...)
	}
	return []*Term{t}
}

func inside(t *Term, lo, hi float64) bool {
	if !t.isNum() {
		return false
	}
	f, _ := t.R.Float64()
	return f >= lo && f <= hi
}

func lenOf(T types.Type, t *Term) *Term {
	if a, ok := T.Underlying().(*types.Array); ok {
		return Num(a.Len())
	}
	return Len(t)
}

// elem reads element i of a small slice or array value.
func (d *Drv) elem(e *Term, i int64, T types.Type) *Term {
	ET := elemType(T)
	if _, ok := T.Underlying().(*types.Array); ok {
		return selL(ET, e, Num(i))
	}
	return d.at(e, Num(i), ET)
}

// entry reads an entry of a table that may be too large for an array term.
func (d *Drv) entry(tab, i *Term, ET types.Type) (*Term, string) {
	p := d.sliceElem(tab, i, ET)
	if p.Op == OpPtr {
		if _, ok := d.bigArr[p.A[0]]; ok {
			if d.bigIdx == nil {
				d.bigIdx = map[*Term]*Event{}
				for _, evs := range d.bigArr {
					for _, e := range evs {
						d.bigIdx[e.Ptr] = e
						if len(e.Ptr.A) != 2 || !e.Ptr.A[1].isNum() || e.Guard != True {
							fail("the table is not initialised entry by entry at %s", d.pos(e.Instr.Pos()))
						}
					}
				}
			}
			e := d.bigIdx[p]
			if e == nil {
				return nil, "-"
			}
			return e.Val, d.c.pos(instrPos(e.Instr))
		}
	}
	return d.load(d.st, p, ET), "-"
}

// unround removes an outermost rounding to float32.
func unround(t *Term) *Term {
	return lift1(func(t *Term) *Term {
		if t.app("f32") {
			return t.A[0]
		}
		return t
	}, t)
}

// close compares two real-number expressions that may differ in how their
// constants are folded: they agree if they are equal as terms or if all
// constants agree to 1e-9 at the given points of the only variable.
func (c *Ctx) close(got, want *Term, pts map[*Term][]float64, what, pos string) {
	if same(True, got, want) {
		c.ok(true, "value equality", what, pos, "")
		return
	}
	for v, xs := range pts {
		for _, x := range xs {
			m := map[*Term]*Term{v: NumF(x)}
			a, b := substT(got, m), substT(want, m)
			fa, ok1 := evalF(a)
			fb, ok2 := evalF(b)
			if !ok1 || !ok2 || math.Abs(fa-fb) > 1e-9*math.Max(1, math.Abs(fb)) {
				c.ok(false, "value equality", what, pos, "the code computes %s but the property demands %s", show(got, 9), show(want, 9))
				return
			}
		}
	}
	c.ok(true, "value equality", what, pos, "")
}

// evalF folds a closed term numerically.
func evalF(t *Term) (float64, bool) {
	switch {
	case t.isNum():
		f, _ := t.R.Float64()
		return f, true
	case t.Op == OpPoly:
		sum := 0.0
		for _, m := range t.P {
			v, _ := m.C.Float64()
			for _, f := range m.F {
				x, ok := evalF(f.T)
				if !ok {
					return 0, false
				}
				v *= math.Pow(x, float64(f.E))
			}
			sum += v
		}
		return sum, true
	case t.Op == OpApp && len(t.A) == 1:
		x, ok := evalF(t.A[0])
		if !ok {
			return 0, false
		}
		switch t.S {
		case "exp":
			return math.Exp(x), true
		case "ln":
			return math.Log(x), true
		case "sin":
			return math.Sin(x), true
		case "cos":
			return math.Cos(x), true
		case "tan":
			return math.Tan(x), true
		case "sqrt":
			return math.Sqrt(x), true
		case "f32":
			return float64(float32(x)), true
		}
	}
	return 0, false
}
