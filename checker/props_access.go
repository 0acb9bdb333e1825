package main

import (
	"go/types"
)

func init() {
	register("C04", "proof", "value analysis of At and AtZ on every composite NewComposite and NewDummy can return, for symbolic coordinates: no panicking construct is reachable, the value inside the volume is the stored voxel, outside it is NaN", func(c *Ctx) {
		x, y, z := Sym("x", tInt), Sym("y", tInt), Sym("z", tInt)
		atz, at := c.lib("Composite.AtZ"), c.lib("Composite.At")
		f32 := types.Typ[types.Float32]
		row := types.NewSlice(f32)
		layer := types.NewSlice(row)
		for _, v := range c.data() {
			v.use(func() {
				n := len(v.events)
				got := v.call(atz, v.comp, x, y, z)
				c.safe(v.Engine, n, "AtZ on a parsed composite ("+v.name+")", nil)
				inside := AndN(Ge0(x), Lt(x, v.get(v.comp, "Dx")), Ge0(y), Lt(y, v.get(v.comp, "Dy")), Ge0(z), Lt(z, v.get(v.comp, "Dz")))
				stored := v.at(v.at(v.at(v.get(v.comp, "DataZ"), z, layer), y, row), x, f32)
				c.eqLin(v.Engine, And(v.ok, inside), got, stored, "inside the volume the stored voxel is returned", "AtZ ("+v.name+")", c.fpos(atz))
				c.eqLin(v.Engine, And(v.ret, Not(inside)), got, NaNT, "outside the volume NaN is returned", "AtZ ("+v.name+")", c.fpos(atz))
				n = len(v.events)
				got2 := v.call(at, v.comp, x, y)
				c.safe(v.Engine, n, "At on a parsed composite ("+v.name+")", nil)
				c.eqLin(v.Engine, v.ret, got2, substT(got, map[*Term]*Term{z: Zero}), "At is AtZ at layer 0", "At ("+v.name+")", c.fpos(at))
			})
		}
		en := c.libEngine()
		d := c.drv(en)
		fn := c.lib("NewDummy")
		comp := d.call(fn, Sym("product", tStr), Sym("format", tInt), Sym("dx", tInt), Sym("dy", tInt))
		n := len(en.events)
		got := d.call(atz, comp, x, y, z)
		c.eqLin(en, d.st.g, got, NaNT, "outside the volume NaN is returned", "AtZ on a dummy", c.fpos(atz))
		got = d.call(at, comp, x, y)
		c.eqLin(en, d.st.g, got, NaNT, "outside the volume NaN is returned", "At on a dummy", c.fpos(at))
		c.safe(en, n, "At and AtZ on a dummy", nil)
	})
}

// use runs f and restores the analysis state afterwards.
func (v *dataView) use(f func()) {
	st, n := v.st, v.n
	f()
	v.st = st
	_ = n
}

// eqLin is an equality obligation decided per case with linear facts.
func (c *Ctx) eqLin(en *Engine, g, got, want *Term, rule, what, pos string) bool {
	if same(g, got, want) {
		return c.ok(true, rule, what, pos, "")
	}
	a, b := deepRestrict(got, g), deepRestrict(want, g)
	g = And(g, differ(a, b))
	if ok, _ := en.infeasible(g); ok {
		return c.ok(true, rule, what, pos, "")
	}
	n := 0
	bad := ""
	var rec func(g, a, b *Term) bool
	rec = func(g, a, b *Term) bool {
		n++
		if n > 400 {
			bad = "too many cases: " + firstDiff(g, a, b)
			return false
		}
		a, b = deepRestrict(a, g), deepRestrict(b, g)
		if a == b || g == False {
			return true
		}
		var v *Term
		if a.Op == OpIte {
			v = top(a)
		}
		if b.Op == OpIte {
			if x := top(b); v == nil || x.ID < v.ID {
				v = x
			}
		}
		if v == nil {
			ok, d := en.infeasible(And(g, mayDiffer(a, b, 0)))
			if !ok {
				bad = "the code computes " + show(a, 9) + " but the property demands " + show(b, 9) + " when " + d
			}
			return ok
		}
		at := typed(v)
		return rec(And(g, at), cof(a, v, true), cof(b, v, true)) && rec(And(g, Not(at)), cof(a, v, false), cof(b, v, false))
	}
	ok := rec(g, a, b)
	return c.ok(ok, rule, what, pos, "%s", bad)
}

// differ is a condition that holds wherever the values differ.
func differ(a, b *Term) *Term {
	memo := map[[2]int]*Term{}
	var rec func(a, b *Term) *Term
	rec = func(a, b *Term) *Term {
		if a == b {
			return False
		}
		v := top(a)
		if x := top(b); x != nil && (v == nil || x.ID < v.ID) {
			v = x
		}
		if v == nil {
			return True
		}
		k := [2]int{a.ID, b.ID}
		if r, ok := memo[k]; ok {
			return r
		}
		r := node(v, rec(cof(a, v, true), cof(b, v, true)), rec(cof(a, v, false), cof(b, v, false)))
		memo[k] = r
		return r
	}
	return rec(a, b)
}
