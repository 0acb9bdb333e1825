package main

// Pixel values and positions (two-byte and one-byte encodings), choice of the
// encoding, geometry of the result, the unknown unit error and the catalogue
// resolution.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

var tF32 = types.Typ[types.Float32]

// dropRounding removes roundings to float32: values are compared as real numbers.
func dropRounding(t *Term) *Term {
	for i := 0; i < 8; i++ {
		fs := collect(t, func(x *Term) bool { return x.app("f32") })
		if len(fs) == 0 {
			return t
		}
		m := map[*Term]*Term{}
		for _, f := range fs {
			m[f] = f.A[0]
		}
		t = substT(t, m)
	}
	return t
}

// pix is the value of one plain pixel of a view.
type pix struct {
	*dataView
	r, x *Term // row and column
	g    *Term // success and position inside the image
	val  *Term
	n    *Term // number of pixels
	len_ *Term // declared data length
	lvl  *Term // there is a level table
}

func (v *dataView) pixel() *pix {
	p := &pix{dataView: v, r: Sym("k@b.row", tInt), x: Sym("k@b.col", tInt)}
	p.g = AndN(v.ok, Ge0(p.r), Lt(p.r, v.alt.py), Ge0(p.x), Lt(p.x, v.alt.px))
	pd := v.get(v.comp, "PlainData")
	row := v.at(pd, p.r, types.NewSlice(tF32))
	p.val = dropRounding(v.at(row, p.x, tF32))
	p.n = Mul(v.alt.px, v.alt.py)
	p.len_ = App("hdr.dataLength", tInt)
	p.lvl = Not(IsNilT(App("hdr.level", v.fieldType("level"))))
	return p
}

func (v *dataView) fieldType(name string) types.Type {
	CT := v.c.typ(v.c.r.lib, "Composite")
	return CT.Underlying().(*types.Struct).Field(fieldIndex(CT, name)).Type()
}

// encodings as conditions on the header
func (p *pix) twoByte() *Term { return AndN(Not(p.lvl), EqInt(p.len_, Mul(Num(2), p.n))) }
func (p *pix) oneByte() *Term {
	return AndN(Not(p.lvl), Not(EqInt(p.len_, Mul(Num(2), p.n))), EqInt(p.len_, p.n))
}
func (p *pix) other() *Term {
	return AndN(Not(p.lvl), Not(EqInt(p.len_, Mul(Num(2), p.n))), Not(EqInt(p.len_, p.n)))
}

// isByte matches a byte of the stream.
func (v *dataView) isByte(x *Term) bool { return x.app("sel") && len(x.A) == 2 && x.A[0] == v.B }

// bytesOf lists the stream positions a value is computed from.
func (v *dataView) bytesOf(t *Term) []*Term {
	var ps []*Term
	for _, b := range collect(t, v.isByte) {
		ps = append(ps, b.A[1])
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID })
	return ps
}

func (v *dataView) byteAt(p *Term) *Term { return selL(types.Typ[types.Uint8], v.B, p) }

// under is the pixel value under g and the stream positions it is computed
// from; n are expected.
func (p *pix) under(g *Term, n int) (*Term, []*Term) {
	val := deepRestrict(p.val, g)
	ps := p.bytesOf(val)
	if n > 0 && len(ps) != n {
		val = p.prune(p.val, g)
		ps = p.bytesOf(val)
	}
	return val, ps
}

// scaled is the specified conversion of a raw integer value.
func (p *pix) scaled(raw *Term) *Term {
	s := Mul(raw, Exp(Mul(Ln(Num(10)), App("hdr.precision", tInt))))
	dbz := EqInt(App("hdr.DataUnit", p.fieldType("DataUnit")), p.c.constant(p.c.r.lib, "Unit_dBZ"))
	return Ite(dbz, Sub(Mul(NumF(0.5), s), NumF(32.5)), s)
}

func (p *pix) twoByteValue(lo, hi *Term) *Term {
	mag := Add(lo, Mul(Num(256), Bits(hi, 0, 4)))
	set := func(b int) *Term { return Not(Eq0(Bits(hi, b, 1))) }
	return Ite(set(5), NaNT, p.scaled(Ite(set(6), Neg(mag), mag)))
}

func (p *pix) oneByteValue(b *Term) *Term {
	return Ite(EqInt(b, Num(250)), NaNT, p.scaled(b))
}

// reaches tells whether a value depends on something, through loop recurrences.
func (en *Engine) reaches(t *Term, pred func(*Term) bool) bool {
	carries := map[string]*Carry{}
	for _, l := range en.loops {
		for _, c := range l.Carries {
			carries[c.name] = c
		}
	}
	seen := map[*Term]bool{}
	work := []*Term{t}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		if t == nil || seen[t] {
			continue
		}
		seen[t] = true
		if mentions(t, pred) {
			return true
		}
		for _, x := range collect(t, func(x *Term) bool { return x.appPrefix("carry:") }) {
			for name, c := range carries {
				if x.S == name || strings.HasPrefix(x.S, name+".") {
					work = append(work, c.Init, c.Next)
				}
			}
		}
	}
	return false
}

func isLevel(x *Term) bool { return x.app("hdr.level") }

func (c *Ctx) eachPixel(f func(p *pix)) {
	for _, v := range c.data() {
		f(v.pixel())
	}
}

func init() {
	register("C10", "proof", "value analysis of NewComposite: under the conditions of the two-byte encoding the value of an arbitrary pixel is expression-equal to the specified function of two adjacent stream bytes", func(c *Ctx) {
		n := 0
		c.eachPixel(func(p *pix) {
			g := And(p.g, p.twoByte())
			if g == False {
				return
			}
			n++
			val, ps := p.under(g, 2)
			what := "value of an arbitrary two-byte pixel (" + p.name + ")"
			if !c.ok(len(ps) == 2, "bytes a value is computed from", what, c.fpos(p.fn), "computed from %d stream bytes at %v: %s", len(ps), ps, show(val, 8)) {
				return
			}
			lo, hi := ps[0], ps[1]
			if Sub(hi, lo) != Num(1) {
				lo, hi = hi, lo
			}
			if !c.ok(Sub(hi, lo) == Num(1), "bytes a value is computed from", what+": the bytes are adjacent", c.fpos(p.fn), "at %s and %s", show(lo, 6), show(hi, 6)) {
				return
			}
			p.eq(g, val, p.twoByteValue(p.byteAt(lo), p.byteAt(hi)), "value equality", what, c.fpos(p.fn))
		})
		c.ok(n > 0, "instances exist", "shapes with two-byte data", "", "none")
	})
	register("C11", "proof", "value analysis of NewComposite: under the conditions of the one-byte encoding the value of an arbitrary pixel is expression-equal to the specified function of one stream byte", func(c *Ctx) {
		n := 0
		c.eachPixel(func(p *pix) {
			g := And(p.g, p.oneByte())
			if g == False {
				return
			}
			n++
			val, ps := p.under(g, 1)
			what := "value of an arbitrary one-byte pixel (" + p.name + ")"
			if !c.ok(len(ps) == 1, "bytes a value is computed from", what, c.fpos(p.fn), "computed from %d stream bytes at %v: %s", len(ps), ps, show(val, 8)) {
				return
			}
			p.eq(g, val, p.oneByteValue(p.byteAt(ps[0])), "value equality", what, c.fpos(p.fn))
		})
		c.ok(n > 0, "instances exist", "shapes with one-byte data", "", "none")
	})
	register("C15", "proof", "value analysis of NewComposite: which stream bytes an arbitrary pixel is computed from in each case of the header condition, and unreachability of success in the remaining case", func(c *Ctx) {
		c.eachPixel(func(p *pix) {
			pos := c.fpos(p.fn)
			bad := And(p.ok, p.other())
			p.unsat(bad, "guard unsatisfiable", "success without a level table for a length that is neither n nor 2n ("+p.name+")", pos, "reached when %s")
			kind := func(name string, g *Term, want int) {
				g = And(p.g, g)
				if !c.ok(g != False, "guard satisfiable", name+" data can be parsed ("+p.name+")", pos, "success is impossible") {
					return
				}
				val, ps := p.under(g, want)
				lv := p.reaches(val, isLevel)
				if lv && want > 0 {
					val = p.prune(p.val, g)
					lv = p.reaches(val, isLevel)
				}
				if want == 0 {
					c.ok(lv, "kind of decoding", name+" pixels are looked up in the level table ("+p.name+")", pos, "pixel value %s", show(val, 8))
					return
				}
				c.ok(!lv && len(ps) == want, "kind of decoding", fmt.Sprintf("%s pixels are computed from %d byte(s) (%s)", name, want, p.name), pos, "pixel value %s", show(val, 8))
			}
			kind("two-byte", p.twoByte(), 2)
			kind("one-byte", p.oneByte(), 1)
			two := EqInt(p.len_, Mul(Num(2), p.n))
			one := EqInt(p.len_, p.n)
			kind("run-length", AndN(p.lvl, two), 0)
			kind("run-length", AndN(p.lvl, Not(two), one), 0)
			kind("run-length", AndN(p.lvl, Not(two), Not(one)), 0)
			g := And(p.g, p.lvl)
			p.valueLeaves(g, p.val, func(g, t *Term) {
				c.ok(len(p.bytesOf(t)) == 0 || p.reaches(t, isLevel), "kind of decoding", "run-length pixels are looked up in the level table ("+p.name+")", pos, "pixel value %s", show(t, 8))
			})
		})
	})
	register("C14", "proof", "value analysis of NewComposite: the stream position each pixel of the two-byte and one-byte encodings is computed from, and the row of the stream each run-length row is computed from", func(c *Ctx) {
		c.eachPixel(func(p *pix) {
			pos := c.fpos(p.fn)
			idx := Add(Mul(Sub(Sub(p.alt.py, Num(1)), p.r), p.alt.px), p.x)
			for _, k := range []struct {
				name string
				g    *Term
				want []*Term
			}{
				{"two-byte", p.twoByte(), []*Term{Add(p.P, Mul(Num(2), idx)), AddC(Add(p.P, Mul(Num(2), idx)), 1)}},
				{"one-byte", p.oneByte(), []*Term{Add(p.P, idx)}},
			} {
				g := And(p.g, k.g)
				if g == False {
					continue
				}
				_, ps := p.under(g, len(k.want))
				got := map[*Term]bool{}
				for _, x := range ps {
					got[x] = true
				}
				okAll := len(ps) == len(k.want)
				for _, w := range k.want {
					okAll = okAll && got[w]
				}
				c.ok(okAll, "stream position of a pixel", fmt.Sprintf("%s pixel (column, row) is row Py-1-row, column of the stream (%s)", k.name, p.name), pos, "it is read from stream offset %v", relTo(ps, p.P))
			}
			c.runlengthRows(p)
		})
	})
	register("C05", "proof", "value analysis of NewComposite: lengths of all row and layer slices, and identity of every row of every layer with its row of the plain data", func(c *Ctx) {
		for _, v := range c.data() {
			c.geometry(v)
		}
	})
	register("C08", "proof", "value analysis of NewComposite: the returned error as a function of the unit, and independence of success from the unit", func(c *Ctx) {
		UT := c.data()[0].fieldType("DataUnit")
		unit := App("hdr.DataUnit", UT)
		for _, v := range c.data() {
			pos := c.fpos(v.fn)
			c.ok(And(v.ret, IsNilT(v.unk)) == False, "value equality", "the unknown unit error is an error", pos, "it is nil")
			unk := EqInt(unit, c.constant(c.r.lib, "Unit_unknown"))
			v.eq(v.ok, v.err, Ite(unk, v.unk, Nil), "value equality", "a parsed composite comes with the unknown unit error exactly if its unit is unknown ("+v.name+")", pos)
			var first *Term
			for u := int64(0); u < 6; u++ {
				g := substT(v.ok, map[*Term]*Term{unit: Num(u)})
				if u == 0 {
					first = g
					c.ok(g != False, "guard satisfiable", "products with unknown unit can be parsed ("+v.name+")", pos, "success is impossible")
				} else {
					c.ok(g == first, "guard independence", fmt.Sprintf("success does not depend on the unit: unit %d against unknown (%s)", u, v.name), pos, "the conditions differ: %s", firstCube(Or(And(g, Not(first)), And(first, Not(g)))))
				}
			}
			bad := And(v.ok, IsNilT(v.comp))
			v.unsat(bad, "guard unsatisfiable", "a parsed composite is returned along with the error ("+v.name+")", pos, "nil when %s")
			// the composite is as complete as that of another unit (neither is converted from RVP-6)
			without := func(t *Term) *Term { return substT(t, map[*Term]*Term{unit: Zero}) }
			with := func(t *Term) *Term { return substT(t, map[*Term]*Term{unit: Num(1)}) }
			same := func(g, t *Term, what string) {
				g = without(g)
				v.eq(g, deepRestrict(without(t), g), deepRestrict(with(t), g), "value independence", "composites of unknown unit are parsed like those of known units: "+what+" ("+v.name+")", pos)
			}
			ST := c.typ(c.r.lib, "Composite").Underlying().(*types.Struct)
			for i := 0; i < ST.NumFields(); i++ {
				if f := ST.Field(i).Name(); f != "DataUnit" {
					same(v.ok, v.get(v.comp, f), f)
				}
			}
			p := v.pixel()
			same(p.g, p.val, "pixels")
		}
		h := c.header()
		bad := And(h.st.g, Eq(h.res, h.load(h.st, h.globalPtr(c.global(c.r.lib, "ErrUnknownUnit")), tErr)))
		h.unsat(bad, "guard unsatisfiable", "a malformed header does not yield the unknown unit error", c.fpos(h.fn), "reached when %s")
	})
	register("C22", "proof", "value analysis of parseHeader and NewComposite: dimensions and resolution of every local product by substitution, and preservation of the catalogued resolution by the calibration", func(c *Ctx) {
		n := c.headerNorm()
		local := AndN(n.okN, Not(n.has("GP")), Not(n.has("BG")))
		for _, f := range []string{"Px", "Py", "Dx", "Dy", "Rx", "Ry"} {
			f := f
			c.eachProduct(n, local, f, func(code string) *Term {
				if s, ok := localCatalog[code]; ok {
					return Num(s[f])
				}
				return nil
			}, n.fld(f), local)
		}
		seen := map[string]bool{}
		for _, v := range c.data() {
			pos := c.fpos(v.fn)
			for code, s := range localCatalog {
				if v.alt.px != Num(s["Px"]) || v.alt.py != Num(s["Py"]) || v.alt.dx != Num(s["Dx"]) || v.alt.dy != Num(s["Dy"]) {
					continue
				}
				seen[code] = true
				m := map[*Term]*Term{App("hdr.Rx", v.fieldType("Rx")): Num(s["Rx"]), App("hdr.Ry", v.fieldType("Ry")): Num(s["Ry"]), App("hdr.Product", tStr): Str(code)}
				for _, f := range []string{"Px", "Py", "Dx", "Dy", "Rx", "Ry"} {
					got := substT(v.get(v.comp, f), m)
					v.eq(substT(v.ok, m), got, Num(s[f]), "value for a product code", f+" of "+code+" after parsing", pos)
				}
				dz := int64(1)
				if s["Py"]%s["Dy"] == 0 {
					dz = s["Py"] / s["Dy"]
				}
				v.eq(substT(v.ok, m), substT(v.get(v.comp, "Dz"), m), Num(dz), "value for a product code", "Dz of "+code+" after parsing", pos)
			}
		}
		for code := range localCatalog {
			c.ok(seen[code], "instances exist", "a shape of local product "+code, n.at(), "no successful header has its dimensions")
		}
	})
}

func relTo(ps []*Term, P *Term) []string {
	var out []string
	for _, p := range ps {
		out = append(out, show(Sub(p, P), 6))
	}
	return out
}

func (c *Ctx) geometry(v *dataView) {
	pos := c.fpos(v.fn)
	row := types.NewSlice(tF32)
	layer := types.NewSlice(row)
	a := v.alt
	what := func(s string) string { return s + " (" + v.name + ")" }
	pd := v.get(v.comp, "PlainData")
	for _, f := range []struct {
		name string
		want *Term
	}{{"Px", a.px}, {"Py", a.py}, {"Dx", a.dx}, {"Dy", a.dy}} {
		v.eq(v.ok, v.get(v.comp, f.name), f.want, "value equality", what(f.name+" is as parsed"), pos)
	}
	v.eq(v.ok, Len(pd), a.py, "length of a slice", what("PlainData has Py rows"), pos)
	r := Sym("k@b.row", tInt)
	gr := AndN(v.ok, Ge0(r), Lt(r, a.py))
	v.eq(gr, Len(v.at(pd, r, row)), a.px, "length of a slice", what("every row of PlainData has Px columns"), pos)
	// layers
	multi := Eq0(Rem(a.py, a.dy))
	multi = restrict(multi, v.ok)
	want := Ite(multi, Quo(a.py, a.dy), Num(1))
	dz := v.get(v.comp, "DataZ")
	Dz := deepRestrict(v.get(v.comp, "Dz"), v.ok)
	v.eq(v.ok, Dz, want, "value equality", what("Dz is the number of layers"), pos)
	v.eq(v.ok, Len(dz), want, "length of a slice", what("DataZ has Dz layers"), pos)
	var zs []*Term
	if n, ok := deepRestrict(want, v.ok).int64(); ok && n <= 64 {
		for i := int64(0); i < n; i++ {
			zs = append(zs, Num(i))
		}
	} else {
		zs = []*Term{Sym("k@b.layer", tInt)}
	}
	y := Sym("k@b.y", tInt)
	for _, z := range zs {
		gz := AndN(v.ok, Ge0(z), Lt(z, want))
		lz := v.at(dz, z, layer)
		v.eq(gz, Len(lz), a.dy, "length of a slice", what("layer "+show(z, 2)+" has Dy rows"), pos)
		gy := AndN(gz, Ge0(y), Lt(y, a.dy))
		got := v.at(lz, y, row)
		off := Ite(multi, Mul(z, a.dy), Sub(a.py, a.dy))
		v.eq(gy, first(got), first(v.at(pd, Add(off, y), row)), "identity of a row", what("row y of layer "+show(z, 2)+" is its row of the plain data"), pos)
		bad := And(gy, Lt(Len(got), a.dx))
		v.unsat(bad, "length of a slice", what("rows of layer "+show(z, 2)+" have Dx columns"), pos, "shorter when %s")
	}
	d := v.get(v.comp, "Data")
	v.eq(v.ok, Len(d), a.dy, "length of a slice", what("Data has Dy rows"), pos)
	gy := AndN(v.ok, Ge0(y), Lt(y, a.dy))
	v.eq(gy, first(v.at(d, y, row)), first(v.at(v.at(dz, Zero, layer), y, row)), "identity of a row", what("row y of Data is row y of layer 0"), pos)
}

// first identifies a slice by the address of its first element and its length.
func first(s *Term) *Term {
	return lift1(func(s *Term) *Term {
		if s.Op != OpSlice {
			return s
		}
		return Tuple(s.A[0], s.A[1], s.A[2])
	}, s)
}
