package main

// Images and colour scales.

import (
	"fmt"
	"go/types"
)

// pixelAt reads the colour drawn at (x, y) on the image behind img.
func (d *Drv) pixelAt(img, x, y *Term) *Term {
	return lift1(func(p *Term) *Term {
		if p.Op != OpPtr || len(p.A) != 1 {
			fail("the image is not a single known object: %s", show(p, 4))
		}
		o := canvasObj(p)
		AT, ok := d.objType[o]
		if !ok {
			fail("the image is not created by image.NewRGBA")
		}
		if _, raw := d.st.mem.get(d.elemsObj(App("pix", nil, p), types.Typ[types.Uint8])); raw {
			fail("the bytes of the image are written at offsets that are not related to its pixels")
		}
		RT := elemType(AT)
		row := App("sel", RT, d.content(d.st.mem, o), y)
		return App("sel", elemType(RT), row, x)
	}, img)
}

// rectOf reads the rectangle of the image: min x, min y, max x, max y.
func (d *Drv) rectOf(img *Term, T types.Type) (r [4]*Term) {
	RT := T.Underlying().(*types.Struct).Field(fieldIndex(T, "Rect")).Type()
	PT := RT.Underlying().(*types.Struct).Field(0).Type()
	rect := d.field(img, T, "Rect")
	for i := range r {
		r[i] = lift1(func(t *Term) *Term { return fieldOf(PT, fieldOf(RT, t, i/2), i%2) }, rect)
	}
	return
}

func init() {
	register("C32", "proof", "value analysis of Image on every composite NewComposite and NewDummy can return, for a symbolic layer: the rectangle is the layer size, the colour at a symbolic pixel of an existing layer is the colour function applied to the voxel there, otherwise nothing is drawn; no panicking construct is reachable", func(c *Ctx) {
		fn := c.need(c.r.vis, "Image")
		colorFunc := fn.Params[0].Type()
		imgT := deref(fn.Signature.Results().At(0).Type())
		x, y, layer, col := Sym("x", tInt), Sym("y", tInt), Sym("layer", tInt), Sym("fn", colorFunc)
		f32 := types.Typ[types.Float32]
		row := types.NewSlice(f32)
		lay := types.NewSlice(row)
		pos := c.fpos(fn)
		nilFn := func(e *Event) bool { return e.Rule == "call of nil function" }
		one := func(d *Drv, comp, ret, ok *Term, name string) {
			n := len(d.events)
			var img, got *Term
			loops := len(d.loops)
			d.st = d.st.with(And(d.st.g, ok))
			img = d.call(fn, col, comp, layer)
			c.safe(d.Engine, n, "Image of "+name, nilFn)
			dx, dy, dz := d.get(comp, "Dx"), d.get(comp, "Dy"), d.get(comp, "Dz")
			rect := d.rectOf(img, imgT)
			for i, want := range []*Term{Zero, Zero, dx, dy} {
				c.eqLin(d.Engine, d.st.g, rect[i], want, "the image has the size of a layer", fmt.Sprintf("rectangle [%d] of the image of %s", i, name), pos)
			}
			inside := AndN(Ge0(x), Lt(x, dx), Ge0(y), Lt(y, dy))
			exists := AndN(Ge0(layer), Lt(layer, dz))
			got = d.pixelAt(img, x, y)
			blank := selL(nil, Arr(nil, zeroOf(c.rgba())), Zero)
			value := d.at(d.at(d.at(d.get(comp, "DataZ"), layer, lay), y, row), x, f32)
			want := d.opaque("call", c.rgba(), col, value)
			g := And(d.st.g, d.exitFacts(d.st.g))
			_ = loops
			full := func(t *Term) *Term {
				return lift1(func(t *Term) *Term { return expandStruct(c.rgba(), t) }, t)
			}
			got, want, blank = full(got), full(want), full(blank)
			c.eqLin(d.Engine, AndN(g, inside, exists), got, want, "a pixel shows its voxel", "pixel of the image of "+name, pos)
			c.eqLin(d.Engine, AndN(g, inside, Not(exists)), got, blank, "nothing is drawn for a layer that does not exist", "pixel of the image of "+name, pos)
		}
		v := c.drv(c.engine(libPath, visPath))
		comp0, g := v.absComposite()
		one(v, comp0, True, g, "a parsed composite")
		c.notes = append(c.notes, "the parsed composite is an arbitrary one of the shape that C03 establishes")
		en := c.engine(libPath, visPath)
		d := c.drv(en)
		comp := d.call(c.lib("NewDummy"), Sym("product", tStr), Sym("format", tInt), Sym("dx", tInt), Sym("dy", tInt))
		d.st = d.st.with(And(d.st.g, AndN(Ge0(Sym("dx", tInt)), Ge0(Sym("dy", tInt)))))
		one(d, comp, d.st.g, True, "a dummy")
	})
}

// rgba is the type of the colours.
func (c *Ctx) rgba() types.Type {
	for _, pk := range c.r.prog.AllPackages() {
		if pk.Pkg.Path() == "image/color" {
			return pk.Pkg.Scope().Lookup("RGBA").Type()
		}
	}
	fail("image/color is not imported")
	return nil
}

// absComposite is an arbitrary composite of the shape parsing yields: Dz >= 1
// layers of Dy >= 1 rows of Dx >= 1 values each, Data being the first layer.
func (d *Drv) absComposite() (comp, g *Term) {
	CT := d.c.typ(d.c.r.lib, "Composite")
	ST := CT.Underlying().(*types.Struct)
	f32 := types.Typ[types.Float32]
	row := types.NewSlice(f32)
	lay := types.NewSlice(row)
	const big = 1 << 40
	dim := map[string]*Term{}
	for _, n := range []string{"Dx", "Dy", "Dz"} {
		dim[n] = Sym("comp."+n, tInt)
	}
	g = AndN(Ge(dim["Dx"], One), Ge(dim["Dy"], One), Ge(dim["Dz"], One))
	kz, ky, kx := Sym("k@absz", tInt), Sym("k@absy", tInt), Sym("k@absx", tInt)
	oz, ol, or := Obj("a:comp.layers"), Obj("a:comp.rows"), Obj("a:comp.values")
	d.objType[oz] = types.NewArray(lay, big)
	d.objType[ol] = types.NewArray(types.NewArray(row, big), big)
	d.objType[or] = types.NewArray(types.NewArray(types.NewArray(f32, big), big), big)
	m := d.st.mem.clone()
	total := func(n, k, v *Term) *Term { return ArrLam(true, Arr(nil, Zero), Zero, n, One, k, v) }
	sl := func(p, n *Term) *Term { return Slice(p, Zero, n, n) }
	m.m[oz] = total(dim["Dz"], kz, sl(Ptr(ol, kz), dim["Dy"]))
	m.m[ol] = total(dim["Dz"], kz, total(dim["Dy"], ky, sl(Ptr(or, kz, ky), dim["Dx"])))
	m.m[or] = total(dim["Dz"], kz, total(dim["Dy"], ky, total(dim["Dx"], kx, App("voxel", f32, kz, ky, kx))))
	o := Obj("a:comp")
	d.objType[o] = CT
	var fs []*Term
	for i := 0; i < ST.NumFields(); i++ {
		f := ST.Field(i)
		var v *Term
		switch f.Name() {
		case "Dx", "Dy", "Dz":
			v = dim[f.Name()]
		case "DataZ":
			v = sl(Ptr(oz), dim["Dz"])
		case "Data":
			v = sl(Ptr(ol, Zero), dim["Dy"])
		default:
			v = App("comp."+f.Name(), f.Type())
		}
		fs = append(fs, v)
	}
	m.m[o] = Struct(CT, fs...)
	d.st = State{d.st.g, m, d.st.loc}
	return Ptr(o), g
}
