package main

// Header analysis and its abstraction. parseHeader is analysed on its own
// (entry point pinned by the repository's tests); the analyses of the data part
// see its result as arbitrary field values, except that the image dimensions
// keep the joint shapes the header analysis found.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const hdrFn = "(*" + libPath + ".Composite).parseHeader"

type hdrView struct {
	*Drv
	comp   *Term // pointer to the composite
	reader *Term
	B      *Term // bytes of the stream
	p0     *Term // position at the start
	res    *Term
	ok     *Term // guard: returned, error nil
	fn     *ssa.Function
}

func (c *Ctx) header() *hdrView {
	if c.hv != nil {
		return c.hv
	}
	c.hv = c.headerOn(c.libEngine())
	return c.hv
}

// headerOn analyses parseHeader with an engine of its own.
func (c *Ctx) headerOn(en *Engine) *hdrView {
	h := &hdrView{Drv: c.drv(en), fn: c.lib("Composite.parseHeader")}
	CT := c.typ(c.r.lib, "Composite")
	o := Obj("a:comp")
	en.objType[o] = CT
	h.st.mem.m[o] = zeroOf(CT)
	h.comp = Ptr(o)
	h.reader = en.arg("reader", h.fn.Params[1].Type())
	s, ok := en.streamOf(h.st, h.reader)
	if !ok {
		fail("the header reader is not recognised as a stream")
	}
	h.B, h.p0 = s.B, en.streamPos(h.st, s)
	h.res = h.call(h.fn, h.comp, h.reader)
	h.ok = And(h.st.g, IsNilT(h.res))
	return h
}

type dimAlt struct{ px, py, dx, dy *Term }

// dims returns the joint shapes (plain width/height, layer width/height) of
// successfully parsed headers.
func (h *hdrView) dims() []dimAlt {
	t := lift(func(as []*Term) *Term { return appRaw("dims", nil, as...) },
		h.get(h.comp, "Px"), h.get(h.comp, "Py"), h.get(h.comp, "Dx"), h.get(h.comp, "Dy"))
	t = restrict(t, h.ok)
	seen := map[string]bool{}
	var alts []dimAlt
	var rec func(x *Term, vis map[*Term]bool)
	rec = func(x *Term, vis map[*Term]bool) {
		if vis[x] {
			return
		}
		vis[x] = true
		if x.Op == OpIte {
			rec(x.A[1], vis)
			rec(x.A[2], vis)
			return
		}
		if !x.app("dims") {
			return
		}
		ren := map[*Term]int{}
		key := ""
		var ts [4]*Term
		for i, a := range x.A {
			if a.isNum() {
				ts[i] = a
				key += a.String() + ","
				continue
			}
			if _, ok := ren[a]; !ok {
				ren[a] = len(ren)
			}
			key += fmt.Sprintf("s%d,", ren[a])
			ts[i] = App(fmt.Sprintf("hdr.dim%d", ren[a]), tInt)
		}
		if !seen[key] {
			seen[key] = true
			alts = append(alts, dimAlt{ts[0], ts[1], ts[2], ts[3]})
		}
	}
	rec(t, map[*Term]bool{})
	return alts
}

// dimFacts gives constant bounds on the dimensions that a successful header
// analysis establishes, so that a check may sit on either side of the cut.
func (h *hdrView) dimFacts(alt *dimAlt) []*Term {
	var fs []*Term
	ds := []*Term{alt.px, alt.py, alt.dx, alt.dy}
	names := []string{"Px", "Py", "Dx", "Dy"}
	for i, d := range ds {
		if d.isNum() {
			continue
		}
		// headers of this shape: every constant component has its value
		g := h.ok
		for j, o := range ds {
			if o.isNum() {
				g = And(g, EqInt(h.get(h.comp, names[j]), o))
			}
		}
		got := h.get(h.comp, names[i])
		implied := func(f *Term) bool { return And(g, Not(f)) == False }
		if implied(Ge(got, Num(1))) {
			fs = append(fs, Ge(d, Num(1)))
		} else if implied(Ge0(got)) {
			fs = append(fs, Ge0(d))
		}
		for b := uint(8); b < 40; b++ {
			if implied(Le(got, Num(1<<b))) {
				fs = append(fs, Le(d, Num(1<<b)))
				break
			}
		}
	}
	return fs
}

// cutHeader makes calls of parseHeader return an arbitrary header of one shape
// (nil: an arbitrary shape).
func (c *Ctx) cutHeader(en *Engine, alt *dimAlt) {
	h := c.header()
	CT := c.typ(c.r.lib, "Composite")
	ST := CT.Underlying().(*types.Struct)
	zero := zeroOf(CT)
	final := h.load(h.st, h.comp, CT)
	var changed []bool
	for i := 0; i < ST.NumFields(); i++ {
		changed = append(changed, fieldOf(CT, final, i) != fieldOf(CT, zero, i))
	}
	en.cuts[hdrFn] = func(fr *Frame, st State, in ssa.Instruction, args []*Term) (*Term, State) {
		ks := fr.ks()
		okA := App("hdr.ok", tBool, ks...)
		sub := func(t *Term) *Term {
			if t.isNum() {
				return t
			}
			return App(t.S, tInt, ks...)
		}
		for i := 0; i < ST.NumFields(); i++ {
			if !changed[i] {
				continue
			}
			f := ST.Field(i)
			v := App("hdr."+f.Name(), f.Type(), ks...)
			if alt != nil {
				dim := func(t *Term, bad string) *Term { return Ite(okA, sub(t), App("hdr.bad."+bad, tInt, ks...)) }
				switch f.Name() {
				case "Px":
					v = dim(alt.px, "px")
				case "Py":
					v = dim(alt.py, "py")
				case "Dx":
					v = dim(alt.dx, "dx")
				case "Dy":
					v = dim(alt.dy, "dy")
				}
			}
			o, path := en.address(args[0], CT)
			st = en.store(st, Ptr(o, append(append([]*Term{}, path...), Field(i))...), v, f.Type())
		}
		if s, ok := en.streamOf(st, args[1]); ok {
			pos := en.streamPos(st, s)
			en.hdrPos = append(en.hdrPos, pos)
			st = en.setPos(st, s, Add(pos, App("until.len", tInt, s.B, pos, App("hdr.delim", tInt, ks...))))
		}
		res := Ite(okA, Nil, App("newerr:hdr", tErr, ks...))
		if alt != nil {
			for _, f := range h.dimFacts(alt) {
				m := map[*Term]*Term{}
				for _, d := range []*Term{alt.px, alt.py, alt.dx, alt.dy} {
					if !d.isNum() {
						m[d] = sub(d)
					}
				}
				st = st.with(And(st.g, Implies(okA, substT(f, m))))
			}
		}
		return res, st
	}
}

// dataView is the analysis of NewComposite for one shape of headers.
type dataView struct {
	*Drv
	fn   *ssa.Function
	alt  *dimAlt
	rd   *Term // the reader passed in
	comp *Term
	err  *Term
	B    *Term // bytes of the stream
	p0   *Term // stream position at the start
	P    *Term // position of the first data byte
	ret  *Term // guard: returned
	ok   *Term // guard: returned without error or with the unknown unit error
	unk  *Term // the unknown unit error
	name string
}

func (c *Ctx) data() []*dataView {
	if c.dv != nil {
		return c.dv
	}
	h := c.header()
	alts := h.dims()
	if len(alts) == 0 || len(alts) > 12 {
		fail("the header yields %d shapes of dimensions", len(alts))
	}
	for i := range alts {
		c.dv = append(c.dv, c.dataOf(&alts[i]))
	}
	return c.dv
}

func (c *Ctx) dataOf(alt *dimAlt, paths ...string) *dataView {
	en := c.engine(append([]string{libPath}, paths...)...)
	c.cutHeader(en, alt)
	v := &dataView{Drv: c.drv(en), fn: c.lib("NewComposite"), alt: alt}
	v.name = fmt.Sprintf("%s x %s in layers of %s x %s", dimName(alt.px), dimName(alt.py), dimName(alt.dx), dimName(alt.dy))
	v.rd = en.arg("rd", v.fn.Params[0].Type())
	s, ok := en.streamOf(v.st, v.rd)
	if !ok {
		fail("the reader of NewComposite is not recognised as a stream")
	}
	v.B, v.p0 = s.B, en.streamPos(v.st, s)
	res := v.call(v.fn, v.rd)
	if en.cutHit[hdrFn] == 0 {
		fail("NewComposite does not call parseHeader")
	}
	if res.Op != OpTuple || len(res.A) != 2 {
		fail("NewComposite has an unexpected result")
	}
	v.comp, v.err = res.A[0], res.A[1]
	v.ret = v.st.g
	g := c.r.lib.Members["ErrUnknownUnit"]
	if g == nil {
		fail("ErrUnknownUnit not found")
	}
	v.unk = v.load(v.st, en.globalPtr(g.(*ssa.Global)), tErr)
	v.ok = And(v.ret, Or(IsNilT(v.err), Eq(v.err, v.unk)))
	// what leaving the row loops means
	v.ok = And(v.ok, en.exitFacts(v.ok))
	v.P = Add(v.p0, App("until.len", tInt, v.B, v.p0, App("hdr.delim", tInt)))
	return v
}

func dimName(t *Term) string {
	if t.isNum() {
		return t.String()
	}
	return "any"
}
