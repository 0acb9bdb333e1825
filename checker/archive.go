package main

// Archive analysis: NewComposites with the parse of one entry cut out. The
// functions that start the parse of one composite (the callers of the header
// parser) are replaced by an arbitrary outcome.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type archView struct {
	*Drv
	fn  *ssa.Function
	rd  *Term
	cs  *Term
	err *Term
	ret *Term
	cut *ssa.Function
}

// parseFn is the function that parses one composite for fn: the nearest callee
// of fn from which the header parser is called.
func (c *Ctx) parseFn(fn *ssa.Function) *ssa.Function {
	h := c.lib("Composite.parseHeader")
	reach := map[*ssa.Function]bool{}
	var reaches func(f *ssa.Function, busy map[*ssa.Function]bool) bool
	reaches = func(f *ssa.Function, busy map[*ssa.Function]bool) bool {
		if f == h {
			return true
		}
		if r, ok := reach[f]; ok {
			return r
		}
		if busy[f] {
			return false
		}
		busy[f] = true
		r := false
		for _, g := range callees(f) {
			if reaches(g, busy) {
				r = true
			}
		}
		reach[f] = r
		return r
	}
	entry := c.lib("NewComposite")
	// prefer NewComposite itself when it is used
	var find func(f *ssa.Function, busy map[*ssa.Function]bool) *ssa.Function
	find = func(f *ssa.Function, busy map[*ssa.Function]bool) *ssa.Function {
		if busy[f] {
			return nil
		}
		busy[f] = true
		var last *ssa.Function
		for _, g := range callees(f) {
			if g == entry {
				return g
			}
		}
		for _, g := range callees(f) {
			if g == h {
				return f
			}
			if reaches(g, map[*ssa.Function]bool{}) {
				if r := find(g, busy); r != nil {
					last = r
				}
			}
		}
		return last
	}
	return find(fn, map[*ssa.Function]bool{})
}

// callees are the repository functions statically called or referenced by f.
func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (c *Ctx) archive() *archView {
	if c.av != nil {
		return c.av
	}
	en := c.libEngine()
	v := &archView{Drv: c.drv(en), fn: c.lib("NewComposites")}
	v.rd = en.arg("rd", v.fn.Params[0].Type())
	v.cut = c.parseFn(v.fn)
	if v.cut == nil || v.cut == v.fn {
		fail("NewComposites does not use a function that parses one composite")
	}
	c.cutParse(en, v.cut)
	res := v.call(v.fn, v.rd)
	if en.cutHit[v.cut.String()] == 0 {
		fail("NewComposites does not call %s", v.cut)
	}
	if res.Op != OpTuple || len(res.A) != 2 {
		fail("NewComposites has an unexpected result")
	}
	v.cs, v.err = res.A[0], res.A[1]
	v.ret = v.st.g
	c.av = v
	return v
}

// cutParse replaces the parse of one composite by an arbitrary outcome: success,
// success with an unknown unit, or failure.
func (c *Ctx) cutParse(en *Engine, fn *ssa.Function) {
	CT := c.typ(c.r.lib, "Composite")
	unk := c.global(c.r.lib, "ErrUnknownUnit")
	en.cuts[fn.String()] = func(fr *Frame, st State, in ssa.Instruction, args []*Term) (*Term, State) {
		ks := fr.ks()
		okP, unkP := App("parse.ok", tBool, ks...), App("parse.unk", tBool, ks...)
		ptr := func(tag string) *Term {
			v := expandStruct(CT, App("parsed."+tag, CT, ks...))
			return fr.newObjNamed("a:parsed."+tag+fr.uniq("", in), CT, v, &st)
		}
		var out []*Term
		var from *Term
		for _, a := range args {
			if s, ok := en.streamOf(st, a); ok && a.Op != OpNil && isReader(a, fn, args) {
				pos := en.streamPos(st, s)
				from = App("at", nil, s.B, pos)
				st = en.setPos(st, s, Add(pos, App("parse.len", tInt, ks...)))
			} else if a.Op == OpPtr && types.Identical(en.objType[a.A[0]], CT) && len(a.A) == 1+len(ks) {
				st = en.store(st, a, expandStruct(CT, App("parsed.recv", CT, ks...)), CT)
			}
		}
		if from == nil {
			en.warn("the parse of an archive entry does not take a stream")
			from = Zero
		}
		sig := fn.Signature
		for i := 0; i < sig.Results().Len(); i++ {
			T := sig.Results().At(i).Type()
			switch {
			case types.Identical(T, tErr):
				u := en.load(st, en.globalPtr(unk), tErr)
				out = append(out, Ite(okP, Nil, Ite(unkP, u, App("newerr:parse", tErr, ks...))))
			case types.Identical(T, types.NewPointer(CT)):
				out = append(out, Ite(Or(okP, unkP), ptr("comp"), Ite(App("parse.some", tBool, ks...), ptr("bad"), Nil)))
			case types.Identical(T, CT):
				out = append(out, expandStruct(CT, App("parsed.comp", CT, ks...)))
			default:
				out = append(out, App("parse.res", T, ks...))
			}
		}
		en.event(fr, &Event{Kind: "parse", Guard: st.g, Instr: in, Args: []*Term{from}, Mem: st.mem})
		switch len(out) {
		case 0:
			return Nil, st
		case 1:
			return out[0], st
		}
		return Tuple(out...), st
	}
}

// isReader: the argument's parameter is a stream (an interface with Read, or a reader pointer).
func isReader(a *Term, fn *ssa.Function, args []*Term) bool {
	for i, x := range args {
		if x == a && i < len(fn.Params) {
			T := fn.Params[i].Type()
			ms := types.NewMethodSet(T)
			for j := 0; j < ms.Len(); j++ {
				if ms.At(j).Obj().Name() == "Read" {
					return true
				}
			}
		}
	}
	return false
}
