package main

import (
	"fmt"
	"go/types"
	"os"
)

// hdrKept: the data part leaves these header fields as parsed.
func (c *Ctx) hdrKept(fields ...string) {
	CT := c.typ(c.r.lib, "Composite")
	ST := CT.Underlying().(*types.Struct)
	for _, v := range c.data() {
		for _, f := range fields {
			want := App("hdr."+f, ST.Field(fieldIndex(CT, f)).Type())
			switch f {
			case "Px":
				want = v.alt.px
			case "Py":
				want = v.alt.py
			case "Dx":
				want = v.alt.dx
			case "Dy":
				want = v.alt.dy
			}
			v.eq(v.ok, v.get(v.comp, f), want, "header fields are not modified later", f+" of the returned composite ("+v.name+")", c.fpos(v.fn))
		}
	}
}

// positiveDims: success implies positive dimensions.
func (c *Ctx) positiveDims(n *hdrNorm) {
	for _, v := range c.data() {
		for _, d := range []struct {
			name string
			t    *Term
		}{{"Px", v.alt.px}, {"Py", v.alt.py}, {"Dx", v.alt.dx}, {"Dy", v.alt.dy}} {
			bad := And(v.ok, Lt(d.t, Num(1)))
			v.unsat(bad, "success implies a well-formed header", d.name+" is positive ("+v.name+")", c.fpos(v.fn), "a successful return is reachable when %s")
		}
	}
}

func dumpData(r *Repo) {
	c := &Ctx{r: r}
	for _, v := range c.data() {
		fmt.Println("VIEW", v.name, "warns", v.warns())
		ab := func(t *Term) *Term {
			return substT(deepRestrict(t, v.ok), map[*Term]*Term{v.B: Sym("B", nil)})
		}
		fmt.Println("ok", show(ab(v.ok), 20))
		CT := c.typ(c.r.lib, "Composite").Underlying().(*types.Struct)
		for i := 0; i < CT.NumFields(); i++ {
			fmt.Println("  FIELD", CT.Field(i).Name(), show(ab(v.get(v.comp, CT.Field(i).Name())), 20))
		}
	}
}

func dumpAt(r *Repo) {
	c := &Ctx{r: r}
	for _, v := range c.data() {
		x, y, z := Sym("x", tInt), Sym("y", tInt), Sym("z", tInt)
		ab := func(t *Term) *Term {
			return substT(deepRestrict(t, v.ok), map[*Term]*Term{v.B: Sym("B", nil), v.P: Sym("P", tInt)})
		}
		at := v.call(c.lib("Composite.AtZ"), v.comp, x, y, z)
		fmt.Println("VIEW", v.name)
		fmt.Println("AT", show(ab(at), 30))
		fmt.Println("P", show(v.P, 30))
		for _, l := range v.loops {
			fmt.Println(l.ID, l.Fn.Name(), "N", l.N, "cont", show(ab(l.ContG), 7))
			for _, x := range l.Carries {
				fmt.Println("      carry", x.Key, x.T, "solved", x.Solved != nil)
				if os.Getenv("CN") != "" {
					fmt.Println("        next", show(ab(x.Next), 9))
				}
			}
		}
	}
}

func dumpObs(r *Repo) {
	c := &Ctx{r: r}
	for _, v := range c.data() {
		x, y, z := Sym("x", tInt), Sym("y", tInt), Sym("z", tInt)
		v.call(c.lib("Composite.AtZ"), v.comp, x, y, z)
		fmt.Println("VIEW", v.name)
		n := 0
		for _, e := range v.events {
			if e.Kind == "ob" {
				n++
				if e.Unsafe != False {
					fmt.Println(" OB", e.Rule, v.pos(e.Pos), len(e.Loops), "\n     ", firstCube(substT(e.Unsafe, map[*Term]*Term{v.B: Sym("B", nil)})))
				}
			} else {
				switch e.Kind {
				case "call", "store":
				default:
					fmt.Println(" EV", e.Kind, e.Rule, v.pos(e.Pos), firstCube(e.Guard))
				}
			}
		}
		fmt.Println(n, "obligations")
	}
	h := c.header()
	for _, e := range h.events {
		if e.Kind == "ob" {
			if e.Unsafe != False {
				fmt.Println(" OB", e.Rule, h.pos(e.Pos), len(e.Loops), "\n     ", firstCube(e.Unsafe))
			}
		} else if e.Kind != "call" && e.Kind != "store" {
			fmt.Println(" EV", e.Kind, e.Rule, h.pos(e.Pos), firstCube(e.Guard))
		}
	}
}
