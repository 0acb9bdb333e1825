package main

// Acceptance: parsing fails only for one of the specified reasons.

import "go/types"

// sizeAccepted is an image width and height that must not be refused.
const sizeAccepted = 4096

// exitPoints lists the substitutions that put the loops ls (outermost first)
// at the iterations in which they are left early, with the condition of that.
func (en *Engine) exitPoints(ls []*Loop, f func(m map[*Term]*Term, g *Term)) {
	var rec func(i int, m map[*Term]*Term, g *Term)
	rec = func(i int, m map[*Term]*Term, g *Term) {
		if g == False {
			return
		}
		if i == len(ls) {
			f(m, g)
			return
		}
		l := ls[i]
		for _, x := range l.Exits {
			if x.Counting {
				continue
			}
			at := substT(x.At, m)
			m2 := map[*Term]*Term{l.K: at}
			for k, v := range m {
				m2[k] = v
			}
			rec(i+1, m2, AndN(g, substT(x.Guard, m), Ge0(at), substT(x.G, m2)))
		}
	}
	rec(0, map[*Term]*Term{}, True)
}

// readFailures is the condition that one of the executed stream operations of
// the engine failed (inside loops: the one that ended the loop).
func (c *Ctx) readFailures(en *Engine) *Term {
	out := False
	for _, r := range c.reads(en) {
		if r.err == nil {
			continue
		}
		bad := And(r.Guard, Not(IsNilT(r.err)))
		if len(r.Loops) == 0 {
			out = Or(out, bad)
			continue
		}
		en.exitPoints(r.Loops, func(m map[*Term]*Term, g *Term) {
			out = Or(out, And(g, substT(bad, m)))
		})
	}
	return out
}

func init() {
	register("C40", "proof", "value analysis of parseHeader and NewComposite: the condition of returning an error, minus the specified reasons for one, is infeasible", func(c *Ctx) {
		n := c.headerNorm()
		scanFails := func(k, f string) *Term { return And(n.has(k), Not(IsNilT(scanErr(n.get(k), f)))) }
		lv := n.get("LV")
		cnt := scanned(substrL(lv, Zero, Num(2)), "%d", 0, tInt)
		P := n.product()
		local := False
		for k := range localCatalog {
			local = Or(local, Eq(P, Str(k)))
		}
		reasons := []*Term{
			Not(IsNilT(n.norm(App("until.err", tErr, n.B, n.p0, Num(3))))),
			Lt(App("until.len", tInt, n.B, n.p0, Num(3)), Num(22)),
			Not(n.has("BY")),
			scanFails("BY", "%d"), scanFails("VV", "%d"), scanFails("INT", "%d"), scanFails("E", "%d"), scanFails("VS", "%d"),
			scanFails("GP", "%dx%d"),
			And(Not(n.has("GP")), scanFails("BG", "%3d%3d")),
			AndN(Not(n.has("GP")), Not(n.has("BG")), Not(local)),
			Not(IsNilT(App("timeparseerr", tErr, captureArgs(n)...))),
			And(n.has("LV"), Lt(Len(lv), Num(2))),
			And(n.has("LV"), Not(IsNilT(scanErr(substrL(lv, Zero, Num(2)), "%d")))),
			And(n.has("LV"), Not(EqInt(Len(lv), Add(Num(2), Mul(Num(5), cnt))))),
		}
		small := func(k, f string) *Term {
			return AndN(n.has(k), IsNilT(scanErr(n.get(k), f)), Or(Lt(scanned(n.get(k), f, 0, tInt), One), Lt(scanned(n.get(k), f, 1, tInt), One)))
		}
		reasons = append(reasons, small("GP", "%dx%d"), And(Not(n.has("GP")), small("BG", "%3d%3d")))
		for _, l := range n.loops {
			n.exitPoints([]*Loop{l}, func(m map[*Term]*Term, g *Term) {
				at := n.norm(m[l.K])
				reasons = append(reasons, AndN(n.has("LV"), Lt(at, cnt), Not(IsNilT(scanErr(levelText(lv, at), "%f")))))
			})
		}
		bad := And(n.norm(n.hdrView.st.g), Not(IsNilT(n.resN)))
		bad = And(bad, n.norm(n.exitFacts(And(n.hdrView.st.g, Not(IsNilT(n.hdrView.res))))))
		for _, r := range reasons {
			bad = And(bad, Not(r))
		}
		n.unsat(bad, "headers are refused only for a specified reason", "parseHeader", n.at(), "a header is refused without such a reason when %s")
		c.eachPixel(func(p *pix) {
			v := p.dataView
			bad := AndN(v.ret, Not(v.ok), App("hdr.ok", tBool))
			big := Num(sizeAccepted)
			bad = AndN(bad, Ge(v.alt.px, One), Ge(v.alt.py, One), Ge(v.alt.dx, One), Ge(v.alt.dy, One), Le(v.alt.px, big), Le(v.alt.py, big))
			bad = And(bad, Not(c.readFailures(v.Engine)))
			at := c.fpos(v.fn)
			for _, e := range []struct {
				what string
				g    *Term
			}{{"two-byte", p.twoByte()}, {"one-byte", p.oneByte()}} {
				v.unsat(And(bad, e.g), "data is refused only for a specified reason", e.what+" data ("+v.name+")", at, "a complete image is refused when %s")
			}
			rl := And(bad, p.lvl)
			if v.alt.px.isNum() && p.lvl == False {
				return
			}
			r := p.runlength()
			malformed := False
			var ls []*Loop
			ls = append(ls, r.rows, r.bytes)
			v.exitPoints(ls, func(m map[*Term]*Term, g *Term) {
				s := func(t *Term) *Term { return substT(t, m) }
				hi := Bits(r.b, 4, 4)
				malformed = Or(malformed, And(g, s(AndN(Gt0(r.i), Or(
					And(r.off, Lt(r.b, Num(16))),
					AndN(Not(r.off), Gt0(hi), Lt(v.alt.px, Add(r.pos.Sym, hi))))))))
			})
			if r.pre != nil {
				v.exitPoints([]*Loop{r.rows, r.pre.Loop}, func(m map[*Term]*Term, g *Term) {
					malformed = Or(malformed, And(g, substT(Lt(r.pre.b, Num(16)), m)))
				})
			}
			v.unsat(And(rl, Not(malformed)), "data is refused only for a specified reason", "run-length data ("+v.name+")", at, "rows are refused without such a reason when %s")
		})
	})
}

var _ types.Type
