package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hdrNorm is the header analysis with the header text and the field map named.
type hdrNorm struct {
	*hdrView
	H, M  *Term // header text (including terminator), field map
	Mraw  *Term
	okN   *Term // success, in terms of H and M
	resN  *Term
	final *Term
	sub   map[*Term]*Term
}

func isMapRead(x *Term) bool { return x.app("mapget") || x.app("maphas") }

func (c *Ctx) headerNorm() *hdrNorm {
	h := c.header()
	n := &hdrNorm{hdrView: h}
	CT := c.typ(c.r.lib, "Composite")
	raw := App("until", tStr, h.B, h.p0, Num(3))
	maps := map[*Term]bool{}
	final := h.load(h.st, h.comp, CT)
	for _, t := range append([]*Term{h.res, h.st.g, final}) {
		for _, m := range collect(t, isMapRead) {
			if m.A[0].Op != OpMap {
				maps[m.A[0]] = true
			}
		}
	}
	if len(maps) != 1 {
		fail("the header analysis reads %d field maps, expected one", len(maps))
	}
	for m := range maps {
		n.Mraw = m
	}
	n.H = Sym("H", tStr)
	n.M = Sym("M", nil)
	// header text and map become names, length and error stay related terms
	n.sub = map[*Term]*Term{n.Mraw: n.M, raw: n.H}
	for i := int64(0); i < 24; i++ { // its single characters as well
		n.sub[App("sel", tByte, raw, Num(i))] = App("sel", tByte, n.H, Num(i))
	}
	n.okN = n.norm(h.ok)
	n.resN = n.norm(h.res)
	n.final = n.norm(final)
	return n
}

func (n *hdrNorm) norm(t *Term) *Term {
	t = substT(t, map[*Term]*Term{n.Mraw: n.M})
	return substT(t, n.sub)
}

func (n *hdrNorm) fld(name string) *Term {
	CT := n.c.typ(n.c.r.lib, "Composite")
	return deepRestrict(fieldOf(CT, n.final, fieldIndex(CT, name)), n.okN)
}
func (n *hdrNorm) ftype(name string) types.Type {
	CT := n.c.typ(n.c.r.lib, "Composite")
	return CT.Underlying().(*types.Struct).Field(fieldIndex(CT, name)).Type()
}

func (n *hdrNorm) has(k string) *Term { return App("maphas", tBool, n.M, Str(k)) }
func (n *hdrNorm) get(k string) *Term { return App("mapget", tStr, n.M, Str(k), Str("")) }
func scanned(s *Term, f string, i int, T types.Type) *Term {
	return App("scan."+string(rune('0'+i)), T, s, Str(f))
}
func scanErr(s *Term, f string) *Term { return App("sscanerr", tErr, s, Str(f)) }

// levelText is the column of level k in the LV field.
func levelText(lv, k *Term) *Term {
	return substrL(lv, Add(Num(2), Mul(Num(5), k)), Add(Num(7), Mul(Num(5), k)))
}

func (n *hdrNorm) product() *Term { return substrL(n.H, Zero, Num(2)) }

// obviously positions
func (n *hdrNorm) at() string { return n.c.fpos(n.fn) }

var W14 = []string{"W1", "W2", "W3", "W4"}

const minute = 60000000000

func captureArgs(n *hdrNorm) []*Term {
	return []*Term{Str("0215040106"), concatL(substrL(n.H, Num(2), Num(8)), substrL(n.H, Num(13), Num(17)))}
}

func init() {
	register("C16", "proof", "value analysis of parseHeader: product, capture time, forecast time and interval are expression-equal to the specified functions of the header text and its fields on every successful path", func(c *Ctx) {
		n := c.headerNorm()
		P := n.product()
		n.eq(n.okN, n.fld("Product"), P, "value equality", "Product is the first two header characters", n.at())
		CT := App("timeparse", n.ftype("CaptureTime"), captureArgs(n)...)
		n.eq(n.okN, n.fld("CaptureTime"), CT, "value equality", "CaptureTime is read from characters 3-8 and 14-17 as day hour minute month year in UTC", n.at())
		vv := scanned(n.get("VV"), "%d", 0, tInt)
		fc := Ite(n.has("VV"), App("timeadd", n.ftype("ForecastTime"), CT, Mul(Num(minute), vv)), CT)
		n.eq(n.okN, n.fld("ForecastTime"), fc, "value equality", "ForecastTime is CaptureTime plus VV minutes", n.at())
		iv := Mul(Num(minute), scanned(n.get("INT"), "%d", 0, tInt))
		w := False
		for _, p := range W14 {
			w = Or(w, Eq(P, Str(p)))
		}
		n.eq(n.okN, n.fld("Interval"), Ite(n.has("INT"), Ite(w, Mul(Num(10), iv), iv), Zero), "value equality", "Interval is INT minutes, ten times that for W1-W4", n.at())
		c.hdrKept("Product", "CaptureTime", "ForecastTime", "Interval")
	})
	register("C17", "proof", "value analysis of parseHeader: plain and layer dimensions equal the GP, BG or catalogue values, rows first, on every successful path; a product missing in the catalogue is refused", func(c *Ctx) {
		n := c.headerNorm()
		gp, bg := n.get("GP"), n.get("BG")
		dim := func(i int) *Term {
			return Ite(n.has("GP"), scanned(gp, "%dx%d", i, tInt), scanned(bg, "%3d%3d", i, tInt))
		}
		g := And(n.okN, Or(n.has("GP"), n.has("BG")))
		for _, f := range []struct {
			name string
			i    int
		}{{"Dy", 0}, {"Py", 0}, {"Dx", 1}, {"Px", 1}} {
			n.eq(g, n.fld(f.name), dim(f.i), "value equality", f.name+" comes from GP, or else BG, rows before columns", n.at())
		}
		local := AndN(n.okN, Not(n.has("GP")), Not(n.has("BG")))
		c.eachProduct(n, local, "refused", func(code string) *Term {
			if _, ok := localCatalog[code]; ok {
				return nil
			}
			return True
		}, Not(n.okN), And(Not(n.has("GP")), Not(n.has("BG"))))
		for _, f := range []string{"Px", "Py", "Dx", "Dy"} {
			f := f
			c.eachProduct(n, local, f, func(code string) *Term {
				if s, ok := localCatalog[code]; ok {
					return Num(s[f])
				}
				return nil
			}, n.fld(f), local)
		}
		c.hdrKept("Px", "Py", "Dx", "Dy")
	})
	register("C18", "proof", "value analysis of parseHeader: precision, level table, version and data length are expression-equal to the specified functions of the header fields on every successful path", func(c *Ctx) {
		n := c.headerNorm()
		n.eq(n.okN, n.fld("precision"), Ite(n.has("E"), scanned(n.get("E"), "%d", 0, tInt), Zero), "value equality", "precision is the E field, zero without it", n.at())
		n.eq(n.okN, n.fld("Format"), Ite(n.has("VS"), scanned(n.get("VS"), "%d", 0, tInt), Zero), "value equality", "Format is the VS field", n.at())
		hl := App("until.len", tInt, n.B, n.p0, Num(3))
		n.eq(n.okN, n.fld("dataLength"), Sub(scanned(n.get("BY"), "%d", 0, tInt), hl), "value equality", "dataLength is BY minus the header including its terminator", n.at())
		// level table
		lv := n.get("LV")
		cnt := scanned(substrL(lv, Zero, Num(2)), "%d", 0, tInt)
		level := n.fld("level")
		n.eq(n.okN, IsNilT(level), Not(n.has("LV")), "value equality", "there is a level table exactly if there is an LV field", n.at())
		g := And(n.okN, n.has("LV"))
		n.eq(g, Max0(Len(level)), Max0(cnt), "value equality", "the level table has as many entries as the LV count", n.at())
		k := Sym("k@b.any", tInt)
		gk := AndN(g, Ge0(k), Lt(k, cnt), Ge0(cnt), n.norm(n.exitFacts(n.hdrView.ok, k)))
		f32 := types.Typ[types.Float32]
		raw := n.hdrView.get(n.comp, "level")
		got := n.norm(n.at1(raw, k, f32))
		want := scanned(levelText(lv, k), "%f", 0, f32)
		n.eq(gk, got, want, "value equality", "level k is the number in characters 2+5k to 7+5k of the LV field", n.at())
		c.hdrKept("precision", "Format", "dataLength", "level")
	})
	register("C20", "proof", "value analysis of parseHeader and NewComposite: the guard of every successful return implies each well-formedness condition", func(c *Ctx) {
		n := c.headerNorm()
		need := func(what string, cond *Term) {
			n.unsat(And(n.okN, Not(cond)), "success implies a well-formed header", what, n.at(), "a successful return is reachable when %s")
		}
		need("the terminator is present", IsNilT(App("until.err", tErr, n.B, n.p0, Num(3))))
		need("the header has at least 22 bytes", Ge(App("until.len", tInt, n.B, n.p0, Num(3)), Num(22)))
		need("the length field is present and parses", IsNilT(scanErr(n.get("BY"), "%d")))
		need("the capture time parses", IsNilT(App("timeparseerr", tErr, captureArgs(n)...)))
		field := func(k, f string) {
			need("a present "+k+" field parses", Implies(n.has(k), IsNilT(scanErr(n.get(k), f))))
		}
		field("VV", "%d")
		field("INT", "%d")
		field("GP", "%dx%d")
		need("a BG field used for the dimensions parses", Implies(And(n.has("BG"), Not(n.has("GP"))), IsNilT(scanErr(n.get("BG"), "%3d%3d"))))
		field("E", "%d")
		field("VS", "%d")
		lv := n.get("LV")
		cs := scanErr(substrL(lv, Zero, Num(2)), "%d")
		cnt := scanned(substrL(lv, Zero, Num(2)), "%d", 0, tInt)
		need("the level count parses", Implies(n.has("LV"), IsNilT(cs)))
		k := Sym("k@b.any", tInt)
		gk := AndN(Ge0(k), Lt(k, cnt), Ge0(cnt), n.norm(n.exitFacts(n.hdrView.ok, k)))
		need("every level value parses", Not(AndN(n.has("LV"), gk, Not(IsNilT(scanErr(levelText(lv, k), "%f"))))))
		need("the level field is as long as its count demands", Implies(n.has("LV"), EqInt(Len(lv), Add(Num(2), Mul(Num(5), cnt)))))
		c.positiveDims(n)
	})
	register("C21", "proof", "value analysis of parseHeader: the unit of every two-byte product code, decided by substituting each code into the computed unit", func(c *Ctx) {
		n := c.headerNorm()
		U := func(name string) *Term { return c.constant(c.r.lib, "Unit_"+name) }
		c.eachProduct(n, n.okN, "unit", func(code string) *Term {
			if u, ok := publishedUnits[code]; ok {
				return U(u)
			}
			return U("unknown")
		}, n.fld("DataUnit"), n.okN)
		c.hdrKept("DataUnit")
	})
}

// at1 reads an element of a slice in the state after the header.
func (n *hdrNorm) at1(s, i *Term, ET types.Type) *Term { return n.hdrView.at(s, i, ET) }

func (c *Ctx) constant(p *ssa.Package, name string) *Term {
	k, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		fail("constant %s not found", name)
	}
	return constTerm(k.Value)
}

// eachProduct substitutes product codes into got and compares with want(code).
// Product codes are enumerated completely where the value distinguishes them.
func (c *Ctx) eachProduct(n *hdrNorm, g *Term, what string, want func(code string) *Term, got, under *Term) {
	P := n.product()
	got = deepRestrict(got, under)
	consts := map[string]bool{}
	for k := range publishedUnits {
		consts[k] = true
	}
	for k := range localCatalog {
		consts[k] = true
	}
	exact := true
	// the value must consult the product only by comparing it with constants
	marker := Sym("P", tStr)
	for _, t := range collect(substT(got, map[*Term]*Term{P: marker}), func(x *Term) bool {
		for _, a := range x.A {
			if a == marker {
				return true
			}
		}
		return false
	}) {
		switch {
		case t.app("eqv"):
			for _, a := range t.A {
				if a.Op == OpStr {
					consts[a.S] = true
				} else if a != marker {
					exact = false
				}
			}
		case (t.app("mapget") || t.app("maphas")) && t.A[0].Op == OpMap:
			for i := 0; i < len(t.A[0].A); i += 2 {
				if t.A[0].A[i].Op == OpStr {
					consts[t.A[0].A[i].S] = true
				} else {
					exact = false
				}
			}
		default:
			exact = false
		}
	}
	var codes []string
	if exact {
		for k := range consts {
			if len(k) == 2 {
				codes = append(codes, k)
			}
		}
		codes = append(codes, "\x00\x00") // stands for every other code
	} else {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				codes = append(codes, string([]byte{byte(a), byte(b)}))
			}
		}
	}
	sort.Strings(codes)
	for _, code := range codes {
		w := want(code)
		if w == nil {
			continue
		}
		m := map[*Term]*Term{P: Str(code)}
		v := substT(got, m)
		u := substT(under, m)
		if u == False {
			continue
		}
		name := code
		if code == "\x00\x00" {
			name = "any other code"
		}
		// characters of the product also occur in other header positions only via H
		n.eq(u, v, w, "value for a product code", what+" of "+name, n.at())
	}
}

// firstCube describes one way to satisfy a guard.
func firstCube(g *Term) string {
	var cs []string
	for i := 0; i < 60 && g.Op == OpIte; i++ {
		if g.A[1] != False {
			cs = append(cs, show(g.A[0], 6))
			g = g.A[1]
		} else {
			cs = append(cs, "not "+show(g.A[0], 6))
			g = g.A[2]
		}
	}
	if g == False {
		return "never"
	}
	if len(cs) > 14 {
		cs = append([]string{"..."}, cs[len(cs)-14:]...)
	}
	return strings.Join(cs, " and ")
}

var localCatalog = func() map[string]map[string]int64 {
	m := map[string]map[string]int64{}
	for _, s := range strings.Fields("OL:2 OX:1 PD:1 PE:2 PF:1 PH:1 PL:2 PM:2 PR:1 PU:1 PV:1 PX:1 PY:1 PZ:2") {
		code, r := s[:2], int64(s[3]-'0')
		py := int64(224)
		if code == "PU" || code == "PZ" {
			py = 2400
		}
		m[code] = map[string]int64{"Px": 200, "Py": py, "Dx": 200, "Dy": 200, "Rx": r, "Ry": r}
	}
	return m
}()

var publishedUnits = func() map[string]string {
	m := map[string]string{}
	add := func(u, s string) {
		for _, c := range strings.Fields(s) {
			m[c] = u
		}
	}
	add("dBZ", "CX EA EX FX FZ HX OL OX PA PC PF PG PI PK PL PM PN PX PZ RX TX WN WX")
	add("mm", "CH D2 D3 EB EC EH EM EW EY EZ PH PY RA RB RE RH RK RL RM RN RQ RR RU RW RY RZ S2 S3 SF SH SQ TB TH TW TZ W1 W2 W3 W4 YW")
	add("km", "PE")
	add("mps", "PD PR PU PV")
	return m
}()

// isRepo tells whether a function belongs to the analysed repository.
func (r *Repo) isRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg == r.lib || f.Pkg == r.vis || f.Pkg == r.cmd
		}
	}
	return false
}

func init() {
	register("C19", "proof", "abstract interpretation of the header scanner over an arbitrary header, alongside a reference scanner: on every path every key and value stored is the next one the reference has recognised, nothing else is stored and nothing is missing at the return; the text scanned is the header without its terminator", func(c *Ctx) {
		h := c.header()
		// the function below parseHeader in which the field map is filled
		var top *ssa.Function
		for _, e := range h.events {
			if e.Kind != "mapupdate" || e.Fn == nil || len(e.Stack) == 0 {
				continue
			}
			var at *ssa.Function
			for f := range h.fns {
				for i, s := range e.Stack {
					if f.String() == s && i+1 < len(e.Stack) && e.Stack[i+1] == h.fn.String() {
						at = f
					}
				}
			}
			if at == nil {
				fail("fields are stored in %s itself, outside a scanning function", h.fn)
			}
			if top != nil && top != at {
				fail("fields are stored by several functions")
			}
			top = at
		}
		if top == nil {
			fail("no field map is filled")
		}
		c.scanCheck(top)
		// what is scanned
		en := c.libEngine()
		n := 0
		raw := App("until", tStr, h.B, h.p0, Num(3))
		want := substrL(raw, Zero, Sub(Len(raw), One))
		en.cuts[top.String()] = func(fr *Frame, st State, in ssa.Instruction, args []*Term) (*Term, State) {
			n++
			for i, a := range args {
				if isMap(top.Params[i].Type()) {
					continue
				}
				var scanned func(g, t *Term) bool
				scanned = func(g, t *Term) bool {
					if g == False || same(g, t, want) {
						return true
					}
					if t.Op == OpIte {
						return scanned(And(g, typed(t.A[0])), t.A[1]) && scanned(And(g, Not(typed(t.A[0]))), t.A[2])
					}
					out, _ := en.infeasible(g)
					return out
				}
				c.ok(scanned(st.g, a), "the header without its terminator is scanned", "call of "+fnName(top), c.pos(instrPos(in)), "it scans %s", show(a, 8))
				short, w := en.infeasible(And(st.g, Lt(Len(a), Num(minHeader))))
				c.ok(short, "the scanned text is not empty", "call of "+fnName(top), c.pos(instrPos(in)), "it is shorter than %d when %s", minHeader, w)
			}
			return App("fields", resultType(top.Signature)), st
		}
		c.headerOn(en)
		if n == 0 {
			fail("the call of %s was not found", top)
		}
	})
}
