package main

// The colour scales. A scale is evaluated with its bounds and the data value in
// parametrised form, so that the position of the value between the bounds is a
// single variable; what remains is decided by interval evaluation.

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callVal calls a function value.
func (d *Drv) callVal(fn *Term, args ...*Term) *Term {
	d.n++
	var bind []*Term
	switch fn.Op {
	case OpFunc:
	case OpClosure:
		bind = fn.A
	default:
		fail("the function value is not known: %s", show(fn, 4))
	}
	res, st := d.callFn(nil, nil, fn.X.(*ssa.Function), bind, args, d.st, fmt.Sprintf("|d%d", d.n))
	d.st = st
	return res
}

// colorRun is a scale applied to one class of values.
type colorRun struct {
	scale, class string
	g            *Term // conditions on the parameters
	ch           [4]*Term
	v            *Term // variable of the class, nil if it has none
	lo, hi       float64
	exp          bool // pieces grow away from lo
	expect       string
	sign         int
	pos          string
	ref          func(p float64) [3]float64 // specified channels before rounding
}

type leafEval struct {
	ch   [4]iv
	rgb  [4]*Term
	why  string
	box  iv
	conv []string
}

// pieces cuts the range of the variable.
func (r *colorRun) pieces() []iv {
	if r.v == nil {
		return []iv{{}}
	}
	var ps []iv
	if !r.exp {
		const n = 64
		for i := 0; i < n; i++ {
			ps = append(ps, iv{lo: r.lo + (r.hi-r.lo)*float64(i)/n, hi: r.lo + (r.hi-r.lo)*float64(i+1)/n})
		}
		return ps
	}
	x := []float64{math.SmallestNonzeroFloat64}
	for e := -30; e <= 10; e++ {
		for i := 1; i < 10; i++ {
			x = append(x, float64(i)*math.Pow(10, float64(e)))
		}
	}
	x = append(x, 1e100, math.MaxFloat64)
	for i := 1; i < len(x); i++ {
		ps = append(ps, iv{lo: x[i-1], hi: x[i]}, iv{lo: -x[i], hi: -x[i-1]})
	}
	ps = append(ps, iv{})
	sort.Slice(ps, func(i, j int) bool { return ps[i].lo < ps[j].lo })
	return ps
}

// each evaluates the channels on every piece; cases joined by conditions the
// box does not decide are evaluated one by one. check reports what is wrong
// with a case ("" if nothing); a piece with a wrong case is cut further.
func (r *colorRun) each(check func(l *leafEval) string) (n int, bad string) {
	joint := lift(func(as []*Term) *Term { return appRaw("rgba", nil, as...) }, r.ch[0], r.ch[1], r.ch[2], r.ch[3])
	joint = deepRestrict(Ite(r.g, joint, NaNT), r.g)
	var piece func(p iv, depth int) string
	var boxed func(p iv, env map[*Term]iv, depth int) string
	boxed = func(p iv, env map[*Term]iv, depth int) string {
		n++
		e := &ivEval{env: env, memo: map[*Term]iv{}, jumps: map[*Term][2]iv{}}
		var convs []string
		e.conv = func(t *Term, x iv) {
			if !representable(t.T, x) {
				convs = append(convs, fmt.Sprintf("a number in %s is converted to %s", x, t.T))
			}
		}
		bad := ""
		cut := math.NaN() // where an undecided comparison changes its outcome
		var rec func(t *Term)
		rec = func(t *Term) {
			if bad != "" {
				return
			}
			if t.Op == OpIte {
				if c, ok := rootOf(t.A[0], r.v); ok && e.tri(t.A[0]) == 0 && c > p.lo && c < p.hi {
					cut = c
				}
				switch e.tri(t.A[0]) {
				case 1:
					rec(t.A[1])
				case -1:
					rec(t.A[2])
				default:
					rec(t.A[1])
					rec(t.A[2])
				}
				return
			}
			l := &leafEval{box: p}
			for i, a := range t.A {
				l.ch[i] = e.val(a)
				l.rgb[i] = a
			}
			l.conv = convs
			bad = check(l)
		}
		rec(joint)
		if bad != "" && depth < 4 && p.hi-p.lo < 1e-3 && !math.IsNaN(cut) {
			// both sides of a comparison on their own, up to rounding
			eps := 16 * (math.Nextafter(math.Abs(cut), math.Inf(1)) - math.Abs(cut))
			for _, q := range []iv{{lo: p.lo, hi: math.Max(p.lo, cut-eps)}, {lo: math.Min(p.hi, cut+eps), hi: p.hi}} {
				env2 := map[*Term]iv{}
				for k, v := range env {
					env2[k] = v
				}
				env2[r.v] = q
				if b := boxed(q, env2, depth+1); b != "" {
					return b
				}
			}
			return ""
		}
		if bad != "" && depth < 4 {
			// both sides of a jump on their own
			for t, alt := range e.jumps {
				for _, x := range alt {
					env2 := map[*Term]iv{t: x}
					for k, v := range env {
						env2[k] = v
					}
					if b := boxed(p, env2, depth+1); b != "" {
						return b
					}
				}
				return ""
			}
		}
		return bad
	}
	piece = func(p iv, depth int) string {
		env := map[*Term]iv{}
		if r.v != nil {
			env[r.v] = p
		}
		bad := boxed(p, env, 0)
		if bad == "" {
			return ""
		}
		if r.v != nil && depth < 12 && p.lo < p.hi {
			m := p.lo + (p.hi-p.lo)/2
			if p.lo > 0 && p.hi/p.lo > 4 || p.hi < 0 && p.lo/p.hi > 4 {
				m = math.Copysign(math.Sqrt(p.lo)*math.Sqrt(p.hi), p.lo)
				if p.hi < 0 {
					m = -math.Sqrt(-p.lo) * math.Sqrt(-p.hi)
				}
			}
			if m > p.lo && m < p.hi {
				if b := piece(iv{lo: p.lo, hi: m}, depth+1); b != "" {
					return b
				}
				return piece(iv{lo: m, hi: p.hi}, depth+1)
			}
		}
		if r.v != nil {
			bad += fmt.Sprintf(" (position %s)", p)
		}
		return bad
	}
	for _, p := range r.pieces() {
		if b := piece(p, 0); b != "" {
			return n, b
		}
	}
	return n, ""
}

// rootOf is the value of v at which a comparison of a number affine in v changes.
func rootOf(a, v *Term) (float64, bool) {
	if v == nil || a.Op != OpApp || len(a.A) != 1 || (a.S != "flt0" && a.S != "fle0") {
		return 0, false
	}
	var c0, c1 *big.Rat
	for _, m := range polyOf(a.A[0]) {
		switch {
		case len(m.F) == 0:
			c0 = m.C
		case len(m.F) == 1 && m.F[0].T == v && m.F[0].E == 1:
			c1 = m.C
		default:
			return 0, false
		}
	}
	if c0 == nil || c1 == nil {
		return 0, false
	}
	x, _ := new(big.Rat).Neg(new(big.Rat).Quo(c0, c1)).Float64()
	return x, true
}

func (l *leafEval) black() string {
	for i, want := range []float64{0, 0, 0, 255} {
		if !l.ch[i].point() || l.ch[i].lo != want {
			return "the colour is " + l.show()
		}
	}
	return ""
}

func (l *leafEval) show() string {
	return fmt.Sprintf("R %s G %s B %s A %s", l.ch[0], l.ch[1], l.ch[2], l.ch[3])
}

type colorCase struct {
	class  string
	val    *Term
	v      *Term
	lo, hi float64
	expect string // black, top, ""
	sign   int
	ref    func(p float64) [3]float64
	g      *Term // further conditions
}

// colorRuns evaluates the scales of the package for all bounds and values.
func (c *Ctx) colorRuns() (runs []*colorRun) {
	en := c.engine(visPath)
	RT := c.rgba()
	fin := func(n string) *Term { return Sym("fin."+n, tFloat) }
	m, span, k, t := fin("min"), Exp(fin("span")), Exp(fin("k")), fin("t")
	run := func(name, pos string, g *Term, scale *Term, d *Drv, cs []colorCase) {
		for _, cc := range cs {
			n := len(d.events)
			st := d.st
			res := d.callVal(scale, cc.val)
			r := &colorRun{scale: name, class: cc.class, g: And(g, d.st.g), v: cc.v, lo: cc.lo, hi: cc.hi, expect: cc.expect, sign: cc.sign, pos: pos, ref: cc.ref}
			if cc.g != nil {
				r.g = And(r.g, cc.g)
			}
			for i := 0; i < 4; i++ {
				r.ch[i] = lift1(func(s *Term) *Term { return fieldOf(RT, s, i) }, res)
			}
			runs = append(runs, r)
			c.safe(d.Engine, n, name+" of "+cc.class, nil)
			c.ok(d.st.g == st.g, "total function", name+" of "+cc.class, pos, "the colour function does not return when %s", firstCube(And(st.g, Not(d.st.g))))
			d.st = st
		}
	}
	comp := map[string]*ssa.Function{"no": c.need(c.r.vis, "Id"), "logarithmic": c.need(c.r.vis, "Log")}
	for _, cn := range []string{"no", "logarithmic"} {
		embed := func(x *Term) *Term { return x }
		if cn == "logarithmic" {
			embed = Exp
		}
		cases := []colorCase{
			{class: "no data", val: NaNT, expect: "black"},
			{class: "-Inf", val: InfN, expect: "black"},
			{class: "values below the minimum", val: embed(Sub(m, k)), expect: "black"},
			{class: "values from the minimum to the maximum", val: embed(Add(m, Mul(t, span))), v: t, hi: 1},
			{class: "the maximum", val: embed(Add(m, span)), expect: "top"},
			{class: "values above the maximum", val: embed(Add(m, Mul(Add(One, k), span))), expect: "top"},
			{class: "+Inf", val: InfP, expect: "top"},
		}
		if cn == "logarithmic" {
			cases = append(cases, colorCase{class: "zero", val: Zero, expect: "black"}, colorCase{class: "negative values", val: Neg(k), expect: "black"})
		}
		for _, fname := range []string{"Graymap", "Heatmap"} {
			d := c.drv(en)
			f := c.need(c.r.vis, fname)
			scale := d.call(f, embed(m), embed(Add(m, span)), FuncT(comp[cn]))
			cs := append([]colorCase{}, cases...)
			cs[3].ref = map[string]func(float64) [3]float64{"Graymap": grayRef, "Heatmap": heatRef}[fname]
			run(fname+" with "+cn+" compression", c.fpos(f), d.st.g, scale, d, cs)
		}
		// radial maps: B is the larger magnitude of the bounds
		u := Exp(fin("bound")) // the larger bound is above 1
		B := Exp(u)
		r, q := fin("nn.ratio"), fin("pos.q")
		at := func(q *Term) *Term { return Mul(B, q) }
		beyond := Exp(Add(u, k))
		if cn == "logarithmic" {
			at = func(q *Term) *Term { return Exp(Mul(u, q)) }
			beyond = at(Add(One, k))
		}
		if cn == "no" {
			// any larger bound, for the channels only
			d := c.drv(en)
			f := c.need(c.r.vis, "Radialmap")
			b := Exp(fin("bound"))
			scale := d.call(f, Neg(b), b, FuncT(comp[cn]))
			var cases []colorCase
			for _, sg := range []*Term{One, Num(-1)} {
				cases = append(cases,
					colorCase{class: "magnitudes up to any larger bound", val: Mul(sg, Mul(b, q)), v: q, hi: 1},
					colorCase{class: "magnitudes beyond any larger bound", val: Mul(sg, Mul(b, Exp(Exp(k))))})
			}
			run("Radialmap with no compression", c.fpos(f), d.st.g, scale, d, cases)
		}
		for i, b := range [][2]*Term{{Neg(B), B}, {Mul(Neg(r), B), B}, {Mul(r, B), B}, {Neg(B), Mul(r, B)}, {Neg(B), Mul(Neg(r), B)}} {
			d := c.drv(en)
			g := True
			if i > 0 {
				g = FLt0(Sub(r, One))
			}
			f := c.need(c.r.vis, "Radialmap")
			d.st = d.st.with(And(d.st.g, g))
			scale := d.call(f, b[0], b[1], FuncT(comp[cn]))
			cases := []colorCase{
				{class: "no data", val: NaNT, expect: "black"},
				{class: "zero", val: Zero, ref: tint(1)},
			}
			for s, sn := range map[int64]string{1: "positive", -1: "negative"} {
				sg := Num(s)
				cases = append(cases,
					colorCase{class: sn + " values up to the larger bound", val: Mul(sg, at(q)), v: q, hi: 1, sign: int(s)},
					colorCase{class: sn + " values above one up to the larger bound", val: Mul(sg, at(q)), v: q, hi: 1, sign: int(s), g: FLt0(Sub(One, at(q))), ref: radialRef(int(s))},
					colorCase{class: sn + " values of magnitude below one", val: Mul(sg, Exp(Neg(Exp(fin("k2"))))), sign: int(s), ref: tint(int(s))},
					colorCase{class: sn + " value of magnitude one", val: sg, sign: int(s), ref: tint(int(s))},
					colorCase{class: "the larger bound on the " + sn + " side", val: Mul(sg, at(One)), expect: "top", sign: int(s)},
					colorCase{class: sn + " values beyond the larger bound", val: Mul(sg, beyond), expect: "top", sign: int(s)},
					colorCase{class: sn + " infinity", val: NumF(math.Inf(int(s))), expect: "top", sign: int(s)})
				if cn == "logarithmic" {
					cases = append(cases,
						colorCase{class: sn + " one", val: sg, sign: int(s)},
						colorCase{class: sn + " values below one", val: Mul(sg, at(Neg(k))), sign: int(s)})
				}
			}
			sort.Slice(cases, func(i, j int) bool { return cases[i].class < cases[j].class })
			run(fmt.Sprintf("Radialmap with %s compression (bounds %s, %s)", cn, boundName(b[0], B, r), boundName(b[1], B, r)), c.fpos(f), d.st.g, scale, d, cases)
		}
	}
	// the scales of the package
	v := fin("v")
	CF := c.typ(c.r.vis, "ColorFunc")
	for _, name := range globalsOf(c.r.vis) {
		g := c.r.vis.Members[name].(*ssa.Global)
		if deref(g.Type()) != CF {
			continue
		}
		d := c.drv(en)
		scale := d.load(d.st, d.globalPtr(g), CF)
		n := len(runs)
		run(name, c.pos(g.Pos()), True, scale, d, []colorCase{
			{class: "no data", val: NaNT, expect: "black"}, {class: "+Inf", val: InfP}, {class: "-Inf", val: InfN},
			{class: "zero", val: Zero}, {class: "finite values", val: v, v: v},
		})
		runs[n+4].exp = true
	}
	return runs
}

func boundName(t, B, r *Term) string {
	switch t {
	case B:
		return "b"
	case Neg(B):
		return "-b"
	case Mul(r, B):
		return "r b"
	}
	return "-r b"
}

func globalsOf(p *ssa.Package) (ns []string) {
	for n, m := range p.Members {
		if _, ok := m.(*ssa.Global); ok {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	return
}

// the specified colours

func grayRef(p float64) [3]float64 { return [3]float64{255 * p, 255 * p, 255 * p} }

func radialRef(sign int) func(float64) [3]float64 {
	return func(p float64) [3]float64 {
		if sign < 0 {
			return [3]float64{0, 255 * p, 255 * p}
		}
		return [3]float64{255 * p, 0, 0}
	}
}

func tint(sign int) func(float64) [3]float64 {
	return func(float64) [3]float64 {
		if sign < 0 {
			return [3]float64{0xCC, 255, 255}
		}
		return [3]float64{255, 0xCC, 0xCC}
	}
}

// heatRef is the HSL colour with full saturation, hue falling by 330 degrees
// from 240 and lightness rising from a quarter to three quarters.
func heatRef(p float64) (rgb [3]float64) {
	h := math.Mod(600-330*p, 360) / 30
	l := 0.25 + 0.5*p
	a := math.Min(l, 1-l)
	for i, n := range []float64{0, 8, 4} {
		k := math.Mod(n+h, 12)
		rgb[i] = 255 * (l - a*math.Max(-1, math.Min(math.Min(k-3, 9-k), 1)))
	}
	return
}

// refSlope bounds the slopes of the specified channels over the position.
const refSlope = 2500

// channelTolerance is the accepted deviation in steps of a channel.
const channelTolerance = 2.5

func init() {
	register("C44", "proof", "value analysis of Graymap, Heatmap and Radialmap for symbolic bounds (identity and logarithmic compression), followed by interval evaluation over the whole range of positions between the bounds: every channel encloses the specified function of the position", func(c *Ctx) {
		boxes, m := 0, 0
		for _, r := range c.colorRuns() {
			if r.ref == nil {
				continue
			}
			m++
			n, bad := r.each(func(l *leafEval) string {
				p, w := 0.0, 0.0
				if r.v != nil {
					p, w = l.box.lo+(l.box.hi-l.box.lo)/2, (l.box.hi-l.box.lo)/2
				}
				want := r.ref(p)
				for i, name := range []string{"red", "green", "blue"} {
					ch := l.ch[i]
					if ch.empty() || ch.nan || math.Max(ch.hi-want[i], want[i]-ch.lo)+refSlope*w > channelTolerance {
						return fmt.Sprintf("%s is %s instead of %.1f", name, ch, want[i])
					}
				}
				return ""
			})
			boxes += n
			c.ok(bad == "", "colour at a position between the bounds", r.scale+" of "+r.class, r.pos, "%s", bad)
		}
		c.ok(m >= 8, "a check must have obligations", "gradients", "", "only %d found", m)
		c.samples = append(c.samples, fmt.Sprintf("interval boxes evaluated: %d", boxes))
	})
	register("C33", "proof", "value analysis of every colour scale for symbolic bounds (identity and logarithmic compression) and all classes of values, followed by interval evaluation over the position of the value between the bounds: alpha is 255 and every number converted to a colour channel is inside the range of the channel; the scales defined by the package are evaluated over all float64 values as well", func(c *Ctx) {
		boxes := 0
		for _, r := range c.colorRuns() {
			n, bad := r.each(func(l *leafEval) string {
				if len(l.conv) > 0 {
					return l.conv[0]
				}
				if !l.ch[3].point() || l.ch[3].lo != 255 {
					return "the colour is not opaque: " + l.show()
				}
				for _, ch := range l.ch {
					if ch.empty() || ch.nan || ch.lo < 0 || ch.hi > 255 {
						return "the channels are not known to be bytes: " + l.show()
					}
				}
				return ""
			})
			boxes += n
			c.ok(bad == "", "opaque colour from representable channels", r.scale+" of "+r.class, r.pos, "%s", bad)
		}
		c.samples = append(c.samples, fmt.Sprintf("interval boxes evaluated: %d", boxes))
	})
	register("C34", "proof", "value analysis of every colour scale for symbolic bounds and all classes of values, followed by interval evaluation: classes that must be black or saturated yield one constant colour, radial hues differ by sign", func(c *Ctx) {
		tops := map[string]string{}
		type hue struct{ pos, neg map[int]bool }
		hues := map[string]map[int]map[int]bool{}
		hpos := map[string]string{}
		for _, r := range c.colorRuns() {
			switch r.expect {
			case "black":
				_, bad := r.each(func(l *leafEval) string { return l.black() })
				c.ok(bad == "", "black", r.scale+" of "+r.class, r.pos, "%s", bad)
			case "top":
				key := fmt.Sprint(r.scale, r.sign)
				_, bad := r.each(func(l *leafEval) string {
					for _, ch := range l.ch {
						if !ch.point() {
							return "the colour varies: " + l.show()
						}
					}
					s := l.show()
					if w, ok := tops[key]; !ok {
						tops[key] = s
					} else if w != s {
						return "the colour is " + s + " but other values saturate at " + w
					}
					return ""
				})
				c.ok(bad == "", "saturation", r.scale+" of "+r.class, r.pos, "%s", bad)
			}
			if r.sign != 0 {
				if hues[r.scale] == nil {
					hues[r.scale] = map[int]map[int]bool{-1: {}, 1: {}}
					hpos[r.scale] = r.pos
				}
				_, bad := r.each(func(l *leafEval) string {
					o, ok := l.hue()
					if !ok {
						return "the hue is not known: " + l.show()
					}
					if o == 0 && r.expect == "top" {
						return "the saturated colour has no hue: " + l.show()
					}
					if o != 0 {
						hues[r.scale][r.sign][o] = true
					}
					return ""
				})
				c.ok(bad == "", "hue of a sign", r.scale+" of "+r.class, r.pos, "%s", bad)
			}
		}
		for _, s := range sortedScales(hues) {
			h := hues[s]
			both := false
			for o := range h[1] {
				both = both || h[-1][o]
			}
			c.ok(!both, "hues differ by sign", s, hpos[s], "a positive and a negative value have the same hue")
		}
	})
}

func sortedScales(m map[string]map[int]map[int]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// hue classifies a colour by the order of its channels: 0 grey, otherwise a
// code of the signs of R-G, G-B and B-R. Channels that may be equal count as
// ordered (a grey colour is consistent with every hue).
func (l *leafEval) hue() (int, bool) {
	code, f := 0, 1
	for _, p := range [][2]int{{0, 1}, {1, 2}, {2, 0}} {
		a, b := l.ch[p[0]], l.ch[p[1]]
		s := 0
		switch {
		case l.rgb[p[0]] == l.rgb[p[1]] || a.point() && b.point() && a.lo == b.lo:
		case a.hi <= b.lo:
			s = 1
		case a.lo >= b.hi:
			s = 2
		default:
			return 0, false
		}
		code += s * f
		f *= 3
	}
	return code, true
}
