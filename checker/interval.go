package main

// Interval evaluation of value-graph terms over boxes of their variables. The
// decision diagrams are followed lazily: a case is evaluated unless its
// condition is decided the other way on the whole box.

import (
	"fmt"
	"go/types"
	"math"
)

// iv is a set of numbers [lo, hi] (empty if lo > hi), possibly with NaN.
type iv struct {
	lo, hi float64
	nan    bool
}

var ivTop = iv{math.Inf(-1), math.Inf(1), true}

func ivNum(x float64) iv { return iv{x, x, false} }
func (a iv) empty() bool { return a.lo > a.hi }
func (a iv) point() bool { return a.lo == a.hi && !a.nan }
func (a iv) union(b iv) iv {
	switch {
	case a.empty():
		b.nan = b.nan || a.nan
		return b
	case b.empty():
		a.nan = a.nan || b.nan
		return a
	}
	return iv{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan}
}
func (a iv) String() string {
	s := fmt.Sprintf("[%.6g, %.6g]", a.lo, a.hi)
	if a.empty() {
		s = ""
	}
	if a.nan {
		s += " NaN"
	}
	return s
}

var ivEmpty = iv{lo: 1, hi: 0}

func ivAdd(a, b iv) iv {
	if a.empty() || b.empty() {
		return iv{1, 0, a.nan || b.nan}
	}
	r := iv{a.lo + b.lo, a.hi + b.hi, a.nan || b.nan}
	if math.IsInf(a.hi, 1) && math.IsInf(b.lo, -1) || math.IsInf(a.lo, -1) && math.IsInf(b.hi, 1) {
		r.nan = true
	}
	if math.IsNaN(r.lo) {
		r.lo = math.Inf(-1)
	}
	if math.IsNaN(r.hi) {
		r.hi = math.Inf(1)
	}
	return r
}
func ivMul(a, b iv) iv {
	if a.empty() || b.empty() {
		return iv{1, 0, a.nan || b.nan}
	}
	r := iv{math.Inf(1), math.Inf(-1), a.nan || b.nan}
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			p := x * y
			if math.IsNaN(p) { // 0 * Inf
				r.nan = true
				p = 0
				if !(a.point() && b.point()) {
					r.lo, r.hi = math.Min(r.lo, p), math.Max(r.hi, p)
				}
				continue
			}
			r.lo, r.hi = math.Min(r.lo, p), math.Max(r.hi, p)
		}
	}
	inf := func(x iv) bool { return math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0) }
	zero := func(x iv) bool { return x.lo <= 0 && x.hi >= 0 }
	if inf(a) && zero(b) || inf(b) && zero(a) {
		r.nan = true
	}
	return r
}
func ivInv(a iv) iv {
	if a.empty() {
		return a
	}
	if a.lo > 0 || a.hi < 0 {
		return iv{1 / a.hi, 1 / a.lo, a.nan}
	}
	return iv{math.Inf(-1), math.Inf(1), a.nan}
}

type ivEval struct {
	env  map[*Term]iv
	memo map[*Term]iv
	// remainders that jump once on the box, with their values on either side
	jumps map[*Term][2]iv
	// conv is told about every conversion of a number to an integer type
	conv func(t *Term, x iv)
}

// tri decides an atom on the box: 1 true, -1 false, 0 unknown.
func (e *ivEval) tri(a *Term) int {
	if a.Op != OpApp {
		return 0
	}
	switch a.S {
	case "flt0", "fle0", "feq0", "ge0", "eq0", "isnan":
	default:
		return 0
	}
	x := e.val(a.A[0])
	always := func(c bool) int { // c: condition on all numbers, false on NaN
		if c && !x.nan && !x.empty() {
			return 1
		}
		return 0
	}
	never := func(c bool) int {
		if c || x.empty() {
			return -1
		}
		return 0
	}
	switch a.S {
	case "isnan":
		if x.nan && x.empty() {
			return 1
		}
		if !x.nan {
			return -1
		}
		return 0
	case "flt0":
		if r := never(x.lo >= 0); r != 0 {
			return r
		}
		return always(x.hi < 0)
	case "fle0":
		if r := never(x.lo > 0); r != 0 {
			return r
		}
		return always(x.hi <= 0)
	case "ge0":
		if r := never(x.hi < 0); r != 0 {
			return r
		}
		return always(x.lo >= 0)
	}
	if r := never(x.lo > 0 || x.hi < 0); r != 0 {
		return r
	}
	return always(x.lo == 0 && x.hi == 0)
}

func (e *ivEval) val(t *Term) iv {
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.compute(t)
	e.memo[t] = r
	return r
}

func (e *ivEval) compute(t *Term) iv {
	if r, ok := e.env[t]; ok {
		return r
	}
	switch t.Op {
	case OpNum:
		f, _ := t.R.Float64()
		return ivNum(f)
	case OpNaN:
		return iv{1, 0, true}
	case OpInf:
		if t == InfP {
			return ivNum(math.Inf(1))
		}
		return ivNum(math.Inf(-1))
	case OpTrue:
		return ivNum(1)
	case OpFalse:
		return ivNum(0)
	case OpIte:
		switch e.tri(t.A[0]) {
		case 1:
			return e.val(t.A[1])
		case -1:
			return e.val(t.A[2])
		}
		return e.val(t.A[1]).union(e.val(t.A[2]))
	case OpPoly:
		sum := ivNum(0)
		for _, m := range t.P {
			c, _ := m.C.Float64()
			p := ivNum(c)
			for _, f := range m.F {
				x := e.val(f.T)
				n := f.E
				if n < 0 {
					x, n = ivInv(x), -n
				}
				y := x
				for i := 1; i < n; i++ {
					y = ivMul(y, x)
				}
				if n%2 == 0 && y.lo < 0 && !y.empty() {
					y.lo = 0
				}
				p = ivMul(p, y)
			}
			sum = ivAdd(sum, p)
		}
		return sum
	case OpSym:
		r := ivTop
		if finiteTerm(t) {
			r.nan = false
		}
		if signOf(t) > 0 {
			r.lo = 0
		}
		return r
	case OpApp:
		return e.app(t)
	}
	return ivTop
}

func (e *ivEval) app(t *Term) iv {
	if len(t.A) == 0 {
		return ivTop
	}
	mono := func(x iv, f func(float64) float64) iv {
		if x.empty() {
			return x
		}
		return iv{f(x.lo), f(x.hi), x.nan}
	}
	switch t.S {
	case "f32":
		return e.val(t.A[0])
	case "exp":
		return mono(e.val(t.A[0]), math.Exp)
	case "atan":
		return mono(e.val(t.A[0]), math.Atan)
	case "floor":
		return mono(e.val(t.A[0]), math.Floor)
	case "ceil":
		return mono(e.val(t.A[0]), math.Ceil)
	case "round":
		return mono(e.val(t.A[0]), math.Round)
	case "ftrunc":
		return mono(e.val(t.A[0]), math.Trunc)
	case "sqrt":
		x := e.val(t.A[0])
		if x.lo < 0 {
			x.nan = true
			x.lo = 0
		}
		return mono(x, math.Sqrt)
	case "ln":
		x := e.val(t.A[0])
		if x.empty() {
			return x
		}
		if x.lo < 0 {
			x.nan = true
			x.lo = 0
		}
		return mono(x, math.Log)
	case "abs":
		x := e.val(t.A[0])
		switch {
		case x.empty() || x.lo >= 0:
			return x
		case x.hi <= 0:
			return iv{-x.hi, -x.lo, x.nan}
		}
		return iv{0, math.Max(-x.lo, x.hi), x.nan}
	case "fmod":
		x, y := e.val(t.A[0]), e.val(t.A[1])
		if x.empty() || y.empty() {
			return iv{1, 0, x.nan || y.nan}
		}
		if !y.point() || y.lo == 0 || math.IsInf(x.lo, 0) || math.IsInf(x.hi, 0) {
			return ivTop
		}
		m := math.Abs(y.lo)
		if k := math.Trunc(x.lo / m); k == math.Trunc(x.hi/m) && (x.lo >= 0 || x.hi <= 0 || k == 0) {
			return iv{x.lo - k*m, x.hi - k*m, x.nan}
		}
		if kl, kh := math.Floor(x.lo/m), math.Floor(x.hi/m); x.lo >= 0 && kh == kl+1 && e.jumps != nil {
			e.jumps[t] = [2]iv{{x.lo - kl*m, math.Nextafter(m, 0), x.nan}, {0, x.hi - kh*m, x.nan}}
		}
		r := iv{0, m, x.nan}
		if x.lo < 0 {
			r.lo = -m
		}
		if x.hi < 0 {
			r.hi = 0
		}
		return r
	case "sin", "cos":
		return iv{-1, 1, true}
	}
	if t.S == "trunc" || t.appPrefix("trunc:") {
		x := e.val(t.A[0])
		if e.conv != nil {
			e.conv(t, x)
		}
		r := mono(x, math.Trunc)
		if e.jumps != nil && r.hi == r.lo+1 {
			// near an integer: one value or the other
			e.jumps[t] = [2]iv{{r.lo, r.lo, r.nan}, {r.hi, r.hi, r.nan}}
		}
		tr := typeRange(t.T)
		if tr.lo != nil && tr.hi != nil {
			l, _ := tr.lo.Float64()
			h, _ := tr.hi.Float64()
			if r.empty() || r.nan || r.lo < l || r.hi > h {
				return iv{l, h, false}
			}
			return r
		}
		if r.empty() || r.nan {
			return iv{math.Inf(-1), math.Inf(1), false}
		}
		return r
	}
	return ivTop
}

// representable tells whether every number of the interval converts to the
// integer type.
func representable(T types.Type, x iv) bool {
	lo, hi := -math.Exp2(63), math.Exp2(63)
	if r := typeRange(T); r.lo != nil {
		lo, _ = r.lo.Float64()
		if r.hi != nil {
			hi, _ = r.hi.Float64()
			hi++
		} else {
			hi = math.Exp2(64)
		}
		lo--
		return !x.nan && !x.empty() && x.lo > lo && x.hi < hi
	}
	return !x.nan && !x.empty() && x.lo >= lo && x.hi < hi
}
