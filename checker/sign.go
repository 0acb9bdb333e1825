package main

// Finiteness and sign of real-number expressions. Symbols whose name starts
// with "fin." stand for finite numbers, "fin.nn." for non-negative and "fin.pos."
// for positive ones.

import (
	"math/big"
	"strings"
)

var finMemo = map[*Term]bool{}

func finiteTerm(t *Term) bool {
	switch t.Op {
	case OpNum:
		return true
	case OpSym:
		return t.K == KInt || strings.HasPrefix(t.S, "fin.")
	case OpApp, OpPoly:
	default:
		return false
	}
	if r, ok := finMemo[t]; ok {
		return r
	}
	r := false
	switch {
	case t.Op == OpPoly:
		r = true
		for _, m := range t.P {
			for _, f := range m.F {
				if !finiteTerm(f.T) || f.E < 0 && signOf(f.T) == 0 {
					r = false
				}
			}
		}
	case t.S == "exp" || t.S == "abs" || t.S == "sin" || t.S == "cos":
		r = finiteTerm(t.A[0])
	case t.S == "ln":
		r = finiteTerm(t.A[0]) && signOf(t.A[0]) > 0
	case t.S == "fmod":
		r = finiteTerm(t.A[0]) && finiteTerm(t.A[1]) && signOf(t.A[1]) != 0
	case t.S == "floor" || t.S == "ceil" || t.S == "round" || t.S == "ftrunc" || t.S == "trunc":
		r = finiteTerm(t.A[0])
	}
	finMemo[t] = r
	return r
}

// signOf gives the sign of a finite non-zero expression, 0 if it is not known.
func signOf(t *Term) int {
	switch t.Op {
	case OpNum:
		return t.R.Sign()
	case OpSym:
		if strings.HasPrefix(t.S, "fin.pos.") {
			return 1
		}
	case OpApp:
		if t.S == "exp" && finiteTerm(t.A[0]) {
			return 1
		}
		if t.S == "ln" && t.A[0].isNum() {
			return t.A[0].R.Cmp(ratOne)
		}
	case OpPoly:
		s := 0
		for _, m := range t.P {
			ms := m.C.Sign()
			for _, f := range m.F {
				fs := signOf(f.T)
				if f.E%2 == 0 {
					fs *= fs
				}
				ms *= fs
			}
			if ms == 0 || s != 0 && s != ms {
				return 0
			}
			s = ms
		}
		return s
	}
	return 0
}

// nonNeg: the expression is finite and not negative
func nonNeg(t *Term) bool {
	switch t.Op {
	case OpNum:
		return t.R.Sign() >= 0
	case OpSym:
		return strings.HasPrefix(t.S, "fin.nn.") || strings.HasPrefix(t.S, "fin.pos.")
	case OpApp:
		return (t.S == "exp" || t.S == "abs") && finiteTerm(t.A[0])
	case OpPoly:
		for _, m := range t.P {
			if m.C.Sign() < 0 {
				return false
			}
			for _, f := range m.F {
				if !(f.E%2 == 0 && finiteTerm(f.T)) && !(f.E > 0 && nonNeg(f.T)) && !(f.E < 0 && signOf(f.T) > 0) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// expArg splits a monomial into its exponential factor's argument and the rest.
func expArg(m Mono) (z *Term, rest Mono) {
	rest = Mono{C: m.C}
	for _, f := range m.F {
		if f.T.app("exp") && f.E == 1 {
			z = f.T.A[0]
			continue
		}
		rest.F = append(rest.F, f)
	}
	return z, rest
}

// stripExp gives an expression with the sign of p, without a common
// exponential factor.
func stripExp(p *Term) *Term {
	if p.Op != OpPoly || !finiteTerm(p) {
		return p
	}
	z0, r0 := expArg(p.P[0])
	if len(p.P) == 2 {
		z1, r1 := expArg(p.P[1])
		if (z0 != nil || z1 != nil) && len(r0.F) == 0 && len(r1.F) == 0 && r0.C.Sign() != r1.C.Sign() {
			// c0 e^z0 - c1 e^z1 has the sign of ln c0 + z0 - ln c1 - z1
			lg := func(z *Term, c *big.Rat) *Term {
				l := lnL(NumR(new(big.Rat).Abs(c)))
				if z == nil {
					return l
				}
				return addL(l, z)
			}
			d := addL(lg(z0, r0.C), mulL(Num(-1), lg(z1, r1.C)))
			if r0.C.Sign() < 0 {
				d = mulL(Num(-1), d)
			}
			return d
		}
	}
	if z0 == nil {
		return p
	}
	var out []Mono
	for _, m := range p.P {
		z, r := expArg(m)
		if z != z0 {
			return p
		}
		out = append(out, r)
	}
	return fromMonos(out)
}
