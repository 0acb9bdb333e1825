package main

// Exact feasibility of linear constraints over the rationals (general simplex
// with Bland's rule).

import "math/big"

type lcon struct { // sum co[v]*v + c >= 0
	co map[int]*big.Rat
	c  *big.Rat
}

func feasible(cons []lcon) bool {
	// normalise variables
	vars := map[int]int{}
	for _, k := range cons {
		for v := range k.co {
			if _, ok := vars[v]; !ok {
				vars[v] = len(vars)
			}
		}
	}
	nv := len(vars)
	lo := make([]*big.Rat, nv) // bounds of original variables
	hi := make([]*big.Rat, nv)
	var rows []lcon
	for _, k := range cons {
		switch len(k.co) {
		case 0:
			if k.c.Sign() < 0 {
				return false
			}
		case 1:
			for v, a := range k.co {
				b := new(big.Rat).Quo(new(big.Rat).Neg(k.c), a)
				i := vars[v]
				if a.Sign() > 0 {
					if lo[i] == nil || lo[i].Cmp(b) < 0 {
						lo[i] = b
					}
				} else if hi[i] == nil || hi[i].Cmp(b) > 0 {
					hi[i] = b
				}
			}
		default:
			rows = append(rows, k)
		}
	}
	for i := range lo {
		if lo[i] != nil && hi[i] != nil && lo[i].Cmp(hi[i]) > 0 {
			return false
		}
	}
	m := len(rows)
	n := nv + m
	// tableau: basic variable r = sum t[r][j]*x_j over nonbasic j
	L := make([]*big.Rat, n)
	U := make([]*big.Rat, n)
	copy(L, lo)
	copy(U, hi)
	val := make([]*big.Rat, n)
	for i := 0; i < nv; i++ {
		switch {
		case L[i] != nil:
			val[i] = L[i]
		case U[i] != nil:
			val[i] = U[i]
		default:
			val[i] = new(big.Rat)
		}
	}
	t := make([][]*big.Rat, m)
	basic := make([]int, m) // row -> variable
	where := make([]int, n) // variable -> row or -1
	nonb := make([]int, nv) // column -> variable
	colOf := make([]int, n) // variable -> column or -1
	for i := 0; i < nv; i++ {
		where[i], nonb[i], colOf[i] = -1, i, i
	}
	for r, k := range rows {
		t[r] = make([]*big.Rat, nv)
		for j := range t[r] {
			t[r][j] = new(big.Rat)
		}
		s := new(big.Rat)
		for v, a := range k.co {
			j := vars[v]
			t[r][j] = new(big.Rat).Set(a)
			s.Add(s, new(big.Rat).Mul(a, val[j]))
		}
		b := nv + r
		basic[r], where[b], colOf[b] = b, r, -1
		val[b] = s
		L[b] = new(big.Rat).Neg(k.c)
	}
	for iter := 0; ; iter++ {
		if iter > 3000 {
			return true
		}
		// violated basic variable with the smallest index
		br := -1
		for r := 0; r < m; r++ {
			b := basic[r]
			if (L[b] != nil && val[b].Cmp(L[b]) < 0) || (U[b] != nil && val[b].Cmp(U[b]) > 0) {
				if br < 0 || b < basic[br] {
					br = r
				}
			}
		}
		if br < 0 {
			return true
		}
		b := basic[br]
		up := L[b] != nil && val[b].Cmp(L[b]) < 0
		target := U[b]
		if up {
			target = L[b]
		}
		bc := -1
		for j := 0; j < nv; j++ {
			a := t[br][j]
			if a.Sign() == 0 {
				continue
			}
			x := nonb[j]
			inc := (a.Sign() > 0) == up
			if inc && U[x] != nil && val[x].Cmp(U[x]) >= 0 {
				continue
			}
			if !inc && L[x] != nil && val[x].Cmp(L[x]) <= 0 {
				continue
			}
			if bc < 0 || x < nonb[bc] {
				bc = j
			}
		}
		if bc < 0 {
			return false
		}
		// update values and pivot
		x := nonb[bc]
		a := t[br][bc]
		d := new(big.Rat).Quo(new(big.Rat).Sub(target, val[b]), a)
		val[b] = target
		val[x] = new(big.Rat).Add(val[x], d)
		for r := 0; r < m; r++ {
			if r != br && t[r][bc].Sign() != 0 {
				val[basic[r]] = new(big.Rat).Add(val[basic[r]], new(big.Rat).Mul(t[r][bc], d))
			}
		}
		inv := new(big.Rat).Inv(a)
		// row br: b = ... + a*x  =>  x = (b - rest)/a
		for j := 0; j < nv; j++ {
			if j == bc {
				t[br][j] = inv
			} else if t[br][j].Sign() != 0 {
				t[br][j] = new(big.Rat).Neg(new(big.Rat).Mul(t[br][j], inv))
			}
		}
		for r := 0; r < m; r++ {
			if r == br || t[r][bc].Sign() == 0 {
				continue
			}
			f := t[r][bc]
			for j := 0; j < nv; j++ {
				if j == bc {
					t[r][j] = new(big.Rat).Mul(f, t[br][j])
				} else if t[br][j].Sign() != 0 {
					t[r][j] = new(big.Rat).Add(t[r][j], new(big.Rat).Mul(f, t[br][j]))
				}
			}
		}
		basic[br], where[x], colOf[x] = x, br, -1
		nonb[bc], where[b], colOf[b] = b, -1, bc
	}
}
