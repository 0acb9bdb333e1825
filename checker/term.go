package main

// Hash-consed terms of the gated value graph: numeric terms are kept in
// polynomial normal form, booleans and every gated value as ordered decision
// diagrams over atomic predicates.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Op uint8

const (
	OpNum Op = iota
	OpNaN
	OpInf // S = "+" or "-"
	OpStr
	OpTrue
	OpFalse
	OpNil
	OpSym
	OpApp
	OpIte // A = [atom, hi, lo]
	OpPoly
	OpStruct  // A = fields
	OpSlice   // A = [ptr to array, off, len, cap]
	OpPtr     // A = [obj, path...]
	OpObj     // S = name, A = loop indices
	OpField   // path element, S = index
	OpFunc    // X = *ssa.Function
	OpClosure // X = *ssa.Function, A = bindings
	OpIface   // X = types.Type, A = [value]
	OpTuple
	OpArr    // literal/zeroed array: A = [zero elem], then pairs idx,val
	OpArrUpd // A = [base, idx, val]
	OpArrLam // A = [base, lo, n, step(+1/-1), k, val(k)]
	OpMap    // constant map: A = pairs key,val   (most recent last)
	OpMapUpd // A = [base, key, val]
	OpBuiltin
)

type Kind uint8

const (
	KOther Kind = iota
	KInt
	KFloat
	KBool
	KStr
)

type Fac struct {
	T *Term
	E int
}
type Mono struct {
	C *big.Rat
	F []Fac
}

type Term struct {
	ID int
	Op Op
	K  Kind
	S  string
	R  *big.Rat
	A  []*Term
	P  []Mono
	T  types.Type
	X  any
}

var (
	intern  = map[string]*Term{}
	nextID  = 1
	maxTerm = 30_000_000
)

type budgetExceeded struct{ what string }

// deadline: a property that cannot be decided within the limit is reported
// as undecided (a violation) rather than running into the caller's timeout.
var deadline time.Time

// Effort limits; the thorough tier raises them (main.go).
var (
	timeLimit  = 420 * time.Second
	queryLimit = 25 * time.Second
	effort     = 1
)

func late() bool {
	return !deadline.IsZero() && time.Now().After(deadline) || heavy.Load()
}

// heavy is set while more memory is in use than an analysis ever needs.
var heavy atomic.Bool

const maxHeap = 9 << 30

func watchMemory() {
	var m runtime.MemStats
	for range time.Tick(500 * time.Millisecond) {
		runtime.ReadMemStats(&m)
		heavy.Store(m.HeapAlloc > maxHeap)
	}
}

func mk(key string, f func() *Term) *Term {
	if t, ok := intern[key]; ok {
		return t
	}
	t := f()
	nextID++
	t.ID = nextID
	if nextID > maxTerm {
		panic(budgetExceeded{"term budget exceeded"})
	}
	if nextID&0xfff == 0 && late() {
		panic(budgetExceeded{"time or memory limit exceeded"})
	}
	intern[key] = t
	return t
}

func ids(b []byte, as []*Term) []byte {
	for _, a := range as {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.ID), 10)
	}
	return b
}

var (
	True  = mk("T", func() *Term { return &Term{Op: OpTrue, K: KBool} })
	False = mk("F", func() *Term { return &Term{Op: OpFalse, K: KBool} })
	Nil   = mk("nil", func() *Term { return &Term{Op: OpNil} })
	NaNT  = mk("NaN", func() *Term { return &Term{Op: OpNaN, K: KFloat} })
	InfP  = mk("Inf+", func() *Term { return &Term{Op: OpInf, K: KFloat, S: "+"} })
	InfN  = mk("Inf-", func() *Term { return &Term{Op: OpInf, K: KFloat, S: "-"} })
	Zero  = Num(0)
	One   = Num(1)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func NumR(r *big.Rat) *Term {
	return mk("#"+r.RatString(), func() *Term { return &Term{Op: OpNum, R: new(big.Rat).Set(r)} })
}
func Num(i int64) *Term { return NumR(new(big.Rat).SetInt64(i)) }
func NumF(f float64) *Term {
	if math.IsNaN(f) {
		return NaNT
	}
	if math.IsInf(f, 1) {
		return InfP
	}
	if math.IsInf(f, -1) {
		return InfN
	}
	return NumR(new(big.Rat).SetFloat64(f))
}
func Str(s string) *Term {
	return mk("s"+s, func() *Term { return &Term{Op: OpStr, K: KStr, S: s} })
}

func kindOf(T types.Type) Kind {
	if T == nil {
		return KOther
	}
	if b, ok := T.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return KBool
		case b.Info()&types.IsInteger != 0:
			return KInt
		case b.Info()&types.IsFloat != 0:
			return KFloat
		case b.Info()&types.IsString != 0:
			return KStr
		}
	}
	return KOther
}

// Sym makes a fresh or named opaque symbol; boolean symbols come back as decision nodes.
func Sym(name string, T types.Type) *Term {
	key := "y" + name
	if T != nil {
		key += ":" + T.String()
	}
	t := mk(key, func() *Term { return &Term{Op: OpSym, S: name, T: T, K: kindOf(T)} })
	return typed(t)
}

// typed wraps a raw boolean atom into its decision-diagram form.
func typed(t *Term) *Term {
	if t.K == KBool && (t.Op == OpSym || t.Op == OpApp) {
		return node(t, True, False)
	}
	return t
}

func (t *Term) isNum() bool { return t.Op == OpNum }
func (t *Term) isConst() bool {
	switch t.Op {
	case OpNum, OpStr, OpTrue, OpFalse, OpNil, OpNaN, OpInf, OpFunc:
		return true
	}
	return false
}
func (t *Term) app(name string) bool { return t.Op == OpApp && t.S == name }
func (t *Term) appPrefix(p string) bool {
	return t.Op == OpApp && strings.HasPrefix(t.S, p)
}
func (t *Term) int64() (int64, bool) {
	if t.Op == OpNum && t.R.IsInt() && t.R.Num().IsInt64() {
		return t.R.Num().Int64(), true
	}
	return 0, false
}

// ---------------------------------------------------------------- decision diagrams

func top(t *Term) *Term {
	if t.Op == OpIte {
		return t.A[0]
	}
	return nil
}

func rawNode(a, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	b := ids([]byte("?"), []*Term{a, hi, lo})
	return mk(string(b), func() *Term { return &Term{Op: OpIte, K: hi.K, A: []*Term{a, hi, lo}} })
}

// node builds a decision node with atom a on top; hi/lo must only contain atoms ordered after a.
func node(a, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if hasSubject(a) {
		hi = reduceBy(hi, a, true)
		lo = reduceBy(lo, a, false)
	}
	return rawNode(a, hi, lo)
}

type redKey struct {
	t, a int
	v    bool
}

var redMemo = map[redKey]*Term{}

func reduceBy(t, a *Term, v bool) *Term {
	if t.Op != OpIte {
		return t
	}
	k := redKey{t.ID, a.ID, v}
	if r, ok := redMemo[k]; ok {
		return r
	}
	var r *Term
	b := t.A[0]
	switch litDecide(a, v, b) {
	case 1:
		r = reduceBy(t.A[1], a, v)
	case -1:
		r = reduceBy(t.A[2], a, v)
	default:
		h, l := reduceBy(t.A[1], a, v), reduceBy(t.A[2], a, v)
		if h == t.A[1] && l == t.A[2] {
			r = t
		} else {
			r = rawNode(b, h, l)
		}
	}
	redMemo[k] = r
	return r
}

type iteKey [3]int

var iteMemo = map[iteKey]*Term{}

func cof(t, a *Term, v bool) *Term {
	if t.Op == OpIte && t.A[0] == a {
		if v {
			return t.A[1]
		}
		return t.A[2]
	}
	return t
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True && b == False {
		return c
	}
	if c.Op != OpIte {
		panic("Ite: condition is not a decision diagram: " + c.String())
	}
	k := iteKey{c.ID, a.ID, b.ID}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	// merge structured leaves componentwise
	if m := mergeStruct(c, a, b); m != nil {
		iteMemo[k] = m
		return m
	}
	v := top(c)
	if x := top(a); x != nil && x.ID < v.ID {
		v = x
	}
	if x := top(b); x != nil && x.ID < v.ID {
		v = x
	}
	h := Ite(cof(c, v, true), cof(a, v, true), cof(b, v, true))
	l := Ite(cof(c, v, false), cof(a, v, false), cof(b, v, false))
	r := node(v, h, l)
	iteMemo[k] = r
	return r
}

func mergeStruct(c, a, b *Term) *Term {
	if a.Op != b.Op || len(a.A) != len(b.A) {
		return nil
	}
	switch a.Op {
	case OpStruct, OpTuple:
		as := make([]*Term, len(a.A))
		for i := range as {
			as[i] = Ite(c, a.A[i], b.A[i])
		}
		if a.Op == OpStruct {
			return Struct(a.T, as...)
		}
		return Tuple(as...)
	case OpSlice:
		if a.A[0] == b.A[0] {
			return Slice(a.A[0], Ite(c, a.A[1], b.A[1]), Ite(c, a.A[2], b.A[2]), Ite(c, a.A[3], b.A[3]))
		}
	case OpArr:
		// same index set: merge values
		if a.A[0] != b.A[0] {
			return nil
		}
		for i := 1; i < len(a.A); i += 2 {
			if a.A[i] != b.A[i] {
				return nil
			}
		}
		as := append([]*Term{}, a.A...)
		for i := 2; i < len(a.A); i += 2 {
			as[i] = Ite(c, a.A[i], b.A[i])
		}
		return Arr(a.T, as[0], as[1:]...)
	case OpClosure:
		if a.X == b.X {
			as := make([]*Term, len(a.A))
			for i := range as {
				if a.A[i] != b.A[i] {
					return nil
				}
			}
			_ = as
		}
	}
	return nil
}

func Not(a *Term) *Term    { return Ite(a, False, True) }
func And(a, b *Term) *Term { return Ite(a, b, False) }
func Or(a, b *Term) *Term  { return Ite(a, True, b) }
func AndN(as ...*Term) *Term {
	r := True
	for _, a := range as {
		r = And(r, a)
	}
	return r
}
func Implies(a, b *Term) *Term { return Ite(a, b, True) }

// restrict simplifies f using the care set c (Coudert-Madre restrict).
var restrMemo = map[[2]int]*Term{}

func restrict(f, c *Term) *Term {
	if c == True || f.Op != OpIte {
		return f
	}
	if c == False {
		return f
	}
	k := [2]int{f.ID, c.ID}
	if r, ok := restrMemo[k]; ok {
		return r
	}
	var r *Term
	v, w := top(c), top(f)
	switch {
	case v.ID < w.ID:
		r = restrict(f, Or(c.A[1], c.A[2]))
	case v == w:
		if c.A[1] == False {
			r = restrict(f.A[2], c.A[2])
		} else if c.A[2] == False {
			r = restrict(f.A[1], c.A[1])
		} else {
			r = node(w, restrict(f.A[1], c.A[1]), restrict(f.A[2], c.A[2]))
		}
	default:
		r = node(w, restrict(f.A[1], c), restrict(f.A[2], c))
	}
	restrMemo[k] = r
	return r
}

// deepRestrict also restricts inside structured leaves.
func deepRestrict(f, c *Term) *Term {
	f = restrict(f, c)
	switch f.Op {
	case OpStruct:
		as := make([]*Term, len(f.A))
		for i := range as {
			as[i] = deepRestrict(f.A[i], c)
		}
		return Struct(f.T, as...)
	case OpTuple:
		as := make([]*Term, len(f.A))
		for i := range as {
			as[i] = deepRestrict(f.A[i], c)
		}
		return Tuple(as...)
	case OpSlice:
		return Slice(deepRestrict(f.A[0], c), deepRestrict(f.A[1], c), deepRestrict(f.A[2], c), deepRestrict(f.A[3], c))
	}
	return f
}

// contentRestrict also restricts the elements of arrays.
func contentRestrict(f, c *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(f *Term) *Term
	rec = func(f *Term) *Term {
		if f == nil {
			return nil
		}
		if r, ok := memo[f]; ok {
			return r
		}
		r := deepRestrict(f, c)
		switch r.Op {
		case OpIte:
			r = Ite(node(r.A[0], True, False), rec(r.A[1]), rec(r.A[2]))
		case OpArrUpd:
			if base := rec(r.A[0]); base != r.A[0] || rec(r.A[2]) != r.A[2] {
				r = ArrSet(base, r.A[1], rec(r.A[2]))
			}
		case OpArrLam:
			k := r.A[4]
			if !mentions(c, func(x *Term) bool { return x == k }) {
				base, lo, n, st, v := rec(r.A[0]), rec(r.A[1]), rec(r.A[2]), rec(r.A[3]), rec(r.A[5])
				if base != r.A[0] || lo != r.A[1] || n != r.A[2] || st != r.A[3] || v != r.A[5] {
					r = ArrLam(r.S == "total", base, lo, n, st, k, v)
				}
			}
		}
		memo[f] = r
		return r
	}
	return rec(f)
}

// lift applies f to the leaves of gated arguments.
func lift(f func(as []*Term) *Term, as ...*Term) *Term {
	gated := false
	for _, a := range as {
		if a.Op == OpIte {
			gated = true
			break
		}
	}
	if !gated {
		return f(as)
	}
	memo := map[string]*Term{}
	return liftRec(f, as, memo)
}

func liftRec(f func(as []*Term) *Term, as []*Term, memo map[string]*Term) *Term {
	var v *Term
	for _, a := range as {
		if x := top(a); x != nil && (v == nil || x.ID < v.ID) {
			v = x
		}
	}
	if v == nil {
		return f(as)
	}
	k := string(ids(nil, as))
	if r, ok := memo[k]; ok {
		return r
	}
	if len(memo) > 200000 {
		panic(budgetExceeded{"gated operation too large"})
	}
	hs, ls := make([]*Term, len(as)), make([]*Term, len(as))
	for i, a := range as {
		hs[i], ls[i] = cof(a, v, true), cof(a, v, false)
	}
	h, l := liftRec(f, hs, memo), liftRec(f, ls, memo)
	r := Ite(node(v, True, False), h, l)
	memo[k] = r
	return r
}

// ---------------------------------------------------------------- polynomials

func monoKey(f []Fac) string {
	b := make([]byte, 0, 16)
	for _, x := range f {
		b = strconv.AppendInt(b, int64(x.T.ID), 10)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(x.E), 10)
		b = append(b, '*')
	}
	return string(b)
}

func polyOf(t *Term) []Mono {
	switch t.Op {
	case OpNum:
		if t.R.Sign() == 0 {
			return nil
		}
		return []Mono{{C: t.R}}
	case OpPoly:
		return t.P
	}
	return []Mono{{C: big.NewRat(1, 1), F: []Fac{{t, 1}}}}
}

func fromMonos(ms []Mono) *Term {
	acc := map[string]int{}
	var out []Mono
	var keys []string
	for _, m := range ms {
		if m.C.Sign() == 0 {
			continue
		}
		k := monoKey(m.F)
		if i, ok := acc[k]; ok {
			out[i].C = new(big.Rat).Add(out[i].C, m.C)
			continue
		}
		acc[k] = len(out)
		keys = append(keys, k)
		out = append(out, m)
	}
	idx := make([]int, 0, len(out))
	for i := range out {
		if out[i].C.Sign() != 0 {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return Zero
	}
	if len(idx) == 1 {
		m := out[idx[0]]
		if len(m.F) == 0 {
			return NumR(m.C)
		}
		if len(m.F) == 1 && m.F[0].E == 1 && m.C.Cmp(ratOne) == 0 && m.F[0].T.Op != OpPoly {
			return m.F[0].T
		}
	}
	sort.Slice(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	var kb strings.Builder
	kb.WriteByte('p')
	P := make([]Mono, 0, len(idx))
	for _, i := range idx {
		kb.WriteString(out[i].C.RatString())
		kb.WriteByte('.')
		kb.WriteString(keys[i])
		kb.WriteByte('+')
		P = append(P, out[i])
	}
	return mk(kb.String(), func() *Term { return &Term{Op: OpPoly, P: P} })
}

var ratOne = big.NewRat(1, 1)

func numericLeaf(t *Term) bool {
	switch t.Op {
	case OpNum, OpPoly, OpSym, OpApp:
		return true
	}
	return false
}

func Add(a, b *Term) *Term {
	return lift(func(as []*Term) *Term { return addL(as[0], as[1]) }, a, b)
}
func addL(a, b *Term) *Term {
	if a.Op == OpNaN || b.Op == OpNaN {
		return NaNT
	}
	if a.Op == OpInf || b.Op == OpInf {
		if a.Op == OpInf && b.Op == OpInf {
			if a == b {
				return a
			}
			return NaNT
		}
		if a.Op == OpInf && finiteTerm(b) {
			return a
		}
		if b.Op == OpInf && finiteTerm(a) {
			return b
		}
		return App("fadd", nil, a, b)
	}
	return fromMonos(append(append([]Mono{}, polyOf(a)...), polyOf(b)...))
}
func Neg(a *Term) *Term    { return Mul(Num(-1), a) }
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func AddC(a *Term, c int64) *Term {
	return Add(a, Num(c))
}
func Mul(a, b *Term) *Term {
	return lift(func(as []*Term) *Term { return mulL(as[0], as[1]) }, a, b)
}

func mulMono(m, n Mono) []Mono {
	c := new(big.Rat).Mul(m.C, n.C)
	if len(m.F) == 0 {
		return []Mono{{c, n.F}}
	}
	if len(n.F) == 0 {
		return []Mono{{c, m.F}}
	}
	var exps []*Term
	es := map[*Term]int{}
	var order []*Term
	addF := func(f Fac) {
		if f.T.app("exp") {
			exps = append(exps, Mul(Num(int64(f.E)), f.T.A[0]))
			return
		}
		if _, ok := es[f.T]; !ok {
			order = append(order, f.T)
		}
		es[f.T] += f.E
	}
	for _, f := range m.F {
		addF(f)
	}
	for _, f := range n.F {
		addF(f)
	}
	if len(exps) > 0 {
		s := exps[0]
		for _, e := range exps[1:] {
			s = Add(s, e)
		}
		e := Exp(s)
		if e.isNum() {
			c = new(big.Rat).Mul(c, e.R)
		} else if e.app("exp") {
			order = append(order, e)
			es[e] += 1
		} else {
			// exp simplified to something else: multiply generally
			rest := buildMono(c, order, es)
			return polyOf(mulL(fromMonos([]Mono{rest}), e))
		}
	}
	return []Mono{buildMono(c, order, es)}
}

func buildMono(c *big.Rat, order []*Term, es map[*Term]int) Mono {
	var fs []Fac
	for _, t := range order {
		if e := es[t]; e != 0 {
			fs = append(fs, Fac{t, e})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].T.ID < fs[j].T.ID })
	return Mono{c, fs}
}

func mulL(a, b *Term) *Term {
	if a.Op == OpNaN || b.Op == OpNaN {
		return NaNT
	}
	if a.Op == OpInf || b.Op == OpInf {
		x, y := a, b
		if b.Op == OpInf {
			x, y = b, a
		}
		if y == Zero {
			return NaNT
		}
		switch signOf(y) {
		case 1:
			return x
		case -1:
			if x == InfP {
				return InfN
			}
			return InfP
		}
		if y.Op == OpInf {
			if x == y {
				return InfP
			}
			return InfN
		}
		return App("fmul", nil, a, b)
	}
	pa, pb := polyOf(a), polyOf(b)
	// cancel P * (... P^-1)
	if r := cancel(a, b); r != nil {
		return r
	}
	if r := cancel(b, a); r != nil {
		return r
	}
	if len(pa)*len(pb) > 2000 {
		return App("bigmul", nil, a, b)
	}
	var out []Mono
	for _, m := range pa {
		for _, n := range pb {
			out = append(out, mulMono(m, n)...)
		}
	}
	// polynomials used as factors with positive exponent are expanded
	for _, m := range out {
		for _, f := range m.F {
			if f.T.Op == OpPoly && f.E > 0 {
				return expandPolyFactors(out)
			}
		}
	}
	return fromMonos(out)
}

func expandPolyFactors(ms []Mono) *Term {
	r := Zero
	for _, m := range ms {
		t := NumR(m.C)
		for _, f := range m.F {
			if f.T.Op == OpPoly && f.E > 0 {
				for i := 0; i < f.E; i++ {
					t = mulL(t, f.T)
				}
			} else {
				t = mulL(t, fromMonos([]Mono{{ratOne, []Fac{f}}}))
			}
		}
		r = addL(r, t)
	}
	return r
}

// cancel: b is a polynomial all of whose monomials carry the factor P^-1 with a = c*P
func cancel(a, b *Term) *Term {
	if a.Op != OpPoly || len(a.P) < 2 {
		return nil
	}
	c, prim := content(a)
	if prim.Op != OpPoly {
		return nil
	}
	pb := polyOf(b)
	if len(pb) == 0 {
		return nil
	}
	var out []Mono
	for _, m := range pb {
		found := false
		var fs []Fac
		for _, f := range m.F {
			if f.T == prim && f.E < 0 && !found {
				found = true
				if f.E+1 != 0 {
					fs = append(fs, Fac{f.T, f.E + 1})
				}
				continue
			}
			fs = append(fs, f)
		}
		if !found {
			return nil
		}
		out = append(out, Mono{m.C, fs})
	}
	return mulL(c, fromMonos(out))
}

// content splits p = c * prim where c is a monomial (numeric and common factors) and prim has leading coefficient 1.
func content(p *Term) (c, prim *Term) {
	if p.Op != OpPoly {
		if p.isNum() {
			return p, One
		}
		return One, p
	}
	if len(p.P) == 1 {
		return p, One
	}
	lead := p.P[0].C
	// common factors
	common := map[*Term]int{}
	for _, f := range p.P[0].F {
		common[f.T] = f.E
	}
	for _, m := range p.P[1:] {
		have := map[*Term]int{}
		for _, f := range m.F {
			have[f.T] = f.E
		}
		for t, e := range common {
			h := have[t]
			if (e > 0 && h <= 0) || (e < 0 && h >= 0) {
				delete(common, t)
				continue
			}
			if e > 0 && h < e {
				common[t] = h
			}
			if e < 0 && h > e {
				common[t] = h
			}
		}
	}
	var order []*Term
	for t := range common {
		if t.app("exp") {
			continue
		}
		order = append(order, t)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	cm := buildMono(lead, order, common)
	c = fromMonos([]Mono{cm})
	inv := Mono{new(big.Rat).Inv(lead), nil}
	for _, t := range order {
		inv.F = append(inv.F, Fac{t, -common[t]})
	}
	var out []Mono
	for _, m := range p.P {
		out = append(out, mulMono(m, inv)...)
	}
	prim = fromMonos(out)
	return
}

func Div(a, b *Term) *Term {
	return lift(func(as []*Term) *Term { return divL(as[0], as[1]) }, a, b)
}
func divL(a, b *Term) *Term {
	if a.Op == OpNaN || b.Op == OpNaN {
		return NaNT
	}
	if a.Op == OpInf || b.Op == OpInf {
		if b.Op == OpInf && finiteTerm(a) {
			return Zero
		}
		if a.Op == OpInf && finiteTerm(b) {
			switch signOf(b) {
			case 1:
				return a
			case -1:
				return mulL(Num(-1), a)
			}
		}
		return App("fdiv", nil, a, b)
	}
	if b.isNum() {
		if b.R.Sign() == 0 {
			if a.isNum() {
				switch a.R.Sign() {
				case 0:
					return NaNT
				case 1:
					return InfP
				default:
					return InfN
				}
			}
			return App("fdiv", nil, a, b)
		}
		return mulL(a, NumR(new(big.Rat).Inv(b.R)))
	}
	return mulL(a, invL(b))
}
func invL(b *Term) *Term {
	pb := polyOf(b)
	if len(pb) == 1 {
		m := pb[0]
		fs := make([]Fac, len(m.F))
		var extra *Term
		for i, f := range m.F {
			fs[i] = Fac{f.T, -f.E}
			if f.T.app("exp") {
				extra = Exp(Mul(Num(int64(-f.E)), f.T.A[0]))
			}
		}
		if extra != nil {
			var fs2 []Fac
			for _, f := range fs {
				if !f.T.app("exp") {
					fs2 = append(fs2, f)
				}
			}
			return mulL(fromMonos([]Mono{{new(big.Rat).Inv(m.C), fs2}}), extra)
		}
		return fromMonos([]Mono{{new(big.Rat).Inv(m.C), fs}})
	}
	c, prim := content(b)
	if prim.Op != OpPoly {
		return mulL(invL(c), invL(prim))
	}
	return mulL(invL(c), fromMonos([]Mono{{ratOne, []Fac{{prim, -1}}}}))
}

func Exp(z *Term) *Term { return lift(func(as []*Term) *Term { return expL(as[0]) }, z) }
func expL(z *Term) *Term {
	if z == Zero {
		return One
	}
	if z.Op == OpNaN || z == InfP {
		return z
	}
	if z == InfN {
		return Zero
	}
	// exp(n*ln a + rest): pull out integer multiples of logarithms
	var rest []Mono
	pulled := One
	for _, m := range polyOf(z) {
		if len(m.F) == 1 && m.F[0].E == 1 && m.F[0].T.app("ln") && m.C.IsInt() && m.C.Num().IsInt64() {
			n := m.C.Num().Int64()
			if n <= 8 && n >= -8 {
				a := m.F[0].T.A[0]
				for i := int64(0); i < n; i++ {
					pulled = mulL(pulled, a)
				}
				for i := int64(0); i < -n; i++ {
					pulled = divL(pulled, a)
				}
				continue
			}
		}
		rest = append(rest, m)
	}
	r := fromMonos(rest)
	if r == Zero {
		return pulled
	}
	e := appRaw("exp", tFloat, r)
	if pulled == One {
		return e
	}
	return mulL(pulled, e)
}

func Ln(a *Term) *Term { return lift(func(as []*Term) *Term { return lnL(as[0]) }, a) }
func lnL(a *Term) *Term {
	if a == One {
		return Zero
	}
	if a.Op == OpNaN || a.Op == OpInf {
		if a == InfN {
			return NaNT
		}
		return a
	}
	if a.app("exp") {
		return a.A[0]
	}
	if !a.isNum() && signOf(a) < 0 {
		return NaNT
	}
	if a.isNum() {
		if a.R.Sign() < 0 {
			return NaNT
		}
		if a.R.Sign() == 0 {
			return InfN
		}
		return appRaw("ln", tFloat, a)
	}
	if a.Op == OpPoly {
		c, prim := content(a)
		if c != One && c.Op != OpPoly && c.isNum() && prim != One {
			if c.R.Sign() < 0 {
				return appRaw("ln", tFloat, a)
			}
			return addL(lnL(c), lnL(prim))
		}
		if len(polyOf(c)) == 1 && (c != One) {
			m := polyOf(c)[0]
			if m.C.Sign() < 0 {
				return appRaw("ln", tFloat, a)
			}
			s := Zero
			if m.C.Cmp(ratOne) != 0 {
				s = addL(s, lnL(NumR(m.C)))
			}
			for _, f := range m.F {
				s = addL(s, mulL(Num(int64(f.E)), lnL(f.T)))
			}
			if prim != One {
				s = addL(s, lnL(prim))
			}
			return s
		}
	}
	return appRaw("ln", tFloat, a)
}

func Pow(a, b *Term) *Term {
	return lift(func(as []*Term) *Term { return powL(as[0], as[1]) }, a, b)
}
func powL(a, b *Term) *Term {
	if a.Op == OpNaN || b.Op == OpNaN {
		return NaNT
	}
	if a.isNum() && b.isNum() {
		if !(a == Num(10)) || b.R.IsInt() {
			x, _ := a.R.Float64()
			y, _ := b.R.Float64()
			return NumF(math.Pow(x, y))
		}
	}
	if n, ok := b.int64(); ok && n >= -4 && n <= 4 {
		r := One
		for i := int64(0); i < n; i++ {
			r = mulL(r, a)
		}
		for i := int64(0); i < -n; i++ {
			r = divL(r, a)
		}
		return r
	}
	return Exp(Mul(b, Ln(a)))
}

// ---------------------------------------------------------------- ranges

type rng struct{ lo, hi *big.Rat } // nil: unbounded

func ri(lo, hi int64) rng { return rng{big.NewRat(lo, 1), big.NewRat(hi, 1)} }

func typeRange(T types.Type) rng {
	if T == nil {
		return rng{}
	}
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return rng{}
	}
	switch b.Kind() {
	case types.Uint8:
		return ri(0, 255)
	case types.Uint16:
		return ri(0, 65535)
	case types.Uint32:
		return ri(0, math.MaxUint32)
	case types.Uint64, types.Uint, types.Uintptr:
		return rng{lo: new(big.Rat)}
	case types.Int8:
		return ri(-128, 127)
	case types.Int16:
		return ri(-32768, 32767)
	case types.Int32:
		return ri(math.MinInt32, math.MaxInt32)
	}
	return rng{}
}

func rangeOf(t *Term) rng {
	switch t.Op {
	case OpNum:
		return rng{t.R, t.R}
	case OpIte:
		a, b := rangeOf(t.A[1]), rangeOf(t.A[2])
		var r rng
		if a.lo != nil && b.lo != nil {
			r.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				r.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			r.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				r.hi = b.hi
			}
		}
		return r
	case OpPoly:
		var r rng
		lo, hi := new(big.Rat), new(big.Rat)
		okLo, okHi := true, true
		for _, m := range t.P {
			mr := rng{ratOne, ratOne}
			for _, f := range m.F {
				if f.E < 1 || f.E > 2 {
					mr = rng{}
					break
				}
				fr := rangeOf(f.T)
				for i := 0; i < f.E; i++ {
					mr = mulRange(mr, fr)
				}
			}
			l, h := mr.lo, mr.hi
			if m.C.Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				okLo = false
			} else {
				lo.Add(lo, new(big.Rat).Mul(l, m.C))
			}
			if h == nil {
				okHi = false
			} else {
				hi.Add(hi, new(big.Rat).Mul(h, m.C))
			}
		}
		if okLo {
			r.lo = lo
		}
		if okHi {
			r.hi = hi
		}
		return r
	case OpSym:
		if strings.HasPrefix(t.S, "k@") || strings.HasPrefix(t.S, "kx@") {
			return rng{lo: new(big.Rat)}
		}
		return typeRange(t.T)
	case OpApp:
		switch {
		case strings.HasPrefix(t.S, "kx:"):
			return rng{lo: new(big.Rat)}
		case t.S == "until.len" || t.S == "remaining" || t.S == "readn" || t.S == "until.cap" || t.S == "cap.app" || t.S == "maplen" || t.S == "readfulln" || t.S == "discardn":
			return rng{lo: new(big.Rat)}
		case t.S == "len" || t.S == "cap":
			return rng{lo: new(big.Rat)}
		case t.S == "bits":
			w, _ := t.A[2].int64()
			return rng{new(big.Rat), new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))}
		case t.S == "rng.idx" || t.S == "rng.count" || t.S == "rng.pos":
			return rng{lo: new(big.Rat)}
		case t.S == "rem":
			if c := t.A[1]; c.isNum() && c.R.Sign() > 0 {
				h := new(big.Rat).Sub(c.R, ratOne)
				if l := rangeOf(t.A[0]).lo; l != nil && l.Sign() >= 0 {
					return rng{new(big.Rat), h}
				}
				return rng{new(big.Rat).Neg(h), h}
			}
		case t.S == "quo":
			if c := t.A[1]; c.isNum() && c.R.Sign() > 0 {
				r := rangeOf(t.A[0])
				if r.lo != nil && r.lo.Sign() >= 0 {
					var o rng
					o.lo = floorRat(new(big.Rat).Quo(r.lo, c.R))
					if r.hi != nil {
						o.hi = floorRat(new(big.Rat).Quo(r.hi, c.R))
					}
					return o
				}
			}
		case t.S == "abs":
			return rng{lo: new(big.Rat)}
		case strings.HasPrefix(t.S, "init:stream"):
			return rng{lo: new(big.Rat)}
		case strings.HasPrefix(t.S, "scan:"):
			// width-limited integer scan: scan:<width>
			return typeRange(t.T)
		}
		if r, ok := extraRange[t.S]; ok {
			return r
		}
		return typeRange(t.T)
	}
	return rng{}
}

var extraRange = map[string]rng{}

// constant element length of large literal tables
var bigLen = map[string]int64{}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return new(big.Rat).SetInt(q)
}

func mulRange(a, b rng) rng {
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var r rng
		for _, x := range []*big.Rat{a.lo, a.hi} {
			for _, y := range []*big.Rat{b.lo, b.hi} {
				p := new(big.Rat).Mul(x, y)
				if r.lo == nil || p.Cmp(r.lo) < 0 {
					r.lo = p
				}
				if r.hi == nil || p.Cmp(r.hi) > 0 {
					r.hi = p
				}
			}
		}
		return r
	}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		return rng{lo: new(big.Rat).Mul(a.lo, b.lo)}
	}
	return rng{}
}

// ---------------------------------------------------------------- predicates

func isIntTerm(t *Term) bool {
	for _, m := range polyOf(t) {
		if !m.C.IsInt() {
			return false
		}
		for _, f := range m.F {
			if f.E < 0 || f.T.K != KInt {
				return false
			}
		}
	}
	return true
}

// Ge0: integer predicate p >= 0
func Ge0(p *Term) *Term { return lift(func(as []*Term) *Term { return ge0L(as[0]) }, p) }
func ge0L(p *Term) *Term {
	if p.isNum() {
		return Bool(p.R.Sign() >= 0)
	}
	if !numericLeaf(p) {
		return typed(appRaw("ge0", tBool, p))
	}
	r := rangeOf(p)
	if r.lo != nil && r.lo.Sign() >= 0 {
		return True
	}
	if r.hi != nil && r.hi.Sign() < 0 {
		return False
	}
	ms := polyOf(p)
	// content
	g := new(big.Int)
	c0 := new(big.Rat)
	allInt := true
	for _, m := range ms {
		if !m.C.IsInt() {
			allInt = false
		}
		if len(m.F) == 0 {
			c0 = m.C
			continue
		}
		if m.C.IsInt() {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.C.Num()))
		}
	}
	if allInt && g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 {
		gr := new(big.Rat).SetInt(g)
		var out []Mono
		for _, m := range ms {
			if len(m.F) == 0 {
				continue
			}
			out = append(out, Mono{new(big.Rat).Quo(m.C, gr), m.F})
		}
		fl := floorRat(new(big.Rat).Quo(c0, gr))
		out = append(out, Mono{fl, nil})
		return ge0L(fromMonos(out))
	}
	// canonical sign: first non-constant monomial positive
	var lead *big.Rat
	for _, m := range ms {
		if len(m.F) > 0 {
			lead = m.C
			break
		}
	}
	if lead.Sign() < 0 && allInt {
		return Not(ge0L(addL(Neg(p), Num(-1))))
	}
	// single bit variable
	if len(ms) <= 2 {
		for _, m := range ms {
			if len(m.F) == 1 && m.F[0].E == 1 && m.F[0].T.app("bits") && m.F[0].T.A[2] == One {
				b := bitAtom(m.F[0].T)
				v0 := c0.Sign() >= 0
				v1 := new(big.Rat).Add(c0, m.C).Sign() >= 0
				return Ite(b, Bool(v1), Bool(v0))
			}
		}
	}
	return node(appRaw("ge0", tBool, p), True, False)
}

func bitAtom(b *Term) *Term { // b = bits(x,lo,1)
	return node(appRaw("bit", tBool, b.A[0], b.A[1]), True, False)
}

func Ge(a, b *Term) *Term { return Ge0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Ge0(AddC(Sub(b, a), -1)) }
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }

// Eq0: integer predicate p == 0
func Eq0(p *Term) *Term { return lift(func(as []*Term) *Term { return eq0L(as[0]) }, p) }
func eq0L(p *Term) *Term {
	if p.isNum() {
		return Bool(p.R.Sign() == 0)
	}
	if !numericLeaf(p) {
		return typed(appRaw("eq0", tBool, p))
	}
	r := rangeOf(p)
	if (r.lo != nil && r.lo.Sign() > 0) || (r.hi != nil && r.hi.Sign() < 0) {
		return False
	}
	ms := polyOf(p)
	c0 := new(big.Rat)
	g := new(big.Int)
	allInt := true
	for _, m := range ms {
		if !m.C.IsInt() {
			allInt = false
		}
		if len(m.F) == 0 {
			c0 = m.C
		} else if m.C.IsInt() {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.C.Num()))
		}
	}
	if allInt && g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 {
		gr := new(big.Rat).SetInt(g)
		q := new(big.Rat).Quo(c0, gr)
		if !q.IsInt() {
			return False
		}
		var out []Mono
		for _, m := range ms {
			out = append(out, Mono{new(big.Rat).Quo(m.C, gr), m.F})
		}
		return eq0L(fromMonos(out))
	}
	// bit-field decomposition
	if r := eqFields(p, c0); r != nil {
		return r
	}
	// x % 2^n == 0 on possibly negative x  <=>  low bits zero
	if len(ms) == 1 && len(ms[0].F) == 1 && ms[0].F[0].E == 1 && ms[0].F[0].T.app("rem") {
		t := ms[0].F[0].T
		if n, ok := t.A[1].int64(); ok && n == 2 {
			return Eq0(bitsL(t.A[0], 0, 1))
		}
	}
	var lead *big.Rat
	for _, m := range ms {
		if len(m.F) > 0 {
			lead = m.C
			break
		}
	}
	if lead.Sign() < 0 {
		p = Neg(p)
	}
	raw := node(appRaw("eq0", tBool, p), True, False)
	if err, is := delimiter(p); err != nil {
		if is {
			return Or(IsNilT(err), raw)
		}
		return And(Not(IsNilT(err)), raw)
	}
	return raw
}

// delimiter recognises a comparison of the last byte read up to a delimiter with
// a constant: when the read succeeds it is the delimiter.
func delimiter(p *Term) (err *Term, is bool) {
	ms := polyOf(p)
	c, x := new(big.Rat), (*Term)(nil)
	for _, m := range ms {
		switch {
		case len(m.F) == 0:
			c = new(big.Rat).Neg(m.C)
		case x == nil && len(m.F) == 1 && m.F[0].E == 1 && m.F[0].T.app("sel") && m.C.IsInt() && m.C.Num().IsInt64() && m.C.Num().Int64() == 1:
			x = m.F[0].T
		default:
			return nil, false
		}
	}
	if x == nil {
		return nil, false
	}
	for _, m := range polyOf(x.A[1]) {
		if len(m.F) == 1 && m.F[0].E == 1 && m.F[0].T.app("until.len") && m.F[0].T.A[0] == x.A[0] {
			n := m.F[0].T
			if d, ok := n.A[2].int64(); ok && Sub(x.A[1], n) == AddC(n.A[1], -1) {
				return App("until.err", tErr, n.A...), c.Cmp(big.NewRat(d, 1)) == 0
			}
		}
	}
	return nil, false
}

// eqFields decides sum(2^pos * field) + c0 == 0 field by field.
func eqFields(p *Term, c0 *big.Rat) *Term {
	q := addL(p, NumR(new(big.Rat).Neg(c0)))
	neg := new(big.Rat).Neg(c0)
	if !neg.IsInt() {
		return nil
	}
	fs, ok := bitFields(q)
	if !ok {
		q = Neg(q)
		neg = new(big.Rat).Neg(neg)
		fs, ok = bitFields(q)
		if !ok {
			return nil
		}
	}
	if len(fs) == 1 && !fs[0].part {
		return nil
	}
	v := neg.Num()
	if v.Sign() < 0 {
		return False
	}
	r := True
	rest := new(big.Int).Set(v)
	for _, f := range fs {
		want := new(big.Int).Rsh(v, uint(f.pos))
		mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(f.w)), big.NewInt(1))
		want.And(want, mask)
		rest.Sub(rest, new(big.Int).Lsh(want, uint(f.pos)))
		if f.part {
			if f.w > 16 {
				return nil
			}
			for i := 0; i < f.w; i++ {
				b := bitAtom(appRaw("bits", tInt, f.src, Num(int64(f.lo+i)), One))
				if want.Bit(i) == 0 {
					b = Not(b)
				}
				r = And(r, b)
			}
		} else {
			r = And(r, Eq0(Sub(f.src, NumR(new(big.Rat).SetInt(want)))))
		}
	}
	if rest.Sign() != 0 {
		return False
	}
	return r
}

func EqInt(a, b *Term) *Term { return Eq0(Sub(a, b)) }

// float predicates (false on NaN)
func FLt0(p *Term) *Term { return lift(func(as []*Term) *Term { return fcmpL("flt0", as[0]) }, p) }
func FLe0(p *Term) *Term { return lift(func(as []*Term) *Term { return fcmpL("fle0", as[0]) }, p) }
func FEq0(p *Term) *Term { return lift(func(as []*Term) *Term { return fcmpL("feq0", as[0]) }, p) }

func fcmpL(op string, p *Term) *Term {
	sgn := func(s int) *Term {
		switch op {
		case "flt0":
			return Bool(s < 0)
		case "fle0":
			return Bool(s <= 0)
		}
		return Bool(s == 0)
	}
	switch p.Op {
	case OpNum:
		return sgn(p.R.Sign())
	case OpNaN:
		return False
	case OpInf:
		if p == InfP {
			return sgn(1)
		}
		return sgn(-1)
	}
	if l := big.NewInt(1); !isIntTerm(p) && p.Op == OpPoly {
		// integers with fractional coefficients
		for _, m := range p.P {
			d := m.C.Denom()
			l.Mul(l, new(big.Int).Div(d, new(big.Int).GCD(nil, nil, l, d)))
		}
		if q := mulL(NumR(new(big.Rat).SetInt(l)), p); isIntTerm(q) {
			p = q
		}
	}
	if isIntTerm(p) {
		switch op {
		case "flt0":
			return Lt(p, Zero)
		case "fle0":
			return Le(p, Zero)
		}
		return Eq0(p)
	}
	if s := signOf(p); s != 0 {
		return sgn(s)
	}
	if p.Op == OpPoly || p.Op == OpSym {
		switch {
		case op == "flt0" && nonNeg(p):
			return False
		case op == "fle0" && p.Op == OpPoly && nonNeg(mulL(Num(-1), p)):
			return True
		}
	}
	if q := stripExp(p); q != p {
		return fcmpL(op, q)
	}
	ms := polyOf(p)
	if len(ms) > 0 {
		// scale by the coefficient of the first non-constant monomial
		for _, m := range ms {
			if len(m.F) > 0 {
				s := new(big.Rat).Inv(new(big.Rat).Abs(m.C))
				if op == "feq0" && m.C.Sign() < 0 {
					s.Neg(s)
				}
				p = mulL(NumR(s), p)
				break
			}
		}
	}
	return node(appRaw(op, tBool, p), True, False)
}

func IsNaN(p *Term) *Term { return lift(func(as []*Term) *Term { return isNaNL(as[0]) }, p) }
func isNaNL(p *Term) *Term {
	switch p.Op {
	case OpNum, OpInf:
		return False
	case OpNaN:
		return True
	}
	if isIntTerm(p) || finiteTerm(p) {
		return False
	}
	if p.app("f32") {
		return isNaNL(p.A[0])
	}
	if p.app("abs") {
		return isNaNL(p.A[0])
	}
	if p.Op == OpPoly {
		// strip additive/multiplicative constants
		var out []Mono
		for _, m := range p.P {
			if len(m.F) > 0 {
				out = append(out, m)
			}
		}
		if len(out) == 1 && len(out[0].F) == 1 && out[0].F[0].E == 1 {
			return isNaNL(out[0].F[0].T)
		}
	}
	return node(appRaw("isnan", tBool, p), True, False)
}

// subject of an atom for theory reduction
func hasSubject(a *Term) bool {
	if a.Op != OpApp {
		return false
	}
	switch a.S {
	case "ge0", "eq0", "eqv", "isnan", "flt0", "fle0", "feq0":
		return true
	}
	return false
}

type subj struct {
	key string
	c   *big.Rat
	neg bool
}

var subjMemo = map[int]subj{}

func subject(p *Term) subj {
	if s, ok := subjMemo[p.ID]; ok {
		return s
	}
	var kb strings.Builder
	c := new(big.Rat)
	neg := false
	first := true
	for _, m := range polyOf(p) {
		if len(m.F) == 0 {
			c = m.C
			continue
		}
		if first {
			neg = m.C.Sign() < 0
			first = false
		}
		cc := m.C
		if neg {
			cc = new(big.Rat).Neg(cc)
		}
		kb.WriteString(cc.RatString())
		kb.WriteByte('.')
		kb.WriteString(monoKey(m.F))
		kb.WriteByte('+')
	}
	if neg {
		c = new(big.Rat).Neg(c)
	}
	s := subj{kb.String(), c, neg}
	subjMemo[p.ID] = s
	return s
}

// litDecide: does atom a with truth value v decide atom b? 1 true, -1 false, 0 unknown
func litDecide(a *Term, v bool, b *Term) int {
	if b.Op != OpApp || a == b {
		return 0
	}
	switch a.S {
	case "eqv":
		if v && b.S == "eqv" {
			// x == c1 decides x == c2
			if a.A[0] == b.A[0] && a.A[1].isConst() && b.A[1].isConst() && a.A[1] != b.A[1] {
				return -1
			}
			if a.A[0] == b.A[0] && isKnownNonNil(a.A[1]) && b.A[1] == Nil {
				return -1
			}
		}
		if v && b.S == "isnil" && a.A[0] == b.A[0] && isKnownNonNil(a.A[1]) {
			return -1
		}
	case "isnan":
		if v && (b.S == "flt0" || b.S == "fle0" || b.S == "feq0") && polyMentions(b.A[0], a.A[0]) {
			return -1
		}
	case "flt0", "fle0", "feq0":
		if v && b.S == "isnan" && polyMentions(a.A[0], b.A[0]) {
			return -1
		}
		if b.S == "flt0" || b.S == "fle0" || b.S == "feq0" {
			// sign information, valid for v == true only (NaN)
			if !v {
				return 0
			}
			sa, sb := subject(a.A[0]), subject(b.A[0])
			if sa.key != sb.key {
				return 0
			}
			// value of subject s: a says  (+/-)(s + ca) < 0 ...
			lo, hi, los, his := floatLit(a, sa)
			return decideFloat(b, sb, lo, hi, los, his)
		}
	case "ge0", "eq0":
		if b.S != "ge0" && b.S != "eq0" {
			return 0
		}
		sa, sb := subject(a.A[0]), subject(b.A[0])
		if sa.key != sb.key || sa.neg != sb.neg {
			return 0
		}
		// s = subject value; a: s + ca >=0 / ==0
		var lo, hi *big.Rat // bounds on s
		na := new(big.Rat).Neg(sa.c)
		if a.S == "eq0" {
			if v {
				lo, hi = na, na
			} else {
				if b.S == "eq0" {
					return 0
				}
				return 0
			}
		} else if v {
			lo = na
		} else {
			hi = new(big.Rat).Sub(na, ratOne)
		}
		nb := new(big.Rat).Neg(sb.c)
		if b.S == "eq0" {
			if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				if lo.Cmp(nb) == 0 {
					return 1
				}
				return -1
			}
			if lo != nil && nb.Cmp(lo) < 0 {
				return -1
			}
			if hi != nil && nb.Cmp(hi) > 0 {
				return -1
			}
			return 0
		}
		if lo != nil && lo.Cmp(nb) >= 0 {
			return 1
		}
		if hi != nil && hi.Cmp(nb) < 0 {
			return -1
		}
	}
	return 0
}

func floatLit(a *Term, s subj) (lo, hi *big.Rat, los, his bool) {
	na := new(big.Rat).Neg(s.c)
	strict := a.S == "flt0"
	if a.S == "feq0" {
		return na, na, false, false
	}
	if s.neg { // -(x + c) < 0  => x > -c
		return na, nil, strict, false
	}
	return nil, na, false, strict
}
func decideFloat(b *Term, s subj, lo, hi *big.Rat, los, his bool) int {
	nb := new(big.Rat).Neg(s.c)
	// evaluate b on interval
	cmpLo := func() int { // position of interval's low end vs nb
		if lo == nil {
			return -2
		}
		return lo.Cmp(nb)
	}
	cmpHi := func() int {
		if hi == nil {
			return 2
		}
		return hi.Cmp(nb)
	}
	allLt := cmpHi() < 0 || (cmpHi() == 0 && his)
	allLe := cmpHi() <= 0
	allGt := cmpLo() > 0 || (cmpLo() == 0 && los)
	allGe := cmpLo() >= 0
	if b.S == "feq0" {
		if allLt || allGt {
			return -1
		}
		if allLe && allGe {
			return 1
		}
		return 0
	}
	strict := b.S == "flt0"
	if s.neg {
		// b: x > nb (strict) or x >= nb
		if strict {
			if allGt {
				return 1
			}
			if allLe {
				return -1
			}
		} else {
			if allGe {
				return 1
			}
			if allLt {
				return -1
			}
		}
		return 0
	}
	if strict {
		if allLt {
			return 1
		}
		if allGe {
			return -1
		}
	} else {
		if allLe {
			return 1
		}
		if allGt {
			return -1
		}
	}
	return 0
}

// polyMentions: x is one of the factors of p (so p is NaN whenever x is)
func polyMentions(p, x *Term) bool {
	if p == x {
		return true
	}
	for _, m := range polyOf(p) {
		for _, f := range m.F {
			if f.T == x {
				return true
			}
			if f.T.app("abs") && f.T.A[0] == x {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- bit fields

type bitField struct {
	src  *Term
	lo   int
	w    int
	pos  int
	part bool // proper part of src (a "bits" application)
}

func bitWidth(t *Term) (int, bool) {
	r := rangeOf(t)
	if r.lo == nil || r.hi == nil || r.lo.Sign() < 0 || !r.hi.IsInt() {
		return 0, false
	}
	return r.hi.Num().BitLen(), true
}

func bitFields(p *Term) ([]bitField, bool) {
	var fs []bitField
	for _, m := range polyOf(p) {
		if !m.C.IsInt() || m.C.Sign() <= 0 {
			return nil, false
		}
		n := m.C.Num()
		pos := n.BitLen() - 1
		if new(big.Int).Lsh(big.NewInt(1), uint(pos)).Cmp(n) != 0 {
			return nil, false
		}
		if len(m.F) != 1 || m.F[0].E != 1 {
			return nil, false
		}
		t := m.F[0].T
		if t.app("bits") {
			lo, _ := t.A[1].int64()
			w, _ := t.A[2].int64()
			fs = append(fs, bitField{t.A[0], int(lo), int(w), pos, true})
			continue
		}
		w, ok := bitWidth(t)
		if !ok || t.K != KInt {
			return nil, false
		}
		fs = append(fs, bitField{t, 0, w, pos, false})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].pos < fs[j].pos })
	for i := 1; i < len(fs); i++ {
		if fs[i-1].pos+fs[i-1].w > fs[i].pos {
			return nil, false
		}
	}
	return fs, true
}

func Bits(x *Term, lo, w int) *Term {
	return lift(func(as []*Term) *Term { return bitsL(as[0], lo, w) }, x)
}
func bitsL(x *Term, lo, w int) *Term {
	if w <= 0 {
		return Zero
	}
	if x.app("or") || x.app("and") || x.app("xor") {
		// bitwise operations act on each bit
		a, b := bitsL(x.A[0], lo, w), bitsL(x.A[1], lo, w)
		switch x.S {
		case "or":
			return BitOr(a, b)
		case "and":
			return BitAnd(a, b)
		}
		return BitXor(a, b)
	}
	if x.isNum() && x.R.IsInt() {
		v := new(big.Int).Rsh(x.R.Num(), uint(lo))
		mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		return NumR(new(big.Rat).SetInt(v.And(v, mask)))
	}
	if x.Op == OpPoly || x.Op == OpSym || x.Op == OpApp {
		c := polyConst(x)
		if c.Sign() == 0 {
			if fs, ok := bitFields(x); ok {
				return takeFields(fs, lo, w)
			}
		}
		if x.Op == OpPoly && isIntTerm(x) {
			// x = 2^k*y + r with 0 <= r < 2^k
			k := -1
			for _, m := range x.P {
				if len(m.F) == 0 {
					continue
				}
				if z := int(m.C.Num().TrailingZeroBits()); k < 0 || z < k {
					k = z
				}
			}
			if k > 0 {
				var out []Mono
				for _, m := range x.P {
					if len(m.F) > 0 {
						out = append(out, Mono{NumR(new(big.Rat).SetInt(new(big.Int).Rsh(m.C.Num(), uint(k)))).R, m.F})
					}
				}
				hi := new(big.Int).Rsh(c.Num(), uint(k))
				r := new(big.Int).Sub(c.Num(), new(big.Int).Lsh(hi, uint(k)))
				y := addL(fromMonos(out), NumR(new(big.Rat).SetInt(hi)))
				rt := NumR(new(big.Rat).SetInt(r))
				switch {
				case lo >= k:
					return bitsFit(y, lo-k, w)
				case lo+w <= k:
					return bitsL(rt, lo, w)
				}
				return Add(bitsL(rt, lo, k-lo), Mul(pow2(k-lo), bitsFit(y, 0, w-(k-lo))))
			}
		}
		if lo == 0 && x.Op == OpPoly && isIntTerm(x) {
			// arithmetic modulo 2^w
			mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
			var out []Mono
			ch := false
			for _, m := range x.P {
				c := new(big.Int).Mod(m.C.Num(), mod)
				if c.Cmp(m.C.Num()) != 0 {
					ch = true
				}
				if c.Sign() != 0 {
					out = append(out, Mono{new(big.Rat).SetInt(c), m.F})
				}
			}
			if ch {
				return bitsL(fromMonos(out), 0, w)
			}
			if w == 1 && polyConst(x).Sign() != 0 {
				return Sub(One, bitsL(addL(x, Num(-1)), 0, 1))
			}
		}
	}
	// arithmetic that wraps around at most once
	if lo == 0 && w > 1 && x.Op == OpPoly && isIntTerm(x) {
		if rg := rangeOf(x); rg.lo != nil && rg.hi != nil {
			m := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(w)))
			n := floorRat(new(big.Rat).Quo(rg.lo, m))
			base := new(big.Rat).Mul(n, m)
			next := new(big.Rat).Add(base, m)
			in := Sub(x, NumR(base))
			if rg.hi.Cmp(next) < 0 {
				return in
			}
			if rg.hi.Cmp(new(big.Rat).Add(next, m)) < 0 {
				return Ite(Ge0(Sub(x, NumR(next))), Sub(x, NumR(next)), in)
			}
		}
	}
	return appRaw("bits", tInt, x, Num(int64(lo)), Num(int64(w)))
}

// bitsFit is bits(y, lo, w), which is y itself when it fits.
func bitsFit(y *Term, lo, w int) *Term {
	if lo == 0 {
		if n, ok := bitWidth(y); ok && n <= w {
			return y
		}
	}
	return bitsL(y, lo, w)
}

func polyConst(p *Term) *big.Rat {
	for _, m := range polyOf(p) {
		if len(m.F) == 0 {
			return m.C
		}
	}
	return new(big.Rat)
}

// takeFields extracts bits [lo, lo+w) of the concatenation, moved down to position 0.
func takeFields(fs []bitField, lo, w int) *Term {
	r := Zero
	for _, f := range fs {
		a, b := f.pos, f.pos+f.w
		if a < lo {
			a = lo
		}
		if b > lo+w {
			b = lo + w
		}
		if a >= b {
			continue
		}
		fl := f.lo + a - f.pos
		fw := b - a
		var t *Term
		if fl == 0 {
			if sw, ok := bitWidth(f.src); ok && sw <= fw {
				t = f.src
			}
		}
		if t == nil {
			t = appRaw("bits", tInt, f.src, Num(int64(fl)), Num(int64(fw)))
		}
		r = addL(r, mulL(pow2(a-lo), t))
	}
	return r
}

func pow2(n int) *Term {
	return NumR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n))))
}

func BitAnd(a, b *Term) *Term {
	return lift(func(as []*Term) *Term {
		a, b := as[0], as[1]
		if a.isNum() && b.isNum() && a.R.IsInt() && b.R.IsInt() {
			return NumR(new(big.Rat).SetInt(new(big.Int).And(a.R.Num(), b.R.Num())))
		}
		if a.isNum() {
			a, b = b, a
		}
		if b.isNum() && b.R.IsInt() && b.R.Sign() >= 0 {
			m := b.R.Num()
			r := Zero
			for i := 0; i < m.BitLen(); {
				if m.Bit(i) == 0 {
					i++
					continue
				}
				j := i
				for j < m.BitLen() && m.Bit(j) == 1 {
					j++
				}
				r = Add(r, Mul(pow2(i), bitsL(a, i, j-i)))
				i = j
			}
			return r
		}
		if b.isNum() && b.R.IsInt() { // negative mask: and-not of the complement
			c := new(big.Int).Not(b.R.Num())
			return Sub(a, BitAnd(a, NumR(new(big.Rat).SetInt(c))))
		}
		if w, ok := bitWidth(a); ok && w == 1 {
			if w, ok := bitWidth(b); ok && w == 1 {
				return Ite(Eq0(a), Zero, b)
			}
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return appRaw("and", tInt, a, b)
	}, a, b)
}
func BitOr(a, b *Term) *Term {
	return lift(func(as []*Term) *Term {
		a, b := as[0], as[1]
		if a.isNum() && b.isNum() && a.R.IsInt() && b.R.IsInt() {
			return NumR(new(big.Rat).SetInt(new(big.Int).Or(a.R.Num(), b.R.Num())))
		}
		if a == b {
			return a
		}
		if a == Zero {
			return b
		}
		if b == Zero {
			return a
		}
		if _, ok := bitFields(addL(a, b)); ok && polyConst(addL(a, b)).Sign() == 0 {
			return addL(a, b)
		}
		if w, ok := bitWidth(a); ok && w == 1 {
			if w, ok := bitWidth(b); ok && w == 1 {
				return Ite(Eq0(a), b, One)
			}
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return appRaw("or", tInt, a, b)
	}, a, b)
}
func BitXor(a, b *Term) *Term {
	return lift(func(as []*Term) *Term {
		a, b := as[0], as[1]
		if a.isNum() && b.isNum() && a.R.IsInt() && b.R.IsInt() {
			return NumR(new(big.Rat).SetInt(new(big.Int).Xor(a.R.Num(), b.R.Num())))
		}
		if a == b {
			return Zero
		}
		if _, ok := bitFields(addL(a, b)); ok && !a.isNum() && !b.isNum() {
			return addL(a, b)
		}
		if w, ok := bitWidth(a); ok && w == 1 {
			if w, ok := bitWidth(b); ok && w == 1 {
				return Ite(Eq0(a), b, Sub(One, b))
			}
		}
		return appRaw("xor", tInt, a, b)
	}, a, b)
}
func Shl(a, n *Term) *Term {
	return lift(func(as []*Term) *Term {
		if s, ok := as[1].int64(); ok && s >= 0 && s < 64 {
			return mulL(pow2(int(s)), as[0])
		}
		if as[0].isNum() && as[0] == Zero {
			return Zero
		}
		return appRaw("shl", tInt, as[0], as[1])
	}, a, n)
}
func Shr(a, n *Term) *Term {
	return lift(func(as []*Term) *Term {
		if s, ok := as[1].int64(); ok && s >= 0 && s < 64 {
			if s == 0 {
				return as[0]
			}
			if as[0].isNum() && as[0].R.IsInt() {
				return NumR(new(big.Rat).SetInt(new(big.Int).Rsh(as[0].R.Num(), uint(s))))
			}
			if polyConst(as[0]).Sign() == 0 {
				if fs, ok := bitFields(as[0]); ok {
					return takeFields(fs, int(s), 256)
				}
			}
			if q := exactDiv(as[0], pow2(int(s))); q != nil {
				return q
			}
			r := rangeOf(as[0])
			if r.lo != nil && r.lo.Sign() >= 0 {
				return quoL(as[0], pow2(int(s)))
			}
			return appRaw("shr", tInt, as[0], as[1])
		}
		return appRaw("shr", tInt, as[0], as[1])
	}, a, n)
}

func Quo(a, b *Term) *Term {
	return lift(func(as []*Term) *Term { return quoL(as[0], as[1]) }, a, b)
}
func quoL(a, b *Term) *Term {
	if a.isNum() && b.isNum() && b.R.Sign() != 0 && a.R.IsInt() && b.R.IsInt() {
		return NumR(new(big.Rat).SetInt(new(big.Int).Quo(a.R.Num(), b.R.Num())))
	}
	if a == b {
		return One
	}
	if b == One {
		return a
	}
	if q := exactDiv(a, b); q != nil {
		return q
	}
	if n, ok := b.int64(); ok && n > 0 && n&(n-1) == 0 && polyConst(a).Sign() == 0 {
		if fs, ok := bitFields(a); ok {
			return takeFields(fs, new(big.Int).SetInt64(n).BitLen()-1, 256)
		}
	}
	if b.isNum() && b.R.Sign() > 0 {
		// a = b*q + r with r in [0,b)
		if q, r := splitMul(a, b.R); q != nil {
			rr := rangeOf(r)
			if rr.lo != nil && rr.hi != nil && rr.lo.Sign() >= 0 && rr.hi.Cmp(b.R) < 0 {
				if ql := rangeOf(q).lo; ql != nil && ql.Sign() >= 0 {
					return q
				}
			}
		}
	}
	return appRaw("quo", tInt, a, b)
}

func splitMul(a *Term, b *big.Rat) (q, r *Term) {
	var qs, rs []Mono
	for _, m := range polyOf(a) {
		d := new(big.Rat).Quo(m.C, b)
		if d.IsInt() {
			qs = append(qs, Mono{d, m.F})
		} else {
			if len(m.F) == 0 {
				fl := floorRat(d)
				qs = append(qs, Mono{fl, nil})
				rs = append(rs, Mono{new(big.Rat).Sub(m.C, new(big.Rat).Mul(fl, b)), nil})
				continue
			}
			rs = append(rs, m)
		}
	}
	return fromMonos(qs), fromMonos(rs)
}

func exactDiv(a, b *Term) *Term {
	if a == Zero {
		return Zero
	}
	pb := polyOf(b)
	if len(pb) != 1 || pb[0].C.Sign() == 0 {
		return nil
	}
	var out []Mono
	for _, m := range polyOf(a) {
		c := new(big.Rat).Quo(m.C, pb[0].C)
		if !c.IsInt() {
			return nil
		}
		es := map[*Term]int{}
		var order []*Term
		for _, f := range m.F {
			es[f.T] = f.E
			order = append(order, f.T)
		}
		for _, f := range pb[0].F {
			if es[f.T] < f.E {
				return nil
			}
			es[f.T] -= f.E
		}
		out = append(out, buildMono(c, order, es))
	}
	return fromMonos(out)
}

func Rem(a, b *Term) *Term {
	return lift(func(as []*Term) *Term {
		a, b := as[0], as[1]
		if a.isNum() && b.isNum() && b.R.Sign() != 0 && a.R.IsInt() && b.R.IsInt() {
			return NumR(new(big.Rat).SetInt(new(big.Int).Rem(a.R.Num(), b.R.Num())))
		}
		if a == b || b == One {
			return Zero
		}
		if exactDiv(a, b) != nil {
			return Zero
		}
		if n, ok := b.int64(); ok && n > 0 && n&(n-1) == 0 && polyConst(a).Sign() == 0 {
			if fs, ok := bitFields(a); ok {
				return takeFields(fs, 0, new(big.Int).SetInt64(n).BitLen()-1)
			}
		}
		if b.isNum() && b.R.Sign() > 0 {
			r := rangeOf(a)
			if r.lo != nil && r.hi != nil && r.lo.Sign() >= 0 && r.hi.Cmp(b.R) < 0 {
				return a
			}
		}
		return appRaw("rem", tInt, a, b)
	}, a, b)
}

// ---------------------------------------------------------------- applications

var (
	tInt   types.Type = types.Typ[types.Int]
	tByte  types.Type = types.Typ[types.Uint8]
	tFloat types.Type = types.Typ[types.Float64]
	tBool  types.Type = types.Typ[types.Bool]
	tStr   types.Type = types.Typ[types.String]
	tErr   types.Type = types.Universe.Lookup("error").Type()
)

func appRaw(name string, T types.Type, as ...*Term) *Term {
	b := append([]byte("@"), name...)
	b = ids(b, as)
	return mk(string(b), func() *Term {
		return &Term{Op: OpApp, S: name, T: T, K: kindOf(T), A: append([]*Term{}, as...)}
	})
}

var smart map[string]func(T types.Type, as []*Term) *Term

// App builds a pure application, lifting gated arguments and folding known functions.
func App(name string, T types.Type, as ...*Term) *Term {
	if (name == "mapget" || name == "maphas") && as[0].Op == OpIte {
		as = append([]*Term{Box(as[0])}, as[1:]...)
	}
	return lift(func(as []*Term) *Term {
		if f, ok := smart[name]; ok {
			if r := f(T, as); r != nil {
				return r
			}
		}
		return typed(appRaw(name, T, as...))
	}, as...)
}

// Box hides the gates of a map whose contents depend on how a loop ended, so
// that lookups in it stay single terms.
func Box(t *Term) *Term {
	if t.Op != OpIte || !mentions(t, func(x *Term) bool { return x.Op == OpApp && strings.HasPrefix(x.S, "carry:") }) {
		return t
	}
	return appRaw("box", nil, t)
}

func num1(f func(float64) float64) func(types.Type, []*Term) *Term {
	return func(_ types.Type, as []*Term) *Term {
		if as[0].isNum() {
			x, _ := as[0].R.Float64()
			return NumF(f(x))
		}
		if as[0].Op == OpNaN {
			return NaNT
		}
		return nil
	}
}

func leadNeg(t *Term) bool {
	for _, m := range polyOf(t) {
		if len(m.F) > 0 {
			return m.C.Sign() < 0
		}
	}
	return false
}

func init() {
	defer func() {
		// nothing is found in an empty text
		for _, n := range []string{"IndexFunc", "IndexByte", "IndexRune", "IndexAny", "LastIndexFunc", "LastIndexByte", "LastIndexAny"} {
			smart["strings."+n] = func(_ types.Type, as []*Term) *Term {
				if len(as) > 0 && as[0] == Str("") {
					return Num(-1)
				}
				return nil
			}
		}
	}()
	smart = map[string]func(types.Type, []*Term) *Term{
		"sin": func(T types.Type, as []*Term) *Term {
			if r := num1(math.Sin)(T, as); r != nil {
				return r
			}
			if leadNeg(as[0]) {
				return Neg(App("sin", tFloat, Neg(as[0])))
			}
			return appRaw("sin", tFloat, as[0])
		},
		"cos": func(T types.Type, as []*Term) *Term {
			if r := num1(math.Cos)(T, as); r != nil {
				return r
			}
			if leadNeg(as[0]) {
				return App("cos", tFloat, Neg(as[0]))
			}
			return appRaw("cos", tFloat, as[0])
		},
		"tan": func(T types.Type, as []*Term) *Term {
			if r := num1(math.Tan)(T, as); r != nil {
				return r
			}
			if leadNeg(as[0]) {
				return Neg(App("tan", tFloat, Neg(as[0])))
			}
			return appRaw("tan", tFloat, as[0])
		},
		"exp":  func(_ types.Type, as []*Term) *Term { return expL(as[0]) },
		"ln":   func(_ types.Type, as []*Term) *Term { return lnL(as[0]) },
		"bits": func(_ types.Type, as []*Term) *Term { return bitsCtor(as) },
		"quo":  func(_ types.Type, as []*Term) *Term { return quoL(as[0], as[1]) },
		"rem":  func(_ types.Type, as []*Term) *Term { return Rem(as[0], as[1]) },
		"shr":  func(_ types.Type, as []*Term) *Term { return Shr(as[0], as[1]) },
		"shl":  func(_ types.Type, as []*Term) *Term { return Shl(as[0], as[1]) },
		"and":  func(_ types.Type, as []*Term) *Term { return BitAnd(as[0], as[1]) },
		"or":   func(_ types.Type, as []*Term) *Term { return BitOr(as[0], as[1]) },
		"xor":  func(_ types.Type, as []*Term) *Term { return BitXor(as[0], as[1]) },
		"ge0":  func(_ types.Type, as []*Term) *Term { return ge0L(as[0]) },
		"eq0":  func(_ types.Type, as []*Term) *Term { return eq0L(as[0]) },
		"flt0": func(_ types.Type, as []*Term) *Term { return fcmpL("flt0", as[0]) },
		"fle0": func(_ types.Type, as []*Term) *Term { return fcmpL("fle0", as[0]) },
		"feq0": func(_ types.Type, as []*Term) *Term { return fcmpL("feq0", as[0]) },
		"isnan": func(_ types.Type, as []*Term) *Term {
			if as[0].Op == OpApp || as[0].Op == OpSym {
				if as[0].K == KInt || finiteTerm(as[0]) {
					return False
				}
				return nil
			}
			return isNaNL(as[0])
		},
		"bit": func(_ types.Type, as []*Term) *Term {
			lo, _ := as[1].int64()
			b := bitsL(as[0], int(lo), 1)
			return Not(Eq0(b))
		},
		"abs": func(T types.Type, as []*Term) *Term {
			if r := num1(math.Abs)(T, as); r != nil {
				return r
			}
			if as[0].Op == OpInf {
				return InfP
			}
			switch signOf(as[0]) {
			case 1:
				return as[0]
			case -1:
				return Neg(as[0])
			}
			if nonNeg(as[0]) {
				return as[0]
			}
			if leadNeg(as[0]) {
				return App("abs", T, Neg(as[0]))
			}
			if as[0].Op == OpPoly && len(as[0].P) == 1 {
				m := as[0].P[0]
				if m.C.Cmp(ratOne) != 0 {
					c := new(big.Rat).Abs(m.C)
					return Mul(NumR(c), App("abs", T, fromMonos([]Mono{{ratOne, m.F}})))
				}
				for i, f := range m.F {
					if signOf(f.T) > 0 && len(m.F) > 1 {
						rest := append(append([]Fac{}, m.F[:i]...), m.F[i+1:]...)
						return Mul(fromMonos([]Mono{{ratOne, []Fac{f}}}), App("abs", T, fromMonos([]Mono{{ratOne, rest}})))
					}
				}
			}
			if as[0].app("abs") {
				return as[0]
			}
			return nil
		},
		"fmod": func(T types.Type, as []*Term) *Term {
			if as[0].isNum() && as[1].isNum() {
				x, _ := as[0].R.Float64()
				y, _ := as[1].R.Float64()
				return NumF(math.Mod(x, y))
			}
			if as[0].Op == OpNaN || as[1].Op == OpNaN {
				return NaNT
			}
			return nil
		},
		"bytes2str": func(T types.Type, as []*Term) *Term {
			// the text of bytes read up to a delimiter
			l := as[0]
			if l.Op != OpArrLam || l.A[1] != Zero || l.A[3] != One || !l.A[5].app("sel") || !l.A[2].app("until.len") {
				return nil
			}
			n, k, v := l.A[2], l.A[4], l.A[5]
			if v.A[0] != n.A[0] || Sub(v.A[1], k) != n.A[1] {
				return nil
			}
			if c, ok := as[1].int64(); !ok || c < 0 {
				return nil
			}
			if c, ok := Sub(n, Add(as[1], as[2])).int64(); !ok || c < 0 {
				return nil
			}
			u := App("until", tStr, n.A...)
			if as[1] == Zero && as[2] == n {
				return u
			}
			return App("substr", tStr, u, as[1], Add(as[1], as[2]))
		},
		"floor": func(T types.Type, as []*Term) *Term { return num1(math.Floor)(T, as) },
		"ceil":  func(T types.Type, as []*Term) *Term { return num1(math.Ceil)(T, as) },
		"atan":  func(T types.Type, as []*Term) *Term { return num1(math.Atan)(T, as) },
		"round": func(T types.Type, as []*Term) *Term { return num1(math.Round)(T, as) },
		"ftrunc": func(T types.Type, as []*Term) *Term {
			return num1(math.Trunc)(T, as)
		},
		"trunc": func(T types.Type, as []*Term) *Term {
			if as[0].isNum() {
				q := new(big.Int).Quo(as[0].R.Num(), as[0].R.Denom())
				return NumR(new(big.Rat).SetInt(q))
			}
			if isIntTerm(as[0]) {
				return as[0]
			}
			return nil
		},
		"f32": func(T types.Type, as []*Term) *Term {
			a := as[0]
			if a.Op == OpNaN || a.Op == OpInf || a.app("f32") {
				return a
			}
			if a.isNum() {
				f, _ := a.R.Float64()
				return NumF(float64(float32(f)))
			}
			if a.Op != OpPoly && a.T != nil {
				if b, ok := a.T.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
					return a
				}
			}
			if isIntTerm(a) {
				r := rangeOf(a)
				if r.lo != nil && r.hi != nil && r.lo.Cmp(big.NewRat(-1<<24, 1)) >= 0 && r.hi.Cmp(big.NewRat(1<<24, 1)) <= 0 {
					return a
				}
			}
			return nil
		},
		"eqv": func(_ types.Type, as []*Term) *Term { return eqvL(as[0], as[1]) },
		"isnil": func(_ types.Type, as []*Term) *Term {
			if as[0] == Nil {
				return True
			}
			if isKnownNonNil(as[0]) {
				return False
			}
			return nil
		},
		"len":    func(_ types.Type, as []*Term) *Term { return lenL(as[0]) },
		"cap":    func(_ types.Type, as []*Term) *Term { return capL(as[0]) },
		"substr": func(_ types.Type, as []*Term) *Term { return substrL(as[0], as[1], as[2]) },
		"concat": func(_ types.Type, as []*Term) *Term { return concatL(as[0], as[1]) },
		"sel":    func(T types.Type, as []*Term) *Term { return selL(T, as[0], as[1]) },
		"mapget": func(T types.Type, as []*Term) *Term { return mapGetL(T, as[0], as[1], as[2]) },
		"maphas": func(_ types.Type, as []*Term) *Term { return mapHasL(as[0], as[1]) },
		"max0": func(_ types.Type, as []*Term) *Term {
			r := rangeOf(as[0])
			if r.lo != nil && r.lo.Sign() >= 0 {
				return as[0]
			}
			if r.hi != nil && r.hi.Sign() <= 0 {
				return Zero
			}
			return nil
		},
		"timeadd": func(T types.Type, as []*Term) *Term {
			if as[1] == Zero {
				return as[0]
			}
			if as[0].app("timeadd") {
				return App("timeadd", T, as[0].A[0], Add(as[0].A[1], as[1]))
			}
			return nil
		},
		"fneg": func(_ types.Type, as []*Term) *Term { return Neg(as[0]) },
		"sscanerr": func(_ types.Type, as []*Term) *Term {
			// scanning an empty string with a format that needs at least one value fails
			if as[0].Op == OpStr && strings.TrimSpace(as[0].S) == "" && as[1].Op == OpStr && strings.Contains(as[1].S, "%") {
				return appRaw("newerr:scan-empty", tErr)
			}
			return nil
		},
	}
	for k, v := range map[string]func(types.Type, []*Term) *Term{} {
		smart[k] = v
	}
	extraRange["max0"] = rng{lo: new(big.Rat)}
}

func bitsCtor(as []*Term) *Term {
	lo, _ := as[1].int64()
	w, _ := as[2].int64()
	return bitsL(as[0], int(lo), int(w))
}

func isKnownNonNil(t *Term) bool {
	switch t.Op {
	case OpPtr, OpFunc, OpClosure, OpIface, OpSlice, OpStruct, OpStr, OpNum, OpMap, OpMapUpd:
		return true
	case OpApp:
		return strings.HasPrefix(t.S, "newerr") || strings.HasPrefix(t.S, "nonnil:") || strings.HasPrefix(t.S, "append")
	case OpSym:
		return strings.HasPrefix(t.S, "nonnil:")
	}
	return false
}

func IsNilT(a *Term) *Term { return App("isnil", tBool, a) }

// Eq: generic equality on non-numeric values
func Eq(a, b *Term) *Term {
	return lift(func(as []*Term) *Term { return eqvL(as[0], as[1]) }, a, b)
}
func eqvL(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == OpTrue || a.Op == OpFalse || b.Op == OpTrue || b.Op == OpFalse {
		return False // distinct boolean constants (leaves)
	}
	if a == Nil {
		a, b = b, a
	}
	if b == Nil {
		return App("isnil", tBool, a)
	}
	if a.isConst() && b.isConst() {
		return False
	}
	if a.Op == OpStruct && b.Op == OpStruct && len(a.A) == len(b.A) {
		r := True
		for i := range a.A {
			r = And(r, eqAny(a.A[i], b.A[i]))
		}
		return r
	}
	if a.Op == OpIface && b.Op == OpIface {
		if a.S != b.S {
			return False
		}
		return eqAny(a.A[0], b.A[0])
	}
	if a.Op == OpPtr && b.Op == OpPtr && a.A[0].Op == OpObj && b.A[0].Op == OpObj && a.A[0].S != b.A[0].S {
		return False
	}
	if (a.appPrefix("newerr") && b.appPrefix("nonnil:g:")) || (b.appPrefix("newerr") && a.appPrefix("nonnil:g:")) {
		return False
	}
	// distinct error values allocated at distinct sites
	if a.appPrefix("newerr") && b.appPrefix("newerr") && a.S != b.S {
		return False
	}
	if a == Str("") && b.K == KStr {
		a, b = b, a
	}
	if b == Str("") && a.K == KStr {
		return eq0L(lenL(a))
	}
	// string length clash
	if a.K == KStr && b.K == KStr {
		d := Sub(lenL(a), lenL(b))
		r := rangeOf(d)
		if (r.lo != nil && r.lo.Sign() > 0) || (r.hi != nil && r.hi.Sign() < 0) {
			return False
		}
	}
	if a.isConst() || (a.ID > b.ID && !b.isConst()) {
		a, b = b, a
	}
	return typed(appRaw("eqv", tBool, a, b))
}

func eqAny(a, b *Term) *Term {
	return lift(func(as []*Term) *Term {
		x, y := as[0], as[1]
		numeric := func(t *Term) bool {
			return t.Op == OpNum || t.Op == OpPoly || t.K == KInt || t.K == KFloat
		}
		if numeric(x) && numeric(y) {
			if isIntTerm(x) && isIntTerm(y) {
				return eq0L(Sub(x, y))
			}
			return fcmpL("feq0", Sub(x, y))
		}
		return eqvL(x, y)
	}, a, b)
}

// ---------------------------------------------------------------- strings and slices

func Len(t *Term) *Term { return lift(func(as []*Term) *Term { return lenL(as[0]) }, t) }
func lenL(t *Term) *Term {
	switch t.Op {
	case OpStr:
		return Num(int64(len(t.S)))
	case OpNil:
		return Zero
	case OpSlice:
		return t.A[2]
	case OpApp:
		switch t.S {
		case "substr":
			return Sub(t.A[2], t.A[1])
		case "concat":
			return Add(lenL(t.A[0]), lenL(t.A[1]))
		case "append":
			return Add(Len(t.A[0]), Num(int64(len(t.A)-1)))
		case "str2bytes":
			return Len(t.A[0])
		case "bytes2str":
			return t.A[2]
		case "until":
			return appRaw("until.len", tInt, t.A[0], t.A[1], t.A[2])
		case "sel":
			if n, ok := bigLen[t.A[0].S]; ok && t.A[0].Op == OpApp {
				return Num(n)
			}
		}
	}
	return appRaw("len", tInt, t)
}
func capL(t *Term) *Term {
	switch t.Op {
	case OpNil:
		return Zero
	case OpSlice:
		return t.A[3]
	}
	return appRaw("cap", tInt, t)
}
func substrL(s, lo, hi *Term) *Term {
	if lo == Zero {
		if h := lenL(s); h == hi {
			return s
		}
	}
	if s.Op == OpStr {
		if s.S == "" {
			return s
		}
		l, ok1 := lo.int64()
		h, ok2 := hi.int64()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s.S)) {
			return Str(s.S[l:h])
		}
	}
	if s.app("substr") {
		return App("substr", tStr, s.A[0], Add(s.A[1], lo), Add(s.A[1], hi))
	}
	if lo == hi {
		return Str("")
	}
	return appRaw("substr", tStr, s, lo, hi)
}
func concatL(a, b *Term) *Term {
	if a.Op == OpStr && a.S == "" {
		return b
	}
	if b.Op == OpStr && b.S == "" {
		return a
	}
	if a.Op == OpStr && b.Op == OpStr {
		return Str(a.S + b.S)
	}
	if a.app("concat") { // right-assoc
		return concatL(a.A[0], concatL(a.A[1], b))
	}
	return appRaw("concat", tStr, a, b)
}

// ---------------------------------------------------------------- arrays

// selL reads element i of an array content term.
func selL(T types.Type, arr, i *Term) *Term {
	for depth := 0; depth < 4096; depth++ {
		switch arr.Op {
		case OpStr:
			if n, ok := i.int64(); ok && n >= 0 && n < int64(len(arr.S)) {
				return Num(int64(arr.S[n]))
			}
			return typed(appRaw("sel", T, arr, i))
		case OpArr:
			if n, ok := i.int64(); ok {
				for j := len(arr.A) - 2; j >= 1; j -= 2 {
					if m, ok := arr.A[j].int64(); ok && m == n {
						return arr.A[j+1]
					}
				}
				return arr.A[0]
			}
			if len(arr.A) == 1 {
				return arr.A[0]
			}
			if len(arr.A) <= 33 {
				r := arr.A[0]
				for j := 1; j < len(arr.A); j += 2 {
					r = Ite(Eq0(Sub(i, arr.A[j])), arr.A[j+1], r)
				}
				return r
			}
			return typed(appRaw("sel", T, arr, i))
		case OpArrUpd:
			d := Sub(i, arr.A[1])
			if d == Zero {
				return arr.A[2]
			}
			c := Eq0(d)
			if c == False {
				arr = arr.A[0]
				continue
			}
			return Ite(c, arr.A[2], App("sel", T, arr.A[0], i))
		case OpArrLam:
			base, lo, n, st, k, val := arr.A[0], arr.A[1], arr.A[2], arr.A[3], arr.A[4], arr.A[5]
			// index = lo + st*k
			var kk *Term
			if st == One {
				kk = Sub(i, lo)
			} else {
				kk = Sub(lo, i)
			}
			in := And(Ge0(kk), Lt(kk, n))
			v := substT(val, map[*Term]*Term{k: kk})
			if in == True || arr.S == "total" {
				return v
			}
			if in == False {
				arr = base
				continue
			}
			return Ite(in, v, App("sel", T, base, i))
		case OpApp:
			if arr.S == "substr" {
				i = Add(i, arr.A[1])
				if i.Op == OpIte {
					return App("sel", T, arr.A[0], i)
				}
				arr = arr.A[0]
				continue
			}
			if arr.S == "str2bytes" {
				arr = arr.A[0]
				continue
			}
			if arr.S == "str2runes" {
				return App("rng.rune", T, arr.A[0], i)
			}
			if arr.S == "bytes2str" || arr.S == "until" {
				i = Add(i, arr.A[1])
				if i.Op == OpIte {
					return App("sel", T, arr.A[0], i)
				}
				arr = arr.A[0]
				continue
			}
		}
		break
	}
	return typed(appRaw("sel", T, arr, i))
}

func Arr(T types.Type, zero *Term, pairs ...*Term) *Term {
	b := append([]byte("[]"), ids(nil, append([]*Term{zero}, pairs...))...)
	return mk(string(b), func() *Term {
		return &Term{Op: OpArr, T: T, A: append([]*Term{zero}, pairs...)}
	})
}
func ArrSet(arr, i, v *Term) *Term {
	if arr.Op == OpArr {
		if _, ok := i.int64(); ok && len(arr.A) < 600 {
			ps := append([]*Term{}, arr.A[1:]...)
			for j := 0; j < len(ps); j += 2 {
				if ps[j] == i {
					ps[j+1] = v
					return Arr(arr.T, arr.A[0], ps...)
				}
			}
			// keep sorted by index
			n, _ := i.int64()
			pos := len(ps)
			for j := 0; j < len(ps); j += 2 {
				m, _ := ps[j].int64()
				if m > n {
					pos = j
					break
				}
			}
			ps = append(ps[:pos:pos], append([]*Term{i, v}, ps[pos:]...)...)
			return Arr(arr.T, arr.A[0], ps...)
		}
	}
	if arr.Op == OpArrUpd && arr.A[1] == i {
		arr = arr.A[0]
	}
	b := ids([]byte("[u"), []*Term{arr, i, v})
	return mk(string(b), func() *Term { return &Term{Op: OpArrUpd, A: []*Term{arr, i, v}} })
}
func ArrLam(total bool, base, lo, n, step, k, val *Term) *Term {
	s := ""
	if total {
		s = "total"
	}
	b := ids([]byte("[l"+s), []*Term{base, lo, n, step, k, val})
	return mk(string(b), func() *Term {
		return &Term{Op: OpArrLam, S: s, A: []*Term{base, lo, n, step, k, val}}
	})
}

// ---------------------------------------------------------------- structured values

func Struct(T types.Type, as ...*Term) *Term {
	b := ids([]byte("{"), as)
	return mk(string(b), func() *Term { return &Term{Op: OpStruct, T: T, A: append([]*Term{}, as...)} })
}
func Tuple(as ...*Term) *Term {
	b := ids([]byte("("), as)
	return mk(string(b), func() *Term { return &Term{Op: OpTuple, A: append([]*Term{}, as...)} })
}
func Slice(ptr, off, ln, cp *Term) *Term {
	return lift1(func(p *Term) *Term {
		b := ids([]byte("S"), []*Term{p, off, ln, cp})
		return mk(string(b), func() *Term { return &Term{Op: OpSlice, A: []*Term{p, off, ln, cp}} })
	}, ptr)
}
func lift1(f func(*Term) *Term, a *Term) *Term {
	return lift(func(as []*Term) *Term { return f(as[0]) }, a)
}
func Obj(name string, idx ...*Term) *Term {
	b := ids([]byte("o"+name+"|"), idx)
	return mk(string(b), func() *Term { return &Term{Op: OpObj, S: name, A: append([]*Term{}, idx...)} })
}
func Field(i int) *Term {
	s := strconv.Itoa(i)
	return mk("."+s, func() *Term { return &Term{Op: OpField, S: s} })
}
func Ptr(obj *Term, path ...*Term) *Term {
	return lift(func(as []*Term) *Term {
		b := ids([]byte("&"), as)
		return mk(string(b), func() *Term { return &Term{Op: OpPtr, A: append([]*Term{}, as...)} })
	}, append([]*Term{obj}, path...)...)
}
func Iface(T types.Type, v *Term) *Term {
	return lift1(func(v *Term) *Term {
		s := types.TypeString(T, nil)
		return mk("i"+s+"|"+strconv.Itoa(v.ID), func() *Term { return &Term{Op: OpIface, S: s, T: T, A: []*Term{v}} })
	}, v)
}

func Map0(T types.Type) *Term {
	return mk("map0", func() *Term { return &Term{Op: OpMap} })
}

// constKey reports whether k is a constant map key: a constant, or a struct of constants.
func constKey(k *Term) bool {
	if k.Op == OpStruct {
		for _, a := range k.A {
			if !constKey(a) {
				return false
			}
		}
		return len(k.A) > 0
	}
	return k.isConst()
}

func MapSet(m, k, v *Term) *Term {
	if m.Op == OpMap && constKey(k) {
		ps := append([]*Term{}, m.A...)
		for i := 0; i < len(ps); i += 2 {
			if ps[i] == k {
				ps[i+1] = v
				return mapOf(ps)
			}
		}
		return mapOf(append(ps, k, v))
	}
	b := ids([]byte("mu"), []*Term{m, k, v})
	return mk(string(b), func() *Term { return &Term{Op: OpMapUpd, A: []*Term{m, k, v}} })
}
func mapOf(ps []*Term) *Term {
	b := ids([]byte("m"), ps)
	return mk(string(b), func() *Term { return &Term{Op: OpMap, A: ps} })
}

const mapExpand = 40

// mapGetL looks k up in content m; zero is the element type's zero value.
func mapGetL(T types.Type, m, k, zero *Term) *Term {
	if m.Op == OpMap {
		if len(m.A) == 0 {
			return zero
		}
		if constKey(k) {
			for i := 0; i < len(m.A); i += 2 {
				if m.A[i] == k {
					return m.A[i+1]
				}
			}
			return zero
		}
		if len(m.A)/2 <= mapExpand {
			r := zero
			for i := len(m.A) - 2; i >= 0; i -= 2 {
				r = Ite(eqAny(k, m.A[i]), m.A[i+1], r)
			}
			return r
		}
	}
	return typed(appRaw("mapget", T, m, k, zero))
}
func mapHasL(m, k *Term) *Term {
	if m.Op == OpMap {
		if len(m.A) == 0 {
			return False
		}
		if constKey(k) {
			for i := 0; i < len(m.A); i += 2 {
				if m.A[i] == k {
					return True
				}
			}
			return False
		}
		if len(m.A)/2 <= mapExpand {
			r := False
			for i := len(m.A) - 2; i >= 0; i -= 2 {
				r = Or(eqAny(k, m.A[i]), r)
			}
			return r
		}
	}
	if m == Nil {
		return False
	}
	return typed(appRaw("maphas", tBool, m, k))
}

// ---------------------------------------------------------------- substitution

func substT(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	return (&substituter{m: m, memo: map[*Term]*Term{}}).do(t)
}

type substituter struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func (s *substituter) do(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	switch t.Op {
	case OpNum, OpNaN, OpInf, OpStr, OpTrue, OpFalse, OpNil, OpSym, OpField, OpFunc, OpBuiltin:
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	switch t.Op {
	case OpPoly:
		changed := false
		for _, mo := range t.P {
			for _, f := range mo.F {
				if s.do(f.T) != f.T {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		r = Zero
		for _, mo := range t.P {
			x := NumR(mo.C)
			for _, f := range mo.F {
				y := s.do(f.T)
				for i := 0; i < f.E; i++ {
					x = Mul(x, y)
				}
				for i := 0; i < -f.E; i++ {
					x = Div(x, y)
				}
			}
			r = Add(r, x)
		}
	case OpIte:
		c := s.do(t.A[0])
		if c.Op == OpSym || c.Op == OpApp {
			c = typed(c)
		}
		if c == True {
			r = s.do(t.A[1])
		} else if c == False {
			r = s.do(t.A[2])
		} else {
			r = Ite(c, s.do(t.A[1]), s.do(t.A[2]))
		}
	default:
		as := make([]*Term, len(t.A))
		changed := false
		for i, a := range t.A {
			as[i] = s.do(a)
			if as[i] != a {
				changed = true
			}
		}
		if !changed {
			r = t
		} else {
			r = rebuild(t, as)
		}
	}
	s.memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OpApp:
		if t.S == "box" {
			return Box(as[0])
		}
		r := App(t.S, t.T, as...)
		if t.K == KBool && r.Op == OpIte && r.A[0].Op == OpApp {
			return r
		}
		return r
	case OpStruct:
		return Struct(t.T, as...)
	case OpTuple:
		return Tuple(as...)
	case OpSlice:
		return Slice(as[0], as[1], as[2], as[3])
	case OpPtr:
		return Ptr(as[0], as[1:]...)
	case OpObj:
		return lift(func(as []*Term) *Term { return Obj(t.S, as...) }, as...)
	case OpIface:
		return Iface(t.T, as[0])
	case OpClosure:
		return Closure(t.X, as...)
	case OpArr:
		ps := as[1:]
		for i := 0; i < len(ps); i += 2 {
			if _, ok := ps[i].int64(); !ok {
				panic("array literal with symbolic index")
			}
		}
		return Arr(t.T, as[0], ps...)
	case OpArrUpd:
		return ArrSet(as[0], as[1], as[2])
	case OpArrLam:
		return ArrLam(t.S == "total", as[0], as[1], as[2], as[3], as[4], as[5])
	case OpMap:
		return mapOf(as)
	case OpMapUpd:
		return MapSet(as[0], as[1], as[2])
	}
	panic(fmt.Sprintf("rebuild: op %d", t.Op))
}

func Closure(fn any, as ...*Term) *Term {
	b := ids([]byte(fmt.Sprintf("c%p|", fn)), as)
	return mk(string(b), func() *Term { return &Term{Op: OpClosure, X: fn, A: append([]*Term{}, as...)} })
}
func FuncT(fn any) *Term {
	return mk(fmt.Sprintf("f%p", fn), func() *Term { return &Term{Op: OpFunc, X: fn} })
}

// mentions reports whether u occurs in t.
func mentions(t *Term, pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.A {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.P {
			for _, f := range m.F {
				if rec(f.T) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

func collect(t *Term, pred func(*Term) bool) []*Term {
	var out []*Term
	mentions(t, func(x *Term) bool {
		if pred(x) {
			out = append(out, x)
		}
		return false
	})
	return out
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return show(t, 6) }

func show(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	list := func(as []*Term) string {
		var ss []string
		for i, a := range as {
			if i > 8 {
				ss = append(ss, "…")
				break
			}
			ss = append(ss, show(a, d-1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case OpNum:
		if t.R.IsInt() {
			return t.R.RatString()
		}
		f, _ := t.R.Float64()
		return strconv.FormatFloat(f, 'g', 10, 64)
	case OpNaN:
		return "NaN"
	case OpInf:
		return t.S + "Inf"
	case OpStr:
		return strconv.Quote(t.S)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpNil:
		return "nil"
	case OpSym:
		return t.S
	case OpApp:
		switch t.S {
		case "ge0":
			return show(t.A[0], d-1) + ">=0"
		case "eq0", "feq0":
			return show(t.A[0], d-1) + "==0"
		case "flt0":
			return show(t.A[0], d-1) + "<0"
		case "fle0":
			return show(t.A[0], d-1) + "<=0"
		case "eqv":
			return show(t.A[0], d-1) + "==" + show(t.A[1], d-1)
		case "substr":
			return show(t.A[0], d-1) + "[" + show(t.A[1], d-1) + ":" + show(t.A[2], d-1) + "]"
		case "sel":
			return show(t.A[0], d-1) + "[" + show(t.A[1], d-1) + "]"
		}
		return t.S + "(" + list(t.A) + ")"
	case OpIte:
		if t.A[1] == True && t.A[2] == False {
			return "{" + show(t.A[0], d-1) + "}"
		}
		if t.A[1] == False && t.A[2] == True {
			return "!{" + show(t.A[0], d-1) + "}"
		}
		return "ite(" + show(t.A[0], d-1) + " ? " + show(t.A[1], d-1) + " : " + show(t.A[2], d-1) + ")"
	case OpPoly:
		var ss []string
		for i, m := range t.P {
			if i > 10 {
				ss = append(ss, "…")
				break
			}
			var fs []string
			if m.C.Cmp(ratOne) != 0 || len(m.F) == 0 {
				fs = append(fs, show(NumR(m.C), 2))
			}
			for _, f := range m.F {
				x := show(f.T, d-1)
				if f.T.Op == OpPoly {
					x = "(" + x + ")"
				}
				if f.E != 1 {
					x += "^" + strconv.Itoa(f.E)
				}
				fs = append(fs, x)
			}
			ss = append(ss, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case OpStruct:
		return "{" + list(t.A) + "}"
	case OpTuple:
		return "(" + list(t.A) + ")"
	case OpSlice:
		return "slice(" + list(t.A) + ")"
	case OpPtr:
		return "&" + list(t.A)
	case OpObj:
		if len(t.A) > 0 {
			return "obj:" + t.S + "[" + list(t.A) + "]"
		}
		return "obj:" + t.S
	case OpField:
		return "." + t.S
	case OpFunc:
		return fmt.Sprintf("func(%v)", t.X)
	case OpClosure:
		return fmt.Sprintf("closure(%v; %s)", t.X, list(t.A))
	case OpIface:
		return "iface(" + t.S + "," + list(t.A) + ")"
	case OpArr:
		return "arr[" + list(t.A) + "]"
	case OpArrUpd:
		return "upd(" + list(t.A) + ")"
	case OpArrLam:
		return "lam(" + list(t.A) + ")"
	case OpMap:
		return fmt.Sprintf("map#%d", len(t.A)/2)
	case OpMapUpd:
		return "mapupd(" + list(t.A) + ")"
	}
	return fmt.Sprintf("op%d", t.Op)
}
