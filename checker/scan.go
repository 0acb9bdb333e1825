package main

// Scanner analysis: abstract interpretation of a function that cuts a string
// into pieces, against a reference scanner running alongside.
//
// The abstract string is arbitrary. What is known about it are marks: where the
// current (and the last complete) key and value begin and end, how far the
// function has looked (the frontier f) and what is known about the length n.
// Distances between marks are kept exactly up to a small bound. Integers of the
// function are linear forms over the marks, strings are substrings between two
// such forms, characters are functions of one byte of a known class. Looking
// at the frontier tries every class of byte and advances the reference scanner;
// storing a field is compared with what the reference scanner has recognised.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const (
	mPks = iota
	mPke
	mKs
	mKe
	mF
	mN
	nMarks
)

const (
	minHeader = 2  // the scanned text is at least this long
	gapMax    = 3  // a distance of gapMax or more is not distinguished
	offMax    = 12 // offsets beyond this are unknown
)

var markName = [...]string{"pks", "pke", "ks", "ke", "f", "n"}

// form is a linear form over the marks.
type form struct {
	c [nMarks]int8
	k int
}

// lin1 is an integer given by equivalent forms; without a form it is unknown.
type lin1 struct{ alts []form }

func (f form) add(m form, s int) form {
	for i := range f.c {
		f.c[i] += int8(s) * m.c[i]
	}
	f.k += s * m.k
	return f
}
func (f form) isConst() bool { return f.c == [nMarks]int8{} }
func (f form) String() string {
	s := ""
	for i, c := range f.c {
		if c == 1 {
			s += "+" + markName[i]
		} else if c != 0 {
			s += fmt.Sprintf("%+d*", c) + markName[i]
		}
	}
	if f.k != 0 || s == "" {
		s += fmt.Sprintf("%+d", f.k)
	}
	return strings.TrimPrefix(s, "+")
}
func (f form) less(g form) bool {
	for i := range f.c {
		if f.c[i] != g.c[i] {
			return f.c[i] < g.c[i]
		}
	}
	return f.k < g.k
}

func (l lin1) add(m lin1, s int) lin1 {
	var r lin1
	for _, f := range l.alts {
		for _, g := range m.alts {
			r.alts = append(r.alts, f.add(g, s))
		}
	}
	return r
}
func (l lin1) neg() lin1 { return kon(0).add(l, -1) }
func (l lin1) top() bool { return len(l.alts) == 0 }

// num is the value of a known number.
func (l lin1) num() (int, bool) {
	for _, f := range l.alts {
		if f.isConst() {
			return f.k, true
		}
	}
	return 0, false
}
func (l lin1) isConst() bool { _, ok := l.num(); return ok }
func (l lin1) k() int        { k, _ := l.num(); return k }
func (l lin1) String() string {
	if l.top() {
		return "?"
	}
	s := ""
	for i, f := range l.alts {
		if i > 0 {
			s += "="
		}
		s += f.String()
	}
	return s
}
func markF(i int) form { var f form; f.c[i] = 1; return f }
func markL(i int) lin1 { return lin1{[]form{markF(i)}} }
func kon(k int) lin1   { return lin1{[]form{{k: k}}} }

type charset [2]uint64

func (s charset) has(b int) bool { return s[b/64]>>(b%64)&1 == 1 }
func (s *charset) put(b int)     { s[b/64] |= 1 << (b % 64) }
func (s charset) empty() bool    { return s == charset{} }

var upperSet, otherSet = func() (u, o charset) {
	for b := 0; b < 128; b++ {
		if b >= 'A' && b <= 'Z' {
			u.put(b)
		} else {
			o.put(b)
		}
	}
	return
}()

// sval is an abstract value.
type sval struct {
	kind   byte // i int, b bool, ? unknown, c function of a byte, s substring, k constant string, m map, f function, p pointer, t tuple, r iterator, n nil
	l, hi  lin1
	b      bool
	tab    *[128]int32
	ch     string
	isBool bool
	fn     *ssa.Function
	els    []sval
	s      string
}

var unknownV = sval{kind: '?'}

func intV(l lin1) sval { return sval{kind: 'i', l: l} }

type sframe struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]sval
	call   ssa.Value // in the caller
	search *ssearch
}

// ssearch is a library search for the first byte of a set.
type ssearch struct {
	str   sval
	set   charset
	at    lin1
	trims bool
}

type sentry struct{ k0, k1, v0, v1 lin1 }

const (
	modeStart = iota
	modeKey
	modeValue
	modeDead
	modeEnd
)

var modeName = [...]string{"at the start", "in a key", "in a value", "without a first key", "at the end"}

type sstate struct {
	frames []*sframe
	cells  map[string]sval
	chars  map[string]charset
	has    [mF + 1]bool
	gap    [mF + 1]int
	mode   int
	tExact bool
	t      int // length is f+t, or at least that
	pend   []sentry
	ret    sval
	done   bool
}

type scanError struct{ msg string }

func sfail(f string, a ...any) { panic(scanError{fmt.Sprintf(f, a...)}) }

// scanner runs the analysis.
type scanner struct {
	c       *Ctx
	fn      *ssa.Function
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	seen    map[string]bool
	work    []*sstate
	bad     map[string]string // violation -> position
	order   []string
	returns int
	stores  int
	reads   int
	fns     map[*ssa.Function]bool
	pos     string
}

func (s *sstate) clone() *sstate {
	n := *s
	n.frames = make([]*sframe, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]sval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		if f.search != nil {
			x := *f.search
			g.search = &x
		}
		n.frames[i] = &g
	}
	n.cells = map[string]sval{}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.chars = map[string]charset{}
	for k, v := range s.chars {
		n.chars[k] = v
	}
	n.pend = append([]sentry{}, s.pend...)
	return &n
}

func (s *sstate) top() *sframe { return s.frames[len(s.frames)-1] }

// canon1 rewrites a form over the earliest marks at known distance.
func (s *sstate) canon1(l form) (form, bool) {
	if l.c[mN] != 0 && s.tExact {
		c := l.c[mN]
		l.c[mN] = 0
		l.c[mF] += c
		l.k += int(c) * s.t
	}
	for i := mF; i >= 0; i-- {
		c := l.c[i]
		if c == 0 {
			continue
		}
		if !s.has[i] {
			return l, false
		}
		if s.gap[i] >= gapMax {
			continue
		}
		l.c[i] = 0
		l.k += int(c) * s.gap[i]
		if p := s.before(i); p >= 0 {
			l.c[p] += c
		}
	}
	if l.k > offMax || l.k < -offMax {
		return l, l.isConst() && l.k <= 1<<20 && l.k >= -(1<<20)
	}
	for _, c := range l.c {
		if c > 2 || c < -2 {
			return l, false
		}
	}
	return l, true
}

// canon rewrites every form; equal ones are merged.
func (s *sstate) canon(l lin1) lin1 {
	var r lin1
next:
	for _, f := range l.alts {
		g, ok := s.canon1(f)
		if !ok {
			continue
		}
		for _, x := range r.alts {
			if x == g {
				continue next
			}
		}
		r.alts = append(r.alts, g)
	}
	sort.Slice(r.alts, func(i, j int) bool { return r.alts[i].less(r.alts[j]) })
	return r
}

// expand lists the forms equal to l as long as the known distances last.
func (s *sstate) expand(l lin1) (out []form) {
	type link struct {
		a, b, d int // mark b = mark a + d; a < 0 is the beginning of the string
	}
	var links []link
	for i := 0; i <= mF; i++ {
		if s.has[i] && s.gap[i] < gapMax {
			links = append(links, link{s.before(i), i, s.gap[i]})
		}
	}
	if s.tExact {
		links = append(links, link{mF, mN, s.t})
	}
	seen := map[form]bool{}
	var work []form
	put := func(f form) {
		if f.k > offMax+gapMax || f.k < -offMax-gapMax {
			if !f.isConst() {
				return
			}
		}
		if !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, f := range l.alts {
		put(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		out = append(out, f)
		one := 0
		for _, c := range f.c {
			if c != 0 {
				one++
			}
		}
		for _, x := range links {
			move := func(from, to, d int) {
				// mark from = mark to + d
				if from >= 0 {
					c := f.c[from]
					if c == 0 {
						return
					}
					g := f
					g.c[from] = 0
					g.k += int(c) * d
					if to >= 0 {
						g.c[to] += c
						if g.c[to] > 2 || g.c[to] < -2 {
							return
						}
					}
					put(g)
				} else if one == 0 {
					g := f
					g.c[to]++
					g.k += d
					put(g)
				}
			}
			move(x.b, x.a, x.d)
			move(x.a, x.b, -x.d)
		}
	}
	return
}

// nearest drops the forms that refer to far-away marks.
func nearest(l lin1) lin1 {
	var r lin1
	for _, f := range l.alts {
		if !f.isConst() && (f.k > gapMax || f.k < -gapMax) {
			continue
		}
		if f.isConst() && (f.k >= gapMax || f.k < -gapMax) && len(l.alts) > 1 {
			continue
		}
		r.alts = append(r.alts, f)
	}
	if len(r.alts) == 0 {
		for _, f := range l.alts {
			if f.isConst() {
				r.alts = append(r.alts, f)
			}
		}
	}
	return r
}

// change carries every number over to a state with other marks or distances.
func (s *sstate) change(sub func(f form) (form, bool), mutate func()) {
	old := *s
	mutate()
	s.eachLin(func(l lin1) lin1 {
		var r lin1
		for _, f := range old.expand(l) {
			if g, ok := sub(f); ok {
				r.alts = append(r.alts, g)
			}
		}
		return s.canon(nearest(r))
	})
}

func (s *sstate) before(i int) int {
	for i--; i >= 0; i-- {
		if s.has[i] {
			return i
		}
	}
	return -1
}

// sign decides whether l >= 0: 1 yes, -1 no, 0 unknown; tc is the coefficient
// of the unknown rest of the string if that alone is undetermined.
func (s *sstate) ge0(l lin1) (r int, tc int) {
	for i, f := range s.canon(l).alts {
		x, t := s.ge01(f)
		if x != 0 {
			return x, 0
		}
		if i == 0 || tc == 0 {
			tc = t
		}
	}
	return 0, tc
}

func (s *sstate) ge01(l form) (r int, tc int) {
	// over gaps: mark i = sum of gaps up to i, n = f + t
	var coef [nMarks]int
	lb := [nMarks]int{}
	acc := int(l.c[mN])
	coef[mN] = acc
	lb[mN] = s.t
	exact := [nMarks]bool{}
	exact[mN] = s.tExact
	for i := mF; i >= 0; i-- {
		acc += int(l.c[i])
		if !s.has[i] {
			continue
		}
		coef[i] = acc
		lb[i] = s.gap[i]
		exact[i] = s.gap[i] < gapMax
	}
	lo, up := l.k, l.k
	unbLo, unbUp := false, false
	others := false
	for i := range coef {
		if coef[i] == 0 {
			continue
		}
		lo += coef[i] * lb[i]
		up += coef[i] * lb[i]
		if !exact[i] {
			if coef[i] > 0 {
				unbUp = true
			} else {
				unbLo = true
			}
			if i != mN {
				others = true
			}
		}
	}
	if !unbLo && lo >= 0 {
		return 1, 0
	}
	if !unbUp && up < 0 {
		return -1, 0
	}
	if !others {
		return 0, coef[mN]
	}
	return 0, 0
}

func (s *sstate) eq(a, b lin1) bool {
	d, ok := s.canon(a.add(b, -1)).num()
	return ok && d == 0
}

// eachVal applies f to every value of the state.
func (s *sstate) eachVal(f func(*sval)) {
	var rec func(v *sval)
	rec = func(v *sval) {
		f(v)
		if len(v.els) > 0 {
			v.els = append([]sval{}, v.els...)
			for i := range v.els {
				rec(&v.els[i])
			}
		}
	}
	for _, fr := range s.frames {
		for k, v := range fr.env {
			rec(&v)
			fr.env[k] = v
		}
		if fr.search != nil {
			rec(&fr.search.str)
			v := sval{kind: 'i', l: fr.search.at}
			f(&v)
			fr.search.at = v.l
		}
	}
	for k, v := range s.cells {
		rec(&v)
		s.cells[k] = v
	}
	rec(&s.ret)
}

func (s *sstate) eachLin(f func(l lin1) lin1) {
	s.eachVal(func(v *sval) {
		switch v.kind {
		case 'i':
			v.l = f(v.l)
		case 'r', 's':
			v.l = f(v.l)
			v.hi = f(v.hi)
		}
	})
	for i, e := range s.pend {
		s.pend[i] = sentry{f(e.k0), f(e.k1), f(e.v0), f(e.v1)}
	}
}

// look classifies the byte at the frontier and advances the reference scanner.
func (s *sstate) look(upper bool) {
	old := -1 // the old frontier gets this mark
	complete := false
	switch s.mode {
	case modeStart:
		s.mode, old = modeDead, mKs
		if upper {
			s.mode = modeKey
		}
	case modeKey:
		if !upper {
			s.mode, old = modeValue, mKe
		}
	case modeValue:
		if upper {
			s.mode, old = modeKey, mKs
			complete = true
			if len(s.pend) > 0 {
				sfail("a field is not stored before the next one is complete")
			}
			// the last key and value are now the previous ones
			gap := s.gap[mKs]
			for i := mKs; ; {
				if gap >= gapMax {
					gap = gapMax
					break
				}
				if i = s.before(i); i < 0 {
					break
				}
				gap += s.gap[i]
			}
			s.change(func(f form) (form, bool) {
				if f.c[mPks] != 0 || f.c[mPke] != 0 {
					return f, false
				}
				f.c[mPks], f.c[mPke], f.c[mKs], f.c[mKe] = f.c[mKs], f.c[mKe], 0, 0
				return f, true
			}, func() {
				s.has[mPks], s.gap[mPks] = s.has[mKs], gap
				s.has[mPke], s.gap[mPke] = s.has[mKe], s.gap[mKe]
				s.has[mKs], s.has[mKe], s.gap[mKs], s.gap[mKe] = false, false, 0, 0
			})
		}
	}
	s.change(func(f form) (form, bool) {
		c := f.c[mF]
		if old >= 0 {
			f.c[old] += c
			f.c[mF] = 0
			if c != 0 && f.c[old] > 2 || f.c[old] < -2 {
				return f, false
			}
		} else {
			f.k -= int(c)
		}
		return f, true
	}, func() {
		if s.t > 0 {
			s.t--
		}
		if old >= 0 {
			s.has[old], s.gap[old] = true, s.gap[mF]
			s.gap[mF] = 1
		} else if s.gap[mF] < gapMax {
			s.gap[mF]++
		}
	})
	if complete {
		c := func(i int) lin1 { return s.canon(markL(i)) }
		s.pend = append(s.pend, sentry{c(mPks), c(mPke), c(mPke), c(mKs)})
	}
	s.ended()
}

// needs tells whether a number is known relative to mark i only.
func (s *sstate) needs(i int) bool {
	r := false
	if s.has[i] {
		s.eachLin(func(l lin1) lin1 {
			all := len(l.alts) > 0
			for _, f := range l.alts {
				all = all && f.c[i] != 0
			}
			if all {
				// a later mark at a known distance will do
				for _, f := range s.expand(l) {
					if f.c[i] == 0 && f.k <= gapMax && f.k >= -gapMax {
						all = false
					}
				}
			}
			r = r || all
			return l
		})
	}
	return r
}

// drop forgets a mark.
func (s *sstate) drop(i int) {
	if !s.has[i] {
		return
	}
	s.change(func(f form) (form, bool) { return f, f.c[i] == 0 }, func() {
		for j := i + 1; j <= mF; j++ {
			if s.has[j] {
				if s.gap[j] += s.gap[i]; s.gap[j] > gapMax {
					s.gap[j] = gapMax
				}
				break
			}
		}
		s.has[i], s.gap[i] = false, 0
	})
}

// ended completes the last entry when the whole string has been seen.
func (s *sstate) ended() {
	if !s.tExact || s.t != 0 {
		return
	}
	f := s.canon(markL(mF))
	switch s.mode {
	case modeStart:
		s.mode = modeEnd
	case modeKey:
		s.pend = append(s.pend, sentry{s.canon(markL(mKs)), f, f, f})
		s.mode = modeEnd
	case modeValue:
		s.pend = append(s.pend, sentry{s.canon(markL(mKs)), s.canon(markL(mKe)), s.canon(markL(mKe)), f})
		s.mode = modeEnd
	}
}

// classAt is the class of a byte before the frontier.
func (s *sstate) classAt(p lin1) (upper, known bool) {
	in := func(a, b int) bool {
		if !s.has[a] || !s.has[b] {
			return false
		}
		x, _ := s.ge0(p.add(markL(a), -1))
		y, _ := s.ge0(markL(b).add(p, -1).add(kon(1), -1))
		return x == 1 && y == 1
	}
	switch {
	case s.mode == modeDead:
		return false, s.eq(p, kon(0))
	case in(mKs, mKe):
		return true, true
	case s.has[mKe] && in(mKe, mF):
		return false, true
	case !s.has[mKe] && in(mKs, mF):
		return true, true
	case in(mPks, mPke):
		return true, true
	case in(mPke, mKs):
		return false, true
	}
	return false, false
}

// ask splits the state by l >= 0.
func (s *sstate) ask(l lin1) (yes, no []*sstate) {
	r, tc := s.ge0(l)
	switch r {
	case 1:
		return []*sstate{s}, nil
	case -1:
		return nil, []*sstate{s}
	}
	if tc == 1 || tc == -1 {
		// l = tc*t + rest
		l = s.canon(l)
		probe := func(t int) bool {
			n := s.clone()
			n.tExact, n.t = true, t
			r, _ := n.ge0(l)
			return r == 1
		}
		var exact []*sstate
		t := s.t
		first := probe(t)
		for ; t < s.t+8 && probe(t) == first; t++ {
			n := s.clone()
			n.tExact, n.t = true, t
			n.recanon()
			n.ended()
			exact = append(exact, n)
		}
		if t < s.t+8 {
			n := s.clone()
			n.t = t
			if first {
				return exact, []*sstate{n}
			}
			return []*sstate{n}, exact
		}
	}
	return []*sstate{s}, []*sstate{s.clone()}
}

func (s *sstate) recanon() {
	s.eachLin(func(l lin1) lin1 { return s.canon(l) })
}

// askEq splits by l == 0.
func (s *sstate) askEq(l lin1) (yes, no []*sstate) {
	ge, lt := s.ask(l)
	for _, x := range ge {
		le, gt := x.ask(l.neg())
		yes = append(yes, le...)
		no = append(no, gt...)
	}
	return yes, append(no, lt...)
}

// byteAt reads the byte at p; every outcome is a state in which char id is set.
func (s *sstate) byteAt(p lin1, id string) (out []*sstate) {
	if p = s.canon(p); p.top() {
		for _, set := range []charset{upperSet, otherSet} {
			n := s.clone()
			n.setChar(id, set)
			out = append(out, n)
		}
		return
	}
	// inside the string?
	in, _ := s.ask(markL(mN).add(p, -1).add(kon(1), -1))
	for _, x := range in {
		beyond, before := x.ask(p.add(markL(mF), -1))
		for _, y := range before {
			for _, up := range []bool{true, false} {
				if u, known := y.classAt(p); known && u != up {
					continue
				}
				n := y.clone()
				n.setChar(id, map[bool]charset{true: upperSet, false: otherSet}[up])
				out = append(out, n)
			}
		}
		for _, y := range beyond {
			at := y.eq(p, markL(mF))
			if !at {
				if d := y.canon(p.add(markL(mF), -1)); !d.isConst() || d.k() > 3 {
					sfail("a byte at an unknown distance is inspected")
				}
			}
			for _, up := range []bool{true, false} {
				n := y.clone()
				// p is tracked while the frontier moves
				n.cells["\x00p"] = sval{kind: 'i', l: p}
				n.look(up)
				q := n.cells["\x00p"].l
				delete(n.cells, "\x00p")
				if at {
					n.setChar(id, map[bool]charset{true: upperSet, false: otherSet}[up])
					out = append(out, n)
				} else {
					out = append(out, n.byteAt(q, id)...)
				}
			}
		}
	}
	return
}

// setChar gives char id a new set; values of the previous byte keep theirs.
func (s *sstate) setChar(id string, set charset) {
	used := func(x string) bool {
		u := false
		s.eachVal(func(v *sval) { u = u || v.kind == 'c' && v.ch == x })
		return u
	}
	if _, ok := s.chars[id]; ok && used(id) {
		old := id + "'"
		if used(old) {
			s.eachVal(func(v *sval) {
				if v.kind == 'c' && v.ch == old {
					*v = unknownV
				}
			})
		}
		s.chars[old] = s.chars[id]
		s.eachVal(func(v *sval) {
			if v.kind == 'c' && v.ch == id {
				v.ch = old
			}
		})
	}
	s.chars[id] = set
}

// askChar splits by a boolean function of a byte.
func (s *sstate) askChar(v sval) (yes, no []*sstate) {
	set := s.chars[v.ch]
	var t, f charset
	for b := 0; b < 128; b++ {
		if !set.has(b) {
			continue
		}
		if v.tab[b] != 0 {
			t.put(b)
		} else {
			f.put(b)
		}
	}
	if !t.empty() {
		n := s.clone()
		n.chars[v.ch] = t
		yes = append(yes, n)
	}
	if !f.empty() {
		n := s.clone()
		n.chars[v.ch] = f
		no = append(no, n)
	}
	return
}

// ---------------------------------------------------------------- states

func (v sval) key(sb *strings.Builder) {
	sb.WriteByte(v.kind)
	switch v.kind {
	case 'i', 'r':
		sb.WriteString(v.l.String())
		if v.kind == 'r' {
			fmt.Fprintf(sb, "<%v", v.hi)
		}
	case 'b':
		fmt.Fprint(sb, v.b)
	case 'c':
		fmt.Fprint(sb, v.ch, *v.tab)
	case 's':
		fmt.Fprint(sb, v.l, ":", v.hi)
	case 'k', 'm', 'p':
		fmt.Fprintf(sb, "%q", v.s)
	case 'f':
		fmt.Fprintf(sb, "%p", v.fn)
	}
	for _, e := range v.els {
		sb.WriteByte('(')
		e.key(sb)
		sb.WriteByte(')')
	}
}

func (z *scanner) key(s *sstate) string {
	var sb strings.Builder
	used := map[string]bool{}
	s.eachVal(func(v *sval) {
		if v.kind == 'c' {
			used[v.ch] = true
		}
	})
	for _, f := range s.frames {
		if f.search != nil {
			fmt.Fprintf(&sb, "search%v%v%v", f.search.at, f.search.set, f.search.trims)
			f.search.str.key(&sb)
			continue
		}
		fmt.Fprintf(&sb, "|%s.%d.%d:", f.fn, f.block.Index, f.pc)
		var ks []string
		vals := map[string]sval{}
		for k, v := range f.env {
			ks = append(ks, k.Name())
			vals[k.Name()] = v
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteString(k)
			sb.WriteByte('=')
			v := vals[k]
			v.key(&sb)
			sb.WriteByte(';')
		}
	}
	var cs []string
	for k := range s.cells {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		v := s.cells[k]
		sb.WriteString(k)
		sb.WriteByte('=')
		v.key(&sb)
	}
	var us []string
	for u := range s.chars {
		if used[u] {
			us = append(us, u)
		} else {
			delete(s.chars, u)
		}
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprint(&sb, u, s.chars[u])
	}
	fmt.Fprint(&sb, s.has, s.gap, s.mode, s.tExact, s.t, s.pend)
	return sb.String()
}

// liveAt computes the values live at the start of every block.
func (z *scanner) liveAt(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := z.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, p)
				}
			}
			for _, s := range b.Succs {
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					for j, e := range p.Edges {
						if s.Preds[j] == b {
							live[e] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := x.(*ssa.Phi); ok {
					live[x.(ssa.Value)] = true // evaluated on the edge
					continue
				}
				for _, o := range x.Operands(nil) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			for v := range live {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	z.live[fn] = in
	return in
}

// enter moves the top frame to a block.
func (z *scanner) enter(s *sstate, to *ssa.BasicBlock) {
	f := s.top()
	var phis []*ssa.Phi
	var vals []sval
	for _, x := range to.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		for j, e := range p.Edges {
			if to.Preds[j] == f.block {
				phis = append(phis, p)
				vals = append(vals, z.get(s, e))
				break
			}
		}
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.prev, f.block, f.pc = f.block, to, len(phis)
	live := z.liveAt(f.fn)[to]
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	// a field that is stored is forgotten
	if len(s.pend) == 0 {
		for _, i := range []int{mPks, mPke} {
			if !s.needs(i) {
				s.drop(i)
			}
		}
	}
}

func (z *scanner) push(s *sstate) {
	k := z.key(s)
	if z.seen[k] {
		return
	}
	if len(z.seen) > 60000 {
		sfail("the scanner analysis does not converge")
	}
	z.seen[k] = true
	z.work = append(z.work, s)
}

func (z *scanner) violation(pos token.Pos, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if _, ok := z.bad[m]; !ok && len(z.bad) < 20 {
		z.bad[m] = z.c.pos(pos)
		z.order = append(z.order, m)
	}
}

func (z *scanner) run() {
	s := &sstate{cells: map[string]sval{}, chars: map[string]charset{}, t: minHeader}
	s.has[mF] = true
	f := &sframe{fn: z.fn, block: z.fn.Blocks[0], env: map[ssa.Value]sval{}}
	for _, p := range z.fn.Params {
		switch p.Type().Underlying().(type) {
		case *types.Basic, *types.Slice:
			f.env[p] = sval{kind: 's', l: kon(0), hi: markL(mN)}
		case *types.Map:
			f.env[p] = sval{kind: 'm', s: "param"}
		default:
			sfail("parameter %s of the scanner has an unexpected type", p.Name())
		}
	}
	s.frames = []*sframe{f}
	z.fns[z.fn] = true
	z.push(s)
	for len(z.work) > 0 {
		s := z.work[len(z.work)-1]
		z.work = z.work[:len(z.work)-1]
		z.exec(s)
	}
}

// exec runs a state until it reaches the next block or ends.
func (z *scanner) exec(s *sstate) {
	queue := []*sstate{s}
	for len(queue) > 0 {
		s := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		f := s.top()
		if f.search != nil {
			z.searchStep(s)
			continue
		}
		in := f.block.Instrs[f.pc]
		z.pos = z.c.pos(instrPos(in))
		switch in := in.(type) {
		case *ssa.If:
			v := z.get(s, in.Cond)
			yes, no := z.split(s, v)
			for _, x := range yes {
				x = x.clone()
				z.enter(x, in.Block().Succs[0])
				z.push(x)
			}
			for _, x := range no {
				x = x.clone()
				z.enter(x, in.Block().Succs[1])
				z.push(x)
			}
		case *ssa.Jump:
			z.enter(s, in.Block().Succs[0])
			z.push(s)
		case *ssa.Return:
			var r sval
			if len(in.Results) == 1 {
				r = z.get(s, in.Results[0])
			} else {
				r = sval{kind: 't'}
				for _, x := range in.Results {
					r.els = append(r.els, z.get(s, x))
				}
			}
			if len(s.frames) == 1 {
				z.finish(s, r, in)
				continue
			}
			call := f.call
			s.frames = s.frames[:len(s.frames)-1]
			g := s.top()
			if call != nil {
				g.env[call] = r
			}
			g.pc++
			queue = append(queue, s)
		case *ssa.Panic:
			// not a result
		default:
			outs := z.step(s, in)
			for _, x := range outs {
				if len(x.frames) == len(s.frames) || x != s {
					queue = append(queue, x)
				} else {
					queue = append(queue, x)
				}
			}
		}
	}
}

func (z *scanner) split(s *sstate, v sval) (yes, no []*sstate) {
	switch v.kind {
	case 'b':
		if v.b {
			return []*sstate{s}, nil
		}
		return nil, []*sstate{s}
	case 'c':
		return s.askChar(v)
	}
	return []*sstate{s}, []*sstate{s}
}

func (z *scanner) finish(s *sstate, r sval, in *ssa.Return) {
	z.returns++
	pos := instrPos(in)
	switch s.mode {
	case modeDead:
		return
	case modeEnd:
		if len(s.pend) > 0 {
			z.violation(pos, "a field is never stored: the function returns with the key %s..%s and the value %s..%s of the last field not in the map", s.pend[0].k0, s.pend[0].k1, s.pend[0].v0, s.pend[0].v1)
		}
		if s.has[mKs] && r.kind != 'm' && len(z.fn.Params) == 1 {
			z.violation(pos, "the field map is not returned")
		}
	default:
		z.violation(pos, "the function returns %s of the header before its end", modeName[s.mode])
	}
}

// searchStep advances a library search by one byte.
func (z *scanner) searchStep(s *sstate) {
	f := s.top()
	sr := f.search
	in, out := s.ask(sr.str.hi.add(sr.at, -1).add(kon(1), -1))
	result := func(x *sstate, v sval) {
		call := x.top().call
		x.frames = x.frames[:len(x.frames)-1]
		x.top().env[call] = v
		x.top().pc++
		z.push(x)
	}
	for _, x := range out {
		x = x.clone()
		q := x.top().search
		if q.trims {
			result(x, sval{kind: 's', l: q.str.hi, hi: q.str.hi})
		} else {
			result(x, intV(kon(-1)))
		}
	}
	for _, x := range in {
		for _, y := range x.byteAt(x.top().search.at, "search") {
			q := y.top().search
			set := y.chars["search"]
			var hit, miss bool
			for b := 0; b < 128; b++ {
				if set.has(b) {
					if q.set.has(b) {
						hit = true
					} else {
						miss = true
					}
				}
			}
			if hit {
				h := y.clone()
				q := h.top().search
				if q.trims {
					result(h, sval{kind: 's', l: q.at, hi: q.str.hi})
				} else {
					result(h, intV(h.canon(q.at.add(q.str.l, -1))))
				}
			}
			if miss {
				m := y.clone()
				m.top().search.at = m.canon(m.top().search.at.add(kon(1), 1))
				z.push(m)
			}
		}
	}
}

// ---------------------------------------------------------------- values

func (z *scanner) get(s *sstate, v ssa.Value) sval {
	f := s.top()
	if x, ok := f.env[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constS(v)
	case *ssa.Function:
		return sval{kind: 'f', fn: v}
	case *ssa.Global:
		return sval{kind: 'p', s: "global:" + v.String()}
	}
	return unknownV
}

func constS(c *ssa.Const) sval {
	if c.Value == nil {
		if b, ok := c.Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return intV(kon(0))
			case b.Info()&types.IsBoolean != 0:
				return sval{kind: 'b'}
			case b.Info()&types.IsString != 0:
				return sval{kind: 'k'}
			}
		}
		return sval{kind: 'n'}
	}
	switch c.Value.Kind() {
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok && n < 1<<20 && n > -(1<<20) {
			return intV(kon(int(n)))
		}
	case constant.Bool:
		return sval{kind: 'b', b: constant.BoolVal(c.Value)}
	case constant.String:
		return sval{kind: 'k', s: constant.StringVal(c.Value)}
	}
	return unknownV
}

func zeroS(T types.Type) sval {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return intV(kon(0))
		case u.Info()&types.IsBoolean != 0:
			return sval{kind: 'b'}
		case u.Info()&types.IsString != 0:
			return sval{kind: 'k'}
		}
	case *types.Struct:
		v := sval{kind: 't'}
		for i := 0; i < u.NumFields(); i++ {
			v.els = append(v.els, zeroS(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() > 8 {
			break
		}
		v := sval{kind: 't'}
		for i := int64(0); i < u.Len(); i++ {
			v.els = append(v.els, zeroS(u.Elem()))
		}
		return v
	}
	return sval{kind: 'n'}
}

// strOf views a value as a substring; constant empty strings are empty substrings.
func (s *sstate) emptyStr(v sval) bool {
	switch v.kind {
	case 'k':
		return v.s == ""
	case 'n':
		return true
	case 's':
		return s.eq(v.l, v.hi)
	}
	return false
}

func (z *scanner) binop(s *sstate, in *ssa.BinOp) []*sstate {
	a, b := z.get(s, in.X), z.get(s, in.Y)
	f := s.top()
	set := func(v sval) []*sstate {
		f.env[in] = v
		f.pc++
		return []*sstate{s}
	}
	fork := func(yes, no []*sstate) (out []*sstate) {
		for i, l := range [][]*sstate{yes, no} {
			for _, x := range l {
				x = x.clone()
				x.top().env[in] = sval{kind: 'b', b: i == 0}
				x.top().pc++
				out = append(out, x)
			}
		}
		return
	}
	asTab := func(v sval) (func(b int) (int64, bool), string) {
		switch v.kind {
		case 'c':
			return func(b int) (int64, bool) { return int64(v.tab[b]), true }, v.ch
		case 'i':
			if v.l.isConst() {
				return func(int) (int64, bool) { return int64(v.l.k()), true }, ""
			}
		case 'b':
			n := int64(0)
			if v.b {
				n = 1
			}
			return func(int) (int64, bool) { return n, true }, ""
		}
		return nil, ""
	}
	ta, ca := asTab(a)
	tb, cb := asTab(b)
	if ta != nil && tb != nil && (ca != "" || cb != "") && (ca == "" || cb == "" || ca == cb) {
		r := sval{kind: 'c', tab: new([128]int32), ch: ca + cb}
		if ca != "" {
			r.ch = ca
		}
		T := in.X.Type()
		for i := 0; i < 128; i++ {
			x, _ := ta(i)
			y, _ := tb(i)
			n, isB, ok := arith(in.Op, x, y, T)
			if !ok {
				return set(unknownV)
			}
			r.isBool = isB
			r.tab[i] = int32(n)
		}
		return set(r)
	}
	switch in.Op {
	case token.ADD, token.SUB:
		if a.kind == 'i' && b.kind == 'i' {
			sg := 1
			if in.Op == token.SUB {
				sg = -1
			}
			return set(intV(s.canon(a.l.add(b.l, sg))))
		}
		if in.Op == token.ADD && isStr(in.Type()) {
			return set(z.concat(s, a, b))
		}
		return set(unknownV)
	}
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.kind == 'i' && b.kind == 'i' {
			d := a.l.add(b.l, -1) // a-b
			switch in.Op {
			case token.GEQ:
				return fork(s.ask(d))
			case token.LSS:
				y, n := s.ask(d)
				return fork(n, y)
			case token.LEQ:
				return fork(s.ask(d.neg()))
			case token.GTR:
				y, n := s.ask(d.neg())
				return fork(n, y)
			case token.EQL:
				return fork(s.askEq(d))
			}
			y, n := s.askEq(d)
			return fork(n, y)
		}
		if in.Op == token.EQL || in.Op == token.NEQ {
			var y, n []*sstate
			str := func(v sval) bool { return v.kind == 's' || v.kind == 'k' }
			switch {
			case a.kind == 'b' && b.kind == 'b':
				return set(sval{kind: 'b', b: (a.b == b.b) == (in.Op == token.EQL)})
			case a.kind == 'k' && b.kind == 'k':
				return set(sval{kind: 'b', b: (a.s == b.s) == (in.Op == token.EQL)})
			case str(a) && str(b) && (a.kind == 'k' && a.s == "" || b.kind == 'k' && b.s == ""):
				if a.kind == 'k' {
					a = b
				}
				y, n = s.askEq(a.hi.add(a.l, -1))
			case (a.kind == 'n' || b.kind == 'n') && (a.kind == 'm' || b.kind == 'm' || a.kind == 'f' || b.kind == 'f'):
				return set(sval{kind: 'b', b: in.Op == token.NEQ})
			case a.kind == 'n' && b.kind == 'n':
				return set(sval{kind: 'b', b: in.Op == token.EQL})
			default:
				y, n = []*sstate{s}, []*sstate{s}
			}
			if in.Op == token.NEQ {
				y, n = n, y
			}
			return fork(y, n)
		}
	}
	return set(unknownV)
}

func arith(op token.Token, x, y int64, T types.Type) (n int64, isBool, ok bool) {
	bb := func(b bool) (int64, bool, bool) {
		if b {
			return 1, true, true
		}
		return 0, true, true
	}
	switch op {
	case token.EQL:
		return bb(x == y)
	case token.NEQ:
		return bb(x != y)
	case token.LSS:
		return bb(x < y)
	case token.LEQ:
		return bb(x <= y)
	case token.GTR:
		return bb(x > y)
	case token.GEQ:
		return bb(x >= y)
	case token.ADD:
		n = x + y
	case token.SUB:
		n = x - y
	case token.MUL:
		n = x * y
	case token.AND:
		n = x & y
	case token.OR:
		n = x | y
	case token.XOR:
		n = x ^ y
	case token.AND_NOT:
		n = x &^ y
	case token.SHL:
		if y < 0 || y > 30 {
			return 0, false, false
		}
		n = x << y
	case token.SHR:
		if y < 0 || y > 30 {
			return 0, false, false
		}
		n = x >> y
	case token.QUO:
		if y == 0 {
			return 0, false, false
		}
		n = x / y
	case token.REM:
		if y == 0 {
			return 0, false, false
		}
		n = x % y
	default:
		return 0, false, false
	}
	n, ok = wrapTo(n, T)
	return n, false, ok
}

func wrapTo(n int64, T types.Type) (int64, bool) {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		n = int64(uint8(n))
	case types.Int8:
		n = int64(int8(n))
	case types.Uint16:
		n = int64(uint16(n))
	case types.Uint32, types.Uint64, types.Uint, types.Uintptr:
		if n < 0 {
			n = 1<<31 - 1 // large
		}
	}
	return n, n < 1<<31 && n > -(1<<31)
}

// concat joins adjacent substrings.
func (z *scanner) concat(s *sstate, a, b sval) sval {
	switch {
	case s.emptyStr(a):
		return b
	case s.emptyStr(b):
		return a
	case a.kind == 's' && b.kind == 's' && s.eq(a.hi, b.l):
		return sval{kind: 's', l: a.l, hi: b.hi}
	case a.kind == 'k' && b.kind == 'k':
		return sval{kind: 'k', s: a.s + b.s}
	}
	return unknownV
}

// step executes one instruction of the top frame.
func (z *scanner) step(s *sstate, in ssa.Instruction) []*sstate {
	f := s.top()
	next := func() []*sstate {
		f.pc++
		return []*sstate{s}
	}
	set := func(v sval) []*sstate {
		f.env[in.(ssa.Value)] = v
		return next()
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.BinOp:
		return z.binop(s, in)
	case *ssa.Alloc:
		id := fmt.Sprintf("%d/%s.%s", len(s.frames), f.fn, in.Name())
		s.cells[id] = zeroS(deref(in.Type()))
		return set(sval{kind: 'p', s: id})
	case *ssa.UnOp:
		x := z.get(s, in.X)
		switch in.Op {
		case token.MUL:
			if x.kind == 'c' || x.kind == '?' { // element of a byte slice
				return set(x)
			}
			if x.kind == 'p' {
				v, ok := s.cells[x.s]
				if !ok {
					return set(unknownV)
				}
				for _, e := range x.els {
					if v.kind != 't' || e.l.k() >= len(v.els) {
						return set(unknownV)
					}
					v = v.els[e.l.k()]
				}
				return set(v)
			}
			return set(unknownV)
		case token.NOT:
			switch x.kind {
			case 'b':
				return set(sval{kind: 'b', b: !x.b})
			case 'c':
				n := x
				n.tab = new([128]int32)
				for i := range n.tab {
					n.tab[i] = 1 - x.tab[i]
				}
				return set(n)
			}
			return set(unknownV)
		case token.SUB:
			if x.kind == 'i' {
				return set(intV(s.canon(x.l.neg())))
			}
		}
		return set(unknownV)
	case *ssa.Store:
		p, v := z.get(s, in.Addr), z.get(s, in.Val)
		if p.kind != 'p' || strings.HasPrefix(p.s, "global:") {
			sfail("a store to an unknown place")
		}
		if v.kind == 'p' {
			sfail("a pointer is stored")
		}
		s.cells[p.s] = setPath(s.cells[p.s], p.els, v)
		return next()
	case *ssa.FieldAddr:
		p := z.get(s, in.X)
		if p.kind != 'p' {
			return set(unknownV)
		}
		p.els = append(append([]sval{}, p.els...), sval{kind: 'i', l: kon(in.Field)})
		return set(p)
	case *ssa.Field:
		x := z.get(s, in.X)
		if x.kind == 't' && in.Field < len(x.els) {
			return set(x.els[in.Field])
		}
		return set(unknownV)
	case *ssa.Extract:
		x := z.get(s, in.Tuple)
		if x.kind == 't' && in.Index < len(x.els) {
			return set(x.els[in.Index])
		}
		return set(unknownV)
	case *ssa.MakeMap:
		z.noteMap(in)
		return set(sval{kind: 'm', s: fmt.Sprintf("%s.%s", f.fn, in.Name())})
	case *ssa.MakeClosure:
		v := sval{kind: 'f', fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.els = append(v.els, z.get(s, b))
		}
		return set(v)
	case *ssa.ChangeType:
		return set(z.get(s, in.X))
	case *ssa.MakeInterface:
		return set(unknownV)
	case *ssa.Convert:
		x := z.get(s, in.X)
		to := in.Type()
		switch {
		case isInt(in.X.Type()) && isStr(to):
			// the string of one byte is the substring at the place it was read
			if x.kind == 'c' && len(x.els) == 1 && identity(x.tab) {
				p := x.els[0].l
				return set(sval{kind: 's', l: p, hi: s.canon(p.add(kon(1), 1))})
			}
			return set(unknownV)
		case isInt(in.X.Type()) && isInt(to):
			if x.kind == 'c' {
				n := x
				n.tab = new([128]int32)
				for i := range n.tab {
					w, ok := wrapTo(int64(x.tab[i]), to)
					if !ok {
						return set(unknownV)
					}
					n.tab[i] = int32(w)
				}
				return set(n)
			}
			return set(x)
		case x.kind == 's' || x.kind == 'k' || x.kind == 'n':
			return set(x) // between strings, bytes and runes
		}
		return set(unknownV)
	case *ssa.Slice:
		x := z.get(s, in.X)
		return z.slice(s, in, x)
	case *ssa.Lookup:
		x, i := z.get(s, in.X), z.get(s, in.Index)
		if x.kind == 'm' || isMap(in.X.Type()) {
			if in.CommaOk {
				return set(sval{kind: 't', els: []sval{unknownV, unknownV}})
			}
			return set(unknownV)
		}
		return z.index(s, in, x, i)
	case *ssa.IndexAddr:
		return z.index(s, in, z.get(s, in.X), z.get(s, in.Index))
	case *ssa.Index:
		return z.index(s, in, z.get(s, in.X), z.get(s, in.Index))
	case *ssa.MapUpdate:
		m, k, v := z.get(s, in.Map), z.get(s, in.Key), z.get(s, in.Value)
		if m.kind != 'm' {
			sfail("a store to an unknown map")
		}
		z.stores++
		z.store(s, instrPos(in), k, v)
		return next()
	case *ssa.Range:
		x := z.get(s, in.X)
		if s.emptyStr(x) {
			x = sval{kind: 's', l: kon(0), hi: kon(0)}
		}
		if x.kind != 's' {
			sfail("a loop over something other than the header")
		}
		id := fmt.Sprintf("%d/%s.%s", len(s.frames), f.fn, in.Name())
		s.cells[id] = sval{kind: 'r', l: x.l, hi: x.hi, els: []sval{{kind: 's', l: x.l, hi: x.hi}}}
		return set(sval{kind: 'p', s: id})
	case *ssa.Next:
		it := z.get(s, in.Iter)
		if it.kind != 'p' || !in.IsString {
			sfail("a loop over something other than the header")
		}
		r := s.cells[it.s]
		whole := r.els[0]
		inside, out := s.ask(whole.hi.add(r.l, -1).add(kon(1), -1))
		var res []*sstate
		for _, x := range out {
			x = x.clone()
			x.top().env[in] = sval{kind: 't', els: []sval{{kind: 'b'}, unknownV, unknownV}}
			x.top().pc++
			res = append(res, x)
		}
		id := "range" + it.s
		for _, x := range inside {
			x = x.clone()
			c := x.cells[it.s]
			x.cells[it.s] = c
			for _, y := range x.byteAt(c.l, id) {
				c := y.cells[it.s]
				at := c.l
				w := c.els[0]
				k := intV(y.canon(at.add(w.l, -1)))
				y.top().env[in] = sval{kind: 't', els: []sval{{kind: 'b', b: true}, k, byteV(id, at)}}
				c.l = y.canon(at.add(kon(1), 1))
				y.cells[it.s] = c
				y.top().pc++
				res = append(res, y)
			}
		}
		return res
	case *ssa.Call:
		return z.call(s, in)
	case *ssa.Select, *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.RunDefers:
		sfail("unsupported construct %s", in)
	}
	if _, ok := in.(ssa.Value); ok {
		return set(unknownV)
	}
	sfail("unsupported instruction %s", in)
	return nil
}

// byteV is the byte of char id, read at p.
func byteV(id string, p lin1) sval {
	v := sval{kind: 'c', ch: id, tab: new([128]int32), els: []sval{intV(p)}}
	for i := range v.tab {
		v.tab[i] = int32(i)
	}
	return v
}

func identity(t *[128]int32) bool {
	for i, v := range t {
		if int(v) != i {
			return false
		}
	}
	return true
}

func isMap(T types.Type) bool { _, ok := T.Underlying().(*types.Map); return ok }

func setPath(c sval, path []sval, v sval) sval {
	if len(path) == 0 {
		return v
	}
	i := path[0].l.k()
	if c.kind != 't' || i >= len(c.els) {
		return unknownV
	}
	c.els = append([]sval{}, c.els...)
	c.els[i] = setPath(c.els[i], path[1:], v)
	return c
}

func (z *scanner) noteMap(in *ssa.MakeMap) {}

func (z *scanner) slice(s *sstate, in *ssa.Slice, x sval) []*sstate {
	f := s.top()
	set := func(v sval) []*sstate {
		f.env[in] = v
		f.pc++
		return []*sstate{s}
	}
	if x.kind == 'n' || (x.kind == 'k' && x.s == "") {
		return set(sval{kind: 'k'})
	}
	if x.kind == 'p' && in.Low == nil && in.High == nil && in.Max == nil {
		v := s.cells[x.s]
		for _, e := range x.els {
			if v.kind != 't' || e.l.k() >= len(v.els) {
				return set(unknownV)
			}
			v = v.els[e.l.k()]
		}
		if v.kind != 't' || len(v.els) == 0 {
			return set(unknownV)
		}
		r := sval{kind: 'k'}
		for _, e := range v.els {
			if e.kind != 'c' || len(e.els) != 1 || !identity(e.tab) {
				return set(unknownV)
			}
			q := e.els[0].l
			r = z.concat(s, r, sval{kind: 's', l: q, hi: s.canon(q.add(kon(1), 1))})
		}
		if a, ok := in.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
			delete(s.cells, x.s)
		}
		return set(r)
	}
	if x.kind != 's' {
		return set(unknownV)
	}
	r := x
	if in.Low != nil {
		l := z.get(s, in.Low)
		if l.kind != 'i' {
			return set(unknownV)
		}
		r.l = s.canon(x.l.add(l.l, 1))
	}
	if in.High != nil {
		h := z.get(s, in.High)
		if h.kind != 'i' {
			return set(unknownV)
		}
		r.hi = s.canon(x.l.add(h.l, 1))
	}
	if in.Max != nil {
		return set(unknownV)
	}
	return set(r)
}

func (z *scanner) index(s *sstate, in ssa.Value, x, i sval) (out []*sstate) {
	f := s.top()
	if x.kind == 'p' && i.kind == 'i' {
		if _, isAddr := in.(*ssa.IndexAddr); isAddr {
			if n, ok := i.l.num(); ok && n >= 0 && n < 8 {
				x.els = append(append([]sval{}, x.els...), sval{kind: 'i', l: kon(n)})
				f.env[in] = x
				f.pc++
				return []*sstate{s}
			}
		}
	}
	if x.kind != 's' || i.kind != 'i' {
		f.env[in] = unknownV
		f.pc++
		return []*sstate{s}
	}
	z.reads++
	id := fmt.Sprintf("%d/%s.%s", len(s.frames), f.fn, in.Name())
	p := x.l.add(i.l, 1)
	s.cells["\x00i"] = sval{kind: 'i', l: s.canon(p)}
	for _, y := range s.byteAt(p, id) {
		at := y.cells["\x00i"].l
		delete(y.cells, "\x00i")
		y.top().env[in] = byteV(id, at)
		y.top().pc++
		out = append(out, y)
	}
	return
}

// store checks a stored field against the fields the reference has completed.
func (z *scanner) store(s *sstate, pos token.Pos, k, v sval) {
	str := func(v sval) string {
		switch v.kind {
		case 's':
			return fmt.Sprintf("header[%s:%s]", v.l, v.hi)
		case 'k':
			return fmt.Sprintf("%q", v.s)
		}
		return "an unknown string"
	}
	if s.mode == modeDead {
		z.violation(pos, "a field (%s, %s) is stored although the header does not begin with a capital letter", str(k), str(v))
		return
	}
	if len(s.pend) == 0 {
		z.violation(pos, "a field (%s, %s) is stored %s, when no field is complete that has not been stored yet", str(k), str(v), modeName[s.mode])
		return
	}
	e := s.pend[0]
	okK := k.kind == 's' && s.eq(k.l, e.k0) && s.eq(k.hi, e.k1)
	okV := v.kind == 's' && s.eq(v.l, e.v0) && s.eq(v.hi, e.v1) || s.eq(e.v0, e.v1) && s.emptyStr(v)
	if !okK || !okV {
		z.violation(pos, "the field stored is (%s, %s) but the header contains the field (header[%s:%s], header[%s:%s])", str(k), str(v), e.k0, e.k1, e.v0, e.v1)
	}
	s.pend = s.pend[1:]
}

var bytePreds = map[string]func(rune) bool{
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic,
}
var byteFuncs = map[string]func(rune) rune{"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower}

func (z *scanner) call(s *sstate, in *ssa.Call) []*sstate {
	f := s.top()
	set := func(v sval) []*sstate {
		f.env[in] = v
		f.pc++
		return []*sstate{s}
	}
	com := in.Call
	var args []sval
	for _, a := range com.Args {
		args = append(args, z.get(s, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			x := args[0]
			switch x.kind {
			case 's':
				return set(intV(s.canon(x.hi.add(x.l, -1))))
			case 'k':
				return set(intV(kon(len(x.s))))
			case 'n':
				return set(intV(kon(0)))
			}
			return set(unknownV)
		case "append":
			if len(args) == 2 && (args[1].kind == 's' || args[1].kind == 'k') {
				return set(z.concat(s, args[0], args[1]))
			}
			sfail("an append that is not understood")
		case "min", "max":
			if len(args) == 2 && args[0].kind == 'i' && args[1].kind == 'i' {
				d := args[0].l.add(args[1].l, -1)
				ge, lt := s.ask(d)
				big, small := args[0], args[1]
				if b.Name() == "min" {
					big, small = small, big
				}
				var out []*sstate
				for i, l := range [][]*sstate{ge, lt} {
					for _, x := range l {
						x = x.clone()
						v := big
						if i == 1 {
							v = small
						}
						x.top().env[in] = intV(x.canon(v.l))
						x.top().pc++
						out = append(out, x)
					}
				}
				return out
			}
			return set(unknownV)
		case "print", "println":
			return set(unknownV)
		}
		sfail("builtin %s", b.Name())
	}
	var fn *ssa.Function
	var bind []sval
	if com.IsInvoke() {
		sfail("a dynamic call")
	}
	switch v := com.Value.(type) {
	case *ssa.Function:
		fn = v
	default:
		x := z.get(s, v)
		if x.kind != 'f' {
			sfail("a call of an unknown function")
		}
		fn, bind = x.fn, x.els
	}
	name := fn.String()
	if p, ok := bytePreds[name]; ok && args[0].kind == 'c' {
		return set(mapTab(args[0], func(c int32) int32 {
			if p(c) {
				return 1
			}
			return 0
		}, true))
	}
	if p, ok := byteFuncs[name]; ok && args[0].kind == 'c' {
		return set(mapTab(args[0], func(c int32) int32 { return p(c) }, false))
	}
	search := func(str sval, set charset, trims bool) []*sstate {
		if str.kind != 's' {
			f.env[in] = unknownV
			f.pc++
			return []*sstate{s}
		}
		s.frames = append(s.frames, &sframe{fn: f.fn, block: f.block, env: map[ssa.Value]sval{}, call: in, search: &ssearch{str: str, set: set, at: str.l, trims: trims}})
		z.push(s)
		return nil
	}
	constSet := func(v sval) (set charset, ok bool) {
		if v.kind != 'k' {
			return set, false
		}
		for i := 0; i < len(v.s); i++ {
			if v.s[i] >= 128 {
				return set, false
			}
			set.put(int(v.s[i]))
		}
		return set, true
	}
	flip := func(s charset) charset { return charset{^s[0], ^s[1]} }
	switch name {
	case "strings.IndexFunc", "bytes.IndexFunc":
		if p, ok := z.predicate(args[1]); ok {
			return search(args[0], p, false)
		}
	case "strings.IndexAny", "bytes.IndexAny":
		if p, ok := constSet(args[1]); ok {
			return search(args[0], p, false)
		}
	case "strings.IndexByte", "strings.IndexRune", "bytes.IndexByte":
		if args[1].kind == 'i' && args[1].l.isConst() && args[1].l.k() >= 0 && args[1].l.k() < 128 {
			var p charset
			p.put(args[1].l.k())
			return search(args[0], p, false)
		}
		if args[1].kind == 'c' && args[0].kind == 'k' {
			str := args[0].s
			return set(mapTab(args[1], func(c int32) int32 { return int32(strings.IndexRune(str, c)) }, false))
		}
	case "strings.ContainsRune":
		if args[1].kind == 'c' && args[0].kind == 'k' {
			str := args[0].s
			return set(mapTab(args[1], func(c int32) int32 {
				if strings.ContainsRune(str, c) {
					return 1
				}
				return 0
			}, true))
		}
	case "strings.TrimLeftFunc", "bytes.TrimLeftFunc":
		if p, ok := z.predicate(args[1]); ok {
			return search(args[0], flip(p), true)
		}
	case "strings.TrimLeft", "bytes.TrimLeft":
		if p, ok := constSet(args[1]); ok {
			return search(args[0], flip(p), true)
		}
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).WriteString", "(*strings.Builder).String", "(*strings.Builder).Reset", "(*strings.Builder).Len", "(*strings.Builder).Grow":
		p := args[0]
		if p.kind != 'p' || len(p.els) > 0 {
			sfail("a string builder that is not a local variable")
		}
		cur := s.cells[p.s]
		if cur.kind == 't' {
			cur = sval{kind: 'k'}
		}
		switch name[len("(*strings.Builder)."):] {
		case "WriteString":
			s.cells[p.s] = z.concat(s, cur, args[1])
			return set(sval{kind: 't', els: []sval{unknownV, {kind: 'n'}}})
		case "WriteByte", "WriteRune":
			v := unknownV
			if x := args[1]; x.kind == 'c' && len(x.els) == 1 && identity(x.tab) {
				q := x.els[0].l
				v = sval{kind: 's', l: q, hi: s.canon(q.add(kon(1), 1))}
			}
			s.cells[p.s] = z.concat(s, cur, v)
			if strings.HasSuffix(name, "WriteByte") {
				return set(sval{kind: 'n'})
			}
			return set(sval{kind: 't', els: []sval{unknownV, {kind: 'n'}}})
		case "String":
			return set(cur)
		case "Reset":
			s.cells[p.s] = sval{kind: 'k'}
			return set(unknownV)
		case "Len":
			if cur.kind == 's' {
				return set(intV(s.canon(cur.hi.add(cur.l, -1))))
			}
			if cur.kind == 'k' {
				return set(intV(kon(len(cur.s))))
			}
			return set(unknownV)
		}
		return set(unknownV)
	}
	if z.c.r.isRepo(fn) && len(fn.Blocks) > 0 {
		if len(s.frames) > 6 {
			sfail("calls are nested too deeply")
		}
		z.fns[fn] = true
		g := &sframe{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]sval{}, call: in}
		for i, p := range fn.Params {
			g.env[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			g.env[p] = bind[i]
		}
		s.frames = append(s.frames, g)
		return []*sstate{s}
	}
	for _, a := range args {
		if a.kind == 'p' || a.kind == 'm' {
			sfail("call of %s", name)
		}
	}
	z.c.models[name+" (result unknown)"] = true
	return set(unknownV)
}

func mapTab(v sval, f func(int32) int32, isBool bool) sval {
	n := v
	n.tab = new([128]int32)
	for i := range n.tab {
		n.tab[i] = f(v.tab[i])
	}
	n.isBool = isBool
	return n
}

// predicate tabulates a predicate on bytes.
func (z *scanner) predicate(v sval) (set charset, ok bool) {
	if v.kind != 'f' {
		return set, false
	}
	if p, ok := bytePreds[v.fn.String()]; ok {
		for b := 0; b < 128; b++ {
			if p(rune(b)) {
				set.put(b)
			}
		}
		return set, true
	}
	if !z.c.r.isRepo(v.fn) || len(v.fn.Blocks) == 0 || len(v.fn.Params) != 1 || len(v.els) > 0 {
		return set, false
	}
	for b := 0; b < 128; b++ {
		sub := &scanner{c: z.c, fn: v.fn, live: z.live, seen: map[string]bool{}, bad: map[string]string{}, fns: z.fns}
		s := &sstate{cells: map[string]sval{}, chars: map[string]charset{}}
		s.has[mF] = true
		s.frames = []*sframe{{fn: v.fn, block: v.fn.Blocks[0], env: map[ssa.Value]sval{v.fn.Params[0]: intV(kon(b))}}}
		r := sub.eval(s)
		if r.kind != 'b' {
			return set, false
		}
		if r.b {
			set.put(b)
		}
	}
	return set, true
}

// eval runs a function on constants.
func (z *scanner) eval(s *sstate) sval {
	for i := 0; i < 10000; i++ {
		f := s.top()
		in := f.block.Instrs[f.pc]
		switch in := in.(type) {
		case *ssa.If:
			v := z.get(s, in.Cond)
			if v.kind != 'b' {
				return unknownV
			}
			if v.b {
				z.enter(s, in.Block().Succs[0])
			} else {
				z.enter(s, in.Block().Succs[1])
			}
		case *ssa.Jump:
			z.enter(s, in.Block().Succs[0])
		case *ssa.Return:
			if len(in.Results) != 1 {
				return unknownV
			}
			r := z.get(s, in.Results[0])
			if len(s.frames) == 1 {
				return r
			}
			call := f.call
			s.frames = s.frames[:len(s.frames)-1]
			s.top().env[call] = r
			s.top().pc++
		case *ssa.Call:
			if fn, ok := in.Call.Value.(*ssa.Function); ok && len(in.Call.Args) == 1 {
				if p, ok := bytePreds[fn.String()]; ok {
					if v := z.get(s, in.Call.Args[0]); v.kind == 'i' && v.l.isConst() {
						f.env[in] = sval{kind: 'b', b: p(rune(v.l.k()))}
						f.pc++
						continue
					}
				}
			}
			o := z.call(s, in)
			if len(o) != 1 {
				return unknownV
			}
			s = o[0]
		default:
			o := z.step(s, in)
			if len(o) != 1 {
				return unknownV
			}
			s = o[0]
		}
	}
	return unknownV
}

// scanCheck analyses the function that cuts the header into fields.
func (c *Ctx) scanCheck(fn *ssa.Function) {
	z := &scanner{c: c, fn: fn, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, seen: map[string]bool{}, bad: map[string]string{}, fns: map[*ssa.Function]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(scanError); ok {
					c.ok(false, "every scanner state is decided", fnName(fn), z.pos, "undecided: %s", x.msg)
					return
				}
				panic(e)
			}
		}()
		z.run()
	}()
	for f := range z.fns {
		c.fns[f.String()] = true
	}
	rule := "the fields stored are exactly the fields of the header"
	for _, m := range z.order {
		c.ok(false, rule, fnName(fn), z.bad[m], "%s", m)
	}
	c.ok(z.returns > 0, rule, fnName(fn)+" returns", c.fpos(fn), "no return is reachable")
	c.ok(z.stores > 0, rule, fnName(fn)+" stores fields", c.fpos(fn), "no field is ever stored")
	for k := range z.seen {
		_ = k
		break
	}
	c.notes = append(c.notes, fmt.Sprintf("%d abstract scanner states, %d stores and %d returns checked", len(z.seen), z.stores, z.returns))
}
