package main

import (
	"go/types"
)

func init() {
	register("C09", "proof", "value analysis of NewComposites with the parse of one entry abstracted: length and elements of the result as functions of the archive entries, the comparison the result is sorted by, and the result on every error path", func(c *Ctx) {
		a := c.archive()
		c.archiveErrors(a)
		pos := c.fpos(a.fn)
		ok := And(a.ret, IsNilT(a.err))
		CT := c.typ(c.r.lib, "Composite")
		PT := types.NewPointer(CT)
		// errors: no composites
		c.eqLin(a.Engine, And(a.ret, Not(IsNilT(a.err))), Len(a.cs), Zero, "an error comes without composites", "result of NewComposites", pos)
		c.eq(True, a.ret, a.ret, "an error comes without composites", "all returns of NewComposites", pos)
		// one archive reader
		var tar *Term
		for o := range a.tars {
			if tar != nil {
				fail("several archive readers")
			}
			tar = o
		}
		if tar == nil {
			fail("no archive reader found")
		}
		B := a.tars[tar].B
		bz := App("bunzip2", nil, App("bytes", nil, a.rd), a.streamPos0(a.rd))
		c.ok(B == App("untar", nil, App("bytes", nil, bz)), "the archive is the decompressed input", "tar reader", pos, "it reads %s", show(B, 6))
		calls := deepRestrict(a.streamPos(a.st, stream{tar, nil, B}), ok)
		n := deepRestrict(Len(a.cs), ok)
		c.eqLin(a.Engine, ok, n, AddC(calls, -1), "one composite per archive entry", "number of composites", pos)
		// which entry the parse of iteration k reads
		q := Sym("q", tInt)
		in := AndN(ok, Ge0(q), Lt(q, n))
		np := 0
		for _, e := range a.events {
			if e.Kind != "parse" {
				continue
			}
			np++
			if len(e.Loops) != 1 {
				c.ok(false, "one composite per archive entry", "parse of an entry", c.pos(e.Pos), "it is not executed once per iteration of one loop")
				continue
			}
			from := substT(e.Args[0], map[*Term]*Term{e.Loops[0].K: q})
			E := App("tarbytes", nil, B, AddC(q, 1))
			c.eqLin(a.Engine, And(in, Ge0(q)), from, App("at", nil, E, a.streamPos0T(E)), "the k-th composite is parsed from the start of the k-th entry", "parse of an entry", c.pos(e.Pos))
		}
		c.ok(np == 1, "one composite per archive entry", "parses per entry", pos, "%d parse sites", np)
		// elements and order
		elem := a.at(a.cs, q, PT)
		want := func(k *Term) *Term { return expandStruct(CT, App("parsed.comp", CT, k)) }
		ft := func(k *Term) *Term { return fieldOf(CT, want(k), fieldIndex(CT, "ForecastTime")) }
		sorted := 0
		var rec func(g, t *Term)
		seen := map[[2]*Term]bool{}
		rec = func(g, t *Term) {
			t = deepRestrict(t, g)
			if g == False || seen[[2]*Term{g, t}] {
				return
			}
			seen[[2]*Term{g, t}] = true
			if t.Op == OpIte {
				at := typed(t.A[0])
				rec(And(g, at), t.A[1])
				rec(And(g, Not(at)), t.A[2])
				return
			}
			if imp, _ := a.infeasible(g); imp {
				return
			}
			src := t
			if t.app("sel") && t.A[0].app("sorted") {
				sorted++
				s := t.A[0]
				src = deepRestrict(App("sel", PT, s.A[0], Add(s.A[1], q)), g)
				c.eqLin(a.Engine, g, s.A[2], n, "all composites are sorted", "range of the sort", pos)
				key := s.A[3]
				if key.Op == OpTuple && len(key.A) == 1 {
					key = key.A[0]
				}
				i, j := Sym("k@sort.i", tInt), Sym("k@sort.j", tInt)
				gk := AndN(g, Ge0(i), Lt(i, n), Ge0(j), Lt(j, n))
				key = a.pruned(gk, key)
				c.ok(c.ascending(gk, key, ft(i), ft(j)), "the order is ascending forecast time", "comparison of the sort", pos, "composites are ordered by %s", show(deepRestrict(key, gk), 8))
			} else {
				imp, d := a.infeasible(And(g, Ge(n, Num(2))))
				c.ok(imp, "all composites are sorted", "result of NewComposites", pos, "the result is not sorted when %s", d)
			}
			got := a.load(a.st, src, CT)
			c.eqLin(a.Engine, g, got, want(q), "the result holds the parsed composites unchanged", "elements of the result", pos)
		}
		rec(in, elem)
		c.ok(sorted > 0, "all composites are sorted", "result of NewComposites", pos, "no sorting of the result found")
	})
}

// pruned drops the cases of t that are impossible under g.
func (en *Engine) pruned(g, t *Term) *Term {
	t = deepRestrict(t, g)
	if t.Op != OpIte {
		return t
	}
	if _, _, lin := linAtom(t.A[0]); !lin {
		return t
	}
	at := typed(t.A[0])
	if no, _ := en.infeasible(And(g, at)); no {
		return en.pruned(And(g, Not(at)), t.A[2])
	}
	if no, _ := en.infeasible(And(g, Not(at))); no {
		return en.pruned(And(g, at), t.A[1])
	}
	return Ite(at, en.pruned(And(g, at), t.A[1]), en.pruned(And(g, Not(at)), t.A[2]))
}

// ascending: key(i,j) says that composite i has the smaller forecast time.
func (c *Ctx) ascending(g, key, fi, fj *Term) bool {
	lt := App("timebefore", tBool, fi, fj)
	ok := []*Term{lt, Not(App("timebefore", tBool, fj, fi))}
	for _, m := range []string{"(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).UnixMicro"} {
		ok = append(ok, Lt(App(m, tInt, fi), App(m, tInt, fj)))
	}
	D := App("timesub", tInt, fi, fj)
	ok = append(ok, Lt(D, Zero))
	for _, w := range ok {
		if same(g, key, w) || show(deepRestrict(key, g), 40) == show(deepRestrict(w, g), 40) {
			return true
		}
	}
	return false
}

// streamPos0 is the position a stream has on entry.
func (a *archView) streamPos0(r *Term) *Term {
	s, _ := a.streamOf(a.start(), r)
	return a.Engine.streamPos(a.start(), s)
}
func (a *archView) streamPos0T(B *Term) *Term {
	o := Obj("stream", B)
	a.objType[o] = tInt
	return a.Engine.streamPos(a.start(), stream{o, nil, B})
}
