package main

// Facts that hold when a loop has been left: the exit that was taken was
// possible in its iteration, and every earlier iteration went round again.

import (
	"strings"
)

// loopRefs lists the loops (with their enclosing iteration numbers) whose exit
// a term refers to.
func (en *Engine) loopRefs(ts ...*Term) []loopRef {
	seen := map[string]bool{}
	byID := map[string]*Loop{}
	for _, l := range en.loops {
		byID[l.ID] = l
	}
	var out []loopRef
	for _, t := range ts {
		for _, a := range collect(t, func(x *Term) bool {
			return x.Op == OpApp && hasPrefixAny(x.S, "done:", "kx:", "exit:", "carry:")
		}) {
			f := strings.Split(a.S, ":")
			l := byID[f[1]]
			if l == nil {
				continue
			}
			args := a.A
			if f[0] == "carry" {
				args = args[1:]
			}
			key := l.ID
			for _, x := range args {
				key += "," + string(ids(nil, []*Term{x}))
			}
			if !seen[key] {
				seen[key] = true
				out = append(out, loopRef{l, args})
			}
		}
	}
	return out
}

type loopRef struct {
	l    *Loop
	args []*Term
}

func (r loopRef) inst(t *Term) *Term {
	m := map[*Term]*Term{}
	for i, k := range r.l.outerKs() {
		if k != r.args[i] {
			m[k] = r.args[i]
		}
	}
	if len(m) == 0 {
		return t
	}
	return substT(t, m)
}

// exitFacts is the conjunction of what leaving the loops mentioned in g means,
// with the completed iterations instantiated at ks.
func (en *Engine) exitFacts(g *Term, ks ...*Term) *Term {
	f := True
	for _, r := range en.loopRefs(g) {
		l := r.l
		for _, x := range l.Exits {
			xg := r.inst(x.Guard)
			if And(g, xg) == False {
				continue
			}
			at := r.inst(x.At)
			f = And(f, Implies(xg, And(Ge0(at), r.inst(substT(x.G, map[*Term]*Term{l.K: x.At})))))
			for _, k := range ks {
				in := AndN(xg, Ge0(k), Lt(k, at))
				f = And(f, Implies(in, r.inst(substT(l.ContG, map[*Term]*Term{l.K: k}))))
			}
		}
	}
	return f
}
