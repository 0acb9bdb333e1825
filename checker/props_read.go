package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stream primitives. Complete reads deliver everything that was asked for or
// an error, independently of how the underlying reader splits the bytes.
var fullReads = map[string]bool{
	"(*bufio.Reader).ReadString":    true,
	"(*bufio.Reader).ReadBytes":     true,
	"(*bufio.Reader).ReadByte":      true,
	"invoke:io.ByteReader.ReadByte": true,
	"(*bufio.Reader).Discard":       true,
	"io.ReadFull":                   true,
	"io.ReadAll":                    true,
	"io/ioutil.ReadAll":             true,
	"(*archive/tar.Reader).Next":    true,
}
var streamMakers = map[string]bool{
	"bufio.NewReader": true, "bufio.NewReaderSize": true,
	"compress/bzip2.NewReader": true, "archive/tar.NewReader": true,
}

type readEvent struct {
	*Event
	err *Term  // error result
	bad string // why the primitive is not a complete read
}

// reads classifies the stream operations of an engine.
func (c *Ctx) reads(en *Engine) []readEvent {
	var out []readEvent
	for _, e := range en.events {
		if e.Kind != "call" && e.Kind != "exit" {
			continue
		}
		ci, ok := e.Instr.(ssa.CallInstruction)
		if !ok || !touchesStream(ci) {
			continue
		}
		if streamMakers[e.Callee] {
			continue
		}
		r := readEvent{Event: e}
		if e.Res != nil {
			r.err = e.Res
			if e.Res.Op == OpTuple {
				r.err = e.Res.A[len(e.Res.A)-1]
			}
			if r.err.K == KInt || r.err.K == KFloat || r.err.K == KBool {
				r.err = nil
			}
		}
		switch {
		case e.Rule == "short read":
			r.bad = "a single " + e.Callee + " may deliver fewer bytes than requested"
		case strings.HasSuffix(e.Callee, ".ReadSlice"), strings.HasSuffix(e.Callee, ".ReadLine"):
			r.bad = e.Callee + " fails when the data does not fit the internal buffer"
		case strings.HasSuffix(e.Callee, ".Peek"), strings.HasSuffix(e.Callee, ".Buffered"), strings.HasSuffix(e.Callee, ".Size"):
			r.bad = e.Callee + " depends on the amount of buffered data"
		case fullReads[e.Callee] || (e.Callee == "io.ReadAtLeast" && e.Rule == ""):
		default:
			r.bad = e.Callee + " is not known to be a complete read"
		}
		out = append(out, r)
	}
	return out
}

// touchesStream: the call has a reader among its arguments or as its receiver.
func touchesStream(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	isR := func(T types.Type) bool {
		ms := types.NewMethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); n == "Read" || n == "ReadByte" {
				if sg, ok := ms.At(i).Type().(*types.Signature); ok && (n == "ReadByte" && sg.Params().Len() == 0 || n == "Read" && sg.Params().Len() == 1 && sg.Results().Len() == 2) {
					return true
				}
			}
		}
		return false
	}
	if cc.IsInvoke() && isR(cc.Value.Type()) {
		return true
	}
	for _, a := range cc.Args {
		if isR(a.Type()) {
			return true
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && isR(mi.X.Type()) {
			return true
		}
	}
	return false
}

// errorsReported: when ok holds, no read that was executed has failed.
func (c *Ctx) errorsReported(en *Engine, ok *Term, name string) int {
	n := 0
	for _, r := range c.reads(en) {
		if r.err == nil {
			continue
		}
		n++
		good, d := en.never(ok, And(r.Guard, Not(IsNilT(r.err))), r.Loops)
		c.ok(good, "success implies that no read failed", r.Callee+" ("+name+")", c.pos(r.Pos), "success is reported although the read failed when %s", d)
	}
	return n
}

// never decides that cond cannot hold in any executed iteration of the loops ls
// (outermost first) of a run that ends in ok: the iteration was completed, or
// the loop was left in it.
func (en *Engine) never(ok, cond *Term, ls []*Loop) (bool, string) {
	var rec func(i int, m map[*Term]*Term, g *Term) (bool, string)
	rec = func(i int, m map[*Term]*Term, g *Term) (bool, string) {
		if g == False {
			return true, ""
		}
		if i == len(ls) {
			q := And(g, substT(cond, m))
			if q == False {
				return true, ""
			}
			if bad, d := en.infeasible(q); bad {
				return true, ""
			} else if en.aroundExits(q) {
				return true, ""
			} else {
				return false, d
			}
		}
		l := ls[i]
		for _, x := range l.Exits {
			at, xg := substT(x.At, m), substT(x.Guard, m)
			g1 := And(g, xg)
			if g1 == False {
				continue
			}
			if r, d := rec(i+1, m, AndN(g1, Ge0(l.K), Lt(l.K, at), substT(l.ContG, m))); !r {
				return false, d
			}
			if !x.Counting {
				m2 := map[*Term]*Term{l.K: at}
				for k, v := range m {
					m2[k] = v
				}
				if r, d := rec(i+1, m2, AndN(g1, Ge0(at), substT(x.G, m2))); !r {
					return false, d
				}
			}
		}
		return true, ""
	}
	return rec(0, map[*Term]*Term{}, ok)
}

// aroundExits proves a condition unsatisfiable by distinguishing whether the
// entry of an archive it is about came before, at or after the end of a loop.
func (en *Engine) aroundExits(q *Term) bool {
	points := map[*Term]bool{}
	for _, x := range collect(q, func(x *Term) bool { return x.app("tarnexterr") }) {
		points[x.A[1]] = true
	}
	for _, r := range en.loopRefs(q) {
		for _, x := range r.l.Exits {
			if x.Counting {
				continue
			}
			at, xg := r.inst(x.At), r.inst(x.Guard)
			if at.Op != OpApp || And(q, xg) == False {
				continue
			}
			for p := range points {
				if p == at || mentions(p, func(y *Term) bool { return y == at }) {
					continue
				}
				is := map[*Term]*Term{at: p}
				cases := []*Term{
					And(q, Not(xg)),
					AndN(q, xg, Lt(p, at), r.inst(substT(r.l.ContG, map[*Term]*Term{r.l.K: p}))),
					And(substT(And(q, xg), is), substT(r.inst(substT(x.G, map[*Term]*Term{r.l.K: x.At})), is)),
					AndN(q, xg, Lt(at, p)),
				}
				all := true
				for _, c := range cases {
					bad, _ := en.infeasible(c)
					all = all && bad
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	register("C06", "proof", "value analysis: under the condition of a successful return, the error of every executed stream operation is nil, in every iteration of every loop; a failed header, row or entry therefore reaches the caller as an error", func(c *Ctx) {
		h := c.header()
		n := c.errorsReported(h.Engine, h.ok, "header")
		for _, v := range c.data() {
			bad := And(v.ok, Not(App("hdr.ok", tBool)))
			v.unsat(bad, "success implies that the header was parsed", "NewComposite ("+v.name+")", c.fpos(v.fn), "success is reported although parsing the header failed when %s")
			m := c.errorsReported(v.Engine, v.ok, "data, "+v.name)
			c.ok(m > 0, "a check must have obligations", "stream reads of "+v.name, "", "none found")
			n += m
		}
		c.archiveErrors(c.archive())
		c.ok(n >= 3, "a check must have obligations", "stream reads", "", "only %d found", n)
	})
	register("C07", "proof", "who-may-call rule over the value analysis: every operation on the input stream is a complete-read primitive whose result depends on the bytes only", func(c *Ctx) {
		n := 0
		rule := func(en *Engine, name string) {
			for _, r := range c.reads(en) {
				n++
				c.ok(r.bad == "", "only complete-read primitives are used on streams", r.Callee+" ("+name+")", c.pos(r.Pos), "%s", r.bad)
			}
		}
		rule(c.header().Engine, "header")
		for _, v := range c.data() {
			rule(v.Engine, "data, "+v.name)
		}
		rule(c.archive().Engine, "archive")
		c.ok(n >= 4, "a check must have obligations", "stream operations", "", "only %d found", n)
	})
}

// archiveErrors: a successful archive parse means that every entry parsed and
// the archive ended with its regular end.
func (c *Ctx) archiveErrors(a *archView) {
	ok := And(a.ret, IsNilT(a.err))
	c.ok(ok != False, "archives can be parsed", "NewComposites", c.fpos(a.fn), "no successful return is reachable")
	nn, np := 0, 0
	eof := App("nonnil:g:io.EOF", tErr)
	for _, e := range a.events {
		if e.Kind == "parse" {
			np++
			good, d := a.never(ok, And(e.Guard, Not(Or(App("parse.ok", tBool, loopKs(e)...), App("parse.unk", tBool, loopKs(e)...)))), e.Loops)
			c.ok(good, "success implies that every entry was parsed", "parse of an entry", c.pos(e.Pos), "success is reported although an entry failed when %s", d)
		}
		if e.Kind == "call" && e.Callee == "(*archive/tar.Reader).Next" {
			nn++
			err := e.Res.A[1]
			good, d := a.never(ok, AndN(e.Guard, Not(IsNilT(err)), Not(Eq(err, eof))), e.Loops)
			c.ok(good, "success implies that the archive was read to its end", e.Callee, c.pos(e.Pos), "success is reported although reading the archive failed when %s", d)
		}
	}
	c.ok(nn > 0 && np > 0, "a check must have obligations", "archive entries", c.fpos(a.fn), "%d reads of entries and %d parses found", nn, np)
}

func loopKs(e *Event) []*Term {
	var ks []*Term
	for _, l := range e.Loops {
		ks = append(ks, l.K)
	}
	return ks
}

func dumpArch(r *Repo) {
	c := &Ctx{r: r}
	a := c.archive()
	ok := And(a.ret, IsNilT(a.err))
	fmt.Println("ok", show(ok, 9))
	fmt.Println("cs", show(deepRestrict(a.cs, ok), 12))
	for _, e := range a.events {
		if e.Kind == "sort" || e.Kind == "parse" {
			fmt.Println(e.Kind, show(e.Guard, 9))
			for _, x := range e.Args {
				fmt.Println("   arg", show(x, 12))
			}
			if e.Val != nil {
				fmt.Println("   val", show(e.Val, 12))
			}
		}
	}
	for o := range a.tars {
		fmt.Println("tar", o, show(a.streamPos(a.st, stream{o, nil, nil}), 9))
	}
	for o, x := range a.st.mem.m {
		fmt.Println("MEM", show(o, 8), show(x, 10))
	}
}
