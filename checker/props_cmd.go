package main

// The command-line converter: main is analysed with parsing and projecting
// replaced by arbitrary outcomes.

import (
	"fmt"
	"go/types"
	"math"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cmdView struct {
	*Drv
	fn   *ssa.Function
	comp *Term // the parsed composite
	pOK  *Term // parsing returned no error
	args *Term // os.Args
	ret  *Term // main returned
	g0   *Term // the composite has the shape of a parsed one
	n    int   // events before
}

func (c *Ctx) cmdMain() *cmdView {
	en := c.engine(libPath, visPath, cmdPath)
	v := &cmdView{Drv: c.drv(en), fn: c.need(c.r.cmd, "main"), pOK: App("parse.ok", tBool)}
	nc := c.lib("NewComposite")
	comp, g := v.absComposite()
	v.comp, v.g0 = comp, g
	v.st = v.st.with(And(v.st.g, g))
	en.cuts[nc.String()] = func(fr *Frame, st State, in ssa.Instruction, args []*Term) (*Term, State) {
		if len(fr.ks()) > 0 {
			fail("the converter parses composites in a loop")
		}
		res := Tuple(comp, Ite(v.pOK, Nil, App("newerr:parse", tErr)))
		en.event(fr, &Event{Kind: "call", Callee: "parse", Guard: st.g, Instr: in, Args: args, Res: res, Mem: st.mem})
		return res, st
	}
	pr := c.lib("Composite.Project")
	en.cuts[pr.String()] = func(fr *Frame, st State, in ssa.Instruction, args []*Term) (*Term, State) {
		return Tuple(App("project.x", tFloat, args[1], args[2]), App("project.y", tFloat, args[1], args[2])), st
	}
	for _, p := range c.r.prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			if g, ok := p.Members["Args"].(*ssa.Global); ok {
				v.args = en.load(v.st, en.globalPtr(g), types.NewSlice(tStr))
			}
		}
	}
	if v.args == nil {
		fail("the converter does not use os.Args")
	}
	v.n = len(en.events)
	v.call(v.fn)
	v.ret = v.st.g
	return v
}

func dumpCmd(r *Repo) {
	c := &Ctx{r: r, id: "x", fns: map[string]bool{}, models: map[string]bool{}, warns: map[string]bool{}}
	v := c.cmdMain()
	fmt.Println("ret", show(v.ret, 8))
	for _, e := range v.events[v.n:] {
		if e.Kind == "ob" || e.Kind == "load" {
			continue
		}
		fmt.Println(e.Kind, e.Rule, e.Callee, c.pos(e.Pos), "guard", show(e.Guard, 5), "res", e.Res, "loops", len(e.Loops))
		for _, a := range e.Args {
			fmt.Println("     ", show(a, 4))
		}
	}
	fmt.Println(v.warns())
}

// errOf is the error a library call returned, nil if it returns none.
func errOf(e *Event) *Term {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok || e.Res == nil {
		return nil
	}
	rs := ci.Common().Signature().Results()
	if rs.Len() == 0 || !types.Identical(rs.At(rs.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
		return nil
	}
	if rs.Len() == 1 {
		return e.Res
	}
	return lift1(func(t *Term) *Term {
		if t.Op != OpTuple {
			return App(fmt.Sprintf("result.%d", rs.Len()-1), tErr, t)
		}
		return t.A[rs.Len()-1]
	}, e.Res)
}

// opener: a call that returns a file, or the contents of one, for a path.
func opener(e *Event) bool {
	return e.Kind == "call" && (e.Callee == "os.ReadFile" || e.Callee == "io/ioutil.ReadFile" || e.Callee == "os.Open" || e.Callee == "os.Create" || e.Callee == "os.OpenFile")
}

// makes tells whether a call can create or change a file by its path.
func makes(e *Event) bool {
	if e.Kind != "call" {
		return false
	}
	switch e.Callee {
	case "os.Create", "os.WriteFile", "io/ioutil.WriteFile", "os.CreateTemp", "io/ioutil.TempFile", "os.Rename", "os.Link", "os.Symlink", "os.Truncate", "os.Mkdir", "os.MkdirAll":
		return true
	case "os.OpenFile":
		return !(e.Args[1].Op == OpNum && e.Args[1] == Zero)
	}
	return false
}

// arg is command-line argument i.
func (v *cmdView) arg(i int64) *Term {
	return v.at(v.args, Num(i), tStr)
}

// success: main returns, or the program exits with status 0.
func (v *cmdView) success() *Term {
	g := v.ret
	for _, e := range v.events[v.n:] {
		if e.Kind == "exit" && e.Callee == "os.Exit" {
			g = Or(g, And(e.Guard, Eq0(e.Args[0])))
		}
		if e.Kind == "exit" && e.Callee == "runtime.Goexit" {
			fail("the converter ends its main goroutine")
		}
	}
	return AndN(g, v.g0, Ge(Len(v.args), Num(3)))
}

func (v *cmdView) show(e *Event) string { return e.Callee }

func init() {
	register("C35", "proof", "path analysis of the converter's main: on every path to a successful exit with an input and an output argument, opening the input, parsing it, creating the output, encoding into it and closing it have happened, in this order, and no error of these or any other library call was returned; nothing that creates a file is reachable unless parsing succeeded", func(c *Ctx) {
		v := c.cmdMain()
		S := v.success()
		pos := c.fpos(v.fn)
		never := func(g *Term) (bool, string) { return v.infeasible(g) }
		rule := "success implies that the step happened and reported no error"
		// happened finds a step that every successful run takes.
		happened := func(what string, match func(*Event) bool, err func(*Event) *Term, after *Event) *Event {
			var why []string
			for _, e := range v.events[v.n:] {
				if e.Kind != "call" || !match(e) || (after != nil && e.Seq < after.Seq) {
					continue
				}
				skip, d := never(And(S, Not(e.Guard)))
				if !skip {
					why = append(why, fmt.Sprintf("%s at %s is not reached when %s", e.Callee, c.pos(e.Pos), d))
					continue
				}
				x := err(e)
				ok, d := never(AndN(S, e.Guard, Not(IsNilT(x))))
				if !ok {
					why = append(why, fmt.Sprintf("the error of %s at %s is ignored when %s", e.Callee, c.pos(e.Pos), d))
					continue
				}
				c.ok(true, rule, what+" by "+e.Callee, c.pos(e.Pos), "")
				return e
			}
			if len(why) == 0 {
				why = []string{"no such call was found"}
			}
			c.ok(false, rule, what, pos, "%s", strings.Join(why, "; "))
			return nil
		}
		path := func(i int64) func(*Event) bool {
			return func(e *Event) bool { return opener(e) && same(S, e.Args[0], v.arg(i)) }
		}
		fileOf := func(e *Event) *Term {
			if e.Res.Op != OpTuple {
				fail("the file returned by %s is not known", e.Callee)
			}
			return e.Res.A[0]
		}
		open := happened("opening the input", path(1), errOf, nil)
		if open == nil {
			return
		}
		in := fileOf(open)
		parse := happened("parsing the input", func(e *Event) bool {
			if e.Callee != "parse" {
				return false
			}
			isIn := func(t *Term) bool { return t == in }
			x := deepRestrict(e.Args[0], S)
			// a reader of the input made by a package of the standard library
			reads := mentions(x, func(t *Term) bool {
				b, ok := v.bufs[t]
				return ok && mentions(deepRestrict(b.B, S), isIn)
			})
			return reads || mentions(x, isIn)
		}, func(e *Event) *Term { return Ite(v.pOK, Nil, Str("error")) }, open)
		if parse == nil {
			return
		}
		for _, e := range v.events[v.n:] {
			if makes(e) {
				ok, d := never(AndN(v.g0, e.Guard, Not(v.pOK)))
				c.ok(ok, "no file is created unless parsing succeeded", "call of "+e.Callee, c.pos(e.Pos), "it is reached with a composite that could not be parsed, when %s", d)
			}
		}
		// an image encoded at several places is followed to each of them
		deliver := func() {
			encoder := func(e *Event) bool {
				return e.Callee == "image/png.Encode" || e.Callee == "(*image/png.Encoder).Encode"
			}
			sink := func(e *Event) *Term { return deepRestrict(e.Args[len(e.Args)-2], S) }
			// the image may be encoded into memory first
			var buf *Term
			var memEnc *Event
			for _, e := range v.events[v.n:] {
				if e.Kind == "call" && encoder(e) {
					if And(S, e.Guard) == False {
						continue
					}
					if w := sink(e); w.Op == OpIface && w.S == "*bytes.Buffer" && w.A[0].Op == OpPtr {
						buf, memEnc = w.A[0], e
					}
				}
			}
			inBuf := func(t *Term) bool {
				t = deepRestrict(t, S)
				return t == buf || t.Op == OpIface && t.A[0] == buf
			}
			var delivers func(e *Event) bool
			if buf != nil {
				if memEnc = happened("encoding the image into a buffer", func(e *Event) bool { return e == memEnc }, errOf, parse); memEnc == nil {
					return
				}
				contents := map[*Term]bool{}
				for _, e := range v.events[v.n:] {
					if e.Kind != "call" || e == memEnc || len(e.Args) == 0 || !inBuf(e.Args[0]) {
						continue
					}
					switch e.Callee {
					case "(*bytes.Buffer).Bytes":
						if e.Seq > memEnc.Seq {
							contents[deepRestrict(e.Res, S)] = true
						}
					case "(*bytes.Buffer).Len", "(*bytes.Buffer).WriteTo", "(*bytes.Buffer).Grow":
					default:
						c.ok(false, "the buffer holds the encoded image", "call of "+e.Callee, c.pos(e.Pos), "the buffer is used otherwise")
					}
				}
				delivers = func(e *Event) bool {
					switch e.Callee {
					case "(*os.File).Write", "os.WriteFile", "io/ioutil.WriteFile":
						return contents[deepRestrict(e.Args[1], S)]
					case "(*bytes.Buffer).WriteTo":
						return inBuf(e.Args[0])
					case "io.Copy":
						return inBuf(e.Args[1])
					}
					return false
				}
				isWhole := func(e *Event) bool {
					return (e.Callee == "os.WriteFile" || e.Callee == "io/ioutil.WriteFile") && same(S, e.Args[0], v.arg(2))
				}
				n := len(c.obs)
				whole := happened("writing the output", func(e *Event) bool { return isWhole(e) && delivers(e) }, errOf, memEnc)
				if whole != nil {
					c.otherErrors(v, S, open, parse, memEnc, whole)
					return
				}
				c.obs = c.obs[:n]
			}
			create := happened("creating the output", func(e *Event) bool { return opener(e) && makes(e) && path(2)(e) }, errOf, parse)
			if create == nil {
				return
			}
			if create.Callee == "os.OpenFile" {
				flag := create.Args[1]
				n, known := flag.int64()
				c.ok(known && n&3 != 0 && n&0o1000 != 0, "the output starts empty", "os.OpenFile of the output", c.pos(create.Pos), "its flags do not truncate the file: %s", show(flag, 3))
			}
			out := fileOf(create)
			hasOut := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == out }) }
			var enc *Event
			if buf != nil {
				enc = happened("writing the encoded image to the output", func(e *Event) bool {
					if !delivers(e) {
						return false
					}
					to := e.Args[0]
					if e.Callee == "(*bytes.Buffer).WriteTo" {
						to = e.Args[1]
					}
					to = deepRestrict(to, S)
					return to == out || to.Op == OpIface && to.A[0] == out
				}, errOf, memEnc)
			} else {
				enc = happened("encoding the image into the output", func(e *Event) bool { return encoder(e) && hasOut(sink(e)) }, errOf, create)
			}
			if enc == nil {
				return
			}
			if w := sink(enc); buf == nil && !(w.Op == OpIface && w.A[0] == out) {
				fl := happened("flushing the buffered output", func(e *Event) bool {
					return e.Callee == "(*bufio.Writer).Flush" && mentions(w, func(x *Term) bool { return x == deepRestrict(e.Args[0], S) })
				}, errOf, enc)
				if fl == nil {
					return
				}
				enc = fl
			}
			var closed *Event
			for _, e := range v.events[v.n:] {
				if e.Kind == "call" && e.Callee == "(*os.File).Close" && deepRestrict(e.Args[0], S) == out {
					if g := deepRestrict(e.Guard, S); e.Seq < enc.Seq {
						ok, d := never(AndN(S, e.Guard))
						c.ok(ok, "the output is closed after encoding", "closing the output", c.pos(e.Pos), "it is closed before when %s", d)
					} else if g != False && closed == nil {
						closed = e
					}
				}
			}
			happened("closing the output", func(e *Event) bool { return e == closed }, errOf, enc)
			c.otherErrors(v, S, open, parse, create, enc, closed)
		}
		cases := []*Term{S}
		if encs := v.encodings(); len(encs) > 1 {
			var gs []*Term
			any := False
			for _, e := range encs {
				if g := And(S, e.Guard); g != False {
					gs = append(gs, g)
					any = Or(any, e.Guard)
				}
			}
			if all, _ := never(And(S, Not(any))); all {
				cases = gs
			}
		}
		for _, S = range cases {
			deliver()
		}
	})
}

// otherErrors: no error of any other call is lost on the way to success.
func (c *Ctx) otherErrors(v *cmdView, S *Term, known ...*Event) {
	for _, e := range v.events[v.n:] {
		if e.Kind != "call" || slices.Contains(known, e) {
			continue
		}
		x := errOf(e)
		if x == nil || hasPrefixAny(e.Callee, "fmt.Print", "fmt.Fprint") || e.Callee == "(*os.File).Close" || e.Callee == "fmt.Errorf" || e.Callee == "errors.New" {
			continue
		}
		ok, d := v.infeasible(AndN(S, e.Guard, Not(IsNilT(x))))
		c.ok(ok, "no error is ignored", "call of "+e.Callee, c.pos(e.Pos), "its error is ignored when %s", d)
	}
}

// draws lists the calls that set a pixel.
func (v *cmdView) draws() (ds []*Event) {
	for _, e := range v.events[v.n:] {
		if e.Kind == "call" && (e.Callee == "(*image.RGBA).Set" || e.Callee == "(*image.RGBA).SetRGBA") && e.Guard != False {
			ds = append(ds, e)
		}
	}
	return
}

func projected(t *Term) bool {
	return mentions(t, func(x *Term) bool { return x.appPrefix("project.") })
}

// overlays are the draws at projected positions.
func (v *cmdView) overlays() (ds []*Event) {
	for _, e := range v.draws() {
		if projected(e.Args[1]) || projected(e.Args[2]) {
			ds = append(ds, e)
		}
	}
	return
}

// encodings are the calls that encode the image.
func (v *cmdView) encodings() (encs []*Event) {
	for _, e := range v.events[v.n:] {
		if e.Kind == "call" && strings.HasSuffix(e.Callee, "Encode") && strings.Contains(e.Callee, "image/png") {
			encs = append(encs, e)
		}
	}
	if len(encs) == 0 {
		fail("no image is encoded")
	}
	return
}

func (v *cmdView) image(e *Event) *Term {
	return lift1(func(t *Term) *Term {
		if t.Op != OpIface {
			return t
		}
		return t.A[0]
	}, deepRestrict(e.Args[len(e.Args)-1], e.Guard))
}

// before is the state in which a draw starts, outside all its loops.
func (v *cmdView) before(e *Event, canvas *Term) *Mem {
	if len(e.Loops) == 0 {
		return e.Mem
	}
	m := e.Mem.clone()
	for _, cr := range e.Loops[0].Carries {
		if cr.Obj == canvas {
			if len(cr.Path) != 0 {
				fail("the image before the overlays is not known")
			}
			m.m[canvas] = cr.Init
			return m
		}
	}
	return m
}

// entryGuard is the condition of reaching a draw's loops.
func entryGuard(e *Event) *Term {
	if len(e.Loops) == 0 {
		return e.Guard
	}
	return e.Loops[0].EntryG
}

func (v *cmdView) hasProjection() *Term { return v.get(v.comp, "HasProjection") }

func init() {
	register("C36", "proof", "value analysis of the converter's main: for every unit a parsed composite can have and every class of intervals, the image that is encoded (without overlays) and the image the overlays are drawn on show at a symbolic pixel exactly the colour the specified scale of package vis gives the voxel of the first layer", func(c *Ctx) {
		v := c.cmdMain()
		encs := v.encodings()
		x, y := Sym("x", tInt), Sym("y", tInt)
		value := App("voxel", types.Typ[types.Float32], Zero, y, x)
		inside := AndN(Ge0(x), Lt(x, v.get(v.comp, "Dx")), Ge0(y), Lt(y, v.get(v.comp, "Dy")))
		vis := func(n string) *ssa.Function { return c.need(c.r.vis, n) }
		fn := func(n string) *Term { return FuncT(vis(n)) }
		global := func(n string) *Term {
			g := c.global(c.r.vis, n)
			return v.load(v.st, v.globalPtr(g), deref(g.Type()))
		}
		unit := func(n string) *Term {
			return Eq0(Sub(v.get(v.comp, "DataUnit"), c.constant(c.r.lib, n)))
		}
		iv := v.get(v.comp, "Interval")
		hour, week := Num(3600e9), Num(7*24*3600e9)
		heat := func(max int64) *Term {
			return v.call(vis("Heatmap"), NumF(0.1), Num(max), fn("Log"))
		}
		type cs struct {
			name  string
			g     *Term
			scale func() *Term
		}
		cases := []cs{
			{"mm, up to an hour", And(unit("Unit_mm"), Le(iv, hour)), func() *Term { return heat(100) }},
			{"mm, between", AndN(unit("Unit_mm"), Lt(hour, iv), Lt(iv, week)), func() *Term { return heat(200) }},
			{"mm, a week or more", And(unit("Unit_mm"), Ge(iv, week)), func() *Term { return heat(400) }},
			{"dBZ", unit("Unit_dBZ"), func() *Term { return global("HeatmapReflectivity") }},
			{"km", unit("Unit_km"), func() *Term { return v.call(vis("Graymap"), Zero, Num(15), fn("Id")) }},
			{"m/s", unit("Unit_mps"), func() *Term { return global("HeatmapRadialVelocity") }},
		}
		st := v.st
		for _, k := range cases {
			v.st = State{True, encs[0].Mem, st.loc}
			want := v.callVal(k.scale(), value)
			one := func(what string, img, g *Term, m *Mem, pos string) {
				v.st = State{True, m, st.loc}
				got := v.pixelAt(deepRestrict(img, g), x, y)
				g = AndN(g, k.g, v.g0)
				g = AndN(g, v.exitFacts(g), inside)
				if g == False {
					c.ok(false, "every unit is drawn with its scale", k.name+", "+what, pos, "such a composite is not drawn")
					return
				}
				for i, ch := range []string{"red", "green", "blue", "alpha"} {
					f := func(t *Term) *Term { return fieldOf(c.rgba(), t, i) }
					c.eqLin(v.Engine, g, lift1(f, got), lift1(f, want), "every unit is drawn with its scale", k.name+", "+what+", "+ch, pos)
				}
			}
			drawn := false
			for i, e := range encs {
				g := And(e.Guard, Not(v.hasProjection()))
				if g == False && (drawn || i < len(encs)-1) {
					continue
				}
				drawn = true
				one("image without overlays", v.image(e), g, e.Mem, c.pos(e.Pos))
			}
			if o := v.overlays(); len(o) > 0 {
				g := And(v.hasProjection(), entryGuard(o[0]))
				for _, e := range encs {
					if And(g, e.Guard) != False || len(encs) == 1 {
						img := v.image(e)
						one("image below the overlays", img, g, v.before(o[0], canvasObj(firstPtr(img))), c.pos(o[0].Pos))
					}
				}
			}
		}
		v.st = st
	})
	register("C37", "proof", "value analysis of the converter's main: every draw other than the radar image comes after it, is reachable only with a projection and addresses the projection of a latitude and longitude; the border draw covers exactly the border table and the mesh draw exactly the specified raster (every raster point is decided by constant folding)", func(c *Ctx) {
		v := c.cmdMain()
		encs := v.encodings()
		proj := v.hasProjection()
		over := v.overlays()
		rule := "overlays are drawn on projected composites only"
		first := -1
		for _, e := range over {
			if first < 0 || e.Seq < first {
				first = e.Seq
			}
			ok, d := v.infeasible(AndN(v.g0, e.Guard, Not(proj)))
			c.ok(ok, rule, "overlay draw in "+fnName(e.Fn), c.pos(e.Pos), "it is reached without a projection when %s", d)
			for _, enc := range encs {
				if len(encs) > 1 && AndN(proj, entryGuard(e), enc.Guard) == False {
					continue
				}
				c.ok(e.Seq < enc.Seq, "overlays are part of the image", "overlay draw in "+fnName(e.Fn), c.pos(e.Pos), "it follows the encoding")
				same := deepRestrict(e.Args[0], e.Guard) == deepRestrict(v.image(enc), e.Guard)
				c.ok(same, "overlays are part of the image", "overlay draw in "+fnName(e.Fn), c.pos(e.Pos), "it does not draw on the encoded image")
			}
		}
		for _, e := range v.draws() {
			isOver := projected(e.Args[1]) || projected(e.Args[2])
			if !isOver && first >= 0 {
				c.ok(e.Seq < first, "only overlays are drawn after the radar image", "draw in "+fnName(e.Fn), c.pos(e.Pos), "it follows an overlay")
			}
		}
		// positions
		g := c.global(c.r.cmd, "border")
		table := v.load(v.st, v.globalPtr(g), deref(g.Type()))
		var borders, meshes []*meshDraw
		for _, e := range over {
			lat, lon := v.projectedPoint(c, e)
			if lat == nil {
				continue
			}
			m := &meshDraw{e: e, lat: lat, lon: lon}
			if mentions(lat, func(t *Term) bool { return t.S == "elems" || t.S == "sel" }) {
				borders = append(borders, m)
			} else {
				meshes = append(meshes, m)
			}
		}
		S := And(v.success(), proj)
		v.borderDraws(c, S, table, borders, c.pos(g.Pos()))
		v.meshDraws(c, S, meshes)
	})
}

type meshDraw struct {
	e        *Event
	lat, lon *Term
}

// projectedPoint is the point whose projection a draw addresses.
func (v *cmdView) projectedPoint(c *Ctx, e *Event) (lat, lon *Term) {
	ps := collect(e.Args[1], func(t *Term) bool { return t.appPrefix("project.") })
	bad := func(f string, a ...any) (*Term, *Term) {
		c.ok(false, "an overlay point is drawn at its projected position", "overlay draw in "+fnName(e.Fn), c.pos(e.Pos), f, a...)
		return nil, nil
	}
	if len(ps) != 1 {
		return bad("its x position depends on %d projections", len(ps))
	}
	lat, lon = ps[0].A[0], ps[0].A[1]
	want := func(s string) *Term { return App("trunc", tInt, App(s, tFloat, lat, lon)) }
	x, y := want("project.x"), want("project.y")
	if !same(e.Guard, e.Args[1], x) || !same(e.Guard, e.Args[2], y) {
		return bad("it addresses (%s, %s) instead of (%s, %s)", show(e.Args[1], 6), show(e.Args[2], 6), show(x, 6), show(y, 6))
	}
	c.ok(true, "an overlay point is drawn at its projected position", "overlay draw in "+fnName(e.Fn), c.pos(e.Pos), "")
	return lat, lon
}

// unify finds the value of sym for which the pattern is the term.
func unify(pat, t, sym *Term) (*Term, bool) {
	var found *Term
	var rec func(p, t *Term) bool
	rec = func(p, t *Term) bool {
		if p == t {
			return true
		}
		if p == sym {
			if found != nil && found != t {
				return false
			}
			found = t
			return true
		}
		if p.Op != t.Op || p.S != t.S || len(p.A) != len(t.A) || p.Op == OpPoly || len(p.A) == 0 {
			return false
		}
		for i := range p.A {
			if !rec(p.A[i], t.A[i]) {
				return false
			}
		}
		return true
	}
	ok := rec(pat, t)
	return found, ok && found != nil
}

// affineIn splits t into a + b*k with numbers a, b; b is not zero.
func affineIn(t, k *Term) (a, b *Term, ok bool) {
	a = substT(t, map[*Term]*Term{k: Zero})
	b = Sub(substT(t, map[*Term]*Term{k: One}), a)
	if !b.isNum() || b == Zero || mentions(a, func(x *Term) bool { return x == k }) || Add(a, Mul(b, k)) != t {
		return nil, nil, false
	}
	return a, b, true
}

func (v *cmdView) borderDraws(c *Ctx, S, table *Term, ds []*meshDraw, pos string) {
	rule := "every point of the border table is drawn"
	if !c.ok(len(ds) > 0, rule, "the border", pos, "no draw at a position from the border table was found") {
		return
	}
	i := Sym("i", tInt)
	ET := elemType(v.tableType(c))
	pt := v.at(table, i, ET)
	plat, plon := v.at(pt, Zero, tFloat), v.at(pt, One, tFloat)
	need := AndN(S, Ge0(i), Lt(i, Len(table)))
	var why []string
	for _, d := range ds {
		at := c.pos(d.e.Pos)
		x, ok1 := unify(plat, d.lat, i)
		y, ok2 := unify(plon, d.lon, i)
		if !ok1 || !ok2 || x != y {
			c.ok(false, "a border point is projected from its latitude and longitude", "border draw", at, "it draws the projection of (%s, %s)", show(d.lat, 6), show(d.lon, 6))
			continue
		}
		c.ok(true, "a border point is projected from its latitude and longitude", "border draw", at, "")
		if len(d.e.Loops) != 1 {
			why = append(why, fmt.Sprintf("the draw at %s is not in a single loop", at))
			continue
		}
		l := d.e.Loops[0]
		a, b, ok := affineIn(x, l.K)
		if !ok || l.N == nil || (b != One && b != Num(-1)) {
			why = append(why, fmt.Sprintf("the points drawn at %s are not known", at))
			continue
		}
		k := Div(Sub(i, a), b)
		drawn := substT(AndN(Ge0(l.K), Lt(l.K, l.N), d.e.Guard), map[*Term]*Term{l.K: k})
		if all, w := v.infeasible(And(need, Not(drawn))); !all {
			why = append(why, fmt.Sprintf("point i is not drawn at %s when %s", at, w))
			continue
		}
		c.ok(true, rule, "the border", at, "")
		return
	}
	c.ok(false, rule, "the border", pos, "%s", strings.Join(why, "; "))
}

func (v *cmdView) tableType(c *Ctx) types.Type {
	return deref(c.global(c.r.cmd, "border").Type())
}

// floatSteps are the values a floating-point loop variable accumulates.
type floatStep struct{ init, step *Term }

func accumulates(l *Loop) *floatStep {
	for _, cr := range l.Carries {
		if cr.Phi == nil || !isFloat(cr.T) || cr.Solved == nil {
			continue
		}
		if a, b, ok := affineIn(cr.Solved, l.K); ok && a.isNum() {
			return &floatStep{a, b}
		}
	}
	return nil
}

// meshDraws decides for every raster point whether it is drawn. The loop
// counters are enumerated and the conditions folded; a floating-point loop
// variable has the value that repeated addition gives it.
func (v *cmdView) meshDraws(c *Ctx, S *Term, ds []*meshDraw) {
	drawn := map[[2]int]string{}
	n := 0
	off := 0
	for _, d := range ds {
		at := c.pos(d.e.Pos)
		guard := deepRestrict(d.e.Guard, S)
		var walk func(i int, m map[*Term]*Term)
		walk = func(i int, m map[*Term]*Term) {
			if off > 0 {
				return
			}
			if i == len(d.e.Loops) {
				n++
				if n > 200000 {
					fail("the mesh has too many points")
				}
				g := substT(guard, m)
				if g == False {
					return
				}
				if g != True {
					g = deepRestrict(g, S)
				}
				lat, lon := substT(d.lat, m), substT(d.lon, m)
				if g != True || !lat.isNum() || !lon.isNum() {
					fail("the draw at %s is not decided: (%s, %s) if %s", at, show(lat, 5), show(lon, 5), show(g, 6))
				}
				fa, _ := lat.R.Float64()
				fo, _ := lon.R.Float64()
				a, o := math.Round(fa*10), math.Round(fo*10)
				if math.Abs(fa*10-a) > 1e-6 || math.Abs(fo*10-o) > 1e-6 {
					off++
					c.ok(false, "mesh points lie on the raster", "mesh draw", at, "it draws (%g N, %g E)", fa, fo)
					return
				}
				drawn[[2]int{int(a), int(o)}] = at
				return
			}
			l := d.e.Loops[i]
			acc := accumulates(l)
			var fl float64
			if acc != nil {
				fl, _ = acc.init.R.Float64()
			}
			for k := int64(0); ; k++ {
				K := Num(k)
				if acc != nil {
					K = Div(Sub(NumF(fl), acc.init), acc.step)
					s, _ := acc.step.R.Float64()
					fl += s
				}
				m[l.K] = K
				stop := False
				for _, x := range l.Exits {
					stop = Or(stop, deepRestrict(substT(deepRestrict(x.G, S), m), S))
				}
				if stop == True {
					break
				}
				if stop != False || k > 100000 {
					if acc == nil && l.N != nil {
						if N := substT(l.N, m); N.isNum() {
							if k < N.R.Num().Int64() {
								walk(i+1, m)
								continue
							}
							break
						}
					}
					fail("the number of mesh points drawn at %s is not known: %s", at, show(stop, 6))
				}
				walk(i+1, m)
			}
			delete(m, l.K)
		}
		walk(0, map[*Term]*Term{})
	}
	pos := c.fpos(v.fn)
	if len(ds) > 0 {
		pos = c.pos(ds[0].e.Pos)
	}
	for lat := 460; lat < 550; lat++ {
		missing, extra := "", ""
		for lon := 10; lon < 160; lon++ {
			_, is := drawn[[2]int{lat, lon}]
			delete(drawn, [2]int{lat, lon})
			near := func(x int) bool { return x%10 == 0 }
			want := near(lat) || near(lon)
			if want && !is && missing == "" {
				missing = fmt.Sprintf("the point %.1f N %.1f E is not drawn", float64(lat)/10, float64(lon)/10)
			}
			if !want && is && extra == "" {
				extra = fmt.Sprintf("the point %.1f N %.1f E is drawn", float64(lat)/10, float64(lon)/10)
			}
		}
		c.ok(missing == "" && extra == "", "the mesh is drawn at whole degrees", fmt.Sprintf("raster row %.1f N", float64(lat)/10), pos, "%s %s", missing, extra)
	}
	w := ""
	for p := range drawn {
		w = fmt.Sprintf("the point %.1f N %.1f E is drawn", float64(p[0])/10, float64(p[1])/10)
		break
	}
	c.ok(w == "", "the mesh is drawn at whole degrees", "points outside the raster", pos, "%s", w)
	c.notes = append(c.notes, fmt.Sprintf("%d iterations of the mesh loops were decided", n))
}

func firstPtr(t *Term) *Term {
	for t.Op == OpIte {
		if t.A[1].Op == OpPtr || t.A[1].Op == OpIte {
			t = t.A[1]
		} else {
			t = t.A[2]
		}
	}
	if t.Op != OpPtr {
		fail("the encoded image is not known: %s", show(t, 5))
	}
	return t
}
