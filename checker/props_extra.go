package main

// Dummy composites, effects on the environment, documented gradients, use of
// files by the converter, the NaN helpers.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// library members that act on something other than their arguments
var acting = []string{"fmt.Print", "fmt.Scan", "log.", "(*log.", "log/", "os.", "(*os.", "os/", "syscall.", "net.", "net/", "io/ioutil.Write", "io/ioutil.Temp",
	"runtime.GC", "runtime.Goexit", "runtime.GOMAXPROCS", "runtime.LockOSThread", "runtime/debug.", "time.Sleep", "time.AfterFunc", "flag.", "expvar.", "testing.", "plugin."}

// methods that do more to an argument than read from it
var actingMethods = map[string]bool{"Close": true, "Seek": true, "Write": true, "WriteString": true, "WriteByte": true, "WriteAt": true, "WriteTo": true, "Truncate": true, "UnreadByte": true, "UnreadRune": true, "Set": true, "Reset": true, "Lock": true, "SetDeadline": true, "SetReadDeadline": true}

// acts scans everything reachable from the exported operations.
func (c *Ctx) acts() int {
	n := 0
	const rule = "the library has no effect on its environment"
	c.reachable(func(f *ssa.Function, in ssa.Instruction, at string) {
		judge := func(name string) {
			n++
			bad := hasPrefixAny(name, acting...) && !strings.HasPrefix(name, "os.Err")
			c.ok(!bad, rule, name+" in "+fnName(f), at, "%s acts on the environment", name)
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			cc := ci.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				n++
				c.ok(b.Name() != "print" && b.Name() != "println", rule, b.Name()+" in "+fnName(f), at, "it prints")
			}
			if cc.IsInvoke() {
				n++
				name := cc.Method.Name()
				c.ok(!actingMethods[name], rule, "method "+name+" of an interface value in "+fnName(f), at, "%s does more than reading", name)
			}
		}
		if _, ok := in.(*ssa.Go); ok {
			c.ok(false, rule, "go statement in "+fnName(f), at, "it starts a goroutine")
		}
		for _, op := range in.Operands(nil) {
			switch v := (*op).(type) {
			case *ssa.Function:
				if !c.inRepo(v) && v.Synthetic != "package initializer" {
					judge(strings.TrimSuffix(v.String(), "$bound"))
				}
			case *ssa.Global:
				if v.Pkg != nil && !repoPath(v.Pkg.Pkg.Path()) {
					judge(v.Pkg.Pkg.Path() + "." + v.Name())
				}
			}
		}
	})
	return n
}

func init() {
	register("C41", "proof", "value analysis of NewDummy for symbolic arguments: label, format and size equal the arguments, there is no data, and the projection is decided by grid and format exactly as for parsed composites", func(c *Ctx) {
		en := c.libEngine()
		d := c.drv(en)
		fn := c.lib("NewDummy")
		p, f, dx, dy := Sym("product", tStr), Sym("format", tInt), Sym("dx", tInt), Sym("dy", tInt)
		comp := d.call(fn, p, f, dx, dy)
		at := c.fpos(fn)
		for _, w := range []struct {
			name string
			v    *Term
		}{{"Product", p}, {"Format", f}, {"Dx", dx}, {"Dy", dy}, {"Dz", Zero}, {"DataUnit", nil}, {"PlainData", Nil}, {"Data", Nil}, {"DataZ", Nil}} {
			if w.v == nil {
				continue
			}
			got := d.get(comp, w.name)
			if w.v == Nil {
				c.ok(same(d.st.g, IsNilT(got), True) || same(d.st.g, Len(got), Zero), "a dummy has no data", w.name, at, "it is %s", show(got, 4))
				continue
			}
			c.eqLin(en, d.st.g, got, w.v, "a dummy is what was asked for", w.name+" of a dummy", at)
		}
		ok, why := en.infeasible(Not(d.st.g))
		c.ok(ok, "a dummy is what was asked for", "NewDummy returns", at, "it does not when %s", why)
		v := &calView{Drv: d, name: "NewDummy", comp: comp, g: d.st.g, dx: dx, dy: dy, format: f, pos: at}
		v.findLoop()
		c.classify(v)
	})
	register("C42", "other", "who-may-call rule over everything reachable from the exported operations and the package initialisers of both libraries: no output, files, network, process control, goroutines, sleeping, and no method of a reader argument other than reading", func(c *Ctx) {
		n := c.acts()
		c.ok(n >= 20, "a check must have obligations", "uses of library members", "", "only %d found", n)
	})
	register("C43", "proof", "value analysis with constant evaluation of the package initialiser: on a symbolic value every predefined gradient is expression-equal to the gradient of its kind with the documented bounds and compression", func(c *Ctx) {
		en := c.engine(visPath)
		x := Sym("fin.v", tFloat)
		id, lg := c.need(c.r.vis, "Id"), c.need(c.r.vis, "Log")
		d := c.drv(en)
		for _, k := range []struct {
			name, kind string
			min, max   float64
			comp       *ssa.Function
		}{
			{"HeatmapReflectivityShort", "Heatmap", 5, 75, id},
			{"HeatmapReflectivityWide", "Heatmap", -32.5, 75, id},
			{"HeatmapAccumulatedHour", "Heatmap", 0.1, 100, lg},
			{"HeatmapAccumulatedDay", "Heatmap", 0.1, 200, lg},
			{"HeatmapRadialVelocity", "Radialmap", -31.5, 31.5, lg},
			{"GraymapLinear", "Graymap", 0, 409.5, id},
			{"GraymapLinearWide", "Graymap", 0, 4095, id},
		} {
			g := c.global(c.r.vis, k.name)
			scale := d.load(d.st, d.globalPtr(g), deref(g.Type()))
			ref := d.call(c.need(c.r.vis, k.kind), NumF(k.min), NumF(k.max), FuncT(k.comp))
			for _, v := range []*Term{x, NaNT, InfP, InfN} {
				got, want := d.callVal(scale, v), d.callVal(ref, v)
				for i, ch := range []string{"red", "green", "blue", "alpha"} {
					fl := func(t *Term) *Term { return fieldOf(c.rgba(), t, i) }
					c.eqLin(en, d.st.g, lift1(fl, got), lift1(fl, want), "predefined gradients cover their documented range", fmt.Sprintf("%s as %s(%v, %v) of %s, %s", k.name, k.kind, k.min, k.max, show(v, 2), ch), c.pos(g.Pos()))
				}
			}
		}
		pos := Exp(x)
		for _, k := range []struct {
			fn      *ssa.Function
			in, out *Term
		}{{id, x, x}, {id, NaNT, NaNT}, {lg, pos, x}, {lg, Zero, InfN}, {lg, Neg(pos), NaNT}, {lg, NaNT, NaNT}, {lg, InfP, InfP}} {
			c.eqLin(en, True, d.call(k.fn, k.in), k.out, "compressions are identity and natural logarithm", k.fn.Name()+" of "+show(k.in, 3), c.fpos(k.fn))
		}
	})
	register("C45", "proof", "path analysis of the converter's main: every panicking construct is unreachable, only the first argument is opened, only the second is created and nothing is touched without two arguments", func(c *Ctx) {
		v := c.cmdMain()
		known := False
		for _, u := range []string{"Unit_mm", "Unit_dBZ", "Unit_km", "Unit_mps"} {
			known = Or(known, Eq0(Sub(v.get(v.comp, "DataUnit"), c.constant(c.r.lib, u))))
		}
		// what parsing guarantees (C05, C08, C21)
		assume := AndN(v.g0, Implies(v.pOK, known), Ge(Len(v.args), One))
		points := c.borderPoints()
		n := 0
		type key struct{ rule, pos string }
		seen := map[key]bool{}
		for _, e := range v.events[v.n:] {
			if e.Kind != "ob" {
				continue
			}
			n++
			ok, why := true, ""
			if e.Unsafe != False {
				u := And(assume, e.Unsafe)
				for _, l := range collect(e.Unsafe, func(t *Term) bool { return t.app("len") && mentions(t, isBigArr) }) {
					u = And(u, EqInt(l, points))
				}
				ok, why = v.infeasible(u)
			}
			k := key{e.Rule, c.pos(e.Pos)}
			if seen[k] && ok {
				continue
			}
			seen[k] = true
			c.ok(ok, "no run-time panic: "+e.Rule, "converter", k.pos+" in "+fnName(e.Fn), "can fail when %s", why)
		}
		c.ok(n > 5, "a check must have obligations", "panicking constructs of the converter", "", "only %d found", n)
		two := Ge(Len(v.args), Num(3))
		files, usage := 0, False
		for _, e := range v.events[v.n:] {
			if e.Kind != "call" {
				continue
			}
			if hasPrefixAny(e.Callee, "fmt.Print", "fmt.Fprint", "log.Print", "log.Fatal", "(*log.Logger)") {
				usage = Or(usage, And(e.Guard, Not(two)))
			}
			if !opener(e) && !makes(e) && !destroys(e) {
				continue
			}
			files++
			at := c.pos(e.Pos)
			ok, why := v.infeasible(AndN(assume, e.Guard, Not(two)))
			c.ok(ok, "nothing is touched without two arguments", "call of "+e.Callee, at, "it is reached without when %s", why)
			g := AndN(assume, e.Guard, two)
			want, which := v.arg(1), "first"
			if makes(e) || destroys(e) {
				want, which = v.arg(2), "second"
			}
			c.ok(same(g, e.Args[0], want), "only the named files are used", "call of "+e.Callee, at, "it uses %s instead of the %s argument", show(e.Args[0], 5), which)
			ok, why = v.infeasible(AndN(g, Not(False)))
			c.ok(!ok, "guard satisfiable", "call of "+e.Callee, at, "it is never reached%s", why)
		}
		c.ok(files >= 2, "a check must have obligations", "uses of files", "", "%d found", files)
		ok, why := v.infeasible(AndN(assume, Not(two), Not(usage)))
		c.ok(ok, "the usage is printed without two arguments", "converter", c.fpos(v.fn), "nothing is printed when %s", why)
	})
	register("C46", "proof", "value analysis of IsNaN for symbolic values and constant evaluation of NaN", func(c *Ctx) {
		en := c.libEngine()
		d := c.drv(en)
		fn := c.lib("IsNaN")
		g := c.global(c.r.lib, "NaN")
		c.ok(d.load(d.st, d.globalPtr(g), deref(g.Type())) == NaNT, "NaN is not a number", "package variable NaN", c.pos(g.Pos()), "it is %s", show(d.load(d.st, d.globalPtr(g), deref(g.Type())), 3))
		for _, k := range []struct {
			name string
			v    *Term
			want *Term
		}{{"NaN", NaNT, True}, {"+Inf", InfP, False}, {"-Inf", InfN, False}, {"zero", Zero, False}, {"every finite value", Sym("fin.v", tF32), False}} {
			got := d.call(fn, k.v)
			c.ok(same(d.st.g, got, k.want), "IsNaN recognises exactly NaN", k.name, c.fpos(fn), "the result is %s", show(got, 4))
		}
	})
}

func isBigArr(t *Term) bool { return t.appPrefix("bigarr:") }

// borderPoints: every entry of the border table has the same number of
// coordinates, which is returned.
func (c *Ctx) borderPoints() *Term {
	d := c.drv(c.engine(cmdPath))
	g := c.global(c.r.cmd, "border")
	tab := d.load(d.st, d.globalPtr(g), deref(g.Type()))
	n, ok := Len(tab).int64()
	if !ok || n == 0 {
		fail("the border table has no constant size")
	}
	ET := elemType(deref(g.Type()))
	var first *Term
	for i := int64(0); i < n; i++ {
		e, pos := d.entry(tab, Num(i), ET)
		l := Zero
		if e != nil {
			l = lenOf(ET, e)
		}
		if first == nil {
			first = l
		}
		if l != first || !l.isNum() {
			c.ok(false, "border points have the same number of coordinates", "border["+Num(i).String()+"]", pos, "it has %s instead of %s", show(l, 3), show(first, 3))
			break
		}
	}
	c.ok(first.isNum(), "border points have the same number of coordinates", "border table", c.pos(g.Pos()), "")
	return first
}

// destroys: a call that removes or changes a file other than by writing to it.
func destroys(e *Event) bool {
	return e.Kind == "call" && hasPrefixAny(e.Callee, "os.Remove", "os.Chmod", "os.Chown", "os.Chtimes")
}

var _ = math.Inf
var _ types.Type
