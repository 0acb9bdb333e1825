package main

// Calls: repository functions are inlined; library functions are described by
// the models below. Functions without a model yield opaque results and make
// everything reachable through their pointer arguments unknown.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var repoPrefix = "gitlab.cs.fau.de/since/radolan"

func repoPath(p string) bool {
	return p == repoPrefix || strings.HasPrefix(p, repoPrefix+"/") || strings.HasPrefix(p, "verifspec")
}

// opaqueStruct: library struct types are handled as scalars.
func opaqueStruct(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg().Path()
	return !repoPath(p) && p != "image" && p != "image/color"
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if f.Origin() != nil && f.Origin() != f {
			return fnPkg(f.Origin())
		}
	}
	return nil
}

func (en *Engine) inRepo(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	p := fnPkg(fn)
	return p != nil && repoPath(p.Path())
}

func (fr *Frame) call(st State, in ssa.Instruction, c *ssa.CallCommon) (*Term, State) {
	var fnv *Term
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = fr.get(st, c.Value)
	}
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.get(st, a)
	}
	return fr.callWith(st, in, c, fnv, args)
}

func (en *Engine) ctxName(key string) string {
	if en.ctxNames == nil {
		en.ctxNames = map[string]string{}
	}
	n, ok := en.ctxNames[key]
	if !ok {
		n = fmt.Sprintf("#%d", len(en.ctxNames)+1)
		en.ctxNames[key] = n
	}
	return n
}

func siteName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok && v.Name() != "" {
		return v.Name()
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("b%d.%d", in.Block().Index, i)
		}
	}
	return "?"
}

func (fr *Frame) callWith(st State, in ssa.Instruction, c *ssa.CallCommon, fnv *Term, args []*Term) (*Term, State) {
	en := fr.en
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, in, b.Name(), c, args)
	}
	if fnv.Op == OpIte {
		a := typed(fnv.A[0])
		var res []*Term
		var sts []State
		for i, g := range []*Term{And(st.g, a), And(st.g, Not(a))} {
			if g == False {
				continue
			}
			r, s := fr.callWith(State{g, st.mem, st.loc}, in, c, restrict(fnv.A[1+i], g), args)
			if s.g == False {
				continue
			}
			res = append(res, r)
			sts = append(sts, s)
		}
		if len(sts) == 0 {
			return Nil, State{False, st.mem, st.loc}
		}
		m := en.mergeStates(sts)
		r := res[len(res)-1]
		for i := len(res) - 2; i >= 0; i-- {
			r = Ite(restrict(sts[i].g, m.g), res[i], r)
		}
		return deepRestrict(r, m.g), m
	}
	if c.IsInvoke() {
		if fnv.Op == OpNil {
			fr.ob(st, in, "method call on nil interface", False)
			return zeroRes(c.Signature()), State{False, st.mem, st.loc}
		}
		if fnv.Op == OpIface {
			if fn := en.prog.LookupMethod(fnv.T, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return fr.callFunc(st, in, fn, nil, append([]*Term{fnv.A[0]}, args...))
			}
		}
		fr.ob(st, in, "method call on nil interface", Not(IsNilT(fnv)))
		return fr.external(st, in, "invoke:"+types.TypeString(c.Value.Type(), nil)+"."+c.Method.Name(), c.Signature(), append([]*Term{fnv}, args...))
	}
	switch fnv.Op {
	case OpFunc:
		if fn, ok := fnv.X.(*ssa.Function); ok {
			return fr.callFunc(st, in, fn, nil, args)
		}
	case OpClosure:
		return fr.callFunc(st, in, fnv.X.(*ssa.Function), fnv.A, args)
	case OpNil:
		fr.ob(st, in, "call of nil function", False)
		return zeroRes(c.Signature()), State{False, st.mem, st.loc}
	}
	fr.ob(st, in, "call of nil function", Not(IsNilT(fnv)))
	r := en.opaque("call", resultType(c.Signature()), append([]*Term{fnv}, args...)...)
	en.event(fr, &Event{Kind: "call", Callee: "dynamic", Guard: st.g, Instr: in, Args: append([]*Term{fnv}, args...), Res: r, Mem: st.mem})
	return r, st
}

func zeroRes(sig *types.Signature) *Term {
	T := resultType(sig)
	if T == nil {
		return Nil
	}
	return zeroOf(T)
}

func (fr *Frame) callFunc(st State, in ssa.Instruction, fn *ssa.Function, bind, args []*Term) (*Term, State) {
	en := fr.en
	if fn.Synthetic == "package initializer" {
		return Nil, st
	}
	if h := en.cuts[fn.String()]; h != nil {
		en.cutHit[fn.String()]++
		return h(fr, st, in, args)
	}
	// bound-method and promoted-method wrappers
	if en.inRepo(fn) {
		ctx := en.ctxName(fr.ctx + fr.unrolls + ">" + fr.fn.String() + "." + siteName(in))
		return en.callFn(fr, in, fn, bind, args, st, ctx)
	}
	if strings.HasSuffix(fn.Name(), "$bound") && len(bind) > 0 {
		args = append(append([]*Term{}, bind...), args...)
		name := strings.TrimSuffix(fn.String(), "$bound")
		return fr.external(st, in, name, fn.Signature, args)
	}
	name := fn.String()
	if fn.Origin() != nil && fn.Origin() != fn {
		name = fn.Origin().String()
	}
	if i := strings.Index(name, "["); i > 0 && strings.HasPrefix(name, "slices.") {
		name = name[:i]
	}
	return fr.external(st, in, name, fn.Signature, args)
}

func (fr *Frame) builtin(st State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term) (*Term, State) {
	en := fr.en
	switch name {
	case "len":
		x := args[0]
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m := fr.mapContent(st, x, c.Args[0].Type())
			return App("maplen", tInt, m), st
		case *types.Array:
			return Num(c.Args[0].Type().Underlying().(*types.Array).Len()), st
		case *types.Pointer:
			return Num(deref(c.Args[0].Type()).Underlying().(*types.Array).Len()), st
		}
		return restrict(Len(x), st.g), st
	case "cap":
		return restrict(App("cap", tInt, args[0]), st.g), st
	case "append":
		return fr.appendTo(st, in, c, args)
	case "copy":
		return fr.copyTo(st, in, c, args)
	case "delete":
		x := args[0]
		m := st.mem.clone()
		if x.Op == OpPtr {
			oc := en.content(m, x.A[0])
			m.m[x.A[0]] = en.writePath(en.objType[x.A[0]], oc, x.A[1:], App(fr.uniq("mapdel", in), nil, oc, args[1]))
		}
		en.event(fr, &Event{Kind: "mapupdate", Guard: st.g, Instr: in, Ptr: x, Args: args[1:], Rule: "delete"})
		return Nil, State{st.g, m, st.loc}
	case "print", "println":
		en.event(fr, &Event{Kind: "call", Callee: name, Guard: st.g, Instr: in, Args: args})
		return Nil, st
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			if isFloat(c.Args[0].Type()) {
				lt = FLt0(Sub(a, r))
			} else {
				lt = Lt(a, r)
			}
			if name == "min" {
				r = Ite(lt, a, r)
			} else {
				r = Ite(Or(lt, eqAny(a, r)), r, a)
			}
		}
		return r, st
	case "ssa:wrapnilchk":
		fr.ob(st, in, "nil pointer dereference", fr.nonNilPtr(args[0]))
		return args[0], st
	case "recover":
		en.event(fr, &Event{Kind: "recover", Guard: st.g, Instr: in, Rule: "recover"})
		return en.opaque(fr.uniq("recover", in), tErr), st
	case "close":
		return Nil, st
	case "clear":
		en.warn("clear() is not modelled in %s", fr.fn)
		return Nil, st
	}
	T := resultType(c.Signature())
	en.warn("builtin %s is not modelled", name)
	return en.opaque(fr.uniq("builtin."+name, in), T, args...), st
}

// sliceLenConst returns the constant length of a slice term, if any.
func sliceLenConst(s *Term) (int64, bool) { return Len(s).int64() }

func (fr *Frame) appendTo(st State, in ssa.Instruction, c *ssa.CallCommon, args []*Term) (*Term, State) {
	en := fr.en
	s := args[0]
	ST := c.Args[0].Type()
	ET := elemType(ST)
	if len(args) == 1 {
		return s, st
	}
	x := args[1]
	n0 := Len(s)
	var nx *Term
	if isStr(c.Args[1].Type()) {
		nx = Len(x)
	} else {
		nx = Len(x)
	}
	en.event(fr, &Event{Kind: "append", Guard: st.g, Instr: in, Args: args, Mem: st.mem})
	// contents
	var xarr, xoff *Term
	if isStr(c.Args[1].Type()) {
		xarr, xoff = x, Zero
	} else {
		xarr, xoff = en.sliceContentG(st.mem, x, ET)
	}
	AT := types.NewArray(ET, 1<<40)
	// growing a slice that is still a recurrence: a pure value
	if s.Op == OpApp && (s.appPrefix("carry:") || s.app("append")) {
		if n, ok := nx.int64(); ok && n > 0 && n <= 8 {
			es := []*Term{s}
			for i := int64(0); i < n; i++ {
				e := App("sel", ET, xarr, AddC(xoff, i))
				es = append(es, deepRestrict(e, st.g))
			}
			return appRaw("append", ST, es...), st
		}
	}
	// growing an accumulator in place: the old prefix is never rewritten
	if p := appendHome(s); p != nil {
		arr, off := en.sliceContent(st.mem, s, ET)
		grown := Slice(p, s.A[1], Add(n0, nx), App("cap.app", tInt, Add(n0, nx)))
		if n, ok := nx.int64(); ok && n <= 8 && strings.HasPrefix(p.A[0].S, "gen:") {
			same := true
			for i := int64(0); i < n && same; i++ {
				a := deepRestrict(App("sel", ET, arr, AddC(Add(off, n0), i)), st.g)
				same = a == deepRestrict(App("sel", ET, xarr, AddC(xoff, i)), st.g)
			}
			if same {
				return grown, st
			}
		}
		na := appendArr(arr, Add(off, n0), xarr, xoff, nx, ET, "in")
		m := st.mem.clone()
		o := p.A[0]
		m.m[o] = en.writePath(en.objType[o], en.content(m, o), p.A[1:], na)
		return grown, State{st.g, m, st.loc}
	}
	arr, off := en.sliceContentG(st.mem, s, ET)
	var base *Term
	if s.Op == OpNil || n0 == Zero {
		base = Arr(AT, zeroOf(ET))
	} else {
		kk := Sym("k@b.app."+fr.uniq("", in), tInt)
		base = ArrLam(true, arr, Zero, n0, One, kk, App("sel", ET, arr, Add(off, kk)))
		if off == Zero {
			base = arr
		}
	}
	na := appendArr(base, n0, xarr, xoff, nx, ET, fr.uniq("", in))
	p := fr.newObjNamed("app:"+fr.uniq("", in), AT, na, &st)
	return Slice(p, Zero, Add(n0, nx), App("cap.app", tInt, Add(n0, nx))), st
}

// appendHome: s is a slice over an append-owned array, starting at its origin.
func appendHome(s *Term) *Term {
	if s.Op == OpSlice && s.A[0].Op == OpPtr && s.A[0].A[0].Op == OpObj && hasPrefixAny(s.A[0].A[0].S, "app:", "gen:") && s.A[1] == Zero {
		return s.A[0]
	}
	return nil
}

func appendArr(arr, at, xarr, xoff, nx *Term, ET types.Type, id string) *Term {
	if n, ok := nx.int64(); ok && n <= 16 {
		for i := int64(0); i < n; i++ {
			arr = arrSetG(arr, AddC(at, i), App("sel", ET, xarr, AddC(xoff, i)))
		}
		return arr
	}
	kk := Sym("k@b.app2."+id, tInt)
	return ArrLam(false, arr, at, nx, One, kk, App("sel", ET, xarr, Add(xoff, kk)))
}

func (fr *Frame) newObjNamed(name string, T types.Type, content *Term, st *State) *Term {
	o := Obj(name)
	ks := fr.ks()
	fr.en.objType[o] = familyType(T, len(ks))
	m := st.mem.clone()
	if len(ks) == 0 {
		m.m[o] = content
	} else {
		old, ok := m.get(o)
		if !ok {
			old = appRaw("unalloc:"+name, nil)
		}
		m.m[o] = fr.en.writePath(fr.en.objType[o], old, ks, content)
	}
	st.mem = m
	return Ptr(o, ks...)
}

func (fr *Frame) copyTo(st State, in ssa.Instruction, c *ssa.CallCommon, args []*Term) (*Term, State) {
	en := fr.en
	d, s := args[0], args[1]
	ET := elemType(c.Args[0].Type())
	var sarr, soff *Term
	if isStr(c.Args[1].Type()) {
		sarr, soff = s, Zero
	} else {
		sarr, soff = en.sliceContentG(st.mem, s, ET)
	}
	ld, ls := Len(d), Len(s)
	n := Ite(Le(ld, ls), ld, ls)
	n = restrict(n, st.g)
	en.event(fr, &Event{Kind: "store", Guard: st.g, Instr: in, Ptr: en.sliceElem(d, Zero, ET), Rule: "copy"})
	kk := Sym("k@b.copy."+fr.uniq("", in), tInt)
	st2 := fr.fill(st, d, ET, n, kk, App("sel", ET, sarr, Add(soff, kk)))
	return n, st2
}

// fill writes val(kk) to elements 0..n-1 of slice d.
func (fr *Frame) fill(st State, d *Term, ET types.Type, n, kk, val *Term) State {
	en := fr.en
	m := st.mem.clone()
	var rec func(c, d *Term)
	rec = func(c, d *Term) {
		if d.Op == OpIte {
			a := typed(d.A[0])
			rec(And(c, a), d.A[1])
			rec(And(c, Not(a)), d.A[2])
			return
		}
		if c == False || d.Op == OpNil {
			return
		}
		var o *Term
		var path []*Term
		off := Zero
		switch {
		case d.Op == OpSlice && d.A[0].Op == OpPtr:
			o, path, off = d.A[0].A[0], d.A[0].A[1:], d.A[1]
		case d.Op == OpSlice:
			o, off = en.elemsObj(d.A[0], ET), d.A[1]
		default:
			o = en.elemsObj(d, ET)
		}
		oc := en.content(m, o)
		old, _ := en.readPath(en.objType[o], oc, path)
		var nw *Term
		if c, ok := n.int64(); ok && c <= 16 {
			nw = old
			for i := int64(0); i < c; i++ {
				nw = arrSetG(nw, AddC(off, i), substT(val, map[*Term]*Term{kk: Num(i)}))
			}
		} else {
			nw = ArrLam(false, old, off, n, One, kk, val)
		}
		m.m[o] = en.writePath(en.objType[o], oc, path, mergeContent(c, nw, old))
	}
	rec(True, d)
	return State{st.g, m, st.loc}
}

// ---------------------------------------------------------------- streams

// A stream is an immutable byte sequence B and a position kept in memory.
type stream struct {
	obj  *Term
	path []*Term
	B    *Term
}

type bufInfo struct {
	B  *Term
	ks []*Term
}

func (en *Engine) streamOf(st State, r *Term) (stream, bool) {
	T := types.Type(nil)
	if r.Op == OpIface {
		T = r.T
		r = r.A[0]
	}
	_ = T
	if r.Op == OpPtr {
		if b, ok := en.bufs[r.A[0]]; ok {
			m := map[*Term]*Term{}
			for i, k := range b.ks {
				if i+1 < len(r.A) {
					m[k] = r.A[i+1]
				}
			}
			return stream{r.A[0], r.A[1:], substT(b.B, m)}, true
		}
		if b, ok := en.tars[r.A[0]]; ok {
			m := map[*Term]*Term{}
			for i, k := range b.ks {
				if i+1 < len(r.A) {
					m[k] = r.A[i+1]
				}
			}
			seq, _ := en.readPath(en.objType[r.A[0]], en.content(st.mem, r.A[0]), r.A[1:])
			B := App("tarbytes", nil, substT(b.B, m), seq)
			o := Obj("stream", B)
			en.objType[o] = tInt
			return stream{o, nil, B}, true
		}
	}
	if r.Op == OpNil {
		return stream{}, false
	}
	o := Obj("stream", r)
	if _, ok := en.objType[o]; !ok {
		en.objType[o] = tInt
	}
	return stream{o, nil, App("bytes", nil, r)}, true
}

func (en *Engine) streamPos(st State, s stream) *Term {
	v, _ := en.readPath(en.objType[s.obj], en.content(st.mem, s.obj), s.path)
	return restrict(v, st.g)
}
func (en *Engine) setPos(st State, s stream, p *Term) State {
	m := st.mem.clone()
	c, ok := m.get(s.obj)
	if !ok {
		c = en.content(m, s.obj)
	}
	m.m[s.obj] = en.writePath(en.objType[s.obj], c, s.path, p)
	return State{st.g, m, st.loc}
}

// ---------------------------------------------------------------- library models

func (fr *Frame) newErr(st State, in ssa.Instruction, args ...*Term) *Term {
	ks := fr.ks()
	return App("newerr:"+fr.uniq("", in), tErr, ks...)
}

var pureMath = map[string]string{
	"math.Sin": "sin", "math.Cos": "cos", "math.Tan": "tan", "math.Atan": "atan", "math.Exp": "exp", "math.Log": "ln",
	"math.Abs": "abs", "math.Mod": "fmod", "math.Floor": "floor", "math.Ceil": "ceil", "math.Round": "round", "math.Trunc": "ftrunc",
}

var noReturn = map[string]bool{
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "os.Exit": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true, "runtime.Goexit": true,
}

// library functions that do not write through their arguments
var readOnlyPrefix = []string{"fmt.Print", "fmt.Sprint", "fmt.Fprint", "fmt.Errorf", "log.", "strings.", "strconv.", "errors.",
	"unicode.", "math.", "math/", "time.", "(time.", "os.Open", "os.Create", "image.", "(image.", "image/color.", "(image/color.", "image/png.Encode",
	"(*os.File).Close", "(*os.File).Name", "(*os.File).Sync", "bytes.", "os.Exit", "invoke:error.Error", "os.Remove", "(*log.Logger)", "filepath.", "path/filepath.", "os.Stat", "invoke:image"}

func (fr *Frame) external(st State, in ssa.Instruction, name string, sig *types.Signature, args []*Term) (*Term, State) {
	en := fr.en
	RT := resultType(sig)
	ev := &Event{Kind: "call", Callee: name, Guard: st.g, Instr: in, Args: args, Mem: st.mem}
	rec := func(r *Term) *Term {
		ev.Res = r
		en.event(fr, ev)
		en.models[name] = true
		return r
	}
	if f, ok := pureMath[name]; ok {
		return App(f, tFloat, args...), st
	}
	if noReturn[name] {
		ev.Kind = "exit"
		rec(Nil)
		return zeroRes(sig), State{False, st.mem, st.loc}
	}
	switch name {
	case "math.NaN":
		return NaNT, st
	case "math.Inf":
		return Ite(Ge0(args[0]), InfP, InfN), st
	case "math.IsNaN":
		return IsNaN(args[0]), st
	case "math.IsInf":
		return lift(func(as []*Term) *Term {
			x, s := as[0], as[1]
			switch {
			case x == InfP:
				return Ge0(s)
			case x == InfN:
				return Ge0(Neg(s))
			case x == NaNT || finiteTerm(x):
				return False
			}
			return App("isinf", tBool, x, s)
		}, args[0], args[1]), st
	case "math.Pow":
		return Pow(args[0], args[1]), st
	case "math.Pow10":
		return Pow(Num(10), args[0]), st
	case "math.Exp2":
		return Pow(Num(2), args[0]), st
	case "math.Sqrt":
		return Pow(args[0], NumR(bigRat(1, 2))), st
	case "math.Log10":
		return Div(Ln(args[0]), Ln(Num(10))), st
	case "math.Log2":
		return Div(Ln(args[0]), Ln(Num(2))), st
	case "math.Max":
		return Ite(Or(IsNaN(args[0]), IsNaN(args[1])), NaNT, Ite(FLt0(Sub(args[0], args[1])), args[1], args[0])), st
	case "math.Min":
		return Ite(Or(IsNaN(args[0]), IsNaN(args[1])), NaNT, Ite(FLt0(Sub(args[1], args[0])), args[1], args[0])), st
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		return App(name, RT, args...), st
	case "math.Sincos":
		return Tuple(App("sin", tFloat, args[0]), App("cos", tFloat, args[0])), st
	case "math.Modf":
		return Tuple(App("ftrunc", tFloat, args[0]), Sub(args[0], App("ftrunc", tFloat, args[0]))), st
	case "fmt.Errorf", "errors.New":
		return rec(fr.newErr(st, in, args...)), st
	case "errors.Is":
		return Eq(args[0], args[1]), st
	case "invoke:error.Error":
		return App("errstr", tStr, args...), st
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if name == "fmt.Sprintf" {
			if r := fr.sprintStrings(st, args); r != nil {
				return rec(r), st
			}
		}
		return App("sprintf:"+fr.uniq("", in), tStr, fr.ks()...), st
	case "fmt.Sscanf", "fmt.Sscan", "fmt.Sscanln":
		return fr.sscan(st, in, name, args, ev)
	case "strings.Join":
		if n, ok := sliceLenConst(args[0]); ok && n <= 8 {
			arr, off := fr.en.sliceContentG(st.mem, args[0], tStr)
			r := Str("")
			for i := int64(0); i < n; i++ {
				if i > 0 {
					r = App("concat", tStr, r, args[1])
				}
				r = App("concat", tStr, r, deepRestrict(App("sel", tStr, arr, AddC(off, i)), st.g))
			}
			return rec(r), st
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix",
		"bytes.HasPrefix", "bytes.HasSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix":
		if r, ok := fr.affix(st, name, args[0], args[1]); ok {
			return rec(r), st
		}
	case "strings.TrimLeftFunc", "strings.TrimRightFunc", "strings.TrimFunc", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimSpace":
		// a part of the text
		return rec(lift(func(as []*Term) *Term {
			lo, hi := Zero, Len(as[0])
			if !strings.HasPrefix(name, "strings.TrimRight") {
				lo = App("trim.lo:"+name, tInt, as...)
			}
			if !strings.HasPrefix(name, "strings.TrimLeft") {
				hi = App("trim.hi:"+name, tInt, as...)
			}
			return App("substr", tStr, as[0], lo, hi)
		}, args...)), st
	case "bytes.IndexByte", "bytes.IndexRune", "bytes.IndexAny", "bytes.IndexFunc", "bytes.LastIndexByte", "bytes.LastIndexAny", "bytes.LastIndexFunc":
		return rec(App("idx:"+fr.uniq(name, in), tInt, append([]*Term{Len(args[0])}, fr.ks()...)...)), st
	case "bytes.Index", "bytes.LastIndex":
		return rec(App("idx:"+fr.uniq(name, in), tInt, append([]*Term{AddC(Sub(Len(args[0]), Len(args[1])), 1)}, fr.ks()...)...)), st
	case "unicode/utf8.RuneCountInString":
		return App("rng.count", tInt, args[0]), st
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString":
		p := fr.newObjNamed("a:"+fr.uniq("", in), tInt, Zero, &st)
		en.regBuf(p, App("bytes", nil, args[0]), fr.ks())
		return p, st
	case "bufio.NewReader", "bufio.NewReaderSize":
		r := args[0]
		if r.Op == OpIface && r.A[0].Op == OpPtr {
			if _, ok := en.bufs[r.A[0].A[0]]; ok && strings.Contains(r.S, "bufio.Reader") {
				return r.A[0], st
			}
		}
		if r.Op == OpIte {
			break
		}
		src, ok := en.streamOf(st, r)
		if !ok {
			break
		}
		pos := en.streamPos(st, src)
		p := fr.newObjNamed("a:"+fr.uniq("", in), tInt, pos, &st)
		en.regBuf(p, src.B, fr.ks())
		if !mentions(src.obj, func(x *Term) bool { return en.loopByK[x] != nil }) {
			st = en.setPos(st, src, App("readahead", tInt, src.B))
		}
		ev.Val = src.B
		rec(p)
		return p, st
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice":
		if s, ok := en.streamOf(st, args[0]); ok && args[0].Op != OpIte {
			return fr.readUntil(st, in, name, s, args[1], ev, rec)
		}
	case "(*bufio.Reader).ReadByte", "invoke:io.ByteReader.ReadByte":
		if s, ok := en.streamOf(st, args[0]); ok && args[0].Op != OpIte {
			pos := en.streamPos(st, s)
			err := App("readbyteerr", tErr, s.B, pos)
			ok := IsNilT(err)
			b := App("sel", types.Typ[types.Uint8], s.B, pos)
			r := Tuple(Ite(ok, b, Zero), err)
			ev.Ptr = pos
			rec(r)
			return r, en.setPos(st, s, Ite(ok, AddC(pos, 1), pos))
		}
	case "(*bufio.Reader).Discard":
		if s, ok := en.streamOf(st, args[0]); ok && args[0].Op != OpIte {
			pos := en.streamPos(st, s)
			err := App("discarderr", tErr, s.B, pos, args[1])
			ok := IsNilT(err)
			r := Tuple(Ite(ok, args[1], App("discardn", tInt, s.B, pos, args[1])), err)
			ev.Ptr = pos
			rec(r)
			return r, en.setPos(st, s, Ite(ok, Add(pos, args[1]), App("pos?", tInt, s.B, pos)))
		}
	case "io.ReadFull", "io.ReadAtLeast":
		if s, ok := en.streamOf(st, args[0]); ok && args[0].Op != OpIte {
			n := Len(args[1])
			if name == "io.ReadAtLeast" && args[2] != n {
				return fr.readSome(st, in, s, args[1], ev, rec)
			}
			return fr.readFull(st, in, s, args[1], ev, rec)
		}
	case "(*bufio.Reader).Read", "invoke:io.Reader.Read", "(*archive/tar.Reader).Read", "(*os.File).Read":
		if s, ok := en.streamOf(st, args[0]); ok && args[0].Op != OpIte {
			return fr.readSome(st, in, s, args[1], ev, rec)
		}
	case "io.ReadAll", "io/ioutil.ReadAll":
		if s, ok := en.streamOf(st, args[0]); ok && args[0].Op != OpIte {
			pos := en.streamPos(st, s)
			n := App("remaining", tInt, s.B, pos)
			kk := Sym("k@b.rall."+fr.uniq("", in), tInt)
			bt := types.Typ[types.Uint8]
			AT := types.NewArray(bt, 1<<40)
			p := fr.newObjNamed("a:"+fr.uniq("", in), AT, ArrLam(true, Arr(AT, Zero), Zero, n, One, kk, App("sel", bt, s.B, Add(pos, kk))), &st)
			r := Tuple(Slice(p, Zero, n, n), App("readallerr", tErr, s.B, pos))
			ev.Ptr = pos
			rec(r)
			return r, en.setPos(st, s, Add(pos, n))
		}
	case "encoding/binary.Read":
		en.warn("binary.Read is not modelled")
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		n := 2
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "64") {
			n = 8
		}
		fr.ob(st, in, "index out of range", Ge(Len(args[1]), Num(int64(n))))
		arr, off := en.sliceContentG(st.mem, args[1], types.Typ[types.Uint8])
		r := Zero
		for i := 0; i < n; i++ {
			b := deepRestrict(App("sel", types.Typ[types.Uint8], arr, AddC(off, int64(i))), st.g)
			sh := 8 * i
			if strings.Contains(name, "bigEndian") {
				sh = 8 * (n - 1 - i)
			}
			r = Add(r, Mul(pow2(sh), b))
		}
		return r, st
	case "compress/bzip2.NewReader":
		src, ok := en.streamOf(st, args[0])
		if ok {
			B := App("bunzip2", nil, src.B, en.streamPos(st, src))
			rec(B)
			return Iface(bzT, B), st
		}
	case "archive/tar.NewReader":
		src, ok := en.streamOf(st, args[0])
		if ok && args[0].Op != OpIte {
			p := fr.newObjNamed("a:"+fr.uniq("", in), tInt, Zero, &st)
			if en.tars == nil {
				en.tars = map[*Term]bufInfo{}
			}
			en.tars[p.A[0]] = bufInfo{App("untar", nil, src.B), fr.ks()}
			rec(p)
			return p, st
		}
	case "(*archive/tar.Reader).Next":
		if args[0].Op == OpPtr {
			if b, ok := en.tars[args[0].A[0]]; ok {
				s := stream{args[0].A[0], args[0].A[1:], b.B}
				seq := en.streamPos(st, s)
				err := App("tarnexterr", tErr, b.B, seq)
				r := Tuple(App("nonnil:tarhdr", sig.Results().At(0).Type(), b.B, seq), err)
				rec(r)
				return r, en.setPos(st, s, AddC(seq, 1))
			}
		}
	case "unicode.IsUpper":
		return App("isupper", tBool, args...), st
	case "unicode.IsLower", "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace", "unicode.ToUpper", "unicode.ToLower":
		return en.opaque(name, RT, args...), st
	case "time.Parse":
		r := Tuple(App("timeparse", sig.Results().At(0).Type(), args...), App("timeparseerr", tErr, args...))
		return rec(r), st
	case "time.ParseInLocation":
		if l := args[0]; l.Op == OpStr && !strings.Contains(l.S, "07") && !strings.Contains(l.S, "MST") && en.isUTC(st, args[2], sig.Params().At(2).Type()) {
			// without a time zone in the layout, Parse takes UTC
			r := Tuple(App("timeparse", sig.Results().At(0).Type(), args[:2]...), App("timeparseerr", tErr, args[:2]...))
			return rec(r), st
		}
	case "slices.Contains", "slices.Index":
		if n, ok := sliceLenConst(args[0]); ok && n <= 64 {
			ET := sig.Params().At(1).Type()
			if s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
				ET = s.Elem()
			}
			arr, off := en.sliceContentG(st.mem, args[0], ET)
			has, at := False, Num(-1)
			for i := n - 1; i >= 0; i-- {
				eq := Eq(deepRestrict(App("sel", ET, arr, AddC(off, i)), st.g), args[1])
				has, at = Or(eq, has), Ite(eq, Num(i), at)
			}
			if name == "slices.Index" {
				return at, st
			}
			return has, st
		}
	case "(time.Time).Add":
		return App("timeadd", RT, args...), st
	case "(time.Time).Before":
		return App("timebefore", tBool, args...), st
	case "(time.Time).After":
		return App("timebefore", tBool, args[1], args[0]), st
	case "(time.Time).Equal":
		return Eq(args[0], args[1]), st
	case "(time.Time).Compare":
		lt, gt := App("timebefore", tBool, args[0], args[1]), App("timebefore", tBool, args[1], args[0])
		return Ite(lt, Num(-1), Ite(gt, One, Zero)), st
	case "(time.Time).Sub":
		return App("timesub", RT, args...), st
	case "(time.Duration).Minutes":
		return Div(args[0], Num(60000000000)), st
	case "(time.Duration).Hours":
		return Div(args[0], Num(3600000000000)), st
	case "(time.Duration).Seconds":
		return Div(args[0], Num(1000000000)), st
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable":
		return fr.sortCall(st, in, name, args, ev)
	case "image.Rect":
		return Struct(RT, rectPt(RT, args[0], args[1]), rectPt(RT, args[2], args[3])), st
	case "image.NewRGBA":
		return fr.newImage(st, in, sig, args, rec)
	case "(*image.RGBA).Set", "(*image.RGBA).SetRGBA":
		rec(Nil)
		if args[0].Op == OpPtr {
			col := args[3]
			col = lift1(func(t *Term) *Term {
				if t.Op == OpIface {
					return t.A[0]
				}
				return t
			}, col)
			o := canvasObj(args[0])
			if _, ok := en.objType[o]; ok {
				path := append(append([]*Term{}, args[0].A[1:]...), args[2], args[1])
				m := st.mem.clone()
				m.m[o] = en.writePath(en.objType[o], en.content(m, o), path, col)
				return Nil, State{st.g, m, st.loc}
			}
		}
		return Nil, st
	case "(*image.RGBA).PixOffset":
		if args[0].Op == OpPtr {
			if dim, ok := en.canvas[canvasObj(args[0])]; ok {
				T := deref(sig.Recv().Type())
				rect := en.load(st, Ptr(args[0].A[0], append(append([]*Term{}, args[0].A[1:]...), Field(fieldIndex(T, "Rect")))...), T.Underlying().(*types.Struct).Field(fieldIndex(T, "Rect")).Type())
				R := T.Underlying().(*types.Struct).Field(fieldIndex(T, "Rect")).Type()
				P := R.Underlying().(*types.Struct).Field(0).Type()
				lo := func(k int) *Term {
					return lift1(func(r *Term) *Term { return fieldOf(P, fieldOf(R, r, 0), k) }, rect)
				}
				return Add(Mul(Mul(Num(4), dim[0]), Sub(args[2], lo(1))), Mul(Num(4), Sub(args[1], lo(0)))), st
			}
		}
	case "(*image.RGBA).Bounds":
		if args[0].Op == OpPtr {
			T := deref(sig.Recv().Type())
			o, path := en.address(args[0], T)
			i := fieldIndex(T, "Rect")
			return en.load(st, Ptr(o, append(append([]*Term{}, path...), Field(i))...), RT), st
		}
		return App("bounds", RT, args...), st
	case "(image.Rectangle).Dx", "(image.Rectangle).Dy":
		T := sig.Recv().Type()
		PT := T.Underlying().(*types.Struct).Field(0).Type()
		i := 0
		if strings.HasSuffix(name, "Dy") {
			i = 1
		}
		return lift1(func(r *Term) *Term {
			return Sub(fieldOf(PT, fieldOf(T, r, 1), i), fieldOf(PT, fieldOf(T, r, 0), i))
		}, args[0]), st
	case "image.Pt":
		return Struct(RT, args[0], args[1]), st
	case "os.Open", "os.Create", "os.OpenFile":
		r := en.opaque("file:"+fr.uniq(name, in), RT, fr.ks()...)
		return rec(r), st
	case "(*os.File).Close":
		r := App("closeerr:"+fr.uniq("", in), tErr, args...)
		return rec(r), st
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return rec(App("nonnil:bufwriter", sig.Results().At(0).Type(), args[0])), st
	case "(*bufio.Writer).Flush":
		return rec(App("flusherr:"+fr.uniq("", in), tErr, args...)), st
	case "image/png.Encode":
		r := App("pngerr:"+fr.uniq("", in), tErr, fr.ks()...)
		return rec(r), st
	}
	if strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "unicode.") || strings.HasPrefix(name, "math.") ||
		strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "unicode/utf8.") {
		r := en.opaque(name, RT, args...)
		ev.Rule = "pure"
		return rec(r), st
	}
	// unknown library call
	r := Nil
	if RT != nil {
		r = en.opaque("ext:"+fr.uniq(name, in), RT, fr.ks()...)
	}
	rec(r)
	if hasPrefixAny(name, readOnlyPrefix...) {
		return r, st
	}
	ev.Rule = "unmodelled"
	return r, fr.havocArgs(st, in, args)
}

var bzT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "bzip2reader", nil), types.Typ[types.Int], nil)

func bigRat(a, b int64) *big.Rat { return big.NewRat(a, b) }

func (en *Engine) regBuf(p, B *Term, ks []*Term) {
	if en.bufs == nil {
		en.bufs = map[*Term]bufInfo{}
	}
	en.bufs[p.A[0]] = bufInfo{B, ks}
}

func (fr *Frame) havocArgs(st State, in ssa.Instruction, args []*Term) State {
	en := fr.en
	m := st.mem.clone()
	var rec func(t *Term)
	rec = func(t *Term) {
		switch t.Op {
		case OpIte:
			rec(t.A[1])
			rec(t.A[2])
		case OpIface:
			rec(t.A[0])
		case OpSlice:
			rec(t.A[0])
		case OpApp:
			if t.app("pix") {
				rec(t.A[0])
			}
		case OpClosure:
			for _, a := range t.A {
				rec(a)
			}
		case OpPtr:
			o := t.A[0]
			if cv := canvasObj(t); en.canvas[cv][0] != nil {
				n := len(t.A) - 1
				if k := len(fr.ks()); k < n {
					n = k
				}
				cc := en.content(m, cv)
				_, T := en.readPath(en.objType[cv], cc, t.A[1:1+n])
				m.m[cv] = en.writePath(en.objType[cv], cc, t.A[1:1+n], App("havoc:canvas:"+fr.uniq("", in), T, append(fr.ks(), t)...))
			}
			oc := en.content(m, o)
			_, T := en.readPath(en.objType[o], oc, t.A[1:])
			v := App("havoc:"+fr.uniq("", in), T, append(fr.ks(), t)...)
			if T != nil {
				v = expandStruct(T, v)
			}
			m.m[o] = en.writePath(en.objType[o], oc, t.A[1:], v)
		}
	}
	for _, a := range args {
		rec(a)
	}
	return State{st.g, m, st.loc}
}

// isUTC: the location is time.UTC.
func (en *Engine) isUTC(st State, l *Term, T types.Type) bool {
	o := Obj("g:time.UTC")
	if _, ok := en.objType[o]; !ok {
		en.objType[o] = T
	}
	return l == en.load(st, Ptr(o), T)
}

// sprintStrings is the result of Sprintf if the format only inserts strings.
func (fr *Frame) sprintStrings(st State, args []*Term) *Term {
	if args[0].Op != OpStr {
		return nil
	}
	n, ok := sliceLenConst(args[1])
	if !ok {
		return nil
	}
	parts := strings.Split(strings.ReplaceAll(args[0].S, "%v", "%s"), "%s")
	if int64(len(parts)) != n+1 {
		return nil
	}
	arr, off := fr.en.sliceContentG(st.mem, args[1], tErr)
	r := Str(parts[0])
	for i, p := range parts {
		if strings.Contains(p, "%") {
			return nil
		}
		if i == 0 {
			continue
		}
		x := deepRestrict(App("sel", nil, arr, AddC(off, int64(i-1))), st.g)
		if x.Op != OpIface || x.T != tStr {
			return nil
		}
		r = App("concat", tStr, App("concat", tStr, r, x.A[0]), Str(p))
	}
	return r
}

func (fr *Frame) sscan(st State, in ssa.Instruction, name string, args []*Term, ev *Event) (*Term, State) {
	en := fr.en
	str := args[0]
	format := Str("%v")
	vi := 1
	if name == "fmt.Sscanf" {
		format = args[1]
		vi = 2
	} else {
		format = Str(name)
	}
	err := App("sscanerr", tErr, str, format)
	n, ok := sliceLenConst(args[vi])
	if !ok {
		en.warn("Sscanf with unknown argument count in %s", fr.fn)
		r := Tuple(App("sscann", tInt, str, format), err)
		ev.Res = r
		en.event(fr, ev)
		return r, fr.havocArgs(st, in, args[vi:])
	}
	ok2 := IsNilT(err)
	arr, off := en.sliceContentG(st.mem, args[vi], tErr)
	for i := int64(0); i < n; i++ {
		p := deepRestrict(App("sel", nil, arr, AddC(off, i)), st.g)
		if p.Op != OpIface || p.T == nil {
			en.warn("Sscanf into an unknown target in %s", fr.fn)
			continue
		}
		T := deref(p.T)
		ST := T
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ST = tInt
		}
		v := App(fmt.Sprintf("scan.%d", i), ST, str, format)
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			// a number that does not fit the variable is an error (int has at
			// least 32 bits: what does not fit in those is not counted)
			if size := types.SizesFor("gc", "amd64").Sizeof(b); size < 4 || b.Info()&types.IsUnsigned != 0 {
				lo, hi := int64(0), int64(math.MaxInt64)
				switch {
				case b.Info()&types.IsUnsigned == 0:
					lo, hi = -1<<(8*size-1), 1<<(8*size-1)-1
				case size < 4:
					hi = 1<<(8*size) - 1
				}
				fits := And(Le(Num(lo), v), Le(v, Num(hi)))
				err = Ite(And(IsNilT(err), Not(fits)), fr.newErr(st, in, Str("value out of range")), err)
				ok2 = And(ok2, fits)
			}
		}
		old := en.load(st, p.A[0], T)
		bad := App(fmt.Sprintf("scanbad.%d", i), T, str, format, old)
		ev.Loops = fr.outer
		st = en.store(st, p.A[0], Ite(ok2, v, bad), T)
	}
	got := App("sscann", tInt, str, format)
	if n == 1 {
		got = Zero // nothing was read
	}
	r := Tuple(Ite(ok2, Num(n), got), err)
	ev.Res = r
	en.event(fr, ev)
	en.models[name] = true
	return r, st
}

func (fr *Frame) readUntil(st State, in ssa.Instruction, name string, s stream, delim *Term, ev *Event, rec func(*Term) *Term) (*Term, State) {
	en := fr.en
	pos := en.streamPos(st, s)
	n := App("until.len", tInt, s.B, pos, delim)
	err := App("until.err", tErr, s.B, pos, delim)
	ev.Ptr = pos
	var v *Term
	if strings.HasSuffix(name, "ReadString") {
		v = App("until", tStr, s.B, pos, delim)
	} else {
		bt := types.Typ[types.Uint8]
		AT := types.NewArray(bt, 1<<40)
		kk := Sym("k@b.until."+fr.uniq("", in), tInt)
		p := fr.newObjNamed("a:"+fr.uniq("", in), AT, ArrLam(true, Arr(AT, Zero), Zero, n, One, kk, App("sel", bt, s.B, Add(pos, kk))), &st)
		v = Slice(p, Zero, n, App("until.cap", tInt, s.B, pos, delim))
	}
	r := Tuple(v, err)
	rec(r)
	return r, en.setPos(st, s, Add(pos, n))
}

func (fr *Frame) readFull(st State, in ssa.Instruction, s stream, buf *Term, ev *Event, rec func(*Term) *Term) (*Term, State) {
	en := fr.en
	pos := en.streamPos(st, s)
	n := restrict(Len(buf), st.g)
	err := App("readfullerr", tErr, s.B, pos, n)
	ok := IsNilT(err)
	bt := types.Typ[types.Uint8]
	kk := Sym("k@b.full."+fr.uniq("", in), tInt)
	val := Ite(ok, App("sel", bt, s.B, Add(pos, kk)), App("partial", bt, s.B, pos, n, kk))
	ev.Ptr = pos
	r := Tuple(Ite(ok, n, App("readfulln", tInt, s.B, pos, n)), err)
	rec(r)
	st = fr.fill(st, buf, bt, n, kk, val)
	return r, en.setPos(st, s, Ite(ok, Add(pos, n), App("pos?", tInt, s.B, pos)))
}

func (fr *Frame) readSome(st State, in ssa.Instruction, s stream, buf *Term, ev *Event, rec func(*Term) *Term) (*Term, State) {
	en := fr.en
	pos := en.streamPos(st, s)
	l := restrict(Len(buf), st.g)
	n := App("readn", tInt, s.B, pos, l)
	err := App("readerr", tErr, s.B, pos, l)
	bt := types.Typ[types.Uint8]
	kk := Sym("k@b.some."+fr.uniq("", in), tInt)
	ev.Ptr = pos
	ev.Rule = "short read"
	r := Tuple(n, err)
	rec(r)
	st = fr.fill(st, buf, bt, n, kk, App("sel", bt, s.B, Add(pos, kk)))
	return r, en.setPos(st, s, Add(pos, n))
}

// ifaceLeaves returns the dynamic type that all cases of x have, or nil.
func ifaceLeaves(x *Term) types.Type {
	switch x.Op {
	case OpIface:
		return x.T
	case OpIte:
		A, B := ifaceLeaves(x.A[1]), ifaceLeaves(x.A[2])
		if A != nil && B != nil && types.Identical(A, B) {
			return A
		}
	}
	return nil
}

// sortCall evaluates the comparison on two symbolic elements and records it.
func (fr *Frame) sortCall(st State, in ssa.Instruction, name string, args []*Term, ev *Event) (*Term, State) {
	en := fr.en
	x := args[0]
	var ST types.Type
	if x.Op == OpIte {
		// the branches not reached here do not count
		x = restrict(x, st.g)
	}
	if x.Op == OpIface {
		ST = x.T
		x = x.A[0]
	} else if T := ifaceLeaves(x); T != nil {
		ST = T
		x = lift1(func(v *Term) *Term { return v.A[0] }, x)
	} else if c, ok := in.(*ssa.Call); ok {
		ST = c.Call.Args[0].Type()
	}
	ev.Kind = "sort"
	if ST == nil || x.Op == OpIte || strings.HasSuffix(name, ".Sort") || strings.HasSuffix(name, ".Stable") {
		if ST == nil {
			en.event(fr, ev)
			return Nil, fr.havocArgs(st, in, args)
		}
	}
	sl, ok := ST.Underlying().(*types.Slice)
	if !ok {
		en.event(fr, ev)
		return Nil, fr.havocArgs(st, in, args)
	}
	ET := sl.Elem()
	n := Len(x)
	i, j := Sym("k@sort.i", tInt), Sym("k@sort.j", tInt)
	g := AndN(st.g, Lt(i, n), Lt(j, n))
	arr, off := en.sliceContentG(st.mem, x, ET)
	ei, ej := App("sel", ET, arr, Add(off, i)), App("sel", ET, arr, Add(off, j))
	ctx := en.ctxName(fr.ctx + fr.unrolls + ">sort" + siteName(in))
	cmp := func(fnv *Term, as ...*Term) *Term {
		switch fnv.Op {
		case OpClosure:
			r, _ := en.callFn(fr, in, fnv.X.(*ssa.Function), fnv.A, as, State{g, st.mem, nil}, ctx)
			return r
		case OpFunc:
			if f, ok := fnv.X.(*ssa.Function); ok && en.inRepo(f) {
				r, _ := en.callFn(fr, in, f, nil, as, State{g, st.mem, nil}, ctx)
				return r
			}
		}
		return nil
	}
	switch name {
	case "sort.Slice", "sort.SliceStable":
		ev.Val = cmp(args[1], i, j)
	case "slices.SortFunc", "slices.SortStableFunc":
		if r := cmp(args[1], ei, ej); r != nil {
			ev.Val = Lt(r, Zero)
		}
	case "sort.Sort", "sort.Stable":
		if fn := en.prog.LookupMethod(ST, fnPkg(fr.fn), "Less"); fn != nil && en.inRepo(fn) {
			ev.Val, _ = en.callFn(fr, in, fn, nil, []*Term{x, i, j}, State{g, st.mem, nil}, ctx)
		}
	}
	ev.Args = []*Term{x, ei, ej, n, g}
	en.event(fr, ev)
	en.models[name] = true
	kk := Sym("k@b.sorted."+fr.uniq("", in), tInt)
	key := Nil
	if ev.Val != nil {
		key = ev.Val
	}
	val := App("sel", ET, App("sorted", nil, arr, off, n, Tuple(key)), kk)
	return Nil, fr.fill(st, x, ET, n, kk, val)
}

// ---------------------------------------------------------------- images

func rectPt(RT types.Type, x, y *Term) *Term {
	T := RT.Underlying().(*types.Struct).Field(0).Type()
	return Struct(T, x, y)
}

func canvasObj(p *Term) *Term { return Obj("canvas:" + p.A[0].S) }

func (fr *Frame) newImage(st State, in ssa.Instruction, sig *types.Signature, args []*Term, rec func(*Term) *Term) (*Term, State) {
	en := fr.en
	T := deref(sig.Results().At(0).Type())
	p := fr.newObjNamed("a:"+fr.uniq("", in), T, expandStruct(T, App("image:"+fr.uniq("", in), T, args[0])), &st)
	m := st.mem.clone()
	us := T.Underlying().(*types.Struct)
	RT := sig.Params().At(0).Type()
	PT := RT.Underlying().(*types.Struct).Field(0).Type()
	size := func(k int) *Term {
		return lift1(func(r *Term) *Term {
			return Sub(fieldOf(PT, fieldOf(RT, r, 1), k), fieldOf(PT, fieldOf(RT, r, 0), k))
		}, args[0])
	}
	w, h := size(0), size(1)
	for i := 0; i < us.NumFields(); i++ {
		var v *Term
		switch us.Field(i).Name() {
		case "Rect":
			v = args[0]
		case "Stride":
			v = Mul(Num(4), w)
		case "Pix":
			n := Mul(Num(4), Mul(w, h))
			v = Slice(App("pix", nil, p), Zero, n, n)
		default:
			continue
		}
		m.m[p.A[0]] = en.writePath(en.objType[p.A[0]], m.m[p.A[0]], append(append([]*Term{}, p.A[1:]...), Field(i)), v)
	}
	o := canvasObj(p)
	if en.canvas == nil {
		en.canvas = map[*Term][2]*Term{}
	}
	en.canvas[o] = [2]*Term{w, h}
	var colT types.Type = types.Typ[types.Int]
	for _, pk := range en.prog.AllPackages() {
		if pk.Pkg.Path() == "image/color" {
			colT = pk.Pkg.Scope().Lookup("RGBA").Type()
		}
	}
	AT := types.NewArray(types.NewArray(colT, 1<<40), 1<<40)
	en.objType[o] = familyType(AT, len(fr.ks()))
	zero := Arr(AT, Arr(AT.Elem(), zeroOf(colT)))
	if len(fr.ks()) == 0 {
		m.m[o] = zero
	} else {
		old, ok := m.get(o)
		if !ok {
			old = appRaw("unalloc:"+o.S, nil)
		}
		m.m[o] = en.writePath(en.objType[o], old, fr.ks(), zero)
	}
	rec(p)
	return p, State{st.g, m, st.loc}
}

// pixelByte is the address of byte i of the pixels of an image: the index is a
// multiple of the bytes in a row, a multiple of the bytes in a pixel and the
// number of the channel; ok is the condition under which the pixel exists.
func (en *Engine) pixelByte(s, i *Term) (p, ok *Term) {
	if s.Op != OpSlice || !s.A[0].app("pix") {
		return nil, nil
	}
	if i.Op == OpIte {
		c := typed(i.A[0])
		p1, ok1 := en.pixelByte(s, i.A[1])
		p2, ok2 := en.pixelByte(s, i.A[2])
		if p1 == nil || p2 == nil {
			return nil, nil
		}
		return Ite(c, p1, p2), Ite(c, ok1, ok2)
	}
	o := canvasObj(s.A[0].A[0])
	dim, known := en.canvas[o]
	if !known {
		return nil, nil
	}
	w, h := dim[0], dim[1]
	// a byte somewhere in the image: not shown to be inside
	unknown := func() (*Term, *Term) {
		n, k := Add(s.A[1], i), 0
		for _, m := range polyOf(n) {
			if len(m.F) == 0 && m.C.IsInt() {
				k = int(((m.C.Num().Int64() % 4) + 4) % 4)
			}
		}
		n = AddC(n, -int64(k))
		path := append(append([]*Term{}, s.A[0].A[0].A[1:]...), App("pixy", tInt, n), App("pixx", tInt, n), Field(k))
		return Ptr(o, path...), Eq0(App("pixin", tInt, n))
	}
	if w.Op != OpSym && w.Op != OpApp {
		return unknown()
	}
	var x, y []Mono
	k := int64(-1)
	four := big.NewRat(4, 1)
	ms := polyOf(Add(s.A[1], i))
	for _, m := range ms {
		c := new(big.Rat).Quo(m.C, four)
		row := -1
		for j, f := range m.F {
			if f.T == w && f.E == 1 {
				row = j
			}
		}
		switch {
		case len(m.F) == 0:
			if !m.C.IsInt() || m.C.Sign() < 0 {
				return unknown()
			}
			n := m.C.Num().Int64()
			k = n % 4
			if n >= 4 {
				x = append(x, Mono{C: big.NewRat(n/4, 1)})
			}
		case !c.IsInt():
			return unknown()
		case row >= 0:
			y = append(y, Mono{C: c, F: append(append([]Fac{}, m.F[:row]...), m.F[row+1:]...)})
		default:
			x = append(x, Mono{C: c, F: m.F})
		}
	}
	if k < 0 {
		k = 0
	}
	X, Y := fromMonos(x), fromMonos(y)
	path := append(append([]*Term{}, s.A[0].A[0].A[1:]...), Y, X, Field(int(k)))
	return Ptr(o, path...), AndN(Ge0(X), Lt(X, w), Ge0(Y), Lt(Y, h))
}

// affix models tests and removals of a constant prefix or suffix.
func (fr *Frame) affix(st State, name string, x, a *Term) (*Term, bool) {
	isBytes, trim, suffix := strings.HasPrefix(name, "bytes."), strings.Contains(name, "Trim"), strings.Contains(name, "Suffix")
	m, ok := Len(a).int64()
	if !ok || m < 1 || m > 8 || x.Op == OpIte || a.Op == OpIte {
		return nil, false
	}
	bt := types.Typ[types.Uint8]
	el := func(x *Term) func(i *Term) *Term {
		if !isBytes {
			return func(i *Term) *Term { return App("sel", bt, x, i) }
		}
		arr, off := fr.en.sliceContentG(st.mem, x, bt)
		return func(i *Term) *Term { return App("sel", bt, arr, Add(off, i)) }
	}
	n, ex, ea := Len(x), el(x), el(a)
	base := Zero
	if suffix {
		base = AddC(n, -m)
	}
	has := Ge(n, Num(m))
	for i := int64(0); i < m; i++ {
		has = And(has, EqInt(ex(AddC(base, i)), ea(Num(i))))
	}
	if !trim {
		return has, true
	}
	lo, hi := Num(m), n
	if suffix {
		lo, hi = Zero, base
	}
	if !isBytes {
		return Ite(has, App("substr", tStr, x, lo, hi), x), true
	}
	if x.Op != OpSlice {
		return nil, false
	}
	return Ite(has, Slice(x.A[0], Add(x.A[1], lo), Sub(hi, lo), Sub(x.A[3], lo)), x), true
}
