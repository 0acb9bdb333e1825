package main

// Abstract evaluation of go/ssa functions into the gated value graph. Calls
// into the repository are inlined, branches become gates, and loops become
// recurrences over an iteration symbol (see loop.go). Nothing is executed:
// every value is a term over the inputs of the analysed entry point.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Mem struct {
	base map[*Term]*Term // frozen globals after package initialisation
	m    map[*Term]*Term
}

func (m *Mem) clone() *Mem {
	n := &Mem{base: m.base, m: make(map[*Term]*Term, len(m.m)+4)}
	for k, v := range m.m {
		n.m[k] = v
	}
	return n
}

// freeze moves the overlay into the base (straight-line initialisers only).
func (m *Mem) freeze() *Mem {
	b := make(map[*Term]*Term, len(m.base)+len(m.m))
	for k, v := range m.base {
		b[k] = v
	}
	for k, v := range m.m {
		b[k] = v
	}
	return &Mem{base: b, m: map[*Term]*Term{}}
}
func (m *Mem) get(o *Term) (*Term, bool) {
	if v, ok := m.m[o]; ok {
		return v, true
	}
	v, ok := m.base[o]
	return v, ok
}

type State struct {
	g   *Term
	mem *Mem
	loc map[ssa.Value]*Term
}

func (s State) with(g *Term) State { return State{g, s.mem, s.loc} }

type Edge struct {
	from, to *ssa.BasicBlock
	st       State
}

type retRec struct {
	g    *Term
	vals []*Term
	mem  *Mem
	pos  token.Pos
}

type deferRec struct {
	g      *Term
	common *ssa.CallCommon
	fnv    *Term
	args   []*Term
	instr  ssa.Instruction
}

type Frame struct {
	en      *Engine
	fn      *ssa.Function
	ctx     string
	env     map[ssa.Value]*Term
	rets    []retRec
	defers  []deferRec
	outer   []*Loop // dynamic loop nest
	static  *FnInfo
	parent  *Frame
	site    ssa.Instruction
	unrolls string
	unrollK *Term
	locals  []*Term
	conds   map[*ssa.If]int // 1 true, 2 false, 3 undecided
}

type Event struct {
	Kind   string // ob, call, store, alloc, panic, go, f2i, load
	Rule   string
	Guard  *Term
	Unsafe *Term // ob: guard and not safe
	Instr  ssa.Instruction
	Fn     *ssa.Function
	Ctx    string
	Stack  []string
	Pos    token.Pos
	Loops  []*Loop
	Callee string
	Args   []*Term
	Res    *Term
	Ptr    *Term
	Val    *Term
	Mem    *Mem
	Seq    int
}

// cutFn replaces a call by an abstraction of the callee that was analysed on its own.
type cutFn func(fr *Frame, st State, in ssa.Instruction, args []*Term) (*Term, State)

type Engine struct {
	prog       *ssa.Program
	repo       map[*types.Package]bool
	base       map[*Term]*Term
	objType    map[*Term]types.Type
	events     []*Event
	loops      []*Loop
	infos      map[*ssa.Function]*FnInfo
	initing    map[*ssa.Package]bool
	inited     map[*ssa.Package]bool
	bigArr     map[*Term][]*Event
	fns        map[*ssa.Function]bool // functions analysed
	loopByK    map[*Term]*Loop
	loopID     map[string]*Loop
	peel       bool
	cuts       map[string]cutFn
	cutHit     map[string]int
	lastIter   bool // facts include the last iteration of counted loops
	factRounds int
	houdini    int
	genContent map[*Term]*Term
	noUnrl     bool
	warnLog    []string
	depth      int
	instrs     int
	// assumptions made by models, reported in the evidence
	models     map[string]bool
	assume     *Term
	bufs       map[*Term]bufInfo
	canvas     map[*Term][2]*Term // images created: width and height
	tars       map[*Term]bufInfo
	idNames    map[string]string
	ctxNames   map[string]string
	loopSeen   map[string]bool
	pure       map[*ssa.Function]bool
	pureMemo   []pureCall
	repoInfo   *Repo
	initEvents []*Event
	initLoops  []*Loop
	hdrPos     []*Term
	bigIdx     map[*Term]*Event
}

func newEngine(prog *ssa.Program, repo map[*types.Package]bool) *Engine {
	return &Engine{prog: prog, repo: repo, base: map[*Term]*Term{}, objType: map[*Term]types.Type{},
		infos: map[*ssa.Function]*FnInfo{}, initing: map[*ssa.Package]bool{}, inited: map[*ssa.Package]bool{},
		bigArr: map[*Term][]*Event{}, fns: map[*ssa.Function]bool{}, loopByK: map[*Term]*Loop{}, loopID: map[string]*Loop{},
		models: map[string]bool{}, cuts: map[string]cutFn{}, cutHit: map[string]int{}}
}

func (en *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := en.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/since/radolan/"); i >= 0 {
		f = f[i+len("/since/radolan/"):]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (en *Engine) warn(f string, a ...any) { en.warnLog = append(en.warnLog, fmt.Sprintf(f, a...)) }

// warns lists what could not be modelled in the passes that were kept.
func (en *Engine) warns() map[string]bool {
	m := map[string]bool{}
	for _, w := range en.warnLog {
		m[w] = true
	}
	return m
}

// ---------------------------------------------------------------- zero and symbolic contents

func zeroOf(T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsNumeric != 0:
			return Zero
		case u.Info()&types.IsString != 0:
			return Str("")
		}
		return Nil
	case *types.Struct:
		if opaqueStruct(T) {
			return App("zero:"+types.TypeString(T, nil), T)
		}
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = zeroOf(u.Field(i).Type())
		}
		return Struct(T, as...)
	case *types.Array:
		return Arr(T, zeroOf(u.Elem()))
	case *types.Tuple:
		as := make([]*Term, u.Len())
		for i := range as {
			as[i] = zeroOf(u.At(i).Type())
		}
		return Tuple(as...)
	}
	return Nil
}

// fieldOf reads field i of a struct value.
func fieldOf(T types.Type, v *Term, i int) *Term {
	st, _ := T.Underlying().(*types.Struct)
	return lift1(func(v *Term) *Term {
		if v.Op == OpStruct {
			return v.A[i]
		}
		var ft types.Type
		if st != nil {
			ft = st.Field(i).Type()
		}
		if v.Op == OpNil {
			if ft != nil {
				return zeroOf(ft)
			}
			return Nil
		}
		if v.app("mapget") && v.A[2].Op == OpStruct {
			return App(fmt.Sprintf("fld.%d", i), ft, v)
		}
		return App(fmt.Sprintf("fld.%d", i), ft, v)
	}, v)
}

func expandStruct(T types.Type, v *Term) *Term {
	st, ok := T.Underlying().(*types.Struct)
	if !ok || v.Op == OpStruct || opaqueStruct(T) {
		return v
	}
	as := make([]*Term, st.NumFields())
	for i := range as {
		as[i] = fieldOf(T, v, i)
	}
	return Struct(T, as...)
}

func elemType(T types.Type) types.Type {
	switch u := T.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// familyType wraps T in one array level per enclosing loop index.
func familyType(T types.Type, n int) types.Type {
	for i := 0; i < n; i++ {
		T = types.NewArray(T, 1<<40)
	}
	return T
}

func (en *Engine) content(mem *Mem, o *Term) *Term {
	if c, ok := mem.get(o); ok {
		return c
	}
	if c, ok := en.genContent[o]; ok {
		return c
	}
	T := en.objType[o]
	if o.S == "elems" && len(o.A) == 1 && o.A[0].app("append") {
		ET := T.Underlying().(*types.Array).Elem()
		s := o.A[0]
		arr, off := en.sliceContent(mem, s.A[0], ET)
		if off == Zero {
			for i, e := range s.A[1:] {
				arr = arrSetG(arr, AddC(Len(s.A[0]), int64(i)), e)
			}
			return arr
		}
	}
	c := en.initial(o, T)
	return c
}

// initial content of an object the analysed code did not create
func (en *Engine) initial(o *Term, T types.Type) *Term {
	name := "init"
	var args []*Term
	if o.Op == OpObj {
		name = "init:" + o.S
		args = o.A
		if o.S == "deref" {
			name = "at"
		}
		if o.S == "elems" {
			name = "elems"
		}
		if strings.HasPrefix(o.S, "g:") && len(args) == 0 {
			name = "init:" + o.S
		}
	}
	if T != nil {
		if _, ok := T.Underlying().(*types.Struct); ok {
			return expandStruct(T, typed(appRaw(name, T, args...)))
		}
	}
	if T != nil && strings.HasPrefix(o.S, "g:") && !repoPath(o.S[2:strings.LastIndex(o.S, ".")]) {
		if _, ok := T.Underlying().(*types.Interface); ok {
			name = "nonnil:" + o.S
		}
	}
	return typed(appRaw(name, T, args...))
}

// object behind a pointer term without known target
func (en *Engine) derefObj(p *Term, T types.Type) *Term {
	o := Obj("deref", p)
	if _, ok := en.objType[o]; !ok {
		en.objType[o] = T
	}
	return o
}
func (en *Engine) elemsObj(s *Term, elem types.Type) *Term {
	o := Obj("elems", s)
	if _, ok := en.objType[o]; !ok {
		en.objType[o] = types.NewArray(elem, 1<<40)
	}
	return o
}

// address normalises a leaf pointer to object + path.
func (en *Engine) address(p *Term, T types.Type) (obj *Term, path []*Term) {
	if p.Op == OpPtr {
		return p.A[0], p.A[1:]
	}
	return en.derefObj(p, T), nil
}

func (en *Engine) readPath(T types.Type, c *Term, path []*Term) (*Term, types.Type) {
	for _, e := range path {
		if e.Op == OpField {
			i := fieldIdx(e)
			if _, ok := T.Underlying().(*types.Struct); !ok {
				panic(fmt.Sprintf("readPath: field of %v in %v path %v", T, c, path))
			}
			c = fieldOf(T, c, i)
			T = T.Underlying().(*types.Struct).Field(i).Type()
		} else {
			T = elemType(T)
			c = App("sel", T, c, e)
		}
	}
	return c, T
}

func fieldIdx(e *Term) int {
	n := 0
	fmt.Sscan(e.S, &n)
	return n
}

func (en *Engine) writePath(T types.Type, c *Term, path []*Term, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.Op == OpField && opaqueStruct(T) {
		return App("with."+e.S+":"+types.TypeString(T, nil), T, c, v)
	}
	if e.Op == OpField {
		i := fieldIdx(e)
		s := expandStruct(T, c)
		as := append([]*Term{}, s.A...)
		as[i] = en.writePath(T.Underlying().(*types.Struct).Field(i).Type(), as[i], path[1:], v)
		return Struct(s.T, as...)
	}
	et := elemType(T)
	if c.Op == OpIte {
		return mergeContent(typed(c.A[0]), en.writePath(T, c.A[1], path, v), en.writePath(T, c.A[2], path, v))
	}
	if len(path) == 1 {
		return arrSetG(c, e, v)
	}
	old := App("sel", et, c, e)
	return arrSetG(c, e, en.writePath(et, old, path[1:], v))
}

func arrSetG(c, i, v *Term) *Term {
	if i.Op == OpIte {
		return mergeContent(typed(i.A[0]), arrSetG(c, i.A[1], v), arrSetG(c, i.A[2], v))
	}
	return ArrSet(c, i, v)
}

// mergeContent joins memory contents; gated array updates are pushed to the element.
func mergeContent(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a.Op == OpArrUpd || b.Op == OpArrUpd || a.Op == OpArrLam || b.Op == OpArrLam || a.Op == OpArr || b.Op == OpArr {
		if m := mergeArr(c, a, b); m != nil {
			return m
		}
	}
	if a.Op == OpMapUpd && a.A[0] == b {
		return MapSet2(c, a, b)
	}
	if b.Op == OpMapUpd && b.A[0] == a {
		return MapSet2(Not(c), b, a)
	}
	if a.Op == OpStruct && b.Op == OpStruct && len(a.A) == len(b.A) {
		as := make([]*Term, len(a.A))
		for i := range as {
			as[i] = mergeContent(c, a.A[i], b.A[i])
		}
		return Struct(a.T, as...)
	}
	return Ite(c, a, b)
}

// MapSet2 keeps a conditional map update as a gated term.
func MapSet2(c, upd, old *Term) *Term { return Ite(c, upd, old) }

// mergeArr: Ite(c, upd(base,i,v), base) == upd(base, i, Ite(c, v, sel(base,i)))
func mergeArr(c, a, b *Term) *Term {
	if a.Op == OpArr && b.Op == OpArr && a.A[0] == b.A[0] {
		// union of explicit indices
		idx := map[*Term]bool{}
		var order []*Term
		for _, t := range []*Term{a, b} {
			for i := 1; i < len(t.A); i += 2 {
				if !idx[t.A[i]] {
					idx[t.A[i]] = true
					order = append(order, t.A[i])
				}
			}
		}
		r := Arr(a.T, a.A[0])
		for _, i := range order {
			r = ArrSet(r, i, mergeContent(c, selL(nil, a, i), selL(nil, b, i)))
		}
		return r
	}
	chain := func(t *Term) []*Term {
		var out []*Term
		for t.Op == OpArrUpd {
			out = append(out, t)
			t = t.A[0]
		}
		return append(out, t)
	}
	ca, cb := chain(a), chain(b)
	// common suffix
	common := 0
	for common < len(ca) && common < len(cb) && ca[len(ca)-1-common] == cb[len(cb)-1-common] {
		common++
	}
	if common == 0 {
		return nil
	}
	base := ca[len(ca)-common]
	r := base
	type up struct{ i, v, T *Term }
	ua, ub := ca[:len(ca)-common], cb[:len(cb)-common]
	// same single index on both sides
	if len(ua) == 1 && len(ub) == 1 && ua[0].A[1] == ub[0].A[1] {
		return ArrSet(base, ua[0].A[1], mergeContent(c, ua[0].A[2], ub[0].A[2]))
	}
	elemT := func(v *Term) types.Type { return v.T }
	for i := len(ua) - 1; i >= 0; i-- {
		u := ua[i]
		old := App("sel", elemT(u.A[2]), r, u.A[1])
		r = ArrSet(r, u.A[1], mergeContent(c, u.A[2], old))
	}
	for i := len(ub) - 1; i >= 0; i-- {
		u := ub[i]
		old := App("sel", elemT(u.A[2]), r, u.A[1])
		r = ArrSet(r, u.A[1], mergeContent(c, old, u.A[2]))
	}
	return r
}

func (en *Engine) load(st State, p *Term, T types.Type) *Term {
	v := lift1(func(p *Term) *Term {
		if p.Op == OpNil {
			return zeroOf(T)
		}
		o, path := en.address(p, T)
		c := en.content(st.mem, o)
		ot := en.objType[o]
		v, _ := en.readPath(ot, c, path)
		return v
	}, p)
	return deepRestrict(v, st.g)
}

func (en *Engine) store(st State, p, v *Term, T types.Type) State {
	m := st.mem.clone()
	en.storeRec(m, True, p, v, T)
	return State{st.g, m, st.loc}
}

func (en *Engine) storeRec(m *Mem, c *Term, p, v *Term, T types.Type) {
	if p.Op == OpIte {
		a := typed(p.A[0])
		en.storeRec(m, And(c, a), p.A[1], v, T)
		en.storeRec(m, And(c, Not(a)), p.A[2], v, T)
		return
	}
	if c == False || p.Op == OpNil {
		return
	}
	o, path := en.address(p, T)
	ot := en.objType[o]
	old := en.content(m, o)
	nw := en.writePath(ot, old, path, v)
	m.m[o] = mergeContent(c, nw, old)
}

// ---------------------------------------------------------------- merging

func (en *Engine) mergeStates(sts []State) State {
	if len(sts) == 1 {
		return sts[0]
	}
	g := False
	for _, s := range sts {
		g = Or(g, s.g)
	}
	r := State{g: g, mem: sts[len(sts)-1].mem, loc: sts[len(sts)-1].loc}
	same := true
	for _, s := range sts {
		if s.mem != r.mem {
			same = false
		}
	}
	if !same {
		keys := map[*Term]bool{}
		for _, s := range sts {
			for k := range s.mem.m {
				keys[k] = true
			}
		}
		ord := make([]*Term, 0, len(keys))
		for k := range keys {
			ord = append(ord, k)
		}
		sort.Slice(ord, func(i, j int) bool { return ord[i].ID < ord[j].ID })
		nm := &Mem{base: r.mem.base, m: make(map[*Term]*Term, len(keys))}
		for _, k := range ord {
			var v *Term
			for i := len(sts) - 1; i >= 0; i-- {
				c, ok := sts[i].mem.get(k)
				if !ok {
					if isFresh(k) {
						continue // not allocated on this path
					}
					c = en.content(sts[i].mem, k)
				}
				if v == nil {
					v = c
					continue
				}
				if c != v {
					v = mergeContent(restrict(sts[i].g, g), c, v)
				}
			}
			if v.Op == OpIte || v.Op == OpStruct {
				v = deepRestrict(v, g)
			}
			nm.m[k] = v
		}
		r.mem = nm
	}
	sameLoc := true
	for _, s := range sts {
		if len(s.loc) > 0 || len(r.loc) > 0 {
			sameLoc = false
		}
	}
	if !sameLoc {
		keys := map[ssa.Value]bool{}
		for _, s := range sts {
			for k := range s.loc {
				keys[k] = true
			}
		}
		r.loc = map[ssa.Value]*Term{}
		for k := range keys {
			var v *Term
			for i := len(sts) - 1; i >= 0; i-- {
				c, ok := sts[i].loc[k]
				if !ok {
					continue
				}
				if v == nil {
					v = c
				} else if c != v {
					v = Ite(restrict(sts[i].g, g), c, v)
				}
			}
			r.loc[k] = v
		}
	}
	return r
}

func isFresh(o *Term) bool {
	return o.Op == OpObj && (strings.HasPrefix(o.S, "a:") || strings.HasPrefix(o.S, "m:") || strings.HasPrefix(o.S, "app:") || strings.HasPrefix(o.S, "gen:"))
}

// ---------------------------------------------------------------- frames

func (fr *Frame) get(st State, v ssa.Value) *Term {
	if t, ok := st.loc[v]; ok {
		return t
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return fr.en.globalPtr(v)
	case *ssa.Function:
		return FuncT(v)
	case *ssa.Builtin:
		return FuncT(v)
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
}

func constTerm(c *ssa.Const) *Term {
	T := c.Type()
	if c.Value == nil {
		return zeroOf(T)
	}
	return constVal(c.Value, T)
}

func constVal(v constant.Value, T types.Type) *Term {
	b, _ := T.Underlying().(*types.Basic)
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return Str(constant.StringVal(v))
	case constant.Int:
		if b != nil && b.Info()&types.IsFloat != 0 {
			return ratOf(constant.ToFloat(v))
		}
		i, ok := constant.Val(v).(int64)
		if ok {
			return Num(i)
		}
		r, _ := new(big.Rat).SetString(v.ExactString())
		return NumR(r)
	case constant.Float:
		if b != nil && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(v)
			if b.Kind() == types.Float32 {
				g, _ := constant.Float32Val(v)
				f = float64(g)
			}
			return NumF(f)
		}
		return ratOf(v)
	}
	return App("const:"+v.ExactString(), T)
}

func ratOf(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	return NumF(f)
}

func (en *Engine) globalObj(g *ssa.Global) *Term {
	o := Obj("g:" + g.Pkg.Pkg.Path() + "." + g.Name())
	if _, ok := en.objType[o]; !ok {
		en.objType[o] = deref(g.Type())
	}
	return o
}
func (en *Engine) globalPtr(g *ssa.Global) *Term { return Ptr(en.globalObj(g)) }

type FnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*SLoop // by header
	inner map[*ssa.BasicBlock]*SLoop // innermost loop of a block
}

type SLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *SLoop
}

func (en *Engine) info(fn *ssa.Function) *FnInfo {
	if f, ok := en.infos[fn]; ok {
		return f
	}
	f := &FnInfo{loops: map[*ssa.BasicBlock]*SLoop{}, inner: map[*ssa.BasicBlock]*SLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := f.loops[h]
				if l == nil {
					l = &SLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					f.loops[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*SLoop
	for _, l := range f.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls { // outer to inner
		l.parent = f.inner[l.header]
		for b := range l.blocks {
			f.inner[b] = l
		}
	}
	en.infos[fn] = f
	return f
}

const maxDepth = 40

// callFn inlines fn; returns the merged result and continuation state.
func (en *Engine) callFn(caller *Frame, site ssa.Instruction, fn *ssa.Function, bindings, args []*Term, st State, ctx string) (val *Term, st2 State) {
	rec := 0
	for f := caller; f != nil; f = f.parent {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 40 || en.depth > 120 {
		en.warn("recursion through %s is not analysed", fn)
		en.event(caller, &Event{Kind: "recursion", Guard: st.g, Instr: site, Rule: "recursive call " + fn.Name()})
		T := resultType(fn.Signature)
		if T == nil {
			return Nil, st
		}
		return en.opaque("rec:"+fn.String()+ctx, T, args...), st
	}
	if caller != nil && len(bindings) == 0 && en.isPure(fn) {
		for _, c := range en.pureMemo {
			if c.fn == fn && sameTerms(c.args, args) && sameLoops(c.outer, caller.outer) && And(st.g, Not(c.g)) == False {
				return c.val, State{And(st.g, c.after), st.mem, st.loc}
			}
		}
		defer func() {
			if st2.g != False {
				en.pureMemo = append(en.pureMemo, pureCall{fn, args, caller.outer, st.g, st2.g, val})
			}
		}()
	}
	en.depth++
	defer func() { en.depth-- }()
	if len(fn.Blocks) == 0 {
		panic("callFn on external " + fn.String())
	}
	en.fns[fn] = true
	fr := &Frame{en: en, fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, static: en.info(fn), parent: caller, site: site}
	if caller != nil {
		fr.outer = caller.outer
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bindings[i]
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	inner := State{st.g, st.mem, nil}
	fr.region(all, fn.Blocks[0], inner, nil)
	if len(fr.rets) == 0 {
		return Nil, State{False, st.mem, st.loc}
	}
	var sts []State
	for _, r := range fr.rets {
		sts = append(sts, State{g: r.g, mem: r.mem})
	}
	m := en.mergeStates(sts)
	m.loc = st.loc
	if len(fr.locals) > 0 {
		m.mem = m.mem.clone()
		for _, o := range fr.locals {
			delete(m.mem.m, o)
		}
	}
	n := len(fr.rets[0].vals)
	outs := make([]*Term, n)
	for j := 0; j < n; j++ {
		v := fr.rets[len(fr.rets)-1].vals[j]
		for i := len(fr.rets) - 2; i >= 0; i-- {
			if fr.rets[i].vals[j] != v {
				v = Ite(restrict(fr.rets[i].g, m.g), fr.rets[i].vals[j], v)
			}
		}
		outs[j] = deepRestrict(v, m.g)
	}
	switch n {
	case 0:
		return Nil, m
	case 1:
		return outs[0], m
	}
	return Tuple(outs...), m
}

// pureCall is the result of a call of a function that only computes with its
// arguments: a later call with the same arguments under the same or stronger
// conditions has the same result.
type pureCall struct {
	fn       *ssa.Function
	args     []*Term
	outer    []*Loop
	g, after *Term
	val      *Term
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameLoops(a, b []*Loop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// isPure reports whether fn only computes with numbers: no memory, no calls,
// and at least one loop (other functions are cheap to evaluate again).
func (en *Engine) isPure(fn *ssa.Function) bool {
	if p, ok := en.pure[fn]; ok {
		return p
	}
	if en.pure == nil {
		en.pure = map[*ssa.Function]bool{}
	}
	p, loop := len(fn.FreeVars) == 0, false
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			loop = loop || s.Dominates(b)
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
			case *ssa.UnOp:
				p = p && in.Op != token.MUL && in.Op != token.ARROW
			default:
				p = false
			}
		}
	}
	en.pure[fn] = p && loop
	return p && loop
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// opaque builds an unknown value of type T (tuples componentwise).
func (en *Engine) opaque(name string, T types.Type, args ...*Term) *Term {
	if T == nil {
		return Nil
	}
	if tp, ok := T.(*types.Tuple); ok {
		as := make([]*Term, tp.Len())
		for i := range as {
			as[i] = App(fmt.Sprintf("%s#%d", name, i), tp.At(i).Type(), args...)
		}
		return Tuple(as...)
	}
	return App(name, T, args...)
}

func (en *Engine) event(fr *Frame, e *Event) *Event {
	if e.Guard == False {
		return e
	}
	if fr != nil {
		e.Fn = fr.fn
		e.Ctx = fr.ctx
		e.Loops = fr.outer
		if e.Instr != nil {
			e.Pos = instrPos(e.Instr)
		}
		for f := fr; f != nil; f = f.parent {
			e.Stack = append(e.Stack, f.fn.String())
		}
	}
	e.Seq = len(en.events)
	en.events = append(en.events, e)
	return e
}

func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	// fall back to a nearby instruction of the block
	for _, j := range i.Block().Instrs {
		if j.Pos().IsValid() {
			return j.Pos()
		}
	}
	return i.Parent().Pos()
}

func (fr *Frame) ob(st State, in ssa.Instruction, rule string, safe *Term) {
	u := And(st.g, Not(safe))
	if u == False {
		fr.en.event(fr, &Event{Kind: "ob", Rule: rule, Guard: st.g, Unsafe: False, Instr: in})
		return
	}
	fr.en.event(fr, &Event{Kind: "ob", Rule: rule, Guard: st.g, Unsafe: u, Instr: in})
}

// ---------------------------------------------------------------- regions

func (fr *Frame) region(blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st State, self *SLoop) (latches, exits []Edge) {
	inc := map[*ssa.BasicBlock][]Edge{}
	route := func(e Edge) {
		if e.st.g == False {
			return
		}
		if self != nil && e.to == entry {
			latches = append(latches, e)
		} else if !blocks[e.to] {
			exits = append(exits, e)
		} else {
			inc[e.to] = append(inc[e.to], e)
		}
	}
	for _, b := range fr.static.rpo {
		if !blocks[b] {
			continue
		}
		if in := fr.static.inner[b]; in != self && in.header != b {
			continue // handled by the inner loop
		} else if in != self && in.parent != self {
			continue
		}
		if b == entry && (self != nil || len(inc[b]) == 0) {
			if self == nil && fr.static.loops[b] != nil {
				for _, e := range fr.loop(fr.static.loops[b], []Edge{{nil, b, st}}) {
					route(e)
				}
				continue
			}
			for _, e := range fr.exec(b, st) {
				route(e)
			}
			continue
		}
		es := inc[b]
		if len(es) == 0 {
			continue
		}
		if l := fr.static.loops[b]; l != nil && l != self {
			for _, e := range fr.loop(l, es) {
				route(e)
			}
			continue
		}
		cur := fr.join(b, es)
		if cur.g == False {
			continue
		}
		for _, e := range fr.exec(b, cur) {
			route(e)
		}
	}
	return
}

// join merges incoming edges and evaluates the phis of b.
func (fr *Frame) join(b *ssa.BasicBlock, es []Edge) State {
	vals := fr.phiVals(b, es)
	var sts []State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	cur := fr.en.mergeStates(sts)
	for p, v := range vals {
		fr.env[p] = deepRestrict(v, cur.g)
	}
	return cur
}

func (fr *Frame) phiVals(b *ssa.BasicBlock, es []Edge) map[*ssa.Phi]*Term {
	g := False
	for _, e := range es {
		g = Or(g, e.st.g)
	}
	out := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v *Term
		for i := len(es) - 1; i >= 0; i-- {
			e := es[i]
			var x *Term
			for j, pr := range b.Preds {
				if pr == e.from {
					x = fr.get(e.st, p.Edges[j])
					break
				}
			}
			if v == nil {
				v = x
			} else if x != v {
				v = Ite(restrict(e.st.g, g), x, v)
			}
		}
		out[p] = v
	}
	return out
}

func (fr *Frame) exec(b *ssa.BasicBlock, st State) []Edge {
	en := fr.en
	for _, in := range b.Instrs {
		if st.g == False {
			return nil
		}
		en.instrs++
		if len(st.mem.m) > 256 && st.g == True && fr.parent == nil && fr.fn.Synthetic == "package initializer" {
			st.mem = st.mem.freeze()
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := fr.get(st, in.Cond)
			gt, gf := And(st.g, c), And(st.g, Not(c))
			if fr.conds != nil {
				switch {
				case gf == False:
					fr.conds[in] = 1
				case gt == False:
					fr.conds[in] = 2
				default:
					fr.conds[in] = 3
				}
			}
			return []Edge{{b, b.Succs[0], st.with(gt)}, {b, b.Succs[1], st.with(gf)}}
		case *ssa.Jump:
			return []Edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			vals := make([]*Term, len(in.Results))
			for i, r := range in.Results {
				vals[i] = deepRestrict(fr.get(st, r), st.g)
			}
			fr.rets = append(fr.rets, retRec{st.g, vals, st.mem, in.Pos()})
			return nil
		case *ssa.Panic:
			en.event(fr, &Event{Kind: "ob", Rule: "explicit panic", Guard: st.g, Unsafe: st.g, Instr: in})
			return nil
		default:
			st = fr.instr(st, in)
		}
	}
	return nil
}

func (fr *Frame) set(v ssa.Value, t *Term) {
	fr.env[v] = t
}

func (fr *Frame) instr(st State, in ssa.Instruction) State {
	en := fr.en
	switch in := in.(type) {
	case *ssa.Alloc:
		T := deref(in.Type())
		p := fr.newObj(in, "", T, zeroOf(T), &st)
		if !in.Heap {
			fr.locals = append(fr.locals, p.A[0])
		}
		fr.set(in, p)
	case *ssa.BinOp:
		fr.set(in, fr.binop(st, in, in.Op, fr.get(st, in.X), fr.get(st, in.Y), in.X.Type(), in.Y.Type()))
	case *ssa.UnOp:
		x := fr.get(st, in.X)
		switch in.Op {
		case token.MUL:
			T := in.Type()
			if c, ok := in.X.(*ssa.SliceToArrayPointer); ok {
				// array(slice): a copy of the first elements
				at := T.Underlying().(*types.Array)
				if n := at.Len(); n <= 64 {
					sl := fr.get(st, c.X)
					fr.ob(st, in, "slice to array: length out of range", Le(Num(n), Len(sl)))
					arr := Arr(T, zeroOf(at.Elem()))
					for i := int64(0); i < n; i++ {
						arr = ArrSet(arr, Num(i), en.load(st, en.sliceElem(sl, Num(i), at.Elem()), at.Elem()))
					}
					fr.set(in, arr)
					break
				}
			}
			fr.ob(st, in, "nil pointer dereference", fr.nonNilPtr(x))
			fr.set(in, en.load(st, x, T))
		case token.SUB:
			fr.set(in, wrapInt(in.Type(), Neg(x)))
		case token.NOT:
			fr.set(in, Not(x))
		case token.XOR:
			fr.set(in, wrapInt(in.Type(), Sub(Num(-1), x)))
		case token.ARROW:
			en.event(fr, &Event{Kind: "chan", Guard: st.g, Instr: in, Rule: "channel receive"})
			T := in.Type()
			fr.set(in, en.opaque(fr.uniq("recv", in), T))
		default:
			panic("unop " + in.Op.String())
		}
	case *ssa.Store:
		p := fr.get(st, in.Addr)
		v := fr.get(st, in.Val)
		fr.ob(st, in, "nil pointer dereference", fr.nonNilPtr(p))
		en.event(fr, &Event{Kind: "store", Guard: st.g, Instr: in, Ptr: p, Val: v, Mem: st.mem})
		if p.Op == OpPtr && len(p.A) >= 2 && en.isBig(p.A[0]) {
			en.bigArr[p.A[0]] = append(en.bigArr[p.A[0]], &Event{Kind: "store", Guard: st.g, Instr: in, Ptr: p, Val: v, Fn: fr.fn})
			return st
		}
		return en.store(st, p, v, in.Val.Type())
	case *ssa.FieldAddr:
		x := fr.get(st, in.X)
		fr.ob(st, in, "nil pointer dereference", fr.nonNilPtr(x))
		T := deref(in.X.Type())
		fr.set(in, lift1(func(p *Term) *Term {
			if p.Op == OpNil {
				return Nil
			}
			o, path := en.address(p, T)
			return Ptr(o, append(append([]*Term{}, path...), Field(in.Field))...)
		}, x))
	case *ssa.Field:
		fr.set(in, deepRestrict(fieldOf(in.X.Type(), fr.get(st, in.X), in.Field), st.g))
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(st, in))
	case *ssa.Index:
		x, i := fr.get(st, in.X), fr.get(st, in.Index)
		var n *Term
		if a, ok := in.X.Type().Underlying().(*types.Array); ok {
			n = Num(a.Len())
		} else {
			n = Len(x)
		}
		fr.ob(st, in, "index out of range", And(Ge0(i), Lt(i, n)))
		fr.set(in, App("sel", in.Type(), x, i))
	case *ssa.Lookup:
		x, k := fr.get(st, in.X), fr.get(st, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			fr.ob(st, in, "index out of range", And(Ge0(k), Lt(k, Len(x))))
			fr.set(in, App("sel", in.Type(), x, k))
			break
		}
		VT := in.X.Type().Underlying().(*types.Map).Elem()
		m := fr.mapContent(st, x, in.X.Type())
		v := App("mapget", VT, m, k, zeroOf(VT))
		v = deepRestrict(v, st.g)
		if in.CommaOk {
			fr.set(in, Tuple(v, restrict(App("maphas", tBool, m, k), st.g)))
		} else {
			fr.set(in, v)
		}
	case *ssa.MapUpdate:
		x, k, v := fr.get(st, in.Map), fr.get(st, in.Key), fr.get(st, in.Value)
		fr.ob(st, in, "write to nil map", Not(IsNilT(x)))
		en.event(fr, &Event{Kind: "mapupdate", Guard: st.g, Instr: in, Ptr: x, Args: []*Term{k, v}, Val: v, Mem: st.mem})
		return fr.mapStore(st, x, in.Map.Type(), k, v)
	case *ssa.MakeMap:
		p := fr.newObj(in, "", in.Type(), Map0(in.Type()), &st)
		fr.set(in, p)
	case *ssa.MakeSlice:
		n, c := fr.get(st, in.Len), fr.get(st, in.Cap)
		fr.ob(st, in, "make: length out of range", And(Ge0(n), Le(n, c)))
		ET := elemType(in.Type())
		en.event(fr, &Event{Kind: "alloc", Guard: st.g, Instr: in, Args: []*Term{n, c}, Rule: "make", Val: Num(sizeof(ET))})
		AT := types.NewArray(ET, 1<<40)
		p := fr.newObj(in, "", AT, Arr(AT, zeroOf(ET)), &st)
		fr.set(in, Slice(p, Zero, n, c))
	case *ssa.MakeChan:
		fr.set(in, fr.newObj(in, "", types.Typ[types.Int], Zero, &st))
	case *ssa.MakeClosure:
		bs := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = fr.get(st, b)
		}
		fr.set(in, lift(func(as []*Term) *Term { return Closure(in.Fn, as...) }, bs...))
	case *ssa.MakeInterface:
		x := fr.get(st, in.X)
		fr.set(in, Iface(in.X.Type(), x))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(st, in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(st, in.X))
	case *ssa.Convert:
		var t *Term
		t, st = fr.convert(st, in)
		fr.set(in, t)
	case *ssa.MultiConvert:
		fr.set(in, en.opaque(fr.uniq("mconv", in), in.Type(), fr.get(st, in.X)))
	case *ssa.SliceToArrayPointer:
		fr.set(in, lift1(func(s *Term) *Term {
			if s.Op == OpSlice && s.A[0].Op == OpPtr && s.A[1] == Zero {
				return s.A[0]
			}
			return App("s2ap", in.Type(), s)
		}, fr.get(st, in.X)))
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(st, in))
	case *ssa.Extract:
		t := fr.get(st, in.Tuple)
		i := in.Index
		T := in.Type()
		fr.set(in, lift1(func(t *Term) *Term {
			if t.Op == OpTuple {
				return t.A[i]
			}
			return App(fmt.Sprintf("ext.%d", i), T, t)
		}, t))
	case *ssa.Slice:
		var t *Term
		t, st = fr.slice(st, in)
		fr.set(in, t)
	case *ssa.Range:
		x := fr.get(st, in.X)
		if b, ok := in.X.Type().Underlying().(*types.Map); ok {
			_ = b
			en.event(fr, &Event{Kind: "maprange", Guard: st.g, Instr: in, Rule: "iteration over a map"})
			fr.set(in, App("mapiter:"+fr.uniq("", in), nil, x))
		} else {
			fr.set(in, App("striter", nil, x))
		}
	case *ssa.Next:
		fr.set(in, fr.next(st, in))
	case *ssa.Call:
		r, st2 := fr.call(st, in, &in.Call)
		fr.set(in, r)
		return st2
	case *ssa.Go:
		en.event(fr, &Event{Kind: "go", Guard: st.g, Instr: in, Rule: "go statement"})
		// the goroutine body may run at any time: analyse it for its own obligations
		_, st2 := fr.call(st, in, &in.Call)
		return State{st.g, st2.mem, st.loc}
	case *ssa.Defer:
		d := deferRec{g: st.g, common: &in.Call, instr: in}
		if in.Call.IsInvoke() {
			d.fnv = fr.get(st, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			d.fnv = fr.get(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, fr.get(st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			g := And(st.g, d.g)
			if g == False {
				continue
			}
			_, st2 := fr.callWith(State{g, st.mem, st.loc}, d.instr, d.common, d.fnv, d.args)
			rest := And(st.g, Not(d.g))
			if rest == False {
				st = st2
			} else {
				st = en.mergeStates([]State{st2, {rest, st.mem, st.loc}})
			}
		}
	case *ssa.Send:
		en.event(fr, &Event{Kind: "chan", Guard: st.g, Instr: in, Rule: "channel send"})
	case *ssa.Select:
		en.event(fr, &Event{Kind: "chan", Guard: st.g, Instr: in, Rule: "select"})
		fr.set(in, en.opaque(fr.uniq("select", in), in.Type()))
	default:
		panic(fmt.Sprintf("unsupported instruction %T", in))
	}
	return st
}

func sizeof(T types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(T)
}

func (en *Engine) isBig(o *Term) bool {
	T := en.objType[o]
	if T == nil {
		return false
	}
	a, ok := T.Underlying().(*types.Array)
	return ok && a.Len() > 256 && a.Len() < 1<<30
}

func (fr *Frame) uniq(p string, in ssa.Instruction) string {
	name := ""
	if v, ok := in.(ssa.Value); ok {
		name = v.Name()
	} else {
		name = fmt.Sprintf("b%d", in.Block().Index)
	}
	return fmt.Sprintf("%s@%s.%s%s", p, fr.fn.Name(), name, fr.ctx+fr.unrolls)
}

func (fr *Frame) ks() []*Term {
	ks := make([]*Term, len(fr.outer))
	for i, l := range fr.outer {
		ks[i] = l.K
	}
	return ks
}

// newObj allocates an object at this site; inside loops the site denotes a
// family indexed by the iteration symbols.
func (fr *Frame) newObj(in ssa.Instruction, suffix string, T types.Type, zero *Term, st *State) *Term {
	name := "a:" + fr.uniq("", in) + suffix
	o := Obj(name)
	ks := fr.ks()
	fr.en.objType[o] = familyType(T, len(ks))
	p := Ptr(o, ks...)
	m := st.mem.clone()
	if len(ks) == 0 && fr.en.isBig(o) {
		zero = appRaw("bigarr:"+name, T)
	}
	if len(ks) == 0 {
		m.m[o] = zero
	} else {
		old, ok := m.get(o)
		if !ok {
			old = appRaw("unalloc:"+name, nil)
		}
		m.m[o] = fr.en.writePath(fr.en.objType[o], old, ks, zero)
	}
	st.mem = m
	return p
}

func (fr *Frame) nonNilPtr(p *Term) *Term { return Not(IsNilT(p)) }

func (fr *Frame) indexAddr(st State, in *ssa.IndexAddr) *Term {
	en := fr.en
	x, i := fr.get(st, in.X), fr.get(st, in.Index)
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		fr.ob(st, in, "nil pointer dereference", fr.nonNilPtr(x))
		fr.ob(st, in, "index out of range", And(Ge0(i), Lt(i, Num(at.Len()))))
		return lift(func(as []*Term) *Term {
			if as[0].Op == OpNil {
				return Nil
			}
			o, path := en.address(as[0], pt.Elem())
			return Ptr(o, append(append([]*Term{}, path...), as[1])...)
		}, x, i)
	}
	if p, ok := en.pixelByte(x, i); p != nil {
		fr.ob(st, in, "index out of range", ok)
		return p
	}
	fr.ob(st, in, "index out of range", And(Ge0(i), Lt(i, Len(x))))
	return en.sliceElem(x, i, elemType(in.X.Type()))
}

func (en *Engine) sliceElem(x, i *Term, ET types.Type) *Term {
	return lift(func(as []*Term) *Term {
		s, i := as[0], as[1]
		if s.Op == OpSlice {
			p := s.A[0]
			idx := Add(s.A[1], i)
			if p.Op == OpPtr {
				return Ptr(p.A[0], append(append([]*Term{}, p.A[1:]...), idx)...)
			}
			o := en.elemsObj(p, ET)
			return Ptr(o, idx)
		}
		if s.Op == OpNil {
			return Nil
		}
		return Ptr(en.elemsObj(s, ET), i)
	}, x, i)
}

// sliceContent returns the array term behind a slice and the offset of its first element.
func (en *Engine) sliceContent(mem *Mem, s *Term, ET types.Type) (arr, off *Term) {
	if s.Op == OpSlice {
		p := s.A[0]
		if p.Op == OpPtr {
			c := en.content(mem, p.A[0])
			v, _ := en.readPath(en.objType[p.A[0]], c, p.A[1:])
			return v, s.A[1]
		}
		return en.content(mem, en.elemsObj(p, ET)), s.A[1]
	}
	return en.content(mem, en.elemsObj(s, ET)), Zero
}

func (fr *Frame) mapContent(st State, x *Term, MT types.Type) *Term {
	en := fr.en
	return lift1(func(p *Term) *Term {
		if p.Op == OpNil {
			return Map0(MT)
		}
		if p.Op == OpPtr {
			c := en.content(st.mem, p.A[0])
			v, _ := en.readPath(en.objType[p.A[0]], c, p.A[1:])
			return deepRestrict(v, st.g)
		}
		o := en.derefObj(p, MT)
		return en.content(st.mem, o)
	}, x)
}

func (fr *Frame) mapStore(st State, x *Term, MT types.Type, k, v *Term) State {
	en := fr.en
	m := st.mem.clone()
	var rec func(c, p *Term)
	rec = func(c, p *Term) {
		if p.Op == OpIte {
			a := typed(p.A[0])
			rec(And(c, a), p.A[1])
			rec(And(c, Not(a)), p.A[2])
			return
		}
		if c == False || p.Op == OpNil {
			return
		}
		var o *Term
		var path []*Term
		if p.Op == OpPtr {
			o, path = p.A[0], p.A[1:]
		} else {
			o = en.derefObj(p, MT)
		}
		oc := en.content(m, o)
		old, _ := en.readPath(en.objType[o], oc, path)
		nw := mergeContent(c, MapSet(old, k, v), old)
		m.m[o] = en.writePath(en.objType[o], oc, path, nw)
	}
	rec(True, x)
	return State{st.g, m, st.loc}
}

func (fr *Frame) next(st State, in *ssa.Next) *Term {
	it := fr.get(st, in.Iter)
	tp := in.Type().(*types.Tuple)
	all := in.IsString
	lift1(func(x *Term) *Term { all = all && x.app("striter"); return Zero }, it)
	if !all {
		if len(fr.outer) > 0 {
			return fr.en.opaque(fr.uniq("next", in), tp, fr.ks()...)
		}
		return fr.en.opaque(fr.uniq("next", in), tp)
	}
	var k *Term
	if fr.unrollK != nil {
		k = fr.unrollK
	} else if len(fr.outer) > 0 {
		k = fr.outer[len(fr.outer)-1].K
	} else {
		k = Zero
	}
	get := func(f func(s *Term) *Term) *Term {
		return lift1(func(x *Term) *Term { return f(x.A[0]) }, it)
	}
	ok := Lt(k, get(func(s *Term) *Term { return App("rng.count", tInt, s) }))
	return Tuple(ok, get(func(s *Term) *Term { return App("rng.idx", tInt, s, k) }), get(func(s *Term) *Term { return App("rng.rune", types.Typ[types.Rune], s, k) }))
}

func (fr *Frame) typeAssert(st State, in *ssa.TypeAssert) *Term {
	x := fr.get(st, in.X)
	T := in.AssertedType
	_, toIface := T.Underlying().(*types.Interface)
	val := lift1(func(x *Term) *Term {
		if x.Op == OpIface {
			if toIface {
				if types.AssignableTo(x.T, T) {
					return Tuple(x, True)
				}
				return Tuple(Nil, False)
			}
			if types.Identical(x.T, T) {
				return Tuple(x.A[0], True)
			}
			return Tuple(zeroOf(T), False)
		}
		if x.Op == OpNil {
			return Tuple(zeroOf(T), False)
		}
		ok := App("istype:"+types.TypeString(T, nil), tBool, x)
		if toIface {
			return Tuple(Ite(ok, x, Nil), ok)
		}
		return Tuple(Ite(ok, App("asserted:"+types.TypeString(T, nil), T, x), zeroOf(T)), ok)
	}, x)
	get := func(i int) *Term {
		return lift1(func(t *Term) *Term { return t.A[i] }, val)
	}
	if in.CommaOk {
		return Tuple(get(0), get(1))
	}
	fr.ob(st, in, "type assertion", get(1))
	return restrict(get(0), get(1))
}

func (fr *Frame) slice(st State, in *ssa.Slice) (*Term, State) {
	en := fr.en
	x := fr.get(st, in.X)
	lo := Zero
	if in.Low != nil {
		lo = fr.get(st, in.Low)
	}
	var hi, mx *Term
	if in.High != nil {
		hi = fr.get(st, in.High)
	}
	if in.Max != nil {
		mx = fr.get(st, in.Max)
	}
	XT := in.X.Type().Underlying()
	if _, ok := XT.(*types.Basic); ok { // string
		if hi == nil {
			hi = Len(x)
		}
		fr.ob(st, in, "slice bounds out of range", AndN(Ge0(lo), Le(lo, hi), Le(hi, Len(x))))
		return App("substr", in.Type(), x, lo, hi), st
	}
	if pt, ok := XT.(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := Num(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		fr.ob(st, in, "slice bounds out of range", AndN(Ge0(lo), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return lift1(func(p *Term) *Term {
			if p.Op == OpNil {
				return Nil
			}
			o, path := en.address(p, pt.Elem())
			return Slice(Ptr(o, path...), lo, Sub(hi, lo), Sub(mx, lo))
		}, x), st
	}
	if hi == nil {
		hi = Len(x)
	}
	cp := App("cap", tInt, x)
	m := cp
	if mx != nil {
		m = mx
	}
	fr.ob(st, in, "slice bounds out of range", AndN(Ge0(lo), Le(lo, hi), Le(hi, m), Le(m, cp)))
	return lift1(func(s *Term) *Term {
		switch s.Op {
		case OpSlice:
			mm := s.A[3]
			if mx != nil {
				mm = mx
			}
			return Slice(s.A[0], Add(s.A[1], lo), Sub(hi, lo), Sub(mm, lo))
		case OpNil:
			return Nil
		}
		mm := App("cap", tInt, s)
		if mx != nil {
			mm = mx
		}
		if lo == Zero && hi == Len(s) {
			return s
		}
		return Slice(s, lo, Sub(hi, lo), Sub(mm, lo))
	}, x), st
}

// ---------------------------------------------------------------- arithmetic

func isFloat(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// wrapInt reduces an exact integer result to the machine type where the range is not known to fit.
// Arithmetic in int and int64 is taken as exact (assumption A-int).
func wrapInt(T types.Type, t *Term) *Term {
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return t
	}
	return lift1(func(t *Term) *Term {
		r := rangeOf(t)
		fits := func(w rng) bool {
			return r.lo != nil && r.hi != nil && w.lo != nil && w.hi != nil && r.lo.Cmp(w.lo) >= 0 && r.hi.Cmp(w.hi) <= 0
		}
		switch b.Kind() {
		case types.Uint8:
			if fits(ri(0, 255)) {
				return t
			}
			return Bits(t, 0, 8)
		case types.Uint16:
			if fits(ri(0, 65535)) {
				return t
			}
			return Bits(t, 0, 16)
		case types.Uint32:
			if fits(typeRange(T)) {
				return t
			}
			return Bits(t, 0, 32)
		case types.Uint, types.Uint64, types.Uintptr:
			if r.lo != nil && r.lo.Sign() >= 0 {
				return t
			}
			if t.isNum() {
				return Bits(t, 0, 64)
			}
			return Ite(Ge0(t), t, Add(t, pow2(64)))
		case types.Int8, types.Int16, types.Int32:
			if fits(typeRange(T)) {
				return t
			}
			if t.Op == OpSym || t.Op == OpApp {
				if fitsType(t.T, b.Kind()) {
					return t
				}
			}
			return App("wrap:"+b.Name(), T, t)
		}
		return t
	}, t)
}

func fitsType(T types.Type, k types.BasicKind) bool {
	if T == nil {
		return false
	}
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// eqOf is Go's == on values of type T.
func eqOf(T types.Type, x, y *Term) *Term {
	switch {
	case isFloat(T):
		if x == y {
			return Not(IsNaN(x))
		}
		return FEq0(Sub(x, y))
	case isInt(T):
		return EqInt(x, y)
	case kindOf(T) == KBool:
		return Ite(x, y, Not(y))
	}
	switch u := T.Underlying().(type) {
	case *types.Array:
		if u.Len() <= 64 {
			r := True
			for i := int64(0); i < u.Len() && r != False; i++ {
				sel := func(a *Term) *Term {
					return lift1(func(a *Term) *Term { return selL(u.Elem(), a, Num(i)) }, a)
				}
				r = And(r, eqOf(u.Elem(), sel(x), sel(y)))
			}
			return r
		}
	case *types.Struct:
		r := True
		for i := 0; i < u.NumFields() && r != False; i++ {
			if u.Field(i).Name() != "_" {
				r = And(r, eqOf(u.Field(i).Type(), fieldOf(T, x, i), fieldOf(T, y, i)))
			}
		}
		return r
	}
	return eqAny(x, y)
}

func (fr *Frame) binop(st State, in ssa.Instruction, op token.Token, x, y *Term, XT, YT types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ:
		r := eqOf(XT, x, y)
		r = restrict(r, st.g)
		if op == token.NEQ {
			return Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		switch {
		case isFloat(XT):
			if op == token.LSS {
				return FLt0(Sub(x, y))
			}
			if x == y {
				return Not(IsNaN(x))
			}
			return FLe0(Sub(x, y))
		case isInt(XT):
			if op == token.LSS {
				return Lt(x, y)
			}
			return Le(x, y)
		}
		if op == token.LSS {
			return App("strlt", tBool, x, y)
		}
		return Not(App("strlt", tBool, y, x))
	}
	if isStr(XT) && op == token.ADD {
		return App("concat", tStr, x, y)
	}
	if kindOf(XT) == KBool {
		switch op {
		case token.AND:
			return And(x, y)
		case token.OR:
			return Or(x, y)
		case token.XOR:
			return Ite(x, Not(y), y)
		}
	}
	if isFloat(XT) {
		switch op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return Mul(x, y)
		case token.QUO:
			return Div(x, y)
		}
	}
	var r *Term
	switch op {
	case token.ADD:
		r = Add(x, y)
	case token.SUB:
		r = Sub(x, y)
	case token.MUL:
		r = Mul(x, y)
	case token.QUO, token.REM:
		fr.ob(st, in, "integer division by zero", Not(Eq0(y)))
		if op == token.QUO {
			r = Quo(x, y)
		} else {
			r = Rem(x, y)
		}
	case token.AND:
		r = BitAnd(x, y)
	case token.OR:
		r = BitOr(x, y)
	case token.XOR:
		r = BitXor(x, y)
	case token.AND_NOT:
		if y.isNum() {
			r = Sub(x, BitAnd(x, y))
		} else {
			r = Sub(x, BitAnd(x, y))
		}
	case token.SHL:
		fr.ob(st, in, "negative shift amount", Ge0(y))
		r = Shl(x, y)
	case token.SHR:
		fr.ob(st, in, "negative shift amount", Ge0(y))
		r = Shr(x, y)
	default:
		panic("binop " + op.String())
	}
	return wrapInt(XT, r)
}

func (fr *Frame) convert(st State, in *ssa.Convert) (*Term, State) {
	x := fr.get(st, in.X)
	from, to := in.X.Type(), in.Type()
	switch {
	case isInt(from) && isInt(to):
		return wrapInt(to, x), st
	case isInt(from) && isFloat(to):
		return x, st
	case isFloat(from) && isInt(to):
		fr.en.event(fr, &Event{Kind: "f2i", Guard: st.g, Instr: in, Args: []*Term{x}, Rule: to.Underlying().String()})
		b := to.Underlying().(*types.Basic)
		name := "trunc"
		if b.Kind() != types.Int && b.Kind() != types.Int64 {
			name = "trunc:" + b.Name()
		}
		return App(name, to, x), st
	case isFloat(from) && isFloat(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if fb.Kind() == types.Float64 && tb.Kind() == types.Float32 {
			return App("f32", to, x), st
		}
		return x, st
	case isStr(from) && isStr(to):
		return x, st
	case isStr(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			arr, off := fr.en.sliceContentG(st.mem, x, s.Elem())
			return App("bytes2str", to, arr, off, Len(x)), st
		}
		return App("rune2str", to, x), st
	case isStr(from):
		if _, ok := to.Underlying().(*types.Slice); ok {
			AT := types.NewArray(elemType(to), 1<<40)
			c, n := App("str2bytes", nil, x), Len(x)
			if b, ok := elemType(to).Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				c, n = App("str2runes", nil, x), App("rng.count", tInt, x)
			}
			p := fr.newObj(in, "", AT, c, &st)
			return Slice(p, Zero, n, n), st
		}
	}
	return App("conv:"+types.TypeString(to, nil), to, x), st
}

func (en *Engine) sliceContentG(mem *Mem, s *Term, ET types.Type) (arr, off *Term) {
	if s.Op == OpIte {
		a1, o1 := en.sliceContentG(mem, s.A[1], ET)
		a2, o2 := en.sliceContentG(mem, s.A[2], ET)
		c := typed(s.A[0])
		return mergeContent(c, a1, a2), Ite(c, o1, o2)
	}
	return en.sliceContent(mem, s, ET)
}
