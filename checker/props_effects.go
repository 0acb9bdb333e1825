package main

// Effects: writes to shared memory, writes to arguments, and sources of
// results other than the arguments.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memRoots lists the objects a pointer, slice, map or function value may refer to.
func memRoots(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OpIte:
			rec(t.A[1])
			rec(t.A[2])
		case OpIface, OpSlice:
			rec(t.A[0])
		case OpPtr:
			out = append(out, t.A[0])
		case OpClosure:
			for _, a := range t.A {
				rec(a)
			}
		case OpNil, OpFunc, OpNum:
		default:
			out = append(out, t)
		}
	}
	rec(t)
	return out
}

// shared tells whether an object existed before the operation started.
type sharing func(en *Engine, o *Term) (string, bool)

// sharedGlobal: package-level variables and what initialisation allocated.
func sharedGlobal(en *Engine, o *Term) (string, bool) {
	if o.Op == OpObj && strings.HasPrefix(o.S, "g:") {
		return "the package variable " + o.S[2:], true
	}
	if _, ok := en.base[o]; ok {
		return "memory that is shared since initialisation (" + show(o, 3) + ")", true
	}
	if mentions(o, func(x *Term) bool { return x.Op == OpObj && strings.HasPrefix(x.S, "g:") }) && !isFresh(o) {
		return "memory reached from a package variable (" + show(o, 5) + ")", true
	}
	return "", false
}

// sharedAny: everything the operation has not allocated itself.
func sharedAny(en *Engine, o *Term) (string, bool) {
	if w, ok := sharedGlobal(en, o); ok {
		return w, true
	}
	if isFresh(o) || (o.Op == OpObj && (hasPrefixAny(o.S, "canvas:") || o.S == "elems" && o.A[0].app("pix"))) {
		return "", false
	}
	return "memory of an argument (" + show(o, 5) + ")", true
}

// calls that do not write through their arguments
var noWrite = append([]string{"(*strings.Replacer)", "(*regexp.", "regexp.", "(*time.Location)", "sort.Search", "unicode/utf8.", "image/png.", "(*image/png.",
	"invoke:error.", "invoke:fmt.", "invoke:image", "(*image.", "image.", "bufio.New", "compress/bzip2.New", "archive/tar.New", "io.MultiReader", "io.LimitReader", "io.TeeReader", "dynamic",
	"slices.Contains", "slices.Index", "slices.Max", "slices.Min", "slices.Equal", "slices.Clone", "maps.Clone", "fmt.Append", "print"}, readOnlyPrefix...)

// streams are consumed, which is what readers are for; buffers they fill are checked
var consumes = []string{"(*bufio.Reader).", "io.Read", "io.Copy", "io/ioutil.ReadAll", "invoke:io.", "(*archive/tar.Reader).", "(*os.File)."}

func (c *Ctx) effects(en *Engine, name string, isShared sharing, rule string) int {
	n := 0
	flag := func(e *Event, t *Term, what string) {
		n++
		for _, o := range memRoots(t) {
			w, bad := isShared(en, o)
			if e.Guard == False {
				bad = false
			}
			c.ok(!bad, rule, what+" in "+fnName(e.Fn)+" ("+name+")", c.pos(e.Pos), "it writes to %s", w)
		}
	}
	for _, e := range en.events {
		switch e.Kind {
		case "store":
			flag(e, e.Ptr, "write")
		case "mapupdate":
			flag(e, e.Ptr, "map update")
		case "append":
			if e.Args[0].Op != OpNil && Len(e.Args[0]) != Zero {
				for _, o := range memRoots(e.Args[0]) {
					if w, bad := isShared(en, o); bad && !capped(e.Args[0]) && !mentions(o, func(x *Term) bool { return x.appPrefix("carry:") }) {
						c.ok(e.Guard == False, rule, "append in "+fnName(e.Fn)+" ("+name+")", c.pos(e.Pos), "it may write to the spare capacity of %s", w)
					}
				}
			}
		case "sort":
			flag(e, e.Args[0], "sort")
		case "call":
			if hasPrefixAny(e.Callee, noWrite...) || e.Rule == "pure" || e.Callee == "" {
				continue
			}
			args := e.Args
			if hasPrefixAny(e.Callee, consumes...) && len(args) > 0 {
				args = args[1:]
			}
			for _, a := range args {
				if a == nil {
					continue
				}
				if pointerLike(a) {
					flag(e, a, "call of "+e.Callee)
				}
			}
		case "go":
			c.ok(e.Guard == False, "no goroutines are started", "go statement in "+fnName(e.Fn)+" ("+name+")", c.pos(e.Pos), "it starts a goroutine")
		}
	}
	return n
}

func capped(s *Term) bool { return s.Op == OpSlice && len(s.A) > 3 && s.A[3] == s.A[2] }

func pointerLike(t *Term) bool {
	switch t.Op {
	case OpIte:
		return pointerLike(t.A[1]) || pointerLike(t.A[2])
	case OpPtr, OpSlice, OpClosure:
		return true
	case OpIface:
		return pointerLike(t.A[0])
	}
	return false
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.Name()
}

func isParser(f *ssa.Function) bool {
	return f.Name() == "NewComposite" || f.Name() == "NewComposites"
}

// operations analyses every exported function other than the parsers, and the
// colour functions of vis.
func (c *Ctx) operations() *Drv {
	en := c.engine(libPath, visPath)
	d := c.drv(en)
	for _, pkg := range []*ssa.Package{c.r.lib, c.r.vis} {
		for _, f := range exported(c.r, pkg) {
			if !isParser(f) {
				d.enter(f)
			}
		}
		// package variables that hold functions
		for _, name := range sortedMembers(pkg) {
			g, ok := pkg.Members[name].(*ssa.Global)
			if !ok {
				continue
			}
			sig, ok := deref(g.Type()).Underlying().(*types.Signature)
			if !ok {
				continue
			}
			f := en.load(d.start(), en.globalPtr(g), deref(g.Type()))
			if f.Op != OpClosure && f.Op != OpFunc {
				continue
			}
			d.n++
			var as []*Term
			for i := 0; i < sig.Params().Len(); i++ {
				as = append(as, d.arg(fmt.Sprintf("%s.%d.arg%d", name, d.n, i), sig.Params().At(i).Type()))
			}
			d.callClosure(f, as, d.start(), fmt.Sprintf("|e%d", d.n))
		}
	}
	return d
}

// ---------------------------------------------------------------- sources

// library members whose result is not determined by their arguments
var impure = map[string]string{
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.After": "the clock", "time.Tick": "the clock",
	"time.AfterFunc": "the clock", "time.NewTimer": "the clock", "time.NewTicker": "the clock", "time.Sleep": "the clock",
	"time.Local": "the local time zone", "time.LoadLocation": "the time zone database", "time.Unix": "the local time zone",
	"time.UnixMilli": "the local time zone", "time.UnixMicro": "the local time zone", "(time.Time).Local": "the local time zone",
	"fmt.Scan": "standard input", "fmt.Scanf": "standard input", "fmt.Scanln": "standard input",
	"io/ioutil.ReadFile": "the file system", "io/ioutil.ReadDir": "the file system", "io/ioutil.TempFile": "the file system", "io/ioutil.TempDir": "the file system",
}
var impurePkg = map[string]string{
	"os": "process state or the file system", "os/user": "process state", "os/exec": "other processes", "os/signal": "signals", "runtime": "process state", "runtime/debug": "process state", "math/rand": "randomness", "math/rand/v2": "randomness",
	"crypto/rand": "randomness", "net": "the network", "net/http": "the network", "syscall": "process state", "hash/maphash": "randomness", "path/filepath": "the file system",
	"embed": "", "plugin": "process state", "flag": "the command line", "sync/atomic": "shared state", "expvar": "shared state",
}

// inRepo: a function of the repository with a body.
func (c *Ctx) inRepo(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && repoPath(p.Path()) && len(f.Blocks) > 0
}

// reachable visits the instructions of everything reachable from the exported
// operations and the initialisers of the library packages.
func (c *Ctx) reachable(visit func(f *ssa.Function, in ssa.Instruction, at string)) {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, pkg := range []*ssa.Package{c.r.lib, c.r.vis} {
		add(pkg.Func("init"))
		for _, f := range exported(c.r, pkg) {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		c.fns[f.String()] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				at := c.pos(instrPos(in))
				if at == "-" {
					at = c.fpos(f)
				}
				c.instrs++
				if x, ok := in.(*ssa.MakeInterface); ok {
					ms := c.r.prog.MethodSets.MethodSet(x.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if m := c.r.prog.MethodValue(ms.At(i)); m != nil && c.inRepo(m) {
							add(m)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if v, ok := (*op).(*ssa.Function); ok && c.inRepo(v) {
						add(v)
					}
				}
				visit(f, in, at)
			}
		}
	}
}

// sources judges everything reachable as a source of results.
func (c *Ctx) sources() int {
	n := 0
	judge := func(name, pkg, at string, in *ssa.Function) {
		n++
		src, bad := impure[name]
		if !bad && pkg != "" {
			if s, ok := impurePkg[pkg]; ok && s != "" {
				src, bad = s, true
			}
		}
		if name == "os.ErrNotExist" || strings.HasPrefix(name, "os.Err") {
			bad = false
		}
		c.ok(!bad, "results use no source other than the arguments", name+" in "+fnName(in), at, "%s depends on %s", name, src)
	}
	c.reachable(func(f *ssa.Function, in ssa.Instruction, at string) {
		switch x := in.(type) {
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); ok {
				c.ok(false, "results use no source other than the arguments", "range over a map in "+f.Name(), at, "the order of iteration is random")
			}
		case *ssa.Select:
			c.ok(len(x.States) <= 1 && x.Blocking, "results use no source other than the arguments", "select in "+f.Name(), at, "the choice depends on scheduling")
		case *ssa.Go:
			c.ok(false, "results use no source other than the arguments", "go statement in "+f.Name(), at, "the outcome depends on scheduling")
		}
		for _, op := range in.Operands(nil) {
			switch v := (*op).(type) {
			case *ssa.Function:
				if c.inRepo(v) || v.Synthetic == "package initializer" {
					continue
				}
				p := ""
				if fp := fnPkg(v); fp != nil {
					p = fp.Path()
				}
				judge(strings.TrimSuffix(v.String(), "$bound"), p, at, f)
			case *ssa.Global:
				if v.Pkg != nil && !repoPath(v.Pkg.Pkg.Path()) {
					judge(v.Pkg.Pkg.Path()+"."+v.Name(), v.Pkg.Pkg.Path(), at, f)
				}
			}
		}
	})
	return n
}

func init() {
	register("C29", "proof", "effect analysis: the target of every write, map update, sort, buffer fill and append of every exported operation and the parsers is memory allocated by that operation, an argument, or a stream, never a package variable or memory allocated during initialisation; no goroutine is started", func(c *Ctx) {
		const rule = "writes do not target shared memory"
		n := c.effects(c.header().Engine, "parsing the header", sharedGlobal, rule)
		for _, v := range c.data() {
			n += c.effects(v.Engine, "parsing the data, "+v.name, sharedGlobal, rule)
		}
		n += c.effects(c.archive().Engine, "parsing an archive", sharedGlobal, rule)
		d := c.operations()
		n += c.effects(d.Engine, "operations", sharedGlobal, rule)
		c.ok(n >= 20, "a check must have obligations", "writes", "", "only %d found", n)
	})
	register("C30", "proof", "effect analysis: every write, map update, sort, buffer fill and append of every exported operation other than parsing targets memory allocated by that operation", func(c *Ctx) {
		const rule = "writes target memory allocated by the operation"
		d := c.operations()
		n := c.effects(d.Engine, "operations", sharedAny, rule)
		c.ok(n >= 10, "a check must have obligations", "writes", "", "only %d found", n)
	})
	register("C31", "other", "who-may-call rule over everything reachable from the exported operations and the package initialisers: no use of the clock, the local time zone, randomness, the environment, the file system, process state, map iteration order or scheduling", func(c *Ctx) {
		n := c.sources()
		c.ok(n >= 20, "a check must have obligations", "uses of library members", "", "only %d found", n)
	})
}
