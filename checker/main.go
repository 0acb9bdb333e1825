package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (r *Repo) fn(pkg *ssa.Package, name string) *ssa.Function {
	if f := pkg.Func(name); f != nil {
		return f
	}
	if i := strings.Index(name, "."); i > 0 {
		if t, ok := pkg.Members[name[:i]].(*ssa.Type); ok {
			for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := r.prog.MethodSets.MethodSet(T)
				for j := 0; j < ms.Len(); j++ {
					if ms.At(j).Obj().Name() == name[i+1:] {
						if f := r.prog.MethodValue(ms.At(j)); f != nil && f.Synthetic == "" {
							return f
						}
					}
				}
			}
		}
	}
	return nil
}

// arg builds the symbolic input of an entry point's parameter.
func (en *Engine) arg(name string, T types.Type) *Term {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		o := Obj("in:" + name)
		en.objType[o] = p.Elem()
		return Ptr(o)
	}
	return Sym(name, T)
}

func dump(r *Repo, name string) {
	t0 := time.Now()
	pkg := r.lib
	paths := []string{libPath}
	if strings.HasPrefix(name, "vis:") {
		pkg, name = r.vis, name[4:]
		paths = []string{visPath}
	}
	if strings.HasPrefix(name, "cmd:") {
		pkg, name = r.cmd, name[4:]
		paths = []string{libPath, visPath, cmdPath}
	}
	en := r.engine(paths...)
	fmt.Println("init", time.Since(t0), "events", len(en.initEvents), "warns", en.warns())
	f := r.fn(pkg, name)
	if f == nil {
		fmt.Println("no such function")
		return
	}
	if os.Getenv("SSA") != "" {
		f.WriteTo(os.Stdout)
	}
	var args []*Term
	for _, p := range f.Params {
		args = append(args, en.arg(p.Name(), p.Type()))
	}
	res, st := en.callFn(nil, nil, f, nil, args, en.start(), "")
	fmt.Println("RES", show(res, 30))
	fmt.Println("G", show(st.g, 30))
	for o, c := range st.mem.m {
		if strings.HasPrefix(o.S, "a:") && os.Getenv("MEM") == "" {
			continue
		}
		fmt.Println("MEM", o, "=", show(c, 30))
	}
	if os.Getenv("EV") != "" {
		for _, e := range en.events {
			fmt.Println("EV", e.Kind, e.Rule, e.Callee, en.pos(e.Pos), "guard", show(e.Guard, 12))
			if e.Kind == "ob" {
				fmt.Println("    unsafe", show(e.Unsafe, 12))
			}
			for _, a := range e.Args {
				fmt.Println("    arg", show(a, 12))
			}
			if e.Ptr != nil {
				fmt.Println("    ptr", show(e.Ptr, 12), "val", e.Val)
			}
		}
	}
	for _, l := range en.loops {
		fmt.Println("LOOP", l.ID, en.pos(l.Pos), "N", l.N, "entry", show(l.EntryG, 8), "cont", show(l.ContG, 8))
		for _, c := range l.Carries {
			fmt.Println("    CARRY", c.Key, "init", show(c.Init, 8), "next", show(c.Next, 12), "solved", c.Solved, "split", len(c.split), "part", c.part)
		}
		for _, x := range l.Exits {
			fmt.Println("    EXIT", x.Counting, "G", show(x.G, 8), "guard", show(x.Guard, 8), "at", x.At)
		}
	}
	fmt.Println("warns", en.warns(), "instrs", en.instrs, time.Since(t0))
}

func main() {
	go watchMemory()
	dd := flag.Bool("data", false, "debug: print the data views")
	d := flag.String("dump", "", "debug: evaluate one function and print its graph")
	ps := flag.String("p", "", "properties to decide (comma separated, or all)")
	tier := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	debug.SetGCPercent(400)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	} else {
		timeLimit, queryLimit, effort = 800*time.Second, 120*time.Second, 8
	}
	r, err := loadRepo()
	if err != nil && *ps == "" {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	if *d != "" {
		for _, n := range strings.Split(*d, ",") {
			dump(r, n)
		}
		return
	}
	if *dd && os.Getenv("CMD") != "" {
		dumpCmd(r)
		return
	}
	if *dd && os.Getenv("ARCH") != "" {
		dumpArch(r)
		return
	}
	if *dd && os.Getenv("OBS") != "" {
		dumpObs(r)
		return
	}
	if *dd && os.Getenv("AT") != "" {
		dumpAt(r)
		return
	}
	if *dd {
		dumpData(r)
		return
	}
	ids := strings.Split(*ps, ",")
	if *ps == "all" {
		ids = nil
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		p := props[id]
		if p == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		if len(ids) > 1 {
			t0 = time.Now()
		}
		var c *Ctx
		if err != nil {
			c = &Ctx{r: &Repo{}, id: id, tier: *tier}
			c.ok(false, "the repository must type-check", "loading of the packages", "", "%v", err)
		} else {
			c = runProp(r, p, *tier)
		}
		if rc := report(p, c, t0); rc > code {
			code = rc
		}
	}
	os.Exit(code)
}
