package main

// Loading and type-checking of /repo with the build's own flags, and the
// evaluation of the package initialisers.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	libPath = "gitlab.cs.fau.de/since/radolan"
	visPath = libPath + "/radolan2png/vis"
	cmdPath = libPath + "/radolan2png"
)

type Repo struct {
	prog  *ssa.Program
	pkgs  []*packages.Package
	ssa   map[string]*ssa.Package
	lib   *ssa.Package
	vis   *ssa.Package
	cmd   *ssa.Package
	files int
	funcs int
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadRepo() (*Repo, error) {
	tmp, err := os.MkdirTemp("", "radocheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	dir := filepath.Join(tmp, "src", filepath.FromSlash(libPath))
	if err := os.MkdirAll(filepath.Dir(dir), 0o755); err != nil {
		return nil, err
	}
	if err := os.Symlink(repoDir(), dir); err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir,
		Env: append(os.Environ(), "GO111MODULE=off", "GOPATH="+tmp, "GOFLAGS=", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off", "PWD="+dir),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	first := map[string][]byte{}
	for n := 0; n < 3; n++ {
		more := collectedOverlay(ps, first)
		if len(more) == 0 {
			break
		}
		next := map[string][]byte{}
		for n, b := range first {
			next[n] = b
		}
		for n, b := range more {
			next[n] = b
		}
		plain := ps
		cfg.Overlay = next
		if ps, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
		if broken(ps) {
			if os.Getenv("OVERLAY") != "" {
				for _, b := range more {
					fmt.Println("BROKEN", string(b))
				}
			}
			ps = plain
			break
		}
		first = next
	}
	if ov := rangeIntOverlay(ps, first); len(ov) > 0 {
		if os.Getenv("OVERLAY") != "" {
			for n, b := range ov {
				fmt.Println(n)
				fmt.Println(string(b))
			}
		}
		plain := ps
		for n, b := range first {
			if ov[n] == nil {
				ov[n] = b
			}
		}
		cfg.Overlay = ov
		if ps, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
		if broken(ps) && !broken(plain) {
			ps = plain
		}
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if repoPath(p.PkgPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	r := &Repo{prog: prog, ssa: map[string]*ssa.Package{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if repoPath(p.PkgPath) && p.Name != "" {
			r.pkgs = append(r.pkgs, p) // dependency order: post-order visit below
		}
	})
	// imports first
	var order []*packages.Package
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] || !repoPath(p.PkgPath) {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		order = append(order, p)
	}
	for _, p := range r.pkgs {
		visit(p)
	}
	r.pkgs = order
	for _, p := range order {
		r.files += len(p.GoFiles)
		sp := prog.Package(p.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		r.ssa[p.PkgPath] = sp
	}
	r.lib, r.vis, r.cmd = r.ssa[libPath], r.ssa[visPath], r.ssa[cmdPath]
	if r.lib == nil || r.vis == nil || r.cmd == nil {
		return nil, fmt.Errorf("packages of the repository not found below %s", repoDir())
	}
	return r, nil
}

// broken: a package of the repository does not type-check.
func broken(ps []*packages.Package) bool {
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		bad = bad || repoPath(p.PkgPath) && len(p.Errors) > 0
	})
	return bad
}

// rangeIntOverlay writes loops over an integer as counting loops, which is what
// they mean: the SSA form tests them at the bottom.
func rangeIntOverlay(ps []*packages.Package, given map[string][]byte) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	out := map[string][]byte{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !repoPath(p.PkgPath) || p.TypesInfo == nil {
			return
		}
		for _, f := range p.Syntax {
			var es []edit
			name := p.Fset.Position(f.Pos()).Filename
			at := func(q token.Pos) int { return p.Fset.Position(q).Offset }
			done := map[ast.Node]bool{}
			for _, t := range append(append(gridLoops(p, f, done), rowBlocks(p, f)...), flagLoops(p, f)...) {
				es = append(es, edit{at(t.from), at(t.to), t.text})
			}
			ast.Inspect(f, func(n ast.Node) bool {
				r, ok := n.(*ast.RangeStmt)
				if !ok || done[n] {
					return true
				}
				T := p.TypesInfo.TypeOf(r.X)
				if T == nil {
					return true
				}
				if r.Key != nil {
					if k := p.TypesInfo.TypeOf(r.Key); k != nil {
						T = k
					} else if id, ok := r.Key.(*ast.Ident); ok && p.TypesInfo.Defs[id] != nil {
						T = p.TypesInfo.Defs[id].Type()
					}
				}
				if b, ok := p.TypesInfo.TypeOf(r.X).Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				b, ok := types.Default(T).(*types.Basic)
				if !ok {
					return true
				}
				assign := ""
				if id, ok := r.Key.(*ast.Ident); r.Key != nil && (!ok || id.Name != "_") {
					if !ok {
						return true
					}
					assign = id.Name + r.Tok.String() + "verifK;_=" + id.Name + ";"
				}
				es = append(es,
					edit{at(r.For), at(r.X.Pos()), fmt.Sprintf("for verifK,verifN:=%s(0),%s(", b.Name(), b.Name())},
					edit{at(r.X.End()), at(r.X.End()), ");verifK<verifN;verifK++"},
					edit{at(r.Body.Lbrace) + 1, at(r.Body.Lbrace) + 1, assign})
				return true
			})
			for _, t := range tailCalls(p, f) {
				es = append(es, edit{at(t.from), at(t.to), t.text})
			}
			if len(es) == 0 {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			if b := given[name]; b != nil {
				src = b
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
			var w []byte
			pos := 0
			for _, e := range es {
				if e.from < pos || e.to > len(src) {
					w = nil
					break
				}
				w = append(append(w, src[pos:e.from]...), e.text...)
				pos = e.to
			}
			if w != nil {
				out[name] = append(w, src[pos:]...)
			}
		}
	})
	return out
}

type posEdit struct {
	from, to token.Pos
	text     string
}

// tailCalls writes functions that end by calling themselves as loops, which is
// what they mean: the call in the last step gets the same function with new
// arguments and nothing of the caller is needed any more.
func tailCalls(p *packages.Package, f *ast.File) (es []posEdit) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
			continue
		}
		self := p.TypesInfo.Defs[fd.Name]
		if self == nil {
			continue
		}
		plain := true
		var recv types.Object
		if fd.Recv != nil && len(fd.Recv.List) == 1 && len(fd.Recv.List[0].Names) == 1 {
			recv = p.TypesInfo.Defs[fd.Recv.List[0].Names[0]]
		}
		var names, fresh []string
		vars := map[string]types.Object{}
		collect := func(l *ast.FieldList, result bool) {
			if l == nil {
				return
			}
			for _, x := range l.List {
				if _, variadic := x.Type.(*ast.Ellipsis); variadic || (len(x.Names) == 0 && !result) {
					plain = false
				}
				for _, id := range x.Names {
					if id.Name == "_" {
						plain = false
						continue
					}
					vars[id.Name] = p.TypesInfo.Defs[id]
					names = append(names, id.Name)
					if result {
						fresh = append(fresh, "*new("+types.ExprString(x.Type)+")")
					}
				}
			}
		}
		collect(fd.Type.Params, false)
		collect(fd.Type.Results, true)
		void := fd.Type.Results == nil || len(fd.Type.Results.List) == 0
		var calls []posEdit
		tail := func(from token.Pos, e ast.Expr) {
			c, ok := ast.Unparen(e).(*ast.CallExpr)
			if !ok || c != e || len(c.Args)+len(fresh) != len(names) || c.Ellipsis.IsValid() || p.Fset.Position(from).Line != p.Fset.Position(c.End()).Line {
				return
			}
			switch fun := c.Fun.(type) {
			case *ast.Ident:
				if p.TypesInfo.Uses[fun] != self {
					return
				}
			case *ast.SelectorExpr:
				x, ok := fun.X.(*ast.Ident)
				if !ok || p.TypesInfo.Uses[fun.Sel] != self || recv == nil || p.TypesInfo.Uses[x] != recv {
					return
				}
			default:
				return
			}
			for n, o := range vars {
				if _, at := p.Types.Scope().Innermost(from).LookupParent(n, from); at != o {
					return // hidden by another variable of the name
				}
			}
			if len(names) == 0 {
				calls = append(calls, posEdit{from, c.End(), "{continue verifTail}"})
				return
			}
			head := "{" + strings.Join(names, ",") + "="
			last := strings.Join(fresh, ",") + ";continue verifTail}"
			if len(c.Args) == 0 {
				calls = append(calls, posEdit{from, c.End(), head + last})
				return
			}
			if len(fresh) > 0 {
				last = "," + last
			}
			calls = append(calls, posEdit{from, c.Args[0].Pos(), head}, posEdit{c.Args[len(c.Args)-1].End(), c.End(), last})
		}
		list := func(l []ast.Stmt, whole bool) {
			for i, s := range l {
				if x, ok := s.(*ast.ExprStmt); ok && void {
					if i+1 == len(l) && whole {
						tail(s.Pos(), x.X)
					} else if i+1 < len(l) {
						if _, ok := l[i+1].(*ast.ReturnStmt); ok {
							tail(s.Pos(), x.X)
						}
					}
				}
			}
		}
		list(fd.Body.List, true)
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt:
				plain = false
			case *ast.UnaryExpr:
				if x, ok := n.X.(*ast.Ident); ok && n.Op == token.AND && vars[x.Name] != nil {
					plain = false
				}
			case *ast.BlockStmt:
				if n != fd.Body {
					list(n.List, false)
				}
			case *ast.CaseClause:
				list(n.Body, false)
			case *ast.ReturnStmt:
				if len(n.Results) == 1 {
					tail(n.Pos(), n.Results[0])
				}
			}
			return plain
		})
		if !plain || len(calls) == 0 {
			continue
		}
		end := "}"
		if void {
			end = ";return}"
		}
		es = append(es, posEdit{fd.Body.Lbrace + 1, fd.Body.Lbrace + 1, "verifTail:for{"})
		es = append(es, calls...)
		es = append(es, posEdit{fd.Body.Rbrace, fd.Body.Rbrace, end})
	}
	return es
}

// newEngine evaluates the initialisers of the packages named (dependencies
// first) and freezes the globals.
func (r *Repo) engine(paths ...string) *Engine {
	repo := map[*types.Package]bool{}
	for _, p := range r.pkgs {
		repo[p.Types] = true
	}
	en := newEngine(r.prog, repo)
	en.repoInfo = r
	want := map[string]bool{}
	for _, p := range paths {
		want[p] = true
	}
	st := State{g: True, mem: &Mem{base: map[*Term]*Term{}, m: map[*Term]*Term{}}}
	for _, p := range r.pkgs {
		if !want[p.PkgPath] {
			continue
		}
		sp := r.ssa[p.PkgPath]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				o := en.globalObj(g)
				st.mem.m[o] = zeroOf(deref(g.Type()))
			}
		}
		_, st2 := en.callFn(nil, nil, sp.Func("init"), nil, nil, st, "|init:"+p.PkgPath)
		st = State{g: True, mem: st2.mem}
	}
	en.base = st.mem.freeze().base
	en.initEvents = en.events
	en.events = nil
	en.initLoops = en.loops
	return en
}

func (en *Engine) start() State {
	return State{g: True, mem: &Mem{base: en.base, m: map[*Term]*Term{}}}
}
