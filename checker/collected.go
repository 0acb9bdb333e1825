package main

// Source-level normalisation of lists that are collected first and worked
// through afterwards: the loop body is put where the items are collected.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// collected rewrites
//
//	for _, v := range list() { body }      with  func list() (l []T) { ... l = append(l, x) ... ; return }
//	l := []T{}; S; for _, v := range l { body }
//
// into the statements of the list with { v := x; body } in the place of each
// append. The statements of the list must have no effect but the list, and
// nothing the body assigns may matter to them.
func collected(p *packages.Package, f *ast.File, src func(a, b token.Pos) string) (es []posEdit) {
	decls := map[types.Object]*ast.FuncDecl{}
	for _, g := range p.Syntax {
		for _, d := range g.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Body != nil {
				decls[p.TypesInfo.Defs[fd.Name]] = fd
			}
		}
	}
	line := func(q token.Pos) string {
		x := p.Fset.Position(q)
		return fmt.Sprintf("\n//line %s:%d\n", x.Filename, x.Line)
	}
	var until token.Pos // the end of what is rewritten already
	block := func(list []ast.Stmt) {
		for i, s := range list {
			if x, ok := s.(*ast.ExprStmt); ok && x.Pos() >= until {
				if call, ok := x.X.(*ast.CallExpr); ok {
					if text, ok := inlineList(p, f, decls, call, src); ok {
						es = append(es, posEdit{x.Pos(), x.End(), text + line(x.End())})
						until = x.End()
						continue
					}
				}
			}
			r, ok := s.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || r.Value == nil || r.Pos() < until {
				continue
			}
			if k, ok := r.Key.(*ast.Ident); !ok || k.Name != "_" {
				continue
			}
			v, ok := r.Value.(*ast.Ident)
			if !ok || !stays(r.Body) {
				continue
			}
			body := src(r.Body.Lbrace, r.Body.Rbrace+1)
			switch x := ast.Unparen(r.X).(type) {
			case *ast.CallExpr:
				id, ok := x.Fun.(*ast.Ident)
				if !ok || len(x.Args) != 0 || x.Ellipsis.IsValid() {
					continue
				}
				fd := decls[p.TypesInfo.Uses[id]]
				if fd == nil || fd.Type.Params.NumFields() != 0 || fd.Type.Results.NumFields() != 1 || len(fd.Body.List) < 2 {
					continue
				}
				n := len(fd.Body.List)
				ret, ok := fd.Body.List[n-1].(*ast.ReturnStmt)
				if !ok {
					continue
				}
				res := fd.Type.Results.List[0]
				var l *ast.Ident
				switch {
				case len(res.Names) == 1:
					l = res.Names[0]
				default:
					if len(ret.Results) != 1 {
						continue
					}
					if u, ok := ret.Results[0].(*ast.Ident); ok {
						l = defOf(p, fd.Body, u)
					}
				}
				if l == nil || len(ret.Results) == 1 && !names(p, ret.Results[0], l) {
					continue
				}
				T, ok := res.Type.(*ast.ArrayType)
				if !ok || T.Len != nil || p.Fset.Position(fd.Pos()).Filename != p.Fset.Position(f.Pos()).Filename {
					continue
				}
				text, ok := splice(p, fd.Body.List[:n-1], l, v.Name, src(T.Elt.Pos(), T.Elt.End()), body, src)
				if !ok || clash(p, r.Body, fd.Body.List[:n-1], l) {
					continue
				}
				es = append(es, posEdit{r.Pos(), r.End(), "{" + text + "}" + line(r.End())})
				until = r.End()
			case *ast.Ident:
				o := p.TypesInfo.Uses[x]
				if o == nil || i == 0 {
					continue
				}
				// the list is declared before, filled by the statement before and used nowhere else
				d := -1
				var T ast.Expr
				for j := i - 1; j >= 0; j-- {
					if t := declares(p, list[j], o); t != nil {
						d, T = j, t
					}
				}
				if d < 0 || d > i-2 {
					continue
				}
				l := &ast.Ident{Name: x.Name}
				for id, q := range p.TypesInfo.Defs {
					if q == o {
						l = id
					}
				}
				if p.TypesInfo.Defs[l] != o || usedAfter(p, list[i+1:], o) || usesOf(p, r.Body, o) > 0 {
					continue
				}
				text, ok := splice(p, list[d+1:i], l, v.Name, src(T.Pos(), T.End()), body, src)
				if !ok || clash(p, r.Body, list[d+1:i], l) {
					continue
				}
				es = append(es, posEdit{list[d].Pos(), r.End(), "{" + text + "}" + line(r.End())})
				until = r.End()
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		}
		return true
	})
	return es
}

// inlineList writes a call of a function that works through a list passed as
// list() as the body of that function.
func inlineList(p *packages.Package, f *ast.File, decls map[types.Object]*ast.FuncDecl, call *ast.CallExpr, src func(a, b token.Pos) string) (string, bool) {
	id, ok := call.Fun.(*ast.Ident)
	if !ok || call.Ellipsis.IsValid() {
		return "", false
	}
	fd := decls[p.TypesInfo.Uses[id]]
	if fd == nil || fd.Type.Results.NumFields() != 0 || fd.Type.Params.NumFields() != len(call.Args) || len(fd.Body.List) == 0 || !stays(fd.Body) ||
		p.Fset.Position(fd.Pos()).Filename != p.Fset.Position(f.Pos()).Filename {
		return "", false
	}
	r, ok := fd.Body.List[0].(*ast.RangeStmt)
	if !ok {
		return "", false
	}
	l, ok := ast.Unparen(r.X).(*ast.Ident)
	if !ok {
		return "", false
	}
	var before, set, vals []string
	found := ""
	i := 0
	for _, fl := range fd.Type.Params.List {
		if _, variadic := fl.Type.(*ast.Ellipsis); variadic || len(fl.Names) == 0 {
			return "", false
		}
		for _, n := range fl.Names {
			a := call.Args[i]
			o := p.TypesInfo.Defs[n]
			c, isCall := a.(*ast.CallExpr)
			if isCall && len(c.Args) == 0 && o != nil && p.TypesInfo.Uses[l] == o && usesOf(p, fd.Body, o) == 1 {
				if g, ok := c.Fun.(*ast.Ident); ok && decls[p.TypesInfo.Uses[g]] != nil {
					found = src(a.Pos(), a.End())
					i++
					continue
				}
			}
			if n.Name == "_" {
				return "", false
			}
			before = append(before, fmt.Sprintf("var verifA%d %s=%s;", i, src(fl.Type.Pos(), fl.Type.End()), src(a.Pos(), a.End())))
			set = append(set, n.Name)
			vals = append(vals, fmt.Sprintf("verifA%d", i))
			i++
		}
	}
	if found == "" {
		return "", false
	}
	// what the function refers to outside has the same meaning at the call
	sc := p.Types.Scope().Innermost(call.Pos())
	same := sc != nil
	ast.Inspect(fd, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || !same {
			return same
		}
		o := p.TypesInfo.Uses[id]
		if o == nil || o.Pos() >= fd.Type.Pos() && o.Pos() < fd.End() {
			return true
		}
		if v, ok := o.(*types.Var); ok && v.IsField() {
			return true
		}
		if fn, ok := o.(*types.Func); ok && fn.Type().(*types.Signature).Recv() != nil {
			return true
		}
		if _, q := sc.LookupParent(id.Name, call.Pos()); q != o && (o.Pkg() == p.Types || o.Pkg() == nil || isPkgName(o)) {
			same = false
		}
		return same
	})
	if !same {
		return "", false
	}
	text := "{" + strings.Join(before, "")
	if len(set) > 0 {
		text += strings.Join(set, ",") + ":=" + strings.Join(vals, ",") + ";"
		for _, n := range set {
			text += "_=" + n + ";"
		}
	}
	return text + "\n" + src(fd.Body.Lbrace+1, r.X.Pos()) + found + src(r.X.End(), fd.Body.Rbrace+1), true
}

func isPkgName(o types.Object) bool {
	_, ok := o.(*types.PkgName)
	return ok
}

// stays: control does not leave the body in the middle.
func stays(body *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt, *ast.FuncLit, *ast.SelectStmt:
			ok = false
		}
		return ok
	})
	return ok
}

// defOf is the declaration a local variable refers to.
func defOf(p *packages.Package, in ast.Node, u *ast.Ident) (d *ast.Ident) {
	o := p.TypesInfo.Uses[u]
	ast.Inspect(in, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && o != nil && p.TypesInfo.Defs[id] == o {
			d = id
		}
		return true
	})
	return
}

func names(p *packages.Package, e ast.Expr, d *ast.Ident) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	return ok && p.TypesInfo.Defs[d] != nil && p.TypesInfo.Uses[id] == p.TypesInfo.Defs[d]
}

func usesOf(p *packages.Package, n ast.Node, o types.Object) (k int) {
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && p.TypesInfo.Uses[id] == o {
			k++
		}
		return true
	})
	return
}

func usedAfter(p *packages.Package, list []ast.Stmt, o types.Object) bool {
	for _, s := range list {
		if usesOf(p, s, o) > 0 {
			return true
		}
	}
	return false
}

// declares: the statement declares o as an empty list; the element type.
func declares(p *packages.Package, s ast.Stmt, o types.Object) ast.Expr {
	elem := func(t ast.Expr) ast.Expr {
		if a, ok := t.(*ast.ArrayType); ok && a.Len == nil {
			return a.Elt
		}
		return nil
	}
	switch s := s.(type) {
	case *ast.DeclStmt:
		g, ok := s.Decl.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR || len(g.Specs) != 1 {
			return nil
		}
		v, ok := g.Specs[0].(*ast.ValueSpec)
		if !ok || len(v.Names) != 1 || len(v.Values) != 0 || p.TypesInfo.Defs[v.Names[0]] != o {
			return nil
		}
		return elem(v.Type)
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return nil
		}
		if id, ok := s.Lhs[0].(*ast.Ident); !ok || p.TypesInfo.Defs[id] != o {
			return nil
		}
		switch r := s.Rhs[0].(type) {
		case *ast.CompositeLit:
			if len(r.Elts) == 0 && r.Type != nil {
				return elem(r.Type)
			}
		case *ast.CallExpr:
			if id, ok := r.Fun.(*ast.Ident); ok && id.Name == "make" && len(r.Args) >= 2 {
				if tv := p.TypesInfo.Types[r.Args[1]]; tv.Value != nil && tv.Value.String() == "0" && (len(r.Args) == 2 || p.TypesInfo.Types[r.Args[2]].Value != nil && p.TypesInfo.Types[r.Args[2]].Value.String()[0] != '-') {
					return elem(r.Args[0])
				}
			}
		}
	}
	return nil
}

// splice writes the statements that fill the list l with the body in the
// place of each append. It refuses statements that do anything else than fill
// the list and compute with variables of their own.
func splice(p *packages.Package, list []ast.Stmt, l *ast.Ident, v, T, body string, src func(a, b token.Pos) string) (string, bool) {
	if len(list) == 0 {
		return "", false
	}
	o := p.TypesInfo.Defs[l]
	from, to := list[0].Pos(), list[len(list)-1].End()
	own := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return false
		}
		if id.Name == "_" {
			return true
		}
		q := p.TypesInfo.Defs[id]
		if q == nil {
			q = p.TypesInfo.Uses[id]
		}
		return q != nil && q.Pos() >= from && q.Pos() < to && q != o
	}
	ok := true
	n := 0
	var es []posEdit
	ast.Inspect(&ast.BlockStmt{List: list}, func(x ast.Node) bool {
		if !ok || x == nil {
			return false
		}
		switch x := x.(type) {
		case *ast.DeclStmt, *ast.AssignStmt:
			// the declaration of the list itself
			if declares(p, x.(ast.Stmt), o) != nil {
				n++
				es = append(es, posEdit{x.Pos(), x.End(), ""})
				return false
			}
			as, is := x.(*ast.AssignStmt)
			if !is {
				return true
			}
			if len(as.Lhs) == 1 && len(as.Rhs) == 1 && names(p, as.Lhs[0], l) {
				call, is := as.Rhs[0].(*ast.CallExpr)
				if !is || as.Tok != token.ASSIGN || call.Ellipsis.IsValid() || len(call.Args) < 2 || !names(p, call.Args[0], l) {
					ok = false
					return false
				}
				if id, is := call.Fun.(*ast.Ident); !is || id.Name != "append" {
					ok = false
					return false
				}
				text := "{"
				for i, a := range call.Args[1:] {
					if usesOf(p, a, o) > 0 {
						ok = false
					}
					e := src(a.Pos(), a.End())
					if c, is := a.(*ast.CompositeLit); is && c.Type == nil {
						e = T + e
					}
					text += fmt.Sprintf("var verifV%d %s=%s;", i, T, e)
				}
				for i := range call.Args[1:] {
					text += fmt.Sprintf("{%s:=verifV%d;_=%s;%s};", v, i, v, body)
				}
				es = append(es, posEdit{as.Pos(), as.End(), text + "}"})
				n += 2
				for _, a := range call.Args[1:] {
					ok = ok && quiet(p, a)
				}
				return false
			}
			for _, e := range as.Lhs {
				ok = ok && own(e)
			}
		case *ast.IncDecStmt:
			ok = ok && own(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				ok = false
			}
		case *ast.ExprStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt, *ast.FuncLit, *ast.SelectStmt, *ast.SendStmt:
			ok = false
		case *ast.BranchStmt:
			ok = ok && x.Label == nil && x.Tok != token.GOTO
		case *ast.UnaryExpr:
			ok = ok && x.Op != token.ARROW && x.Op != token.AND
		case *ast.CallExpr:
			ok = ok && quiet(p, x)
		case *ast.Ident:
			if p.TypesInfo.Uses[x] == o {
				ok = false
			}
		}
		return ok
	})
	if !ok || n < 2 {
		return "", false
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var w strings.Builder
	pos := from
	for _, e := range es {
		w.WriteString(src(pos, e.from) + e.text)
		pos = e.to
	}
	w.WriteString(src(pos, to))
	return "\n" + w.String() + "\n", true
}

// quiet: evaluating the expression has no effect.
func quiet(p *packages.Package, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && n.Op != token.ARROW
		case *ast.CallExpr:
			if tv := p.TypesInfo.Types[n.Fun]; tv.IsType() {
				return ok
			}
			switch g := n.Fun.(type) {
			case *ast.Ident:
				if g.Name != "len" {
					ok = false
				}
			case *ast.SelectorExpr:
				// projecting coordinates has no effect (C30)
				o := p.TypesInfo.Uses[g.Sel]
				if o == nil || o.Pkg() == nil || !(o.Pkg().Path() == "math" || o.Pkg().Path() == libPath && o.Name() == "Project") {
					ok = false
				}
			default:
				ok = false
			}
		}
		return ok
	})
	return ok
}

// clash: a name declared by the statements of the list is used by the body,
// or the body assigns a variable they use.
func clash(p *packages.Package, body *ast.BlockStmt, list []ast.Stmt, l *ast.Ident) bool {
	decl, used := map[string]bool{l.Name: true}, map[types.Object]bool{}
	global := false
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if p.TypesInfo.Defs[id] != nil {
					decl[id.Name] = true
				}
				if o := p.TypesInfo.Uses[id]; o != nil {
					used[o] = true
					v, ok := o.(*types.Var)
					global = global || ok && v.Parent() == p.Types.Scope()
				}
			}
			return true
		})
	}
	bad := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			if o := p.TypesInfo.Uses[n]; o != nil && decl[n.Name] {
				if v, ok := o.(*types.Var); !ok || !v.IsField() {
					bad = true
				}
			}
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				id, ok := ast.Unparen(e).(*ast.Ident)
				if !ok || p.TypesInfo.Defs[id] == nil && used[p.TypesInfo.Uses[id]] {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			id, ok := ast.Unparen(n.X).(*ast.Ident)
			bad = bad || !ok || used[p.TypesInfo.Uses[id]]
		case *ast.UnaryExpr:
			bad = bad || n.Op == token.AND
		}
		return !bad
	})
	return bad || global
}

// collectedOverlay applies collected to all files.
func collectedOverlay(ps []*packages.Package, given map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !repoPath(p.PkgPath) || p.TypesInfo == nil {
			return
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			text, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			if b := given[name]; b != nil {
				text = b
			}
			at := func(q token.Pos) int { return p.Fset.Position(q).Offset }
			bad := false
			src := func(a, b token.Pos) string {
				i, j := at(a), at(b)
				if i > j || j > len(text) {
					bad = true
					return ""
				}
				return string(text[i:j])
			}
			es := collected(p, f, src)
			if len(es) == 0 || bad {
				continue
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
			var w strings.Builder
			pos := 0
			for _, e := range es {
				w.Write(text[pos:at(e.from)])
				w.WriteString(e.text)
				pos = at(e.to)
			}
			w.Write(text[pos:])
			out[name] = []byte(w.String())
		}
	})
	return out
}
