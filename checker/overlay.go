package main

// Source-level normalisation before the analysis: loops over all cells of a
// grid with one counter are written as two nested loops, and rows cut from one
// block of memory as rows of their own. Both are what the code means; what has
// to hold for that is left in the code as something to be proved.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
)

// gridLoops rewrites
//
//	for i := 0; i < W*H; i++ { ... i%W ... i/W ... }
//
// into a loop over i/W and one over i%W.
func gridLoops(p *packages.Package, f *ast.File, done map[ast.Node]bool) (es []posEdit) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		defs := singleDefs(p, fd.Body)
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if _, ok := n.(*ast.LabeledStmt); ok {
				return false
			}
			if e := gridLoop(p, n, defs); e != nil {
				es = append(es, e...)
				done[n] = true
				return false
			}
			return true
		})
	}
	return es
}

// singleDefs maps local variables that are assigned exactly once to what they are assigned.
func singleDefs(p *packages.Package, body ast.Node) map[types.Object]ast.Expr {
	defs := map[types.Object]ast.Expr{}
	many := map[types.Object]bool{}
	set := func(id *ast.Ident, e ast.Expr) {
		o := p.TypesInfo.Defs[id]
		if o == nil {
			o = p.TypesInfo.Uses[id]
		}
		if o == nil {
			return
		}
		if _, dup := defs[o]; dup {
			many[o] = true
		}
		defs[o] = e
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok {
					if len(n.Lhs) == len(n.Rhs) && n.Tok == token.DEFINE {
						set(id, n.Rhs[i])
					} else {
						set(id, nil)
						set(id, nil)
					}
				}
			}
		case *ast.IncDecStmt:
			if id, ok := n.X.(*ast.Ident); ok {
				set(id, nil)
				set(id, nil)
			}
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{n.Key, n.Value} {
				if id, ok := e.(*ast.Ident); ok {
					set(id, nil)
					set(id, nil)
				}
			}
		case *ast.UnaryExpr:
			if id, ok := n.X.(*ast.Ident); ok && n.Op == token.AND {
				set(id, nil)
				set(id, nil)
			}
		}
		return true
	})
	for o := range many {
		delete(defs, o)
	}
	return defs
}

// plainPath: a constant, a variable or a field of a variable.
func plainPath(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plainPath(e.X)
	}
	return false
}

// factors are the two sides of a product.
func factors(p *packages.Package, e ast.Expr, defs map[types.Object]ast.Expr) (a, b ast.Expr) {
	e = ast.Unparen(e)
	if id, ok := e.(*ast.Ident); ok {
		if d := defs[p.TypesInfo.Uses[id]]; d != nil {
			e = ast.Unparen(d)
		}
	}
	m, ok := e.(*ast.BinaryExpr)
	if !ok || m.Op != token.MUL {
		return nil, nil
	}
	a, b = ast.Unparen(m.X), ast.Unparen(m.Y)
	if !plainPath(a) || !plainPath(b) {
		return nil, nil
	}
	return a, b
}

func gridLoop(p *packages.Package, n ast.Node, defs map[types.Object]ast.Expr) []posEdit {
	var i *ast.Ident
	var bound ast.Expr
	var body *ast.BlockStmt
	switch l := n.(type) {
	case *ast.ForStmt:
		as, ok := l.Init.(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
			return nil
		}
		if z, ok := as.Rhs[0].(*ast.BasicLit); !ok || z.Value != "0" {
			return nil
		}
		i, _ = as.Lhs[0].(*ast.Ident)
		c, ok := l.Cond.(*ast.BinaryExpr)
		if !ok || i == nil {
			return nil
		}
		switch {
		case c.Op == token.LSS && types.ExprString(c.X) == i.Name:
			bound = c.Y
		case c.Op == token.GTR && types.ExprString(c.Y) == i.Name:
			bound = c.X
		default:
			return nil
		}
		switch post := l.Post.(type) {
		case *ast.IncDecStmt:
			if post.Tok != token.INC || types.ExprString(post.X) != i.Name {
				return nil
			}
		default:
			return nil
		}
		body = l.Body
	case *ast.RangeStmt:
		i, _ = l.Key.(*ast.Ident)
		T := p.TypesInfo.TypeOf(l.X)
		if i == nil || l.Value != nil || l.Tok != token.DEFINE || T == nil {
			return nil
		}
		if b, ok := T.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
		bound, body = l.X, l.Body
	default:
		return nil
	}
	iObj := p.TypesInfo.Defs[i]
	if iObj == nil || iObj.Type() != types.Typ[types.Int] {
		return nil
	}
	a, b := factors(p, bound, defs)
	if a == nil {
		return nil
	}
	// what i is divided by
	var W ast.Expr
	ok := true
	var parts []*ast.BinaryExpr
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			if id, is := ast.Unparen(n.X).(*ast.Ident); is && p.TypesInfo.Uses[id] == iObj && (n.Op == token.REM || n.Op == token.QUO) {
				d := ast.Unparen(n.Y)
				if !plainPath(d) || W != nil && types.ExprString(W) != types.ExprString(d) {
					ok = false
				}
				W = d
				parts = append(parts, n)
				return false
			}
		case *ast.BranchStmt:
			if n.Tok != token.CONTINUE || n.Label != nil {
				ok = false
			}
		case *ast.LabeledStmt, *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt:
			ok = false
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, is := l.(*ast.Ident); is && p.TypesInfo.Uses[id] == iObj {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			if id, is := n.X.(*ast.Ident); is && p.TypesInfo.Uses[id] == iObj {
				ok = false
			}
		case *ast.UnaryExpr:
			if id, is := n.X.(*ast.Ident); is && n.Op == token.AND && p.TypesInfo.Uses[id] == iObj {
				ok = false
			}
		}
		return true
	})
	if !ok || W == nil {
		return nil
	}
	same := func(x ast.Expr) bool {
		return types.ExprString(ast.Unparen(x)) == types.ExprString(W) || sameDef(p, x, W, defs)
	}
	H := b
	if !same(a) {
		if !same(b) {
			return nil
		}
		H = a
	}
	w, h, N := types.ExprString(W), types.ExprString(H), types.ExprString(bound)
	for _, s := range []string{w, h, N} {
		if strings.ContainsAny(s, "\n") {
			return nil
		}
	}
	head := fmt.Sprintf("if (%s)>0&&(%s)<0{panic(\"verif\")};for verifW,verifH,verifY:=int(%s),int(%s),0;verifY<verifH;verifY++{for verifX:=0;verifX<verifW;verifX++{", N, w, w, h)
	head += fmt.Sprintf("if int(%s)!=verifW||int(%s)!=verifW*verifH{panic(\"verif\")};%s:=verifY*verifW+verifX;_=%s;", w, N, i.Name, i.Name)
	es := []posEdit{{n.Pos(), body.Lbrace + 1, head}}
	for _, q := range parts {
		if q.Op == token.REM {
			es = append(es, posEdit{q.Pos(), q.End(), "verifX"})
		} else {
			es = append(es, posEdit{q.Pos(), q.End(), "verifY"})
		}
	}
	return append(es, posEdit{body.Rbrace, body.Rbrace, "}"})
}

// sameDef: x or W is a variable that was assigned the other one once.
func sameDef(p *packages.Package, x, W ast.Expr, defs map[types.Object]ast.Expr) bool {
	str := func(e ast.Expr) string {
		e = ast.Unparen(e)
		if id, ok := e.(*ast.Ident); ok {
			if d := defs[p.TypesInfo.Uses[id]]; d != nil && plainPath(ast.Unparen(d)) {
				return types.ExprString(ast.Unparen(d))
			}
		}
		return types.ExprString(e)
	}
	return str(x) == str(W)
}

// rowBlocks rewrites rows cut from one block of memory,
//
//	buf := make([]T, W*H)
//	... rows[i] = buf[i*W : (i+1)*W]
//	... row, buf = buf[:W], buf[W:]
//
// into rows allocated on their own, if no row can reach beyond its end.
func rowBlocks(p *packages.Package, f *ast.File) (es []posEdit) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		defs := singleDefs(p, fd.Body)
		blocks := map[types.Object]*ast.CallExpr{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			as, ok := n.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				return true
			}
			id, ok := as.Lhs[0].(*ast.Ident)
			c, ok2 := as.Rhs[0].(*ast.CallExpr)
			if !ok || !ok2 || len(c.Args) != 2 {
				return true
			}
			if fn, ok := c.Fun.(*ast.Ident); !ok || fn.Name != "make" {
				return true
			}
			if _, ok := p.TypesInfo.TypeOf(c).(*types.Slice); ok {
				blocks[p.TypesInfo.Defs[id]] = c
			}
			return true
		})
		for o, mk := range blocks {
			if o == nil || appendsTo(p, o.Type()) {
				continue
			}
			es = append(es, rowBlock(p, fd, o, mk, defs)...)
		}
	}
	return es
}

// appendsTo: some slice of type T is appended to in the package.
func appendsTo(p *packages.Package, T types.Type) bool {
	found := false
	for _, f := range p.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) > 0 {
				if fn, ok := c.Fun.(*ast.Ident); ok && fn.Name == "append" {
					if t := p.TypesInfo.TypeOf(c.Args[0]); t == nil || types.Identical(t, T) {
						found = true
					}
				}
			}
			return !found
		})
	}
	return found
}

func rowBlock(p *packages.Package, fd *ast.FuncDecl, o types.Object, mk *ast.CallExpr, defs map[types.Object]ast.Expr) []posEdit {
	isBuf := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && p.TypesInfo.Uses[id] == o
	}
	uses := 0
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && p.TypesInfo.Uses[id] == o {
			uses++
		}
		return true
	})
	str := func(e ast.Expr) string { return strings.ReplaceAll(types.ExprString(ast.Unparen(e)), " ", "") }
	elem := types.ExprString(mk.Args[0])
	var es []posEdit
	known := 0
	// the statement lists of the function, with the counter of the innermost loop
	var walk func(l []ast.Stmt, counter string)
	walk = func(l []ast.Stmt, counter string) {
		for k, s := range l {
			switch s := s.(type) {
			case *ast.ForStmt:
				c := ""
				if as, ok := s.Init.(*ast.AssignStmt); ok && len(as.Lhs) == 1 {
					if post, ok := s.Post.(*ast.IncDecStmt); ok && str(post.X) == str(as.Lhs[0]) {
						c = str(post.X)
					}
				}
				if assigned(p, s.Body, c) {
					c = ""
				}
				walk(s.Body.List, c)
			case *ast.RangeStmt:
				c := ""
				if s.Key != nil {
					c = str(s.Key)
				}
				if assigned(p, s.Body, c) {
					c = ""
				}
				walk(s.Body.List, c)
			case *ast.BlockStmt:
				walk(s.List, counter)
			case *ast.IfStmt:
				walk(s.Body.List, "")
			case *ast.AssignStmt:
				for _, r := range s.Rhs {
					cut := r
					if c, ok := r.(*ast.CallExpr); ok && len(c.Args) == 2 && str(c.Fun) == "append" {
						cut = c.Args[1] // rows = append(rows, buf[...])
					}
					x, ok := cut.(*ast.SliceExpr)
					if !ok || !isBuf(x.X) || x.High == nil {
						continue
					}
					w := ""
					if x.Low == nil {
						// buf[:w], and the rest is what remains of buf
						w = str(x.High)
						if !advances(p, s, w, isBuf, str) && (k+1 >= len(l) || !advances(p, l[k+1], w, isBuf, str)) {
							continue
						}
						if len(s.Lhs) == 1 && isBuf(s.Lhs[0]) {
							continue
						}
						known += 3
					} else if counter != "" && loopDepth(fd.Body, s.Pos()) == loopDepth(fd.Body, o.Pos())+1 {
						lo, hi := str(resolve(p, x.Low, defs)), str(x.High)
						lowName := str(x.Low)
						hiR := str(resolve(p, x.High, defs))
						for _, cand := range widths(resolve(p, x.Low, defs), counter, str) {
							in := func(s string, set ...string) bool {
								for _, x := range set {
									if s == x {
										return true
									}
								}
								return false
							}
							los := []string{counter + "*" + cand, cand + "*" + counter}
							his := []string{"(" + counter + "+1)*" + cand, cand + "*(" + counter + "+1)", counter + "*" + cand + "+" + cand, cand + "*" + counter + "+" + cand, lowName + "+" + cand, cand + "+" + lowName}
							if in(lo, los...) && (in(hi, his...) || in(hiR, his...)) {
								w = cand
							}
						}
						if w == "" {
							continue
						}
						known++
					} else {
						continue
					}
					es = append(es, posEdit{s.Pos(), s.Pos(), "_=" + types.ExprString(x) + ";"},
						posEdit{x.Pos(), x.End(), "make(" + elem + "," + w + ")"})
				}
			}
		}
	}
	walk(fd.Body.List, "")
	if known != uses || len(es) == 0 {
		return nil
	}
	return es
}

// loopDepth is the number of loops around a position.
func loopDepth(body ast.Node, at token.Pos) (n int) {
	ast.Inspect(body, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if x.Pos() <= at && at < x.End() {
				n++
			}
		case *ast.FuncLit:
			if x.Pos() <= at && at < x.End() {
				n += 2
			}
		}
		return true
	})
	return
}

// assigned: the variable named c is assigned in body.
func assigned(p *packages.Package, body ast.Node, c string) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == c {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := n.X.(*ast.Ident); ok && id.Name == c {
				found = true
			}
		}
		return true
	})
	return found
}

// advances: the statement contains buf = buf[w:].
func advances(p *packages.Package, s ast.Stmt, w string, isBuf func(ast.Expr) bool, str func(ast.Expr) string) bool {
	as, ok := s.(*ast.AssignStmt)
	if !ok || len(as.Lhs) != len(as.Rhs) {
		return false
	}
	for i, r := range as.Rhs {
		if x, ok := r.(*ast.SliceExpr); ok && isBuf(x.X) && isBuf(as.Lhs[i]) && x.High == nil && x.Low != nil && str(x.Low) == w {
			return true
		}
	}
	return false
}

// resolve replaces a variable that is assigned once by what it is assigned.
func resolve(p *packages.Package, e ast.Expr, defs map[types.Object]ast.Expr) ast.Expr {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if d := defs[p.TypesInfo.Uses[id]]; d != nil {
			return d
		}
	}
	return e
}

// widths: the candidates for w in counter*w.
func widths(e ast.Expr, counter string, str func(ast.Expr) string) (ws []string) {
	if m, ok := ast.Unparen(e).(*ast.BinaryExpr); ok && m.Op == token.MUL {
		if str(m.X) == counter && plainPath(ast.Unparen(m.Y)) {
			ws = append(ws, str(m.Y))
		}
		if str(m.Y) == counter && plainPath(ast.Unparen(m.X)) {
			ws = append(ws, str(m.X))
		}
	}
	return
}

// flagLoops rewrites loops that carry the wish to stop in their condition,
//
//	for i := 0; i < n && err == nil; i++ { body }
//
// into loops that are left after the body.
func flagLoops(p *packages.Package, f *ast.File) (es []posEdit) {
	ast.Inspect(f, func(n ast.Node) bool {
		l, ok := n.(*ast.ForStmt)
		if !ok || l.Cond == nil {
			return true
		}
		var plain, flags []ast.Expr
		var objs []types.Object
		var split func(e ast.Expr)
		split = func(e ast.Expr) {
			e = ast.Unparen(e)
			if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
				split(b.X)
				split(b.Y)
				return
			}
			if o := stopFlag(p, e); o != nil && assignsObj(p, l.Body, o) && (l.Post == nil || !assignsObj(p, l.Post, o)) {
				flags, objs = append(flags, e), append(objs, o)
			} else {
				plain = append(plain, e)
			}
		}
		split(l.Cond)
		if len(flags) == 0 || !leavesPlainly(l.Body) {
			return true
		}
		if n := len(l.Body.List); n > 0 && l.Post == nil {
			if as, ok := l.Body.List[n-1].(*ast.AssignStmt); ok {
				for _, o := range objs {
					if assignsObj(p, as, o) {
						return true // the loop already ends with the decision
					}
				}
			}
		}
		for _, e := range plain {
			if !cheap(e) {
				return true
			}
		}
		inits := map[types.Object]ast.Expr{}
		if as, ok := l.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == len(as.Rhs) {
			for i, x := range as.Lhs {
				if id, ok := x.(*ast.Ident); ok && cheap(as.Rhs[i]) {
					inits[p.TypesInfo.Defs[id]] = as.Rhs[i]
				} else {
					return true
				}
			}
		} else if l.Init != nil {
			return true
		}
		post := ""
		if l.Post != nil {
			own := true
			switch s := l.Post.(type) {
			case *ast.IncDecStmt:
				id, ok := s.X.(*ast.Ident)
				own = ok && inits[p.TypesInfo.Uses[id]] != nil
			default:
				return true
			}
			if !own {
				return true
			}
		}
		var outer, all []string
		for i, e := range flags {
			s := types.ExprString(e)
			all = append(all, s)
			v := inits[objs[i]]
			if v == nil {
				outer = append(outer, s)
				continue
			}
			id, ok := v.(*ast.Ident)
			want := "true"
			if _, neg := e.(*ast.UnaryExpr); neg {
				want = "false"
			}
			if !ok || id.Name != want {
				return true
			}
		}
		var conds []string
		for _, e := range plain {
			conds = append(conds, "("+types.ExprString(e)+")")
		}
		if len(outer) > 0 {
			es = append(es, posEdit{l.Pos(), l.Pos(), "if (" + strings.Join(outer, ")&&(") + "){"})
		}
		es = append(es, posEdit{l.Cond.Pos(), l.Cond.End(), strings.Join(conds, "&&")},
			posEdit{l.Body.Lbrace + 1, l.Body.Lbrace + 1, "{"},
			posEdit{l.Body.Rbrace, l.Body.Rbrace, "};if !((" + strings.Join(all, ")&&(") + ")){" + post + "break};"})
		if len(outer) > 0 {
			es = append(es, posEdit{l.End(), l.End(), "}"})
		}
		return true
	})
	return es
}

// stopFlag is the local variable of err == nil, flag or !flag.
func stopFlag(p *packages.Package, e ast.Expr) types.Object {
	local := func(x ast.Expr) types.Object {
		id, ok := ast.Unparen(x).(*ast.Ident)
		if !ok {
			return nil
		}
		v, ok := p.TypesInfo.Uses[id].(*types.Var)
		if !ok || v.Parent() == nil || v.Parent() == p.Types.Scope() {
			return nil
		}
		return v
	}
	switch e := e.(type) {
	case *ast.Ident:
		return local(e)
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			return local(e.X)
		}
	case *ast.BinaryExpr:
		if id, ok := ast.Unparen(e.Y).(*ast.Ident); ok && e.Op == token.EQL && id.Name == "nil" {
			return local(e.X)
		}
	}
	return nil
}

func assignsObj(p *packages.Package, body ast.Node, o types.Object) bool {
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := ast.Unparen(l).(*ast.Ident); ok && p.TypesInfo.Uses[id] == o {
					found = true
				}
			}
		case *ast.UnaryExpr:
			if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && n.Op == token.AND && p.TypesInfo.Uses[id] == o {
				found = true
			}
		}
		return !found
	})
	return found
}

// leavesPlainly: no statement continues the loop, jumps, or has a label.
func leavesPlainly(body *ast.BlockStmt) bool {
	ok := true
	var walk func(n ast.Node, depth int)
	walk = func(n ast.Node, depth int) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.CONTINUE && depth == 0 {
					ok = false
				}
			case *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt:
				ok = false
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				if x != n {
					walk(x, depth+1)
					return false
				}
			case *ast.RangeStmt:
				if x != n {
					walk(x, depth+1)
					return false
				}
			}
			return true
		})
	}
	walk(body, 0)
	return ok
}

// cheap: evaluating the expression has no effect and cannot panic.
func cheap(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case nil, *ast.Ident, *ast.BasicLit, *ast.SelectorExpr, *ast.ParenExpr:
		case *ast.BinaryExpr:
			if n.Op == token.QUO || n.Op == token.REM || n.Op == token.SHL || n.Op == token.SHR {
				ok = false
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND || n.Op == token.ARROW {
				ok = false
			}
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); !is || id.Name != "len" {
				ok = false
			}
		default:
			ok = false
		}
		return ok
	})
	return ok
}
