package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
)

func (in *instr) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *instr) isGlobal(id *ast.Ident) bool {
	v, ok := in.info.Uses[id].(*types.Var)
	return ok && !v.IsField() && v.Parent() != nil && v.Parent().Parent() == types.Universe
}

// touches reports whether evaluating n reads or writes memory another task
// could see: fields, pointers, slice elements, package variables.
func (in *instr) touches(n ast.Node) bool {
	if n == nil || in.harness {
		return false
	}
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found {
			return false
		}
		switch x := x.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if s := in.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				found = true
			}
			if in.isGlobal(x.Sel) {
				found = true
			}
		case *ast.StarExpr:
			if tv, ok := in.info.Types[x]; ok && !tv.IsType() {
				found = true
			}
		case *ast.IndexExpr:
			if t := in.typeOf(x.X); t != nil {
				switch t.Underlying().(type) {
				case *types.Slice, *types.Pointer:
					found = true
				}
			}
		case *ast.Ident:
			if in.isGlobal(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

func (in *instr) touchesAny(ns ...ast.Node) bool {
	for _, n := range ns {
		switch v := n.(type) {
		case nil:
			continue
		case ast.Expr:
			if v == nil {
				continue
			}
		case ast.Stmt:
			if v == nil {
				continue
			}
		}
		if in.touches(n) {
			return true
		}
	}
	return false
}

func (in *instr) yStmt() ast.Stmt { return &ast.ExprStmt{X: rtc("Y", in.site())} }

func (in *instr) name(p string) string {
	in.tmp++
	return fmt.Sprintf("_v%s%d", p, in.tmp)
}

func (in *instr) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = in.stmts(b.List)
	return b
}

func (in *instr) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	b = in.block(b)
	if !in.harness {
		b.List = append([]ast.Stmt{in.yStmt()}, b.List...)
	}
	return b
}

func (in *instr) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, in.stmt(s)...)
	}
	return out
}

func (in *instr) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := in.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// simple rewrites a simple statement that must stay a simple statement (init
// and post clauses).
func (in *instr) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		r, pre := in.assign(s)
		if len(pre) > 0 {
			in.fail(s, "cannot rewrite this assignment in a statement header")
		}
		return r
	case *ast.IncDecStmt:
		return in.incdec(s)
	case *ast.ExprStmt:
		s.X = in.expr(s.X)
		return s
	case *ast.SendStmt:
		return in.send(s)
	}
	in.fail(s, "unexpected simple statement %T", s)
	return nil
}

func (in *instr) send(s *ast.SendStmt) ast.Stmt {
	ch, v := in.expr(s.Chan), in.expr(s.Value)
	return &ast.ExprStmt{X: call(&ast.SelectorExpr{X: rtc("S", ch), Sel: ast.NewIdent("Send")}, v)}
}

func (in *instr) incdec(s *ast.IncDecStmt) ast.Stmt {
	if ix, ok := unparen(s.X).(*ast.IndexExpr); ok && isMap(in.typeOf(ix.X)) {
		s.X, _ = in.mapLhs(ix, false)
		return s
	}
	if in.touches(s.X) && isInteger(in.typeOf(s.X)) {
		n := "Inc"
		if s.Tok == token.DEC {
			n = "Dec"
		}
		return &ast.ExprStmt{X: rtc(n, in.site(), &ast.UnaryExpr{Op: token.AND, X: in.expr(s.X)})}
	}
	s.X = in.expr(s.X)
	return s
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func pure(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	}
	return false
}

// mapLhs rewrites a map element that is assigned to.
func (in *instr) mapLhs(ix *ast.IndexExpr, canHoist bool) (ast.Expr, []ast.Stmt) {
	var pre []ast.Stmt
	if in.harness {
		ix.X = in.expr(ix.X)
		ix.Index = in.expr(ix.Index)
		return ix, nil
	}
	isPure := pure(ix.Index)
	m := in.expr(ix.X)
	k := in.expr(ix.Index)
	if !isPure {
		if !canHoist {
			// evaluate the key twice would be wrong: only note the write
			return &ast.IndexExpr{X: rtc("MW0", in.site(), m), Index: k}, nil
		}
		n := in.name("k")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{k}})
		k = ast.NewIdent(n)
	}
	return &ast.IndexExpr{X: rtc("MW", in.site(), m, k), Index: k}, pre
}

var opName = map[token.Token]string{
	token.ADD_ASSIGN: "AddTo", token.SUB_ASSIGN: "SubTo", token.OR_ASSIGN: "OrTo",
	token.AND_ASSIGN: "AndTo", token.AND_NOT_ASSIGN: "AndNotTo",
}

func (in *instr) assign(s *ast.AssignStmt) (ast.Stmt, []ast.Stmt) {
	var pre []ast.Stmt
	// v, ok = <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = rtc("Recv2", in.expr(u.X))
			for i := range s.Lhs {
				s.Lhs[i] = in.lhs(s.Lhs[i], &pre)
			}
			return s, pre
		}
	}
	if n := opName[s.Tok]; n != "" && in.touches(s.Lhs[0]) {
		lt := in.typeOf(s.Lhs[0])
		_, isIx := unparen(s.Lhs[0]).(*ast.IndexExpr)
		mapIx := isIx && isMap(in.typeOf(unparen(s.Lhs[0]).(*ast.IndexExpr).X))
		ok := isInteger(lt)
		if n == "AddTo" && lt != nil {
			if b, is := lt.Underlying().(*types.Basic); is && b.Info()&(types.IsString|types.IsFloat) != 0 {
				ok = true
			}
		}
		if ok && !mapIx {
			r := in.expr(s.Rhs[0])
			return &ast.ExprStmt{X: rtc(n, in.site(), &ast.UnaryExpr{Op: token.AND, X: in.expr(s.Lhs[0])}, r)}, nil
		}
	}
	mid := false
	if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && in.touches(s.Lhs[0]) && in.touches(s.Rhs[0]) {
		if tv, ok := in.info.Types[s.Rhs[0]]; ok && tv.Value == nil && !tv.IsNil() {
			lt := in.typeOf(s.Lhs[0])
			if lt != nil && types.Identical(lt, tv.Type) {
				mid = true
			}
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = in.expr(s.Rhs[i])
	}
	if mid {
		s.Rhs[0] = rtc("Mid", in.site(), s.Rhs[0])
	}
	if s.Tok != token.DEFINE {
		for i := range s.Lhs {
			s.Lhs[i] = in.lhs(s.Lhs[i], &pre)
		}
	}
	return s, pre
}

func (in *instr) lhs(e ast.Expr, pre *[]ast.Stmt) ast.Expr {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(in.typeOf(ix.X)) {
		r, p := in.mapLhs(ix, true)
		*pre = append(*pre, p...)
		return r
	}
	if id, ok := e.(*ast.Ident); ok {
		return id
	}
	return in.expr(e)
}

func (in *instr) withY(touch bool, s ast.Stmt) []ast.Stmt {
	if touch {
		return []ast.Stmt{in.yStmt(), s}
	}
	return []ast.Stmt{s}
}

func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return []ast.Stmt{in.block(s)}
	case *ast.LabeledStmt:
		l := in.stmt(s.Stmt)
		if len(l) == 0 {
			s.Stmt = &ast.EmptyStmt{}
			return []ast.Stmt{s}
		}
		s.Stmt = l[len(l)-1]
		return append(l[:len(l)-1:len(l)-1], s)
	case *ast.ExprStmt:
		t := in.touches(s)
		if u, ok := unparen(s.X).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.X = rtc("Recv", in.expr(u.X))
		} else {
			s.X = in.expr(s.X)
		}
		return in.withY(t, s)
	case *ast.SendStmt:
		t := in.touches(s)
		return in.withY(t, in.send(s))
	case *ast.IncDecStmt:
		t := in.touches(s)
		return in.withY(t, in.incdec(s))
	case *ast.AssignStmt:
		t := in.touches(s)
		r, pre := in.assign(s)
		if len(pre) > 0 {
			l := pre
			if t {
				l = append(l, in.yStmt())
			}
			return []ast.Stmt{&ast.BlockStmt{List: append(l, r)}}
		}
		return in.withY(t, r)
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.DeferStmt:
		s.Call = in.callArgs(s.Call)
		return []ast.Stmt{s}
	case *ast.ReturnStmt:
		t := false
		for _, r := range s.Results {
			t = t || in.touches(r)
		}
		for i := range s.Results {
			s.Results[i] = in.expr(s.Results[i])
		}
		return in.withY(t, s)
	case *ast.BranchStmt, *ast.EmptyStmt:
		return []ast.Stmt{s}
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok {
			in.exprsIn(gd)
		}
		return []ast.Stmt{s}
	case *ast.IfStmt:
		t := in.touches(s.Cond) || (s.Init != nil && in.touches(s.Init))
		s.Init = in.simple(s.Init)
		s.Cond = in.expr(s.Cond)
		s.Body = in.block(s.Body)
		if s.Else != nil {
			s.Else = in.one(s.Else)
			switch s.Else.(type) {
			case *ast.BlockStmt, *ast.IfStmt:
			default:
				s.Else = &ast.BlockStmt{List: []ast.Stmt{s.Else}}
			}
		}
		return in.withY(t, s)
	case *ast.ForStmt:
		t := (s.Cond != nil && in.touches(s.Cond)) || (s.Init != nil && in.touches(s.Init))
		s.Init = in.simple(s.Init)
		if s.Cond != nil {
			s.Cond = in.expr(s.Cond)
		}
		s.Post = in.simple(s.Post)
		s.Body = in.loopBody(s.Body)
		return in.withY(t, s)
	case *ast.RangeStmt:
		return in.rangeStmt(s)
	case *ast.SwitchStmt:
		t := (s.Tag != nil && in.touches(s.Tag)) || (s.Init != nil && in.touches(s.Init))
		s.Init = in.simple(s.Init)
		if s.Tag != nil {
			s.Tag = in.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = in.expr(cc.List[i])
			}
			cc.Body = in.stmts(cc.Body)
		}
		return in.withY(t, s)
	case *ast.TypeSwitchStmt:
		t := in.touches(s.Assign)
		s.Init = in.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = in.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = in.expr(ta.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.stmts(cc.Body)
		}
		return in.withY(t, s)
	case *ast.SelectStmt:
		return in.selectStmt(s)
	}
	in.fail(s, "unknown statement %T", s)
	return nil
}

func (in *instr) rangeStmt(s *ast.RangeStmt) []ast.Stmt {
	xt := in.typeOf(s.X)
	t := in.touches(s.X)
	addr := func(e ast.Expr) ast.Expr {
		if e == nil || isBlank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: in.expr(e)}
	}
	nameOr := func(e ast.Expr) ast.Expr {
		if e == nil || s.Tok != token.DEFINE {
			return ast.NewIdent("_")
		}
		return e
	}
	switch {
	case isChan(xt):
		it := ast.NewIdent(in.name("i"))
		x := in.expr(s.X)
		key := s.Key
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it, nameOr(key)}, Tok: token.DEFINE, Rhs: []ast.Expr{rtc("ChanIter", x)}},
			Cond: call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, addr(key)),
			Body: in.loopBody(s.Body),
		}
		return in.withY(t, f)
	case isMap(xt):
		it := ast.NewIdent(in.name("i"))
		x := in.expr(s.X)
		f := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it, nameOr(s.Key), nameOr(s.Value)}, Tok: token.DEFINE, Rhs: []ast.Expr{rtc("MapIter", in.site(), x)}},
			Cond: call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, addr(s.Key), addr(s.Value)),
			Body: in.loopBody(s.Body),
		}
		return in.withY(t, f)
	}
	s.X = in.expr(s.X)
	if s.Tok == token.ASSIGN {
		if s.Key != nil {
			s.Key = in.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = in.expr(s.Value)
		}
	}
	s.Body = in.loopBody(s.Body)
	return in.withY(t, s)
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instr) isConst(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (in *instr) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	t := in.touches(c)
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		fl.Body = in.block(fl.Body)
		return in.withY(t, &ast.ExprStmt{X: rtc("Go", fl)})
	}
	if tv, ok := in.info.Types[c.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		in.fail(s, "go statement with builtin or conversion")
	}
	var l []ast.Stmt
	bind := func(e ast.Expr, p string) ast.Expr {
		n := ast.NewIdent(in.name(p))
		l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return n
	}
	fun := c.Fun
	static := false
	switch f := unparen(fun).(type) {
	case *ast.Ident:
		_, static = in.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if in.info.Selections[f] == nil {
			_, static = in.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	if !static {
		fun = bind(in.expr(fun), "f")
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		if in.isConst(a) {
			args[i] = a
			continue
		}
		args[i] = bind(in.expr(a), "a")
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	l = append(l, &ast.ExprStmt{X: rtc("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	if t {
		l = append([]ast.Stmt{in.yStmt()}, l...)
	}
	return []ast.Stmt{&ast.BlockStmt{List: l}}
}

func (in *instr) selectStmt(s *ast.SelectStmt) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: rtc("SelectNone")}}
	}
	t := false
	var names, vals []ast.Expr
	hasDef := false
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var clauses []*ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: intLit(1)}}, Body: in.stmts(cc.Body)})
			continue
		}
		t = t || in.touches(cc.Comm)
		n := ast.NewIdent(in.name("c"))
		idx := len(names)
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, call(&ast.SelectorExpr{X: rtc("S", in.expr(cm.Chan)), Sel: ast.NewIdent("V")}, in.expr(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			vals = append(vals, rtc("R", in.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			vals = append(vals, rtc("R", in.expr(u.X)))
			rhs := []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: n, Sel: ast.NewIdent("OK")})
			}
			var p []ast.Stmt
			if cm.Tok == token.ASSIGN {
				for i := range cm.Lhs {
					cm.Lhs[i] = in.lhs(cm.Lhs[i], &p)
				}
			}
			pre = append(p, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		default:
			in.fail(cc, "unknown communication clause")
		}
		names = append(names, n)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(idx)}, Body: append(pre, in.stmts(cc.Body)...)})
	}
	args := []ast.Expr{ast.NewIdent("false")}
	if hasDef {
		args[0] = ast.NewIdent("true")
	}
	args = append(args, names...)
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	sw.Tag = rtc("Select", args...)
	clauses[len(clauses)-1].List = nil // becomes default: keeps terminating statements terminating
	for _, c := range clauses {
		sw.Body.List = append(sw.Body.List, c)
	}
	return in.withY(t, sw)
}

func (in *instr) exprsIn(gd *ast.GenDecl) {
	if gd.Tok != token.VAR {
		return
	}
	for _, sp := range gd.Specs {
		vs := sp.(*ast.ValueSpec)
		if len(vs.Names) == 2 && len(vs.Values) == 1 {
			if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				vs.Values[0] = rtc("Recv2", in.expr(u.X))
				continue
			}
		}
		for i := range vs.Values {
			vs.Values[i] = in.expr(vs.Values[i])
		}
	}
}

func (in *instr) callArgs(c *ast.CallExpr) *ast.CallExpr {
	r := in.expr(c)
	cc, ok := r.(*ast.CallExpr)
	if !ok {
		in.fail(c, "call became %T", r)
	}
	return cc
}

func (in *instr) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

// expr rewrites an expression.
func (in *instr) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit:
		return e
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
		return e
	case *ast.SelectorExpr:
		e.X = in.expr(e.X)
		return e
	case *ast.StarExpr:
		e.X = in.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return rtc("Recv", in.expr(e.X))
		}
		e.X = in.expr(e.X)
		return e
	case *ast.BinaryExpr:
		if (e.Op == token.LAND || e.Op == token.LOR) && !in.harness {
			t := in.touches(e.X) && in.touches(e.Y) && plainBool(in.typeOf(e)) && plainBool(in.typeOf(e.X)) && plainBool(in.typeOf(e.Y))
			x, y := in.expr(e.X), in.expr(e.Y)
			if t {
				n := "YT"
				if e.Op == token.LOR {
					n = "YF"
				}
				e.X = &ast.BinaryExpr{X: x, Op: e.Op, Y: rtc(n, in.site())}
				e.Y = y
				return e
			}
			e.X, e.Y = x, y
			return e
		}
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
		return e
	case *ast.CallExpr:
		return in.callExpr(e)
	case *ast.IndexExpr:
		if tv, ok := in.info.Types[e.X]; ok && !tv.IsType() && isMap(tv.Type) && !in.harness {
			m, k := in.expr(e.X), in.expr(e.Index)
			return &ast.IndexExpr{X: rtc("MR", in.site(), m), Index: k}
		}
		e.X = in.expr(e.X)
		e.Index = in.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = in.expr(e.X)
		return e
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = in.expr(e.X), in.expr(e.Low), in.expr(e.High), in.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X = in.expr(e.X)
		return e
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = in.expr(e.Elts[i])
		}
		return e
	case *ast.KeyValueExpr:
		e.Key = in.expr(e.Key)
		e.Value = in.expr(e.Value)
		return e
	case *ast.FuncLit:
		e.Body = in.block(e.Body)
		return e
	case *ast.ArrayType, *ast.StructType, *ast.FuncType, *ast.InterfaceType, *ast.MapType, *ast.ChanType, *ast.Ellipsis:
		return e
	}
	in.fail(e, "unknown expression %T", e)
	return nil
}

func plainBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (in *instr) callExpr(e *ast.CallExpr) ast.Expr {
	if tv, ok := in.info.Types[e.Fun]; ok && tv.IsBuiltin() {
		name := ""
		if id, ok := unparen(e.Fun).(*ast.Ident); ok {
			name = id.Name
		}
		switch name {
		case "close":
			return call(&ast.SelectorExpr{X: rtc("S", in.expr(e.Args[0])), Sel: ast.NewIdent("Close")})
		case "len":
			t := in.typeOf(e.Args[0])
			if isChan(t) {
				fn := "Len"
				if t.Underlying().(*types.Chan).Dir() == types.SendOnly {
					fn = "LenS"
				}
				return rtc(fn, in.expr(e.Args[0]))
			}
		case "delete":
			if !in.harness {
				m, k := in.expr(e.Args[0]), in.expr(e.Args[1])
				return rtc("MDelete", in.site(), m, k)
			}
		case "make":
			if isChan(in.typeOf(e.Args[0])) && len(e.Args) == 2 && !in.harness {
				if tv, ok := in.info.Types[e.Args[1]]; ok && tv.Value != nil {
					if n, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && n >= 64 {
						e.Args[1] = rtc("Cap", e.Args[1])
						return e
					}
				}
			}
		}
	}
	e.Fun = in.expr(e.Fun)
	in.exprs(e.Args)
	return e
}
