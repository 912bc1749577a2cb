// mutate lists small mechanical changes of Go files, or makes one of them.
//
//	go run main.go FILE...           lists them: number, file:line, kind, text
//	go run main.go -n N -o OUT FILE  writes FILE with change N to OUT
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

type mutant struct {
	line  int
	kind  string
	edits []edit
}

func main() {
	n := flag.Int("n", -1, "")
	o := flag.String("o", "", "")
	flag.Parse()
	for _, f := range flag.Args() {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ms := mutants(f, src)
		if *n >= 0 {
			m := ms[*n]
			sort.Slice(m.edits, func(i, j int) bool { return m.edits[i].from > m.edits[j].from })
			s := string(src)
			for _, e := range m.edits {
				s = s[:e.from] + e.text + s[e.to:]
			}
			if err := os.WriteFile(*o, []byte(s), 0644); err != nil {
				panic(err)
			}
			return
		}
		for i, m := range ms {
			t := ""
			for _, e := range m.edits {
				x := string(src[e.from:e.to])
				if len(x) > 60 {
					x = x[:60]
				}
				t += strings.Join(strings.Fields(x), " ") + " => " + strings.Join(strings.Fields(e.text), " ") + "; "
			}
			if len(t) > 150 {
				t = t[:150]
			}
			fmt.Printf("%d\t%s\t%d\t%s\t%s\n", i, f, m.line, m.kind, t)
		}
	}
}

func mutants(name string, src []byte) (ms []mutant) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(a ast.Node) string { return string(src[off(a.Pos()):off(a.End())]) }
	add := func(p token.Pos, kind string, es ...edit) {
		ms = append(ms, mutant{fset.Position(p).Line, kind, es})
	}
	rep := func(n ast.Node, s string) edit { return edit{off(n.Pos()), off(n.End()), s} }
	simple := func(s ast.Stmt) bool {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
			return true
		case *ast.AssignStmt:
			return x.Tok != token.DEFINE
		}
		return false
	}
	lockCall := func(s ast.Stmt) bool {
		var c *ast.CallExpr
		switch x := s.(type) {
		case *ast.ExprStmt:
			c, _ = x.X.(*ast.CallExpr)
		case *ast.DeferStmt:
			c = x.Call
		}
		if c == nil {
			return false
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		switch sel.Sel.Name {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return true
		}
		return false
	}
	block := func(l []ast.Stmt) {
		for i, s := range l {
			if simple(s) || isBranch(s) {
				if !lockCall(s) {
					add(s.Pos(), "del", rep(s, ""))
				}
			}
			if i+1 < len(l) && simple(s) && simple(l[i+1]) {
				a, b := text(s), text(l[i+1])
				if a != b {
					add(s.Pos(), "swap", rep(s, b), rep(l[i+1], a))
				}
			}
			// an unlock moved past the next statement, or before the one preceding it
			if lockCall(s) && strings.HasSuffix(text(s), "Unlock()") {
				if i > 0 && !simple(l[i-1]) {
					if _, ok := l[i-1].(*ast.AssignStmt); !ok {
						add(s.Pos(), "early-unlock", edit{off(l[i-1].Pos()), off(l[i-1].Pos()), text(s) + "\n"}, rep(s, ""))
					}
				}
			}
			if g, ok := s.(*ast.GoStmt); ok {
				add(s.Pos(), "nogo", rep(s, text(g.Call)))
			}
			if x, ok := s.(*ast.IfStmt); ok && x.Else == nil && x.Init == nil {
				add(s.Pos(), "delif", rep(s, ""))
			}
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				return false
			}
			var es []edit
			ast.Inspect(x.Body, func(m ast.Node) bool {
				if s, ok := m.(ast.Stmt); ok && lockCall(s) {
					es = append(es, rep(s, ""))
					return false
				}
				return true
			})
			if len(es) > 0 {
				add(x.Pos(), "nolock", es...)
			}
		case *ast.BlockStmt:
			block(x.List)
		case *ast.CaseClause:
			block(x.Body)
		case *ast.CommClause:
			block(x.Body)
		case *ast.SelectStmt:
			if len(x.Body.List) > 1 {
				for _, c := range x.Body.List {
					add(c.Pos(), "delcase", rep(c, ""))
				}
			}
		case *ast.SwitchStmt:
			if len(x.Body.List) > 1 {
				for _, c := range x.Body.List {
					add(c.Pos(), "delcase", rep(c, ""))
				}
			}
		case *ast.IfStmt:
			c := text(x.Cond)
			add(x.Pos(), "iffalse", rep(x.Cond, "("+c+") && zfalse"))
			add(x.Pos(), "iftrue", rep(x.Cond, "("+c+") || ztrue"))
		case *ast.BinaryExpr:
			swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">",
				token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+",
				token.OR: "&", token.AND: "|"}
			if t := swap[x.Op]; t != "" {
				add(x.OpPos, "op", edit{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), t})
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "left", rep(x, text(x.X)))
				add(x.OpPos, "right", rep(x, text(x.Y)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), "const", rep(x, "("+x.Value+"+1)"))
				if x.Value != "0" {
					add(x.Pos(), "const", rep(x, "("+x.Value+"-1)"))
				}
			}
		case *ast.ImportSpec:
			return false
		}
		return true
	})
	// conditions the compiler does not see through
	for i := range ms {
		for j := range ms[i].edits {
			e := &ms[i].edits[j]
			e.text = strings.ReplaceAll(e.text, "zfalse", "len(\"\") != 0")
			e.text = strings.ReplaceAll(e.text, "ztrue", "len(\"\") == 0")
		}
	}
	return
}

func isBranch(s ast.Stmt) bool {
	b, ok := s.(*ast.BranchStmt)
	return ok && (b.Tok == token.BREAK || b.Tok == token.CONTINUE)
}
