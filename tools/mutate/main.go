// mutate lists the mutants of the non-test sources of a repository, or writes one of them.
// usage: mutate REPO            lists "N FILE:LINE DESCRIPTION"
//
//	mutate REPO N           changes the file in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	file     string
	line     int
	from, to int
	text     string
	desc     string
}

func main() {
	repo := os.Args[1]
	var edits []edit
	for _, dir := range []string{"internal", "cmd"} {
		filepath.Walk(filepath.Join(repo, dir), func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, "docs.go") && !strings.HasSuffix(p, "completion.go") {
				edits = append(edits, mutants(p)...)
			}
			return nil
		})
	}
	if len(os.Args) < 3 {
		for i, e := range edits {
			r, _ := filepath.Rel(repo, e.file)
			fmt.Printf("%d %s:%d %s\n", i, r, e.line, e.desc)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	e := edits[n]
	src, _ := os.ReadFile(e.file)
	out := string(src[:e.from]) + e.text + string(src[e.to:])
	os.WriteFile(e.file, []byte(out), 0o644)
}

func mutants(p string) []edit {
	src, _ := os.ReadFile(p)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, src, 0)
	if err != nil {
		return nil
	}
	var r []edit
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	add := func(a, b token.Pos, text, kind string) {
		old := strings.Join(strings.Fields(string(src[off(a):off(b)])), " ")
		if len(old) > 80 {
			old = old[:80]
		}
		r = append(r, edit{p, fset.Position(a).Line, off(a), off(b), text, kind + " {" + old + "} -> {" + text + "}"})
	}
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"/"}, token.MUL: {"+"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "op")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				v := "true"
				if x.Op == token.LOR {
					v = "false"
				}
				add(x.X.Pos(), x.X.End(), v, "side")
				add(x.Y.Pos(), x.Y.End(), v, "side")
			}
		case *ast.IfStmt:
			if x.Init == nil {
				add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if-false")
				add(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if-true")
			} else {
				add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "if-false")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, x.OpPos+1, "", "not")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), x.End(), x.Value+"+1", "int")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "bool")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "bool")
			}
		case *ast.BlockStmt:
			stmts(x.List, add)
		case *ast.CaseClause:
			stmts(x.Body, add)
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Low.Pos(), x.Low.End(), "", "slice-low")
			}
			if x.High != nil {
				add(x.High.Pos(), x.High.End(), "", "slice-high")
			}
		}
		return true
	})
	return r
}

func stmts(l []ast.Stmt, add func(a, b token.Pos, text, kind string)) {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			add(s.Pos(), s.End(), "", "remove")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(s.Pos(), s.End(), "", "remove")
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
				add(s.Pos(), s.End(), "", "remove")
				o := "break"
				if x.Tok == token.BREAK {
					o = "continue"
				}
				if x.Label == nil {
					add(s.Pos(), s.End(), o, "branch")
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				add(s.Pos(), s.End(), "", "remove")
			}
			if len(x.Results) > 0 {
				last := x.Results[len(x.Results)-1]
				if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
					add(last.Pos(), last.End(), "nil", "swallow")
				}
				if c, ok := last.(*ast.CallExpr); ok {
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Errorf" {
						add(last.Pos(), last.End(), "nil", "swallow")
					}
				}
			}
		case *ast.RangeStmt, *ast.ForStmt:
			add(s.Pos(), s.End(), "", "remove-loop")
		}
	}
}
