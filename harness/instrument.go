package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// yieldSource is the package which is added to the instrumented build: a call before each statement which
// delays or yields at some sites, chosen by the seed in the environment. It does nothing without that seed.
const yieldSource = `package verifyield

import (
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"time"
)

var (
	seed   uint64
	sleeps int64
	visits uint64
)

func init() {
	n, err := strconv.ParseUint(os.Getenv("YOTVERIF_SCHED"), 10, 64)
	if err == nil {
		seed = n*2654435761 + 1
	}
}

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// At is called before a statement.
func At(site uint64) {
	if seed == 0 {
		return
	}
	h := mix(seed ^ site*0x9e3779b97f4a7c15)
	v := atomic.AddUint64(&visits, 1)
	switch {
	case h%11 == 0:
		if mix(h^v)%3 == 0 && atomic.AddInt64(&sleeps, 1) < 300 {
			time.Sleep(time.Duration(20+mix(v^seed)%180) * time.Microsecond)
		}
	case h%5 == 0:
		if mix(h^v)%2 == 0 {
			runtime.Gosched()
		}
	}
}
`

// instrument writes copies of all non-test sources below internal and cmd with a call in front of every
// statement, and an overlay file for go build.
func instrument(repo, out string) error {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	module := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	replace := map[string]string{}
	site := 0
	files := 0
	err = filepath.Walk(filepath.Join(repo, "internal"), func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0) // without comments, which could move into statements
		if err != nil {
			return err
		}
		if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("// +build")) {
			return nil
		}
		before := site
		call := func() ast.Stmt {
			site++
			return &ast.ExprStmt{X: &ast.CallExpr{
				Fun:  &ast.SelectorExpr{X: ast.NewIdent("verifyield"), Sel: ast.NewIdent("At")},
				Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(site)}},
			}}
		}
		weave := func(l []ast.Stmt) []ast.Stmt {
			var r []ast.Stmt
			for _, s := range l {
				r = append(r, call(), s)
			}
			return r
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				for _, c := range x.Body.List {
					c.(*ast.CaseClause).Body = weave(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					c.(*ast.CaseClause).Body = weave(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					c.(*ast.CommClause).Body = weave(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				clauses := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						clauses = true
					}
				}
				if !clauses {
					x.List = weave(x.List)
				}
			}
			return true
		})
		if site == before {
			return nil
		}
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", module+"/internal/verifyield")}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			return err
		}
		dst := filepath.Join(out, fmt.Sprintf("i%d.go", files))
		files++
		replace[p] = dst
		return os.WriteFile(dst, b.Bytes(), 0o644)
	})
	if err != nil {
		return err
	}
	y := filepath.Join(out, "yield.go")
	if err := os.WriteFile(y, []byte(yieldSource), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(repo, "internal/verifyield/yield.go")] = y
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	fmt.Println("instrumented", files, "files,", site, "statements")
	return os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644)
}
