// gen writes the go build overlay used by every check.
//
//	gen -repo /repo -mc /verif/mc -out DIR [-plain]
//
// It maps the harness packages of /verif/mc to virtual directories below
// /repo/internal/vmc and, unless -plain is given, replaces every non-test
// source file of /repo/pkg and /repo/internal by a copy in which
//   - import "sync"       -> the controlled-scheduler package vsync
//   - import "math/rand"  -> the controlled-choice package vrand
//   - sql.Open(...)       -> vsql.Open(...) (driver wrapper)
//   - time.Now            -> vtime.Now
//   - go f(x)             -> vsync.Go(func(){...})
//
// The rewriting is syntactic, position preserving enough for line numbers and
// independent of how the code is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/liliang-cn/cortexdb/v2"

func main() {
	repo := flag.String("repo", "/repo", "")
	mc := flag.String("mc", "/verif/mc", "")
	out := flag.String("out", "", "")
	plain := flag.Bool("plain", false, "")
	flag.Parse()
	must(os.MkdirAll(*out, 0o755))
	repl := map[string]string{}
	for _, d := range []string{"vk", "vsync", "vsql", "vrand", "vtime", "checks", "cmd"} {
		fs, _ := filepath.Glob(filepath.Join(*mc, d, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			repl[filepath.Join(*repo, "internal", "vmc", d, filepath.Base(f))] = f
		}
	}
	n := 0
	if !*plain {
		for _, root := range []string{"pkg", "internal"} {
			filepath.Walk(filepath.Join(*repo, root), func(p string, fi os.FileInfo, err error) error {
				if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
					return nil
				}
				src, err := rewrite(p)
				must(err)
				if src == nil {
					return nil
				}
				dst := filepath.Join(*out, fmt.Sprintf("f%04d_%s", n, filepath.Base(p)))
				n++
				must(os.WriteFile(dst, src, 0o644))
				repl[p] = dst
				return nil
			})
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gen:", err)
		os.Exit(3)
	}
}

func rewrite(path string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	changed := false
	need := map[string]bool{}
	name := func(imp, def string) string {
		for _, s := range f.Imports {
			p, _ := strconv.Unquote(s.Path.Value)
			if p == imp {
				if s.Name != nil {
					return s.Name.Name
				}
				return def
			}
		}
		return ""
	}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		var np, def string
		switch p {
		case "sync":
			np, def = mod+"/internal/vmc/vsync", "sync"
		case "math/rand":
			np, def = mod+"/internal/vmc/vrand", "rand"
		default:
			continue
		}
		if s.Name != nil && (s.Name.Name == "." || s.Name.Name == "_") {
			continue
		}
		if s.Name == nil {
			s.Name = ast.NewIdent(def)
		}
		s.Path.Value = strconv.Quote(np)
		s.EndPos = 0
		changed = true
	}
	sqlName, timeName := name("database/sql", "sql"), name("time", "time")
	timeUses := 0
	sqlUses := 0
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		if sqlName != "" && id.Name == sqlName {
			if sel.Sel.Name == "Open" {
				id.Name = "vmc_sql"
				need["vsql"] = true
				changed = true
			} else {
				sqlUses++
			}
		} else if timeName != "" && id.Name == timeName {
			if sel.Sel.Name == "Now" || sel.Sel.Name == "NewTicker" || sel.Sel.Name == "AfterFunc" {
				id.Name = "vmc_time"
				need["vtime"] = true
				changed = true
			} else {
				timeUses++
			}
		}
		return true
	})
	// go statements
	rewriteGo := func(g *ast.GoStmt) ast.Stmt {
		call := g.Call
		// func() func() { f := F; a0 := A0; ...; return func(){ f(a0,...) } }()
		if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("vmc_sync", "Go"), Args: []ast.Expr{fl}}}
		}
		var stmts []ast.Stmt
		stmts = append(stmts, define("vmc_f", call.Fun))
		var args []ast.Expr
		for i, a := range call.Args {
			nm := fmt.Sprintf("vmc_a%d", i)
			if _, lit := a.(*ast.BasicLit); lit {
				args = append(args, a)
				continue
			}
			stmts = append(stmts, define(nm, a))
			args = append(args, ast.NewIdent(nm))
		}
		inner := &ast.CallExpr{Fun: ast.NewIdent("vmc_f"), Args: args}
		if call.Ellipsis.IsValid() {
			inner.Ellipsis = 1
		}
		stmts = append(stmts, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("vmc_sync", "Go"), Args: []ast.Expr{
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}}}})
		return &ast.BlockStmt{List: stmts}
	}
	fix := func(list []ast.Stmt) {
		for i, s := range list {
			if g, ok := s.(*ast.GoStmt); ok {
				list[i] = rewriteGo(g)
				need["vsync"] = true
				changed = true
			}
			if l, ok := s.(*ast.LabeledStmt); ok {
				if g, ok := l.Stmt.(*ast.GoStmt); ok {
					l.Stmt = rewriteGo(g)
					need["vsync"] = true
					changed = true
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			fix(x.List)
		case *ast.CaseClause:
			fix(x.Body)
		case *ast.CommClause:
			fix(x.Body)
		}
		return true
	})
	if !changed {
		return nil, nil
	}
	var specs []ast.Spec
	add := func(nm, pkg string) {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent(nm), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mod + "/internal/vmc/" + pkg)}})
	}
	if need["vsql"] {
		add("vmc_sql", "vsql")
	}
	if need["vtime"] {
		add("vmc_time", "vtime")
	}
	if need["vsync"] {
		add("vmc_sync", "vsync")
	}
	// keep imports used
	var extra []ast.Decl
	if len(specs) > 0 {
		d := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
	}
	if need["vsql"] && sqlUses == 0 && sqlName != "" {
		extra = append(extra, keep(sqlName, "ErrNoRows"))
	}
	if need["vtime"] && timeUses == 0 && timeName != "" {
		extra = append(extra, keep(timeName, "Second"))
	}
	f.Decls = append(f.Decls, extra...)
	// comments may confuse the printer near rewritten nodes: keep only build tags and directives
	var keepc []*ast.CommentGroup
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") {
				keepc = append(keepc, g)
				break
			}
		}
	}
	f.Comments = keepc
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Doc != nil && !has(keepc, x.Doc) {
				x.Doc = nil
			}
		case *ast.FuncDecl:
			if x.Doc != nil && !has(keepc, x.Doc) {
				x.Doc = nil
			}
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.File:
			if x.Doc != nil && !has(keepc, x.Doc) {
				x.Doc = nil
			}
		}
		return true
	})
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func has(l []*ast.CommentGroup, g *ast.CommentGroup) bool {
	for _, x := range l {
		if x == g {
			return true
		}
	}
	return false
}

func sel(a, b string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(a), Sel: ast.NewIdent(b)} }
func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}
func keep(pkg, name string) ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel(pkg, name)}}}}
}
