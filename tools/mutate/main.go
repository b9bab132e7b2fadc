// Command mutate writes first order mutants of Go files: mutate OUTDIR FILE...
// Each mutant is OUTDIR/<n>.json {"file": ..., "line": ..., "what": ..., "src": ...}.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

var n int

func main() {
	for _, f := range os.Args[2:] {
		for k := 0; ; k++ {
			if !mutant(os.Args[1], f, k) {
				break
			}
		}
	}
	fmt.Println(n, "mutants")
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.QUO: {token.MUL}, token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.AND: {token.OR}, token.OR: {token.AND}, token.REM: {token.QUO},
}

// mutant applies the k-th mutation of the file, false if there are fewer
func mutant(out, file string, k int) bool {
	fset := token.NewFileSet()
	tree, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	i, done, line, what := 0, false, 0, ""
	hit := func(node ast.Node, desc string, do func()) {
		if i == k && !done {
			done, line, what = true, fset.Position(node.Pos()).Line, desc
			do()
		}
		i++
	}
	var inFunc bool
	ast.Inspect(tree, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.FuncDecl:
			inFunc = true
		case *ast.GenDecl:
			if v.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swaps[v.Op] {
				t := t
				hit(v, fmt.Sprint(v.Op, " -> ", t), func() { v.Op = t })
			}
		case *ast.BasicLit:
			if v.Kind == token.INT {
				if x, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
					for _, d := range []int64{1, -1} {
						d := d
						hit(v, fmt.Sprint(v.Value, " -> ", x+d), func() { v.Value = fmt.Sprint(x + d) })
					}
				}
			}
			if v.Kind == token.STRING && len(v.Value) > 2 && inFunc {
				hit(v, v.Value+" -> empty", func() { v.Value = `""` })
			}
		case *ast.Ident:
			if v.Name == "true" || v.Name == "false" {
				hit(v, "not "+v.Name, func() { v.Name = map[string]string{"true": "false", "false": "true"}[v.Name] })
			}
		case *ast.IfStmt:
			hit(v, "if true", func() { v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
			hit(v, "if false", func() { v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.Cond}, Op: token.LAND, Y: ast.NewIdent("false")} })
			if v.Else != nil {
				hit(v, "no else", func() { v.Else = nil })
			}
		case *ast.BlockStmt:
			for j := range v.List {
				j := j
				switch s := v.List[j].(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt:
					if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
						continue
					}
					hit(v.List[j], "statement removed", func() { v.List[j] = &ast.EmptyStmt{} })
				}
			}
		case *ast.CaseClause:
			if len(v.List) > 1 {
				for j := range v.List {
					j := j
					hit(v, fmt.Sprint("case ", j, " removed"), func() { v.List = append(append([]ast.Expr{}, v.List[:j]...), v.List[j+1:]...) })
				}
			}
			if v.List != nil {
				hit(v, "case never", func() {
					v.Body = nil
				})
			}
		case *ast.BranchStmt:
			if v.Tok == token.BREAK {
				hit(v, "break -> continue", func() { v.Tok = token.CONTINUE })
			}
			if v.Tok == token.CONTINUE {
				hit(v, "continue -> break", func() { v.Tok = token.BREAK })
			}
		case *ast.CallExpr:
			for j, a := range v.Args {
				j, a := j, a
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "int" && j == 0 {
					for _, t := range []string{"uint8", "int8", "int16"} {
						t := t
						hit(v, "int -> int of "+t, func() { v.Args[0] = &ast.CallExpr{Fun: ast.NewIdent(t), Args: []ast.Expr{a}} })
					}
				}
			}
			if len(v.Args) > 1 {
				if s, ok := v.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "inTables" {
					break
				}
				if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "inTables" {
					for j := 1; j < len(v.Args); j++ {
						j := j
						hit(v, fmt.Sprint("argument ", j, " removed"), func() { v.Args = append(append([]ast.Expr{}, v.Args[:j]...), v.Args[j+1:]...) })
					}
				}
			}
		case *ast.SliceExpr:
			if v.Low != nil {
				hit(v, "no low", func() { v.Low = nil })
			}
			if v.High != nil {
				hit(v, "no high", func() { v.High = nil })
			}
		case *ast.ReturnStmt:
			for j, r := range v.Results {
				j := j
				if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "nil") {
					hit(v, id.Name+" flipped", func() {
						if id.Name == "err" {
							v.Results[j] = ast.NewIdent("nil")
						}
					})
				}
			}
		case *ast.UnaryExpr:
			if v.Op == token.NOT {
				hit(v, "! removed", func() { v.Op = token.NOT; v.X = &ast.UnaryExpr{Op: token.NOT, X: v.X} })
			}
		}
		return true
	})
	if !done {
		return false
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, tree); err != nil {
		return true
	}
	n++
	js, _ := json.Marshal(map[string]any{"file": file, "line": line, "what": what, "src": b.String()})
	os.WriteFile(filepath.Join(out, fmt.Sprintf("%04d.json", n)), js, 0o644)
	return true
}
