// mutate lists small syntactic changes of Go files as JSON lines {file,start,end,new,desc}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New, Desc  string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cut := func(s string) string {
			if len(s) > 70 {
				s = s[:70] + "…"
			}
			return s
		}
		emit := func(n ast.Node, s, d string) {
			enc.Encode(mut{fn, off(n.Pos()), off(n.End()), s, d + ": " + cut(text(n)) + " -> " + cut(s), fs.Position(n.Pos()).Line})
		}
		for _, decl := range f.Decls {
			fd, ok := decl.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
							return false // covered by the condition
						}
						args := ""
						for _, a := range c.Args {
							args += "_ = " + text(a) + "; "
						}
						emit(x, args, "drop call")
					}
				case *ast.IfStmt:
					emit(x.Cond, "(false && ("+text(x.Cond)+"))", "never")
					emit(x.Cond, "(true || ("+text(x.Cond)+"))", "always")
				case *ast.ForStmt:
					if b, ok := x.Cond.(*ast.BinaryExpr); ok {
						if b.Op == token.LSS {
							emit(b.Y, "("+text(b.Y)+")-1", "one iteration less")
						}
						if b.Op == token.GEQ {
							emit(b.Y, "("+text(b.Y)+")+1", "one iteration less")
						}
					}
					if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 {
						if l, ok := a.Rhs[0].(*ast.BasicLit); ok && l.Value == "0" {
							emit(l, "1", "skip first")
						}
					}
				case *ast.RangeStmt:
					emit(x.X, text(x.X)+"[1:]", "skip first") // may not compile
					emit(x.X, text(x.X)+"[:len("+text(x.X)+")-1]", "skip last")
				case *ast.BinaryExpr:
					alt := map[token.Token]string{token.ADD: "-", token.SUB: "+", token.MUL: "+", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.QUO: "*", token.REM: "/", token.SHL: ">>", token.SHR: "<<"}
					if a, ok := alt[x.Op]; ok {
						emit(x, text(x.X)+" "+a+" "+text(x.Y), "operator")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x, fmt.Sprint(v+1), "literal")
							if v > 0 {
								emit(x, fmt.Sprint(v-1), "literal")
							}
						}
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
						emit(x, "_ = "+text(x.Rhs[0]), "drop assignment")
					}
				case *ast.CallExpr:
					if len(x.Args) >= 2 {
						for i := 0; i+1 < len(x.Args); i++ {
							s := string(src[off(x.Pos()):off(x.Args[i].Pos())]) + text(x.Args[i+1]) + string(src[off(x.Args[i].End()):off(x.Args[i+1].Pos())]) + text(x.Args[i]) + string(src[off(x.Args[i+1].End()):off(x.End())])
							if text(x.Args[i]) != text(x.Args[i+1]) {
								emit(x, s, "swap arguments")
							}
						}
					}
				case *ast.IndexExpr:
					emit(x.Index, "("+text(x.Index)+")*0", "first element")
				}
				return true
			})
		}
	}
}
