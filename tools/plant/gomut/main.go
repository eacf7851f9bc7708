// gomut lists small edits of Go files, one JSON object per line: a development tool, see gomut.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	File, Kind, Old, New string
	Line, From, To       int
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, from, to token.Pos, repl string) {
			b, _ := json.Marshal(edit{file, kind, string(src[off(from):off(to)]), repl, fs.Position(from).Line, off(from), off(to)})
			fmt.Println(string(b))
		}
		isLog := func(n ast.Node) bool { return strings.HasPrefix(strings.TrimSpace(text(n)), "log.") || strings.HasPrefix(text(n), "debug.") }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec, *ast.StructType:
				return false
			case *ast.ExprStmt:
				if isLog(x) {
					return false
				}
				emit("delete", x.Pos(), x.End(), "{}")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					if t := text(x); !strings.HasPrefix(t, "_ = ") || strings.Contains(t, "(") {
						emit("delete", x.Pos(), x.End(), "{}")
					}
				}
			case *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				emit("delete", x.Pos(), x.End(), "{}")
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
					emit("delete", x.Pos(), x.End(), "{}")
				}
			case *ast.IfStmt:
				emit("true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
				emit("false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			case *ast.CaseClause:
				if len(x.Body) > 0 && len(x.List) > 0 {
					emit("empty case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "{}")
				}
			case *ast.BinaryExpr:
				m := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*"}
				if r, ok := m[x.Op]; ok {
					emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, _ := strconv.ParseInt(x.Value, 0, 64)
					emit("number", x.Pos(), x.End(), fmt.Sprint(v+1))
				case token.STRING:
					if len(x.Value) > 2 && !strings.Contains(x.Value, "%") {
						emit("string", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"~"+x.Value[len(x.Value)-1:])
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit("bool", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.CallExpr:
				if isLog(x) {
					return false
				}
				if s := text(x.Fun); s == "strings.TrimSpace" {
					emit("call", x.Pos(), x.End(), text(x.Args[0]))
				}
			}
			return true
		})
	}
}
