// automut lists small mechanical changes of a Go file as JSON lines:
// {"off":start,"end":end,"new":text,"what":...,"line":n}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

func main() {
	path := os.Args[1]
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	fn := ""
	out := func(a, b token.Pos, new, what string) {
		o, e := fs.Position(a).Offset, fs.Position(b).Offset
		enc.Encode(map[string]interface{}{"off": o, "end": e, "new": new, "what": what, "line": fs.Position(a).Line, "old": string(src[o:e]), "fn": fn})
	}
	text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
	quiet := func(n ast.Node) bool {
		t := strings.TrimSpace(text(n))
		for _, p := range []string{"log.", "meter.", "lagGauge.", "hbGauge", "metrics.", "defer ", "panic(", "_ ="} {
			if strings.HasPrefix(t, p) {
				return true
			}
		}
		return strings.Contains(t, "Meter.Mark") || strings.Contains(t, "Timer.Update") || strings.Contains(t, "Gauge.") || strings.Contains(t, "err.Error()")
	}
	swaps := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
		token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*"}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				if s, ok := swaps[x.Op]; ok {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				if c != "err != nil" {
					out(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never")
				}
				if x.Else != nil {
					out(x.Body.End(), x.Else.End(), "", "no else")
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
				if quiet(n) {
					return true
				}
				if len(text(n)) < 400 {
					out(n.Pos(), n.End(), "", "drop")
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && !quiet(n) && len(text(n)) < 400 {
					out(n.Pos(), n.End(), "", "drop")
				}
			case *ast.BranchStmt:
				out(n.Pos(), n.End(), "", "drop")
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					out(n.Pos(), n.End(), "", "drop")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						out(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
						if v > 3 {
							out(x.Pos(), x.End(), fmt.Sprint(v/4), "int")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.CallExpr:
				if quiet(x) {
					return false
				}
			}
			return true
		})
	}
}
