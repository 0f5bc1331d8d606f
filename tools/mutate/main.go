// mutate lists small changes of Go source files, one JSON object per line:
// {"file","line","off","end","new","op"}. Used by run.py to measure what the checks miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, _ := os.ReadFile(name)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		o := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[o(n.Pos()):o(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "String" || fd.Name.Name == "Error" || strings.HasPrefix(fd.Name.Name, "inspect") {
				continue
			}
			emit := func(n ast.Node, off, end int, repl, op string) {
				enc.Encode(mut{name, fd.Name.Name, fset.Position(n.Pos()).Line, off, end, repl, op})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					// messages
					if s := text(x.Fun); strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "warn") || strings.HasPrefix(s, "errors.") || s == "generatorError" {
						return false
					}
				case *ast.IfStmt:
					emit(x, o(x.Cond.Pos()), o(x.Cond.End()), "!("+text(x.Cond)+")", "negate")
					if x.Init == nil {
						emit(x, o(x.Cond.Pos()), o(x.Cond.End()), "("+text(x.Cond)+") && !true", "never")
						emit(x, o(x.Cond.Pos()), o(x.Cond.End()), "("+text(x.Cond)+") || true", "always")
					} else {
						emit(x, o(x.Cond.Pos()), o(x.Cond.End()), "("+text(x.Cond)+") && !true", "never")
					}
				case *ast.BinaryExpr:
					r := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}[x.Op]
					for _, s := range r {
						if x.Op == token.ADD && strings.Contains(text(x), `"`) {
							continue
						}
						emit(x, o(x.OpPos), o(x.OpPos)+len(x.Op.String()), s, x.Op.String()+"->"+s)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, o(x.Pos()), o(x.End()), text(x.X), "left only")
						emit(x, o(x.Pos()), o(x.End()), text(x.Y), "right only")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT && len(x.Value) < 6 {
						emit(x, o(x.Pos()), o(x.End()), "("+x.Value+"+1)", "int+1")
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit(x, o(x.Pos()), o(x.End()), map[string]string{"true": "false", "false": "true"}[x.Name], "flip")
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x, o(x.Pos()), o(x.End()), "break", "continue->break")
					} else if x.Label == nil && x.Tok == token.BREAK {
						emit(x, o(x.Pos()), o(x.End()), "continue", "break->continue")
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						last := x.Results[k-1]
						if id, ok := last.(*ast.Ident); ok && strings.HasSuffix(strings.ToLower(id.Name), "err") {
							emit(x, o(last.Pos()), o(last.End()), "nil", "drop error")
						}
						if c, ok := last.(*ast.CallExpr); ok && (text(c.Fun) == "fmt.Errorf" || text(c.Fun) == "errors.New") {
							emit(x, o(last.Pos()), o(last.End()), "nil", "drop error")
						}
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt:
							emit(y, o(y.Pos()), o(y.End()), "", "delete call")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(y, o(y.Pos()), o(y.End()), "", "delete assignment")
							}
							if y.Tok == token.ASSIGN && len(y.Rhs) == 1 {
								if c, ok := y.Rhs[0].(*ast.CallExpr); ok && text(c.Fun) == "append" && len(c.Args) == 2 {
									emit(y, o(y.Pos()), o(y.End()), "", "delete append")
								}
							}
						case *ast.IncDecStmt:
							emit(y, o(y.Pos()), o(y.End()), "", "delete incdec")
						case *ast.DeferStmt:
							emit(y, o(y.Pos()), o(y.End()), "", "delete defer")
						}
					}
				}
				return true
			})
		}
	}
}
