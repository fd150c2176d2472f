// mutgen lists mutants of Go files: mutgen FILE... prints one JSON object per line
// {file, start, end, new, kind, line, func}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type Mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				name = fmt.Sprint(string(src[fset.Position(fd.Recv.List[0].Type.Pos()).Offset:fset.Position(fd.Recv.List[0].Type.End()).Offset]), ".", name)
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			emit := func(s, e token.Pos, repl, kind string) {
				enc.Encode(Mut{filepath.Base(fn), off(s), off(e), repl, string(src[off(s):off(e)]), kind, fset.Position(s).Line, name})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			results := 0
			_ = results
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncLit:
					return true
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "delete-call")
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "delete-defer")
				case *ast.GoStmt:
					emit(x.Pos(), x.Call.Pos(), "", "go-to-call")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "delete-assign")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "delete-incdec")
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate-if")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if-false")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "if-true")
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "for-false")
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "", "delete-break")
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue-break")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						t := text(r)
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "err", "e", "exc":
								emit(r.Pos(), r.End(), "nil", "return-nil")
							case "true":
								emit(r.Pos(), r.End(), "false", "return-false")
							case "false":
								emit(r.Pos(), r.End(), "true", "return-true")
							}
						}
						if c, ok := r.(*ast.CallExpr); ok && len(x.Results) > 0 && r == x.Results[len(x.Results)-1] {
							_ = c
							emit(r.Pos(), r.End(), "nil", "return-call-nil")
						}
						_ = t
					}
				case *ast.BinaryExpr:
					var alt []string
					switch x.Op {
					case token.LSS:
						alt = []string{"<=", ">="}
					case token.LEQ:
						alt = []string{"<"}
					case token.GTR:
						alt = []string{">=", "<="}
					case token.GEQ:
						alt = []string{">"}
					case token.EQL:
						alt = []string{"!="}
					case token.NEQ:
						alt = []string{"=="}
					case token.LAND:
						alt = []string{"||"}
					case token.LOR:
						alt = []string{"&&"}
					case token.ADD:
						alt = []string{"-"}
					case token.SUB:
						alt = []string{"+"}
					case token.AND:
						alt = []string{"|"}
					case token.OR:
						alt = []string{"&"}
					case token.SHL:
						alt = []string{">>"}
					case token.SHR:
						alt = []string{"<<"}
					}
					for _, a := range alt {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op "+x.Op.String()+" to "+a)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "int+1")
							if v > 0 {
								emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "int-1")
							}
						}
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 {
						// an empty case body
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty-case")
					}
				}
				return true
			})
		}
	}
}
