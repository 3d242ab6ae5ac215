// mutate lists small changes of Go files, one JSON line each: where, what, and the replacement text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := string(src[off(fd.Recv.List[0].Type.Pos()):off(fd.Recv.List[0].Type.End())])
				name = strings.TrimPrefix(t, "*") + "." + name
			}
			emit := func(kind string, s, e token.Pos, repl string) {
				enc.Encode(mut{f, fs.Position(s).Line, name, kind, off(s), off(e), repl, string(src[off(s):off(e)])})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range swaps[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit("bool", x.Pos(), x.End(), "true")
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit("if-never", x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
					emit("if-always", x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
				case *ast.IncDecStmt:
					r := "++"
					if x.Tok == token.INC {
						r = "--"
					}
					emit("incdec", x.TokPos, x.TokPos+2, r)
				case *ast.BlockStmt:
					for _, s := range x.List {
						del(s, src, off, emit)
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						del(s, src, off, emit)
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit("slice-low", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
					}
					if x.High != nil {
						emit("slice-high", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					}
				}
				return true
			})
		}
	}
}

func del(s ast.Stmt, src []byte, off func(token.Pos) int, emit func(string, token.Pos, token.Pos, string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
		emit("delete", s.Pos(), s.End(), "")
	case *ast.BranchStmt:
		if x.Label == nil {
			emit("delete", s.Pos(), s.End(), "")
			if x.Tok == token.BREAK {
				emit("branch", s.Pos(), s.End(), "continue")
			} else if x.Tok == token.CONTINUE {
				emit("branch", s.Pos(), s.End(), "break")
			}
		}
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			// keep the names in use
			if x.Tok == token.ASSIGN {
				var b strings.Builder
				for i, r := range x.Rhs {
					if i > 0 {
						b.WriteString(", ")
					}
					b.WriteString(string(src[off(r.Pos()):off(r.End())]))
				}
				bl := strings.TrimSuffix(strings.Repeat("_, ", len(x.Lhs)), ", ")
				emit("no-assign", s.Pos(), s.End(), bl+" = "+b.String())
			} else {
				emit("delete", s.Pos(), s.End(), "")
			}
		}
	}
}
