//go:build ignore

// mutate lists small source changes of the given Go files as JSON lines.
// It is a development aid: checks never run it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string
	Line     int
	Off, End int
	New, Op  string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, s, op string) {
			enc.Encode(mut{name, fs.Position(a).Line, off(a), off(b), s, op})
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete")
					}
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						emit(s.Pos(), s.End(), "", "delete-if")
					}
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete")
				}
			}
			for i := 0; i+1 < len(l); i++ {
				a, b := l[i], l[i+1]
				_, ok1 := a.(*ast.ReturnStmt)
				_, ok2 := b.(*ast.ReturnStmt)
				if ok1 || ok2 {
					continue
				}
				emit(a.Pos(), b.End(), txt(b)+"\n"+txt(a), "swap-stmts")
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
					token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
					token.LAND: {"||"}, token.LOR: {"&&"},
				}[x.Op]
				for _, a := range alt {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), txt(x.X), "drop-right")
					emit(x.Pos(), x.End(), txt(x.Y), "drop-left")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), txt(x.X), "drop-not")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "const")
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), "const")
					}
				}
				if x.Kind == token.CHAR {
					emit(x.Pos(), x.End(), "'~'", "const")
				}
				if x.Kind == token.STRING {
					if s, err := strconv.Unquote(x.Value); err == nil {
						emit(x.Pos(), x.End(), strconv.Quote(s+"x"), "string")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate")
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i := range x.List {
						if i+1 < len(x.List) {
							emit(x.List[i].Pos(), x.List[i+1].Pos(), "", "drop-case")
						} else {
							emit(x.List[i-1].End(), x.List[i].End(), "", "drop-case")
						}
					}
				}
				if x.List != nil {
					emit(x.Pos(), x.End(), "", "delete-clause")
				}
			case *ast.ReturnStmt:
				k := len(x.Results)
				if k > 0 {
					if id, ok := x.Results[k-1].(*ast.Ident); !ok || (id.Name != "nil" && id.Name != "true" && id.Name != "false") {
						emit(x.Results[k-1].Pos(), x.Results[k-1].End(), "nil", "nil-result")
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					if txt(x.Args[i]) != txt(x.Args[i+1]) {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), txt(x.Args[i+1])+", "+txt(x.Args[i]), "swap-args")
					}
				}
				if len(x.Args) == 1 {
					if id, ok := x.Fun.(*ast.Ident); ok {
						switch id.Name {
						case "uint64", "uint32", "uint16", "uint8", "int64", "int32", "int16", "int8", "int", "byte":
							for _, o := range []string{"uint8", "int8", "uint16", "int16", "uint32", "int32"} {
								if o != id.Name {
									emit(x.Pos(), x.End(), id.Name+"("+o+"("+txt(x.Args[0])+"))", "narrow")
								}
							}
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), txt(x.Low)+"+1", "slice")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), txt(x.High)+"-1", "slice")
				}
			}
			return true
		})
	}
}
