// mutate lists small changes to Go files: one JSON object per line with the
// byte range to replace, the replacement and what it is.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	From, To int
	New      string
	What     string
	Line     int
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, with, what string) {
			b, _ := json.Marshal(mutant{file, off(from), off(to), with, what, fset.Position(from).Line})
			fmt.Println(string(b))
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		remove := func(s ast.Stmt) {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
				emit(s.Pos(), s.End(), "", "remove "+text(s))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					with := ""
					for i, r := range s.Rhs {
						if i < len(s.Rhs) {
							with += "_ = " + text(r) + ";"
						}
					}
					if len(s.Lhs) != len(s.Rhs) {
						return
					}
					emit(s.Pos(), s.End(), with, "remove "+text(s))
				}
			case *ast.IfStmt:
				if s.Init == nil && s.Else == nil {
					emit(s.Pos(), s.End(), "", "remove if "+text(s.Cond))
				}
			case *ast.ForStmt, *ast.RangeStmt:
				emit(s.Pos(), s.End(), "", "remove loop")
			case *ast.BranchStmt:
				if s.Tok == token.BREAK || s.Tok == token.CONTINUE {
					emit(s.Pos(), s.End(), "", "remove "+text(s))
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					emit(s.Pos(), s.End(), "", "remove return")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok == token.VAR || n.Tok == token.CONST
			case *ast.BinaryExpr:
				for _, op := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op, n.Op.String()+" to "+op+" in "+text(n))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" to "+fmt.Sprint(v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" to "+fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil {
						if v == "" {
							emit(n.Pos(), n.End(), `"~"`, `"" to "~"`)
						} else {
							emit(n.Pos(), n.End(), strconv.Quote(v[:len(v)-1]), n.Value+" cut short")
							emit(n.Pos(), n.End(), strconv.Quote(v+"~"), n.Value+" with ~")
						}
					}
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always "+text(n.Cond))
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							emit(r.Pos(), r.End(), "false", "return false")
						case "false":
							emit(r.Pos(), r.End(), "true", "return true")
						case "err":
							emit(r.Pos(), r.End(), "nil", "return nil for err")
						}
					}
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					remove(s)
				}
				for i := 0; i+1 < len(n.List); i++ {
					a, b := n.List[i], n.List[i+1]
					_, ra := a.(*ast.ReturnStmt)
					_, rb := b.(*ast.ReturnStmt)
					if !ra && !rb {
						emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap "+text(a)+" AND "+text(b))
					}
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					remove(s)
				}
			case *ast.CommClause:
				for _, s := range n.Body {
					remove(s)
				}
			case *ast.IncDecStmt:
				with := "--"
				if n.Tok == token.DEC {
					with = "++"
				}
				emit(n.TokPos, n.End(), with, n.Tok.String()+" to "+with)
			case *ast.AssignStmt:
				switch n.Tok {
				case token.ADD_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "-=", "+= to -=")
				case token.SUB_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "+=", "-= to +=")
				case token.XOR_ASSIGN:
					emit(n.TokPos, n.TokPos+2, "|=", "^= to |=")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "slice from one later")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice to one less")
				}
			case *ast.CallExpr: // swap the first two arguments
				if len(n.Args) >= 2 {
					a, b := n.Args[0], n.Args[1]
					emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap arguments of "+text(n))
				}
			}
			return true
		})
	}
}
