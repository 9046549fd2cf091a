// Command mutate lists single edits of a Go file as JSON lines {file, from, to, text, desc}, byte offsets.
// It is a development tool to look for changes the monitors do not notice; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type edit struct {
	File     string
	From, To int
	Text     string
	Desc     string
	Line     int
	Func     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, text, desc string) {
			enc.Encode(edit{file, off(from), off(to), text, desc, fset.Position(from).Line, fn})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
		}
		var visit func(n ast.Node) bool
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "delete "+txt(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete "+txt(s))
					}
				case *ast.IfStmt:
					if x.Else == nil {
						emit(s.Pos(), s.End(), "", "delete if "+txt(x.Cond))
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(s.Pos(), s.End(), "", "delete return")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit(s.Pos(), s.End(), "continue", "break to continue")
					} else if x.Tok == token.CONTINUE && x.Label == nil {
						emit(s.Pos(), s.End(), "break", "continue to break")
					}
					emit(s.Pos(), s.End(), "", "delete "+txt(s))
				}
			}
		}
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" to "+r+" in "+txt(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), "("+txt(x.X)+")", "drop right side of "+txt(x))
					emit(x.Pos(), x.End(), "("+txt(x.Y)+")", "drop left side of "+txt(x))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), txt(x.X), "drop ! in "+txt(x))
				} else if x.Op == token.SUB {
					emit(x.Pos(), x.End(), txt(x.X), "drop - in "+txt(x))
				}
			case *ast.IfStmt:
				if b, ok := x.Cond.(*ast.BinaryExpr); !ok || b.Op != token.EQL && b.Op != token.NEQ {
					emit(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate "+txt(x.Cond))
				}
				if x.Else != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always "+txt(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never "+txt(x.Cond))
				} else {
					emit(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always "+txt(x.Cond))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" to +1")
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" to -1")
				}
				if x.Kind == token.CHAR {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" to next char")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true to false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false to true")
				}
			case *ast.AssignStmt:
				switch x.Tok {
				case token.ADD_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "-=", "+= to -= in "+txt(x))
					emit(x.TokPos, x.TokPos+2, "=", "+= to = in "+txt(x))
				case token.SUB_ASSIGN:
					emit(x.TokPos, x.TokPos+2, "+=", "-= to += in "+txt(x))
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(x.TokPos, x.TokPos+2, "--", "++ to -- in "+txt(x))
				} else {
					emit(x.TokPos, x.TokPos+2, "++", "-- to ++ in "+txt(x))
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), txt(x.Low)+"+1", "slice low +1 in "+txt(x))
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), txt(x.High)+"-1", "slice high -1 in "+txt(x))
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i > 0 {
							emit(x.List[i-1].End(), e.End(), "", "drop case "+txt(e))
						}
					}
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					switch id := r.(type) {
					case *ast.Ident:
						if id.Name == "err" || id.Name == "e" {
							emit(r.Pos(), r.End(), "nil", fmt.Sprintf("return nil for result %d", i))
						}
					case *ast.CallExpr:
						if len(id.Args) == 1 && i == 0 {
							emit(r.Pos(), r.End(), txt(id.Args[0]), "unwrap call "+txt(r))
						}
					}
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 && !x.Ellipsis.IsValid() {
					emit(x.Args[0].Pos(), x.Args[1].End(), txt(x.Args[1])+", "+txt(x.Args[0]), "swap args of "+txt(x))
				}
			}
			return true
		}
		for _, d := range f.Decls {
			ast.Inspect(d, visit)
		}
	}
}
