// Command mutate lists or applies small changes to a Go source file.
//
//	mutate FILE          lists the changes, one per line: number, line, what
//	mutate FILE N > OUT  writes the file with change N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	add := func(a, b token.Pos, text, what string) {
		es = append(es, edit{off(a), off(b), text, what})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "..."
		}
		return s
	}
	swaps := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, short(text(n))+" : "+n.Op.String()+" -> "+s)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n.Pos(), n.End(), text(n.X), "drop right of "+short(text(n)))
				add(n.Pos(), n.End(), text(n.Y), "drop left of "+short(text(n)))
			}
			if n.Op == token.ADD || n.Op == token.SUB {
				add(n.Pos(), n.End(), text(n.X), "drop right of "+short(text(n)))
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+short(text(n.Cond)))
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never "+short(text(n.Cond)))
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always "+short(text(n.Cond)))
		case *ast.ForStmt:
			if n.Cond != nil {
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never loop "+short(text(n.Cond)))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", n.Value, v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", n.Value, v-1))
					}
				}
			}
			if n.Kind == token.STRING && len(n.Value) > 2 && len(n.Value) < 30 {
				add(n.Pos(), n.End(), `"x"+`+n.Value, "x before "+n.Value)
				add(n.Pos(), n.End(), `""`, "empty for "+n.Value)
			}
			if n.Kind == token.CHAR {
				add(n.Pos(), n.End(), `'\x01'`, "other for "+n.Value)
			}
		case *ast.ExprStmt:
			add(n.Pos(), n.End(), "", "drop "+short(text(n)))
		case *ast.AssignStmt:
			if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN || n.Tok == token.OR_ASSIGN {
				add(n.Pos(), n.End(), "", "drop "+short(text(n)))
			}
			if n.Tok == token.ADD_ASSIGN {
				add(n.TokPos, n.TokPos+2, "-=", short(text(n))+" : -=")
				add(n.TokPos, n.TokPos+2, "=", short(text(n))+" : =")
			}
		case *ast.IncDecStmt:
			add(n.Pos(), n.End(), "", "drop "+short(text(n)))
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.CONTINUE {
				add(n.Pos(), n.End(), "break", "break for continue")
				add(n.Pos(), n.End(), "", "drop continue")
			} else if n.Label == nil && n.Tok == token.BREAK {
				add(n.Pos(), n.End(), "", "drop break")
			}
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					add(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "return other than "+id.Name)
				}
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					add(r.Pos(), r.End(), "nil", "return nil for err: "+short(text(n)))
				}
			}
			add(n.Pos(), n.End(), "", "drop "+short(text(n)))
		case *ast.CaseClause:
			for _, e := range n.List {
				if len(n.List) > 1 {
					// drop one of several
					s := []string{}
					for _, x := range n.List {
						if x != e {
							s = append(s, text(x))
						}
					}
					add(n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(s, ", "), "drop case "+short(text(e)))
				}
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "low+1 in "+short(text(n)))
			}
			if n.High != nil {
				add(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "high-1 in "+short(text(n)))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.Pos(), n.End(), text(n.X), "drop ! of "+short(text(n)))
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, e := range es {
			line := 1 + strings.Count(string(src[:e.from]), "\n")
			fmt.Printf("%d\t%d\t%s\n", i, line, e.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	e := es[i]
	os.Stdout.WriteString(string(src[:e.from]) + e.text + string(src[e.to:]))
}
