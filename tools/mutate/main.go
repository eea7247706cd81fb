// Command mutate lists small changes of Go source files as JSON lines:
// file, line, byte offsets, replacement and the kind of change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Op    string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		seen := map[string]bool{}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, repl, op string) {
			k := fmt.Sprint(off(from), off(to), repl)
			if seen[k] {
				return
			}
			seen[k] = true
			_ = enc.Encode(mutant{f, fset.Position(from).Line, off(from), off(to), repl, string(src[off(from):off(to)]), op})
		}
		rep := func(n ast.Node, repl, op string) { add(n.Pos(), n.End(), repl, op) }
		isErr := func(e ast.Expr) bool { // calls which only make errors
			c, ok := e.(*ast.CallExpr)
			if !ok {
				return false
			}
			t := text(c.Fun)
			return t == "fmt.Errorf" || t == "errors.New" || t == "panic"
		}
		var skip func(n ast.Node) bool
		skip = func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok && isErr(e) {
				return true
			}
			return false
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"},
		}
		ast.Inspect(file, func(n ast.Node) bool {
			if n == nil {
				return true
			}
			if skip(n) {
				return false
			}
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.IfStmt:
				// Drop a plain guard.
				rep(n.Cond, "(false && ("+text(n.Cond)+"))", "if false")
				if n.Else != nil {
					rep(n.Cond, "(true || ("+text(n.Cond)+"))", "if true")
				} else if _, isBin := n.Cond.(*ast.BinaryExpr); !isBin {
					rep(n.Cond, "!("+text(n.Cond)+")", "if not")
				}
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					rep(n, text(n.X), "left only")
					rep(n, text(n.Y), "right only")
				}
				if n.Op == token.EQL || n.Op == token.NEQ {
					not := map[token.Token]string{token.EQL: "", token.NEQ: "!"}[n.Op]
					rep(n, not+"strings.EqualFold("+text(n.X)+", "+text(n.Y)+")", "fold")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					rep(n, text(n.X), "no not")
				}
			case *ast.ExprStmt:
				if !isErr(n.X) {
					rep(n, "", "drop call")
				}
			case *ast.DeferStmt:
				rep(n, "", "drop defer")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					rep(n, "", "drop assignment")
				}
			case *ast.IncDecStmt:
				rep(n, "", "drop step")
			case *ast.KeyValueExpr:
				if _, ok := n.Key.(*ast.Ident); ok {
					// Drop a field of a literal, with its comma.
					end := n.End()
					i := off(end)
					for i < len(src) && (src[i] == ' ' || src[i] == '\t') {
						i++
					}
					if i < len(src) && src[i] == ',' {
						end = n.End() + token.Pos(i-off(n.End())+1)
					}
					add(n.Pos(), end, "", "drop field")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						rep(n, strconv.FormatInt(v+1, 10), "constant")
						if v > 0 {
							rep(n, strconv.FormatInt(v-1, 10), "constant")
						}
					}
				case token.STRING:
					if len(n.Value) > 2 {
						rep(n, n.Value[:len(n.Value)-1]+"z"+n.Value[len(n.Value)-1:], "text")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					rep(n, "false", "bool")
				}
				if n.Name == "false" {
					rep(n, "true", "bool")
				}
			case *ast.CallExpr:
				t := text(n.Fun)
				if t == "len" || t == "string" || t == "uint64" || t == "int64" || t == "make" {
					break
				}
				if len(n.Args) > 0 {
					for _, a := range n.Args {
						rep(n, text(a), "argument for call")
					}
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					rep(n, text(s.X), "receiver for call")
				}
				if t == "strings.EqualFold" {
					rep(n, "("+text(n.Args[0])+" == "+text(n.Args[1])+")", "no fold")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if text(r) == "err" || isErr(r) {
						rep(r, "nil", "no error")
					}
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 && n.List != nil && len(n.List) > 1 {
					for i, e := range n.List {
						if i+1 < len(n.List) {
							add(e.Pos(), n.List[i+1].Pos(), "", "drop case")
						}
					}
				}
			case *ast.CompositeLit:
				// drop an element of a list
				for i, e := range n.Elts {
					if _, kv := e.(*ast.KeyValueExpr); !kv && i+1 < len(n.Elts) {
						add(e.Pos(), n.Elts[i+1].Pos(), "", "drop element")
					}
				}
			case *ast.BranchStmt:
				if n.Tok == token.BREAK {
					rep(n, "continue", "branch")
				}
			}
			return true
		})
		// Exchange neighbouring statements of a block.
		ast.Inspect(file, func(n ast.Node) bool {
			b, ok := n.(*ast.BlockStmt)
			if !ok {
				return true
			}
			for i := 0; i+1 < len(b.List); i++ {
				x, y := b.List[i], b.List[i+1]
				if _, ok := y.(*ast.ReturnStmt); ok {
					continue
				}
				add(x.Pos(), y.End(), text(y)+"\n"+text(x), "swap statements")
			}
			return true
		})
	}
}
