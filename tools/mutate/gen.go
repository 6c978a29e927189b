// gen FILE: lists mutants as JSON: start, end offsets and replacement text
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Start, End int
	New, What  string
	Line       int
}

func main() {
	src, _ := os.ReadFile(os.Args[1])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var out []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, n, what string) {
		out = append(out, mut{off(a), off(b), n, what, fs.Position(a).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var fn string
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok != token.VAR {
				return false
			}
		case *ast.FuncDecl:
			fn = x.Name.Name
			if fn == "String" || fn == "init" {
				return fn != "String"
			}
		case *ast.ExprStmt:
			t := text(x)
			if len(t) > 5 && (contains(t, "log.") || contains(t, ".l.") || contains(t, "Logger") || contains(t, "log()")) {
				return false
			}
			add(x.Pos(), x.End(), "", "delete stmt")
		case *ast.DeferStmt:
			add(x.Pos(), x.End(), "", "delete defer")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN && text(x.Lhs[0]) != "_" {
				add(x.Pos(), x.End(), "", "delete assign")
			}
			if x.Tok == token.ADD_ASSIGN {
				add(x.Pos(), x.End(), "", "delete add")
			}
		case *ast.IncDecStmt:
			add(x.Pos(), x.End(), "", "delete incdec")
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
			add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
			if contains(text(x.Cond), "err") == false {
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
			}
		case *ast.BinaryExpr:
			r := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}
			if s, ok := r[x.Op]; ok {
				if x.Op == token.ADD {
					if contains(text(x), "\"") {
						break
					}
				}
				out = append(out, mut{off(x.OpPos), off(x.OpPos) + len(x.Op.String()), s, "op " + x.Op.String(), fs.Position(x.OpPos).Line})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), "int+1")
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 3 && len(x.Value) < 30 {
				add(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:], "string")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true>false")
			}
			if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false>true")
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "continue>break")
			}
			if x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "", "delete break")
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				add(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
			}
		case *ast.ReturnStmt:
			for _, e := range x.Results {
				if id, ok := e.(*ast.Ident); ok && id.Name == "err" {
					add(e.Pos(), e.End(), "nil", "return nil err")
				}
			}
		case *ast.CallExpr:
			// swap the first two arguments
			if len(x.Args) == 2 {
				a, b := text(x.Args[0]), text(x.Args[1])
				if a != b {
					add(x.Args[0].Pos(), x.Args[1].End(), b+", "+a, "swap args")
				}
			}
		}
		return true
	})
	json.NewEncoder(os.Stdout).Encode(out)
	fmt.Fprintln(os.Stderr, len(out))
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}
