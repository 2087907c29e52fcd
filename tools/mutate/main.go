// Command mutate lists small source mutations of the given Go files, one JSON object per
// line: {file, line, desc, start, end, repl}. It is a development aid: mutants that build and
// pass the repository's tests show which behaviour the checks do not look at.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string
	Line       int
	Func       string
	Desc       string
	Start, End int
	Repl       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		cur := ""
		out := func(a, b token.Pos, repl, desc string) {
			p := fs.Position(a)
			enc.Encode(M{fn, p.Line, cur, desc, p.Offset, fs.Position(b).Offset, repl})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		isLog := func(n ast.Node) bool {
			t := text(n)
			return len(t) > 4 && (t[:4] == "log.")
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if isLog(x) {
						return false
					}
					out(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.IncDecStmt:
					out(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.DeferStmt:
					out(x.Pos(), x.End(), "", "delete defer")
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						out(x.Pos(), x.End(), "break", "continue->break")
						out(x.Pos(), x.End(), "", "delete continue")
					} else if x.Tok == token.BREAK {
						out(x.Pos(), x.End(), "", "delete break")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						out(x.Pos(), x.End(), blankUse(text(x)), "delete "+text(x))
					}
				case *ast.IfStmt:
					out(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					out(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
						token.SHL: {">>"}, token.SHR: {"<<"}, token.OR: {"&"}, token.AND: {"|"}, token.XOR: {"|"},
						token.MUL: {"+"},
					}[x.Op]
					for _, r := range alt {
						out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, fmt.Sprintf("%s -> %s in %s", x.Op, r, text(x)))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							out(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%s -> %d", x.Value, v+1))
							if v > 0 {
								out(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%s -> %d", x.Value, v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						out(x.Pos(), x.End(), "false", "true->false")
					} else if x.Name == "false" {
						out(x.Pos(), x.End(), "true", "false->true")
					}
				}
				return true
			})
		}
	}
}

func blankUse(s string) string { return "" }
