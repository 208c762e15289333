// Command mutate lists small changes to the functions of a Go file, one JSON
// object per line: {"line", "func", "what", "off", "end", "new"}.
package main

import (
	"encoding/json"
	"flag"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	Line int    `json:"line"`
	Func string `json:"func"`
	What string `json:"what"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	flag.Parse()
	file := flag.Arg(0)
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		emit := func(what string, from, to token.Pos, s string) {
			enc.Encode(mutant{fs.Position(from).Line, fd.Name.Name, what, off(from), off(to), s})
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swaps[e.Op] {
					emit(e.Op.String()+" to "+s, e.OpPos, e.OpPos+token.Pos(len(e.Op.String())), s)
				}
			case *ast.BasicLit:
				if e.Kind == token.INT {
					if v, err := strconv.ParseInt(e.Value, 0, 64); err == nil {
						emit(e.Value+" plus one", e.Pos(), e.End(), strconv.FormatInt(v+1, 10))
						if v > 0 {
							emit(e.Value+" minus one", e.Pos(), e.End(), strconv.FormatInt(v-1, 10))
						}
					}
				}
				if e.Kind == token.FLOAT {
					emit(e.Value+" times two", e.Pos(), e.End(), "("+e.Value+" * 2)")
				}
			case *ast.AssignStmt:
				if e.Tok != token.DEFINE {
					emit("assignment gone", e.Pos(), e.End(), "_ = 0")
				}
				switch e.Tok {
				case token.ADD_ASSIGN:
					emit("+= to -=", e.TokPos, e.TokPos+2, "-=")
					emit("+= to =", e.TokPos, e.TokPos+2, "=")
				case token.SUB_ASSIGN:
					emit("-= to +=", e.TokPos, e.TokPos+2, "+=")
				case token.MUL_ASSIGN:
					emit("*= to /=", e.TokPos, e.TokPos+2, "/=")
				}
			case *ast.IncDecStmt:
				if e.Tok == token.INC {
					emit("++ to --", e.TokPos, e.TokPos+2, "--")
				} else {
					emit("-- to ++", e.TokPos, e.TokPos+2, "++")
				}
			case *ast.ExprStmt:
				emit("call gone", e.Pos(), e.End(), "")
			case *ast.IfStmt:
				emit("condition true", e.Cond.Pos(), e.Cond.End(), "true || ("+string(src[off(e.Cond.Pos()):off(e.Cond.End())])+")")
				emit("condition false", e.Cond.Pos(), e.Cond.End(), "false && ("+string(src[off(e.Cond.Pos()):off(e.Cond.End())])+")")
			case *ast.BranchStmt:
				emit(e.Tok.String()+" gone", e.Pos(), e.End(), "")
			case *ast.UnaryExpr:
				if e.Op == token.SUB || e.Op == token.NOT {
					emit("unary "+e.Op.String()+" gone", e.Pos(), e.Pos()+1, "")
				}
			case *ast.CallExpr:
				if len(e.Args) >= 2 {
					for i := 0; i+1 < len(e.Args); i++ {
						a, b := e.Args[i], e.Args[i+1]
						s := string(src[off(b.Pos()):off(b.End())]) + string(src[off(a.End()):off(b.Pos())]) + string(src[off(a.Pos()):off(a.End())])
						emit("arguments swapped", a.Pos(), b.End(), s)
					}
				}
			}
			return true
		})
	}
}
