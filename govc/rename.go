package main

import (
	"go/ast"
	"go/scanner"
	"go/token"
	"regexp"
	"strconv"
	"strings"
)

// topNames are the names a file declares in the scope of its package.
func topNames(f *ast.File, into map[string]bool) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name != "init" && d.Name.Name != "_" {
				into[d.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					into[s.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if n.Name != "_" {
							into[n.Name] = true
						}
					}
				}
			}
		}
	}
}

const vpSuffix = "_vp"

var identRE = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

// renameText renames identifiers in the text of an expression.
func renameText(s string, clash map[string]bool) string {
	var b strings.Builder
	last := 0
	for _, m := range identRE.FindAllStringIndex(s, -1) {
		if clash[s[m[0]:m[1]]] && (m[0] == 0 || s[m[0]-1] != '.') {
			b.WriteString(s[last:m[1]])
			b.WriteString(vpSuffix)
			last = m[1]
		}
	}
	b.WriteString(s[last:])
	return b.String()
}

// renameClashes gives names of a contract file that the package under
// verification declares itself another name.
func renameClashes(src string, clash map[string]bool) string {
	fset := token.NewFileSet()
	f := fset.AddFile("", -1, len(src))
	var sc scanner.Scanner
	sc.Init(f, []byte(src), nil, scanner.ScanComments)
	var b strings.Builder
	last := 0
	prev, prev2 := token.ILLEGAL, token.ILLEGAL
	emit := func(off, n int, to string) {
		b.WriteString(src[last:off])
		b.WriteString(to)
		last = off + n
	}
	inLoop, depth := false, 0
	for {
		pos, tok, lit := sc.Scan()
		if tok == token.EOF {
			break
		}
		off := f.Offset(pos)
		switch tok {
		case token.IDENT:
			if (lit == "loop" || lit == "loop"+vpSuffix) && !inLoop {
				inLoop, depth = true, 0
			}
			if clash[lit] && prev != token.PERIOD {
				// a key of a composite literal is a field
				next := strings.TrimLeft(src[off+len(lit):], " \t")
				key := strings.HasPrefix(next, ":") && !strings.HasPrefix(next, ":=") && (prev == token.LBRACE || prev == token.COMMA)
				if !key {
					emit(off, len(lit), lit+vpSuffix)
				}
			}
		case token.LPAREN:
			depth++
		case token.RPAREN:
			depth--
			if depth <= 0 {
				inLoop = false
			}
		case token.STRING:
			if inLoop {
				if s, err := strconv.Unquote(lit); err == nil {
					if t := renameText(s, clash); t != s {
						emit(off, len(lit), strconv.Quote(t))
					}
				}
			}
		case token.COMMENT:
			for _, d := range []string{"//verif:opaque", "//verif:congr", "//verif:rec"} {
				if strings.HasPrefix(lit, d) {
					emit(off, len(lit), d+renameText(lit[len(d):], clash))
				}
			}
		}
		prev2, prev = prev, tok
	}
	_ = prev2
	b.WriteString(src[last:])
	return b.String()
}
