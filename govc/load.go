package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/phil-mansfield/gotetra"

type Pkg struct {
	Path  string
	Rel   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	// contract file names (synthetic), not part of the real source
	Contract map[*ast.File]bool
}

type FuncInfo struct {
	Obj    *types.Func
	Decl   *ast.FuncDecl
	Pkg    *Pkg
	Spec   bool // declared in a contract file
	VP     bool // declared in the vp runtime file (intrinsic)
	Dirs   map[string]string
	Target *types.Func
	Annot  *Annot
}

type Loader struct {
	fset     *token.FileSet
	repo     string
	verif    string
	pkgs     map[string]*Pkg
	std      types.Importer
	loading  map[string]bool
	Funcs    map[*types.Func]*FuncInfo
	Contract []*FuncInfo // all functions with verif: directives
	Globals  map[types.Object]*ast.ValueSpec
	GlobPkg  map[types.Object]*Pkg
	// text of contract files after macro expansion: package rel -> file name -> text
	Expanded map[string]map[string]string
	// contract functions removed because they do not type-check against the current tree
	DroppedFns  map[string]string
	DroppedDirs map[string]map[string]string
}

func NewLoader(repo, verif string) *Loader {
	l := &Loader{fset: token.NewFileSet(), repo: repo, verif: verif, pkgs: map[string]*Pkg{},
		loading: map[string]bool{}, Funcs: map[*types.Func]*FuncInfo{},
		Globals: map[types.Object]*ast.ValueSpec{}, GlobPkg: map[types.Object]*Pkg{},
		Expanded: map[string]map[string]string{}, DroppedFns: map[string]string{}}
	os.Setenv("CGO_ENABLED", "0")
	l.std = importer.ForCompiler(l.fset, "source", nil)
	return l
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, modPath) {
		p, err := l.Load(path)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	if !strings.Contains(path, ".") || path == "unsafe" {
		return l.std.Import(path)
	}
	// stub for third-party packages
	dir := filepath.Join(l.verif, "stubs", strings.ReplaceAll(path, "/", "_"))
	if _, err := os.Stat(dir); err == nil {
		p, err := l.loadDir(path, dir, "")
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	return nil, fmt.Errorf("no stub for import %q", path)
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	return l.loadDir(path, filepath.Join(l.repo, rel), rel)
}

func (l *Loader) loadDir(path, dir, rel string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	if l.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	l.loading[path] = true
	p := &Pkg{Path: path, Rel: rel, Contract: map[*ast.File]bool{}}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		if !buildTagOK(string(src)) {
			continue
		}
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, f)
	}
	if len(p.Files) == 0 {
		return nil, fmt.Errorf("no go files in %s", dir)
	}
	pkgName := p.Files[0].Name.Name
	vpFile := ""
	declared := map[string]bool{}
	for _, f := range p.Files {
		topNames(f, declared)
	}
	if rel != "" {
		cdir := filepath.Join(l.verif, "contracts", rel)
		cents, _ := os.ReadDir(cdir)
		if len(cents) > 0 {
			l.Expanded[rel] = map[string]string{}
			var names []string
			for _, e := range cents {
				if strings.HasSuffix(e.Name(), ".go") {
					names = append(names, e.Name())
				}
			}
			sort.Strings(names)
			// names that both sides declare
			clash, own := map[string]bool{}, map[string]bool{}
			texts := map[string]string{}
			rt, err := os.ReadFile(filepath.Join(l.verif, "govc", "vpruntime.go.txt"))
			if err != nil {
				return nil, err
			}
			for _, n := range append([]string{""}, names...) {
				txt := string(rt)
				if n != "" {
					if txt, err = expandContractFile(filepath.Join(cdir, n)); err != nil {
						return nil, err
					}
				}
				texts[n] = txt
				f, err := parser.ParseFile(token.NewFileSet(), n, txt, 0)
				if err != nil {
					return nil, err
				}
				topNames(f, own)
			}
			for n := range own {
				if declared[n] {
					clash[n] = true
				}
			}
			for _, n := range names {
				txt := texts[n]
				if len(clash) > 0 {
					txt = renameClashes(txt, clash)
				}
				fn := filepath.Join(cdir, n)
				f, err := parser.ParseFile(l.fset, fn, txt, parser.ParseComments)
				if err != nil {
					return nil, err
				}
				l.Expanded[rel][n] = txt
				p.Files = append(p.Files, f)
				p.Contract[f] = true
			}
			vpFile = filepath.Join(cdir, "zz_vp.go")
			txt := strings.Replace(texts[""], "package vp", "package "+pkgName, 1)
			if len(clash) > 0 {
				txt = renameClashes(txt, clash)
			}
			f, err := parser.ParseFile(l.fset, vpFile, txt, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			l.Expanded[rel]["zz_vp.go"] = txt
			p.Files = append(p.Files, f)
			p.Contract[f] = true
		}
	}
	var tp *types.Package
	for round := 0; ; round++ {
		p.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{},
		}
		var errs, real []error
		cfg := types.Config{Importer: l, Error: func(e error) { errs = append(errs, e) }}
		tp, _ = cfg.Check(path, l.fset, p.Files, p.Info)
		cut := false
		for _, e := range errs {
			te, ok := e.(types.Error)
			if !ok {
				real = append(real, e)
				continue
			}
			if te.Soft && l.inContract(p, te.Pos) {
				continue
			}
			if !l.cutDecl(p, te) {
				real = append(real, e)
			} else {
				cut = true
			}
		}
		if len(real) > 0 && !cut {
			return nil, fmt.Errorf("type errors in %s: %v", path, real)
		}
		if !cut {
			break
		}
		if round > 40 {
			return nil, fmt.Errorf("contracts of %s do not type-check: %v", path, errs)
		}
	}
	p.Types = tp
	l.pkgs[path] = p
	for _, f := range p.Files {
		fname := l.fset.Position(f.Pos()).Filename
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				obj, _ := p.Info.Defs[d.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fi := &FuncInfo{Obj: obj, Decl: d, Pkg: p, Spec: p.Contract[f], VP: fname == vpFile && vpFile != "", Dirs: map[string]string{}}
				if fi.Spec {
					fi.Dirs = parseDirs(d.Doc)
				}
				l.Funcs[obj] = fi
				if len(fi.Dirs) > 0 {
					l.Contract = append(l.Contract, fi)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for _, n := range vs.Names {
							if o := p.Info.Defs[n]; o != nil {
								l.Globals[o] = vs
								l.GlobPkg[o] = p
							}
						}
					}
				}
			}
		}
	}
	return p, nil
}

func buildTagOK(src string) bool {
	for _, ln := range strings.Split(src, "\n") {
		t := strings.TrimSpace(ln)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if strings.HasPrefix(t, "//go:build") {
			e := strings.TrimSpace(strings.TrimPrefix(t, "//go:build"))
			if e == "ignore" || strings.HasPrefix(e, "verif") {
				return false
			}
		}
	}
	return true
}

func (l *Loader) inContract(p *Pkg, pos token.Pos) bool {
	for f := range p.Contract {
		if f.FileStart <= pos && pos <= f.FileEnd {
			return true
		}
	}
	return false
}

// cutDecl removes the contract function that contains a type error, so that
// one contract that no longer fits the code does not take the others with it.
func (l *Loader) cutDecl(p *Pkg, te types.Error) bool {
	for f := range p.Contract {
		if te.Pos < f.FileStart || te.Pos > f.FileEnd {
			continue
		}
		for i, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || te.Pos < fd.Pos() || te.Pos > fd.End() {
				continue
			}
			fn := filepath.Base(l.fset.Position(f.Pos()).Filename)
			l.DroppedFns[p.Rel+":"+fd.Name.Name] = te.Msg
			txt := l.Expanded[p.Rel][fn]
			a, b := l.fset.Position(fd.Pos()).Offset, l.fset.Position(fd.End()).Offset
			blank := []byte(txt[a:b])
			for k := range blank {
				if blank[k] != '\n' {
					blank[k] = ' '
				}
			}
			l.Expanded[p.Rel][fn] = txt[:a] + string(blank) + txt[b:]
			l.droppedDoc(p, fd)
			f.Decls = append(f.Decls[:i:i], f.Decls[i+1:]...)
			return true
		}
	}
	return false
}

// droppedDoc remembers the directives of a removed contract function.
func (l *Loader) droppedDoc(p *Pkg, fd *ast.FuncDecl) {
	if l.DroppedDirs == nil {
		l.DroppedDirs = map[string]map[string]string{}
	}
	l.DroppedDirs[p.Rel+":"+fd.Name.Name] = parseDirs(fd.Doc)
}

func parseDirs(doc *ast.CommentGroup) map[string]string {
	m := map[string]string{}
	if doc == nil {
		return m
	}
	for _, c := range doc.List {
		t := strings.TrimPrefix(c.Text, "//")
		if strings.HasPrefix(t, "verif:") {
			t = strings.TrimPrefix(t, "verif:")
			k, v, _ := strings.Cut(t, " ")
			k, v = strings.TrimSpace(k), strings.TrimSpace(v)
			if o, ok := m[k]; ok && o != "" {
				v = o + " " + v
			}
			m[k] = v
		}
	}
	return m
}

// ---------------------------------------------------------------- macros
//
// all(k, lo, hi, P)  ->  forall(lo, hi, func(k int) bool { return P })
// ex(k, lo, hi, P)   ->  exists(lo, hi, func(k int) bool { return P })
// imp(a, b)          ->  (!(a) || (b))

func expandContractFile(path string) (string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	return expandText(string(src)), nil
}

// expandText works on text so that the line structure is kept.
func expandText(s string) string {
	for {
		i, name := findMacro(s)
		if i < 0 {
			return s
		}
		open := i + len(name)
		args, end := splitArgs(s, open)
		if end < 0 {
			return s
		}
		var rep string
		switch name {
		case "imp":
			rep = "(!(" + strings.TrimSpace(args[0]) + ") || (" + strings.TrimSpace(args[1]) + "))"
		case "all":
			rep = "forall(" + args[1] + ", " + args[2] + ", func(" + strings.TrimSpace(args[0]) + " int) bool { return " + strings.TrimSpace(args[3]) + " })"
		case "ex":
			rep = "exists(" + args[1] + ", " + args[2] + ", func(" + strings.TrimSpace(args[0]) + " int) bool { return " + strings.TrimSpace(args[3]) + " })"
		}
		s = s[:i] + rep + s[end+1:]
	}
}

func findMacro(s string) (int, string) {
	isId := func(c byte) bool {
		return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(s); i++ {
		for _, n := range []string{"imp", "all", "ex"} {
			if strings.HasPrefix(s[i:], n+"(") && (i == 0 || !isId(s[i-1])) {
				args, end := splitArgs(s, i+len(n))
				if end < 0 {
					continue
				}
				if n == "imp" && len(args) == 2 || n != "imp" && len(args) == 4 {
					return i, n
				}
			}
		}
	}
	return -1, ""
}

func splitArgs(s string, open int) ([]string, int) {
	depth := 0
	start := open + 1
	var args []string
	for i := open; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 {
				args = append(args, s[start:i])
				return args, i
			}
		case ',':
			if depth == 1 {
				args = append(args, s[start:i])
				start = i + 1
			}
		case '"', '`':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if q == '"' && s[i] == '\\' {
					i++
				}
				i++
			}
		}
	}
	return nil, -1
}
