package main

import (
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

//go:embed vpsearch.go.txt
var searchSrc string

type SearchJob struct {
	Name   string
	Fn     string
	Client bool
	Models []map[string]string
	N      int
	Seed   int64
	Millis int
	Ints   []int64
	Floats []float64
	Input  string // JSON model of a replay
}

type SearchRes struct {
	Name    string
	Fi      *FuncInfo `json:"-"`
	Runs    int
	Skipped int
	Msg     string
	Input   string
	Index   int
	FromMod bool
	Err     string
}

// minedConsts collects the literals of the package: they are likely special
// values of a change.
func (s *Suite) minedConsts(p *Pkg) (is []int64, fs []float64) {
	seenI := map[int64]bool{}
	seenF := map[float64]bool{}
	for _, f := range p.Files {
		if p.Contract[f] {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.INT:
				var v int64
				if _, err := fmt.Sscan(b.Value, &v); err == nil && !seenI[v] && v < 1<<40 {
					seenI[v] = true
					is = append(is, v)
				}
			case token.FLOAT:
				var v float64
				if _, err := fmt.Sscan(b.Value, &v); err == nil && !seenF[v] {
					seenF[v] = true
					fs = append(fs, v)
				}
			}
			return true
		})
	}
	sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
	sort.Float64s(fs)
	return
}

func goEnv(repo string) []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if !strings.HasPrefix(e, "GOFLAGS=") && !strings.HasPrefix(e, "GO111MODULE=") && !strings.HasPrefix(e, "CGO_ENABLED=") {
			out = append(out, e)
		}
	}
	return append(out, "GOFLAGS=", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// testBinary compiles the test binary of one package with its contract files.
func (s *Suite) testBinary(rel, tmp string) (string, error) {
	p := s.L.pkgs[modPath+"/"+rel]
	if p == nil {
		return "", fmt.Errorf("package %s not loaded", rel)
	}
	over := map[string]string{}
	dir := filepath.Join(s.L.repo, rel)
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			over[filepath.Join(dir, e.Name())] = ""
		}
	}
	pkgName := p.Types.Name()
	add := func(name, txt string) {
		f := filepath.Join(tmp, name)
		os.WriteFile(f, []byte(txt), 0o644)
		over[filepath.Join(dir, name)] = f
	}
	for n, txt := range s.L.Expanded[rel] {
		if !strings.Contains(txt, "//go:build") {
			txt = "//go:build go1.21\n\n" + txt
		}
		add("zz_"+strings.TrimSuffix(n, ".go")+"_vp_test.go", txt)
	}
	// specifications of the packages it imports that its own may refer to
	seen := map[string]bool{}
	var deps func(t *types.Package)
	deps = func(t *types.Package) {
		for _, im := range t.Imports() {
			if seen[im.Path()] {
				continue
			}
			seen[im.Path()] = true
			q := s.L.pkgs[im.Path()]
			if q == nil || q == p {
				continue
			}
			for n, txt := range s.L.Expanded[q.Rel] {
				if !strings.Contains(txt, "//go:build") {
					txt = "//go:build go1.21\n\n" + txt
				}
				f := filepath.Join(tmp, strings.ReplaceAll(q.Rel, "/", "_")+"_zz_"+n)
				os.WriteFile(f, []byte(txt), 0o644)
				over[filepath.Join(s.L.repo, q.Rel, "zz_"+strings.TrimSuffix(n, ".go")+"_vp.go")] = f
			}
			deps(im)
		}
	}
	deps(p.Types)
	var tab strings.Builder
	tab.WriteString("//go:build go1.21\n\npackage " + pkgName + "\n\nvar vpTable = map[string]interface{}{\n")
	var gens strings.Builder
	gens.WriteString("var vpGens = map[string]interface{}{\n")
	var fis []*FuncInfo
	for _, fi := range s.L.Funcs {
		if fi.Pkg == p && fi.Spec && fi.Decl.Recv == nil {
			fis = append(fis, fi)
		}
	}
	sort.Slice(fis, func(i, j int) bool { return fis[i].Obj.Name() < fis[j].Obj.Name() })
	for _, fi := range fis {
		n := fi.Obj.Name()
		switch fi.kind() {
		case "contract", "client":
			fmt.Fprintf(&tab, "\t%q: %s,\n", n, n)
		}
		if _, ok := fi.Dirs["known"]; ok {
			fmt.Fprintf(&tab, "\t%q: %s,\n", n, n)
		}
		if strings.HasPrefix(n, "Gen_") {
			fmt.Fprintf(&gens, "\t%q: %s,\n", strings.TrimPrefix(n, "Gen_"), n)
		}
	}
	add("zz_table_vp_test.go", tab.String()+"}\n\n"+gens.String()+"}\n")
	add("zz_search_vp_test.go", strings.Replace(searchSrc, "package vp", "package "+pkgName, 1))
	ov, _ := json.Marshal(map[string]interface{}{"Replace": over})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	mod, err := s.modFile(tmp)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "vp.test")
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", of, "-modfile", mod, "-mod=mod", "-o", bin, "./"+rel)
	cmd.Dir = s.L.repo
	cmd.Env = goEnv(s.L.repo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("compiling the replay harness of %s: %v\n%s", rel, err, short(string(out), 2000))
	}
	return bin, nil
}

// modFile makes a copy of /repo's go.mod without the module that is not in
// the cache (the packages that need it use the stub in /verif/stubs).
func (s *Suite) modFile(tmp string) (string, error) {
	b, err := os.ReadFile(filepath.Join(s.L.repo, "go.mod"))
	if err != nil {
		return "", err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "phil-mansfield/table") {
			continue
		}
		out = append(out, l)
	}
	stub := filepath.Join(s.L.verif, "stubs", "github.com_phil-mansfield_table")
	if _, err := os.Stat(filepath.Join(stub, "go.mod")); err == nil {
		out = append(out, "require github.com/phil-mansfield/table v0.0.0", "replace github.com/phil-mansfield/table => "+stub)
	}
	f := filepath.Join(tmp, "vp.mod")
	if err := os.WriteFile(f, []byte(strings.Join(out, "\n")+"\n"), 0o644); err != nil {
		return "", err
	}
	sum, _ := os.ReadFile(filepath.Join(s.L.repo, "go.sum"))
	os.WriteFile(filepath.Join(tmp, "vp.sum"), sum, 0o644)
	return f, nil
}

// search runs contract functions natively against the real code.
func (s *Suite) search(list []*FuncInfo, models map[*FuncInfo][]map[string]string, n int, seed int64, limit time.Duration) []*SearchRes {
	byPkg := map[string][]*FuncInfo{}
	var rels []string
	for _, fi := range list {
		if _, ok := fi.Dirs["nonative"]; ok {
			continue
		}
		if byPkg[fi.Pkg.Rel] == nil {
			rels = append(rels, fi.Pkg.Rel)
		}
		byPkg[fi.Pkg.Rel] = append(byPkg[fi.Pkg.Rel], fi)
	}
	var res []*SearchRes
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, rel := range rels {
		tmp, err := os.MkdirTemp("", "govc-search-")
		if err != nil {
			continue
		}
		defer os.RemoveAll(tmp)
		bin, err := s.testBinary(rel, tmp)
		if err != nil {
			for _, fi := range byPkg[rel] {
				res = append(res, &SearchRes{Name: s.name(fi), Fi: fi, Err: err.Error()})
			}
			continue
		}
		is, fs := s.minedConsts(s.L.pkgs[modPath+"/"+rel])
		for i, fi := range byPkg[rel] {
			i, fi := i, fi
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				j := SearchJob{Name: s.name(fi), Fn: fi.Obj.Name(), Client: fi.kind() != "contract", Models: models[fi], N: n, Seed: seed, Millis: int(limit / time.Millisecond), Ints: is, Floats: fs}
				r := runSearch(bin, tmp, fmt.Sprintf("%s-%d", fi.Obj.Name(), i), j, limit)
				r.Name, r.Fi = s.name(fi), fi
				mu.Lock()
				res = append(res, r)
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name < res[j].Name })
	return res
}

func runSearch(bin, tmp, id string, j SearchJob, limit time.Duration) *SearchRes {
	dir := filepath.Join(tmp, "run-"+id)
	os.MkdirAll(dir, 0o755)
	jb, _ := json.Marshal(j)
	jf, of := filepath.Join(dir, "job.json"), filepath.Join(dir, "out.json")
	os.WriteFile(jf, jb, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit+30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestVP$")
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(goEnv(""), "VP_JOB="+jf, "VP_OUT="+of, "GOMEMLIMIT=2GiB")
	out, err := cmd.CombinedOutput()
	r := &SearchRes{}
	b, rerr := os.ReadFile(of)
	if rerr != nil {
		r.Err = fmt.Sprintf("replay process: %v %s", err, short(string(out), 600))
		return r
	}
	if json.Unmarshal(b, r) != nil {
		r.Err = "unreadable replay result"
	}
	return r
}
