package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var termBase map[string]bool
var termBaseCnt int

// resetTerms forgets every term made since start-up, so that each symbolic
// execution is deterministic and independent of the ones before it.
func resetTerms() {
	if termBase == nil {
		termBase = map[string]bool{}
		for k := range termTab {
			termBase[k] = true
		}
		termBaseCnt = termCnt
	}
	for k := range termTab {
		if !termBase[k] {
			delete(termTab, k)
		}
	}
	termCnt = termBaseCnt
	symCnt, objCnt, idCnt = 0, 0, 0
	sizeMemo = map[*Term]int{}
	strConsts = map[string]*Term{}
	nonNegVar = map[*Term]bool{}
}

// ---------------------------------------------------------------- contracts

type Suite struct {
	L         *Loader
	contracts map[*types.Func]*FuncInfo
	annots    map[*types.Func]*Annot
	byName    map[string]*FuncInfo
	dropped   map[string]string // contract functions that no longer type-check
}

// target resolves the name in //verif:contract.
func (s *Suite) target(fi *FuncInfo, name string) *types.Func {
	name = strings.TrimSpace(name)
	sc := fi.Pkg.Types.Scope()
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn := strings.Trim(name[:i], "(*)")
		o := sc.Lookup(tn)
		if o == nil {
			return nil
		}
		if it, ok := o.Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == name[strings.LastIndex(name, ".")+1:] {
					return it.Method(i)
				}
			}
			return nil
		}
		m, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, fi.Pkg.Types, name[i+1:])
		f, _ := m.(*types.Func)
		return f
	}
	f, _ := sc.Lookup(name).(*types.Func)
	return f
}

func loopsOf(fi *FuncInfo) map[int][]string {
	m := map[int][]string{}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		id, ok := c.Fun.(*ast.Ident)
		if !ok || id.Name != "loop" || len(c.Args) == 0 {
			return true
		}
		iv, ok := constant.Int64Val(fi.Pkg.Info.Types[c.Args[0]].Value)
		if !ok {
			return true
		}
		for _, a := range c.Args[1:] {
			if v := fi.Pkg.Info.Types[a].Value; v != nil && v.Kind() == constant.String {
				m[int(iv)] = append(m[int(iv)], constant.StringVal(v))
			}
		}
		return true
	})
	return m
}

func (fi *FuncInfo) kind() string {
	for _, k := range []string{"contract", "client", "lemma", "rec", "annot", "behaviour"} {
		if _, ok := fi.Dirs[k]; ok {
			return k
		}
	}
	return ""
}

func (s *Suite) name(fi *FuncInfo) string {
	return fi.Pkg.Rel + ":" + fi.Obj.Name()
}

func NewSuite(repo, verif string, rels []string) (*Suite, error) {
	s := &Suite{contracts: map[*types.Func]*FuncInfo{}, annots: map[*types.Func]*Annot{}, byName: map[string]*FuncInfo{}}
	L := NewLoader(repo, verif)
	s.L = L
	for _, r := range rels {
		if _, err := L.Load(modPath + "/" + r); err != nil {
			return nil, err
		}
	}
	s.dropped = L.DroppedFns
	for _, fi := range L.Contract {
		s.byName[s.name(fi)] = fi
		switch fi.kind() {
		case "contract":
			t := s.target(fi, fi.Dirs["contract"])
			if t == nil {
				s.dropped[s.name(fi)] = "target " + fi.Dirs["contract"] + " not found"
				continue
			}
			fi.Target = t
			if _, dup := s.contracts[t]; !dup {
				if _, sec := fi.Dirs["secondary"]; !sec {
					s.contracts[t] = fi
				}
			}
			if lp := loopsOf(fi); len(lp) > 0 {
				fi.Annot = &Annot{Fi: fi, Loops: lp}
				if _, sec := fi.Dirs["secondary"]; !sec {
					s.annots[t] = fi.Annot
				}
			}
		case "behaviour":
			if t := s.target(fi, fi.Dirs["behaviour"]); t != nil {
				fi.Target = t
				s.contracts[t] = fi
			}
		case "annot":
			if t := s.target(fi, fi.Dirs["annot"]); t != nil {
				s.annots[t] = &Annot{Fi: fi, Loops: loopsOf(fi)}
			}
		case "lemma", "client":
			fi.Target = fi.Obj
			if lp := loopsOf(fi); len(lp) > 0 {
				fi.Annot = &Annot{Fi: fi, Loops: lp}
			}
		}
	}
	return s, nil
}

func (s *Suite) newExec(fi *FuncInfo, dropped map[string]bool) *Exec {
	x := &Exec{L: s.L, opaque: map[string]bool{}, contracts: s.contracts, annots: s.annots, inlineSet: map[string]bool{},
		dropped: dropped, invSeen: map[string]bool{}, globals: map[types.Object]*Obj{}, used: map[string]bool{},
		usedC: map[string]bool{}, usedFi: map[*FuncInfo]bool{}, recDefs: map[string]*recDef{}, trusted: map[string]bool{}, cur: fi, pathSel: -1}
	for _, n := range strings.Fields(fi.Dirs["inline"]) {
		x.inlineSet[n] = true
	}
	for _, n := range strings.Fields(fi.Dirs["opaque"]) {
		if !strings.Contains(n, ".") {
			n = fi.Pkg.Types.Name() + "." + n
		}
		x.opaque["rec."+n] = true
	}
	x.congr = map[string]bool{}
	for _, n := range strings.Fields(fi.Dirs["congr"]) {
		x.congr["rec."+n] = true
		x.opaque["rec."+n] = true
	}
	if b, err := strconv.Atoi(fi.Dirs["bound"]); err == nil {
		x.bound = b
	}
	_, x.cases = fi.Dirs["cases"]
	_, x.prune = fi.Dirs["prune"]
	if _, ok := fi.Dirs["noauto"]; ok {
		x.noauto = true
	}
	if fi.Annot != nil && fi.Target != nil && s.annots[fi.Target] != fi.Annot {
		m := map[*types.Func]*Annot{}
		for k, v := range s.annots {
			m[k] = v
		}
		m[fi.Target] = fi.Annot
		x.annots = m
	}
	return x
}

// execute runs one contract function symbolically.
func (x *Exec) execute(fi *FuncInfo) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*Unsup); ok {
				msg := u.Msg
				if u.Pos != nil {
					msg += " at " + x.pos(u.Pos)
				} else if x.curNode != nil {
					msg += " near " + x.pos(x.curNode)
				}
				err = fmt.Errorf("unsupported construct: %s", msg)
				return
			}
			err = fmt.Errorf("internal error: %v near %s\n%s", r, x.pos(x.curNode), trimStack(string(debug.Stack())))
		}
	}()
	vs := fi.splits()
	for k, combo := range combos(vs) {
		x.combo = k
		if o := os.Getenv("GOVC_SPLIT"); o != "" && o != strings.Join(combo, ",") {
			continue // debugging
		}
		st := &State{heap: map[*Obj]Value{}}
		sig := fi.Obj.Type().(*types.Signature)
		var args []Value
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			v := symVal(st, p.Name(), p.Type(), 0)
			args = append(args, v)
		}
		if len(vs) > 0 {
			x.putSplit(fi, st, args, vs, combo)
			x.splitName = strings.Join(combo, " ")
		}
		ps := st.clone()
		x.params = nil
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			x.params = append(x.params, ParamVal{p.Name(), p.Type(), args[i], ps})
		}
		ctx := &Ctx{fi: fi, target: fi.Target}
		if fi.kind() == "client" {
			ctx.target = nil
		}
		x.curCtx = ctx
		nf := &Frame{fi: fi, pkg: fi.Pkg, vars: map[types.Object]*Obj{}, spec: true, ctx: ctx, annot: fi.Annot}
		if fi.kind() == "contract" {
			nf.annot = nil
		}
		x.runBody(nf, st, sig, fi.Decl.Type, nil, nil, fi.Decl.Body, args, fi.Decl)
		if fi.kind() == "contract" && !ctx.called {
			return fmt.Errorf("the contract function never calls %s", fi.Dirs["contract"])
		}
	}
	return nil
}

func trimStack(s string) string {
	if os.Getenv("GOVC_DEBUG") == "" {
		return ""
	}
	return s
}

type Result struct {
	Fi       *FuncInfo
	Name     string
	Obls     []*Obl
	Err      error
	Dropped  []string
	Used     map[string]bool
	UsedFi   map[*FuncInfo]bool
	Trusted  map[string]bool
	Wall     float64
	SMT      float64
	Queries  int
	Failed   []*Obl
	Bounded  int
	Cut      bool
	Rounds   int
	NotTyped map[string]string
}

func (s *Suite) verify(fi *FuncInfo, tier string, deadline time.Time, dump string) (res *Result) {
	t0 := time.Now()
	lim := 240 * time.Second
	if tier == "thorough" {
		lim = 900 * time.Second
	}
	verifyStop = t0.Add(lim)
	if !deadline.IsZero() && deadline.Before(verifyStop) {
		verifyStop = deadline
		if m := t0.Add(20 * time.Second); verifyStop.Before(m) {
			verifyStop = m
		}
	}
	defer func() {
		verifyStop = time.Time{}
		if r := recover(); r != nil {
			if _, ok := r.(resourceLimit); !ok {
				panic(r)
			}
			resetTerms()
			res = &Result{Fi: fi, Name: s.name(fi), Used: map[string]bool{}, UsedFi: map[*FuncInfo]bool{}, Trusted: map[string]bool{}, Wall: time.Since(t0).Seconds()}
			o := &Obl{Name: "verification stays within its resources", Kind: "resources", Pos: s.name(fi), Goal: False, Status: "unknown", Why: "time or term limit exceeded"}
			res.Obls = append(res.Obls, o)
			res.Failed = append(res.Failed, o)
			res.Err = fmt.Errorf("time or term limit exceeded")
		}
	}()
	return s.verify1(fi, tier, deadline, dump)
}

func (s *Suite) verify1(fi *FuncInfo, tier string, deadline time.Time, dump string) *Result {
	t0 := time.Now()
	res := &Result{Fi: fi, Name: s.name(fi)}
	dropped := map[string]bool{}
	cache := map[string]solveRes{}
	full := 10 * time.Second
	if tier == "thorough" {
		full = 30 * time.Second
	}
	if t, err := strconv.Atoi(fi.Dirs["timeout"]); err == nil {
		full = time.Duration(t) * time.Second
	}
	// a failing invariant candidate must not eat the whole budget
	var x *Exec
	_, byPath := fi.Dirs["paths"]
	for round := 0; ; round++ {
		resetTerms()
		x = s.newExec(fi, dropped)
		if byPath {
			x.pathSel = 0
		}
		err := x.execute(fi)
		res.Rounds = round + 1
		if err != nil {
			res.Err = err
		}
		pv := &prover{mu: &sync.Mutex{}, x: x, quickT: 2 * time.Second, fullT: full, rounds: 3, limit: 400, stats: map[string]int{}, cache: cache, dumpDir: dump, deadline: deadline, noModel: true}
		var invs, autos []*Obl
		for _, o := range x.obls {
			if o.Inv != "" && o.Status == "" {
				if o.Auto {
					autos = append(autos, o)
				} else {
					invs = append(invs, o)
				}
			}
		}
		if err != nil && len(x.obls) == 0 {
			break
		}
		pa := *pv
		pa.fullT = 2 * time.Second
		pa.solveAll(autos)
		n := 0
		for _, o := range autos {
			if o.Status != "proved" && !dropped[o.Inv] {
				dropped[o.Inv] = true
				n++
			}
		}
		// user invariants are only dropped once the automatic ones are stable
		if n == 0 {
			pv.solveAll(invs)
			for _, o := range invs {
				if o.Status != "proved" && !dropped[o.Inv] {
					dropped[o.Inv] = true
					n++
					res.Dropped = append(res.Dropped, o.Name+" @ "+o.Pos+" ["+o.Kind+"] "+o.Why)
				}
			}
		}
		res.SMT += pv.smtTime + pa.smtTime
		res.Queries += pv.queries + pa.queries
		if n == 0 || round > 20 {
			// final
			pv.noModel = false
			pv.smtTime, pv.queries = 0, 0
			pv.solveAll(x.obls)
			// vacuity
			for _, c := range x.cover {
				pc := *pv
				pc.noModel = true
				pc.fullT = 2 * time.Second
				pc.lite = true
				pc.solveAll([]*Obl{c})
				if os.Getenv("GOVC_DEBUG") != "" {
					for _, h := range c.Hyps {
						fmt.Println("COVER HYP", h)
					}
					fmt.Println(c.Status, c.Backend, c.Why)
				}
				if c.Status == "proved" {
					x.obls = append(x.obls, &Obl{Name: "the specification is satisfiable (vacuity)", Kind: "cover", Pos: c.Pos, Goal: False, Status: "failed", Why: "hypotheses are contradictory"})
				} else {
					x.obls = append(x.obls, &Obl{Name: "the specification is satisfiable (vacuity)", Kind: "cover", Pos: c.Pos, Goal: True, Status: "proved", Backend: "no refutation of the hypotheses"})
				}
			}
			res.SMT += pv.smtTime
			res.Queries += pv.queries
			for i := 1; byPath && i < x.nPaths; i++ {
				resetTerms()
				y := s.newExec(fi, dropped)
				y.pathSel = i
				if err := y.execute(fi); err != nil {
					res.Err = err
				}
				pp := *pv
				pp.x = y
				pp.smtTime, pp.queries = 0, 0
				pp.solveAll(y.obls)
				res.SMT += pp.smtTime
				res.Queries += pp.queries
				x.obls = append(x.obls, y.obls...)
			}
			break
		}
	}
	res.Obls = x.obls
	res.Used, res.UsedFi, res.Trusted = x.used, x.usedFi, x.trusted
	res.Cut = x.cut
	res.NotTyped = x.dropNames
	for _, o := range x.obls {
		if o.Status != "proved" {
			res.Failed = append(res.Failed, o)
		}
	}
	if res.Err != nil {
		o := &Obl{Name: "the function is within the verifier's reach", Kind: "supported", Pos: x.pos(fi.Decl), Status: "unknown", Why: res.Err.Error()}
		res.Obls = append(res.Obls, o)
		res.Failed = append(res.Failed, o)
	}
	res.Wall = time.Since(t0).Seconds()
	return res
}

// ---------------------------------------------------------------- main

func usage() {
	fmt.Fprintln(os.Stderr, "usage: govc check -property ID [-tier quick|thorough] | govc func PKG:NAME... | govc list | govc fuzz [PKG:NAME...]")
	os.Exit(2)
}

func allRels(verif string) []string {
	var out []string
	root := filepath.Join(verif, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			r, _ := filepath.Rel(root, filepath.Dir(p))
			for _, o := range out {
				if o == r {
					return nil
				}
			}
			out = append(out, r)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func main() {
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}

	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		usage()
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "tier")
	dump := fs.String("dump", "", "directory for SMT files of failed obligations")
	verbose := fs.Bool("v", false, "list every obligation")
	n := fs.Int("n", 3000, "inputs per contract (fuzz)")
	seed := fs.Int64("seed", 1, "seed (fuzz)")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list", "func", "fuzz":
		rels := allRels(*verif)
		if cmd != "list" && fs.NArg() > 0 {
			m := map[string]bool{}
			rels = nil
			for _, a := range fs.Args() {
				r, _, _ := strings.Cut(a, ":")
				if !m[r] {
					m[r] = true
					rels = append(rels, r)
				}
			}
		}
		s, err := NewSuite(*repo, *verif, rels)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		for k, v := range s.dropped {
			fmt.Println("DROPPED", k, v)
		}
		var names []string
		for k := range s.byName {
			names = append(names, k)
		}
		sort.Strings(names)
		match := func(k string) bool {
			if fs.NArg() == 0 {
				return true
			}
			for _, a := range fs.Args() {
				if a == k || strings.HasSuffix(a, ":") && strings.HasPrefix(k, a) {
					return true
				}
			}
			return false
		}
		if cmd == "fuzz" {
			var list []*FuncInfo
			for _, k := range names {
				fi := s.byName[k]
				if match(k) && (fi.kind() == "contract" || fi.kind() == "client") {
					list = append(list, fi)
				}
			}
			for _, r := range s.search(list, nil, *n, *seed, 60*time.Second) {
				fmt.Printf("%-40s runs=%d skipped=%d viol=%v %s\n", r.Name, r.Runs, r.Skipped, r.Msg, short(r.Err, 1500))
				if r.Msg != "" {
					fmt.Println("    input:", r.Input)
				}
			}
			return
		}
		for _, k := range names {
			fi := s.byName[k]
			if cmd == "list" {
				fmt.Printf("%-50s %-9s %s %s\n", k, fi.kind(), fi.Dirs["property"], fi.Dirs[fi.kind()])
				continue
			}
			switch fi.kind() {
			case "contract", "client", "lemma":
			default:
				continue
			}
			if !match(k) {
				continue
			}
			dd := ""
			if *dump != "" {
				dd = filepath.Join(*dump, fi.Obj.Name())
				os.MkdirAll(dd, 0o755)
			}
			r := s.verify(fi, *tier, time.Now().Add(300*time.Second), dd)
			ok := len(r.Obls) - len(r.Failed)
			fmt.Printf("%-50s %d/%d obligations, %d rounds, %.1fs, smt %.1fs, %d queries\n", k, ok, len(r.Obls), r.Rounds, r.Wall, r.SMT, r.Queries)
			for _, d := range r.Dropped {
				fmt.Println("   dropped:", d)
			}
			for d, e := range r.NotTyped {
				fmt.Println("   annotation ignored:", d, e)
			}
			for _, o := range r.Failed {
				fmt.Printf("   FAILED %s [%s] %s\n      %s\n", o.Name, o.Kind, o.Pos, short(o.Why, 1500))
				if o.Model != nil {
					b, _ := json.Marshal(o.Model)
					fmt.Println("      model:", short(string(b), 600))
				}
			}
			if *verbose {
				for _, o := range r.Obls {
					fmt.Printf("   %-8s %-12s %-22s %5.2fs %s @ %s\n", o.Status, o.Kind, o.Backend, o.Time, o.Name, o.Pos)
				}
			}
		}
	case "check":
		os.Exit(runCheck(*repo, *verif, *prop, *tier))
	default:
		usage()
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
