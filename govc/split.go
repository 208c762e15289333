package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A contract with "//verif:split a=0|1 p.F=2|4" is verified once for every
// combination of the listed values, each put in place of the parameter (or of
// the field of the parameter). A caller has to show that the parameters have
// one of the listed values, so the combinations are the whole precondition.

type splitVar struct {
	param string
	path  []string
	vals  []string
}

func (fi *FuncInfo) splits() []splitVar {
	var out []splitVar
	for _, w := range strings.Fields(fi.Dirs["split"]) {
		l, r, ok := strings.Cut(w, "=")
		if !ok {
			continue
		}
		p := strings.Split(l, ".")
		out = append(out, splitVar{p[0], p[1:], strings.Split(r, "|")})
	}
	return out
}

// combos lists the choices of one value per split variable.
func combos(vs []splitVar) [][]string {
	out := [][]string{nil}
	for _, v := range vs {
		var next [][]string
		for _, c := range out {
			for _, a := range v.vals {
				next = append(next, append(append([]string(nil), c...), a))
			}
		}
		out = next
	}
	return out
}

func splitTerm(s string, like *Term) *Term {
	if like.S == BoolS {
		return Bool(s == "true")
	}
	n := int64(0)
	if _, err := fmt.Sscan(s, &n); err != nil {
		panic(&Unsup{Msg: "split value " + s})
	}
	return Int(n)
}

// atPath visits the scalar at a path of field names; put replaces it.
func atPath(st *State, v Value, t types.Type, path []string, put func(*Term) *Term) Value {
	if len(path) == 0 {
		q, ok := v.(*Term)
		if !ok {
			panic(&Unsup{Msg: "split of a parameter that is not scalar"})
		}
		return put(q)
	}
	switch p := v.(type) {
	case *PtrV:
		if len(p.Path) == 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				o := st.heap[p.Obj]
				if n := atPath(st, o, pt.Elem(), path, put); n != o {
					st.heap[p.Obj] = n
				}
				return v
			}
		}
	case *StructV:
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == path[0] {
				n := atPath(st, p.F[i], s.Field(i).Type(), path[1:], put)
				if n == p.F[i] {
					return v
				}
				r := &StructV{T: p.T, F: append([]Value(nil), p.F...)}
				r.F[i] = n
				return r
			}
		}
	}
	panic(&Unsup{Msg: "split path " + strings.Join(path, ".")})
}

func (x *Exec) putSplit(fi *FuncInfo, st *State, args []Value, vs []splitVar, combo []string) {
	sig := fi.Obj.Type().(*types.Signature)
	for k, sv := range vs {
		done := false
		for i := 0; i < sig.Params().Len(); i++ {
			if p := sig.Params().At(i); p.Name() == sv.param {
				args[i] = atPath(st, args[i], p.Type(), sv.path, func(t *Term) *Term { return splitTerm(combo[k], t) })
				done = true
			}
		}
		if !done {
			panic(&Unsup{Msg: "split of " + sv.param})
		}
	}
}

// splitPre is what a caller has to show.
func splitPre(fi *FuncInfo, st *State, args []Value) *Term {
	sig := fi.Obj.Type().(*types.Signature)
	goal := True
	for _, sv := range fi.splits() {
		for i := 0; i < sig.Params().Len(); i++ {
			if p := sig.Params().At(i); p.Name() == sv.param {
				atPath(st, args[i], p.Type(), sv.path, func(t *Term) *Term {
					any := False
					for _, s := range sv.vals {
						any = Or(any, Eq(t, splitTerm(s, t)))
					}
					goal = And(goal, any)
					return t
				})
			}
		}
	}
	return goal
}
