package main

// Reaching definitions of the fields of local struct variables: a variable
// whose address is only used to load and store it or its fields is read flow
// sensitively, so that what a field held before it was overwritten is not
// taken for what it holds afterwards.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// localDefs maps the loads of such variables, for each field read, to the
// stores that can have defined it (a store of the whole variable or of the
// field).
type localDefs map[*ssa.UnOp]map[int]map[*ssa.Store]bool

type localVar struct {
	n      int // fields
	access map[ssa.Instruction]int
}

const wholeVar = -1

func localVars(f *ssa.Function) (vars []*localVar) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			a, ok := ins.(*ssa.Alloc)
			if !ok {
				continue
			}
			st, ok := pointee(a.Type()).Underlying().(*types.Struct)
			if !ok || !hasRefs(st) {
				continue
			}
			v := &localVar{n: st.NumFields(), access: map[ssa.Instruction]int{a: wholeVar}}
			uses := func(p ssa.Value, field int, nested bool) bool {
				for _, r := range *p.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != p || r.Val == p {
							return false
						}
						v.access[r] = field
					case *ssa.UnOp:
						v.access[r] = field
					case *ssa.DebugRef:
					case *ssa.FieldAddr:
						if nested {
							return false
						}
					default:
						return false
					}
				}
				return true
			}
			good := a.Referrers() != nil && uses(a, wholeVar, false)
			for _, r := range *a.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && good {
					good = uses(fa, fa.Field, true)
				}
			}
			if good {
				vars = append(vars, v)
			}
		}
	}
	return
}

func (rf *refFlow) findLocals(f *ssa.Function) {
	type defs []map[*ssa.Store]bool
	for _, v := range localVars(f) {
		in := make([]defs, len(f.Blocks))
		for i := range in {
			in[i] = make(defs, v.n)
			for k := range in[i] {
				in[i][k] = map[*ssa.Store]bool{}
			}
		}
		step := func(d defs, ins ssa.Instruction, seen func(*ssa.UnOp, int)) {
			k, ok := v.access[ins]
			if !ok {
				return
			}
			switch x := ins.(type) {
			case *ssa.Alloc:
				for i := range d {
					d[i] = map[*ssa.Store]bool{}
				}
			case *ssa.Store:
				for i := range d {
					if k == wholeVar || k == i {
						d[i] = map[*ssa.Store]bool{x: true}
					}
				}
			case *ssa.UnOp:
				if seen != nil {
					seen(x, k)
				}
			}
		}
		for changed := true; changed; {
			changed = false
			for _, b := range f.Blocks {
				d := append(defs(nil), in[b.Index]...)
				for _, ins := range b.Instrs {
					step(d, ins, nil)
				}
				for _, s := range b.Succs {
					for i := range d {
						for st := range d[i] {
							if !in[s.Index][i][st] {
								in[s.Index][i][st] = true
								changed = true
							}
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			d := append(defs(nil), in[b.Index]...)
			for _, ins := range b.Instrs {
				step(d, ins, func(x *ssa.UnOp, k int) {
					m := map[int]map[*ssa.Store]bool{}
					for i := range d {
						if k == wholeVar || k == i {
							m[i] = d[i]
						}
					}
					rf.local[x] = m
				})
			}
		}
	}
}

// loadLocal adds to the value loaded what the definitions of its fields hold.
func (rf *refFlow) loadLocal(x *ssa.UnOp, m map[int]map[*ssa.Store]bool) {
	addr := x.X
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		addr = fa.X
	}
	st := pointee(addr.Type()).Underlying().(*types.Struct)
	for i, ds := range m {
		ft := st.Field(i).Type()
		if !hasRefs(ft) {
			continue
		}
		for d := range ds {
			for l := range rf.of(d.Val) {
				if compat(ft, l) && compat(x.Type(), l) {
					rf.add(x, l)
				}
			}
		}
	}
}
