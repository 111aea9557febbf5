package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Heap canonicalisation: garbage created during a call is dropped and, when a
// call has several results, the objects it allocated and returns get names
// that do not depend on the path, so that equal results can be recognised.

func (e *Engine) collect(st *State, old map[*Obj]bool, roots []Value) (order []*Obj, viaTerm map[*Obj]bool) {
	seen := map[*Obj]bool{}
	viaTerm = map[*Obj]bool{}
	isNew := func(o *Obj) bool { return o != nil && st.alive[o] && !old[o] }
	byObj := map[*Obj][]cell{}
	for c := range st.mem {
		byObj[c.obj] = append(byObj[c.obj], c)
	}
	var work []*Obj
	add := func(v Value) {
		e.refsX(v, func(o *Obj, t bool) {
			if !isNew(o) {
				return
			}
			if t {
				viaTerm[o] = true
			}
			if !seen[o] {
				seen[o] = true
				order = append(order, o)
				work = append(work, o)
			}
		})
	}
	for _, v := range roots {
		add(v)
	}
	var oldCells []cell
	for c := range st.mem {
		if !isNew(c.obj) {
			oldCells = append(oldCells, c)
		}
	}
	sortCells(oldCells)
	for _, c := range oldCells {
		add(st.mem[c].v)
	}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		cs := byObj[o]
		sortCells(cs)
		for _, c := range cs {
			add(st.mem[c].v)
		}
	}
	return
}

func sortCells(cl []cell) {
	for i := 1; i < len(cl); i++ {
		for j := i; j > 0 && (cl[j].obj.id < cl[j-1].obj.id || cl[j].obj.id == cl[j-1].obj.id && cl[j].path < cl[j-1].path); j-- {
			cl[j], cl[j-1] = cl[j-1], cl[j]
		}
	}
}

// refsX is refsOf with a flag for references hidden in terms.
func (e *Engine) refsX(v Value, f func(o *Obj, viaTerm bool)) {
	switch x := v.(type) {
	case *Term:
		refsOf(e, x, func(o *Obj) { f(o, true) })
	case *ArrV:
		e.refsX(x.seq, f)
	case *Ptr:
		if x.obj != nil {
			f(x.obj, false)
		}
	case *Slice:
		if x.obj != nil {
			f(x.obj, false)
		}
	case *StructV:
		for _, y := range x.f {
			e.refsX(y, f)
		}
	case *Iface:
		if x.val != nil {
			e.refsX(x.val, f)
		}
		if x.t != nil {
			e.refsX(x.t, f)
		}
	case *Closure:
		for _, y := range x.binds {
			e.refsX(y, f)
		}
	case Tuple:
		for _, y := range x {
			e.refsX(y, f)
		}
	case *IterV:
		f(x.obj, true)
		e.refsX(x.x, f)
	default:
		refsOf(e, v, func(o *Obj) { f(o, true) })
	}
}

func (e *Engine) sweep(st *State, old map[*Obj]bool, keep []*Obj) {
	k := map[*Obj]bool{}
	for _, o := range keep {
		k[o] = true
	}
	for c := range st.mem {
		if st.alive[c.obj] && !old[c.obj] && !k[c.obj] {
			delete(st.mem, c)
		}
	}
	for o := range st.alive {
		if !old[o] && !k[o] {
			delete(st.alive, o)
		}
	}
}

// gcFS drops garbage of the running call at a merge point.
func (e *Engine) gcFS(fr *frame, live []ssa.Value, fs *FS) {
	if fr.old == nil {
		return
	}
	var roots []Value
	for _, v := range live {
		roots = append(roots, fs.env[v])
	}
	for _, d := range fs.def {
		roots = append(roots, d.fnv)
		roots = append(roots, d.args...)
	}
	for _, p := range fr.fn.FreeVars {
		roots = append(roots, fs.env[p])
	}
	keep, _ := e.collect(fs.st, fr.old, roots)
	e.sweep(fs.st, fr.old, keep)
}

func (e *Engine) canonResults(fr *frame, rs []*Result) {
	gen := 0
	site := "ret:" + fr.ctx
	for _, r := range rs {
		if n := r.st.gen[site]; n > gen {
			gen = n
		}
	}
	for _, r := range rs {
		keep, via := e.collect(r.st, fr.old, []Value{Tuple(r.vals)})
		e.sweep(r.st, fr.old, keep)
		if len(rs) < 2 {
			continue
		}
		m := map[*Obj]*Obj{}
		for i, o := range keep {
			if via[o] {
				continue
			}
			if _, ok := o.typ.Underlying().(*types.Slice); ok || true {
				n := e.objOf(fmt.Sprintf("%s.%d.%d:%s", site, gen, i, typeStr(o.typ)), o.typ)
				if n == o {
					continue
				}
				n.root, n.sym, n.n = o.root, o.sym, o.n
				m[o] = n
			}
		}
		for _, n := range m {
			for c := range r.st.mem {
				if c.obj == n {
					m = nil // name in use: leave the state alone
					break
				}
			}
			if m == nil {
				break
			}
		}
		if m != nil {
			e.rename(r, m)
		}
		for c, v := range r.st.mem {
			if t, ok := v.v.(*Term); ok && isSeqOp(t) && !fr.old[c.obj] && r.st.alive[c.obj] {
				if n := normSeq(r.st.facts, t); n != t {
					r.st.mem[c] = cellV{n, v.t}
				}
			}
		}
		for i, v := range r.vals {
			r.vals[i] = normLens(r.st.facts, v)
		}
		g := make(map[string]int, len(r.st.gen)+1)
		for a, b := range r.st.gen {
			g[a] = b
		}
		g[site] = gen + 1
		r.st.gen = g
	}
}

func normLens(F *Facts, v Value) Value {
	c := func(t *Term) *Term {
		if t != nil && !t.isC() {
			if k := F.constOf(t); k != nil {
				return k
			}
		}
		return t
	}
	switch x := v.(type) {
	case *Slice:
		if x.obj == nil {
			return v
		}
		n := *x
		n.off, n.len, n.cap = c(x.off), c(x.len), c(x.cap)
		return &n
	}
	return v
}

func (e *Engine) rename(r *Result, m map[*Obj]*Obj) {
	if len(m) == 0 {
		return
	}
	memo := map[Value]Value{}
	for i, v := range r.vals {
		r.vals[i] = renameVal(v, m, memo)
	}
	nm := make(map[cell]cellV, len(r.st.mem))
	for c, v := range r.st.mem {
		if n := m[c.obj]; n != nil {
			c.obj = n
		}
		v.v = renameVal(v.v, m, memo)
		nm[c] = v
	}
	r.st.mem = nm
	for o, n := range m {
		if r.st.alive[o] {
			delete(r.st.alive, o)
			r.st.alive[n] = true
		}
	}
}

func renameVal(v Value, m map[*Obj]*Obj, memo map[Value]Value) Value {
	switch x := v.(type) {
	case *Ptr:
		if n := m[x.obj]; n != nil {
			c := *x
			c.obj = n
			return &c
		}
	case *Slice:
		if n := m[x.obj]; n != nil {
			c := *x
			c.obj = n
			return &c
		}
	case *StructV:
		c := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			c.f[i] = renameVal(x.f[i], m, memo)
		}
		return c
	case *Iface:
		if x.val != nil {
			c := *x
			c.val = renameVal(x.val, m, memo)
			return &c
		}
	case *Closure:
		if len(x.binds) > 0 {
			c := *x
			c.binds = make([]Value, len(x.binds))
			for i := range x.binds {
				c.binds[i] = renameVal(x.binds[i], m, memo)
			}
			return &c
		}
	case Tuple:
		c := make(Tuple, len(x))
		for i := range x {
			c[i] = renameVal(x[i], m, memo)
		}
		return c
	}
	return v
}
