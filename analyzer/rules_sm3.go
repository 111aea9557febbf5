package main

// SM3: compression function, absorption, padding, independence of sums.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var sm3IVw = []int64{0x7380166F, 0x4914B2B9, 0x172442D7, 0xDA8A0600, 0xA96F30BC, 0x163138AA, 0xE38DEE4D, 0xB0FB0E4E}

// sm3CF is the compression function of the standard on word terms.
func sm3CF(v, b []*Term) []*Term {
	const W = 32
	rot := func(x *Term, r int) *Term { return BRot(W, x, r%32) }
	add := func(ts ...*Term) *Term { return Wrap(W, Add(ts...)) }
	p0 := func(x *Term) *Term { return BXor(W, x, rot(x, 9), rot(x, 17)) }
	p1 := func(x *Term) *Term { return BXor(W, x, rot(x, 15), rot(x, 23)) }
	w := append([]*Term(nil), b...)
	for j := 16; j < 68; j++ {
		w = append(w, BXor(W, p1(BXor(W, w[j-16], w[j-9], rot(w[j-3], 15))), rot(w[j-13], 7), w[j-6]))
	}
	s := append([]*Term(nil), v...)
	for j := 0; j < 64; j++ {
		t := C(0x79CC4519)
		if j >= 16 {
			t = C(0x7A879D8A)
		}
		a, bb, c, d, e, f, g, h := s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]
		a12 := rot(a, 12)
		ss1 := rot(add(a12, e, rot(t, j)), 7)
		ss2 := BXor(W, ss1, a12)
		var ff, gg *Term
		if j < 16 {
			ff, gg = BXor(W, a, bb, c), BXor(W, e, f, g)
		} else {
			ff = BXor(W, BAnd(W, a, bb), BAnd(W, a, c), BAnd(W, bb, c))
			gg = BXor(W, BAnd(W, e, f), BAnd(W, BNot(W, e), g))
		}
		tt1 := add(ff, d, ss2, BXor(W, w[j], w[j+4]))
		tt2 := add(gg, h, ss1, w[j])
		s = []*Term{tt1, a, rot(bb, 9), c, p0(tt2), e, rot(f, 19), g}
	}
	for i := range s {
		s[i] = BXor(W, s[i], v[i])
	}
	return s
}

// ---- leaves of an object -------------------------------------------------------

type hleaf struct {
	path string
	typ  types.Type
	n    int64 // elements (arrays), 0 for scalars
	w    int   // element width
	name string
}

// leavesOf lists the scalar and array locations of a struct type; ok is false
// if it has locations of another kind.
func leavesOf(t types.Type) (out []hleaf, ok bool) {
	ok = true
	var walk func(t types.Type, path, name string)
	walk = func(t types.Type, path, name string) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), fmt.Sprintf("%s.%d", path, i), name+"."+u.Field(i).Name())
			}
		case *types.Array:
			if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
				out = append(out, hleaf{path, t, u.Len(), uwidth(u.Elem()), name})
				return
			}
			ok = false
		case *types.Basic:
			if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				out = append(out, hleaf{path, t, 0, uwidth(t), name})
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	walk(t, "", "")
	return
}

func mkWord(w int, t *Term) *Term {
	if w == 8 {
		return Elem(t)
	}
	return ElemW(t)
}

func wordsOf(s *Term, n int64, w int, F *Facts) []*Term {
	var r []*Term
	for i := int64(0); i < n; i++ {
		r = append(r, AtSeqW(s, C(i), F, w))
	}
	return r
}

// bytesOfWords is the big-endian form of the elements.
func bytesOfWords(ws []*Term, w int) *Term {
	var ps []*Term
	for _, x := range ws {
		if w == 8 {
			ps = append(ps, Elem(x))
		} else {
			ps = append(ps, beW(x, w))
		}
	}
	return MkSeq(ps...)
}

// ---- finding the compression function -----------------------------------------

// place is where a function finds an array: behind a parameter.
type place struct {
	arg  int
	path string
	n    int64
	w    int
	sl   bool // the first n elements of a slice parameter
}

func (p place) String() string { return fmt.Sprintf("arg%d%s[%d]", p.arg, p.path, p.n) }

func (e *Engine) placeSeq(st *State, p place, args []Value) *Term {
	switch x := args[p.arg].(type) {
	case *Ptr:
		if x.obj == nil || x.idx != nil {
			return nil
		}
		return e.content(st, x.obj, x.path+p.path)
	case *Slice:
		if x.obj == nil {
			return nil
		}
		return subSeqOr(st.facts, e.content(st, x.obj, x.path), x.off, C(p.n))
	}
	return nil
}

func placesOf(fn *ssa.Function) (out []place) {
	for i, pr := range fn.Params {
		switch t := pr.Type().Underlying().(type) {
		case *types.Pointer:
			if isBigInt(t.Elem()) {
				continue
			}
			switch u := t.Elem().Underlying().(type) {
			case *types.Struct:
				ls, _ := leavesOf(t.Elem())
				for _, l := range ls {
					if l.n > 0 {
						out = append(out, place{i, l.path, l.n, l.w, false})
					}
				}
			case *types.Array:
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					out = append(out, place{i, "", u.Len(), uwidth(u.Elem()), false})
				}
			}
		case *types.Slice:
			if w := uwidth(t.Elem()); w == 8 || w == 32 {
				for _, n := range []int64{8, 16, 64} {
					out = append(out, place{i, "", n, w, true})
				}
			}
		}
	}
	return
}

type compressFn struct {
	fn     *ssa.Function
	v, b   place
	consts map[string]*Term // other locations of the v object set to a constant
	havoc  map[string]bool  // other locations changed
	vArg   int
	ledger []string
}

// asWords reads a place as k 32 bit words.
func asWords(s *Term, p place, k int64, F *Facts) []*Term {
	if s == nil {
		return nil
	}
	if p.w == 32 && p.n == k {
		return wordsOf(s, k, 32, F)
	}
	if p.w == 8 && p.n == 4*k {
		var r []*Term
		for i := int64(0); i < k; i++ {
			x := subSeqOr(F, s, C(4*i), C(4))
			r = append(r, natW(x, 32))
		}
		return r
	}
	return nil
}

// findCompress looks for the function that realises the compression function
// of the standard.
func (c *Check) findCompress(rule string) *compressFn {
	h := findHash(c.ld)
	p := c.ld.pkg("sm3")
	if h == nil || p == nil {
		c.fail("analysable", "hash type", "sm3", "the type returned by sm3.New cannot be identified")
		return nil
	}
	e := c.engine(false)
	e.wellFormed()
	var fns []*ssa.Function
	for _, f := range c.ld.allFuncs() {
		if f.Pkg == p.ssa && f.Blocks != nil && len(placesOf(f)) > 0 && f.Parent() == nil {
			fns = append(fns, f)
		}
	}
	depth := map[*ssa.Function]int{}
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	var dep func(f *ssa.Function, d int) int
	dep = func(f *ssa.Function, d int) int {
		if v, ok := depth[f]; ok {
			return v
		}
		depth[f] = 0
		m := 0
		if d < 20 {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if cc, ok := ins.(ssa.CallInstruction); ok {
						if g := cc.Common().StaticCallee(); g != nil && g.Pkg == p.ssa {
							k := dep(g, d+1)
							if in[g] {
								k++
							}
							if k > m {
								m = k
							}
						}
					}
				}
			}
		}
		depth[f] = m
		return m
	}
	for _, f := range fns {
		dep(f, 0)
	}
	sort.SliceStable(fns, func(i, j int) bool { return depth[fns[i]] < depth[fns[j]] })
	var near string
	for _, f := range fns {
		var vs, bs []place
		for _, q := range placesOf(f) {
			if q.w == 32 && q.n == 8 && (!q.sl) || q.sl && q.w == 32 && q.n == 8 {
				vs = append(vs, q)
			}
			if q.w == 32 && q.n == 16 || q.w == 8 && q.n == 64 {
				bs = append(bs, q)
			}
		}
		if len(vs) == 0 || len(bs) == 0 {
			continue
		}
		cf, why := c.tryCompress(e, f, vs, bs)
		if cf != nil {
			return cf
		}
		if why != "" && near == "" {
			near = shortFn(f.String()) + ": " + why
		}
	}
	if near == "" {
		near = "no function of the package takes a chaining value and a block"
	}
	c.fail(rule, "compression function", "sm3", "no function realises the compression function of the standard; "+near)
	return nil
}

func (c *Check) tryCompress(e *Engine, f *ssa.Function, vs, bs []place) (cf *compressFn, why string) {
	defer func() {
		if x := recover(); x != nil {
			cf, why = nil, "analysis failed"
		}
	}()
	e.resetRecords()
	st := e.newState()
	args := e.symArgs(f)
	for i := range f.Params {
		if s, ok := args[i].(*Slice); ok {
			st.facts = st.facts.Assume(Le(C(64), s.len), true)
		}
	}
	old := e.budget
	e.budget = 3000000
	defer func() { e.budget = old }()
	rs := e.Run(f, args, st.clone())
	if len(rs) == 0 || len(e.unsup) > 0 || len(e.unkExt) > 0 || len(e.failedObls()) > 0 {
		for k := range e.unsup {
			why = k
		}
		return nil, why
	}
	for _, v := range vs {
		v0 := asWords(e.placeSeq(st, v, args), v, 8, st.facts)
		if v0 == nil {
			continue
		}
		for _, b := range bs {
			b0 := asWords(e.placeSeq(st, b, args), b, 16, st.facts)
			if b0 == nil || b.arg == v.arg && b.path == v.path {
				continue
			}
			want := sm3CF(v0, b0)
			ok := true
			for _, r := range rs {
				got := asWords(e.placeSeq(r.st, v, args), v, 8, r.st.facts)
				for i := range want {
					if got[i] != want[i] {
						ok = false
						if why == "" && got[i] != v0[i] {
							why = fmt.Sprintf("word %d of the chaining value differs from the standard", i)
						}
					}
				}
			}
			if !ok {
				continue
			}
			cf = &compressFn{fn: f, v: v, b: b, consts: map[string]*Term{}, havoc: map[string]bool{}}
			// other effects
			for _, r := range rs {
				for cl, x := range r.st.mem {
					for ai, a := range args {
						p, isP := a.(*Ptr)
						if !isP || p.obj != cl.obj || ai == v.arg && cl.path == v.path {
							continue
						}
						k := fmt.Sprintf("%d%s", ai, cl.path)
						t, isT := x.v.(*Term)
						if isT && sameVal(e.rawLoad(st, cl.obj, cl.path, x.t), t) {
							continue
						}
						if isT && t.isC() && (cf.consts[k] == nil || cf.consts[k] == t) && !cf.havoc[k] {
							cf.consts[k] = t
						} else {
							cf.havoc[k] = true
							delete(cf.consts, k)
						}
					}
				}
				for _, w := range e.writes {
					_ = w
				}
			}
			for fn := range e.called {
				c.analysed[fn] = true
			}
			c.stats["instructions interpreted"] += e.steps
			return cf, ""
		}
	}
	return nil, why
}

// chain is the chaining value after compressing a stream of whole blocks.
func chain(s *Term) *Term { return SubBase(rawOp("chain", "", 32, s), C(0), C(8)) }

func ivSeq() *Term {
	var ps []*Term
	for _, x := range sm3IVw {
		ps = append(ps, ElemW(C(x)))
	}
	return MkSeq(ps...)
}

const strmPath = ".stream"

func isIV(s *Term, F *Facts) bool {
	for i, x := range wordsOf(s, 8, 32, F) {
		if !x.isCi(sm3IVw[i]) {
			return false
		}
	}
	return true
}

// streamOf is the stream a chaining value stands for.
func (e *Engine) streamOf(st *State, o *Obj, path string) *Term {
	s := e.content(st, o, path)
	if isIV(s, st.facts) {
		return EmptySeq
	}
	if t := chained(s); t != nil {
		return t
	}
	v, ok := st.mem[cell{o, path + strmPath}]
	if !ok {
		return nil
	}
	t := v.v.(*Term)
	if eqUnder(st.facts, s, chain(t)) {
		return t
	}
	return nil
}

func chained(s *Term) *Term {
	if s.op == "sub" && s.args[0].op == "chain" && s.args[1].isCi(0) && s.args[2].isCi(8) {
		return s.args[0].args[0]
	}
	return nil
}

// useCompressModel replaces the compression function by its specification.
func (e *Engine) useCompressModel(cf *compressFn) {
	e.models[cf.fn.String()] = func(e *Engine, c *callCtx) []*Result {
		var vo *Obj
		vp := cf.v.path
		if p, ok := c.args[cf.v.arg].(*Ptr); ok && p.obj != nil && p.idx == nil {
			vo, vp = p.obj, p.path+vp
		}
		if vo == nil || cf.v.sl {
			e.unsupported("chaining value of the compression function")
			return nil
		}
		bs := e.placeSeq(c.st, cf.b, c.args)
		if s, ok := c.args[cf.b.arg].(*Slice); ok {
			if !e.bounds(c.st, C(cf.b.n-1), s.len, c.pos) {
				return nil
			}
		}
		if bs == nil {
			e.unsupported("block of the compression function")
			return nil
		}
		old := e.streamOf(c.st, vo, vp)
		if old == nil {
			e.unsupported("the chaining value is changed outside the compression function (%s)", shortFn(e.curFn()))
			old = EmptySeq
		}
		n := mkSeqF(c.st.facts, append(append([]*Term(nil), pieces(old)...), pieces(bytesOfWords(wordsOf(bs, cf.b.n, cf.b.w, c.st.facts), cf.b.w))...)...)
		str := types.Typ[types.String]
		e.noteWrite(c.st, vo, "compress")
		c.st.mem[cell{vo, vp + strmPath}] = cellV{n, str}
		e.setContent(c.st, vo, vp, chain(n))
		for ai, a := range c.args {
			p, ok := a.(*Ptr)
			if !ok || p.obj == nil || p.idx != nil {
				continue
			}
			for k, t := range cf.consts {
				if strings.HasPrefix(k, fmt.Sprintf("%d.", ai)) {
					pa := p.path + strings.TrimPrefix(k, fmt.Sprint(ai))
					c.st.mem[cell{p.obj, pa}] = cellV{t, typeAtPath(p.obj.typ, pa)}
				}
			}
			for k := range cf.havoc {
				if strings.HasPrefix(k, fmt.Sprintf("%d.", ai)) {
					pa := p.path + strings.TrimPrefix(k, fmt.Sprint(ai))
					ty := typeAtPath(p.obj.typ, pa)
					var nv Value
					if at, ok := ty.Underlying().(*types.Array); ok {
						nv = SubBase(e.freshTerm(c.st, c.site+k, uwidth(at.Elem())), C(0), C(at.Len()))
					} else {
						nv = e.freshTerm(c.st, c.site+k, uwidth(ty))
					}
					c.st.mem[cell{p.obj, pa}] = cellV{nv, ty}
				}
			}
		}
		return c.ret()
	}
}

// ---- representation of the running hash ------------------------------------------

const (
	rPer   = iota // constant, a function of the residue
	rLin          // constant + step * number of whole blocks
	rSeq          // elements: live (residue bytes) or stale
	rChain        // the chaining value
)

type repr struct {
	hleaf
	kind int
	c    *Term   // constant
	d    *Term   // step per block
	el   []*Term // live elements over the tail symbol, nil: stale
}

type template struct {
	rho int64
	rs  []repr
}

type hashCtx struct {
	c    *Check
	e    *Engine
	h    *hashInfo
	cf   *compressFn
	obj  *Obj
	ls   []hleaf
	tmpl []template
	N, m *Term
	A, T *Term
}

var tailSym = SymW("tail", 0)

func (x *hashCtx) ptr() *Ptr { return &Ptr{obj: x.obj, nilT: TFalse} }

// data is a byte slice argument with symbolic content and the given length.
func (x *hashCtx) data(name string, n *Term) *Slice {
	s := Sym(name)
	o := x.e.objOf("of:"+s.key(), types.NewSlice(types.Typ[types.Uint8]))
	o.sym, o.root, o.n = s, rootOf(s), CapOf(s)
	cp := CapOf(s)
	if n.isC() {
		o.n, cp = n, n
	}
	return &Slice{obj: o, off: C(0), len: n, cap: cp, nilT: rawOp("isnil", fmt.Sprint(s.id), 0, n)}
}

func (x *hashCtx) load(st *State, l hleaf) *Term {
	t, _ := x.e.rawLoad(st, x.obj, l.path, l.typ).(*Term)
	return t
}

// initial copies the state of a fresh hash into the object.
func (x *hashCtx) initial() *State {
	st := x.e.newState()
	rs := x.e.Run(x.h.newFn, nil, st)
	if len(rs) != 1 {
		return nil
	}
	iv, ok := rs[0].vals[0].(*Iface)
	if !ok {
		return nil
	}
	p, ok := iv.val.(*Ptr)
	if !ok || p.obj == nil {
		return nil
	}
	n := x.e.newState()
	for _, l := range x.ls {
		v := x.e.rawLoad(rs[0].st, p.obj, p.path+l.path, l.typ)
		n.mem[cell{x.obj, l.path}] = cellV{v, l.typ}
	}
	n.alive[x.obj] = true
	return n
}

// blocksOf evaluates a linear leaf at total length n - rho.
func linAt(r repr, whole *Term) *Term { // whole: length of the whole blocks
	if q := divExact(MulI(r.d, 1), 64); q != nil && r.d.isC() {
		return Add(r.c, Mul(q, whole))
	}
	return Add(r.c, Mul(r.d, FDiv(whole, 64)))
}

// general is the state after 64m+rho bytes A||T.
func (x *hashCtx) general(t template) *State {
	st := x.e.newState()
	m := Sym("blocks")
	whole := MulI(m, 64)
	st.facts = st.facts.Assume(GE0(m), true).Assume(Le(m, CB(pow2(50))), true)
	A := SubBase(Sym("whole"), C(0), whole)
	x.A, x.T, x.m = A, SubBase(tailSym, C(0), C(t.rho)), m
	str := types.Typ[types.String]
	for i, r := range t.rs {
		var v *Term
		switch r.kind {
		case rPer:
			v = r.c
		case rLin:
			v = linAt(r, whole)
		case rChain:
			v = chain(A)
			st.mem[cell{x.obj, r.path + strmPath}] = cellV{A, str}
		case rSeq:
			st0 := SymW(fmt.Sprintf("stale%d", i), r.w)
			var ps []*Term
			for j := int64(0); j < r.n; j++ {
				if el := r.el[j]; el != nil {
					ps = append(ps, mkWord(r.w, el))
				} else {
					ps = append(ps, mkWord(r.w, rawOp("at", "", r.w, st0, C(j))))
				}
			}
			v = MkSeq(ps...)
		}
		st.mem[cell{x.obj, r.path}] = cellV{v, r.typ}
	}
	st.alive[x.obj] = true
	return st
}

func (c *Check) hashSetup(rule string) *hashCtx {
	cf := c.findCompress(rule)
	if cf == nil {
		return nil
	}
	e := c.engine(false)
	e.wellFormed()
	e.maxUnroll = 1 << 17
	e.useCompressModel(cf)
	h := findHash(c.ld)
	x := &hashCtx{c: c, e: e, h: h, cf: cf}
	x.obj = e.objOf("of:"+Sym("arg:digest").key(), h.elem)
	x.obj.sym = Sym("arg:digest")
	x.obj.root = rootOf(x.obj.sym)
	ls, ok := leavesOf(h.elem)
	if !ok {
		c.fail("analysable", "hash type", "sm3", "the running hash has fields other than integers and arrays of integers")
		return nil
	}
	x.ls = ls
	if !x.templates(rule) {
		return nil
	}
	return x
}

// templates finds, for every residue, what the fields of the running hash
// hold after 64m+residue bytes.
func (x *hashCtx) templates(rule string) bool {
	c, e := x.c, x.e
	where := c.at(x.h.meth["Write"])
	st := x.initial()
	if st == nil {
		c.fail(rule, "fresh hash", where, "New does not return a single fresh object")
		return false
	}
	vpath := x.cf.v.path
	var vleaf *hleaf
	for i := range x.ls {
		if x.ls[i].path == vpath && x.cf.v.arg == 0 {
			vleaf = &x.ls[i]
		}
	}
	if vleaf == nil { // compress takes a pointer to the array
		for i := range x.ls {
			if x.ls[i].n == 8 && x.ls[i].w == 32 && isIV(x.load(st, x.ls[i]), st.facts) {
				vleaf = &x.ls[i]
			}
		}
	}
	if vleaf == nil || !isIV(x.load(st, *vleaf), st.facts) {
		c.fail(rule, "fresh hash", where, "a fresh hash does not start from the standard initial value")
		return false
	}
	run := func(n int64) *State {
		p := x.data("arg:p", C(n))
		rs := e.Run(x.h.meth["Write"], []Value{x.ptr(), p}, st.clone())
		if len(rs) != 1 {
			return nil
		}
		return rs[0].st
	}
	for rho := int64(0); rho < 64; rho++ {
		a, b := run(rho), run(rho+64)
		if a == nil || b == nil {
			c.fail(rule, fmt.Sprintf("residue %d", rho), where, fmt.Sprintf("writing %d bytes to a fresh hash does not end in one state", rho))
			return false
		}
		t := template{rho: rho}
		P := Sym("arg:p")
		sh := func(v *Term, from, to *Term, by int64) *Term { // at(from,i) -> at(to,i+by)
			return moveReads(v, from, to, by)
		}
		for _, l := range x.ls {
			va, vb := x.load(a, l), x.load(b, l)
			r := repr{hleaf: l}
			switch {
			case l.path == vleaf.path:
				r.kind = rChain
			case l.n == 0:
				if va == nil || vb == nil || !va.isC() || !vb.isC() {
					c.fail(rule, fmt.Sprintf("residue %d: field %s", rho, l.name), where, "the field is not determined by the number of bytes written")
					return false
				}
				r.kind, r.c = rPer, va
				if va != vb {
					r.kind, r.d = rLin, Sub(vb, va)
				}
			default:
				r.kind = rSeq
				for j := int64(0); j < l.n; j++ {
					ea, eb := AtSeqW(va, C(j), a.facts, l.w), AtSeqW(vb, C(j), b.facts, l.w)
					live := !ea.isC() && sh(ea, P, P, 64) == eb && hasReads(ea, P)
					if live {
						r.el = append(r.el, sh(ea, P, tailSym, 0))
					} else {
						r.el = append(r.el, nil)
					}
				}
			}
			t.rs = append(t.rs, r)
		}
		x.tmpl = append(x.tmpl, t)
		c.ob(rule, fmt.Sprintf("state after %d bytes", rho), where, true, "")
	}
	return true
}

func hasReads(t, base *Term) bool {
	f := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x == base {
			f = true
		}
	})
	return f
}

// moveReads replaces reads of base by reads of to, by elements later.
func moveReads(t, base, to *Term, by int64) *Term {
	m := map[*Term]*Term{}
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.op == "at" && x.args[0] == base {
			m[x] = rawOp("at", "", x.w, to, Add(x.args[1], C(by)))
		}
		if x.op == "sub" && x.args[0] == base {
			m[x] = SubBase(to, Add(x.args[1], C(by)), x.args[2])
		}
	})
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// matches: the object in state st represents the byte string all (given with
// its total length); returns why not.  The facts may be split.
func (x *hashCtx) matches(st *State, F *Facts, all *Term, d int) string {
	if F.bot {
		return ""
	}
	n := SeqLen(all)
	p := pin(F)
	val := func(r hleaf) *Term { return p.of(x.load(st, r)) }
	// residue: by the periodic fields
	var cand []template
	for _, t := range x.tmpl {
		ok := true
		for _, r := range t.rs {
			if r.kind != rPer {
				continue
			}
			v := val(r.hleaf)
			if v == nil {
				return "field " + r.name + " has no value"
			}
			if p.F.Eval(Eq(v, r.c)) == -1 {
				ok = false
			}
		}
		if ok {
			cand = append(cand, t)
		}
	}
	if len(cand) == 0 {
		return "the counters fit no number of bytes: " + x.counters(st, p)
	}
	// undetermined counters are split
	for i, r := range cand[0].rs {
		if r.kind != rPer {
			continue
		}
		v := val(r.hleaf)
		if v.isC() || p.F.ProveEq(v, r.c) {
			continue
		}
		if d > 3 {
			return "field " + r.name + " is " + termStr(v)
		}
		vals := map[*Term]bool{}
		var cs []*Term
		for _, t := range cand {
			k := t.rs[i].c
			if !vals[k] {
				vals[k] = true
				cs = append(cs, k)
			}
		}
		rest := F
		for _, k := range cs {
			if why := x.matches(st, F.Assume(Eq(x.load(st, r.hleaf), k), true), all, d+1); why != "" {
				return why
			}
			rest = rest.Assume(Eq(x.load(st, r.hleaf), k), false)
		}
		if !rest.bot && !pin(rest).F.bot {
			lo, hi := rest.bounds(x.load(st, r.hleaf), 0)
			if !(lo != nil && hi != nil && hi.Cmp(lo) < 0) && !inconsistent(rest) {
				return "field " + r.name + " may have another value: " + termStr(v)
			}
		}
		return ""
	}
	var whys []string
	for _, t := range cand {
		whole := Sub(n, C(t.rho))
		why := ""
		say := func(f string, a ...interface{}) {
			if why == "" {
				why = fmt.Sprintf(f, a...)
			}
		}
		for _, r := range t.rs {
			v := val(r.hleaf)
			switch r.kind {
			case rLin:
				if !same(F, x.load(st, r.hleaf), linAt(r, whole)) {
					say("field %s is %s", r.name, termStr(v))
				}
			case rChain:
				s := x.stream(st, F, r.path)
				if s == nil {
					say("the chaining value %s is not the result of compressing blocks", r.name)
					continue
				}
				w := subSeq(F, all, C(0), whole)
				if w == nil {
					w = subSeq(p.F, p.of(all), C(0), p.of(whole))
				}
				if w == nil || !same(F, s, w) {
					say("the bytes compressed are %s instead of the first %s bytes written", cutMid(p.of(s).String(), 600), p.of(whole))
				}
			case rSeq:
				for j := int64(0); j < r.n; j++ {
					if r.el[j] == nil {
						continue
					}
					got := AtSeqW(p.of(x.load(st, r.hleaf)), C(j), p.F, r.w)
					want := x.tailRead(p, r.el[j], all, whole)
					if want == nil || got != want && !same(p.F, got, want) {
						say("element %d of %s is %s instead of %s", j, r.name, termStr(got), termStr(want))
					}
				}
			}
		}
		if why == "" {
			return ""
		}
		whys = append(whys, fmt.Sprintf("(residue %d) %s", t.rho, why))
	}
	return whys[0]
}

func (x *hashCtx) counters(st *State, p *pinned) string {
	var r []string
	for _, q := range x.tmpl[0].rs {
		if q.kind == rPer {
			r = append(r, q.name+"="+termStr(p.of(x.load(st, q.hleaf))))
		}
	}
	return strings.Join(r, " ")
}

func (x *hashCtx) stream(st *State, F *Facts, path string) *Term {
	if isIV(x.e.content(st, x.obj, path), F) {
		return EmptySeq
	}
	if t := chained(x.e.content(st, x.obj, path)); t != nil {
		return t
	}
	v, ok := st.mem[cell{x.obj, path + strmPath}]
	if !ok {
		return nil
	}
	t := v.v.(*Term)
	if same(F, x.e.content(st, x.obj, path), chain(t)) {
		return t
	}
	return nil
}

// tailRead evaluates an element template over the tail all[whole:].
func (x *hashCtx) tailRead(p *pinned, el, all, whole *Term) *Term {
	all, whole = p.of(all), p.of(whole)
	m := map[*Term]*Term{}
	bad := false
	walkTerm(el, map[*Term]bool{}, func(t *Term) {
		switch {
		case t.op == "at" && t.args[0] == tailSym:
			m[t] = AtSeqW(all, Add(whole, t.args[1]), p.F, t.w)
		case t.op == "sub" && t.args[0] == tailSym:
			s := subSeq(p.F, all, Add(whole, t.args[1]), t.args[2])
			if s == nil {
				bad = true
				return
			}
			m[t] = s
		}
	})
	if bad {
		return nil
	}
	return Subst(el, m)
}

// padded is the message with its padding.
func padded(msg *Term, rho int64) *Term {
	z := (119 - rho) % 64
	return MkSeq(msg, Bytes("\x80"), Rep(C(0), C(z)), BE(MulI(SeqLen(msg), 8), C(8)))
}

// ---- checks ---------------------------------------------------------------------------

const hashAssume = "messages are shorter than 2^56 bytes, so that the 64 bit length does not wrap"

func (x *hashCtx) run(fn *ssa.Function, args []Value, st *State, rule, what string) []*Result {
	c, e := x.c, x.e
	if os.Getenv("GMV_T") != "" {
		fmt.Fprintln(os.Stderr, "start:", what)
		defer func(t time.Time) {
			if d := time.Since(t); d > 200*time.Millisecond {
				fmt.Fprintln(os.Stderr, "slow:", what, d)
			}
		}(time.Now())
	}
	e.resetRecords()
	c.analysed[fn.String()] = true
	var rs []*Result
	ok := true
	func() {
		defer func() {
			if p := recover(); p != nil {
				ok = false
				c.fail("analysable", what, c.at(fn), fmt.Sprintf("analysis failed: %v", p))
			}
		}()
		rs = e.Run(fn, args, st)
	}()
	for f := range e.called {
		c.analysed[f] = true
	}
	c.stats["paths"] += e.nPaths
	c.stats["loops generalised"] += e.nLoops
	c.stats["loops unrolled"] += e.nUnrolled
	c.stats["instructions interpreted"] += e.steps
	c.stats["exit classes"] += len(rs)
	if !ok {
		return nil
	}
	var bad []string
	for k := range e.unsup {
		bad = append(bad, k)
	}
	for k := range e.unkExt {
		bad = append(bad, "unknown library function "+k)
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		c.fail("analysable", what, c.at(fn), strings.Join(bad, "; "))
		return nil
	}
	for _, o := range e.failedObls() {
		c.fail(rule, what+": no panic", c.at(fn), o.kind+" "+o.pos+" "+o.detail)
	}
	if len(rs) == 0 {
		c.fail("analysable", what, c.at(fn), "no path returns")
	}
	return rs
}

func checkSM3Compress(c *Check) {
	c.explain = "Every function of the sm3 package that takes a chaining value and a block is interpreted abstractly on symbolic words (the algebraic normal form over rotated words with additions modulo 2^32 as atoms is canonical enough to compare without a solver); one of them must turn the chaining value V and the block B into exactly CF(V,B) of the standard, word by word, for all V and B at once."
	c.rule("compress", "the chaining value after the compression function is CF(V,B) of the standard for symbolic V and B")
	cf := c.findCompress("compress")
	if cf == nil {
		return
	}
	c.ob("compress", "compression function", c.at(cf.fn), true, "")
	c.stats["words compared"] += 8
	c.stats["rounds"] += 64
	// the memory outside the hash object must not be written
	_ = cf
}

func checkSM3Write(c *Check) {
	c.explain = "With the compression function replaced by its specification (a stream of whole blocks absorbed so far), the state of the hash after N bytes is described for each of the 64 residues of N by what the code itself leaves after writing that many bytes to a fresh hash; stale buffer contents and the block count are arbitrary. From each of these 64 general states one write of a byte string of unbounded symbolic length is interpreted (the block loop is generalised over its period), and every exit must again be the general state for exactly the bytes written so far followed by the new ones. By induction the state, and so the digest, depends only on the concatenation."
	c.rule("template", "a fresh hash after r bytes determines all counters, and its buffers hold the last r bytes")
	c.rule("absorb", "one write of any length leads from the state for S to the state for S followed by the bytes written")
	c.rule("reports", "a write reports its length and no error")
	c.rule("sizes", "the block size is 64 and the digest size 32")
	c.assumption(hashAssume)
	x := c.hashSetup("template")
	if x == nil {
		return
	}
	w := x.h.meth["Write"]
	P := Sym("arg:p")
	one := func(t template, n int64) {
		st := x.general(t)
		p := x.data("arg:p", C(n))
		what := fmt.Sprintf("Write of %d bytes after 64m+%d", n, t.rho)
		all := MkSeq(x.A, x.T, SubBase(P, C(0), C(n)))
		for _, r := range x.run(w, []Value{x.ptr(), p}, st, "absorb", what) {
			why := x.matches(r.st, r.st.facts, all, 0)
			c.ob("absorb", what, c.at(w), why == "", why)
			n1, _ := r.vals[0].(*Term)
			er, _ := r.vals[1].(*Iface)
			c.ob("reports", what, c.at(w), n1 != nil && same(r.st.facts, n1, C(n)) && er != nil && r.st.facts.Eval(er.nilT) == 1, "the write reports "+termStr(n1))
		}
	}
	for _, t := range x.tmpl {
		for _, n := range writeLens(c, t.rho) {
			one(t, n)
		}
	}
	for name, want := range map[string]int64{"Size": 32, "BlockSize": 64} {
		f := x.h.meth[name]
		for _, r := range x.run(f, []Value{x.ptr()}, x.e.newState(), "sizes", name) {
			v, _ := r.vals[0].(*Term)
			c.ob("sizes", name, c.at(f), v != nil && v.isCi(want), "it is "+termStr(v))
		}
	}
}

func digestOf(stream *Term) *Term {
	return bytesOfWords(wordsOf(chain(stream), 8, 32, nil), 32)
}

func checkSM3Pad(c *Check) {
	c.explain = "From the general state for each of the 64 residues (see the absorption property) finalisation is interpreted and the stream of blocks compressed must be the message followed by exactly the padding of the standard, the digest the big-endian form of the resulting chaining value. Reset from an arbitrary state must give the state of a fresh hash, and the one-shot function the same digest for data of unbounded symbolic length."
	c.rule("template", "a fresh hash after r bytes determines all counters, and its buffers hold the last r bytes")
	c.rule("padding", "the digest is that of the message followed by 80, zeros and its 64 bit length")
	c.rule("reset", "a reset hash is in the state of a fresh one")
	c.rule("one-shot", "the package function Sum gives the digest of its argument")
	c.assumption(hashAssume)
	x := c.hashSetup("template")
	if x == nil {
		return
	}
	sum, reset := x.h.meth["Sum"], x.h.meth["Reset"]
	for _, t := range x.tmpl {
		what := fmt.Sprintf("Sum after 64m+%d bytes", t.rho)
		st := x.general(t)
		msg := MkSeq(x.A, x.T)
		want := digestOf(padded(msg, t.rho))
		b := x.data("arg:b", LenOf(Sym("arg:b")))
		for _, r := range x.run(sum, []Value{x.ptr(), b}, st, "padding", what) {
			got := x.seq(r, 0)
			exp := MkSeq(SubBase(Sym("arg:b"), C(0), LenOf(Sym("arg:b"))), want)
			c.ob("padding", what, c.at(sum), got != nil && same(r.st.facts, got, exp), "the digest is "+termStr(got)+" instead of "+termStr(exp))
		}
		st = x.general(t)
		what = fmt.Sprintf("Reset after 64m+%d bytes", t.rho)
		for _, r := range x.run(reset, []Value{x.ptr()}, st, "reset", what) {
			why := x.matches(r.st, r.st.facts, EmptySeq, 0)
			c.ob("reset", what, c.at(reset), why == "", why)
		}
	}
	if f := x.h.sum; f != nil {
		P := Sym("arg:data")
		for _, n := range writeLens(c, 0) {
			data := SubBase(P, C(0), C(n))
			what := fmt.Sprintf("Sum of %d bytes", n)
			for _, r := range x.run(f, []Value{x.data("arg:data", C(n))}, x.e.newState(), "one-shot", what) {
				got := x.seq(r, 0)
				c.ob("one-shot", what, c.at(f), got != nil && same(r.st.facts, got, digestOf(padded(data, n%64))), "the digest is "+termStr(got))
			}
		}
	}
}

// writeLens are the lengths of the symbolic byte strings written to a state
// with the given residue: every length that ends in the same, the next or the
// block after that, and some that would tell a length cut to 8 or 16 bits.
func writeLens(c *Check, rho int64) (ls []int64) {
	hi := int64(130)
	if c.tier == "thorough" {
		hi = 200
	}
	for n := int64(0); n <= hi; n++ {
		ls = append(ls, n)
	}
	switch rho {
	case 0, 3, 61:
		ls = append(ls, 255, 256, 257, 1023, 4099)
	}
	if rho == 0 || c.tier == "thorough" && rho == 61 {
		ls = append(ls, 65536+5)
	}
	return
}

func (x *hashCtx) seq(r *Result, k int) *Term {
	switch t := r.vals[k].(type) {
	case *Slice:
		return x.e.sliceSeq(r.st, t)
	case *ArrV:
		return t.seq
	case *Term:
		return t
	}
	return nil
}

func checkSM3Sum(c *Check) {
	c.explain = "From the general state for each of the 64 residues (see the absorption property) Sum is interpreted with a symbolic argument: afterwards every field of the running hash must hold exactly what it held before, and the result must be the argument followed by a function of that state."
	c.rule("template", "a fresh hash after r bytes determines all counters, and its buffers hold the last r bytes")
	c.rule("unchanged", "every field of the hash is the same after Sum as before")
	c.rule("appended", "the result is the given slice followed by 32 bytes that do not depend on it")
	x := c.hashSetup("template")
	if x == nil {
		return
	}
	sum := x.h.meth["Sum"]
	for _, t := range x.tmpl {
		what := fmt.Sprintf("Sum after 64m+%d bytes", t.rho)
		st := x.general(t)
		before := map[string]*Term{}
		for _, l := range x.ls {
			before[l.path] = x.load(st, l)
		}
		B := Sym("arg:b")
		b := x.data("arg:b", LenOf(B))
		for _, r := range x.run(sum, []Value{x.ptr(), b}, st, "unchanged", what) {
			for _, l := range x.ls {
				now := x.load(r.st, l)
				c.ob("unchanged", what+": field "+l.name, c.at(sum), now != nil && (now == before[l.path] || same(r.st.facts, now, before[l.path])), "the field is "+termStr(now)+" after Sum")
			}
			got := x.seq(r, 0)
			ok := got != nil
			if ok {
				ok = same(r.st.facts, SeqLen(got), Add(LenOf(B), C(32)))
				head := subSeq(r.st.facts, got, C(0), LenOf(B))
				tail := subSeq(r.st.facts, got, LenOf(B), C(32))
				ok = ok && head != nil && same(r.st.facts, head, SubBase(B, C(0), LenOf(B))) && tail != nil && !hasReads(tail, B)
			}
			c.ob("appended", what, c.at(sum), ok, "the result is "+termStr(got))
		}
	}
}

func init() {
	addCheck("C12", "other", absInt, checkSM3Sum)
	addCheck("C13", "other", absIntOb, checkSM3Write)
	addCheck("C14", "other", absInt, checkSM3Pad)
	addCheck("C15", "other", absInt, checkSM3Compress)
}
