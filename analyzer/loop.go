package main

// Loops.  A loop whose exit tests are decided in every iteration is executed
// iteration by iteration; every other loop is replaced by one general
// iteration number q whose state is found by a fixpoint computation: changed
// locations become functions of q, in closed form where the recurrence is
// recognised, and relational facts are kept when they hold on entry and are
// preserved by the body.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var dbgLoop = os.Getenv("GMV_LOOP") != ""

type recSet struct {
	obls    map[string]*Obl
	unsup   map[string]int
	writes  map[string]*WriteEv
	unkExt  map[string]int
	log     []*Event
	logSeen map[string]bool
	called  map[string]int
}

func (e *Engine) begin() *recSet {
	s := &recSet{e.obls, e.unsup, e.writes, e.unkExt, e.log, e.logSeen, e.called}
	e.obls = map[string]*Obl{}
	e.unsup = map[string]int{}
	e.writes = map[string]*WriteEv{}
	e.unkExt = map[string]int{}
	e.log = nil
	e.logSeen = map[string]bool{}
	e.called = map[string]int{}
	return s
}

func (e *Engine) abort(s *recSet) {
	e.obls, e.unsup, e.writes, e.unkExt, e.log, e.logSeen, e.called = s.obls, s.unsup, s.writes, s.unkExt, s.log, s.logSeen, s.called
}

func (e *Engine) commit(s *recSet) {
	t := recSet{e.obls, e.unsup, e.writes, e.unkExt, e.log, e.logSeen, e.called}
	e.abort(s)
	for k, o := range t.obls {
		p := e.obls[k]
		if p == nil {
			e.obls[k] = o
			continue
		}
		p.n += o.n
		if o.failed && !p.failed {
			p.failed, p.detail, p.facts = true, o.detail, o.facts
		}
	}
	for k, n := range t.unsup {
		e.unsup[k] += n
	}
	for k, w := range t.writes {
		if e.writes[k] == nil {
			e.writes[k] = w
		}
	}
	for k, n := range t.unkExt {
		e.unkExt[k] += n
	}
	for k, n := range t.called {
		e.called[k] += n
	}
	for k := range t.logSeen {
		e.logSeen[k] = true
	}
	e.log = append(e.log, t.log...)
}

func (e *Engine) execLoop(fr *frame, r *region, fs *FS) []exitS {
	if out, ok := e.tryUnroll(fr, r, fs); ok {
		return out
	}
	return e.generalise(fr, r, fs)
}

const maxUnroll = 300 // default

type ifKey struct {
	r  *region
	in *ssa.If
}

func (e *Engine) tryUnroll(fr *frame, r *region, fs *FS) ([]exitS, bool) {
	rec := e.begin()
	save := e.iter
	defer func() { e.iter = save }()
	var out []exitS
	cur := []*FS{fs.clone()}
	nMixed := 0
	for k := 0; k < e.maxUnroll; k++ {
		e.iter = save + fmt.Sprintf("~%d", k)
		e.decided[r] = 0
		e.undecided[r] = 0
		delete(e.mixed, r)
		for k := range e.decIf {
			if k.r == r {
				delete(e.decIf, k)
				delete(e.constIf, k)
			}
		}
		xs := e.execRegionFrom(fr, r, r.header, cur)
		var next []*FS
		left := 0
		for _, x := range xs {
			if x.ed.to == r.header {
				next = append(next, x.fs)
			} else {
				out = append(out, x)
				left++
			}
		}
		if len(next) == 0 {
			e.commit(rec)
			if e.tent == 0 {
				e.nUnrolled++
			}
			return out, true
		}
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "unroll %s%s %s.%d k=%d decided %d undecided %d left %d next %d\n", fr.ctx, e.iter, fr.fn.Name(), r.header.Index, k, e.decided[r], e.undecided[r], left, len(next))
		}
		// no exit test reached at all: a test that stays inside went one way
		straight := e.undecided[r] == 0 && left == 0 && len(next) == 1 && k < 64
		if e.decided[r] == 0 && !straight || len(out) > 400 || len(next) > 24 {
			break
		}
		// the same exit test decided both ways by a case split of the body:
		// the number of iterations is symbolic
		if e.mixed[r] {
			nMixed++
			// a concrete counter next to it bounds the iterations
			lim := 3
			for k, d := range e.decIf {
				if k.r == r && d != 5 && e.constIf[k] {
					lim = 40
				}
			}
			if nMixed > lim {
				break
			}
		}
		// a data dependent exit next to an undecided bound is not unrolled
		if e.undecided[r] > 0 && left > 0 && k > 80 {
			break
		}
		cur = next
	}
	e.abort(rec)
	return nil, false
}

// execRegionFrom runs region r from block start; returns states leaving it or
// reaching its header again.
func (e *Engine) execRegionFrom(fr *frame, r *region, start *ssa.BasicBlock, entry []*FS) []exitS {
	return e.execRegionAt(fr, r, start, entry)
}

// ---- leaves -----------------------------------------------------------------

type leaf struct {
	name   string
	kind   int // kInt, kSeq, kBool
	w      int
	typ    types.Type
	e0     *Term
	lam    *Term // lam(q,...)
	form   *Term // closed form in q, or nil
	noForm bool
	backs  []*Term
	bf     []*Facts
	lenL   *leaf // kSeq: length leaf when the length changes
	word   bool
}

const (
	kInt = iota
	kSeq
	kBool
)

type gloop struct {
	e      *Engine
	fr     *frame
	r      *region
	site   string
	q      *Term
	outer  []*Term
	leaves map[string]*leaf
	order  []*leaf
	opaque map[string]bool // nodes whose structure changes
	cands  []*Term
	tried  map[*Term]bool
	eqEls  map[*Term]*Term // lifted element equalities: head fact -> fact at q+1
	chg    bool
	entry  *FS // the entry (continuing) state
	pendUp map[string]string
	oblC   []*Term
	invert bool
	chain  []*ssa.BasicBlock
	start  *ssa.BasicBlock
	envT   map[ssa.Value]bool
}

func (g *gloop) lamT(name string, w int) *Term {
	return rawOp("lam", g.site+"/"+name, w, append([]*Term{g.q}, g.outer...)...)
}

// mentions a value of the current iteration
func (g *gloop) varies(t *Term) bool { return hasSym(t, g.q) }

func (g *gloop) newLeaf(name string, kind, w int, typ types.Type, e0 *Term) *leaf {
	if l, ok := g.leaves[name]; ok {
		return l
	}
	l := &leaf{name: name, kind: kind, w: w, typ: typ, e0: e0}
	l.lam = g.lamT(name, w)
	if kind == kSeq && typ != nil {
		if et := elemType(typ); et != nil && !isByte(et) {
			l.word = true
		}
	}
	g.leaves[name] = l
	g.order = append(g.order, l)
	g.chg = true
	return l
}

func (l *leaf) cur() *Term {
	if l.form != nil {
		return l.form
	}
	if l.kind == kSeq {
		n := SeqLen(l.e0)
		if l.lenL != nil {
			n = l.lenL.cur()
		}
		return SubBase(l.lam, C(0), n)
	}
	return l.lam
}

func kindOf(typ types.Type, t *Term) int {
	if typ != nil {
		switch {
		case isString(typ):
			return kSeq
		case isBool(typ):
			return kBool
		}
		switch typ.Underlying().(type) {
		case *types.Slice, *types.Array:
			return kSeq
		}
	}
	if t != nil && isSeqOp(t) {
		return kSeq
	}
	return kInt
}

// head builds the value of a location in the general state.
func (g *gloop) head(st *State, name string, v Value, typ types.Type) Value {
	e := g.e
	if g.opaque[name] {
		return g.opaqueVal(st, name, v, typ)
	}
	switch x := v.(type) {
	case *Term:
		if l, ok := g.leaves[name]; ok {
			return l.cur()
		}
		return x
	case *ArrV:
		if l, ok := g.leaves[name]; ok {
			return &ArrV{x.typ, l.cur()}
		}
	case *Slice:
		n := *x
		n.off = g.sub(st, name+"#off", x.off)
		n.len = g.sub(st, name+"#len", x.len)
		n.cap = g.sub(st, name+"#cap", x.cap)
		n.nilT = g.sub(st, name+"#nil", x.nilT)
		return &n
	case *Ptr:
		n := *x
		if x.idx != nil {
			n.idx = g.sub(st, name+"#idx", x.idx)
		}
		n.nilT = g.sub(st, name+"#nil", x.nilT)
		return &n
	case *StructV:
		s := x.typ.Underlying().(*types.Struct)
		n := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = g.head(st, fmt.Sprintf("%s.%d", name, i), x.f[i], s.Field(i).Type())
		}
		return n
	case Tuple:
		tt, _ := typ.(*types.Tuple)
		n := make(Tuple, len(x))
		for i := range x {
			var t types.Type
			if tt != nil {
				t = tt.At(i).Type()
			}
			n[i] = g.head(st, fmt.Sprintf("%s.%d", name, i), x[i], t)
		}
		return n
	case *Iface:
		if x.typ != nil {
			return &Iface{typ: x.typ, val: g.head(st, name+"#val", x.val, x.typ), nilT: x.nilT}
		}
	}
	_ = e
	return v
}

func (g *gloop) sub(st *State, name string, t *Term) *Term {
	if l, ok := g.leaves[name]; ok {
		return l.cur()
	}
	return t
}

func (g *gloop) opaqueVal(st *State, name string, v Value, typ types.Type) Value {
	e := g.e
	switch x := v.(type) {
	case *Slice:
		l := g.leaves[name+"#seq"]
		if l == nil {
			l = g.newLeaf(name+"#seq", kSeq, 0, typ, e.sliceSeq(g.entry.st, x))
		}
		c := l.cur()
		o := e.objOf("lam:"+g.site+"/"+name, typ)
		if x.obj != nil {
			o.root = x.obj.root
		}
		st.mem[cell{o, ""}] = cellV{c, typ}
		st.alive[o] = true
		n := SeqLen(c)
		nt := rawOp("isnil", "lam:"+g.site+"/"+name, 0, n)
		return &Slice{obj: o, off: C(0), len: n, cap: n, nilT: nt}
	case *Ptr:
		if isBigIntPtr(typ) {
			e0 := Sym("?nilbig")
			if x.obj != nil {
				e0 = e.bigVal(g.entry.st, x)
			}
			l := g.leaves[name+"#big"]
			if l == nil {
				l = g.newLeaf(name+"#big", kInt, 0, nil, e0)
			}
			o := e.objOf("lam:"+g.site+"/"+name, typ.Underlying().(*types.Pointer).Elem())
			st.mem[cell{o, ""}] = cellV{l.cur(), o.typ}
			st.alive[o] = true
			nt := TFalse
			if n, ok := g.leaves[name+"#nil"]; ok {
				nt = n.cur()
			} else {
				nt = x.nilT
			}
			return &Ptr{obj: o, nilT: nt}
		}
		r := e.fromTerm(g.lamT(name, 0), typ)
		if p, ok := r.(*Ptr); ok {
			nt := x.nilT
			if n, ok := g.leaves[name+"#nil"]; ok {
				nt = n.cur()
			}
			return &Ptr{obj: p.obj, path: p.path, nilT: nt}
		}
		return r
	case *Iface:
		nt := x.nilT
		if n, ok := g.leaves[name+"#nil"]; ok {
			nt = n.cur()
		}
		return &Iface{t: g.lamT(name, 0), nilT: nt}
	case *Closure:
		return &Closure{t: g.lamT(name, 0), nilT: rawOp("pnil", "", 0, g.lamT(name, 0))}
	case *MapV:
		return &MapV{g.lamT(name, 0)}
	}
	if typ == nil {
		return v
	}
	return e.fromTerm(g.lamT(name, uwidth(typ)), typ)
}

func (g *gloop) mark(name string) {
	if !g.opaque[name] {
		g.opaque[name] = true
		g.chg = true
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "  [%s] opaque %s\n", g.site, name)
		}
	}
}

// term leaf comparison
func (g *gloop) cmpT(F *Facts, name string, kind, w int, typ types.Type, h, b, e0 *Term) {
	l, ok := g.leaves[name]
	if !ok {
		if h == b || same(F, h, b) {
			return
		}
		l = g.newLeaf(name, kind, w, typ, e0)
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "  [%s] leaf %s: %s -> %s\n", g.site, name, e0, b)
		}
		if kind == kSeq && SeqLen(e0) != SeqLen(b) && !F.ProveEq(SeqLen(e0), SeqLen(b)) {
			l.lenL = g.newLeaf(name+"#n", kInt, 0, nil, SeqLen(e0))
		}
		return
	}
	if l.form != nil {
		want := Subst(l.form, map[*Term]*Term{g.q: Add(g.q, C(1))})
		if b != want && !same(F, b, want) {
			if dbgLoop {
				fmt.Fprintf(os.Stderr, "  [%s] demote %s: %s != %s\n", g.site, name, b, want)
			}
			l.form = nil
			l.noForm = true
			g.chg = true
		}
		return
	}
	if l.kind == kSeq {
		if l.lenL == nil {
			if SeqLen(b) != SeqLen(l.e0) && !F.ProveEq(SeqLen(b), SeqLen(l.e0)) {
				l.lenL = g.newLeaf(name+"#n", kInt, 0, nil, SeqLen(l.e0))
				g.chg = true
			}
		} else {
			ll := l.lenL
			g.cmpT(F, ll.name, kInt, 0, nil, ll.cur(), SeqLen(b), ll.e0)
		}
	}
	l.backs = append(l.backs, b)
	l.bf = append(l.bf, F)
}

// compare a location's back value with its head value
func (g *gloop) cmp(B *FS, hs *State, name string, h, b, e0 Value, typ types.Type) {
	F := B.st.facts
	e := g.e
	if g.opaque[name] {
		switch x := b.(type) {
		case *Slice:
			s := e.sliceSeq(B.st, x)
			l := g.leaves[name+"#seq"]
			if l != nil {
				g.cmpT(F, l.name, kSeq, 0, typ, l.cur(), s, l.e0)
			}
		case *Ptr:
			if isBigIntPtr(typ) {
				if l := g.leaves[name+"#big"]; l != nil {
					v := Sym("?nilbig")
					if x.obj != nil {
						v = e.bigVal(B.st, x)
					}
					g.cmpT(F, l.name, kInt, 0, nil, l.cur(), v, l.e0)
				}
			}
			if hp, ok := h.(*Ptr); ok {
				g.nilLeaf(F, name, hp.nilT, x.nilT, e0)
			}
		case *Iface:
			if hp, ok := h.(*Iface); ok {
				g.nilLeaf(F, name, hp.nilT, x.nilT, e0)
			}
		}
		return
	}
	if sameVal(h, b) {
		// still record leaves inside for closed form detection
		if _, ok := h.(*Term); !ok {
			if !g.hasLeaf(name) {
				return
			}
		} else if _, ok := g.leaves[name]; !ok {
			return
		}
	}
	switch x := h.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		g.cmpT(F, name, kindOf(typ, x), termW(typ, x), typ, x, y, e0.(*Term))
		return
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok {
			break
		}
		g.cmpT(F, name, kSeq, 0, typ, x.seq, y.seq, e0.(*ArrV).seq)
		return
	case *Slice:
		y, ok := b.(*Slice)
		z, ok2 := e0.(*Slice)
		if !ok || !ok2 || x.obj != y.obj || x.path != y.path {
			break
		}
		g.cmpT(F, name+"#off", kInt, 0, nil, x.off, y.off, z.off)
		g.cmpT(F, name+"#len", kInt, 0, nil, x.len, y.len, z.len)
		g.cmpT(F, name+"#cap", kInt, 0, nil, x.cap, y.cap, z.cap)
		g.cmpT(F, name+"#nil", kBool, 0, types.Typ[types.Bool], x.nilT, y.nilT, z.nilT)
		return
	case *Ptr:
		y, ok := b.(*Ptr)
		z, ok2 := e0.(*Ptr)
		if !ok || !ok2 || x.obj != y.obj || x.path != y.path || x.sub != y.sub || (x.idx == nil) != (y.idx == nil) {
			break
		}
		if x.idx != nil {
			g.cmpT(F, name+"#idx", kInt, 0, nil, x.idx, y.idx, z.idx)
		}
		g.cmpT(F, name+"#nil", kBool, 0, types.Typ[types.Bool], x.nilT, y.nilT, z.nilT)
		return
	case *StructV:
		y, ok := b.(*StructV)
		z, ok2 := e0.(*StructV)
		if !ok || !ok2 {
			break
		}
		s := x.typ.Underlying().(*types.Struct)
		for i := range x.f {
			g.cmp(B, hs, fmt.Sprintf("%s.%d", name, i), x.f[i], y.f[i], z.f[i], s.Field(i).Type())
		}
		return
	case Tuple:
		y, ok := b.(Tuple)
		z, ok2 := e0.(Tuple)
		if !ok || !ok2 || len(x) != len(y) {
			break
		}
		tt, _ := typ.(*types.Tuple)
		for i := range x {
			var t types.Type
			if tt != nil {
				t = tt.At(i).Type()
			}
			g.cmp(B, hs, fmt.Sprintf("%s.%d", name, i), x[i], y[i], z[i], t)
		}
		return
	case *Iface:
		y, ok := b.(*Iface)
		z, ok2 := e0.(*Iface)
		if ok && ok2 && x.typ != nil && y.typ != nil && z.typ != nil && types.Identical(x.typ, y.typ) && types.Identical(x.typ, z.typ) {
			g.cmp(B, hs, name+"#val", x.val, y.val, z.val, x.typ)
			return
		}
		if ok && x.typ == nil && y.typ == nil && x.nilT == TTrue && y.nilT == TTrue {
			return
		}
	}
	g.mark(name)
	// nil-ness of the opaque replacement
	switch y := b.(type) {
	case *Ptr:
		if z, ok := e0.(*Ptr); ok && z.nilT != y.nilT {
			g.newLeaf(name+"#nil", kBool, 0, types.Typ[types.Bool], z.nilT)
		}
	case *Iface:
		if z, ok := e0.(*Iface); ok && z.nilT != y.nilT {
			g.newLeaf(name+"#nil", kBool, 0, types.Typ[types.Bool], z.nilT)
		}
	}
}

func (g *gloop) nilLeaf(F *Facts, name string, h, b *Term, e0 Value) {
	var z *Term
	switch x := e0.(type) {
	case *Ptr:
		z = x.nilT
	case *Iface:
		z = x.nilT
	}
	if z == nil {
		z = h
	}
	g.cmpT(F, name+"#nil", kBool, 0, types.Typ[types.Bool], h, b, z)
}

func (g *gloop) hasLeaf(prefix string) bool {
	for n := range g.leaves {
		if strings.HasPrefix(n, prefix) {
			return true
		}
	}
	return false
}

func termW(typ types.Type, t *Term) int {
	if typ != nil {
		if w := uwidth(typ); w > 0 {
			return w
		}
	}
	return 0
}

// ---- equality modulo facts ----------------------------------------------------

func eqUnder(F *Facts, a, b *Term) bool { return eqU(F, a, b, 0) }

func isIntTerm(t *Term) bool {
	switch t.op {
	case "c", "poly", "len", "cap", "fdiv", "mod", "bitlen", "seqlen", "wrap", "lam", "at", "natval", "qx", "fld", "byteat":
		return true
	case "sym":
		return true
	}
	return t.w > 0
}

func eqU(F *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if F.bot {
		return true
	}
	if d > 14 {
		return false
	}
	switch {
	case a.op == "b" || b.op == "b":
		if a.op == "b" {
			a, b = b, a
		}
		r := F.Eval(a)
		return (r == 1 && b == TTrue) || (r == -1 && b == TFalse)
	case isSeqOp(a) && isSeqOp(b):
		if lt := rawOpSeqEq(a, b); lt != nil && F.Eval(lt) == 1 {
			return true
		}
		pa, pb := pieces(normSeq(F, a)), pieces(normSeq(F, b))
		if len(pa) == len(pb) {
			ok := true
			for i := range pa {
				if !eqPiece(F, pa[i], pb[i], d+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		// equal prefix of lengths zero handled by normSeq; literal seqeq facts
		return F.Eval(SeqEq(a, b)) == 1
	case isIntTerm(a) && isIntTerm(b):
		if F.ProveEq(a, b) {
			return true
		}
	}
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != "poly" && a.op != "anf" {
		for i := range a.args {
			if !eqU(F, a.args[i], b.args[i], d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func rawOpSeqEq(a, b *Term) *Term { return SeqEq(a, b) }

func eqPiece(F *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0 {
		ok := true
		for i := range a.args {
			if !eqU(F, a.args[i], b.args[i], d+1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return F.Eval(SeqEq(a, b)) == 1
}

// normSeq drops provably empty pieces and fixes provably constant lengths.
func normSeq(F *Facts, s *Term) *Term {
	var out []*Term
	for _, p := range pieces(s) {
		l := PieceLen(p)
		if !l.isC() {
			if k := F.constOf(l); k != nil {
				p = subPieceLen(p, k)
			}
		}
		out = append(out, p)
	}
	return mkSeqF(F, out...)
}

func subPieceLen(p, n *Term) *Term {
	switch p.op {
	case "sub":
		return SubBase(p.args[0], p.args[1], n)
	case "rep":
		return Rep(p.args[0], n)
	case "repw":
		if n.isCi(0) {
			return EmptySeq
		}
		return rawOp("repw", "", 0, p.args[0], n)
	case "be":
		return BE(p.args[0], n)
	case "xorseq":
		var r *Term
		for _, x := range p.args {
			y := subPieceLen(x, n)
			if r == nil {
				r = y
			} else {
				r = XorSeq(r, y)
			}
		}
		return r
	}
	return p
}

func (f *Facts) subst(m map[*Term]*Term) *Facts {
	memo := map[*Term]*Term{}
	n := &Facts{lits: map[*Term]bool{}, cache: map[string]bool{}, bot: f.bot}
	for _, p := range f.eqs {
		n.add(EQ0(subst(p, m, memo)))
	}
	for _, p := range f.lin {
		n.add(GE0(subst(p, m, memo)))
	}
	for _, p := range f.neq {
		n.add(Not(EQ0(subst(p, m, memo))))
	}
	ls := make([]*Term, 0, len(f.lits))
	for l := range f.lits {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		t := subst(l, m, memo)
		if !f.lits[l] {
			t = Not(t)
		}
		n.add(t)
	}
	return n
}

func substVal(v Value, m map[*Term]*Term, memo map[*Term]*Term) Value {
	s := func(t *Term) *Term { return subst(t, m, memo) }
	switch x := v.(type) {
	case *Term:
		return s(x)
	case *Ptr:
		return &Ptr{obj: x.obj, path: x.path, idx: s(x.idx), sub: x.sub, nilT: s(x.nilT)}
	case *Slice:
		return &Slice{obj: x.obj, path: x.path, off: s(x.off), len: s(x.len), cap: s(x.cap), nilT: s(x.nilT)}
	case *StructV:
		n := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
		for i := range x.f {
			n.f[i] = substVal(x.f[i], m, memo)
		}
		return n
	case *ArrV:
		return &ArrV{x.typ, s(x.seq)}
	case *Iface:
		if x.typ != nil {
			return &Iface{typ: x.typ, val: substVal(x.val, m, memo), nilT: s(x.nilT)}
		}
		return &Iface{t: s(x.t), nilT: s(x.nilT)}
	case *Closure:
		if x.fn == nil {
			return &Closure{t: s(x.t), nilT: s(x.nilT)}
		}
		n := &Closure{fn: x.fn, nilT: x.nilT}
		for _, b := range x.binds {
			n.binds = append(n.binds, substVal(b, m, memo))
		}
		return n
	case Tuple:
		n := make(Tuple, len(x))
		for i := range x {
			n[i] = substVal(x[i], m, memo)
		}
		return n
	case *MapV:
		return &MapV{s(x.t)}
	}
	return v
}

func (e *Engine) substFS(fs *FS, m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	for v, x := range fs.env {
		fs.env[v] = substVal(x, m, memo)
	}
	for c, v := range fs.st.mem {
		fs.st.mem[c] = cellV{substVal(v.v, m, memo), v.t}
	}
	fs.st.facts = fs.st.facts.subst(m)
	// events
	evs := fs.st.events()
	ch := false
	var ne *evNode
	for i, ev := range evs {
		na := make([]*Term, len(ev.args))
		c := false
		for j, a := range ev.args {
			na[j] = subst(a, m, memo)
			if na[j] != a {
				c = true
			}
		}
		if c {
			ev = &Event{kind: ev.kind, pos: ev.pos, fn: ev.fn, args: na, s: ev.s}
			ch = true
		}
		ne = &evNode{ev: ev, prev: ne, n: i + 1}
	}
	if ch {
		fs.st.ev = ne
	}
	if len(fs.st.pend) > 0 {
		// keys are textual; re-key length terms
		fs.st.pend = e.substPend(fs.st.pend, m, memo)
	}
}

func (e *Engine) substPend(p map[string]string, m map[*Term]*Term, memo map[*Term]*Term) map[string]string {
	n := map[string]string{}
	for k, v := range p {
		var id int
		if _, err := fmt.Sscanf(k, "rest:%d", &id); err == nil {
			if t := e.pendTerms[id]; t != nil {
				u := subst(t, m, memo)
				e.pendTerms[u.id] = u
				k = fmt.Sprintf("rest:%d", u.id)
			}
		}
		n[k] = v
	}
	return n
}

// ---- generalisation --------------------------------------------------------------

func (e *Engine) generalise(fr *frame, r *region, fs *FS) []exitS {
	if e.tent == 0 {
		e.nLoops++
	}
	var out []exitS
	// loop inversion: the test at the top (a chain of side-effect-free blocks,
	// each with one way out of the loop) is an invariant of the general state
	chain := e.testChain(r)
	var inSucc *ssa.BasicBlock
	var conts []*FS
	if len(chain) > 0 {
		inSucc = chain[len(chain)-1]
		var ex []exitS
		ex, conts = e.execChain(fr, r, chain, fs.clone())
		out = append(out, ex...)
		e.prune(fr, inSucc, conts)
	} else {
		conts = []*FS{fs.clone()}
		e.prune(fr, r.header, conts)
	}
	for i, c := range conts {
		g := &gloop{e: e, fr: fr, r: r, leaves: map[string]*leaf{}, opaque: map[string]bool{},
			tried: map[*Term]bool{}, eqEls: map[*Term]*Term{}, entry: c, chain: chain, invert: inSucc != nil, start: r.header}
		if inSucc != nil {
			g.start = inSucc
		}
		g.site = fmt.Sprintf("%s%s.L%d", fr.ctx, e.iter, r.header.Index)
		if i > 0 {
			g.site += fmt.Sprintf("'%d", i)
		}
		g.q = Sym("q:" + g.site)
		g.outer = append([]*Term(nil), e.qs...)
		nz := len(out)
		xs := g.run()
		out = append(out, xs...)
		if len(conts) == 1 {
			out = e.foldZero(fr, out, nz)
		}
	}
	return out
}

// testChain: the blocks of the test at the top of the loop, followed by the
// first block of the body; nil when the loop has no such test.
func (e *Engine) testChain(r *region) []*ssa.BasicBlock {
	var chain []*ssa.BasicBlock
	var out *ssa.BasicBlock
	b := r.header
	for {
		_, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isIf || hasCall(b) || r.kidOf[b] != nil || (b != r.header && len(b.Preds) != 1) {
			break
		}
		x, y := b.Succs[0], b.Succs[1]
		if r.blocks[y] {
			x, y = y, x
		}
		if !r.blocks[x] || r.blocks[y] || x == r.header || (out != nil && y != out) {
			break
		}
		out = y
		chain = append(chain, b)
		b = x
	}
	if len(chain) == 0 {
		return nil
	}
	return append(chain, b)
}

// execChain runs the test once: the ways out, and the states entering the body.
func (e *Engine) execChain(fr *frame, r *region, chain []*ssa.BasicBlock, fs *FS) (out []exitS, conts []*FS) {
	cur := []*FS{fs}
	for k := 0; k+1 < len(chain); k++ {
		var next []*FS
		for _, s := range cur {
			for _, y := range e.execBlock(fr, chain[k], s) {
				if y.ed.to == chain[k+1] && r.blocks[y.ed.to] {
					next = append(next, y.fs)
				} else {
					out = append(out, y)
				}
			}
		}
		cur = next
	}
	return out, cur
}

// hasCall: the block calls a function other than a builtin.
func hasCall(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		if c, ok := ins.(*ssa.Call); ok {
			if _, ok := c.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			if f := c.Call.StaticCallee(); f != nil {
				switch f.String() {
				case "(*math/big.Int).Sign", "(*math/big.Int).Cmp", "(*math/big.Int).BitLen":
					continue
				}
			}
			return true
		}
	}
	return false
}

func (e *Engine) prune(fr *frame, b *ssa.BasicBlock, states []*FS) {
	live := fr.info.liveAt(b)
	for _, fs := range states {
		for v := range fs.env {
			if !live[v] {
				delete(fs.env, v)
			}
		}
	}
}

// buildHead: the general state at iteration q.
func (g *gloop) buildHead() *FS {
	h := g.entry.clone()
	e := g.e
	for v, x := range g.entry.env {
		h.env[v] = g.head(h.st, "v"+v.Name(), x, v.Type())
	}
	for c, t := range g.cells() {
		x := e.rawLoad(g.entry.st, c.obj, c.path, t)
		h.st.mem[c] = cellV{g.head(h.st, cellName(c), x, t), t}
	}
	f := g.entry.st.facts
	for _, l := range g.order {
		if l.form == nil && l.w > 0 {
			continue
		}
	}
	for _, c := range g.cands {
		f = f.Assume(c, true)
	}
	for c := range g.eqEls {
		f = f.Assume(c, true)
	}
	h.st.facts = f
	if len(g.pendUp) > 0 {
		np := map[string]string{}
		for k, v := range h.st.pend {
			np[k] = v
		}
		for k, v := range g.pendUp {
			np[k] = v
		}
		h.st.pend = np
	}
	return h
}

func cellName(c cell) string { return fmt.Sprintf("m%s%s", c.obj.key, c.path) }

var _ = big.NewInt

// cells changed so far
func (g *gloop) cells() map[cell]types.Type { return g.e.loopCells[g] }

// body runs one iteration from the head state: exits of the loop and
// continuing states.
func (g *gloop) body(h *FS) (exits []exitS, conts []*FS) {
	e := g.e
	e.qs = append(append([]*Term(nil), g.outer...), g.q)
	defer func() { e.qs = g.outer }()
	xs := e.execRegionFrom(g.fr, g.r, g.start, []*FS{h})
	for _, x := range xs {
		if x.ed.to != g.r.header {
			exits = append(exits, x)
			continue
		}
		if !g.invert {
			conts = append(conts, x.fs)
			continue
		}
		ex, cs := e.execChain(g.fr, g.r, g.chain, x.fs)
		for _, y := range ex {
			g.liftExit(y.fs)
			exits = append(exits, y)
		}
		conts = append(conts, cs...)
	}
	e.prune(g.fr, g.start, conts)
	if len(conts) > 1 {
		conts = e.merge(g.fr, g.start, conts)
	}
	return
}

// liftExit adds the element equalities extended to the iteration just done.
func (g *gloop) liftExit(fs *FS) {
	for h, n := range g.eqEls {
		_ = h
		if g.elemHolds(fs.st.facts, h) {
			fs.st.facts = fs.st.facts.Assume(n, true)
		}
	}
}

func (g *gloop) elemHolds(F *Facts, h *Term) bool {
	el := g.e.elemOf[h]
	return el != nil && F.Eval(el) == 1
}

func (g *gloop) run() []exitS {
	e := g.e
	e.loopCells[g] = map[cell]types.Type{}
	defer delete(e.loopCells, g)
	g.pendUp = map[string]string{}
	var lastConts int
	var lastB []*FS
	var hv *FS
	stable := false
	pass := 0
	for ; pass < 60; pass++ {
		g.chg = false
		for _, l := range g.order {
			l.backs, l.bf = nil, nil
		}
		h := g.buildHead()
		hv = h.clone()
		rec := e.begin()
		g.oblC = nil
		saveC := e.oblHook
		e.oblHook = func(c *Term) { g.oblC = append(g.oblC, c) }
		_, conts := g.body(h)
		e.oblHook = saveC
		e.abort(rec)
		lastConts, lastB = len(conts), conts
		if dbgLoop {
			fmt.Fprintf(os.Stderr, "[%s] %s pass %d: %d conts, %d leaves, %d cands\n", g.site, g.fr.fn, pass, len(conts), len(g.leaves), len(g.cands))
		}
		if len(conts) == 0 {
			stable = true
			break
		}
		var facts []*Facts
		for _, B := range conts {
			g.compare(hv, B)
			facts = append(facts, B.st.facts)
		}
		if g.chg {
			continue
		}
		if g.filter(conts) {
			continue
		}
		if g.closedForms(conts) {
			g.tried = map[*Term]bool{}
			for _, c := range g.cands {
				g.tried[c] = true
			}
			continue
		}
		if g.newCands(hv, conts) {
			continue
		}
		stable = true
		break
	}
	if !stable {
		e.unsupported("loop at %s does not stabilise", g.site)
		g.cands = nil
	}
	_ = lastConts
	if e.tent == 0 {
		why := "the state of the loop is not understood"
		if stable {
			why = g.endless(hv, lastB)
		}
		e.recObl("terminates", loopPos(g.r), why == "", why, nil)
	}
	// recorded run
	h := g.buildHead()
	exits, _ := g.body(h)
	return g.finish(exits)
}

func (g *gloop) compare(h, B *FS) {
	e := g.e
	vs := make([]ssa.Value, 0, len(h.env))
	for v := range h.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		b, ok := B.env[v]
		if !ok {
			continue
		}
		g.cmp(B, h.st, "v"+v.Name(), h.env[v], b, g.entry.env[v], v.Type())
	}
	cs := make([]cell, 0)
	for c := range B.st.mem {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool {
		if cs[i].obj.id != cs[j].obj.id {
			return cs[i].obj.id < cs[j].obj.id
		}
		return cs[i].path < cs[j].path
	})
	for _, c := range cs {
		bv := B.st.mem[c]
		// objects created inside the body are new in every iteration
		if (strings.HasPrefix(c.obj.key, "new:") || strings.HasPrefix(c.obj.key, "ret:")) && !g.entry.st.alive[c.obj] {
			continue
		}
		if strings.HasPrefix(c.obj.key, "lam:"+g.site+"/") {
			// the replacement object itself must not be written through
			if hc, ok := h.st.mem[c]; ok && !sameVal(hc.v, bv.v) {
				e.noteLamWrite(c.obj)
			}
			continue
		}
		hval := e.rawLoad(h.st, c.obj, c.path, bv.t)
		e0 := e.rawLoad(g.entry.st, c.obj, c.path, bv.t)
		if sameVal(hval, bv.v) && g.cells()[c] == nil {
			continue
		}
		if g.cells()[c] == nil {
			g.cells()[c] = bv.t
		}
		g.cmp(B, h.st, cellName(c), hval, bv.v, e0, bv.t)
	}
	for k, v := range B.st.pend {
		if _, ok := h.st.pend[k]; ok {
			continue
		}
		if e.pendDone(B.st, k) {
			continue
		}
		if _, ok := g.pendUp[k]; !ok {
			g.pendUp[k] = v
			g.chg = true
		}
	}
}

// pendDone: the remaining input named by the key is provably empty.
func (e *Engine) pendDone(st *State, k string) bool {
	var id int
	if _, err := fmt.Sscanf(k, "rest:%d", &id); err != nil {
		return false
	}
	t := e.pendTerms[id]
	return t != nil && st.facts.Eval(Le(t, C(0))) == 1
}

func (e *Engine) noteLamWrite(o *Obj) {
	e.lamWrites[o.key] = true
}

// loopPos: where the loop is, the earliest position of its header.
func loopPos(r *region) token.Pos {
	var p token.Pos
	note := func(b *ssa.BasicBlock) {
		for _, ins := range b.Instrs {
			if _, phi := ins.(*ssa.Phi); !phi && ins.Pos().IsValid() && (!p.IsValid() || ins.Pos() < p) {
				p = ins.Pos()
			}
		}
	}
	note(r.header)
	if !p.IsValid() {
		for b := range r.blocks {
			note(b)
		}
	}
	return p
}

// endless: why the loop may go on forever ("": it does not).  Each way round
// draws fresh randomness, or decreases a quantity that all of them keep from
// falling below zero.
func (g *gloop) endless(h *FS, conts []*FS) string {
	var fix []int
	for j, B := range conts {
		drew := false
		for ev := B.st.ev; ev != nil && ev != h.st.ev; ev = ev.prev {
			drew = drew || ev.ev.kind == "rand"
		}
		if !drew {
			fix = append(fix, j)
		}
	}
	if len(fix) == 0 {
		return ""
	}
next:
	for _, cj := range conts[fix[0]].st.facts.conjuncts() {
		p := cj
		if p.op != "ge0" {
			continue
		}
		p = p.args[0]
		for _, j := range fix {
			F := conts[j].st.facts
			if F.Eval(GE0(p)) != 1 || F.Eval(GE0(Sub(Sub(p, C(1)), Subst(p, g.nextMap(j))))) != 1 {
				continue next
			}
		}
		return ""
	}
	return "no quantity bounds the number of rounds, and a round need not draw fresh randomness"
}

func (g *gloop) entryMap() map[*Term]*Term {
	m := map[*Term]*Term{g.q: C(0)}
	for _, l := range g.order {
		m[l.lam] = l.e0
	}
	return m
}

// mapping of head terms to their values after the iteration ending in B
func (g *gloop) nextMap(j int) map[*Term]*Term {
	m := map[*Term]*Term{g.q: Add(g.q, C(1))}
	for _, l := range g.order {
		if l.form == nil && j < len(l.backs) {
			m[l.lam] = l.backs[j]
		} else if l.form == nil {
			m[l.lam] = Sym("?next:" + l.name)
		}
	}
	return m
}

func (g *gloop) backValue(l *leaf, conts int, j int) *Term {
	if len(l.backs) == conts {
		return l.backs[j]
	}
	return nil
}

// filter drops candidates not preserved by the body.
func (g *gloop) filter(conts []*FS) bool {
	var keep []*Term
	for _, c := range g.cands {
		ok := true
		for j, B := range conts {
			m := g.nextMap(j)
			if B.st.facts.Eval(Subst(c, m)) != 1 {
				ok = false
				break
			}
		}
		if ok {
			keep = append(keep, c)
		}
	}
	ch := len(keep) != len(g.cands)
	g.cands = keep
	for h := range g.eqEls {
		for _, B := range conts {
			if !g.elemHolds(B.st.facts, h) {
				delete(g.eqEls, h)
				ch = true
				break
			}
		}
	}
	return ch
}

// invariantTerm: t does not depend on the iteration
func (g *gloop) invariantTerm(t *Term) bool { return !hasSym(t, g.q) }

func (g *gloop) closedForms(conts []*FS) bool {
	any := false
	// Contents are closed only when every counter is: lifted under a bound
	// variable, a counter still standing as a function of the iteration would
	// never be resolved.
	for _, l := range g.order {
		if l.kind == kInt {
			any = g.closeLeaf(l, conts) || any
		}
	}
	if any {
		return true
	}
	for _, l := range g.order {
		if l.kind == kSeq {
			any = g.closeLeaf(l, conts) || any
		}
	}
	return any
}

func (g *gloop) closeLeaf(l *leaf, conts []*FS) bool {
	any := false
	if l.form == nil && !l.noForm && len(l.backs) == len(conts) {
		var f *Term
		if l.kind == kInt {
			f = g.closedInt(l)
		} else {
			f = g.closedSeq(l, conts)
		}
		if f != nil {
			if dbgLoop {
				fmt.Fprintf(os.Stderr, "  [%s] closed %s = %s from %v lam %v\n", g.site, l.name, f, l.backs, l.lam)
			}
			l.form = f
			any = true
		}
	}
	return any
}

func (g *gloop) closedInt(l *leaf) *Term {
	var delta *Term
	wrapped := 0
	for i, b := range l.backs {
		d := Sub(b, l.lam)
		if b.op == "wrap" {
			wrapped = b.w
			d = Sub(b.args[0], l.lam)
		}
		if !g.invariantTerm(d) {
			// maybe provably constant
			if k := l.bf[i].constOf(d); k != nil && !g.invariantTerm(d) {
				d = k
			} else {
				return nil
			}
		}
		if delta == nil {
			delta = d
		} else if delta != d && !l.bf[i].ProveEq(delta, d) {
			return nil
		}
	}
	if delta == nil {
		return nil
	}
	if len(polyOf(delta)) > 1 || !delta.isC() {
		// symbolic step: only products that stay simple
		if len(polyOf(delta)) > 2 {
			return nil
		}
	}
	f := Add(l.e0, Mul(delta, g.q))
	if wrapped > 0 {
		f = Wrap(wrapped, f)
	}
	return f
}

func (g *gloop) closedSeq(l *leaf, conts []*FS) *Term {
	var form *Term
	for i, b := range l.backs {
		f := g.seqForm(l, b, l.bf[i])
		if f == nil {
			return nil
		}
		if form == nil {
			form = f
		} else if form != f && !eqUnder(l.bf[i], form, f) {
			return nil
		}
	}
	return form
}

func (g *gloop) seqForm(l *leaf, b *Term, F *Facts) *Term {
	b = normSeq(F, b)
	ps := pieces(b)
	if len(ps) == 0 {
		return nil
	}
	L := SeqLen(l.cur())
	// split: prefix of lam, new pieces, suffix of lam
	f := C(0)
	i := 0
	if p := ps[0]; p.op == "sub" && p.args[0] == l.lam && p.args[1].isCi(0) {
		f = p.args[2]
		i = 1
	}
	n := len(ps)
	gEnd := SeqLen(b)
	tail := false
	if n > i {
		if p := ps[n-1]; p.op == "sub" && p.args[0] == l.lam && (Add(p.args[1], p.args[2]) == L || F.ProveEq(Add(p.args[1], p.args[2]), L)) {
			gEnd = p.args[1]
			n--
			tail = true
		}
	}
	if n <= i {
		return nil
	}
	P := MkSeq(ps[i:n]...)
	d := Sub(gEnd, f)
	dk := F.constOf(d)
	if dk == nil {
		return nil
	}
	k, ok := dk.i64()
	if !ok || k <= 0 || k > 4096 {
		return nil
	}
	if SeqLen(P) != dk {
		P = normSeq(F, P)
		if SeqLen(P) != dk {
			return nil
		}
	}
	if !tail && (f == L || F.ProveEq(f, L)) {
		// append
		if usesLam(P, l.lam) {
			return nil
		}
		return MkSeq(l.e0, liftPieces(P, g.q, g.q, k, l.word))
	}
	if l.lenL != nil {
		return nil
	}
	// overwrite at a moving frontier
	f0 := Sub(f, MulI(g.q, k))
	if !g.invariantTerm(f0) {
		return nil
	}
	P2 := g.unlam(P, l, f, F)
	if P2 == nil {
		return nil
	}
	head := subSeqOr(F, l.e0, C(0), f0)
	off := Add(f0, MulI(g.q, k))
	rest := subSeqOr(F, l.e0, off, Sub(SeqLen(l.e0), off))
	return mkSeqF(F, head, liftPieces(P2, g.q, g.q, k, l.word), rest)
}

func usesLam(t, lam *Term) bool {
	if t == lam {
		return true
	}
	for _, a := range t.args {
		if a != nil && usesLam(a, lam) {
			return true
		}
	}
	for _, m := range t.poly {
		for _, v := range m.v {
			if usesLam(v, lam) {
				return true
			}
		}
	}
	for _, m := range t.anf {
		for _, v := range m.f {
			if usesLam(v.t, lam) {
				return true
			}
		}
	}
	return false
}

// unlam replaces reads of the not yet overwritten part by reads of the entry
// content; nil if some read is not provably beyond the frontier.
func (g *gloop) unlam(P *Term, l *leaf, f *Term, F *Facts) *Term {
	m := map[*Term]*Term{}
	ok := true
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if t == nil || seen[t] || !ok {
			return
		}
		seen[t] = true
		if (t.op == "at" || t.op == "sub") && t.args[0] == l.lam {
			if !F.ProveGE0(Sub(t.args[1], f)) {
				ok = false
				return
			}
			if t.op == "at" {
				m[t] = AtSeqW(l.e0, t.args[1], F, t.w)
			} else {
				m[t] = subSeqOr(F, l.e0, t.args[1], t.args[2])
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, x := range t.poly {
			for _, v := range x.v {
				walk(v)
			}
		}
		for _, x := range t.anf {
			for _, v := range x.f {
				walk(v.t)
			}
		}
	}
	walk(P)
	if !ok {
		return nil
	}
	r := Subst(P, m)
	if usesLam(r, l.lam) {
		return nil
	}
	return r
}

// newCands proposes facts about the general state.
func (g *gloop) newCands(h *FS, conts []*FS) bool {
	em := g.entryMap()
	F0 := g.entry.st.facts
	var list []*Term
	add := func(c *Term) {
		if c == nil || c.op == "b" || g.tried[c] {
			return
		}
		if !hasSym(c, g.q) {
			return
		}
		for s := range symsOf(c) {
			if strings.HasPrefix(s.s, "?") {
				return
			}
		}
		g.tried[c] = true
		if len(list) > 160 {
			return
		}
		if F0.Eval(Subst(c, em)) != 1 {
			return
		}
		if h.st.facts.Eval(c) == 1 {
			return
		}
		list = append(list, c)
	}
	var ints []*leaf
	for _, l := range g.order {
		if l.form == nil && l.kind == kInt && len(l.backs) == len(conts) {
			ints = append(ints, l)
		}
		if l.form == nil && l.kind == kBool && len(l.backs) == len(conts) {
			add(l.lam)
			add(Not(l.lam))
		}
	}
	for _, l := range ints {
		add(GE0(l.lam))
		add(Le(l.e0, l.lam))
		add(Le(l.lam, l.e0))
		for _, b := range l.backs {
			if g.invariantTerm(b) {
				add(Le(l.lam, b))
				add(Le(b, l.lam))
			}
		}
	}
	for i, a := range ints {
		for _, b := range ints[i+1:] {
			if len(ints) > 14 {
				break
			}
			s, d := true, true
			for j := range conts {
				da, db := Sub(a.backs[j], a.lam), Sub(b.backs[j], b.lam)
				if !conts[j].st.facts.ProveEq(Add(da, db), C(0)) {
					s = false
				}
				if !conts[j].st.facts.ProveEq(da, db) {
					d = false
				}
			}
			if s {
				add(Eq(Add(a.lam, b.lam), Add(a.e0, b.e0)))
			}
			if d {
				add(Eq(Sub(a.lam, b.lam), Sub(a.e0, b.e0)))
			}
		}
	}
	// entry facts about the entry values, restated about the general ones
	for _, l := range g.order {
		if l.e0.isC() || l.kind == kSeq {
			continue
		}
		cur := l.cur()
		m := map[*Term]*Term{l.e0: cur}
		if l.e0.op == "poly" {
			continue
		}
		for _, p := range F0.lin {
			if u := Subst(p, m); u != p {
				add(GE0(u))
			}
		}
	}
	// obligations and header tests
	for _, c := range g.oblC {
		add(c)
	}
	for j, B := range conts {
		// inverse of the step
		inv := map[*Term]*Term{g.q: Sub(g.q, C(1))}
		for _, l := range ints {
			d := Sub(l.backs[j], l.lam)
			if g.invariantTerm(d) {
				inv[l.lam] = Sub(l.lam, d)
			}
		}
		// direct: facts about the new values
		for _, l := range ints {
			for _, p := range B.st.facts.lin {
				if contains(g.entry.st.facts.lin, p) {
					continue
				}
				// p mentions the back value as an atom
				if l.backs[j].op != "poly" && !l.backs[j].isC() && l.backs[j] != l.lam {
					if u := Subst(p, map[*Term]*Term{l.backs[j]: l.lam}); u != p {
						add(GE0(u))
					}
				}
			}
		}
		skip := func(p *Term) bool { return contains(g.entry.st.facts.lin, p) || contains(g.entry.st.facts.eqs, p) }
		for _, p := range B.st.facts.lin {
			if !skip(p) {
				add(GE0(Subst(p, inv)))
				add(GE0(p))
			}
		}
		for _, p := range B.st.facts.eqs {
			if skip(p) {
				continue
			}
			add(EQ0(Subst(p, inv)))
			g.liftEq(p, conts)
		}
		for _, p := range B.st.facts.neq {
			if contains(g.entry.st.facts.neq, p) {
				continue
			}
			add(Not(EQ0(Subst(p, inv))))
			add(GE0(Sub(Subst(p, inv), C(1))))
			add(GE0(Sub(Neg(Subst(p, inv)), C(1))))
		}
		// Boolean literals about data of this iteration are not inductive;
		// those about leaves are
		for l, v := range B.st.facts.lits {
			if _, ok := g.entry.st.facts.lits[l]; ok {
				continue
			}
			c := l
			if !v {
				c = Not(l)
			}
			for _, lf := range g.order {
				if lf.kind != kSeq && lf.form == nil && j < len(lf.backs) && lf.backs[j] != lf.lam && !lf.backs[j].isC() {
					if u := Subst(c, map[*Term]*Term{lf.backs[j]: lf.lam}); u != c {
						add(u)
					}
				}
			}
		}
	}
	eqNew := g.chg
	g.cands = append(g.cands, list...)
	if dbgLoop {
		for _, c := range list {
			fmt.Fprintf(os.Stderr, "  [%s] cand %s\n", g.site, c)
		}
	}
	return len(list) > 0 || eqNew
}

// liftEq recognises element equalities a[o+q] == b[o'+q].
func (g *gloop) liftEq(p *Term, conts []*FS) {
	var x, y *Term
	switch p.op {
	case "poly":
		if len(p.poly) != 2 || len(p.poly[0].v) != 1 || len(p.poly[1].v) != 1 {
			return
		}
		if p.poly[0].c.CmpAbs(bigOne) != 0 || p.poly[1].c.CmpAbs(bigOne) != 0 || p.poly[0].c.Sign() == p.poly[1].c.Sign() {
			return
		}
		x, y = p.poly[0].v[0], p.poly[1].v[0]
	case "anf":
		// a xor b xor ... = 0
		for i, m := range p.anf {
			if len(m.f) != 1 || m.f[0].r != 0 || m.mask != 0xff {
				return
			}
			if i == 0 {
				x = m.f[0].t
			} else if y == nil {
				y = m.f[0].t
			} else {
				y = BXor(8, y, m.f[0].t)
			}
		}
	case "at":
		x = p
	default:
		return
	}
	if x == nil {
		return
	}
	if y == nil {
		y = C(0)
	}
	byteTerm := func(t *Term) bool {
		return hasSym(t, g.q) && (t.op == "at" || t.op == "anf" && t.w == 8)
	}
	if !byteTerm(x) || !byteTerm(y) && y != C(0) {
		return
	}
	var s, s1 [2]*Term
	for i, a := range []*Term{x, y} {
		if a == C(0) {
			s[i], s1[i] = Rep(a, g.q), Rep(a, Add(g.q, C(1)))
			continue
		}
		s[i] = liftElem(a, g.q, g.q, false)
		s1[i] = liftElem(a, g.q, Add(g.q, C(1)), false)
		if s[i] == nil || s1[i] == nil {
			return
		}
	}
	h := SeqEq(s[0], s[1])
	if h.op == "b" || g.tried[h] {
		return
	}
	g.tried[h] = true
	el := EQ0(p)
	for _, B := range conts {
		if B.st.facts.Eval(el) != 1 {
			return
		}
	}
	g.e.elemOf[h] = el
	g.eqEls[h] = SeqEq(s1[0], s1[1])
	g.chg = true
}

// finish renames the iteration number and eliminates it where the exit
// condition determines it.
func (g *gloop) finish(exits []exitS) []exitS {
	e := g.e
	qx := rawOp("qx", g.site, 0, g.outer...)
	var out []exitS
	for _, x := range exits {
		F := x.fs.st.facts
		var sol *Term
		try := func(t *Term) {
			if sol == nil && !hasSym(t, g.q) && F.ProveEq(g.q, t) {
				sol = t
			}
		}
		for _, l := range [][]*Term{F.eqs, F.lin} {
			for _, p := range l {
				for _, m := range polyOf(p) {
					if len(m.v) == 1 && m.v[0] == g.q && m.c.CmpAbs(bigOne) == 0 {
						if m.c.Sign() > 0 {
							try(Sub(g.q, p))
						} else {
							try(Add(g.q, p))
						}
					}
				}
			}
		}
		if sol == nil {
			if k := F.constOf(g.q); k != nil {
				sol = k
			}
		}
		if sol == nil {
			sol = qx
		}
		e.substFS(x.fs, map[*Term]*Term{g.q: sol})
		if sol != qx {
			x.fs.st.facts = x.fs.st.facts.Assume(GE0(sol), true)
		}
		if x.fs.st.facts.bot {
			continue
		}
		// simplify sequence contents under the exit facts
		for c, v := range x.fs.st.mem {
			if t, ok := v.v.(*Term); ok && t.op == "seq" && g.cells()[c] != nil {
				x.fs.st.mem[c] = cellV{mkSeqF(x.fs.st.facts, t.args...), v.t}
			}
		}
		out = append(out, x)
	}
	return out
}

// foldZero merges the exit taken without any iteration into the general exit
// along the same edge when all values agree.
func (e *Engine) foldZero(fr *frame, out []exitS, nz int) []exitS {
	for i := 0; i < nz; i++ {
		for j := nz; j < len(out); j++ {
			a, b := out[i], out[j]
			if a.ed != b.ed {
				continue
			}
			if m := e.foldPair(fr, a, b); m != nil {
				r := append([]exitS{}, out[:i]...)
				r = append(r, out[i+1:j]...)
				r = append(r, *m)
				r = append(r, out[j+1:]...)
				return r
			}
		}
	}
	return out
}

func (e *Engine) foldPair(fr *frame, z, g exitS) *exitS {
	Fz := z.fs.st.facts
	live := fr.info.liveAt(z.ed.to)
	for v := range live {
		a, ok1 := z.fs.env[v]
		b, ok2 := g.fs.env[v]
		if ok1 != ok2 {
			return nil
		}
		if ok1 && !eqVal(Fz, a, b) {
			return nil
		}
	}
	seen := map[cell]bool{}
	for c, v := range g.fs.st.mem {
		seen[c] = true
		if (strings.HasPrefix(c.obj.key, "new:") || strings.HasPrefix(c.obj.key, "ret:")) && !z.fs.st.alive[c.obj] {
			continue
		}
		if strings.HasPrefix(c.obj.key, "lam:") {
			if _, ok := z.fs.st.mem[c]; !ok {
				continue
			}
		}
		a := e.rawLoad(z.fs.st, c.obj, c.path, v.t)
		if !eqVal(Fz, a, v.v) {
			return nil
		}
	}
	for c, v := range z.fs.st.mem {
		if seen[c] {
			continue
		}
		b := e.rawLoad(g.fs.st, c.obj, c.path, v.t)
		if !eqVal(Fz, v.v, b) {
			return nil
		}
	}
	if z.fs.st.pendKey() != g.fs.st.pendKey() || z.fs.st.ev != g.fs.st.ev {
		// events: only equal histories are merged
		if z.fs.st.pendKey() != g.fs.st.pendKey() || !sameEvents(z.fs.st, g.fs.st) {
			return nil
		}
	}
	r := exitS{g.ed, g.fs}
	r.fs.st.facts = joinFacts([]*Facts{Fz, g.fs.st.facts})
	return &r
}

func sameEvents(a, b *State) bool {
	// write events are informational
	f := func(s *State) string {
		var sb strings.Builder
		for _, ev := range s.events() {
			if ev.kind == "write" {
				continue
			}
			fmt.Fprintf(&sb, "%s|%s", ev.kind, ev.s)
			for _, t := range ev.args {
				fmt.Fprintf(&sb, ",%d", tid(t))
			}
			sb.WriteByte(';')
		}
		return sb.String()
	}
	return f(a) == f(b)
}

func eqVal(F *Facts, a, b Value) bool {
	if sameVal(a, b) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && eqUnder(F, x, y)
	case *ArrV:
		y, ok := b.(*ArrV)
		return ok && eqUnder(F, x.seq, y.seq)
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x.obj == y.obj && x.path == y.path && F.ProveEq(x.off, y.off) && F.ProveEq(x.len, y.len) &&
			F.ProveEq(x.cap, y.cap) && eqUnder(F, x.nilT, y.nilT)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !eqVal(F, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqVal(F, x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}
