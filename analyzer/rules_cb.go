package main

// The byte-string reader.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var byteSliceT = types.NewSlice(types.Typ[types.Uint8])

// cbCtx runs functions of the cryptobyte package on strings built from known
// header bytes and symbolic rest.
type cbCtx struct {
	*hashCtx
	pkg string
}

func (c *Check) cb(pkg string) *cbCtx {
	e := c.engine(false)
	e.wellFormed()
	e.maxUnroll = 4096
	return &cbCtx{&hashCtx{c: c, e: e}, pkg}
}

// obj makes a fresh object of a type; its leaves hold symbolic old contents.
func (x *cbCtx) obj(st *State, key string, t types.Type) *Obj {
	o := x.e.objOf("cb:"+key+":"+typeStr(t), t)
	o.sym = Sym("old:" + key)
	st.alive[o] = true
	return o
}

// backing is an array with the given contents.
func (x *cbCtx) slice(st *State, key string, content *Term) *Slice {
	o := x.e.objOf("cbdata:"+key, byteSliceT)
	n := SeqLen(content)
	// spare capacity holding other bytes
	sp := Sym("spare:" + key)
	st.facts = st.facts.Assume(GE0(LenOf(sp)), true)
	o.n = Add(n, LenOf(sp))
	st.mem[cell{o, ""}] = cellV{MkSeq(content, SubBase(sp, C(0), LenOf(sp))), byteSliceT}
	st.alive[o] = true
	return &Slice{obj: o, off: C(0), len: n, cap: o.n, nilT: TFalse}
}

// strPtr is a pointer to a String variable holding the content.
func (x *cbCtx) strPtr(st *State, key string, content *Term, t types.Type) *Ptr {
	o := x.obj(st, key, t)
	st.mem[cell{o, ""}] = cellV{x.slice(st, key, content), t}
	return &Ptr{obj: o, nilT: TFalse}
}

// outPtr is a pointer to a variable with unknown old contents.
func (x *cbCtx) outPtr(st *State, key string, t types.Type) *Ptr {
	o := x.obj(st, key, t)
	if w := uwidth(t); w > 0 || swidth(t) > 0 {
		v := SymW("old:"+key, w)
		if w == 0 {
			lo, hi := intRange(t)
			st.facts = st.facts.Assume(Le(CB(lo), v), true).Assume(Le(v, CB(hi)), true)
		}
		st.mem[cell{o, ""}] = cellV{v, t}
	} else if isBool(t) {
		st.mem[cell{o, ""}] = cellV{rawOp("b", "", 0, Sym("old:"+key)), t}
	} else if _, ok := t.Underlying().(*types.Slice); ok {
		st.mem[cell{o, ""}] = cellV{x.slice(st, key+":old", SubBase(Sym("old:"+key), C(0), LenOf(Sym("old:"+key)))), t}
	}
	return &Ptr{obj: o, nilT: TFalse}
}

// now is what a variable holds at an exit.
func (x *cbCtx) now(r *Result, p *Ptr) Value {
	return x.e.loadAt(r.st, p.obj, p.path, p.obj.typ)
}

func (x *cbCtx) seqNow(r *Result, p *Ptr) *Term {
	switch v := x.now(r, p).(type) {
	case *Slice:
		return x.e.sliceSeq(r.st, v)
	case *Term:
		return v
	}
	return nil
}

// in is the input: known leading bytes, then the symbolic rest of a symbolic
// string of total length n.
func inSeq(head []*Term, n *Term) *Term {
	S := Sym("in")
	var ps []*Term
	for _, h := range head {
		ps = append(ps, Elem(h))
	}
	k := int64(len(head))
	return MkSeq(append(ps, SubBase(S, C(k), Sub(n, C(k))))...)
}

func inByte(i int64) *Term { return AtBase(Sym("in"), C(i), 8) }

// fnOf finds a function or method of the package.
func (x *cbCtx) fnOf(rule, name string, nparams int) *ssa.Function {
	f := x.c.ld.fn(x.pkg, name)
	if f == nil || len(f.Params) != nparams {
		x.c.fail("analysable", x.pkg+"."+name, x.pkg, "the function does not exist in the expected form")
		return nil
	}
	return f
}

func pointeeT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// okCases splits an exit by its Boolean result.
func okCases(r *Result) (yes, no *Facts) {
	t, ok := r.vals[0].(*Term)
	if !ok {
		return r.st.facts, r.st.facts
	}
	switch t {
	case TTrue:
		return r.st.facts, nil
	case TFalse:
		return nil, r.st.facts
	}
	return split(r.st.facts, t)
}

func beOf(seq *Term, n int64, w int, F *Facts) *Term {
	v := C(0)
	for i := int64(0); i < n; i++ {
		v = BOr(w, v, BShl(w, AtSeq(seq, C(i), F), int(8*(n-1-i))))
	}
	return v
}

func impossible(F *Facts, bs ...*Term) bool {
	for _, b := range bs {
		F = F.Assume(b, true)
		if F.bot {
			return true
		}
	}
	return contradictory(F)
}

// natExpand replaces the value of a short byte sequence by the sum of its
// bytes, and complements of bytes by differences.
func natExpand(t *Term, F *Facts) *Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "anf" && t.w == 8 {
			if v := byteVal(t); v != t {
				m[t] = v
				return
			}
		}
		if t.op == "natval" || t.op == "elem" {
			s := t.args[0]
			if t.op == "natval" {
				if n, ok := SeqLen(s).i64(); ok && n <= 64 {
					v := C(0)
					for i := int64(0); i < n; i++ {
						v = Add(MulI(v, 256), byteVal(AtSeq(s, C(i), F)))
					}
					m[t] = v
					return
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, mo := range polyOf(t) {
			for _, v := range mo.v {
				if v != t {
					walk(v)
				}
			}
		}
	}
	walk(t)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// expandFacts writes big-endian loads of short sequences out in the facts.
func expandFacts(F *Facts) *Facts {
	m := map[*Term]*Term{}
	for _, q := range append(append([]*Term(nil), F.lin...), F.eqs...) {
		for _, mo := range polyOf(q) {
			for _, v := range mo.v {
				if v.op == "natval" && m[v] == nil {
					if t := natExpand(v, F); t != v {
						m[v] = t
					}
				}
			}
		}
	}
	if len(m) == 0 {
		return F
	}
	return F.subst(m)
}

// byteVal writes a complemented byte as 255 - b.
func byteVal(b *Term) *Term {
	if b.op == "c" || b.op == "at" {
		return b
	}
	if n := BNot(8, b); n.op == "at" || n.op == "c" {
		return Sub(C(255), n)
	}
	return b
}

func checkCBRead(c *Check) {
	c.explain = "Every reading method of the byte string is interpreted on a string of unbounded symbolic length and content (and with a symbolic count where it takes one): on success the facts of the exit must show that enough bytes remained, the value must be the next bytes of the input (big-endian), and the string must be what follows them; on failure the facts must show that too few bytes remained. Every run-time check met on any path must be provable."
	c.rule("value", "on success the result is made of exactly the next bytes of the input")
	c.rule("advance", "on success the string is what follows the bytes consumed")
	c.rule("refuses", "a read fails only when too few bytes remain, and succeeds only when enough do")
	x := c.cb("cryptobyte")
	S := Sym("in")
	L := LenOf(S)
	whole := SubBase(S, C(0), L)
	at := func(i int64) *Term { return inByte(i) }
	be := func(off, n int64) *Term {
		v := C(0)
		for i := int64(0); i < n; i++ {
			v = BOr(32, v, BShl(32, at(off+i), int(8*(n-1-i))))
		}
		return v
	}
	// judge one read that must consume n bytes exactly when n <= L.
	judge := func(name string, f *ssa.Function, s *Ptr, rs []*Result, n *Term, enough []*Term, val func(r *Result, F *Facts) string) {
		for _, r := range rs {
			yes, no := okCases(r)
			if yes != nil {
				ok := true
				for _, b := range enough {
					ok = ok && holdsX(yes, b) == 1
				}
				c.ob("refuses", name+" succeeds", c.at(f), ok, "succeeds when "+cutMid(yes.String(), 300))
				if ok {
					msg := val(r, yes)
					c.ob("value", name, c.at(f), msg == "", msg)
					got := x.seqNow(r, s)
					want := subX(yes, whole, n, Sub(L, n))
					c.ob("advance", name, c.at(f), got != nil && want != nil && sameX(yes, got, want), "the string is "+termStr(got)+" when "+cutMid(yes.String(), 300))
				}
			}
			if no != nil {
				c.ob("refuses", name+" fails", c.at(f), impossible(no, enough...), "fails when "+cutMid(no.String(), 300))
			}
		}
	}
	args := func(f *ssa.Function, st *State) (s *Ptr, a []Value) {
		s = x.strPtr(st, "s", whole, pointeeT(f.Params[0].Type()))
		return s, []Value{s}
	}
	for name, n := range map[string]int64{"ReadUint8": 1, "ReadUint16": 2, "ReadUint24": 3, "ReadUint32": 4} {
		f := x.fnOf("value", "(*String)."+name, 2)
		if f == nil {
			continue
		}
		st := x.e.newState()
		s, a := args(f, st)
		out := x.outPtr(st, "out", pointeeT(f.Params[1].Type()))
		judge(name, f, s, x.run(f, append(a, out), st, "refuses", name), C(n), []*Term{Le(C(n), L)}, func(r *Result, F *Facts) string {
			got, _ := x.now(r, out).(*Term)
			if got == nil || !sameX(F, got, be(0, n)) {
				return "the value is " + termStr(got)
			}
			return ""
		})
	}
	for name, n := range map[string]int64{"ReadUint8LengthPrefixed": 1, "ReadUint16LengthPrefixed": 2, "ReadUint24LengthPrefixed": 3} {
		f := x.fnOf("value", "(*String)."+name, 2)
		if f == nil {
			continue
		}
		st := x.e.newState()
		s, a := args(f, st)
		out := x.outPtr(st, "out", pointeeT(f.Params[1].Type()))
		m := be(0, n)
		judge(name, f, s, x.run(f, append(a, out), st, "refuses", name), Add(C(n), m), []*Term{Le(C(n), L), Le(Add(C(n), m), L)}, func(r *Result, F *Facts) string {
			got := x.seqNow(r, out)
			want := subX(F, whole, C(n), m)
			if got == nil || want == nil || !sameX(F, got, want) {
				return "the content is " + termStr(got)
			}
			return ""
		})
	}
	N := Sym("arg:n")
	for _, name := range []string{"ReadBytes", "Skip", "CopyBytes"} {
		np := 2
		if name == "ReadBytes" {
			np = 3
		}
		f := x.fnOf("value", "(*String)."+name, np)
		if f == nil {
			continue
		}
		st := x.e.newState()
		s, a := args(f, st)
		var out *Ptr
		var dst *Slice
		switch name {
		case "ReadBytes":
			out = x.outPtr(st, "out", pointeeT(f.Params[1].Type()))
			a = append(a, out, N)
		case "Skip":
			a = append(a, N)
		case "CopyBytes":
			st.facts = st.facts.Assume(GE0(N), true)
			dst = x.slice(st, "dst", SubBase(Sym("olddst"), C(0), N))
			a = append(a, dst)
		}
		judge(name, f, s, x.run(f, a, st, "refuses", name), N, []*Term{GE0(N), Le(N, L)}, func(r *Result, F *Facts) string {
			want := subX(F, whole, C(0), N)
			got := want
			if out != nil {
				got = x.seqNow(r, out)
			} else if dst != nil {
				got = x.e.sliceSeq(r.st, dst)
			}
			if got == nil || want == nil || !sameX(F, got, want) {
				return "the bytes are " + termStr(got)
			}
			return ""
		})
	}
	if f := x.fnOf("value", "String.Empty", 1); f != nil {
		st := x.e.newState()
		for _, r := range x.run(f, []Value{x.slice(st, "s", whole)}, st, "refuses", "Empty") {
			yes, no := okCases(r)
			c.ob("value", "Empty", c.at(f), (yes == nil || holdsX(yes, EQ0(L)) == 1) && (no == nil || holdsX(no, EQ0(L)) == -1), "")
		}
	}
}

// derHeader is the specification of an element header given its two leading
// bytes: the header length, the content length, and the conditions (besides
// the tag being a low one) under which the element is acceptable.
type derHeader struct {
	bad    bool
	hl     int64
	n      *Term
	min    []*Term // the length is minimal
	fits   *Term   // header and content are inside the input
	always []*Term // conditions under which acceptance is required
}

func headerOf(t, b1 int64, L *Term) derHeader {
	if t&0x1f == 0x1f || b1 == 0x80 || b1 > 0x84 {
		return derHeader{bad: true}
	}
	if b1 < 0x80 {
		h := derHeader{hl: 2, n: C(b1), fits: Le(C(2+b1), L)}
		h.always = []*Term{h.fits}
		return h
	}
	ll := b1 - 0x80
	v := C(0)
	for i := int64(0); i < ll; i++ {
		v = BOr(32, v, BShl(32, inByte(2+i), int(8*(ll-1-i))))
	}
	lo := int64(128)
	if ll > 1 {
		lo = int64(1) << uint(8*(ll-1))
	}
	h := derHeader{hl: 2 + ll, n: v, min: []*Term{Le(C(2+ll), L), Le(C(lo), v)}, fits: Le(Add(C(2+ll), v), L)}
	h.always = append(append([]*Term(nil), h.min...), h.fits, Le(Add(C(2+ll), v), CB(new(big.Int).Sub(pow2(32), bigOne))))
	return h
}

func checkDERRead(c *Check) {
	c.explain = "Element reading is interpreted for all 65536 pairs of identifier and first length octet with the rest of the input symbolic and of unbounded length; the facts of every exit must show that acceptance is exactly: low tag number, definite length in minimal form of at most four octets, header and content inside the input (and the tag asked for); the content and the remaining string must be the right parts of the input. Typed readers are interpreted on well-formed elements of every content length up to a bound with symbolic content, partitioned by the bits that matter, and compared with the value DER defines, and on elements of every other tag and of every malformed header."
	c.rule("header", "an element is accepted exactly when its tag number is low, its length definite, minimal and inside the input")
	c.rule("content", "the element read is exactly the content (or the element) and the string is what follows it")
	c.rule("tag", "an element with another tag than the one asked for is refused")
	x := c.cb("cryptobyte")
	L := LenOf(Sym("in"))
	for _, name := range []string{"ReadAnyASN1", "ReadAnyASN1Element"} {
		f := x.fnOf("header", "(*String)."+name, 3)
		if f == nil {
			continue
		}
		for n := int64(0); n < 2; n++ {
			st := x.e.newState()
			var hd []*Term
			for i := int64(0); i < n; i++ {
				hd = append(hd, inByte(i))
			}
			a := []Value{x.strPtr(st, "s", inSeq(hd, C(n)), pointeeT(f.Params[0].Type())), x.outPtr(st, "out", pointeeT(f.Params[1].Type())), x.outPtr(st, "tag", pointeeT(f.Params[2].Type()))}
			for _, r := range x.run(f, a, st, "header", name) {
				yes, _ := okCases(r)
				c.ob("header", fmt.Sprintf("%s of %d bytes", name, n), c.at(f), yes == nil, "an input without header is accepted")
			}
		}
		for t := int64(0); t < 256; t++ {
			for b1 := int64(0); b1 < 256; b1++ {
				x.element(f, name, t, b1, L, name == "ReadAnyASN1", nil)
			}
		}
	}
	x.tagged(L)
	x.typed(L)
}

// tagged: the readers that ask for a tag.
func (x *cbCtx) tagged(L *Term) {
	c := x.c
	sample := func(do func(t, b1 int64)) {
		for t := int64(0); t < 256; t++ {
			do(t, 3)
			do(t, 0x81)
		}
		for b1 := int64(0); b1 < 256; b1++ {
			do(0x30, b1)
		}
	}
	T := SymW("arg:tag", 8)
	for _, name := range []string{"ReadASN1", "ReadASN1Bytes", "ReadASN1Element"} {
		if f := x.fnOf("tag", "(*String)."+name, 3); f != nil {
			sample(func(t, b1 int64) { x.element(f, name, t, b1, L, name != "ReadASN1Element", T) })
		}
	}
	skip := x.fnOf("tag", "(*String).SkipASN1", 2)
	skipOpt := x.fnOf("tag", "(*String).SkipOptionalASN1", 2)
	readOpt := x.fnOf("tag", "(*String).ReadOptionalASN1", 4)
	peek := x.fnOf("tag", "String.PeekASN1Tag", 2)
	if skip == nil || skipOpt == nil || readOpt == nil || peek == nil {
		return
	}
	sample(func(t, b1 int64) {
		in := inSeq([]*Term{C(t), C(b1)}, L)
		h := headerOf(t, b1, L)
		start := func(rg [2]*big.Int) *State {
			st := x.e.newState()
			st.facts = st.facts.Assume(Le(C(2), L), true)
			if rg[0] != nil {
				st.facts = lenIn(st.facts, h.n, rg)
			}
			return st
		}
		good := func(F *Facts) bool {
			ok := !h.bad && holdsX(F, h.fits) == 1
			for _, b := range h.min {
				ok = ok && holdsX(F, b) == 1
			}
			return ok
		}
		rest := func(F *Facts) *Term {
			end := Add(C(h.hl), h.n)
			return subX(F, in, end, Sub(L, end))
		}
		for k, f := range []*ssa.Function{skip, skipOpt, readOpt} {
			for _, rg := range h.ranges() {
				what := fmt.Sprintf("%s of %02x %02x", f.Name(), t, b1)
				st := start(rg)
				s := x.strPtr(st, "s", in, pointeeT(f.Params[0].Type()))
				a := []Value{s}
				var out, pres *Ptr
				if k == 2 {
					out, pres = x.outPtr(st, "out", pointeeT(f.Params[1].Type())), x.outPtr(st, "present", pointeeT(f.Params[2].Type()))
					a = append(a, out, pres)
				}
				for _, r := range x.run(f, append(a, T), st, "tag", what) {
					yes, no := okCases(r)
					got := x.seqNow(r, s)
					if yes != nil {
						for _, F := range splitAll(yes, Eq(T, C(t))) {
							if hit := F.Eval(Eq(T, C(t))) == 1; hit {
								w := rest(F)
								ok := good(F) && got != nil && w != nil && sameX(F, got, w)
								if out != nil && ok {
									g, w := x.seqNow(r, out), subX(F, in, C(h.hl), h.n)
									p, _ := x.now(r, pres).(*Term)
									ok = g != nil && w != nil && sameX(F, g, w) && p != nil && F.Eval(p) == 1
								}
								c.ob("tag", what+" with this tag", c.at(f), ok, "succeeds when "+cutMid(F.String(), 300)+" leaving "+termStr(got))
							} else {
								ok := k > 0 && got != nil && sameX(F, got, in)
								if out != nil && ok {
									p, _ := x.now(r, pres).(*Term)
									ok = p != nil && F.Eval(p) == -1
								}
								c.ob("tag", what+" with another tag", c.at(f), ok, "succeeds leaving "+termStr(got))
							}
						}
					}
					if no != nil {
						cs := append([]*Term(nil), h.always...)
						ok := h.bad && k == 0
						if !ok && h.bad {
							ok = impossible(no, Not(Eq(T, C(t))))
						} else if !ok {
							ok = impossible(no, append(cs, Eq(T, C(t)))...) && (k == 0 || impossible(no, Not(Eq(T, C(t)))))
						}
						c.ob("tag", what+" refused", c.at(f), ok, "refused when "+cutMid(no.String(), 300))
					}
				}
			}
		}
		st := start([2]*big.Int{})
		for _, r := range x.run(peek, []Value{x.slice(st, "s", in), T}, st, "tag", "PeekASN1Tag") {
			yes, no := okCases(r)
			c.ob("tag", fmt.Sprintf("PeekASN1Tag of %02x", t), c.at(peek), (yes == nil || holdsX(yes, Eq(T, C(t))) == 1) && (no == nil || impossible(no, Eq(T, C(t)))), "")
		}
	})
	st := x.e.newState()
	for _, r := range x.run(peek, []Value{x.slice(st, "s", EmptySeq), T}, st, "tag", "PeekASN1Tag") {
		yes, _ := okCases(r)
		c.ob("tag", "PeekASN1Tag of nothing", c.at(peek), yes == nil, "")
	}
}

// element runs a function that reads one element with the given header and
// judges it; want is the tag asked for (nil: the third parameter returns it).
func (x *cbCtx) element(f *ssa.Function, name string, t, b1 int64, L *Term, skip bool, want *Term) {
	h := headerOf(t, b1, L)
	what := fmt.Sprintf("%s of %02x %02x", name, t, b1)
	for i, rg := range h.ranges() {
		w := what
		if rg[0] != nil {
			w += fmt.Sprintf(" (length range %d)", i)
		}
		x.elementIn(f, w, t, b1, L, skip, want, h, rg)
	}
}

// ranges partitions the values of a long-form length.
func (h derHeader) ranges() [][2]*big.Int {
	if h.bad || len(h.min) == 0 {
		return [][2]*big.Int{{}}
	}
	ll := int(h.hl - 2)
	cut := []*big.Int{new(big.Int), big.NewInt(128)}
	if ll > 1 {
		cut = append(cut, pow2(8*(ll-1)))
	}
	if ll == 4 {
		cut = append(cut, new(big.Int).Sub(pow2(32), big.NewInt(h.hl)))
	}
	cut = append(cut, pow2(8*ll))
	var r [][2]*big.Int
	for i := 0; i+1 < len(cut); i++ {
		r = append(r, [2]*big.Int{cut[i], new(big.Int).Sub(cut[i+1], bigOne)})
	}
	return r
}

// contradictoryIf: an exit that does not look right is first checked for
// being possible at all.
func contradictoryIf(F *Facts, h derHeader, want *Term, t int64) bool {
	if !h.bad && holdsX(F, h.fits) == 1 {
		ok := true
		for _, b := range h.min {
			ok = ok && holdsX(F, b) == 1
		}
		if ok {
			return false
		}
	}
	return contradictory(F)
}

// lenIn bounds a length, in both its forms.
func lenIn(F *Facts, n *Term, rg [2]*big.Int) *Facts {
	for _, t := range []*Term{n, natExpand(n, F)} {
		F = F.Assume(Le(CB(rg[0]), t), true).Assume(Le(t, CB(rg[1])), true)
	}
	return F
}

func (x *cbCtx) elementIn(f *ssa.Function, what string, t, b1 int64, L *Term, skip bool, want *Term, h derHeader, rg [2]*big.Int) {
	c := x.c
	st := x.e.newState()
	st.facts = st.facts.Assume(Le(C(2), L), true)
	if rg[0] != nil {
		st.facts = lenIn(st.facts, h.n, rg)
	}
	in := inSeq([]*Term{C(t), C(b1)}, L)
	s := x.strPtr(st, "s", in, pointeeT(f.Params[0].Type()))
	out := x.outPtr(st, "out", pointeeT(f.Params[1].Type()))
	a := []Value{s, out}
	var tag *Ptr
	if want == nil {
		tag = x.outPtr(st, "tag", pointeeT(f.Params[2].Type()))
		a = append(a, tag)
	} else {
		a = append(a, want)
	}
	for _, r := range x.run(f, a, st, "header", what) {
		yes, no := okCases(r)
		if yes != nil {
			if contradictoryIf(yes, h, want, t) {
				continue
			}
			if h.bad {
				c.fail("header", what, c.at(f), "accepted when "+cutMid(yes.String(), 200))
				continue
			}
			ok := holdsX(yes, h.fits) == 1
			for _, b := range h.min {
				ok = ok && holdsX(yes, b) == 1
			}
			if want != nil {
				ok = ok && holdsX(yes, Eq(want, C(t))) == 1
			}
			if !c.ob("header", what+" accepted", c.at(f), ok, "accepted when "+cutMid(yes.String(), 300)) {
				continue
			}
			off, n := C(h.hl), h.n
			if !skip {
				off, n = C(0), Add(C(h.hl), h.n)
			}
			g, w := x.seqNow(r, out), subX(yes, in, off, n)
			end := Add(C(h.hl), h.n)
			g2, w2 := x.seqNow(r, s), subX(yes, in, end, Sub(L, end))
			ok = g != nil && w != nil && sameX(yes, g, w) && g2 != nil && w2 != nil && sameX(yes, g2, w2)
			c.ob("content", what, c.at(f), ok, "read "+termStr(g)+", rest "+termStr(g2))
			if tag != nil {
				tv, _ := x.now(r, tag).(*Term)
				c.ob("content", what+": tag", c.at(f), tv != nil && sameX(yes, tv, C(t)), "the tag is "+termStr(tv))
			}
		}
		if no != nil {
			var cs []*Term
			cs = append(cs, h.always...)
			if want != nil {
				cs = append(cs, Eq(want, C(t)))
			}
			c.ob("header", what+" refused", c.at(f), h.bad || impossible(no, cs...), "refused when "+cutMid(no.String(), 300))
		}
	}
}

func init() {
	addCheck("C28", "other", absInt, checkCBRead)
	addCheck("C29", "other", absInt, checkDERRead)
}
