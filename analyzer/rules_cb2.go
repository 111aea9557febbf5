package main

// Typed DER readers.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// derCase is an element of a known content length whose content satisfies
// some conditions, and what a reader must make of it.
type derCase struct {
	what    string
	tag     int64
	content []*Term
	assume  []*Term
	accept  bool
	val     func(x *cbCtx, r *Result, F *Facts, out *Ptr) string
}

func cbyte(i int) *Term { return inByte(int64(2 + i)) }

func cbytes(n int) []*Term {
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, cbyte(i))
	}
	return r
}

// intCases partitions integer contents of n bytes.
func intCases(n int) (r []derCase) {
	b0, b1 := cbyte(0), cbyte(1)
	in := func(b *Term, lo, hi int64) []*Term { return []*Term{Le(C(lo), b), Le(b, C(hi))} }
	add := func(what string, ok bool, as ...[]*Term) {
		d := derCase{what: fmt.Sprintf("%d bytes, %s", n, what), content: cbytes(n), accept: ok}
		for _, a := range as {
			d.assume = append(d.assume, a...)
		}
		r = append(r, d)
	}
	fix := func(what string, ok bool, v int64, as ...[]*Term) {
		add(what, ok, as...)
		r[len(r)-1].content[0] = C(v)
	}
	switch n {
	case 0:
		add("empty", false)
	case 1:
		add("not negative", true, in(b0, 0, 127))
		add("negative", true, in(b0, 128, 255))
	default:
		fix("00 before a clear bit", false, 0, in(b1, 0, 127))
		fix("00 before a set bit", true, 0, in(b1, 128, 255))
		add("positive", true, in(b0, 1, 127))
		add("negative", true, in(b0, 128, 254))
		fix("ff before a clear bit", true, 255, in(b1, 0, 127))
		fix("ff before a set bit", false, 255, in(b1, 128, 255))
	}
	return
}

// intVal is the two's complement value of the content.
func intVal(d derCase, F *Facts) *Term {
	v := C(0)
	for _, b := range d.content {
		v = Add(MulI(v, 256), b)
	}
	if len(d.content) > 0 && F.Eval(Le(C(128), d.content[0])) == 1 {
		v = Sub(v, CB(pow2(8*len(d.content))))
	}
	return v
}

func (x *cbCtx) runCase(rule string, f *ssa.Function, name string, d derCase, L *Term, out func(st *State) (*Ptr, []Value)) {
	c := x.c
	what := name + ": " + d.what
	n := int64(len(d.content))
	hd := append([]*Term{C(d.tag), C(n)}, d.content...)
	if n > 127 {
		return
	}
	st := x.e.newState()
	st.facts = st.facts.Assume(Le(C(2+n), L), true)
	for _, a := range d.assume {
		st.facts = st.facts.Assume(a, true)
	}
	if st.facts.bot {
		return
	}
	in := inSeq(hd, L)
	s := x.strPtr(st, "s", in, pointeeT(f.Params[0].Type()))
	o, more := out(st)
	for _, r := range x.run(f, append([]Value{s}, more...), st, rule, what) {
		yes, no := okCases(r)
		if yes != nil && contradictory(yes) {
			yes = nil
		}
		if no != nil && contradictory(no) {
			no = nil
		}
		if !d.accept {
			msg := ""
			if yes != nil {
				msg = "accepted when " + cutMid(yes.String(), 300)
			}
			c.ob(rule, what+" refused", c.at(f), yes == nil, msg)
			continue
		}
		if no != nil {
			c.fail(rule, what+" accepted", c.at(f), "refused when "+cutMid(no.String(), 300))
		}
		if yes == nil {
			continue
		}
		got, want := x.seqNow(r, s), subX(yes, in, C(2+n), Sub(L, C(2+n)))
		c.ob("content", what+": rest", c.at(f), got != nil && want != nil && sameX(yes, got, want), "the string is "+termStr(got))
		msg := ""
		if d.val != nil {
			msg = d.val(x, r, yes, o)
		}
		c.ob(rule, what, c.at(f), msg == "", msg)
	}
}

// otherTags: every other tag, and malformed headers, are refused.
func (x *cbCtx) otherTags(rule string, f *ssa.Function, name string, tag int64, L *Term, out func(st *State) (*Ptr, []Value)) {
	c := x.c
	for t := int64(0); t < 256; t++ {
		if t == tag {
			continue
		}
		for n := 0; n < 3; n += 2 {
			x.runCase(rule, f, name, derCase{what: fmt.Sprintf("tag %02x and %d bytes", t, n), tag: t, content: cbytes(n)}, L, out)
		}
	}
	for b1 := int64(3); b1 < 256; b1++ {
		if b1 > 4 && b1 < 127 || b1 > 0x80 && b1 < 0x85 && rule != "boolean" && rule != "octets" {
			continue
		}
		h := headerOf(tag, b1, L)
		for _, rg := range h.ranges() {
			what := fmt.Sprintf("%s: length octet %02x", name, b1)
			st := x.e.newState()
			st.facts = st.facts.Assume(Le(C(2), L), true)
			if rg[0] != nil {
				st.facts = lenIn(st.facts, h.n, rg)
			}
			if b1 < 0x80 {
				st.facts = st.facts.Assume(h.fits, false)
			}
			s := x.strPtr(st, "s", inSeq([]*Term{C(tag), C(b1)}, L), pointeeT(f.Params[0].Type()))
			_, more := out(st)
			for _, r := range x.run(f, append([]Value{s}, more...), st, rule, what) {
				yes, _ := okCases(r)
				ok := yes == nil || !h.bad && holdsX(yes, h.fits) == 1
				if yes != nil && ok {
					for _, b := range h.min {
						ok = ok && holdsX(yes, b) == 1
					}
				}
				c.ob(rule, what, c.at(f), ok, "a malformed length is accepted")
			}
		}
	}
}

func (x *cbCtx) valueIs(r *Result, F *Facts, out *Ptr, want *Term) string {
	var got *Term
	if isBigInt(out.obj.typ) {
		got = x.e.bigVal(r.st, out)
	} else {
		got, _ = x.now(r, out).(*Term)
	}
	if got == nil {
		return "no value"
	}
	g, w := natExpand(got, F), natExpand(want, F)
	if !sameX(F, g, w) {
		return "the value is " + termStr(g) + ", not " + termStr(w)
	}
	return ""
}

func (x *cbCtx) typed(L *Term) {
	c := x.c
	c.rule("integer", "an INTEGER or ENUMERATED is accepted exactly when its content is minimal and its value fits the target, and the value is the two's complement value of the content")
	c.rule("boolean", "a BOOLEAN is accepted exactly with content 00 or ff")
	c.rule("bits", "a BIT STRING is accepted exactly with 0 to 7 padding bits, all zero, and none when there are no bits")
	c.rule("identifier", "an OBJECT IDENTIFIER is accepted exactly when it is not empty and every arc is complete, minimal and below 2^31, and the arcs are the ones encoded")
	c.rule("octets", "an optional OCTET STRING, INTEGER or BOOLEAN is read when its tag is present and must fill its explicit tag; otherwise the default results")
	c.rule("time", "a GENERALIZEDTIME is accepted exactly when it parses and formats back to the same bytes")
	P := c.ld.pkg("cryptobyte")
	if P == nil {
		c.fail("analysable", "cryptobyte", "cryptobyte", "no such package")
		return
	}
	// integers
	if f := x.fnOf("integer", "(*String).ReadASN1Integer", 2); f != nil {
		var ts []types.Type
		for k := types.Int; k <= types.Uint64; k++ {
			ts = append(ts, types.Typ[k])
		}
		for _, t := range ts {
			x.integer(f, "ReadASN1Integer", 0x02, t, L, true)
		}
		for _, p := range P.types.Imports() {
			if p.Path() == "math/big" {
				x.integer(f, "ReadASN1Integer", 0x02, p.Scope().Lookup("Int").Type(), L, true)
			}
		}
	}
	if f := x.fnOf("integer", "(*String).ReadASN1Enum", 2); f != nil {
		x.integer(f, "ReadASN1Enum", 0x0a, pointeeT(f.Params[1].Type()), L, false)
	}
	x.values(L)
}

// values of other types.
func (x *cbCtx) values(L *Term) {
	c := x.c
	var f *ssa.Function
	outOf := func(k int) func(st *State) (*Ptr, []Value) {
		return func(st *State) (*Ptr, []Value) {
			p := x.outPtr(st, "out", pointeeT(f.Params[k].Type()))
			return p, []Value{p}
		}
	}
	if f = x.fnOf("boolean", "(*String).ReadASN1Boolean", 2); f != nil {
		out := outOf(1)
		cs := []derCase{{what: "empty"}, {what: "two bytes", content: cbytes(2)}, {what: "three bytes", content: cbytes(3)},
			{what: "00", content: []*Term{C(0)}, accept: true, val: boolIs(false)}, {what: "ff", content: []*Term{C(255)}, accept: true, val: boolIs(true)},
			{what: "01 to fe", content: cbytes(1), assume: []*Term{Le(C(1), cbyte(0)), Le(cbyte(0), C(254))}}}
		for _, d := range cs {
			d.tag = 1
			x.runCase("boolean", f, "ReadASN1Boolean", d, L, out)
		}
		x.otherTags("boolean", f, "ReadASN1Boolean", 1, L, out)
	}
	if f = x.fnOf("bits", "(*String).ReadASN1BitString", 2); f != nil {
		out := outOf(1)
		x.bits(f, "ReadASN1BitString", L, out, false)
		x.otherTags("bits", f, "ReadASN1BitString", 3, L, out)
	}
	if f = x.fnOf("bits", "(*String).ReadASN1BitStringAsBytes", 2); f != nil {
		out := outOf(1)
		x.bits(f, "ReadASN1BitStringAsBytes", L, out, true)
		x.otherTags("bits", f, "ReadASN1BitStringAsBytes", 3, L, out)
	}
	if f = x.fnOf("identifier", "(*String).ReadASN1ObjectIdentifier", 2); f != nil {
		out := outOf(1)
		max := 5
		if c.tier == "thorough" {
			max = 7
		}
		for n := 0; n <= max; n++ {
			x.oids(f, n, L, out)
		}
		x.otherTags("identifier", f, "ReadASN1ObjectIdentifier", 6, L, out)
	}
	if f = x.fnOf("time", "(*String).ReadASN1GeneralizedTime", 2); f != nil {
		out := outOf(1)
		x.times(f, L, out)
		x.otherTags("time", f, "ReadASN1GeneralizedTime", 0x18, L, out)
		x.e.hookFn = nil
	}
	x.optional(L)
}

func boolIs(b bool) func(x *cbCtx, r *Result, F *Facts, o *Ptr) string {
	return func(x *cbCtx, r *Result, F *Facts, o *Ptr) string {
		v, _ := x.now(r, o).(*Term)
		want := 1
		if !b {
			want = -1
		}
		if v == nil || F.Eval(v) != want {
			return "the value is " + termStr(v)
		}
		return ""
	}
}

func (x *cbCtx) bits(f *ssa.Function, name string, L *Term, out func(st *State) (*Ptr, []Value), bytes bool) {
	run := func(d derCase) {
		d.tag = 3
		n := int64(len(d.content))
		d.val = func(x *cbCtx, r *Result, F *Facts, o *Ptr) string {
			var b Value = x.now(r, o)
			if !bytes {
				sv, ok := b.(*StructV)
				if !ok {
					return "no value"
				}
				bl, _ := sv.f[1].(*Term)
				pad, _ := d.content[0].i64()
				if bl == nil || !sameX(F, bl, C(8*(n-1)-pad)) {
					return "the bit length is " + termStr(bl)
				}
				b = sv.f[0]
			}
			s, ok := b.(*Slice)
			if !ok {
				return "no bytes"
			}
			var ps []*Term
			for _, t := range d.content[1:] {
				ps = append(ps, Elem(t))
			}
			if got := x.e.sliceSeq(r.st, s); !sameX(F, got, MkSeq(ps...)) {
				return "the bytes are " + termStr(got)
			}
			return ""
		}
		x.runCase("bits", f, name, d, L, out)
	}
	run(derCase{what: "empty"})
	for n := 1; n < 5; n++ {
		ct := func(p int64) []*Term {
			b := cbytes(n)
			b[0] = C(p)
			return b
		}
		for p := int64(0); p < 256; p++ {
			switch {
			case p == 0:
				run(derCase{what: fmt.Sprintf("%d bytes, no padding", n), content: ct(0), accept: true})
			case p > 7 || n == 1 || bytes:
				run(derCase{what: fmt.Sprintf("%d bytes, %d padding bits", n, p), content: ct(p)})
			case n < 4:
				for l := int64(0); l < 256; l++ {
					b := ct(p)
					b[n-1] = C(l)
					run(derCase{what: fmt.Sprintf("%d bytes, %d padding bits, last %02x", n, p, l), content: b, accept: l&(1<<uint(p)-1) == 0})
				}
			}
		}
	}
}

// oids: every sequence of n content bytes by which bytes end an arc.
func (x *cbCtx) oids(f *ssa.Function, n int, L *Term, out func(st *State) (*Ptr, []Value)) {
	const (
		end   = iota // below 0x80
		lead0        // exactly 0x80
		cont         // above 0x80
	)
	pat := make([]int, n)
	var gen func(i int)
	gen = func(i int) {
		if i < n {
			for k := end; k <= cont; k++ {
				pat[i] = k
				gen(i + 1)
			}
			return
		}
		d := derCase{tag: 6, content: cbytes(n), accept: n > 0}
		var arcs [][]int
		var cur []int
		for j, k := range pat {
			b := cbyte(j)
			switch k {
			case end:
				d.what += "e"
				d.assume = append(d.assume, Le(b, C(127)))
			case lead0:
				d.what += "0"
				d.content[j] = C(128)
				if len(cur) == 0 {
					d.accept = false
				}
			case cont:
				d.what += "c"
				d.assume = append(d.assume, Le(C(129), b))
			}
			cur = append(cur, j)
			if k == end {
				arcs = append(arcs, cur)
				cur = nil
			}
		}
		if len(cur) > 0 || n == 0 {
			d.accept = false // truncated
		}
		d.what = "arc bytes " + d.what
		val := func(a []int) *Term {
			v := C(0)
			for _, j := range a {
				b := d.content[j]
				if pat[j] != end {
					b = Sub(b, C(128))
				}
				v = Add(MulI(v, 128), b)
			}
			return v
		}
		type part struct {
			d     derCase
			first int
		}
		parts := []part{{d, -1}}
		// arcs that may exceed 31 bits
		for _, a := range arcs {
			if len(a) == 5 {
				var np []part
				for _, p := range parts {
					q := p
					lo := Le(d.content[a[0]], C(0x87))
					p.d.assume = append(append([]*Term(nil), p.d.assume...), lo)
					q.d.assume = append(append([]*Term(nil), q.d.assume...), Not(lo))
					q.d.accept = false
					p.d.what += " (small)"
					q.d.what += " (large)"
					np = append(np, p, q)
				}
				parts = np
			}
			if len(a) > 5 {
				for i := range parts {
					parts[i].d.accept = false
				}
			}
		}
		if len(arcs) > 0 {
			var np []part
			v := val(arcs[0])
			for _, p := range parts {
				for k := 0; k < 3; k++ {
					q := p
					q.first = k
					lo, hi := int64(40*k), int64(40*k+39)
					q.d.assume = append(append([]*Term(nil), p.d.assume...), Le(C(lo), v))
					if k < 2 {
						q.d.assume = append(q.d.assume, Le(v, C(hi)))
					}
					q.d.what += fmt.Sprintf(" %d.x", k)
					np = append(np, q)
				}
			}
			parts = np
		}
		for _, p := range parts {
			p := p
			p.d.val = func(x *cbCtx, r *Result, F *Facts, o *Ptr) string {
				s, ok := x.now(r, o).(*Slice)
				if !ok {
					return "no value"
				}
				got := x.e.sliceSeq(r.st, s)
				want := []*Term{C(int64(p.first)), Sub(val(arcs[0]), C(int64(40*p.first)))}
				for _, a := range arcs[1:] {
					want = append(want, val(a))
				}
				if !sameX(F, SeqLen(got), C(int64(len(want)))) {
					return fmt.Sprintf("there are %s arcs, not %d", termStr(SeqLen(got)), len(want))
				}
				for i, w := range want {
					g := AtSeqW(got, C(int64(i)), F, 0)
					if !sameX(F, g, w) {
						return fmt.Sprintf("arc %d is %s, not %s", i, termStr(g), termStr(w))
					}
				}
				return ""
			}
			x.runCase("identifier", f, "ReadASN1ObjectIdentifier", p.d, L, out)
		}
	}
	gen(0)
}

const derTimeLayout = "20060102150405Z0700"

// times: parsing and formatting of times are opaque functions of the layout
// and the text.
func (x *cbCtx) times(f *ssa.Function, L *Term, out func(st *State) (*Ptr, []Value)) {
	tt := pointeeT(f.Params[1].Type())
	parse := func(e *Engine, c *callCtx) []*Result {
		lay, s := e.bytesOf(c.st, c.args[0]), e.bytesOf(c.st, c.args[1])
		return c.cases(rawOp("timeok", "", 0, lay, s), func(st *State) []Value {
			return []Value{e.fromTerm(rawOp("timeparse", "", 0, lay, s), tt), nilIface}
		}, func(st *State) []Value {
			return []Value{e.zero(tt), e.newErr(st, c.site)}
		})
	}
	format := func(e *Engine, c *callCtx) []*Result {
		return c.ret(timeFmt(e.bytesOf(c.st, c.args[1]), e.reify(c.st, c.args[0], tt)))
	}
	x.e.hookFn = func(name string) modelFn {
		switch name {
		case "time.Parse":
			return parse
		case "(time.Time).Format":
			return format
		}
		return nil
	}
	lay := Bytes(derTimeLayout)
	for _, n := range []int{0, 1, 13, 15, 16, 19} {
		var ps []*Term
		for _, b := range cbytes(n) {
			ps = append(ps, Elem(b))
		}
		txt := MkSeq(ps...)
		tm := rawOp("timeparse", "", 0, lay, txt)
		st := x.e.newState()
		st.facts = st.facts.Assume(Le(C(int64(2+n)), L), true)
		in := inSeq(append([]*Term{C(0x18), C(int64(n))}, cbytes(n)...), L)
		s := x.strPtr(st, "s", in, pointeeT(f.Params[0].Type()))
		o, more := out(st)
		what := fmt.Sprintf("ReadASN1GeneralizedTime of %d bytes", n)
		okp, eq := rawOp("timeok", "", 0, lay, txt), SeqEq(timeFmt(lay, tm), txt)
		for _, r := range x.run(f, append([]Value{s}, more...), st, "time", what) {
			yes, no := okCases(r)
			if yes != nil {
				got := x.e.reify(r.st, x.now(r, o), tt)
				x.c.ob("time", what, x.c.at(f), holdsX(yes, okp) == 1 && holdsX(yes, eq) == 1 && got == tm, "accepted when "+cutMid(yes.String(), 300)+" as "+termStr(got))
				g, w := x.seqNow(r, s), subX(yes, in, C(int64(2+n)), Sub(L, C(int64(2+n))))
				x.c.ob("content", what+": rest", x.c.at(f), g != nil && w != nil && sameX(yes, g, w), "")
			}
			if no != nil {
				x.c.ob("time", what+" refused", x.c.at(f), impossible(no, okp, eq), "refused when "+cutMid(no.String(), 300))
			}
		}
	}
}

func timeFmt(lay, t *Term) *Term {
	u := rawOp("timefmt", "", 0, lay, t)
	return SubBase(u, C(0), LenOf(u))
}

// optional: readers of optional explicitly tagged values.
func (x *cbCtx) optional(L *Term) {
	c := x.c
	type optCase struct {
		what   string
		head   []*Term // leading bytes
		n      int64   // bytes consumed
		total  *Term   // input length (nil: L)
		accept bool
		absent bool
		val    *Term // the integer, or the offset of the octets
		m      int64 // the number of octets
	}
	k := func(bs ...int64) (r []*Term) {
		for _, b := range bs {
			r = append(r, C(b))
		}
		return
	}
	absent := []optCase{{what: "nothing", total: C(0), accept: true, absent: true}}
	for _, t := range []int64{0x00, 0x01, 0x04, 0x30, 0xa1, 0x80, 0xff} {
		absent = append(absent, optCase{what: fmt.Sprintf("tag %02x", t), head: k(t), accept: true, absent: true})
	}
	tag := int64(0xa0)
	run := func(rule string, f *ssa.Function, name string, o optCase, args func(st *State) []Value, judge func(r *Result, F *Facts) string) {
		st := x.e.newState()
		n := L
		if o.total != nil {
			n = o.total
		} else {
			need := int64(len(o.head))
			if o.n > need {
				need = o.n
			}
			st.facts = st.facts.Assume(Le(C(need), L), true)
		}
		in := inSeq(o.head, n)
		s := x.strPtr(st, "s", in, pointeeT(f.Params[0].Type()))
		what := name + ": " + o.what
		for _, r := range x.run(f, append([]Value{s}, args(st)...), st, rule, what) {
			yes, no := okCases(r)
			if yes != nil && contradictory(yes) {
				yes = nil
			}
			if no != nil && contradictory(no) {
				no = nil
			}
			if !o.accept {
				c.ob(rule, what+" refused", c.at(f), yes == nil, "accepted")
				continue
			}
			if no != nil {
				c.fail(rule, what, c.at(f), "refused when "+cutMid(no.String(), 300))
			}
			if yes == nil {
				continue
			}
			g, w := x.seqNow(r, s), subX(yes, in, C(o.n), Sub(n, C(o.n)))
			msg := judge(r, yes)
			if msg == "" && (g == nil || w == nil || !sameX(yes, g, w)) {
				msg = "the string is " + termStr(g)
			}
			c.ob(rule, what, c.at(f), msg == "", msg)
		}
	}
	at := func(i int64) *Term { return inByte(i) }
	if f := x.fnOf("octets", "(*String).ReadOptionalASN1OctetString", 4); f != nil {
		cs := append([]optCase(nil), absent...)
		for m := int64(0); m < 4; m++ {
			h := k(tag, m+2, 4, m)
			cs = append(cs, optCase{what: fmt.Sprintf("%d octets", m), head: h, n: 4 + m, accept: true, val: C(4), m: m})
			cs = append(cs, optCase{what: fmt.Sprintf("%d octets and one more", m), head: k(tag, m+3, 4, m), n: 5 + m})
			cs = append(cs, optCase{what: fmt.Sprintf("%d octets of %d", m, m+1), head: k(tag, m+2, 4, m+1), n: 4 + m})
			cs = append(cs, optCase{what: fmt.Sprintf("another inner tag, %d bytes", m), head: k(tag, m+2, 2, m), n: 4 + m})
		}
		cs = append(cs, optCase{what: "empty explicit tag", head: k(tag, 0), n: 2})
		for _, withP := range []bool{true, false} {
			for _, o := range cs {
				o := o
				var out, pr *Ptr
				run("octets", f, "ReadOptionalASN1OctetString", o, func(st *State) []Value {
					out = x.outPtr(st, "out", pointeeT(f.Params[1].Type()))
					pr = x.outPtr(st, "present", pointeeT(f.Params[2].Type()))
					var pv Value = pr
					if !withP {
						pv = &Ptr{nilT: TTrue}
					}
					return []Value{out, pv, C(tag)}
				}, func(r *Result, F *Facts) string {
					if withP {
						p, _ := x.now(r, pr).(*Term)
						want := 1
						if o.absent {
							want = -1
						}
						if p == nil || F.Eval(p) != want {
							return "presence is " + termStr(p)
						}
					}
					sl, ok := x.now(r, out).(*Slice)
					if !ok {
						return "no octets"
					}
					if o.absent {
						if F.Eval(sl.nilT) != 1 && sl.nilT != TTrue {
							return "the default is not nil"
						}
						return ""
					}
					var ps []*Term
					for i := int64(0); i < o.m; i++ {
						ps = append(ps, Elem(at(4+i)))
					}
					if g := x.e.sliceSeq(r.st, sl); !sameX(F, g, MkSeq(ps...)) {
						return "the octets are " + termStr(g)
					}
					return ""
				})
			}
		}
	}
	if f := x.fnOf("octets", "(*String).ReadOptionalASN1Integer", 4); f != nil {
		P := c.ld.pkg("cryptobyte")
		ts := []types.Type{types.Typ[types.Int], types.Typ[types.Int8], types.Typ[types.Int32], types.Typ[types.Int64], types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint64]}
		for _, p := range P.types.Imports() {
			if p.Path() == "math/big" {
				ts = append(ts, p.Scope().Lookup("Int").Type())
			}
		}
		for _, t := range ts {
			t := t
			cs := append([]optCase(nil), absent...)
			cs = append(cs,
				optCase{what: "5", head: k(tag, 3, 2, 1, 5), n: 5, accept: true, val: C(5)},
				optCase{what: "127", head: k(tag, 3, 2, 1, 127), n: 5, accept: true, val: C(127)},
				optCase{what: "5 and a byte", head: k(tag, 4, 2, 1, 5), n: 6},
				optCase{what: "an octet string", head: k(tag, 3, 4, 1, 5), n: 5},
				optCase{what: "not minimal", head: k(tag, 4, 2, 2, 0, 5), n: 6},
				optCase{what: "truncated", head: k(tag, 3, 2, 2, 5), n: 5},
				optCase{what: "empty", head: k(tag, 0), n: 2},
				optCase{what: "empty integer", head: k(tag, 2, 2, 0), n: 4})
			for _, o := range cs {
				o := o
				var out *Ptr
				w := uwidth(t)
				def := SymW("arg:def", w)
				run("octets", f, "ReadOptionalASN1Integer into "+typeStr(t), o, func(st *State) []Value {
					out = x.outPtr(st, "out", t)
					oi := &Iface{typ: types.NewPointer(t), val: out, nilT: TFalse}
					var dv Value = &Iface{typ: t, val: def, nilT: TFalse}
					if isBigInt(t) {
						d := x.obj(st, "def", t)
						st.mem[cell{d, ""}] = cellV{def, t}
						dv = &Iface{typ: types.NewPointer(t), val: &Ptr{obj: d, nilT: TFalse}, nilT: TFalse}
					}
					return []Value{oi, C(tag), dv}
				}, func(r *Result, F *Facts) string {
					want := o.val
					if o.absent {
						want = def
					}
					return x.valueIs(r, F, out, want)
				})
			}
		}
	}
	if f := x.fnOf("octets", "(*String).ReadOptionalASN1Boolean", 3); f != nil {
		cs := []optCase{
			{what: "nothing", total: C(0), accept: true, absent: true},
			{what: "false", head: k(1, 1, 0), n: 3, accept: true, val: C(0)},
			{what: "true", head: k(1, 1, 255), n: 3, accept: true, val: C(1)},
			{what: "another value", head: k(1, 1, 7), n: 3},
			{what: "no content", head: k(1, 0), n: 2},
			{what: "two bytes", head: k(1, 2, 255, 255), n: 4}}
		for _, t := range []int64{0, 2, 3, 0x30, 0x81, 0xa1} {
			cs = append(cs, optCase{what: fmt.Sprintf("tag %02x", t), head: k(t), accept: true, absent: true})
		}
		for _, o := range cs {
			for _, def := range []*Term{TTrue, TFalse} {
				o, def := o, def
				var out *Ptr
				run("octets", f, "ReadOptionalASN1Boolean", o, func(st *State) []Value {
					out = x.outPtr(st, "out", pointeeT(f.Params[1].Type()))
					return []Value{out, def}
				}, func(r *Result, F *Facts) string {
					want := def == TTrue
					if !o.absent {
						want = o.val.isCi(1)
					}
					return boolIs(want)(x, r, F, out)
				})
			}
		}
	}
}

func (x *cbCtx) integer(f *ssa.Function, name string, tag int64, t types.Type, L *Term, iface bool) {
	name += " into " + typeStr(t)
	out := func(st *State) (*Ptr, []Value) {
		p := x.outPtr(st, "out", t)
		if iface {
			return p, []Value{&Iface{typ: types.NewPointer(t), val: p, nilT: TFalse}}
		}
		return p, []Value{p}
	}
	max := 10
	if isBigInt(t) {
		max = 34
	}
	for n := 0; n <= max; n++ {
		for _, d := range intCases(n) {
			d := d
			d.tag = tag
			if w := swidth(t); w > 0 {
				d.accept = d.accept && n <= w/8
			} else if w := uwidth(t); w > 0 {
				neg := false
				for _, a := range d.assume {
					if n > 0 && a == Le(C(128), d.content[0]) {
						neg = true
					}
				}
				if n > 0 && d.content[0].isCi(255) {
					neg = true
				}
				d.accept = d.accept && !neg && (n <= w/8 || n == w/8+1 && d.content[0].isCi(0))
			}
			d.val = func(x *cbCtx, r *Result, F *Facts, o *Ptr) string {
				return x.valueIs(r, F, o, intVal(d, F))
			}
			x.runCase("integer", f, name, d, L, out)
		}
	}
	x.otherTags("integer", f, name, tag, L, out)
}

var _ = big.NewInt

func contradictory(F *Facts) bool {
	if inconsistent(F) {
		return true
	}
	G := expandFacts(F)
	return G != F && inconsistent(G)
}

// inconsistent: the linear facts have no solution.
func inconsistent(F *Facts) bool {
	if F.bot {
		return true
	}
	for _, t := range F.lin {
		if F.prove(Sub(Neg(t), C(1))) {
			return true
		}
	}
	return false
}

// holdsX and sameX compare with loads of short sequences written out.
func holdsX(F *Facts, b *Term) int {
	if r := holds(F, b); r != 0 {
		return r
	}
	G, c := expandFacts(F), natExpand(b, F)
	if G == F && c == b {
		return 0
	}
	return holds(G, c)
}

func sameX(F *Facts, a, b *Term) bool {
	return same(F, a, b) || same(expandFacts(F), natExpand(a, F), natExpand(b, F))
}

func subX(F *Facts, s, off, n *Term) *Term {
	if r := subSeq(F, s, off, n); r != nil {
		return r
	}
	return subSeq(expandFacts(F), s, natExpand(off, F), natExpand(n, F))
}
