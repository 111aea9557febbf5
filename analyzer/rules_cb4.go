package main

// What the builder writes for each type of value.

import (
	"fmt"
	"go/types"
	"math/big"
)

// tlv is a DER element whose content length lies in the range of hi.
func tlv(tag int64, hi int64, content *Term) *Term {
	return MkSeq(Elem(C(tag)), derLenIn(SeqLen(content), big.NewInt(hi)), content)
}

// twos: the case of a value written in n bytes of two's complement.
func twos(v *Term, n int64) *Term {
	var ps []*Term
	for k := int(n) - 1; k >= 0; k-- {
		ps = append(ps, rawOp("elem", "", 0, ByteAt(v, k)))
	}
	return MkSeq(ps...)
}

func checkWriters(c *Check) {
	c.explain = "Each typed writer is interpreted through the public interface (fresh builder over an arbitrary buffer, the operation, Bytes), once per length class of the value, with the value symbolic in its class; the bytes must be the old bytes followed by the universal tag, the minimal DER length and the content form that the reader of the same type (check C29) accepts, and values without an encoding must give an error. The classes together cover all 64-bit integers, big integers of any sign up to the stated content length, octet and bit strings of any length class, identifiers of up to four arcs with every arc length below 2^31, and all times."
	c.rule("integer", "integers and enumerations: tag 02 or 0a and minimal two's complement")
	c.rule("octets", "octet and bit strings: tag 04, and 03 with no padding bits")
	c.rule("boolean", "Booleans and NULL: tag 01 with 00 or ff, tag 05 with nothing")
	c.rule("identifier", "identifiers: tag 06 and base-128 arcs, the first two joined; invalid ones refused")
	c.rule("time", "times: tag 18 and the layout the reader parses; years beyond four digits refused")
	c.rule("explicit", "elements with a caller's tag, and values marshalled by encoding/asn1")
	x := c.bld("cryptobyte")
	x.intWriters()
	x.bigWriter()
	x.stringWriters()
	x.oidWriter()
	x.timeWriter()
	x.otherWriters()
}

func (x *bldCtx) intWriters() {
	for _, m := range []struct {
		name string
		tag  int64
	}{{"AddASN1Int64", 2}, {"AddASN1Enum", 10}} {
		m := m
		for n := int64(1); n <= 8; n++ {
			n := n
			v := Sym("v")
			hi := pow2(int(8*n - 1))
			lo := big.NewInt(0)
			if n > 1 {
				lo = pow2(int(8*n - 9))
			}
			one := big.NewInt(1)
			pos := []*Term{Le(CB(lo), v), Le(v, CB(new(big.Int).Sub(hi, one)))}
			neg := []*Term{Le(CB(new(big.Int).Neg(hi)), v), Le(v, CB(new(big.Int).Sub(new(big.Int).Neg(lo), one)))}
			for s, as := range map[string][]*Term{"positive": pos, "negative": neg} {
				x.do(bcase{rule: "integer", what: fmt.Sprintf("%s of a %s value of %d bytes", m.name, s, n), assume: as,
					steps: func(st *State) []bstep { return []bstep{{m.name, []Value{v}}} },
					want:  func(F *Facts) *Term { return tlv(m.tag, 0x7f, twos(v, n)) }})
			}
		}
	}
	for n := int64(1); n <= 9; n++ {
		n := n
		v := SymW("v", 64)
		lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(int(8*n-1)), big.NewInt(1))
		if n > 1 {
			lo = pow2(int(8*n - 9))
		}
		if n == 9 {
			hi = new(big.Int).Sub(pow2(64), big.NewInt(1))
		}
		x.do(bcase{rule: "integer", what: fmt.Sprintf("AddASN1Uint64 of a value of %d bytes", n), assume: []*Term{Le(CB(lo), v), Le(v, CB(hi))},
			steps: func(st *State) []bstep { return []bstep{{"AddASN1Uint64", []Value{v}}} },
			want:  func(F *Facts) *Term { return tlv(2, 0x7f, twos(v, n)) }})
	}
}

// topBit: whether the first byte of a non-empty sequence has its top bit set.
func topBit(F *Facts, s *Term) int {
	if s.op == "nat" {
		l := BitLen(s.args[0])
		if r := holdsX(F, EQ0(Sub(l, MulI(FDiv(l, 8), 8)))); r != 0 {
			return r
		}
	}
	b := AtSeq(s, C(0), F)
	if r := holdsX(F, EQ0(BAnd(8, b, C(0x80)))); r != 0 {
		return -r
	}
	if r := holdsX(F, EQ0(BXor(8, BAnd(8, b, C(0x80)), C(0x80)))); r != 0 {
		return r
	}
	return holdsX(F, Le(C(128), b))
}

func (x *bldCtx) bigWriter() {
	v := Sym("n")
	num := func(st *State) Value { return x.e.newBig(st, "arg", v) }
	steps := func(st *State) []bstep { return []bstep{{"AddASN1BigInt", []Value{num(st)}}} }
	x.do(bcase{rule: "integer", what: "AddASN1BigInt of zero", assume: []*Term{EQ0(v)}, steps: steps,
		want: func(F *Facts) *Term { return Bytes("\x02\x01\x00") }})
	x.do(bcase{rule: "integer", what: "AddASN1BigInt of minus one", assume: []*Term{EQ0(Add(v, C(1)))}, steps: steps,
		want: func(F *Facts) *Term { return Bytes("\x02\x01\xff") }})
	for _, r := range [][2]int64{{1, 0x7e}, {0x80, 0xfe}, {0x100, 0xfffe}} {
		r := r
		form := func(F *Facts, m *Term, neg bool) *Term {
			c := Nat(m)
			pad := "\x00"
			switch topBit(F, c) {
			case -1:
				pad = ""
			case 0:
				return Bytes("undecided")
			}
			if neg {
				b := freshBeta(c)
				c = SubBase(Blocks(Elem(BXor(8, AtSeq(c, b, nil), C(255))), b, C(1)), C(0), NatLen(m))
				if pad != "" {
					pad = "\xff"
				}
			}
			return tlv(2, r[1]+1, MkSeq(Bytes(pad), c))
		}
		x.do(bcase{rule: "integer", what: fmt.Sprintf("AddASN1BigInt of a positive value of %d to %d bytes", r[0], r[1]),
			assume: append([]*Term{Le(C(1), v)}, in(NatLen(v), r[0], r[1])...), steps: steps,
			want: func(F *Facts) *Term { return form(F, v, false) }})
		m := Sub(C(-1), v)
		x.do(bcase{rule: "integer", what: fmt.Sprintf("AddASN1BigInt of a negative value of %d to %d bytes", r[0], r[1]),
			assume: append([]*Term{Le(v, C(-2))}, in(NatLen(m), r[0], r[1])...), steps: steps,
			want: func(F *Facts) *Term { return form(F, m, true) }})
	}
}

func (x *bldCtx) stringWriters() {
	n := LenOf(Sym("data"))
	for _, r := range derRanges {
		r := r
		lo, hi := r[0], r[1]
		if lo > 0 {
			lo++
		}
		for _, m := range []struct {
			name string
			tag  int64
			pre  string
		}{{"AddASN1OctetString", 4, ""}, {"AddASN1BitString", 3, "\x00"}} {
			m := m
			x.do(bcase{rule: "octets", what: fmt.Sprintf("%s of %d to %d bytes", m.name, lo, hi-1), assume: in(n, lo, hi-1),
				steps: func(st *State) []bstep {
					d, _ := x.data(st, "data", n)
					return []bstep{{m.name, []Value{d}}}
				},
				want: func(F *Facts) *Term { return tlv(m.tag, hi, MkSeq(Bytes(m.pre), SubBase(Sym("data"), C(0), n))) }})
		}
	}
}

func (x *bldCtx) oidWriter() {
	f := x.fnOf("identifier", "(*Builder).AddASN1ObjectIdentifier", 2)
	if f == nil {
		return
	}
	typ := f.Params[1].Type()
	arcs := func(st *State, vs []*Term) Value {
		var ps []*Term
		for _, v := range vs {
			ps = append(ps, ElemW(v))
		}
		n := C(int64(len(vs)))
		o := x.e.objOf("cbdata:oid", typ)
		o.n = n
		st.mem[cell{o, ""}] = cellV{MkSeq(ps...), typ}
		st.alive[o] = true
		return &Slice{obj: o, off: C(0), len: n, cap: n, nilT: TFalse}
	}
	b128 := func(v *Term, n int) *Term {
		var ps []*Term
		for k := n - 1; k >= 0; k-- {
			b := BAnd(8, TruncByte(FDiv(v, 1<<uint(7*k))), C(0x7f))
			if k > 0 {
				b = BOr(8, b, C(0x80))
			}
			ps = append(ps, Elem(b))
		}
		return MkSeq(ps...)
	}
	sym := func(i int) *Term { return Sym(fmt.Sprintf("arc%d", i)) }
	class := func(v *Term, n int, most int64) []*Term {
		lo, hi := int64(1)<<uint(7*(n-1)), int64(1)<<uint(7*n)-1
		if n == 1 {
			lo = 0
		}
		if hi > most {
			hi = most
		}
		return in(v, lo, hi)
	}
	const max31 = 1<<31 - 1
	run := func(what string, vs []*Term, as []*Term, lens []int) {
		x.do(bcase{rule: "identifier", what: "AddASN1ObjectIdentifier of " + what, assume: as,
			steps: func(st *State) []bstep { return []bstep{{"AddASN1ObjectIdentifier", []Value{arcs(st, vs)}}} },
			want: func(F *Facts) *Term {
				ps := []*Term{b128(Add(MulI(vs[0], 40), vs[1]), lens[0])}
				for i, n := range lens[1:] {
					ps = append(ps, b128(vs[i+2], n))
				}
				return tlv(6, 0x7f, MkSeq(ps...))
			}})
	}
	refuse := func(what string, vs []*Term, as []*Term) {
		x.do(bcase{rule: "identifier", what: "AddASN1ObjectIdentifier of " + what, assume: as, refuse: true,
			steps: func(st *State) []bstep { return []bstep{{"AddASN1ObjectIdentifier", []Value{arcs(st, vs)}}} }})
	}
	big63 := int64(1)<<62 - 1
	for a := int64(0); a <= 2; a++ {
		for n := 1; n <= 5; n++ {
			v := sym(1)
			var as []*Term
			if a < 2 {
				if n > 1 {
					break
				}
				as = in(v, 0, 39)
			} else {
				as = class(Add(v, C(80)), n, max31)
				as = append(as, GE0(v))
			}
			run(fmt.Sprintf("%d.x, %d bytes", a, n), []*Term{C(a), v}, as, []int{n})
		}
		refuse(fmt.Sprintf("%d and nothing", a), []*Term{C(a)}, nil)
		refuse(fmt.Sprintf("%d.-x", a), []*Term{C(a), sym(1)}, in(sym(1), -big63, -1))
		if a < 2 {
			refuse(fmt.Sprintf("%d.x, x beyond 39", a), []*Term{C(a), sym(1)}, in(sym(1), 40, big63))
			refuse(fmt.Sprintf("%d.x.y, x beyond 39", a), []*Term{C(a), sym(1), sym(2)}, append(in(sym(1), 40, big63), in(sym(2), 0, 100)...))
		}
		for n := 1; n <= 5; n++ {
			run(fmt.Sprintf("%d.x.y, y of %d bytes", a, n), []*Term{C(a), sym(1), sym(2)}, append(in(sym(1), 0, 39), class(sym(2), n, max31)...), []int{1, n})
			run(fmt.Sprintf("%d.x.y.z, z of %d bytes", a, n), []*Term{C(a), sym(1), sym(2), sym(3)},
				append(append(in(sym(1), 0, 39), class(sym(2), 6-n, max31)...), class(sym(3), n, max31)...), []int{1, 6 - n, n})
		}
		refuse(fmt.Sprintf("%d.x.-y", a), []*Term{C(a), sym(1), sym(2)}, append(in(sym(1), 0, 39), in(sym(2), -big63, -1)...))
		refuse(fmt.Sprintf("%d.x.y.-z", a), []*Term{C(a), sym(1), sym(2), sym(3)}, append(append(in(sym(1), 0, 39), in(sym(2), 0, 100)...), in(sym(3), -big63, -1)...))
	}
	refuse("nothing", nil, nil)
	refuse("3 or more", []*Term{sym(0), sym(1)}, append(in(sym(0), 3, big63), in(sym(1), 0, 39)...))
	refuse("-x.y", []*Term{sym(0), sym(1)}, append(in(sym(0), -big63, -1), in(sym(1), 0, 39)...))
	refuse("-x.y.z", []*Term{sym(0), sym(1), sym(2)}, append(append(in(sym(0), -big63, -1), in(sym(1), 0, 39)...), in(sym(2), 0, 39)...))
}

func (x *bldCtx) timeWriter() {
	f := x.fnOf("time", "(*Builder).AddASN1GeneralizedTime", 2)
	if f == nil {
		return
	}
	typ := f.Params[1].Type()
	arg := x.e.fromTerm(Sym("t"), typ)
	var form *Term
	st := x.e.newState()
	t := x.e.reify(st, arg, typ)
	year := rawOp("ext", "time.Year", 0, t)
	b := rawOp("ext", "time.Format", 0, t, Bytes("20060102150405Z0700"))
	form = SubBase(b, C(0), LenOf(b))
	steps := func(st *State) []bstep { return []bstep{{"AddASN1GeneralizedTime", []Value{arg}}} }
	x.do(bcase{rule: "time", what: "AddASN1GeneralizedTime", assume: append(in(year, 0, 9999), in(LenOf(b), 15, 19)...), steps: steps,
		want: func(F *Facts) *Term { return tlv(0x18, 0x7f, form) }})
	x.do(bcase{rule: "time", what: "AddASN1GeneralizedTime before year 0", assume: append(in(year, -(1<<60), -1), in(LenOf(b), 15, 19)...), steps: steps, refuse: true})
	x.do(bcase{rule: "time", what: "AddASN1GeneralizedTime after year 9999", assume: append(in(year, 10000, 1<<60), in(LenOf(b), 15, 19)...), steps: steps, refuse: true})
}

func (x *bldCtx) otherWriters() {
	for _, v := range []struct {
		v *Term
		b string
	}{{TFalse, "\x01\x01\x00"}, {TTrue, "\x01\x01\xff"}} {
		v := v
		x.do(bcase{rule: "boolean", what: "AddASN1Boolean " + termStr(v.v), steps: func(st *State) []bstep {
			return []bstep{{"AddASN1Boolean", []Value{v.v}}}
		}, want: func(F *Facts) *Term { return Bytes(v.b) }})
	}
	x.do(bcase{rule: "boolean", what: "AddASN1NULL", steps: func(st *State) []bstep { return []bstep{{"AddASN1NULL", nil}} },
		want: func(F *Facts) *Term { return Bytes("\x05\x00") }})
	// values marshalled by the library: all of the result, or its error
	res := Sym("marshalled")
	ok := rawOp("cond", "marshals", 0)
	bs := types.NewSlice(types.Typ[types.Uint8])
	x.lib = map[string]modelFn{"encoding/asn1.Marshal": func(e *Engine, c *callCtx) []*Result {
		return c.cases(ok, func(st *State) []Value {
			return []Value{e.allocSeq(st, c.site, bs, SubBase(res, C(0), LenOf(res))), nilIface}
		}, func(st *State) []Value {
			return []Value{&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}, e.newErr(st, c.site)}
		})
	}}
	steps := func(st *State) []bstep {
		return []bstep{{"MarshalASN1", []Value{&Iface{t: Sym("any"), nilT: TFalse}}}}
	}
	x.do(bcase{rule: "explicit", what: "MarshalASN1", assume: append(in(LenOf(res), 0, 1<<30), ok), steps: steps,
		want: func(F *Facts) *Term { return SubBase(res, C(0), LenOf(res)) }})
	x.do(bcase{rule: "explicit", what: "MarshalASN1 that fails", assume: append(in(LenOf(res), 0, 1<<30), Not(ok)), steps: steps, refuse: true})
	x.lib = nil
	tag := SymW("tag", 8)
	n := LenOf(Sym("data"))
	x.do(bcase{rule: "explicit", what: "AddASN1 with a tag", assume: append(in(n, 0, 0x7f), Not(EQ0(Sub(BAnd(8, tag, C(0x1f)), C(0x1f))))),
		steps: func(st *State) []bstep {
			d, _ := x.data(st, "data", n)
			return []bstep{{"AddASN1", []Value{tag, x.cont("data", x.op("AddBytes", d))}}}
		},
		want: func(F *Facts) *Term { return MkSeq(Elem(tag), BE(n, C(1)), SubBase(Sym("data"), C(0), n)) }})
}

func init() {
	addCheck("C31", "other", absInt, checkWriters)
}
