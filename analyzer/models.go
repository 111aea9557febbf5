package main

// Semantic models of the library functions the analysed code relies on.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bigM = "(*math/big.Int)."
const curveM = "(*crypto/elliptic.CurveParams)."

func pt(x, y *Term) *Term   { return mk("pt", "", 0, []*Term{x, y}) }
func ptX(p *Term) *Term     { return mk("ptx", "", 0, []*Term{p}) }
func ptY(p *Term) *Term     { return mk("pty", "", 0, []*Term{p}) }
func smul(k, p *Term) *Term { return mk("smul", "", 0, []*Term{k, p}) }
func padd(a, b *Term) *Term { return mk("padd", "", 0, []*Term{a, b}) }
func onCurve(x, y *Term) *Term {
	if x.isC() && y.isC() {
		l := new(big.Int).Mul(y.c, y.c)
		r := new(big.Int).Exp(x.c, big.NewInt(3), nil)
		r.Add(r, new(big.Int).Mul(smA.c, x.c)).Add(r, smB.c).Sub(r, l)
		in := func(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(smP.c) < 0 }
		return CBool(in(x.c) && in(y.c) && r.Mod(r, smP.c).Sign() == 0)
	}
	return rawOp("oncurve", "", 0, x, y)
}

func hexT(s string) *Term {
	b, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return CB(b)
}

var (
	smP  = hexT("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	smA  = hexT("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	smB  = hexT("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	smN  = hexT("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	smGx = hexT("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	smGy = hexT("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")
	smG  = pt(smGx, smGy)
)

func sm3Of(s *Term) *Term { return SubBase(rawOp("sm3", "", 0, s), C(0), C(32)) }

// pointKnown: (x,y) is on the curve or the conventional infinity.
func pointKnown(st *State, x, y *Term) bool {
	p := pt(x, y)
	switch p.op {
	case "smul":
		return pointKnownP(st, p.args[1])
	case "padd":
		for _, a := range p.args {
			if !pointKnownP(st, a) {
				return false
			}
		}
		return true
	}
	if p == smG {
		return true
	}
	if x.isCi(0) && y.isCi(0) {
		return true
	}
	return st.facts.Eval(onCurve(x, y)) == 1
}
func pointKnownP(st *State, p *Term) bool {
	if p.op == "pt" {
		return pointKnown(st, p.args[0], p.args[1])
	}
	return pointKnown(st, ptX(p), ptY(p))
}

func (e *Engine) obligePoint(c *callCtx, x, y *Term) bool {
	if pointKnown(c.st, x, y) {
		e.recObl("point on curve", c.pos, true, "", nil)
		return true
	}
	return e.oblige(c.st, "point on curve", onCurve(x, y), c.pos)
}

// decided forks on a condition that is not decided.
func (c *callCtx) cases(cond *Term, yes, no func(st *State) []Value) []*Result {
	switch c.st.facts.Eval(cond) {
	case 1:
		return []*Result{{st: c.st, vals: yes(c.st)}}
	case -1:
		return []*Result{{st: c.st, vals: no(c.st)}}
	}
	g := c.fork()
	c.st.facts = c.st.facts.Assume(cond, true)
	g.facts = g.facts.Assume(cond, false)
	var out []*Result
	if !c.st.facts.bot {
		out = append(out, &Result{st: c.st, vals: yes(c.st)})
	}
	if !g.facts.bot {
		out = append(out, &Result{st: g, vals: no(g)})
	}
	return out
}

func bconst(i int64) *Term { return C(i) }

func absT(st *State, v *Term) *Term {
	if v.isC() {
		return CB(new(big.Int).Abs(v.c))
	}
	if st.facts.ProveGE0(v) {
		return v
	}
	if st.facts.ProveGE0(Neg(v)) {
		return Neg(v)
	}
	return rawOp("abs", "", 0, v)
}

func installModels(e *Engine) {
	M := e.models
	e.reflectModels(M)
	for _, f := range extraModels {
		f(M)
	}
	// --- math/big -------------------------------------------------------
	nilCheck := func(c *callCtx, e *Engine, idx ...int) bool {
		for _, i := range idx {
			if i >= len(c.args) {
				continue
			}
			p, ok := c.args[i].(*Ptr)
			if !ok {
				continue
			}
			if !e.checkNil(c.st, p, c.pos) {
				return false
			}
		}
		return true
	}
	setter := func(n int, f func(e *Engine, c *callCtx, a []*Term) *Term) modelFn {
		return func(e *Engine, c *callCtx) []*Result {
			if !nilCheck(c, e, 0, 1, 2, 3) {
				return nil
			}
			var a []*Term
			for i := 1; i <= n; i++ {
				if p, ok := c.args[i].(*Ptr); ok {
					a = append(a, e.bigVal(c.st, p))
				} else {
					a = append(a, e.bytesOf(c.st, c.args[i]))
				}
			}
			v := f(e, c, a)
			e.setBig(c.st, c.ptr(0), v)
			return c.ret(c.args[0])
		}
	}
	M["math/big.NewInt"] = func(e *Engine, c *callCtx) []*Result {
		return c.ret(e.newBig(c.st, c.site, c.term(0)))
	}
	M[bigM+"SetInt64"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return a[0] })
	M[bigM+"SetUint64"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return a[0] })
	M[bigM+"Set"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return a[0] })
	M[bigM+"SetBytes"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return NatVal(a[0], 0) })
	M[bigM+"Add"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term { return Add(a[0], a[1]) })
	M[bigM+"Sub"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term { return Sub(a[0], a[1]) })
	M[bigM+"Mul"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term { return Mul(a[0], a[1]) })
	M[bigM+"Not"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return Sub(C(-1), a[0]) })
	M[bigM+"Neg"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return Neg(a[0]) })
	M[bigM+"Abs"] = setter(1, func(e *Engine, c *callCtx, a []*Term) *Term { return absT(c.st, a[0]) })
	M[bigM+"Mod"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		e.oblige(c.st, "division by zero", Not(EQ0(a[1])), c.pos)
		return ModN(a[0], a[1])
	})
	M[bigM+"Rem"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		e.oblige(c.st, "division by zero", Not(EQ0(a[1])), c.pos)
		if c.st.facts.ProveGE0(a[0]) {
			return ModN(a[0], a[1])
		}
		return rawOp("bigrem", "", 0, a[0], a[1])
	})
	divM := func(e *Engine, c *callCtx, a []*Term) *Term {
		e.oblige(c.st, "division by zero", Not(EQ0(a[1])), c.pos)
		if k, ok := a[1].i64(); ok && k > 0 && c.st.facts.ProveGE0(a[0]) {
			return FDiv(a[0], k)
		}
		return rawOp("bigdiv", "", 0, a[0], a[1])
	}
	M[bigM+"Div"] = setter(2, divM)
	M[bigM+"Quo"] = setter(2, divM)
	M[bigM+"ModInverse"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		if a[1] == smN {
			// prime modulus: invertible iff nonzero; sufficient 0<a<n
			if !(c.st.facts.ProveGE0(Sub(a[0], C(1))) && c.st.facts.ProveGE0(Sub(Sub(a[1], a[0]), C(1)))) {
				e.oblige(c.st, "inverse exists", Not(EQ0(ModN(a[0], a[1]))), c.pos)
			} else {
				e.recObl("inverse exists", c.pos, true, "", nil)
			}
		} else {
			e.recObl("inverse exists", c.pos, false, "modulus "+a[1].String(), c.st.facts)
		}
		return rawOp("modinv", "", 0, ModN(a[0], a[1]), a[1])
	})
	M[bigM+"Exp"] = setter(3, func(e *Engine, c *callCtx, a []*Term) *Term {
		if k, ok := a[1].i64(); ok && k >= 0 && k <= 3 {
			r := C(1)
			for i := int64(0); i < k; i++ {
				r = Mul(r, a[0])
			}
			return ModN(r, a[2])
		}
		if d := Sub(a[2], a[1]); d.isCi(2) && a[2] == smN {
			return rawOp("modinv", "", 0, ModN(a[0], a[2]), a[2]) // Fermat
		}
		return ModN(rawOp("exp", "", 0, a...), a[2])
	})
	M[bigM+"Lsh"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		if k, ok := a[1].i64(); ok && k >= 0 && k < 4096 {
			return MulC(a[0], pow2(int(k)))
		}
		return rawOp("biglsh", "", 0, a...)
	})
	M[bigM+"Rsh"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		if k, ok := a[1].i64(); ok && k >= 0 {
			return fdivBig(a[0], pow2(int(k)))
		}
		return rawOp("bigrsh", "", 0, a...)
	})
	M[bigM+"And"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		x, y := a[0], a[1]
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			if x.isC() {
				return CB(new(big.Int).And(x.c, y.c))
			}
			p := new(big.Int).Add(y.c, bigOne)
			if y.c.Sign() >= 0 && new(big.Int).And(p, y.c).Sign() == 0 {
				return ModN(x, CB(p)) // x mod 2^k (two's complement)
			}
		}
		return rawOp("bigand", "", 0, x, y)
	})
	M[bigM+"Or"] = setter(2, func(e *Engine, c *callCtx, a []*Term) *Term {
		for s := 0; s < 2; s++ {
			x, y := a[s], a[1-s]
			if y.isC() && y.c.Sign() > 0 && new(big.Int).And(y.c, new(big.Int).Sub(y.c, bigOne)).Sign() == 0 {
				if x.op == "mod" && x.args[1] == y {
					return Add(x, y)
				}
			}
		}
		return rawOp("bigor", "", 0, a...)
	})
	M[bigM+"SetBit"] = setter(3, func(e *Engine, c *callCtx, a []*Term) *Term {
		k, ok1 := a[1].i64()
		b, ok2 := a[2].i64()
		if ok1 && ok2 && k >= 0 {
			lim := CB(pow2(int(k)))
			if b == 1 && c.st.facts.ProveGE0(a[0]) && c.st.facts.ProveGE0(Sub(Sub(lim, C(1)), a[0])) {
				return Add(a[0], lim)
			}
			if a[0].isC() {
				return CB(new(big.Int).SetBit(a[0].c, int(k), uint(b)))
			}
		}
		return rawOp("setbit", "", 0, a...)
	})
	M[bigM+"SetString"] = func(e *Engine, c *callCtx) []*Result {
		s := c.term(1)
		b, ok := c.term(2).i64()
		if s.op == "bytes" && ok {
			v, good := new(big.Int).SetString(s.s, int(b))
			if good {
				e.setBig(c.st, c.ptr(0), CB(v))
				return c.ret(c.args[0], TTrue)
			}
			return c.ret(&Ptr{nilT: TTrue}, TFalse)
		}
		t := rawOp("parseint", "", 0, s, c.term(2))
		return c.cases(rawOp("parseok", "", 0, s, c.term(2)), func(st *State) []Value {
			e.setBig(st, c.ptr(0), t)
			return []Value{c.args[0], TTrue}
		}, func(st *State) []Value { return []Value{&Ptr{nilT: TTrue}, TFalse} })
	}
	getter := func(f func(e *Engine, c *callCtx, v *Term) Value) modelFn {
		return func(e *Engine, c *callCtx) []*Result {
			if !nilCheck(c, e, 0) {
				return nil
			}
			return c.ret(f(e, c, e.bigVal(c.st, c.ptr(0))))
		}
	}
	M[bigM+"Sign"] = getter(func(e *Engine, c *callCtx, v *Term) Value {
		if v.isC() {
			return C(int64(v.c.Sign()))
		}
		return rawOp("cmp", "", 0, v, C(0))
	})
	M[bigM+"BitLen"] = getter(func(e *Engine, c *callCtx, v *Term) Value { return BitLen(v) })
	M[bigM+"Bytes"] = getter(func(e *Engine, c *callCtx, v *Term) Value {
		s := e.allocSeq(c.st, c.site, types.NewSlice(types.Typ[types.Uint8]), Nat(absT(c.st, v)))
		return s
	})
	M[bigM+"Int64"] = getter(func(e *Engine, c *callCtx, v *Term) Value {
		lim := pow2(63)
		if c.st.facts.ProveGE0(Add(v, CB(lim))) && c.st.facts.ProveGE0(Sub(CB(new(big.Int).Sub(lim, bigOne)), v)) {
			return v
		}
		return rawOp("sx", "64", 0, v)
	})
	M[bigM+"Uint64"] = getter(func(e *Engine, c *callCtx, v *Term) Value { return e.wrap(c.st, 64, v) })
	M[bigM+"IsInt64"] = getter(func(e *Engine, c *callCtx, v *Term) Value { return rawOp("isint64", "", 0, v) })
	M[bigM+"IsUint64"] = getter(func(e *Engine, c *callCtx, v *Term) Value { return rawOp("isuint64", "", 0, v) })
	M[bigM+"String"] = getter(func(e *Engine, c *callCtx, v *Term) Value {
		b := rawOp("dec", "", 0, v)
		return SubBase(b, C(0), LenOf(b))
	})
	M[bigM+"Text"] = M[bigM+"String"]
	M[bigM+"Bit"] = getter(func(e *Engine, c *callCtx, v *Term) Value {
		if k, ok := c.term(1).i64(); ok && v.isC() {
			return C(int64(v.c.Bit(int(k))))
		}
		return rawOp("bit", "", 0, v, c.term(1))
	})
	M[bigM+"FillBytes"] = func(e *Engine, c *callCtx) []*Result {
		if !nilCheck(c, e, 0) {
			return nil
		}
		v := absT(c.st, e.bigVal(c.st, c.ptr(0)))
		s := c.slice(1)
		if !e.oblige(c.st, "FillBytes: value fits", Le(NatLen(v), s.len), c.pos) {
			return nil
		}
		if s.obj != nil {
			e.noteWrite(c.st, s.obj, "FillBytes")
			e.writeRange(c.st, s.obj, s.path, s.off, BE(v, s.len))
		}
		return c.ret(s)
	}
	M[bigM+"Cmp"] = func(e *Engine, c *callCtx) []*Result {
		if !nilCheck(c, e, 0, 1) {
			return nil
		}
		a, b := e.bigVal(c.st, c.ptr(0)), e.bigVal(c.st, c.ptr(1))
		if d := Sub(a, b); d.isC() {
			return c.ret(C(int64(d.c.Sign())))
		}
		return c.ret(rawOp("cmp", "", 0, a, b))
	}
	M[bigM+"CmpAbs"] = func(e *Engine, c *callCtx) []*Result {
		if !nilCheck(c, e, 0, 1) {
			return nil
		}
		a, b := absT(c.st, e.bigVal(c.st, c.ptr(0))), absT(c.st, e.bigVal(c.st, c.ptr(1)))
		if d := Sub(a, b); d.isC() {
			return c.ret(C(int64(d.c.Sign())))
		}
		return c.ret(rawOp("cmp", "", 0, a, b))
	}
	// --- elliptic ---------------------------------------------------------
	curveOK := func(e *Engine, c *callCtx, v Value) bool {
		p, ok := v.(*Ptr)
		if ok && p.obj != nil && e.isPkgCurve(c.st, p) {
			return true
		}
		e.unsupported("curve operation on a curve that is not the package curve at %s", e.pos(c.pos))
		return false
	}
	bigArg := func(e *Engine, c *callCtx, i int) *Term { return e.bigVal(c.st, c.ptr(i)) }
	retPt := func(e *Engine, c *callCtx, p *Term) []*Result {
		return c.ret(e.newBig(c.st, c.site+"x", ptX(p)), e.newBig(c.st, c.site+"y", ptY(p)))
	}
	M[curveM+"Params"] = func(e *Engine, c *callCtx) []*Result { return c.ret(c.args[0]) }
	M[curveM+"ScalarBaseMult"] = func(e *Engine, c *callCtx) []*Result {
		curveOK(e, c, c.args[0])
		return retPt(e, c, smul(NatVal(e.bytesOf(c.st, c.args[1]), 0), smG))
	}
	M[curveM+"ScalarMult"] = func(e *Engine, c *callCtx) []*Result {
		curveOK(e, c, c.args[0])
		if !nilCheck(c, e, 1, 2) {
			return nil
		}
		x, y := bigArg(e, c, 1), bigArg(e, c, 2)
		if !e.obligePoint(c, x, y) {
			return nil
		}
		return retPt(e, c, smul(NatVal(e.bytesOf(c.st, c.args[3]), 0), pt(x, y)))
	}
	M[curveM+"Add"] = func(e *Engine, c *callCtx) []*Result {
		curveOK(e, c, c.args[0])
		if !nilCheck(c, e, 1, 2, 3, 4) {
			return nil
		}
		x1, y1, x2, y2 := bigArg(e, c, 1), bigArg(e, c, 2), bigArg(e, c, 3), bigArg(e, c, 4)
		if !e.obligePoint(c, x1, y1) || !e.obligePoint(c, x2, y2) {
			return nil
		}
		return retPt(e, c, padd(pt(x1, y1), pt(x2, y2)))
	}
	M[curveM+"Double"] = func(e *Engine, c *callCtx) []*Result {
		curveOK(e, c, c.args[0])
		if !nilCheck(c, e, 1, 2) {
			return nil
		}
		x, y := bigArg(e, c, 1), bigArg(e, c, 2)
		if !e.obligePoint(c, x, y) {
			return nil
		}
		return retPt(e, c, smul(C(2), pt(x, y)))
	}
	M[curveM+"IsOnCurve"] = func(e *Engine, c *callCtx) []*Result {
		curveOK(e, c, c.args[0])
		if !nilCheck(c, e, 1, 2) {
			return nil
		}
		return c.ret(onCurve(bigArg(e, c, 1), bigArg(e, c, 2)))
	}
	ifaceCurve := func(e *Engine, c *callCtx, i int) {
		iv, ok := c.args[i].(*Iface)
		if ok && iv.typ != nil {
			switch v := iv.val.(type) {
			case *Ptr:
				if p, ok := iv.typ.Underlying().(*types.Pointer); ok {
					if namedIs(p.Elem(), "crypto/elliptic", "CurveParams") {
						curveOK(e, c, v)
						return
					}
					if v.obj != nil {
						sv, ok := e.loadPtr(c.st, v, p.Elem()).(*StructV)
						if ok && len(sv.f) > 0 {
							curveOK(e, c, sv.f[0])
							return
						}
					}
				}
			case *StructV:
				if len(v.f) > 0 {
					curveOK(e, c, v.f[0])
					return
				}
			}
		}
		e.unsupported("curve argument of %s is not the package curve at %s", c.name, e.pos(c.pos))
	}
	M["crypto/elliptic.Marshal"] = func(e *Engine, c *callCtx) []*Result {
		ifaceCurve(e, c, 0)
		if !nilCheck(c, e, 1, 2) {
			return nil
		}
		x, y := bigArg(e, c, 1), bigArg(e, c, 2)
		if !e.obligePoint(c, x, y) {
			return nil
		}
		return c.ret(e.allocSeq(c.st, c.site, types.NewSlice(types.Typ[types.Uint8]), MkSeq(Bytes("\x04"), BE(x, C(32)), BE(y, C(32)))))
	}
	M["crypto/elliptic.Unmarshal"] = func(e *Engine, c *callCtx) []*Result {
		ifaceCurve(e, c, 0)
		d := e.bytesOf(c.st, c.args[1])
		st := c.st
		n := SeqLen(d)
		nilp := &Ptr{nilT: TTrue}
		bad := st.clone()
		lit := rawOp("unmarshalpt", "", 0, d)
		bad.facts = bad.facts.Assume(lit, false)
		st.facts = st.facts.Assume(Eq(n, C(65)), true)
		var out []*Result
		if !st.facts.bot {
			tag := AtSeq(d, C(0), st.facts)
			x := NatVal(subSeqOr(st.facts, d, C(1), C(32)), 0)
			y := NatVal(subSeqOr(st.facts, d, C(33), C(32)), 0)
			st.facts = st.facts.Assume(Eq(tag, C(4)), true).Assume(onCurve(x, y), true).Assume(lit, true)
			if !st.facts.bot {
				out = append(out, &Result{st: st, vals: []Value{e.newBig(st, c.site+"x", x), e.newBig(st, c.site+"y", y)}})
			}
		}
		if !bad.facts.bot {
			out = append(out, &Result{st: bad, vals: []Value{nilp, nilp}})
		}
		return out
	}
	M["crypto/elliptic.GenerateKey"] = func(e *Engine, c *callCtx) []*Result {
		ifaceCurve(e, c, 0)
		rd := e.reify(c.st, c.args[1], types.NewInterfaceType(nil, nil))
		st := c.st
		bad := st.clone()
		d := e.freshTerm(st, "genkey@"+c.site, 0)
		bad.gen = st.gen
		e.event(st, "rand", "generatekey", rd, d)
		st.facts = st.facts.Assume(GE0(Sub(d, C(1))), true).Assume(Lt(d, smN), true)
		p := smul(d, smG)
		bs := types.NewSlice(types.Typ[types.Uint8])
		return []*Result{
			{st: st, vals: []Value{e.allocSeq(st, c.site, bs, BE(d, C(32))), e.newBig(st, c.site+"x", ptX(p)), e.newBig(st, c.site+"y", ptY(p)), nilIface}},
			{st: bad, vals: []Value{e.allocSeq(bad, c.site, bs, SubBase(Sym("partial@"+c.site), C(0), C(32))), &Ptr{nilT: TTrue}, &Ptr{nilT: TTrue}, e.newErr(bad, c.site)}},
		}
	}
	M["crypto/rand.Int"] = func(e *Engine, c *callCtx) []*Result {
		if !nilCheck(c, e, 1) {
			return nil
		}
		rd := e.reify(c.st, c.args[0], types.NewInterfaceType(nil, nil))
		mx := bigArg(e, c, 1)
		if !e.oblige(c.st, "rand.Int: max > 0", GE0(Sub(mx, C(1))), c.pos) {
			return nil
		}
		st := c.st
		bad := st.clone()
		k := e.freshTerm(st, "randint@"+c.site, 0)
		bad.gen = st.gen
		e.event(st, "rand", "int", rd, k, mx)
		e.event(bad, "randfail", "int", rd)
		st.facts = st.facts.Assume(GE0(k), true).Assume(Lt(k, mx), true)
		return []*Result{
			{st: st, vals: []Value{e.newBig(st, c.site, k), nilIface}},
			{st: bad, vals: []Value{&Ptr{nilT: TTrue}, e.newErr(bad, c.site)}},
		}
	}
	readFull := func(e *Engine, c *callCtx) []*Result {
		rd := e.reify(c.st, c.args[0], types.NewInterfaceType(nil, nil))
		s := c.slice(1)
		st := c.st
		bad := st.clone()
		r := e.freshTerm(st, "readfull@"+c.site, 0)
		bad.gen = st.gen
		e.event(st, "rand", "read", rd, r, s.len)
		if s.obj != nil {
			e.noteWrite(st, s.obj, "ReadFull")
			e.writeRange(st, s.obj, s.path, s.off, SubBase(r, C(0), s.len))
			e.writeRange(bad, s.obj, s.path, s.off, SubBase(rawOp("partialread", "", 0, r), C(0), s.len))
		}
		return []*Result{
			{st: st, vals: []Value{s.len, nilIface}},
			{st: bad, vals: []Value{e.freshTerm(bad, "n@"+c.site, 0), e.newErr(bad, c.site)}},
		}
	}
	M["io.ReadFull"] = readFull
	M["crypto/rand.Read"] = func(e *Engine, c *callCtx) []*Result {
		c.args = append([]Value{&Iface{t: Sym("glob:crypto/rand.Reader"), nilT: TFalse}}, c.args...)
		return readFull(e, c)
	}
	// --- errors, formatting ------------------------------------------------
	mkErr := func(e *Engine, c *callCtx) []*Result { return c.ret(e.newErr(c.st, c.site)) }
	M["errors.New"] = mkErr
	M["fmt.Errorf"] = mkErr
	str := func(e *Engine, c *callCtx) []*Result {
		b := rawOp("fmt", c.site, 0)
		return c.ret(SubBase(b, C(0), LenOf(b)))
	}
	M["fmt.Sprintf"] = str
	M["fmt.Sprint"] = str
	M["strconv.Itoa"] = func(e *Engine, c *callCtx) []*Result {
		b := rawOp("itoa", "", 0, c.term(0))
		return c.ret(SubBase(b, C(0), LenOf(b)))
	}
	// --- bytes, bits, binary ------------------------------------------------
	M["bytes.Equal"] = func(e *Engine, c *callCtx) []*Result {
		a, b := e.bytesOf(c.st, c.args[0]), e.bytesOf(c.st, c.args[1])
		return c.ret(seqEqCond(c.st, a, b))
	}
	M["crypto/subtle.ConstantTimeCompare"] = func(e *Engine, c *callCtx) []*Result {
		a, b := e.bytesOf(c.st, c.args[0]), e.bytesOf(c.st, c.args[1])
		return c.cases(seqEqCond(c.st, a, b), func(*State) []Value { return []Value{C(1)} }, func(*State) []Value { return []Value{C(0)} })
	}
	M["crypto/hmac.Equal"] = M["bytes.Equal"]
	M["bytes.Compare"] = func(e *Engine, c *callCtx) []*Result {
		a, b := e.bytesOf(c.st, c.args[0]), e.bytesOf(c.st, c.args[1])
		return c.cases(seqEqCond(c.st, a, b), func(*State) []Value { return []Value{C(0)} }, func(st *State) []Value {
			r := rawOp("bytescmp", "", 0, a, b)
			return []Value{r}
		})
	}
	M["bytes.Repeat"] = func(e *Engine, c *callCtx) []*Result {
		b := e.bytesOf(c.st, c.args[0])
		n := c.term(1)
		if !e.oblige(c.st, "bytes.Repeat: negative count", GE0(n), c.pos) {
			return nil
		}
		var r *Term
		l := SeqLen(b)
		if l.isCi(1) {
			r = Rep(AtSeq(b, C(0), nil), n)
		} else if k, ok := n.i64(); ok && k < 64 {
			var ps []*Term
			for i := int64(0); i < k; i++ {
				ps = append(ps, b)
			}
			r = MkSeq(ps...)
		} else {
			r = SubBase(rawOp("repeat", "", 0, b), C(0), Mul(l, n))
		}
		return c.ret(e.allocSeq(c.st, c.site, types.NewSlice(types.Typ[types.Uint8]), r))
	}
	M["bytes.Clone"] = func(e *Engine, c *callCtx) []*Result {
		return c.ret(e.allocSeq(c.st, c.site, types.NewSlice(types.Typ[types.Uint8]), e.bytesOf(c.st, c.args[0])))
	}
	rot := func(w int) modelFn {
		return func(e *Engine, c *callCtx) []*Result {
			if k, ok := c.term(1).i64(); ok {
				return c.ret(BRot(w, c.term(0), int(k)))
			}
			return c.ret(rawOp("rotl", "", w, c.term(0), c.term(1)))
		}
	}
	M["math/bits.RotateLeft32"] = rot(32)
	M["math/bits.RotateLeft64"] = rot(64)
	M["math/bits.RotateLeft8"] = rot(8)
	M["math/bits.RotateLeft16"] = rot(16)
	for _, rcv := range []string{"(encoding/binary.bigEndian).", "(encoding/binary.littleEndian)."} {
		le := strings.Contains(rcv, "little")
		for _, w := range []int{16, 32, 64} {
			w := w
			nb := int64(w / 8)
			M[rcv+fmt.Sprintf("Uint%d", w)] = func(e *Engine, c *callCtx) []*Result {
				s := c.slice(1)
				if !e.bounds(c.st, C(nb-1), s.len, c.pos) {
					return nil
				}
				if s.obj == nil {
					return nil
				}
				v := subSeqOr(c.st.facts, e.content(c.st, s.obj, s.path), s.off, C(nb))
				if le {
					var ps []*Term
					for i := nb - 1; i >= 0; i-- {
						ps = append(ps, Elem(AtSeq(v, C(i), c.st.facts)))
					}
					v = MkSeq(ps...)
				}
				return c.ret(natW(v, w))
			}
			M[rcv+fmt.Sprintf("PutUint%d", w)] = func(e *Engine, c *callCtx) []*Result {
				s := c.slice(1)
				if !e.bounds(c.st, C(nb-1), s.len, c.pos) {
					return nil
				}
				if s.obj == nil {
					return nil
				}
				v := beW(c.term(2), w)
				if le {
					v = leW(c.term(2), w)
				}
				e.noteWrite(c.st, s.obj, "PutUint")
				e.writeEvent(c.st, "put", s.obj, s.off, v)
				e.writeRange(c.st, s.obj, s.path, s.off, v)
				return c.ret()
			}
		}
	}
	// --- asn1 ----------------------------------------------------------------
	M["encoding/asn1.Marshal"] = func(e *Engine, c *callCtx) []*Result {
		iv, ok := c.args[0].(*Iface)
		if !ok || iv.typ == nil {
			e.unsupported("asn1.Marshal of unknown type")
			return e.external(c, true)
		}
		t := derTerm(e, c.st, iv)
		bs := types.NewSlice(types.Typ[types.Uint8])
		return c.cases(rawOp("derok", "", 0, t), func(st *State) []Value {
			st.facts = st.facts.Assume(GE0(Sub(LenOf(t), C(1))), true)
			return []Value{e.allocSeq(st, c.site, bs, SubBase(t, C(0), LenOf(t))), nilIface}
		}, func(st *State) []Value {
			return []Value{&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}, e.newErr(st, c.site)}
		})
	}
	M["encoding/asn1.MarshalWithParams"] = M["encoding/asn1.Marshal"]
	M["encoding/asn1.Unmarshal"] = func(e *Engine, c *callCtx) []*Result {
		d := e.bytesOf(c.st, c.args[0])
		iv, ok := c.args[1].(*Iface)
		var p *Ptr
		if ok && iv.typ != nil {
			p, _ = iv.val.(*Ptr)
		}
		if p == nil || p.obj == nil {
			e.unsupported("asn1.Unmarshal into unknown value at %s", e.pos(c.pos))
			return e.external(c, true)
		}
		typ := iv.typ.Underlying().(*types.Pointer).Elem()
		val := rawOp("undec", shapeOf(typ), 0, d)
		rest := rawOp("derrest", shapeOf(typ), 0, d)
		restLen := LenOf(rest)
		var restSeq *Term
		if e.decodeHook != nil {
			val, restSeq = e.decodeHook(d, typ, val)
			if restSeq != nil {
				restLen = SeqLen(restSeq)
			}
		}
		return c.cases(rawOp("undecok", shapeOf(typ), 0, d), func(st *State) []Value {
			e.noteWrite(st, p.obj, "asn1.Unmarshal target")
			if p.idx == nil {
				e.storeAt(st, p.obj, p.path, typ, e.undecValue(val, typ))
			} else {
				e.storePtr(st, p, e.fromTerm(val, typ), typ, c.pos)
			}
			st.facts = st.facts.Assume(GE0(Sub(SeqLen(d), C(1))), true)
			np := map[string]string{}
			for a, b := range st.pend {
				np[a] = b
			}
			site := fmt.Sprintf("%s@%s", e.curFn(), c.site)
			np["rest:"+fmt.Sprint(restLen.id)] = site
			e.pendTerms[restLen.id] = restLen
			st.pend = np
			e.at = c.pos
			e.event(st, "unmarshal", site+"|"+typeStr(typ), restLen, d, rawOp("dec", shapeOf(typ), 0, d))
			if restSeq != nil {
				return []Value{e.fromTerm(restSeq, types.NewSlice(types.Typ[types.Uint8])), nilIface}
			}
			sl := &Slice{off: C(0), len: LenOf(rest), cap: LenOf(rest), nilT: rawOp("isnil", fmt.Sprint(rest.id), 0, LenOf(rest))}
			sl.obj = e.objOf("of:"+rest.key(), types.NewSlice(types.Typ[types.Uint8]))
			sl.obj.sym = rest
			sl.obj.n = LenOf(rest)
			if s, ok := c.args[0].(*Slice); ok && s.obj != nil {
				sl.obj.root = s.obj.root
			}
			return []Value{sl, nilIface}
		}, func(st *State) []Value {
			e.noteWrite(st, p.obj, "asn1.Unmarshal target")
			if p.idx == nil {
				e.storeAt(st, p.obj, p.path, typ, e.fromTerm(rawOp("undecpart", shapeOf(typ), 0, d), typ))
			}
			return []Value{&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}, e.newErr(st, c.site)}
		})
	}
	M["(encoding/asn1.ObjectIdentifier).Equal"] = func(e *Engine, c *callCtx) []*Result {
		a, b := e.bytesOf(c.st, c.args[0]), e.bytesOf(c.st, c.args[1])
		return c.ret(seqEqCond(c.st, a, b))
	}
	M["(encoding/asn1.BitString).RightAlign"] = func(e *Engine, c *callCtx) []*Result {
		sv, ok := c.args[0].(*StructV)
		if !ok {
			return e.external(c, true)
		}
		b := e.bytesOf(c.st, sv.f[0])
		n := sv.f[1].(*Term)
		if al := c.st.facts.Eval(EQ0(FMod(n, 8))); al == 1 || b == EmptySeq {
			return c.ret(sv.f[0])
		}
		t := rawOp("rightalign", "", 0, b, n)
		return c.ret(e.fromTerm(SubBase(t, C(0), SeqLen(b)), types.NewSlice(types.Typ[types.Uint8])))
	}
	// --- cipher modes -----------------------------------------------------------
	for _, dir := range []string{"Encrypter", "Decrypter"} {
		dir := dir
		M["crypto/cipher.NewCBC"+dir] = func(e *Engine, c *callCtx) []*Result {
			iv := c.slice(1)
			if !e.oblige(c.st, "CBC iv length", Eq(iv.len, C(16)), c.pos) {
				return nil
			}
			// the mode object: the block cipher, the direction and the
			// current chaining block
			o := e.alloc(c.st, c.site, types.NewInterfaceType(nil, nil))
			e.modes[o] = cbcMode{dir, c.args[0]}
			c.st.mem[cell{o, "iv"}] = cellV{e.sliceSeq(c.st, iv), types.Typ[types.String]}
			return c.ret(&Iface{t: rawOp("cbc", o.key, 0), val: &Ptr{obj: o, nilT: TFalse}, nilT: TFalse})
		}
	}
	M["invoke.cipher.BlockMode.CryptBlocks"] = func(e *Engine, c *callCtx) []*Result {
		iv := c.args[0].(*Iface)
		p, _ := iv.val.(*Ptr)
		if p == nil || iv.t == nil || iv.t.op != "cbc" {
			return e.external(c, false)
		}
		m, prev := e.modes[p.obj], c.st.mem[cell{p.obj, "iv"}]
		d, s := c.slice(1), c.slice(2)
		if !e.oblige(c.st, "CryptBlocks: full blocks", EQ0(FMod(s.len, 16)), c.pos) ||
			!e.oblige(c.st, "CryptBlocks: output long enough", Le(s.len, d.len), c.pos) {
			return nil
		}
		in := e.sliceSeq(c.st, s)
		blk, _ := m.blk.(*Iface)
		if !s.len.isC() || prev.v == nil || blk == nil || blk.typ == nil {
			b := e.reify(c.st, m.blk, types.NewInterfaceType(nil, nil))
			var at []*Term
			if prev.v != nil {
				at = append(at, prev.v.(*Term))
			}
			out := SubBase(rawOp("cbc", m.dir, 0, append(append(at, b), in)...), C(0), s.len)
			delete(c.st.mem, cell{p.obj, "iv"})
			if d.obj != nil {
				e.noteWrite(c.st, d.obj, "CryptBlocks")
				e.writeRange(c.st, d.obj, d.path, d.off, out)
			}
			return c.ret()
		}
		// block by block through the cipher's own method
		name := map[string]string{"Encrypter": "Encrypt", "Decrypter": "Decrypt"}[m.dir]
		fn := e.prog.LookupMethod(blk.typ, nil, name)
		if fn == nil {
			return e.external(c, false)
		}
		bs := types.NewSlice(types.Typ[types.Uint8])
		xor := func(a, b *Term) *Term {
			var ps []*Term
			for j := int64(0); j < 4; j++ {
				w := func(s *Term) *Term { return NatVal(subSeq(c.st.facts, s, C(4*j), C(4)), 32) }
				ps = append(ps, BE(BXor(32, w(a), w(b)), C(4)))
			}
			return MkSeq(ps...)
		}
		st, pv := c.st, prev.v.(*Term)
		outs := []*Term{}
		for i := int64(0); i < s.len.c.Int64(); i += 16 {
			x := subSeq(st.facts, in, C(i), C(16))
			y := x
			if m.dir == "Encrypter" {
				y = xor(x, pv)
			}
			src := e.allocSeq(st, fmt.Sprintf("%s.in%d", c.site, i), bs, y)
			dst := e.allocSeq(st, fmt.Sprintf("%s.out%d", c.site, i), bs, Rep(C(0), C(16)))
			cc := *c
			cc.st, cc.args, cc.recv = st, []Value{blk.val, dst, src}, blk.typ
			rs := e.callFunc(&cc, fn, nil)
			if len(rs) != 1 {
				e.unsupported("block cipher with %d exits", len(rs))
				return nil
			}
			st = rs[0].st
			z := e.sliceSeq(st, dst)
			if m.dir == "Encrypter" {
				pv = z
			} else {
				z, pv = xor(z, pv), x
			}
			outs = append(outs, z)
		}
		st.mem[cell{p.obj, "iv"}] = cellV{pv, types.Typ[types.String]}
		if d.obj != nil {
			e.noteWrite(st, d.obj, "CryptBlocks")
			e.writeRange(st, d.obj, d.path, d.off, MkSeq(outs...))
		}
		return []*Result{{st: st, vals: nil}}
	}
	M["crypto/rand.Reader"] = nil
	delete(M, "crypto/rand.Reader")
	// --- strings etc.: pure functions with known result types -----------------------
	strModels(M)
	M["(time.Time).Year"] = func(e *Engine, c *callCtx) []*Result {
		return c.ret(rawOp("ext", "time.Year", 0, e.reify(c.st, c.args[0], c.sig.Recv().Type())))
	}
	M["(time.Time).Format"] = func(e *Engine, c *callCtx) []*Result {
		b := rawOp("ext", "time.Format", 0, e.reify(c.st, c.args[0], c.sig.Recv().Type()), e.bytesOf(c.st, c.args[1]))
		c.st.facts = c.st.facts.Assume(GE0(LenOf(b)), true).Assume(Le(LenOf(b), C(4096)), true)
		return c.ret(SubBase(b, C(0), LenOf(b)))
	}
	M["time.Now"] = nil
	delete(M, "time.Now")
}

func CBoolInt(b bool) *Term {
	if b {
		return C(1)
	}
	return C(0)
}

func fdivBig(a *Term, k *big.Int) *Term {
	if k.IsInt64() {
		return FDiv(a, k.Int64())
	}
	if a.isC() {
		return CB(new(big.Int).Div(a.c, k))
	}
	return rawOp("bigdiv", "", 0, a, CB(k))
}

// natW: big-endian value of w/8 bytes as a w bit integer.
func natW(s *Term, w int) *Term {
	if s.op == "be" && s.args[0].w == w {
		return s.args[0]
	}
	return NatVal(s, w)
}

func beW(v *Term, w int) *Term {
	n := int64(w / 8)
	if v.isC() {
		return BE(Wrap(w, v), C(n))
	}
	if v.op == "natval" {
		if l, ok := SeqLen(v.args[0]).i64(); ok && l <= n {
			return MkSeq(Rep(C(0), C(n-l)), v.args[0])
		}
	}
	return BE(v, C(n))
}

func leW(v *Term, w int) *Term {
	var ps []*Term
	for i := 0; i < w/8; i++ {
		ps = append(ps, Elem(ByteAt(v, i)))
	}
	return MkSeq(ps...)
}

func seqEqCond(st *State, a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	la, lb := SeqLen(a), SeqLen(b)
	if st.facts.Eval(Eq(la, lb)) == -1 {
		return TFalse
	}
	if la.isCi(0) || lb.isCi(0) {
		return Eq(la, lb)
	}
	return SeqEq(a, b)
}

// isPkgCurve: the pointer is the CurveParams pointer of the package curve.
func (e *Engine) isPkgCurve(st *State, p *Ptr) bool {
	if p.path != "" || p.idx != nil {
		return false
	}
	return p.obj.key == "pkgcurve" || (e.curveObj != nil && p.obj == e.curveObj)
}

// ---- DER shapes -----------------------------------------------------------------

// shapeOf names the DER structure encoding/asn1 derives from a Go type.
func shapeOf(t types.Type) string { return shape(t, 0) }
func shape(t types.Type, d int) string {
	if d > 12 {
		return "..."
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		switch q {
		case "encoding/asn1.BitString":
			return "BIT"
		case "encoding/asn1.ObjectIdentifier":
			return "OID"
		case "encoding/asn1.RawValue":
			return "RAW"
		case "encoding/asn1.RawContent":
			return "RAWCONTENT"
		case "encoding/asn1.Enumerated":
			return "ENUM"
		case "encoding/asn1.Flag":
			return "FLAG"
		case "time.Time":
			return "TIME"
		case "math/big.Int":
			return "INT"
		}
		if _, ok := n.Underlying().(*types.Slice); ok && strings.HasSuffix(n.Obj().Name(), "SET") {
			return "SETOF(" + shape(elemType(n), d+1) + ")"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return shape(u.Elem(), d)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "STR"
		case u.Info()&types.IsBoolean != 0:
			return "BOOL"
		}
		return "INT"
	case *types.Slice:
		if isByte(u.Elem()) {
			return "OCT"
		}
		return "SEQOF(" + shape(u.Elem(), d+1) + ")"
	case *types.Struct:
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			s := shape(u.Field(i).Type(), d+1)
			if tg := asn1Tag(u.Tag(i)); tg != "" {
				s = "[" + tg + "]" + s
			}
			fs = append(fs, s)
		}
		return "SEQ(" + strings.Join(fs, ",") + ")"
	case *types.Interface:
		return "ANY"
	}
	return typeStr(t)
}

func asn1Tag(tag string) string {
	i := strings.Index(tag, `asn1:"`)
	if i < 0 {
		return ""
	}
	tag = tag[i+6:]
	j := strings.Index(tag, `"`)
	if j < 0 {
		return ""
	}
	return tag[:j]
}

// derTerm: the DER encoding of a value, by shape and content.
func derTerm(e *Engine, st *State, iv *Iface) *Term {
	t := iv.typ
	v := iv.val
	if p, ok := v.(*Ptr); ok && !isBigIntPtr(t) && p.obj != nil {
		pt := t.Underlying().(*types.Pointer)
		v = e.loadPtr(st, p, pt.Elem())
		t = pt.Elem()
	}
	return rawOp("der", shapeOf(t), 0, derVal(e, st, v, t))
}

func derVal(e *Engine, st *State, v Value, t types.Type) *Term {
	if sv, ok := v.(*StructV); ok {
		s := sv.typ.Underlying().(*types.Struct)
		var a []*Term
		for i := range sv.f {
			a = append(a, derVal(e, st, sv.f[i], s.Field(i).Type()))
		}
		return rawOp("struct", shapeOf(t), 0, a...)
	}
	if p, ok := v.(*Ptr); ok && p.obj != nil {
		if isBigIntPtr(t) {
			return rawOp("bigp", "", 0, e.bigVal(st, p))
		}
		pt := t.Underlying().(*types.Pointer)
		return derVal(e, st, e.loadPtr(st, p, pt.Elem()), pt.Elem())
	}
	if iv, ok := v.(*Iface); ok && iv.typ != nil {
		return rawOp("iface", shapeOf(iv.typ), 0, derVal(e, st, iv.val, iv.typ))
	}
	return e.reify(st, v, t)
}

// undecValue: a decoded structure.  Integers decoded as *big.Int are never nil.
func (e *Engine) undecValue(t *Term, typ types.Type) Value { return e.fromTerm(t, typ) }

var _ = token.NoPos
var _ ssa.Value
