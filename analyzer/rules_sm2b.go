package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldVal loads a field of a struct the k-th result points to.
func (x *Exit) fieldVal(k int, name string) Value {
	p, ok := x.vals[k].(*Ptr)
	if !ok || p.obj == nil {
		return nil
	}
	pt, ok := x.r.fn.Signature.Results().At(k).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	sv, ok := x.r.e.loadPtr(x.st, p, pt.Elem()).(*StructV)
	if !ok {
		return nil
	}
	s := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return sv.f[i]
		}
	}
	return nil
}

func (x *Exit) seqOf(v Value) *Term {
	switch t := v.(type) {
	case *Slice:
		return x.r.e.sliceSeq(x.st, t)
	case *Term:
		return t
	case *ArrV:
		return t.seq
	}
	return nil
}

func (x *Exit) bigOf(v Value) *Term {
	if p, ok := v.(*Ptr); ok && p.obj != nil {
		return x.r.e.bigVal(x.st, p)
	}
	return nil
}

func (x *Exit) bigField(k int, name string) *Term { return x.bigOf(x.fieldVal(k, name)) }

// isPkgCurveVal: v is the curve of the package.
func (x *Exit) isCurve(v Value) bool {
	sv, ok := v.(*StructV)
	return ok && x.r.e.curveVal != nil && sameVal(sv, x.r.e.curveVal)
}

func pts(x, y *Term) *Term { return MkSeq(BE(x, C(32)), BE(y, C(32))) }

// layouts: the layout selector values.
const (
	oldLayout = 1 // C1 C2 C3
	newLayout = 2 // C1 C3 C2
)

func layoutOf(F *Facts, sel *Term) int {
	for _, k := range []int64{oldLayout, newLayout} {
		if F.Eval(Eq(sel, C(k))) == 1 {
			return int(k)
		}
	}
	return 0
}

// splitLayout decides the selector.
func splitLayout(F *Facts, sel *Term) []*Facts {
	return splitAll(F, Eq(sel, C(oldLayout)), Eq(sel, C(newLayout)))
}

// cannotBe: for every known layout the facts contradict the conditions.
func cannotBe(F *Facts, sel *Term, conds func(layout int) []*Term) bool {
	for _, k := range []int{oldLayout, newLayout} {
		cs := append([]*Term{Eq(sel, C(int64(k)))}, conds(k)...)
		if !contradicts(F, cs...) {
			return false
		}
	}
	return true
}

func (c *Check) errorsReturnNothing(rule string, r *Run, x *Exit, errF *Facts) {
	for k := 0; k < len(x.vals)-1; k++ {
		c.ob(rule, fmt.Sprintf("%s result %d", r.name, k), c.at(r.fn), x.nothing(errF, k), "an error is returned together with "+x.show(k))
	}
}

// ---- decryption --------------------------------------------------------------

type decCtx struct {
	x1, y1, c2, c3, s, x2, y2, m, h *Term
}

func decOracle(in, d *Term, layout int) *decCtx {
	n := SeqLen(in)
	base := in.args[0]
	o := &decCtx{}
	o.x1 = NatVal(SubBase(base, C(1), C(32)), 0)
	o.y1 = NatVal(SubBase(base, C(33), C(32)), 0)
	l2 := Sub(n, C(97))
	if layout == oldLayout {
		o.c2 = SubBase(base, C(65), l2)
		o.c3 = SubBase(base, Sub(n, C(32)), C(32))
	} else {
		o.c3 = SubBase(base, C(65), C(32))
		o.c2 = SubBase(base, C(97), l2)
	}
	o.s = smul(d, pt(o.x1, o.y1))
	o.x2, o.y2 = BE(ptX(o.s), C(32)), BE(ptY(o.s), C(32))
	o.m = XorSeq(o.c2, keyStream(MkSeq(o.x2, o.y2), l2))
	o.h = sm3Of(MkSeq(o.x2, o.m, o.y2))
	return o
}

func checkDecryption(c *Check) {
	c.explain = "Decrypt is interpreted abstractly on a symbolic key and ciphertext. On every exit without error the facts of the path must entail that C1 is a curve point and that C3 equals the recomputed digest, and the bytes returned must be C2 xor the key stream of d*C1; every exit with an error must return no bytes and must contradict the validity of the ciphertext."
	c.rule("authenticated", "plaintext is returned only when C3 = SM3(x2||M||y2) for the M returned")
	c.rule("on-curve", "plaintext is returned only when C1 is an uncompressed curve point")
	c.rule("plaintext", "the bytes returned are C2 xor KDF(x2||y2)")
	c.rule("layout", "plaintext is returned only for a known layout selector")
	c.rule("no-result", "an exit with an error returns no bytes")
	c.rule("accepts-all", "an exit with an error contradicts the validity of the ciphertext")
	e := c.engine(true)
	e.wellFormed()
	r := c.run(e, "sm2", "Decrypt", privPre("0"))
	if !r.ok {
		return
	}
	c.successExits(r, "plaintext")
	in, d, sel := r.seqArg(1), r.fieldOf(0, "D"), r.arg(2)
	valid := func(k int) []*Term {
		o := decOracle(in, d, k)
		return []*Term{Le(C(97), SeqLen(in)), Eq(AtBase(in.args[0], C(0), 8), C(4)), onCurve(o.x1, o.y1), SeqEq(o.c3, o.h)}
	}
	for _, x := range r.ex {
		okF, errF := x.errCases()
		if errF != nil {
			c.errorsReturnNothing("no-result", r, x, errF)
			ok := true
			for _, k := range []int{oldLayout, newLayout} {
				F := errF.Assume(Eq(sel, C(int64(k))), true)
				if F.bot {
					continue
				}
				o := decOracle(in, d, k)
				F = canonHash(F, o.h)
				if !contradicts(F, valid(k)...) {
					ok = false
				}
			}
			c.ob("accepts-all", r.name, c.at(r.fn), ok, "an error is returned although the ciphertext may be valid: "+x.when(errF))
		}
		if okF == nil {
			continue
		}
		for _, F := range splitLayout(okF, sel) {
			k := layoutOf(F, sel)
			if !c.ob("layout", r.name, c.at(r.fn), k != 0, "plaintext is returned for an unknown layout: "+x.when(F)) {
				continue
			}
			F = F.Assume(Le(C(97), SeqLen(in)), true)
			if F.bot {
				continue
			}
			o := decOracle(in, d, k)
			G := canonHash(F, o.h)
			c.ob("on-curve", r.name+": length", c.at(r.fn), x.F.Eval(Le(C(97), SeqLen(in))) == 1, "plaintext is returned for a ciphertext that may be shorter than 97 bytes: "+x.when(F))
			c.ob("on-curve", r.name, c.at(r.fn), F.Eval(onCurve(o.x1, o.y1)) == 1 && F.Eval(Eq(AtBase(in.args[0], C(0), 8), C(4))) == 1, "plaintext is returned although C1 may not be an uncompressed curve point: "+x.when(F))
			out := x.bytes(0)
			c.ob("plaintext", r.name, c.at(r.fn), out != nil && same(G, canonTerm(G, out, o.h), o.m), "the bytes returned are "+x.show(0))
			c.ob("authenticated", r.name, c.at(r.fn), G.Eval(SeqEq(o.c3, o.h)) == 1 || seqEqHolds(G, o.c3, o.h), "plaintext is returned although C3 is not known to equal SM3(x2||M||y2): "+x.when(F))
		}
	}
}

// seqEqHolds looks for a content equality that states a = b up to F.
func seqEqHolds(F *Facts, a, b *Term) bool {
	for _, cj := range F.conjuncts() {
		if cj.op == "seqeq" {
			p, q := cj.args[0], cj.args[1]
			if same(F, p, a) && same(F, q, b) || same(F, p, b) && same(F, q, a) {
				return true
			}
		}
	}
	return false
}

// ---- encryption ------------------------------------------------------------------

type encCtx struct {
	c1, c2, c3, s *Term
}

func encOracle(k, px, py, in *Term) *encCtx {
	o := &encCtx{}
	g := smul(k, smG)
	o.c1 = MkSeq(Bytes("\x04"), pts(ptX(g), ptY(g)))
	o.s = smul(k, pt(px, py))
	x2, y2 := BE(ptX(o.s), C(32)), BE(ptY(o.s), C(32))
	o.c2 = XorSeq(in, keyStream(MkSeq(x2, y2), SeqLen(in)))
	o.c3 = sm3Of(MkSeq(x2, in, y2))
	return o
}

func (o *encCtx) layout(k int) *Term {
	if k == oldLayout {
		return MkSeq(o.c1, o.c2, o.c3)
	}
	return MkSeq(o.c1, o.c3, o.c2)
}

func encRun(c *Check) (*Run, *Engine) {
	e := c.engine(true)
	e.wellFormed()
	return c.run(e, "sm2", "Encrypt", pubPre("0")), e
}

func checkEncryption(c *Check) {
	c.explain = "Encrypt is interpreted abstractly on a symbolic public key and plaintext; the retry loop is generalised with invariants. On every exit without error the nonce is traced to its draw and C1, C2 and C3 inside the result are compared with the standard for that nonce, the key stream in closed form over all block numbers."
	c.rule("nonce", "the nonce is drawn uniformly from [1,n-1] from crypto/rand.Reader in the attempt that produced the ciphertext")
	c.rule("formula", "C1 = kG, C2 = M xor KDF(x2||y2) and C3 = SM3(x2||M||y2) with (x2,y2) = kP for that nonce")
	c.rule("masked", "a non-empty plaintext is never returned unmasked")
	c.rule("retry", "every further attempt draws fresh randomness, and all other loops are bounded")
	c.rule("no-result", "an exit with an error returns no bytes")
	c.rule("refuses-only", "an error is returned only for a public key off the curve, an unknown layout or a failing random source")
	r, _ := encRun(c)
	if !r.ok {
		return
	}
	c.successExits(r, "formula")
	r.loopsEnd("retry")
	px, py, in, sel := r.fieldOf(0, "X"), r.fieldOf(0, "Y"), r.seqArg(1), r.arg(2)
	for _, x := range r.ex {
		okF, errF := x.errCases()
		if errF != nil {
			c.errorsReturnNothing("no-result", r, x, errF)
			c.ob("refuses-only", r.name, c.at(r.fn), randError(x) || cannotBe(errF, sel, func(int) []*Term { return []*Term{onCurve(px, py)} }),
				"an error is returned although the public key and the layout may be valid and the random source has not failed: "+x.when(errF))
		}
		if okF == nil {
			continue
		}
		out := x.bytes(0)
		if out == nil {
			c.fail("formula", r.name, c.at(r.fn), "the result is "+x.show(0))
			continue
		}
		cand := nonceCands(out)
		if len(cand) != 1 {
			c.fail("nonce", r.name, c.at(r.fn), fmt.Sprintf("the ciphertext depends on %d random scalars: %s", len(cand), cutMid(out.String(), 500)))
			continue
		}
		k := cand[0]
		o := encOracle(k, px, py, in)
		for _, F := range splitLayout(okF, sel) {
			lay := layoutOf(F, sel)
			if lay == 0 {
				lay = newLayout // reported by the layout property
			}
			why := r.drawn(F, k, sysRand)
			c.ob("nonce", r.name, c.at(r.fn), why == "", why)
			G := canonHash(F, o.c3)
			got := canonTerm(G, out, o.c3)
			c.ob("formula", r.name, c.at(r.fn), same(G, got, o.layout(lay)), "the ciphertext is "+cutMid(got.String(), 900))
			c.ob("masked", r.name, c.at(r.fn), contradicts(G, Le(C(1), SeqLen(in)), SeqEq(o.c2, in)), "the plaintext may be returned unmasked: "+x.when(F))
		}
	}
}

// ---- layouts -----------------------------------------------------------------

const cipherShape = "SEQ(INT,INT,OCT,OCT)"

func checkLayouts(c *Check) {
	c.explain = "The exits of Encrypt, Decrypt, MarshalCipher and UnmarshalCipher are compared with one layout: raw 04||x1||y1||C2||C3 (selector 1) or 04||x1||y1||C3||C2 (selector 2), DER SEQUENCE of x1, y1 and the two byte strings in the same order. Since both conversions are established exactly for all inputs, their composition is the identity."
	c.rule("encrypt", "Encrypt writes C1, C2, C3 in the order the selector asks for")
	c.rule("decrypt", "Decrypt takes C2 and C3 from the places the selector asks for")
	c.rule("to-der", "MarshalCipher encodes exactly the fields of the raw form in order, for every raw form of at least 97 bytes that starts with 04")
	c.rule("from-der", "UnmarshalCipher writes exactly the decoded fields, coordinates as 32 bytes, in order")
	c.rule("selector", "all four return an error for an unknown selector")
	e := c.engine(true)
	e.wellFormed()
	sel4 := func(r *Run, k int) {
		if !r.ok {
			return
		}
		for _, x := range r.ex {
			okF, _ := x.errCases()
			if okF == nil {
				continue
			}
			for _, F := range splitLayout(okF, r.arg(k)) {
				c.ob("selector", r.name, c.at(r.fn), layoutOf(F, r.arg(k)) != 0, "a result is returned for an unknown layout: "+x.when(F))
			}
		}
	}
	r := c.run(e, "sm2", "Encrypt", pubPre("0"))
	sel4(r, 2)
	if r.ok {
		c.successExits(r, "encrypt")
		px, py, in := r.fieldOf(0, "X"), r.fieldOf(0, "Y"), r.seqArg(1)
		for _, x := range r.ex {
			okF, _ := x.errCases()
			if okF == nil {
				continue
			}
			out := x.bytes(0)
			if out == nil {
				c.fail("encrypt", r.name, c.at(r.fn), "the result is "+x.show(0))
				continue
			}
			for _, F := range splitLayout(okF, r.arg(2)) {
				lay := layoutOf(F, r.arg(2))
				if lay == 0 {
					continue
				}
				ok := false
				for _, k := range nonceCands(out) {
					o := encOracle(k, px, py, in)
					G := canonHash(F, o.c3)
					ok = ok || sameShape(G, canonTerm(G, out, o.c3), lay, in)
				}
				c.ob("encrypt", fmt.Sprintf("%s layout %d", r.name, lay), c.at(r.fn), ok, "the ciphertext is "+cutMid(out.String(), 900))
			}
		}
	}
	r = c.run(e, "sm2", "Decrypt", privPre("0"))
	sel4(r, 2)
	if r.ok {
		c.successExits(r, "decrypt")
		for _, x := range r.ex {
			okF, _ := x.errCases()
			if okF == nil {
				continue
			}
			out := x.bytes(0)
			for _, F := range splitLayout(okF, r.arg(2)) {
				lay := layoutOf(F, r.arg(2))
				if lay == 0 || out == nil {
					continue
				}
				o := decOracle(r.seqArg(1), r.fieldOf(0, "D"), lay)
				F = F.Assume(Le(C(97), SeqLen(r.seqArg(1))), true)
				if F.bot {
					continue
				}
				ok := F.ProveGE0(Neg(SeqLen(o.c2))) || mentions(F, out, o.c2)
				c.ob("decrypt", fmt.Sprintf("%s layout %d: C2", r.name, lay), c.at(r.fn), ok, "the plaintext is "+cutMid(out.String(), 700))
				ok = false
				for _, cj := range F.conjuncts() {
					if cj.op == "seqeq" && (same(F, cj.args[0], o.c3) || same(F, cj.args[1], o.c3)) {
						ok = true
					}
				}
				c.ob("decrypt", fmt.Sprintf("%s layout %d: C3", r.name, lay), c.at(r.fn), ok, "no comparison with C3 of this layout on the path "+x.when(F))
			}
		}
	}
	r = c.run(e, "sm2", "MarshalCipher", nil)
	sel4(r, 1)
	if r.ok {
		c.successExits(r, "to-der")
		in, sel := r.seqArg(0), r.arg(1)
		for _, x := range r.ex {
			okF, errF := x.errCases()
			if errF != nil {
				ok := derError(errF) || cannotBe(errF, sel, func(int) []*Term { return []*Term{Le(C(97), SeqLen(in)), Eq(AtBase(in.args[0], C(0), 8), C(4))} })
				c.ob("to-der", r.name+": refuses only malformed input", c.at(r.fn), ok, "an error is returned for a well-formed ciphertext: "+x.when(errF))
				c.errorsReturnNothing("to-der", r, x, errF)
			}
			if okF == nil {
				continue
			}
			for _, F := range splitLayout(okF, sel) {
				lay := layoutOf(F, sel)
				if lay == 0 {
					continue
				}
				_, good := allOf(F, Le(C(97), SeqLen(in)), Eq(AtBase(in.args[0], C(0), 8), C(4)))
				c.ob("to-der", r.name+": accepts only well-formed input", c.at(r.fn), good, "a result is returned although the input may be shorter than 97 bytes or not start with 04: "+x.when(F))
				if !good {
					continue
				}
				o := decOracle(in, C(1), lay)
				want := []*Term{o.x1, o.y1, o.c2, o.c3}
				if lay == newLayout {
					want[2], want[3] = want[3], want[2]
				}
				got := derFields(x.bytes(0), cipherShape)
				ok := got != nil
				for i := range want {
					if ok && !same(F, got[i], want[i]) {
						ok = false
					}
				}
				c.ob("to-der", fmt.Sprintf("%s layout %d", r.name, lay), c.at(r.fn), ok, "the DER form is "+x.show(0))
			}
		}
	}
	r = c.run(e, "sm2", "UnmarshalCipher", nil)
	sel4(r, 1)
	if r.ok {
		c.successExits(r, "from-der")
		in, sel := r.seqArg(0), r.arg(1)
		u := rawOp("undec", cipherShape, 0, in)
		okT := rawOp("undecok", cipherShape, 0, in)
		rest := LenOf(rawOp("derrest", cipherShape, 0, in))
		fx, fy := rawOp("fld", "#0", 0, u), rawOp("fld", "#1", 0, u)
		octs := func(i int) *Term {
			t := rawOp("fld", fmt.Sprintf("#%d", i), 0, u)
			return SubBase(t, C(0), LenOf(t))
		}
		parts := func(lay int) (c2, c3 *Term) {
			if lay == oldLayout {
				return octs(2), octs(3)
			}
			return octs(3), octs(2)
		}
		valid := func(lay int) []*Term {
			_, c3 := parts(lay)
			return []*Term{okT, EQ0(rest), GE0(fx), GE0(fy), Lt(fx, pow256()), Lt(fy, pow256()), Eq(SeqLen(c3), C(32))}
		}
		for _, x := range r.ex {
			okF, errF := x.errCases()
			if errF != nil {
				c.ob("from-der", r.name+": refuses only malformed input", c.at(r.fn), cannotBe(errF, sel, valid), "an error is returned for a well-formed DER ciphertext: "+x.when(errF))
				c.errorsReturnNothing("from-der", r, x, errF)
			}
			if okF == nil {
				continue
			}
			for _, F := range splitLayout(okF, sel) {
				lay := layoutOf(F, sel)
				if lay == 0 {
					continue
				}
				bad, good := allOf(F, valid(lay)...)
				c.ob("from-der", r.name+": accepts only well-formed input", c.at(r.fn), good, fmt.Sprintf("a result is returned without establishing %v: %s", bad, x.when(F)))
				c2, c3 := parts(lay)
				want := MkSeq(Bytes("\x04"), pts(fx, fy), c2, c3)
				if lay == newLayout {
					want = MkSeq(Bytes("\x04"), pts(fx, fy), c3, c2)
				}
				out := x.bytes(0)
				c.ob("from-der", fmt.Sprintf("%s layout %d", r.name, lay), c.at(r.fn), out != nil && same(F, out, want), "the raw form is "+x.show(0))
			}
		}
	}
}

// sameShape: the ciphertext consists of a 65 byte point, and C2 and C3 in the
// order of the layout, whatever their content.
func sameShape(F *Facts, out *Term, lay int, in *Term) bool {
	ps := pieces(normSeq(F, out))
	n := SeqLen(in)
	// offsets of the digest piece
	pos := C(0)
	for _, p := range ps {
		l := PieceLen(p)
		if p.op == "sub" && p.args[0].op == "sm3" && l.isCi(32) {
			want := C(65)
			if lay == oldLayout {
				want = Add(C(65), n)
			}
			if same(F, pos, want) {
				return same(F, SeqLen(out), Add(n, C(97)))
			}
		}
		pos = Add(pos, l)
	}
	return false
}

func mentions(F *Facts, t, s *Term) bool {
	f := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x == s || x.op == s.op && x.s == s.s && len(x.args) > 0 && len(x.args) == len(s.args) && x.args[0] == s.args[0] && same(F, x, s) {
			f = true
		}
	})
	return f
}

// ---- totality ------------------------------------------------------------------

// exportedFuncs lists the exported functions and methods of a package.
func (c *Check) exportedFuncs(pkg string) []string {
	p := c.ld.pkg(pkg)
	if p == nil {
		return nil
	}
	var out []string
	sc := p.types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch x := o.(type) {
		case *types.Func:
			out = append(out, n)
		case *types.TypeName:
			nt, ok := x.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				m := nt.Method(i)
				if !m.Exported() {
					continue
				}
				if _, ptr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
					out = append(out, "(*"+n+")."+m.Name())
				} else {
					out = append(out, n+"."+m.Name())
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// keysPre assumes all key parameters well formed.
func keysPre(fn *ssa.Function) func(e *Engine, st *State, a map[string]*Term) {
	return func(e *Engine, st *State, a map[string]*Term) {
		for i, p := range fn.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			n, ok := types.Unalias(pt.Elem()).(*types.Named)
			if !ok {
				continue
			}
			switch n.Obj().Name() {
			case "PublicKey":
				pubPre(fmt.Sprint(i))(e, st, a)
			case "PrivateKey":
				privPre(fmt.Sprint(i))(e, st, a)
			}
		}
	}
}

func checkTotal(c *Check) {
	c.explain = "Every exported function and method of package sm2 is interpreted abstractly with arbitrary byte strings, integers, selectors and flags and with well-formed keys (non-nil, scalar in [1,n-1], coordinates of at most 256 bits, not necessarily on the curve). Every index, slice, length, nil, division, type assertion and library precondition (points on the curve, allocation sizes) on every path is an obligation."
	c.rule("no-panic", "the run-time check cannot fail on any path")
	c.assumption("well-formed keys: non-nil, D in [1,n-1], 0 <= X,Y < 2^256; signature integers are non-nil")
	e := c.engine(true)
	e.wellFormed()
	n := 0
	for _, f := range c.exportedFuncs("sm2") {
		fn := c.ld.fn("sm2", f)
		if fn == nil {
			continue
		}
		r := c.run(e, "sm2", f, keysPre(fn))
		r.noPanic("no-panic")
		n++
	}
	c.stats["exported functions"] = n
	if n < 15 {
		c.fail("no-panic", "exported functions of sm2", "sm2", fmt.Sprintf("only %d exported functions found", n))
	}
}

// ---- key exchange -----------------------------------------------------------

type kxCtx struct {
	za, zb, u, key, s1, s2 *Term
	ux, uy                 *Term
}

// kxOracle: all values of the standard for one role.
func kxOracle(r *Run, init bool, selfID, otherID *Term) *kxCtx {
	o := &kxCtx{}
	d, t := r.fieldOf(3, "D"), r.fieldOf(4, "D")
	ps, pe := smul(d, smG), smul(t, smG)
	ox, oy := r.fieldOf(6, "X"), r.fieldOf(6, "Y")
	rx, ry := r.fieldOf(7, "X"), r.fieldOf(7, "Y")
	w := CB(pow2(127))
	bar := func(x *Term) *Term { return Add(w, ModN(x, w)) }
	k1 := ModN(Add(d, Mul(bar(ptX(pe)), t)), smN)
	k2 := ModN(Mul(k1, bar(rx)), smN)
	o.u = padd(smul(k1, pt(ox, oy)), smul(k2, pt(rx, ry)))
	o.ux, o.uy = ptX(o.u), ptY(o.u)
	zs, zo := zTerm(ptX(ps), ptY(ps), selfID), zTerm(ox, oy, otherID)
	es, eo := pts(ptX(pe), ptY(pe)), pts(rx, ry)
	o.za, o.zb = zs, zo
	ea, eb := es, eo
	if !init {
		o.za, o.zb, ea, eb = zo, zs, eo, es
	}
	ux, uy := BE(o.ux, C(32)), BE(o.uy, C(32))
	o.key = keyStream(MkSeq(ux, uy, o.za, o.zb), FDiv(Add(r.arg(1), C(7)), 8))
	inner := sm3Of(MkSeq(ux, o.za, o.zb, ea, eb))
	o.s1 = sm3Of(MkSeq(Bytes("\x02"), uy, inner))
	o.s2 = sm3Of(MkSeq(Bytes("\x03"), uy, inner))
	return o
}

func checkExchange(c *Check) {
	c.explain = "CalculateKeyWithConfirmation is interpreted abstractly for both roles. On every exit that returns a key, the key, the tags and the conditions of the path are compared with the formulas of the standard, written once with initiator and responder swapped by role, so that the two roles are instances of one symmetric transcript."
	c.rule("key", "the key is KDF(xU||yU||ZA||ZB) of ceil(keyBits/8) bytes, initiator first")
	c.rule("tags", "the tags are SM3(02||yU||inner) for the responder and SM3(03||yU||inner) for the initiator, over the same inner digest")
	c.rule("confirmed", "the initiator obtains a key only if the tag it was given equals the tag it computed")
	c.rule("points", "a key is returned only if both points of the other side are on the curve and the shared point is not at infinity")
	c.rule("bits", "a key is returned only for a positive number of bits")
	c.rule("no-result", "an exit with an error returns no key")
	c.rule("refuses-only", "an error is returned only for one of these reasons, a missing tag or an identity that does not fit ENTL")
	c.rule("confirm", "ResponderConfirm compares the whole tags")
	e := c.engine(true)
	e.wellFormed()
	fn := c.ld.fn("sm2", "CalculateKeyWithConfirmation")
	if fn == nil {
		c.fail("analysable", "sm2.CalculateKeyWithConfirmation", "sm2", "missing")
		return
	}
	r := c.run(e, "sm2", "CalculateKeyWithConfirmation", keysPre(fn))
	if r.ok {
		c.successExits(r, "key")
		flag := r.arg(0)
		ox, oy := r.fieldOf(6, "X"), r.fieldOf(6, "Y")
		rx, ry := r.fieldOf(7, "X"), r.fieldOf(7, "Y")
		selfID, otherID, tag := r.seqArg(5), r.seqArg(8), r.seqArg(2)
		roles := map[bool]bool{}
		for _, x := range r.ex {
			okF, errF := x.errCases()
			for _, F := range []*Facts{okF, errF} {
				if F == nil {
					continue
				}
				isErr := F == errF && okF != errF
				iF, rF := split(F, flag)
				for _, role := range []bool{true, false} {
					G := rF
					if role {
						G = iF
					}
					if G == nil {
						continue
					}
					// a nil identity is the empty one
					for _, k := range []int{5, 8} {
						if G.Eval(r.nilArg(k)) == 1 {
							G = G.Assume(EQ0(SeqLen(r.seqArg(k))), true)
						}
					}
					o := kxOracle(r, role, selfID, otherID)
					G = canonHash(G, o.za, o.zb)
					G = canonHash(G, o.s1, o.s2)
					valid := []*Term{Le(C(1), r.arg(1)), onCurve(ox, oy), onCurve(rx, ry),
						Le(SeqLen(selfID), C(8191)), Le(SeqLen(otherID), C(8191))}
					if role {
						valid = append(valid, Not(r.nilArg(2)), SeqEq(o.s1, tag))
					}
					if isErr {
						c.errorsReturnNothing("no-result", r, x, G)
						ok := contradicts(G, append(append([]*Term(nil), valid...), Not(EQ0(o.ux)))...) &&
							contradicts(G, append(append([]*Term(nil), valid...), Not(EQ0(o.uy)))...)
						c.ob("refuses-only", r.name+roleName(role), c.at(r.fn), ok, "an error is returned although the exchange may be valid: "+x.when(G))
						continue
					}
					roles[role] = true
					name := r.name + roleName(role)
					bad, ok := allOf(G, onCurve(ox, oy), onCurve(rx, ry))
					c.ob("points", name, c.at(r.fn), ok, fmt.Sprintf("a key is returned without establishing %v", bad))
					c.ob("points", name+": infinity", c.at(r.fn), contradicts(G, EQ0(o.ux), EQ0(o.uy)), "a key is returned although the shared point may be at infinity: "+x.when(G))
					c.ob("bits", name, c.at(r.fn), G.Eval(Le(C(1), r.arg(1))) == 1, "a key is returned although the number of bits may not be positive")
					key := x.seqOf(x.fieldVal(0, "Key"))
					c.ob("key", name, c.at(r.fn), key != nil && same(G, canonTerm(G, key, o.za, o.zb), o.key), "the key is "+x.show(0))
					tags := []struct {
						f string
						t *Term
						p bool
					}{{"S1", o.s1, !role}, {"S2", o.s2, true}}
					for _, tg := range tags {
						v := x.fieldVal(0, tg.f)
						s := x.seqOf(v)
						if !tg.p {
							// the initiator does not have to return S1; if it does it is the right one
							if sl, isS := v.(*Slice); isS && (sl.nilT == TTrue || G.Eval(sl.nilT) == 1) {
								continue
							}
						}
						good := s != nil && same(G, canonTerm(G, canonTerm(G, s, o.za, o.zb), tg.t), tg.t)
						c.ob("tags", name+" "+tg.f, c.at(r.fn), good, "the tag is "+termStr(s))
					}
					if role {
						c.ob("confirmed", name, c.at(r.fn), G.Eval(SeqEq(o.s1, tag)) == 1 || seqEqHolds(G, o.s1, tag), "a key is returned although the tag is not known to be the expected one: "+x.when(G))
					}
				}
			}
		}
		for _, role := range []bool{true, false} {
			if !roles[role] {
				c.fail("key", r.name+roleName(role), c.at(r.fn), "no exit returns a key for this role")
			}
		}
	}
	r = c.run(e, "sm2", "ResponderConfirm", nil)
	if r.ok {
		for _, x := range r.ex {
			tF, fF := x.boolCases(0)
			eq := SeqEq(r.seqArg(0), r.seqArg(1))
			ok := (tF == nil || tF.Eval(eq) == 1) && (fF == nil || fF.Eval(eq) == -1 || contradicts(fF, eq))
			c.ob("confirm", r.name, c.at(r.fn), ok, "the result "+x.show(0)+" is not equality of the tags")
		}
	}
}

func roleName(init bool) string {
	if init {
		return " (initiator)"
	}
	return " (responder)"
}

func termStr(t *Term) string {
	if t == nil {
		return "absent"
	}
	return cutMid(t.String(), 700)
}

// ---- keys ---------------------------------------------------------------------

func checkImport(c *Check) {
	c.explain = "RawBytesToPublicKey, RawBytesToPrivateKey, CalculatePubKey and GenerateKey are interpreted abstractly; success and failure exits are compared with the validity conditions, and the fields of the key returned with the value imported, computed or drawn."
	c.rule("public", "a public key is returned exactly for 64 bytes x||y on the curve, with exactly these coordinates and the SM2 curve")
	c.rule("private", "a private key is returned exactly for 32 bytes whose value is in [1,n-2], with exactly this value and the SM2 curve")
	c.rule("derived", "the public key of a private key is d*G on the SM2 curve")
	c.rule("generated", "a generated pair is (d, d*G) for the d drawn with the reader given, on the SM2 curve")
	c.rule("no-result", "an exit with an error returns no key")
	e := c.engine(true)
	e.wellFormed()
	imp := func(rule, name string, valid func(in *Term) []*Term, fields func(in *Term) map[string]*Term) {
		r := c.run(e, "sm2", name, nil)
		if !r.ok {
			return
		}
		c.successExits(r, rule)
		in := r.seqArg(0)
		for _, x := range r.ex {
			okF, errF := x.errCases()
			if errF != nil {
				c.errorsReturnNothing("no-result", r, x, errF)
				c.ob(rule, r.name+": refuses only invalid keys", c.at(r.fn), contradicts(errF, valid(in)...), "a valid key may be refused: "+x.when(errF))
			}
			if okF != nil {
				bad, ok := allOf(okF, valid(in)...)
				c.ob(rule, r.name+": accepts only valid keys", c.at(r.fn), ok, fmt.Sprintf("a key is returned without establishing %v: %s", bad, x.when(okF)))
				for f, want := range fields(in) {
					got := x.bigField(0, f)
					c.ob(rule, r.name+" field "+f, c.at(r.fn), got != nil && same(okF, got, want), "the field is "+termStr(got))
				}
				c.ob(rule, r.name+" field Curve", c.at(r.fn), x.isCurve(x.fieldVal(0, "Curve")), "the key is not on the curve of the package")
			}
		}
	}
	half := func(in *Term, o int64) *Term { return NatVal(SubBase(in.args[0], C(o), C(32)), 0) }
	imp("public", "RawBytesToPublicKey", func(in *Term) []*Term {
		return []*Term{Eq(SeqLen(in), C(64)), onCurve(half(in, 0), half(in, 32))}
	}, func(in *Term) map[string]*Term { return map[string]*Term{"X": half(in, 0), "Y": half(in, 32)} })
	imp("private", "RawBytesToPrivateKey", func(in *Term) []*Term {
		return append([]*Term{Eq(SeqLen(in), C(32))}, inRange(half(in, 0), C(1), nMinus(2))...)
	}, func(in *Term) map[string]*Term { return map[string]*Term{"D": half(in, 0)} })

	r := c.run(e, "sm2", "CalculatePubKey", privPre("0"))
	if r.ok {
		for _, x := range r.ex {
			q := smul(r.fieldOf(0, "D"), smG)
			gx, gy := x.bigField(0, "X"), x.bigField(0, "Y")
			ok := gx != nil && gy != nil && same(x.F, gx, ptX(q)) && same(x.F, gy, ptY(q)) && x.isCurve(x.fieldVal(0, "Curve"))
			c.ob("derived", r.name, c.at(r.fn), ok, "the key is "+x.show(0))
		}
	}
	r = c.run(e, "sm2", "GenerateKey", nil)
	if r.ok {
		c.successExits(r, "generated")
		reader := r.arg(0)
		for _, x := range r.ex {
			okF, errF := x.errCases()
			if errF != nil {
				c.errorsReturnNothing("no-result", r, x, errF)
				c.ob("generated", r.name+": fails only when the reader fails", c.at(r.fn), randError(x), "an error is returned although the reader has not failed: "+x.when(errF))
			}
			if okF == nil {
				continue
			}
			d := x.bigField(0, "D")
			if d == nil {
				c.fail("generated", r.name, c.at(r.fn), "the key is "+x.show(0))
				continue
			}
			src := false
			walkTerm(d, map[*Term]bool{}, func(t *Term) {
				for _, ev := range r.e.log {
					if ev.kind == "rand" && len(ev.args) > 1 && ev.args[1] == t && ev.args[0] == reader {
						src = true
					}
				}
			})
			// either the library's key generation, or a uniform draw
			why := ""
			if !strings.HasPrefix(d.s, "genkey@") {
				why = r.drawn(okF, d, reader)
			}
			c.ob("generated", r.name+": reader", c.at(r.fn), src && why == "", "the private key is "+termStr(d)+", not drawn from the reader given: "+why)
			q := smul(d, smG)
			gx, gy := x.bigField(1, "X"), x.bigField(1, "Y")
			ok := gx != nil && gy != nil && same(okF, gx, ptX(q)) && same(okF, gy, ptY(q))
			c.ob("generated", r.name+": public key", c.at(r.fn), ok, "the public key is "+x.show(1))
			c.ob("generated", r.name+": curve", c.at(r.fn), x.isCurve(x.fieldVal(0, "Curve")) && x.isCurve(x.fieldVal(1, "Curve")), "the keys are not on the curve of the package")
		}
	}
}

func checkExport(c *Check) {
	c.explain = "The three export methods are interpreted abstractly for every scalar in [1,n-1] and all coordinates below 2^256, and the bytes returned are compared with the fixed-length big-endian form. With the import rules of C10 this makes export followed by import the identity."
	c.rule("export", "exactly the fixed-length, left-padded big-endian form")
	e := c.engine(true)
	e.wellFormed()
	for _, f := range []struct {
		name string
		pre  func(e *Engine, st *State, a map[string]*Term)
		want func(r *Run) *Term
	}{
		{"(*PublicKey).GetUnCompressBytes", pubPre("0"), func(r *Run) *Term {
			return MkSeq(Bytes("\x04"), pts(r.fieldOf(0, "X"), r.fieldOf(0, "Y")))
		}},
		{"(*PublicKey).GetRawBytes", pubPre("0"), func(r *Run) *Term { return pts(r.fieldOf(0, "X"), r.fieldOf(0, "Y")) }},
		{"(*PrivateKey).GetRawBytes", privPre("0"), func(r *Run) *Term { return BE(r.fieldOf(0, "D"), C(32)) }},
	} {
		r := c.run(e, "sm2", f.name, f.pre)
		if !r.ok {
			continue
		}
		for _, x := range r.ex {
			got := x.bytes(0)
			c.ob("export", r.name, c.at(r.fn), got != nil && same(x.F, got, f.want(r)), "the bytes are "+x.show(0)+" when "+x.when(x.F))
		}
		r.noPanic("export")
	}
}

// ---- curve constants ------------------------------------------------------------

func checkCurve(c *Check) {
	c.explain = "The package initialisers are evaluated by constant propagation; the curve object every operation uses is compared field by field with the published parameters, and all stores of the module that can reach a curve parameter are enumerated."
	c.rule("value", "the field has the published value after initialisation")
	c.rule("unchanged", "no function other than the initialiser stores to the curve object, a curve parameter or the package variable holding it")
	c.rule("hands-out", "GetSm2P256V1 returns this curve")
	e := c.engine(false)
	if e.curveObj == nil || e.curveVal == nil {
		c.fail("value", "curve", "sm2", "the curve object cannot be identified")
		return
	}
	st := e.newState()
	s := e.curveObj.typ.Underlying().(*types.Struct)
	want := map[string]*Term{"P": smP, "N": smN, "B": smB, "Gx": smGx, "Gy": smGy, "BitSize": C(256)}
	at := c.at(c.ld.fn("sm2", "GetSm2P256V1"))
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		w, ok := want[f.Name()]
		if !ok {
			continue
		}
		v := e.loadAt(st, e.curveObj, fmt.Sprintf(".%d", i), f.Type())
		var t *Term
		switch y := v.(type) {
		case *Ptr:
			if y.obj != nil {
				t = e.bigVal(st, y)
			}
		case *Term:
			t = y
		}
		c.ob("value", "curve parameter "+f.Name(), at, t == w, "the value is "+termStr(t))
		delete(want, f.Name())
	}
	for n := range want {
		c.fail("value", "curve parameter "+n, at, "the field was not found")
	}
	cs := e.curveVal.typ.Underlying().(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		if cs.Field(i).Name() == "A" {
			var t *Term
			if p, ok := e.curveVal.f[i].(*Ptr); ok && p.obj != nil {
				t = e.bigVal(st, p)
			}
			c.ob("value", "curve parameter A", at, t == smA, "the value is "+termStr(t))
			c.ob("value", "a = p-3", at, t != nil && t == Sub(smP, C(3)), "a is "+termStr(t))
		}
	}
	// cofactor: the package variable h, when there is one
	h := c.ld.pkg("sm2").ssa.Var("sm2H")
	if h != nil {
		v := e.loadAt(st, e.globalObj(h), "", h.Type().Underlying().(*types.Pointer).Elem())
		var t *Term
		if p, ok := v.(*Ptr); ok && p.obj != nil {
			t = e.bigVal(st, p)
		}
		c.ob("value", "cofactor", at, t != nil && t.isCi(1), "the value is "+termStr(t))
	}
	r := c.run(e, "sm2", "GetSm2P256V1", nil)
	if r.ok {
		for _, x := range r.ex {
			c.ob("hands-out", r.name, c.at(r.fn), x.isCurve(x.vals[0]), "another curve is returned: "+x.show(0))
		}
	}
	c.curveStores()
}

// curveStores enumerates stores and big.Int mutations whose target may be the
// curve: any store to a field of a curve value reached through a pointer, to
// the package variable, or a mutating big.Int method on a value loaded from a
// curve.
func (c *Check) curveStores() {
	n := 0
	for _, fn := range c.ld.allFuncs() {
		if isInitOnly(c.ld, fn) {
			continue
		}
		c.analysed[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var target ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					target = x.Addr
				case *ssa.Call:
					if mutatesReceiver(x.Common()) {
						target = x.Common().Args[0]
					}
				}
				if target == nil {
					continue
				}
				n++
				if w := curvePath(target, map[ssa.Value]bool{}); w != "" {
					c.fail("unchanged", shortFn(fn.String()), c.posOf(ins.Pos()), "writes through "+w)
				}
			}
		}
	}
	c.ob("unchanged", "stores and integer updates of the module", "-", true, "")
	c.stats["stores examined"] = n
}

// bigMut: the big.Int methods that write their receiver.
func mutatesReceiver(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(cc.Args) == 0 {
		return false
	}
	if !strings.HasPrefix(f.String(), "(*math/big.Int).") {
		return false
	}
	return bigMutators[f.Name()]
}

var bigMutators = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Abs Add And AndNot Binomial Div DivMod Exp GCD GobDecode Lsh Mod ModInverse ModSqrt Mul MulRange Neg Not Or Quo QuoRem Rand Rem Rsh Scan Set SetBit SetBits SetBytes SetInt64 SetString SetUint64 Sqrt Sub UnmarshalJSON UnmarshalText Xor") {
		bigMutators[n] = true
	}
	addCheck("C04", "other", absInt, checkDecryption)
	addCheck("C05", "other", absInt, checkLayouts)
	addCheck("C06", "other", absInt, checkEncryption)
	addCheck("C07", "other", absIntOb, checkTotal)
	addCheck("C09", "other", absInt, checkExchange)
	addCheck("C10", "other", absInt, checkImport)
	addCheck("C11", "other", absInt, checkExport)
	addCheck("C38", "other", tables, checkCurve)
}

func isCurveType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return namedIs(t, "crypto/elliptic", "CurveParams") || strings.HasSuffix(typeStr(t), "sm2.P256V1Curve")
}

// curvePath: the address or pointer v is derived from a field of a curve
// value (not from a freshly built one).
func curvePath(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if isCurveType(x.X.Type()) {
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			f := st.Field(x.Field)
			if a, ok := x.X.(*ssa.Alloc); ok && !isCurveParams(a.Type()) {
				return "" // a local copy of the curve value
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && !isCurveParams(x.X.Type()) && !isCurveType(fa.X.Type()) {
				return "" // the curve field of a key, not the curve itself
			}
			return "field " + f.Name() + " of a curve"
		}
		return curvePath(x.X, seen)
	case *ssa.Field:
		if isCurveType(x.X.Type()) {
			return "a parameter of a curve"
		}
		return curvePath(x.X, seen)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && isCurveType(fa.X.Type()) {
			return "a parameter of a curve"
		}
		return curvePath(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := curvePath(e, seen); w != "" {
				return w
			}
		}
	case *ssa.Global:
		if isCurveType(x.Type()) {
			return "package variable " + x.Name()
		}
	case *ssa.Call:
		if mutatesReceiver(x.Common()) { // returns its receiver
			return curvePath(x.Common().Args[0], seen)
		}
	}
	return ""
}

func isCurveParams(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return namedIs(t, "crypto/elliptic", "CurveParams")
}

// isInitOnly: an initialiser, or a function only initialisers call.
func isInitOnly(ld *Loader, fn *ssa.Function) bool {
	return isInit(ld, fn, 0)
}

func isInit(ld *Loader, fn *ssa.Function, d int) bool {
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return true
	}
	if d > 5 || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	if fn.Parent() != nil {
		return isInit(ld, fn.Parent(), d+1)
	}
	cs := ld.callers(fn)
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if c == nil || !isInit(ld, c, d+1) {
			return false
		}
	}
	return true
}

// callers: the functions that call fn; nil stands for a use as a value.
func (ld *Loader) callers(fn *ssa.Function) []*ssa.Function {
	if ld.callerIdx == nil {
		ld.callerIdx = map[*ssa.Function][]*ssa.Function{}
		for _, f := range ld.allFuncs() {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var callee ssa.Value
					if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						callee = ci.Common().Value
						if g, ok := callee.(*ssa.Function); ok {
							ld.callerIdx[g] = append(ld.callerIdx[g], f)
						}
					}
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && *op != callee {
							ld.callerIdx[g] = append(ld.callerIdx[g], nil)
						}
					}
				}
			}
		}
	}
	return ld.callerIdx[fn]
}
