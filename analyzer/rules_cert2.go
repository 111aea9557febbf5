package main

// Issuing and parsing: what is signed, embedded and exposed.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// args makes arguments for an exported function; every field of a template
// that holds a list, number or flag is empty unless the scenario sets it.
func (x *certCtx) args(fn *ssa.Function, st *State, blank map[string]bool, set map[string]map[string]Value) ([]Value, map[string]Value) {
	as := x.e.symArgs(fn)
	byName := map[string]Value{}
	for i, p := range fn.Params {
		name := fmt.Sprint(i)
		byName[name] = as[i]
		if bt, ok := p.Type().Underlying().(*types.Slice); ok && isByte(bt.Elem()) {
			as[i], _ = x.input(st, "arg:"+p.Name())
			byName[name] = as[i]
		}
		q, ok := as[i].(*Ptr)
		if !ok || !blank[name] {
			continue
		}
		u := q.obj.typ.Underlying().(*types.Struct)
		for j := 0; j < u.NumFields(); j++ {
			f := u.Field(j)
			v := set[name][f.Name()]
			if v == nil {
				switch f.Type().Underlying().(type) {
				case *types.Slice, *types.Basic, *types.Interface, *types.Map:
					v = x.e.zero(f.Type())
				default:
					continue
				}
			}
			x.e.storeAt(st, q.obj, fmt.Sprintf(".%d", j), f.Type(), v)
		}
		st.alive[q.obj] = true
	}
	return as, byName
}

func (x *certCtx) bytesVal(st *State, key string, nonEmpty bool) (*Slice, *Term) {
	n := LenOf(Sym(key))
	lo := int64(0)
	if nonEmpty {
		lo = 1
	}
	st.facts = st.facts.Assume(Le(C(lo), n), true)
	s := SubBase(Sym(key), C(0), n)
	return x.e.fromTerm(s, byteSliceT).(*Slice), s
}

// signHook models sm2.Sign as an opaque function that reports what it signs.
func (x *certCtx) signHook() {
	x.lib["github.com/ZZMarquis/gm/sm2.Sign"] = func(e *Engine, c *callCtx) []*Result {
		t := signTerm(e, c.st, c.args[0], c.args[1], c.args[2])
		e.event(c.st, "sign", "", t)
		return c.cases(rawOp("signok", "", 0, t), func(st *State) []Value {
			st.facts = st.facts.Assume(GE0(LenOf(t)), true)
			return []Value{e.allocSeq(st, c.site, byteSliceT, SubBase(t, C(0), LenOf(t))), nilIface}
		}, func(st *State) []Value {
			return []Value{&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}, e.newErr(st, c.site)}
		})
	}
}

func signTerm(e *Engine, st *State, key, uid, msg Value) *Term {
	var k *Term
	if p, ok := key.(*Ptr); ok && p.obj != nil {
		k = e.reify(st, p, types.NewPointer(p.obj.typ))
	} else {
		k = nilTerm
	}
	return rawOp("sm2sig", "", 0, k, e.bytesOf(st, uid), e.bytesOf(st, msg))
}

// derOf: the bytes are the DER encoding of a struct of the given shape.
func derOf(b *Term, shape string) []*Term {
	d := encVal(b, shape)
	if d == nil || d.op != "struct" {
		return nil
	}
	return d.args
}

// encVal is the value whose whole encoding b is.
func encVal(b *Term, shape string) *Term {
	if b == nil || b.op != "sub" || !b.args[1].isCi(0) || b.args[2] != LenOf(b.args[0]) {
		return nil
	}
	d := b.args[0]
	if d.op != "der" || d.s != shape {
		return nil
	}
	return d.args[0]
}

func structOf(t *Term) []*Term {
	if t.op == "struct" {
		return t.args
	}
	return nil
}

func isAlg(t *Term, oid string) bool {
	a := structOf(t)
	return len(a) == 2 && a[0] == oidSeq(oid) && zeroTerm(a[1])
}

// zeroTerm: a zero value (which the encoder omits when optional).
func zeroTerm(t *Term) bool {
	switch t.op {
	case "struct":
		for _, a := range t.args {
			if !zeroTerm(a) {
				return false
			}
		}
		return true
	}
	return t == EmptySeq || t == TFalse || t == nilTerm || t.isCi(0)
}

// isBits: a bit string of whole bytes.
func isBits(t, b *Term) bool {
	a := structOf(t)
	return len(a) == 2 && a[0] == b && a[1] == MulI(SeqLen(b), 8)
}

// isRaw: a raw element standing for the given encoding.
func isRaw(F *Facts, t, full *Term) bool {
	a := structOf(t)
	return len(a) == 5 && (a[4] == full || F.Eval(seqEqCond(&State{facts: F}, a[4], full)) == 1)
}

func (q *cexit) bytes(k int) *Term {
	switch v := q.r.vals[k].(type) {
	case *Slice:
		return q.x.e.sliceSeq(q.r.st, v)
	}
	return nil
}

func checkBinding(c *Check) {
	c.explain = "IssueCertificateBySoftCAKey, CreateCertificate, CreateCertificateInfo and CreateCertificateRequest are interpreted abstractly on symbolic keys, names, times, serial numbers and key information (template lists empty); the DER structure they return is compared field by field with what was given to sm2.Sign and with the template. ParseCertificate and ParseCertificateRequest are interpreted on symbolic DER and every exposed field is compared with the position of the input it must come from."
	c.rule("issue", "the issued certificate is DER of {tbs, SM2-with-SM3, signature} where the signature is sm2.Sign(key, user id, tbs bytes) of the embedded tbs; nothing else is signed and a signing failure yields no certificate")
	c.rule("create", "CreateCertificate returns DER of {tbs, SM2-with-SM3, signature} with the caller's signature bits")
	c.rule("certificate-info", "CreateCertificateInfo returns {version 3, template serial, SM2-with-SM3, parent subject, template validity in UTC, template subject, the request's key information} and Raw is the DER encoding of exactly that")
	c.rule("request", "a created request is DER of {tbs, SM2-with-SM3, signature}, the signature is sm2.Sign(key, user id, tbs bytes) of the embedded tbs, and the tbs holds version 0, the template subject and the uncompressed public key with the EC and SM2 curve identifiers")
	c.rule("parsed-certificate", "the parsed certificate exposes the fields of the input")
	c.rule("parsed-request", "the parsed request exposes the fields of the input")
	c.issue()
	c.certInfo()
	c.request()
	c.parsed()
}

func (c *Check) issue() {
	for _, name := range []string{"IssueCertificateBySoftCAKey", "CreateCertificate"} {
		x := c.cert()
		x.signHook()
		e := x.e
		rule := map[bool]string{true: "create", false: "issue"}[name == "CreateCertificate"]
		n := map[string]int{"create": 2, "issue": 3}[rule]
		fn := x.fnOf(rule, name, n)
		if fn == nil {
			continue
		}
		st := e.newState()
		as, _ := x.args(fn, st, nil, nil)
		info, _ := as[0].(*Ptr)
		if info == nil || info.obj == nil {
			c.fail(rule, name, c.at(fn), "the first parameter is not a pointer to the certificate information")
			continue
		}
		want := derVal(e, st, e.loadPtr(st, info, info.obj.typ), info.obj.typ)
		tbsRaw := e.bytesOf(st, e.loadAt(st, info.obj, ".0", byteSliceT))
		var sig *Term
		if rule == "issue" {
			t := signTerm(e, st, as[1], as[2], e.fromTerm(tbsRaw, byteSliceT))
			sig = SubBase(t, C(0), LenOf(t))
		} else {
			sig = e.bytesOf(st, as[1])
		}
		rs := x.run(fn, as, st, rule, name)
		ok, bad := x.exits(rs)
		c.ob(rule, name+": succeeds for some input", c.at(fn), len(ok) > 0, "no success exit")
		for _, q := range ok {
			x.signed(q, rule, name, fn, sig, rule == "issue")
			a := derOf(q.bytes(0), certShape)
			good := len(a) == 4 && zeroTerm(a[0]) && norm(a[1]) == norm(want) && isAlg(a[2], oidSM2SM3) && isBits(a[3], sig)
			c.ob(rule, name, c.at(fn), good, cutMid(fmt.Sprint(q.bytes(0)), 1200)+" instead of DER of the tbs, the algorithm and "+cutMid(sig.String(), 300))
		}
		x.noResult(rule, name, fn, bad)
	}
}

// signed: exactly one signature is computed, and it is the expected one.
func (x *certCtx) signed(q *cexit, rule, name string, fn *ssa.Function, sig *Term, must bool) {
	n := 0
	for _, ev := range q.r.st.events() {
		if ev.kind != "sign" {
			continue
		}
		n++
		x.c.ob(rule, name+": signed bytes, key and user id", x.c.at(fn), sig.op == "sub" && ev.args[0] == sig.args[0], cutMid(ev.args[0].String(), 900))
		if must && q.F.Eval(rawOp("signok", "", 0, ev.args[0])) != 1 {
			x.c.fail(rule, name+": signing failure", x.c.at(fn), "success although signing failed")
		}
	}
	if must && n == 0 {
		x.c.fail(rule, name+": signed bytes, key and user id", x.c.at(fn), "nothing is signed")
	}
}

func (x *certCtx) noResult(rule, name string, fn *ssa.Function, bad []*cexit) {
	for _, q := range bad {
		ex := &Exit{nil, q.F, q.r.st, q.r.vals, 0}
		x.c.ob(rule, name+": no result with an error", x.c.at(fn), ex.nothing(q.F, 0), q.show(q.r.vals[0]))
	}
}

func (c *Check) certInfo() {
	const rule = "certificate-info"
	for _, raw := range []bool{true, false} {
		x := c.cert()
		e := x.e
		fn := x.fnOf(rule, "CreateCertificateInfo", 3)
		if fn == nil {
			return
		}
		what := map[bool]string{true: "raw subjects", false: "structured subjects"}[raw]
		st := e.newState()
		set := map[string]map[string]Value{"0": {}, "1": {}, "2": {}}
		subj := map[string]*Term{}
		if raw {
			for _, k := range []string{"0", "1"} {
				v, s := x.bytesVal(st, "arg:subject"+k, true)
				set[k]["RawSubject"] = v
				subj[k] = s
			}
		}
		spki, spkiB := x.bytesVal(st, "arg:spki", false)
		set["2"]["RawSubjectPublicKeyInfo"] = spki
		as, _ := x.args(fn, st, map[string]bool{"0": true, "1": true, "2": true}, set)
		tmpl, parent := as[0].(*Ptr), as[1].(*Ptr)
		if !raw {
			for k, p := range map[string]*Ptr{"0": tmpl, "1": parent} {
				sv := e.loadPtr(st, p, p.obj.typ).(*StructV)
				v, t := field(sv, "Subject")
				subj[k] = x.rdnDER(st, v, t)
			}
		}
		tv := e.loadPtr(st, tmpl, tmpl.obj.typ).(*StructV)
		serial, st1 := field(tv, "SerialNumber")
		nb, tt := field(tv, "NotBefore")
		na, _ := field(tv, "NotAfter")
		utc := func(v Value) *Term { return rawOp("ext", "time.UTC", 0, e.reify(st, v, tt)) }
		rs := x.run(fn, as, st, rule, "CreateCertificateInfo, "+what)
		ok, bad := x.exits(rs)
		c.ob(rule, what+": succeeds for some input", c.at(fn), len(ok) > 0, "no success exit")
		for _, q := range ok {
			o := q.obj(0)
			if o == nil || len(o.f) != 11 {
				c.fail(rule, what, c.at(fn), "no certificate information of the standard form is returned")
				continue
			}
			rawV, _ := field(o, "Raw")
			a := derOf(e.bytesOf(q.r.st, rawV), tbsShape)
			c.ob(rule, what+": Raw is the DER encoding of the structure", c.at(fn), a != nil, q.show(rawV))
			if a == nil {
				continue
			}
			// the structure returned and the structure encoded
			ut := o.typ.Underlying().(*types.Struct)
			for i := 1; i < len(o.f); i++ {
				v := derVal(e, q.r.st, o.f[i], ut.Field(i).Type())
				c.ob(rule, fmt.Sprintf("%s: field %s encoded", what, ut.Field(i).Name()), c.at(fn), norm(v) == norm(a[i]), cutMid(a[i].String(), 600))
			}
			dec := q.decodeOf(spkiB, spkiShape)
			ki := EmptySeq
			if dec != nil {
				ki = norm(derVal(e, q.r.st, e.fromTerm(dec.val, dec.typ), dec.typ))
			}
			val := structOf(a[5])
			for _, t := range []struct {
				n  string
				ok bool
				i  int
			}{
				{"version", a[1].isCi(2), 1},
				{"serial number", a[2] == derVal(e, q.r.st, serial, st1), 2},
				{"signature algorithm", isAlg(a[3], oidSM2SM3), 3},
				{"issuer", isRaw(q.F, a[4], subj["1"]), 4},
				{"validity", len(val) == 2 && val[0] == utc(nb) && val[1] == utc(na), 5},
				{"subject", isRaw(q.F, a[6], subj["0"]), 6},
				{"key information", dec != nil && norm(a[7]) == ki, 7},
				{"unique ids", zeroTerm(a[8]) && zeroTerm(a[9]), 8},
				{"extensions", zeroTerm(a[10]), 10},
			} {
				c.ob(rule, what+": "+t.n, c.at(fn), t.ok, cutMid(a[t.i].String(), 900))
			}
		}
		x.noResult(rule, what, fn, bad)
	}
}

// rdnDER is the DER encoding of a name.
func (x *certCtx) rdnDER(st *State, v Value, t types.Type) *Term {
	n := x.e.reify(st, v, t)
	var rt types.Type
	for _, p := range x.c.ld.prog.AllPackages() {
		if p.Pkg.Path() == "crypto/x509/pkix" {
			rt = p.Pkg.Scope().Lookup("RDNSequence").Type()
		}
	}
	if rt == nil {
		return EmptySeq
	}
	val := x.e.fromTerm(rawOp("tordn", "", 0, n), rt)
	d := rawOp("der", shapeOf(rt), 0, derVal(x.e, st, val, rt))
	return SubBase(d, C(0), LenOf(d))
}

func (c *Check) request() {
	const rule = "request"
	for _, raw := range []bool{true, false} {
		x := c.cert()
		x.signHook()
		e := x.e
		fn := x.fnOf(rule, "CreateCertificateRequest", 4)
		if fn == nil {
			return
		}
		what := map[bool]string{true: "raw subject", false: "structured subject"}[raw]
		// an empty attribute list encodes and decodes to an empty list
		x.over = emptyLists
		st := e.newState()
		set := map[string]map[string]Value{"0": {}}
		var subj *Term
		if raw {
			var v Value
			v, subj = x.bytesVal(st, "arg:subject", true)
			set["0"]["RawSubject"] = v
		}
		as, _ := x.args(fn, st, map[string]bool{"0": true}, set)
		if !raw {
			t := as[0].(*Ptr)
			v, ty := field(e.loadPtr(st, t, t.obj.typ).(*StructV), "Subject")
			subj = x.rdnDER(st, v, ty)
		}
		X, Y, okK := x.pubArg(st, as[1])
		if !okK {
			c.fail(rule, what, c.at(fn), "the second parameter is not a public key")
			continue
		}
		rs := x.run(fn, as, st, rule, "CreateCertificateRequest, "+what)
		ok, bad := x.exits(rs)
		c.ob(rule, what+": succeeds for some input", c.at(fn), len(ok) > 0, "no success exit")
		for _, q := range ok {
			x.requestForm(q, rule, what, fn, as, X, Y, subj, func(t *Term) bool { return zeroTerm(t) })
		}
		x.noResult(rule, what, fn, bad)
	}
}

// requestForm compares a created request with its parts; attrs judges the
// attribute list.
func (x *certCtx) requestForm(q *cexit, rule, what string, fn *ssa.Function, as []Value, X, Y, subj *Term, attrs func(*Term) bool) {
	c, e := x.c, x.e
	a := derOf(q.bytes(0), reqShape)
	if len(a) != 4 {
		c.fail(rule, what+": structure", c.at(fn), cutMid(fmt.Sprint(q.bytes(0)), 900))
		return
	}
	tbs := structOf(a[1])
	if len(tbs) != 5 {
		c.fail(rule, what+": structure", c.at(fn), cutMid(a[1].String(), 900))
		return
	}
	// the embedded encoding is the encoding of the same fields
	in := derOf(tbs[0], reqShape[len("SEQ(RAWCONTENT,"):len(reqShape)-len(","+algShape+",BIT)")])
	same := len(in) == 5 && zeroTerm(in[0])
	for i := 1; same && i < 5; i++ {
		same = in[i] == tbs[i]
	}
	c.ob(rule, what+": embedded tbs is the encoding of its fields", c.at(fn), same, cutMid(tbs[0].String(), 900))
	t := signTerm(e, q.r.st, as[2], as[3], e.fromTerm(tbs[0], byteSliceT))
	sig := SubBase(t, C(0), LenOf(t))
	x.signed(q, rule, what, fn, sig, true)
	ki := structOf(tbs[3])
	var alg []*Term
	if len(ki) == 3 {
		alg = structOf(ki[1])
	}
	curve := rawOp("der", "OID", 0, oidSeq(oidCurve))
	pt := MkSeq(Elem(C(4)), BE(X, C(32)), BE(Y, C(32)))
	for _, o := range []struct {
		n  string
		ok bool
		t  *Term
	}{
		{"signature", isBits(a[3], sig), a[3]},
		{"signature algorithm", isAlg(a[2], oidSM2SM3), a[2]},
		{"version", tbs[1].isCi(0), tbs[1]},
		{"subject", isRaw(q.F, tbs[2], subj), tbs[2]},
		{"key algorithm", len(alg) == 2 && alg[0] == oidSeq(oidEC) && isRaw(q.F, alg[1], SubBase(curve, C(0), LenOf(curve))), tbs[3]},
		{"public key", len(ki) == 3 && isBits(ki[2], pt), tbs[3]},
		{"attributes", attrs(tbs[4]), tbs[4]},
	} {
		c.ob(rule, what+": "+o.n, c.at(fn), o.ok, cutMid(o.t.String(), 900))
	}
}

func emptyLists(d *Term, shape string, val *Term, typ types.Type) (*Term, *Term) {
	if d.op == "sub" && d.args[0].op == "der" && d.args[0].args[0] == EmptySeq && shape == "SEQOF(RAW)" {
		return EmptySeq, EmptySeq
	}
	return nil, nil
}

// pubArg: a valid public key argument.
func (x *certCtx) pubArg(st *State, v Value) (X, Y *Term, ok bool) {
	p, isP := v.(*Ptr)
	if !isP || p.obj == nil {
		return
	}
	sv, isS := x.e.loadPtr(st, p, p.obj.typ).(*StructV)
	if !isS {
		return
	}
	xv, _ := field(sv, "X")
	yv, _ := field(sv, "Y")
	xp, o1 := xv.(*Ptr)
	yp, o2 := yv.(*Ptr)
	if !o1 || !o2 {
		return
	}
	X, Y = x.e.bigVal(st, xp), x.e.bigVal(st, yp)
	for _, t := range []*Term{X, Y} {
		st.facts = st.facts.Assume(GE0(t), true).Assume(Lt(t, CB(pow2(256))), true)
	}
	return X, Y, true
}

func (c *Check) parsed() {
	for i, p := range certParsers() {
		x := c.cert()
		x.plain(p)
		rule := []string{"parsed-certificate", "parsed-request"}[i]
		fn, ok, bad, d := x.parse(rule, p.name, p.name)
		if fn == nil {
			continue
		}
		x.noResult(rule, p.name, fn, bad)
		for _, q := range ok {
			x.exposed(q, rule, p, fn, d)
		}
	}
}

func (x *certCtx) exposed(q *cexit, rule string, p certParser, fn *ssa.Function, d *Term) {
	c, e := x.c, x.e
	dec := q.decodeOf(d, p.shape)
	o := q.obj(0)
	if dec == nil || o == nil {
		c.fail(rule, p.name, c.at(fn), "not a decode of the input, or no object returned")
		return
	}
	type src struct {
		field string
		path  []int
	}
	l := []src{
		{"Raw", []int{0}}, {"RawTBSCertificate", []int{1, 0}}, {"RawSubjectPublicKeyInfo", []int{1, 7, 0}},
		{"RawSubject", []int{1, 6, 4}}, {"RawIssuer", []int{1, 4, 4}}, {"SerialNumber", []int{1, 2}},
		{"NotBefore", []int{1, 5, 0}}, {"NotAfter", []int{1, 5, 1}},
	}
	names := map[string][]int{"Subject": {1, 6, 4}, "Issuer": {1, 4, 4}}
	ver, sigp, plus := []int{1, 1}, []int{3}, int64(1)
	if p.shape == reqShape {
		l = []src{{"Raw", []int{0}}, {"RawTBSCertificateRequest", []int{1, 0}}, {"RawSubjectPublicKeyInfo", []int{1, 3, 0}}, {"RawSubject", []int{1, 2, 4}}}
		names = map[string][]int{"Subject": {1, 2, 4}}
		plus = 0
	}
	for _, s := range l {
		v, vt := field(o, s.field)
		t, _ := at(dec.val, dec.typ, s.path...)
		c.ob(rule, p.name+": "+s.field, c.at(fn), v != nil && q.same(v, vt, t), q.show(v))
	}
	v, _ := field(o, "Version")
	t, _ := at(dec.val, dec.typ, ver...)
	vt, isT := v.(*Term)
	c.ob(rule, p.name+": Version", c.at(fn), isT && q.F.Eval(Eq(vt, Add(t, C(plus)))) == 1, q.show(v))
	b, bt := at(dec.val, dec.typ, sigp...)
	bv := e.fromTerm(b, bt).(*StructV)
	v, _ = field(o, "Signature")
	sb := e.bytesOf(q.r.st, bv.f[0])
	sl, isS := v.(*Slice)
	c.ob(rule, p.name+": Signature", c.at(fn), isS && e.sliceSeq(q.r.st, sl) == rightAligned(q.F, sb, bv.f[1].(*Term)), q.show(v))
	for name, path := range names {
		v, nt := field(o, name)
		t, tt := at(dec.val, dec.typ, path...)
		full := e.reify(q.r.st, e.fromTerm(t, tt), tt)
		good := false
		for _, k := range q.decs {
			if k.d == full && k.shape == rdnShape {
				zero := e.reify(q.r.st, e.zero(nt), nt)
				w := rawOp("fillname", "", 0, zero, e.reify(q.r.st, e.fromTerm(k.val, k.typ), k.typ))
				good = good || q.same(v, nt, w)
			}
		}
		c.ob(rule, p.name+": "+name, c.at(fn), good, q.show(v))
	}
}

const rdnShape = "SEQOF(SETOF(SEQ(OID,ANY)))"

func checkCSRVerify(c *Check) {
	c.explain = "VerifyCSRSign is interpreted with a request whose key is of any dynamic type, sm2.Verify being opaque; VerifyDERCSRSign with ParseCertificateRequest opaque. The results are compared with sm2.Verify(own key, user id, tbs bytes, signature)."
	c.rule("own-key", "VerifyCSRSign returns exactly sm2.Verify(the request's SM2 key, user id, RawTBSCertificateRequest, Signature), and false for any other kind of key")
	c.rule("from-der", "VerifyDERCSRSign returns the parser's error with false, and otherwise the result for the parsed request with the same user id")
	verify := func(x *certCtx) {
		x.lib["github.com/ZZMarquis/gm/sm2.Verify"] = func(e *Engine, c *callCtx) []*Result {
			return c.ret(verifyTerm(e, c.st, c.args[0], c.args[1], c.args[2], c.args[3]))
		}
	}
	// every kind of key
	x := c.cert()
	e := x.e
	verify(x)
	fn := x.fnOf("own-key", "VerifyCSRSign", 2)
	if fn == nil {
		return
	}
	pubT := c.ld.typ("sm2", "PublicKey")
	if pubT == nil {
		c.fail("own-key", "sm2.PublicKey", "sm2", "the type does not exist")
		return
	}
	kinds := []struct {
		name string
		v    func() Value
	}{
		{"*sm2.PublicKey", func() Value {
			return &Iface{typ: types.NewPointer(pubT), val: e.fromTerm(Sym("arg:key"), types.NewPointer(pubT)), nilT: TFalse}
		}},
		{"sm2.PublicKey", func() Value { return &Iface{typ: pubT, val: e.fromTerm(Sym("arg:key"), pubT), nilT: TFalse} }},
		{"nil", func() Value { return nilIface }},
		{"int", func() Value { return &Iface{typ: types.Typ[types.Int], val: Sym("arg:key"), nilT: TFalse} }},
		{"string", func() Value {
			return &Iface{typ: types.Typ[types.String], val: SubBase(Sym("arg:key"), C(0), LenOf(Sym("arg:key"))), nilT: TFalse}
		}},
	}
	for i, k := range kinds {
		st := e.newState()
		set := map[string]map[string]Value{"0": {"PublicKey": k.v()}}
		var raw, sig Value
		raw, _ = x.bytesVal(st, "arg:tbs", false)
		sig, _ = x.bytesVal(st, "arg:sig", false)
		set["0"]["RawTBSCertificateRequest"], set["0"]["Signature"] = raw, sig
		other, _ := x.bytesVal(st, "arg:raw", false)
		set["0"]["Raw"] = other
		as, _ := x.args(fn, st, map[string]bool{"0": true}, set)
		want := TFalse
		if i == 0 {
			iv := set["0"]["PublicKey"].(*Iface)
			want = verifyTerm(e, st, iv.val, as[1], raw, sig)
		}
		rs := x.run(fn, as, st, "own-key", "VerifyCSRSign")
		for _, r := range rs {
			good := x.isBoolTerm(r, r.vals[0], want)
			c.ob("own-key", "key of type "+k.name, c.at(fn), good, fmt.Sprint(r.vals[0]))
		}
	}
	x = c.cert()
	e = x.e
	verify(x)
	fn = x.fnOf("from-der", "VerifyDERCSRSign", 2)
	parse := c.ld.fn(certPkg, "ParseCertificateRequest")
	if fn == nil || parse == nil {
		return
	}
	x.lib["github.com/ZZMarquis/gm/sm2/cert.ParseCertificateRequest"] = func(e *Engine, c *callCtx) []*Result {
		d := e.bytesOf(c.st, c.args[0])
		return c.cases(rawOp("csrok", "", 0, d), func(st *State) []Value {
			p := e.fromTerm(rawOp("csr", "", 0, d), parse.Signature.Results().At(0).Type()).(*Ptr)
			// a parsed request holds an SM2 key
			u := p.obj.typ.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "PublicKey" {
					e.storeAt(st, p.obj, fmt.Sprintf(".%d", i), u.Field(i).Type(), kinds0(e, pubT))
				}
			}
			return []Value{&Ptr{obj: p.obj, nilT: TFalse}, nilIface}
		}, func(st *State) []Value {
			return []Value{&Ptr{nilT: TTrue}, &Iface{t: Sym("parse-error"), nilT: TFalse}}
		})
	}
	st := e.newState()
	as, _ := x.args(fn, st, nil, nil)
	d := e.bytesOf(st, as[0])
	rs := x.run(fn, as, st, "from-der", "VerifyDERCSRSign")
	ok, bad := x.exits(rs)
	okc := rawOp("csrok", "", 0, d)
	c.ob("from-der", "succeeds for some input", c.at(fn), len(ok) > 0, "no success exit")
	c.ob("from-der", "fails for some input", c.at(fn), len(bad) > 0, "no failure exit")
	for _, q := range ok {
		pt := parse.Signature.Results().At(0).Type()
		p := e.fromTerm(rawOp("csr", "", 0, d), pt).(*Ptr)
		sv := e.loadPtr(q.r.st, p, p.obj.typ).(*StructV)
		raw, _ := field(sv, "RawTBSCertificateRequest")
		sig, _ := field(sv, "Signature")
		want := verifyTerm(e, q.r.st, kinds0(e, pubT).(*Iface).val, as[1], raw, sig)
		c.ob("from-der", "parsed request", c.at(fn), q.F.Eval(okc) == 1 && x.isBoolTermF(q.F, q.r.vals[0], want), fmt.Sprint(q.r.vals[0]))
	}
	for _, q := range bad {
		iv, _ := q.r.vals[1].(*Iface)
		c.ob("from-der", "unparsable request", c.at(fn), q.F.Eval(okc) == -1 && q.r.vals[0] == TFalse && iv != nil && iv.nilT == TFalse, fmt.Sprint(q.r.vals[0]))
	}
}

func kinds0(e *Engine, pubT types.Type) Value {
	return &Iface{typ: types.NewPointer(pubT), val: e.fromTerm(Sym("arg:key"), types.NewPointer(pubT)), nilT: TFalse}
}

func verifyTerm(e *Engine, st *State, key, uid, msg, sig Value) *Term {
	k := nilTerm
	if p, ok := key.(*Ptr); ok && p.obj != nil {
		k = e.reify(st, p, types.NewPointer(p.obj.typ))
	}
	return rawOp("cond", "sm2verify", 0, k, e.bytesOf(st, uid), e.bytesOf(st, msg), e.bytesOf(st, sig))
}

func (x *certCtx) isBoolTerm(r *Result, v Value, want *Term) bool {
	return x.isBoolTermF(r.st.facts, v, want)
}

// isBoolTermF: the Boolean is the wanted one, also when branches decided it.
func (x *certCtx) isBoolTermF(F *Facts, v Value, want *Term) bool {
	t, ok := v.(*Term)
	if !ok {
		return false
	}
	if t == want {
		return true
	}
	y, n := split(F, t)
	return (y == nil || y.Eval(want) == 1) && (n == nil || n.Eval(want) == -1)
}

func init() {
	addCheck("C23", "other", absInt, checkBinding)
	addCheck("C24", "other", absInt, checkCSRVerify)
}
