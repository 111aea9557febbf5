package main

// Certificates and certificate requests: scenario runs of the exported
// functions, on DER values known only through what encoding/asn1 decodes from
// them.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const certPkg = "sm2/cert"

type certCtx struct {
	*cbCtx
	// over: what the scenario knows about the value decoded from d
	over func(d *Term, shape string, val *Term, typ types.Type) (*Term, *Term)
	lib  map[string]modelFn
	dec  map[string]certDec
	// preps set up the state of every scenario
	preps []func(st *State)
}

type certDec struct {
	shape string
	d     *Term
	val   *Term
	typ   types.Type
	rest  *Term
}

func (c *Check) cert() *certCtx {
	x := &certCtx{cbCtx: c.cb(certPkg), lib: map[string]modelFn{}, dec: map[string]certDec{}}
	x.e.hookFn = func(name string) modelFn { return x.lib[name] }
	x.e.decodeHook = func(d *Term, typ types.Type, val *Term) (*Term, *Term) {
		sh := shapeOf(typ)
		var rest *Term
		if x.over != nil {
			v, r := x.over(d, sh, val, typ)
			if v != nil {
				val = v
			}
			rest = r
		}
		x.dec[fmt.Sprintf("%s|%d", sh, d.id)] = certDec{sh, d, val, typ, rest}
		return val, rest
	}
	return x
}

// with replaces parts of a term of the given type by path.
func with(t *Term, typ types.Type, path string, over map[string]*Term) *Term {
	if o := over[path]; o != nil {
		return o
	}
	sub := false
	for k := range over {
		if strings.HasPrefix(k, path+".") || path == "" {
			sub = true
		}
	}
	if !sub {
		return t
	}
	u, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return t
	}
	var a []*Term
	for i := 0; i < u.NumFields(); i++ {
		p := fmt.Sprintf("%s.%d", path, i)
		if path == "" {
			p = fmt.Sprint(i)
		}
		a = append(a, with(projTerm(t, i, u), u.Field(i).Type(), p, over))
	}
	return rawOp("struct", "", 0, a...)
}

// at projects by position.
func at(t *Term, typ types.Type, path ...int) (*Term, types.Type) {
	for _, i := range path {
		u, ok := typ.Underlying().(*types.Struct)
		if !ok || i >= u.NumFields() {
			return nil, nil
		}
		t, typ = projTerm(t, i, u), u.Field(i).Type()
	}
	return t, typ
}

func oidSeq(s string) *Term {
	var ps []*Term
	for _, f := range strings.Split(s, ".") {
		n := int64(0)
		fmt.Sscan(f, &n)
		ps = append(ps, ElemW(C(n)))
	}
	return MkSeq(ps...)
}

const (
	oidSM2SM3 = "1.2.156.10197.1.501"
	oidEC     = "1.2.840.10045.2.1"
	oidCurve  = "1.2.156.10197.1.301"

	extShape  = "SEQ(OID,[optional]BOOL,OCT)"
	algShape  = "SEQ(OID,[optional]RAW)"
	spkiShape = "SEQ(RAWCONTENT," + algShape + ",BIT)"
	tbsShape  = "SEQ(RAWCONTENT,[optional,explicit,default:0,tag:0]INT,INT," + algShape + ",RAW,SEQ(TIME,TIME),RAW," + spkiShape + ",[optional,tag:1]BIT,[optional,tag:2]BIT,[optional,explicit,tag:3]SEQOF(" + extShape + "))"
	certShape = "SEQ(RAWCONTENT," + tbsShape + "," + algShape + ",BIT)"
	reqShape  = "SEQ(RAWCONTENT,SEQ(RAWCONTENT,INT,RAW," + spkiShape + ",[tag:0]SEQOF(RAW))," + algShape + ",BIT)"
)

// cexit is a success exit of a parse.
type cexit struct {
	x    *certCtx
	r    *Result
	F    *Facts
	decs []certDec
}

func (x *certCtx) exits(rs []*Result) (ok []*cexit, failed []*cexit) {
	for _, r := range rs {
		if r.pan != nil {
			x.c.fail("analysable", "no panic", "-", "the function panics")
			continue
		}
		ex := &Exit{nil, r.st.facts, r.st, r.vals, 0}
		y, n := ex.errCases()
		var ds []certDec
		for _, ev := range r.st.events() {
			if ev.kind == "unmarshal" && len(ev.args) == 3 {
				if d, ok := x.dec[fmt.Sprintf("%s|%d", ev.args[2].s, ev.args[1].id)]; ok {
					d.rest = ev.args[0]
					ds = append(ds, d)
				}
			}
		}
		if y != nil {
			q := &cexit{x, r, y, ds}
			ok = append(ok, q)
			if x.c.onExit != nil {
				x.c.onExit(q)
			}
		}
		if n != nil {
			failed = append(failed, &cexit{x, r, n, ds})
		}
	}
	return
}

// decodeOf finds the decode of the given data.
func (q *cexit) decodeOf(d *Term, shape string) *certDec {
	for i := range q.decs {
		if q.decs[i].d == d && q.decs[i].shape == shape {
			return &q.decs[i]
		}
	}
	return nil
}

// obj is the struct behind a returned pointer.
func (q *cexit) obj(k int) *StructV {
	p, ok := q.r.vals[k].(*Ptr)
	if !ok || p.obj == nil || q.F.Eval(p.nilT) != -1 {
		return nil
	}
	sv, _ := q.x.e.loadPtr(q.r.st, p, p.objType()).(*StructV)
	return sv
}

func (p *Ptr) objType() types.Type { return typeAtPath(p.obj.typ, p.path) }

func field(sv *StructV, name string) (Value, types.Type) {
	u := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return sv.f[i], u.Field(i).Type()
		}
	}
	return nil, nil
}

// norm drops the names of struct types from a term.
func norm(t *Term) *Term {
	switch t.op {
	case "struct", "iface":
		a := make([]*Term, len(t.args))
		for i := range a {
			a[i] = norm(t.args[i])
		}
		s := ""
		if t.op == "iface" {
			s = t.s
		}
		return rawOp(t.op, s, 0, a...)
	case "der", "seq", "elemw", "elem":
		if len(t.args) == 0 {
			return t
		}
		a := make([]*Term, len(t.args))
		for i := range a {
			a[i] = norm(t.args[i])
		}
		return rawOp(t.op, t.s, t.w, a...)
	case "sub":
		if b := t.args[0]; b.op == "der" && t.args[1].isCi(0) && t.args[2] == LenOf(b) {
			n := norm(b)
			return SubBase(n, C(0), LenOf(n))
		}
	}
	return t
}

// same: the value is what the term of the same type says.
func (q *cexit) same(v Value, typ types.Type, want *Term) bool {
	e := q.x.e
	a := norm(e.reify(q.r.st, v, typ))
	b := norm(e.reify(q.r.st, e.fromTerm(want, typ), typ))
	if a == b {
		return true
	}
	if isSeqOp(a) && isSeqOp(b) {
		return q.F.Eval(seqEqCond(&State{facts: q.F}, a, b)) == 1
	}
	if isInteger(typ) {
		return q.F.Eval(Eq(a, b)) == 1
	}
	return false
}

func (q *cexit) show(v Value) string { return cutMid(q.x.e.showVal(q.r.st, v, 0), 500) }

// isOID: the facts make the decoded identifier the given one.
func (q *cexit) isOID(t *Term, typ types.Type, oid string) bool {
	s := q.x.e.reify(q.r.st, q.x.e.fromTerm(t, typ), typ)
	return q.F.Eval(seqEqCond(&State{facts: q.F}, s, oidSeq(oid))) == 1
}

func (x *certCtx) input(st *State, key string) (*Slice, *Term) {
	n := LenOf(Sym(key))
	st.facts = st.facts.Assume(GE0(n), true)
	s := SubBase(Sym(key), C(0), n)
	return x.slice(st, key, s), s
}

// parse runs one of the parsers on symbolic DER.
func (x *certCtx) parse(rule, name string, what string) (fn *ssa.Function, ok, failed []*cexit, d *Term) {
	fn = x.fnOf(rule, name, 1)
	if fn == nil {
		return
	}
	st := x.e.newState()
	var in *Slice
	in, d = x.input(st, "der")
	rs := x.run(fn, []Value{in}, st, rule, what)
	ok, failed = x.exits(rs)
	return
}

type certParser struct {
	name, shape string
	spki        []int // path of the key information
	sig         []int
	lists       map[string]*Term
}

func certParsers() []certParser {
	return []certParser{
		{"ParseCertificate", certShape, []int{1, 7}, []int{2, 0}, map[string]*Term{"1.10": EmptySeq}},
		{"ParseCertificateRequest", reqShape, []int{1, 3}, []int{2, 0}, map[string]*Term{"1.4": EmptySeq}},
	}
}

func (x *certCtx) plain(p certParser) {
	x.over = func(d *Term, shape string, val *Term, typ types.Type) (*Term, *Term) {
		if shape == p.shape {
			return with(val, typ, "", p.lists), nil
		}
		return nil, nil
	}
}

func checkAlgorithms(c *Check) {
	c.explain = "ParseCertificate and ParseCertificateRequest are interpreted abstractly on an arbitrary input whose DER decoding is symbolic (any algorithm identifiers, key bits, names), with no extensions or attributes; every exit without error must have established the signature algorithm, key algorithm and curve identifiers and that the key bits are an uncompressed point on the SM2 curve, and must return that point."
	c.rule("structure", "the input is decoded as a certificate or certification request")
	c.rule("signature-algorithm", "success implies that the signature algorithm identifier is SM2-with-SM3")
	c.rule("key-algorithm", "success implies that the key algorithm identifier is the EC one")
	c.rule("curve", "success implies that the key's parameters are a DER identifier equal to the SM2 curve's")
	c.rule("point", "success implies that the key bits are 65 bytes 04||x||y with (x,y) on the curve")
	c.rule("returned-key", "the returned key is the SM2 curve with these coordinates")
	for _, p := range certParsers() {
		x := c.cert()
		x.plain(p)
		fn, ok, _, d := x.parse("structure", p.name, p.name)
		if fn == nil {
			continue
		}
		c.ob("structure", p.name+": succeeds for some input", c.at(fn), len(ok) > 0, "no success exit")
		for _, q := range ok {
			dec := q.decodeOf(d, p.shape)
			if dec == nil {
				c.fail("structure", p.name, c.at(fn), "the input is not decoded with the structure "+p.shape)
				continue
			}
			c.ob("structure", p.name, c.at(fn), true, "")
			w := q.F.String()
			t, ty := at(dec.val, dec.typ, p.sig...)
			c.ob("signature-algorithm", p.name, c.at(fn), q.isOID(t, ty, oidSM2SM3), cutMid(w, 900))
			ki, kt := at(dec.val, dec.typ, p.spki...)
			t, ty = at(ki, kt, 1, 0)
			c.ob("key-algorithm", p.name, c.at(fn), q.isOID(t, ty, oidEC), cutMid(w, 900))
			t, ty = at(ki, kt, 1, 1, 4)
			params := x.e.reify(q.r.st, x.e.fromTerm(t, ty), ty)
			cd := q.decodeOf(params, "OID")
			c.ob("curve", p.name, c.at(fn), cd != nil && q.isOID(cd.val, cd.typ, oidCurve), "when "+cutMid(w, 900))
			bits, bt := at(ki, kt, 2)
			sv := x.e.fromTerm(bits, bt).(*StructV)
			raw := x.e.bytesOf(q.r.st, sv.f[0])
			pt := rightAligned(q.F, raw, sv.f[1].(*Term))
			X, Y := NatVal(subSeqOr(q.F, pt, C(1), C(32)), 0), NatVal(subSeqOr(q.F, pt, C(33), C(32)), 0)
			c.ob("point", p.name, c.at(fn), q.F.Eval(Eq(SeqLen(pt), C(65))) == 1 && q.F.Eval(Eq(AtSeq(pt, C(0), q.F), C(4))) == 1 && q.F.Eval(onCurve(X, Y)) == 1, "when "+cutMid(w, 900))
			o := q.obj(0)
			if o == nil {
				c.fail("returned-key", p.name, c.at(fn), "no object is returned")
				continue
			}
			pk, _ := field(o, "PublicKey")
			c.ob("returned-key", p.name, c.at(fn), q.isKey(pk, X, Y), q.show(pk))
		}
	}
}

func rightAligned(F *Facts, b, n *Term) *Term {
	if F.Eval(EQ0(FMod(n, 8))) == 1 || b == EmptySeq {
		return b
	}
	return SubBase(rawOp("rightalign", "", 0, b, n), C(0), SeqLen(b))
}

// isKey: a *sm2.PublicKey on the package's curve with these coordinates.
func (q *cexit) isKey(v Value, X, Y *Term) bool {
	e := q.x.e
	iv, ok := v.(*Iface)
	if !ok || iv.typ == nil {
		return false
	}
	pt, ok := iv.typ.(*types.Pointer)
	if !ok || !namedIs(pt.Elem(), "github.com/ZZMarquis/gm/sm2", "PublicKey") {
		return false
	}
	p, ok := iv.val.(*Ptr)
	if !ok || p.obj == nil || q.F.Eval(p.nilT) != -1 {
		return false
	}
	sv, ok := e.loadPtr(q.r.st, p, pt.Elem()).(*StructV)
	if !ok {
		return false
	}
	cv, _ := field(sv, "Curve")
	x, _ := field(sv, "X")
	y, _ := field(sv, "Y")
	xp, ok1 := x.(*Ptr)
	yp, ok2 := y.(*Ptr)
	if !ok1 || !ok2 || xp.obj == nil || yp.obj == nil {
		return false
	}
	return e.bigVal(q.r.st, xp) == X && e.bigVal(q.r.st, yp) == Y && isCurveVal(e, cv)
}

func isCurveVal(e *Engine, v Value) bool {
	sv, ok := v.(*StructV)
	return ok && e.curveVal != nil && sameVal(sv, e.curveVal)
}

func init() {
	addCheck("C22", "other", absInt, checkAlgorithms)
}
