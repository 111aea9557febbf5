package main

// Certificate extensions: writing.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wext is an extension that must be written.
type wext struct {
	id   string
	crit *Term
	val  *Term                // exact contents
	okV  func(v *Term) string // or a judgement of them
}

type writeCase struct {
	rule, what string
	set        map[string]Value // template fields
	parent     map[string]Value
	extras     []extn
	assume     []*Term
	split      []*Term
	subject    *Term
	// want yields the generated extensions under the facts; refuse says that
	// there must be an error instead
	want   func(F *Facts) (w []wext, refuse bool)
	mayErr bool
	// known: what the facts say about symbols of the template
	known func(F *Facts) map[*Term]*Term
}

func derSeq(shape string, v *Term) *Term {
	d := rawOp("der", shape, 0, v)
	return SubBase(d, C(0), LenOf(d))
}

func strct(a ...*Term) *Term { return rawOp("struct", "", 0, a...) }

func (x *certCtx) infoFn(rule string) *ssa.Function { return x.fnOf(rule, "CreateCertificateInfo", 3) }

// tfield is the type of a field of the template.
func (x *certCtx) tfield(fn *ssa.Function, name string) types.Type {
	u := deref(fn.Params[0].Type()).Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return u.Field(i).Type()
		}
	}
	return types.Typ[types.Int]
}

func (x *certCtx) fval(fn *ssa.Function, name string, t *Term) Value {
	return x.e.fromTerm(t, x.tfield(fn, name))
}

func names(prefix string, n int) []*Term {
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, symBytes(fmt.Sprintf("arg:%s%d", prefix, i)))
	}
	return r
}

func (x *certCtx) writeExt(b writeCase) {
	c, e := x.c, x.e
	fn := x.infoFn(b.rule)
	if fn == nil {
		return
	}
	where := c.at(fn)
	st := e.newState()
	for _, t := range b.assume {
		st.facts = st.facts.Assume(t, true)
	}
	for _, f := range x.preps {
		f(st)
	}
	set := map[string]map[string]Value{"0": {}, "1": {}, "2": {}}
	for k, v := range b.set {
		set["0"][k] = v
	}
	for k, v := range b.parent {
		set["1"][k] = v
	}
	if b.subject == nil {
		set["0"]["RawSubject"], b.subject = x.bytesVal(st, "arg:subject0", true)
	} else {
		set["0"]["RawSubject"] = e.fromTerm(b.subject, byteSliceT)
	}
	set["1"]["RawSubject"], _ = x.bytesVal(st, "arg:subject1", true)
	set["2"]["RawSubjectPublicKeyInfo"], _ = x.bytesVal(st, "arg:spki", false)
	var es []*Term
	for _, ex := range b.extras {
		es = append(es, ex.term())
		st.facts = st.facts.Assume(GE0(SeqLen(ex.val)), true).Assume(GE0(SeqLen(ex.id)), true)
	}
	set["0"]["ExtraExtensions"] = x.fval(fn, "ExtraExtensions", seqOf(es...))
	as, _ := x.args(fn, st, map[string]bool{"0": true, "1": true, "2": true}, set)
	rs := x.run(fn, as, st, b.rule, b.what)
	ok, bad := x.exits(rs)
	x.noResult(b.rule, b.what, fn, bad)
	nok := 0
	for _, q := range ok {
		for _, F := range splitAll(q.F, b.split...) {
			w, refuse := b.want(F)
			if refuse {
				c.fail(b.rule, b.what+": refused", where, "accepted when "+cutMid(F.String(), 600))
				continue
			}
			nok++
			o := q.obj(0)
			if o == nil {
				c.fail(b.rule, b.what, where, "no certificate information is returned")
				continue
			}
			rawV, _ := field(o, "Raw")
			a := derOf(e.bytesOf(q.r.st, rawV), tbsShape)
			if len(a) != 11 {
				c.fail(b.rule, b.what, where, "Raw is not the encoding of certificate information")
				continue
			}
			list := a[10]
			if b.known != nil {
				list = Subst(list, b.known(F))
			}
			diff := sameExts(F, list, w, b.extras)
			c.ob(b.rule, b.what, where, diff == "", diff+" when "+cutMid(F.String(), 500))
		}
	}
	// failures must not have another reason than the library's
	if !b.mayErr {
		refusable := false
		for _, q := range bad {
			for _, F := range splitAll(q.F, b.split...) {
				if _, r := b.want(F); r {
					refusable = true
				}
			}
		}
		if !refusable {
			c.ob(b.rule, b.what+": accepted for some input", where, nok > 0, "no success exit")
		}
	}
}

// sameExts compares a list of extensions with the wanted ones, in any order.
func sameExts(F *Facts, list *Term, want []wext, extras []extn) string {
	var got []*Term
	for _, p := range pieces(norm(list)) {
		if p.op == "repw" && p.args[0].op == "struct" {
			n, ok := p.args[1].i64()
			for i := int64(0); ok && i < n; i++ {
				got = append(got, p.args[0])
			}
			continue
		}
		if p.op != "elemw" || p.args[0].op != "struct" || len(p.args[0].args) != 3 {
			return "the list of extensions is not known: " + cutMid(list.String(), 400)
		}
		got = append(got, p.args[0])
	}
	used := make([]bool, len(got))
	find := func(f func(a []*Term) string) string {
		why := "absent"
		for i, g := range got {
			if used[i] {
				continue
			}
			s := f(g.args)
			if s == "" {
				used[i] = true
				return ""
			}
			if s != "absent" {
				why = s
			}
		}
		return why
	}
	for _, x := range extras {
		if s := find(func(a []*Term) string {
			if a[0] == norm(x.id) && a[1] == x.crit && norm(a[2]) == norm(x.val) {
				return ""
			}
			return "absent"
		}); s != "" {
			return "an explicit extension is lost or changed: " + cutMid(list.String(), 400)
		}
	}
	for _, w := range want {
		if s := find(func(a []*Term) string {
			if a[0] != oidSeq(w.id) {
				return "absent"
			}
			if w.crit != nil && !eqBool(F, a[1], w.crit) {
				return "criticality " + a[1].String() + " instead of " + w.crit.String()
			}
			if w.val != nil && norm(a[2]) != norm(w.val) {
				return "contents " + cutMid(a[2].String(), 400) + " instead of " + cutMid(norm(w.val).String(), 400)
			}
			if w.okV != nil {
				return w.okV(norm(a[2]))
			}
			return ""
		}); s != "" {
			return "extension " + w.id + ": " + s
		}
	}
	for i, g := range got {
		if !used[i] {
			return "unexpected extension " + cutMid(g.String(), 300)
		}
	}
	return ""
}

func eqBool(F *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	x, y := F.Eval(a), F.Eval(b)
	return x == y && x != 0
}

// wkind is one kind of generated extension, for use in combinations.
type wkind struct {
	name string
	id   string
	set  func(fn *ssa.Function) map[string]Value
	want func(F *Facts) wext
}

func (c *Check) writeExtensions() {
	c.rule("write", "an extension is generated exactly when its template fields are set, with its identifier, criticality and contents")
	c.rule("explicit", "an explicit extension suppresses the generated one with the same identifier and no other; all explicit extensions are kept")
	c.rule("together", "all extensions together are each written once")
	x := c.cert()
	fn := x.infoFn("write")
	if fn == nil {
		return
	}
	// key usage: every set of usages
	for u := int64(0); u < 512; u++ {
		x.writeExt(writeCase{rule: "write", what: "key usage", set: map[string]Value{"KeyUsage": C(u)},
			want: func(F *Facts) ([]wext, bool) {
				if u == 0 {
					return nil, false
				}
				return []wext{{"2.5.29.15", TTrue, derSeq("BIT", namedBits(u)), nil}}, false
			}})
	}
	// basic constraints
	valid, ca, zero, mpl := rawOp("cond", "bcvalid", 0), rawOp("cond", "isca", 0), rawOp("cond", "mplzero", 0), Sym("arg:mpl")
	x.writeExt(writeCase{rule: "write", what: "basic constraints", set: map[string]Value{"BasicConstraintsValid": valid, "IsCA": ca, "MaxPathLen": mpl, "MaxPathLenZero": zero},
		split: []*Term{valid, zero, EQ0(mpl)}, want: func(F *Facts) ([]wext, bool) {
			if F.Eval(valid) == -1 {
				return nil, false
			}
			m := mpl
			if F.Eval(EQ0(mpl)) == 1 {
				if F.Eval(zero) == -1 {
					m = C(-1)
				} else {
					m = C(0)
				}
			}
			return []wext{{id: "2.5.29.19", crit: TTrue, okV: func(v *Term) string {
				a := derOf(v, bcShape)
				if len(a) == 2 && F.Eval(Eq(a[1], m)) == 1 && eqBool(F, a[0], ca) {
					return ""
				}
				return "contents " + cutMid(v.String(), 300)
			}}}, false
		}})
	// key identifiers
	ski, aki, pski := symBytes("arg:ski"), symBytes("arg:aki"), symBytes("arg:pski")
	lens := []*Term{GE0(SeqLen(ski)), GE0(SeqLen(aki)), GE0(SeqLen(pski))}
	noSki := EQ0(SeqLen(ski))
	x.writeExt(writeCase{rule: "write", what: "subject key id", assume: lens, set: map[string]Value{"SubjectKeyId": x.fval(fn, "SubjectKeyId", ski)},
		split: []*Term{noSki}, want: func(F *Facts) ([]wext, bool) {
			if F.Eval(noSki) == 1 {
				return nil, false
			}
			return []wext{{"2.5.29.14", TFalse, derSeq("OCT", ski), nil}}, false
		}})
	self := seqEqCond(&State{facts: NoFacts}, symBytes("arg:subject0"), symBytes("arg:subject1"))
	noP, noA := EQ0(SeqLen(pski)), EQ0(SeqLen(aki))
	x.writeExt(writeCase{rule: "write", what: "authority key id", assume: lens, set: map[string]Value{"AuthorityKeyId": x.fval(fn, "AuthorityKeyId", aki)},
		parent: map[string]Value{"SubjectKeyId": x.fval(fn, "SubjectKeyId", pski)},
		split:  []*Term{self, noP, noA}, want: func(F *Facts) ([]wext, bool) {
			id := aki
			if F.Eval(self) == -1 && F.Eval(noP) == -1 {
				id = pski
			} else if F.Eval(noA) == 1 {
				return nil, false
			}
			return []wext{{"2.5.29.35", TFalse, derSeq("SEQ([optional,tag:0]OCT)", strct(id)), nil}}, false
		}})
	for _, k := range x.writeKinds(fn) {
		x.writeExt(writeCase{rule: "write", what: k.name, set: k.set(fn), assume: nameFacts(), split: []*Term{subjEmpty(symBytes("arg:subject0"))},
			want: func(F *Facts) ([]wext, bool) { return []wext{k.want(F)}, false }})
	}
	// alternative names of a certificate without subject
	x.writeExt(writeCase{rule: "write", what: "alternative names, empty subject", subject: Bytes("\x30\x00"), assume: nameFacts(),
		set: map[string]Value{"DNSNames": x.fval(fn, "DNSNames", seqOf(names("dns", 1)...))},
		want: func(F *Facts) ([]wext, bool) {
			return []wext{{"2.5.29.17", TTrue, sanDER(sanName(2, names("dns", 1)[0])), nil}}, false
		}})
	c.writeExplicit(x, fn)
}

func subjEmpty(subject *Term) *Term {
	return seqEqCond(&State{facts: NoFacts}, subject, Bytes("\x30\x00"))
}

func nameFacts() []*Term {
	var r []*Term
	for _, p := range []string{"dns", "email", "uri", "ocsp", "iss", "cdp", "policy", "unkeku", "ski", "aki"} {
		for i := 0; i < 3; i++ {
			r = append(r, GE0(LenOf(Sym(fmt.Sprintf("arg:%s%d", p, i)))))
		}
	}
	return r
}

// namedBits is the DER form of a set of named bits: no trailing zero bits.
func namedBits(u int64) *Term {
	n := 0
	for u>>uint(n) != 0 {
		n++
	}
	b := make([]byte, (n+7)/8)
	for i := 0; i < n; i++ {
		if u>>uint(i)&1 == 1 {
			b[i/8] |= 1 << (7 - uint(i%8))
		}
	}
	return strct(Bytes(string(b)), C(int64(n)))
}

func sanName(tag int64, b *Term) *Term { return strct(C(2), C(tag), TFalse, b, EmptySeq) }

func sanDER(ns ...*Term) *Term { return derSeq("SEQOF(RAW)", seqOf(ns...)) }

// writeKinds: one template per kind of extension and per field that triggers
// it.
func (x *certCtx) writeKinds(fn *ssa.Function) []wkind {
	var r []wkind
	add := func(name, id string, crit func(F *Facts) *Term, val *Term, fields map[string]*Term) {
		r = append(r, wkind{name, id, func(fn *ssa.Function) map[string]Value {
			m := map[string]Value{}
			for k, t := range fields {
				m[k] = x.fval(fn, k, t)
			}
			return m
		}, func(F *Facts) wext { return wext{id, crit(F), val, nil} }})
	}
	no := func(*Facts) *Term { return TFalse }
	san := func(F *Facts) *Term { return CBool(F.Eval(subjEmpty(symBytes("arg:subject0"))) == 1) }
	aia := func(o, i int) {
		var es []*Term
		for _, n := range names("ocsp", o) {
			es = append(es, strct(oidSeq("1.3.6.1.5.5.7.48.1"), sanName(6, n)))
		}
		for _, n := range names("iss", i) {
			es = append(es, strct(oidSeq("1.3.6.1.5.5.7.48.2"), sanName(6, n)))
		}
		add(fmt.Sprintf("information access %d+%d", o, i), "1.3.6.1.5.5.7.1.1", no, derSeq(aiaShape, seqOf(es...)),
			map[string]*Term{"OCSPServer": seqOf(names("ocsp", o)...), "IssuingCertificateURL": seqOf(names("iss", i)...)})
	}
	aia(2, 2)
	aia(1, 0)
	aia(0, 1)
	var ps []*Term
	for _, n := range names("policy", 3) {
		ps = append(ps, strct(n))
	}
	for n := 1; n <= 3; n++ {
		add(fmt.Sprintf("%d policies", n), "2.5.29.32", no, derSeq("SEQOF(SEQ(OID))", seqOf(ps[:n]...)), map[string]*Term{"PolicyIdentifiers": seqOf(names("policy", n)...)})
	}
	var ds []*Term
	for _, n := range names("cdp", 3) {
		ds = append(ds, strct(strct(seqOf(sanName(6, n)), EmptySeq), strct(EmptySeq, C(0)), strct(C(0), C(0), TFalse, EmptySeq, EmptySeq)))
	}
	for n := 1; n <= 3; n++ {
		add(fmt.Sprintf("%d distribution points", n), "2.5.29.31", no, derSeq(cdpShape, seqOf(ds[:n]...)), map[string]*Term{"CRLDistributionPoints": seqOf(names("cdp", n)...)})
	}
	add("extended key usage, known", "2.5.29.37", no, derSeq("SEQOF(OID)", seqOf(oidSeq(ekuOID[1]), oidSeq(ekuOID[2]))), map[string]*Term{"ExtKeyUsage": seqOf(C(1), C(2))})
	add("extended key usage, unknown", "2.5.29.37", no, derSeq("SEQOF(OID)", seqOf(names("unkeku", 2)...)), map[string]*Term{"UnknownExtKeyUsage": seqOf(names("unkeku", 2)...)})
	add("extended key usage, both", "2.5.29.37", no, derSeq("SEQOF(OID)", seqOf(append([]*Term{oidSeq(ekuOID[4])}, names("unkeku", 1)...)...)), map[string]*Term{"ExtKeyUsage": seqOf(C(4)), "UnknownExtKeyUsage": seqOf(names("unkeku", 1)...)})
	add("DNS names", "2.5.29.17", san, sanDER(sanName(2, names("dns", 2)[0]), sanName(2, names("dns", 2)[1])), map[string]*Term{"DNSNames": seqOf(names("dns", 2)...)})
	add("e-mail names", "2.5.29.17", san, sanDER(sanName(1, names("email", 1)[0])), map[string]*Term{"EmailAddresses": seqOf(names("email", 1)...)})
	ip := SubBase(Sym("arg:ip4"), C(0), C(4))
	add("IP names", "2.5.29.17", san, sanDER(sanName(7, ip)), map[string]*Term{"IPAddresses": seqOf(ip)})
	u := Sym("arg:url0")
	us := rawOp("urlstr", "", 0, u)
	add("URI names", "2.5.29.17", san, sanDER(sanName(6, SubBase(us, C(0), LenOf(us)))), map[string]*Term{"URIs": seqOf(u)})
	// name constraints: presence and criticality; the contents are C27's
	crit := rawOp("cond", "nccritical", 0)
	for _, f := range strings.Fields("PermittedDNSDomains ExcludedDNSDomains PermittedIPRanges ExcludedIPRanges PermittedEmailAddresses ExcludedEmailAddresses PermittedURIDomains ExcludedURIDomains") {
		fields := map[string]*Term{f: seqOf(Bytes("a.b"))}
		r = append(r, wkind{"name constraints " + f, "2.5.29.30", func(fn *ssa.Function) map[string]Value {
			m := map[string]Value{"PermittedDNSDomainsCritical": crit}
			if strings.HasSuffix(f, "IPRanges") {
				m[f] = x.ipNets(fn, f, 4)
			} else {
				m[f] = x.fval(fn, f, fields[f])
			}
			return m
		}, func(F *Facts) wext {
			return wext{"2.5.29.30", crit, nil, func(v *Term) string {
				if SeqLen(v).isC() && !SeqLen(v).isCi(0) {
					return ""
				}
				return "contents " + cutMid(v.String(), 200)
			}}
		}})
	}
	return r
}

// ipNets is a list of one network with addresses of n bytes.
func (x *certCtx) ipNets(fn *ssa.Function, f string, n int64) Value {
	lt := x.tfield(fn, f)
	pt := elemType(lt).(*types.Pointer)
	t := Sym(fmt.Sprintf("arg:ipnet%d", n))
	p := x.e.fromTerm(t, pt).(*Ptr)
	u := p.obj.typ.Underlying().(*types.Struct)
	a := []*Term{SubBase(Sym(fmt.Sprintf("arg:netip%d", n)), C(0), C(n)), SubBase(Sym(fmt.Sprintf("arg:netmask%d", n)), C(0), C(n))}
	x.preps = append(x.preps, func(st *State) {
		for i := range a {
			x.e.storeAt(st, p.obj, fmt.Sprintf(".%d", i), u.Field(i).Type(), x.e.fromTerm(a[i], u.Field(i).Type()))
		}
	})
	return x.e.fromTerm(seqOf(t), lt)
}

var ekuOID = strings.Fields("2.5.29.37.0 1.3.6.1.5.5.7.3.1 1.3.6.1.5.5.7.3.2 1.3.6.1.5.5.7.3.3 1.3.6.1.5.5.7.3.4 1.3.6.1.5.5.7.3.5 1.3.6.1.5.5.7.3.6 1.3.6.1.5.5.7.3.7 1.3.6.1.5.5.7.3.8 1.3.6.1.5.5.7.3.9 1.3.6.1.4.1.311.10.3.3 2.16.840.1.113730.4.1 1.3.6.1.4.1.311.2.1.22 1.3.6.1.4.1.311.61.1.1")

func (c *Check) writeExplicit(x *certCtx, fn *ssa.Function) {
	simple := []wkind{
		{"key usage", "2.5.29.15", func(*ssa.Function) map[string]Value { return map[string]Value{"KeyUsage": C(5)} },
			func(*Facts) wext { return wext{"2.5.29.15", TTrue, derSeq("BIT", namedBits(5)), nil} }},
		{"basic constraints", "2.5.29.19", func(*ssa.Function) map[string]Value {
			return map[string]Value{"BasicConstraintsValid": TTrue, "IsCA": TTrue, "MaxPathLen": C(3)}
		}, func(*Facts) wext { return wext{"2.5.29.19", TTrue, derSeq(bcShape, strct(TTrue, C(3))), nil} }},
		{"subject key id", "2.5.29.14", func(fn *ssa.Function) map[string]Value {
			return map[string]Value{"SubjectKeyId": x.fval(fn, "SubjectKeyId", Bytes("key"))}
		}, func(*Facts) wext { return wext{"2.5.29.14", TFalse, derSeq("OCT", Bytes("key")), nil} }},
		{"authority key id", "2.5.29.35", func(fn *ssa.Function) map[string]Value {
			return map[string]Value{"AuthorityKeyId": x.fval(fn, "AuthorityKeyId", Bytes("akey"))}
		}, func(*Facts) wext {
			return wext{"2.5.29.35", TFalse, derSeq("SEQ([optional,tag:0]OCT)", strct(Bytes("akey"))), nil}
		}},
	}
	kinds := map[string]wkind{}
	var order []string
	for _, k := range append(simple, x.writeKinds(fn)...) {
		if _, ok := kinds[k.id]; !ok {
			kinds[k.id] = k
			order = append(order, k.id)
		}
	}
	id := symBytes("arg:extid")
	extra := extn{id, rawOp("cond", "excrit", 0), symBytes("arg:exval")}
	split0 := subjEmpty(symBytes("arg:subject0"))
	all := map[string]Value{}
	for _, s := range order {
		k := kinds[s]
		set := k.set(fn)
		for f, v := range set {
			all[f] = v
		}
		same := seqEqCond(&State{facts: NoFacts}, id, oidSeq(s))
		// any explicit extension
		x.writeExt(writeCase{rule: "explicit", what: k.name + " with any explicit extension", set: set, extras: []extn{extra}, assume: nameFacts(),
			split: []*Term{split0, same}, want: func(F *Facts) ([]wext, bool) {
				if F.Eval(same) == 1 {
					return nil, false
				}
				return []wext{k.want(F)}, false
			}})
		// the second of two
		other := extn{oidSeq("1.2.3"), TTrue, symBytes("arg:exval2")}
		same2 := extn{oidSeq(s), TFalse, symBytes("arg:exval3")}
		x.writeExt(writeCase{rule: "explicit", what: k.name + " with an explicit one after another", set: set, extras: []extn{other, same2}, assume: nameFacts(),
			split: []*Term{split0}, want: func(F *Facts) ([]wext, bool) { return nil, false }})
		for _, t := range order {
			if t == s {
				continue
			}
			e3 := extn{oidSeq(t), TTrue, symBytes("arg:exval4")}
			x.writeExt(writeCase{rule: "explicit", what: k.name + " with an explicit " + kinds[t].name, set: set, extras: []extn{e3}, assume: nameFacts(),
				split: []*Term{split0}, want: func(F *Facts) ([]wext, bool) { return []wext{k.want(F)}, false }})
		}
	}
	x.writeExt(writeCase{rule: "together", what: "all extensions", set: all, assume: nameFacts(), split: []*Term{split0}, want: func(F *Facts) ([]wext, bool) {
		var w []wext
		for _, s := range order {
			w = append(w, kinds[s].want(F))
		}
		return w, false
	}})
	ex := []extn{{oidSeq("1.2.3"), TTrue, symBytes("arg:exval2")}, {oidSeq("1.2.4"), TFalse, symBytes("arg:exval3")}}
	x.writeExt(writeCase{rule: "together", what: "all extensions and explicit ones", set: all, extras: ex, assume: nameFacts(), split: []*Term{split0}, want: func(F *Facts) ([]wext, bool) {
		var w []wext
		for _, s := range order {
			w = append(w, kinds[s].want(F))
		}
		return w, false
	}})
	x.writeExt(writeCase{rule: "together", what: "only explicit extensions", extras: append(ex, extra), want: func(F *Facts) ([]wext, bool) { return nil, false }})
}
