package main

// Certificate extensions: reading.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// extFields are the fields of a certificate filled from extensions.
var extFields = strings.Fields("KeyUsage ExtKeyUsage UnknownExtKeyUsage BasicConstraintsValid IsCA MaxPathLen MaxPathLenZero SubjectKeyId AuthorityKeyId OCSPServer IssuingCertificateURL DNSNames EmailAddresses IPAddresses URIs PermittedDNSDomainsCritical PermittedDNSDomains ExcludedDNSDomains PermittedIPRanges ExcludedIPRanges PermittedEmailAddresses ExcludedEmailAddresses PermittedURIDomains ExcludedURIDomains CRLDistributionPoints PolicyIdentifiers")

// extn is one extension of the input.
type extn struct {
	id   *Term
	crit *Term
	val  *Term
}

func (x extn) term() *Term { return rawOp("struct", "", 0, x.id, x.crit, x.val) }

// extCase is one certificate with known extensions.
type extCase struct {
	rule, what string
	exts       []extn
	over       func(d *Term, shape string, val *Term, typ types.Type) (*Term, *Term)
	want       func(q *cexit) map[string]*Term // field -> term; the others stay empty
	wantV      func(q *cexit, name string, v Value, t types.Type) (bool, bool)
	unhandled  func(q *cexit) []*Term
	refuse     bool
	maySkip    func(q *cexit) bool // the success exit is none of ours
	assume     []*Term
}

func seqOf(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		ps = append(ps, ElemW(t))
	}
	return MkSeq(ps...)
}

func symBytes(key string) *Term { return SubBase(Sym(key), C(0), LenOf(Sym(key))) }

func (x *certCtx) readExt(b extCase) []*cexit {
	c := x.c
	x.over = func(d *Term, shape string, val *Term, typ types.Type) (*Term, *Term) {
		if shape == certShape {
			var es []*Term
			for _, e := range b.exts {
				es = append(es, e.term())
			}
			return with(val, typ, "", map[string]*Term{"1.10": seqOf(es...)}), nil
		}
		if b.over != nil {
			return b.over(d, shape, val, typ)
		}
		return nil, nil
	}
	fn := x.fnOf(b.rule, "ParseCertificate", 1)
	if fn == nil {
		return nil
	}
	st := x.e.newState()
	in, _ := x.input(st, "der")
	for _, t := range b.assume {
		st.facts = st.facts.Assume(t, true)
	}
	for _, e := range b.exts {
		st.facts = st.facts.Assume(GE0(SeqLen(e.val)), true)
	}
	rs := x.run(fn, []Value{in}, st, b.rule, b.what)
	ok, bad := x.exits(rs)
	where := c.at(fn)
	if b.refuse {
		c.ob(b.rule, b.what, where, len(ok) == 0, "accepted")
		return nil
	}
	if b.maySkip == nil {
		c.ob(b.rule, b.what+": accepted for some input", where, len(ok) > 0, "no success exit")
	}
	x.noResult(b.rule, b.what, fn, bad)
	var split []*cexit
	for _, q := range ok {
		for _, F := range splitAll(q.F, critSym) {
			q2 := *q
			q2.F = F
			split = append(split, &q2)
		}
	}
	for _, q := range split {
		if b.maySkip != nil && b.maySkip(q) {
			continue
		}
		o := q.obj(0)
		if o == nil {
			c.fail(b.rule, b.what, where, "no certificate is returned")
			continue
		}
		want := map[string]*Term{}
		if b.want != nil {
			want = b.want(q)
		}
		for _, f := range extFields {
			v, t := field(o, f)
			if v == nil {
				continue
			}
			if b.wantV != nil {
				if good, mine := b.wantV(q, f, v, t); mine {
					c.ob(b.rule, b.what+": "+f, where, good, q.show(v)+" when "+cutMid(q.F.String(), 600))
					continue
				}
			}
			if w := want[f]; w != nil {
				c.ob(b.rule, b.what+": "+f, where, q.same(v, t, w), q.show(v)+" instead of "+cutMid(w.String(), 300))
			} else if !q.empty(v, t) {
				c.fail(b.rule, b.what+": "+f, where, "set although no extension says so: "+q.show(v))
			}
		}
		// the list of extensions, and what is unhandled
		var es, un []*Term
		for _, e := range b.exts {
			es = append(es, e.term())
		}
		if b.unhandled != nil {
			un = b.unhandled(q)
		}
		v, t := field(o, "Extensions")
		c.ob(b.rule, b.what+": Extensions", where, q.same(v, t, seqOf(es...)), q.show(v))
		v, t = field(o, "UnhandledCriticalExtensions")
		c.ob(b.rule, b.what+": UnhandledCriticalExtensions", where, q.same(v, t, seqOf(un...)), q.show(v)+" when "+cutMid(q.F.String(), 600))
	}
	return ok
}

func (q *cexit) empty(v Value, t types.Type) bool {
	switch v := v.(type) {
	case *Slice:
		return q.F.ProveGE0(Neg(v.len))
	case *Term:
		if isBool(t) {
			return q.F.Eval(v) == -1
		}
		if isSeqOp(v) {
			return q.F.ProveGE0(Neg(SeqLen(v)))
		}
		return q.F.Eval(EQ0(v)) == 1
	}
	return false
}

var critSym = rawOp("cond", "critical", 0)

func ext1(id string) []extn { return []extn{{oidSeq(id), critSym, symBytes("extval")}} }

// decodedAs: the decode of the extension's value with the given shape, done on
// this path.
func (q *cexit) decodedAs(d *Term, shape string) *Term {
	if k := q.decodeOf(d, shape); k != nil {
		return k.val
	}
	return Sym("not decoded as " + shape)
}

func fldSeq(q *cexit, dec *certDec, path ...int) *Term {
	t, ty := at(dec.val, dec.typ, path...)
	return q.x.e.reify(q.r.st, q.x.e.fromTerm(t, ty), ty)
}

func rawVal(class, tag, comp, bytes, full *Term) *Term {
	return rawOp("struct", "", 0, class, tag, comp, bytes, full)
}

// uri is a context-tagged name with its own contents.
func nameVal(i int, tag *Term) (*Term, *Term) {
	b := symBytes(fmt.Sprintf("name%d", i))
	return rawVal(C(2), tag, rawOp("cond", fmt.Sprintf("comp%d", i), 0), b, symBytes(fmt.Sprintf("full%d", i))), b
}

func checkExtensions(c *Check) {
	c.explain = "Reading: ParseCertificate is interpreted on certificates with one or more extensions of known identifier, symbolic criticality and symbolic contents (lists of known length), and the fields it fills, the extension list and the list of unhandled critical extensions are compared with the decoded contents. Writing: CreateCertificateInfo is interpreted on templates with each field set, alone, with explicit extensions, and together, and the extension list in the DER it produces is compared with the expected extensions."
	c.rule("read", "each extension fills its field, and only that, with the decoded contents")
	c.rule("unhandled", "a critical extension that is not handled is listed as unhandled, a handled or non-critical one is not")
	c.rule("sequence", "several extensions in one certificate are each treated on their own")
	c.readExtensions()
	c.writeExtensions()
}

func (c *Check) readExtensions() {
	x := c.cert()
	val := symBytes("extval")
	// key identifiers
	x.readExt(extCase{rule: "read", what: "subject key id", exts: ext1("2.5.29.14"), want: func(q *cexit) map[string]*Term {
		return map[string]*Term{"SubjectKeyId": q.decodedAs(val, "OCT")}
	}})
	x.readExt(extCase{rule: "read", what: "authority key id", exts: ext1("2.5.29.35"), want: func(q *cexit) map[string]*Term {
		d := q.decodeOf(val, "SEQ([optional,tag:0]OCT)")
		if d == nil {
			return map[string]*Term{"AuthorityKeyId": Sym("not decoded")}
		}
		return map[string]*Term{"AuthorityKeyId": fldSeq(q, d, 0)}
	}})
	// basic constraints
	x.readExt(extCase{rule: "read", what: "basic constraints", exts: ext1("2.5.29.19"), wantV: func(q *cexit, name string, v Value, t types.Type) (bool, bool) {
		d := q.decodeOf(val, bcShape)
		if d == nil {
			return false, true
		}
		ca, _ := at(d.val, d.typ, 0)
		mp, _ := at(d.val, d.typ, 1)
		b, _ := v.(*Term)
		switch name {
		case "BasicConstraintsValid":
			return b != nil && q.F.Eval(b) == 1, true
		case "IsCA":
			return b != nil && q.x.isBoolTermF(q.F, b, ca), true
		case "MaxPathLen":
			return b != nil && q.F.Eval(Eq(b, mp)) == 1, true
		case "MaxPathLenZero":
			return b != nil && q.x.isBoolTermF(q.F, b, EQ0(mp)), true
		}
		return false, false
	}})
	c.readKeyUsage(x)
	// policies
	for n := 0; n <= 3; n++ {
		var ids, els []*Term
		for i := 0; i < n; i++ {
			id := symBytes(fmt.Sprintf("policy%d", i))
			ids = append(ids, id)
			els = append(els, rawOp("struct", "", 0, id))
		}
		x.readExt(extCase{rule: "read", what: fmt.Sprintf("%d policies", n), exts: ext1("2.5.29.32"),
			over: listOver(val, "SEQOF(SEQ(OID))", els), want: func(q *cexit) map[string]*Term {
				if n == 0 {
					return nil
				}
				q.decodedOb("read", "policies", val, "SEQOF(SEQ(OID))")
				return map[string]*Term{"PolicyIdentifiers": seqOf(ids...)}
			}})
	}
	// authority information access: any method, any kind of location
	ocsp, iss := "1.3.6.1.5.5.7.48.1", "1.3.6.1.5.5.7.48.2"
	for _, l := range []string{"", "o", "i", "oi", "io", "ooi", "x", "d", "e", "xodi", "ooe", "iid"} {
		var els, os, is []*Term
		for k, ch := range l {
			tag, m := C(6), oidSeq(ocsp)
			switch ch {
			case 'i', 'e':
				m = oidSeq(iss)
			case 'x':
				m = oidSeq("1.3.6.1.5.5.7.48.3")
			}
			if ch == 'd' || ch == 'e' {
				tag = C(4)
			}
			nv, b := nameVal(k, tag)
			els = append(els, rawOp("struct", "", 0, m, nv))
			switch ch {
			case 'o':
				os = append(os, b)
			case 'i':
				is = append(is, b)
			}
		}
		x.readExt(extCase{rule: "read", what: "information access " + l, exts: ext1("1.3.6.1.5.5.7.1.1"),
			over: listOver(val, aiaShape, els), want: func(q *cexit) map[string]*Term {
				q.decodedOb("read", "information access", val, aiaShape)
				return map[string]*Term{"OCSPServer": seqOf(os...), "IssuingCertificateURL": seqOf(is...)}
			}})
	}
	// distribution points
	for _, l := range []string{"", "u", "|", "u|u", "uu", "du", "|u", "ud|d|u"} {
		var dps, us []*Term
		k := 0
		for _, dp := range strings.Split(l, "|") {
			if l == "" {
				break
			}
			var full []*Term
			for _, ch := range dp {
				tag := C(6)
				if ch == 'd' {
					tag = C(4)
				}
				nv, b := nameVal(k, tag)
				k++
				full = append(full, nv)
				if ch == 'u' {
					us = append(us, b)
				}
			}
			z := func(n string) *Term { return symBytes(fmt.Sprintf("dp%d%s", k, n)) }
			dps = append(dps, rawOp("struct", "", 0, rawOp("struct", "", 0, seqOf(full...), EmptySeq),
				rawOp("struct", "", 0, z("reason"), Sym("reasonbits")), rawVal(C(0), C(0), TFalse, z("issuer"), z("issuerfull"))))
		}
		x.readExt(extCase{rule: "read", what: "distribution points " + l, exts: ext1("2.5.29.31"),
			over: listOver(val, cdpShape, dps), want: func(q *cexit) map[string]*Term {
				q.decodedOb("read", "distribution points", val, cdpShape)
				return map[string]*Term{"CRLDistributionPoints": seqOf(us...)}
			}})
	}
	c.readUnknown(x)
	c.readSeveral(x)
}

const (
	bcShape  = "SEQ([optional]BOOL,[optional,default:-1]INT)"
	aiaShape = "SEQOF(SEQ(OID,RAW))"
	cdpShape = "SEQOF(SEQ([optional,tag:0]SEQ([optional,tag:0]SEQOF(RAW),[optional,tag:1]SEQOF(SETOF(SEQ(OID,ANY)))),[optional,tag:1]BIT,[optional,tag:2]RAW))"
)

// listOver: the value of the extension is a list of known length.
func listOver(d *Term, shape string, els []*Term) func(*Term, string, *Term, types.Type) (*Term, *Term) {
	return func(d2 *Term, sh string, val *Term, typ types.Type) (*Term, *Term) {
		if d2 == d && sh == shape {
			return seqOf(els...), nil
		}
		return nil, nil
	}
}

func (q *cexit) decodedOb(rule, what string, d *Term, shape string) {
	var got []string
	for _, k := range q.decs {
		if k.d == d {
			got = append(got, k.shape)
		}
	}
	q.x.c.ob(rule, what+": decoded with the right structure", "-", q.decodeOf(d, shape) != nil, "expected "+shape+", decoded as "+strings.Join(got, " and "))
}

// readKeyUsage: named bit i of the string is usage 1<<i.
func (c *Check) readKeyUsage(x *certCtx) {
	val := symBytes("extval")
	type bits struct {
		b []byte
		n int64
	}
	cases := []bits{{nil, 0}, {[]byte{0xff, 0x80}, 9}, {[]byte{0xff, 0xff}, 16}, {[]byte{0xfe}, 7}, {[]byte{0xa5, 0}, 16}, {[]byte{0x5a, 0x80}, 9}, {[]byte{0xff}, 3}}
	for i := 0; i < 9; i++ {
		b := make([]byte, i/8+1)
		b[i/8] = 1 << (7 - uint(i%8))
		cases = append(cases, bits{b, int64(i + 1)})
	}
	for _, k := range cases {
		usage := int64(0)
		for i := 0; i < 9; i++ {
			if int64(i) < k.n && i/8 < len(k.b) && k.b[i/8]>>(7-uint(i%8))&1 == 1 {
				usage |= 1 << uint(i)
			}
		}
		x.readExt(extCase{rule: "read", what: fmt.Sprintf("key usage %x/%d", k.b, k.n), exts: ext1("2.5.29.15"),
			over: func(d *Term, sh string, v *Term, typ types.Type) (*Term, *Term) {
				if d == val && sh == "BIT" {
					return rawOp("struct", "", 0, Bytes(string(k.b)), C(k.n)), nil
				}
				return nil, nil
			}, want: func(q *cexit) map[string]*Term {
				q.decodedOb("read", "key usage", val, "BIT")
				return map[string]*Term{"KeyUsage": C(usage)}
			}})
	}
}

var knownExts = strings.Fields("2.5.29.14 2.5.29.15 2.5.29.17 2.5.29.19 2.5.29.30 2.5.29.31 2.5.29.32 2.5.29.35 2.5.29.37 1.3.6.1.5.5.7.1.1")

// readUnknown: an extension with any identifier.  Its contents are empty, so
// that no handler can decode it and only identifiers without one succeed.
func (c *Check) readUnknown(x *certCtx) {
	id := symBytes("extid")
	un := func(q *cexit) []*Term {
		if q.F.Eval(critSym) == 1 {
			return []*Term{id}
		}
		if q.F.Eval(critSym) == 0 {
			return []*Term{Sym("criticality not examined")}
		}
		return nil
	}
	ok := x.readExt(extCase{rule: "unhandled", what: "any identifier, empty contents", exts: []extn{{id, critSym, EmptySeq}}, unhandled: un,
		assume: []*Term{GE0(LenOf(Sym("extid")))}})
	// every identifier without a handler is accepted: both criticalities
	seen := map[int]bool{}
	for _, q := range ok {
		seen[q.F.Eval(critSym)] = true
	}
	c.ob("unhandled", "accepted whether critical or not", "-", seen[1] && seen[-1], fmt.Sprint(seen))
	for _, s := range []string{"2.5.29.16", "2.5.29.36", "2.5.29.54", "2.5.29.9", "2.5.29.15.1", "2.5.29", "2.5.28.15", "2.4.29.15", "1.5.29.15", "1.3.6.1.5.5.7.1.2", "1.3.6.1.5.5.7.1.1.1", "1.3.6.1.5.5.7.1.24", "1.2.3"} {
		t := oidSeq(s)
		x.readExt(extCase{rule: "unhandled", what: s, exts: []extn{{t, critSym, symBytes("extval")}}, unhandled: func(q *cexit) []*Term {
			switch q.F.Eval(critSym) {
			case 1:
				return []*Term{t}
			case 0:
				return []*Term{Sym("criticality not examined")}
			}
			return nil
		}})
	}
}

func (c *Check) readSeveral(x *certCtx) {
	ski := func(i int, crit *Term) extn {
		return extn{oidSeq("2.5.29.14"), crit, symBytes(fmt.Sprintf("ski%d", i))}
	}
	aki := func(i int, crit *Term) extn {
		return extn{oidSeq("2.5.29.35"), crit, symBytes(fmt.Sprintf("aki%d", i))}
	}
	unk := func(i int, crit *Term) extn {
		return extn{oidSeq(fmt.Sprintf("1.2.3.%d", i+1)), crit, symBytes(fmt.Sprintf("unk%d", i))}
	}
	for _, l := range []string{"US", "SU", "UU", "uS", "Us", "SUu", "uSU", "USAU", "AuUs", "UsuSU"} {
		var es []extn
		want := map[string]func(q *cexit) *Term{}
		var un []*Term
		for i, ch := range l {
			crit := CBool(ch < 'a')
			switch ch {
			case 'U', 'u':
				e := unk(i, crit)
				es = append(es, e)
				if ch == 'U' {
					un = append(un, e.id)
				}
			case 'S', 's':
				e := ski(i, crit)
				es = append(es, e)
				want["SubjectKeyId"] = func(q *cexit) *Term { return q.decodedAs(e.val, "OCT") }
			case 'A':
				e := aki(i, crit)
				es = append(es, e)
				want["AuthorityKeyId"] = func(q *cexit) *Term {
					if d := q.decodeOf(e.val, "SEQ([optional,tag:0]OCT)"); d != nil {
						return fldSeq(q, d, 0)
					}
					return Sym("not decoded")
				}
			}
		}
		x.readExt(extCase{rule: "sequence", what: l, exts: es, want: func(q *cexit) map[string]*Term {
			m := map[string]*Term{}
			var ks []string
			for k := range want {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				m[k] = want[k](q)
			}
			return m
		}, unhandled: func(*cexit) []*Term { return un }})
	}
}

func init() {
	addCheck("C25", "other", absInt, checkExtensions)
}
