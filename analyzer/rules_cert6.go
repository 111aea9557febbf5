package main

// Alternative names and name constraints.

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

// nameIn is one general name of the input.
type nameIn struct {
	tag *Term
	b   *Term
}

// sanInput makes the extension with contents val decode to the names, read as
// one value that holds a sequence of values, or as a list.
func sanInput(val *Term, ns []nameIn, next func(d *Term, shape string, v *Term, typ types.Type) (*Term, *Term)) func(*Term, string, *Term, types.Type) (*Term, *Term) {
	rest := func(i int) *Term {
		if i == len(ns) {
			return EmptySeq
		}
		return symBytes(fmt.Sprintf("sanrest%d", i))
	}
	raw := func(i int) *Term {
		return rawVal(C(2), ns[i].tag, rawOp("cond", fmt.Sprintf("comp%d", i), 0), ns[i].b, symBytes(fmt.Sprintf("full%d", i)))
	}
	return func(d *Term, shape string, v *Term, typ types.Type) (*Term, *Term) {
		switch {
		case d == val && shape == "RAW":
			return rawVal(C(0), C(16), TTrue, rest(0), val), nil
		case d == val && shape == "SEQOF(RAW)":
			var es []*Term
			for i := range ns {
				es = append(es, raw(i))
			}
			return seqOf(es...), nil
		case shape == "RAW":
			for i := range ns {
				if d == rest(i) {
					return raw(i), rest(i + 1)
				}
			}
		}
		if next != nil {
			return next(d, shape, v, typ)
		}
		return nil, nil
	}
}

var sanFields = strings.Fields("DNSNames EmailAddresses IPAddresses URIs")

// sanWant is what the fields must hold when the tags are known.
func sanWant(e *Engine, F *Facts, ns []nameIn) (map[string]*Term, string) {
	l := map[string][]*Term{}
	for _, n := range ns {
		k, ok := n.tag.i64()
		if !ok {
			for _, v := range []int64{1, 2, 6, 7} {
				if F.Eval(Eq(n.tag, C(v))) == 1 {
					k, ok = v, true
				}
			}
			if !ok {
				k = 99
			}
		}
		switch k {
		case 1:
			l["EmailAddresses"] = append(l["EmailAddresses"], n.b)
		case 2:
			l["DNSNames"] = append(l["DNSNames"], n.b)
		case 6:
			l["URIs"] = append(l["URIs"], rawOp("url", "", 0, n.b))
		case 7:
			l["IPAddresses"] = append(l["IPAddresses"], n.b)
			if F.Eval(Eq(SeqLen(n.b), C(4))) != 1 && F.Eval(Eq(SeqLen(n.b), C(16))) != 1 {
				return nil, "an IP address is accepted with length " + SeqLen(n.b).String()
			}
		}
	}
	m := map[string]*Term{}
	for _, f := range sanFields {
		m[f] = seqOf(l[f]...)
	}
	return m, ""
}

// tagCases splits on the tags of names that the code tells apart.
func tagCases(F *Facts, ns []nameIn) []*Facts {
	Fs := []*Facts{F}
	for _, n := range ns {
		if n.tag.isC() {
			continue
		}
		var next []*Facts
		for _, G := range Fs {
			for _, v := range []int64{1, 2, 6, 7} {
				t := Eq(n.tag, C(v))
				if ev := G.Eval(t); ev == 1 {
					next = append(next, G)
					G = nil
					break
				} else if ev == 0 {
					next = append(next, G.Assume(t, true))
					G = G.Assume(t, false)
				}
			}
			if G != nil {
				next = append(next, G)
			}
		}
		Fs = next
	}
	return Fs
}

func sanFacts(ns []nameIn) []*Term {
	var r []*Term
	for i, n := range ns {
		r = append(r, GE0(SeqLen(n.b)), Le(C(1), LenOf(Sym(fmt.Sprintf("sanrest%d", i)))))
	}
	return r
}

func (x *certCtx) hosts(host string) {
	x.lib["net/url.Parse"] = func(e *Engine, c *callCtx) []*Result {
		b := e.bytesOf(c.st, c.args[0])
		pt := c.sig.Results().At(0).Type().(*types.Pointer)
		return c.cases(rawOp("urlok", "", 0, b), func(st *State) []Value {
			p := urlOf(e, b, pt)
			u := pt.Elem().Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "Host" {
					st.alive[p.obj] = true
					e.storeAt(st, p.obj, fmt.Sprintf(".%d", i), u.Field(i).Type(), e.fromTerm(Bytes(host), u.Field(i).Type()))
				}
			}
			return []Value{p, nilIface}
		}, func(st *State) []Value {
			return []Value{&Ptr{nilT: TTrue}, e.newErr(st, c.site)}
		})
	}
}

func (c *Check) readNames() {
	const rule = "read names"
	x := c.cert()
	ext := ext1("2.5.29.17")
	val := ext[0].val
	run := func(what string, refuse bool, ns ...nameIn) {
		x.readExt(extCase{rule: rule, what: what, exts: ext, over: sanInput(val, ns, nil), assume: sanFacts(ns), refuse: refuse,
			wantV: func(q *cexit, name string, v Value, t types.Type) (bool, bool) {
				mine := false
				for _, f := range sanFields {
					mine = mine || f == name
				}
				if !mine {
					return false, false
				}
				for _, F := range tagCases(q.F, ns) {
					m, bad := sanWant(x.e, F, ns)
					if bad != "" {
						return false, true
					}
					if !q.sameURLs(F, v, t, m[name]) {
						return false, true
					}
				}
				return true, true
			},
			unhandled: func(q *cexit) []*Term {
				for _, f := range sanFields {
					v, t := field(q.obj(0), f)
					if !q.empty(v, t) {
						return nil
					}
				}
				if q.F.Eval(critSym) == 1 {
					return []*Term{ext[0].id}
				}
				return nil
			}})
	}
	name := func(i int, tag int64) nameIn { return nameIn{C(tag), symBytes(fmt.Sprintf("name%d", i))} }
	ip := func(i int, n int64) nameIn {
		return nameIn{C(7), SubBase(Sym(fmt.Sprintf("ip%d", i)), C(0), C(n))}
	}
	for _, h := range []string{"", "a.b"} {
		x.hosts(h)
		run("any name, host \""+h+"\"", false, nameIn{Sym("nametag"), symBytes("name0")})
		run("a URI, host \""+h+"\"", false, name(0, 6))
	}
	run("no names", false)
	for tag := int64(0); tag <= 8; tag++ {
		if tag != 7 {
			run(fmt.Sprintf("tag %d", tag), false, name(0, tag))
		}
	}
	for n := int64(0); n <= 40; n++ {
		run(fmt.Sprintf("IP address of %d bytes", n), n != 4 && n != 16, ip(0, n))
		if n != 4 && n != 16 {
			run(fmt.Sprintf("IP address of %d bytes after a good one", n), true, ip(1, 4), ip(0, n))
		}
	}
	run("mixed names", false, name(0, 2), name(1, 1), name(2, 6), ip(3, 4), ip(4, 16), name(5, 0), name(6, 2), name(7, 1))
	run("mixed names, other order", false, ip(4, 16), name(5, 8), name(2, 6), name(1, 1), ip(3, 4), name(6, 6), name(0, 2))
	run("names of other kinds", false, name(0, 0), name(1, 3), name(2, 4), name(3, 5), name(4, 8))
}

// reqAttr is an attribute of a request: an extension request when exts is set.
type reqAttr struct {
	id   *Term
	exts []extn
}

// readRequestNames parses requests with names in an extension request.
func (c *Check) readRequestNames() {
	const rule = "read names"
	other := func(i int) reqAttr { return reqAttr{oidSeq(fmt.Sprintf("1.2.840.113549.1.9.%d", 2+i)), nil} }
	unk := func(i int) extn {
		return extn{oidSeq(fmt.Sprintf("2.5.29.%d", 99+i)), rawOp("cond", fmt.Sprintf("crit%d", i), 0), symBytes(fmt.Sprintf("unk%d", i))}
	}
	san := extn{oidSeq("2.5.29.17"), critSym, symBytes("extval")}
	ext := func(es ...extn) reqAttr { return reqAttr{oidSeq(oidExtReq), es} }
	name := func(i int, tag int64) nameIn { return nameIn{C(tag), symBytes(fmt.Sprintf("name%d", i))} }
	ip := func(i int, n int64) nameIn {
		return nameIn{C(7), SubBase(Sym(fmt.Sprintf("ip%d", i)), C(0), C(n))}
	}
	mixed := []nameIn{name(0, 2), name(1, 1), name(2, 6), ip(3, 4), ip(4, 16), name(5, 0), name(6, 2), name(7, 1)}
	run := func(what string, refuse bool, ns []nameIn, attrs ...reqAttr) {
		x := c.cert()
		x.hosts("a.b")
		val := func(i int) *Term { return symBytes(fmt.Sprintf("attr%d", i)) }
		lst := func(i int) *Term { return symBytes(fmt.Sprintf("attrval%d", i)) }
		x.over = sanInput(san.val, ns, func(d *Term, shape string, v *Term, typ types.Type) (*Term, *Term) {
			if shape == reqShape {
				var es []*Term
				for i := range attrs {
					es = append(es, rawVal(C(0), C(16), TTrue, symBytes(fmt.Sprintf("attrin%d", i)), val(i)))
				}
				return with(v, typ, "", map[string]*Term{"1.4": seqOf(es...)}), nil
			}
			for i, a := range attrs {
				if d == val(i) && shape == "SEQ(OID,[set]SEQOF(RAW))" {
					return strct(a.id, seqOf(rawVal(C(0), C(16), TTrue, symBytes(fmt.Sprintf("attrvalin%d", i)), lst(i)))), EmptySeq
				}
				if d == lst(i) && shape == "SEQOF("+extShape+")" {
					var es []*Term
					for _, e := range a.exts {
						es = append(es, e.term())
					}
					return seqOf(es...), EmptySeq
				}
			}
			return nil, nil
		})
		fn := x.fnOf(rule, "ParseCertificateRequest", 1)
		if fn == nil {
			return
		}
		st := x.e.newState()
		in, _ := x.input(st, "der")
		facts := sanFacts(ns)
		var es []*Term
		for _, a := range attrs {
			for _, e := range a.exts {
				facts = append(facts, GE0(SeqLen(e.val)))
				es = append(es, e.term())
			}
		}
		for _, t := range facts {
			st.facts = st.facts.Assume(t, true)
		}
		what = "request: " + what
		rs := x.run(fn, []Value{in}, st, rule, what)
		ok, bad := x.exits(rs)
		where := c.at(fn)
		x.noResult(rule, what, fn, bad)
		if refuse {
			for _, q := range ok {
				if q.decodeOf(lst(0), "SEQOF("+extShape+")") != nil {
					c.fail(rule, what, where, "accepted")
				}
			}
			c.ob(rule, what, where, true, "")
			return
		}
		n := 0
		for _, q := range ok {
			o := q.obj(0)
			if o == nil {
				c.fail(rule, what, where, "no request is returned")
				continue
			}
			// whether the attributes can be decoded is not settled; those that
			// cannot are left out
			decoded := true
			for i, a := range attrs {
				if a.exts != nil && q.decodeOf(val(i), "SEQ(OID,[set]SEQOF(RAW))") == nil {
					decoded = false
				}
			}
			if !decoded {
				continue
			}
			n++
			for _, F := range tagCases(q.F, ns) {
				m, why := sanWant(x.e, F, ns)
				if why != "" {
					c.fail(rule, what, where, why)
					continue
				}
				for _, f := range sanFields {
					v, t := field(o, f)
					c.ob(rule, what+": "+f, where, q.sameURLs(F, v, t, m[f]), q.show(v)+" when "+cutMid(F.String(), 500))
				}
			}
			v, t := field(o, "Extensions")
			c.ob(rule, what+": Extensions", where, q.same(v, t, seqOf(es...)), q.show(v))
		}
		c.ob(rule, what+": accepted for some input", where, n > 0, "no success exit")
	}
	run("mixed names", false, mixed, ext(san))
	run("any name", false, []nameIn{{Sym("nametag"), symBytes("name0")}}, ext(san))
	run("names after another extension", false, mixed, ext(unk(0), san, unk(1)))
	run("names between other attributes", false, mixed[:3], other(0), ext(san), other(1))
	run("names in the second extension request", false, mixed[:3], ext(unk(0)), ext(san))
	run("other attributes only", false, nil, other(0), other(1))
	for n := int64(0); n <= 20; n++ {
		if n != 4 && n != 16 {
			run(fmt.Sprintf("IP address of %d bytes", n), true, []nameIn{ip(0, n)}, ext(san))
		}
	}
}

// sameURLs compares like same, pointers to parsed URLs by what was parsed.
func (q *cexit) sameURLs(F *Facts, v Value, t types.Type, want *Term) bool {
	q2 := *q
	q2.F = F
	if s, ok := v.(*Slice); ok {
		if pt, ok := elemType(t).Underlying().(*types.Pointer); ok {
			if F.Eval(Eq(s.len, SeqLen(want))) != 1 {
				return false
			}
			got := q.x.e.reify(q.r.st, v, t)
			k, ok := SeqLen(want).i64()
			if !ok {
				return false
			}
			for i := int64(0); i < k; i++ {
				w := AtSeqW(want, C(i), F, 64)
				if w.op == "url" {
					w = q.x.e.reify(q.r.st, urlOf(q.x.e, w.args[0], pt), pt)
				}
				if AtSeqW(got, C(i), F, 64) != w {
					return false
				}
			}
			return true
		}
	}
	return q2.same(v, t, want)
}

// elemDER is a DER element with contents of known length.
func elemDER(tag byte, in ...*Term) *Term {
	b := MkSeq(in...)
	n, ok := SeqLen(b).i64()
	if !ok {
		panic("tlv: length")
	}
	h := []byte{tag}
	switch {
	case n < 128:
		h = append(h, byte(n))
	case n < 256:
		h = append(h, 0x81, byte(n))
	default:
		h = append(h, 0x82, byte(n>>8), byte(n))
	}
	return MkSeq(Bytes(string(h)), b)
}

// subtree is one constraint: a name with its tag.
type subtree struct {
	tag byte
	b   *Term
}

func (s subtree) der() *Term { return elemDER(0x30, elemDER(s.tag, s.b)) }

func trees(tag byte, ss []subtree) *Term {
	var d []*Term
	for _, s := range ss {
		d = append(d, s.der())
	}
	return elemDER(tag, d...)
}

var consFields = map[byte]string{0x82: "DNSDomains", 0x87: "IPRanges", 0x81: "EmailAddresses", 0x86: "URIDomains"}

// isMask: the facts say that the bytes are ones followed by zeros.
func isMask(F *Facts, b *Term) bool {
	if F.Eval(rawOp("goodmask", "", 0, b)) == 1 {
		return true
	}
	n, ok := SeqLen(b).i64()
	if !ok {
		return false
	}
	zero := false
	for i := int64(0); i < n; i++ {
		x := AtSeq(b, C(i), F)
		is := func(v int64) bool { return F.Eval(Eq(x, C(v))) == 1 }
		switch {
		case is(0):
			zero = true
		case zero:
			return false
		case is(0xff):
		default:
			for _, v := range []int64{0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe} {
				zero = zero || is(v)
			}
			if !zero {
				return false
			}
		}
	}
	return true
}

// netsAre compares a list of networks.
func (q *cexit) netsAre(v Value, t types.Type, want []*Term) string {
	e := q.x.e
	got := e.reify(q.r.st, v, t)
	if !SeqLen(got).isCi(int64(len(want))) {
		return "number of networks " + SeqLen(got).String()
	}
	for i, w := range want {
		p := e.refs[AtSeqW(got, C(int64(i)), q.F, 64)]
		if p == nil {
			return "unknown network " + q.show(v)
		}
		sv, ok := e.loadPtr(q.r.st, p, elemType(t).(*types.Pointer).Elem()).(*StructV)
		if !ok {
			return "unknown network"
		}
		n, _ := SeqLen(w).i64()
		for j, f := range []string{"IP", "Mask"} {
			fv, _ := field(sv, f)
			b := e.bytesOf(q.r.st, fv)
			x := SubBase(w, C(int64(j)*n/2), C(n/2))
			if q.F.Eval(seqEqCond(&State{facts: q.F}, b, x)) != 1 {
				return f + " " + b.String() + " instead of " + x.String()
			}
		}
	}
	return ""
}

func (c *Check) readConstraints() {
	const rule = "read constraints"
	x := c.cert()
	id := oidSeq("2.5.29.30")
	runDER := func(what string, der *Term, perm, excl []subtree, refuse bool, assume ...*Term) {
		want := map[string][]*Term{}
		odd := false
		for i, l := range [][]subtree{perm, excl} {
			for _, s := range l {
				f, ok := consFields[s.tag]
				if !ok {
					odd = true
					continue
				}
				f = []string{"Permitted", "Excluded"}[i] + f
				want[f] = append(want[f], s.b)
			}
		}
		x.readExt(extCase{rule: rule, what: what, exts: []extn{{id, critSym, der}}, refuse: refuse, assume: assume,
			wantV: func(q *cexit, name string, v Value, t types.Type) (bool, bool) {
				switch {
				case name == "PermittedDNSDomainsCritical":
					return q.x.isBoolTermF(q.F, v, critSym), true
				case !strings.HasPrefix(name, "Permitted") && !strings.HasPrefix(name, "Excluded"):
					return false, false
				case strings.HasSuffix(name, "IPRanges"):
					for _, w := range want[name] {
						n, _ := SeqLen(w).i64()
						if !isMask(q.F, SubBase(w, C(n/2), C(n/2))) {
							return false, true
						}
					}
					return q.netsAre(v, t, want[name]) == "", true
				}
				return q.same(v, t, seqOf(want[name]...)), true
			},
			unhandled: func(q *cexit) []*Term {
				if odd && q.F.Eval(critSym) == 1 {
					return []*Term{id}
				}
				return nil
			}})
	}
	run := func(what string, perm, excl []subtree, refuse bool, assume ...*Term) {
		var in []*Term
		if perm != nil {
			in = append(in, trees(0xa0, perm))
		}
		if excl != nil {
			in = append(in, trees(0xa1, excl))
		}
		runDER(what, elemDER(0x30, in...), perm, excl, refuse, assume...)
	}
	both := func(what string, refuse bool, ss []subtree) {
		run("permitted "+what, ss, nil, refuse)
		run("excluded "+what, nil, ss, refuse)
	}
	str := func(tag byte, s string) subtree { return subtree{tag, Bytes(s)} }
	// a network with an arbitrary address and the given mask
	masked := func(k string, mask *Term) subtree {
		return subtree{0x87, MkSeq(SubBase(Sym(k), C(0), SeqLen(mask)), mask)}
	}
	net := func(k string, n int64) subtree {
		switch n {
		case 8:
			return masked(k, Bytes("\xff\xff\xf8\x00"))
		case 32:
			return masked(k, Bytes("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xc0\x00\x00\x00\x00"))
		}
		return subtree{0x87, SubBase(Sym(k), C(0), C(n))}
	}
	long := strings.Repeat("abcdefghi.", 20) + "org"
	for _, s := range []string{"a.b", ".a.b", long} {
		both("DNS name "+s, false, []subtree{str(0x82, s)})
		both("URI name "+s, false, []subtree{str(0x86, s)})
		both("e-mail name "+s, false, []subtree{str(0x81, s)})
	}
	both("mailbox", false, []subtree{str(0x81, "u@a.b")})
	for n := int64(0); n <= 40; n++ {
		both(fmt.Sprintf("network of %d bytes", n), n != 8 && n != 32, []subtree{net("net0", n)})
	}
	for _, n := range []int64{64, 128, 255, 264, 288} {
		both(fmt.Sprintf("network of %d bytes", n), true, []subtree{net("net0", n)})
	}
	// every prefix length is accepted
	for _, n := range []int{4, 16} {
		for p := 0; p <= 8*n; p++ {
			m := make([]byte, n)
			for i := 0; i < p; i++ {
				m[i/8] |= 0x80 >> uint(i%8)
			}
			s := subtree{0x87, MkSeq(SubBase(Sym("netip"), C(0), C(int64(n))), Bytes(string(m)))}
			run(fmt.Sprintf("prefix of %d bits out of %d", p, 8*n), []subtree{s}, nil, false)
		}
	}
	// masks: a byte that is none of the nine, or bytes after the first zero bit
	part := []int64{0, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe}
	for _, n := range []int64{4, 16} {
		for k := int64(0); k < n; k++ {
			head := Rep(C(0xff), C(k))
			what := fmt.Sprintf("mask of %d bytes, byte %d", n, k)
			full := c.tier == "thorough"
			for v := int64(1); v < 255; v++ {
				if n == 16 && !full && k > 0 && k < 15 && v%15 != 1 {
					continue
				}
				if !slicesHas(part, v) {
					run(fmt.Sprintf("%s is %02x", what, v), []subtree{masked("netip", MkSeq(head, Elem(C(v)), Rep(C(0), C(n-k-1))))}, nil, true)
				}
			}
			// a byte other than zero after the first zero bit
			for j := k + 1; j < n; j++ {
				for _, v := range part {
					late := []int64{1, 2, 4, 8, 16, 32, 64, 128, 255, 0xaa}
					switch {
					case n == 4 && (full || k == 1 && v == 0xf0):
						late = late[:0]
						for l := int64(1); l < 256; l++ {
							late = append(late, l)
						}
					case n == 16 && !full:
						if v != 0 && v != 0xf0 || k%3 != 0 && j != k+1 {
							continue
						}
						late = []int64{1, 128, 255}
					}
					for _, l := range late {
						m := MkSeq(head, Elem(C(v)), Rep(C(0), C(j-k-1)), Elem(C(l)), Rep(C(0), C(n-j-1)))
						run(fmt.Sprintf("%s is %02x, byte %d is %02x", what, v, j, l), []subtree{masked("netip", m)}, nil, true)
					}
				}
			}
		}
	}
	mixed := []subtree{str(0x82, "a.b"), str(0x81, "u@c.d"), net("net1", 8), str(0x86, "e.f"), str(0x82, "g.h"), net("net2", 32), str(0x81, "i.j"), str(0x86, "k.l")}
	other := []subtree{str(0x86, "m.n"), net("net3", 8), str(0x81, "o.p"), str(0x82, "q.r")}
	run("permitted and excluded", mixed, other, false)
	run("excluded and permitted", other, mixed, false)
	both("first of several", false, mixed[:2])
	// other kinds of names
	for t := 0; t < 256; t++ {
		if consFields[byte(t)] != "" || t&0x1f == 0x1f {
			continue
		}
		s := []subtree{str(byte(t), "a.b")}
		run(fmt.Sprintf("name with tag %02x", t), s, nil, false)
		if t&0x0f == 4 {
			run(fmt.Sprintf("excluded name with tag %02x", t), nil, s, false)
			run(fmt.Sprintf("name with tag %02x between others", t), []subtree{mixed[0], s[0], mixed[1]}, []subtree{mixed[3]}, false)
		}
	}
	// malformed
	ok := trees(0xa0, mixed[:1])
	runDER("empty", elemDER(0x30), nil, nil, true)
	runDER("empty lists", elemDER(0x30, elemDER(0xa0), elemDER(0xa1)), nil, nil, true)
	runDER("bytes after the extension", MkSeq(elemDER(0x30, ok), Bytes("\x05\x00")), nil, nil, true)
	runDER("bytes after the lists", elemDER(0x30, ok, Bytes("\x05\x00")), nil, nil, true)
	runDER("a third list", elemDER(0x30, ok, trees(0xa2, mixed[:1])), nil, nil, true)
	runDER("not a sequence", elemDER(0x31, ok), nil, nil, true)
	runDER("subtree that is no sequence", elemDER(0x30, elemDER(0xa0, elemDER(0x31, elemDER(0x82, Bytes("a.b"))))), nil, nil, true)
	runDER("truncated subtree", elemDER(0x30, elemDER(0xa0, mixed[0].der(), Bytes("\x30\x05\x82"))), nil, nil, true)
	runDER("empty subtree", elemDER(0x30, elemDER(0xa0, elemDER(0x30))), nil, nil, true)
}

// constraint is one kind of constraint to write.
type constraint struct {
	field string
	tag   byte
	in    []*Term // the values: contents of the names; networks as address and mask
	out   []*Term
}

func (x *certCtx) constraintValue(fn *ssa.Function, side string, k constraint) Value {
	lt := x.tfield(fn, side+k.field)
	if k.field != "IPRanges" {
		return x.e.fromTerm(seqOf(k.in...), lt)
	}
	pt := elemType(lt).(*types.Pointer)
	var l []*Term
	for i := 0; i < len(k.in); i += 2 {
		t := Sym(fmt.Sprintf("arg:ipnet%s%d", side, i))
		l = append(l, t)
		p := x.e.fromTerm(t, pt).(*Ptr)
		u := p.obj.typ.Underlying().(*types.Struct)
		a := k.in[i : i+2]
		x.preps = append(x.preps, func(st *State) {
			for j := range a {
				x.e.storeAt(st, p.obj, fmt.Sprintf(".%d", j), u.Field(j).Type(), x.e.fromTerm(a[j], u.Field(j).Type()))
			}
		})
	}
	return x.e.fromTerm(seqOf(l...), lt)
}

// orders are the contents with the kinds of constraints in any order.
func orders(ks []constraint) []*Term {
	if len(ks) == 0 {
		return []*Term{MkSeq()}
	}
	var r []*Term
	for i, k := range ks {
		var own []*Term
		for _, b := range k.out {
			own = append(own, subtree{k.tag, b}.der())
		}
		rest := append(append([]constraint{}, ks[:i]...), ks[i+1:]...)
		for _, t := range orders(rest) {
			r = append(r, MkSeq(append(append([]*Term{}, own...), t)...))
		}
	}
	return r
}

func (c *Check) writeConstraints() {
	const rule = "write constraints"
	crit := rawOp("cond", "nccritical", 0)
	run := func(what string, perm, excl []constraint, refuse bool) {
		x := c.cert()
		fn := x.infoFn(rule)
		if fn == nil {
			return
		}
		set := map[string]Value{"PermittedDNSDomainsCritical": crit}
		for i, l := range [][]constraint{perm, excl} {
			side := []string{"Permitted", "Excluded"}[i]
			for _, k := range l {
				set[side+k.field] = x.constraintValue(fn, side, k)
			}
		}
		x.writeExt(writeCase{rule: rule, what: what, set: set, assume: nameFacts(), want: func(F *Facts) ([]wext, bool) {
			return []wext{{id: "2.5.29.30", crit: crit, okV: func(v *Term) string {
				for _, p := range orders(perm) {
					for _, e := range orders(excl) {
						var in []*Term
						if len(perm) > 0 {
							in = append(in, elemDER(0xa0, p))
						}
						if len(excl) > 0 {
							in = append(in, elemDER(0xa1, e))
						}
						if F.Eval(seqEqCond(&State{facts: F}, v, elemDER(0x30, in...))) == 1 {
							return ""
						}
					}
				}
				return "contents " + cutMid(v.String(), 300)
			}}}, refuse
		}})
	}
	both := func(what string, refuse bool, ks ...constraint) {
		run("permitted "+what, ks, nil, refuse)
		run("excluded "+what, nil, ks, refuse)
	}
	kinds := []constraint{{"DNSDomains", 0x82, nil, nil}, {"EmailAddresses", 0x81, nil, nil}, {"URIDomains", 0x86, nil, nil}, {"IPRanges", 0x87, nil, nil}}
	strs := func(i int, ss ...string) constraint {
		k := kinds[i]
		for _, s := range ss {
			k.in = append(k.in, Bytes(s))
		}
		k.out = k.in
		return k
	}
	nets := func(ss ...string) constraint {
		k := kinds[3]
		for i := 0; i < len(ss); i += 2 {
			ip, m := ss[i], ss[i+1]
			k.in = append(k.in, Bytes(ip), Bytes(m))
			if len(ip) == 16 && len(m) == 4 {
				ip = ip[12:]
			}
			o := []byte(ip + m)
			for j := range m {
				o[j] &= m[j]
			}
			k.out = append(k.out, Bytes(string(o)))
		}
		return k
	}
	long := func(n int) string { return strings.Repeat("abcdefghi.", n/10+1)[:n] }
	for i := range kinds[:3] {
		for _, n := range []int{1, 5, 16, 123, 124, 125, 126, 127, 128, 240, 250, 255, 256, 300} {
			both(fmt.Sprintf("%s of %d bytes", kinds[i].field, n), false, strs(i, long(n)))
		}
		both(kinds[i].field+", several", false, strs(i, "a.b", ".c.d", "e", long(130)))
		both(kinds[i].field+", equal", false, strs(i, "a.b", "a.b"))
		for _, s := range []string{"\x80", "a\xc3\xa9.b", "a.b\xff", "\xe4\xb8\xad"} {
			both(fmt.Sprintf("%s with %q", kinds[i].field, s), true, strs(i, s))
			both(fmt.Sprintf("%s with %q after others", kinds[i].field, s), true, strs(i, "a.b", "c.d", s))
			both(fmt.Sprintf("%s with %q before others", kinds[i].field, s), true, strs(i, s, "a.b"))
		}
	}
	v6 := "\xfe\x80\x12\x34\x56\x78\x9a\xbc\xde\xf0\x11\x22\x33\x44\x55\x66"
	m6 := "\xff\xff\xff\xff\xff\xff\xff\xf0" + strings.Repeat("\x00", 8)
	v4, m4 := "\x0a\xf1\x92\x83", "\xff\xff\xf0\x00"
	mapped := strings.Repeat("\x00", 10) + "\xff\xff\xc0\xa8\xfe\xdc"
	both("IPv4 network", false, nets(v4, m4))
	both("IPv6 network", false, nets(v6, m6))
	both("network of a mapped address", false, nets(mapped, m4))
	both("networks", false, nets(v6, m6, v4, m4, v4, "\xff\xff\xff\xff", v4, "\x00\x00\x00\x00", v6, strings.Repeat("\xff", 16)))
	// one of each pair of kinds on the two sides, and everything
	val := func(i, j int) constraint {
		if i == 3 {
			return []constraint{nets(v4, m4), nets(v6, m6, v4, "\xff\x00\x00\x00")}[j]
		}
		return []constraint{strs(i, "a.b"), strs(i, "c.d", "e.f")}[j]
	}
	for i := range kinds {
		for j := range kinds {
			run("permitted "+kinds[i].field+", excluded "+kinds[j].field, []constraint{val(i, 0)}, []constraint{val(j, 1)}, false)
			if i < j {
				both(kinds[i].field+" and "+kinds[j].field, false, val(i, 0), val(j, 1))
			}
		}
	}
	all := func(j int) []constraint { return []constraint{val(0, j), val(1, j), val(2, j), val(3, j)} }
	run("everything", all(0), all(1), false)
	run("everything, exchanged", all(1), all(0), false)
	run("everything permitted", all(1), nil, false)
	run("everything excluded", nil, all(0), false)
}

// nameSet is a set of names to write and, per tag, what must be written.
type nameSet struct {
	what   string
	fields map[string]*Term
	want   map[int64][]*Term
	assume []*Term
}

func nameSets() []nameSet {
	var r []nameSet
	str := func(f, p string, tag int64, n int) nameSet {
		return nameSet{fmt.Sprintf("%d %s", n, f), map[string]*Term{f: seqOf(names(p, n)...)}, map[int64][]*Term{tag: names(p, n)}, nil}
	}
	ip := func(i int, n int64) *Term { return SubBase(Sym(fmt.Sprintf("arg:ip%d", i)), C(0), C(n)) }
	uri := func(n int) nameSet {
		var us, ss []*Term
		for i := 0; i < n; i++ {
			u := Sym(fmt.Sprintf("arg:url%d", i))
			s := rawOp("urlstr", "", 0, u)
			us, ss = append(us, u), append(ss, SubBase(s, C(0), LenOf(s)))
		}
		return nameSet{fmt.Sprintf("%d URIs", n), map[string]*Term{"URIs": seqOf(us...)}, map[int64][]*Term{6: ss}, nil}
	}
	ips := nameSet{"IPAddresses", map[string]*Term{}, map[int64][]*Term{}, nil}
	var in []*Term
	add := func(i int, n int64, mapped bool) {
		a := ip(i, n)
		in = append(in, a)
		if n == 16 {
			m := rawOp("mapped4", "", 0, a)
			if mapped {
				ips.assume = append(ips.assume, m)
				a = SubBase(Sym(fmt.Sprintf("arg:ip%d", i)), C(12), C(4))
			} else {
				ips.assume = append(ips.assume, Not(m))
			}
		}
		ips.want[7] = append(ips.want[7], a)
	}
	add(0, 4, false)
	for n := 1; n <= 3; n++ {
		r = append(r, str("DNSNames", "dns", 2, n), str("EmailAddresses", "email", 1, n), uri(n))
	}
	for i := 1; i <= 4; i++ {
		ips.fields = map[string]*Term{"IPAddresses": seqOf(append([]*Term{}, in...)...)}
		n := ips
		n.what = fmt.Sprintf("%d IP addresses", i)
		n.want = map[int64][]*Term{7: append([]*Term{}, ips.want[7]...)}
		n.assume = append([]*Term{}, ips.assume...)
		r = append(r, n)
		add(i, []int64{16, 16, 4, 16}[i-1], i == 1)
	}
	join := func(what string, l ...nameSet) {
		n := nameSet{what, map[string]*Term{}, map[int64][]*Term{}, nil}
		for _, x := range l {
			for k, v := range x.fields {
				n.fields[k] = v
			}
			for k, v := range x.want {
				n.want[k] = v
			}
			n.assume = append(n.assume, x.assume...)
		}
		r = append(r, n)
	}
	i4 := r[len(r)-1]
	join("all kinds of names", str("DNSNames", "dns", 2, 2), str("EmailAddresses", "email", 1, 2), uri(2), i4)
	join("e-mail and URI names", str("EmailAddresses", "email", 1, 1), uri(1))
	join("DNS and IP names", str("DNSNames", "dns", 2, 1), i4)
	return r
}

// sanHolds compares the encoding of alternative names with the names by tag.
func sanHolds(v *Term, want map[int64][]*Term) string {
	bad := "names " + cutMid(v.String(), 400)
	a := encVal(v, "SEQOF(RAW)")
	if a == nil {
		return bad
	}
	got := map[int64][]*Term{}
	for _, p := range pieces(a) {
		if p.op != "elemw" {
			return bad
		}
		n := structOf(p.args[0])
		if len(n) != 5 || !n[0].isCi(2) || !n[1].isC() || n[2] != TFalse || !SeqLen(n[4]).isCi(0) {
			return bad
		}
		k, _ := n[1].i64()
		got[k] = append(got[k], n[3])
	}
	for k := range got {
		if len(want[k]) == 0 {
			return fmt.Sprintf("a name with tag %d: ", k) + bad
		}
	}
	for k, w := range want {
		if norm(seqOf(got[k]...)) != norm(seqOf(w...)) {
			return fmt.Sprintf("tag %d: ", k) + bad
		}
	}
	return ""
}

func (c *Check) writeNames() {
	const rule = "write names"
	x := c.cert()
	fn := x.infoFn(rule)
	if fn == nil {
		return
	}
	for _, s := range nameSets() {
		set := map[string]Value{}
		for k, t := range s.fields {
			set[k] = x.fval(fn, k, t)
		}
		x.writeExt(writeCase{rule: rule, what: s.what, set: set, assume: append(nameFacts(), s.assume...), want: func(F *Facts) ([]wext, bool) {
			return []wext{{id: "2.5.29.17", okV: func(v *Term) string { return sanHolds(v, s.want) }}}, false
		}})
	}
	// requests
	for _, s := range nameSets() {
		x := c.cert()
		x.signHook()
		e := x.e
		fn := x.fnOf(rule, "CreateCertificateRequest", 4)
		if fn == nil {
			return
		}
		st := e.newState()
		for _, t := range append(nameFacts(), s.assume...) {
			st.facts = st.facts.Assume(t, true)
		}
		set := map[string]map[string]Value{"0": {}}
		for k, t := range s.fields {
			set["0"][k] = x.fval(fn, k, t)
		}
		var subj *Term
		set["0"]["RawSubject"], subj = x.bytesVal(st, "arg:subject", true)
		as, _ := x.args(fn, st, map[string]bool{"0": true}, set)
		if _, _, okK := x.pubArg(st, as[1]); !okK {
			c.fail(rule, "request", c.at(fn), "the second parameter is not a public key")
			continue
		}
		_ = subj
		what := "request with " + s.what
		rs := x.run(fn, as, st, rule, what)
		ok, bad := x.exits(rs)
		c.ob(rule, what+": succeeds for some input", c.at(fn), len(ok) > 0, "no success exit")
		x.noResult(rule, what, fn, bad)
		for _, q := range ok {
			diff := requestNames(q, s.want)
			c.ob(rule, what, c.at(fn), diff == "", diff)
		}
	}
}

// requestNames: the request holds one attribute, an extension request with
// the alternative names.
func requestNames(q *cexit, want map[int64][]*Term) string {
	a := derOf(q.bytes(0), reqShape)
	if len(a) != 4 {
		return "not a request"
	}
	tbs := structOf(a[1])
	if len(tbs) != 5 {
		return "not a request"
	}
	return namesRequested(tbs[4], want)
}

const (
	attrShape  = "SEQ(OID,[set]SEQOF(SEQOF(SEQ(OID,ANY))))"
	oidExtReq  = "1.2.840.113549.1.9.14"
	attrsShape = "SEQOF(" + attrShape + ")"
)

// attrList is the list of attributes whose encodings the raw values are.
func attrList(t *Term) []*Term {
	var l []*Term
	if t.op == "sub" && t.args[0].op == "undec" && t.args[0].s == "SEQOF(RAW)" {
		v := encVal(t.args[0].args[0], attrsShape)
		if v == nil {
			return nil
		}
		for _, p := range pieces(v) {
			if p.op != "elemw" {
				return nil
			}
			l = append(l, p.args[0])
		}
		return l
	}
	for _, p := range pieces(t) {
		if p.op != "elemw" {
			return nil
		}
		r := structOf(p.args[0])
		if len(r) != 5 {
			return nil
		}
		v := encVal(r[4], attrShape)
		if v == nil {
			return nil
		}
		l = append(l, v)
	}
	return l
}

// list1 is the only element of a list.
func list1(t *Term) *Term {
	if p := pieces(t); len(p) == 1 && p[0].op == "elemw" {
		return p[0].args[0]
	}
	return nil
}

func namesRequested(attrs *Term, want map[int64][]*Term) string {
	bad := "attributes " + cutMid(attrs.String(), 900)
	l := attrList(attrs)
	if len(l) != 1 {
		return bad
	}
	a := structOf(l[0])
	if len(a) != 2 || a[0] != oidSeq(oidExtReq) {
		return bad
	}
	for i := 0; i < 2; i++ {
		if a[1] = list1(a[1]); a[1] == nil {
			return bad
		}
	}
	x := structOf(a[1])
	if len(x) != 2 || x[0] != oidSeq("2.5.29.17") || x[1].op != "iface" || x[1].s != "[]byte" {
		return bad
	}
	return sanHolds(norm(x[1].args[0]), want)
}

func checkNames(c *Check) {
	c.explain = "Reading: ParseCertificate is interpreted on certificates with alternative names of any tag and length and with name constraints in DER, and the name fields are compared with the names of the right tag. Writing: CreateCertificateInfo and CreateCertificateRequest are interpreted on templates with names and constraints of each kind, and the tags and contents in the DER they produce are compared with the registry."
	c.rule("read names", "each alternative name goes to the field of its tag, IP addresses only with 4 or 16 bytes")
	c.rule("write names", "each name is written with the tag of its kind and its own contents")
	c.readNames()
	c.readRequestNames()
	c.rule("read constraints", "each constraint goes to the permitted or excluded list of its tag, networks only with 8 or 32 bytes and a mask of ones followed by zeros")
	c.readConstraints()
	c.rule("write constraints", "each constraint is written under the tag of its kind in the permitted or excluded subtrees, networks as masked address and mask")
	c.writeNames()
	c.writeConstraints()
}

func init() {
	addCheck("C27", "other", absInt, checkNames)
}

func slicesHas(l []int64, v int64) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}
