package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: whatever is decoded must leave nothing over.

// restChecker judges the decodes on the success paths of other scenarios.
type restChecker struct {
	c    *Check
	seen map[string]bool // positions of decoding calls on some success path
	done map[string]bool
}

// scratch is a check whose obligations are not counted; what could not be
// analysed still is.
func (r *restChecker) scratch() *Check {
	s := newCheck(r.c.id, r.c.tier)
	s.ld = r.c.ld
	s.onExit = r.exit
	return s
}

func (r *restChecker) take(s *Check) {
	for _, o := range s.obs {
		if !o.OK && o.Rule == "analysable" {
			r.c.fail(o.Rule, o.What, o.Where, o.Detail)
		}
	}
	for f := range s.analysed {
		r.c.analysed[f] = true
	}
	for k, n := range s.stats {
		r.c.stats[k] += n
	}
}

func (r *restChecker) judge(ev *Event, ok bool, detail string) {
	what := "decode of " + ev.s[strings.LastIndex(ev.s, "|")+1:] + " in " + ev.fn
	k := fmt.Sprint(what, ok)
	if !ok || !r.done[k] {
		r.done[k] = true
		r.c.ob("whole", what, r.c.ld.rel(ev.pos), ok, detail)
	} else {
		r.c.stats["decodes on success paths"]++
	}
}

func (r *restChecker) exit(q *cexit) {
	evs := q.r.st.events()
	for _, ev := range evs {
		if ev.kind != "unmarshal" {
			continue
		}
		r.seen[ev.pos] = true
		restLen, d, sh := ev.args[0], ev.args[1], ev.args[2].s
		if q.F.ProveGE0(Neg(restLen)) {
			r.judge(ev, true, "")
			continue
		}
		// what is left over is decoded in turn
		next := false
		for _, e2 := range evs {
			next = next || e2 != ev && e2.kind == "unmarshal" && SeqLen(e2.args[1]) == restLen && !restLen.isC()
		}
		if next {
			r.judge(ev, true, "")
			continue
		}
		if r.skipped(q, evs, ev) {
			r.judge(ev, true, "")
			continue
		}
		// the value list of an extension request
		if sh == "SEQOF("+extShape+")" && strings.HasPrefix(d.String(), "sub(attrval") {
			continue
		}
		r.judge(ev, false, "bytes after the value are accepted: "+cutMid(d.String(), 200)+" when "+cutMid(q.F.String(), 500))
	}
}

// skipped: an attribute of a request that is left out of the result.
func (r *restChecker) skipped(q *cexit, evs []*Event, ev *Event) bool {
	d := ev.args[1]
	if !strings.HasPrefix(d.String(), "sub(attr") {
		return false
	}
	val := rawOp("undec", ev.args[2].s, 0, d)
	uses := func(t *Term) bool { return hasTerm(t, val) || hasTerm(t, LenOf(val)) }
	for _, e2 := range evs {
		if e2 == ev || e2.kind != "unmarshal" {
			continue
		}
		if uses(e2.args[1]) || strings.HasPrefix(e2.args[1].String(), "sub(attrval") && strings.Contains(ev.args[2].s, "RAW") {
			return false
		}
	}
	o := q.obj(0)
	if o == nil {
		return false
	}
	for _, f := range []string{"Attributes", "Extensions"} {
		v, t := field(o, f)
		if v == nil || uses(q.x.e.reify(q.r.st, v, t)) {
			return false
		}
	}
	return true
}

// attributes: requests with attributes of any kind.
func (c *Check) restAttributes() {
	for _, id := range []*Term{oidSeq(oidExtReq), symBytes("attrid")} {
		for n := 1; n <= 1; n++ {
			x := c.cert()
			val := func(i int) *Term { return symBytes(fmt.Sprintf("attr%d", i)) }
			lst := func(i int) *Term { return symBytes(fmt.Sprintf("attrval%d", i)) }
			x.over = func(d *Term, shape string, v *Term, typ types.Type) (*Term, *Term) {
				if shape == reqShape {
					var es []*Term
					for i := 0; i < n; i++ {
						es = append(es, rawVal(C(0), C(16), TTrue, symBytes(fmt.Sprintf("attrin%d", i)), val(i)))
					}
					return with(v, typ, "", map[string]*Term{"1.4": seqOf(es...)}), nil
				}
				for i := 0; i < n; i++ {
					if d == val(i) && shape == "SEQ(OID,[set]SEQOF(RAW))" {
						return strct(id, seqOf(rawVal(C(0), C(16), TTrue, symBytes(fmt.Sprintf("attrvalin%d", i)), lst(i)))), nil
					}
					if d == lst(i) && shape == "SEQOF("+extShape+")" {
						return seqOf(extn{oidSeq("2.5.29.99"), critSym, symBytes("extval")}.term()), nil
					}
				}
				return nil, nil
			}
			fn, ok, _, _ := x.parse("whole", "ParseCertificateRequest", fmt.Sprintf("request with %d attributes", n))
			if fn != nil {
				c.ob("whole", "request with attributes is accepted", c.at(fn), len(ok) > 0, "no success exit")
			}
		}
	}
}

// constraintTails: bytes after or inside the name constraints.
func (c *Check) constraintTails() {
	const rule = "constraints"
	x := c.cert()
	id := oidSeq("2.5.29.30")
	tree := func(in ...*Term) *Term { return elemDER(0x30, in...) }
	base := elemDER(0x82, Bytes("a.b"))
	for _, tag := range []byte{0xa0, 0xa1} {
		good := elemDER(tag, tree(base))
		run := func(what string, der *Term, refuse bool) {
			what = fmt.Sprintf("list %02x: %s", tag, what)
			x.readExt(extCase{rule: rule, what: what, exts: []extn{{id, critSym, der}}, refuse: refuse,
				wantV: func(*cexit, string, Value, types.Type) (bool, bool) { return true, true }})
		}
		run("well formed", tree(good), false)
		for _, t := range []string{"\x00", "\x05\x00", "\x30\x00", "\x30", "\x82\x03a.b"} {
			tail := Bytes(t)
			run(fmt.Sprintf("followed by %x", t), MkSeq(tree(good), tail), true)
			run(fmt.Sprintf("list followed by %x", t), tree(good, tail), true)
			run(fmt.Sprintf("subtree followed by %x", t), tree(elemDER(tag, tree(base), tail)), true)
		}
		tail := SubBase(Sym("tail"), C(0), C(3))
		run("followed by any bytes", MkSeq(tree(good), tail), true)
		run("followed by itself", MkSeq(tree(good), tree(good)), true)
		run("list twice", tree(good, good), true)
		run("lists in the wrong order", tree(elemDER(0xa1, tree(base)), elemDER(0xa0, tree(base))), true)
	}
}

// signatures and ciphertexts
func (r *restChecker) sm2Decoders() {
	c := r.c
	type dec struct {
		name string
		ok   func(x *Exit) *Facts
	}
	byErr := func(x *Exit) *Facts { y, _ := x.errCases(); return y }
	for _, d := range []dec{{"UnmarshalSign", byErr}, {"UnmarshalCipher", byErr}} {
		e := c.engine(false)
		run := c.run(e, "sm2", d.name, nil)
		n := 0
		for _, x := range run.ex {
			F := d.ok(x)
			if F == nil {
				continue
			}
			for _, ev := range x.st.events() {
				if ev.kind == "unmarshal" {
					n++
					r.seen[ev.pos] = true
					r.judge(ev, F.ProveGE0(Neg(ev.args[0])), "bytes after the value are accepted when "+cutMid(F.String(), 500))
				}
			}
		}
		c.ob("whole", d.name+" succeeds after a decode", c.at(run.fn), n > 0, "no success path decodes anything")
	}
}

// decodeCalls are the calls of the standard library's decoders.
func (c *Check) decodeCalls() map[string]string {
	r := map[string]string{}
	for _, fn := range c.ld.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if f := call.Common().StaticCallee(); f != nil {
					n = f.String()
				}
				if n == "encoding/asn1.Unmarshal" || n == "encoding/asn1.UnmarshalWithParams" {
					r[c.callPos(call.Pos())] = fn.String()
				}
			}
		}
	}
	return r
}

func (c *Check) callPos(p token.Pos) string {
	return c.ld.fset.Position(p).String()
}

func checkWhole(c *Check) {
	c.explain = "Every scenario that parses a certificate, a certificate request, key information, a signature or a ciphertext is interpreted; on each path that succeeds, each DER decode must be followed by proof that nothing is left over, or what is left over must itself be decoded. Every call of the decoder in the packages must be met on some success path."
	c.rule("whole", "on every success path nothing is left over after a decode")
	c.rule("constraints", "name constraints with bytes left over are refused")
	c.rule("covered", "every call of the DER decoder is met on a success path")
	r := &restChecker{c: c, seen: map[string]bool{}, done: map[string]bool{}}
	for _, f := range []func(*Check){(*Check).parsed, (*Check).certInfo, (*Check).request, (*Check).readExtensions, (*Check).readUsages, (*Check).readNames, (*Check).restAttributes} {
		s := r.scratch()
		f(s)
		r.take(s)
	}
	c.constraintTails()
	r.sm2Decoders()
	calls := c.decodeCalls()
	var ps []string
	for p := range calls {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		c.ob("covered", "decode in "+calls[p], c.ld.rel(p), r.seen[p], "this decode is on no analysed success path")
	}
}

func init() { addCheck("C08", "other", absInt, checkWhole) }
