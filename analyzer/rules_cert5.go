package main

// Extended key usages.

import (
	"fmt"
	"go/types"
)

// usageCase: the usage numbers of the identifiers under the facts, -1 for an
// unknown one.
type usageCase struct {
	F  *Facts
	ks []int
}

func (u usageCase) with(id *Term) []usageCase {
	F := u.F
	var eqs []*Term
	for k, o := range ekuOID {
		t := seqEqCond(&State{facts: F}, id, oidSeq(o))
		if F.Eval(t) == 1 {
			return []usageCase{{F, append(append([]int{}, u.ks...), k)}}
		}
		eqs = append(eqs, t)
	}
	var r []usageCase
	for k, t := range eqs {
		switch F.Eval(t) {
		case 1:
			return append(r, usageCase{F, append(append([]int{}, u.ks...), k)})
		case 0:
			r = append(r, usageCase{F.Assume(t, true), append(append([]int{}, u.ks...), k)})
			F = F.Assume(t, false)
		}
	}
	return append(r, usageCase{F, append(append([]int{}, u.ks...), -1)})
}

func (c *Check) readUsages() {
	x := c.cert()
	ext := ext1("2.5.29.37")
	val := ext[0].val
	shape := "SEQOF(OID)"
	// lists of identifiers; nil stands for any identifier
	run := func(rule, what string, ids []*Term) {
		nsym := 0
		var as []*Term
		for _, id := range ids {
			as = append(as, GE0(SeqLen(id)))
			if !SeqLen(id).isC() {
				nsym++
			}
		}
		covered := map[int]bool{}
		x.readExt(extCase{rule: rule, what: what, exts: ext, over: listOver(val, shape, ids), assume: as,
			wantV: func(q *cexit, name string, v Value, t types.Type) (bool, bool) {
				if name != "ExtKeyUsage" && name != "UnknownExtKeyUsage" {
					return false, false
				}
				cs := []usageCase{{F: q.F}}
				for _, id := range ids {
					var next []usageCase
					for _, u := range cs {
						next = append(next, u.with(id)...)
					}
					cs = next
				}
				for _, u := range cs {
					var known, unknown []*Term
					for i, k := range u.ks {
						if k >= 0 {
							known = append(known, C(int64(k)))
						} else {
							unknown = append(unknown, ids[i])
						}
						covered[k] = true
					}
					w := known
					if name == "UnknownExtKeyUsage" {
						w = unknown
					}
					q2 := *q
					q2.F = u.F
					if !q2.same(v, t, seqOf(w...)) {
						return false, true
					}
				}
				return true, true
			}})
		if nsym > 0 {
			c.ob(rule, what+": every usage is possible", "-", len(covered) == len(ekuOID)+1, fmt.Sprintf("%d of %d", len(covered), len(ekuOID)+1))
		}
	}
	run("read", "any identifier", []*Term{symBytes("eku0")})
	var all, mixed []*Term
	for i, o := range ekuOID {
		run("read", "usage "+o, []*Term{oidSeq(o)})
		all = append(all, oidSeq(o))
		mixed = append(mixed, oidSeq(ekuOID[13-i]), oidSeq(fmt.Sprintf("1.3.6.1.5.5.7.3.%d", 20+i)))
	}
	run("read", "all usages", all)
	run("read", "usages among unknown ones", mixed)
	for _, o := range []string{"2.5.29.37", "2.5.29.37.0.0", "1.3.6.1.5.5.7.3", "1.3.6.1.5.5.7.3.0", "1.3.6.1.5.5.7.3.10", "1.3.6.1.5.5.7.3.1.1", "1.3.6.1.4.1.311.10.3.4"} {
		run("read", "identifier near a usage: "+o, []*Term{oidSeq(o), oidSeq(ekuOID[3])})
	}
}

func (c *Check) writeUsages() {
	x := c.cert()
	fn := x.infoFn("write")
	if fn == nil {
		return
	}
	var known func(F *Facts) map[*Term]*Term
	run := func(what string, ks []*Term, unk int, split []*Term, val func(F *Facts) (ids []*Term, refuse bool)) {
		set := map[string]Value{"ExtKeyUsage": x.fval(fn, "ExtKeyUsage", seqOf(ks...))}
		if unk > 0 {
			set["UnknownExtKeyUsage"] = x.fval(fn, "UnknownExtKeyUsage", seqOf(names("unkeku", unk)...))
		}
		x.writeExt(writeCase{rule: "write", what: what, set: set, assume: nameFacts(), split: split, known: known, want: func(F *Facts) ([]wext, bool) {
			ids, refuse := val(F)
			if refuse {
				return nil, true
			}
			return []wext{{"2.5.29.37", TFalse, derSeq("SEQOF(OID)", seqOf(append(ids, names("unkeku", unk)...)...)), nil}}, false
		}})
	}
	var all []*Term
	var oids []*Term
	for k := range ekuOID {
		all = append(all, C(int64(k)))
		oids = append(oids, oidSeq(ekuOID[k]))
		run(fmt.Sprintf("usage %d", k), []*Term{C(int64(k))}, 0, nil, func(*Facts) ([]*Term, bool) { return []*Term{oidSeq(ekuOID[k])}, false })
	}
	run("all usages and unknown ones", all, 3, nil, func(*Facts) ([]*Term, bool) { return append([]*Term{}, oids...), false })
	k := Sym("arg:usage")
	var split []*Term
	for i := range ekuOID {
		split = append(split, Eq(k, C(int64(i))))
	}
	known = func(F *Facts) map[*Term]*Term {
		for i, t := range split {
			if F.Eval(t) == 1 {
				return map[*Term]*Term{k: C(int64(i))}
			}
		}
		return map[*Term]*Term{}
	}
	anyUsage := func(F *Facts) (*Term, bool) {
		for i, t := range split {
			if F.Eval(t) == 1 {
				return oidSeq(ekuOID[i]), false
			}
		}
		return nil, true
	}
	run("any usage", []*Term{k}, 0, split, func(F *Facts) ([]*Term, bool) {
		o, bad := anyUsage(F)
		return []*Term{o}, bad
	})
	run("any usage with an unknown one", []*Term{k}, 1, split, func(F *Facts) ([]*Term, bool) {
		o, bad := anyUsage(F)
		return []*Term{o}, bad
	})
	run("any usage after a known one", []*Term{C(3), k}, 0, split, func(F *Facts) ([]*Term, bool) {
		o, bad := anyUsage(F)
		return []*Term{oidSeq(ekuOID[3]), o}, bad
	})
	run("any usage before a known one", []*Term{k, C(3)}, 0, split, func(F *Facts) ([]*Term, bool) {
		o, bad := anyUsage(F)
		return []*Term{o, oidSeq(ekuOID[3])}, bad
	})
}

func checkUsages(c *Check) {
	c.explain = "Reading: ParseCertificate is interpreted on certificates with an extended key usage extension listing any one identifier, each registered identifier, all of them, and unknown ones in between; the usages and unknown identifiers of the result are compared with the registry. Writing: CreateCertificateInfo is interpreted on templates with any one usage number, each known one and all of them, and the list in the extension is compared with the registry; a number outside it must be refused."
	c.rule("read", "an identifier of the registry becomes its usage, any other is kept as unknown, in order")
	c.rule("write", "a usage is written as its registered identifier, unknown identifiers after it; a usage without identifier is refused")
	c.readUsages()
	c.writeUsages()
}

func init() {
	addCheck("C26", "other", absInt, checkUsages)
}
