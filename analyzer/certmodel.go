package main

// Library functions used around certificates.

import (
	"fmt"
	"go/types"
	"net"
	"strconv"
	"strings"
)

func init() {
	extraModels = append(extraModels, func(M map[string]modelFn) {
		M["(*crypto/x509/pkix.Name).FillFromRDNSequence"] = func(e *Engine, c *callCtx) []*Result {
			p, ok := c.args[0].(*Ptr)
			q, ok2 := c.args[1].(*Ptr)
			if !ok || !ok2 || p.obj == nil || q.obj == nil {
				return e.external(c, false)
			}
			nt, rt := deref(c.sig.Recv().Type()), c.sig.Params().At(0).Type().(*types.Pointer).Elem()
			old := e.reify(c.st, e.loadPtr(c.st, p, nt), nt)
			rdn := e.reify(c.st, e.loadPtr(c.st, q, rt), rt)
			e.storePtr(c.st, p, e.fromTerm(rawOp("fillname", "", 0, old, rdn), nt), nt, c.pos)
			return c.ret()
		}
		M["(crypto/x509/pkix.Name).ToRDNSequence"] = func(e *Engine, c *callCtx) []*Result {
			n := e.reify(c.st, c.args[0], c.sig.Recv().Type())
			return c.ret(e.fromTerm(rawOp("tordn", "", 0, n), c.sig.Results().At(0).Type()))
		}
		M["(time.Time).UTC"] = func(e *Engine, c *callCtx) []*Result {
			return c.ret(e.fromTerm(rawOp("ext", "time.UTC", 0, e.reify(c.st, c.args[0], c.sig.Recv().Type())), c.sig.Recv().Type()))
		}
		M["(net.IP).To4"] = func(e *Engine, c *callCtx) []*Result {
			s := c.slice(0)
			b := e.bytesOf(c.st, c.args[0])
			nilS := &Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}
			return c.cases(Eq(SeqLen(b), C(4)), func(st *State) []Value { return []Value{s} }, func(st *State) []Value {
				switch st.facts.Eval(Eq(SeqLen(b), C(16))) {
				case -1:
					return []Value{nilS}
				}
				// the last four bytes of a mapped address, else nil
				m := rawOp("mapped4", "", 0, b)
				switch st.facts.Eval(m) {
				case 1:
					return []Value{e.fromTerm(subSeqOr(st.facts, b, C(12), C(4)), s2t(c))}
				case -1:
					return []Value{nilS}
				}
				e.unsupported("net.IP.To4 of an address not known to be mapped or not at %s", e.pos(c.pos))
				return []Value{nilS}
			})
		}
		M["(net.IP).Mask"] = func(e *Engine, c *callCtx) []*Result {
			a, b := e.bytesOf(c.st, c.args[0]), e.bytesOf(c.st, c.args[1])
			if sa, ok := constStr(a); ok {
				if sb, ok := constStr(b); ok {
					if ip := net.IP(sa).Mask(net.IPMask(sb)); ip != nil {
						return c.ret(e.fromTerm(Bytes(string(ip)), s2t(c)))
					}
					return c.ret(&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue})
				}
			}
			na, ok := SeqLen(a).i64()
			nb, ok2 := SeqLen(b).i64()
			if !ok || !ok2 || na != nb || (na != 4 && na != 16) {
				e.unsupported("net.IP.Mask with these lengths at %s", e.pos(c.pos))
				return e.external(c, true)
			}
			return c.ret(e.fromTerm(SubBase(rawOp("ipmask", "", 0, a, b), C(0), C(na)), s2t(c)))
		}
		M["(net.IPMask).Size"] = func(e *Engine, c *callCtx) []*Result {
			b := e.bytesOf(c.st, c.args[0])
			n, ok := SeqLen(b).i64()
			if !ok || (n != 4 && n != 16) {
				if ok {
					return c.ret(C(0), C(0))
				}
				return e.external(c, true)
			}
			return c.cases(rawOp("goodmask", "", 0, b), func(st *State) []Value {
				o := rawOp("maskones", "", 0, b)
				st.facts = st.facts.Assume(GE0(o), true).Assume(Le(o, C(8*n)), true)
				return []Value{o, C(8 * n)}
			}, func(*State) []Value { return []Value{C(0), C(0)} })
		}
		M["net.ParseIP"] = func(e *Engine, c *callCtx) []*Result {
			b := e.bytesOf(c.st, c.args[0])
			if s, ok := constStr(b); ok {
				if ip := net.ParseIP(s); ip != nil {
					return c.ret(e.fromTerm(Bytes(string(ip)), s2t(c)))
				}
				return c.ret(&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue})
			}
			return c.cases(rawOp("isip", "", 0, b), func(st *State) []Value {
				return []Value{e.fromTerm(SubBase(rawOp("parseip", "", 0, b), C(0), C(16)), s2t(c))}
			}, func(st *State) []Value {
				return []Value{&Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}}
			})
		}
		M["net/url.Parse"] = func(e *Engine, c *callCtx) []*Result {
			b := e.bytesOf(c.st, c.args[0])
			pt := c.sig.Results().At(0).Type().(*types.Pointer)
			return c.cases(rawOp("urlok", "", 0, b), func(st *State) []Value {
				return []Value{urlOf(e, b, pt), nilIface}
			}, func(st *State) []Value {
				return []Value{&Ptr{nilT: TTrue}, e.newErr(st, c.site)}
			})
		}
		M["(*net/url.URL).String"] = func(e *Engine, c *callCtx) []*Result {
			p, ok := c.args[0].(*Ptr)
			if !ok || p.obj == nil {
				return e.external(c, true)
			}
			t := rawOp("urlstr", "", 0, e.reify(c.st, p, c.sig.Recv().Type()))
			c.st.facts = c.st.facts.Assume(GE0(LenOf(t)), true)
			return c.ret(SubBase(t, C(0), LenOf(t)))
		}
		M["(encoding/asn1.ObjectIdentifier).String"] = func(e *Engine, c *callCtx) []*Result {
			b := e.bytesOf(c.st, c.args[0])
			return c.ret(oidStr(c.st.facts, b))
		}
		M["(encoding/asn1.BitString).At"] = func(e *Engine, c *callCtx) []*Result {
			sv, ok := c.args[0].(*StructV)
			if !ok {
				return e.external(c, true)
			}
			b, n, i := e.bytesOf(c.st, sv.f[0]), sv.f[1].(*Term), c.term(1)
			if k, ok := i.i64(); ok {
				if k < 0 || c.st.facts.Eval(Le(n, C(k))) == 1 {
					return c.ret(C(0))
				}
				if c.st.facts.Eval(Lt(C(k), n)) == 1 {
					if v, ok := AtSeq(b, C(k/8), c.st.facts).i64(); ok {
						return c.ret(C(v >> (7 - uint(k%8)) & 1))
					}
				}
			}
			t := rawOp("bitat", "", 0, b, n, i)
			c.st.facts = c.st.facts.Assume(GE0(t), true).Assume(Le(t, C(1)), true)
			return c.ret(t)
		}
	})
}

var extraModels []func(M map[string]modelFn)

func s2t(c *callCtx) types.Type { return c.sig.Results().At(0).Type() }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func urlOf(e *Engine, b *Term, pt *types.Pointer) *Ptr {
	t := rawOp("url", "", 0, b)
	o := e.objOf("of:"+t.key(), pt.Elem())
	o.sym = t
	return &Ptr{obj: o, nilT: TFalse}
}

// oidStr is the dotted form of an identifier; distinct identifiers have
// distinct forms.
func oidStr(F *Facts, b *Term) *Term {
	if n, ok := SeqLen(b).i64(); ok && n > 0 {
		var ps []string
		for i := int64(0); i < n; i++ {
			k, ok := AtSeqW(b, C(i), F, 64).i64()
			if !ok {
				ps = nil
				break
			}
			ps = append(ps, fmt.Sprint(k))
		}
		if ps != nil {
			return Bytes(strings.Join(ps, "."))
		}
	}
	t := rawOp("oidstr", "", 0, b)
	return SubBase(t, C(0), LenOf(t))
}

// oidStrArg is the identifier whose dotted form the sequence is.
func oidStrArg(t *Term) *Term {
	if t.op == "sub" && t.args[0].op == "oidstr" && t.args[1].isCi(0) && t.args[2] == LenOf(t.args[0]) {
		return t.args[0].args[0]
	}
	return nil
}

// oidOfStr is the identifier with the dotted form s, nil when there is none.
func oidOfStr(s string) *Term {
	var ps []*Term
	for _, p := range strings.Split(s, ".") {
		n, err := strconv.ParseInt(p, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != p {
			return nil
		}
		ps = append(ps, ElemW(C(n)))
	}
	return MkSeq(ps...)
}
