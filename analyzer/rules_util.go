package main

// Padding.

import "fmt"

func checkPadding(c *Check) {
	c.explain = "Padding is interpreted for every block size from 1 to 255 on an input of unbounded symbolic length and content: the result must be the input followed by n bytes of value n (respectively 0) with n = blocksize - len mod blocksize. Unpadding is interpreted on an arbitrary input; the facts of every exit decide whether its last byte n satisfies 1<=n<=len: then the result must be the input without its last n bytes, otherwise nil, and no path may panic. The parts of the input that are returned must be unchanged, and nothing may be written to the argument or its spare capacity."
	c.rule("pkcs5", "the result is the input followed by n bytes of value n")
	c.rule("zero", "the result is the input followed by n zero bytes")
	c.rule("unpad", "the last n bytes are removed for a last byte 1<=n<=length, and everything else gives nil")
	c.rule("unwritten", "nothing is written to the argument or its spare capacity")
	e := c.engine(false)
	e.wellFormed()
	x := &hashCtx{c: c, e: e}
	S := Sym("arg:src")
	src := SubBase(S, C(0), LenOf(S))
	writes := func(name, at string) {
		for _, w := range e.writes {
			c.ob("unwritten", name, at, len(w.root) < 6 || w.root[:6] != "param ", w.fn+": "+w.what+" "+w.root)
		}
		c.ob("unwritten", name, at, true, "")
	}
	for _, name := range []string{"PKCS5Padding", "ZeroPadding"} {
		f := c.ld.fn("util", name)
		if f == nil || len(f.Params) != 2 {
			c.fail("analysable", name, "util", "the function does not exist")
			continue
		}
		rule := map[string]string{"PKCS5Padding": "pkcs5", "ZeroPadding": "zero"}[name]
		for bs := int64(1); bs < 256; bs++ {
			what := fmt.Sprintf("%s to blocks of %d", name, bs)
			q := Sym("q")
			for res := int64(0); res < bs; res++ {
				if res > 2 && res < bs-2 && res != bs/2 && c.tier != "thorough" {
					continue
				}
				st := e.newState()
				L := Add(MulI(q, bs), C(res))
				st.facts = st.facts.Assume(GE0(q), true).Assume(Le(L, CapOf(S)), true)
				src := SubBase(S, C(0), L)
				n := bs - res
				v := int64(0)
				if rule == "pkcs5" {
					v = n
				}
				want := MkSeq(src, Rep(C(v), C(n)))
				for _, r := range x.run(f, []Value{x.data("arg:src", L), C(bs)}, st, rule, what) {
					got := x.seq(r, 0)
					c.ob(rule, what, c.at(f), got != nil && same(r.st.facts, got, want), "the result is "+termStr(got))
				}
			}
		}
		writes(name, c.at(f))
	}
	f := c.ld.fn("util", "PKCS5UnPadding")
	if f == nil || len(f.Params) != 1 {
		c.fail("analysable", "PKCS5UnPadding", "util", "the function does not exist")
		return
	}
	last := AtBase(S, Sub(LenOf(S), C(1)), 8)
	for _, r := range x.run(f, []Value{x.data("arg:src", LenOf(S))}, e.newState(), "unpad", "PKCS5UnPadding") {
		s, _ := r.vals[0].(*Slice)
		F := r.st.facts
		good := F.Assume(Le(C(1), LenOf(S)), true).Assume(Le(C(1), last), true).Assume(Le(last, LenOf(S)), true)
		if !good.bot && !inconsistent(good) {
			want := subSeq(good, src, C(0), Sub(LenOf(S), last))
			got := x.seq(r, 0)
			c.ob("unpad", "valid padding", c.at(f), s != nil && got != nil && want != nil && same(good, got, want) && good.Eval(s.nilT) != 1, "the result is "+termStr(got)+" when "+cutMid(good.String(), 300))
		}
		for i, bad := range []*Facts{F.Assume(EQ0(LenOf(S)), true), F.Assume(Le(C(1), LenOf(S)), true).Assume(EQ0(last), true), F.Assume(Le(C(1), LenOf(S)), true).Assume(Lt(LenOf(S), last), true)} {
			if !bad.bot && !inconsistent(bad) {
				c.ob("unpad", "invalid padding: "+[]string{"empty", "last byte 0", "last byte beyond the length"}[i], c.at(f), s != nil && bad.Eval(s.nilT) == 1, "the result is not nil")
			}
		}
	}
	writes("PKCS5UnPadding", c.at(f))
}

func init() { addCheck("C32", "other", absInt, checkPadding) }
