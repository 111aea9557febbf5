package main

// SM4: the block transform, block operations in place, the mode helpers.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sm4Sbox = "" +
	"\xd6\x90\xe9\xfe\xcc\xe1\x3d\xb7\x16\xb6\x14\xc2\x28\xfb\x2c\x05" +
	"\x2b\x67\x9a\x76\x2a\xbe\x04\xc3\xaa\x44\x13\x26\x49\x86\x06\x99" +
	"\x9c\x42\x50\xf4\x91\xef\x98\x7a\x33\x54\x0b\x43\xed\xcf\xac\x62" +
	"\xe4\xb3\x1c\xa9\xc9\x08\xe8\x95\x80\xdf\x94\xfa\x75\x8f\x3f\xa6" +
	"\x47\x07\xa7\xfc\xf3\x73\x17\xba\x83\x59\x3c\x19\xe6\x85\x4f\xa8" +
	"\x68\x6b\x81\xb2\x71\x64\xda\x8b\xf8\xeb\x0f\x4b\x70\x56\x9d\x35" +
	"\x1e\x24\x0e\x5e\x63\x58\xd1\xa2\x25\x22\x7c\x3b\x01\x21\x78\x87" +
	"\xd4\x00\x46\x57\x9f\xd3\x27\x52\x4c\x36\x02\xe7\xa0\xc4\xc8\x9e" +
	"\xea\xbf\x8a\xd2\x40\xc7\x38\xb5\xa3\xf7\xf2\xce\xf9\x61\x15\xa1" +
	"\xe0\xae\x5d\xa4\x9b\x34\x1a\x55\xad\x93\x32\x30\xf5\x8c\xb1\xe3" +
	"\x1d\xf6\xe2\x2e\x82\x66\xca\x60\xc0\x29\x23\xab\x0d\x53\x4e\x6f" +
	"\xd5\xdb\x37\x45\xde\xfd\x8e\x2f\x03\xff\x6a\x72\x6d\x6c\x5b\x51" +
	"\x8d\x1b\xaf\x92\xbb\xdd\xbc\x7f\x11\xd9\x5c\x41\x1f\x10\x5a\xd8" +
	"\x0a\xc1\x31\x88\xa5\xcd\x7b\xbd\x2d\x74\xd0\x12\xb8\xe5\xb4\xb0" +
	"\x89\x69\x97\x4a\x0c\x96\x77\x7e\x65\xb9\xf1\x09\xc5\x6e\xc6\x84" +
	"\x18\xf0\x7d\xec\x3a\xdc\x4d\x20\x79\xee\x5f\x3e\xd7\xcb\x39\x48"

var sm4FK = []int64{0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc}

func sm4Tau(x *Term) *Term {
	var ps []*Term
	for k := 3; k >= 0; k-- {
		ps = append(ps, Elem(AtSeqW(Bytes(sm4Sbox), ByteAt(x, k), nil, 8)))
	}
	return NatVal(MkSeq(ps...), 32)
}

// sm4Keys are the round keys of the standard for a key of four words.
func sm4Keys(mk []*Term) []*Term {
	const W = 32
	k := make([]*Term, 4)
	for i := range k {
		k[i] = BXor(W, mk[i], C(sm4FK[i]))
	}
	for i := 0; i < 32; i++ {
		ck := int64(0)
		for j := 0; j < 4; j++ {
			ck = ck<<8 | int64((4*i+j)*7%256)
		}
		b := sm4Tau(BXor(W, k[i+1], k[i+2], k[i+3], C(ck)))
		k = append(k, BXor(W, k[i], b, BRot(W, b, 13), BRot(W, b, 23)))
	}
	return k[4:]
}

// sm4Block is the transform of the standard on four words.
func sm4Block(rk, in []*Term, dec bool) []*Term {
	const W = 32
	x := append([]*Term(nil), in...)
	for i := 0; i < 32; i++ {
		r := rk[i]
		if dec {
			r = rk[31-i]
		}
		b := sm4Tau(BXor(W, x[i+1], x[i+2], x[i+3], r))
		x = append(x, BXor(W, x[i], b, BRot(W, b, 2), BRot(W, b, 10), BRot(W, b, 18), BRot(W, b, 24)))
	}
	return []*Term{x[35], x[34], x[33], x[32]}
}

func beWords(s *Term, F *Facts) []*Term {
	var r []*Term
	for i := int64(0); i < 4; i++ {
		r = append(r, NatVal(subSeq(F, s, C(4*i), C(4)), 32))
	}
	return r
}

type sm4Ctx struct {
	*hashCtx
	st  *State // after construction
	blk *Iface
	rk  []*Term
	key *Term
}

// sm4New runs NewCipher on a 16 byte symbolic key.
func (c *Check) sm4New(rule string) *sm4Ctx {
	e := c.engine(false)
	e.wellFormed()
	x := &sm4Ctx{hashCtx: &hashCtx{c: c, e: e}}
	f := c.ld.fn("sm4", "NewCipher")
	if f == nil {
		c.fail("analysable", "NewCipher", "sm4", "the function does not exist")
		return nil
	}
	x.key = SubBase(Sym("arg:key"), C(0), C(16))
	x.rk = sm4Keys(beWords(x.key, nil))
	rs := x.run(f, []Value{x.data("arg:key", C(16))}, e.newState(), rule, "NewCipher")
	if len(rs) != 1 {
		c.fail(rule, "NewCipher", c.at(f), "construction with a 16 byte key has more than one outcome")
		return nil
	}
	er, _ := rs[0].vals[1].(*Iface)
	x.blk, _ = rs[0].vals[0].(*Iface)
	if er == nil || er.nilT != TTrue || x.blk == nil || x.blk.typ == nil || x.blk.nilT != TFalse {
		c.fail(rule, "NewCipher", c.at(f), "a 16 byte key is refused")
		return nil
	}
	x.st = rs[0].st
	return x
}

func (x *sm4Ctx) method(n string) *ssa.Function {
	m := x.c.ld.prog.LookupMethod(x.blk.typ, nil, n)
	if m == nil {
		x.c.fail("analysable", n, "sm4", "the cipher has no such method")
	}
	return m
}

func (x *sm4Ctx) out(in *Term, dec bool) *Term {
	return bytesOfWords(sm4Block(x.rk, beWords(in, nil), dec), 32)
}

func checkSM4Block(c *Check) {
	c.explain = "The cipher is built from a symbolic 16 byte key and each direction is applied to a symbolic block by abstract interpretation of the source (all loops have constant bounds and unroll, the tables are the values the package initialiser stores). The 16 bytes written are compared as hash-consed terms over 32 bit words (exclusive or, rotation, table look-up) with the SM4 transform of the standard built from the standard's S-box, FK, CK and linear maps. Term equality holds for every key and block at once; decryption is compared with the same transform under the reversed round keys, which is its inverse."
	c.rule("transform", "the 16 bytes written by Encrypt are the SM4 encryption of the block under the key, and those of Decrypt its SM4 decryption")
	c.rule("size", "the block size is 16")
	c.rule("key size", "construction fails for every other key length and yields no cipher")
	x := c.sm4New("transform")
	if x == nil {
		return
	}
	for _, name := range []string{"Encrypt", "Decrypt"} {
		m := x.method(name)
		if m == nil {
			continue
		}
		src, dst := Sym("arg:src"), Sym("arg:dst")
		d, s := x.data("arg:dst", LenOf(dst)), x.data("arg:src", LenOf(src))
		st := x.st.clone()
		st.facts = st.facts.Assume(Le(C(16), LenOf(src)), true).Assume(Le(C(16), LenOf(dst)), true)
		rs := x.run(m, []Value{x.blk.val, d, s}, st, "transform", name)
		want := x.out(SubBase(src, C(0), C(16)), name == "Decrypt")
		for _, r := range rs {
			got := subSeq(r.st.facts, x.e.sliceSeq(r.st, d), C(0), C(16))
			ok := got != nil && (got == want || same(r.st.facts, got, want))
			det := ""
			if !ok {
				det = "the bytes written are not those of the standard"
				if got != nil {
					det += firstDiff(r.st.facts, got, want)
				}
			}
			c.ob("transform", name, c.at(m), ok, det)
		}
	}
	c.stats["rounds compared"] += 3 * 32
	if m := x.method("BlockSize"); m != nil {
		for _, r := range x.run(m, []Value{x.blk.val}, x.st.clone(), "size", "BlockSize") {
			v, _ := r.vals[0].(*Term)
			c.ob("size", "BlockSize", c.at(m), v != nil && v.isCi(16), "it is "+termStr(v))
		}
	}
	f := c.ld.fn("sm4", "NewCipher")
	K := Sym("arg:key")
	st := x.e.newState()
	st.facts = st.facts.Assume(Eq(LenOf(K), C(16)), false)
	for _, r := range x.run(f, []Value{x.data("arg:key", LenOf(K)), nil}[:1], st, "key size", "NewCipher with another length") {
		b, _ := r.vals[0].(*Iface)
		er, _ := r.vals[1].(*Iface)
		c.ob("key size", "NewCipher", c.at(f), b != nil && b.nilT == TTrue && er != nil && r.st.facts.Eval(er.nilT) == -1, "a key of another length gives a cipher or no error")
	}
}

func firstDiff(F *Facts, a, b *Term) string {
	for i := int64(0); i < 16; i++ {
		x, y := AtSeqW(a, C(i), F, 8), AtSeqW(b, C(i), F, 8)
		if x != y {
			return fmt.Sprintf(", first at byte %d", i)
		}
	}
	return ""
}

// readsArgs: t reads the content of one of the named arguments.
func readsArgs(t *Term, names ...string) bool {
	f := false
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if (x.op == "at" || x.op == "sub") && len(x.args) > 0 && x.args[0].op == "sym" {
			for _, n := range names {
				if x.args[0].s == n {
					f = true
				}
			}
		}
	})
	return f
}

func checkSM4InPlace(c *Check) {
	c.explain = "Each direction of the block operation is interpreted with input and output in the same buffer at every distance from -16 to 16 bytes, with symbolic contents: the 16 output bytes must be the transform of the 16 input bytes as they were before, and every other byte of the buffer unchanged. With an input or output of symbolic length below 16 no path may return and no byte of the arguments may be written before the panic. The condition of every branch and every varying index met on the way must not depend on key or block content, except an index into a package table."
	c.rule("overlap", "the output is the transform of the input as it was before, at every overlap")
	c.rule("extent", "bytes outside the first 16 of the output keep their value")
	c.rule("short", "a block shorter than 16 bytes is refused before anything is written")
	c.rule("uniform", "no branch and no memory index other than an S-box look-up depends on key or block content")
	x := c.sm4New("overlap")
	if x == nil {
		return
	}
	e := x.e
	buf := Sym("arg:buf")
	// data dependence
	var bad []string
	dep := func(t *Term) bool { return readsArgs(t, "arg:key", "arg:buf", "arg:src", "arg:dst") }
	nBr, nIx := 0, 0
	e.onBranch = func(t *Term, p token.Pos) {
		nBr++
		if dep(t) {
			bad = append(bad, c.posOf(p)+": a branch depends on "+cutMid(termStr(t), 200))
		}
	}
	e.onIndex = func(b Value, i *Term, p token.Pos) {
		nIx++
		if !dep(i) {
			return
		}
		switch v := b.(type) {
		case *Slice:
			if v.obj != nil && strings.HasPrefix(v.obj.root, "global ") {
				return
			}
		case *Ptr:
			if v.obj != nil && strings.HasPrefix(v.obj.root, "global ") {
				return
			}
		case *ArrV:
			if v.seq.isC() || v.seq.op == "bytes" {
				return
			}
		}
		bad = append(bad, c.posOf(p)+": an index that depends on key or block content into memory that is not a package table")
	}
	f := c.ld.fn("sm4", "NewCipher")
	x.run(f, []Value{x.data("arg:key", C(16))}, e.newState(), "overlap", "NewCipher")
	maxD := int64(16)
	for _, name := range []string{"Encrypt", "Decrypt"} {
		m := x.method(name)
		if m == nil {
			continue
		}
		for d := -maxD; d <= maxD; d++ {
			for _, n := range []int64{16, 20} {
				b := x.data("arg:buf", C(72))
				src, dst := *b, *b
				src.off, src.len, src.cap = C(20), C(n), C(52)
				dst.off, dst.len, dst.cap = C(20+d), C(n), C(52-d)
				rs := x.run(m, []Value{x.blk.val, &dst, &src}, x.st.clone(), "overlap", name)
				want := x.out(SubBase(buf, C(20), C(16)), name == "Decrypt")
				for _, r := range rs {
					all := e.sliceSeq(r.st, b)
					got := subSeq(r.st.facts, all, C(20+d), C(16))
					what := fmt.Sprintf("%s, output %+d bytes from the input", name, d)
					c.ob("overlap", what, c.at(m), got != nil && (got == want || same(r.st.facts, got, want)), "the output is not the transform of the original input")
					lo, hi := subSeq(r.st.facts, all, C(0), C(20+d)), subSeq(r.st.facts, all, C(36+d), C(36-d))
					c.ob("extent", what, c.at(m), lo != nil && hi != nil && same(r.st.facts, lo, SubBase(buf, C(0), C(20+d))) && same(r.st.facts, hi, SubBase(buf, C(36+d), C(36-d))), "a byte outside the output block changes")
				}
			}
		}
		for _, short := range []string{"src", "dst"} {
			src, dst := Sym("arg:src"), Sym("arg:dst")
			dv, sv := x.data("arg:dst", LenOf(dst)), x.data("arg:src", LenOf(src))
			st := x.st.clone()
			st.facts = st.facts.Assume(Le(LenOf(Sym("arg:"+short)), C(15)), true)
			e.resetRecords()
			rs := e.Run(m, []Value{x.blk.val, dv, sv}, st)
			c.ob("short", name+": "+short, c.at(m), len(rs) == 0, "a short block is accepted")
			var ws []string
			for _, w := range e.writes {
				if strings.HasPrefix(w.root, "param ") && !strings.HasPrefix(w.root, "param key") {
					ws = append(ws, w.fn+": "+w.what+" "+w.root)
				}
			}
			sort.Strings(ws)
			c.ob("short", name+": "+short+" nothing written", c.at(m), len(ws) == 0, strings.Join(ws, "; "))
		}
	}
	sort.Strings(bad)
	c.ob("uniform", fmt.Sprintf("branches and indexes"), "sm4", len(bad) == 0, strings.Join(bad, "; "))
	c.stats["branches met"] += nBr
	c.stats["varying indexes met"] += nIx
}

func checkSM4Modes(c *Check) {
	c.explain = "The four mode helpers are interpreted (1) with symbolic lengths where the data length is not a multiple of 16, the key length is not 16 or the iv length is not 16: every exit must return a nil slice and an error; (2) with data of 0 to 5 (thorough: 0 to 16) whole blocks, a 16 byte key and iv, all with symbolic content: the result must be a fresh slice of the same length equal, block by block, to ECB respectively CBC over the SM4 transform of the standard (the library's CBC mode is modelled by its definition over the cipher's own Encrypt and Decrypt methods), and no path may write to an argument."
	c.rule("refuses", "wrong lengths give an error and no data")
	c.rule("blocks", "the output is the mode of operation applied to the input")
	c.rule("fresh", "the output is a new slice of the input's length")
	c.rule("inputs", "input, key and iv are not written")
	n := int64(5)
	if c.tier == "thorough" {
		n = 16
	}
	x := c.sm4New("blocks")
	if x == nil {
		return
	}
	e := x.e
	names := map[string]string{"ECBEncrypt": "arg:plainText", "ECBDecrypt": "arg:cipherText", "CBCEncrypt": "arg:plainText", "CBCDecrypt": "arg:cipherText"}
	var order []string
	for k := range names {
		order = append(order, k)
	}
	sort.Strings(order)
	for _, name := range order {
		f := c.ld.fn("sm4", name)
		if f == nil {
			c.fail("analysable", name, "sm4", "the function does not exist")
			continue
		}
		cbc := strings.HasPrefix(name, "CBC")
		D, K, V := Sym("arg:data"), Sym("arg:key"), Sym("arg:iv")
		args := func(nd, nk, nv *Term) []Value {
			a := []Value{x.data("arg:key", nk)}
			if cbc {
				a = append(a, x.data("arg:iv", nv))
			}
			return append(a, x.data("arg:data", nd))
		}
		if len(f.Params) != len(args(C(0), C(0), C(0))) {
			c.fail("analysable", name, c.at(f), "unexpected parameters")
			continue
		}
		writes := func(what string) {
			var ws []string
			for _, w := range e.writes {
				if strings.HasPrefix(w.root, "param ") {
					ws = append(ws, w.fn+": "+w.what+" "+w.root)
				}
			}
			sort.Strings(ws)
			c.ob("inputs", name, c.at(f), len(ws) == 0, what+": "+strings.Join(ws, "; "))
		}
		refuse := func(what string, a []Value, cond func(F *Facts) *Facts) {
			st := e.newState()
			st.facts = cond(st.facts)
			for _, r := range x.run(f, a, st, "refuses", name+": "+what) {
				s, _ := r.vals[0].(*Slice)
				er, _ := r.vals[1].(*Iface)
				c.ob("refuses", name+": "+what, c.at(f), s != nil && r.st.facts.Eval(s.nilT) == 1 && er != nil && r.st.facts.Eval(er.nilT) == -1, "accepted, or data returned with the error")
			}
			writes(what)
		}
		for r := int64(1); r < 16; r++ {
			refuse("length not a multiple of 16", args(LenOf(D), LenOf(K), LenOf(V)), func(F *Facts) *Facts {
				q := Sym("q")
				return F.Assume(GE0(q), true).Assume(Eq(LenOf(D), Add(MulI(q, 16), C(r))), true)
			})
		}
		bad := func(t *Term, lo bool) func(F *Facts) *Facts {
			return func(F *Facts) *Facts {
				if lo {
					return F.Assume(Le(t, C(15)), true)
				}
				return F.Assume(Le(C(17), t), true)
			}
		}
		for _, lo := range []bool{true, false} {
			refuse("wrong key length", args(LenOf(D), LenOf(K), LenOf(V)), bad(LenOf(K), lo))
			refuse("wrong key length, two blocks", args(C(32), LenOf(K), C(16)), bad(LenOf(K), lo))
			if cbc {
				refuse("wrong iv length", args(LenOf(D), C(16), LenOf(V)), bad(LenOf(V), lo))
				refuse("wrong iv length, no data", args(C(0), C(16), LenOf(V)), bad(LenOf(V), lo))
			}
		}
		dec := strings.HasSuffix(name, "Decrypt")
		for k := int64(0); k <= n; k++ {
			what := fmt.Sprintf("%s of %d blocks", name, k)
			for _, r := range x.run(f, args(C(16*k), C(16), C(16)), e.newState(), "blocks", what) {
				F := r.st.facts
				s, _ := r.vals[0].(*Slice)
				er, _ := r.vals[1].(*Iface)
				if s == nil || er == nil || F.Eval(er.nilT) != 1 {
					c.ob("blocks", what, c.at(f), false, "no data, or an error")
					continue
				}
				var ps []*Term
				prev := beWords(SubBase(V, C(0), C(16)), F)
				for i := int64(0); i < k; i++ {
					in := beWords(SubBase(D, C(16*i), C(16)), F)
					if cbc && !dec {
						for j := range in {
							in[j] = BXor(32, in[j], prev[j])
						}
					}
					y := sm4Block(x.rk, in, dec)
					if cbc && dec {
						for j := range y {
							y[j] = BXor(32, y[j], prev[j])
						}
						prev = in
					} else {
						prev = y
					}
					ps = append(ps, bytesOfWords(y, 32))
				}
				want, got := MkSeq(ps...), e.sliceSeq(r.st, s)
				c.ob("blocks", what, c.at(f), got != nil && (got == want || same(F, got, want)), "the output is not the mode of operation applied to the input")
				c.ob("fresh", what, c.at(f), (k == 0 || s.obj != nil && s.obj.sym == nil) && same(F, s.len, C(16*k)) && F.Eval(s.nilT) == -1, "the output is not a new slice of the input's length")
			}
			writes(what)
		}
	}
	_ = types.Typ
}

func init() {
	addCheck("C16", "other", absInt, checkSM4Block)
	addCheck("C17", "other", absIntOb, checkSM4InPlace)
	addCheck("C18", "other", absIntOb, checkSM4Modes)
}
