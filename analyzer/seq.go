package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sequences: "seq" args are pieces.  Empty sequence: seq().

var EmptySeq = rawOp("seq", "", 0)

func Bytes(s string) *Term {
	if s == "" {
		return EmptySeq
	}
	return intern("B:"+s, func() *Term { return &Term{op: "bytes", s: s} })
}

// Elem is the one-element byte sequence [b].
func Elem(b *Term) *Term {
	if v, ok := b.i64(); ok && v >= 0 && v < 256 {
		return Bytes(string([]byte{byte(v)}))
	}
	if b.op == "at" && b.args[0].op != "bytes" {
		return SubBase(b.args[0], b.args[1], C(1))
	}
	if b.op == "anf" && b.w > 8 && len(b.anf) == 1 && len(b.anf[0].f) == 1 && b.anf[0].mask == 0xff {
		// a byte cut out of a word
		if v := TruncByte(b); v.op == "byteat" || v.op == "at" {
			return Elem(v)
		}
	}
	if b.op == "anf" && b.w == 8 && len(b.anf) > 1 {
		// xor of whole bytes: a one-byte xor of sequences
		var r *Term
		for _, m := range b.anf {
			if len(m.f) != 1 || m.f[0].r != 0 || m.mask != 0xff || m.f[0].t.op != "at" || m.f[0].t.args[0].op == "bytes" {
				return rawOp("elem", "", 0, b)
			}
			x := SubBase(m.f[0].t.args[0], m.f[0].t.args[1], C(1))
			if r == nil {
				r = x
			} else {
				r = XorSeq(r, x)
			}
		}
		return r
	}
	return rawOp("elem", "", 0, b)
}

// ElemW is a one-element sequence of words or other reified values.
func ElemW(b *Term) *Term {
	if b.op == "at" && b.args[0].op != "bytes" {
		return SubBase(b.args[0], b.args[1], C(1))
	}
	return rawOp("elemw", "", 0, b)
}

func Rep(b, n *Term) *Term {
	if k, ok := n.i64(); ok {
		if k <= 0 {
			return EmptySeq
		}
		if v, ok := b.i64(); ok && k <= 4096 && v >= 0 && v < 256 {
			buf := make([]byte, k)
			for i := range buf {
				buf[i] = byte(v)
			}
			return Bytes(string(buf))
		}
	}
	return rawOp("rep", "", 0, b, n)
}

// ZeroSeq: n zero elements; for word arrays the elements are elemw(0).
func ZeroSeq(n *Term, word bool) *Term {
	if !word {
		return Rep(C(0), n)
	}
	if n.isCi(0) {
		return EmptySeq
	}
	return rawOp("repw", "", 0, C(0), n)
}

func BE(v, n *Term) *Term {
	if k, ok := n.i64(); ok {
		if k == 0 {
			return EmptySeq
		}
		if v.isC() && v.c.Sign() >= 0 && v.c.BitLen() <= int(8*k) {
			buf := make([]byte, k)
			v.c.FillBytes(buf)
			return Bytes(string(buf))
		}
		if v.op == "natval" {
			if SeqLen(v.args[0]) == n {
				return v.args[0]
			}
		}
		if k == 1 && v.w == 8 {
			return Elem(v)
		}
		if v.op == "wrap" && int64(v.w) == 8*k && v.args[0].w > v.w {
			var ps []*Term
			for i := int(k) - 1; i >= 0; i-- {
				ps = append(ps, Elem(ByteAt(v.args[0], i)))
			}
			return MkSeq(ps...)
		}
		if v.op == "anf" && int64(v.w) == 8*k {
			// a word put together from bytes
			var ps []*Term
			for i := int(k) - 1; i >= 0; i-- {
				b := BShr(v.w, v, 8*i)
				if !b.isC() {
					b = TruncByte(BAnd(v.w, b, C(0xff)))
				}
				if !b.isC() && b.op != "at" {
					ps = nil
					break
				}
				if b.isC() {
					b = ByteAt(b, 0)
				}
				ps = append(ps, Elem(b))
			}
			if ps != nil {
				return MkSeq(ps...)
			}
		}
	}
	return rawOp("be", "", 0, v, n)
}

func Nat(v *Term) *Term {
	if v.isC() {
		return Bytes(string(new(big.Int).Abs(v.c).Bytes()))
	}
	return rawOp("nat", "", 0, v)
}

func BitLen(v *Term) *Term {
	if v.isC() {
		return C(int64(v.c.BitLen()))
	}
	return rawOp("bitlen", "", 0, v)
}

// NatLen is the length of the minimal big-endian form.
func NatLen(v *Term) *Term { return FDiv(Add(BitLen(v), C(7)), 8) }

func NatVal(s *Term, w int) *Term {
	switch s.op {
	case "bytes":
		return CB(new(big.Int).SetBytes([]byte(s.s)))
	case "be", "nat":
		return s.args[0]
	case "elem":
		return s.args[0]
	}
	if s == EmptySeq {
		return C(0)
	}
	return rawOp("natval", "", 0, s)
}

func pieces(s *Term) []*Term {
	if s.op == "seq" {
		return s.args
	}
	return []*Term{s}
}

func PieceLen(p *Term) *Term {
	switch p.op {
	case "bytes":
		return C(int64(len(p.s)))
	case "elem", "elemw":
		return C(1)
	case "sub":
		return p.args[2]
	case "rep", "repw", "be":
		return p.args[1]
	case "nat":
		return NatLen(p.args[0])
	case "xorseq":
		return PieceLen(p.args[0])
	}
	return rawOp("seqlen", "", 0, p)
}

func SeqLen(s *Term) *Term {
	if s.op != "seq" {
		return PieceLen(s)
	}
	l := C(0)
	for _, p := range s.args {
		l = Add(l, PieceLen(p))
	}
	return l
}

// MkSeq concatenates, flattening and merging.
func MkSeq(ps ...*Term) *Term { return mkSeqF(nil, ps...) }

func mkSeqF(F *Facts, ps ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == "seq" {
			for _, q := range p.args {
				push(q)
			}
			return
		}
		l := PieceLen(p)
		if l.isCi(0) || (F != nil && !l.isC() && F.ProveGE0(Neg(l))) {
			return
		}
		if F != nil && p.op == "nat" {
			if k := F.constOf(NatLen(p.args[0])); k != nil {
				p = BE(p.args[0], k)
				if p.op == "seq" {
					push(p)
					return
				}
			}
		}
		for len(out) > 0 {
			m := mergePieces(F, out[len(out)-1], p)
			if m == nil {
				break
			}
			out = out[:len(out)-1]
			p = m
			if p.op == "seq" {
				// merged into several pieces: append without further merging
				out = append(out, p.args[:len(p.args)-1]...)
				p = p.args[len(p.args)-1]
				break
			}
		}
		out = append(out, p)
		// be-run of byteat elements
		out = mergeByteRun(F, out)
		out = mergeHalves(out)
	}
	for _, p := range ps {
		if p == nil {
			continue
		}
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawOp("seq", "", 0, out...)
}

// mergeHalves joins the big-endian forms of a value's quotient and remainder.
func mergeHalves(out []*Term) []*Term {
	if len(out) < 2 {
		return out
	}
	hi, lo := out[len(out)-2], out[len(out)-1]
	if hi.op != "be" || lo.op != "be" || hi.args[0].op != "fdiv" {
		return out
	}
	m, ok1 := hi.args[1].i64()
	n, ok2 := lo.args[1].i64()
	q := hi.args[0]
	if !ok1 || !ok2 || n >= 8 {
		return out
	}
	d := new(big.Int).Lsh(bigOne, uint(8*n))
	x := Add(Mul(q, CB(d)), lo.args[0])
	if q != FDiv(x, d.Int64()) {
		return out
	}
	return append(append([]*Term(nil), out[:len(out)-2]...), BE(x, C(m+n)))
}

func mergeByteRun(F *Facts, out []*Term) []*Term {
	last := out[len(out)-1]
	if last.op != "elem" || last.args[0].op != "byteat" || last.args[0].s != "0" {
		return out
	}
	x := last.args[0].args[0]
	if x.w == 0 || x.w%8 != 0 {
		n := 0
		for n < 8 && n < len(out) {
			p := out[len(out)-1-n]
			if p.op != "elem" || p.args[0].op != "byteat" || p.args[0].args[0] != x || p.args[0].s != fmt.Sprint(n) {
				break
			}
			n++
		}
		if n < 8 && n < len(out) {
			// the leading byte as a quotient: it is a byte, so the value fits
			if p := out[len(out)-1-n]; p.op == "elem" && p.args[0] == FDiv(x, 1<<uint(8*n)) {
				return append(append([]*Term(nil), out[:len(out)-n-1]...), BE(x, C(int64(n+1))))
			}
		}
		if n > 1 && n < 8 && F != nil && F.ProveGE0(x) && F.ProveGE0(Sub(C(1<<uint(8*n)-1), x)) {
			return append(append([]*Term(nil), out[:len(out)-n]...), BE(x, C(int64(n))))
		}
		return out
	}
	n := x.w / 8
	if len(out) < n {
		return out
	}
	for k := 0; k < n; k++ {
		p := out[len(out)-1-k]
		if p.op != "elem" || p.args[0].op != "byteat" || p.args[0].args[0] != x || p.args[0].s != fmt.Sprint(k) {
			return out
		}
	}
	out = append([]*Term(nil), out[:len(out)-n]...)
	return append(out, BE(x, C(int64(n))))
}

// Beta variables of "blocks" terms.
func beta(i int) *Term { return Sym(fmt.Sprintf("β%d", i)) }
func isBeta(t *Term) bool {
	return t.op == "sym" && len(t.s) > 2 && t.s[:len("β")] == "β"
}
func freshBeta(t *Term) *Term {
	for i := 0; ; i++ {
		b := beta(i)
		if !hasSym(t, b) {
			return b
		}
	}
}

// Blocks is the infinite concatenation body(0)||body(1)||..., each of length d.
func Blocks(body, b *Term, d *Term) *Term {
	return rawOp("blocks", "", 0, body, b, d)
}

func blockAt(bl, k *Term) *Term {
	return Subst(bl.args[0], map[*Term]*Term{bl.args[1]: k})
}

func divExact(p *Term, d int64) *Term {
	q := FDiv(p, d)
	if MulI(q, d) == p {
		return q
	}
	return nil
}

// splitMul writes p = d*k + r with r holding the monomials whose coefficient
// d does not divide (constants reduced modulo d).
func splitMul(p *Term, d int64) (k, r *Term) {
	k, r = C(0), C(0)
	bd := big.NewInt(d)
	for _, m := range polyOf(p) {
		t := CB(m.c)
		mono := C(1)
		for _, v := range m.v {
			mono = Mul(mono, v)
		}
		q, rem := new(big.Int).DivMod(t.c, bd, new(big.Int))
		if len(m.v) == 0 {
			k = Add(k, CB(q))
			r = Add(r, CB(rem))
			continue
		}
		if rem.Sign() == 0 {
			k = Add(k, MulC(mono, q))
		} else {
			r = Add(r, MulC(mono, m.c))
		}
	}
	return
}

func mergePieces(F *Facts, a, b *Term) *Term {
	switch {
	case a.op == "bytes" && b.op == "bytes":
		return Bytes(a.s + b.s)
	case a.op == "rep" && b.op == "rep" && a.args[0] == b.args[0]:
		return Rep(a.args[0], Add(a.args[1], b.args[1]))
	case a.op == "repw" && b.op == "repw" && a.args[0] == b.args[0]:
		return rawOp("repw", "", 0, a.args[0], Add(a.args[1], b.args[1]))
	case a.op == "sub" && b.op == "sub" && a.args[0] == b.args[0] && eqT(F, Add(a.args[1], a.args[2]), b.args[1]):
		return SubBase(a.args[0], a.args[1], Add(a.args[2], b.args[2]))
	case a.op == "be" && b.op == "be" && a.args[0].op == "fdiv" && a.args[1].isC() && b.args[1].isC():
		// high and low part of one number
		if n, ok := b.args[1].i64(); ok && n <= 8 {
			x := a.args[0].args[0]
			if a.args[0] == FDiv(x, 1<<uint(8*n)) && n < 8 && (b.args[0] == Wrap(int(8*n), x) || b.args[0] == x) {
				return BE(x, Add(a.args[1], b.args[1]))
			}
		}
	case a.op == "rep" && a.args[0].isCi(0) && b.op == "nat":
		// zero padding of a natural: be(v, n)
		return BE(b.args[0], Add(a.args[1], NatLen(b.args[0])))
	case a.op == "xorseq" && b.op == "xorseq" && len(a.args) == len(b.args):
		used := make([]bool, len(b.args))
		var r *Term
		for _, x := range a.args {
			var m *Term
			for k, y := range b.args {
				if used[k] {
					continue
				}
				if m = mergePieces(F, x, y); m != nil && m.op != "seq" {
					used[k] = true
					break
				}
				m = nil
			}
			if m == nil {
				return nil
			}
			if r == nil {
				r = m
			} else {
				r = XorSeq(r, m)
			}
		}
		return r
	}
	// blocks followed by its next block, or by the next part of the block the
	// prefix ends in
	if a.op == "sub" && a.args[0].op == "blocks" {
		bl := a.args[0]
		if d, ok := bl.args[2].i64(); ok && a.args[1].isCi(0) {
			k, r := splitMul(a.args[2], d)
			if (r.isC() || proveLe(F, C(0), r)) && proveLe(F, r, C(d)) {
				nb := blockAt(bl, k)
				if r.isCi(0) && nb == b {
					return SubBase(bl, a.args[1], Add(a.args[2], C(d)))
				}
				if nb.op == "sub" && b.op == "sub" && nb.args[0] == b.args[0] && eqT(F, Add(nb.args[1], r), b.args[1]) &&
					proveLe(F, Add(r, b.args[2]), C(d)) {
					return SubBase(bl, a.args[1], Add(a.args[2], b.args[2]))
				}
			}
		}
	}
	// a block in front of blocks whose body is its successor
	if b.op == "sub" && b.args[0].op == "blocks" && b.args[1].isCi(0) {
		bl := b.args[0]
		if blockAt(bl, C(-1)) == a {
			nb := Subst(bl.args[0], map[*Term]*Term{bl.args[1]: Sub(bl.args[1], C(1))})
			return SubBase(Blocks(nb, bl.args[1], bl.args[2]), C(0), Add(bl.args[2], b.args[2]))
		}
	}
	// two consecutive constant-size pieces that start a block stream are left alone
	return nil
}

func eqT(F *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if F == nil {
		return false
	}
	return F.ProveEq(a, b)
}

// SubBase is length bytes of an opaque content base starting at off.
func SubBase(base, off, n *Term) *Term {
	if n.isCi(0) {
		return EmptySeq
	}
	switch base.op {
	case "seq", "bytes", "rep", "repw", "elem", "elemw", "sub", "be", "xorseq":
		if r := subSeq(nil, base, off, n); r != nil {
			return r
		}
	case "blocks":
		if d, ok := base.args[2].i64(); ok && off.isCi(0) {
			if k, ok := n.i64(); ok && k <= d {
				return subSeqOr(nil, blockAt(base, C(0)), C(0), n)
			}
		}
	}
	return rawOp("sub", "", 0, base, off, n)
}

// Content is a whole opaque content as a piece.
func Whole(base, n *Term) *Term { return SubBase(base, C(0), n) }

func proveLe(F *Facts, a, b *Term) bool {
	d := Sub(b, a)
	if d.isC() {
		return d.c.Sign() >= 0
	}
	if F == nil {
		return nil == F && synNonNeg(d)
	}
	return F.ProveGE0(d)
}

// synNonNeg: syntactically non-negative (all coefficients positive over
// atoms that are lengths).
func synNonNeg(d *Term) bool {
	for _, x := range polyOf(d) {
		if x.c.Sign() < 0 {
			return false
		}
		for _, v := range x.v {
			if !isLenAtom(v) {
				return false
			}
		}
	}
	return true
}

func isLenAtom(v *Term) bool {
	switch v.op {
	case "bitlen", "seqlen", "len", "cap", "qx":
		return true
	case "fdiv":
		return synNonNeg(v.args[0])
	case "sym":
		return len(v.s) > 4 && v.s[:4] == "len:" || len(v.s) > 4 && v.s[:4] == "cap:" || len(v.s) > 2 && v.s[:2] == "q:"
	}
	return false
}

// subPiece returns [off, off+n) of a piece, assumed in range.
func subPiece(p, off, n *Term) *Term {
	l := PieceLen(p)
	if off.isCi(0) && n == l {
		return p
	}
	if n.isCi(0) {
		return EmptySeq
	}
	switch p.op {
	case "bytes":
		if o, ok := off.i64(); ok {
			if k, ok := n.i64(); ok && o >= 0 && o+k <= int64(len(p.s)) && k >= 0 {
				return Bytes(p.s[o : o+k])
			}
		}
		if len(p.s) > 0 && strings.Count(p.s, p.s[:1]) == len(p.s) {
			return Rep(C(int64(p.s[0])), n)
		}
	case "rep":
		return Rep(p.args[0], n)
	case "repw":
		return rawOp("repw", "", 0, p.args[0], n)
	case "sub":
		return rawOrSub(p.args[0], Add(p.args[1], off), n)
	case "xorseq":
		var a []*Term
		for _, x := range p.args {
			a = append(a, subPiece(x, off, n))
		}
		r := a[0]
		for _, x := range a[1:] {
			r = XorSeq(r, x)
		}
		return r
	case "be":
		if o, ok := off.i64(); ok {
			if k, ok := n.i64(); ok {
				if w, ok := p.args[1].i64(); ok && k <= 8 && w <= 8 && o >= 0 && o+k <= w {
					var ps []*Term
					for i := o; i < o+k; i++ {
						ps = append(ps, Elem(ByteAt(p.args[0], int(w-1-i))))
					}
					return MkSeq(ps...)
				}
			}
		}
	}
	return rawOp("sub", "", 0, p, off, n)
}

func rawOrSub(base, off, n *Term) *Term { return SubBase(base, off, n) }

// subSeq cuts [off,off+n) out of s; nil if undecidable.
func subSeq(F *Facts, s, off, n *Term) *Term {
	end := Add(off, n)
	if n.isCi(0) {
		return EmptySeq
	}
	total := SeqLen(s)
	if off.isCi(0) && (end == total || (F != nil && F.ProveEq(end, total))) {
		return s
	}
	pos := C(0)
	var out []*Term
	started := false
	for _, p := range pieces(s) {
		l := PieceLen(p)
		pe := Add(pos, l)
		if !started && proveLe(F, pe, off) {
			pos = pe
			continue
		}
		if proveLe(F, end, pos) {
			break
		}
		lo := C(0)
		if !started {
			if proveLe(F, off, pos) {
				if !proveLe(F, pos, off) && off != pos {
					// off < pos: only fine when nothing before (first piece)
					return nil
				}
			} else if proveLe(F, pos, off) {
				lo = Sub(off, pos)
			} else {
				return nil
			}
			started = true
		}
		if proveLe(F, pe, end) {
			out = append(out, subPiece(p, lo, Sub(l, lo)))
		} else if proveLe(F, end, pe) {
			out = append(out, subPiece(p, lo, Sub(Sub(end, pos), lo)))
			pos = pe
			return mkSeqF(F, out...)
		} else {
			return nil
		}
		pos = pe
	}
	r := mkSeqF(F, out...)
	rl := SeqLen(r)
	if rl != n && !eqT(F, rl, n) {
		return nil
	}
	return r
}

func subSeqOr(F *Facts, s, off, n *Term) *Term {
	if r := subSeq(F, s, off, n); r != nil {
		return r
	}
	return rawOp("sub", "", 0, s, off, n)
}

// writeSeq overwrites s[off:off+len(v)) with v; nil if undecidable.
func writeSeq(F *Facts, s, off, v *Term) *Term {
	n := SeqLen(v)
	total := SeqLen(s)
	a := subSeq(F, s, C(0), off)
	if a == nil {
		return nil
	}
	e := Add(off, n)
	b := subSeq(F, s, e, Sub(total, e))
	if b == nil {
		return nil
	}
	return mkSeqF(F, a, v, b)
}

func AtBase(base, idx *Term, w int) *Term {
	switch base.op {
	case "seq", "bytes", "elem", "elemw", "rep", "repw", "xorseq", "be", "sub":
		if idx.isC() || base.op == "rep" || base.op == "repw" {
			if r := atSeq(nil, base, idx, w); r != nil {
				return r
			}
		}
	case "blocks":
		if base.args[2].isCi(1) {
			b := blockAt(base, idx)
			if b.op == "elem" || b.op == "elemw" {
				return b.args[0]
			}
		}
	}
	return rawOp("at", "", w, base, idx)
}

// AtSeq reads element idx (width 8 for bytes).
func AtSeq(s, idx *Term, F *Facts) *Term { return AtSeqW(s, idx, F, 8) }
func AtSeqW(s, idx *Term, F *Facts, w int) *Term {
	if idx.op == "anf" && idx.w > 8 && len(idx.anf) == 1 && len(idx.anf[0].f) == 1 && idx.anf[0].mask == 0xff {
		if v := TruncByte(idx); v.op == "byteat" || v.op == "at" {
			idx = v
		}
	}
	if idx.op == "byteat" && s.op == "bytes" && idx.args[0].op == "anf" && len(idx.args[0].anf) > 1 {
		x := idx.args[0]
		var k int
		fmt.Sscan(idx.s, &k)
		idx = BAnd(x.w, BShr(x.w, x, 8*k), C(0xff))
	}
	if r := atSeq(F, s, idx, w); r != nil {
		return r
	}
	return rawOp("at", "", w, s, idx)
}

func atSeq(F *Facts, s, idx *Term, w int) *Term {
	pos := C(0)
	for _, p := range pieces(s) {
		l := PieceLen(p)
		pe := Add(pos, l)
		if proveLe(F, pe, idx) {
			pos = pe
			continue
		}
		if !proveLe(F, Add(idx, C(1)), pe) {
			return nil
		}
		if !proveLe(F, pos, idx) {
			return nil
		}
		o := Sub(idx, pos)
		switch p.op {
		case "bytes":
			if k, ok := o.i64(); ok && k >= 0 && k < int64(len(p.s)) {
				return C(int64(p.s[k]))
			}
			return rawOp("at", "", w, p, o)
		case "elem", "elemw":
			return p.args[0]
		case "rep", "repw":
			return p.args[0]
		case "sub":
			return AtBase(p.args[0], Add(p.args[1], o), w)
		case "xorseq":
			r := C(0)
			for _, x := range p.args {
				r = BXor(w, r, AtBase2(F, x, o, w))
			}
			return r
		case "be":
			if k, ok := o.i64(); ok {
				if n, ok := p.args[1].i64(); ok {
					return ByteAt(p.args[0], int(n-1-k))
				}
			}
			return rawOp("at", "", w, p, o)
		}
		return rawOp("at", "", w, p, o)
	}
	return nil
}

func AtBase2(F *Facts, p, o *Term, w int) *Term {
	if r := atSeq(F, p, o, w); r != nil {
		return r
	}
	return rawOp("at", "", w, p, o)
}

func isZeroPiece(p *Term) bool {
	switch p.op {
	case "rep", "repw":
		return p.args[0].isCi(0)
	case "bytes":
		for i := 0; i < len(p.s); i++ {
			if p.s[i] != 0 {
				return false
			}
		}
		return true
	}
	return false
}

// XorSeq is the elementwise xor of two equally long sequences.
func XorSeq(a, b *Term) *Term {
	if a.op == "seq" || b.op == "seq" {
		// align on piece boundaries when syntactically possible
		pa, pb := append([]*Term(nil), pieces(a)...), append([]*Term(nil), pieces(b)...)
		var out []*Term
		for len(pa) > 0 && len(pb) > 0 {
			la, lb := PieceLen(pa[0]), PieceLen(pb[0])
			switch {
			case la == lb:
				out = append(out, XorSeq(pa[0], pb[0]))
				pa, pb = pa[1:], pb[1:]
			case proveLe(nil, la, lb):
				out = append(out, XorSeq(pa[0], subPiece(pb[0], C(0), la)))
				pb[0] = subPiece(pb[0], la, Sub(lb, la))
				pa = pa[1:]
			case proveLe(nil, lb, la):
				out = append(out, XorSeq(subPiece(pa[0], C(0), lb), pb[0]))
				pa[0] = subPiece(pa[0], lb, Sub(la, lb))
				pb = pb[1:]
			default:
				return rawOp("xorseq", "", 0, a, b)
			}
		}
		if len(pa) == 0 && len(pb) == 0 {
			return MkSeq(out...)
		}
		return rawOp("xorseq", "", 0, a, b)
	}
	if isZeroPiece(a) {
		return b
	}
	if isZeroPiece(b) {
		return a
	}
	cnt := map[*Term]int{}
	var all []*Term
	for _, x := range []*Term{a, b} {
		if x.op == "xorseq" {
			all = append(all, x.args...)
		} else {
			all = append(all, x)
		}
	}
	var keep []*Term
	for _, x := range all {
		cnt[x]++
	}
	seen := map[*Term]bool{}
	for _, x := range all {
		if !seen[x] && cnt[x]%2 == 1 {
			keep = append(keep, x)
		}
		seen[x] = true
	}
	if len(keep) == 0 {
		return Rep(C(0), PieceLen(a))
	}
	if len(keep) == 1 {
		return keep[0]
	}
	if len(keep) == 2 && keep[0].op == "bytes" && keep[1].op == "bytes" && len(keep[0].s) == len(keep[1].s) {
		buf := []byte(keep[0].s)
		for i := range buf {
			buf[i] ^= keep[1].s[i]
		}
		return Bytes(string(buf))
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].id < keep[j].id })
	return rawOp("xorseq", "", 0, keep...)
}

// SeqEq: content equality.
func SeqEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	la, lb := SeqLen(a), SeqLen(b)
	if d := Sub(la, lb); d.isC() && d.c.Sign() != 0 {
		return TFalse
	}
	if a.op == "bytes" && b.op == "bytes" {
		return CBool(a.s == b.s)
	}
	if x, y := oidStrArg(a), oidStrArg(b); x != nil || y != nil {
		if x != nil && y != nil {
			return SeqEq(x, y)
		}
		if x == nil {
			x = y
			a, b = b, a
		}
		if s, ok := constStr(b); ok {
			if o := oidOfStr(s); o != nil {
				return SeqEq(x, o)
			}
		}
	}
	if n, ok := la.i64(); ok && n > 0 && n <= 64 && isWordSeq(a) && isWordSeq(b) {
		same := true
		for i := int64(0); i < n; i++ {
			x, y := AtSeqW(a, C(i), nil, 64), AtSeqW(b, C(i), nil, 64)
			if x.isC() && y.isC() && x != y {
				return TFalse
			}
			same = same && x == y
		}
		if same {
			return TTrue
		}
	}
	if (a.op == "xorseq" || b.op == "xorseq") && la == lb {
		// a = b iff a xor b is all zero
		x := XorSeq(a, b)
		if isZeroPiece(x) {
			return TTrue
		}
		if x.op == "xorseq" && len(x.args) == 2 {
			a, b = x.args[0], x.args[1]
		} else if x.op == "xorseq" || x.op == "sub" {
			a, b = x, Rep(C(0), la)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawOp("seqeq", "", 0, a, b)
}

// isWordSeq: a sequence of words given element by element.
func isWordSeq(t *Term) bool {
	for _, p := range pieces(t) {
		if p.op != "elemw" && p.op != "repw" {
			return false
		}
	}
	return true
}

// liftElem turns the per-index element e (as a function of q, position
// frontier-independent) into a sequence of n elements for q = 0..n-1.
func liftElem(e, q, n *Term, word bool) *Term {
	if !hasSym(e, q) {
		if word {
			return rawOp("repw", "", 0, e, n)
		}
		return Rep(e, n)
	}
	if e.op == "at" && (e.w == 8 || word) {
		base := e.args[0]
		o := Sub(e.args[1], q)
		if !hasSym(base, q) && !hasSym(o, q) {
			return SubBase(base, o, n)
		}
	}
	if e.op == "anf" && e.w == 8 && !word {
		// pure xor of unmasked atoms
		ok := true
		var r *Term
		for _, m := range e.anf {
			if len(m.f) != 1 || m.f[0].r != 0 || m.mask != 0xff {
				ok = false
				break
			}
			x := liftElem(m.f[0].t, q, n, word)
			if x == nil {
				ok = false
				break
			}
			if r == nil {
				r = x
			} else {
				r = XorSeq(r, x)
			}
		}
		if ok {
			return r
		}
	}
	b := freshBeta(e)
	be := Subst(e, map[*Term]*Term{q: b})
	var body *Term
	if word {
		body = ElemW(be)
	} else {
		body = Elem(be)
	}
	return SubBase(Blocks(body, b, C(1)), C(0), n)
}

// liftPieces: the concatenation P(0)||...||P(cnt-1), |P| = d constant.
func liftPieces(P, q, cnt *Term, d int64, word bool) *Term {
	n := MulI(cnt, d)
	if d == 1 && (P.op == "elem" || P.op == "elemw") {
		return liftElem(P.args[0], q, n, word)
	}
	if d == 1 && P.op == "bytes" {
		return Rep(C(int64(P.s[0])), n)
	}
	if !hasSym(P, q) && isZeroPiece(P) {
		return ZeroSeq(n, word)
	}
	if P.op == "xorseq" {
		var r *Term
		for _, x := range P.args {
			l := liftPieces(x, q, cnt, d, word)
			if r == nil {
				r = l
			} else {
				r = XorSeq(r, l)
			}
		}
		return r
	}
	if P.op == "sub" {
		base := P.args[0]
		o := Sub(P.args[1], MulI(q, d))
		if !hasSym(base, q) && !hasSym(o, q) && !hasSym(P.args[2], q) {
			return SubBase(base, o, n)
		}
	}
	b := freshBeta(P)
	body := Subst(P, map[*Term]*Term{q: b})
	return SubBase(Blocks(body, b, C(d)), C(0), n)
}

func mkPoint(op string, a []*Term) *Term {
	switch op {
	case "pt":
		if a[0].op == "ptx" && a[1].op == "pty" && a[0].args[0] == a[1].args[0] {
			return a[0].args[0]
		}
	case "ptx":
		if a[0].op == "pt" {
			return a[0].args[0]
		}
	case "pty":
		if a[0].op == "pt" {
			return a[0].args[1]
		}
	case "smul":
		// the points multiplied are of order n: scalars count modulo n
		a = []*Term{scalarModN(a[0]), a[1]}
		if a[0].isCi(1) {
			return a[1]
		}
		switch a[1].op {
		case "smul":
			return smul(Mul(a[0], a[1].args[0]), a[1].args[1])
		case "padd":
			var b []*Term
			for _, t := range a[1].args {
				b = append(b, smul(a[0], t))
			}
			return mkPoint("padd", b)
		}
	case "padd":
		// a linear combination of points, one term for each
		var base, k []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.op == "padd" {
				for _, x := range t.args {
					walk(x)
				}
				return
			}
			p, c := t, C(1)
			if t.op == "smul" {
				p, c = t.args[1], t.args[0]
			}
			for i := range base {
				if base[i] == p {
					k[i] = Add(k[i], c)
					return
				}
			}
			base, k = append(base, p), append(k, c)
		}
		for _, t := range a {
			walk(t)
		}
		a = nil
		for i := range base {
			a = append(a, smul(k[i], base[i]))
		}
		if len(a) == 1 {
			return a[0]
		}
		sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
	}
	return rawOp(op, "", 0, a...)
}

func scalarModN(k *Term) *Term {
	if r := ModN(k, smN); r.op != "mod" || r.args[1] != smN {
		return r
	} else {
		return r.args[0]
	}
}

func isShortConst(s *Term) bool { return s.op == "bytes" && len(s.s) > 0 && len(s.s) <= 16 }
