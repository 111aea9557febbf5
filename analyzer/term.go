package main

// Hash-consed terms of the value-numbering domain.
//
// Integers (machine integers and big.Int values alike) are kept in a
// polynomial normal form, bit-vector expressions in an algebraic normal form
// over rotated atoms, byte/word sequences as concatenations of pieces.  Two
// expressions that are equal by ring laws, by Boolean algebra or by
// concatenation laws are therefore the same *Term.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id   int
	op   string
	s    string // payload: symbol name, constant bytes, ...
	args []*Term
	c    *big.Int // op "c"
	poly []mono   // op "poly"
	anf  []bmono  // op "anf"
	w    int      // bit width for bit-vector terms (0: integer)
	idk  string
	syms map[*Term]bool
}

type mono struct {
	c *big.Int
	v []*Term // sorted by id
}

var (
	termTab = map[string]*Term{}
	termN   int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	overBudget()
	t := mk()
	termN++
	t.id = termN
	termTab[key] = t
	return t
}

func C(i int64) *Term { return CB(big.NewInt(i)) }
func CB(b *big.Int) *Term {
	return intern("c:"+bigKey(b), func() *Term { return &Term{op: "c", c: new(big.Int).Set(b)} })
}

var (
	TTrue  = intern("b:t", func() *Term { return &Term{op: "b", s: "t"} })
	TFalse = intern("b:f", func() *Term { return &Term{op: "b", s: "f"} })
)

// bigKey is a compact text of an integer.
func bigKey(b *big.Int) string {
	if b.IsInt64() {
		return strconv.FormatInt(b.Int64(), 32)
	}
	return string(b.Append(make([]byte, 0, 80), 16)) + "x"
}

func CBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// Sym is a fresh-by-name symbol. w: bit width known for bit-vector atoms.
func Sym(name string) *Term { return SymW(name, 0) }
func SymW(name string, w int) *Term {
	return intern(fmt.Sprintf("s:%d:%s", w, name), func() *Term { return &Term{op: "sym", s: name, w: w} })
}

func opKey(op, s string, w int, args []*Term) string {
	var b strings.Builder
	b.WriteString("o:")
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(w))
	for _, a := range args {
		if a == nil {
			b.WriteString(",nil")
			continue
		}
		b.WriteByte(',')
		b.WriteString(a.idKey())
	}
	return b.String()
}

// raw operator term without normalisation
func rawOp(op, s string, w int, args ...*Term) *Term {
	return intern(opKey(op, s, w, args), func() *Term {
		return &Term{op: op, s: s, w: w, args: append([]*Term(nil), args...)}
	})
}

func (t *Term) isC() bool { return t != nil && t.op == "c" }
func (t *Term) isCi(i int64) bool {
	return t != nil && t.op == "c" && t.c.IsInt64() && t.c.Int64() == i
}
func (t *Term) i64() (int64, bool) {
	if t == nil || t.op != "c" || !t.c.IsInt64() {
		return 0, false
	}
	return t.c.Int64(), true
}

// ---- polynomials -------------------------------------------------------

func monoKey(v []*Term) string {
	if len(v) == 0 {
		return ""
	}
	var b strings.Builder
	if len(v) == 1 {
		return v[0].idKey()
	}
	for _, x := range v {
		b.WriteString(x.idKey())
	}
	return b.String()
}

func (t *Term) idKey() string {
	if t.idk == "" {
		t.idk = strconv.Itoa(t.id) + "."
	}
	return t.idk
}

func polyOf(t *Term) []mono {
	switch t.op {
	case "c":
		if t.c.Sign() == 0 {
			return nil
		}
		return []mono{{c: t.c}}
	case "poly":
		return t.poly
	}
	return []mono{{c: bigOne, v: []*Term{t}}}
}

var bigOne = big.NewInt(1)

func fromMonos(m map[string]mono) *Term {
	keys := make([]string, 0, len(m))
	for k, x := range m {
		if x.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return C(0)
	}
	if len(keys) == 1 {
		x := m[keys[0]]
		if len(x.v) == 0 {
			return CB(x.c)
		}
		if len(x.v) == 1 && x.c.Cmp(bigOne) == 0 {
			return x.v[0]
		}
	}
	var b strings.Builder
	b.WriteString("p:")
	ms := make([]mono, 0, len(keys))
	for _, k := range keys {
		x := m[k]
		b.WriteString(bigKey(x.c))
		b.WriteByte('*')
		b.WriteString(k)
		b.WriteByte('+')
		ms = append(ms, x)
	}
	return intern(b.String(), func() *Term { return &Term{op: "poly", poly: ms} })
}

func addInto(m map[string]mono, p []mono, k *big.Int) {
	for _, x := range p {
		key := monoKey(x.v)
		c := new(big.Int).Mul(x.c, k)
		if y, ok := m[key]; ok {
			c.Add(c, y.c)
		}
		m[key] = mono{c, x.v}
	}
}

func Add(ts ...*Term) *Term {
	switch len(ts) {
	case 0:
		return C(0)
	case 1:
		return ts[0]
	}
	p := mergePoly(polyOf(ts[0]), polyOf(ts[1]), false)
	for _, t := range ts[2:] {
		p = mergePoly(p, polyOf(t), false)
	}
	return fromSorted(p)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return C(0)
	}
	return fromSorted(mergePoly(polyOf(a), polyOf(b), true))
}

// mergePoly adds (or subtracts) two monomial lists sorted by key.
func mergePoly(a, b []mono, neg bool) []mono {
	if len(b) == 0 {
		return a
	}
	out := make([]mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		cmp := 0
		if i == len(a) {
			cmp = 1
		} else if j == len(b) {
			cmp = -1
		} else {
			cmp = strings.Compare(monoKey(a[i].v), monoKey(b[j].v))
		}
		switch {
		case cmp < 0:
			out = append(out, a[i])
			i++
		case cmp > 0:
			if neg {
				out = append(out, mono{new(big.Int).Neg(b[j].c), b[j].v})
			} else {
				out = append(out, b[j])
			}
			j++
		default:
			c := new(big.Int)
			if neg {
				c.Sub(a[i].c, b[j].c)
			} else {
				c.Add(a[i].c, b[j].c)
			}
			if c.Sign() != 0 {
				out = append(out, mono{c, a[i].v})
			}
			i++
			j++
		}
	}
	return out
}

func fromSorted(ms []mono) *Term {
	if len(ms) == 0 {
		return C(0)
	}
	if len(ms) == 1 {
		x := ms[0]
		if len(x.v) == 0 {
			return CB(x.c)
		}
		if len(x.v) == 1 && x.c.Cmp(bigOne) == 0 {
			return x.v[0]
		}
	}
	b := make([]byte, 0, 24*len(ms))
	b = append(b, "p:"...)
	for _, x := range ms {
		if x.c.IsInt64() {
			b = strconv.AppendInt(b, x.c.Int64(), 32)
		} else {
			b = x.c.Append(b, 16)
			b = append(b, 'x')
		}
		b = append(b, '*')
		if len(x.v) == 1 {
			b = append(b, x.v[0].idKey()...)
		} else {
			for _, v := range x.v {
				b = append(b, v.idKey()...)
			}
		}
		b = append(b, '+')
	}
	return intern(string(b), func() *Term { return &Term{op: "poly", poly: ms} })
}
func MulC(a *Term, k *big.Int) *Term {
	m := map[string]mono{}
	addInto(m, polyOf(a), k)
	return fromMonos(m)
}
func MulI(a *Term, k int64) *Term { return MulC(a, big.NewInt(k)) }
func Neg(a *Term) *Term           { return MulI(a, -1) }
func Mul(a, b *Term) *Term {
	m := map[string]mono{}
	for _, x := range polyOf(a) {
		for _, y := range polyOf(b) {
			v := append(append([]*Term(nil), x.v...), y.v...)
			sort.Slice(v, func(i, j int) bool { return v[i].id < v[j].id })
			addInto(m, []mono{{new(big.Int).Mul(x.c, y.c), v}}, bigOne)
		}
	}
	return fromMonos(m)
}

// constPart splits p into (constant, rest).
func constPart(t *Term) (*big.Int, *Term) {
	c := new(big.Int)
	m := map[string]mono{}
	for _, x := range polyOf(t) {
		if len(x.v) == 0 {
			c.Set(x.c)
		} else {
			m[monoKey(x.v)] = x
		}
	}
	return c, fromMonos(m)
}

// FDiv is floor division by a positive constant.
func FDiv(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	if a.isC() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.c, big.NewInt(k), m)
		return CB(q)
	}
	// pull out multiples of k
	kk := big.NewInt(k)
	in := map[string]mono{}
	out := map[string]mono{}
	for _, x := range polyOf(a) {
		q, r := new(big.Int).DivMod(x.c, kk, new(big.Int))
		if len(x.v) == 0 || r.Sign() == 0 {
			addInto(out, []mono{{q, x.v}}, bigOne)
			if r.Sign() != 0 {
				addInto(in, []mono{{r, x.v}}, bigOne)
			}
		} else {
			addInto(in, []mono{x}, bigOne)
		}
	}
	rest := fromMonos(in)
	o := fromMonos(out)
	if rest.isC() {
		return Add(o, FDiv(rest, k))
	}
	if m := widthMax(rest); m != nil && m.Cmp(kk) < 0 {
		return o
	}
	return Add(o, rawOp("fdiv", "", 0, rest, C(k)))
}

// widthMax is the largest value a sum of fixed-width atoms with positive
// coefficients can take, nil if the term is not of that kind.
func widthMax(t *Term) *big.Int {
	m := new(big.Int)
	for _, x := range polyOf(t) {
		if x.c.Sign() < 0 {
			return nil
		}
		v := bigOne
		if len(x.v) > 1 {
			return nil
		}
		if len(x.v) == 1 {
			w := x.v[0].w
			if n := natvalLen(x.v[0]); n > 0 {
				w = 8 * n
			}
			if w <= 0 || w > 32 {
				return nil
			}
			v = new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)
		}
		m.Add(m, new(big.Int).Mul(x.c, v))
	}
	return m
}

// FMod is a - k*floor(a/k).
func FMod(a *Term, k int64) *Term { return Sub(a, MulI(FDiv(a, k), k)) }

// ModN: mathematical modulus by a positive term (big.Int.Mod); canonicalises
// nested reductions by the same modulus.
func ModN(a, n *Term) *Term {
	a = stripMod(a, n)
	if a.isC() && n.isC() && n.c.Sign() > 0 {
		return CB(new(big.Int).Mod(a.c, n.c))
	}
	if n.isC() {
		// reduce coefficients into [0,n)
		m := map[string]mono{}
		for _, x := range polyOf(a) {
			addInto(m, []mono{{new(big.Int).Mod(x.c, n.c), x.v}}, bigOne)
		}
		a = fromMonos(m)
		if a.isC() {
			return CB(new(big.Int).Mod(a.c, n.c))
		}
	}
	return rawOp("mod", "", 0, a, n)
}

func stripMod(a, n *Term) *Term {
	for iter := 0; iter < 8; iter++ {
		changed := false
		acc := C(0)
		for _, x := range polyOf(a) {
			t := CB(x.c)
			for _, v := range x.v {
				if v.op == "mod" && v.args[1] == n {
					t = Mul(t, v.args[0])
					changed = true
				} else {
					t = Mul(t, v)
				}
			}
			acc = Add(acc, t)
		}
		a = acc
		if !changed {
			break
		}
	}
	return a
}

// ---- bit vectors: algebraic normal form --------------------------------

type ratom struct {
	t *Term
	r int
}
type bmono struct {
	mask uint64
	f    []ratom // sorted
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func rotlW(x uint64, r, w int) uint64 {
	r %= w
	if r == 0 {
		return x & maskW(w)
	}
	x &= maskW(w)
	return ((x << uint(r)) | (x >> uint(w-r))) & maskW(w)
}

// known value bits of an atom inside width w
func knownMask(t *Term, w int) uint64 {
	tw := t.w
	if tw == 0 || tw > w {
		tw = w
	}
	return maskW(tw)
}

func bkey(m bmono) string {
	var b strings.Builder
	for _, a := range m.f {
		fmt.Fprintf(&b, "%d<%d.", a.t.id, a.r)
	}
	return b.String()
}

type anfB struct {
	w int
	m map[string]bmono
}

func newAnf(w int) *anfB { return &anfB{w, map[string]bmono{}} }
func (a *anfB) xor(m bmono) {
	for _, f := range m.f {
		m.mask &= rotlW(knownMask(f.t, a.w), f.r, a.w)
	}
	m.mask &= maskW(a.w)
	k := bkey(m)
	if o, ok := a.m[k]; ok {
		m.mask ^= o.mask
	}
	if m.mask == 0 {
		delete(a.m, k)
		return
	}
	a.m[k] = m
}

func anfOf(t *Term, w int) []bmono {
	switch {
	case t.op == "c":
		m := new(big.Int).And(t.c, new(big.Int).SetUint64(maskW(w)))
		if m.Sign() == 0 {
			return nil
		}
		return []bmono{{mask: m.Uint64()}}
	case t.op == "anf" && t.w == w:
		return t.anf
	case t.op == "anf" && t.w < w:
		// zero extension of an anf over narrower atoms: only valid when no
		// rotation wraps; keep as an atom
		ok := true
		for _, m := range t.anf {
			for _, f := range m.f {
				if f.r != 0 {
					ok = false
				}
			}
		}
		if ok {
			return t.anf
		}
	case t.op == "natval":
		// a big-endian load of known length
		if n := natvalLen(t); n > 0 && 8*n <= w {
			var ms []bmono
			for k := 0; k < n; k++ {
				b := AtSeq(t.args[0], C(int64(n-1-k)), nil)
				for _, m := range anfOf(b, 8) {
					f := make([]ratom, len(m.f))
					for i, q := range m.f {
						f[i] = ratom{q.t, q.r + 8*k}
						if q.r != 0 {
							return []bmono{{mask: knownMask(t, w), f: []ratom{{t, 0}}}}
						}
					}
					ms = append(ms, bmono{m.mask << uint(8*k), f})
				}
			}
			return ms
		}
	}
	return []bmono{{mask: knownMask(t, w), f: []ratom{{t, 0}}}}
}

// natvalLen is the byte count of a big-endian load of known length, else 0.
func natvalLen(t *Term) int {
	if t.op != "natval" {
		return 0
	}
	n, ok := SeqLen(t.args[0]).i64()
	if !ok || n < 1 || n > 8 {
		return 0
	}
	return int(n)
}

func (a *anfB) term() *Term {
	keys := make([]string, 0, len(a.m))
	for k := range a.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return C(0)
	}
	if len(keys) == 1 {
		m := a.m[keys[0]]
		if len(m.f) == 0 {
			return CB(new(big.Int).SetUint64(m.mask))
		}
		if len(m.f) == 1 && m.f[0].r == 0 && m.mask == knownMask(m.f[0].t, a.w) {
			return m.f[0].t
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "x%d:", a.w)
	ms := make([]bmono, 0, len(keys))
	for _, k := range keys {
		m := a.m[k]
		fmt.Fprintf(&b, "%x&%s^", m.mask, k)
		ms = append(ms, m)
	}
	if t := recombine(ms, a.w); t != nil {
		return t
	}
	w := a.w
	return intern(b.String(), func() *Term { return &Term{op: "anf", anf: ms, w: w} })
}

// recombine recognises a big-endian load from consecutive bytes.
func recombine(ms []bmono, w int) *Term {
	n := w / 8
	if len(ms) < 2 || len(ms) > n {
		return nil
	}
	by := make([]*Term, n) // by[k]: byte with shift 8k
	hi := -1
	for _, m := range ms {
		if len(m.f) != 1 || m.f[0].t.w != 8 || m.f[0].r%8 != 0 {
			return nil
		}
		k := m.f[0].r / 8
		if k >= n || by[k] != nil || m.mask != uint64(0xff)<<uint(8*k) {
			return nil
		}
		by[k] = m.f[0].t
		if k > hi {
			hi = k
		}
	}
	if hi+1 != len(ms) {
		return nil
	}
	var ps []*Term
	for k := hi; k >= 0; k-- {
		ps = append(ps, Elem(by[k]))
	}
	s := MkSeq(ps...)
	return NatVal(s, w)
}

func addF(f []ratom, g []ratom) []ratom {
	r := append([]ratom(nil), f...)
	for _, x := range g {
		dup := false
		for _, y := range r {
			if x == y {
				dup = true
			}
		}
		if !dup {
			r = append(r, x)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].t.id != r[j].t.id {
			return r[i].t.id < r[j].t.id
		}
		return r[i].r < r[j].r
	})
	return r
}

func BXor(w int, ts ...*Term) *Term {
	a := newAnf(w)
	for _, t := range ts {
		for _, m := range anfOf(t, w) {
			a.xor(m)
		}
	}
	return a.term()
}
func BAnd(w int, x, y *Term) *Term {
	a := newAnf(w)
	for _, m := range anfOf(x, w) {
		for _, n := range anfOf(y, w) {
			a.xor(bmono{m.mask & n.mask, addF(m.f, n.f)})
		}
	}
	return a.term()
}

// orParts remembers what was or-ed together: the result is zero exactly when
// every part is.
var orParts = map[*Term][]*Term{}

func BOr(w int, x, y *Term) *Term {
	parts := func(t *Term) []*Term {
		if p := orParts[t]; p != nil {
			return p
		}
		return []*Term{t}
	}
	px, py := parts(x), parts(y)
	var r *Term
	var mx, my uint64
	for _, m := range anfOf(x, w) {
		mx |= uint64(m.mask)
	}
	for _, m := range anfOf(y, w) {
		my |= uint64(m.mask)
	}
	if mx&my == 0 {
		return BXor(w, x, y)
	}
	if n := len(anfOf(x, w)) * len(anfOf(y, w)); n <= 4096 && x.op != "bor" && y.op != "bor" {
		z := BAnd(w, x, y)
		r = BXor(w, x, y, z)
		if z.isC() || x.isC() || y.isC() {
			return r
		}
	} else {
		m := map[*Term]bool{}
		var a []*Term
		for _, t := range append(append([]*Term(nil), px...), py...) {
			if !m[t] {
				m[t] = true
				a = append(a, t)
			}
		}
		sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
		r = rawOp("bor", "", w, a...)
	}
	if orParts[r] == nil {
		m := map[*Term]bool{}
		var a []*Term
		for _, t := range append(append([]*Term(nil), px...), py...) {
			if !m[t] {
				m[t] = true
				a = append(a, t)
			}
		}
		orParts[r] = a
	}
	return r
}

// orZero: the condition that an or of differences is zero, nil when t is none.
func orZero(t *Term) *Term {
	ps := orParts[t]
	if len(ps) < 2 {
		return nil
	}
	var sa, sb []*Term
	var base *Term
	for _, p := range ps {
		var x, y *Term
		if p.op == "anf" && len(p.anf) == 2 && len(p.anf[0].f) == 1 && len(p.anf[1].f) == 1 && p.w == 8 {
			m, n := p.anf[0], p.anf[1]
			if m.mask == 255 && n.mask == 255 && m.f[0].r == 0 && n.f[0].r == 0 {
				x, y = m.f[0].t, n.f[0].t
			}
		}
		if x == nil || x.op != "at" || y.op != "at" {
			sa = nil
			for _, q := range ps {
				if q.w != 8 {
					return nil
				}
				sa = append(sa, Elem(q))
			}
			return SeqEq(MkSeq(sa...), Rep(C(0), C(int64(len(sa)))))
		}
		if base == nil {
			base = x.args[0]
		}
		if x.args[0] != base {
			x, y = y, x
		}
		sa, sb = append(sa, Elem(x)), append(sb, Elem(y))
	}
	return SeqEq(MkSeq(sa...), MkSeq(sb...))
}
func BNot(w int, x *Term) *Term {
	return BXor(w, x, CB(new(big.Int).SetUint64(maskW(w))))
}
func BRot(w int, x *Term, r int) *Term {
	r = ((r % w) + w) % w
	a := newAnf(w)
	for _, m := range anfOf(x, w) {
		f := make([]ratom, len(m.f))
		for i, q := range m.f {
			f[i] = ratom{q.t, (q.r + r) % w}
		}
		a.xor(bmono{rotlW(m.mask, r, w), addF(nil, f)})
	}
	return a.term()
}
func BShl(w int, x *Term, k int) *Term {
	if k >= w {
		return C(0)
	}
	return BAnd(w, BRot(w, x, k), CB(new(big.Int).SetUint64((maskW(w)<<uint(k))&maskW(w))))
}
func BShr(w int, x *Term, k int) *Term {
	if k >= w {
		return C(0)
	}
	return BAnd(w, BRot(w, x, w-k), CB(new(big.Int).SetUint64(maskW(w)>>uint(k))))
}

// ByteAt is byte k (0 = least significant) of x.
func ByteAt(x *Term, k int) *Term {
	if x.isC() {
		v := new(big.Int).Rsh(x.c, uint(8*k))
		return CB(v.And(v, big.NewInt(255)))
	}
	if k == 0 && x.w == 8 {
		return x
	}
	if x.w != 0 && 8*k >= x.w {
		return C(0)
	}
	if x.op == "natval" {
		// byte k of a big-endian value of known length
		if n, ok := SeqLen(x.args[0]).i64(); ok {
			if int64(k) < n {
				return AtSeq(x.args[0], C(n-1-int64(k)), nil)
			}
			return C(0)
		}
	}
	return rawOp("byteat", fmt.Sprint(k), 8, x)
}

// TruncByte converts a bit-vector/integer term to uint8.
func TruncByte(x *Term) *Term {
	if x.isC() {
		return ByteAt(x, 0)
	}
	if x.w == 8 {
		return x
	}
	if x.op == "anf" {
		if len(x.anf) == 1 && len(x.anf[0].f) == 1 {
			m := x.anf[0]
			r := m.f[0].r
			if (x.w-r)%8 == 0 && m.mask&0xff == 0xff {
				return ByteAt(m.f[0].t, ((x.w-r)%x.w)/8)
			}
		}
		// all factors unrotated bytes: truncate mask-wise
		ok := true
		for _, m := range x.anf {
			for _, f := range m.f {
				if f.r != 0 || f.t.w != 8 {
					ok = false
				}
			}
		}
		if ok {
			a := newAnf(8)
			for _, m := range x.anf {
				a.xor(bmono{m.mask & 0xff, m.f})
			}
			return a.term()
		}
	}
	if x.op == "fdiv" {
		if k, ok := x.args[1].i64(); ok && k > 0 && k&(k-1) == 0 {
			sh := 0
			for k > 1 {
				k >>= 1
				sh++
			}
			if sh%8 == 0 {
				return ByteAt(x.args[0], sh/8)
			}
		}
	}
	return ByteAt(x, 0)
}

// Wrap reduces an arithmetic result modulo 2^w.
func Wrap(w int, a *Term) *Term {
	mod := new(big.Int).Lsh(bigOne, uint(w))
	for iter := 0; iter < 8; iter++ {
		changed := false
		acc := C(0)
		for _, x := range polyOf(a) {
			t := CB(new(big.Int).Mod(x.c, mod))
			for _, v := range x.v {
				if v.op == "wrap" && v.w == w {
					t = Mul(t, v.args[0])
					changed = true
				} else {
					t = Mul(t, v)
				}
			}
			acc = Add(acc, t)
		}
		a = acc
		if !changed {
			break
		}
	}
	m := map[string]mono{}
	for _, x := range polyOf(a) {
		addInto(m, []mono{{new(big.Int).Mod(x.c, mod), x.v}}, bigOne)
	}
	a = fromMonos(m)
	if a.isC() || (a.w == w && a.op != "poly") {
		return a
	}
	return rawOp("wrap", "", w, a)
}

// ---- booleans ----------------------------------------------------------

// GE0 is p >= 0.
func GE0(p *Term) *Term {
	if p.isC() {
		return CBool(p.c.Sign() >= 0)
	}
	// divide by the gcd of the non-constant coefficients (integer tightening)
	c, rest := constPart(p)
	g := new(big.Int)
	for _, x := range polyOf(rest) {
		g.GCD(nil, nil, g, new(big.Int).Abs(x.c))
	}
	if g.Cmp(bigOne) > 0 {
		m := map[string]mono{}
		for _, x := range polyOf(rest) {
			addInto(m, []mono{{new(big.Int).Quo(x.c, g), x.v}}, bigOne)
		}
		q := new(big.Int).Div(c, g) // floor
		if new(big.Int).Mod(c, g).Sign() < 0 {
			panic("floor")
		}
		p = Add(fromMonos(m), CB(q))
	}
	// a shifted word against a constant: the word against a constant
	if ps := polyOf(p); len(ps) <= 2 {
		c, rest := constPart(p)
		if rs := polyOf(rest); len(rs) == 1 && len(rs[0].v) == 1 && rs[0].c.IsInt64() {
			if x, k := shiftedWord(rs[0].v[0]); x != nil {
				switch rs[0].c.Int64() {
				case 1: // floor(x/2^k) >= -c
					return GE0(Add(x, CB(new(big.Int).Lsh(c, uint(k)))))
				case -1: // floor(x/2^k) <= c
					m := new(big.Int).Lsh(new(big.Int).Add(c, bigOne), uint(k))
					return GE0(Sub(CB(m.Sub(m, bigOne)), x))
				}
			}
		}
	}
	return rawOp("ge0", "", 0, p)
}

// shiftedWord: t is the word x shifted right by k > 0 bits.
func shiftedWord(t *Term) (*Term, int) {
	if t.op != "anf" || len(t.anf) != 1 || len(t.anf[0].f) != 1 {
		return nil, 0
	}
	m := t.anf[0]
	k := (t.w - m.f[0].r) % t.w
	if k <= 0 || m.f[0].t.w != t.w || m.mask != maskW(t.w-k) {
		return nil, 0
	}
	return m.f[0].t, k
}

// EQ0 is p == 0 (sign-normalised).
func EQ0(p *Term) *Term {
	if p.isC() {
		return CBool(p.c.Sign() == 0)
	}
	ps := polyOf(p)
	// top-bit masks: x & highmask == 0  <=>  x < 2^k
	if p.op == "anf" && len(p.anf) == 1 && len(p.anf[0].f) == 1 && p.anf[0].f[0].r == 0 {
		m := p.anf[0]
		full := knownMask(m.f[0].t, p.w)
		low := ^m.mask & full
		if m.mask|low == full && (low&(low+1)) == 0 {
			return GE0(Sub(CB(new(big.Int).SetUint64(low)), m.f[0].t))
		}
	}
	// leading non-constant monomial positive
	for _, x := range ps {
		if len(x.v) > 0 {
			if x.c.Sign() < 0 {
				p = Neg(p)
			}
			break
		}
	}
	return rawOp("eq0", "", 0, p)
}
func Eq(a, b *Term) *Term { return EQ0(Sub(a, b)) }
func Le(a, b *Term) *Term { return GE0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return GE0(Sub(Sub(b, a), C(1))) }
func Not(b *Term) *Term {
	switch b.op {
	case "b":
		return CBool(b == TFalse)
	case "not":
		return b.args[0]
	case "ge0":
		return GE0(Sub(Neg(b.args[0]), C(1)))
	}
	return rawOp("not", "", 0, b)
}

// ---- rendering ---------------------------------------------------------

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "..."
	}
	switch t.op {
	case "c":
		if t.c.BitLen() > 64 {
			return "0x" + t.c.Text(16)
		}
		return t.c.String()
	case "b":
		if t == TTrue {
			return "true"
		}
		return "false"
	case "sym":
		return t.s
	case "poly":
		var b strings.Builder
		for i, x := range t.poly {
			if i > 0 && x.c.Sign() >= 0 {
				b.WriteByte('+')
			}
			if len(x.v) == 0 {
				b.WriteString(CB(x.c).String())
				continue
			}
			if x.c.Cmp(bigOne) == 0 {
			} else if x.c.Cmp(big.NewInt(-1)) == 0 {
				b.WriteByte('-')
			} else {
				b.WriteString(CB(x.c).String() + "*")
			}
			for j, v := range x.v {
				if j > 0 {
					b.WriteByte('*')
				}
				b.WriteString(v.str(d + 1))
			}
		}
		return b.String()
	case "anf":
		var b strings.Builder
		b.WriteString("(")
		for i, m := range t.anf {
			if i > 0 {
				b.WriteString("^")
			}
			if m.mask != maskW(t.w) || len(m.f) == 0 {
				fmt.Fprintf(&b, "%x", m.mask)
				if len(m.f) > 0 {
					b.WriteByte('&')
				}
			}
			for j, f := range m.f {
				if j > 0 {
					b.WriteByte('&')
				}
				b.WriteString(f.t.str(d + 1))
				if f.r != 0 {
					fmt.Fprintf(&b, "<<<%d", f.r)
				}
			}
		}
		b.WriteString(")")
		return b.String()
	case "bytes":
		return fmt.Sprintf("%q", t.s)
	}
	var b strings.Builder
	b.WriteString(t.op)
	if t.s != "" {
		b.WriteString("{" + t.s + "}")
	}
	if len(t.args) > 0 {
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.str(d + 1))
		}
		b.WriteByte(')')
	}
	return b.String()
}

// symsOf returns the set of symbols occurring in t.
func symsOf(t *Term) map[*Term]bool {
	if t == nil {
		return nil
	}
	if t.syms != nil {
		return t.syms
	}
	m := map[*Term]bool{}
	if t.op == "sym" {
		m[t] = true
	}
	add := func(x *Term) {
		for s := range symsOf(x) {
			m[s] = true
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, x := range t.poly {
		for _, v := range x.v {
			add(v)
		}
	}
	for _, x := range t.anf {
		for _, f := range x.f {
			add(f.t)
		}
	}
	t.syms = m
	return m
}

func hasSym(t, s *Term) bool { return symsOf(t)[s] }

// subst replaces whole subterms and renormalises.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil || len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case "c", "b", "sym", "bytes":
		return t
	case "poly":
		acc := C(0)
		ch := false
		for _, x := range t.poly {
			p := CB(x.c)
			for _, v := range x.v {
				nv := subst(v, m, memo)
				if nv != v {
					ch = true
				}
				p = Mul(p, nv)
			}
			acc = Add(acc, p)
		}
		if ch {
			r = acc
		} else {
			r = t
		}
	case "anf":
		acc := C(0)
		ch := false
		for _, x := range t.anf {
			p := CB(new(big.Int).SetUint64(x.mask))
			for _, f := range x.f {
				nv := subst(f.t, m, memo)
				if nv != f.t {
					ch = true
				}
				p = BAnd(t.w, p, BRot(t.w, nv, f.r))
			}
			acc = BXor(t.w, acc, p)
		}
		if ch {
			r = acc
		} else {
			r = t
		}
	default:
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = subst(a, m, memo)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = mk(t.op, t.s, t.w, na)
		} else {
			r = t
		}
	}
	memo[t] = r
	return r
}

func Subst(t *Term, m map[*Term]*Term) *Term { return subst(t, m, map[*Term]*Term{}) }

// mk rebuilds an operator term through its normalising constructor.
func mk(op, s string, w int, a []*Term) *Term {
	switch op {
	case "fld":
		if f := fldOf(s, a[0]); f != nil {
			return f
		}
	case "len":
		if isSeqOp(a[0]) {
			return SeqLen(a[0])
		}
	case "fdiv":
		if k, ok := a[1].i64(); ok && k > 0 {
			return FDiv(a[0], k)
		}
	case "mod":
		return ModN(a[0], a[1])
	case "wrap":
		return Wrap(w, a[0])
	case "ge0":
		return GE0(a[0])
	case "eq0":
		return EQ0(a[0])
	case "not":
		return Not(a[0])
	case "byteat":
		var k int
		fmt.Sscan(s, &k)
		return ByteAt(a[0], k)
	case "seq":
		return MkSeq(a...)
	case "sub":
		return SubBase(a[0], a[1], a[2])
	case "rep":
		return Rep(a[0], a[1])
	case "elem":
		return Elem(a[0])
	case "be":
		return BE(a[0], a[1])
	case "natval":
		return NatVal(a[0], w)
	case "at":
		return AtBase(a[0], a[1], w)
	case "xorseq":
		return XorSeq(a[0], a[1])
	case "seqlen":
		return SeqLen(a[0])
	case "ptx", "pty", "smul", "padd", "pt":
		return mkPoint(op, a)
	case "seqeq":
		return SeqEq(a[0], a[1])
	case "nat":
		return Nat(a[0])
	case "bitlen":
		return BitLen(a[0])
	case "oncurve":
		return onCurve(a[0], a[1])
	}
	return rawOp(op, s, w, a...)
}
