package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Facts: a conjunction of linear constraints over atoms and Boolean literals
// (a constraint-based relational domain).  Immutable.
type Facts struct {
	lin   []*Term // p >= 0
	eqs   []*Term // p == 0
	neq   []*Term // p != 0
	lits  map[*Term]bool
	bot   bool
	cache map[string]bool
}

var NoFacts = &Facts{lits: map[*Term]bool{}, cache: map[string]bool{}}

func (f *Facts) clone() *Facts {
	n := &Facts{lits: make(map[*Term]bool, len(f.lits)+1), cache: map[string]bool{}, bot: f.bot}
	n.lin = append([]*Term(nil), f.lin...)
	n.eqs = append([]*Term(nil), f.eqs...)
	n.neq = append([]*Term(nil), f.neq...)
	for k, v := range f.lits {
		n.lits[k] = v
	}
	return n
}

func contains(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// Assume returns the facts strengthened with b (== val).
func (f *Facts) Assume(b *Term, val bool) *Facts {
	if !val {
		b = Not(b)
	}
	switch f.Eval(b) {
	case 1:
		return f
	case -1:
		n := f.clone()
		n.bot = true
		return n
	}
	n := f.clone()
	n.add(b)
	return n
}

func (n *Facts) add(b *Term) {
	switch b.op {
	case "b":
		if b == TFalse {
			n.bot = true
		}
	case "ge0":
		n.addLin(b.args[0])
	case "eq0":
		if !contains(n.eqs, b.args[0]) {
			n.eqs = append(n.eqs, b.args[0])
			n.cache = map[string]bool{}
		}
		n.recheckNeq()
	case "not":
		x := b.args[0]
		if x.op == "eq0" {
			p := x.args[0]
			switch {
			case n.ProveGE0(p):
				n.addLin(Sub(p, C(1)))
			case n.ProveGE0(Neg(p)):
				n.addLin(Sub(Neg(p), C(1)))
			default:
				if !contains(n.neq, p) {
					n.neq = append(n.neq, p)
				}
			}
			return
		}
		n.lits[x] = false
	default:
		n.lits[b] = true
		n.implied(b)
	}
}

func (n *Facts) addLin(p *Term) {
	if p.isC() {
		if p.c.Sign() < 0 {
			n.bot = true
		}
		return
	}
	if !contains(n.lin, p) {
		n.lin = append(n.lin, p)
		n.cache = map[string]bool{}
	}
	n.recheckNeq()
}

func (n *Facts) recheckNeq() {
	for i := 0; i < len(n.neq); i++ {
		p := n.neq[i]
		if n.ProveGE0(p) {
			n.neq = append(append([]*Term(nil), n.neq[:i]...), n.neq[i+1:]...)
			n.addLin(Sub(p, C(1)))
			return
		}
		if n.ProveGE0(Neg(p)) {
			n.neq = append(append([]*Term(nil), n.neq[:i]...), n.neq[i+1:]...)
			n.addLin(Sub(Neg(p), C(1)))
			return
		}
	}
}

// consequences of a positive literal
func (n *Facts) implied(b *Term) {
	switch b.op {
	case "isnil":
		if len(b.args) > 0 && b.args[0] != nil {
			n.add(EQ0(b.args[0]))
		}
	case "seqeq":
		d := Sub(SeqLen(b.args[0]), SeqLen(b.args[1]))
		if !d.isC() {
			n.add(EQ0(d))
		}
		for _, e := range n.shortEq(b.args[0], b.args[1]) {
			n.add(e)
		}
	case "oncurve":
		for _, v := range b.args {
			n.addLin(v)
			n.addLin(Sub(CB(new(big.Int).Sub(curveP, bigOne)), v))
		}
	}
}

// Eval: 1 true, -1 false, 0 unknown.
func (f *Facts) Eval(b *Term) int {
	switch b.op {
	case "b":
		if b == TTrue {
			return 1
		}
		return -1
	case "ge0":
		if f.ProveGE0(b.args[0]) {
			return 1
		}
		if f.ProveGE0(Sub(Neg(b.args[0]), C(1))) {
			return -1
		}
		return 0
	case "eq0":
		if r := f.evalEq0(b); r != 0 {
			return r
		}
		return f.lastDiff(b)
	case "not":
		return -f.Eval(b.args[0])
	case "isnil":
		if v, ok := f.lits[b]; ok {
			if v {
				return 1
			}
			return -1
		}
		if len(b.args) > 0 && b.args[0] != nil && f.ProveGE0(Sub(b.args[0], C(1))) {
			return -1
		}
		return 0
	}
	if v, ok := f.lits[b]; ok {
		if v {
			return 1
		}
		return -1
	}
	return f.evalLit(b)
}

// evalLit decides a literal from the other facts.
func (f *Facts) evalLit(b *Term) int {
	if b.op == "unmarshalpt" {
		s := b.args[0]
		h, x, y := AtSeq(s, C(0), f), subSeqOr(f, s, C(1), C(32)), subSeqOr(f, s, C(33), C(32))
		if f.ProveEq(SeqLen(s), C(65)) && h != nil && x != nil && y != nil {
			a, o := f.Eval(Eq(h, C(4))), f.Eval(onCurve(NatVal(x, 0), NatVal(y, 0)))
			if a == -1 || o == -1 {
				return -1
			}
			if a == 1 && o == 1 {
				return 1
			}
		}
		return 0
	}
	if b.op == "seqeq" {
		return f.evalSeqEq(b.args[0], b.args[1])
	}
	return 0
}

// evalSeqEq decides an equality of sequences from lengths and from known
// inequalities of single elements.
func (f *Facts) evalSeqEq(A, B *Term) int {
	la, lb := SeqLen(A), SeqLen(B)
	if f.ProveGE0(Neg(la)) && f.ProveGE0(Neg(lb)) {
		return 1
	}
	if d := Sub(la, lb); !d.isCi(0) && f.Eval(EQ0(d)) == -1 {
		return -1
	}
	if es := f.shortEq(A, B); es != nil && f.ProveEq(la, lb) {
		all := true
		for _, e := range es {
			r := f.Eval(e)
			if r == -1 {
				return -1
			}
			all = all && r == 1
		}
		if all {
			return 1
		}
	}
	differ := func(d, p *Term, strict bool) bool {
		if !strict {
			return d == p || Neg(d) == p
		}
		for _, x := range []*Term{d, Neg(d)} { // p >= 0 and x = p + k, k >= 1
			if k := Sub(x, p); k.isC() && k.c.Sign() > 0 {
				return true
			}
		}
		return false
	}
	try := func(p *Term, strict bool) bool {
		for _, ix := range atIndices(p) {
			x, y := AtSeq(A, ix, f), AtSeq(B, ix, f)
			if x == nil || y == nil {
				continue
			}
			if differ(Sub(x, y), p, strict) && f.ProveGE0(ix) && f.ProveGE0(Sub(la, Add(ix, C(1)))) {
				return true
			}
		}
		return false
	}
	for _, p := range f.neq {
		if try(p, false) {
			return -1
		}
	}
	for _, p := range f.lin {
		if try(p, true) {
			return -1
		}
	}
	return 0
}

// evalEq0 decides p == 0.
func (f *Facts) evalEq0(b *Term) int {
	p := b.args[0]
	if contains(f.eqs, p) {
		return 1
	}
	if contains(f.neq, p) || contains(f.neq, Neg(p)) {
		return -1
	}
	if f.ProveGE0(Sub(p, C(1))) || f.ProveGE0(Sub(Neg(p), C(1))) {
		return -1
	}
	if f.ProveGE0(p) && f.ProveGE0(Neg(p)) {
		return 1
	}
	return 0
}

// lastDiff: a sequence is known to differ from a short constant of its length,
// and all elements but the one in question are known to be equal.
func (f *Facts) lastDiff(b *Term) int {
	for l, v := range f.lits {
		if v || l.op != "seqeq" || !isShortConst(l.args[0]) && !isShortConst(l.args[1]) {
			continue
		}
		es := f.shortEq(l.args[0], l.args[1])
		same := Eq(SeqLen(l.args[0]), SeqLen(l.args[1]))
		if !contains(es, b) || same != TTrue && (same.op != "eq0" || f.evalEq0(same) != 1) {
			continue
		}
		rest := true
		for _, e := range es {
			rest = rest && (e == b || e == TTrue || e.op == "eq0" && f.evalEq0(e) == 1)
		}
		if rest {
			return -1
		}
	}
	return 0
}

// shortEq: the equalities of elements that an equality of a sequence with a
// short constant stands for, given that the lengths agree.
func (f *Facts) shortEq(a, b *Term) (out []*Term) {
	if isShortConst(b) {
		a, b = b, a
	}
	if !isShortConst(a) || isShortConst(b) {
		return nil
	}
	n, _ := SeqLen(a).i64()
	for i := int64(0); i < n; i++ {
		x, y := AtSeq(a, C(i), f), AtSeq(b, C(i), f)
		if x == nil || y == nil {
			return nil
		}
		out = append(out, Eq(x, y))
	}
	return out
}

// atIndices lists the distinct index terms of element accesses in t.
func atIndices(t *Term) []*Term {
	var out []*Term
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || d > 3 {
			return
		}
		if t.op == "at" {
			if !contains(out, t.args[1]) {
				out = append(out, t.args[1])
			}
			return
		}
		for _, m := range polyOf(t) {
			for _, v := range m.v {
				if v != t {
					walk(v, d+1)
				}
			}
		}
		if t.op == "anf" {
			for _, m := range t.anf {
				for _, x := range m.f {
					walk(x.t, d+1)
				}
			}
		}
		if t.op == "at" {
			return
		}
		for _, a := range t.args {
			walk(a, d+1)
		}
	}
	walk(t, 0)
	return out
}

func (f *Facts) ProveEq(a, b *Term) bool {
	if a == b {
		return true
	}
	d := Sub(a, b)
	if d.isC() {
		return d.c.Sign() == 0
	}
	if contains(f.eqs, d) || contains(f.eqs, Neg(d)) {
		return true
	}
	return f.ProveGE0(d) && f.ProveGE0(Neg(d))
}

// constOf returns the constant a term is known to equal, if any.
func (f *Facts) constOf(t *Term) *Term {
	if t.isC() {
		return t
	}
	for _, e := range f.eqs {
		if d := Sub(e, t); d.isC() {
			return Neg(d)
		}
		if d := Add(e, t); d.isC() {
			return d
		}
	}
	for _, l := range f.lin {
		if d := Add(l, t); d.isC() { // l = c - t >= 0
			if f.ProveGE0(Sub(t, d)) {
				return d
			}
		}
		if d := Sub(l, t); d.isC() { // l = t + d >= 0 : t >= -d
			if f.ProveGE0(Sub(Neg(d), t)) {
				return Neg(d)
			}
		}
	}
	return nil
}

const maxLen = int64(1) << 36 // assumption: no input is longer than 64 GiB

func isLenSym(v *Term) bool {
	if v.op == "len" || v.op == "cap" {
		return true
	}
	return v.op == "sym" && (strings.HasPrefix(v.s, "len:") || strings.HasPrefix(v.s, "cap:"))
}

// interval bounds of a term (nil: unbounded)
func (f *Facts) bounds(t *Term, d int) (lo, hi *big.Int) {
	if t.isC() {
		return t.c, t.c
	}
	if t.op == "poly" {
		lo, hi = new(big.Int), new(big.Int)
		for _, x := range t.poly {
			if len(x.v) == 0 {
				if lo != nil {
					lo.Add(lo, x.c)
				}
				if hi != nil {
					hi.Add(hi, x.c)
				}
				continue
			}
			var l, h *big.Int
			if len(x.v) == 1 {
				l, h = f.bounds(x.v[0], d+1)
			} else {
				// product of non-negative bounded factors
				l, h = big.NewInt(1), big.NewInt(1)
				for _, v := range x.v {
					vl, vh := f.bounds(v, d+1)
					if vl == nil || vl.Sign() < 0 {
						l, h = nil, nil
						break
					}
					l = new(big.Int).Mul(l, vl)
					if vh == nil {
						h = nil
					}
					if h != nil {
						h = new(big.Int).Mul(h, vh)
					}
				}
			}
			if x.c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(x.c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(x.c, h))
				}
			}
		}
		return
	}
	upd := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	zero := new(big.Int)
	if t.w > 0 {
		upd(zero, new(big.Int).SetUint64(maskW(t.w)))
	}
	switch t.op {
	case "anf":
		var or uint64
		for _, m := range t.anf {
			or |= m.mask
		}
		upd(zero, new(big.Int).SetUint64(or))
	case "mod":
		upd(zero, nil)
		if t.args[1].isC() {
			upd(nil, new(big.Int).Sub(t.args[1].c, bigOne))
		}
	case "modinv":
		upd(zero, nil)
		if t.args[1].isC() {
			upd(nil, new(big.Int).Sub(t.args[1].c, bigOne))
		}
	case "ptx", "pty":
		upd(zero, new(big.Int).Sub(curveP, bigOne))
	case "natval":
		upd(zero, nil)
		n := SeqLen(t.args[0])
		if k, ok := n.i64(); ok {
			h := new(big.Int).Lsh(bigOne, uint(8*k))
			upd(nil, h.Sub(h, bigOne))
		}
	case "bitlen", "seqlen", "qx":
		upd(zero, nil)
	case "len", "cap":
		upd(zero, big.NewInt(maxLen))
	case "cmp":
		upd(big.NewInt(-1), bigOne)
	case "sym":
		if isLenSym(t) {
			upd(zero, big.NewInt(maxLen))
		}
		if strings.HasPrefix(t.s, "q:") || isBeta(t) {
			upd(zero, nil)
		}
	case "fdiv":
		l, h := f.bounds(t.args[0], d+1)
		k := t.args[1].c
		if l != nil {
			upd(new(big.Int).Div(l, k), nil)
		}
		if h != nil {
			upd(nil, new(big.Int).Div(h, k))
		}
	}
	if t.op == "bitlen" && d < 4 {
		l, h := f.bounds(t.args[0], d+1)
		if l != nil && l.Sign() >= 0 && h != nil {
			upd(nil, big.NewInt(int64(h.BitLen())))
		}
		if l != nil && l.Sign() > 0 {
			upd(big.NewInt(int64(l.BitLen())), nil)
		}
		if t.args[0].op == "natval" {
			if k, ok := SeqLen(t.args[0].args[0]).i64(); ok {
				upd(nil, big.NewInt(8*k))
			}
		}
	}
	if d < 6 {
		for _, p := range f.lin {
			ps := polyOf(p)
			if len(ps) > 2 {
				continue
			}
			var c *big.Int
			var a *big.Int
			for _, x := range ps {
				if len(x.v) == 0 {
					c = x.c
				} else if len(x.v) == 1 && x.v[0] == t {
					a = x.c
				} else {
					a = nil
					c = nil
					break
				}
			}
			if a == nil {
				continue
			}
			if c == nil {
				c = zero
			}
			// a*t + c >= 0
			if a.Sign() > 0 {
				upd(ceilDiv(new(big.Int).Neg(c), a), nil)
			} else {
				upd(nil, new(big.Int).Div(c, new(big.Int).Neg(a)))
			}
		}
		for _, p := range f.eqs {
			if d := Sub(p, t); d.isC() {
				upd(Neg(d).c, Neg(d).c)
			} else if d := Add(p, t); d.isC() {
				upd(d.c, d.c)
			}
		}
	}
	return
}

func ceilDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, bigOne)
	}
	return q
}

// intrinsic constraints of an atom (all p >= 0)
func (f *Facts) intrinsic(a *Term) []*Term {
	var r []*Term
	lo, hi := f.bounds(a, 0)
	if lo != nil {
		r = append(r, Sub(a, CB(lo)))
	}
	if hi != nil {
		r = append(r, Sub(CB(hi), a))
	}
	switch a.op {
	case "fdiv":
		k := a.args[1]
		kq := Mul(k, a)
		r = append(r, Sub(a.args[0], kq))
		r = append(r, Sub(Add(kq, Sub(k, C(1))), a.args[0]))
	case "len":
		r = append(r, Sub(CapOf(a.args[0]), a))
	case "cap":
		r = append(r, Sub(a, LenOf(a.args[0])))
	case "mod":
		if !a.args[1].isC() {
			r = append(r, Sub(Sub(a.args[1], C(1)), a))
		}
	case "bitlen":
		if a.args[0].op == "natval" {
			r = append(r, Sub(MulI(SeqLen(a.args[0].args[0]), 8), a))
		}
	}
	return r
}

// ---- linear entailment by Fourier-Motzkin ------------------------------

type row struct {
	c *big.Int
	m map[int]*big.Int
}

type linSys struct {
	ids  map[string]int
	mons []mono
	rows []row // >= 0
	eqs  []row // == 0
}

func (s *linSys) rowOf(p *Term) row {
	r := row{c: new(big.Int), m: map[int]*big.Int{}}
	for _, x := range polyOf(p) {
		if len(x.v) == 0 {
			r.c = x.c
			continue
		}
		k := monoKey(x.v)
		id, ok := s.ids[k]
		if !ok {
			id = len(s.mons)
			s.ids[k] = id
			s.mons = append(s.mons, x)
		}
		r.m[id] = x.c
	}
	return r
}

var statProve, statFM int

// ProveGE0: f entails p >= 0.
func (f *Facts) ProveGE0(p *Term) bool {
	if p.isC() {
		return p.c.Sign() >= 0
	}
	if f.bot {
		return true
	}
	key := fmt.Sprint(p.id)
	if r, ok := f.cache[key]; ok {
		return r
	}
	statProve++
	r := f.prove(p)
	f.cache[key] = r
	return r
}

func (f *Facts) prove(p *Term) bool {
	// quick interval test
	if lo, _ := f.bounds(p, 0); lo != nil && lo.Sign() >= 0 {
		return true
	}
	statFM++
	s := &linSys{ids: map[string]int{}}
	// negated goal: -p-1 >= 0
	s.rows = append(s.rows, s.rowOf(Sub(Neg(p), C(1))))
	usedL := make([]bool, len(f.lin))
	usedE := make([]bool, len(f.eqs))
	done := 0
	intr := map[*Term]bool{}
	for round := 0; round < 12; round++ {
		// intrinsics of newly seen atoms
		n0 := len(s.mons)
		for ; done < n0; done++ {
			for _, v := range s.mons[done].v {
				if intr[v] {
					continue
				}
				intr[v] = true
				if len(s.mons[done].v) == 1 {
					for _, q := range f.intrinsic(v) {
						s.rows = append(s.rows, s.rowOf(q))
					}
				}
			}
			if len(s.mons[done].v) > 1 {
				m := fromMonos(map[string]mono{"": {bigOne, s.mons[done].v}})
				_ = m
				pt := C(1)
				for _, v := range s.mons[done].v {
					pt = Mul(pt, v)
				}
				lo, hi := f.bounds(Add(pt, C(0)), 0)
				if lo != nil {
					s.rows = append(s.rows, s.rowOf(Sub(pt, CB(lo))))
				}
				if hi != nil {
					s.rows = append(s.rows, s.rowOf(Sub(CB(hi), pt)))
				}
			}
		}
		// constraints sharing an atom
		share := func(t *Term) bool {
			for _, x := range polyOf(t) {
				if len(x.v) > 0 {
					if _, ok := s.ids[monoKey(x.v)]; ok {
						return true
					}
				}
			}
			return false
		}
		for i, t := range f.lin {
			if !usedL[i] && share(t) {
				usedL[i] = true
				s.rows = append(s.rows, s.rowOf(t))
			}
		}
		for i, t := range f.eqs {
			if !usedE[i] && share(t) {
				usedE[i] = true
				s.eqs = append(s.eqs, s.rowOf(t))
			}
		}
		if len(s.mons) == n0 {
			break
		}
	}
	return s.infeasible()
}

func (r *row) norm() bool { // returns false if row is trivially true
	if len(r.m) == 0 {
		return r.c.Sign() < 0
	}
	g := new(big.Int)
	for _, c := range r.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(bigOne) > 0 {
		for k, c := range r.m {
			r.m[k] = new(big.Int).Quo(c, g)
		}
		r.c = new(big.Int).Div(r.c, g)
	}
	return true
}

func (r row) key() string {
	ks := make([]int, 0, len(r.m))
	for k := range r.m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d:%s,", k, r.m[k])
	}
	return b.String()
}

func comb(a row, ka *big.Int, b row, kb *big.Int) row {
	r := row{c: new(big.Int), m: map[int]*big.Int{}}
	r.c.Add(new(big.Int).Mul(a.c, ka), new(big.Int).Mul(b.c, kb))
	for k, c := range a.m {
		r.m[k] = new(big.Int).Mul(c, ka)
	}
	for k, c := range b.m {
		t := new(big.Int).Mul(c, kb)
		if o, ok := r.m[k]; ok {
			t.Add(t, o)
		}
		if t.Sign() == 0 {
			delete(r.m, k)
		} else {
			r.m[k] = t
		}
	}
	return r
}

func (s *linSys) infeasible() bool {
	eqs := s.eqs
	rows := s.rows
	// Gaussian elimination with unit coefficients
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		if len(e.m) == 0 {
			if e.c.Sign() != 0 {
				return true
			}
			continue
		}
		pv := -1
		ks := make([]int, 0, len(e.m))
		for k := range e.m {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			if e.m[k].CmpAbs(bigOne) == 0 {
				pv = k
				break
			}
		}
		if pv < 0 {
			n := row{c: new(big.Int).Neg(e.c), m: map[int]*big.Int{}}
			for k, c := range e.m {
				n.m[k] = new(big.Int).Neg(c)
			}
			rows = append(rows, e, n)
			continue
		}
		pc := e.m[pv]
		sub := func(r row) row {
			c, ok := r.m[pv]
			if !ok {
				return r
			}
			// r - c/pc * e, pc = +-1
			k := new(big.Int).Neg(new(big.Int).Mul(c, pc))
			return comb(r, bigOne, e, k)
		}
		for i := range rows {
			rows[i] = sub(rows[i])
		}
		for i := range eqs {
			eqs[i] = sub(eqs[i])
		}
	}
	set := map[string]row{}
	add := func(r row) (contra bool) {
		if len(r.m) == 0 {
			return r.c.Sign() < 0
		}
		r.norm()
		k := r.key()
		if o, ok := set[k]; ok && o.c.Cmp(r.c) <= 0 {
			return false
		}
		set[k] = r
		return false
	}
	for _, r := range rows {
		if add(r) {
			return true
		}
	}
	for steps := 0; steps < 80; steps++ {
		if len(set) == 0 {
			return false
		}
		pos := map[int]int{}
		neg := map[int]int{}
		for _, r := range set {
			for k, c := range r.m {
				if c.Sign() > 0 {
					pos[k]++
				} else {
					neg[k]++
				}
			}
		}
		best, bc := -1, 1<<30
		vars := map[int]bool{}
		for k := range pos {
			vars[k] = true
		}
		for k := range neg {
			vars[k] = true
		}
		vk := make([]int, 0, len(vars))
		for k := range vars {
			vk = append(vk, k)
		}
		sort.Ints(vk)
		for _, k := range vk {
			cost := pos[k]*neg[k] - pos[k] - neg[k]
			if cost < bc {
				bc = cost
				best = k
			}
		}
		if best < 0 {
			return false
		}
		var ps, ns []row
		keys := make([]string, 0, len(set))
		for k := range set {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			r := set[k]
			if c, ok := r.m[best]; ok {
				delete(set, k)
				if c.Sign() > 0 {
					ps = append(ps, r)
				} else {
					ns = append(ns, r)
				}
			}
		}
		if len(ps)*len(ns) > 600 || len(set) > 800 {
			continue // drop the variable's rows: sound (weaker)
		}
		for _, a := range ps {
			for _, b := range ns {
				ca, cb := a.m[best], new(big.Int).Neg(b.m[best])
				g := new(big.Int).GCD(nil, nil, ca, cb)
				r := comb(a, new(big.Int).Quo(cb, g), b, new(big.Int).Quo(ca, g))
				delete(r.m, best)
				if add(r) {
					return true
				}
			}
		}
	}
	return false
}

// Join keeps what holds in all of fs.
func joinFacts(fs []*Facts) *Facts {
	var live []*Facts
	for _, f := range fs {
		if !f.bot {
			live = append(live, f)
		}
	}
	if len(live) == 0 {
		return fs[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	n := &Facts{lits: map[*Term]bool{}, cache: map[string]bool{}}
	all := func(b *Term) bool {
		for _, f := range live {
			if f.Eval(b) != 1 {
				return false
			}
		}
		return true
	}
	seen := map[*Term]bool{}
	for _, f := range live {
		for _, p := range f.eqs {
			if !seen[p] {
				seen[p] = true
				if all(EQ0(p)) {
					n.eqs = append(n.eqs, p)
				}
			}
		}
	}
	seen = map[*Term]bool{}
	for _, f := range live {
		var ps []*Term
		ps = append(ps, f.lin...)
		for _, e := range f.eqs {
			ps = append(ps, e, Neg(e))
		}
		for _, p := range ps {
			if !seen[p] {
				seen[p] = true
				if contains(n.eqs, p) || contains(n.eqs, Neg(p)) {
					continue
				}
				b := GE0(p)
				if b.op == "ge0" && all(b) {
					n.lin = append(n.lin, b.args[0])
				}
			}
		}
	}
	for _, f := range live {
		for _, p := range f.neq {
			if !contains(n.neq, p) && all(Not(EQ0(p))) {
				n.neq = append(n.neq, p)
			}
		}
	}
	for _, f := range live {
		for l, v := range f.lits {
			if _, ok := n.lits[l]; ok {
				continue
			}
			b := l
			if !v {
				b = Not(l)
			}
			if all(b) {
				n.lits[l] = v
			}
		}
	}
	return n
}

// Key is a canonical text of the facts (for equality of states).
func (f *Facts) Key() string {
	var s []string
	for _, p := range f.lin {
		s = append(s, fmt.Sprintf("g%d", p.id))
	}
	for _, p := range f.eqs {
		s = append(s, fmt.Sprintf("e%d", p.id))
	}
	for _, p := range f.neq {
		s = append(s, fmt.Sprintf("n%d", p.id))
	}
	for l, v := range f.lits {
		s = append(s, fmt.Sprintf("l%d%v", l.id, v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (f *Facts) String() string {
	var s []string
	for _, p := range f.eqs {
		s = append(s, p.String()+" == 0")
	}
	for _, p := range f.lin {
		s = append(s, p.String()+" >= 0")
	}
	for _, p := range f.neq {
		s = append(s, p.String()+" != 0")
	}
	for l, v := range f.lits {
		if v {
			s = append(s, l.String())
		} else {
			s = append(s, "!"+l.String())
		}
	}
	sort.Strings(s)
	return strings.Join(s, " && ")
}

// keepOver drops every fact mentioning a symbol for which drop is true.
func (f *Facts) keepOver(drop func(*Term) bool) *Facts {
	bad := func(t *Term) bool {
		for s := range symsOf(t) {
			if drop(s) {
				return true
			}
		}
		return false
	}
	n := &Facts{lits: map[*Term]bool{}, cache: map[string]bool{}, bot: f.bot}
	for _, p := range f.lin {
		if !bad(p) {
			n.lin = append(n.lin, p)
		}
	}
	for _, p := range f.eqs {
		if !bad(p) {
			n.eqs = append(n.eqs, p)
		}
	}
	for _, p := range f.neq {
		if !bad(p) {
			n.neq = append(n.neq, p)
		}
	}
	for l, v := range f.lits {
		if !bad(l) {
			n.lits[l] = v
		}
	}
	return n
}

var curveP, _ = new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", 16)

// conjuncts lists the facts as Boolean terms.
func (f *Facts) conjuncts() []*Term {
	var r []*Term
	for _, p := range f.eqs {
		r = append(r, EQ0(p))
	}
	for _, p := range f.lin {
		r = append(r, GE0(p))
	}
	for _, p := range f.neq {
		r = append(r, Not(EQ0(p)))
	}
	var ls []*Term
	for l, v := range f.lits {
		if !v {
			l = Not(l)
		}
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	return append(r, ls...)
}

// Implies: every conjunct of g follows from f.
func (f *Facts) Implies(g *Facts) bool {
	for _, c := range g.conjuncts() {
		if f.Eval(c) != 1 {
			return false
		}
	}
	return true
}

// exactUnion returns facts equivalent to f or g when one conjunction
// expresses them without loss, nil otherwise.
func exactUnion(f, g *Facts) *Facts {
	if f.bot {
		return g
	}
	if g.bot {
		return f
	}
	in := func(l []*Term) map[*Term]bool {
		m := map[*Term]bool{}
		for _, t := range l {
			m[t] = true
		}
		return m
	}
	fc, gc := f.conjuncts(), g.conjuncts()
	fm, gm := in(fc), in(gc)
	var fd, gd []*Term
	for _, t := range fc {
		if !gm[t] {
			fd = append(fd, t)
		}
	}
	for _, t := range gc {
		if !fm[t] {
			gd = append(gd, t)
		}
	}
	if len(fd) > 8 || len(gd) > 8 {
		return nil
	}
	if len(fd) == 0 {
		return f
	}
	if len(gd) == 0 {
		return g
	}
	holds := func(x *Facts, l []*Term) bool {
		for _, c := range l {
			if x.Eval(c) != 1 {
				return false
			}
		}
		return true
	}
	if holds(g, fd) {
		return f
	}
	if holds(f, gd) {
		return g
	}
	var j *Facts
	for _, a := range fd {
		if g.Eval(a) != -1 {
			continue
		}
		if j == nil {
			j = joinFacts([]*Facts{f, g})
		}
		if holds(j.Assume(a, true), fd) && holds(j.Assume(a, false), gd) {
			return j
		}
	}
	return nil
}

// tight finds the one quotient q in [a,b] with q*2^w <= t < (q+1)*2^w, by
// bisection over what the facts prove; nil when they do not settle it.
func (f *Facts) tight(t *Term, a, b *big.Int, w int) (*big.Int, *big.Int) {
	lo, hi := new(big.Int).Set(a), new(big.Int).Set(b)
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Add(lo, hi)
		mid.Add(mid, bigOne).Rsh(mid, 1)
		m := CB(new(big.Int).Lsh(mid, uint(w)))
		switch {
		case f.ProveGE0(Sub(t, m)):
			lo = mid
		case f.ProveGE0(Sub(Sub(m, C(1)), t)):
			hi = new(big.Int).Sub(mid, bigOne)
		default:
			return nil, nil
		}
	}
	return lo, hi
}
