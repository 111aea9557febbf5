package main

// Pinning: terms known to equal a constant are replaced by it, in facts and
// in the terms compared under them.

type pinned struct {
	F   *Facts
	m   map[*Term]*Term
	chg bool
}

var pinCache = map[*Facts]*pinned{}

func pin(F *Facts) *pinned {
	if p := pinCache[F]; p != nil {
		return p
	}
	p := &pinned{F: F, m: map[*Term]*Term{}}
	for round := 0; round < 3; round++ {
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		try := func(q *Term) {
			for _, mo := range polyOf(q) {
				if len(mo.v) != 1 {
					continue
				}
				a := mo.v[0]
				if seen[a] || p.m[a] != nil {
					continue
				}
				seen[a] = true
				if c := p.F.constOf(a); c != nil {
					m[a] = c
				}
			}
		}
		for _, q := range p.F.eqs {
			try(q)
		}
		for _, q := range p.F.lin {
			try(q)
		}
		if len(m) == 0 {
			break
		}
		G := p.F.subst(m)
		for a, c := range m {
			p.m[a] = c
		}
		for a, c := range m {
			if b := Subst(a, m); b != c && !b.isC() {
				p.m[b] = c
			}
			if b := Subst(a, dropKey(m, a)); b != a && !b.isC() {
				p.m[b] = c
			}
		}
		for a, c := range p.m {
			G.add(Eq(a, c))
		}
		p.F = G
	}
	p.bitLengths()
	p.chg = len(p.m) > 0 || p.chg
	if len(pinCache) > 4000 {
		pinCache = map[*Facts]*pinned{}
	}
	pinCache[F] = p
	return p
}

func dropKey(m map[*Term]*Term, k *Term) map[*Term]*Term {
	n := map[*Term]*Term{}
	for a, c := range m {
		if a != k {
			n[a] = c
		}
	}
	return n
}

// bitLengths adds the ranges that follow from known bit lengths.
func (p *pinned) bitLengths() {
	var add []*Term
	for _, q := range append(append([]*Term(nil), p.F.lin...), p.F.eqs...) {
		for _, mo := range polyOf(q) {
			if len(mo.v) != 1 || mo.v[0].op != "bitlen" {
				continue
			}
			bl := mo.v[0]
			v := bl.args[0]
			lo, hi := p.F.bounds(bl, 0)
			if d := Add(q, bl); d.isC() && (hi == nil || d.c.Cmp(hi) < 0) { // d - bl >= 0
				hi = d.c
			}
			if d := Sub(bl, q); d.isC() && (lo == nil || d.c.Cmp(lo) > 0) { // bl - d >= 0
				lo = d.c
			}
			if hi != nil && hi.IsInt64() && hi.Int64() <= 4096 {
				m := Sub(CB(pow2(int(hi.Int64()))), C(1))
				add = append(add, Sub(m, v), Add(m, v))
			}
			if lo != nil && lo.Sign() > 0 && lo.IsInt64() && lo.Int64() <= 4096 && p.F.ProveGE0(v) {
				add = append(add, Sub(v, CB(pow2(int(lo.Int64())-1))))
			}
		}
	}
	if len(add) > 0 {
		G := p.F.clone()
		for _, a := range add {
			G.addLin(a)
		}
		p.F, p.chg = G, true
	}
}

func (p *pinned) of(t *Term) *Term {
	if len(p.m) == 0 || t == nil {
		return t
	}
	return Subst(t, p.m)
}

// same: a = b under F, constants known from F put in their place.
func same(F *Facts, a, b *Term) bool {
	if eqUnder(F, a, b) {
		return true
	}
	p := pin(F)
	if p.chg && eqUnder(p.F, p.of(a), p.of(b)) {
		return true
	}
	q := elim(p)
	return q != nil && eqUnder(q.F, q.of(p.of(a)), q.of(p.of(b)))
}

var elimCache = map[*pinned]*pinned{}

// elim puts the solution of each known linear equation in place of a length:
// two bounds that meet are an equation as well.
func elim(p *pinned) *pinned {
	if q, ok := elimCache[p]; ok {
		return q
	}
	if len(elimCache) > 4000 {
		elimCache = map[*pinned]*pinned{}
	}
	m := map[*Term]*Term{}
	for _, l := range [][]*Term{p.F.eqs, p.F.lin} {
	next:
		for _, t := range l {
			t = Subst(t, m)
			ms := polyOf(t)
			if len(ms) < 2 || len(ms) > 4 || !p.F.ProveGE0(Neg(t)) || !p.F.ProveGE0(t) {
				continue
			}
			for _, mo := range ms {
				if len(mo.v) != 1 || mo.c.CmpAbs(bigOne) != 0 || mo.v[0].op != "len" {
					continue
				}
				a := mo.v[0]
				e := Sub(a, t)
				if mo.c.Sign() < 0 {
					e = Add(a, t)
				}
				if hasTerm(e, a) {
					continue
				}
				one := map[*Term]*Term{a: e}
				for k, v := range m {
					m[k] = Subst(v, one)
				}
				m[a] = e
				continue next
			}
		}
	}
	if len(m) == 0 {
		elimCache[p] = nil
		return nil
	}
	q := &pinned{F: p.F.subst(m), m: m, chg: true}
	elimCache[p] = q
	return q
}

func hasTerm(t, a *Term) bool {
	if t == a {
		return true
	}
	return Subst(t, map[*Term]*Term{a: Sym("?")}) != t
}

// holds evaluates a condition the same way.
func holds(F *Facts, b *Term) int {
	if r := F.Eval(b); r != 0 {
		return r
	}
	p := pin(F)
	if p.F.bot {
		return -1
	}
	if p.chg {
		if r := p.F.Eval(p.of(b)); r != 0 {
			return r
		}
	}
	if q := elim(p); q != nil {
		if q.F.bot {
			return -1
		}
		if r := q.F.Eval(q.of(p.of(b))); r != 0 {
			return r
		}
	}
	if x, neg := b, false; true {
		if x.op == "not" {
			x, neg = x.args[0], true
		}
		if x.op == "seqeq" || x.op == "oncurve" {
			for l, v := range p.F.lits {
				if l.op != x.op {
					continue
				}
				a, c := p.of(x.args[0]), p.of(x.args[1])
				if same1(p.F, l.args[0], a) && same1(p.F, l.args[1], c) || x.op == "seqeq" && same1(p.F, l.args[0], c) && same1(p.F, l.args[1], a) {
					if v != neg {
						return 1
					}
					return -1
				}
			}
		}
	}
	return 0
}

func same1(F *Facts, a, b *Term) bool { return a == b || eqUnder(F, a, b) }
