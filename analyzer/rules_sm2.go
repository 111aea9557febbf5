package main

// SM2: signature, encryption, key and curve rules.

import (
	"fmt"
	"strings"
)

// ---- oracles ------------------------------------------------------------

func nMinus(i int64) *Term { return Sub(smN, C(i)) }

func inRange(v *Term, lo, hi *Term) []*Term { return []*Term{Le(lo, v), Le(v, hi)} }

// zTerm is Z of the standard for a public point and an identity.
func zTerm(x, y, id *Term) *Term {
	return sm3Of(MkSeq(BE(MulI(SeqLen(id), 8), C(2)), id,
		BE(smA, C(32)), BE(smB, C(32)), BE(smGx, C(32)), BE(smGy, C(32)), BE(x, C(32)), BE(y, C(32))))
}

func eTerm(x, y, id, msg *Term) *Term { return NatVal(sm3Of(MkSeq(zTerm(x, y, id), msg)), 0) }

var defaultID = Bytes("1234567812345678")

// keyStream is the first n bytes of KDF(prefix).
func keyStream(prefix, n *Term) *Term {
	b := beta(0)
	return SubBase(Blocks(sm3Of(MkSeq(prefix, BE(Wrap(32, Add(C(1), b)), C(4)))), b, C(32)), C(0), n)
}

func allOf(F *Facts, cs ...*Term) (*Term, bool) {
	for _, c := range cs {
		if holds(F, c) != 1 {
			return c, false
		}
	}
	return nil, true
}

// contradicts: the facts exclude that all conditions hold together.
func contradicts(F *Facts, cs ...*Term) bool {
	for _, c := range cs {
		if holds(F, c) == -1 {
			return true
		}
		F = F.Assume(c, true)
		if F.bot {
			return true
		}
	}
	// once more with everything known
	for _, c := range cs {
		if holds(F, c) == -1 {
			return true
		}
	}
	if F.bot || pin(F).F.bot {
		return true
	}
	for l, v := range F.lits {
		if r := F.evalLit(l); r == 1 && !v || r == -1 && v {
			return true
		}
	}
	return false
}

func subterms(t *Term, op string, out map[*Term]bool) {
	walkTerm(t, map[*Term]bool{}, func(x *Term) {
		if x.op == op {
			out[x] = true
		}
	})
}

func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walkTerm(a, seen, f)
	}
	for _, m := range t.poly {
		for _, v := range m.v {
			walkTerm(v, seen, f)
		}
	}
	for _, m := range t.anf {
		for _, v := range m.f {
			walkTerm(v.t, seen, f)
		}
	}
}

// arg is the i-th parameter as a symbol, seqArg as a byte string.
func (r *Run) arg(i int) *Term {
	p := r.fn.Params[i]
	return SymW("arg:"+p.Name(), uwidth(p.Type()))
}
func (r *Run) seqArg(i int) *Term { s := r.arg(i); return SubBase(s, C(0), LenOf(s)) }
func (r *Run) nilArg(i int) *Term {
	switch v := r.args[r.fn.Params[i].Name()].(type) {
	case *Slice:
		return v.nilT
	case *Ptr:
		return v.nilT
	case *Iface:
		return v.nilT
	}
	return TFalse
}

// fieldOf is the symbol of a field (by Go name) of a parameter.
func (r *Run) fieldOf(i int, names ...string) *Term {
	t := r.arg(i)
	for _, n := range names {
		t = rawOp("fld", n, 0, t)
	}
	return t
}

// pubPre assumes a public key with coordinates of at most 256 bits.
func pubPre(names ...string) func(e *Engine, st *State, a map[string]*Term) {
	return func(e *Engine, st *State, a map[string]*Term) {
		for _, n := range names {
			k := a[n]
			for _, f := range []string{"X", "Y"} {
				c := rawOp("fld", f, 0, k)
				st.facts = st.facts.Assume(GE0(c), true).Assume(Lt(c, pow256()), true)
			}
		}
	}
}

// privPre assumes a private key in [1,n-1].
func privPre(names ...string) func(e *Engine, st *State, a map[string]*Term) {
	return func(e *Engine, st *State, a map[string]*Term) {
		for _, n := range names {
			d := rawOp("fld", "D", 0, a[n])
			st.facts = st.facts.Assume(Le(C(1), d), true).Assume(Lt(d, smN), true)
		}
	}
}

func pow256() *Term { return CB(pow2(256)) }

// idCases splits facts into those with a nil and a non-nil identity.
func idCases(F *Facts, nilT, id *Term) (fs []*Facts, ids []*Term) {
	y, n := split(F, nilT)
	if y != nil {
		fs, ids = append(fs, y), append(ids, defaultID)
	}
	if n != nil {
		fs, ids = append(fs, n), append(ids, id)
	}
	return
}

// ---- verification ---------------------------------------------------------

type verifyCtx struct {
	x, y, r, s, id, msg *Term
}

// conditions of the standard, each with equivalent formulations; the last
// entry of the result is the pair for "not the point at infinity".
func (v *verifyCtx) conds() (names []string, alts [][]*Term, inf [2]*Term) {
	t := ModN(Add(v.r, v.s), smN)
	p := padd(smul(v.s, smG), smul(t, pt(v.x, v.y)))
	x1, y1 := ptX(p), ptY(p)
	e := eTerm(v.x, v.y, v.id, v.msg)
	R := ModN(Add(e, x1), smN)
	names = []string{"public key on the curve", "r >= 1", "r <= n-1", "s >= 1", "s <= n-1", "user id fits ENTL", "t = r+s mod n is not 0", "(e+x1) mod n = r"}
	alts = [][]*Term{
		{onCurve(v.x, v.y)},
		{Le(C(1), v.r)}, {Le(v.r, nMinus(1))},
		{Le(C(1), v.s)}, {Le(v.s, nMinus(1))},
		{Le(SeqLen(v.id), C(8191))},
		{Not(EQ0(t)), Le(C(1), t), Not(Eq(Add(v.r, v.s), smN))},
		{Eq(R, v.r), EQ0(ModN(Sub(Add(e, x1), v.r), smN)), EQ0(ModN(Sub(v.r, Add(e, x1)), smN))},
	}
	return names, alts, [2]*Term{x1, y1}
}

// canon writes digests that equal the digest of the standard under F in the
// same form.
func (v *verifyCtx) canon(F *Facts) *Facts {
	return canonHash(F, sm3Of(MkSeq(zTerm(v.x, v.y, v.id), v.msg)))
}

func canonHash(F *Facts, targets ...*Term) *Facts {
	m := canonMap(F, F.conjuncts(), targets...)
	if len(m) == 0 {
		return F
	}
	return F.subst(m)
}

// canonTerm does the same in a term.
func canonTerm(F *Facts, t *Term, targets ...*Term) *Term {
	m := canonMap(F, []*Term{t}, targets...)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

func canonMap(F *Facts, ts []*Term, targets ...*Term) map[*Term]*Term {
	hs := map[*Term]bool{}
	for _, cj := range ts {
		subterms(cj, "sm3", hs)
	}
	m := map[*Term]*Term{}
	for h := range hs {
		for _, t := range targets {
			t = t.args[0] // the sm3 term
			if h != t && same(F, h.args[0], t.args[0]) {
				m[h] = t
			}
		}
	}
	return m
}

// accept: what is missing for all conditions to hold.
func (v *verifyCtx) missing(F *Facts) []string {
	F = v.canon(F)
	names, alts, inf := v.conds()
	var m []string
	for i, as := range alts {
		ok := false
		for _, a := range as {
			if F.Eval(a) == 1 {
				ok = true
			}
		}
		if !ok {
			m = append(m, names[i])
		}
	}
	// infinity is (0,0)
	if !contradicts(F, EQ0(inf[0]), EQ0(inf[1])) {
		m = append(m, "sG+tP is not the point at infinity")
	}
	return m
}

// refused: the facts exclude that all conditions hold.
func (v *verifyCtx) excluded(F *Facts) bool {
	F = v.canon(F)
	_, alts, inf := v.conds()
	var all []*Term
	for _, as := range alts {
		all = append(all, as...)
	}
	// (the first formulation of each suffices, the others follow)
	if contradicts(F, append(append([]*Term(nil), all...), Not(EQ0(inf[0])))...) &&
		contradicts(F, append(append([]*Term(nil), all...), Not(EQ0(inf[1])))...) {
		return true
	}
	return false
}

func checkVerification(c *Check) {
	c.explain = "VerifyByRS and Verify are interpreted abstractly on symbolic keys, identities, messages and signatures (all calls into sm2, sm3 and util are followed, loops are generalised). On every exit class the returned Boolean is decided by the conditions of the standard: an accepting exit must entail each of them, a refusing exit must contradict at least one."
	c.rule("accepts-only", "an exit on which the function returns true entails every condition of the standard")
	c.rule("accepts-all", "an exit on which the function returns false contradicts at least one condition of the standard")
	c.rule("der", "a DER signature is accepted exactly when it decodes without trailing bytes and its r and s are accepted")
	e := c.engine(true)
	e.wellFormed()
	r := c.run(e, "sm2", "VerifyByRS", pubPre("0"))
	if r.ok {
		for _, x := range r.ex {
			fs, ids := idCases(x.F, r.nilArg(1), r.seqArg(1))
			for i, F := range fs {
				v := &verifyCtx{r.fieldOf(0, "X"), r.fieldOf(0, "Y"), r.arg(3), r.arg(4), ids[i], r.seqArg(2)}
				c.decide(x, F, v, r, "accepts-only", "accepts-all")
			}
		}
	}
	r = c.run(e, "sm2", "Verify", pubPre("0"))
	if r.ok {
		sig := r.seqArg(3)
		u := rawOp("undec", "SEQ(INT,INT)", 0, sig)
		okT := rawOp("undecok", "SEQ(INT,INT)", 0, sig)
		rest := LenOf(rawOp("derrest", "SEQ(INT,INT)", 0, sig))
		for _, x := range r.ex {
			fs, ids := idCases(x.F, r.nilArg(1), r.seqArg(1))
			for i, F := range fs {
				v := &verifyCtx{r.fieldOf(0, "X"), r.fieldOf(0, "Y"), rawOp("fld", "#0", 0, u), rawOp("fld", "#1", 0, u), ids[i], r.seqArg(2)}
				tF, fF := x.boolIn(F, 0)
				if tF != nil {
					c.ob("der", r.name+": decodes on acceptance", c.at(r.fn), tF.Eval(okT) == 1, "true is returned although the signature did not decode as SEQUENCE{INTEGER,INTEGER}: "+x.when(tF))
					c.ob("der", r.name+": no trailing bytes on acceptance", c.at(r.fn), tF.Eval(EQ0(rest)) == 1, "true is returned although bytes may follow the signature: "+x.when(tF))
					m := v.missing(tF)
					c.ob("accepts-only", r.name, c.at(r.fn), len(m) == 0, "true is returned without establishing: "+strings.Join(m, ", ")+"; path: "+x.when(tF))
				}
				if fF != nil {
					ok := contradicts(fF, okT, EQ0(rest)) || v.excluded(fF)
					c.ob("accepts-all", r.name, c.at(r.fn), ok, "false is returned although nothing on the path excludes a valid signature: "+x.when(fF))
				}
			}
		}
	}
}

// boolIn splits facts F by the Boolean result k.
func (x *Exit) boolIn(F *Facts, k int) (tF, fF *Facts) {
	t, ok := x.vals[k].(*Term)
	if !ok {
		return F, F
	}
	return split(F, t)
}

func (c *Check) decide(x *Exit, F *Facts, v *verifyCtx, r *Run, only, all string) {
	tF, fF := x.boolIn(F, 0)
	if tF != nil {
		m := v.missing(tF)
		c.ob(only, r.name, c.at(r.fn), len(m) == 0, "true is returned without establishing: "+strings.Join(m, ", ")+"; path: "+x.when(tF))
	}
	if fF != nil {
		c.ob(all, r.name, c.at(r.fn), v.excluded(fF), "false is returned although nothing on the path excludes a valid signature: "+x.when(fF))
	}
}

// ---- nonces -----------------------------------------------------------------

// nonceOf recognises a uniformly drawn nonce in [1,n-1] inside a term: the
// atom and the scalar built from it.
type nonce struct {
	atom, k *Term
	why     string
}

func isRandAtom(t *Term) bool {
	return (t.op == "sym" || t.op == "fresh") && strings.HasPrefix(t.s, "randint@")
}

func isReadAtom(t *Term) bool {
	return (t.op == "sym" || t.op == "fresh") && strings.HasPrefix(t.s, "readfull@")
}

// drawn decides whether scalar k is drawn uniformly from [1,n-1] under facts
// F; it returns the reason why not.
func (r *Run) drawn(F *Facts, k *Term, reader *Term) string {
	atoms := map[*Term]bool{}
	walkTerm(k, map[*Term]bool{}, func(x *Term) {
		if isRandAtom(x) || isReadAtom(x) {
			atoms[x] = true
		}
	})
	if len(atoms) != 1 {
		return fmt.Sprintf("the nonce %s is not a single value drawn from the random source", cutMid(k.String(), 200))
	}
	var a *Term
	for x := range atoms {
		a = x
	}
	n := 0
	var why string
	for _, ev := range r.e.log {
		if ev.kind != "rand" || len(ev.args) < 3 || ev.args[1].s != a.s {
			continue
		}
		n++
		if ev.args[0] != reader {
			why = "the random source is " + ev.args[0].String()
		}
		switch {
		case ev.s == "int" && k == a && ev.args[2] == smN:
			// uniform below n; zero must be rejected
		case ev.s == "int" && k == Add(a, C(1)) && ev.args[2] == nMinus(1):
		case ev.s == "read" && ev.args[2].isCi(32) && k == NatVal(SubBase(a, C(0), C(32)), 0):
			// rejection sampling of 32 random bytes
		case ev.s == "int":
			why = fmt.Sprintf("the nonce is %s for a value drawn below %s: not uniform in [1,n-1]", cutMid(k.String(), 200), ev.args[2])
		default:
			why = fmt.Sprintf("the nonce is %s of %s random bytes: not uniform in [1,n-1]", cutMid(k.String(), 200), ev.args[2])
		}
	}
	if n == 0 {
		return "the draw of the nonce was not seen"
	}
	if why != "" {
		return why
	}
	if F.Eval(Le(C(1), k)) != 1 {
		return "the nonce may be 0"
	}
	if F.Eval(Le(k, nMinus(1))) != 1 {
		return "the nonce may exceed n-1"
	}
	// no fact may restrict the nonce further
	base := NoFacts.Assume(Le(C(1), k), true).Assume(Le(k, nMinus(1)), true)
	for _, cj := range F.conjuncts() {
		ss := symsOf(cj)
		only := ss[a] || a.op == "fresh"
		for s := range ss {
			if s != a && !isQ(s) {
				only = false
			}
		}
		mentions := false
		plain := true
		walkTerm(cj, map[*Term]bool{}, func(x *Term) {
			if x == a {
				mentions = true
			}
			if x.op == "ptx" || x.op == "pty" || x.op == "sm3" {
				plain = false
			}
		})
		if only && mentions && plain && base.Eval(cj) != 1 {
			return "the nonce is restricted further by " + cj.String()
		}
	}
	return ""
}

func isQ(t *Term) bool { return t.op == "sym" && strings.HasPrefix(t.s, "q") || t.op == "qx" }

var sysRand = Sym("glob:crypto/rand.Reader")

// nonces lists the nonce candidates of a term: arguments of scalar
// multiplications of the base point that contain a random atom.
func nonceCands(ts ...*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if x.op != "smul" || seen[x.args[0]] {
				return
			}
			has := false
			walkTerm(x.args[0], map[*Term]bool{}, func(y *Term) {
				if isRandAtom(y) || isReadAtom(y) {
					has = true
				}
			})
			if has {
				seen[x.args[0]] = true
				out = append(out, x.args[0])
			}
		})
	}
	return out
}

// eqModN: a = b (mod n), using inv*(1+d) = 1.
func eqModN(F *Facts, a, b, d *Term) bool {
	if same(F, a, b) {
		return true
	}
	inv := rawOp("modinv", "", 0, ModN(Add(C(1), d), smN), smN)
	p, q := a, b
	for _, t := range []**Term{&p, &q} {
		if (*t).op == "mod" && (*t).args[1] == smN {
			*t = (*t).args[0]
		}
	}
	diff := Mul(Add(C(1), d), Sub(p, q))
	diff = reduceInv(diff, inv, d)
	return ModN(diff, smN).isCi(0)
}

// reduceInv rewrites inv*d to 1-inv.
func reduceInv(t, inv, d *Term) *Term {
	for i := 0; i < 8; i++ {
		ch := false
		var ps []*Term
		for _, m := range polyOf(t) {
			ii, di := -1, -1
			for j, v := range m.v {
				if v == inv && ii < 0 {
					ii = j
				} else if v == d && di < 0 {
					di = j
				}
			}
			r := CB(m.c)
			for j, v := range m.v {
				if ii >= 0 && di >= 0 && (j == ii || j == di) {
					continue
				}
				r = Mul(r, v)
			}
			if ii >= 0 && di >= 0 {
				r = Mul(r, Sub(C(1), inv))
				ch = true
			}
			ps = append(ps, r)
		}
		t = Add(ps...)
		if !ch {
			break
		}
	}
	return t
}

// ---- signing ------------------------------------------------------------------

func checkSigning(c *Check) {
	c.explain = "SignToRS and Sign are interpreted abstractly; every exit that returns a signature is compared with the formulas of the standard for a nonce that is traced to the draw that produced it, and every other exit must return nothing."
	c.rule("formula", "r = (e+x1) mod n and s = (1+d)^-1 (k - r d) mod n with (x1,y1) = kG for one nonce k")
	c.rule("nonce", "k is drawn uniformly from [1,n-1] from crypto/rand.Reader in the attempt that produced the signature")
	c.rule("retry", "r = 0, r+k = n and s = 0 are impossible on an exit that returns a signature")
	c.rule("key-range", "a signature is returned only for a private key in [1,n-2]")
	c.rule("no-result", "an exit with an error returns no signature")
	c.rule("refuses-only", "an error is returned only for a bad key, a bad user id or a failing random source")
	c.rule("der", "Sign returns the DER SEQUENCE of exactly the r and s that were computed")
	e := c.engine(true)
	e.wellFormed()
	sig := func(name string, der bool) {
		r := c.run(e, "sm2", name, nil)
		if !r.ok {
			return
		}
		c.successExits(r, "formula")
		r.loopsEnd("retry")
		d := r.fieldOf(0, "D")
		q := smul(d, smG)
		for _, x := range r.ex {
			okF, errF := x.errCases()
			if errF != nil {
				for k := 0; k < len(x.vals)-1; k++ {
					c.ob("no-result", fmt.Sprintf("%s result %d", r.name, k), c.at(r.fn), x.nothing(errF, k), "an error is returned together with "+x.show(k))
				}
				c.ob("refuses-only", r.name, c.at(r.fn), c.signRefusal(r, x, errF, d), "an error is returned although the key and the user id may be valid and the random source has not failed: "+x.when(errF))
			}
			if okF == nil {
				continue
			}
			var rt, st *Term
			if der {
				rt, st = derPair(x.bytes(0))
			} else {
				rt, st = x.big(0), x.big(1)
			}
			if rt == nil || st == nil {
				rule := "formula"
				if der {
					rule = "der"
				}
				c.fail(rule, r.name, c.at(r.fn), "the result is not a pair of computed integers: "+x.show(0))
				continue
			}
			if der {
				c.ob("der", r.name, c.at(r.fn), true, "")
			}
			fs, ids := idCases(okF, r.nilArg(1), r.seqArg(1))
			for i, F := range fs {
				cand := nonceCands(rt)
				if len(cand) != 1 {
					c.fail("nonce", r.name, c.at(r.fn), fmt.Sprintf("r depends on %d random scalars: %s", len(cand), cutMid(rt.String(), 500)))
					continue
				}
				k := cand[0]
				why := r.drawn(F, k, sysRand)
				c.ob("nonce", r.name, c.at(r.fn), why == "", why)
				es := eTerm(ptX(q), ptY(q), ids[i], r.seqArg(2))
				eh := sm3Of(MkSeq(zTerm(ptX(q), ptY(q), ids[i]), r.seqArg(2)))
				F := canonHash(F, eh)
				rt, st := canonTerm(F, rt, eh), canonTerm(F, st, eh)
				ro := ModN(Add(es, ptX(smul(k, smG))), smN)
				c.ob("formula", r.name+" r", c.at(r.fn), same(F, rt, ro) || eqModN(F, rt, ro, d), "r is "+cutMid(rt.String(), 700)+" instead of (e+x1) mod n")
				inv := rawOp("modinv", "", 0, ModN(Add(C(1), d), smN), smN)
				so := ModN(Mul(inv, Sub(k, Mul(rt, d))), smN)
				c.ob("formula", r.name+" s", c.at(r.fn), eqModN(F, st, so, d), "s is "+cutMid(st.String(), 900)+" instead of (1+d)^-1 (k-rd) mod n")
				for _, cd := range []struct {
					n string
					t []*Term
				}{
					{"r = 0", []*Term{EQ0(rt)}},
					{"r + k = n", []*Term{Eq(Add(rt, k), smN)}},
					{"s = 0", []*Term{EQ0(st)}},
				} {
					c.ob("retry", r.name+": "+cd.n, c.at(r.fn), contradicts(F, cd.t...), cd.n+" is possible when a signature is returned: "+x.when(F))
				}
				bad, ok := allOf(F, inRange(d, C(1), nMinus(2))...)
				c.ob("key-range", r.name, c.at(r.fn), ok, fmt.Sprintf("a signature is returned without establishing %v", bad))
			}
		}
	}
	sig("SignToRS", false)
	sig("Sign", true)
}

// successExits: at least one exit returns without error.
func (c *Check) successExits(r *Run, rule string) {
	for _, x := range r.ex {
		if okF, _ := x.errCases(); okF != nil {
			return
		}
	}
	c.fail(rule, r.name, c.at(r.fn), "no exit succeeds")
}

func (c *Check) signRefusal(r *Run, x *Exit, F *Facts, d *Term) bool {
	if randError(x) || derError(F) {
		return true
	}
	fs, ids := idCases(F, r.nilArg(1), r.seqArg(1))
	for i, G := range fs {
		if !contradicts(G, append(inRange(d, C(1), nMinus(2)), Le(SeqLen(ids[i]), C(8191)))...) {
			return false
		}
	}
	return true
}

// randError: the error returned is the one of the random source.
func randError(x *Exit) bool {
	i, ok := x.vals[len(x.vals)-1].(*Iface)
	if !ok {
		return false
	}
	ts := []*Term{}
	if i.t != nil {
		ts = append(ts, i.t)
	}
	found := false
	for _, t := range ts {
		walkTerm(t, map[*Term]bool{}, func(y *Term) {
			if !strings.HasPrefix(y.s, "err@") {
				return
			}
			site := strings.TrimPrefix(y.s, "err@")
			for _, ev := range x.r.e.log {
				if ev.kind == "rand" && len(ev.args) > 1 && strings.HasSuffix(ev.args[1].s, "@"+site) {
					found = true
				}
			}
		})
	}
	return found
}

// derError: the facts say that some DER encoding failed (cannot happen for
// the types used, but the library reports it).
func derError(F *Facts) bool {
	for _, cj := range F.conjuncts() {
		if cj.op == "not" && cj.args[0].op == "derok" {
			return true
		}
	}
	return false
}

// derPair: the two integers of a DER encoded SEQUENCE{INTEGER,INTEGER}.
func derPair(t *Term) (a, b *Term) {
	f := derFields(t, "SEQ(INT,INT)")
	if f == nil {
		return nil, nil
	}
	return f[0], f[1]
}

// derFields: t is the whole DER encoding of a structure of the given shape;
// its field values.
func derFields(t *Term, shape string) []*Term {
	if t == nil || t.op != "sub" || !t.args[1].isCi(0) {
		return nil
	}
	d := t.args[0]
	if d.op != "der" || t.args[2] != LenOf(d) || d.s != shape || d.args[0].op != "struct" {
		return nil
	}
	var out []*Term
	for _, a := range d.args[0].args {
		if a.op == "bigp" {
			a = a.args[0]
		}
		out = append(out, a)
	}
	return out
}

// ---- the digest ------------------------------------------------------------------

func checkDigest(c *Check) {
	c.explain = "All SM3 terms that occur in the signatures returned by SignToRS and Sign and in the conditions under which VerifyByRS and Verify accept are collected on every path and compared with Z and with SM3(Z||M) of the standard for the key, identity and message of the call."
	c.rule("digest", "every SM3 value in a result or a deciding condition is Z or SM3(Z||M) for this key, identity and message")
	c.rule("used", "the digest SM3(Z||M) takes part in every signature and every accepting decision")
	c.rule("id-length", "an identity longer than 8191 bytes is refused")
	e := c.engine(true)
	e.wellFormed()
	for _, f := range []struct {
		name   string
		verify bool
	}{{"SignToRS", false}, {"Sign", false}, {"VerifyByRS", true}, {"Verify", true}} {
		var pre func(e *Engine, st *State, a map[string]*Term)
		if f.verify {
			pre = pubPre("0")
		}
		r := c.run(e, "sm2", f.name, pre)
		if !r.ok {
			continue
		}
		var px, py *Term
		if f.verify {
			px, py = r.fieldOf(0, "X"), r.fieldOf(0, "Y")
		} else {
			q := smul(r.fieldOf(0, "D"), smG)
			px, py = ptX(q), ptY(q)
		}
		some := false
		for _, x := range r.ex {
			var accF *Facts
			if f.verify {
				accF, _ = x.boolCases(0)
			} else {
				accF, _ = x.errCases()
			}
			if accF == nil {
				continue
			}
			some = true
			fs, ids := idCases(accF, r.nilArg(1), r.seqArg(1))
			for i, F := range fs {
				id := ids[i]
				c.ob("id-length", r.name, c.at(r.fn), F.Eval(Le(SeqLen(id), C(8191))) == 1, "accepted for an identity whose length may exceed 8191 bytes: "+x.when(F))
				z := zTerm(px, py, id).args[0]
				ee := sm3Of(MkSeq(zTerm(px, py, id), r.seqArg(2))).args[0]
				hs := map[*Term]bool{}
				for k := range x.vals {
					for _, t := range x.terms(k) {
						subterms(t, "sm3", hs)
					}
				}
				for _, cj := range accF.conjuncts() {
					subterms(cj, "sm3", hs)
				}
				used := false
				for h := range hs {
					ok := same(F, h.args[0], z.args[0])
					if !ok && same(F, h.args[0], ee.args[0]) {
						ok, used = true, true
					}
					c.ob("digest", r.name, c.at(r.fn), ok, "a digest is taken over "+cutMid(h.args[0].String(), 900))
				}
				c.ob("used", r.name, c.at(r.fn), used, "no digest of Z and the message takes part: "+x.when(F))
			}
		}
		if !some {
			c.fail("used", r.name, c.at(r.fn), "no exit succeeds")
		}
	}
}

// terms: the terms a result consists of.
func (x *Exit) terms(k int) []*Term {
	if t := x.big(k); t != nil {
		return []*Term{t}
	}
	if t := x.bytes(k); t != nil {
		return []*Term{t}
	}
	return nil
}

func init() {
	addCheck("C01", "other", absInt, checkVerification)
	addCheck("C02", "other", absInt, checkSigning)
	addCheck("C03", "other", absInt, checkDigest)
}
