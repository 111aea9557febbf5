package main

// The byte-string builder.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bldCtx builds with the public operations only: a builder over a buffer with
// arbitrary contents, length and spare room stands for every history of
// successful operations before.
type bldCtx struct {
	*cbCtx
	conts map[*Term]func(c *callCtx, child Value) []*Result
	marsh func(c *callCtx, b Value) []*Result
	lib   map[string]modelFn
}

func (c *Check) bld(pkg string) *bldCtx {
	x := &bldCtx{cbCtx: c.cb(pkg), conts: map[*Term]func(c *callCtx, child Value) []*Result{}}
	x.e.hookFn = func(name string) modelFn {
		switch {
		case x.lib[name] != nil:
			return x.lib[name]
		case name == "dynamic":
			return func(e *Engine, c *callCtx) []*Result {
				f, ok := c.args[0].(*Closure)
				if !ok || x.conts[f.t] == nil || len(c.args) != 2 {
					e.unsupported("call of an unknown function value")
					return nil
				}
				return x.conts[f.t](c, c.args[1])
			}
		case strings.HasPrefix(name, "invoke.") && strings.HasSuffix(name, ".Marshal") && x.marsh != nil:
			return func(e *Engine, c *callCtx) []*Result { return x.marsh(c, c.args[1]) }
		}
		return nil
	}
	return x
}

func (x *bldCtx) cont(key string, f func(c *callCtx, child Value) []*Result) Value {
	t := Sym("cont:" + key)
	x.conts[t] = f
	return &Closure{t: t, nilT: TFalse}
}

// op calls a builder method from inside a continuation.
func (x *bldCtx) op(name string, args ...Value) func(c *callCtx, child Value) []*Result {
	return func(c *callCtx, child Value) []*Result {
		f := x.c.ld.fn(x.pkg, "(*Builder)."+name)
		if f == nil {
			x.e.unsupported("no method %s", name)
			return nil
		}
		return x.e.callFn(f, append([]Value{child}, args...), nil, c.st, c.site+">"+name)
	}
}

func (x *bldCtx) ops(fs ...func(c *callCtx, child Value) []*Result) func(c *callCtx, child Value) []*Result {
	return func(c *callCtx, child Value) []*Result {
		cur := []*Result{{st: c.st}}
		for i, f := range fs {
			var next []*Result
			for _, r := range cur {
				if r.pan != nil {
					next = append(next, r)
					continue
				}
				d := *c
				d.st, d.site = r.st, fmt.Sprintf("%s/%d", c.site, i)
				next = append(next, f(&d, child)...)
			}
			cur = next
		}
		for _, r := range cur {
			r.vals = nil
		}
		return cur
	}
}

// data is a byte slice argument with the given contents.
func (x *bldCtx) data(st *State, key string, n *Term) (Value, *Term) {
	s := SubBase(Sym(key), C(0), n)
	return x.slice(st, key, s), s
}

type bstep struct {
	name string
	args []Value
}

// bcase is one history of operations: what it must leave in the builder.
type bcase struct {
	rule, what string
	fixed      bool
	assume     []*Term
	steps      func(st *State) []bstep
	want       func(F *Facts) *Term
	refuse     bool                  // always an error
	mayFail    func(F *Facts) bool   // an error is right under these facts
	check      func(*Result) *string // further conditions on the error
}

func (x *bldCtx) do(b bcase) {
	c := x.c
	ctor := "NewBuilder"
	if b.fixed {
		ctor = "NewFixedBuilder"
	}
	nb := x.fnOf(b.rule, ctor, 1)
	bytes := x.fnOf(b.rule, "(*Builder).Bytes", 1)
	if nb == nil || bytes == nil {
		return
	}
	st := x.e.newState()
	L := LenOf(Sym("buf"))
	for _, a := range append([]*Term{GE0(L), Le(L, CB(pow2(40)))}, b.assume...) {
		st.facts = st.facts.Assume(a, true)
	}
	old := SubBase(Sym("buf"), C(0), L)
	buf := x.slice(st, "buf", old)
	st.facts = st.facts.Assume(Le(LenOf(Sym("spare:buf")), CB(pow2(40))), true)
	steps := b.steps(st)
	cur := x.run(nb, []Value{buf}, st, b.rule, b.what)
	for i := range cur {
		cur[i].vals = cur[i].vals[:1]
	}
	var at *ssa.Function
	for _, s := range steps {
		f := x.fnOf(b.rule, "(*Builder)."+s.name, len(s.args)+1)
		if f == nil {
			return
		}
		at = f
		var next []*Result
		for _, r := range cur {
			for _, q := range x.run(f, append([]Value{r.vals[0]}, s.args...), r.st, b.rule, b.what) {
				if q.pan != nil {
					c.fail(b.rule, b.what+": panics caught", c.at(f), "a panic of the continuation escapes")
					continue
				}
				next = append(next, &Result{st: q.st, vals: r.vals})
			}
		}
		cur = next
	}
	done := 0
	for _, r := range cur {
		if contradictory(r.st.facts) {
			continue
		}
		for _, q := range x.run(bytes, r.vals, r.st, b.rule, b.what) {
			F := q.st.facts
			if contradictory(F) {
				continue
			}
			s, _ := q.vals[0].(*Slice)
			er, _ := q.vals[1].(*Iface)
			if s == nil || er == nil {
				c.fail(b.rule, b.what, c.at(bytes), "no result")
				continue
			}
			switch F.Eval(er.nilT) {
			case 1:
				if b.refuse {
					c.ob(b.rule, b.what+": refused", c.at(at), false, "no error, and the bytes are "+cutMid(termStr(x.e.sliceSeq(q.st, s)), 300))
					continue
				}
				done++
				got, want := x.e.sliceSeq(q.st, s), MkSeq(old, b.want(F))
				c.ob(b.rule, b.what, c.at(at), got != nil && sameBytes(F, got, want), fmt.Sprintf("the bytes are %s, expected %s", cutMid(termStr(got), 400), cutMid(want.String(), 400)))
				if b.fixed {
					c.ob("fixed", b.what+": the buffer given", c.at(at), s.obj == buf.obj, "the bytes are in a new buffer")
				}
			case -1:
				if F.Eval(s.nilT) != 1 && holds(F, EQ0(s.len)) != 1 {
					c.fail("sticky", b.what+": no bytes with an error", c.at(bytes), "bytes are returned with an error")
				}
				ok := b.refuse || (b.mayFail != nil && b.mayFail(F))
				if !ok && b.fixed {
					want := b.want(F)
					ok = holds(F, Le(Add(buf.cap, C(1)), Add(L, SeqLen(want)))) == 1
				}
				c.ob(b.rule, b.what+": fails only when it must", c.at(at), ok, "an error is reported when "+cutMid(F.String(), 500))
				if b.refuse {
					done++
				}
			default:
				c.fail(b.rule, b.what, c.at(bytes), "not known whether there is an error")
			}
		}
	}
	c.ob(b.rule, b.what+": reachable", c.at(bytes), done > 0, "no path gives the expected kind of result")
}

// derLen is the DER length octets of n, which lies in the range.
func derLenIn(n *Term, hi *big.Int) *Term {
	switch {
	case hi.Cmp(big.NewInt(0x7f)) <= 0:
		return BE(n, C(1))
	case hi.Cmp(big.NewInt(0xff)) <= 0:
		return MkSeq(Bytes("\x81"), BE(n, C(1)))
	case hi.Cmp(big.NewInt(0xffff)) <= 0:
		return MkSeq(Bytes("\x82"), BE(n, C(2)))
	case hi.Cmp(big.NewInt(0xffffff)) <= 0:
		return MkSeq(Bytes("\x83"), BE(n, C(3)))
	}
	return MkSeq(Bytes("\x84"), BE(n, C(4)))
}

func derTLV(tag int64, content *Term) *Term {
	n := SeqLen(content)
	if n.isC() {
		return MkSeq(Bytes(string([]byte{byte(tag)})), derLenIn(n, n.c), content)
	}
	return nil
}

var derRanges = [][2]int64{{0, 0x7f}, {0x80, 0xff}, {0x100, 0xffff}, {0x10000, 0xffffff}, {0x1000000, 0xfffffffe}}

func in(v *Term, lo, hi int64) []*Term { return []*Term{Le(C(lo), v), Le(v, C(hi))} }

func checkBuilder(c *Check) {
	c.explain = "Builder operations are interpreted through the public interface on a builder whose buffer has arbitrary contents, length and spare room (which stands for every history of successful operations), top level and inside the continuations of length-prefixed values, with contents of symbolic, unbounded length split at the boundaries of the length forms; the bytes returned must be the old bytes followed by the specified encoding, errors occur exactly when the content does not fit. After an error of a marshalled value, a refused tag or an overlong content every operation of the method set is interpreted: the error is still reported and no bytes are returned. Stores to error fields are checked for the value stored."
	c.rule("append", "each operation appends exactly its encoding")
	c.rule("prefix", "a length-prefixed value carries the number of content bytes, in minimal form for DER, or the operation fails when the prefix cannot express it")
	c.rule("sticky", "after an error no operation clears it and no bytes are returned")
	c.rule("fixed", "a fixed builder stays in its buffer")
	c.rule("panic", "a BuildError panic of a continuation becomes the builder's error; other panics continue")
	pkg := "cryptobyte"
	x := c.bld(pkg)
	named := c.ld.typ(pkg, "Builder")
	if named == nil {
		c.fail("analysable", "cryptobyte.Builder", pkg, "the type does not exist")
		return
	}
	for _, fixed := range []bool{false, true} {
		p := "builder"
		if fixed {
			p = "fixed builder"
		}
		for _, u := range []struct {
			name string
			n, w int
		}{{"AddUint8", 1, 8}, {"AddUint16", 2, 16}, {"AddUint24", 3, 32}, {"AddUint32", 4, 32}} {
			v := SymW("v", u.w)
			x.do(bcase{rule: "append", what: p + ": " + u.name, fixed: fixed,
				steps: func(st *State) []bstep { return []bstep{{u.name, []Value{v}}} },
				want: func(F *Facts) *Term {
					var ps []*Term
					for k := u.n - 1; k >= 0; k-- {
						ps = append(ps, Elem(ByteAt(v, k)))
					}
					return MkSeq(ps...)
				}})
		}
		n := LenOf(Sym("data"))
		lim := in(n, 0, 1<<40)
		x.do(bcase{rule: "append", what: p + ": AddBytes", fixed: fixed, assume: lim,
			steps: func(st *State) []bstep { d, _ := x.data(st, "data", n); return []bstep{{"AddBytes", []Value{d}}} },
			want:  func(F *Facts) *Term { return SubBase(Sym("data"), C(0), n) }})
		m := LenOf(Sym("more"))
		x.do(bcase{rule: "append", what: p + ": AddBytes twice", fixed: fixed, assume: append(in(m, 0, 1<<40), lim...),
			steps: func(st *State) []bstep {
				d, _ := x.data(st, "data", n)
				q, _ := x.data(st, "more", m)
				return []bstep{{"AddBytes", []Value{d}}, {"AddBytes", []Value{q}}}
			},
			want: func(F *Facts) *Term {
				return MkSeq(SubBase(Sym("data"), C(0), n), SubBase(Sym("more"), C(0), m))
			}})
		x.do(bcase{rule: "append", what: p + ": AddValue", fixed: fixed, assume: lim,
			steps: func(st *State) []bstep {
				d, _ := x.data(st, "data", n)
				x.marsh = func(cc *callCtx, b Value) []*Result {
					rs := x.op("AddBytes", d)(cc, b)
					for _, r := range rs {
						r.vals = []Value{nilIface}
					}
					return rs
				}
				return []bstep{{"AddValue", []Value{&Iface{t: Sym("value"), nilT: TFalse}}}}
			},
			want: func(F *Facts) *Term { return SubBase(Sym("data"), C(0), n) }})
		x.prefixed(p, fixed)
		x.elements(p, fixed)
	}
	x.sticky(named)
	x.panics(named)
}

// prefixed: the four operations with a prefix of fixed width.
func (x *bldCtx) prefixed(p string, fixed bool) {
	n := LenOf(Sym("data"))
	for k := int64(1); k <= 4; k++ {
		name := fmt.Sprintf("AddUint%dLengthPrefixed", 8*k)
		max := int64(1)<<uint(8*k) - 1
		steps := func(st *State) []bstep {
			d, _ := x.data(st, "data", n)
			return []bstep{{name, []Value{x.cont("data", x.op("AddBytes", d))}}}
		}
		want := func(F *Facts) *Term { return MkSeq(BE(n, C(k)), SubBase(Sym("data"), C(0), n)) }
		x.do(bcase{rule: "prefix", what: p + ": " + name, fixed: fixed, assume: in(n, 0, max), steps: steps, want: want})
		x.do(bcase{rule: "prefix", what: p + ": " + name + " of too much", fixed: fixed, assume: in(n, max+1, 1<<40), steps: steps, refuse: true})
		if fixed {
			continue
		}
		// nothing, two pieces, after another one, and one inside another
		x.do(bcase{rule: "prefix", what: p + ": " + name + " of nothing", steps: func(st *State) []bstep {
			return []bstep{{name, []Value{x.cont("none", x.ops())}}}
		}, want: func(F *Facts) *Term { return BE(C(0), C(k)) }})
		m := LenOf(Sym("more"))
		x.do(bcase{rule: "prefix", what: p + ": " + name + " of two pieces, twice", assume: append(in(n, 0, 100), in(m, 0, 100)...),
			steps: func(st *State) []bstep {
				d, _ := x.data(st, "data", n)
				q, _ := x.data(st, "more", m)
				one := bstep{name, []Value{x.cont("two", x.ops(x.op("AddBytes", d), x.op("AddBytes", q)))}}
				return []bstep{one, one}
			},
			want: func(F *Facts) *Term {
				v := MkSeq(BE(Add(n, m), C(k)), SubBase(Sym("data"), C(0), n), SubBase(Sym("more"), C(0), m))
				return MkSeq(v, v)
			}})
		for j := int64(1); j <= 4; j++ {
			inner := fmt.Sprintf("AddUint%dLengthPrefixed", 8*j)
			x.do(bcase{rule: "prefix", what: fmt.Sprintf("%s: %s in %s", p, inner, name), assume: append(in(n, 0, 100), in(m, 0, 100)...),
				steps: func(st *State) []bstep {
					d, _ := x.data(st, "data", n)
					q, _ := x.data(st, "more", m)
					c2 := x.cont("inner", x.op("AddBytes", d))
					return []bstep{{name, []Value{x.cont("outer", x.ops(x.op("AddBytes", q), x.op(inner, c2), x.op("AddUint8", SymW("v", 8))))}}}
				},
				want: func(F *Facts) *Term {
					v := MkSeq(SubBase(Sym("more"), C(0), m), BE(n, C(j)), SubBase(Sym("data"), C(0), n), Elem(SymW("v", 8)))
					return MkSeq(BE(SeqLen(v), C(k)), v)
				}})
			if j < k {
				big := int64(1) << uint(8*j)
				x.do(bcase{rule: "sticky", what: fmt.Sprintf("%s: too much for %s in %s", p, inner, name), assume: in(n, big, 1<<40),
					steps: func(st *State) []bstep {
						d, _ := x.data(st, "data", n)
						c2 := x.cont("inner", x.op("AddBytes", d))
						return []bstep{{name, []Value{x.cont("outer", x.ops(x.op(inner, c2), x.op("AddUint8", SymW("v", 8))))}}, {"AddUint8", []Value{SymW("v", 8)}}}
					}, refuse: true})
			}
		}
	}
}

// elements: DER elements with content of every length class.
func (x *bldCtx) elements(p string, fixed bool) {
	n := LenOf(Sym("data"))
	tag := SymW("tag", 8)
	low := Not(EQ0(Sub(BAnd(8, tag, C(0x1f)), C(0x1f))))
	steps := func(st *State) []bstep {
		d, _ := x.data(st, "data", n)
		return []bstep{{"AddASN1", []Value{tag, x.cont("data", x.op("AddBytes", d))}}}
	}
	for _, r := range derRanges {
		r := r
		x.do(bcase{rule: "prefix", what: fmt.Sprintf("%s: AddASN1 of %d..%d bytes", p, r[0], r[1]), fixed: fixed,
			assume: append(in(n, r[0], r[1]), low), steps: steps,
			want: func(F *Facts) *Term {
				return MkSeq(Elem(tag), derLenIn(n, big.NewInt(r[1])), SubBase(Sym("data"), C(0), n))
			}})
	}
	x.do(bcase{rule: "prefix", what: p + ": AddASN1 of too much", fixed: fixed, assume: append(in(n, 0xffffffff, 1<<40), low), steps: steps, refuse: true})
	x.do(bcase{rule: "prefix", what: p + ": AddASN1 with a high tag", fixed: fixed, assume: append(in(n, 0, 100), Not(low)), steps: steps, refuse: true})
	if fixed {
		return
	}
	m := LenOf(Sym("more"))
	for _, r := range [][2]int64{{0, 0x7f}, {0x80, 0xff}, {0x100, 0xe000}, {0x10000, 0xff0000}} {
		r := r
		x.do(bcase{rule: "prefix", what: fmt.Sprintf("%s: AddASN1 of %d..%d bytes in AddASN1, and another", p, r[0], r[1]),
			assume: append(append(in(n, r[0], r[1]), in(m, 0x100, 0x1000)...), low),
			steps: func(st *State) []bstep {
				d, _ := x.data(st, "data", n)
				q, _ := x.data(st, "more", m)
				c2 := x.cont("inner", x.op("AddBytes", d))
				return []bstep{{"AddASN1", []Value{C(0x30), x.cont("outer", x.ops(x.op("AddBytes", q), x.op("AddASN1", tag, c2), x.op("AddUint8", SymW("v", 8))))}}}
			},
			want: func(F *Facts) *Term {
				v := MkSeq(SubBase(Sym("more"), C(0), m), Elem(tag), derLenIn(n, big.NewInt(r[1])), SubBase(Sym("data"), C(0), n), Elem(SymW("v", 8)))
				l := SeqLen(v)
				h := int64(0xffff)
				if holds(F, Le(C(0x10000), l)) == 1 {
					h = 0xffffff
				}
				return MkSeq(Bytes("\x30"), derLenIn(l, big.NewInt(h)), v)
			}})
	}
}

// exported methods of the builder that change it.
func (x *bldCtx) mutators(named types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(named))
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if !o.Exported() || o.Type().(*types.Signature).Results().Len() > 0 {
			continue
		}
		if f := x.c.ld.fn(x.pkg, "(*Builder)."+o.Name()); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// anyArgs makes arguments of the parameter types.
func (x *bldCtx) anyArgs(st *State, f *ssa.Function) []Value {
	args := x.e.symArgs(f)[1:]
	for i, p := range f.Params[1:] {
		switch t := p.Type().Underlying().(type) {
		case *types.Signature:
			d, _ := x.data(st, "fdata", LenOf(Sym("fdata")))
			st.facts = st.facts.Assume(GE0(LenOf(Sym("fdata"))), true).Assume(Le(LenOf(Sym("fdata")), C(100)), true)
			args[i] = x.cont("any", x.op("AddBytes", d))
		case *types.Interface:
			if t.NumMethods() > 0 {
				args[i] = &Iface{t: Sym("value2"), nilT: TFalse}
			}
		}
	}
	return args
}

func (x *bldCtx) sticky(named types.Type) {
	c := x.c
	bad := func(cc *callCtx, b Value) []*Result {
		return []*Result{{st: cc.st, vals: []Value{x.e.newErr(cc.st, cc.site)}}}
	}
	// the first value's Marshal fails, those after succeed
	x.marsh = func(cc *callCtx, b Value) []*Result {
		if v, ok := cc.args[0].(*Iface); ok && v.t == Sym("value") {
			return bad(cc, b)
		}
		return []*Result{{st: cc.st, vals: []Value{nilIface}}}
	}
	val := &Iface{t: Sym("value"), nilT: TFalse}
	fs := x.mutators(named)
	c.ob("sticky", "operations found", "cryptobyte", len(fs) >= 15, fmt.Sprintf("only %d", len(fs)))
	for _, f := range fs {
		f := f
		x.do(bcase{rule: "sticky", what: "AddValue fails, then " + f.Name(), steps: func(st *State) []bstep {
			return []bstep{{"AddValue", []Value{val}}, {f.Name(), x.anyArgs(st, f)}}
		}, refuse: true})
		x.do(bcase{rule: "sticky", what: "high tag, then " + f.Name(), steps: func(st *State) []bstep {
			return []bstep{{"AddASN1", []Value{C(0x1f), x.cont("none", x.ops())}}, {f.Name(), x.anyArgs(st, f)}}
		}, refuse: true})
		for _, outer := range []string{"AddUint16LengthPrefixed", "AddASN1"} {
			outer := outer
			x.do(bcase{rule: "sticky", what: "in " + outer + ": AddValue fails, then " + f.Name(), steps: func(st *State) []bstep {
				a := []Value{x.cont("outer", x.ops(x.op("AddValue", val), x.op(f.Name(), x.anyArgs(st, f)...)))}
				if outer == "AddASN1" {
					a = append([]Value{C(0x30)}, a...)
				}
				return []bstep{{outer, a}, {"AddUint8", []Value{SymW("v", 8)}}}
			}, refuse: true})
		}
	}
	// BytesOrPanic returns exactly what Bytes returns
	if f := x.fnOf("sticky", "(*Builder).BytesOrPanic", 1); f != nil {
		x.orPanic(f, val)
	}
	x.errStores()
}

func (x *bldCtx) orPanic(f *ssa.Function, val Value) {
	c := x.c
	nb, av := x.fnOf("sticky", "NewBuilder", 1), x.fnOf("sticky", "(*Builder).AddValue", 2)
	if nb == nil || av == nil {
		return
	}
	st := x.e.newState()
	old := SubBase(Sym("buf"), C(0), LenOf(Sym("buf")))
	st.facts = st.facts.Assume(GE0(LenOf(Sym("buf"))), true)
	buf := x.slice(st, "buf", old)
	for _, r := range x.run(nb, []Value{buf}, st, "sticky", "BytesOrPanic") {
		for _, q := range x.run(f, r.vals[:1], r.st.clone(), "sticky", "BytesOrPanic without an error") {
			s, _ := q.vals[0].(*Slice)
			c.ob("sticky", "BytesOrPanic without an error", c.at(f), s != nil && same(q.st.facts, x.e.sliceSeq(q.st, s), old), "not the bytes")
		}
		for _, q := range x.run(av, []Value{r.vals[0], val}, r.st, "sticky", "BytesOrPanic") {
			x.e.resetRecords()
			rs := x.e.Run(f, r.vals[:1], q.st)
			c.ob("sticky", "BytesOrPanic after an error", c.at(f), len(rs) == 0, "it returns")
		}
	}
}

// errStores: what is stored to an error field of an existing builder is an
// error, or a value tested to be one.
func (x *bldCtx) errStores() {
	c := x.c
	for _, f := range c.ld.funcsOf(x.pkg) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isBuilderPtr(fa.X.Type()) || !isErrType(s.Val.Type()) {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				ok = x.isError(s.Val, b, map[ssa.Value]bool{})
				c.ob("sticky", "error stored in "+shortFn(f.String()), c.posOf(s.Pos()), ok, "the value stored may be nil and clear an error")
			}
		}
	}
}

func isBuilderPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Builder"
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (x *bldCtx) isError(v ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch y := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if g := y.Call.StaticCallee(); g != nil && (g.String() == "errors.New" || g.String() == "fmt.Errorf") {
			return true
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if !x.isError(e, at, seen) {
				return false
			}
		}
		return true
	case *ssa.Field:
		// the error a BuildError wraps
		if n, ok := y.X.Type().(*types.Named); ok && n.Obj().Name() == "BuildError" {
			return true
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok {
			if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "BuildError" {
					return true
				}
			}
		}
	}
	// tested against nil on every way here
	for d := at; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		op, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (op.Op != token.NEQ && op.Op != token.EQL) {
			continue
		}
		a, b := op.X, op.Y
		if k, ok := a.(*ssa.Const); ok && k.IsNil() {
			a, b = b, a
		}
		if k, ok := b.(*ssa.Const); !ok || !k.IsNil() || !sameLoad(a, v) {
			continue
		}
		to := id.Succs[0]
		if op.Op == token.EQL {
			to = id.Succs[1]
		}
		if len(to.Preds) == 1 && to.Dominates(at) {
			return true
		}
	}
	return false
}

// sameLoad: the same value, or the same field of the same builder loaded twice.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.X == g.X && f.Field == g.Field
}

// panics of continuations
func (x *bldCtx) panics(named types.Type) {
	c := x.c
	be := c.ld.typ(x.pkg, "BuildError")
	if be == nil {
		c.fail("analysable", "cryptobyte.BuildError", x.pkg, "the type does not exist")
		return
	}
	throw := func(build bool) func(cc *callCtx, child Value) []*Result {
		return func(cc *callCtx, child Value) []*Result {
			var v Value = &Iface{typ: types.Typ[types.Int], val: Sym("somepanic"), nilT: TFalse}
			if build {
				er := x.e.newErr(cc.st, cc.site)
				_ = er
				v = &Iface{typ: be, nilT: TFalse, val: &StructV{typ: be, f: []Value{er}}}
			}
			return []*Result{{st: cc.st, pan: v}}
		}
	}
	for _, outer := range []string{"AddUint16LengthPrefixed", "AddASN1"} {
		outer := outer
		arg := func(v Value) []Value {
			if outer == "AddASN1" {
				return []Value{C(0x30), v}
			}
			return []Value{v}
		}
		x.do(bcase{rule: "panic", what: "BuildError in " + outer, steps: func(st *State) []bstep {
			return []bstep{{outer, arg(x.cont("throw", throw(true)))}, {"AddUint8", []Value{SymW("v", 8)}}}
		}, refuse: true})
		x.do(bcase{rule: "panic", what: "BuildError nested in " + outer, steps: func(st *State) []bstep {
			c2 := x.cont("throw", throw(true))
			return []bstep{{outer, arg(x.cont("outer", x.ops(x.op("AddUint8", SymW("v", 8)), x.op("AddUint8LengthPrefixed", c2))))}, {"AddUint8", []Value{SymW("v", 8)}}}
		}, refuse: true})
		x.do(bcase{rule: "panic", what: "BuildError in " + outer + " after another", steps: func(st *State) []bstep {
			return []bstep{{outer, arg(x.cont("none", x.ops()))}, {outer, arg(x.cont("throw", throw(true)))}}
		}, refuse: true})
		x.foreign(outer, arg(x.cont("foreign", throw(false))), throw(false))
	}
}

// foreign: other panics leave the operation with the same value.
func (x *bldCtx) foreign(outer string, args []Value, throw func(cc *callCtx, child Value) []*Result) {
	c := x.c
	nb, f := x.fnOf("panic", "NewBuilder", 1), x.fnOf("panic", "(*Builder)."+outer, len(args)+1)
	if nb == nil || f == nil {
		return
	}
	st := x.e.newState()
	old := SubBase(Sym("buf"), C(0), LenOf(Sym("buf")))
	st.facts = st.facts.Assume(GE0(LenOf(Sym("buf"))), true).Assume(Le(LenOf(Sym("buf")), CB(pow2(40))), true)
	n := 0
	for _, r := range x.run(nb, []Value{x.slice(st, "buf", old)}, st, "panic", "another panic in "+outer) {
		for _, q := range x.run(f, append([]Value{r.vals[0]}, args...), r.st, "panic", "another panic in "+outer) {
			n++
			p, _ := q.pan.(*Iface)
			c.ob("panic", "another panic in "+outer, c.at(f), p != nil && p.val == Value(Sym("somepanic")), "it does not leave with the same value")
		}
	}
	c.ob("panic", "another panic in "+outer+": reachable", c.at(f), n > 0, "no path")
}

func init() {
	addCheck("C30", "other", absInt, checkBuilder)
}

// byteForm: an element is byte k of a value.
func byteForm(t *Term) (base *Term, k int) {
	base = t
	for {
		switch {
		case base.op == "byteat" && k == 0:
			n := 0
			fmt.Sscan(base.s, &n)
			k, base = n, base.args[0]
		case base.op == "fdiv" && len(base.args) == 2 && base.args[1].isC() && base.args[1].c.BitLen()%8 == 1 && base.args[1].c.TrailingZeroBits() == uint(base.args[1].c.BitLen()-1):
			k += (base.args[1].c.BitLen() - 1) / 8
			base = base.args[0]
		default:
			if k == 0 {
				if x := modOf(base, 256); x != nil {
					base = x
					continue
				}
			}
			return
		}
	}
}

// modOf: x where t is x - m*floor(x/m).
func modOf(t *Term, m int64) *Term {
	if t.op != "poly" {
		return nil
	}
	var x *Term
	walkTerm(t, map[*Term]bool{}, func(u *Term) {
		if x == nil && u.op == "fdiv" && u.args[1].isCi(m) && Sub(u.args[0], MulI(u, m)) == t {
			x = u.args[0]
		}
	})
	return x
}

// explode splits a sequence into single bytes where it can.
func explode(s *Term) []*Term {
	ps := []*Term{s}
	if s.op == "seq" {
		ps = s.args
	}
	var out []*Term
	for _, p := range ps {
		switch {
		case p.op == "bytes":
			for i := 0; i < len(p.s); i++ {
				out = append(out, Elem(C(int64(p.s[i]))))
			}
			continue
		case p.op == "be":
			if n, ok := p.args[1].i64(); ok && n <= 16 {
				for i := int(n) - 1; i >= 0; i-- {
					out = append(out, rawOp("elem", "", 0, ByteAt(p.args[0], i)))
				}
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// sameBytes: sameX, and byte by byte where values are cut in different ways.
func sameBytes(F *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if sameX(F, a, b) {
		return true
	}
	p, q := explode(normSeq(F, a)), explode(normSeq(F, b))
	if len(p) != len(q) {
		return false
	}
	eq := func(u, v *Term) bool { return u == v || holds(F, EQ0(Sub(u, v))) == 1 }
	small := func(u *Term, k int) bool { // byte k is zero
		return holds(F, GE0(u)) == 1 && holds(F, Le(Add(u, C(1)), CB(pow2(8*k)))) == 1
	}
	for i := range p {
		if p[i] == q[i] || sameX(F, p[i], q[i]) {
			continue
		}
		var u, v *Term
		if u, v = oneByte(p[i]), oneByte(q[i]); u == nil || v == nil {
			return false
		}
		if eq(u, v) {
			continue
		}
		ub, uk := byteForm(u)
		vb, vk := byteForm(v)
		if uk == vk && eq(ub, vb) || u.isCi(0) && small(vb, vk) || v.isCi(0) && small(ub, uk) {
			continue
		}
		if f, x, k, ok := sevenBits(F, u); ok {
			if g, y, l, ok := sevenBits(F, v); ok && f == g && k == l && eq(x, y) {
				continue
			}
		}
		return false
	}
	return true
}

// sevenBits: a byte is a flag and the low seven bits of floor(base/2^k).
func sevenBits(F *Facts, t *Term) (flag bool, base *Term, k int, ok bool) {
	base = t
	if t.op == "anf" && t.w == 8 && len(t.anf) <= 2 {
		base = nil
		for _, m := range t.anf {
			switch {
			case len(m.f) == 0 && m.mask == 0x80 && !flag:
				flag = true
			case len(m.f) == 1 && m.f[0].r == 0 && m.mask == 0x7f && base == nil:
				base = m.f[0].t
			default:
				return
			}
		}
		if base == nil {
			return
		}
	} else if holds(F, Le(t, C(127))) != 1 {
		if holds(F, Le(C(128), t)) != 1 {
			return
		}
		flag, base = true, Sub(t, C(128))
	}
	for {
		switch {
		case base.op == "byteat" && base.s == "0" && k == 0:
			base = base.args[0]
			continue
		case base.op == "fdiv" && base.args[1].isC() && base.args[1].c.TrailingZeroBits() == uint(base.args[1].c.BitLen()-1):
			k += base.args[1].c.BitLen() - 1
			base = base.args[0]
			continue
		}
		if x := modOf(base, 128); x != nil && k == 0 {
			base = x
			continue
		}
		return flag, base, k, true
	}
}

func oneByte(p *Term) *Term {
	switch {
	case p.op == "elem":
		return p.args[0]
	case p.op == "bytes" && len(p.s) == 1:
		return C(int64(p.s[0]))
	}
	return nil
}
