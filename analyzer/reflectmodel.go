package main

// The parts of package reflect needed for values whose dynamic type is known.

import (
	"go/token"
	"go/types"
	"math/big"
)

var reflectKinds = map[types.BasicKind]int64{
	types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
	types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26,
}

func rkind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return reflectKinds[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (e *Engine) rtype(t types.Type) *Iface {
	s := rawOp("rtype", types.TypeString(t, nil), 0)
	if e.rtypes == nil {
		e.rtypes = map[*Term]types.Type{}
	}
	e.rtypes[s] = t
	return &Iface{t: s, nilT: TFalse}
}

// rval is a reflect.Value: the interface it was made from and whether it is
// the thing pointed to.
func rval(c *callCtx, iv *Iface, elem int64) *StructV {
	return &StructV{typ: c.sig.Results().At(0).Type(), f: []Value{iv, C(0), C(elem)}}
}

func rvalOf(v Value) (iv *Iface, t types.Type, elem bool) {
	sv, ok := v.(*StructV)
	if !ok || len(sv.f) != 3 {
		return
	}
	iv, ok = sv.f[0].(*Iface)
	k, ok2 := sv.f[2].(*Term)
	if !ok || !ok2 || iv.typ == nil || !k.isC() {
		return nil, nil, false
	}
	if k.isCi(1) {
		p, ok := iv.typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, nil, false
		}
		return iv, p.Elem(), true
	}
	return iv, iv.typ, false
}

func (e *Engine) reflectModels(M map[string]modelFn) {
	M["reflect.TypeOf"] = func(e *Engine, c *callCtx) []*Result {
		iv, ok := c.args[0].(*Iface)
		if !ok || iv.typ == nil {
			return e.external(c, true)
		}
		return c.ret(e.rtype(iv.typ))
	}
	M["invoke.reflect.Type.Kind"] = func(e *Engine, c *callCtx) []*Result {
		iv, _ := c.args[0].(*Iface)
		if iv == nil || iv.t == nil || e.rtypes[iv.t] == nil {
			return e.external(c, true)
		}
		return c.ret(C(rkind(e.rtypes[iv.t])))
	}
	M["invoke.reflect.Type.Elem"] = func(e *Engine, c *callCtx) []*Result {
		iv, _ := c.args[0].(*Iface)
		if iv == nil || iv.t == nil || e.rtypes[iv.t] == nil {
			return e.external(c, true)
		}
		switch u := e.rtypes[iv.t].Underlying().(type) {
		case *types.Pointer:
			return c.ret(e.rtype(u.Elem()))
		case *types.Slice:
			return c.ret(e.rtype(u.Elem()))
		case *types.Array:
			return c.ret(e.rtype(u.Elem()))
		}
		e.recObl("reflect: Elem of a type without elements", c.pos, false, "", c.st.facts)
		return nil
	}
	M["reflect.ValueOf"] = func(e *Engine, c *callCtx) []*Result {
		iv, ok := c.args[0].(*Iface)
		if !ok || iv.typ == nil {
			return e.external(c, true)
		}
		return c.ret(rval(c, iv, 0))
	}
	elem := func(e *Engine, c *callCtx) []*Result {
		iv, t, el := rvalOf(c.args[0])
		if iv == nil || el {
			return e.external(c, true)
		}
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			e.recObl("reflect: Elem of a value that is no pointer", c.pos, false, "", c.st.facts)
			return nil
		}
		return c.ret(rval(c, iv, 1))
	}
	M["(reflect.Value).Elem"] = elem
	M["reflect.Indirect"] = elem
	M["(reflect.Value).Kind"] = func(e *Engine, c *callCtx) []*Result {
		iv, t, _ := rvalOf(c.args[0])
		if iv == nil {
			return e.external(c, true)
		}
		return c.ret(C(rkind(t)))
	}
	M["(reflect.Value).Type"] = func(e *Engine, c *callCtx) []*Result {
		iv, t, _ := rvalOf(c.args[0])
		if iv == nil {
			return e.external(c, true)
		}
		return c.ret(e.rtype(t))
	}
	over := func(e *Engine, c *callCtx) []*Result {
		iv, t, _ := rvalOf(c.args[0])
		if iv == nil || swidth(t) == 0 && uwidth(t) == 0 {
			return e.external(c, true)
		}
		lo, hi := intRange(t)
		v := c.term(1)
		return c.cases(GE0(Sub(v, CB(lo))), func(st *State) []Value {
			return []Value{Not(Le(v, CB(hi)))}
		}, func(st *State) []Value { return []Value{TTrue} })
	}
	M["(reflect.Value).OverflowInt"] = over
	M["(reflect.Value).OverflowUint"] = over
	set := func(e *Engine, c *callCtx) []*Result {
		iv, t, el := rvalOf(c.args[0])
		var p *Ptr
		if iv != nil {
			p, _ = iv.val.(*Ptr)
		}
		if p == nil || !el {
			return e.external(c, false)
		}
		if !e.checkNil(c.st, p, c.pos) {
			return nil
		}
		var from types.Type = types.Typ[types.Int64]
		if c.name == "(reflect.Value).SetUint" {
			from = types.Typ[types.Uint64]
		}
		wrong := (c.name == "(reflect.Value).SetUint") != (uwidth(t) > 0) || uwidth(t) == 0 && swidth(t) == 0
		if wrong {
			e.recObl("reflect: setter of another kind", c.pos, false, "", c.st.facts)
			return nil
		}
		e.storePtr(c.st, p, e.convInt(c.st, c.term(1), from, t), t, c.pos)
		return c.ret()
	}
	M["(reflect.Value).SetInt"] = set
	M["(reflect.Value).SetUint"] = set
	M["(reflect.Value).Set"] = func(e *Engine, c *callCtx) []*Result {
		iv, t, el := rvalOf(c.args[0])
		jv, u, jel := rvalOf(c.args[1])
		var p *Ptr
		if iv != nil {
			p, _ = iv.val.(*Ptr)
		}
		if p == nil || !el || jv == nil || jel {
			return e.external(c, false)
		}
		if !e.checkNil(c.st, p, c.pos) {
			return nil
		}
		if !types.AssignableTo(u, t) {
			e.recObl("reflect: Set with a value of another type", c.pos, false, "", c.st.facts)
			return nil
		}
		e.storePtr(c.st, p, jv.val, t, c.pos)
		return c.ret()
	}
}

func intRange(t types.Type) (lo, hi *big.Int) {
	if w := uwidth(t); w > 0 {
		return new(big.Int), new(big.Int).Sub(pow2(w), bigOne)
	}
	w := swidth(t)
	return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), bigOne)
}

// sWrap is signed arithmetic modulo 2^sw: exact when the facts tell how often
// the value wraps round.
func (e *Engine) sWrap(st *State, sw int, t *Term) *Term {
	m, h := pow2(sw), pow2(sw-1)
	if t.isC() {
		z := new(big.Int).Mod(t.c, m)
		if z.Cmp(h) >= 0 {
			z.Sub(z, m)
		}
		return CB(z)
	}
	lo, hi := st.facts.bounds(t, 0)
	if lo != nil && hi != nil {
		a := new(big.Int).Div(new(big.Int).Add(lo, h), m)
		b := new(big.Int).Div(new(big.Int).Add(hi, h), m)
		if a.Cmp(b) == 0 {
			return Sub(t, CB(a.Mul(a, m)))
		}
	}
	if st.facts.ProveGE0(Add(t, CB(h))) && st.facts.ProveGE0(Sub(CB(new(big.Int).Sub(h, bigOne)), t)) {
		return t
	}
	return nil
}

var _ = token.NoPos
