package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// symArgs: one symbolic argument per parameter.
func (e *Engine) symArgs(fn *ssa.Function) []Value {
	var r []Value
	for _, p := range fn.Params {
		t := p.Type()
		w := uwidth(t)
		r = append(r, e.fromTerm(SymW("arg:"+p.Name(), w), t))
	}
	return r
}

// initPackages interprets the package initialisers; the resulting memory is
// the initial heap of every later run.
func (e *Engine) initPackages() {
	st := e.newState()
	for _, p := range e.ld.order {
		f := p.ssa.Func("init")
		if f == nil {
			continue
		}
		rs := e.Run(f, nil, st)
		if len(rs) != 1 {
			e.unsup["init of "+p.path+": paths"]++
			continue
		}
		st = rs[0].st
	}
	for c, v := range st.mem {
		e.base[c] = v
	}
	e.findCurve(st)
}

// findCurve locates the package-level curve object (the CurveParams pointer
// of the curve type declared in sm2) and makes every symbolic curve value
// stand for it.
func (e *Engine) findCurve(st *State) {
	p := e.ld.pkg("sm2")
	if p == nil {
		return
	}
	tn, ok := p.types.Scope().Lookup("P256V1Curve").(*types.TypeName)
	if !ok {
		return
	}
	ct := tn.Type()
	fn := e.ld.fn("sm2", "GetSm2P256V1")
	if fn == nil {
		return
	}
	rs := e.Run(fn, nil, e.newState())
	if len(rs) != 1 || len(rs[0].vals) != 1 {
		return
	}
	sv, ok := rs[0].vals[0].(*StructV)
	if !ok {
		return
	}
	e.curveVal = sv
	for _, f := range sv.f {
		if p, ok := f.(*Ptr); ok && p.obj != nil && namedIs(p.obj.typ, "crypto/elliptic", "CurveParams") {
			e.curveObj = p.obj
		}
	}
	e.special = func(t *Term, typ types.Type) Value {
		if types.Identical(typ, ct) {
			return e.curveVal
		}
		return nil
	}
}
