package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const absPath = ".abs"

// hashInfo names what the sm3 package exports as a hash.
type hashInfo struct {
	newFn *ssa.Function
	typ   types.Type // dynamic type of the hash.Hash New returns (a pointer)
	elem  types.Type
	sum   *ssa.Function
	meth  map[string]*ssa.Function
}

// findHash locates the concrete hash type: the one type the sm3 package
// converts to hash.Hash.
func findHash(ld *Loader) *hashInfo {
	p := ld.pkg("sm3")
	if p == nil {
		return nil
	}
	h := &hashInfo{newFn: p.ssa.Func("New"), sum: p.ssa.Func("Sum"), meth: map[string]*ssa.Function{}}
	if h.newFn == nil {
		return nil
	}
	for _, f := range ld.allFuncs() {
		if f.Pkg != p.ssa {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mi, ok := ins.(*ssa.MakeInterface); ok && namedIs(mi.Type(), "hash", "Hash") {
					if h.typ != nil && !types.Identical(h.typ, mi.X.Type()) {
						return nil
					}
					h.typ = mi.X.Type()
				}
			}
		}
	}
	pt, ok := h.typ.(*types.Pointer)
	if !ok {
		return nil
	}
	h.elem = pt.Elem()
	for _, n := range []string{"Write", "Sum", "Reset", "Size", "BlockSize"} {
		if m := ld.prog.LookupMethod(h.typ, p.types, n); m != nil {
			h.meth[n] = m
		} else {
			return nil
		}
	}
	return h
}

// useHashModel replaces the sm3 package by its specification: the digest of
// the concatenation of everything written.  C12 to C15 establish it.
func (e *Engine) useHashModel() bool {
	h := findHash(e.ld)
	if h == nil {
		return false
	}
	byteSlice := types.NewSlice(types.Typ[types.Uint8])
	str := types.Typ[types.String]
	abs := func(st *State, p *Ptr) *Term {
		if v, ok := st.mem[cell{p.obj, absPath}]; ok {
			return v.v.(*Term)
		}
		if p.obj.sym != nil {
			b := rawOp("absorbed", "", 0, p.obj.sym)
			return SubBase(b, C(0), LenOf(b))
		}
		return EmptySeq
	}
	set := func(st *State, p *Ptr, t *Term) { st.mem[cell{p.obj, absPath}] = cellV{t, str} }
	M := map[string]modelFn{}
	M[h.newFn.String()] = func(e *Engine, c *callCtx) []*Result {
		o := e.alloc(c.st, c.site, h.elem)
		p := &Ptr{obj: o, nilT: TFalse}
		set(c.st, p, EmptySeq)
		return c.ret(&Iface{typ: h.typ, val: p, nilT: TFalse})
	}
	recv := func(c *callCtx) *Ptr {
		p, ok := c.args[0].(*Ptr)
		if !ok || p.obj == nil {
			e.unsupported("hash receiver")
			return nil
		}
		return p
	}
	M[h.meth["Write"].String()] = func(e *Engine, c *callCtx) []*Result {
		p := recv(c)
		if p == nil {
			return nil
		}
		d := e.bytesOf(c.st, c.args[1])
		e.noteWrite(c.st, p.obj, "hash write")
		set(c.st, p, mkSeqF(c.st.facts, abs(c.st, p), d))
		return c.ret(SeqLen(d), nilIface)
	}
	M[h.meth["Reset"].String()] = func(e *Engine, c *callCtx) []*Result {
		p := recv(c)
		if p == nil {
			return nil
		}
		e.noteWrite(c.st, p.obj, "hash reset")
		set(c.st, p, EmptySeq)
		return c.ret()
	}
	M[h.meth["Size"].String()] = func(e *Engine, c *callCtx) []*Result { return c.ret(C(32)) }
	M[h.meth["BlockSize"].String()] = func(e *Engine, c *callCtx) []*Result { return c.ret(C(64)) }
	M[h.meth["Sum"].String()] = func(e *Engine, c *callCtx) []*Result {
		p := recv(c)
		if p == nil {
			return nil
		}
		in := e.sliceSeq(c.st, c.slice(1))
		out := mkSeqF(c.st.facts, in, sm3Of(abs(c.st, p)))
		s := e.allocSeq(c.st, c.site, byteSlice, out)
		return c.ret(s)
	}
	if h.sum != nil {
		M[h.sum.String()] = func(e *Engine, c *callCtx) []*Result {
			at, _ := h.sum.Signature.Results().At(0).Type().Underlying().(*types.Array)
			if at == nil {
				e.unsupported("sm3.Sum result")
				return nil
			}
			return c.ret(&ArrV{at, sm3Of(e.bytesOf(c.st, c.args[0]))})
		}
	}
	for k, v := range M {
		e.models[k] = v
	}
	prev := e.special
	e.special = func(t *Term, typ types.Type) Value {
		if namedIs(typ, "hash", "Hash") {
			o := e.objOf("hash:"+t.key(), h.elem)
			o.sym = t
			o.root = rootOf(t)
			return &Iface{typ: h.typ, val: &Ptr{obj: o, nilT: TFalse}, nilT: TFalse}
		}
		if prev != nil {
			return prev(t, typ)
		}
		return nil
	}
	return true
}
