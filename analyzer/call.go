package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fr   *frame
	st   *State
	ins  ssa.Instruction
	args []Value
	sig  *types.Signature // without receiver
	recv types.Type       // receiver type for methods (first argument)
	name string
	site string
	pos  token.Pos
}

type modelFn func(e *Engine, c *callCtx) []*Result

func (c *callCtx) ret(vals ...Value) []*Result { return []*Result{{st: c.st, vals: vals}} }
func (c *callCtx) fork() *State {
	s := c.st
	return s.clone()
}

func (c *callCtx) slice(i int) *Slice {
	if s, ok := c.args[i].(*Slice); ok {
		return s
	}
	return &Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}
}
func (c *callCtx) ptr(i int) *Ptr {
	if p, ok := c.args[i].(*Ptr); ok {
		return p
	}
	return &Ptr{nilT: TTrue}
}
func (c *callCtx) term(i int) *Term {
	if t, ok := c.args[i].(*Term); ok {
		return t
	}
	return Sym("?arg")
}

// err is a fresh non-nil error value.
func (e *Engine) newErr(st *State, site string) *Iface {
	return &Iface{t: e.freshTerm(st, "err@"+site, 0), nilT: TFalse}
}

var nilIface = &Iface{nilT: TTrue}

func (e *Engine) call(fr *frame, fs *FS, cc *ssa.CallCommon, ins ssa.Instruction) []*Result {
	st := fs.st
	site := e.site(fr, ins)
	var args []Value
	for _, a := range cc.Args {
		args = append(args, e.val(fs, a))
	}
	c := &callCtx{fr: fr, st: st, ins: ins, args: args, sig: cc.Signature(), site: site, pos: cc.Pos()}
	if cc.IsInvoke() {
		recv := e.val(fs, cc.Value)
		iv, ok := recv.(*Iface)
		if !ok {
			e.unsupported("invoke on %T", recv)
			return nil
		}
		if iv.nilT == TTrue {
			e.recObl("nil interface", cc.Pos(), false, "method call on a nil interface", st.facts)
			return nil
		}
		if iv.nilT != TFalse && !e.oblige(st, "nil interface", Not(iv.nilT), cc.Pos()) {
			return nil
		}
		if iv.typ != nil {
			fn := e.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name())
			if fn == nil {
				e.unsupported("no method %s on %s", cc.Method.Name(), iv.typ)
				return nil
			}
			c.args = append([]Value{iv.val}, args...)
			c.recv = iv.typ
			return e.callFunc(c, fn, nil)
		}
		c.args = append([]Value{iv}, args...)
		c.recv = cc.Value.Type()
		c.name = "invoke." + typeStr(cc.Value.Type()) + "." + cc.Method.Name()
		if m := e.findModel(c.name); m != nil {
			return m(e, c)
		}
		return e.external(c, false)
	}
	switch v := e.val(fs, cc.Value).(type) {
	case *Builtin:
		return e.builtin(c, v.name, cc)
	case *Closure:
		if v.fn != nil {
			return e.callFunc(c, v.fn, v.binds)
		}
		if v.nilT != TFalse {
			if v.nilT == TTrue || !e.oblige(st, "nil function", Not(v.nilT), cc.Pos()) {
				return nil
			}
		}
		c.name = "dynamic"
		if m := e.findModel("dynamic"); m != nil {
			c.args = append([]Value{v}, args...)
			return m(e, c)
		}
		e.unsupported("call of unknown function value")
		return e.external(c, false)
	}
	e.unsupported("call of %T", e.val(fs, cc.Value))
	return nil
}

func (e *Engine) findModel(name string) modelFn {
	if e.hookFn != nil {
		if m := e.hookFn(name); m != nil {
			return m
		}
	}
	return e.models[name]
}

func (e *Engine) callFunc(c *callCtx, fn *ssa.Function, binds []Value) []*Result {
	c.name = fn.String()
	if o := fn.Origin(); o != nil {
		c.name = o.String()
	}
	if m := e.findModel(c.name); m != nil {
		return m(e, c)
	}
	if len(fn.Blocks) > 0 {
		if len(fn.Name()) > 0 && e.recursive(fn) {
			e.unsupported("recursion through %s", fn)
			return e.external(c, false)
		}
		return e.callFn(fn, c.args, binds, c.st, c.site)
	}
	if fn.Signature.Recv() != nil {
		c.recv = fn.Signature.Recv().Type()
	}
	c.sig = fn.Signature
	return e.external(c, true)
}

func (e *Engine) recursive(fn *ssa.Function) bool {
	n := 0
	for _, f := range e.stack {
		if f.fn == fn {
			n++
		}
	}
	return n > 6
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// external: unknown function; pure in its arguments when pure is set.
// Every error result forks into success and failure.
func (e *Engine) external(c *callCtx, pure bool) []*Result {
	if e.tent == 0 {
		e.unkExt[c.name]++
	}
	var at []*Term
	for i, a := range c.args {
		var t types.Type = types.Typ[types.Int]
		k := i
		if c.recv != nil && len(c.args) == c.sig.Params().Len()+1 {
			k = i - 1
		}
		if k >= 0 && k < c.sig.Params().Len() {
			t = c.sig.Params().At(k).Type()
		} else if k < 0 {
			t = c.recv
		}
		at = append(at, e.reify(c.st, a, t))
	}
	res := c.sig.Results()
	hasErr := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
	mkv := func(st *State, i int) Value {
		t := res.At(i).Type()
		var b *Term
		if pure {
			b = rawOp("ext", fmt.Sprintf("%s.%d", c.name, i), uwidth(t), at...)
		} else {
			b = e.freshTerm(st, fmt.Sprintf("call:%s.%d@%s", c.name, i, c.site), uwidth(t))
		}
		return e.fromTerm(b, t)
	}
	if !hasErr {
		var vs []Value
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, mkv(c.st, i))
		}
		return c.ret(vs...)
	}
	bad := c.fork()
	lit := rawOp("extok", c.name, 0, at...)
	if !pure {
		lit = e.freshTerm(c.st, "ok:"+c.name+"@"+c.site, 0)
		bad.gen = c.st.gen
	}
	c.st.facts = c.st.facts.Assume(lit, true)
	bad.facts = bad.facts.Assume(lit, false)
	var gv, bv []Value
	for i := 0; i < res.Len()-1; i++ {
		v := mkv(c.st, i)
		gv = append(gv, v)
		bv = append(bv, v)
	}
	gv = append(gv, nilIface)
	bv = append(bv, e.newErr(bad, c.site))
	var out []*Result
	if !c.st.facts.bot {
		out = append(out, &Result{st: c.st, vals: gv})
	}
	if !bad.facts.bot {
		out = append(out, &Result{st: bad, vals: bv})
	}
	return out
}

func (e *Engine) builtin(c *callCtx, name string, cc *ssa.CallCommon) []*Result {
	st := c.st
	switch name {
	case "len":
		switch x := c.args[0].(type) {
		case *Slice:
			return c.ret(x.len)
		case *Term:
			return c.ret(SeqLen(x))
		case *ArrV:
			return c.ret(C(x.typ.Len()))
		case *Ptr:
			a := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return c.ret(C(a.Len()))
		case *MapV:
			return c.ret(LenOf(x.t))
		}
	case "cap":
		switch x := c.args[0].(type) {
		case *Slice:
			return c.ret(x.cap)
		case *ArrV:
			return c.ret(C(x.typ.Len()))
		case *Ptr:
			a := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return c.ret(C(a.Len()))
		}
	case "append":
		return e.appendB(c, cc)
	case "copy":
		return e.copyB(c)
	case "min", "max":
		if len(c.args) == 2 {
			a, b := c.term(0), c.term(1)
			cond := Le(a, b)
			if name == "max" {
				cond = Le(b, a)
			}
			switch st.facts.Eval(cond) {
			case 1:
				return c.ret(a)
			case -1:
				return c.ret(b)
			}
			g := c.fork()
			st.facts = st.facts.Assume(cond, true)
			g.facts = g.facts.Assume(cond, false)
			return []*Result{{st: st, vals: []Value{a}}, {st: g, vals: []Value{b}}}
		}
	case "panic":
		e.recObl("panic", c.pos, false, "explicit panic reachable", st.facts)
		return nil
	case "recover":
		if n := len(e.recov); n > 0 && !e.recov[n-1].done && e.recov[n-1].depth == len(e.stack) {
			e.recov[n-1].done = true
			return c.ret(e.recov[n-1].val)
		}
		// non-panicking run
		return c.ret(nilIface)
	case "print", "println":
		if e.tent == 0 {
			e.unkExt["builtin."+name]++
		}
		return c.ret()
	case "delete":
		e.mapForget(st, c.args[0])
		if m, ok := c.args[0].(*MapV); ok && rootOf(m.t) != "" {
			e.noteWrite(st, &Obj{root: rootOf(m.t), key: m.t.String()}, "map delete")
		}
		return c.ret()
	case "clear":
		e.mapForget(st, c.args[0])
		if s, ok := c.args[0].(*Slice); ok && s.obj != nil {
			e.noteWrite(st, s.obj, "clear")
			e.writeRange(st, s.obj, s.path, s.off, e.zeroSeq(elemType(cc.Args[0].Type()), s.len))
			return c.ret()
		}
	case "ssa:wrapnilchk":
		if p, ok := c.args[0].(*Ptr); ok && !e.checkNil(st, p, c.pos) {
			return nil
		}
		return c.ret(c.args[0])
	}
	e.unsupported("builtin %s", name)
	if cc.Signature().Results().Len() > 0 {
		t := cc.Signature().Results().At(0).Type()
		return c.ret(e.fromTerm(e.freshTerm(st, c.site, uwidth(t)), t))
	}
	return c.ret()
}

func (e *Engine) appendB(c *callCtx, cc *ssa.CallCommon) []*Result {
	st := c.st
	s := c.slice(0)
	typ := cc.Args[0].Type()
	var add *Term
	switch x := c.args[1].(type) {
	case *Slice:
		add = e.sliceSeq(st, x)
	case *Term:
		add = x
	default:
		e.unsupported("append of %T", x)
		return nil
	}
	return c.ret(e.appendSeq(c, s, typ, add))
}

// appendSeq: append(s, add...) for a slice of type typ.
func (e *Engine) appendSeq(c *callCtx, s *Slice, typ types.Type, add *Term) *Slice {
	st := c.st
	n := SeqLen(add)
	if n.isCi(0) || st.facts.Eval(Le(n, C(0))) == 1 {
		return s
	}
	spare := Sub(s.cap, s.len)
	if s.obj != nil && s.obj.root != "" && st.facts.Eval(Le(spare, C(0))) != 1 {
		e.noteWrite(st, s.obj, "append into spare capacity")
	}
	inPlace := s.obj != nil && !spare.isCi(0) && st.facts.Eval(Le(n, spare)) == 1
	if inPlace {
		// provably fits: written in place
		e.writeEvent(st, "append", s.obj, Add(s.off, s.len), add)
		e.writeRange(st, s.obj, s.path, Add(s.off, s.len), add)
		return &Slice{obj: s.obj, path: s.path, off: s.off, len: Add(s.len, n), cap: s.cap, nilT: TFalse}
	}
	old := e.sliceSeq(st, s)
	r := e.allocSeq(st, c.site, typ, mkSeqF(st.facts, old, add))
	r.cap = r.len
	if r.len != Add(s.len, n) {
		r.len = Add(s.len, n)
		r.cap = r.len
	}
	if k := st.facts.Eval(Le(n, C(0))); k == 0 {
		r.nilT = rawOp("isnil", "app"+c.site, 0, r.len)
	}
	if e.appendKeep(s, spare, st) {
		// the result may share the old backing store: remember it for
		// write tracking
		r.obj.root = ""
	}
	return r
}

func (e *Engine) appendKeep(s *Slice, spare *Term, st *State) bool { return false }

func (e *Engine) copyB(c *callCtx) []*Result {
	d := c.slice(0)
	var src *Term
	var sl *Term
	switch x := c.args[1].(type) {
	case *Slice:
		sl = x.len
		src = nil
		do := func(st *State, n *Term) {
			if d.obj == nil || x.obj == nil || n.isCi(0) {
				return
			}
			v := subSeqOr(st.facts, e.content(st, x.obj, x.path), x.off, n)
			e.noteWrite(st, d.obj, "copy")
			e.writeEvent(st, "copy", d.obj, d.off, v)
			e.writeRange(st, d.obj, d.path, d.off, v)
		}
		return e.copyN(c, d, sl, do)
	case *Term:
		src = x
		sl = SeqLen(x)
		do := func(st *State, n *Term) {
			if d.obj == nil || n.isCi(0) {
				return
			}
			v := subSeqOr(st.facts, src, C(0), n)
			e.noteWrite(st, d.obj, "copy")
			e.writeRange(st, d.obj, d.path, d.off, v)
		}
		return e.copyN(c, d, sl, do)
	}
	e.unsupported("copy from %T", c.args[1])
	return c.ret(C(0))
}

func (e *Engine) copyN(c *callCtx, d *Slice, sl *Term, do func(*State, *Term)) []*Result {
	st := c.st
	cond := Le(sl, d.len)
	if d.len == sl {
		do(st, sl)
		return c.ret(sl)
	}
	switch st.facts.Eval(cond) {
	case 1:
		do(st, sl)
		return c.ret(sl)
	case -1:
		do(st, d.len)
		return c.ret(d.len)
	}
	if st.facts.Eval(Le(d.len, sl)) == 1 {
		do(st, d.len)
		return c.ret(d.len)
	}
	g := c.fork()
	st.facts = st.facts.Assume(cond, true)
	g.facts = g.facts.Assume(cond, false)
	do(st, sl)
	do(g, d.len)
	return []*Result{{st: st, vals: []Value{sl}}, {st: g, vals: []Value{d.len}}}
}

// ---- helpers for models ------------------------------------------------------

func (e *Engine) bytesOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Slice:
		return e.sliceSeq(st, x)
	case *Term:
		return x
	case *ArrV:
		return x.seq
	}
	return Sym("?bytes")
}

func lastPart(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}
