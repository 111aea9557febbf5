package main

// Reference flow: through which values memory of parameters and package
// variables can be reached, and where it is written.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aobj is an abstract piece of memory.
type aobj struct {
	id    string
	typ   types.Type // what is stored there; nil if unknown
	root  string     // "param F.p" or "global p.v", "" for memory allocated by the module
	deep  bool       // reached through pointers stored in the root
	opq   bool       // unknown inside: one location, loads give deepObj
	deepO *aobj
	init  bool // allocated by an initialiser
	heap  map[string]pset
}

type aloc struct {
	o *aobj
	p string // fields and elements below the object
}

type pset map[aloc]bool

type refFlow struct {
	ld      *Loader
	pts     map[ssa.Value]pset
	objs    map[string]*aobj
	full    map[ssa.Value]bool // slices without spare capacity
	impl    map[string][]*ssa.Function
	taken   map[string][]*ssa.Function // functions used as values by signature
	params  map[string]*ssa.Parameter  // by root
	globals map[string]*ssa.Global
	results map[*ssa.Function][]pset
	funcs   []*ssa.Function
	inits   map[*ssa.Function]bool
	writes  map[string]*refWrite
	changed bool
	local   localDefs
}

type refWrite struct {
	loc  aloc
	fn   *ssa.Function
	pos  token.Pos
	what string
}

type rtag struct {
	root string
	deep bool
}

func hasRefs(t types.Type) bool { return refsIn(t, 0) }

func refsIn(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refsIn(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return refsIn(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refsIn(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func newRefFlow(ld *Loader) *refFlow {
	rf := &refFlow{ld: ld, pts: map[ssa.Value]pset{}, objs: map[string]*aobj{}, full: map[ssa.Value]bool{},
		impl: map[string][]*ssa.Function{}, taken: map[string][]*ssa.Function{}, params: map[string]*ssa.Parameter{},
		globals: map[string]*ssa.Global{}, results: map[*ssa.Function][]pset{}, inits: map[*ssa.Function]bool{},
		writes: map[string]*refWrite{}, local: localDefs{}}
	rf.funcs = ld.allFuncs()
	have := map[*ssa.Function]bool{}
	for _, f := range rf.funcs {
		have[f] = true
	}
	// functions used as values
	for _, f := range rf.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					k := sigKey(g.Signature)
					rf.taken[k] = append(rf.taken[k], g)
					if !have[g] { // bound method wrappers
						have[g] = true
						rf.funcs = append(rf.funcs, g)
					}
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee && len(g.Blocks) > 0 {
						k := sigKey(g.Signature)
						rf.taken[k] = append(rf.taken[k], g)
					}
				}
			}
		}
	}
	rf.findInits()
	for _, f := range rf.funcs {
		if f.Pkg == nil || !exportedFn(f) {
			continue
		}
		for _, p := range f.Params {
			if hasRefs(p.Type()) {
				r := "param " + shortFn(f.String()) + "." + p.Name()
				rf.params[r] = p
				o := rf.obj(r, pointee(p.Type()))
				o.root, o.opq = r, true
				if _, ok := p.Type().Underlying().(*types.Struct); ok {
					o = rf.deepObj(o) // a struct by value: its own fields are a copy
				}
				rf.add(p, aloc{o, ""})
			}
		}
	}
	for _, f := range rf.funcs {
		rf.findLocals(f)
	}
	for n := 0; n < 100; n++ {
		rf.changed = false
		for _, f := range rf.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					rf.instr(f, ins)
				}
			}
		}
		if !rf.changed {
			break
		}
	}
	return rf
}

// pointee is the type stored in the memory a value of type t refers to.
func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice, *types.Map:
		return t.Underlying()
	}
	return nil
}

func (rf *refFlow) obj(id string, typ types.Type) *aobj {
	o := rf.objs[id]
	if o == nil {
		o = &aobj{id: id, typ: typ, heap: map[string]pset{}}
		rf.objs[id] = o
	}
	return o
}

// deepObj is everything reached through pointers in opaque memory.
func (rf *refFlow) deepObj(o *aobj) *aobj {
	if o.deep {
		return o
	}
	if o.deepO == nil {
		o.deepO = rf.obj(o.id+"*", nil)
		o.deepO.root, o.deepO.deep, o.deepO.opq, o.deepO.init = o.root, true, true, o.init
	}
	return o.deepO
}

func (rf *refFlow) fresh(f *ssa.Function, v ssa.Value, typ types.Type, opq bool) aloc {
	o := rf.obj("new "+f.String()+"."+v.Name(), typ)
	o.opq, o.init = opq, rf.inits[f]
	return aloc{o, ""}
}

func (l aloc) sub(s string) aloc {
	if l.o.opq && l.o.deep || len(l.p) > 60 {
		return l
	}
	return aloc{l.o, l.p + s}
}

// typeAt is the type of what is stored at a location.
func (l aloc) typeAt() types.Type {
	t := l.o.typ
	p := l.p
	for t != nil && p != "" {
		switch p[0] {
		case '.':
			n := 0
			p = p[1:]
			for p != "" && p[0] >= '0' && p[0] <= '9' {
				n = n*10 + int(p[0]-'0')
				p = p[1:]
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok || n >= st.NumFields() {
				return nil
			}
			t = st.Field(n).Type()
		case '[':
			p = p[2:]
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
		default:
			return nil
		}
	}
	return t
}

// compat: a value of type t can refer to the location.
func compat(t types.Type, l aloc) bool {
	lt := l.typeAt()
	if lt == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return types.Identical(u.Elem(), lt) || types.Identical(u.Elem().Underlying(), lt.Underlying())
	case *types.Slice:
		switch w := lt.Underlying().(type) {
		case *types.Slice:
			return types.Identical(w.Elem(), u.Elem())
		case *types.Array:
			return types.Identical(w.Elem(), u.Elem())
		}
		return false
	case *types.Map:
		_, ok := lt.Underlying().(*types.Map)
		return ok
	case *types.Basic:
		return false
	}
	return true
}

func (rf *refFlow) add(v ssa.Value, l aloc) {
	s := rf.pts[v]
	if s == nil {
		s = pset{}
		rf.pts[v] = s
	}
	if !s[l] {
		s[l] = true
		rf.changed = true
	}
}

func (rf *refFlow) addAll(v ssa.Value, s pset) {
	if !hasRefs(v.Type()) {
		return
	}
	for l := range s {
		if compat(v.Type(), l) {
			rf.add(v, l)
		}
	}
}

func (rf *refFlow) of(v ssa.Value) pset {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg == nil {
			return nil
		}
		r := "global " + g.Pkg.Pkg.Path() + "." + g.Name()
		rf.globals[r] = g
		o := rf.obj(r, g.Type().Underlying().(*types.Pointer).Elem())
		o.root = r
		o.opq = !rf.ld.inModule(g.Pkg.Pkg)
		return pset{aloc{o, ""}: true}
	}
	return rf.pts[v]
}

func (rf *refFlow) put(l aloc, s pset) {
	if len(s) == 0 {
		return
	}
	h := l.o.heap[l.p]
	if h == nil {
		h = pset{}
		l.o.heap[l.p] = h
	}
	for t := range s {
		if !h[t] {
			h[t] = true
			rf.changed = true
		}
	}
}

// content is what is stored at a location: there, in parts of it, and in a
// whole it is part of.
func (rf *refFlow) content(l aloc, r pset) {
	for q, s := range l.o.heap {
		if strings.HasPrefix(q, l.p) || strings.HasPrefix(l.p, q) {
			for t := range s {
				r[t] = true
			}
		}
	}
	if l.o.opq {
		r[aloc{rf.deepObj(l.o), ""}] = true
	}
}

func (rf *refFlow) load(s pset) pset {
	r := pset{}
	for l := range s {
		rf.content(l, r)
	}
	return r
}

func subs(s pset, p string) pset {
	r := pset{}
	for l := range s {
		r[l.sub(p)] = true
	}
	return r
}

func (rf *refFlow) store(addr, s pset) {
	for l := range addr {
		rf.put(l, s)
	}
}

func (rf *refFlow) write(f *ssa.Function, pos token.Pos, s pset, what string) {
	for l := range s {
		k := l.o.id + "|" + f.String() + fmt.Sprint(pos) + what
		if rf.writes[k] == nil {
			rf.writes[k] = &refWrite{l, f, pos, what}
		}
	}
}

func (rf *refFlow) instr(f *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		rf.add(x, rf.fresh(f, x, x.Type().Underlying().(*types.Pointer).Elem(), false))
	case *ssa.MakeSlice:
		rf.add(x, rf.fresh(f, x, x.Type().Underlying(), false))
	case *ssa.MakeMap:
		rf.add(x, rf.fresh(f, x, x.Type().Underlying(), false))
	case *ssa.Store:
		a := rf.of(x.Addr)
		if hasRefs(x.Val.Type()) {
			rf.store(a, rf.of(x.Val))
		}
		rf.write(f, x.Pos(), a, "assignment")
	case *ssa.MapUpdate:
		m := rf.of(x.Map)
		rf.write(f, x.Pos(), m, "map assignment")
		rf.store(m, rf.of(x.Value))
		rf.store(m, rf.of(x.Key))
	case *ssa.Phi:
		for _, e := range x.Edges {
			rf.addAll(x, rf.of(e))
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if m, ok := rf.local[x]; ok {
				rf.loadLocal(x, m)
			} else if hasRefs(x.Type()) {
				rf.addAll(x, rf.load(rf.of(x.X)))
			}
		} else if x.Op == token.ARROW {
			rf.addAll(x, rf.of(x.X))
		}
	case *ssa.FieldAddr:
		rf.addAll(x, subs(rf.of(x.X), fmt.Sprintf(".%d", x.Field)))
	case *ssa.IndexAddr:
		rf.addAll(x, subs(rf.of(x.X), "[]"))
	case *ssa.Field:
		rf.addAll(x, rf.of(x.X))
	case *ssa.Index:
		rf.addAll(x, rf.of(x.X))
	case *ssa.Lookup:
		if hasRefs(x.Type()) && !isString(x.X.Type()) {
			rf.addAll(x, rf.load(rf.of(x.X)))
		}
	case *ssa.Range:
		if !isString(x.X.Type()) {
			for l := range rf.of(x.X) {
				rf.add(x, l)
			}
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			rf.addAll(x, rf.load(rf.pts[rg]))
		}
	case *ssa.Slice:
		rf.addAll(x, rf.of(x.X))
		if x.Max != nil && (x.Max == x.High || sameLen(x.Max, x.High)) {
			rf.full[x] = true
		}
	case *ssa.ChangeType:
		rf.addAll(x, rf.of(x.X))
	case *ssa.ChangeInterface:
		rf.addAll(x, rf.of(x.X))
	case *ssa.MakeInterface:
		rf.addAll(x, rf.of(x.X))
	case *ssa.TypeAssert:
		rf.addAll(x, rf.of(x.X))
	case *ssa.SliceToArrayPointer:
		rf.addAll(x, rf.of(x.X))
	case *ssa.Convert:
		if isString(x.X.Type()) {
			if hasRefs(x.Type()) {
				rf.add(x, rf.fresh(f, x, x.Type().Underlying(), false))
			}
		} else if !isString(x.Type()) {
			rf.addAll(x, rf.of(x.X))
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			rf.callResult(f, x, c, x.Index)
		} else {
			rf.addAll(x, rf.of(x.Tuple))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			rf.addAll(g.FreeVars[i], rf.of(b))
		}
	case *ssa.Return:
		rs := rf.results[f]
		if rs == nil {
			rs = make([]pset, len(x.Results))
			for i := range rs {
				rs[i] = pset{}
			}
			rf.results[f] = rs
		}
		for i, v := range x.Results {
			if !hasRefs(v.Type()) {
				continue
			}
			for t := range rf.of(v) {
				if !rs[i][t] {
					rs[i][t] = true
					rf.changed = true
				}
			}
		}
	case *ssa.Call:
		rf.call(f, x.Common(), x.Pos())
		if x.Common().Signature().Results().Len() == 1 {
			rf.callResult(f, x, x, 0)
		}
	case *ssa.Defer:
		rf.call(f, x.Common(), x.Pos())
	case *ssa.Go:
		rf.call(f, x.Common(), x.Pos())
	}
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// exportedFn: callable by a user: an exported function, or an exported
// method (also of an unexported type, which can be behind an interface).
func exportedFn(f *ssa.Function) bool {
	return f.Parent() == nil && f.Synthetic == "" && token.IsExported(f.Name())
}

// findInits: initialisers, and helpers only they call.
func (rf *refFlow) findInits() {
	isInit := func(f *ssa.Function) bool {
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	for _, f := range rf.funcs {
		if isInit(f) && f.Signature.Recv() == nil && f.Parent() == nil {
			rf.inits[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range rf.funcs {
			if rf.inits[f] || exportedFn(f) {
				continue
			}
			cs := rf.ld.callers(f)
			if f.Parent() != nil {
				cs = append([]*ssa.Function{f.Parent()}, cs...)
			}
			ok := len(cs) > 0
			for _, g := range cs {
				if g == nil && f.Parent() != nil {
					continue
				}
				if g == nil || !rf.inits[g] {
					ok = false
				}
			}
			if ok {
				rf.inits[f] = true
				again = true
			}
		}
	}
}

func sameLen(a, b ssa.Value) bool {
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	x, ok1 := ca.Common().Value.(*ssa.Builtin)
	y, ok2 := cb.Common().Value.(*ssa.Builtin)
	return ok1 && ok2 && x.Name() == "len" && y.Name() == "len" && ca.Common().Args[0] == cb.Common().Args[0]
}

// callees are the module functions a call may reach.
func (rf *refFlow) callees(cc *ssa.CallCommon) (out []*ssa.Function) {
	if cc.IsInvoke() {
		k := types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name()
		if fs, ok := rf.impl[k]; ok {
			return fs
		}
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		var fs []*ssa.Function
		for _, p := range rf.ld.order {
			for _, m := range p.ssa.Members {
				tm, ok := m.(*ssa.Type)
				if !ok || it == nil || types.IsInterface(tm.Type()) {
					continue
				}
				for _, t := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
					if types.Implements(t, it) {
						if g := rf.ld.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); g != nil && len(g.Blocks) > 0 {
							fs = append(fs, g)
						}
						break
					}
				}
			}
		}
		rf.impl[k] = fs
		return fs
	}
	if g := cc.StaticCallee(); g != nil {
		if len(g.Blocks) > 0 {
			return []*ssa.Function{g}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	return rf.taken[sigKey(cc.Signature())]
}

func (rf *refFlow) args(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (rf *refFlow) call(f *ssa.Function, cc *ssa.CallCommon, pos token.Pos) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if !rf.full[cc.Args[0]] {
				rf.write(f, pos, rf.of(cc.Args[0]), "append into spare capacity")
			}
		case "copy":
			rf.write(f, pos, rf.of(cc.Args[0]), "copy")
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && hasRefs(sl.Elem()) {
				rf.store(subs(rf.of(cc.Args[0]), "[]"), rf.load(subs(rf.of(cc.Args[1]), "[]")))
			}
		case "clear", "delete":
			rf.write(f, pos, rf.of(cc.Args[0]), b.Name())
		}
		return
	}
	gs := rf.callees(cc)
	as := rf.args(cc)
	for _, g := range gs {
		for i, p := range g.Params {
			if i < len(as) {
				rf.addAll(p, rf.of(as[i]))
			}
		}
	}
	if !cc.IsInvoke() && (cc.StaticCallee() == nil || len(gs) > 0) {
		return
	}
	// library code
	for _, i := range extWrites(cc) {
		if i < len(as) {
			rf.write(f, pos, rf.of(as[i]), "call of "+extName(cc))
		}
	}
	if n := extName(cc); n == "encoding/asn1.Unmarshal" || n == "encoding/asn1.UnmarshalWithParams" {
		// what is decoded is new memory, or refers to the input
		o := rf.obj("decoded "+f.String()+fmt.Sprint(pos), nil)
		o.opq, o.init = true, rf.inits[f]
		s := pset{aloc{o, ""}: true}
		for l := range rf.of(as[0]) {
			s[l] = true
		}
		rf.store(rf.of(as[1]), s)
	}
}

func (rf *refFlow) callResult(f *ssa.Function, v ssa.Value, call *ssa.Call, k int) {
	if !hasRefs(v.Type()) {
		return
	}
	cc := call.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			n := rf.fresh(f, call, v.Type().Underlying(), false)
			rf.add(v, n)
			rf.addAll(v, rf.of(cc.Args[0]))
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && hasRefs(sl.Elem()) {
				el := rf.load(subs(rf.of(cc.Args[0]), "[]"))
				for l := range rf.load(subs(rf.of(cc.Args[1]), "[]")) {
					el[l] = true
				}
				in := pset{}
				for l := range el {
					if compat(sl.Elem(), l) {
						in[l] = true
					}
				}
				rf.store(subs(rf.of(v), "[]"), in)
			}
		}
		return
	}
	gs := rf.callees(cc)
	for _, g := range gs {
		if rs := rf.results[g]; k < len(rs) {
			rf.addAll(v, rs[k])
		}
	}
	if len(gs) > 0 && !cc.IsInvoke() || isErrorType(v.Type()) {
		return
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		return
	}
	rf.add(v, rf.fresh(f, v, pointee(v.Type()), true))
	as := rf.args(cc)
	for _, i := range extAliases(cc) {
		if i < len(as) {
			rf.addAll(v, rf.of(as[i]))
			if _, big := bigMethod(cc); !big && !sameLevel[extName(cc)] {
				rf.addAll(v, rf.load(rf.of(as[i])))
			}
		}
	}
}

// sameLevel: the result refers to what the argument refers to, no deeper.
var sameLevel = map[string]bool{
	"reflect.ValueOf": true, "reflect.Indirect": true, "(reflect.Value).Elem": true, "(reflect.Value).Addr": true,
	"(reflect.Value).Interface": true, "(reflect.Value).Pointer": true,
}

// reach is everything that can be reached from a set of locations.
func (rf *refFlow) reach(s pset) pset {
	r := pset{}
	var add func(l aloc)
	add = func(l aloc) {
		if r[l] {
			return
		}
		r[l] = true
		n := pset{}
		rf.content(l, n)
		for m := range n {
			add(m)
		}
	}
	for l := range s {
		add(l)
	}
	return r
}

func extName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return typeStr(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if g := cc.StaticCallee(); g != nil {
		if o := g.Origin(); o != nil {
			return o.String()
		}
		return g.String()
	}
	return "function value"
}

// bigReaders: methods of big.Int that do not change their receiver.
var bigReaders = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Append AppendText Bit BitLen Bits Bytes Cmp CmpAbs FillBytes Float64 Format GobEncode Int64 IsInt64 IsUint64 MarshalJSON MarshalText ProbablyPrime Sign String Text TrailingZeroBits Uint64") {
		bigReaders[n] = true
	}
}

func bigMethod(cc *ssa.CallCommon) (string, bool) {
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		return "", false
	}
	n := cc.StaticCallee().String()
	if strings.HasPrefix(n, bigM) {
		return strings.TrimPrefix(n, bigM), true
	}
	return "", false
}

// extWrites: the arguments (receiver first) a library function writes through.
func extWrites(cc *ssa.CallCommon) []int {
	if m, ok := bigMethod(cc); ok {
		switch {
		case m == "FillBytes":
			return []int{1}
		case m == "Append" || m == "AppendText":
			return []int{1}
		case m == "DivMod" || m == "QuoRem":
			return []int{0, 3}
		case m == "GCD":
			return []int{0, 1, 2}
		case bigReaders[m]:
			return nil
		}
		return []int{0}
	}
	n := extName(cc)
	base := n[strings.LastIndex(n, ".")+1:]
	if cc.IsInvoke() {
		switch base {
		case "Read", "ReadFrom", "ReadAt":
			return []int{1}
		case "CryptBlocks", "XORKeyStream", "Encrypt", "Decrypt", "Sum", "Seal", "Open":
			return []int{1}
		case "Write", "Reset":
			return []int{0}
		}
		return nil
	}
	recv := cc.StaticCallee().Signature.Recv() != nil
	pkg := ""
	if p := cc.StaticCallee().Pkg; p != nil {
		pkg = p.Pkg.Path()
	}
	switch {
	case strings.HasPrefix(base, "PutUint") && pkg == "encoding/binary", strings.HasPrefix(base, "PutVarint"), strings.HasPrefix(base, "PutUvarint"):
		if recv {
			return []int{1}
		}
		return []int{0}
	case strings.HasPrefix(base, "Append") && (pkg == "encoding/binary" || pkg == "strconv" || pkg == "fmt" || pkg == "unicode/utf8" || pkg == "encoding/hex" || pkg == "slices"):
		if recv {
			return []int{1}
		}
		return []int{0}
	case n == "io.ReadFull", n == "io.ReadAtLeast":
		return []int{1}
	case n == "crypto/rand.Read", n == "math/rand.Read":
		return []int{0}
	case n == "encoding/hex.Decode", n == "encoding/hex.Encode":
		return []int{0}
	case n == "encoding/asn1.Unmarshal", n == "encoding/asn1.UnmarshalWithParams":
		return []int{1}
	case pkg == "sort" && !strings.HasPrefix(base, "Search") && !strings.HasSuffix(base, "AreSorted") && base != "IsSorted" && base != "SliceIsSorted":
		return []int{0}
	case pkg == "slices":
		switch base {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Insert", "Delete", "DeleteFunc", "Replace", "Compact", "CompactFunc":
			return []int{0}
		}
	case pkg == "crypto/subtle" && base == "XORBytes":
		return []int{0}
	case pkg == "crypto/subtle" && base == "ConstantTimeCopy":
		return []int{1}
	case pkg == "reflect" && recv && (strings.HasPrefix(base, "Set") || base == "Grow" || base == "Clear"):
		return []int{0}
	case pkg == "reflect" && base == "Copy":
		return []int{0}
	case pkg == "maps" && (base == "Copy" || base == "DeleteFunc"):
		return []int{0}
	case recv && (pkg == "bytes" || pkg == "strings") && (strings.HasPrefix(base, "Write") || strings.HasPrefix(base, "Read") || base == "Reset" || base == "Truncate" || base == "Grow" || base == "Next"):
		return []int{0}
	case recv && (strings.HasPrefix(base, "Unmarshal") || base == "GobDecode" || base == "Scan"):
		return []int{0}
	case recv && (pkg == "sync" || pkg == "sync/atomic"):
		return []int{0}
	case pkg == "sync/atomic" && !strings.HasPrefix(base, "Load"):
		return []int{0}
	}
	return nil
}

// extAliases: the arguments a library function's results may refer to.
func extAliases(cc *ssa.CallCommon) []int {
	if m, ok := bigMethod(cc); ok {
		if bigReaders[m] {
			if m == "Bits" {
				return []int{0}
			}
			if m == "FillBytes" || m == "Append" {
				return []int{1}
			}
			return nil
		}
		return []int{0}
	}
	n := extName(cc)
	for _, p := range []string{"encoding/hex.", "fmt.", "errors.", "crypto/elliptic.", "(*crypto/elliptic.", "elliptic.Curve.", "encoding/asn1.Marshal", "crypto/rand.", "math/big.NewInt",
		"bytes.Repeat", "bytes.Join", "bytes.Clone", "bytes.ToLower", "bytes.ToUpper", "io.ReadAll", "strconv.", "slices.Clone", "slices.Concat", "net.ParseIP", "strings.", "(encoding/asn1.BitString).RightAlign", "net/url."} {
		if strings.HasPrefix(n, p) {
			if n == "(*crypto/elliptic.CurveParams).Params" || n == "elliptic.Curve.Params" {
				return []int{0}
			}
			if n == "(encoding/asn1.BitString).RightAlign" {
				return []int{0}
			}
			return nil
		}
	}
	var r []int
	for i := 0; i < len(cc.Args)+1; i++ {
		r = append(r, i)
	}
	return r
}

// ---- checks -------------------------------------------------------------------------

// writable: writing through a root is what the parameter is for.
func (rf *refFlow) writable(t rtag) bool {
	p := rf.params[t.root]
	if p == nil {
		return false
	}
	f := p.Parent()
	pkg := strings.TrimPrefix(f.Pkg.Pkg.Path(), rf.ld.modPath+"/")
	recv := f.Signature.Recv() != nil && f.Params[0] == p
	rt := ""
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			rt = n.Obj().Name()
		}
	}
	idx := -1
	for i, q := range f.Params {
		if q == p {
			idx = i
		}
	}
	switch {
	case pkg == "cryptobyte" && rt == "Builder":
		return recv || f.Name() == "AddValue" && false
	case pkg == "cryptobyte" && rt == "String":
		// the cursor and the out pointers, but not what they refer to
		_, isPtr := p.Type().Underlying().(*types.Pointer)
		_, isIface := p.Type().Underlying().(*types.Interface)
		_, isSlice := p.Type().Underlying().(*types.Slice)
		if recv {
			return isPtr && !t.deep
		}
		if isSlice {
			return !t.deep // CopyBytes
		}
		return (isPtr || isIface) && !t.deep
	case pkg == "cryptobyte" && (f.Name() == "NewBuilder" || f.Name() == "NewFixedBuilder"):
		return true
	case rf.isHash(f) && recv:
		return true
	case rf.isHash(f) && f.Name() == "Sum" && idx == 1:
		return true
	case rt != "" && (f.Name() == "Encrypt" || f.Name() == "Decrypt") && idx == 1 && rf.isBlock(f):
		return true
	case pkg == "sm2/cert" && f.Name() == "FillCertificateTemplateByCSR" && idx == 0:
		return !t.deep
	}
	return false
}

func (rf *refFlow) implements(f *ssa.Function, pkg, name string) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	for _, p := range rf.ld.order {
		for _, q := range p.types.Imports() {
			if q.Path() == pkg {
				if o := q.Scope().Lookup(name); o != nil {
					if it, ok := o.Type().Underlying().(*types.Interface); ok {
						return types.Implements(f.Signature.Recv().Type(), it)
					}
				}
			}
		}
	}
	return false
}
func (rf *refFlow) isHash(f *ssa.Function) bool  { return rf.implements(f, "hash", "Hash") }
func (rf *refFlow) isBlock(f *ssa.Function) bool { return rf.implements(f, "crypto/cipher", "Block") }

func (c *Check) flow() *refFlow {
	rf := newRefFlow(c.ld)
	for _, f := range rf.funcs {
		c.analysed[f.String()] = true
	}
	c.stats["values with references"] += len(rf.pts)
	c.stats["roots"] += len(rf.params)
	c.stats["write sites"] += len(rf.writes)
	return rf
}

func (rf *refFlow) sortedWrites() (out []*refWrite) {
	var ks []string
	for k := range rf.writes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, rf.writes[k])
	}
	return
}

func checkInputs(c *Check) {
	c.explain = "Every parameter of every exported function and method that can refer to memory is a root. An interprocedural, field-sensitive, flow-insensitive points-to analysis follows the references to it through assignments, fields, elements, slices, closures, calls (interface calls to every implementation in the module) and the results of library functions, and collects every write through them: assignments, copy, append into spare capacity, map updates and the library functions that write to an argument or receiver. A write to memory of a root that is not an output by contract is a violation."
	c.rule("input unwritten", "no write reaches memory of an input parameter")
	c.rule("outputs", "outputs by contract are written")
	c.assumption("the list of library functions that write through an argument in analyzer/refflow.go")
	rf := c.flow()
	bad := map[string][]string{}
	for _, w := range rf.sortedWrites() {
		r := w.loc.o.root
		if !strings.HasPrefix(r, "param ") || rf.inits[w.fn] {
			continue
		}
		if rf.writable(rtag{r, w.loc.o.deep}) {
			c.ob("outputs", r, c.at(rf.params[r].Parent()), true, "")
			continue
		}
		bad[r] = append(bad[r], fmt.Sprintf("%s in %s at %s", w.what, shortFn(w.fn.String()), c.posOf(w.pos)))
	}
	var rs []string
	for r := range rf.params {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		c.ob("input unwritten", r, c.at(rf.params[r].Parent()), len(bad[r]) == 0, cutMid(strings.Join(bad[r], "; "), 900))
	}
}

func checkGlobals(c *Check) {
	c.explain = "The same points-to analysis with every package-level variable as a root: outside package initialisers (and helpers only they call) no write may reach memory of a package variable or memory reachable from it, no exported function may return or store into caller memory a reference to such memory (the curve parameters and error values excepted), and no method of the block cipher may write to its receiver or to memory reached from it."
	c.rule("state unwritten", "no write reaches package-level state after initialisation")
	c.rule("not handed out", "no exported function hands out memory of a package table")
	c.rule("cipher unwritten", "the methods of the block cipher do not write to the cipher")
	c.assumption("the list of library functions that write through an argument in analyzer/refflow.go")
	rf := c.flow()
	// memory of the package variables
	var gs []string
	owner := map[*aobj]string{}
	for _, p := range c.ld.order {
		for _, m := range p.ssa.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				gs = append(gs, "global "+p.path+"."+g.Name())
				rf.of(g)
			}
		}
	}
	sort.Strings(gs)
	for r := range rf.globals {
		if g := rf.globals[r]; !c.ld.inModule(g.Pkg.Pkg) {
			gs = append(gs, r)
		}
	}
	for _, r := range gs {
		for l := range rf.reach(rf.of(rf.globals[r])) {
			if l.o.root != "" && l.o.root != r {
				continue
			}
			if owner[l.o] == "" {
				owner[l.o] = r
			}
		}
	}
	bad := map[string][]string{}
	for _, w := range rf.sortedWrites() {
		r := owner[w.loc.o]
		if r == "" || rf.inits[w.fn] {
			continue
		}
		bad[r] = append(bad[r], fmt.Sprintf("%s in %s at %s", w.what, shortFn(w.fn.String()), c.posOf(w.pos)))
	}
	for _, r := range gs {
		c.ob("state unwritten", strings.ReplaceAll(r, c.ld.modPath+"/", ""), "package", len(bad[r]) == 0, cutMid(strings.Join(bad[r], "; "), 900))
	}
	// handed out
	mutable := func(o *aobj) string {
		g := rf.globals[owner[o]]
		if g == nil || !c.ld.inModule(g.Pkg.Pkg) {
			return ""
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		if isErrorType(t) || isCurve(t) || o.typ != nil && isCurve(o.typ) {
			return ""
		}
		return owner[o]
	}
	for _, f := range rf.funcs {
		if f.Pkg == nil || !exportedFn(f) {
			continue
		}
		var ws []string
		for i, s := range rf.results[f] {
			rt := f.Signature.Results().At(i).Type()
			if isErrorType(rt) || isCurve(rt) {
				continue
			}
			for l := range rf.reach(s) {
				if r := mutable(l.o); r != "" {
					ws = append(ws, fmt.Sprintf("result %d refers to %s", i, r))
				}
			}
		}
		sort.Strings(ws)
		c.ob("not handed out", shortFn(f.String()), c.at(f), len(ws) == 0, strings.Join(ws, "; "))
	}
	for _, o := range rf.objs {
		if !strings.HasPrefix(o.root, "param ") {
			continue
		}
		for _, s := range o.heap {
			for l := range rf.reach(s) {
				if r := mutable(l.o); r != "" {
					c.ob("not handed out", o.root, "package", false, "memory of "+r+" is stored into "+o.root)
				}
			}
		}
	}
	// the cipher
	wr := map[string][]string{}
	for _, w := range rf.sortedWrites() {
		wr[w.loc.o.root] = append(wr[w.loc.o.root], fmt.Sprintf("%s in %s at %s", w.what, shortFn(w.fn.String()), c.posOf(w.pos)))
	}
	for r, p := range rf.params {
		f := p.Parent()
		if f.Signature.Recv() != nil && f.Params[0] == p && rf.isBlock(f) {
			c.ob("cipher unwritten", shortFn(f.String()), c.at(f), len(wr[r]) == 0, strings.Join(wr[r], "; "))
		}
	}
}

func isCurve(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "crypto/elliptic" {
			return true
		}
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && isCurve(st.Field(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

func init() {
	addCheck("C19", "other", effects, checkInputs)
	addCheck("C20", "other", effects, checkGlobals)
}
