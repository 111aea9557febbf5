package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.  *Term: integers, Booleans, strings (sequence terms) and
// opaque scalars.
type Value interface{}

type Obj struct {
	id   int
	key  string
	typ  types.Type // type of the pointee; for slice backing stores: *types.Slice
	root string     // "" for memory allocated by the analysed code
	sym  *Term      // symbolic initial content (nil: zero value)
	n    *Term      // element count of a backing store
}

type Ptr struct {
	obj  *Obj
	path string // ".f.g" field path from the object
	idx  *Term  // element of a sequence leaf
	sub  string // field path inside that element
	nilT *Term  // condition under which the pointer is nil
}

type Slice struct {
	obj           *Obj
	path          string
	off, len, cap *Term
	nilT          *Term
}

type StructV struct {
	typ types.Type
	f   []Value
}

type ArrV struct {
	typ *types.Array
	seq *Term
}

type Iface struct {
	typ  types.Type // dynamic type, nil if unknown
	val  Value
	t    *Term // opaque identity if typ == nil
	nilT *Term
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
	t     *Term // opaque function value
	nilT  *Term
}

type Builtin struct{ name string }

type Tuple []Value

type MapV struct{ t *Term }

// iterator of a range statement
type IterV struct {
	obj *Obj
	x   Value
}

func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			switch p.Path() {
			case "math/big", "time", "sync", "reflect", "sync/atomic", "strings", "bytes":
				return nil, false
			}
		}
	}
	return s, true
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}
func isBigIntPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}
func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// bit width of an unsigned integer type, 0 otherwise
func uwidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64, types.Uint, types.Uintptr:
		return 64
	}
	return 0
}

// width of a signed integer type
func swidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8:
		return 8
	case types.Int16:
		return 16
	case types.Int32:
		return 32
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64
	}
	return 0
}
func isByte(t types.Type) bool { return uwidth(t) == 8 }
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Uint8]
		}
	}
	return nil
}

func isSeqOp(t *Term) bool {
	switch t.op {
	case "seq", "bytes", "elem", "elemw", "rep", "repw", "sub", "be", "nat", "xorseq":
		return true
	}
	return false
}

// ---- engine-wide object table -------------------------------------------

func (e *Engine) objOf(key string, typ types.Type) *Obj {
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := &Obj{id: len(e.objs) + 1, key: key, typ: typ}
	e.objs[key] = o
	return o
}

// ---- reification ---------------------------------------------------------

var nilTerm = Sym("nil")

// reify turns a value into a term (by content for byte slices and big
// integers, by identity for other pointers).
func (e *Engine) reify(st *State, v Value, typ types.Type) *Term {
	switch x := v.(type) {
	case nil:
		return nilTerm
	case *Term:
		return x
	case *Ptr:
		if x.obj == nil {
			return nilTerm
		}
		if p, ok := typ.Underlying().(*types.Pointer); ok && isBigInt(p.Elem()) && x.nilT == TFalse {
			return rawOp("bigp", "", 0, e.bigVal(st, x))
		}
		if x.obj.sym != nil && x.path == "" && x.idx == nil && strings.HasPrefix(x.obj.key, "of:") && !e.objDirty(st, x.obj) {
			return x.obj.sym
		}
		k := "ref:" + x.obj.key + "|" + x.path
		if x.idx != nil {
			k += fmt.Sprintf("|%d|%s", x.idx.id, x.sub)
		}
		t := Sym(k)
		e.refs[t] = x
		return t
	case *Slice:
		if x.obj == nil {
			return EmptySeq
		}
		return e.sliceSeq(st, x)
	case *StructV:
		s := x.typ.Underlying().(*types.Struct)
		args := make([]*Term, len(x.f))
		for i := range x.f {
			args[i] = e.reify(st, x.f[i], s.Field(i).Type())
		}
		// field-wise projection of one symbolic struct is that struct
		if len(args) > 0 {
			if b := structBase(args, s); b != nil {
				return b
			}
		}
		return structTerm(x.typ, args)
	case *ArrV:
		return x.seq
	case *Iface:
		if x.nilT == TTrue {
			return nilTerm
		}
		if x.typ == nil {
			return x.t
		}
		return rawOp("iface", typeStr(x.typ), 0, e.reify(st, x.val, x.typ))
	case *Closure:
		if x.fn == nil {
			return x.t
		}
		return Sym("fn:" + x.fn.String())
	case *MapV:
		return x.t
	}
	return Sym(fmt.Sprintf("?%T", v))
}

// structNames: the field positions of the types of struct terms.
var structNames sync.Map

func structTerm(t types.Type, args []*Term) *Term {
	n := typeStr(t)
	if s, ok := t.Underlying().(*types.Struct); ok {
		if _, ok := structNames.Load(n); !ok {
			m := map[string]int{}
			for i := 0; i < s.NumFields(); i++ {
				m[s.Field(i).Name()] = i
			}
			structNames.Store(n, m)
		}
	}
	return rawOp("struct", n, 0, args...)
}

// fldOf is a field of a struct term.
func fldOf(name string, t *Term) *Term {
	if t.op != "struct" {
		return nil
	}
	if m, ok := structNames.Load(t.s); ok {
		if i, ok := m.(map[string]int)[name]; ok && i < len(t.args) {
			return t.args[i]
		}
	}
	return nil
}

func structBase(args []*Term, s *types.Struct) *Term {
	var base *Term
	for i, a := range args {
		b := projBase(a, s.Field(i).Name(), s.Field(i).Type())
		if b == nil {
			b = projBase(a, fmt.Sprintf("#%d", i), s.Field(i).Type())
		}
		if b == nil || (base != nil && b != base) {
			return nil
		}
		base = b
	}
	return base
}

// projBase: a is the projection of field f of some term
func projBase(a *Term, f string, t types.Type) *Term {
	if a.op == "fld" && a.s == f {
		return a.args[0]
	}
	if a.op == "bigp" {
		return projBase(a.args[0], f, t)
	}
	if a.op == "sub" && a.args[1].isCi(0) && a.args[0].op == "fld" && a.args[0].s == f && a.args[2] == LenOf(a.args[0]) {
		return a.args[0].args[0]
	}
	if st, ok := isStruct(t); ok && a.op == "struct" {
		b := structBase(a.args, st)
		if b != nil {
			return projBase(b, f, types.Typ[types.Int])
		}
	}
	return nil
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func LenOf(t *Term) *Term { return rawOp("len", "", 0, t) }
func CapOf(t *Term) *Term { return rawOp("cap", "", 0, t) }

func fldTerm(t *Term, name string, typ types.Type) *Term {
	w := uwidth(typ)
	return rawOp("fld", name, w, t)
}

// fromTerm materialises a term as a value of the given type.
func (e *Engine) fromTerm(t *Term, typ types.Type) Value {
	if e.special != nil {
		if v := e.special(t, typ); v != nil {
			return v
		}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if isSeqOp(t) {
				return t
			}
			if t == nilTerm {
				return EmptySeq
			}
			return SubBase(t, C(0), LenOf(t))
		}
		return t
	case *types.Slice:
		if t == nilTerm {
			return &Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}
		}
		if isSeqOp(t) {
			o := e.objOf(fmt.Sprintf("snap:%d:%s", t.id, typeStr(typ)), typ)
			o.n = SeqLen(t)
			o.sym = t
			l := SeqLen(t)
			nt := TFalse
			if t == EmptySeq {
				nt = rawOp("isnil", fmt.Sprintf("snap%d", t.id), 0, C(0))
			} else if t.op == "sub" {
				nt = rawOp("isnil", fmt.Sprintf("%d", t.args[0].id), 0, l)
			}
			return &Slice{obj: o, off: C(0), len: l, cap: l, nilT: nt}
		}
		o := e.objOf("of:"+t.key(), typ)
		o.sym = t
		o.root = rootOf(t)
		o.n = CapOf(t)
		return &Slice{obj: o, off: C(0), len: LenOf(t), cap: CapOf(t), nilT: rawOp("isnil", fmt.Sprintf("%d", t.id), 0, LenOf(t))}
	case *types.Pointer:
		if t == nilTerm {
			return &Ptr{nilT: TTrue}
		}
		if p, ok := e.refs[t]; ok {
			return p
		}
		if t.op == "bigp" {
			o := e.objOf("big:"+t.key(), u.Elem())
			o.sym = t.args[0]
			return &Ptr{obj: o, nilT: TFalse}
		}
		o := e.objOf("of:"+t.key(), u.Elem())
		o.sym = t
		o.root = rootOf(t)
		nt := TFalse
		if !e.nonNil(t, typ) {
			nt = rawOp("pnil", "", 0, t)
		}
		return &Ptr{obj: o, nilT: nt}
	case *types.Struct:
		if _, ok := isStruct(typ); !ok {
			return t
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.fromTerm(projTerm(t, i, u), u.Field(i).Type())
		}
		return &StructV{typ: typ, f: f}
	case *types.Array:
		if isSeqOp(t) {
			return &ArrV{u, t}
		}
		return &ArrV{u, SubBase(t, C(0), C(u.Len()))}
	case *types.Interface:
		if t == nilTerm {
			return &Iface{nilT: TTrue}
		}
		return &Iface{t: t, nilT: rawOp("pnil", "", 0, t)}
	case *types.Signature:
		return &Closure{t: t, nilT: rawOp("pnil", "", 0, t)}
	case *types.Map:
		return &MapV{t}
	}
	return t
}

func projTerm(t *Term, i int, s *types.Struct) *Term {
	if t.op == "struct" {
		return t.args[i]
	}
	// decoded values are read by position: the field names are irrelevant
	for r := t; ; r = r.args[0] {
		if r.op == "undec" {
			return fldTerm(t, fmt.Sprintf("#%d", i), s.Field(i).Type())
		}
		if r.op != "fld" {
			break
		}
	}
	return fldTerm(t, s.Field(i).Name(), s.Field(i).Type())
}

func (t *Term) key() string {
	if t.op == "sym" {
		return t.s
	}
	return fmt.Sprintf("#%d", t.id)
}

func rootOf(t *Term) string {
	switch t.op {
	case "sym":
		if strings.HasPrefix(t.s, "arg:") {
			return "param " + t.s[4:]
		}
		if strings.HasPrefix(t.s, "glob:") {
			return "global " + t.s[5:]
		}
		return ""
	case "fld", "at", "sub", "deref", "elem":
		return rootOf(t.args[0])
	}
	return ""
}

// zero value of a type
func (e *Engine) zero(typ types.Type) Value {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return EmptySeq
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilTerm
		}
		return C(0)
	case *types.Slice:
		return &Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}
	case *types.Pointer:
		return &Ptr{nilT: TTrue}
	case *types.Struct:
		if isBigInt(typ) {
			return C(0)
		}
		if _, ok := isStruct(typ); !ok {
			return Sym("zero:" + typeStr(typ))
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &StructV{typ: typ, f: f}
	case *types.Array:
		return &ArrV{u, e.zeroSeq(u.Elem(), C(u.Len()))}
	case *types.Interface:
		return &Iface{nilT: TTrue}
	case *types.Signature:
		return &Closure{nilT: TTrue, t: nilTerm}
	case *types.Map:
		return &MapV{nilTerm}
	}
	return nilTerm
}

func (e *Engine) zeroSeq(elem types.Type, n *Term) *Term {
	if isByte(elem) {
		return Rep(C(0), n)
	}
	if n.isCi(0) {
		return EmptySeq
	}
	z := e.reify(nil, e.zero(elem), elem)
	return rawOp("repw", "", 0, z, n)
}

func mkElem(elem types.Type, t *Term) *Term {
	if isByte(elem) {
		return Elem(t)
	}
	return ElemW(t)
}

// ---- memory ---------------------------------------------------------------

type cell struct {
	obj  *Obj
	path string
}
type cellV struct {
	v Value
	t types.Type
}

type Event struct {
	kind string
	pos  string
	fn   string
	args []*Term
	s    string
}
type evNode struct {
	ev   *Event
	prev *evNode
	n    int
	key  string
}

type State struct {
	mem   map[cell]cellV
	alive map[*Obj]bool
	facts *Facts
	ev    *evNode
	gen   map[string]int
	pend  map[string]string
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, ev: s.ev, mem: make(map[cell]cellV, len(s.mem)+4),
		alive: make(map[*Obj]bool, len(s.alive)+1), gen: s.gen, pend: s.pend}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.alive {
		n.alive[k] = true
	}
	return n
}

func (s *State) addEvent(ev *Event) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	s.ev = &evNode{ev: ev, prev: s.ev, n: n}
}

func (s *State) events() []*Event {
	var r []*Event
	for n := s.ev; n != nil; n = n.prev {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) freshN(site string) int {
	k := s.gen[site]
	m := make(map[string]int, len(s.gen)+1)
	for a, b := range s.gen {
		m[a] = b
	}
	m[site] = k + 1
	s.gen = m
	return k
}

func (e *Engine) objDirty(st *State, o *Obj) bool {
	if st == nil {
		return false
	}
	for c := range st.mem {
		if c.obj == o {
			return true
		}
	}
	return false
}

// leafAt returns the initial value of a leaf cell.
func (e *Engine) initLeaf(o *Obj, path string, t types.Type) Value {
	if o.sym == nil {
		if o.n != nil && path == "" {
			if _, ok := o.typ.Underlying().(*types.Slice); ok {
				return e.zeroSeq(elemType(o.typ), o.n)
			}
		}
		return e.zero(t)
	}
	if path == "" {
		if o.n != nil {
			if isSeqOp(o.sym) {
				return o.sym
			}
			if _, ok := o.typ.Underlying().(*types.Slice); ok {
				return SubBase(o.sym, C(0), o.n)
			}
		}
		if isBigInt(o.typ) {
			return o.sym
		}
		return e.fromTerm(derefTerm(o.sym, o), t)
	}
	x := derefTerm(o.sym, o)
	ty := o.typ
	for _, ix := range splitPath(path) {
		s := ty.Underlying().(*types.Struct)
		x = projTerm(x, ix, s)
		ty = s.Field(ix).Type()
	}
	return e.fromTerm(x, t)
}

func derefTerm(t *Term, o *Obj) *Term { return t }

func splitPath(p string) []int {
	var r []int
	for _, s := range strings.Split(p, ".") {
		if s == "" {
			continue
		}
		var k int
		fmt.Sscan(s, &k)
		r = append(r, k)
	}
	return r
}

func typeAtPath(t types.Type, p string) types.Type {
	for _, ix := range splitPath(p) {
		t = t.Underlying().(*types.Struct).Field(ix).Type()
	}
	return t
}

// loadAt reads the value of type t stored at (obj, path).
func (e *Engine) loadAt(st *State, o *Obj, path string, t types.Type) Value {
	if s, ok := isStruct(t); ok {
		if v := e.specialLoad(st, o, path, t); v != nil {
			return v
		}
		f := make([]Value, s.NumFields())
		for i := range f {
			f[i] = e.loadAt(st, o, fmt.Sprintf("%s.%d", path, i), s.Field(i).Type())
		}
		return &StructV{typ: t, f: f}
	}
	v := e.rawLoad(st, o, path, t)
	if a, ok := t.Underlying().(*types.Array); ok {
		if s, ok := v.(*Term); ok {
			return &ArrV{a, s}
		}
	}
	return v
}

func (e *Engine) specialLoad(st *State, o *Obj, path string, t types.Type) Value { return nil }

func (e *Engine) rawLoad(st *State, o *Obj, path string, t types.Type) Value {
	c := cell{o, path}
	if v, ok := st.mem[c]; ok {
		return v.v
	}
	if v, ok := e.base[c]; ok {
		return v.v
	}
	// symbolic parents of special struct types
	return e.initLeafSpecial(st, o, path, t)
}

func (e *Engine) initLeafSpecial(st *State, o *Obj, path string, t types.Type) Value {
	if o.sym != nil && e.special != nil {
		// a prefix of the path may be a specially modelled struct
		x := derefTerm(o.sym, o)
		ty := o.typ
		ixs := splitPath(path)
		for k := 0; ; k++ {
			if v := e.special(x, ty); v != nil {
				for _, ix := range ixs[k:] {
					sv, ok := v.(*StructV)
					if !ok {
						return v
					}
					v = sv.f[ix]
				}
				return v
			}
			if k >= len(ixs) {
				break
			}
			s, ok := ty.Underlying().(*types.Struct)
			if !ok {
				break
			}
			x = projTerm(x, ixs[k], s)
			ty = s.Field(ixs[k]).Type()
		}
	}
	v := e.initLeaf(o, path, t)
	if a, ok := v.(*ArrV); ok {
		return a.seq
	}
	return v
}

func (e *Engine) storeAt(st *State, o *Obj, path string, t types.Type, v Value) {
	if s, ok := isStruct(t); ok {
		sv, ok := v.(*StructV)
		if !ok {
			tv, ok := v.(*Term)
			if !ok {
				e.unsupported("store of %T as %s", v, t)
				return
			}
			sv = e.fromTerm(tv, t).(*StructV)
		}
		for i := range sv.f {
			e.storeAt(st, o, fmt.Sprintf("%s.%d", path, i), s.Field(i).Type(), sv.f[i])
		}
		return
	}
	if a, ok := v.(*ArrV); ok {
		v = a.seq
	}
	st.mem[cell{o, path}] = cellV{v, t}
}

// contents of the sequence leaf behind (obj,path)
func (e *Engine) content(st *State, o *Obj, path string) *Term {
	var t types.Type = o.typ
	if path != "" {
		t = typeAtPath(o.typ, path)
	}
	v := e.rawLoad(st, o, path, t)
	if s, ok := v.(*Term); ok {
		return s
	}
	e.unsupported("content of %s%s is %T", o.key, path, v)
	return Sym("?content")
}

func (e *Engine) setContent(st *State, o *Obj, path string, s *Term) {
	var t types.Type = o.typ
	if path != "" {
		t = typeAtPath(o.typ, path)
	}
	st.mem[cell{o, path}] = cellV{s, t}
}

// sliceSeq is the sequence of elements of a slice value.
func (e *Engine) sliceSeq(st *State, s *Slice) *Term {
	if s.obj == nil || s.len.isCi(0) {
		return EmptySeq
	}
	c := e.content(st, s.obj, s.path)
	return subSeqOr(st.facts, c, s.off, s.len)
}

// writeSlice overwrites part of a slice's backing store.
func (e *Engine) writeRange(st *State, o *Obj, path string, off, v *Term) {
	c := e.content(st, o, path)
	r := writeSeq(st.facts, c, off, v)
	if r == nil {
		total := SeqLen(c)
		r = SubBase(rawOp("written", "", 0, c, off, v), C(0), total)
	}
	e.setContent(st, o, path, r)
}

func (e *Engine) bigVal(st *State, p *Ptr) *Term {
	if p.obj == nil {
		return Sym("?nilbig")
	}
	if p.idx != nil {
		e.unsupported("pointer to element big.Int")
		return Sym("?big")
	}
	v := e.rawLoad(st, p.obj, p.path, typeAtPath(p.obj.typ, p.path))
	if t, ok := v.(*Term); ok {
		return t
	}
	return Sym("?big")
}

func (e *Engine) setBig(st *State, p *Ptr, v *Term) {
	if p.obj == nil {
		return
	}
	e.noteWrite(st, p.obj, "big.Int")
	st.mem[cell{p.obj, p.path}] = cellV{v, typeAtPath(p.obj.typ, p.path)}
}

// ---- equality and keys of values -------------------------------------------

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func vkey(b *strings.Builder, v Value) {
	switch x := v.(type) {
	case nil:
		b.WriteString("_")
	case *Term:
		fmt.Fprintf(b, "t%d", x.id)
	case *Ptr:
		if x.obj == nil {
			b.WriteString("pnil")
			return
		}
		fmt.Fprintf(b, "p%d%s[%d]%s?%d", x.obj.id, x.path, tid(x.idx), x.sub, tid(x.nilT))
	case *Slice:
		oid := 0
		if x.obj != nil {
			oid = x.obj.id
		}
		fmt.Fprintf(b, "s%d%s[%d:%d:%d]?%d", oid, x.path, tid(x.off), tid(x.len), tid(x.cap), tid(x.nilT))
	case *StructV:
		b.WriteString("{")
		for _, f := range x.f {
			vkey(b, f)
			b.WriteString(";")
		}
		b.WriteString("}")
	case *ArrV:
		fmt.Fprintf(b, "a%d", x.seq.id)
	case *Iface:
		if x.typ != nil {
			fmt.Fprintf(b, "i<%s>", typeStr(x.typ))
			vkey(b, x.val)
		} else {
			fmt.Fprintf(b, "i%d?%d", tid(x.t), tid(x.nilT))
		}
	case *Closure:
		if x.fn == nil {
			fmt.Fprintf(b, "c%d", tid(x.t))
			return
		}
		fmt.Fprintf(b, "c<%s>", x.fn.String())
		for _, v := range x.binds {
			vkey(b, v)
		}
	case Tuple:
		b.WriteString("(")
		for _, f := range x {
			vkey(b, f)
			b.WriteString(",")
		}
		b.WriteString(")")
	case *MapV:
		fmt.Fprintf(b, "m%d", tid(x.t))
	case *IterV:
		fmt.Fprintf(b, "it%d", x.obj.id)
	case *Builtin:
		b.WriteString(x.name)
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

func valKey(v Value) string {
	var b strings.Builder
	vkey(&b, v)
	return b.String()
}

func sameVal(a, b Value) bool {
	if ta, ok := a.(*Term); ok {
		tb, ok := b.(*Term)
		return ok && ta == tb
	}
	return valKey(a) == valKey(b)
}

// objects referenced by a value
func refsOf(e *Engine, v Value, f func(*Obj)) {
	switch x := v.(type) {
	case *Ptr:
		if x.obj != nil {
			f(x.obj)
		}
	case *Slice:
		if x.obj != nil {
			f(x.obj)
		}
	case *StructV:
		for _, y := range x.f {
			refsOf(e, y, f)
		}
	case *Iface:
		refsOf(e, x.val, f)
	case *Closure:
		for _, y := range x.binds {
			refsOf(e, y, f)
		}
	case Tuple:
		for _, y := range x {
			refsOf(e, y, f)
		}
	case *IterV:
		f(x.obj)
		refsOf(e, x.x, f)
	case *Term:
		for s := range symsOf(x) {
			if p, ok := e.refs[s]; ok {
				f(p.obj)
			}
		}
	case *ArrV:
		refsOf(e, x.seq, f)
	case *MapV:
		refsOf(e, x.t, f)
	}
}

// memKey is a canonical text of the memory overlay.
func (st *State) memKey() string {
	ks := make([]string, 0, len(st.mem))
	for c, v := range st.mem {
		var b strings.Builder
		fmt.Fprintf(&b, "%d%s=", c.obj.id, c.path)
		vkey(&b, v.v)
		ks = append(ks, b.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func (st *State) pendKey() string {
	ks := make([]string, 0, len(st.pend))
	for k, v := range st.pend {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// evKey is a canonical text of the event history.
func (st *State) evKey() string {
	if st.ev == nil {
		return ""
	}
	if st.ev.key == "" {
		var b strings.Builder
		if st.ev.prev != nil {
			b.WriteString((&State{ev: st.ev.prev}).evKey())
		}
		fmt.Fprintf(&b, "|%s:%s:%s", st.ev.ev.kind, st.ev.ev.fn, st.ev.ev.s)
		for _, a := range st.ev.ev.args {
			fmt.Fprintf(&b, ",%d", tid(a))
		}
		s := b.String()
		if len(s) > 200 {
			h := sha256.Sum256([]byte(s))
			s = fmt.Sprintf("%x", h[:16])
		}
		st.ev.key = s
	}
	return st.ev.key
}
