package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	fn, kind, pos, detail string
	n                     int
	failed                bool
	facts                 string
}

type Engine struct {
	ld     *Loader
	prog   *ssa.Program
	objs   map[string]*Obj
	refs   map[*Term]*Ptr
	base   map[cell]cellV
	infos  map[*ssa.Function]*fnInfo
	models map[string]modelFn
	rtypes map[*Term]types.Type

	special func(t *Term, typ types.Type) Value
	nonNilF func(t *Term, typ types.Type) bool
	hookFn  func(name string) modelFn // per-analysis overrides
	// decodeHook replaces the value and the rest asn1.Unmarshal yields
	decodeHook func(d *Term, typ types.Type, val *Term) (*Term, *Term)

	recov    []*recovery
	tent     int // >0: tentative run, nothing is recorded
	obls     map[string]*Obl
	unsup    map[string]int
	writes   map[string]*WriteEv
	unkExt   map[string]int
	log      []*Event // events of recorded runs
	logSeen  map[string]bool
	called   map[string]int
	stack    []*frame
	qs       []*Term
	iter     string
	curveObj *Obj
	curveVal *StructV
	ctxIDs   map[string]int

	decided, undecided map[*region]int
	decIf              map[ifKey]int
	constIf            map[ifKey]bool
	mixed              map[*region]bool
	loopCells          map[*gloop]map[cell]types.Type
	pendTerms          map[int]*Term
	lamWrites          map[string]bool
	elemOf             map[*Term]*Term
	oblHook            func(*Term)

	maxStates                 int
	steps                     int
	budget                    int
	at                        token.Pos                                // position of the next event
	onBranch                  func(c *Term, pos token.Pos)             // undecided branch conditions
	onIndex                   func(base Value, i *Term, pos token.Pos) // varying indexes
	modes                     map[*Obj]cbcMode
	maxUnroll                 int
	nLoops, nUnrolled, nPaths int
	initFail                  []*Obl
	initUnsup                 int
}

type WriteEv struct {
	root, obj, fn, pos, what string
}

type frame struct {
	fn     *ssa.Function
	ctx    string
	info   *fnInfo
	res    []*Result
	callAt string
	old    map[*Obj]bool // objects that existed when the call started
	pans   []panS
}

// panS is a path on which a called function panicked.
type panS struct {
	st  *State
	def []*deferred
	val Value
}

// recovery is a panic that the deferred function at a stack depth may recover.
type recovery struct {
	val   Value
	depth int
	done  bool
}

type FS struct {
	st  *State
	env map[ssa.Value]Value
	def []*deferred
}

type deferred struct {
	call *ssa.CallCommon
	args []Value
	fnv  Value
	ins  ssa.Instruction
}

type Result struct {
	st   *State
	vals []Value
	pan  Value // the function panicked with this value
}

func newEngine(ld *Loader) *Engine {
	e := &Engine{modes: map[*Obj]cbcMode{}, maxUnroll: maxUnroll, ld: ld, prog: ld.prog, objs: map[string]*Obj{}, refs: map[*Term]*Ptr{},
		base: map[cell]cellV{}, infos: map[*ssa.Function]*fnInfo{}, models: map[string]modelFn{},
		maxStates: 64, budget: 40000000, ctxIDs: map[string]int{},
		decIf: map[ifKey]int{}, constIf: map[ifKey]bool{}, mixed: map[*region]bool{}, decided: map[*region]int{}, undecided: map[*region]int{}, loopCells: map[*gloop]map[cell]types.Type{},
		pendTerms: map[int]*Term{}, lamWrites: map[string]bool{}, elemOf: map[*Term]*Term{}}
	e.resetRecords()
	installModels(e)
	return e
}

func (e *Engine) resetRecords() {
	e.obls = map[string]*Obl{}
	e.unsup = map[string]int{}
	e.writes = map[string]*WriteEv{}
	e.unkExt = map[string]int{}
	e.log = nil
	e.logSeen = map[string]bool{}
	e.called = map[string]int{}
	e.steps = 0
	e.nLoops, e.nUnrolled, e.nPaths = 0, 0, 0
}

type budgetExceeded struct{}

func (e *Engine) curFn() string {
	if len(e.stack) == 0 {
		return "?"
	}
	return e.stack[len(e.stack)-1].fn.String()
}

func (e *Engine) unsupported(f string, a ...interface{}) {
	if e.tent > 0 {
		return
	}
	e.unsup[e.curFn()+": "+fmt.Sprintf(f, a...)]++
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.ld.fset.Position(p)
	return fmt.Sprintf("%s:%d", e.ld.rel(q.Filename), q.Line)
}

func (e *Engine) nonNil(t *Term, typ types.Type) bool {
	if isBigIntPtr(typ) {
		return true
	}
	if e.nonNilF != nil {
		return e.nonNilF(t, typ)
	}
	return false
}

func (e *Engine) writeEvent(st *State, what string, o *Obj, off, v *Term) {
	if o.root != "" {
		e.event(st, "write", what, Sym("obj:"+o.key), off, v)
	}
}

func (e *Engine) event(st *State, kind, s string, args ...*Term) {
	ev := &Event{kind: kind, fn: e.curFn(), s: s, args: args}
	if e.at != token.NoPos {
		ev.pos = e.ld.fset.Position(e.at).String()
		e.at = token.NoPos
	}
	st.addEvent(ev)
	if e.tent == 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "%s|%s|%s", kind, ev.fn, s)
		for _, a := range args {
			fmt.Fprintf(&b, "|%d", tid(a))
		}
		if !e.logSeen[b.String()] {
			e.logSeen[b.String()] = true
			e.log = append(e.log, ev)
		}
	}
}

// oblige records that cond must hold at pos and continues with it assumed.
func (e *Engine) oblige(st *State, kind string, cond *Term, p token.Pos) bool {
	if cond == TTrue {
		e.recObl(kind, p, true, "", nil)
		return true
	}
	ok := st.facts.Eval(cond) == 1
	det := ""
	if !ok {
		det = cond.String()
	}
	e.recObl(kind, p, ok, det, st.facts)
	if !ok {
		if e.oblHook != nil {
			e.oblHook(cond)
		}
		st.facts = st.facts.Assume(cond, true)
		if st.facts.bot {
			return false
		}
	}
	return true
}

func (e *Engine) recObl(kind string, p token.Pos, ok bool, detail string, f *Facts) {
	if e.tent > 0 {
		return
	}
	fn := e.curFn()
	if kind == "terminates" && os.Getenv("GMV_TERM") != "" {
		fmt.Fprintln(os.Stderr, "LOOP", shortFn(fn), e.pos(p), ok, detail)
	}
	k := fmt.Sprintf("%s|%s|%d", fn, kind, p)
	o := e.obls[k]
	if o == nil {
		o = &Obl{fn: fn, kind: kind, pos: e.pos(p)}
		e.obls[k] = o
	}
	o.n++
	if !ok && !o.failed {
		o.failed = true
		o.detail = detail
		if f != nil {
			o.facts = f.String()
		}
	}
}

func (e *Engine) failedObls() []*Obl {
	var r []*Obl
	ks := make([]string, 0)
	for k, o := range e.obls {
		if o.failed && o.kind != "terminates" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, e.obls[k])
	}
	return r
}

func (e *Engine) noteWrite(st *State, o *Obj, what string) {
	if o == nil || o.root == "" || e.tent > 0 {
		return
	}
	k := o.root + "|" + e.curFn() + "|" + what
	if e.writes[k] == nil {
		chain := ""
		for _, f := range e.stack {
			chain += "/" + f.fn.Name()
		}
		e.writes[k] = &WriteEv{root: o.root, obj: o.key, fn: e.curFn(), what: what, pos: chain}
	}
}

func (e *Engine) freshName(st *State, site string) string {
	n := st.freshN(site)
	if n == 0 {
		return site
	}
	return fmt.Sprintf("%s#%d", site, n)
}

// freshTerm is an unknown value created at a site; inside generalised loops
// it depends on the loop counters.
func (e *Engine) freshTerm(st *State, site string, w int) *Term {
	n := e.freshName(st, site)
	if len(e.qs) == 0 {
		return SymW(n, w)
	}
	return rawOp("fresh", n, w, e.qs...)
}

// ---- function information --------------------------------------------------

type fnInfo struct {
	fn    *ssa.Function
	top   *region
	live  []map[ssa.Value]bool // live-in per block (without phis)
	loopH map[*ssa.BasicBlock]*region
	index map[ssa.Instruction]string
	inner map[*ssa.BasicBlock]*region
	steer map[*region]map[ssa.Value]bool
}

// region: the whole function or a natural loop
type region struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	kids   []*region
	parent *region
	order  []*ssa.BasicBlock // topological order of own blocks and child headers
	kidOf  map[*ssa.BasicBlock]*region
	name   string
}

// steers: the condition may change from one iteration of r to the next in a
// way a bounded number of iterations can exhaust (a loop variable, a memory
// cell or a range iterator), as opposed to the outcome of a call.
func (in *fnInfo) steers(r *region, c ssa.Value) bool {
	if b, ok := in.steer[r]; ok {
		if v, ok := b[c]; ok {
			return v
		}
	} else {
		if in.steer == nil {
			in.steer = map[*region]map[ssa.Value]bool{}
		}
		in.steer[r] = map[ssa.Value]bool{}
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		ins, ok := v.(ssa.Instruction)
		if !ok || !r.blocks[ins.Block()] {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == r.header {
				return true
			}
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
			// a phi chosen by a loop dependent branch
			for _, p := range x.Block().Preds {
				if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && walk(i.Cond) {
					return true
				}
			}
			return false
		case *ssa.BinOp:
			if isNilConst(x.X) || isNilConst(x.Y) {
				return false
			}
			return walk(x.X) || walk(x.Y)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return true
			}
			return walk(x.X)
		case *ssa.Convert:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.Slice:
			return walk(x.X) || x.Low != nil && walk(x.Low)
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Next); ok {
				return true
			}
			return false
		case *ssa.Field:
			return walk(x.X)
		case *ssa.Index:
			return walk(x.X) || walk(x.Index)
		case *ssa.Lookup:
			return walk(x.X) || walk(x.Index)
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				for _, a := range x.Call.Args {
					if walk(a) {
						return true
					}
				}
			}
			return false
		}
		return false
	}
	v := walk(c)
	in.steer[r][c] = v
	return v
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{fn: fn, loopH: map[*ssa.BasicBlock]*region{}, index: map[ssa.Instruction]string{}}
	e.infos[fn] = in
	for _, b := range fn.Blocks {
		for i, ins := range b.Instrs {
			in.index[ins] = fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	// natural loops
	var hs []*ssa.BasicBlock
	body := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if body[s] == nil {
					body[s] = map[*ssa.BasicBlock]bool{s: true}
					hs = append(hs, s)
				}
				var stk []*ssa.BasicBlock
				if !body[s][b] {
					body[s][b] = true
					stk = append(stk, b)
				}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					for _, p := range x.Preds {
						if !body[s][p] {
							body[s][p] = true
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool {
		if len(body[hs[i]]) != len(body[hs[j]]) {
			return len(body[hs[i]]) > len(body[hs[j]])
		}
		return hs[i].Index < hs[j].Index
	})
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	in.top = &region{header: fn.Blocks[0], blocks: all, name: fn.Name()}
	for _, h := range hs {
		r := &region{header: h, blocks: body[h], name: fmt.Sprintf("%s.%d", fn.Name(), h.Index)}
		p := in.top
	descend:
		for {
			for _, k := range p.kids {
				if k.blocks[h] && k.header != h {
					p = k
					continue descend
				}
			}
			break
		}
		r.parent = p
		p.kids = append(p.kids, r)
		in.loopH[h] = r
	}
	var fin func(r *region)
	fin = func(r *region) {
		r.kidOf = map[*ssa.BasicBlock]*region{}
		for _, k := range r.kids {
			for b := range k.blocks {
				r.kidOf[b] = k
			}
			fin(k)
		}
		// topological order over the collapsed graph
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if k := r.kidOf[b]; k != nil {
				b = k.header
			}
			if seen[b] {
				return
			}
			seen[b] = true
			visit := func(x *ssa.BasicBlock) {
				for _, s := range x.Succs {
					if !r.blocks[s] || (s == r.header && r != in.top) {
						continue
					}
					if k := r.kidOf[b]; k != nil && k.blocks[s] {
						continue
					}
					dfs(s)
				}
			}
			if k := r.kidOf[b]; k != nil {
				var bs []*ssa.BasicBlock
				for x := range k.blocks {
					bs = append(bs, x)
				}
				sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
				for _, x := range bs {
					visit(x)
				}
			} else {
				visit(b)
			}
			post = append(post, b)
		}
		dfs(r.header)
		for i := len(post) - 1; i >= 0; i-- {
			r.order = append(r.order, post[i])
		}
	}
	fin(in.top)
	in.inner = map[*ssa.BasicBlock]*region{}
	var inn func(r *region)
	inn = func(r *region) {
		for b := range r.blocks {
			in.inner[b] = r
		}
		for _, k := range r.kids {
			inn(k)
		}
	}
	inn(in.top)
	in.liveness()
	return in
}

func isEnvVal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (in *fnInfo) liveness() {
	n := len(in.fn.Blocks)
	in.live = make([]map[ssa.Value]bool, n)
	for i := range in.live {
		in.live[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := in.fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in.live[s.Index] {
					cur[v] = true
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, phi)
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if isEnvVal(phi.Edges[pi]) {
						cur[phi.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(cur, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isEnvVal(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(in.live[i]) {
				in.live[i] = cur
				changed = true
			} else {
				for v := range cur {
					if !in.live[i][v] {
						in.live[i] = cur
						changed = true
						break
					}
				}
			}
		}
	}
}

// liveAt: values needed at the start of block b (phis of b included)
func (in *fnInfo) liveAt(b *ssa.BasicBlock) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	for v := range in.live[b.Index] {
		m[v] = true
	}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Referrers() != nil && len(*phi.Referrers()) > 0 {
			m[phi] = true
		}
	}
	return m
}

// ---- frame states ------------------------------------------------------------

func (f *FS) clone() *FS {
	n := &FS{st: f.st.clone(), env: make(map[ssa.Value]Value, len(f.env)+4), def: f.def}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

type edge struct{ from, to *ssa.BasicBlock }

type exitS struct {
	ed edge
	fs *FS
}

// ---- execution -----------------------------------------------------------------

// Run analyses fn with the given arguments from st.
func (e *Engine) Run(fn *ssa.Function, args []Value, st *State) []*Result {
	return e.callFn(fn, args, nil, st, "")
}

func (e *Engine) newState() *State {
	return &State{mem: map[cell]cellV{}, alive: map[*Obj]bool{}, facts: NoFacts, gen: map[string]int{}, pend: map[string]string{}}
}

func (e *Engine) ctxID(s string) string {
	n, ok := e.ctxIDs[s]
	if !ok {
		n = len(e.ctxIDs) + 1
		e.ctxIDs[s] = n
	}
	return fmt.Sprintf("k%d", n)
}

func (e *Engine) callFn(fn *ssa.Function, args []Value, binds []Value, st *State, site string) []*Result {
	if len(fn.Blocks) == 0 {
		e.unsupported("no body: %s", fn)
		return nil
	}
	if len(e.stack) > 60 {
		e.unsupported("call depth")
		return nil
	}
	fr := &frame{fn: fn, ctx: e.ctxID(site + ">" + fn.String()), info: e.info(fn), callAt: site}
	e.stack = append(e.stack, fr)
	if e.tent == 0 {
		e.called[fn.String()]++
	}
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fs := &FS{st: st, env: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fs.env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fs.env[v] = binds[i]
		}
	}
	fr.old = make(map[*Obj]bool, len(st.alive))
	for o := range st.alive {
		fr.old[o] = true
	}
	e.execRegion(fr, fr.info.top, []*FS{fs})
	var thrown []*Result
	for _, p := range fr.pans {
		a, b := e.unwind(fr, p)
		fr.res, thrown = append(fr.res, a...), append(thrown, b...)
	}
	e.canonResults(fr, fr.res)
	return append(e.mergeResults(fr.res), thrown...)
}

// unwind runs the deferred calls of a panicking function.
func (e *Engine) unwind(fr *frame, p panS) (rec, thrown []*Result) {
	type ps struct {
		st *State
		r  *recovery
	}
	cur := []ps{{p.st, &recovery{val: p.val, depth: len(e.stack) + 1}}}
	for i := len(p.def) - 1; i >= 0; i-- {
		c, ok := p.def[i].fnv.(*Closure)
		if !ok || c.fn == nil {
			e.unsupported("deferred call")
			continue
		}
		var next []ps
		for _, q := range cur {
			r := *q.r
			e.recov = append(e.recov, &r)
			rs := e.callFn(c.fn, p.def[i].args, c.binds, q.st, e.site(fr, p.def[i].ins)+fmt.Sprint("p", i))
			e.recov = e.recov[:len(e.recov)-1]
			for _, x := range rs {
				if x.pan != nil {
					// thrown again; deferred calls before it are not modelled
					if i > 0 {
						e.unsupported("panic in a deferred call")
					}
					thrown = append(thrown, x)
					continue
				}
				next = append(next, ps{x.st, &r})
			}
		}
		cur = next
	}
	for _, q := range cur {
		if !q.r.done {
			thrown = append(thrown, &Result{st: q.st, pan: p.val})
			continue
		}
		if fr.fn.Signature.Results().Len() > 0 {
			e.unsupported("results after a recovered panic")
			continue
		}
		rec = append(rec, &Result{st: q.st})
	}
	return
}

// rethrown: a value recovered from a panic of the code outside.
func (e *Engine) rethrown(v Value) bool {
	i, ok := v.(*Iface)
	if !ok {
		return false
	}
	for _, r := range e.recov {
		if w, ok := r.val.(*Iface); ok && r.done && (w == i || w.t != nil && w.t == i.t || w.typ != nil && w.typ == i.typ && w.val == i.val) {
			return true
		}
	}
	return false
}

func (e *Engine) mergeResults(rs []*Result) []*Result {
	if len(rs) < 2 {
		return rs
	}
	grp := map[string][]*FS{}
	val := map[string][]Value{}
	var order []string
	full := map[string]bool{}
	for _, r := range rs {
		var b strings.Builder
		for _, v := range r.vals {
			vkey(&b, v)
			b.WriteByte('|')
		}
		b.WriteString(r.st.memKey())
		fmt.Fprintf(&b, "%s%s", r.st.evKey(), r.st.pendKey())
		k := b.String()
		fk := k + r.st.facts.Key()
		if full[fk] {
			continue
		}
		full[fk] = true
		if grp[k] == nil {
			order = append(order, k)
			val[k] = r.vals
		}
		grp[k] = append(grp[k], &FS{st: r.st})
	}
	var out []*Result
	for _, k := range order {
		for _, fs := range mergeExact(grp[k]) {
			out = append(out, &Result{st: fs.st, vals: val[k]})
		}
	}
	return out
}

// execRegion runs the region from its header; returns states leaving it
// (including along back edges to the header).
func (e *Engine) execRegion(fr *frame, r *region, entry []*FS) []exitS {
	return e.execRegionAt(fr, r, r.header, entry)
}

func (e *Engine) execRegionAt(fr *frame, r *region, start *ssa.BasicBlock, entry []*FS) []exitS {
	pend := map[*ssa.BasicBlock][]*FS{start: entry}
	var exits []exitS
	route := func(ed edge, fs *FS) {
		if !r.blocks[ed.to] || (ed.to == r.header && r.parent != nil) {
			exits = append(exits, exitS{ed, fs})
			return
		}
		to := ed.to
		if k := r.kidOf[to]; k != nil && k.header != to {
			e.unsupported("irreducible loop")
			return
		}
		pend[to] = append(pend[to], fs)
	}
	for _, b := range r.order {
		states := pend[b]
		delete(pend, b)
		if len(states) == 0 {
			continue
		}
		states = e.merge(fr, b, states)
		if k := r.kidOf[b]; k != nil {
			for _, fs := range states {
				for _, x := range e.execLoop(fr, k, fs) {
					route(x.ed, x.fs)
				}
			}
			continue
		}
		for _, fs := range states {
			for _, x := range e.execBlock(fr, b, fs) {
				route(x.ed, x.fs)
			}
		}
	}
	return exits
}

func (e *Engine) merge(fr *frame, b *ssa.BasicBlock, states []*FS) []*FS {
	live := fr.info.liveAt(b)
	var liveL []ssa.Value
	for v := range live {
		liveL = append(liveL, v)
	}
	sort.Slice(liveL, func(i, j int) bool { return liveL[i].Name() < liveL[j].Name() })
	for _, fs := range states {
		for v := range fs.env {
			if !live[v] {
				delete(fs.env, v)
			}
		}
	}
	if len(states) > 1 {
		for _, fs := range states {
			e.gcFS(fr, liveL, fs)
		}
	}
	if len(states) < 2 {
		return states
	}
	type grp struct {
		fs []*FS
	}
	shape := map[string]*grp{}
	var order []string
	full := map[string]bool{}
	n := 0
	for _, fs := range states {
		var sb strings.Builder
		for _, v := range liveL {
			sb.WriteString(v.Name())
			sb.WriteByte('=')
			vkey(&sb, fs.env[v])
			sb.WriteByte(';')
		}
		sb.WriteString(fs.st.memKey())
		fmt.Fprintf(&sb, "|%s|%d|%s", fs.st.pendKey(), len(fs.def), fs.st.evKey())
		k := sb.String()
		fk := k + "|" + fs.st.facts.Key()
		if full[fk] {
			continue
		}
		full[fk] = true
		if shape[k] == nil {
			shape[k] = &grp{}
			order = append(order, k)
		}
		shape[k].fs = append(shape[k].fs, fs)
		n++
	}
	var out []*FS
	for _, k := range order {
		g := shape[k]
		if n > e.maxStates && len(g.fs) > 1 {
			var facts []*Facts
			for _, fs := range g.fs {
				facts = append(facts, fs.st.facts)
			}
			g.fs[0].st.facts = joinFacts(facts)
			out = append(out, g.fs[0])
			continue
		}
		out = append(out, mergeExact(g.fs)...)
	}
	if len(out) > e.maxStates {
		out = []*FS{e.joinAll(fr, b, liveL, out)}
	}
	return out
}

// mergeExact unites states that differ only in facts when that loses nothing.
func mergeExact(fs []*FS) []*FS {
	for changed := true; changed && len(fs) > 1; {
		changed = false
	pairs:
		for i := range fs {
			for j := i + 1; j < len(fs); j++ {
				if u := exactUnion(fs[i].st.facts, fs[j].st.facts); u != nil {
					fs[i].st.facts = u
					fs = append(append([]*FS(nil), fs[:j]...), fs[j+1:]...)
					changed = true
					break pairs
				}
			}
		}
	}
	return fs
}

// joinAll over-approximates several states by one.
func (e *Engine) joinAll(fr *frame, b *ssa.BasicBlock, live []ssa.Value, states []*FS) *FS {
	r := states[0].clone()
	var facts []*Facts
	for _, s := range states {
		facts = append(facts, s.st.facts)
	}
	r.st.facts = joinFacts(facts)
	site := fmt.Sprintf("join@%s.%d", fr.ctx, b.Index)
	k := 0
	phi := func(vals []Value, typ types.Type) Value {
		k++
		return e.joinVals(r.st, fmt.Sprintf("%s.%d", site, k), vals, typ)
	}
	for _, v := range live {
		var vs []Value
		same := true
		for _, s := range states {
			vs = append(vs, s.env[v])
			if !sameVal(s.env[v], states[0].env[v]) {
				same = false
			}
		}
		if !same {
			r.env[v] = phi(vs, v.Type())
		}
	}
	cells := map[cell]types.Type{}
	for _, s := range states {
		for c, v := range s.st.mem {
			cells[c] = v.t
		}
		for o := range s.st.alive {
			r.st.alive[o] = true
		}
		for p, v := range s.st.pend {
			if _, ok := r.st.pend[p]; !ok {
				np := map[string]string{p: v}
				for a, b := range r.st.pend {
					np[a] = b
				}
				r.st.pend = np
			}
		}
	}
	var cl []cell
	for c := range cells {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, j int) bool {
		if cl[i].obj.id != cl[j].obj.id {
			return cl[i].obj.id < cl[j].obj.id
		}
		return cl[i].path < cl[j].path
	})
	for _, c := range cl {
		var vs []Value
		same := true
		for _, s := range states {
			v := e.rawLoad(s.st, c.obj, c.path, cells[c])
			vs = append(vs, v)
			if !sameVal(v, vs[0]) {
				same = false
			}
		}
		if same {
			r.st.mem[c] = cellV{vs[0], cells[c]}
		} else {
			r.st.mem[c] = cellV{phi(vs, cells[c]), cells[c]}
		}
	}
	return r
}

// joinVals: an unknown value standing for any of vals.
func (e *Engine) joinVals(st *State, name string, vals []Value, typ types.Type) Value {
	switch v0 := vals[0].(type) {
	case *Term:
		if isSeqOp(v0) || isString(typ) {
			same := true
			l := SeqLen(v0)
			for _, v := range vals {
				t, ok := v.(*Term)
				if !ok || SeqLen(t) != l {
					same = false
				}
			}
			base := Sym("jn:" + name)
			if same {
				return SubBase(base, C(0), l)
			}
			return SubBase(base, C(0), LenOf(base))
		}
		s := SymW("jn:"+name, uwidth(typ))
		return s
	case *Slice:
		sameObj := true
		for _, v := range vals {
			s, ok := v.(*Slice)
			if !ok || s.obj != v0.obj || s.path != v0.path {
				sameObj = false
			}
		}
		if sameObj {
			jn := func(k string, f func(*Slice) *Term) *Term {
				for _, v := range vals {
					if f(v.(*Slice)) != f(v0) {
						return Sym("jn:" + name + k)
					}
				}
				return f(v0)
			}
			return &Slice{obj: v0.obj, path: v0.path, off: jn("o", func(s *Slice) *Term { return s.off }),
				len: jn("l", func(s *Slice) *Term { return s.len }), cap: jn("c", func(s *Slice) *Term { return s.cap }),
				nilT: jn("n", func(s *Slice) *Term { return s.nilT })}
		}
	case *Closure:
		return &Closure{t: Sym("jn:" + name), nilT: Sym("jn:" + name + "n")}
	case *StructV:
		s := v0.typ.Underlying().(*types.Struct)
		f := make([]Value, len(v0.f))
		for i := range f {
			var vs []Value
			same := true
			for _, v := range vals {
				vs = append(vs, v.(*StructV).f[i])
				if !sameVal(v.(*StructV).f[i], v0.f[i]) {
					same = false
				}
			}
			if same {
				f[i] = v0.f[i]
			} else {
				f[i] = e.joinVals(st, fmt.Sprintf("%s.%d", name, i), vs, s.Field(i).Type())
			}
		}
		return &StructV{typ: v0.typ, f: f}
	case Tuple:
		tt, ok := typ.(*types.Tuple)
		if ok {
			r := make(Tuple, len(v0))
			for i := range r {
				var vs []Value
				for _, v := range vals {
					vs = append(vs, v.(Tuple)[i])
				}
				r[i] = e.joinVals(st, fmt.Sprintf("%s.%d", name, i), vs, tt.At(i).Type())
			}
			return r
		}
	}
	return e.fromTerm(Sym("jn:"+name), typ)
}

func (e *Engine) execBlock(fr *frame, b *ssa.BasicBlock, fs *FS) []exitS {
	cur := []*FS{fs}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		e.steps += len(cur)
		if e.steps > e.budget {
			panic(budgetExceeded{})
		}
		switch x := ins.(type) {
		case *ssa.If:
			var out []exitS
			for _, f := range cur {
				c, ok := e.val(f, x.Cond).(*Term)
				if !ok {
					e.unsupported("condition %T", e.val(f, x.Cond))
					c = e.freshTerm(f.st, "cond@"+fr.ctx+fr.info.index[ins], 0)
				}
				ev := f.st.facts.Eval(c)
				if e.onBranch != nil && !c.isC() {
					e.onBranch(c, x.Cond.Pos())
				}
				for r := fr.info.inner[b]; r != nil && r.parent != nil; r = r.parent {
					if !r.blocks[b.Succs[0]] || !r.blocks[b.Succs[1]] {
						if ev != 0 {
							if fr.info.steers(r, x.Cond) {
								e.decided[r]++
								k := ifKey{r, x}
								e.decIf[k] |= 1 << uint(ev+1)
								if e.decIf[k] == 5 {
									e.mixed[r] = true
								}
								if c == TTrue || c == TFalse {
									e.constIf[k] = true
								} else {
									delete(e.constIf, k)
								}
							}
						} else {
							e.undecided[r]++
						}
					}
				}
				switch ev {
				case 1:
					out = append(out, e.flow(fr, b, b.Succs[0], f))
				case -1:
					out = append(out, e.flow(fr, b, b.Succs[1], f))
				default:
					g := f.clone()
					f.st.facts = f.st.facts.Assume(c, true)
					g.st.facts = g.st.facts.Assume(c, false)
					if !f.st.facts.bot {
						out = append(out, e.flow(fr, b, b.Succs[0], f))
					}
					if !g.st.facts.bot {
						out = append(out, e.flow(fr, b, b.Succs[1], g))
					}
				}
			}
			return out
		case *ssa.Jump:
			var out []exitS
			for _, f := range cur {
				out = append(out, e.flow(fr, b, b.Succs[0], f))
			}
			return out
		case *ssa.Return:
			for _, f := range cur {
				var vs []Value
				for _, r := range x.Results {
					vs = append(vs, e.val(f, r))
				}
				if e.tent == 0 {
					e.nPaths++
				}
				fr.res = append(fr.res, &Result{st: f.st, vals: vs})
			}
			return nil
		case *ssa.Panic:
			for _, f := range cur {
				if v := e.val(f, x.X); e.rethrown(v) && e.tent == 0 {
					fr.pans = append(fr.pans, panS{f.st, f.def, v})
					continue
				}
				e.recObl("panic", x.Pos(), false, "explicit panic reachable", f.st.facts)
			}
			return nil
		default:
			var next []*FS
			for _, f := range cur {
				next = append(next, e.execInstr(fr, ins, f)...)
			}
			cur = next
			if len(cur) == 0 {
				return nil
			}
		}
	}
	return nil
}

// flow moves a state along a CFG edge, resolving the phis of the target.
func (e *Engine) flow(fr *frame, from, to *ssa.BasicBlock, fs *FS) exitS {
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	var phis []*ssa.Phi
	var vs []Value
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vs = append(vs, e.val(fs, phi.Edges[pi]))
	}
	for i, p := range phis {
		fs.env[p] = vs[i]
	}
	return exitS{edge{from, to}, fs}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	typ := c.Type()
	if c.Value == nil {
		return e.zero(typ)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return CBool(constant.BoolVal(c.Value))
	case constant.String:
		return Bytes(constant.StringVal(c.Value))
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return CB(b)
	}
	return Sym("const:" + c.Value.ExactString())
}

func (e *Engine) globalPtr(g *ssa.Global) *Ptr {
	o := e.globalObj(g)
	return &Ptr{obj: o, nilT: TFalse}
}

func (e *Engine) globalObj(g *ssa.Global) *Obj {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	o := e.objOf("glob:"+name, g.Type().(*types.Pointer).Elem())
	o.root = "global " + name
	if !e.ld.inModule(g.Pkg.Pkg) {
		o.sym = Sym("glob:" + name)
	}
	return o
}

func (e *Engine) val(fs *FS, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return &Closure{fn: x, nilT: TFalse}
	case *ssa.Builtin:
		return &Builtin{x.Name()}
	}
	r, ok := fs.env[v]
	if !ok {
		e.unsupported("undefined value %s", v.Name())
		return e.fromTerm(Sym("undef:"+v.Name()), v.Type())
	}
	return r
}

func (e *Engine) term(fs *FS, v ssa.Value) *Term {
	switch t := e.val(fs, v).(type) {
	case *Term:
		return t
	case *ArrV:
		return t.seq
	default:
		e.unsupported("term of %T (%s)", t, v.Name())
		return Sym("?" + v.Name())
	}
}

func (e *Engine) site(fr *frame, ins ssa.Instruction) string {
	return fr.ctx + e.iter + "." + fr.info.index[ins]
}

func (e *Engine) alloc(st *State, site string, typ types.Type) *Obj {
	key := e.freshName(st, "new:"+site)
	o := e.objOf(key, typ)
	if !types.Identical(o.typ, typ) {
		o = e.objOf(key+":"+typeStr(typ), typ)
	}
	for c := range st.mem {
		if c.obj == o {
			delete(st.mem, c)
		}
	}
	st.alive[o] = true
	return o
}

// allocSeq: a fresh backing store with the given content.
func (e *Engine) allocSeq(st *State, site string, sliceT types.Type, content *Term) *Slice {
	o := e.alloc(st, site, sliceT)
	l := SeqLen(content)
	e.setContent(st, o, "", content)
	return &Slice{obj: o, off: C(0), len: l, cap: l, nilT: TFalse}
}

func (e *Engine) newBig(st *State, site string, v *Term) *Ptr {
	o := e.alloc(st, site, e.ld.bigIntType())
	st.mem[cell{o, ""}] = cellV{v, o.typ}
	return &Ptr{obj: o, nilT: TFalse}
}

func (e *Engine) execInstr(fr *frame, ins ssa.Instruction, fs *FS) []*FS {
	overBudget()
	st := fs.st
	one := []*FS{fs}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		fs.env[x] = &Ptr{obj: e.alloc(st, e.site(fr, ins), t), nilT: TFalse}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v, ok := e.load(fs, e.val(fs, x.X), x.Type(), x.Pos())
			if !ok {
				return nil
			}
			fs.env[x] = v
		case token.NOT:
			fs.env[x] = Not(e.term(fs, x.X))
		case token.SUB:
			t := e.term(fs, x.X)
			if w := uwidth(x.Type()); w > 0 {
				fs.env[x] = e.wrap(st, w, Neg(t))
			} else {
				fs.env[x] = Neg(t)
			}
		case token.XOR:
			t := e.term(fs, x.X)
			if w := uwidth(x.Type()); w > 0 {
				fs.env[x] = BNot(w, t)
			} else {
				fs.env[x] = Sub(C(-1), t)
			}
		default:
			e.unsupported("unop %s", x.Op)
			fs.env[x] = e.fromTerm(e.freshTerm(st, e.site(fr, ins), 0), x.Type())
		}
	case *ssa.BinOp:
		fs.env[x] = e.binop(fs, x)
	case *ssa.Convert:
		fs.env[x] = e.convert(fr, ins, fs, e.val(fs, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fs.env[x] = e.convert(fr, ins, fs, e.val(fs, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		v := e.val(fs, x.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{typ: x.Type(), f: s.f}
		}
		if a, ok := v.(*ArrV); ok {
			v = &ArrV{x.Type().Underlying().(*types.Array), a.seq}
		}
		fs.env[x] = v
	case *ssa.ChangeInterface:
		fs.env[x] = e.val(fs, x.X)
	case *ssa.MakeInterface:
		fs.env[x] = &Iface{typ: x.X.Type(), val: e.val(fs, x.X), nilT: TFalse}
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fs, b))
		}
		fs.env[x] = &Closure{fn: x.Fn.(*ssa.Function), binds: bs, nilT: TFalse}
	case *ssa.MakeSlice:
		l, c := e.term(fs, x.Len), e.term(fs, x.Cap)
		if !e.oblige(st, "make: negative length", GE0(l), x.Pos()) {
			return nil
		}
		if c != l && !e.oblige(st, "make: len > cap", Le(l, c), x.Pos()) {
			return nil
		}
		o := e.alloc(st, e.site(fr, ins), x.Type())
		e.setContent(st, o, "", e.zeroSeq(elemType(x.Type()), c))
		fs.env[x] = &Slice{obj: o, off: C(0), len: l, cap: c, nilT: TFalse}
	case *ssa.MakeMap:
		o := e.alloc(st, e.site(fr, ins), x.Type())
		st.mem[cell{o, "map"}] = cellV{EmptySeq, types.Typ[types.String]}
		t := Sym("map:" + o.key)
		e.refs[t] = &Ptr{obj: o, nilT: TFalse}
		fs.env[x] = &MapV{t}
	case *ssa.MakeChan:
		e.unsupported("channel")
		fs.env[x] = Sym("chan")
	case *ssa.FieldAddr:
		p, ok := e.val(fs, x.X).(*Ptr)
		if !ok {
			e.unsupported("fieldaddr of %T", e.val(fs, x.X))
			return nil
		}
		if !e.checkNil(st, p, x.Pos()) {
			return nil
		}
		if p.idx != nil {
			fs.env[x] = &Ptr{obj: p.obj, path: p.path, idx: p.idx, sub: fmt.Sprintf("%s.%d", p.sub, x.Field), nilT: TFalse}
		} else {
			fs.env[x] = &Ptr{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, x.Field), nilT: TFalse}
		}
	case *ssa.Field:
		switch s := e.val(fs, x.X).(type) {
		case *StructV:
			fs.env[x] = s.f[x.Field]
		case *Term:
			u := x.X.Type().Underlying().(*types.Struct)
			fs.env[x] = e.fromTerm(projTerm(s, x.Field, u), x.Type())
		default:
			e.unsupported("field of %T", s)
			return nil
		}
	case *ssa.IndexAddr:
		i := e.term(fs, x.Index)
		if e.onIndex != nil && !i.isC() {
			e.onIndex(e.val(fs, x.X), i, x.Pos())
		}
		switch p := e.val(fs, x.X).(type) {
		case *Slice:
			if !e.bounds(st, i, p.len, x.Pos()) || p.obj == nil {
				return nil
			}
			fs.env[x] = &Ptr{obj: p.obj, path: p.path, idx: Add(p.off, i), nilT: TFalse}
		case *Ptr:
			if !e.checkNil(st, p, x.Pos()) {
				return nil
			}
			a := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !e.bounds(st, i, C(a.Len()), x.Pos()) {
				return nil
			}
			if p.idx != nil {
				e.unsupported("array inside element")
				return nil
			}
			fs.env[x] = &Ptr{obj: p.obj, path: p.path, idx: i, nilT: TFalse}
		default:
			e.unsupported("indexaddr of %T", p)
			return nil
		}
	case *ssa.Index:
		i := e.term(fs, x.Index)
		et := x.Type()
		if e.onIndex != nil && !i.isC() {
			e.onIndex(e.val(fs, x.X), i, x.Pos())
		}
		switch a := e.val(fs, x.X).(type) {
		case *ArrV:
			if !e.bounds(st, i, C(a.typ.Len()), x.Pos()) {
				return nil
			}
			fs.env[x] = e.fromTerm(AtSeqW(a.seq, i, st.facts, uwidth(et)), et)
		case *Term:
			if !e.bounds(st, i, SeqLen(a), x.Pos()) {
				return nil
			}
			fs.env[x] = AtSeqW(a, i, st.facts, 8)
		default:
			e.unsupported("index of %T", a)
			return nil
		}
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			s := e.term(fs, x.X)
			i := e.term(fs, x.Index)
			if !e.bounds(st, i, SeqLen(s), x.Pos()) {
				return nil
			}
			fs.env[x] = AtSeqW(s, i, st.facts, 8)
			break
		}
		mt := x.X.Type().Underlying().(*types.Map)
		s := e.site(fr, ins)
		if hits := e.mapGet(st, e.val(fs, x.X), e.val(fs, x.Index), mt); hits != nil {
			var out []*FS
			for i, h := range hits {
				n := fs
				if i < len(hits)-1 {
					n = fs.clone()
				}
				n.st.facts = h.F
				v, ok := h.v, TTrue
				if v == nil {
					v, ok = e.zero(mt.Elem()), TFalse
				}
				if x.CommaOk {
					n.env[x] = Tuple{v, ok}
				} else {
					n.env[x] = v
				}
				out = append(out, n)
			}
			return out
		}
		v := e.fromTerm(e.freshTerm(st, "mapget@"+s, uwidth(mt.Elem())), mt.Elem())
		if x.CommaOk {
			fs.env[x] = Tuple{v, e.freshTerm(st, "mapok@"+s, 0)}
		} else {
			fs.env[x] = v
		}
	case *ssa.MapUpdate:
		m, _ := e.val(fs, x.Map).(*MapV)
		if c := e.mapCell(m); c != nil {
			mt := x.Map.Type().Underlying().(*types.Map)
			cv := e.mapMem(st, *c)
			old, _ := cv.v.(*Term)
			if old != nil && cv.t == types.Typ[types.String] {
				ent := rawOp("mapent", "", 0, e.reify(st, e.val(fs, x.Key), mt.Key()), e.reify(st, e.val(fs, x.Value), mt.Elem()))
				st.mem[*c] = cellV{MkSeq(old, ElemW(ent)), types.Typ[types.String]}
			}
		}
		if m != nil && rootOf(m.t) != "" {
			e.noteWrite(st, &Obj{root: rootOf(m.t), key: m.t.String()}, "map update")
		}
	case *ssa.Slice:
		v, ok := e.slice(fr, fs, x)
		if !ok {
			return nil
		}
		fs.env[x] = v
	case *ssa.SliceToArrayPointer:
		s, ok := e.val(fs, x.X).(*Slice)
		if !ok {
			e.unsupported("slice to array")
			return nil
		}
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !e.oblige(st, "slice to array: length", Le(C(n), s.len), x.Pos()) {
			return nil
		}
		// copy semantics (the pointer aliases the slice)
		if s.obj != nil && s.off.isCi(0) {
			o := e.alloc(st, e.site(fr, ins), x.Type().Underlying().(*types.Pointer).Elem())
			e.setContent(st, o, "", subSeqOr(st.facts, e.content(st, s.obj, s.path), s.off, C(n)))
			fs.env[x] = &Ptr{obj: o, nilT: TFalse}
		} else {
			o := e.alloc(st, e.site(fr, ins), x.Type().Underlying().(*types.Pointer).Elem())
			if s.obj != nil {
				e.setContent(st, o, "", subSeqOr(st.facts, e.content(st, s.obj, s.path), s.off, C(n)))
			}
			fs.env[x] = &Ptr{obj: o, nilT: TFalse}
		}
	case *ssa.Store:
		if !e.store(fs, e.val(fs, x.Addr), e.val(fs, x.Val), x.Val.Type(), x.Pos()) {
			return nil
		}
	case *ssa.Extract:
		tv := e.val(fs, x.Tuple)
		t, ok := tv.(Tuple)
		if !ok || x.Index >= len(t) {
			e.unsupported("extract of %T", tv)
			return nil
		}
		fs.env[x] = t[x.Index]
	case *ssa.TypeAssert:
		return e.typeAssert(fr, fs, x)
	case *ssa.Range:
		it := &IterV{obj: e.alloc(st, e.site(fr, ins), types.Typ[types.Int]), x: e.val(fs, x.X)}
		if t, ok := it.x.(*Term); ok && isString(x.X.Type()) {
			if _, ok := constStr(t); ok {
				st.mem[cell{it.obj, ""}] = cellV{C(0), types.Typ[types.Int]}
			}
		}
		fs.env[x] = it
	case *ssa.Next:
		s := e.site(fr, ins)
		tt := x.Type().(*types.Tuple)
		ok := e.freshTerm(st, "more@"+s, 0)
		var k, v Value
		it, _ := e.val(fs, x.Iter).(*IterV)
		if x.IsString && it != nil {
			str := it.x.(*Term)
			if b, ok := constStr(str); ok {
				pv, _ := st.mem[cell{it.obj, ""}].v.(*Term)
				if pv != nil && pv.isC() {
					p, _ := pv.i64()
					if p >= int64(len(b)) {
						fs.env[x] = Tuple{TFalse, C(0), C(0)}
						break
					}
					r, n := utf8.DecodeRuneInString(b[p:])
					st.mem[cell{it.obj, ""}] = cellV{C(p + int64(n)), types.Typ[types.Int]}
					fs.env[x] = Tuple{TTrue, C(p), C(int64(r))}
					break
				}
			}
			i := e.freshTerm(st, "pos@"+s, 0)
			g := fs.clone()
			fs.st.facts = fs.st.facts.Assume(GE0(i), true).Assume(Lt(i, SeqLen(str)), true).Assume(ok, true)
			fs.env[x] = Tuple{TTrue, i, rawOp("rune", "", 0, str, i)}
			g.st.facts = g.st.facts.Assume(ok, false)
			g.env[x] = Tuple{TFalse, C(0), C(0)}
			if fs.st.facts.bot {
				return []*FS{g}
			}
			return []*FS{fs, g}
		}
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			k = e.fromTerm(e.freshTerm(st, "key@"+s, 0), tt.At(1).Type())
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			v = e.fromTerm(e.freshTerm(st, "elem@"+s, 0), tt.At(2).Type())
		}
		fs.env[x] = Tuple{ok, k, v}
	case *ssa.Call:
		rs := e.call(fr, fs, &x.Call, ins)
		var out []*FS
		if n := len(rs); n > 0 {
			keep := rs[:0:0]
			for _, r := range rs {
				if r.pan == nil {
					keep = append(keep, r)
				} else if e.tent > 0 {
					e.unsupported("panic in a generalised loop")
				} else {
					fr.pans = append(fr.pans, panS{r.st, fs.def, r.pan})
				}
			}
			rs = keep
		}
		for i, r := range rs {
			g := fs
			if i < len(rs)-1 {
				g = &FS{st: r.st, env: make(map[ssa.Value]Value, len(fs.env)+1), def: fs.def}
				for k, v := range fs.env {
					g.env[k] = v
				}
			} else {
				g.st = r.st
			}
			if g.st.facts.bot {
				continue
			}
			switch len(r.vals) {
			case 0:
			case 1:
				if x.Type() != nil {
					if _, ok := x.Type().(*types.Tuple); ok {
						g.env[x] = Tuple(r.vals)
					} else {
						g.env[x] = r.vals[0]
					}
				}
			default:
				g.env[x] = Tuple(r.vals)
			}
			out = append(out, g)
		}
		return out
	case *ssa.Defer:
		d := &deferred{call: &x.Call, ins: ins}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fs, a))
		}
		if !x.Call.IsInvoke() {
			d.fnv = e.val(fs, x.Call.Value)
		}
		fs.def = append(append([]*deferred(nil), fs.def...), d)
	case *ssa.RunDefers:
		cur := one
		ds := fs.def
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*FS
			for _, f := range cur {
				c, ok := ds[i].fnv.(*Closure)
				if !ok || c.fn == nil {
					e.unsupported("deferred call")
					next = append(next, f)
					continue
				}
				for _, r := range e.callFn(c.fn, ds[i].args, c.binds, f.st, e.site(fr, ins)+fmt.Sprint("d", i)) {
					g := &FS{st: r.st, env: map[ssa.Value]Value{}}
					for k, v := range f.env {
						g.env[k] = v
					}
					next = append(next, g)
				}
			}
			cur = next
		}
		return cur
	case *ssa.Go:
		e.unsupported("go statement")
	case *ssa.Send, *ssa.Select:
		e.unsupported("channel operation")
		return nil
	default:
		e.unsupported("instruction %T", ins)
		if v, ok := ins.(ssa.Value); ok {
			fs.env[v] = e.fromTerm(e.freshTerm(st, e.site(fr, ins), 0), v.Type())
		}
	}
	return one
}

func (e *Engine) bounds(st *State, i, n *Term, p token.Pos) bool {
	if !e.oblige(st, "index below zero", GE0(i), p) {
		return false
	}
	return e.oblige(st, "index out of range", Lt(i, n), p)
}

func (e *Engine) checkNil(st *State, p *Ptr, pos token.Pos) bool {
	if p.nilT == TFalse {
		return true
	}
	if p.obj == nil {
		e.recObl("nil pointer", pos, false, "nil pointer dereference", st.facts)
		return false
	}
	return e.oblige(st, "nil pointer", Not(p.nilT), pos)
}

func (e *Engine) load(fs *FS, a Value, t types.Type, pos token.Pos) (Value, bool) {
	p, ok := a.(*Ptr)
	if !ok {
		e.unsupported("load through %T", a)
		return nil, false
	}
	if !e.checkNil(fs.st, p, pos) {
		return nil, false
	}
	return e.loadPtr(fs.st, p, t), true
}

func (e *Engine) loadPtr(st *State, p *Ptr, t types.Type) Value {
	if p.idx == nil {
		return e.loadAt(st, p.obj, p.path, t)
	}
	c := e.content(st, p.obj, p.path)
	et := elemType(typeAtPath(p.obj.typ, p.path))
	x := AtSeqW(c, p.idx, st.facts, uwidth(et))
	for _, ix := range splitPath(p.sub) {
		s := et.Underlying().(*types.Struct)
		if e.special != nil {
			if v := e.special(x, et); v != nil {
				x = e.reify(st, v, et)
			}
		}
		x = projTerm(x, ix, s)
		et = s.Field(ix).Type()
	}
	return e.fromTerm(x, t)
}

func (e *Engine) store(fs *FS, a Value, v Value, t types.Type, pos token.Pos) bool {
	p, ok := a.(*Ptr)
	if !ok {
		e.unsupported("store through %T", a)
		return false
	}
	if !e.checkNil(fs.st, p, pos) {
		return false
	}
	e.storePtr(fs.st, p, v, t, pos)
	return true
}

func (e *Engine) storePtr(st *State, p *Ptr, v Value, t types.Type, pos token.Pos) {
	e.noteWrite(st, p.obj, "store "+p.path)
	if p.idx == nil {
		e.storeAt(st, p.obj, p.path, t, v)
		return
	}
	ct := typeAtPath(p.obj.typ, p.path)
	et := elemType(ct)
	var nt *Term
	if p.sub == "" {
		nt = e.reify(st, v, et)
	} else {
		c := e.content(st, p.obj, p.path)
		old := AtSeqW(c, p.idx, st.facts, uwidth(et))
		nt = e.updateField(st, old, et, splitPath(p.sub), v)
	}
	e.writeEvent(st, "elem", p.obj, p.idx, nt)
	e.writeRange(st, p.obj, p.path, p.idx, mkElem(et, nt))
}

func (e *Engine) updateField(st *State, old *Term, t types.Type, path []int, v Value) *Term {
	if len(path) == 0 {
		return e.reify(st, v, t)
	}
	s := t.Underlying().(*types.Struct)
	args := make([]*Term, s.NumFields())
	for i := range args {
		f := projTerm(old, i, s)
		if i == path[0] {
			args[i] = e.updateField(st, f, s.Field(i).Type(), path[1:], v)
		} else {
			args[i] = e.reify(st, e.fromTerm(f, s.Field(i).Type()), s.Field(i).Type())
		}
	}
	return structTerm(t, args)
}

func (e *Engine) slice(fr *frame, fs *FS, x *ssa.Slice) (Value, bool) {
	st := fs.st
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(fs, v)
	}
	var lo, hi, mx *Term
	switch b := e.val(fs, x.X).(type) {
	case *Term: // string
		n := SeqLen(b)
		lo, hi = opt(x.Low, C(0)), opt(x.High, n)
		if !e.oblige(st, "slice bounds", GE0(lo), x.Pos()) || !e.oblige(st, "slice bounds", Le(lo, hi), x.Pos()) ||
			!e.oblige(st, "slice bounds", Le(hi, n), x.Pos()) {
			return nil, false
		}
		return subSeqOr(st.facts, b, lo, Sub(hi, lo)), true
	case *Slice:
		lo, hi = opt(x.Low, C(0)), opt(x.High, b.len)
		mx = opt(x.Max, b.cap)
		if x.Max != nil && !(e.oblige(st, "slice bounds", Le(hi, mx), x.Pos()) && e.oblige(st, "slice bounds", Le(mx, b.cap), x.Pos())) {
			return nil, false
		}
		lim := b.cap
		if x.Max != nil {
			lim = mx
		}
		if !e.oblige(st, "slice bounds", GE0(lo), x.Pos()) || !e.oblige(st, "slice bounds", Le(lo, hi), x.Pos()) {
			return nil, false
		}
		if hi != b.len {
			// a bound beyond len but within cap would expose spare capacity
			if st.facts.Eval(Le(hi, b.len)) == 1 {
				e.recObl("slice bounds", x.Pos(), true, "", nil)
			} else if !e.oblige(st, "slice bounds", Le(hi, lim), x.Pos()) {
				return nil, false
			}
		}
		if b.obj == nil {
			return b, true
		}
		nt := TFalse
		if b.nilT != TFalse {
			// nil[0:0] is nil
			nt = b.nilT
		}
		return &Slice{obj: b.obj, path: b.path, off: Add(b.off, lo), len: Sub(hi, lo), cap: Sub(lim, lo), nilT: nt}, true
	case *Ptr:
		if !e.checkNil(st, b, x.Pos()) {
			return nil, false
		}
		a, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || b.idx != nil {
			e.unsupported("slice of pointer")
			return nil, false
		}
		n := C(a.Len())
		lo, hi = opt(x.Low, C(0)), opt(x.High, n)
		lim := opt(x.Max, n)
		if !e.oblige(st, "slice bounds", GE0(lo), x.Pos()) || !e.oblige(st, "slice bounds", Le(lo, hi), x.Pos()) ||
			!e.oblige(st, "slice bounds", Le(hi, lim), x.Pos()) || !e.oblige(st, "slice bounds", Le(lim, n), x.Pos()) {
			return nil, false
		}
		return &Slice{obj: b.obj, path: b.path, off: lo, len: Sub(hi, lo), cap: Sub(lim, lo), nilT: TFalse}, true
	default:
		e.unsupported("slice of %T", b)
		return nil, false
	}
}

func (e *Engine) wrap(st *State, w int, t *Term) *Term {
	if t.isC() {
		return Wrap(w, t)
	}
	lo, hi := st.facts.bounds(t, 0)
	lim := new(big.Int).SetUint64(maskW(w))
	if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(lim) <= 0 {
		return t
	}
	if lo != nil && hi != nil {
		a, b := new(big.Int).Rsh(lo, uint(w)), new(big.Int).Rsh(hi, uint(w))
		if a.Cmp(b) == 0 {
			return Sub(t, CB(a.Lsh(a, uint(w))))
		}
	}
	if len(polyOf(t)) <= 6 && !hasBV(t) {
		if st.facts.ProveGE0(t) && st.facts.ProveGE0(Sub(CB(lim), t)) {
			return t
		}
		if lo != nil && hi != nil {
			a, b := new(big.Int).Rsh(lo, uint(w)), new(big.Int).Rsh(hi, uint(w))
			if n := new(big.Int).Sub(b, a); n.IsInt64() && n.Int64() <= 260 {
				// the facts may place the value within one turn
				l, _ := st.facts.tight(t, a, b, w)
				if l != nil {
					return Sub(t, CB(new(big.Int).Lsh(l, uint(w))))
				}
			}
		}
	}
	return Wrap(w, t)
}

func hasBV(t *Term) bool {
	for _, x := range polyOf(t) {
		for _, v := range x.v {
			if v.op == "anf" || v.op == "wrap" {
				return true
			}
		}
	}
	return false
}

func (e *Engine) ge0(st *State, t *Term) bool {
	if t.isC() {
		return t.c.Sign() >= 0
	}
	return st.facts.ProveGE0(t)
}

// cmpCond rewrites a comparison of cmp(a,b) with a constant.
func cmpCond(t *Term, op token.Token, k int64) *Term {
	var in [3]bool
	for i := -1; i <= 1; i++ {
		v := int64(i)
		switch op {
		case token.EQL:
			in[i+1] = v == k
		case token.NEQ:
			in[i+1] = v != k
		case token.LSS:
			in[i+1] = v < k
		case token.LEQ:
			in[i+1] = v <= k
		case token.GTR:
			in[i+1] = v > k
		case token.GEQ:
			in[i+1] = v >= k
		}
	}
	a, b := t.args[0], t.args[1]
	switch in {
	case [3]bool{false, false, false}:
		return TFalse
	case [3]bool{true, true, true}:
		return TTrue
	case [3]bool{true, false, false}:
		return Lt(a, b)
	case [3]bool{false, true, false}:
		return Eq(a, b)
	case [3]bool{false, false, true}:
		return Lt(b, a)
	case [3]bool{true, true, false}:
		return Le(a, b)
	case [3]bool{false, true, true}:
		return Le(b, a)
	}
	return Not(Eq(a, b))
}

func flipCmp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (e *Engine) compare(st *State, op token.Token, a, b *Term, typ types.Type) *Term {
	if isString(typ) {
		switch op {
		case token.EQL:
			return SeqEq(a, b)
		case token.NEQ:
			return Not(SeqEq(a, b))
		}
		return rawOp("strcmp", op.String(), 0, a, b)
	}
	if op == token.EQL || op == token.NEQ {
		x := a
		if a.isCi(0) {
			x = b
		}
		if a.isCi(0) || b.isCi(0) {
			if z := orZero(x); z != nil {
				if op == token.NEQ {
					return Not(z)
				}
				return z
			}
		}
	}
	if w := uwidth(typ); w > 0 {
		// the complement of a word is a difference
		ones := CB(new(big.Int).Sub(pow2(w), bigOne))
		for _, p := range []**Term{&a, &b} {
			if (*p).op == "anf" {
				if y := BXor(w, *p, ones); y.op != "anf" && !y.isC() {
					*p = Sub(ones, y)
				}
			}
		}
	}
	if isBool(typ) {
		var r *Term
		switch {
		case a == b:
			r = TTrue
		case b == TTrue:
			r = a
		case b == TFalse:
			r = Not(a)
		case a == TTrue:
			r = b
		case a == TFalse:
			r = Not(b)
		default:
			r = rawOp("beq", "", 0, a, b)
		}
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	if a.op == "cmp" {
		if k, ok := b.i64(); ok {
			return cmpCond(a, op, k)
		}
	}
	if b.op == "cmp" {
		if k, ok := a.i64(); ok {
			return cmpCond(b, flipCmp(op), k)
		}
	}
	switch op {
	case token.EQL:
		return EqI(a, b)
	case token.NEQ:
		return Not(EqI(a, b))
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	}
	return Le(b, a)
}

// EqI: equality of integers; for bit vectors the xor is used when it cancels
// to a single atom.
func EqI(a, b *Term) *Term {
	if a.w > 0 && a.w == b.w && !a.isC() && !b.isC() {
		x := BXor(a.w, a, b)
		if x.isC() {
			return CBool(x.c.Sign() == 0)
		}
		if x.op != "anf" {
			return EQ0(x)
		}
	}
	return Eq(a, b)
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(bigOne, uint(k)) }

func (e *Engine) binop(fs *FS, x *ssa.BinOp) Value {
	st := fs.st
	a, b := e.val(fs, x.X), e.val(fs, x.Y)
	ta, okA := a.(*Term)
	tb, okB := b.(*Term)
	switch x.Op {
	case token.EQL, token.NEQ:
		if !okA || !okB {
			r := e.eqVals(st, a, b, x.X.Type())
			if x.Op == token.NEQ {
				r = Not(r)
			}
			return r
		}
		return e.compare(st, x.Op, ta, tb, x.X.Type())
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if okA && okB {
			return e.compare(st, x.Op, ta, tb, x.X.Type())
		}
	}
	if !okA || !okB {
		e.unsupported("binop %s on %T,%T", x.Op, a, b)
		return Sym("?binop")
	}
	typ := x.Type()
	if isString(typ) && x.Op == token.ADD {
		return mkSeqF(st.facts, ta, tb)
	}
	return e.arith(st, x.Op, ta, tb, typ, x.Y.Type(), x.Pos())
}

func (e *Engine) arith(st *State, op token.Token, a, b *Term, typ, ytyp types.Type, pos token.Pos) *Term {
	w := uwidth(typ)
	norm := func(t *Term) *Term {
		if w > 0 {
			return e.wrap(st, w, t)
		}
		return t
	}
	switch op {
	case token.ADD:
		// a sum without carries
		if w > 0 && (a.op == "anf" || b.op == "anf") && a.op != "poly" && b.op != "poly" && BAnd(w, a, b).isCi(0) {
			return BOr(w, a, b)
		}
		return norm(Add(a, b))
	case token.SUB:
		return norm(Sub(a, b))
	case token.MUL:
		return norm(Mul(a, b))
	case token.QUO, token.REM:
		if !b.isC() {
			e.oblige(st, "division by zero", Not(EQ0(b)), pos)
		} else if b.c.Sign() == 0 {
			e.recObl("division by zero", pos, false, "constant zero divisor", st.facts)
			return Sym("?div0")
		}
		if a.isC() && b.isC() {
			if op == token.QUO {
				return CB(new(big.Int).Quo(a.c, b.c))
			}
			return CB(new(big.Int).Rem(a.c, b.c))
		}
		if k, ok := b.i64(); ok && k > 0 && (w > 0 || e.ge0(st, a)) {
			if op == token.QUO {
				return FDiv(a, k)
			}
			return FMod(a, k)
		}
		if op == token.QUO {
			return rawOp("tdiv", "", 0, a, b)
		}
		// |a rem b| < b for b > 0
		r := rawOp("trem", "", 0, a, b)
		if e.ge0(st, a) && e.ge0(st, Sub(b, C(1))) {
			st.facts = st.facts.Assume(GE0(r), true).Assume(Lt(r, b), true)
		}
		return r
	case token.SHL, token.SHR:
		if uwidth(ytyp) == 0 && !b.isC() {
			e.oblige(st, "negative shift", GE0(b), pos)
		}
		if k, ok := b.i64(); ok {
			if op == token.SHL {
				if w > 0 {
					if (a.op == "poly" || a.w == 0) && !(natvalLen(a) > 0 && 8*natvalLen(a) <= w) {
						t := MulC(a, pow2(int(k)))
						return e.wrap(st, w, t)
					}
					return BShl(w, a, int(k))
				}
				t := MulC(a, pow2(int(k)))
				if r := e.sWrap(st, swidth(typ), t); r != nil {
					return r
				}
				return rawOp("sx", fmt.Sprint(swidth(typ)), 0, t)
			}
			if w > 0 {
				if a.op == "poly" || a.w == 0 {
					if k >= 62 {
						return C(0)
					}
					return FDiv(a, int64(1)<<uint(k))
				}
				return BShr(w, a, int(k))
			}
			if k >= 62 {
				if e.ge0(st, a) {
					return C(0)
				}
				return rawOp("shr", "", 0, a, b)
			}
			return FDiv(a, int64(1)<<uint(k))
		}
		if c := st.facts.constOf(b); c != nil && !b.isC() {
			return e.arith(st, op, a, c, typ, ytyp, pos)
		}
		if op == token.SHL && a.isC() && w == 0 {
			return rawOp("shl", "", 0, a, b)
		}
		return rawOp(map[token.Token]string{token.SHL: "shl", token.SHR: "shr"}[op], "", w, a, b)
	}
	// bitwise
	bw := w
	if bw == 0 {
		if a.isC() && b.isC() {
			z := new(big.Int)
			switch op {
			case token.AND:
				return CB(z.And(a.c, b.c))
			case token.OR:
				return CB(z.Or(a.c, b.c))
			case token.XOR:
				return CB(z.Xor(a.c, b.c))
			case token.AND_NOT:
				return CB(z.AndNot(a.c, b.c))
			}
		}
		if a.isC() && (op == token.AND || op == token.OR || op == token.XOR) {
			a, b = b, a
		}
		if b.isC() {
			c := b.c
			if op == token.AND_NOT {
				c = new(big.Int).Not(c)
				op = token.AND
			}
			if op == token.AND {
				if c.Sign() >= 0 {
					p := new(big.Int).Add(c, bigOne)
					if p.BitLen() <= 62 && new(big.Int).And(p, c).Sign() == 0 {
						return FMod(a, p.Int64())
					}
				} else {
					p := new(big.Int).Neg(c)
					if p.BitLen() <= 62 && new(big.Int).And(p, new(big.Int).Sub(p, bigOne)).Sign() == 0 {
						return Sub(a, FMod(a, p.Int64()))
					}
				}
			}
		}
		if op == token.OR || op == token.XOR {
			// disjoint bits: a multiple of 2^k and a value below 2^k
			for s := 0; s < 2; s++ {
				lo, hi := st.facts.bounds(b, 0)
				if lo != nil && lo.Sign() >= 0 && hi != nil {
					k := hi.BitLen()
					ok := true
					for _, m := range polyOf(a) {
						if new(big.Int).Mod(m.c, pow2(k)).Sign() != 0 {
							ok = false
						}
					}
					if ok {
						return Add(a, b)
					}
				}
				a, b = b, a
			}
		}
		if !(e.ge0(st, a) && e.ge0(st, b)) {
			return rawOp(op.String(), "", 0, a, b)
		}
		bw = 64
	}
	if op == token.AND {
		// the masked bits of a value with known leading bits
		for s := 0; s < 2; s++ {
			if b.isC() && b.c.Sign() > 0 && !a.isC() {
				lo, hi := st.facts.bounds(a, 0)
				if lo != nil && hi != nil && lo.Sign() >= 0 && lo.Cmp(hi) <= 0 {
					k := new(big.Int).Xor(lo, hi).BitLen()
					if int(b.c.TrailingZeroBits()) >= k {
						return CB(new(big.Int).And(lo, b.c))
					}
					if j := b.c.BitLen(); new(big.Int).Sub(pow2(j), bigOne).Cmp(b.c) == 0 && k <= j {
						return Sub(a, CB(new(big.Int).Lsh(new(big.Int).Rsh(lo, uint(j)), uint(j))))
					}
				}
			}
			a, b = b, a
		}
	}
	switch op {
	case token.AND:
		return BAnd(bw, a, b)
	case token.OR:
		return BOr(bw, a, b)
	case token.XOR:
		return BXor(bw, a, b)
	case token.AND_NOT:
		return BAnd(bw, a, BNot(bw, b))
	}
	e.unsupported("operator %s", op)
	return Sym("?op")
}

func (e *Engine) nilOf(v Value) *Term {
	switch x := v.(type) {
	case *Ptr:
		return x.nilT
	case *Slice:
		return x.nilT
	case *Iface:
		return x.nilT
	case *Closure:
		return x.nilT
	case *MapV:
		if x.t == nilTerm {
			return TTrue
		}
		return TFalse
	}
	return nil
}

func (e *Engine) eqVals(st *State, a, b Value, typ types.Type) *Term {
	na, nb := e.nilOf(a), e.nilOf(b)
	if nb == TTrue && na != nil {
		return na
	}
	if na == TTrue && nb != nil {
		return nb
	}
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if valKey(x) == valKey(y) {
				return TTrue
			}
			if x.obj != y.obj && x.obj.root == "" && y.obj.root == "" {
				return TFalse
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if x.typ != nil && y.typ != nil {
				if !types.Identical(x.typ, y.typ) {
					return TFalse
				}
				return e.eqVals(st, x.val, y.val, x.typ)
			}
			if x.typ == nil && y.typ == nil && x.t == y.t {
				return TTrue
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			s := x.typ.Underlying().(*types.Struct)
			r := TTrue
			for i := range x.f {
				c := e.eqVals(st, x.f[i], y.f[i], s.Field(i).Type())
				switch {
				case c == TFalse:
					return TFalse
				case c == TTrue:
				case r == TTrue:
					r = c
				default:
					r = rawOp("and", "", 0, r, c)
				}
			}
			return r
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			return SeqEq(x.seq, y.seq)
		}
	case *Term:
		if y, ok := b.(*Term); ok {
			return e.compare(st, token.EQL, x, y, typ)
		}
	}
	return rawOp("eqv", "", 0, e.reify(st, a, typ), e.reify(st, b, typ))
}

func (e *Engine) convert(fr *frame, ins ssa.Instruction, fs *FS, v Value, from, to types.Type) Value {
	st := fs.st
	switch {
	case isInteger(from) && isInteger(to):
		t, ok := v.(*Term)
		if !ok {
			return v
		}
		return e.convInt(st, t, from, to)
	case isString(to):
		switch x := v.(type) {
		case *Slice:
			return e.sliceSeq(st, x)
		case *Term:
			if isInteger(from) {
				return SubBase(rawOp("utf8", "", 0, x), C(0), LenOf(rawOp("utf8", "", 0, x)))
			}
			return x
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			t := v.(*Term)
			if isByte(s.Elem()) {
				return e.allocSeq(st, e.site(fr, ins), to, t)
			}
			r := e.fromTerm(rawOp("runes", "", 0, t), to)
			return r
		}
	}
	switch v.(type) {
	case *Ptr, *Slice, *Iface, *Closure, *MapV:
		return v
	case *StructV:
		s := v.(*StructV)
		return &StructV{typ: to, f: s.f}
	}
	if t, ok := v.(*Term); ok {
		return rawOp("conv", typeStr(to), uwidth(to), t)
	}
	e.unsupported("convert %s to %s", from, to)
	return v
}

func (e *Engine) convInt(st *State, t *Term, from, to types.Type) *Term {
	fw, tw := uwidth(from), uwidth(to)
	if tw > 0 {
		if fw > 0 && fw <= tw {
			return t
		}
		if t.isC() {
			return Wrap(tw, t)
		}
		lo, hi := st.facts.bounds(t, 0)
		lim := new(big.Int).SetUint64(maskW(tw))
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(lim) <= 0 {
			return t
		}
		if !hasBV(t) && len(polyOf(t)) <= 8 && st.facts.ProveGE0(t) && st.facts.ProveGE0(Sub(CB(lim), t)) {
			return t
		}
		if tw == 8 {
			return TruncByte(t)
		}
		return Wrap(tw, t)
	}
	sw := swidth(to)
	if sw == 0 {
		return t
	}
	if fw > 0 && fw < sw {
		return t
	}
	if sf := swidth(from); sf > 0 && sf <= sw {
		return t
	}
	if t.isC() {
		z := new(big.Int).Mod(t.c, pow2(sw))
		if z.Cmp(pow2(sw-1)) >= 0 {
			z.Sub(z, pow2(sw))
		}
		return CB(z)
	}
	lim := pow2(sw - 1)
	if st.facts.ProveGE0(Add(t, CB(lim))) && st.facts.ProveGE0(Sub(CB(new(big.Int).Sub(lim, bigOne)), t)) {
		return t
	}
	if r := e.sWrap(st, sw, t); r != nil {
		return r
	}
	return rawOp("sx", fmt.Sprint(sw), 0, t)
}

func (e *Engine) implements(t types.Type, target types.Type) bool {
	if it, ok := target.Underlying().(*types.Interface); ok {
		return types.Implements(t, it)
	}
	return types.Identical(t, target)
}

func (e *Engine) typeAssert(fr *frame, fs *FS, x *ssa.TypeAssert) []*FS {
	st := fs.st
	iv, ok := e.val(fs, x.X).(*Iface)
	if !ok {
		e.unsupported("type assertion on %T", e.val(fs, x.X))
		return nil
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	good := func() Value {
		if toIface {
			return iv
		}
		return iv.val
	}
	if iv.typ != nil || iv.nilT == TTrue {
		m := iv.typ != nil && e.implements(iv.typ, x.AssertedType)
		if x.CommaOk {
			if m {
				fs.env[x] = Tuple{good(), TTrue}
			} else {
				fs.env[x] = Tuple{e.zero(x.AssertedType), TFalse}
			}
			return []*FS{fs}
		}
		e.recObl("type assertion", x.Pos(), m, "asserted "+typeStr(x.AssertedType), st.facts)
		if !m {
			return nil
		}
		fs.env[x] = good()
		return []*FS{fs}
	}
	lit := rawOp("dyn", typeStr(x.AssertedType), 0, iv.t)
	var v Value
	if toIface {
		v = &Iface{t: iv.t, nilT: TFalse}
	} else {
		v = e.fromTerm(rawOp("as", typeStr(x.AssertedType), uwidth(x.AssertedType), iv.t), x.AssertedType)
		if p, ok := v.(*Ptr); ok {
			v = &Ptr{obj: p.obj, path: p.path, nilT: TFalse}
		}
	}
	if !x.CommaOk {
		if !e.oblige(st, "type assertion", lit, x.Pos()) {
			return nil
		}
		fs.env[x] = v
		return []*FS{fs}
	}
	switch st.facts.Eval(lit) {
	case 1:
		fs.env[x] = Tuple{v, TTrue}
		return []*FS{fs}
	case -1:
		fs.env[x] = Tuple{e.zero(x.AssertedType), TFalse}
		return []*FS{fs}
	}
	g := fs.clone()
	fs.st.facts = fs.st.facts.Assume(lit, true)
	fs.env[x] = Tuple{v, TTrue}
	g.st.facts = g.st.facts.Assume(lit, false)
	g.env[x] = Tuple{e.zero(x.AssertedType), TFalse}
	return []*FS{fs, g}
}

type cbcMode struct {
	dir string
	blk Value
}

// constStr: the sequence consists of known bytes.
func constStr(t *Term) (string, bool) {
	switch t.op {
	case "bytes":
		return t.s, true
	case "seq":
		if len(t.args) == 0 {
			return "", true
		}
	}
	return "", false
}

func (e *Engine) mapCell(v Value) *cell {
	m, ok := v.(*MapV)
	if !ok || m == nil {
		return nil
	}
	p := e.refs[m.t]
	if p == nil || p.obj == nil {
		return nil
	}
	return &cell{p.obj, "map"}
}

func (e *Engine) mapMem(st *State, c cell) cellV {
	if v, ok := st.mem[c]; ok {
		return v
	}
	return e.base[c]
}

// mapForget: the entries are not known any more.
func (e *Engine) mapForget(st *State, v Value) {
	if c := e.mapCell(v); c != nil {
		st.mem[*c] = cellV{TFalse, types.Typ[types.Bool]}
	}
}

// mapHit is one outcome of a lookup; v is nil for an absent key.
type mapHit struct {
	F *Facts
	v Value
}

// mapGet looks a key up in a map whose entries are all known: the possible
// outcomes, none when the entries are not known.
func (e *Engine) mapGet(st *State, m, k Value, mt *types.Map) []mapHit {
	c := e.mapCell(m)
	if c == nil {
		return nil
	}
	cv := e.mapMem(st, *c)
	if cv.t != types.Typ[types.String] {
		return nil
	}
	seq, _ := cv.v.(*Term)
	if seq == nil {
		return nil
	}
	if !isString(mt.Key()) && !isInteger(mt.Key()) {
		return nil
	}
	key := e.reify(st, k, mt.Key())
	ps := pieces(seq)
	if len(ps) > 64 {
		return nil
	}
	F := st.facts
	var r []mapHit
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		if p.op != "elemw" || p.args[0].op != "mapent" {
			return nil
		}
		a := p.args[0].args[0]
		eq := Eq(a, key)
		if isString(mt.Key()) {
			eq = seqEqCond(&State{facts: F}, a, key)
		}
		ev := F.Eval(eq)
		if ev == -1 {
			continue
		}
		G := F
		if ev == 0 {
			G = F.Assume(eq, true)
			F = F.Assume(eq, false)
		}
		r = append(r, mapHit{G, e.fromTerm(p.args[0].args[1], mt.Elem())})
		if ev == 1 {
			return r
		}
	}
	return append(r, mapHit{F, nil})
}
