package main

// C39: every loop of the module ends.  A loop is discharged by a ranking
// argument over its SSA form (a counter that moves towards an unchanging
// bound on every way round, a range), by the bound the abstract interpreter
// finds for it (package sm2), or else every way round must change something
// the exit tests depend on.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sloop struct {
	fn     *ssa.Function
	h      *ssa.BasicBlock
	in     map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
	writes map[*ssa.Function]bool
	draws  map[*ssa.Function]bool
}

func loopsOf(f *ssa.Function) []*sloop {
	by := map[*ssa.BasicBlock]*sloop{}
	var out []*sloop
	for _, u := range f.Blocks {
		for _, h := range u.Succs {
			if !h.Dominates(u) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &sloop{fn: f, h: h, in: map[*ssa.BasicBlock]bool{h: true}}
				by[h] = l
				out = append(out, l)
			}
			l.latch = append(l.latch, u)
			work := []*ssa.BasicBlock{u}
			for len(work) > 0 {
				b := work[len(work)-1]
				work = work[:len(work)-1]
				if l.in[b] {
					continue
				}
				l.in[b] = true
				work = append(work, b.Preds...)
			}
		}
	}
	return out
}

func (l *sloop) pos() token.Pos { return loopPos(&region{header: l.h, blocks: l.in}) }

func (l *sloop) inside(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Block() != nil && l.in[i.Block()]
}

// fixed: the value is the same in every round.
func (l *sloop) fixed(v ssa.Value, d int) bool {
	if !l.inside(v) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return l.fixed(x.Call.Args[0], d+1)
		}
	case *ssa.BinOp:
		return l.fixed(x.X, d+1) && l.fixed(x.Y, d+1)
	case *ssa.Convert:
		return l.fixed(x.X, d+1)
	case *ssa.ChangeType:
		return l.fixed(x.X, d+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return l.fixed(x.X, d+1)
		}
		return l.fixed(x.X, d+1) && !l.mayStore(x.X)
	case *ssa.FieldAddr:
		return l.fixed(x.X, d+1)
	case *ssa.Field:
		return l.fixed(x.X, d+1)
	}
	return false
}

// mayStore: memory of the type behind the address may change in a round.
func (l *sloop) mayStore(addr ssa.Value) bool {
	t := addr.Type()
	for b := range l.in {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if types.Identical(x.Addr.Type(), t) && !distinctFields(x.Addr, addr) {
					return true
				}
			case *ssa.Call:
				if l.callWrites(x) {
					if a, ok := addr.(*ssa.Alloc); ok && !a.Heap {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

func distinctFields(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && (x.Field != y.Field || !types.Identical(x.X.Type(), y.X.Type()))
}

func (l *sloop) callWrites(c *ssa.Call) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "copy" || b.Name() == "append" || b.Name() == "delete" || b.Name() == "clear"
	}
	f := c.Call.StaticCallee()
	if f != nil && f.String() == "encoding/asn1.Unmarshal" {
		if m, ok := c.Call.Args[1].(*ssa.MakeInterface); ok {
			return !l.fresh(m.X)
		}
	}
	return f == nil || l.writes[f]
}

// delta of a value against the header phi p: constant, 0 with halves when it
// is shifted or divided down.
type step struct {
	lo, hi int64
	shift  bool
}

func (l *sloop) delta(v ssa.Value, p *ssa.Phi, d int) (step, bool) {
	if v == ssa.Value(p) {
		return step{}, true
	}
	if d > 8 {
		return step{}, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		y := x.X
		if !ok && x.Op == token.ADD {
			k, ok = x.X.(*ssa.Const)
			y = x.Y
		}
		if !ok || k.Value == nil {
			return step{}, false
		}
		s, ok := l.delta(y, p, d+1)
		if !ok {
			return s, false
		}
		n := k.Int64()
		switch x.Op {
		case token.ADD:
			return step{s.lo + n, s.hi + n, s.shift}, !s.shift
		case token.SUB:
			return step{s.lo - n, s.hi - n, s.shift}, !s.shift
		case token.SHR:
			return step{0, 0, s.shift || n > 0}, s.lo == 0 && s.hi == 0
		case token.QUO:
			return step{0, 0, s.shift || n > 1}, s.lo == 0 && s.hi == 0 && n > 0
		}
	case *ssa.Phi:
		if !l.in[x.Block()] || x.Block() == l.h {
			return step{}, false
		}
		var r step
		for i, e := range x.Edges {
			if !l.in[x.Block().Preds[i]] {
				return r, false
			}
			s, ok := l.delta(e, p, d+1)
			if !ok || i > 0 && s.shift != r.shift {
				return r, false
			}
			if i == 0 {
				r = s
			}
			if s.lo < r.lo {
				r.lo = s.lo
			}
			if s.hi > r.hi {
				r.hi = s.hi
			}
		}
		return r, true
	}
	return step{}, false
}

// phiStep: how the header phi moves in one round.
func (l *sloop) phiStep(p *ssa.Phi) (step, bool) {
	var r step
	first := true
	for i, e := range p.Edges {
		if !l.in[p.Block().Preds[i]] {
			continue
		}
		s, ok := l.delta(e, p, 0)
		if !ok || !first && s.shift != r.shift {
			return r, false
		}
		if first {
			r, first = s, false
		}
		if s.lo < r.lo {
			r.lo = s.lo
		}
		if s.hi > r.hi {
			r.hi = s.hi
		}
	}
	return r, !first
}

// base: v is the header phi plus a constant.
func (l *sloop) base(v ssa.Value) (*ssa.Phi, int64, bool) {
	var c int64
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Phi:
			return x, c, x.Block() == l.h
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || k.Value == nil || x.Op != token.ADD && x.Op != token.SUB {
				return nil, 0, false
			}
			if x.Op == token.ADD {
				c += k.Int64()
			} else {
				c -= k.Int64()
			}
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return nil, 0, false
		}
	}
	return nil, 0, false
}

type exitTest struct {
	b    *ssa.BasicBlock
	cond ssa.Value
	stay bool // the value of cond that stays
}

func (l *sloop) tests() []exitTest {
	var r []exitTest
	for b := range l.in {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			a, c := l.in[b.Succs[0]], l.in[b.Succs[1]]
			if a != c {
				r = append(r, exitTest{b, i.Cond, a})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].b.Index < r[j].b.Index })
	return r
}

// every: each round passes the block.
func (l *sloop) every(b *ssa.BasicBlock) bool {
	for _, u := range l.latch {
		if !b.Dominates(u) {
			return false
		}
	}
	return true
}

var negOp = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
var swapOp = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// ranked: the test ends the loop after finitely many rounds.
func (l *sloop) ranked(t exitTest) bool {
	for {
		n, ok := t.cond.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		t.cond, t.stay = n.X, !t.stay
	}
	if x, ok := t.cond.(*ssa.Extract); ok && x.Index == 0 && t.stay {
		if n, ok := x.Tuple.(*ssa.Next); ok {
			return !l.inside(n.Iter)
		}
	}
	c, ok := t.cond.(*ssa.BinOp)
	if !ok || negOp[c.Op] == 0 {
		return false
	}
	op := c.Op
	if !t.stay {
		op = negOp[op]
	}
	return l.rankedCmp(c.X, op, c.Y) || l.rankedCmp(c.Y, swapOp[op], c.X)
}

func (l *sloop) rankedCmp(x ssa.Value, op token.Token, y ssa.Value) bool {
	p, _, ok := l.base(x)
	if !ok {
		return false
	}
	s, ok := l.phiStep(p)
	if !ok {
		return false
	}
	if s.shift {
		k, isC := y.(*ssa.Const)
		if !isC || k.Value == nil || x != ssa.Value(p) {
			return false
		}
		n := k.Int64()
		uns := types.Identical(p.Type().Underlying(), p.Type().Underlying()) && uwidth(p.Type()) > 0
		return op == token.GTR && n >= 0 || op == token.GEQ && n >= 1 || op == token.NEQ && n == 0 && uns
	}
	// the bound may only come closer
	near := func(up bool) bool {
		if l.fixed(y, 0) {
			return true
		}
		q, _, ok := l.base(y)
		if !ok {
			return false
		}
		m, ok := l.phiStep(q)
		return ok && !m.shift && (up && m.hi <= 0 || !up && m.lo >= 0)
	}
	switch op {
	case token.LSS, token.LEQ:
		return s.lo > 0 && near(true)
	case token.GTR, token.GEQ:
		return s.hi < 0 && near(false)
	case token.NEQ:
		// meets the bound exactly, or runs into the end of an indexed sequence
		return (s.lo == 1 && s.hi == 1 || s.lo == -1 && s.hi == -1) && l.fixed(y, 0)
	case token.EQL:
		return (s.lo > 0 || s.hi < 0) && l.fixed(y, 0)
	}
	return false
}

// cares: the header phis and the memory the exit tests depend on.
type cares struct {
	phis  map[*ssa.Phi]bool
	loads map[ssa.Value]bool // addresses, and nil for unknown memory
	calls map[*ssa.Call]bool
	bytes bool // content of byte strings
	other bool
}

// fresh: the memory is allocated anew in every round.
func (l *sloop) fresh(addr ssa.Value) bool {
	a, ok := rootAddr(addr).(*ssa.Alloc)
	return ok && l.in[a.Block()]
}

// readsBytes: a library function whose results depend on its arguments only.
func readsBytes(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	n := f.String()
	for _, p := range []string{"encoding/asn1.Unmarshal", "bytes.", "strings.", "unicode", "strconv.", "math/bits.", "(encoding/binary.", "errors.", "fmt.Errorf", "fmt.Sprint", "(encoding/asn1.ObjectIdentifier)."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (l *sloop) cares(ts []exitTest) *cares {
	r := &cares{phis: map[*ssa.Phi]bool{}, loads: map[ssa.Value]bool{}, calls: map[*ssa.Call]bool{}}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || !l.inside(v) {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.h {
				r.phis[x] = true
			} else {
				// which way was taken matters as well
				for _, b := range x.Block().Preds {
					for d := b; d != nil && l.in[d]; d = d.Idom() {
						if i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
							walk(i.Cond)
						}
						if d == l.h {
							break
						}
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ix, ok := x.X.(*ssa.IndexAddr); ok && isByte(x.Type()) {
					if _, arr := ix.X.Type().Underlying().(*types.Pointer); !arr {
						r.bytes = true
						break
					}
				}
				if !l.fresh(x.X) {
					r.loads[x.X] = true
				}
			}
		case *ssa.Lookup, *ssa.Next:
			r.other = true
		case *ssa.Call:
			if readsBytes(x.Call.StaticCallee()) {
				r.bytes = true
				break
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				r.calls[x] = true
			}
		}
		if i, ok := v.(ssa.Instruction); ok {
			var ops []*ssa.Value
			for _, o := range i.Operands(ops) {
				walk(*o)
			}
		}
	}
	for _, t := range ts {
		walk(t.cond)
	}
	return r
}

// stuck: a way round the loop on which nothing the exit tests depend on
// changes (nil: there is none, or it cannot be told).
func (l *sloop) stuck(ts []exitTest) []*ssa.BasicBlock {
	d := l.cares(ts)
	if d.other {
		return nil
	}
	inner := map[*ssa.BasicBlock]bool{}
	for _, m := range loopsOf(l.fn) {
		if m.h != l.h && l.in[m.h] {
			inner[m.h] = true
		}
	}
	n := 0
	var found []*ssa.BasicBlock
	var path []*ssa.BasicBlock
	on := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if found != nil || n > 20000 {
			return
		}
		if inner[b] {
			return // a loop inside may do the work
		}
		path = append(path, b)
		on[b] = true
		if !l.blockMoves(b, d) {
			for _, s := range b.Succs {
				if s == l.h {
					n++
					if l.pathStuck(path, d) {
						found = append([]*ssa.BasicBlock(nil), path...)
					}
				} else if l.in[s] && !on[s] {
					dfs(s)
				}
			}
		} else {
			// a call that reports failure may have done nothing
			for _, s := range l.failedSucc(b, d) {
				if s == l.h {
					n++
					if l.pathStuck(path, d) {
						found = append([]*ssa.BasicBlock(nil), path...)
					}
				} else if l.in[s] && !on[s] {
					dfs(s)
				}
			}
		}
		on[b] = false
		path = path[:len(path)-1]
	}
	dfs(l.h)
	return found
}

// moves: the instruction may change memory or a call result a test depends on.
func (l *sloop) moves(ins ssa.Instruction, d *cares) bool {
	if d.bytes {
		switch x := ins.(type) {
		case *ssa.Store:
			if p, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && isByte(p.Elem()) && !l.fresh(x.Addr) {
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
				return true
			}
			if l.callDraws(x) {
				return true
			}
		}
	}
	if len(d.loads) == 0 && len(d.calls) == 0 {
		return false
	}
	switch x := ins.(type) {
	case *ssa.Store:
		if l.fresh(x.Addr) {
			return false
		}
		if len(d.calls) > 0 {
			return true
		}
		for a := range d.loads {
			if types.Identical(x.Addr.Type(), a.Type()) && !distinctFields(x.Addr, a) {
				if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == a {
					continue
				}
				return true
			}
		}
	case *ssa.MapUpdate, *ssa.Send, *ssa.Defer, *ssa.Go, *ssa.RunDefers:
		return true
	case *ssa.Call:
		return l.callWrites(x) || l.callDraws(x)
	}
	return false
}

func (l *sloop) callDraws(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	return f != nil && l.draws[f]
}

func (l *sloop) blockMoves(b *ssa.BasicBlock, d *cares) bool {
	for _, ins := range b.Instrs {
		if l.moves(ins, d) {
			return true
		}
	}
	return false
}

// failedSucc: the block's only move is a call whose failure the block's own
// test then follows.
func (l *sloop) failedSucc(b *ssa.BasicBlock, d *cares) []*ssa.BasicBlock {
	var call *ssa.Call
	for _, ins := range b.Instrs {
		if l.moves(ins, d) {
			c, ok := ins.(*ssa.Call)
			if !ok || call != nil {
				return nil
			}
			call = c
		}
	}
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || call == nil {
		return nil
	}
	cond, neg := i.Cond, false
	if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
		cond, neg = n.X, true
	}
	if cond == ssa.Value(call) && isBool(call.Type()) {
		if neg {
			return b.Succs[:1]
		}
		return b.Succs[1:2]
	}
	if c, ok := cond.(*ssa.BinOp); ok && !neg && (c.Op == token.NEQ || c.Op == token.EQL) {
		e, _ := c.X.(*ssa.Extract)
		k, isC := c.Y.(*ssa.Const)
		if e != nil && isC && k.IsNil() && e.Tuple == ssa.Value(call) && isErrorType(e.Type()) {
			if c.Op == token.NEQ {
				return b.Succs[:1]
			}
			return b.Succs[1:2]
		}
	}
	return nil
}

// pathStuck: no header phi the tests depend on changes along the path, and
// every branch on it goes where it would go again.
func (l *sloop) pathStuck(path []*ssa.BasicBlock, d *cares) bool {
	at := map[*ssa.BasicBlock]int{}
	for i, b := range path {
		at[b] = i
	}
	var res func(v ssa.Value, n int) ssa.Value
	res = func(v ssa.Value, n int) ssa.Value {
		for ; n < 20; n++ {
			switch x := v.(type) {
			case *ssa.Phi:
				i, ok := at[x.Block()]
				if !ok || i == 0 {
					return v
				}
				hit := false
				for j, p := range x.Block().Preds {
					if p == path[i-1] {
						v, hit = x.Edges[j], true
						break
					}
				}
				if !hit {
					return x
				}
			case *ssa.BinOp:
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "0" {
					switch x.Op {
					case token.ADD, token.SUB, token.SHL, token.SHR, token.OR, token.XOR:
						v = x.X
						continue
					}
				}
				return v
			case *ssa.Slice:
				k, ok := x.Low.(*ssa.Const)
				if _, arr := x.X.Type().Underlying().(*types.Pointer); !arr && x.High == nil && x.Max == nil && (x.Low == nil || ok && k.Int64() == 0) {
					v = x.X
					continue
				}
				return v
			case *ssa.ChangeType:
				if types.Identical(x.X.Type().Underlying(), x.Type().Underlying()) {
					v = x.X
					continue
				}
				return v
			default:
				return v
			}
		}
		return v
	}
	last := path[len(path)-1]
	for p := range d.phis {
		for i, q := range l.h.Preds {
			if q == last && res(p.Edges[i], 0) != ssa.Value(p) {
				return false
			}
		}
	}
	// a test decided by a constant on this path
	for i, b := range path {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		to := l.h
		if i+1 < len(path) {
			to = path[i+1]
		}
		if k, ok := res(x.Cond, 0).(*ssa.Const); ok && k.Value != nil && b.Succs[0] != b.Succs[1] {
			if (k.Value.String() == "true") != (b.Succs[0] == to) {
				return false
			}
		}
	}
	return true
}

// counters: the tests depend on counters with constant steps only, so that a
// ranking argument would exist if the loop ended.
func (l *sloop) counters(ts []exitTest) bool {
	d := l.cares(ts)
	if d.other || len(d.loads) > 0 || len(d.calls) > 0 || len(d.phis) == 0 || len(ts) != 1 {
		return false
	}
	for p := range d.phis {
		s, ok := l.phiStep(p)
		if !ok || s.lo != s.hi {
			return false
		}
	}
	c, ok := ts[0].cond.(*ssa.BinOp)
	if !ok || c.Op == token.NEQ || c.Op == token.EQL || !l.every(ts[0].b) {
		return false
	}
	_, _, a := l.base(c.X)
	_, _, b := l.base(c.Y)
	return a && l.fixed(c.Y, 0) || b && l.fixed(c.X, 0)
}

// writers: functions of the module that may change memory other than their
// own, and functions that draw randomness.
func (c *Check) writersAndDraws() (map[*ssa.Function]bool, map[*ssa.Function]bool) {
	w, d := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	ext := func(f *ssa.Function) {
		n := f.String()
		switch {
		case strings.Contains(n, "crypto/rand.") || n == "io.ReadFull" || n == "crypto/elliptic.GenerateKey":
			d[f] = true
			w[f] = true
			return
		}
		for _, p := range []string{"errors.", "fmt.", "bytes.", "strings.", "unicode", "math/bits.", "strconv."} {
			if strings.HasPrefix(n, p) {
				return
			}
		}
		for _, m := range []string{"Sign", "Cmp", "CmpAbs", "BitLen", "Bytes", "Bit", "Int64", "Uint64", "IsInt64", "IsUint64", "String", "Text"} {
			if n == "(*math/big.Int)."+m {
				return
			}
		}
		w[f] = true
	}
	all := c.ld.allFuncs()
	own := map[*ssa.Function]bool{}
	for _, f := range all {
		own[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range all {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if a, ok := rootAddr(x.Addr).(*ssa.Alloc); !ok || a.Parent() != f {
							if !w[f] {
								w[f], ch = true, true
							}
						}
					case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send:
						if !w[f] {
							w[f], ch = true, true
						}
					case *ssa.Call:
						if _, ok := x.Call.Value.(*ssa.Builtin); ok {
							continue
						}
						g := x.Call.StaticCallee()
						if g != nil && !own[g] && !w[g] {
							ext(g)
						}
						if (g == nil || w[g]) && !w[f] {
							w[f], ch = true, true
						}
						if g != nil && d[g] && !d[f] {
							d[f], ch = true, true
						}
					}
				}
			}
		}
	}
	return w, d
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func checkEnds(c *Check) {
	c.explain = "Every loop of every function of the module. Package sm2 is interpreted abstractly through its exported functions, and each loop whose rounds cannot be counted out needs a quantity that every round decreases and keeps above zero, or a fresh draw of randomness in every round. Every other loop is taken from the SSA form: a counter with constant steps towards an unchanging bound, tested in every round, or a range; otherwise no way round the loop may leave everything its exit tests depend on unchanged, a call that reports failure counting as no change."
	c.rule("bounded", "the loop has a ranking argument, or every round draws fresh randomness")
	c.rule("advances", "no way round the loop leaves everything its exit tests depend on unchanged")
	c.rule("descends", "no function calls itself with nothing changed")
	c.assumption("well-formed keys; a source of randomness that is not adversarial, so that rejection sampling ends")
	done := map[string]bool{}
	bad := map[string]string{}
	e := c.engine(true)
	e.wellFormed()
	for _, f := range c.exportedFuncs("sm2") {
		fn := c.ld.fn("sm2", f)
		if fn == nil {
			continue
		}
		r := c.run(e, "sm2", f, keysPre(fn))
		if !r.ok {
			continue
		}
		for _, o := range r.e.termList() {
			k := o.fn + "|" + o.pos
			if o.failed {
				bad[k] = o.detail
				c.fail("bounded", shortFn(o.fn), o.pos, o.detail+" (reached from "+r.name+")")
				continue
			}
			done[k] = true
		}
	}
	w, d := c.writersAndDraws()
	nl := 0
	for _, f := range c.ld.allFuncs() {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				same := len(f.FreeVars) == 0
				for i, a := range ci.Common().Args {
					same = same && i < len(f.Params) && a == f.Params[i]
				}
				c.ob("descends", shortFn(f.String()), c.posOf(ci.Pos()), !same || w[f] || d[f],
					"the function calls itself with the very arguments it was given, having stored and drawn nothing")
				c.stats["recursive calls"]++
			}
		}
		for _, l := range loopsOf(f) {
			nl++
			l.writes, l.draws = w, d
			where := c.posOf(l.pos())
			k := f.String() + "|" + where
			if bad[k] != "" {
				continue
			}
			ts := l.tests()
			rk := false
			for _, t := range ts {
				rk = rk || l.every(t.b) && l.ranked(t)
			}
			if rk || done[k] {
				c.ob("bounded", shortFn(f.String()), where, true, "")
				continue
			}
			if l.counters(ts) {
				c.fail("bounded", shortFn(f.String()), where, "the counter does not move towards the bound on every way round")
				continue
			}
			var det string
			p := l.stuck(ts)
			if p != nil {
				var at []string
				for _, b := range p {
					for _, ins := range b.Instrs {
						if ins.Pos().IsValid() {
							if s := c.posOf(ins.Pos()); len(at) == 0 || at[len(at)-1] != s {
								at = append(at, s)
							}
						}
					}
				}
				det = "a round may leave everything the exit tests depend on unchanged: " + cutMid(strings.Join(at, " "), 400)
			}
			c.ob("advances", shortFn(f.String()), where, p == nil, det)
			c.stats["loops without a ranking argument"]++
		}
	}
	c.stats["loops"] = nl
	if nl < 30 {
		c.fail("bounded", "loops of the module", "go.mod", fmt.Sprintf("only %d loops found", nl))
	}
}

// loopsEnd: the loops generalised in this run end.
func (r *Run) loopsEnd(rule string) {
	if r.fn == nil {
		return
	}
	for _, o := range r.e.termList() {
		r.c.ob(rule, r.name+": loop of "+shortFn(o.fn), o.pos, !o.failed, o.detail)
	}
}

func init() {
	addCheck("C39", "other", "ranking functions and progress of loops over SSA, with the bounds found by abstract interpretation", checkEnds)
}
