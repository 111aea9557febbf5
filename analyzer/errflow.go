package main

// Error discipline: a failure of a called operation is never lost.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type absV int8

const (
	aTop  absV = iota // unknown
	aFail             // non-nil error, or false status
	aOK               // nil error, or true status
)

func neg(a absV) absV {
	switch a {
	case aFail:
		return aOK
	case aOK:
		return aFail
	}
	return aTop
}

type errFlow struct {
	ld     *Loader
	never  map[*ssa.Function]int8 // 1: error result always nil
	always map[*ssa.Function]int8 // 1: error result always non-nil (error parameters non-nil)
	need   map[*ssa.Function]bool // what a failure returns can reach the user
}

// findNeed: exported functions, and those whose results they return as they are.
func (ef *errFlow) findNeed() {
	ef.need = map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || ef.need[f] || len(f.Blocks) == 0 {
			return
		}
		ef.need[f] = true
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n := len(r.Results)
				for i, v := range r.Results {
					if i == n-1 {
						break
					}
					last, _ := r.Results[n-1].(*ssa.Extract)
					if e, ok := v.(*ssa.Extract); ok && last != nil && last.Tuple == e.Tuple {
						if c, ok := e.Tuple.(*ssa.Call); ok {
							add(c.Common().StaticCallee())
						}
					}
				}
			}
		}
	}
	for _, f := range ef.ld.allFuncs() {
		if token.IsExported(f.Name()) {
			add(f)
		}
	}
}

// source is one obtained status.
type source struct {
	call ssa.Instruction
	val  ssa.Value // the error or bool; nil if discarded
	name string
	bool bool
}

func (ef *errFlow) calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return typeStr(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return shortFn(f.String())
	}
	return "function value"
}

// neverFails: every return of f has a nil error.
func (ef *errFlow) neverFails(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if v, ok := ef.never[f]; ok {
		return v == 1
	}
	ef.never[f] = 0
	n := f.Signature.Results().Len()
	ok := true
	for _, b := range f.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			if !ef.isNil(r.Results[n-1], map[ssa.Value]bool{}) {
				ok = false
			}
		}
	}
	if ok {
		ef.never[f] = 1
	}
	return ok
}

func (ef *errFlow) isNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ef.isNil(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ef.neverFails(c.Common().StaticCallee())
		}
	case *ssa.Call:
		return ef.neverFails(x.Common().StaticCallee())
	}
	return false
}

// alwaysFails: every return of f has a non-nil error when the errors given
// to it are non-nil.
func (ef *errFlow) alwaysFails(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.String() {
	case "errors.New", "fmt.Errorf":
		return true
	}
	if len(f.Blocks) == 0 {
		return false
	}
	if v, ok := ef.always[f]; ok {
		return v == 1
	}
	ef.always[f] = 0
	n := f.Signature.Results().Len()
	if n == 0 || !isErrorType(f.Signature.Results().At(n-1).Type()) {
		return false
	}
	ok := true
	for _, b := range f.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			if ef.value(r.Results[n-1], nil) != aFail {
				ok = false
			}
		}
	}
	if ok {
		ef.always[f] = 1
	}
	return ok
}

// value evaluates an error or status value.
func (ef *errFlow) value(v ssa.Value, env map[ssa.Value]absV) absV {
	if a, ok := env[v]; ok {
		return a
	}
	switch x := v.(type) {
	case *ssa.Const:
		if isErrorType(x.Type()) && x.IsNil() {
			return aOK
		}
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return aOK
			}
			return aFail
		}
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			return aFail
		}
	case *ssa.ChangeInterface:
		return ef.value(x.X, env)
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil && isErrorType(x.Type()) && ef.alwaysFails(f) {
			return aFail
		}
	case *ssa.Parameter:
		if env == nil && isErrorType(x.Type()) {
			return aFail
		}
	case *ssa.Phi:
		if env == nil {
			r := absV(-1)
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				a := ef.value(e, env)
				if r >= 0 && r != a {
					return aTop
				}
				r = a
			}
			if r >= 0 {
				return r
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return neg(ef.value(x.X, env))
		case token.MUL:
			if _, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) {
				return aFail // a named error
			}
			if a, ok := env[x.X]; ok {
				return a
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			l, r := x.X, x.Y
			if c, ok := l.(*ssa.Const); ok && c.IsNil() {
				l, r = r, l
			}
			if c, ok := r.(*ssa.Const); ok && c.IsNil() && isErrorType(l.Type()) {
				// e == nil holds iff e is ok
				a := ef.value(l, env)
				if x.Op == token.NEQ {
					a = neg(a)
				}
				return a
			}
			if c, ok := r.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				a := ef.value(l, env)
				if constant.BoolVal(c.Value) != (x.Op == token.EQL) {
					a = neg(a)
				}
				return a
			}
		}
	}
	return aTop
}

// statusRead: a parser method whose bool result reports failure.
func (ef *errFlow) statusRead(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Bool || f.Pkg == nil || f.Pkg.Pkg.Path() != ef.ld.modPath+"/cryptobyte" {
		return false
	}
	n := strings.ToLower(f.Name())
	return strings.HasPrefix(n, "read") || strings.HasPrefix(n, "skip") || strings.HasPrefix(n, "copy")
}

func (ef *errFlow) sources(f *ssa.Function) (out []source) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			cc := call.Common()
			res := cc.Signature().Results()
			if res.Len() == 0 {
				continue
			}
			last := res.At(res.Len() - 1).Type()
			s := source{call: call, name: ef.calleeName(cc)}
			switch {
			case isErrorType(last):
				if cc.IsInvoke() && (namedIs(cc.Value.Type(), "hash", "Hash") || namedIs(cc.Value.Type(), "io", "Writer") && isHashWriter(cc.Value)) {
					continue
				}
				g := cc.StaticCallee()
				if g != nil {
					if ef.neverFails(g) {
						continue
					}
					switch g.String() {
					case "errors.New", "fmt.Errorf", "errors.Unwrap", "errors.Join":
						continue
					case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteRune",
						"(*strings.Builder).Write", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune",
						"fmt.Print", "fmt.Printf", "fmt.Println":
						continue
					}
					if ef.alwaysFails(g) {
						continue // makes an error
					}
				}
			case ef.statusRead(cc):
				s.bool = true
			case res.Len() == 2 && cc.StaticCallee() != nil && cc.StaticCallee().String() == "(*math/big.Int).SetString":
				if _, ok := cc.Args[1].(*ssa.Const); ok {
					continue
				}
				s.bool = true
			default:
				continue
			}
			if res.Len() == 1 {
				s.val = call
			} else {
				for _, r := range *call.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == res.Len()-1 {
						s.val = e
					}
				}
			}
			out = append(out, s)
		}
	}
	return
}

func isHashWriter(v ssa.Value) bool {
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		return namedIs(ci.X.Type(), "hash", "Hash")
	}
	return false
}

// lost decides whether the failure of s can be followed by a return that
// reports success; it returns where and why.
func (ef *errFlow) lost(f *ssa.Function, s source) (why string, at token.Pos) {
	res := f.Signature.Results()
	kind := "" // how f reports failure
	errIdx := -1
	if n := res.Len(); n > 0 {
		if isErrorType(res.At(n - 1).Type()) {
			kind, errIdx = "error", n-1
		} else if b, ok := res.At(n - 1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			kind, errIdx = "bool", n-1
		}
	}
	if s.val == nil || s.val.Referrers() == nil || len(*s.val.Referrers()) == 0 {
		return "the result is discarded", s.call.Pos()
	}
	recorded := false
	for _, r := range *s.val.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == s.val {
				recorded = true
			}
		case *ssa.Panic:
			recorded = true
		case *ssa.Call:
			recorded = recorded || kind == "" && !x.Common().IsInvoke()
		case *ssa.MakeInterface:
			for _, q := range *x.Referrers() {
				if _, ok := q.(*ssa.Panic); ok {
					recorded = true
				}
			}
		}
	}
	if kind == "" && recorded {
		return "", 0
	}
	type item struct {
		b    *ssa.BasicBlock
		i    int
		from *ssa.BasicBlock
		env  map[ssa.Value]absV
		phi  map[*ssa.Phi]ssa.Value // what the merged results are on this path
	}
	key := func(it item) string {
		var ks []string
		for v, a := range it.env {
			if a != aTop {
				ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), a))
			}
		}
		for p, v := range it.phi {
			ks = append(ks, p.Name()+":"+v.Name())
		}
		sort.Strings(ks)
		return fmt.Sprintf("%d.%d|%s", it.b.Index, it.i, strings.Join(ks, ","))
	}
	start := 0
	for i, ins := range s.call.Block().Instrs {
		if ins == s.call {
			start = i + 1
		}
	}
	seen := map[string]bool{}
	work := []item{{s.call.Block(), start, nil, map[ssa.Value]absV{s.val: aFail}, nil}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		env := map[ssa.Value]absV{}
		for k, v := range it.env {
			env[k] = v
		}
		if it.from != nil {
			pi := 0
			for i, p := range it.b.Preds {
				if p == it.from {
					pi = i
				}
			}
			nv := map[ssa.Value]absV{}
			var np map[*ssa.Phi]ssa.Value
			for _, ins := range it.b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				nv[p] = ef.value(p.Edges[pi], it.env)
				if returned(p) {
					if np == nil {
						np = map[*ssa.Phi]ssa.Value{}
						for k, v := range it.phi {
							np[k] = v
						}
					}
					np[p] = p.Edges[pi]
					if q, ok := p.Edges[pi].(*ssa.Phi); ok && it.phi[q] != nil {
						np[p] = it.phi[q]
					}
				}
			}
			if np != nil {
				it.phi = np
			}
			for k, v := range nv {
				env[k] = v
			}
		}
		it.env = env
		k := key(it)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 4000 {
			return "too many paths to decide", s.call.Pos()
		}
		push := func(to *ssa.BasicBlock, e map[ssa.Value]absV) { work = append(work, item{to, 0, it.b, e, it.phi}) }
		stop := false
		for i := it.i; i < len(it.b.Instrs) && !stop; i++ {
			switch x := it.b.Instrs[i].(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); ok {
					env[x.Addr] = ef.value(x.Val, env)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if a, ok := env[x.X]; ok {
						env[x] = a
					}
				}
			case *ssa.Call:
				if ssa.Instruction(x) == s.call {
					if !recorded {
						return "the failure is dropped and the operation repeated", x.Pos()
					}
					stop = true
					break
				}
				// a closure may change captured variables
				for v := range env {
					if al, ok := v.(*ssa.Alloc); ok && captured(al) {
						env[v] = aTop
					}
				}
			case *ssa.Panic:
				stop = true
			case *ssa.Return:
				stop = true
				if kind == "" {
					return "nothing reports the failure", x.Pos()
				}
				switch ef.value(x.Results[errIdx], env) {
				case aFail:
					if w := ef.partial(x, errIdx, it.phi); w != "" && ef.need[f] {
						return w, x.Pos()
					}
				case aOK:
					return "success is returned after the failure", x.Pos()
				default:
					if recorded && kind == "bool" {
						break
					}
					return "the status returned after the failure is another one", x.Pos()
				}
			case *ssa.If:
				stop = true
				switch ef.value(x.Cond, env) {
				case aOK:
					push(it.b.Succs[0], env)
				case aFail:
					push(it.b.Succs[1], env)
				default:
					for j, to := range it.b.Succs {
						e := map[ssa.Value]absV{}
						for k, v := range env {
							e[k] = v
						}
						e[x.Cond] = []absV{aOK, aFail}[j]
						push(to, e)
					}
				}
			case *ssa.Jump:
				stop = true
				push(it.b.Succs[0], env)
			case *ssa.Phi:
				// valued on entry to the block
			default:
				if v, ok := x.(ssa.Value); ok && v != s.val {
					delete(env, v)
				}
			}
		}
	}
	return "", 0
}

func captured(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// returned: the merged value is a result, or part of one.
func returned(p *ssa.Phi) bool {
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.Return:
			return true
		case *ssa.Phi:
			if x != p && !x.Block().Dominates(p.Block()) && returned(x) {
				return true
			}
		}
	}
	return false
}

// partial: a return that reports failure also carries data.
func (ef *errFlow) partial(r *ssa.Return, errIdx int, phi map[*ssa.Phi]ssa.Value) string {
	for i, v := range r.Results {
		if i == errIdx || i > errIdx {
			continue
		}
		switch v.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		default:
			continue
		}
		if !ef.empty(v, r, errIdx, phi, map[ssa.Value]bool{}) {
			return fmt.Sprintf("result %d is returned along with the failure", i)
		}
	}
	return ""
}

// empty: v is nil, or the result of the very call whose error is returned.
func (ef *errFlow) empty(v ssa.Value, r *ssa.Return, errIdx int, phi map[*ssa.Phi]ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Extract:
		w := r.Results[errIdx]
		if p, ok := w.(*ssa.Phi); ok && phi[p] != nil {
			w = phi[p]
		}
		if e, ok := w.(*ssa.Extract); ok && e.Tuple == x.Tuple {
			return true
		}
	case *ssa.Phi:
		if e := phi[x]; e != nil && e != v {
			return ef.empty(e, r, errIdx, phi, seen)
		}
		for _, e := range x.Edges {
			if !ef.empty(e, r, errIdx, phi, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // a named result
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, q := range *a.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(a) && !ef.empty(s.Val, r, errIdx, phi, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// attributeParse: the decoding of one attribute of a request, whose failure
// is documented to be ignored: the content of an element of a parameter that
// is a list of raw values.
func attributeParse(f *ssa.Function, s source) bool {
	call, ok := s.call.(*ssa.Call)
	if !ok || call.Common().StaticCallee() == nil || call.Common().StaticCallee().String() != "encoding/asn1.Unmarshal" {
		return false
	}
	found := false
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 8 || v == nil {
			return
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if sl, ok := x.Type().Underlying().(*types.Slice); ok && namedIs(sl.Elem(), "encoding/asn1", "RawValue") {
				found = true
			}
			if namedIs(x.Type(), "encoding/asn1", "RawValue") {
				found = true
			}
		case *ssa.UnOp:
			walk(x.X, d+1)
		case *ssa.FieldAddr:
			walk(x.X, d+1)
		case *ssa.Field:
			walk(x.X, d+1)
		case *ssa.IndexAddr:
			walk(x.X, d+1)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					walk(st.Val, d+1)
				}
			}
		}
	}
	walk(call.Common().Args[0], 0)
	return found
}

func checkErrors(c *Check) {
	c.explain = "For every call in the module that yields an error (or a parser status that reports failure), the paths through the control flow graph from the call on are explored under the assumption that it failed: conditions on the status, on variables it was merged into and on captured cells are decided, all others taken both ways. Every return reached must report failure (a non-nil error, false, or a panic) and carry no data other than that of the same failed call; discarding the status, repeating the operation and returning another status are violations. Calls that can never fail (hash writes, buffers, functions all of whose returns are nil) are left out; the decoding of single attributes of a request, whose failure is documented to be skipped, is the one exception."
	c.rule("propagated", "a failed call is followed by a failure report on every path")
	c.rule("skipped attributes", "only the decoding of a request's attributes may be skipped on failure")
	ef := &errFlow{ld: c.ld, never: map[*ssa.Function]int8{}, always: map[*ssa.Function]int8{}}
	ef.findNeed()
	for _, f := range c.ld.allFuncs() {
		if f.Synthetic != "" {
			continue
		}
		c.analysed[f.String()] = true
		for _, s := range ef.sources(f) {
			what := shortFn(f.String()) + " calls " + s.name
			why, at := ef.lost(f, s)
			if why != "" && attributeParse(f, s) {
				c.ob("skipped attributes", what, c.posOf(s.call.Pos()), true, "")
				continue
			}
			det := ""
			if why != "" {
				det = fmt.Sprintf("%s (call at %s, return at %s)", why, c.posOf(s.call.Pos()), c.posOf(at))
			}
			c.ob("propagated", what, c.posOf(s.call.Pos()), why == "", det)
			c.stats["statuses followed"]++
		}
	}
}

func init() { addCheck("C21", "other", typestate, checkErrors) }
