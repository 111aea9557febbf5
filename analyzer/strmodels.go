package main

// Models of the pure functions of strings and bytes: evaluated on known
// arguments, prefixes and suffixes split into cases, and otherwise functions
// of their arguments.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"
)

// strFns: functions of a string and, possibly, a second argument (a string, a
// byte or a rune).
var strFns = map[string]interface{}{
	"ToLower":       strings.ToLower,
	"ToUpper":       strings.ToUpper,
	"TrimSpace":     strings.TrimSpace,
	"Contains":      strings.Contains,
	"ContainsAny":   strings.ContainsAny,
	"EqualFold":     strings.EqualFold,
	"HasPrefix":     strings.HasPrefix,
	"HasSuffix":     strings.HasSuffix,
	"Count":         strings.Count,
	"Compare":       strings.Compare,
	"Index":         strings.Index,
	"IndexAny":      strings.IndexAny,
	"LastIndex":     strings.LastIndex,
	"LastIndexAny":  strings.LastIndexAny,
	"TrimPrefix":    strings.TrimPrefix,
	"TrimSuffix":    strings.TrimSuffix,
	"Trim":          strings.Trim,
	"TrimLeft":      strings.TrimLeft,
	"TrimRight":     strings.TrimRight,
	"IndexByte":     func(s string, b byte) int { return strings.IndexByte(s, b) },
	"LastIndexByte": func(s string, b byte) int { return strings.LastIndexByte(s, b) },
	"IndexRune":     func(s string, r rune) int { return strings.IndexRune(s, r) },
	"ContainsRune":  func(s string, r rune) bool { return strings.ContainsRune(s, r) },
	"Split":         strings.Split,
	"Fields":        strings.Fields,
	"Repeat":        func(s string, n int) string { return strings.Repeat(s, n) },
	"SplitN":        strings.SplitN,
	"Cut":           strings.Cut,
	"Replace":       strings.Replace,
	"ReplaceAll":    strings.ReplaceAll,
}

// onBytes: the functions that mean the same in package bytes and whose result
// is no slice of the argument.
var onBytes = []string{"Contains", "ContainsAny", "EqualFold", "HasPrefix", "HasSuffix", "Count", "Index", "IndexAny", "LastIndex",
	"LastIndexAny", "IndexByte", "LastIndexByte", "IndexRune", "ContainsRune"}

func strModels(M map[string]modelFn) {
	for n := range strFns {
		M["strings."+n] = strModel(n, "strings."+n)
	}
	for _, n := range onBytes {
		M["bytes."+n] = strModel(n, "bytes."+n)
	}
	one := func(name string, f func(r rune) bool) {
		M[name] = func(e *Engine, c *callCtx) []*Result {
			if r, ok := c.term(0).i64(); ok {
				return c.ret(CBool(f(rune(r))))
			}
			return c.ret(rawOp("ext", name, 0, c.term(0)))
		}
	}
	one("unicode.IsDigit", unicode.IsDigit)
	one("unicode.IsLetter", unicode.IsLetter)
	one("unicode.IsSpace", unicode.IsSpace)
	one("unicode.IsPrint", unicode.IsPrint)
	one("unicode.IsControl", unicode.IsControl)
	bufModels(M)
}

func strModel(n, name string) modelFn {
	return func(e *Engine, c *callCtx) []*Result {
		var ts []*Term
		for i, a := range c.args {
			if isInteger(c.sig.Params().At(i).Type()) {
				ts = append(ts, c.term(i))
			} else {
				ts = append(ts, e.bytesOf(c.st, a))
			}
		}
		if vs := foldStr(strFns[n], ts); vs != nil {
			var out []Value
			for i, v := range vs {
				t := c.sig.Results().At(i).Type()
				if v.op == "strs" {
					var ps []*Term
					for _, a := range v.args {
						ps = append(ps, ElemW(a))
					}
					out = append(out, e.allocSeq(c.st, c.site, t, MkSeq(ps...)))
					continue
				}
				out = append(out, e.fromTerm(v, t))
			}
			return c.ret(out...)
		}
		str := types.Typ[types.String]
		if len(ts) == 2 {
			la, lb := SeqLen(ts[0]), SeqLen(ts[1])
			affix := func(off func() *Term, yes, no func(*State) []Value) []*Result {
				if c.st.facts.Eval(GE0(Sub(la, lb))) == -1 {
					return c.ret(no(c.st)...)
				}
				g := c.fork()
				c.st.facts = c.st.facts.Assume(GE0(Sub(la, lb)), true)
				g.facts = g.facts.Assume(GE0(Sub(la, lb)), false)
				var out []*Result
				if !c.st.facts.bot {
					if sub := subSeqOr(c.st.facts, ts[0], off(), lb); sub != nil {
						out = append(out, c.cases(seqEqCond(c.st, sub, ts[1]), yes, no)...)
					} else {
						u := rawOp("ext", name, 0, ts...)
						out = append(out, c.cases(u, yes, no)...)
					}
				}
				if !g.facts.bot {
					out = append(out, &Result{st: g, vals: no(g)})
				}
				return out
			}
			zero := func() *Term { return C(0) }
			end := func() *Term { return Sub(la, lb) }
			tr := func(*State) []Value { return []Value{TTrue} }
			fa := func(*State) []Value { return []Value{TFalse} }
			same := func(*State) []Value { return []Value{c.args[0]} }
			cut := func(off *Term) func(st *State) []Value {
				return func(st *State) []Value {
					sub := subSeqOr(st.facts, ts[0], off, Sub(la, lb))
					if sub == nil {
						sub = rawOp("ext", name, 0, ts...)
						sub = SubBase(sub, C(0), LenOf(sub))
					}
					return []Value{e.fromTerm(sub, str)}
				}
			}
			switch n {
			case "HasPrefix":
				return affix(zero, tr, fa)
			case "HasSuffix":
				return affix(end, tr, fa)
			case "TrimPrefix":
				return affix(zero, cut(lb), same)
			case "TrimSuffix":
				return affix(end, cut(C(0)), same)
			}
		}
		var out []Value
		for i := 0; i < c.sig.Results().Len(); i++ {
			t := c.sig.Results().At(i).Type()
			r := rawOp("ext", name, i, ts...)
			if isInteger(t) && len(ts) == 2 && n != "Compare" && n != "Count" {
				c.st.facts = c.st.facts.Assume(GE0(Add(r, C(1))), true).Assume(Lt(r, Add(SeqLen(ts[0]), CBoolInt(SeqLen(ts[0]).isCi(0)))), true)
			}
			out = append(out, e.fromTerm(r, t))
		}
		return c.ret(out...)
	}
}

// foldStr evaluates the function on known arguments.
func foldStr(fn interface{}, ts []*Term) []*Term {
	str := make([]string, len(ts))
	num := make([]int64, len(ts))
	for i, t := range ts {
		var ok bool
		if str[i], ok = constStr(t); ok {
			continue
		}
		if num[i], ok = t.i64(); !ok {
			return nil
		}
	}
	one := func(t *Term) []*Term { return []*Term{t} }
	list := func(ss []string) []*Term {
		var as []*Term
		for _, s := range ss {
			as = append(as, Bytes(s))
		}
		return one(rawOp("strs", "", 0, as...))
	}
	switch f := fn.(type) {
	case func(string) string:
		return one(Bytes(f(str[0])))
	case func(string) []string:
		return list(f(str[0]))
	case func(string, string) string:
		return one(Bytes(f(str[0], str[1])))
	case func(string, string) bool:
		return one(CBool(f(str[0], str[1])))
	case func(string, string) int:
		return one(C(int64(f(str[0], str[1]))))
	case func(string, string) []string:
		return list(f(str[0], str[1]))
	case func(string, string, int) []string:
		return list(f(str[0], str[1], int(num[2])))
	case func(string, string, string) string:
		return one(Bytes(f(str[0], str[1], str[2])))
	case func(string, string, string, int) string:
		return one(Bytes(f(str[0], str[1], str[2], int(num[3]))))
	case func(string, byte) int:
		return one(C(int64(f(str[0], byte(num[1])))))
	case func(string, rune) int:
		return one(C(int64(f(str[0], rune(num[1])))))
	case func(string, rune) bool:
		return one(CBool(f(str[0], rune(num[1]))))
	case func(string, int) string:
		if num[1] < 0 || num[1] > 4096 {
			return nil
		}
		return one(Bytes(f(str[0], int(num[1]))))
	case func(string, string) (string, string, bool):
		a, b, ok := f(str[0], str[1])
		return []*Term{Bytes(a), Bytes(b), CBool(ok)}
	}
	return nil
}

// bufModels: joining of lists, and the accumulating buffers.
func bufModels(M map[string]modelFn) {
	byteSl := types.NewSlice(types.Typ[types.Uint8])
	join := func(name string, str bool) modelFn {
		return func(e *Engine, c *callCtx) []*Result {
			l := c.slice(0)
			et := elemType(c.sig.Params().At(0).Type())
			var sep *Term
			if name != "slices.Concat" {
				sep = e.bytesOf(c.st, c.args[1])
			}
			var r *Term
			if n, ok := l.len.i64(); ok && n <= 32 {
				var ps []*Term
				for i := int64(0); i < n; i++ {
					if i > 0 && sep != nil {
						ps = append(ps, sep)
					}
					ps = append(ps, e.bytesOf(c.st, e.loadPtr(c.st, &Ptr{obj: l.obj, path: l.path, idx: Add(l.off, C(i)), nilT: TFalse}, et)))
				}
				r = mkSeqF(c.st.facts, ps...)
			} else {
				ts := []*Term{e.bytesOf(c.st, l)}
				if sep != nil {
					ts = append(ts, sep)
				}
				r = rawOp("ext", name, 0, ts...)
				r = SubBase(r, C(0), LenOf(r))
			}
			if str {
				return c.ret(r)
			}
			return c.ret(e.allocSeq(c.st, c.site, byteSl, r))
		}
	}
	M["bytes.Join"] = join("bytes.Join", false)
	M["strings.Join"] = join("strings.Join", true)

	// buffer fields: index of the slice and of the read offset (-1: none)
	type bufT struct {
		name     string
		buf, off int
	}
	for _, b := range []bufT{{"(*bytes.Buffer).", 0, 1}, {"(*strings.Builder).", 1, -1}} {
		b := b
		get := func(e *Engine, c *callCtx) (*Slice, *Term, bool) {
			p := c.ptr(0)
			if p.obj == nil || !e.checkNil(c.st, p, c.pos) {
				return nil, nil, false
			}
			s, ok := e.loadAt(c.st, p.obj, fmt.Sprintf("%s.%d", p.path, b.buf), byteSl).(*Slice)
			if !ok {
				return nil, nil, false
			}
			off := C(0)
			if b.off >= 0 {
				off, _ = e.loadAt(c.st, p.obj, fmt.Sprintf("%s.%d", p.path, b.off), types.Typ[types.Int]).(*Term)
			}
			return s, off, off != nil
		}
		set := func(e *Engine, c *callCtx, s *Slice, off *Term) {
			p := c.ptr(0)
			e.noteWrite(c.st, p.obj, "buffer")
			e.storeAt(c.st, p.obj, fmt.Sprintf("%s.%d", p.path, b.buf), byteSl, s)
			if b.off >= 0 {
				e.storeAt(c.st, p.obj, fmt.Sprintf("%s.%d", p.path, b.off), types.Typ[types.Int], off)
			}
		}
		rest := func(s *Slice, off *Term) *Slice {
			return &Slice{obj: s.obj, path: s.path, off: Add(s.off, off), len: Sub(s.len, off), cap: Sub(s.cap, off), nilT: s.nilT}
		}
		write := func(one, err bool) modelFn {
			return func(e *Engine, c *callCtx) []*Result {
				s, off, ok := get(e, c)
				if !ok {
					return nil
				}
				var add *Term
				if one {
					add = Elem(c.term(1))
				} else {
					add = e.bytesOf(c.st, c.args[1])
				}
				set(e, c, e.appendSeq(c, s, byteSl, add), off)
				if one {
					if err {
						return c.ret(nilIface)
					}
					return c.ret()
				}
				return c.ret(SeqLen(add), nilIface)
			}
		}
		M[b.name+"Write"] = write(false, true)
		M[b.name+"WriteString"] = write(false, true)
		M[b.name+"WriteByte"] = write(true, true)
		M[b.name+"Grow"] = func(e *Engine, c *callCtx) []*Result {
			if !e.oblige(c.st, b.name+"Grow: negative count", GE0(c.term(1)), c.pos) {
				return nil
			}
			return c.ret()
		}
		M[b.name+"Reset"] = func(e *Engine, c *callCtx) []*Result {
			s, _, ok := get(e, c)
			if !ok {
				return nil
			}
			if b.off >= 0 {
				s = &Slice{obj: s.obj, path: s.path, off: s.off, len: C(0), cap: s.cap, nilT: s.nilT}
			} else {
				s = &Slice{off: C(0), len: C(0), cap: C(0), nilT: TTrue}
			}
			set(e, c, s, C(0))
			return c.ret()
		}
		M[b.name+"Len"] = func(e *Engine, c *callCtx) []*Result {
			s, off, ok := get(e, c)
			if !ok {
				return nil
			}
			return c.ret(Sub(s.len, off))
		}
		M[b.name+"String"] = func(e *Engine, c *callCtx) []*Result {
			s, off, ok := get(e, c)
			if !ok {
				return nil
			}
			return c.ret(e.sliceSeq(c.st, rest(s, off)))
		}
		if b.off < 0 {
			continue
		}
		M[b.name+"Bytes"] = func(e *Engine, c *callCtx) []*Result {
			s, off, ok := get(e, c)
			if !ok {
				return nil
			}
			return c.ret(rest(s, off))
		}
	}
	newBuf := func(e *Engine, c *callCtx) []*Result {
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := e.alloc(c.st, c.site, t)
		s, ok := c.args[0].(*Slice)
		if !ok {
			s = e.allocSeq(c.st, c.site+"s", byteSl, c.term(0))
		}
		e.storeAt(c.st, o, ".0", byteSl, s)
		return c.ret(&Ptr{obj: o, nilT: TFalse})
	}
	M["bytes.NewBuffer"] = newBuf
	M["bytes.NewBufferString"] = newBuf
}
