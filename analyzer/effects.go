package main

// Effects and sources of randomness.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// foreign lists the functions and variables of other modules an instruction
// refers to, by call or as a value.
func (ld *Loader) foreign(ins ssa.Instruction) (out []types.Object) {
	obj := func(o types.Object) {
		if o != nil && o.Pkg() != nil && !ld.inModule(o.Pkg()) {
			out = append(out, o)
		}
	}
	for _, op := range ins.Operands(nil) {
		switch v := (*op).(type) {
		case *ssa.Function:
			obj(v.Object())
		case *ssa.Global:
			obj(v.Object())
		}
	}
	if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
		obj(ci.Common().Method)
	}
	return
}

func objName(o types.Object) string {
	if f, ok := o.(*types.Func); ok {
		return f.FullName()
	}
	return o.Pkg().Path() + "." + o.Name()
}

// effectOf names the effect of using an object of the standard library on
// the world outside the caller's memory, "" if it has none.
func effectOf(o types.Object) string {
	p, n := o.Pkg().Path(), o.Name()
	recv := ""
	if f, ok := o.(*types.Func); ok {
		if r := f.Type().(*types.Signature).Recv(); r != nil {
			recv = "method"
		}
	}
	root := p
	if i := strings.Index(p, "/"); i > 0 {
		root = p[:i]
	}
	switch {
	case p == "os" || strings.HasPrefix(p, "os/"):
		switch {
		case recv != "" && (n == "Error" || n == "Unwrap" || n == "Timeout"), n == "IsNotExist", n == "IsExist", n == "IsPermission":
			return ""
		}
		return "operating system"
	case root == "log":
		return "log"
	case root == "syscall" || strings.HasPrefix(p, "internal/syscall"):
		return "operating system"
	case root == "plugin", p == "runtime/cgo":
		return "operating system"
	case p == "io/ioutil" && n != "ReadAll" && n != "Discard" && n != "NopCloser":
		return "file system"
	case p == "path/filepath":
		switch n {
		case "Abs", "Glob", "Walk", "WalkDir", "EvalSymlinks":
			return "file system"
		}
	case p == "fmt":
		switch n {
		case "Print", "Printf", "Println":
			return "standard output"
		case "Scan", "Scanf", "Scanln":
			return "standard input"
		}
	case p == "net":
		if recv != "" {
			f := o.(*types.Func)
			t := f.Type().(*types.Signature).Recv().Type().String()
			for _, ok := range []string{"net.IP", "net.IPNet", "net.IPMask", "net.HardwareAddr", "net.IPAddr", "net.Addr"} {
				if strings.TrimPrefix(t, "*") == ok {
					return ""
				}
			}
			if n == "Error" {
				return ""
			}
			return "network"
		}
		for _, ok := range []string{"Parse", "IP", "CIDR", "Split", "Join", "Err"} {
			if strings.HasPrefix(n, ok) {
				return ""
			}
		}
		return "network"
	case strings.HasPrefix(p, "net/"):
		switch p {
		case "net/url", "net/mail", "net/netip", "net/textproto":
			return ""
		}
		return "network"
	case p == "crypto/tls":
		return "network"
	case p == "crypto/x509" && n == "SystemCertPool":
		return "file system"
	case p == "time":
		if recv == "" {
			switch n {
			case "Now", "Since", "Until":
				return "clock"
			case "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker":
				return "clock"
			case "LoadLocation", "Local":
				return "environment"
			}
		} else if n == "Local" {
			return "environment"
		}
	case root == "testing":
		return "test machinery"
	case p == "runtime/debug", p == "runtime/pprof", p == "runtime/trace", p == "runtime/metrics", p == "runtime/coverage", root == "expvar":
		return "process"
	case p == "runtime":
		switch n {
		case "KeepAlive", "GOOS", "GOARCH":
			return ""
		}
		return "process"
	case p == "sync" && recv != "" && n == "Go":
		return "goroutine"
	case p == "context" && recv == "" && strings.HasPrefix(n, "With"):
		return "goroutine"
	}
	return ""
}

// effectsIn lists the effects of one function's own instructions.
func (c *Check) effectsIn(f *ssa.Function) (out []string) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			at := c.posOf(ins.Pos())
			if _, ok := ins.(*ssa.Go); ok {
				out = append(out, "goroutine started at "+at)
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
					out = append(out, "standard error: "+bi.Name()+" at "+at)
				}
			}
			for _, o := range c.ld.foreign(ins) {
				if e := effectOf(o); e != "" {
					out = append(out, e+": "+objName(o)+" at "+at)
				}
			}
			if cv, ok := ins.(*ssa.Convert); ok && types.Identical(cv.Type().Underlying(), types.Typ[types.UnsafePointer]) {
				out = append(out, "unsafe pointer at "+at)
			}
		}
	}
	return
}

// ---- what error values are made of ---------------------------------------------

type contentSlice struct {
	ld   *Loader
	seen map[ssa.Value]bool
}

// reveals: the value depends on the content of memory or on a computed number
// other than a length, "" if not.
func (s *contentSlice) reveals(v ssa.Value) string {
	if v == nil || s.seen[v] {
		return ""
	}
	s.seen[v] = true
	if isErrorType(v.Type()) {
		if _, ok := v.(*ssa.MakeInterface); !ok {
			return "" // judged where it was made
		}
	}
	at := func() string { return s.ld.fset.Position(v.Pos()).String() }
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Builtin, *ssa.Function:
		return ""
	case *ssa.Parameter:
		// only through every caller; an exported function's is given by the user
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 {
			return ""
		}
		f := x.Parent()
		k := -1
		for i, p := range f.Params {
			if p == x {
				k = i
			}
		}
		n := 0
		for _, g := range s.ld.allFuncs() {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						if w := s.reveals(ci.Common().Args[k]); w != "" {
							return w
						}
					}
				}
			}
		}
		if n == 0 || token.IsExported(f.Name()) && f.Signature.Recv() == nil {
			return "parameter " + x.Name() + " of " + f.Name()
		}
		return ""
	case *ssa.MakeInterface:
		return s.reveals(x.X)
	case *ssa.ChangeType:
		return s.reveals(x.X)
	case *ssa.ChangeInterface:
		return s.reveals(x.X)
	case *ssa.Convert:
		return s.reveals(x.X)
	case *ssa.Slice:
		return s.reveals(x.X)
	case *ssa.BinOp:
		if w := s.reveals(x.X); w != "" {
			return w
		}
		return s.reveals(x.Y)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := s.reveals(e); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Extract:
		return s.reveals(x.Tuple)
	case *ssa.Alloc:
		// what is stored into it
		for _, r := range *x.Referrers() {
			if w := s.stored(r, x); w != "" {
				return w
			}
		}
		return ""
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return s.reveals(x.X)
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			return ""
		case *ssa.Alloc:
			return s.reveals(a)
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 {
			if _, ok := x.X.(*ssa.FieldAddr); ok {
				return "" // a counter or size in a struct
			}
		}
		return "memory read at " + at()
	case *ssa.Call:
		cc := x.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" || b.Name() == "cap" {
				return ""
			}
		}
		if f := cc.StaticCallee(); f != nil {
			if s.ld.inModule(f.Pkg.Pkg) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, v := range r.Results {
							if w := s.reveals(v); w != "" {
								return w
							}
						}
					}
				}
				return ""
			}
			switch p := f.Pkg.Pkg.Path(); p {
			case "fmt", "strconv", "errors", "strings":
				for _, a := range cc.Args {
					if w := s.reveals(a); w != "" {
						return w
					}
				}
				return ""
			}
			if f.Name() == "BitLen" || f.Name() == "Len" || f.Name() == "Size" {
				return ""
			}
		}
		return "result of a call at " + at()
	}
	return "memory read at " + at()
}

func (s *contentSlice) stored(r ssa.Instruction, base ssa.Value) string {
	switch y := r.(type) {
	case *ssa.Store:
		if y.Addr == base {
			return s.reveals(y.Val)
		}
	case *ssa.IndexAddr:
		for _, q := range *y.Referrers() {
			if w := s.stored(q, y); w != "" {
				return w
			}
		}
	case *ssa.FieldAddr:
		for _, q := range *y.Referrers() {
			if w := s.stored(q, y); w != "" {
				return w
			}
		}
	}
	return ""
}

// errorParts are the values an instruction builds an error or a panic from.
func (c *Check) errorParts(ins ssa.Instruction) []ssa.Value {
	switch x := ins.(type) {
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil && f.Pkg != nil {
			switch f.String() {
			case "errors.New", "fmt.Errorf":
				return x.Common().Args
			}
		}
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			return []ssa.Value{x.X}
		}
	case *ssa.Panic:
		return []ssa.Value{x.X}
	}
	return nil
}

func checkEffects(c *Check) {
	c.explain = "Every instruction of every function of the module (closures and initialisers included) is inspected in SSA form for references, by call or as a value, to functions and variables of the standard library with effects outside memory (output, logs, files, network, environment, processes, clock), for goroutine starts, print builtins and unsafe conversions. Only the exported helper of the hash package that takes and returns nothing may have such an effect, and nothing in the module may call it. In the packages that handle keys and plaintext, a backward slice of everything an error or a panic is built from must end in constants, lengths, sizes or other errors."
	c.rule("no effect", "no instruction refers to something with an effect outside memory")
	c.rule("helper", "nothing calls the printing helper")
	c.rule("error content", "errors and panics are built from constants, lengths, sizes and other errors only")
	c.assumption("the classification of standard library functions in analyzer/effects.go")
	for _, f := range c.ld.allFuncs() {
		c.analysed[f.String()] = true
		es := c.effectsIn(f)
		helper := f.Pkg != nil && f.Pkg.Pkg.Path() == c.ld.modPath+"/sm3" && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && f.Signature.Recv() == nil && token.IsExported(f.Name())
		if helper && len(es) > 0 {
			for _, e := range es {
				c.ob("no effect", shortFn(f.String()), c.at(f), strings.HasPrefix(e, "standard output"), e)
			}
			cs := c.ld.callers(f)
			c.ob("helper", shortFn(f.String()), c.at(f), len(cs) == 0, "the printing helper is used by the library")
			continue
		}
		sort.Strings(es)
		c.ob("no effect", shortFn(f.String()), c.at(f), len(es) == 0, strings.Join(es, "; "))
	}
	c.ob("helper", "any", "sm3", true, "")
	for _, f := range c.ld.allFuncs() {
		if f.Pkg == nil {
			continue
		}
		switch strings.TrimPrefix(f.Pkg.Pkg.Path(), c.ld.modPath+"/") {
		case "sm2", "sm3", "sm4", "util":
		default:
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, v := range c.errorParts(ins) {
					s := &contentSlice{c.ld, map[ssa.Value]bool{}}
					w := s.reveals(v)
					c.ob("error content", shortFn(f.String()), c.posOf(ins.Pos()), w == "", "an error or panic at "+c.posOf(ins.Pos())+" is built from: "+w)
				}
			}
		}
	}
}

// ---- randomness ------------------------------------------------------------------

func entropyOf(o types.Object) string {
	p, n := o.Pkg().Path(), o.Name()
	switch {
	case strings.HasPrefix(p, "math/rand"), p == "hash/maphash", p == "testing/quick":
		return "a source other than the operating system's"
	case p == "crypto/rand" && n != "Int" && n != "Reader":
		return "an unchecked way of drawing"
	case p == "time" && (n == "Now" || n == "Since" || n == "Until"):
		return "the clock"
	case p == "os" && (n == "Getpid" || n == "Getppid" || n == "Hostname" || n == "Open" || n == "OpenFile"), strings.HasPrefix(p, "syscall"):
		return "the process or system"
	case p == "runtime" && n != "KeepAlive":
		return "the process"
	case p == "math/big" && n == "Rand":
		return "a source other than the operating system's"
	}
	return ""
}

func checkRandomness(c *Check) {
	c.explain = "Every instruction of the module is inspected for references to other sources of randomness or entropy (math/rand, maphash, clock, process identity, seeds) and to crypto/rand other than its reader and its uniform sampler; the library's random reader must not be replaced. The drawing functions are then found by interpretation: in signing, encryption and key generation every draw seen on any path must read the operating system's source (key generation: exactly the reader it is given), every success must come with a draw, and the bound of every draw must make the value uniform in [1,n-1]. No other exported function of the sm2 package may reach a draw in the call graph."
	c.rule("sources", "no other source of randomness is referred to")
	c.rule("reader", "every draw reads the operating system's source, key generation the reader given")
	c.rule("uniform", "every draw is the uniform sampler with the group order as bound, or a full-width read")
	c.rule("drawn", "every successful result comes with a draw")
	c.rule("elsewhere", "no other exported function reaches a draw")
	for _, f := range c.ld.allFuncs() {
		c.analysed[f.String()] = true
		var bad []string
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range c.ld.foreign(ins) {
					if e := entropyOf(o); e != "" {
						bad = append(bad, e+": "+objName(o)+" at "+c.posOf(ins.Pos()))
					}
				}
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
						bad = append(bad, "the random reader is replaced at "+c.posOf(ins.Pos()))
					}
				}
			}
		}
		c.ob("sources", shortFn(f.String()), c.at(f), len(bad) == 0, strings.Join(bad, "; "))
	}
	e := c.engine(true)
	e.wellFormed()
	for _, n := range []string{"SignToRS", "Sign", "Encrypt", "GenerateKey"} {
		var pre func(e *Engine, st *State, a map[string]*Term)
		switch n {
		case "SignToRS", "Sign":
			pre = privPre("0")
		case "Encrypt":
			pre = pubPre("0")
		}
		r := c.run(e, "sm2", n, pre)
		if !r.ok {
			continue
		}
		want := sysRand
		if n == "GenerateKey" {
			want = r.arg(0)
		}
		draws := map[*Term]bool{}
		for _, ev := range e.log {
			if ev.kind != "rand" || len(ev.args) < 2 {
				continue
			}
			draws[ev.args[1]] = true
			rd := ev.args[0]
			c.ob("reader", n, c.at(r.fn), rd == want, "a draw reads "+termStr(rd))
			ok := false
			switch ev.s {
			case "generatekey":
				ok = true
			case "int":
				ok = ev.args[2] == smN || ev.args[2] == nMinus(1)
			case "read":
				ok = ev.args[2].isCi(32)
			}
			c.ob("uniform", n, c.at(r.fn), ok, fmt.Sprintf("a draw of kind %s with bound %s", ev.s, termStr(ev.args[len(ev.args)-1])))
		}
		c.ob("drawn", n, c.at(r.fn), len(draws) > 0, "no draw is made")
	}
	// reachability other than through the four operations
	drawing := func(f *ssa.Function) bool {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != c.ld.modPath+"/sm2" || f.Signature.Recv() != nil {
			return false
		}
		switch f.Name() {
		case "Sign", "SignToRS", "Encrypt", "GenerateKey":
			return true
		}
		return false
	}
	c.ob("elsewhere", "call graph", "sm2", true, "")
	reach := map[*ssa.Function]bool{}
	for _, f := range c.ld.allFuncs() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range c.ld.foreign(ins) {
					if p := o.Pkg().Path(); p == "crypto/rand" || p == "crypto/elliptic" && o.Name() == "GenerateKey" || p == "crypto/ecdsa" {
						reach[f] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range c.ld.allFuncs() {
			if reach[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && reach[g] && !reach[f] && !drawing(g) {
							reach[f], again = true, true
						}
					}
				}
			}
		}
	}
	for f := range reach {
		if drawing(f) || f.Pkg == nil || !token.IsExported(f.Name()) {
			continue
		}
		n := f.RelString(f.Pkg.Pkg)
		rel := strings.TrimPrefix(f.Pkg.Pkg.Path(), c.ld.modPath+"/")
		c.ob("elsewhere", rel+"."+n, c.at(f), false, "an operation that needs no randomness reaches a draw")
	}
}

func init() {
	addCheck("C33", "other", effects, checkEffects)
	addCheck("C34", "other", effects, checkRandomness)
}
