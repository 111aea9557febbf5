package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func repoRoot() string {
	if r := os.Getenv("GMV_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func debugRun(a []string) {
	debug.SetGCPercent(400)
	if p := os.Getenv("GMV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	ld, err := loadRepo(repoRoot())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0))
	e := newEngine(ld)
	e.initPackages()
	fmt.Println("init", time.Since(t0), "base", len(e.base), e.unsup, e.unkExt)
	for _, o := range e.failedObls() {
		fmt.Println("INIT OBL", *o)
	}
	e.resetRecords()
	if os.Getenv("GMV_NOHASH") == "" && !e.useHashModel() {
		fmt.Println("no hash model")
	}
	fn := ld.fn(a[0], a[1])
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	st := e.newState()
	rs := e.Run(fn, e.symArgs(fn), st)
	for i, r := range rs {
		fmt.Printf("--- exit %d\n", i)
		e.dumpResult(r)
	}
	fmt.Println("steps", e.steps, "paths", e.nPaths, "loops", e.nLoops, "unrolled", e.nUnrolled, time.Since(t0))
	for _, o := range e.failedObls() {
		fmt.Println("FAILED", o.fn, o.kind, o.pos, o.detail, "\n     facts:", o.facts)
	}
	var ks []string
	for k := range e.unsup {
		ks = append(ks, "UNSUP "+k)
	}
	for k := range e.unkExt {
		ks = append(ks, "UNKEXT "+k)
	}
	for k := range e.writes {
		ks = append(ks, "WRITE "+k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
}

func (e *Engine) dumpResult(r *Result) {
	for _, v := range r.vals {
		fmt.Println("  ret:", e.showVal(r.st, v, 0))
	}
	fmt.Println("  facts:", r.st.facts)
	if os.Getenv("GMV_MEM") != "" {
		for c, v := range r.st.mem {
			fmt.Println("  mem", c.obj.key, c.path, "=", e.showVal(r.st, v.v, 1))
		}
	}
	if os.Getenv("GMV_EV") != "" {
		for _, ev := range r.st.events() {
			fmt.Println("  ev", ev.kind, ev.fn, ev.s, ev.args)
		}
	}
}

func (e *Engine) showVal(st *State, v Value, d int) string {
	if d > 4 {
		return "…"
	}
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Ptr:
		if x.obj == nil {
			return "nil"
		}
		s := "&" + x.obj.key + x.path
		if x.idx != nil {
			s += "[" + x.idx.String() + "]" + x.sub
		}
		if isBigInt(typeAtPath(x.obj.typ, x.path)) {
			s += "=" + e.bigVal(st, x).String()
		} else if x.idx == nil {
			if _, ok := isStruct(typeAtPath(x.obj.typ, x.path)); ok {
				s += "=" + e.showVal(st, e.loadAt(st, x.obj, x.path, typeAtPath(x.obj.typ, x.path)), d+1)
			}
		}
		if x.nilT != TFalse {
			s += " nil?" + x.nilT.String()
		}
		return s
	case *Slice:
		if x.obj == nil {
			return "[]nil"
		}
		return fmt.Sprintf("slice(%s%s off=%s len=%s cap=%s nil?%s){%s}", x.obj.key, x.path, x.off, x.len, x.cap, x.nilT, e.sliceSeq(st, x))
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += e.showVal(st, f, d+1) + ", "
		}
		return s + "}"
	case *ArrV:
		return "arr{" + x.seq.String() + "}"
	case *Iface:
		if x.typ != nil {
			return "iface(" + x.typ.String() + ": " + e.showVal(st, x.val, d+1) + ")"
		}
		if x.nilT == TTrue {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%s nil?%s)", x.t, x.nilT)
	case Tuple:
		s := "("
		for _, f := range x {
			s += e.showVal(st, f, d+1) + ", "
		}
		return s + ")"
	}
	return fmt.Sprintf("%T %v", v, v)
}

func profiled(f func() int) int {
	if p := os.Getenv("GMV_PROF"); p != "" {
		w, _ := os.Create(p)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	return f()
}
