package main

// Check driver: one property per run.  Every rule adds obligations; an
// obligation that is not established is a violation unless it is listed in
// the known-findings file.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Rule, What, Where string
	OK                bool
	Detail            string
}

type Check struct {
	id, tier  string
	ld        *Loader
	obs       []*Ob
	analysed  map[string]bool
	notes     []string
	stats     map[string]int
	explain   string
	assume    []string
	start     time.Time
	ruleOrder []string
	ruleText  map[string]string
	onExit    func(q *cexit) // sees every success exit of the certificate scenarios
}

// rule declares a rule with its statement (for the evidence).
func (c *Check) rule(name, text string) {
	if _, ok := c.ruleText[name]; !ok {
		c.ruleOrder = append(c.ruleOrder, name)
	}
	c.ruleText[name] = text
}

func (c *Check) ob(rule, what, where string, ok bool, detail string) bool {
	if _, declared := c.ruleText[rule]; !declared {
		c.rule(rule, "")
	}
	c.obs = append(c.obs, &Ob{rule, what, where, ok, detail})
	return ok
}

func (c *Check) fail(rule, what, where, detail string) { c.ob(rule, what, where, false, detail) }

func (c *Check) assumption(s string) { c.assume = append(c.assume, s) }

// ---- engines and runs -----------------------------------------------------

type Run struct {
	c    *Check
	e    *Engine
	fn   *ssa.Function
	name string
	args map[string]Value
	ex   []*Exit
	ok   bool
}

type Exit struct {
	r    *Run
	F    *Facts
	st   *State
	vals []Value
	i    int
}

func (c *Check) engine(hash bool) *Engine {
	e := newEngine(c.ld)
	e.initPackages()
	e.initFail = e.failedObls()
	e.initUnsup = len(e.unsup)
	e.resetRecords()
	if hash && !e.useHashModel() {
		c.fail("analysable", "hash type", "sm3", "the type returned by sm3.New cannot be identified")
	}
	return e
}

// wellFormed makes pointers reached from parameters non-nil.
func (e *Engine) wellFormed() {
	e.nonNilF = func(t *Term, typ types.Type) bool {
		for t.op == "fld" {
			t = t.args[0]
		}
		return t.op == "sym" && strings.HasPrefix(t.s, "arg:")
	}
}

// externals the analysed code may use although they are not modelled: they
// neither write memory of the caller nor influence a checked result.
var harmless = map[string]bool{}

func (c *Check) run(e *Engine, pkg, name string, pre func(e *Engine, st *State, a map[string]*Term)) *Run {
	r := &Run{c: c, e: e, name: pkg + "." + name, args: map[string]Value{}}
	fn := c.ld.fn(pkg, name)
	if fn == nil || fn.Blocks == nil {
		c.fail("analysable", r.name, pkg, "the function does not exist")
		return r
	}
	r.fn = fn
	c.analysed[fn.String()] = true
	e.resetRecords()
	st := e.newState()
	args := e.symArgs(fn)
	syms := map[string]*Term{}
	for i, p := range fn.Params {
		r.args[p.Name()] = args[i]
		syms[p.Name()] = SymW("arg:"+p.Name(), uwidth(p.Type()))
		syms[fmt.Sprint(i)] = syms[p.Name()]
	}
	if pre != nil {
		pre(e, st, syms)
	}
	ok := true
	func() {
		defer func() {
			if x := recover(); x != nil {
				ok = false
				if _, b := x.(budgetExceeded); b {
					c.fail("analysable", r.name, c.at(fn), "the analysis budget was exceeded")
					return
				}
				c.fail("analysable", r.name, c.at(fn), fmt.Sprintf("analysis failed: %v %s", x, cutMid(string(debug.Stack()), 1500)))
			}
		}()
		for i, x := range e.Run(fn, args, st) {
			r.ex = append(r.ex, &Exit{r, x.st.facts, x.st, x.vals, i})
		}
	}()
	for f := range e.called {
		c.analysed[f] = true
	}
	c.stats["paths"] += e.nPaths
	c.stats["loops generalised"] += e.nLoops
	c.stats["loops unrolled"] += e.nUnrolled
	c.stats["exit classes"] += len(r.ex)
	c.stats["instructions interpreted"] += e.steps
	if !ok {
		return r
	}
	var bad []string
	for k := range e.unsup {
		bad = append(bad, k)
	}
	for k := range e.unkExt {
		if !harmless[k] {
			bad = append(bad, "unknown library function "+k)
		}
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		c.fail("analysable", r.name, c.at(fn), "constructs the analysis cannot decide: "+strings.Join(bad, "; "))
	}
	if len(r.ex) == 0 {
		c.fail("analysable", r.name, c.at(fn), "no path returns")
	} else {
		r.ok = true
	}
	return r
}

func (c *Check) at(fn *ssa.Function) string { return c.posOf(fn.Pos()) }
func (c *Check) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := c.ld.fset.Position(p)
	return fmt.Sprintf("%s:%d", c.ld.rel(q.Filename), q.Line)
}

// noPanic: every run-time check met on some path of the run is established.
func (r *Run) noPanic(rule string) {
	if r.fn == nil {
		return
	}
	for _, o := range r.e.oblList() {
		r.c.ob(rule, fmt.Sprintf("%s: %s in %s", r.name, o.kind, shortFn(o.fn)), o.pos, !o.failed,
			o.detail+" not provable when "+cutMid(o.facts, 900))
	}
}

func (e *Engine) oblList() []*Obl {
	var ks []string
	for k, o := range e.obls {
		if o.kind != "terminates" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []*Obl
	for _, k := range ks {
		r = append(r, e.obls[k])
	}
	return r
}

// termList: the loops generalised, and whether they end.
func (e *Engine) termList() []*Obl {
	var ks []string
	for k, o := range e.obls {
		if o.kind == "terminates" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []*Obl
	for _, k := range ks {
		r = append(r, e.obls[k])
	}
	return r
}

func shortFn(s string) string { return strings.Replace(s, "github.com/ZZMarquis/gm/", "", -1) }

// split returns the exit's facts, one or two of them, with the condition
// decided.
func split(F *Facts, b *Term) (yes, no *Facts) {
	switch F.Eval(b) {
	case 1:
		return F, nil
	case -1:
		return nil, F
	}
	y, n := F.Assume(b, true), F.Assume(b, false)
	if y.bot {
		y = nil
	}
	if n.bot {
		n = nil
	}
	return y, n
}

// splitAll decides every condition of the list.
func splitAll(F *Facts, bs ...*Term) []*Facts {
	l := []*Facts{F}
	for _, b := range bs {
		var n []*Facts
		for _, f := range l {
			y, m := split(f, b)
			if y != nil {
				n = append(n, y)
			}
			if m != nil {
				n = append(n, m)
			}
		}
		l = n
	}
	return l
}

// errCases splits an exit by its error result (the last value).
func (x *Exit) errCases() (okF, errF *Facts) {
	v := x.vals[len(x.vals)-1]
	i, ok := v.(*Iface)
	if !ok {
		return x.F, nil
	}
	if i.typ != nil {
		return nil, x.F
	}
	y, n := split(x.F, i.nilT)
	return y, n
}

// boolCases splits by a Boolean result.
func (x *Exit) boolCases(k int) (tF, fF *Facts) {
	t, ok := x.vals[k].(*Term)
	if !ok {
		return x.F, x.F
	}
	return split(x.F, t)
}

// nothing: the value is nil (pointer, slice, interface) or empty.
func (x *Exit) nothing(F *Facts, k int) bool {
	switch v := x.vals[k].(type) {
	case *Slice:
		return v.nilT == TTrue || F.Eval(v.nilT) == 1 || F.ProveGE0(Neg(v.len))
	case *Ptr:
		return v.nilT == TTrue || F.Eval(v.nilT) == 1
	case *Iface:
		return v.typ == nil && (v.nilT == TTrue || F.Eval(v.nilT) == 1)
	case *Term:
		if v.op == "b" {
			return v == TFalse
		}
		return isSeqOp(v) && F.ProveGE0(Neg(SeqLen(v))) || v.isCi(0)
	case *StructV:
		return true
	}
	return false
}

func (x *Exit) bytes(k int) *Term {
	switch v := x.vals[k].(type) {
	case *Slice:
		return x.r.e.sliceSeq(x.st, v)
	case *Term:
		return v
	case *ArrV:
		return v.seq
	}
	return nil
}

func (x *Exit) big(k int) *Term {
	if p, ok := x.vals[k].(*Ptr); ok && p.obj != nil {
		return x.r.e.bigVal(x.st, p)
	}
	return nil
}

func (x *Exit) show(k int) string { return cutMid(x.r.e.showVal(x.st, x.vals[k], 0), 600) }

func (x *Exit) when(F *Facts) string { return cutMid(F.String(), 900) }

// ---- output ---------------------------------------------------------------

func cutMid(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n*2/3] + " … " + s[len(s)-n/3:]
}

type finding struct{ key, text string }

func loadFindings(id string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" ")
		if i := strings.Index(l, " :: "); i > 0 {
			r = append(r, finding{strings.TrimSpace(l[:i]), l[i+4:]})
		}
	}
	return r
}

func (o *Ob) key() string { return o.Rule + " | " + o.What }

func verifDir() string {
	if d := os.Getenv("GMV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func (c *Check) finish() int {
	known := loadFindings(c.id)
	merged := map[string]*Ob{}
	var order []string
	cnt := map[string]int{}
	for _, o := range c.obs {
		k := o.key() + "|" + o.Where
		cnt[o.Rule]++
		if m := merged[k]; m != nil {
			if !o.OK && m.OK {
				m.OK, m.Detail = false, o.Detail
			}
			continue
		}
		cp := *o
		merged[k] = &cp
		order = append(order, k)
	}
	var viol []*Ob
	knownHit := map[string]bool{}
	oks := 0
	for _, k := range order {
		o := merged[k]
		if o.OK {
			oks++
			continue
		}
		hit := false
		for _, f := range known {
			if f.key == o.key() {
				hit = true
				if !knownHit[f.key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f.text)
				}
				knownHit[f.key] = true
			}
		}
		if !hit {
			viol = append(viol, o)
		}
	}
	if len(c.obs) == 0 {
		o := &Ob{"non-vacuous", c.id, "-", false, "no obligation was generated"}
		viol = append(viol, o)
	}
	for _, r := range c.ruleOrder {
		if c.ruleText[r] != "" && cnt[r] == 0 {
			viol = append(viol, &Ob{r, "non-vacuous", "-", false, "the rule matched no construct"})
		}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	rep := filepath.Join(dir, c.id+".violations.txt")
	os.Remove(rep)
	if len(viol) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d violated obligations\n\n", c.id, len(viol))
		for _, o := range viol {
			fmt.Fprintf(&b, "rule:      %s\n", o.Rule)
			if t := c.ruleText[o.Rule]; t != "" {
				fmt.Fprintf(&b, "meaning:   %s\n", t)
			}
			fmt.Fprintf(&b, "construct: %s\nwhere:     %s\nreason:    %s\n\n", o.What, o.Where, o.Detail)
		}
		os.WriteFile(rep, []byte(b.String()), 0o644)
		lim := 20
		for i, o := range viol {
			if i == lim {
				fmt.Printf("... and %d more\n", len(viol)-lim)
				break
			}
			fmt.Printf("%s: [%s] %s: %s\n", o.Where, o.Rule, o.What, cutMid(o.Detail, 700))
		}
	}
	c.evidence(order, merged, oks, viol, cnt)
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rep)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d\n", c.id, len(order), len(c.analysed))
	return 0
}

func (c *Check) evidence(order []string, merged map[string]*Ob, oks int, viol []*Ob, cnt map[string]int) {
	type ruleEv struct {
		Rule        string `json:"rule"`
		Text        string `json:"meaning"`
		Obligations int    `json:"obligations"`
	}
	var rules []ruleEv
	for _, r := range c.ruleOrder {
		rules = append(rules, ruleEv{r, c.ruleText[r], cnt[r]})
	}
	var fns []string
	for f := range c.analysed {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	var sites []string
	for _, k := range order {
		o := merged[k]
		s := "ok "
		if !o.OK {
			s = "FAIL "
		}
		if len(sites) < 400 {
			sites = append(sites, s+o.Rule+": "+o.What+" @ "+o.Where)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	m := map[string]interface{}{
		"property": c.id,
		"tier":     c.tier,
		"seed":     seed,
		"level":    checkLevel(c.id),
		"wall_s":   time.Since(c.start).Seconds(),
		"coverage": map[string]interface{}{
			"explanation":        c.explain,
			"obligations":        len(order),
			"discharged":         oks,
			"checker_cmd":        fmt.Sprintf("/verif/check.sh %s %s", c.id, c.tier),
			"trusted_base":       "the Go type checker and SSA construction (golang.org/x/tools, vendored), the semantic models of the standard library in /verif/analyzer/models.go, the normalisation and linear-arithmetic rules of the analyser, and the reference formulas in the rules",
			"assumptions":        c.assume,
			"rules":              rules,
			"functions_analysed": fns,
			"statistics":         c.stats,
			"checked":            sites,
			"source_root":        c.ldRoot(),
			"notes":              c.notes,
		},
	}
	if len(viol) > 0 {
		var vs []string
		for _, o := range viol {
			vs = append(vs, fmt.Sprintf("%s [%s] %s: %s", o.Where, o.Rule, o.What, cutMid(o.Detail, 500)))
		}
		m["violations"] = len(vs)
		m["coverage"].(map[string]interface{})["violated"] = vs
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return
	}
	os.WriteFile(filepath.Join(verifDir(), "evidence", c.id+".json"), append(b, '\n'), 0o644)
}

func (c *Check) ldRoot() string { return repoRoot() }

func newCheck(id, tier string) *Check {
	return &Check{id: id, tier: tier, analysed: map[string]bool{}, stats: map[string]int{}, start: time.Now(), ruleText: map[string]string{}}
}

type checkDef struct {
	id    string
	level string
	tech  string
	fn    func(c *Check)
}

const (
	absInt    = "abstract interpretation of the SSA form (value normal forms, linear constraints, loop invariants by widening), exit states compared with reference formulas"
	absIntOb  = "abstract interpretation of the SSA form; every run-time check of the analysed functions is a proof obligation"
	typestate = "typestate and dataflow analysis over SSA with abstract interpretation of helper functions"
	effects   = "interprocedural effect and escape analysis over SSA and the call graph"
	tables    = "constant propagation through package initialisers and structural comparison with reference tables"
)

var checks []checkDef

func addCheck(id, level, tech string, fn func(c *Check)) {
	checks = append(checks, checkDef{id, level, tech, fn})
}

func checkLevel(id string) string {
	for _, d := range checks {
		if d.id == id {
			return d.level
		}
	}
	return ""
}

func runCheck(id, tier string) (rc int) {
	debug.SetGCPercent(400)
	startBudget(id, tier)
	c := newCheck(id, tier)
	defer func() {
		if x := recover(); x != nil {
			c.fail("analysable", "analysis of the tree", "-", fmt.Sprintf("analysis failed: %v %s", x, cutMid(string(debug.Stack()), 3000)))
			rc = c.finish()
		}
	}()
	var def *checkDef
	for i := range checks {
		if checks[i].id == id {
			def = &checks[i]
		}
	}
	if def == nil {
		fmt.Println("no check for", id)
		return 1
	}
	ld, err := loadRepo(repoRoot())
	if err != nil {
		c.fail("analysable", "the tree type-checks", "-", err.Error())
		return c.finish()
	}
	c.ld = ld
	c.rule("analysable", "")
	def.fn(c)
	return c.finish()
}
