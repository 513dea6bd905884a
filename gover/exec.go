package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []deferred
	visits map[*ssa.BasicBlock]int
	inLoop map[*ssa.BasicBlock]bool // headers whose loop handler is active (unroll mode)
	pred   *ssa.BasicBlock
	depth  int
	spec   bool
}
type deferred struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
	g    *Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+8)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.inLoop = make(map[*ssa.BasicBlock]bool, len(f.inLoop))
	for k, v := range f.inLoop {
		n.inLoop[k] = v
	}
	return &n
}

type FS struct {
	st *State
	fr *Frame
}

func (f FS) clone() FS { return FS{f.st.clone(), f.fr.clone()} }

type resKind int

const (
	rStop resKind = iota
	rRet
)

type Res struct {
	fs   FS
	kind resKind
	blk  *ssa.BasicBlock
	ret  Val
}

type Outcome struct {
	st  *State
	ret Val
}

type Obligation struct {
	Name   string
	Cond   *Term
	Status string // discharged, failed, unknown
	By     string
	Time   time.Duration
	Detail string
	Model  map[string]interface{}
}

type model func(e *Exec, c *callCtx) ([]Outcome, bool)

type callCtx struct {
	st    *State
	fr    *Frame
	fn    *ssa.Function
	args  []Val
	instr ssa.CallInstruction
	sig   *types.Signature
	depth int
}

type Exec struct {
	tasks      []*task
	runTasks   bool
	taskName   string
	loopDepth  int
	iterStart  *State
	failed     map[string]bool // names of obligations not discharged
	failTime   time.Duration   // spent on them
	contracts  map[string]Val
	sentTypes  map[string]bool
	prog       *ssa.Program
	solver     *Solver
	qf         *Solver // ground queries
	undecided  int
	obls       []*Obligation
	quiet      int // >0: no obligations are generated
	specMode   int
	dynTags    map[string]uint64
	fnRefs     map[string]uint64
	fnByRef    map[uint64]FnAlt
	wlogs      []*WriteLog
	onAccess   func(st *State, l *Loc, write bool)
	globals    map[*ssa.Global]*Loc
	lazyObjs   map[int]*Obj
	models     map[string]model
	notes      map[string]bool // assumptions used
	covered    map[string]bool // repo functions executed under contract
	implMemo   map[string][]types.Type
	repoPkgs   map[string]bool
	cut        map[*ssa.BasicBlock]bool
	stubs      map[*ssa.Function]Val
	contract   *Contract
	curName    string
	inputs     []inputVar
	errCtr     int
	steps      int
	deadline   time.Time
	feas       int
	pcache     map[string]string
	ipd        map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	loops      map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	invs       []*invDecl
	iterHk     []*iterHook
	onLock     func(st *State, l *Loc)
	onUnlock   func(st *State, l *Loc)
	monitors   []*monitor
	guards     []*guard
	failFast   bool
	verbose    bool
	loopInfo   []string
	oblTimeout time.Duration
	loopLim    map[*ssa.BasicBlock]int
	specFiles  map[string]bool
	stubByName map[string]Val
	record     map[string]bool
	windowObj  int
	noAccess   int
	lockOK     int
	reach      map[string]bool
	task       *task
	taskDone   []*task
	measures   []iterHook
	st0        *State

	onSocketRead, onSocketWrite func(c *callCtx)
}

type inputVar struct {
	name string
	typ  types.Type
	val  Val
}

func (e *Exec) getObj(st *State, id int) *Obj {
	if o := st.objs[id]; o != nil {
		return o
	}
	return e.lazyObjs[id]
}

func (e *Exec) note(s string) { e.notes[s] = true }

type pathAbort struct{ why string }

// ---- solver access ----

func (e *Exec) sat(st *State, extra *Term, to time.Duration) string {
	if extra.isFalse() {
		return "unsat"
	}
	for _, x := range st.tr {
		if x.t == extra && len(st.tr) > 0 {
			break
		}
		if x.t == Not(extra) {
			return "unsat"
		}
	}
	e.feas++
	pc := st.terms()
	if r, q := e.instCheck(st, pc, extra, 2, 24, to/4); q {
		return r
	}
	r, _ := e.solver.Check(pc, extra, to, nil)
	return r
}

func (e *Exec) feasible(st *State, c *Term) bool {
	return e.sat(st, c, 2*time.Second) != "unsat"
}

// valid reports whether c holds in st.
func (e *Exec) valid(st *State, c *Term, to time.Duration) bool {
	if c.isTrue() {
		return true
	}
	return e.sat(st, Not(c), to) == "unsat"
}

// proves is valid for formulas with quantifiers: the goal is split and its variables are replaced by constants first.
func (e *Exec) proves(st *State, c *Term, to time.Duration) bool {
	if c.isTrue() {
		return true
	}
	pc := st.terms()
	if !e.anyQuant(pc, c) {
		return e.valid(st, c, to)
	}
	for _, x := range st.tr {
		if x.t == c {
			return true
		}
	}
	var gs []*Term
	subgoals(c, &gs)
	for _, g := range gs {
		if g.isTrue() {
			continue
		}
		e.feas++
		rounds := 5
		if !hasQuant(c) {
			rounds, to = 2, time.Second
		}
		if r, _ := e.instCheck(st, pc, Not(g), rounds, 48, to); r != "unsat" {
			return false
		}
	}
	return true
}

var crossCheck bool

func (e *Exec) oblige(st *State, name string, c *Term) {
	if e.quiet > 0 {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			e.oblige(st, name, a)
		}
		return
	}
	o := &Obligation{Name: name, Cond: c}
	e.obls = append(e.obls, o)
	if c.isTrue() {
		o.Status, o.By = "discharged", "simplifier"
		return
	}
	t0 := time.Now()
	neg := Not(c)
	for _, x := range st.tr {
		if x.t == c {
			o.Status, o.By = "discharged", "simplifier"
			return
		}
	}
	pc := st.terms()
	r, quant := "unknown", e.anyQuant(pc, c)
	// once something has failed, the rest is only looked at briefly
	brief := e.failTime > 40*time.Second || e.failed[name]
	defer func() {
		if o.Status != "discharged" {
			if e.failed == nil {
				e.failed = map[string]bool{}
			}
			e.failed[name] = true
			e.failTime += time.Since(t0)
		}
	}()
	by := "z3-new, instantiated"
	if quant {
		var gs []*Term
		subgoals(c, &gs)
		r = "unsat"
		for i, g := range gs {
			if x, _ := e.instCheck(st, pc, Not(g), 5, 48, 10*time.Second); x != "unsat" {
				if e.verbose {
					fmt.Fprintf(os.Stderr, "  subgoal %d/%d of %s: %s %.600v\n", i, len(gs), name, x, g)
				}
				r = "unknown"
				neg = Not(g)
				break
			}
		}
	}
	if !quant {
		to := e.oblTimeout
		if brief {
			to = 3 * time.Second
		}
		r, _ = e.solver.Check(pc, neg, to, nil)
		by = "z3-new"
		if r == "unknown" && !brief {
			r, by = Portfolio(pc, neg, 4*e.oblTimeout)
		}
	} else if r != "unsat" && brief {
		r = "unknown"
	} else if r != "unsat" {
		if e.verbose {
			fmt.Fprintf(os.Stderr, "  inst %s: %s after %v\n", name, r, time.Since(t0))
		}
		if r, _ = e.solver.Check(pc, neg, 3*time.Second, nil); r == "unknown" {
			to := 2 * e.oblTimeout
			if e.undecided >= 2 {
				to = 10 * time.Second
			}
			r, by = Portfolio(pc, neg, to)
		}
		if r == "unknown" {
			e.undecided++
		}
	}
	o.Time = time.Since(t0)
	o.By = by
	switch r {
	case "unsat":
		o.Status = "discharged"
		if crossCheck {
			switch OneShot([]string{"cvc5", "--lang=smt2"}, st.terms(), neg, 20*time.Second) {
			case "unsat":
				o.By += "+cvc5"
			case "sat":
				o.Status = "failed"
				o.Detail = "solvers disagree: " + by + " says unsat, cvc5 says sat"
			}
		}
	case "sat":
		o.Status = "failed"
		e.attachModel(st, neg, o)
	default:
		o.Status = "unknown"
		if quant {
			e.attachModel(st, neg, o)
		}
		o.Detail = "no solver decided the obligation within its limit"
	}
	if o.Status != "discharged" && e.verbose {
		fmt.Fprintf(os.Stderr, "  FAIL %s (%s) %s\n", name, o.Status, c)
	}
	if e.verbose && o.Time > time.Second {
		fmt.Fprintf(os.Stderr, "  slow %s %v by %s\n", name, o.Time, by)
	}
}

func (e *Exec) attachModel(st *State, neg *Term, o *Obligation) {
	if e.failed[o.Name] || len(e.failed) > 3 {
		return // there are enough models to replay
	}
	o.Model = e.extractModel(st, neg)
}

// require emits a no-panic obligation and continues under the condition.
func (e *Exec) require(st *State, fr *Frame, what string, c *Term) bool {
	if c.isTrue() {
		return true
	}
	if e.specMode > 0 {
		// specification code is total: undefined reads give arbitrary values
		if c.isFalse() {
			e.oblige(st, e.curName+"/specification undefined: "+what+"@"+fnName(fr.fn), c)
			return false
		}
		return true
	}
	e.oblige(st, e.curName+"/no-panic:"+what+"@"+fnName(fr.fn), c)
	if c.isFalse() {
		return false
	}
	st.addFact(c)
	return true
}

func fnName(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/jsimonetti/go-artnet/packet/code", "code")
	s = strings.ReplaceAll(s, "github.com/jsimonetti/go-artnet/packet", "packet")
	s = strings.ReplaceAll(s, "github.com/jsimonetti/go-artnet", "artnet")
	return s
}

// ---- merging ----

func commonTr(a, b []TE) int {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	return k
}

func mergeTr(a, b []TE) (tr []TE, c *Term, condA, condB *Term) {
	k := commonTr(a, b)
	conj := func(x []TE) *Term {
		var ts []*Term
		for _, t := range x {
			if !t.fact {
				ts = append(ts, t.t)
			}
		}
		return And(ts...)
	}
	condA, condB = conj(a[k:]), conj(b[k:])
	c = condA
	// prefer a single discriminating literal
	fa, fb := firstBranch(a[k:]), firstBranch(b[k:])
	if fa != nil && fb != nil && fa == Not(fb) {
		c = fa
	}
	tr = append([]TE{}, a[:k]...)
	or := Or(condA, condB)
	if c != condA {
		// c splits: Or(c&&X, !c&&Y) == Ite(c, X, Y)
		or = Ite(c, restOf(a[k:], fa), restOf(b[k:], fb))
	}
	for _, t := range a[k:] {
		if t.fact {
			tr = append(tr, TE{Implies(condA, t.t), true})
		}
	}
	for _, t := range b[k:] {
		if t.fact {
			tr = append(tr, TE{Implies(condB, t.t), true})
		}
	}
	if !or.isTrue() {
		if or.op == OAnd {
			for _, x := range or.args {
				tr = append(tr, TE{x, false})
			}
		} else {
			tr = append(tr, TE{or, false})
		}
	}
	return
}

func firstBranch(x []TE) *Term {
	for _, t := range x {
		if !t.fact {
			return t.t
		}
	}
	return nil
}
func restOf(x []TE, first *Term) *Term {
	var ts []*Term
	seen := false
	for _, t := range x {
		if t.fact {
			continue
		}
		if !seen && t.t == first {
			seen = true
			continue
		}
		ts = append(ts, t.t)
	}
	return And(ts...)
}

func (e *Exec) mergeState(a, b *State) (*State, *Term) {
	n := &State{cuts: a.cuts, hist: a.hist, stale: map[int]bool{}}
	for k := range a.stale {
		if b.stale[k] {
			n.stale[k] = true
		}
	}
	n.rd = a.rd
	for k := range b.rd {
		n.setRd(k, true)
	}
	var c, ca, cb *Term
	n.tr, c, ca, cb = mergeTr(a.tr, b.tr)
	_ = ca
	n.objs = make(map[int]*Obj, len(a.objs))
	for id, o := range a.objs {
		p := b.objs[id]
		if p == nil {
			p = e.lazyObjs[id]
		}
		if p == nil || p == o {
			n.objs[id] = o
			continue
		}
		n.objs[id] = &Obj{id: id, root: o.root, rt: o.rt, val: merge(c, o.val, p.val)}
	}
	for id, p := range b.objs {
		if _, ok := a.objs[id]; ok {
			continue
		}
		if o := e.lazyObjs[id]; o != nil && o != p {
			n.objs[id] = &Obj{id: id, root: o.root, rt: o.rt, val: merge(c, o.val, p.val)}
			continue
		}
		n.objs[id] = p
	}
	n.leaves = make(map[string]*Leaf, len(a.leaves))
	for k, l := range a.leaves {
		m := b.leaves[k]
		if m == nil {
			m = e.leafFor(b.leaves, k, l.w, 0)
		}
		n.leaves[k] = mergeLeaf(c, l, m)
	}
	for k, m := range b.leaves {
		if _, ok := a.leaves[k]; ok {
			continue
		}
		l := e.leafFor(a.leaves, k, m.w, 0)
		n.leaves[k] = mergeLeaf(c, l, m)
	}
	k := 0
	for k < len(a.events) && k < len(b.events) && evSame(a.events[k], b.events[k]) {
		k++
	}
	n.events = append([]Event{}, a.events[:k]...)
	for _, ev := range a.events[k:] {
		ev.g = And(c, ev.g)
		n.events = append(n.events, ev)
	}
	for _, ev := range b.events[k:] {
		ev.g = And(Not(c), ev.g)
		n.events = append(n.events, ev)
	}
	_ = cb
	n.now = a.now
	if a.now != b.now {
		n.now = Ite(c, a.now, b.now)
	}
	return n, c
}

func evSame(a, b Event) bool {
	if a.g != b.g || a.kind != b.kind || a.name != b.name || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

func mergeLeaf(c *Term, l, m *Leaf) *Leaf {
	if l == m {
		return l
	}
	return &Leaf{w: l.w, memo: map[string]*Term{}, sel: func(a []*Term) *Term {
		return Ite(c, l.at(a), m.at(a))
	}}
}

func (e *Exec) mergeFS(a, b FS) (r FS, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(mergeFail); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	if len(a.fr.defers) != len(b.fr.defers) {
		return FS{}, false
	}
	for i := range a.fr.defers {
		if a.fr.defers[i].call != b.fr.defers[i].call {
			return FS{}, false
		}
	}
	st, c := e.mergeState(a.st, b.st)
	fr := *a.fr
	fr.regs = make(map[ssa.Value]Val, len(a.fr.regs))
	for k, v := range a.fr.regs {
		w, ok := b.fr.regs[k]
		if !ok {
			continue
		}
		if v == w {
			fr.regs[k] = v
			continue
		}
		fr.regs[k] = merge(c, v, w)
	}
	fr.visits = map[*ssa.BasicBlock]int{}
	for k, v := range a.fr.visits {
		fr.visits[k] = v
	}
	for k, v := range b.fr.visits {
		if v > fr.visits[k] {
			fr.visits[k] = v
		}
	}
	if len(a.fr.defers) > 0 {
		fr.defers = append([]deferred{}, a.fr.defers...)
		for i := range fr.defers {
			for j := range fr.defers[i].args {
				x, y := a.fr.defers[i].args[j], b.fr.defers[i].args[j]
				if x != y {
					fr.defers[i].args = append([]Val{}, fr.defers[i].args...)
					fr.defers[i].args[j] = merge(c, x, y)
				}
			}
		}
	}
	return FS{st, &fr}, true
}

func (e *Exec) mergeOutcomes(os []Outcome) []Outcome {
	for len(os) > 1 {
		a, b := os[len(os)-2], os[len(os)-1]
		m, ok := e.mergeOut(a, b)
		if !ok {
			// try to merge the rest pairwise with the first
			return e.mergeGreedy(os)
		}
		os = append(os[:len(os)-2], m)
	}
	return os
}

func (e *Exec) mergeGreedy(os []Outcome) []Outcome {
	var out []Outcome
	for _, o := range os {
		done := false
		for i := range out {
			if m, ok := e.mergeOut(out[i], o); ok {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, o)
		}
	}
	return out
}

func (e *Exec) mergeOut(a, b Outcome) (r Outcome, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(mergeFail); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	st, c := e.mergeState(a.st, b.st)
	return Outcome{st, merge(c, a.ret, b.ret)}, true
}

// ---- running functions ----

const maxDepth = 60

func (e *Exec) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, depth int, spec bool) []Outcome {
	if depth > maxDepth {
		panic(unsupported("call depth limit in " + fn.String()))
	}
	if fn.Blocks == nil {
		panic(unsupported("no body for " + fn.String()))
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}, inLoop: map[*ssa.BasicBlock]bool{}, depth: depth, spec: spec}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = binds[i]
	}
	if e.isRepo(fn) && !e.isSpecFn(fn) && e.specMode == 0 {
		e.covered[fnName(fn)] = true
	}
	rs := e.run(FS{st, fr}, fn.Blocks[0], nil)
	var os []Outcome
	for _, r := range rs {
		if r.kind != rRet {
			panic("callFn: unexpected stop")
		}
		os = append(os, Outcome{r.fs.st, r.ret})
	}
	return e.mergeOutcomes(os)
}

func (e *Exec) isRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pkg
	if p == nil {
		if fn.Object() == nil || fn.Object().Pkg() == nil {
			return false
		}
		return e.repoPkgs[fn.Object().Pkg().Path()]
	}
	return e.repoPkgs[p.Pkg.Path()]
}

func (e *Exec) edge(fs FS, from, to *ssa.BasicBlock) {
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
			break
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var vs []pv
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, pv{ph, e.get(fs, ph.Edges[k])})
	}
	for _, x := range vs {
		fs.fr.regs[x.p] = x.v
	}
	fs.fr.pred = from
	for h, body := range e.loopsOf(fs.fr.fn) {
		if body[from] && !body[to] && fs.fr.inLoop[h] {
			delete(fs.fr.inLoop, h)
			delete(fs.fr.visits, h)
		}
	}
}

type stops map[*ssa.BasicBlock]bool

func (s stops) with(b *ssa.BasicBlock) stops {
	if b == nil || s[b] {
		return s
	}
	n := stops{b: true}
	for k := range s {
		n[k] = true
	}
	return n
}

// run executes from block b (phis already assigned) until a stop block or return.
func (e *Exec) run(fs FS, b *ssa.BasicBlock, stop stops) []Res {
	var out []Res
	for {
		if stop[b] {
			return append(out, Res{fs: fs, kind: rStop, blk: b})
		}
		if body := e.loopBody(fs.fr.fn, b); body != nil && !fs.fr.inLoop[b] {
			// first arrival at this header from outside its loop
			rs := e.doLoop(fs, b, body, stop)
			// continue those that left the loop
			return append(out, rs...)
		}
		more, next, done := e.block(fs, b, stop)
		out = append(out, more...)
		if done {
			return out
		}
		b = next
	}
}

// block executes one block. It returns finished results, and (if !done) the next block for fs (mutated in place).
func (e *Exec) block(fs FS, b *ssa.BasicBlock, stop stops) (out []Res, next *ssa.BasicBlock, done bool) {
	return e.blockFrom(fs, b, 0, stop)
}

func (e *Exec) blockFrom(fs FS, b *ssa.BasicBlock, start int, stop stops) (out []Res, next *ssa.BasicBlock, done bool) {
	for i := start; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps%256 == 0 && time.Now().After(e.deadline) {
			panic(unsupported("time limit for this contract"))
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			to := b.Succs[0]
			e.edge(fs, b, to)
			return nil, to, false
		case *ssa.If:
			c := e.get(fs, in.Cond).(*Term)
			return e.branch(fs, b, c, stop)
		case *ssa.Return:
			var ret Val
			switch len(in.Results) {
			case 0:
			case 1:
				ret = e.get(fs, in.Results[0])
			default:
				vs := make([]Val, len(in.Results))
				for k, r := range in.Results {
					vs[k] = e.get(fs, r)
				}
				ret = &VTuple{vs}
			}
			return []Res{{fs: fs, kind: rRet, ret: ret}}, nil, true
		case *ssa.Panic:
			if e.specMode == 0 {
				e.oblige(fs.st, e.curName+"/no-panic:explicit panic@"+fnName(fs.fr.fn), FALSE)
			}
			return nil, nil, true
		default:
			oss := e.instr(fs, in)
			switch len(oss) {
			case 0:
				return nil, nil, true
			case 1:
				if oss[0].st != fs.st {
					*fs.st = *oss[0].st
				}
				if oss[0].fr != fs.fr {
					*fs.fr = *oss[0].fr
				}
			default:
				// several outcomes: continue each separately; they are merged at joins further out
				var all []Res
				for _, f := range oss {
					more, nx, dn := e.blockFrom(f, b, i+1, stop)
					all = append(all, more...)
					if !dn {
						all = append(all, e.run(f, nx, stop)...)
					}
				}
				return e.mergeRes(all), nil, true
			}
		}
	}
	panic("block without terminator")
}

func (e *Exec) branch(fs FS, b *ssa.BasicBlock, c *Term, stop stops) (out []Res, next *ssa.BasicBlock, done bool) {
	t, f := b.Succs[0], b.Succs[1]
	if c.isTrue() {
		e.edge(fs, b, t)
		return nil, t, false
	}
	if c.isFalse() {
		e.edge(fs, b, f)
		return nil, f, false
	}
	for _, x := range fs.st.tr {
		if x.t == c {
			e.edge(fs, b, t)
			return nil, t, false
		}
		if x.t == Not(c) {
			e.edge(fs, b, f)
			return nil, f, false
		}
	}
	ft, ff := true, true
	if e.needFeas(fs, b) {
		ft = e.feasible(fs.st, c)
		if ft {
			ff = e.feasible(fs.st, Not(c))
		}
	}
	if !ft {
		fs.st.addPC(Not(c))
		e.edge(fs, b, f)
		return nil, f, false
	}
	if !ff {
		fs.st.addPC(c)
		e.edge(fs, b, t)
		return nil, t, false
	}
	// symbolic loop-header accounting
	if e.loopBody(fs.fr.fn, b) != nil || e.exitsLoop(fs.fr.fn, b) {
		h := e.headerOf(fs.fr.fn, b)
		fs.fr.visits[h]++
		if fs.fr.visits[h] > 3*e.loopLim[h]+4 {
			panic(loopLimit{h})
		}
	}
	j := e.ipdom(fs.fr.fn, b)
	s2 := stop.with(j)
	f2 := fs.clone()
	fs.st.addPC(c)
	e.edge(fs, b, t)
	r1 := e.run(fs, t, s2)
	f2.st.addPC(Not(c))
	e.edge(f2, b, f)
	r2 := e.run(f2, f, s2)
	all := e.mergeRes(append(r1, r2...))
	if j == nil || stop[j] {
		return all, nil, true
	}
	var fin []Res
	for _, r := range all {
		if r.kind == rStop && r.blk == j {
			fin = append(fin, e.run(r.fs, j, stop)...)
			continue
		}
		fin = append(fin, r)
	}
	return fin, nil, true
}

// needFeas: spec code over merged values does not need pruning except to bound loops.
func (e *Exec) needFeas(fs FS, b *ssa.BasicBlock) bool {
	if fs.fr.spec || e.specMode > 0 {
		return e.loopBody(fs.fr.fn, b) != nil || e.exitsLoop(fs.fr.fn, b)
	}
	return true
}

// mergeRes merges results that stopped at the same block.
func (e *Exec) mergeRes(rs []Res) []Res {
	var out []Res
	for _, r := range rs {
		done := false
		for i := range out {
			o := &out[i]
			if o.kind != r.kind || o.blk != r.blk {
				continue
			}
			if r.kind == rStop {
				if m, ok := e.mergeFS(o.fs, r.fs); ok {
					o.fs = m
					done = true
					break
				}
			} else {
				if m, ok := e.mergeOut(Outcome{o.fs.st, o.ret}, Outcome{r.fs.st, r.ret}); ok {
					o.fs = FS{m.st, o.fs.fr}
					o.ret = m.ret
					done = true
					break
				}
			}
		}
		if !done {
			out = append(out, r)
		}
	}
	return out
}

// ---- control-flow analyses ----

func (e *Exec) ipdom(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	if e.ipd[fn] == nil {
		e.ipd[fn] = computeIPdom(fn)
	}
	return e.ipd[fn][b]
}

func computeIPdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// pd[i] = set of postdominators of i (bitset), exit = Return blocks
	full := make([]bool, n)
	for i := range full {
		full[i] = true
	}
	reach := make([]bool, n) // can reach a return
	for ch := true; ch; {
		ch = false
		for i, b := range fn.Blocks {
			if reach[i] {
				continue
			}
			if len(b.Instrs) > 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					reach[i] = true
					ch = true
					continue
				}
			}
			for _, s := range b.Succs {
				if reach[s.Index] {
					reach[i] = true
					ch = true
				}
			}
		}
	}
	pd := make([][]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = make([]bool, n)
			pd[i][i] = true
		} else {
			pd[i] = append([]bool{}, full...)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			ns := append([]bool{}, full...)
			any := false
			for _, s := range b.Succs {
				if !reach[s.Index] {
					continue
				}
				any = true
				for k := range ns {
					ns[k] = ns[k] && pd[s.Index][k]
				}
			}
			if !any {
				ns = make([]bool, n)
			}
			ns[i] = true
			for k := range ns {
				if ns[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = ns
		}
	}
	cnt := func(i int) int {
		c := 0
		for _, x := range pd[i] {
			if x {
				c++
			}
		}
		return c
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		if !reach[i] {
			continue
		}
		best, bc := -1, -1
		for k := range pd[i] {
			if k != i && pd[i][k] && reach[k] {
				if c := cnt(k); c > bc {
					best, bc = k, c
				}
			}
		}
		if best >= 0 {
			res[b] = fn.Blocks[best]
		}
	}
	return res
}

func (e *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := e.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := m[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					m[h] = body
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	e.loops[fn] = m
	return m
}

func (e *Exec) loopBody(fn *ssa.Function, b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	return e.loopsOf(fn)[b]
}

// exitsLoop: b branches out of some loop it belongs to.
func (e *Exec) exitsLoop(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, body := range e.loopsOf(fn) {
		if body[b] {
			for _, s := range b.Succs {
				if !body[s] {
					return true
				}
			}
		}
	}
	return false
}

// headerOf returns the innermost loop header around b.
func (e *Exec) headerOf(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for h, body := range e.loopsOf(fn) {
		if body[b] && (best == nil || len(body) < len(e.loopsOf(fn)[best])) {
			best = h
		}
	}
	return best
}

// ---- values ----

func (e *Exec) get(fs FS, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return ptrTo(e.globalLoc(x))
	case *ssa.Function:
		return &VFunc{alts: []FnAlt{{g: TRUE, fn: x}}}
	case *ssa.Builtin:
		return VOpaque{"builtin " + x.Name()}
	}
	r, ok := fs.fr.regs[v]
	if !ok {
		panic(fmt.Sprintf("undefined register %s in %s", v.Name(), fs.fr.fn))
	}
	return r
}

func (e *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strLit(constant.StringVal(c.Value))
		case u.Info()&types.IsBoolean != 0:
			return BoolT(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			w := basicWidth(u)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return BV(w, uint64(i))
			}
			n, _ := constant.Uint64Val(v)
			return BV(w, n)
		}
		return VOpaque{"float const"}
	}
	panic(unsupported("constant of type " + t.String()))
}

func (e *Exec) globalLoc(g *ssa.Global) *Loc {
	if l, ok := e.globals[g]; ok {
		return l
	}
	t := g.Type().(*types.Pointer).Elem()
	objCtr++
	id := objCtr
	ref := BV(64, nextRef)
	objByRef[nextRef] = id
	objRef[id] = ref
	nextRef++
	l := &Loc{obj: id, root: rootT(t), rt: t, ref: ref}
	e.globals[g] = l
	var v Val
	pkg := g.Pkg.Pkg.Path()
	switch {
	case e.repoPkgs[pkg]:
		v = zeroVal(t)
	case types.IsInterface(t):
		e.errCtr++
		v = e.newError(pkg + "." + g.Name())
		e.note("global " + pkg + "." + g.Name() + " is a fixed non-nil value")
	case isStructEmpty(t):
		v = zeroVal(t)
	case pkg == "net" && g.Name() == "v4InV6Prefix":
		pre := "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff"
		aid := objCtr + 1
		objCtr++
		objByRef[nextRef] = aid
		objRef[aid] = BV(64, nextRef)
		nextRef++
		e.lazyObjs[aid] = &Obj{id: aid, root: rootA(types.Typ[types.Uint8]), rt: types.Typ[types.Uint8], val: newArr(types.Typ[types.Uint8], I64(12), func(i *Term) Val { return litAt(pre, i) })}
		v = &VSlice{base: ptrTo(&Loc{obj: aid, root: rootA(types.Typ[types.Uint8]), rt: types.Typ[types.Uint8], ref: objRef[aid]}), off: I64(0), len: I64(12), cap: I64(12)}
	default:
		v = e.freshVal(t, "G:"+pkg+"."+g.Name(), inputBase)
		e.note("global " + pkg + "." + g.Name() + " unconstrained")
	}
	e.lazyObjs[id] = &Obj{id: id, root: l.root, rt: t, val: v}
	return l
}

func isStructEmpty(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// newError makes a distinct non-nil opaque interface value.
func (e *Exec) newError(what string) *VIface {
	ref := BV(64, nextRef)
	nextRef++
	return &VIface{alts: []IfAlt{{g: TRUE, tag: BV(16, 999), ref: ref, note: what}}}
}

func signExt64(v *Term, t types.Type) *Term {
	if v.w == 64 {
		return v
	}
	if isSigned(t) {
		return SExt(v, 64)
	}
	return ZExt(v, 64)
}

var tokOps = map[token.Token]Op{token.AND: OBAnd, token.OR: OBOr, token.XOR: OBXor}
