package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Contract is one contract function of the overlay: its parameters are universally quantified, vRequire
// states preconditions, vEnsure postconditions; every panic of the code it calls is an obligation too.
type Contract struct {
	Name string
	Prop string
	Fn   *ssa.Function
}

// invDecl is a user-supplied candidate loop invariant.
type invDecl struct {
	name   string
	fnName string
	fn     Val
	params []types.Type
}

// iterHook observes one arbitrary iteration of a cut loop.
type iterHook struct {
	fr *Frame
	fn Val
}

// monitor: when the lock is acquired the protected state is generalised and the invariant assumed.
type monitor struct {
	lock *VPtr
	keys []string
	fn   Val
}

// guard: symbolic state with one of the key prefixes may only be touched while the lock is held.
type guard struct {
	lock *VPtr
	keys []string
	name string
	busy bool
}

func (e *Exec) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil || !e.repoPkgs[fn.Pkg.Pkg.Path()] {
		return false
	}
	p := e.prog.Fset.Position(fn.Pos())
	return e.specFiles[p.Filename]
}

func (e *Exec) closureOf(v Val) FnAlt {
	if i, ok := v.(*VIface); ok {
		if len(i.alts) != 1 || i.alts[0].val == nil {
			panic(unsupported("specification closure"))
		}
		v = i.alts[0].val
	}
	f := e.decodeFn(v.(*VFunc))
	if len(f.alts) != 1 || f.alts[0].fn == nil {
		panic(unsupported("specification closure must be a function literal"))
	}
	return f.alts[0]
}

// evalBool evaluates a specification closure in st without changing it.
func (e *Exec) evalBool(st *State, fr *Frame, fv Val, args []Val) *Term {
	return e.evalSpec(st, fr, fv, args, nil, nil)
}

func (e *Exec) evalSpec(st *State, fr *Frame, fv Val, args []Val, assume []*Term, bound []*Term) *Term {
	a := e.closureOf(fv)
	s2 := st.clone()
	for _, t := range assume {
		s2.addFact(t)
	}
	base := len(s2.tr)
	f0 := freshCtr
	e.specMode++
	e.quiet++
	outs := e.callFn(s2, a.fn, args, a.binds, fr.depth+1, true)
	e.quiet--
	e.specMode--
	res := FALSE
	for _, o := range outs {
		var pcs []*Term
		for _, x := range o.st.tr[base:] {
			if !x.fact {
				pcs = append(pcs, x.t)
				continue
			}
			dep := ContainsSym(x.t, func(t *Term) bool {
				for _, b := range bound {
					if t == b {
						return true
					}
				}
				return false
			})
			if dep {
				panic(unsupported("specification closure introduces facts about a bound variable: " + a.fn.String()))
			}
			_ = f0
			st.addFact(x.t)
		}
		r, ok := o.ret.(*Term)
		if !ok {
			r = TRUE
		}
		res = Or(res, And(append(pcs, r)...))
	}
	return res
}

func constStrArg(v Val) string {
	s, ok := v.(*VString)
	if !ok || s.lit == nil {
		panic(unsupported("specification needs a constant string"))
	}
	return *s.lit
}

func ret(c *callCtx, v Val) ([]Outcome, bool) { return []Outcome{{c.st, v}}, true }

// ptrOf is the pointer passed as an interface{} argument of a specification function.
func ptrOf(v Val) *VPtr {
	p, _ := ifaceVal(v)
	return p.(*VPtr)
}

func ifaceVal(v Val) (Val, types.Type) {
	i := v.(*VIface)
	if len(i.alts) != 1 || i.alts[0].dyn == nil {
		panic(unsupported("specification argument must have a known type"))
	}
	return i.alts[0].val, i.alts[0].dyn
}

// window gives the events since the last loop header (or the beginning).
func window(st *State) []Event {
	ev := st.events
	later := FALSE // a loop was entered after the event
	var out []Event
	for i := len(ev) - 1; i >= 0; i-- {
		if ev[i].kind == "loop" {
			later = Or(later, ev[i].g)
			if later.isTrue() {
				break
			}
			continue
		}
		x := ev[i]
		x.g = And(x.g, Not(later))
		if !x.g.isFalse() {
			out = append(out, x)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Exec) chanEvents(c *callCtx, kind string) []Event {
	chv, _ := ifaceVal(c.args[0])
	ch := chv.(*VPtr)
	var out []Event
	for _, ev := range window(c.st) {
		if ev.kind != kind {
			continue
		}
		if !sameRoots(ev.args[0].(*VPtr), ch) {
			continue
		}
		g := And(ev.g, ptrEq(ev.args[0].(*VPtr), ch))
		if g.isFalse() {
			continue
		}
		ev.g = g
		out = append(out, ev)
	}
	return out
}

// sameRoots: the channels can be of the same type.
func sameRoots(a, b *VPtr) bool {
	for _, x := range a.alts {
		for _, y := range b.alts {
			if x.loc != nil && y.loc != nil && x.loc.root == y.loc.root {
				return true
			}
		}
	}
	return false
}

func countEv(evs []Event) *Term {
	n := BV(64, 0)
	for _, ev := range evs {
		n = Add(n, Ite(ev.g, BV(64, 1), BV(64, 0)))
	}
	return n
}

func (e *Exec) nameEvents(c *callCtx, kind string) []Event {
	name := constStrArg(c.args[0])
	var out []Event
	for _, ev := range window(c.st) {
		if ev.kind == kind && (name == "" || ev.name == name || strings.HasSuffix(ev.name, "."+name)) {
			out = append(out, ev)
		}
	}
	return out
}

// allEv: every event satisfies the closure (given the event's arguments from index `from`).
func (e *Exec) allEv(c *callCtx, evs []Event, from int) *Term {
	r := TRUE
	for _, ev := range evs {
		f := e.closureOf(c.args[1])
		args := ev.args[from:]
		n := f.fn.Signature.Params().Len()
		if len(args) < n {
			panic(unsupported("event arity " + ev.kind + " " + ev.name))
		}
		st := c.st
		r = And(r, Implies(ev.g, e.evalSpec(st, c.fr, c.args[1], args[:n], []*Term{ev.g}, nil)))
	}
	return r
}

var intrinsics map[string]model

func init() {
	intrinsics = map[string]model{
		"vRequire": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			t := c.args[0].(*Term)
			if t.isFalse() {
				return nil, true
			}
			c.st.addFact(t)
			return ret(c, nil)
		},
		"vEnsure": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n := e.curName + "/" + constStrArg(c.args[0])
			if e.taskName != "" {
				n += " (task " + e.taskName + ")"
			}
			e.oblige(c.st, n, c.args[1].(*Term))
			return ret(c, nil)
		},
		// vLemma: an intermediate obligation that later obligations may use.
		"vLemma": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			t := c.args[1].(*Term)
			e.oblige(c.st, e.curName+"/"+constStrArg(c.args[0]), t)
			c.st.addFact(t)
			return ret(c, nil)
		},
		"vForall": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, e.quant(c, true))
		},
		"vExists": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, e.quant(c, false))
		},
		"vForallAddr": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			f := e.closureOf(c.args[0])
			pt := f.fn.Signature.Params().At(0).Type()
			v := Fresh("qa", keyWidth(pt))
			t := e.evalSpec(c.st, c.fr, c.args[0], []Val{unpackKey(pt, v)}, nil, []*Term{v})
			return ret(c, Forall([]*Term{v}, t))
		},
		"vForallByte": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			v := Fresh("qb", 8)
			t := e.evalSpec(c.st, c.fr, c.args[0], []Val{v}, nil, []*Term{v})
			return ret(c, Forall([]*Term{v}, t))
		},
		"vForallU16": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			v := Fresh("qb", 16)
			t := e.evalSpec(c.st, c.fr, c.args[0], []Val{v}, nil, []*Term{v})
			return ret(c, Forall([]*Term{v}, t))
		},
		// vForallRef quantifies over all objects of the pointer type of the closure's parameter.
		"vForallRef": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			f := e.closureOf(c.args[0])
			pt := f.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
			freshCtr++
			n := fmt.Sprintf("qr!%d", freshCtr)
			v := SymB(n, 64, 0)
			t := e.evalSpec(c.st, c.fr, c.args[0], []Val{decodePtr(v, rootT(pt.Elem()), pt.Elem(), nil)}, nil, []*Term{v})
			return ret(c, Forall([]*Term{v}, Or(Eq(v, BV(64, 0)), t)))
		},
		"vSplit8": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			x := c.args[0].(*Term)
			var outs []Outcome
			for i := uint64(0); i < 1<<uint(x.w) && i < 65536; i++ {
				s := c.st.clone()
				s.addPC(Eq(x, BV(x.w, i)))
				outs = append(outs, Outcome{s, BV(x.w, i)})
			}
			return outs, true
		},
		"vSplit": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			x := c.args[0].(*Term)
			if x.isConst() {
				return ret(c, x)
			}
			s := c.st.clone()
			s.addPC(x)
			c.st.addPC(Not(x))
			return []Outcome{{s, TRUE}, {c.st, FALSE}}, true
		},
		"vSame": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			a, _ := ifaceVal(c.args[0])
			b, _ := ifaceVal(c.args[1])
			switch x := a.(type) {
			case *VPtr:
				return ret(c, ptrEq(x, b.(*VPtr)))
			case *VSlice:
				y := b.(*VSlice)
				return ret(c, And(ptrEq(x.base, y.base), Eq(x.off, y.off), Eq(x.len, y.len)))
			case *VFunc:
				return ret(c, fnSame(e.decodeFn(x), e.decodeFn(b.(*VFunc))))
			}
			panic(unsupported("vSame"))
		},
		// vApart: two slices do not share their array.
		"vApart": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			a, _ := ifaceVal(c.args[0])
			b, _ := ifaceVal(c.args[1])
			x, y := a.(*VSlice), b.(*VSlice)
			return ret(c, Or(isNilPtr(x.base), Not(ptrEq(x.base, y.base))))
		},
		"vSameFn": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, fnSame(e.decodeFn(c.args[0].(*VFunc)), e.decodeFn(c.args[1].(*VFunc))))
		},
		// vSameIface: two interface values are identical (same dynamic type and value).
		"vSameIface": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, valEq(c.args[0], c.args[1], nil))
		},
		"vIsMethod": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			// vIsMethod(fn, name, recv): fn is the method value recv.name
			f := e.decodeFn(c.args[0].(*VFunc))
			name := constStrArg(c.args[1])
			recv, _ := ifaceVal(c.args[2])
			r := FALSE
			for _, a := range f.alts {
				if a.fn == nil {
					continue
				}
				nm := strings.TrimSuffix(a.fn.Name(), "$bound")
				if nm == name && len(a.binds) == 1 {
					r = Or(r, And(a.g, ptrEq(a.binds[0].(*VPtr), recv.(*VPtr))))
				}
			}
			return ret(c, r)
		},
		"vHeld": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, e.loadPtr(c.st, ptrOf(c.args[0])).(*Term))
		},
		"vNow": func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, c.st.now) },
		"vInv": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			a := e.closureOf(c.args[1])
			iv := &invDecl{name: constStrArg(c.args[0]), fn: c.args[1]}
			if i := strings.Index(iv.name, "@"); i >= 0 {
				iv.fnName = iv.name[i+1:]
			}
			if v, ok := c.args[1].(*VIface); ok {
				iv.fn = v.alts[0].val
			}
			ps := a.fn.Signature.Params()
			for i := 0; i < ps.Len(); i++ {
				iv.params = append(iv.params, ps.At(i).Type())
			}
			e.invs = append(e.invs, iv)
			return ret(c, nil)
		},
		"vStub": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			name := constStrArg(c.args[0])
			v, _ := ifaceVal(c.args[1])
			e.stubByName[name] = v
			return ret(c, nil)
		},
		// vRecord: calls of the named function are recorded as events and have an arbitrary result.
		"vRecord": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.record[constStrArg(c.args[0])] = true
			return ret(c, nil)
		},
		"vIter": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			// vIter(f func(depth int)): run for every window of events of a task: depth 0 before its main loop, n+1
			// for an iteration of a loop nested n deep, -1 at the end of the task, -n-1 when such a nested loop is left,
			// 10+n when a loop is entered from an iteration of a loop nested n-1 deep.
			e.iterHk = append(e.iterHk, &iterHook{fr: c.fr, fn: c.args[0]})
			return ret(c, nil)
		},
		// vProgress(f func() int): every iteration of a loop changes f or a variable of the loop.
		"vProgress": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.measures = append(e.measures, iterHook{fr: c.fr, fn: c.args[0]})
			return ret(c, nil)
		},
		"vTasks": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.runTasks = true
			return ret(c, nil)
		},
		"vRunTasks": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.runQueued(c)
			return ret(c, nil)
		},
		"vInTask": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n := constStrArg(c.args[0])
			if e.task == nil {
				return ret(c, FALSE)
			}
			owner := n[:strings.LastIndex(n, ".")]
			if t := c.fr.fn.Pkg.Type(owner); t != nil && e.prog.MethodSets.MethodSet(types.NewPointer(t.Type())).Lookup(c.fr.fn.Pkg.Pkg, n[len(owner)+1:]) == nil {
				// there is no such function any more: any task that its owner's methods make
				return ret(c, BoolT(strings.Contains(e.taskName, "."+owner+")")))
			}
			n = n[len(owner)+1:]
			return ret(c, BoolT(e.runs(e.task.fn.fn, n, map[*ssa.Function]bool{})))
		},
		// vTaskDoes: the task that is being run does what the name says; vTasksDoing: how many such tasks were started.
		"vTaskDoes": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n := constStrArg(c.args[0])
			if e.quiet == 0 && e.task != nil && !e.task.own[n] && e.sat(c.st, TRUE, 3*time.Second) != "unsat" {
				e.task.own[n] = true
				for t := e.task; t != nil; t = t.parent {
					t.marks[n] = true
				}
			}
			return ret(c, nil)
		},
		// vTasksNotDoing: how many of the tasks (those that tasks start included) do not do it themselves.
		"vTasksNotDoing": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n := int64(0)
			for _, t := range e.taskDone {
				if !t.own[constStrArg(c.args[0])] {
					n++
				}
			}
			return ret(c, I64(n))
		},
		"vTasksDoing": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			var out []Event
			for _, ev := range c.st.events {
				if ev.kind == "go" && ev.task != nil && ev.task.marks[constStrArg(c.args[0])] {
					out = append(out, ev)
				}
			}
			return ret(c, countEv(out))
		},
		// vAtStart: the object as it was when the iteration began.
		"vAtStart": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			v := c.args[0].(*VIface)
			n := &VIface{}
			for _, a := range v.alts {
				if a.val != nil {
					a.val = tagVer(a.val, e.iterStart)
				}
				n.alts = append(n.alts, a)
			}
			return ret(c, n)
		},
		// vContract: calls of the named function are replaced by its contract: an arbitrary result about which the
		// closure (of the arguments and results) is known; the call is recorded.
		"vContract": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			v, _ := ifaceVal(c.args[1])
			if e.contracts == nil {
				e.contracts = map[string]Val{}
			}
			e.contracts[constStrArg(c.args[0])] = v
			return ret(c, nil)
		},
		// vRangeKey: the key of the innermost range over a map of addresses; vVisited: the address was visited by it.
		"vRangeKey": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			it := lastIter(c.st)
			if it == nil || it.cur == nil {
				panic(unsupported("no range over a map"))
			}
			return ret(c, unpackKey(it.mt.Key(), it.cur))
		},
		"vVisited": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			it := lastIter(c.st)
			if it == nil {
				return ret(c, FALSE)
			}
			return ret(c, it.visited(keyTerm(c.args[0])))
		},
		"vSends": func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, countEv(e.chanEvents(c, "send"))) },
		"vRecvs": func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, countEv(e.chanEvents(c, "recv"))) },
		"vAllSent": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, e.allEv(c, e.chanEvents(c, "send"), 1))
		},
		"vAllRecv": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return ret(c, e.allEv(c, e.chanEvents(c, "recv"), 1))
		},
		"vTotalRecvs": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			var out []Event
			for _, ev := range window(c.st) {
				if ev.kind == "recv" {
					out = append(out, ev)
				}
			}
			return ret(c, countEv(out))
		},
		"vTotalSends": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			var out []Event
			for _, ev := range window(c.st) {
				if ev.kind == "send" {
					out = append(out, ev)
				}
			}
			return ret(c, countEv(out))
		},
		"vGos":      func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, countEv(e.nameEvents(c, "go"))) },
		"vAllGo":    func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, e.allEv(c, e.nameEvents(c, "go"), 1)) },
		"vCalls":    func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, countEv(e.nameEvents(c, "call"))) },
		"vAllCalls": func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, e.allEv(c, e.nameEvents(c, "call"), 0)) },
		"vCloses":   func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, countEv(e.chanEvents(c, "close"))) },
		"vClosed": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			chv, _ := ifaceVal(c.args[0])
			r := FALSE
			for _, a := range chv.(*VPtr).alts {
				if a.loc != nil {
					r = Or(r, And(a.g, e.chanClosed(c.st, a.loc)))
				}
			}
			return ret(c, r)
		},
		"vCallbacks": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			var out []Event
			for _, ev := range window(c.st) {
				if ev.kind == "callback" {
					out = append(out, ev)
				}
			}
			return ret(c, countEv(out))
		},
		"vAllCallbacks": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			var out []Event
			for _, ev := range window(c.st) {
				if ev.kind == "callback" {
					out = append(out, ev)
				}
			}
			c2 := *c
			c2.args = []Val{nil, c.args[0]}
			return ret(c, e.allEv(&c2, out, 0))
		},
		"vFreshSlice": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			// the backing array was allocated by the code under contract since the window began
			v, _ := ifaceVal(c.args[0])
			s := v.(*VSlice)
			r := FALSE
			for _, a := range s.base.alts {
				if a.loc != nil && a.loc.obj != 0 && a.loc.obj > e.windowObj {
					r = Or(r, a.g)
				}
			}
			if os.Getenv("GOVER_DBG") != "" {
				for _, a := range s.base.alts {
					fmt.Fprintln(os.Stderr, "vFreshSlice", a.g, a.loc, e.windowObj)
				}
			}
			return ret(c, r)
		},
		"vMonitor": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.monitors = append(e.monitors, &monitor{lock: ptrOf(c.args[0]), keys: strings.Fields(constStrArg(c.args[1])), fn: c.args[2]})
			return ret(c, nil)
		},
		"vGuard": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.addGuard(&guard{lock: ptrOf(c.args[0]), keys: strings.Fields(constStrArg(c.args[1])), name: constStrArg(c.args[1])})
			return ret(c, nil)
		},
		// vHavoc generalises the symbolic state with the given key prefixes (what other tasks may have changed).
		"vHavoc": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.havocKeys(c.st, strings.Fields(constStrArg(c.args[0])))
			return ret(c, nil)
		},
		"vGhost": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			// vGhost(name, x): an uninterpreted integer function of a pointer or integer
			name := constStrArg(c.args[0])
			v, _ := ifaceVal(c.args[1])
			var k *Term
			switch x := v.(type) {
			case *VPtr:
				k = encodePtr(x)
			default:
				k = keyTerm(v)
				if k.w < 64 {
					k = ZExt(k, 64)
				}
			}
			symUB["ghost$"+name] = lenUB
			return ret(c, App("ghost$"+name, 64, k))
		},
		"vTrace": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			v, _ := ifaceVal(c.args[1])
			fmt.Fprintf(os.Stderr, "trace %s: %v\n", constStrArg(c.args[0]), v)
			return ret(c, nil)
		},
		"vSymbolic": func(e *Exec, c *callCtx) ([]Outcome, bool) { return ret(c, TRUE) },
		// vReach: the point must be reachable (guards against contracts that hold vacuously).
		"vReach": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			if e.quiet == 0 {
				name := e.curName + "/reachable:" + constStrArg(c.args[0])
				if _, ok := e.reach[name]; !ok {
					e.reach[name] = false
				}
				if !e.reach[name] && e.sat(c.st, TRUE, 3*time.Second) != "unsat" {
					e.reach[name] = true
				}
			}
			return ret(c, nil)
		},
	}
}

func fnSame(a, b *VFunc) *Term {
	r := FALSE
	for _, x := range a.alts {
		for _, y := range b.alts {
			g := And(x.g, y.g)
			switch {
			case g.isFalse():
			case x.fn == nil && y.fn == nil:
				xr, yr := x.ref, y.ref
				if xr == nil {
					xr = BV(64, 0)
				}
				if yr == nil {
					yr = BV(64, 0)
				}
				r = Or(r, And(g, Eq(xr, yr)))
			case x.fn != nil && x.fn == y.fn && len(x.binds) == len(y.binds):
				c := g
				for i := range x.binds {
					if p, ok := x.binds[i].(*VPtr); ok {
						c = And(c, ptrEq(p, y.binds[i].(*VPtr)))
					}
				}
				r = Or(r, c)
			}
		}
	}
	return r
}

// runSpecStmt runs a specification closure for its vEnsure obligations.
func (e *Exec) runSpecStmt(st *State, fr *Frame, fv Val, args []Val) {
	a := e.closureOf(fv)
	e.specMode++
	defer func() { e.specMode-- }()
	n := len(a.fn.Params)
	e.callFn(st, a.fn, args[:n], a.binds, fr.depth+1, true)
}

func lastIter(st *State) *IterVal {
	id := -1
	var r *IterVal
	for i, o := range st.objs {
		if it, ok := o.val.(*IterVal); ok && i > id {
			id, r = i, it
		}
	}
	return r
}

func (e *Exec) quant(c *callCtx, all bool) *Term {
	lo, hi := c.args[0].(*Term), c.args[1].(*Term)
	if lo.isConst() && hi.isConst() && int64(hi.val)-int64(lo.val) <= 16 {
		r := BoolT(all)
		for i := int64(lo.val); i < int64(hi.val); i++ {
			t := e.evalSpec(c.st, c.fr, c.args[2], []Val{I64(i)}, nil, nil)
			if all {
				r = And(r, t)
			} else {
				r = Or(r, t)
			}
		}
		return r
	}
	v := FreshUB("q", 64, lenUB)
	rng := And(SLe(lo, v), SLt(v, hi))
	t := e.evalSpec(c.st, c.fr, c.args[2], []Val{v}, []*Term{rng}, []*Term{v})
	if all {
		return Forall([]*Term{v}, Implies(rng, t))
	}
	return Exists([]*Term{v}, And(rng, t))
}

// runStub runs the contract of a callee in place of its body.
func (e *Exec) runStub(fs FS, h Val, args []Val) []Outcome {
	a := e.closureOf(h)
	e.specMode++
	defer func() { e.specMode-- }()
	return e.callFn(fs.st, a.fn, args[:len(a.fn.Params)], a.binds, fs.fr.depth+1, true)
}

func (e *Exec) afterEvent(st *State, fr *Frame) {}

// keyMatch: does leaf key k (e.g. "T:pkg.Controller.Nodes#len") match one of the short prefixes ("Controller.Nodes")?
func keyMatch(k string, keys []string) bool {
	s := shortKey(k)
	for _, p := range keys {
		if s == p || strings.HasPrefix(s, p+".") || strings.HasPrefix(s, p+"#") || strings.HasPrefix(s, p+"[") {
			return true
		}
	}
	return false
}

var shortMemo = map[string]string{}

func shortKey(k string) string {
	if s, ok := shortMemo[k]; ok {
		return s
	}
	s := k
	for _, p := range []string{"github.com/jsimonetti/go-artnet/packet/code.", "github.com/jsimonetti/go-artnet/packet.", "github.com/jsimonetti/go-artnet."} {
		s = strings.ReplaceAll(s, p, "")
	}
	s = strings.TrimPrefix(s, "T:")
	shortMemo[k] = s
	return s
}

func (e *Exec) lockHeld(st *State, lock *VPtr) *Term {
	e.noAccess++
	defer func() { e.noAccess-- }()
	return e.loadPtr(st, lock).(*Term)
}

func (e *Exec) addGuard(g *guard) {
	e.guards = append(e.guards, g)
	e.onAccess = func(st *State, l *Loc, write bool) {
		if e.specMode > 0 || e.quiet > 0 || e.noAccess > 0 || l.obj != 0 || l.ver != nil {
			return
		}
		k, _ := pathKey(l)
		for _, g := range e.guards {
			if !keyMatch(k, g.keys) {
				continue
			}
			if isMutex(locType(l)) {
				continue
			}
			// objects allocated by this task and not yet shared are exempt (they are concrete objects)
			held := e.lockHeld(st, g.lock)
			what := "read"
			if write {
				what = "write"
			}
			if write && st.rd[lockKey(g.lock)] {
				e.oblige(st, fmt.Sprintf("%s/%s of %s under its lock, not just for reading", e.curName, what, shortKey(k)), FALSE)
				continue
			}
			if held.isTrue() {
				e.lockOK++
				continue
			}
			e.oblige(st, fmt.Sprintf("%s/%s of %s under its lock", e.curName, what, shortKey(k)), held)
		}
	}
}

// havocKeys generalises every leaf matching the keys.
func (e *Exec) havocKeys(st *State, keys []string) {
	nextRef += 1 << 32
	done := map[string]bool{}
	for _, root := range e.rootsFor(keys) {
		for _, li := range e.infosFor(root.loc) {
			k := root.key + li.suffix
			if done[k] || !keyMatch(k, keys) {
				continue
			}
			done[k] = true
			e.havocLeaves(st, root.key, []leafInfo{li}, nil)
		}
	}
	for _, k := range keys {
		ok := false
		for d := range done {
			if keyMatch(d, []string{k}) {
				ok = true
			}
		}
		if !ok {
			panic(unsupported("specification names unknown state " + k))
		}
	}
}

type rootInfo struct {
	key string
	loc *Loc
}

// rootsFor finds the heap roots (struct types, maps) named by short keys.
func (e *Exec) rootsFor(keys []string) []rootInfo {
	var out []rootInfo
	seen := map[string]bool{}
	add := func(key string, l *Loc) {
		if !seen[key] {
			seen[key] = true
			out = append(out, rootInfo{key, l})
		}
	}
	var visit func(t types.Type)
	visited := map[string]bool{}
	visit = func(t types.Type) {
		k := typeKey(t)
		if visited[k] {
			return
		}
		visited[k] = true
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if _, ok := t.(*types.Named); ok && !isTime(t) && !isMutex(t) {
				add(rootT(t), &Loc{root: rootT(t), rt: t})
			}
			for i := 0; i < u.NumFields(); i++ {
				visit(u.Field(i).Type())
			}
		case *types.Pointer:
			visit(u.Elem())
		case *types.Map:
			add(rootM(u), &Loc{root: rootM(u), rt: u})
			visit(u.Elem())
		case *types.Slice:
			add(rootA(u.Elem()), &Loc{root: rootA(u.Elem()), rt: u.Elem()})
			visit(u.Elem())
		case *types.Array:
			visit(u.Elem())
		}
	}
	for _, p := range e.prog.AllPackages() {
		if !e.repoPkgs[p.Pkg.Path()] {
			continue
		}
		for _, m := range p.Members {
			if tn, ok := m.(*ssa.Type); ok {
				if !types.IsInterface(tn.Type()) {
					visit(tn.Type())
				}
			}
		}
	}
	var res []rootInfo
	for _, r := range out {
		for _, k := range keys {
			s := shortKey(r.key)
			if k == s || strings.HasPrefix(k, s+".") || strings.HasPrefix(k, s+"#") || strings.HasPrefix(k, s+"[") || strings.HasPrefix(s, k) {
				res = append(res, r)
				break
			}
		}
	}
	return res
}

func intConst(c constant.Value) int64 {
	v, _ := constant.Int64Val(c)
	return v
}
