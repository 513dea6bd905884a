package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"time"
)

// Counterexample extraction: the solver's model of a failed obligation is turned into a tree of concrete
// values for the contract's parameters, which the replay harness rebuilds with reflection.

type modelTooBig struct{}

type modelWalk struct {
	e    *Exec
	st   *State
	seen map[string]int
	n    int
	ev   func(ts []*Term) []uint64
}

func (w *modelWalk) one(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	return w.ev([]*Term{t})[0]
}

func num(v uint64) string { return strconv.FormatUint(v, 10) }

type jo = map[string]interface{}

func (w *modelWalk) pick(p *VPtr) *Loc {
	for _, a := range p.alts {
		if w.one(a.g) == 1 {
			return a.loc
		}
	}
	return nil
}

func (w *modelWalk) val(t types.Type, v Val) interface{} {
	w.n++
	if w.n > 20000 {
		panic(modelTooBig{})
	}
	if isMutex(t) {
		return nil
	}
	switch x := v.(type) {
	case *Term:
		return num(w.one(x))
	case *VStruct:
		u := t.Underlying().(*types.Struct)
		o := jo{}
		for i := range x.f {
			if n := u.Field(i).Name(); n != "_" {
				o[n] = w.val(u.Field(i).Type(), x.f[i])
			}
		}
		return jo{"struct": o}
	case *VArr:
		return jo{"elems": w.elems(x.elem, x.at, 0, int(w.one(x.n)))}
	case *VString:
		n := w.one(x.len)
		if n > 4096 {
			panic(modelTooBig{})
		}
		var ts []*Term
		for i := uint64(0); i < n; i++ {
			ts = append(ts, x.at(BV(64, i)))
		}
		return jo{"str": w.bytes(ts)}
	case *VSlice:
		l := w.pick(x.base)
		if l == nil {
			return jo{"nil": true}
		}
		n, off := w.one(x.len), w.one(x.off)
		if n > 4096 || off > 4096 {
			panic(modelTooBig{})
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := jo{"len": num(n)}
		if l.ref != nil {
			r["base"] = num(w.one(l.ref))
		}
		at := func(i *Term) Val { return w.e.load(w.st, l.child(Step{field: -1, idx: i})) }
		r["elems"] = w.elems(et, at, int(off), int(n))
		return r
	case *VPtr:
		switch t.Underlying().(type) {
		case *types.Map, *types.Chan:
			return jo{"skip": true}
		}
		l := w.pick(x)
		if l == nil {
			return jo{"nil": true}
		}
		et := t.Underlying().(*types.Pointer).Elem()
		ref := uint64(0)
		if l.ref != nil {
			ref = w.one(l.ref)
		}
		k := fmt.Sprintf("%s/%d/%d", typeKey(et), l.obj, ref)
		if id, ok := w.seen[k]; ok {
			return jo{"same": id}
		}
		if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && n.Obj().Pkg().Path() != "net" {
			return jo{"skip": true}
		}
		w.seen[k] = len(w.seen)
		return jo{"id": w.seen[k], "ptr": w.val(et, w.e.load(w.st, l))}
	case *VIface:
		for _, a := range x.alts {
			if w.one(a.g) != 1 {
				continue
			}
			if a.dyn == nil || a.val == nil {
				return jo{"skip": true}
			}
			return jo{"dyn": typeName(a.dyn), "v": w.val(a.dyn, a.val)}
		}
		return jo{"skip": true}
	}
	return jo{"skip": true}
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (w *modelWalk) bytes(ts []*Term) []int {
	r := []int{}
	for _, v := range w.ev(ts) {
		r = append(r, int(v))
	}
	return r
}

func (w *modelWalk) elems(et types.Type, at func(i *Term) Val, off, n int) interface{} {
	if n > 4096 {
		panic(modelTooBig{})
	}
	var ts []*Term
	for i := 0; i < n; i++ {
		v := at(BV(64, uint64(off+i)))
		t, ok := v.(*Term)
		if !ok {
			ts = nil
			break
		}
		ts = append(ts, t)
	}
	if len(ts) == n {
		r := []string{}
		for _, v := range w.ev(ts) {
			r = append(r, num(v))
		}
		return r
	}
	r := []interface{}{}
	for i := 0; i < n; i++ {
		r = append(r, w.val(et, at(BV(64, uint64(off+i)))))
	}
	return r
}

// shortLens collects "this length is small" wishes for the inputs (top level and one pointer deep).
func (e *Exec) shortLens(t types.Type, v Val, depth int, lim uint64, out *[]*Term) {
	if depth > 4 {
		return
	}
	switch x := v.(type) {
	case *VStruct:
		u := t.Underlying().(*types.Struct)
		for i := range x.f {
			e.shortLens(u.Field(i).Type(), x.f[i], depth, lim, out)
		}
	case *VString:
		*out = append(*out, ULe(x.len, BV(64, lim)))
	case *VSlice:
		*out = append(*out, ULe(x.len, BV(64, lim)))
	case *VPtr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return
			}
			for _, a := range x.alts {
				if a.loc != nil {
					e.shortLens(p.Elem(), e.load(e.st0, a.loc), depth+1, lim, out)
				}
			}
		}
	case *VIface:
		for _, a := range x.alts {
			if a.dyn != nil && a.val != nil {
				e.shortLens(a.dyn, a.val, depth+1, lim, out)
			}
		}
	}
}

// extractModel turns a solver model into concrete inputs for the contract's parameters.
func (e *Exec) extractModel(st *State, neg *Term) (m map[string]interface{}) {
	defer func() {
		if x := recover(); x != nil {
			m = nil
		}
	}()
	e.quiet++
	e.specMode++
	e.noAccess++
	defer func() { e.quiet--; e.specMode--; e.noAccess-- }()
	for _, lim := range []uint64{64, 600, 4096} {
		goal := neg
		var ls []*Term
		for _, in := range e.inputs {
			e.shortLens(in.typ, in.val, 0, lim, &ls)
		}
		goal = And(append([]*Term{neg}, ls...)...)
		var got map[string]interface{}
		read := func(ev func(ts []*Term) []uint64) {
			w := &modelWalk{e: e, st: e.st0.clone(), seen: map[string]int{}, ev: ev}
			res := map[string]interface{}{}
			order := []string{}
			for _, in := range e.inputs {
				order = append(order, in.name)
				res[in.name] = w.val(in.typ, in.val)
			}
			res["$order"] = order
			got = res
		}
		var r string
		if pc := st.terms(); e.anyQuant(pc, goal) {
			r, _ = e.instRun(st, pc, goal, 3, 24, 5*time.Second, read)
		} else {
			r = e.solver.CheckModel(pc, goal, 10*time.Second, read)
		}
		if r == "sat" && got != nil {
			return got
		}
	}
	return nil
}

// CheckModel is Check with access to the model while it is available.
func (s *Solver) CheckModel(pc []*Term, extra *Term, timeout time.Duration, f func(ev func(ts []*Term) []uint64)) string {
	if s.dead {
		s.restart()
	}
	s.sync(pc)
	s.push()
	s.assertTerm(extra)
	s.send(fmt.Sprintf("(set-option :timeout %d)", timeout.Milliseconds()))
	s.send("(check-sat)")
	s.send("(echo \"done\")")
	s.bw.Flush()
	res := "unknown"
	for _, l := range s.until(timeout + 3*time.Second) {
		if l == "sat" || l == "unsat" {
			res = l
		}
	}
	if res == "sat" && !s.dead {
		func() {
			defer func() {
				if x := recover(); x != nil {
					res = "unknown"
				}
			}()
			f(func(ts []*Term) []uint64 { return s.values(ts) })
		}()
	}
	if s.dead {
		s.restart()
		return "unknown"
	}
	s.pop(1)
	return res
}

func (s *Solver) until(d time.Duration) (out []string) {
	dl := time.After(d)
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				s.dead = true
				return
			}
			if strings.Trim(l, "\"") == "done" {
				return
			}
			out = append(out, l)
		case <-dl:
			s.dead = true
			return
		}
	}
}

func (s *Solver) values(ts []*Term) []uint64 {
	vals := make([]uint64, len(ts))
	if s.dead {
		panic(modelTooBig{})
	}
	var idx []int
	for i, t := range ts {
		if t.isConst() {
			vals[i] = t.val
			continue
		}
		// inline text: definitions made now would need a new check
		s.send("(get-value (" + s.full(t) + "))")
		s.send("(echo \"done\")")
		idx = append(idx, i)
	}
	if len(idx) == 0 {
		return vals
	}
	s.bw.Flush()
	for _, i := range idx {
		txt := strings.Join(s.until(10*time.Second), "")
		if s.dead || strings.Contains(txt, "error") {
			panic(modelTooBig{})
		}
		vals[i] = parseLast(txt)
	}
	return vals
}

// full prints a term without introducing definitions; unknown symbols are declared first.
func (s *Solver) full(t *Term) string {
	var decl func(t *Term)
	seen := map[int]bool{}
	decl = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp {
			s.declare(t, nil)
		}
		for _, a := range t.args {
			decl(a)
		}
	}
	decl(t)
	var rec func(t *Term) string
	rec = func(t *Term) string {
		if t.op == OConst {
			if s.ints && t.w > 0 {
				return bigStr(canonConst(t))
			}
			return constStr(t)
		}
		if t.op == OApp && len(t.args) == 0 {
			return symStr(t.name)
		}
		if s.defined[t.id] {
			return "t" + strconv.Itoa(t.id)
		}
		if s.ints {
			return printInt(s, t, rec)
		}
		return printNode(t, rec)
	}
	return rec(t)
}

// parseLast reads the value at the end of a get-value answer "((term value))".
func parseLast(t string) uint64 {
	t = strings.TrimRight(strings.TrimSpace(t), ") ")
	f := strings.Fields(t)
	if len(f) == 0 {
		return 0
	}
	v := f[len(f)-1]
	switch {
	case strings.HasPrefix(v, "#x"):
		r, _ := strconv.ParseUint(v[2:], 16, 64)
		return r
	case strings.HasPrefix(v, "#b"):
		r, _ := strconv.ParseUint(v[2:], 2, 64)
		return r
	case v == "true":
		return 1
	}
	if r, err := strconv.ParseUint(v, 10, 64); err == nil {
		// an integer, negative ones printed as (- n)
		if len(f) > 1 && strings.HasSuffix(f[len(f)-2], "(-") {
			return -r
		}
		return r
	}
	return 0
}
