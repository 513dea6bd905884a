package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func one(fs FS) []FS { return []FS{fs} }

// instr executes a non-terminator instruction; the result lists the continuing states (usually fs itself).
func (e *Exec) instr(fs FS, in ssa.Instruction) []FS {
	st, fr := fs.st, fs.fr
	set := func(v Val) []FS {
		fr.regs[in.(ssa.Value)] = v
		return one(fs)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		return set(ptrTo(e.alloc(st, rootT(t), t, zeroVal(t))))
	case *ssa.FieldAddr:
		p := e.get(fs, x.X).(*VPtr)
		if !e.require(st, fr, "nil dereference", Not(isNilPtr(p))) {
			return nil
		}
		return set(mapLoc(p, func(l *Loc) *Loc { return l.child(Step{field: x.Field}) }))
	case *ssa.Field:
		return set(e.get(fs, x.X).(*VStruct).f[x.Field])
	case *ssa.IndexAddr:
		idx := signExt64(e.get(fs, x.Index).(*Term), x.Index.Type())
		switch b := e.get(fs, x.X).(type) {
		case *VSlice:
			if !e.require(st, fr, "index out of range", And(ULt(idx, b.len))) {
				return nil
			}
			return set(mapLoc(b.base, func(l *Loc) *Loc { return l.child(Step{idx: Add(b.off, idx)}) }))
		case *VPtr:
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !e.require(st, fr, "nil dereference", Not(isNilPtr(b))) {
				return nil
			}
			if !e.require(st, fr, "index out of range", ULt(idx, I64(n))) {
				return nil
			}
			return set(mapLoc(b, func(l *Loc) *Loc { return l.child(Step{idx: idx}) }))
		}
	case *ssa.Index:
		idx := signExt64(e.get(fs, x.Index).(*Term), x.Index.Type())
		switch a := e.get(fs, x.X).(type) {
		case *VArr:
			if !e.require(st, fr, "index out of range", ULt(idx, a.n)) {
				return nil
			}
			return set(a.at(idx))
		case *VString:
			if !e.require(st, fr, "index out of range", ULt(idx, a.len)) {
				return nil
			}
			return set(a.at(idx))
		}
	case *ssa.UnOp:
		return e.unop(fs, x)
	case *ssa.BinOp:
		v, ok := e.binop(fs, x)
		if !ok {
			return nil
		}
		return set(v)
	case *ssa.Store:
		p := e.get(fs, x.Addr).(*VPtr)
		if !e.require(st, fr, "nil dereference", Not(isNilPtr(p))) {
			return nil
		}
		e.storePtr(st, p, e.get(fs, x.Val))
		return one(fs)
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return set(e.get(fs, *in.Operands(nil)[0]))
	case *ssa.Convert:
		return set(e.convert(fs, e.get(fs, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		return set(&VIface{alts: []IfAlt{{g: TRUE, dyn: x.X.Type(), val: e.get(fs, x.X)}}})
	case *ssa.TypeAssert:
		return e.typeAssert(fs, x)
	case *ssa.Extract:
		return set(e.get(fs, x.Tuple).(*VTuple).v[x.Index])
	case *ssa.Slice:
		v, ok := e.sliceOp(fs, x)
		if !ok {
			return nil
		}
		return set(v)
	case *ssa.MakeSlice:
		n := signExt64(e.get(fs, x.Len).(*Term), x.Len.Type())
		c := signExt64(e.get(fs, x.Cap).(*Term), x.Cap.Type())
		if !e.require(st, fr, "makeslice: len out of range", And(SLe(BV(64, 0), n), SLe(n, c), SLt(c, BV(64, lenUB)))) {
			return nil
		}
		return set(e.newSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c, nil))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return set(ptrTo(e.alloc(st, rootM(mt), mt, emptyMap(mt))))
	case *ssa.MakeChan:
		ct := x.Type().Underlying().(*types.Chan)
		return set(ptrTo(e.alloc(st, rootC(ct), ct, FALSE)))
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.get(fs, v)
		}
		return set(&VFunc{alts: []FnAlt{{g: TRUE, fn: x.Fn.(*ssa.Function), binds: b}}})
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := e.get(fs, x.Map).(*VPtr)
		if !e.require(st, fr, "assignment to nil map", Not(isNilPtr(m))) {
			return nil
		}
		k := keyTerm(e.get(fs, x.Key))
		v := e.get(fs, x.Value)
		for _, a := range m.alts {
			if a.loc != nil {
				e.mapSet(st, a.g, a.loc, mt, k, v)
				if ks, ok := e.get(fs, x.Key).(*VString); ok {
					e.strMapSet(st, a.g, a.loc, ks, v)
				}
			}
		}
		return one(fs)
	case *ssa.Lookup:
		return e.lookup(fs, x)
	case *ssa.Range:
		return e.rangeOp(fs, x)
	case *ssa.Next:
		return e.next(fs, x)
	case *ssa.Call:
		return e.call(fs, x, &x.Call, x)
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		d.fv, d.args = e.callOperands(fs, &x.Call)
		fr.defers = append(fr.defers, d)
		return one(fs)
	case *ssa.RunDefers:
		return e.runDefers(fs)
	case *ssa.Go:
		fv, args := e.callOperands(fs, &x.Call)
		name := "?"
		if f, ok := fv.(*VFunc); ok {
			f = e.decodeFn(f)
			if len(f.alts) == 1 && f.alts[0].fn != nil {
				name = fnName(f.alts[0].fn)
			}
			st.events = append(st.events, Event{g: TRUE, kind: "go", name: name, args: append([]Val{f}, args...)})
			if e.runTasks && e.specMode == 0 {
				if len(f.alts) != 1 || f.alts[0].fn == nil {
					panic(unsupported("go with an unknown function"))
				}
				if !e.looping(f.alts[0].fn, map[*ssa.Function]bool{}) {
					// a task that does not wait for anything is taken at the moment it is started
					e.note("a background task without a loop is read as if it ran when it was started")
					return e.call(fs, x, &x.Call, nil)
				}
				if e.quiet == 0 {
					t := &task{parent: e.task, fr: fr, fn: f.alts[0], args: args, marks: map[string]bool{}, own: map[string]bool{}}
					st.events[len(st.events)-1].task = t
					t.st = st.clone()
					e.tasks = append(e.tasks, t)
				}
			}
		} else {
			st.events = append(st.events, Event{g: TRUE, kind: "go", name: x.Call.Method.Name(), args: args})
		}
		return one(fs)
	case *ssa.Send:
		ch := e.get(fs, x.Chan).(*VPtr)
		e.chanSend(st, fr, TRUE, ch, x.Chan.Type().Underlying().(*types.Chan), e.get(fs, x.X))
		return one(fs)
	case *ssa.Select:
		return e.selectOp(fs, x)
	case *ssa.SliceToArrayPointer:
		s := e.get(fs, x.X).(*VSlice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !e.require(st, fr, "slice to array conversion", ULe(I64(n), s.len)) {
			return nil
		}
		if s.off.isConst() && s.off.val == 0 {
			return set(s.base)
		}
	}
	panic(unsupported(fmt.Sprintf("instruction %T %s in %s", in, in, fr.fn)))
}

func mapLoc(p *VPtr, f func(l *Loc) *Loc) *VPtr {
	n := &VPtr{}
	for _, a := range p.alts {
		if a.loc == nil {
			continue
		}
		n.alts = append(n.alts, PtrAlt{a.g, f(a.loc)})
	}
	if len(n.alts) == 1 {
		n.alts[0].g = TRUE
	}
	return n
}

func (e *Exec) loadPtr(st *State, p *VPtr) Val {
	var r Val
	for i := len(p.alts) - 1; i >= 0; i-- {
		a := p.alts[i]
		if a.loc == nil {
			continue
		}
		v := e.load(st, a.loc)
		if r == nil {
			r = v
		} else {
			r = merge(a.g, v, r)
		}
	}
	return r
}

func (e *Exec) storePtr(st *State, p *VPtr, v Val) {
	for _, a := range p.alts {
		if a.loc == nil {
			continue
		}
		g := a.g
		if len(p.alts) == 1 {
			g = TRUE
		}
		e.storeIf(st, g, a.loc, v)
	}
}

func (e *Exec) newSlice(st *State, elem types.Type, n, c *Term, at func(i *Term) Val) *VSlice {
	if at == nil {
		z := zeroVal(elem)
		at = func(*Term) Val { return z }
	}
	l := e.alloc(st, rootA(elem), elem, newArr(elem, c, at))
	return &VSlice{base: ptrTo(l), off: BV(64, 0), len: n, cap: c}
}

// sliceAt reads element j of s in st.
func (e *Exec) sliceAt(st *State, s *VSlice, j *Term) Val {
	var r Val
	for i := len(s.base.alts) - 1; i >= 0; i-- {
		a := s.base.alts[i]
		if a.loc == nil {
			continue
		}
		v := e.load(st, a.loc.child(Step{idx: Add(s.off, j)}))
		if r == nil {
			r = v
		} else {
			r = merge(a.g, v, r)
		}
	}
	return r
}

// storeRange writes n elements starting at index lo of the array at l.
func (e *Exec) storeRange(st *State, g *Term, l *Loc, lo, n *Term, src func(i *Term) Val) {
	if n.isConst() && n.val == 0 {
		return
	}
	if l.ver != nil {
		panic(unsupported("store to snapshot"))
	}
	upd := func(old *VArr, g *Term) *VArr {
		nv := old.setRange(lo, n, src)
		if g.isTrue() {
			return nv
		}
		return merge(g, nv, old).(*VArr)
	}
	if l.obj != 0 {
		o := e.getObj(st, l.obj)
		e.noteWrite(st, l)
		st.setObj(l.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: setPath(o.val, l.path, upd(getPath(o.val, l.path).(*VArr), g))})
		return
	}
	if l.ref.isConst() {
		p := decodePtr(l.ref, l.root, l.rt, nil)
		if a := p.alts[0].loc; a != nil && (a.obj != 0 || len(a.path) > 0) {
			nl := *a
			nl.path = append(append([]Step{}, a.path...), l.path...)
			e.storeRange(st, g, &nl, lo, n, src)
			return
		}
	}
	if n.isConst() && n.val == 1 {
		e.storeIf(st, g, l.child(Step{idx: lo}), src(BV(64, 0)))
		return
	}
	e.noteWrite(st, l)
	for _, id := range e.escapedOf(st, l) {
		if c := And(g, Eq(l.ref, objRef[id])); !c.isFalse() {
			o := e.getObj(st, id)
			e.noteWrite(st, &Loc{obj: id, root: o.root, rt: o.rt, ref: objRef[id]})
			st.setObj(id, &Obj{id: id, root: o.root, rt: o.rt, val: setPath(o.val, l.path, upd(getPath(o.val, l.path).(*VArr), c))})
		}
	}
	var elem types.Type
	if strings.HasPrefix(l.root, "A:") && len(l.path) == 0 {
		elem = l.rt
	} else {
		elem = locType(l).Underlying().(*types.Array).Elem()
	}
	key, args := pathKey(l)
	// write via a quantified row: condition on the index argument
	e.storeLeavesRange(st, g, key+"[]", args, lo, n, elem, src)
}

func (e *Exec) storeLeavesRange(st *State, g *Term, key string, args []*Term, lo, n *Term, t types.Type, src func(i *Term) Val) {
	// materialise the new leaves by storing at a symbolic index and then generalising it
	na := len(args)
	ph := Sym("range!idx", 64)
	tmp := st.clone()
	tmp.leaves = map[string]*Leaf{}
	for k, v := range st.leaves {
		tmp.leaves[k] = v
	}
	before := tmp.leaves
	e.storeLeaves(tmp, TRUE, key, append(append([]*Term{}, args...), ph), t, func(ex []*Term) Val { return src(ph) }, 0)
	_ = before
	for k, nl := range tmp.leaves {
		ol := st.leaves[k]
		if ol == nl {
			continue
		}
		if ol == nil {
			ol = e.leafFor(st.leaves, k, nl.w, 0)
		}
		if !strings.HasPrefix(k, key) {
			continue
		}
		k, ol := k, ol
		st.setLeaf(k, &Leaf{w: ol.w, memo: map[string]*Term{}, sel: func(a []*Term) *Term {
			c := g
			for i := range args {
				c = And(c, Eq(a[i], args[i]))
			}
			idx := a[na]
			d := Sub(idx, lo)
			in := And(ULe(lo, idx), ULt(d, n))
			c = And(c, in)
			if c.isFalse() {
				return ol.at(a)
			}
			nv := e.leafOfVal(src(d), t, strings.TrimPrefix(k, key), a[na+1:])
			return Ite(c, nv, ol.at(a))
		}})
	}
}

// leafOfVal extracts the leaf named by suffix from a value of type t.
func (e *Exec) leafOfVal(v Val, t types.Type, suffix string, ex []*Term) *Term {
	tmp := &State{objs: map[int]*Obj{}, leaves: map[string]*Leaf{}}
	zero := BV(64, 7)
	e.storeLeaves(tmp, TRUE, "X", []*Term{zero}, t, func([]*Term) Val { return v }, 0)
	l := tmp.leaves["X"+suffix]
	return l.at(append([]*Term{zero}, ex...))
}

func (e *Exec) unop(fs FS, x *ssa.UnOp) []FS {
	st, fr := fs.st, fs.fr
	v := e.get(fs, x.X)
	switch x.Op {
	case token.MUL:
		p := v.(*VPtr)
		if !e.require(st, fr, "nil dereference", Not(isNilPtr(p))) {
			return nil
		}
		fr.regs[x] = e.loadPtr(st, p)
		return one(fs)
	case token.NOT:
		fr.regs[x] = Not(v.(*Term))
	case token.SUB:
		t, ok := v.(*Term)
		if !ok {
			fr.regs[x] = v
			return one(fs)
		}
		fr.regs[x] = Neg(t)
	case token.XOR:
		fr.regs[x] = BNot(v.(*Term))
	case token.ARROW:
		ch := v.(*VPtr)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		if x.CommaOk {
			ok := Fresh("rok", 0)
			fr.regs[x] = &VTuple{[]Val{e.chanRecv(st, TRUE, ok, ch, et), ok}}
		} else {
			fr.regs[x] = e.chanRecv(st, TRUE, TRUE, ch, et)
		}
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	return one(fs)
}

func (e *Exec) binop(fs FS, x *ssa.BinOp) (Val, bool) {
	a, b := e.get(fs, x.X), e.get(fs, x.Y)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return e.eqVals(a, b, x.X.Type(), x.Y.Type()), true
	case token.NEQ:
		return Not(e.eqVals(a, b, x.X.Type(), x.Y.Type())), true
	}
	if s, ok := a.(*VString); ok {
		y := b.(*VString)
		switch x.Op {
		case token.ADD:
			return strConcat(s, y), true
		case token.LSS:
			return e.strLess(s, y), true
		case token.GTR:
			return e.strLess(y, s), true
		case token.LEQ:
			return Not(e.strLess(y, s)), true
		case token.GEQ:
			return Not(e.strLess(s, y)), true
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if _, op := a.(VOpaque); op {
			return a, true
		}
		panic(unsupported("binop " + x.String()))
	}
	signed := isSigned(t)
	switch x.Op {
	case token.ADD:
		return Add(p, q), true
	case token.SUB:
		return Sub(p, q), true
	case token.MUL:
		return Mul(p, q), true
	case token.QUO, token.REM:
		if !e.require(fs.st, fs.fr, "integer divide by zero", Not(Eq(q, BV(q.w, 0)))) {
			return nil, false
		}
		op := OUDiv
		switch {
		case x.Op == token.QUO && signed:
			op = OSDiv
		case x.Op == token.REM && signed:
			op = OSRem
		case x.Op == token.REM:
			op = OURem
		}
		return bin(op, p, q), true
	case token.AND:
		if p.w == 0 {
			return And(p, q), true
		}
		return bin(OBAnd, p, q), true
	case token.OR:
		if p.w == 0 {
			return Or(p, q), true
		}
		return bin(OBOr, p, q), true
	case token.XOR:
		return bin(OBXor, p, q), true
	case token.AND_NOT:
		return bin(OBAnd, p, BNot(q)), true
	case token.SHL, token.SHR:
		if isSigned(x.Y.Type()) {
			if !e.require(fs.st, fs.fr, "negative shift amount", SLe(BV(q.w, 0), q)) {
				return nil, false
			}
		}
		return shift(x.Op, p, q, signed), true
	case token.LSS:
		if signed {
			return SLt(p, q), true
		}
		return ULt(p, q), true
	case token.LEQ:
		if signed {
			return SLe(p, q), true
		}
		return ULe(p, q), true
	case token.GTR:
		if signed {
			return SLt(q, p), true
		}
		return ULt(q, p), true
	case token.GEQ:
		if signed {
			return SLe(q, p), true
		}
		return ULe(q, p), true
	}
	panic(unsupported("binop " + x.String()))
}

func shift(op token.Token, p, q *Term, signed bool) *Term {
	o := OShl
	if op == token.SHR {
		o = OLShr
		if signed {
			o = OAShr
		}
	}
	w := p.w
	if q.isConst() {
		k := q.val
		if k >= uint64(w) {
			if o == OAShr {
				return bin(OAShr, p, BV(w, uint64(w-1)))
			}
			return BV(w, 0)
		}
		return bin(o, p, BV(w, k))
	}
	big := ULe(BV(64, uint64(w)), ZExt(q, 64))
	var c *Term
	if q.w > w {
		c = Extract(q, w-1, 0)
	} else {
		c = ZExt(q, w)
	}
	over := BV(w, 0)
	if o == OAShr {
		over = bin(OAShr, p, BV(w, uint64(w-1)))
	}
	return Ite(big, over, bin(o, p, c))
}

func strConcat(s, y *VString) *VString {
	if s.lit != nil && y.lit != nil {
		return strLit(*s.lit + *y.lit)
	}
	if s.lit != nil && *s.lit == "" {
		return y
	}
	if y.lit != nil && *y.lit == "" {
		return s
	}
	// one shape whatever the order of concatenation: left to right, adjacent constants joined
	if y.prev != nil {
		return strConcat(strConcat(s, y.prev), y.last)
	}
	if s.prev != nil && s.last.lit != nil && y.lit != nil {
		return strConcat(s.prev, strLit(*s.last.lit+*y.lit))
	}
	memo := map[int]*Term{}
	return &VString{prev: s, last: y, len: Add(s.len, y.len), at: func(i *Term) *Term {
		if t, ok := memo[i.id]; ok {
			return t
		}
		c := ULt(i, s.len)
		var t *Term
		switch {
		case c.isTrue():
			t = s.at(i)
		case c.isFalse():
			t = y.at(Sub(i, s.len))
		default:
			t = Ite(c, s.at(i), y.at(Sub(i, s.len)))
		}
		memo[i.id] = t
		return t
	}}
}

func (e *Exec) strLess(a, b *VString) *Term {
	if a.lit != nil && b.lit != nil {
		return BoolT(*a.lit < *b.lit)
	}
	return Fresh("strless", 0)
}

func (e *Exec) eqVals(a, b Val, ta, tb types.Type) *Term {
	ia, oka := a.(*VIface)
	ib, okb := b.(*VIface)
	if oka != okb {
		// interface compared with concrete value
		if oka {
			return valEq(ia, &VIface{alts: []IfAlt{{g: TRUE, dyn: tb, val: b}}}, ta)
		}
		return valEq(&VIface{alts: []IfAlt{{g: TRUE, dyn: ta, val: a}}}, ib, tb)
	}
	if fa, ok := a.(*VFunc); ok {
		return valEq(e.decodeFn(fa), e.decodeFn(b.(*VFunc)), ta)
	}
	return valEq(a, b, ta)
}

func (e *Exec) convert(fs FS, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	tb, tok := tu.(*types.Basic)
	fb, fok := fu.(*types.Basic)
	switch {
	case tok && fok && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		w := basicWidth(tb)
		switch {
		case w == t.w:
			return t
		case w < t.w:
			return Extract(t, w-1, 0)
		case isSigned(from):
			return SExt(t, w)
		default:
			return ZExt(t, w)
		}
	case tok && tb.Info()&types.IsString != 0 && fok && fb.Info()&types.IsInteger != 0:
		return e.runeText(fs.st, signExt64(v.(*Term), from))
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := v.(*VString); ok {
			return s
		}
		s := v.(*VSlice)
		if !isByteSlice(fu) && s.len.isConst() && s.len.val <= 64 {
			// runes
			t := strLit("")
			for i := uint64(0); i < s.len.val; i++ {
				r, ok := e.sliceAt(fs.st, s, BV(64, i)).(*Term)
				if !ok {
					panic(unsupported("[]rune"))
				}
				t = strConcat(t, e.runeText(fs.st, SExt(r, 64)))
			}
			return t
		}
		if !isByteSlice(fu) {
			frozen := fs.st.clone()
			at := func(i *Term) *Term {
				if r, ok := e.sliceAt(frozen, s, i).(*Term); ok {
					return r
				}
				return BV(32, 0)
			}
			q := FreshUB("q", 64, lenUB)
			if e.quiet+e.specMode == 0 && e.proves(fs.st, Forall([]*Term{q}, Implies(ULt(q, s.len), ULt(at(q), BV(32, 0x80)))), 5*time.Second) {
				return &VString{len: s.len, at: func(i *Term) *Term { return Extract(at(i), 7, 0) }}
			}
			e.note("string([]rune) of a slice of unknown length: arbitrary text unless all runes are ASCII")
			return e.freshVal(types.Typ[types.String], "runes", inputBase)
		}
		if isByteSlice(fu) {
			frozen := fs.st.clone()
			return &VString{len: s.len, at: func(i *Term) *Term {
				r := e.sliceAt(frozen, s, i)
				if r == nil {
					return BV(8, 0)
				}
				return r.(*Term)
			}}
		}
	case isByteSlice(tu) && fok && fb.Info()&types.IsString != 0:
		s := v.(*VString)
		return e.newSlice(fs.st, tu.(*types.Slice).Elem(), s.len, s.len, func(i *Term) Val { return s.at(i) })
	case tok && tb.Kind() == types.UnsafePointer, fok && fb.Kind() == types.UnsafePointer:
		panic(unsupported("unsafe pointer conversion in " + fs.fr.fn.String()))
	}
	if tok && tb.Info()&types.IsFloat != 0 || fok && fb.Info()&types.IsFloat != 0 {
		if tok && tb.Info()&types.IsInteger != 0 {
			e.note("float-to-int conversion unconstrained")
			return Fresh("f2i", basicWidth(tb))
		}
		return VOpaque{"float"}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", from, to)))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// runeText is string(rune) for a value sign-extended to 64 bits.
func (e *Exec) runeText(st *State, r *Term) *VString {
	if !r.isConst() && e.quiet+e.specMode == 0 && e.valid(st, ULt(r, BV(64, 0x80)), time.Second) {
		b := Extract(r, 7, 0)
		return &VString{len: I64(1), at: func(*Term) *Term { return b }}
	}
	return runeString(r)
}

// runeString is string(rune).
func runeString(r *Term) *VString {
	if r.isConst() {
		return strLit(string(rune(int32(r.val))))
	}
	one := ULt(r, BV(64, 0x80))
	two := ULt(r, BV(64, 0x800))
	bad := Or(Not(ULe(r, BV(64, 0x10ffff))), And(ULe(BV(64, 0xd800), r), ULe(r, BV(64, 0xdfff))))
	three := Or(ULt(r, BV(64, 0x10000)), bad)
	b8 := func(t *Term) *Term { return Extract(t, 7, 0) }
	sh := func(n uint64) *Term { return bin(OLShr, r, BV(64, n)) }
	cont := func(t *Term) *Term { return bin(OBOr, BV(8, 0x80), bin(OBAnd, b8(t), BV(8, 0x3f))) }
	or := func(c uint64, t *Term) *Term { return bin(OBOr, BV(8, c), b8(t)) }
	ln := Ite(one, BV(64, 1), Ite(two, BV(64, 2), Ite(three, BV(64, 3), BV(64, 4))))
	c0 := Ite(one, b8(r), Ite(two, or(0xc0, sh(6)), Ite(bad, BV(8, 0xef), Ite(three, or(0xe0, sh(12)), or(0xf0, sh(18))))))
	c1 := Ite(two, cont(r), Ite(bad, BV(8, 0xbf), Ite(three, cont(sh(6)), cont(sh(12)))))
	c2 := Ite(bad, BV(8, 0xbd), Ite(three, cont(r), cont(sh(6))))
	c3 := cont(r)
	return &VString{len: ln, at: func(i *Term) *Term {
		return Ite(Eq(i, BV(64, 0)), c0, Ite(Eq(i, BV(64, 1)), c1, Ite(Eq(i, BV(64, 2)), c2, c3)))
	}}
}

func (e *Exec) typeAssert(fs FS, x *ssa.TypeAssert) []FS {
	v := e.get(fs, x.X).(*VIface)
	toIface := types.IsInterface(x.AssertedType)
	ok := FALSE
	var res Val
	for _, a := range v.alts {
		var m *Term
		var val Val
		switch {
		case a.dyn != nil:
			if toIface {
				m = BoolT(types.Implements(a.dyn, x.AssertedType.Underlying().(*types.Interface)))
				val = &VIface{alts: []IfAlt{{g: TRUE, dyn: a.dyn, val: a.val}}}
			} else {
				m = BoolT(types.Identical(a.dyn, x.AssertedType))
				val = a.val
			}
		case a.tag != nil:
			if toIface {
				// unknown dynamic type: may or may not implement
				m = Fresh("impl", 0)
				if types.Identical(x.X.Type(), x.AssertedType) || types.AssignableTo(x.X.Type(), x.AssertedType) {
					m = Not(Eq(a.tag, BV(16, 0)))
				} else {
					m = And(m, Not(Eq(a.tag, BV(16, 0))))
				}
				val = &VIface{alts: []IfAlt{{g: TRUE, tag: a.tag, ref: a.ref}}}
			} else {
				m = Eq(a.tag, BV(16, e.dynTag(x.X.Type(), x.AssertedType)))
				if pt, ok := x.AssertedType.(*types.Pointer); ok {
					val = decodePtr(a.ref, rootT(pt.Elem()), pt.Elem(), nil)
				} else {
					val = e.freshVal(x.AssertedType, "dyn", inputBase)
				}
			}
		default:
			m = FALSE
		}
		c := And(a.g, m)
		if c.isFalse() {
			continue
		}
		ok = Or(ok, c)
		if res == nil {
			res = val
		} else {
			res = merge(c, val, res)
		}
	}
	zero := zeroVal(x.AssertedType)
	if x.CommaOk {
		if res == nil {
			res = zero
		} else {
			res = merge(ok, res, zero)
		}
		fs.fr.regs[x] = &VTuple{[]Val{res, ok}}
		return one(fs)
	}
	if !e.require(fs.st, fs.fr, "type assertion", ok) {
		return nil
	}
	fs.fr.regs[x] = res
	return one(fs)
}

func (e *Exec) sliceOp(fs FS, x *ssa.Slice) (Val, bool) {
	st, fr := fs.st, fs.fr
	idx := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return signExt64(e.get(fs, v).(*Term), v.Type())
	}
	z := BV(64, 0)
	switch a := e.get(fs, x.X).(type) {
	case *VString:
		lo, hi := idx(x.Low, z), idx(x.High, a.len)
		if !e.require(st, fr, "slice bounds out of range", And(ULe(lo, hi), ULe(hi, a.len))) {
			return nil, false
		}
		if a.lit != nil && lo.isConst() && hi.isConst() {
			return strLit((*a.lit)[lo.val:hi.val]), true
		}
		return &VString{len: Sub(hi, lo), at: func(i *Term) *Term { return a.at(Add(lo, i)) }}, true
	case *VSlice:
		lo, hi := idx(x.Low, z), idx(x.High, a.len)
		mx := idx(x.Max, a.cap)
		if !e.require(st, fr, "slice bounds out of range", And(ULe(lo, hi), ULe(hi, mx), ULe(mx, a.cap))) {
			return nil, false
		}
		return &VSlice{base: a.base, off: Add(a.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo)}, true
	case *VPtr:
		n := I64(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if !e.require(st, fr, "nil dereference", Not(isNilPtr(a))) {
			return nil, false
		}
		lo, hi := idx(x.Low, z), idx(x.High, n)
		mx := idx(x.Max, n)
		if !e.require(st, fr, "slice bounds out of range", And(ULe(lo, hi), ULe(hi, mx), ULe(mx, n))) {
			return nil, false
		}
		return &VSlice{base: a, off: lo, len: Sub(hi, lo), cap: Sub(mx, lo)}, true
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (e *Exec) lookup(fs FS, x *ssa.Lookup) []FS {
	fr := fs.fr
	if s, ok := e.get(fs, x.X).(*VString); ok {
		idx := signExt64(e.get(fs, x.Index).(*Term), x.Index.Type())
		if !e.require(fs.st, fr, "index out of range", ULt(idx, s.len)) {
			return nil
		}
		fr.regs[x] = s.at(idx)
		return one(fs)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	v, ok := e.strMapGet(fs.st, e.get(fs, x.X).(*VPtr), mt, e.get(fs, x.Index))
	if ok == nil {
		v, ok = e.mapGet(fs.st, e.get(fs, x.X).(*VPtr), mt, keyTerm(e.get(fs, x.Index)))
	}
	if x.CommaOk {
		fr.regs[x] = &VTuple{[]Val{v, ok}}
	} else {
		fr.regs[x] = v
	}
	return one(fs)
}

// strMapGet looks up a string key (nil: not a map with string keys and known content).
func (e *Exec) strMapGet(st *State, m *VPtr, mt *types.Map, k Val) (Val, *Term) {
	ks, is := k.(*VString)
	if !is {
		return nil, nil
	}
	var res Val = zeroVal(mt.Elem())
	ok := FALSE
	for _, a := range m.alts {
		if a.loc == nil {
			continue
		}
		if a.loc.obj == 0 || a.loc.ver != nil {
			return nil, nil
		}
		mv := e.mapAt(st, a.loc, mt)
		if mv.sdom == nil {
			return nil, nil
		}
		d := And(a.g, mv.sdom(ks))
		ok = Or(ok, d)
		if !d.isFalse() {
			res = merge(d, mv.sval(ks), res)
		}
	}
	return res, ok
}

func (e *Exec) mapGet(st *State, m *VPtr, mt *types.Map, k *Term) (Val, *Term) {
	zero := zeroVal(mt.Elem())
	if k == nil {
		return e.freshVal(mt.Elem(), "mapval", inputBase), Fresh("mapok", 0)
	}
	var res Val = zero
	ok := FALSE
	for _, a := range m.alts {
		if a.loc == nil {
			continue
		}
		mv := e.mapAt(st, a.loc, mt)
		if mv.opaque {
			return e.freshVal(mt.Elem(), "mapval", inputBase), Fresh("mapok", 0)
		}
		g := a.g
		if a.loc.obj == 0 {
			g = And(g, Not(Eq(a.loc.ref, BV(64, 0))))
		}
		d := And(g, mv.dom(k))
		ok = Or(ok, d)
		if d.isFalse() {
			continue
		}
		res = merge(d, mv.val(k), res)
	}
	return res, ok
}

func (e *Exec) rangeOp(fs FS, x *ssa.Range) []FS {
	if s, ok := e.get(fs, x.X).(*VString); ok {
		l := e.alloc(fs.st, "I:string", types.Typ[types.Int], &IterVal{str: s, pos: BV(64, 0)})
		fs.fr.regs[x] = ptrTo(l)
		return one(fs)
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := e.get(fs, x.X).(*VPtr)
	frozen := fs.st.clone()
	it := &IterVal{m: m, mt: mt,
		start:   func(k *Term) *Term { return e.mapDom(frozen, m, mt, k) },
		visited: func(k *Term) *Term { return FALSE }}
	l := e.alloc(fs.st, "I:map", mt, it)
	fs.fr.regs[x] = ptrTo(l)
	return one(fs)
}

func (e *Exec) mapDom(st *State, m *VPtr, mt *types.Map, k *Term) *Term {
	r := FALSE
	for _, a := range m.alts {
		if a.loc == nil {
			continue
		}
		g := a.g
		if a.loc.obj == 0 {
			g = And(g, Not(Eq(a.loc.ref, BV(64, 0))))
		}
		r = Or(r, And(g, e.mapAt(st, a.loc, mt).dom(k)))
	}
	return r
}

func (e *Exec) next(fs FS, x *ssa.Next) []FS {
	st := fs.st
	p := e.get(fs, x.Iter).(*VPtr)
	loc := p.alts[0].loc
	it := e.getObj(st, loc.obj).val.(*IterVal)
	if it.str != nil {
		panic(unsupported("range over string"))
	}
	kw := keyWidth(it.mt.Key())
	if kw < 0 {
		panic(unsupported("range over map with unsupported key"))
	}
	ok := Fresh("rng_ok", 0)
	k := Fresh("rng_key", kw)
	dom := e.mapDom(st, it.m, it.mt, k)
	st.addFact(Implies(ok, And(dom, Not(it.visited(k)))))
	q := Fresh("q", kw)
	st.addFact(Implies(Not(ok), Forall([]*Term{q}, Or(Not(it.start(q)), Not(e.mapDom(st, it.m, it.mt, q)), it.visited(q)))))
	n := *it
	vis := it.visited
	n.visited = func(q *Term) *Term { return Or(vis(q), And(ok, Eq(q, k))) }
	n.cur = k
	e.noteWrite(st, loc)
	o := e.getObj(st, loc.obj)
	st.setObj(loc.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: &n})
	v, _ := e.mapGet(st, it.m, it.mt, k)
	fs.fr.regs[x] = &VTuple{[]Val{ok, unpackKey(it.mt.Key(), k), v}}
	return one(fs)
}

// ---- channels ----

func (e *Exec) chanClosed(st *State, l *Loc) *Term {
	if l.obj != 0 {
		return e.getObj(st, l.obj).val.(*Term)
	}
	leaf := e.leafFor(st.leaves, l.root+"#closed", 0, 0)
	return leaf.at([]*Term{l.ref})
}

func (e *Exec) chanSend(st *State, fr *Frame, g *Term, ch *VPtr, ct *types.Chan, v Val) {
	st.events = append(st.events, Event{g: g, kind: "send", args: []Val{ch, v}, typs: []types.Type{ct, ct.Elem()}})
	e.afterEvent(st, fr)
}

// chanRecv: ok says whether something was received, for code that asks; nothing is received from a closed queue.
func (e *Exec) chanRecv(st *State, g, ok *Term, ch *VPtr, et types.Type) Val {
	if u, is := et.Underlying().(*types.Struct); !is || u.NumFields() > 0 {
		g = And(g, ok)
	}
	v := e.freshVal(et, "recv", nextRef)
	st.events = append(st.events, Event{g: g, kind: "recv", args: []Val{ch, v}, typs: []types.Type{nil, et}})
	return v
}

// neverSent: no code of the repository sends on channels of this type.
func (e *Exec) neverSent(ct *types.Chan) bool {
	if e.sentTypes == nil {
		e.sentTypes = map[string]bool{}
		for fn := range ssautil.AllFunctions(e.prog) {
			if fn.Pkg == nil || !e.repoPkgs[fn.Pkg.Pkg.Path()] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch y := in.(type) {
					case *ssa.Send:
						e.sentTypes[typeKey(y.Chan.Type().Underlying().(*types.Chan).Elem())] = true
					case *ssa.Select:
						for _, s := range y.States {
							if s.Dir == types.SendOnly {
								e.sentTypes[typeKey(s.Chan.Type().Underlying().(*types.Chan).Elem())] = true
							}
						}
					}
				}
			}
		}
	}
	return !e.sentTypes[typeKey(ct.Elem())]
}

type task struct {
	st   *State
	fr   *Frame
	fn   FnAlt
	args []Val
	// marks: what vTaskDoes has noted about the task and those it starts; own: about the task itself
	marks  map[string]bool
	own    map[string]bool
	parent *task
}

// looping: fn (or a function of the repository it calls) waits in a loop, so that it is a task of its own.
func (e *Exec) looping(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil || fn.Pkg != nil && !e.repoPkgs[fn.Pkg.Pkg.Path()] {
		return false
	}
	seen[fn] = true
	for _, body := range e.loopsOf(fn) {
		for b := range body {
			for _, in := range b.Instrs {
				if e.waits(in, map[*ssa.Function]bool{}) {
					return true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil && e.looping(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// runs: fn is the named function or calls it (starting it as a task does not count).
func (e *Exec) runs(fn *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	n := fnName(fn)
	if n == name || strings.HasSuffix(n, "."+name) {
		return true
	}
	if seen[fn] || fn.Blocks == nil || fn.Pkg != nil && !e.repoPkgs[fn.Pkg.Pkg.Path()] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Common().StaticCallee(); f != nil && e.runs(f, name, seen) {
					return true
				}
			}
		}
	}
	return false
}

// waits: the instruction (or a function of the repository it calls) waits for a channel or a datagram.
func (e *Exec) waits(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	switch x := in.(type) {
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		f := x.Common().StaticCallee()
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if strings.Contains(f.String(), ".ReadFrom") {
			return true
		}
		if f.Pkg != nil && !e.repoPkgs[f.Pkg.Pkg.Path()] {
			return false
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if e.waits(i, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (e *Exec) runQueued(c *callCtx) {
	for len(e.tasks) > 0 {
		t := e.tasks[0]
		e.tasks = e.tasks[1:]
		e.taskName = fnName(t.fn.fn)
		e.task = t
		e.taskDone = append(e.taskDone, t)
		e.loopInfo = append(e.loopInfo, "background task "+e.taskName)
		st := t.st
		st.events = []Event{{g: TRUE, kind: "loop"}}
		e.windowObj = objCtr
		e.iterStart = st.clone()
		sm := e.specMode
		e.specMode = 0
		outs := e.dispatch(FS{st, t.fr}, t.fn.fn, t.args, t.fn.binds, nil)
		for _, o := range outs {
			e.iterEnd(nil, o.st, -1)
		}
		e.specMode = sm
		e.taskName = ""
		e.task = nil
	}
}

// iterEnd runs the vIter specifications on the events of the window that ends here.
func (e *Exec) iterEnd(start, end *State, depth int) {
	if e.quiet > 0 || e.specMode > 0 {
		return
	}
	if start != nil {
		e.iterStart = start
	}
	for _, hk := range e.iterHk {
		e.runSpecStmt(end.clone(), hk.fr, hk.fn, []Val{I64(int64(depth))})
	}
}

func (e *Exec) selectOp(fs FS, x *ssa.Select) []FS {
	st := fs.st
	n := len(x.States)
	sel := Fresh("sel", 64)
	lo := BV(64, 0)
	if !x.Blocking {
		lo = BV(64, ^uint64(0))
	}
	st.addFact(And(SLe(lo, sel), SLt(sel, I64(int64(n)))))
	ok := Fresh("selok", 0)
	res := []Val{sel, ok}
	okAsked := TRUE
	if x.Referrers() != nil {
		for _, r := range *x.Referrers() {
			if ex, is := r.(*ssa.Extract); is && ex.Index == 1 {
				okAsked = ok
			}
		}
	}
	for i, s := range x.States {
		g := Eq(sel, I64(int64(i)))
		ch := e.get(fs, s.Chan).(*VPtr)
		// a nil channel is never ready
		st.addFact(Implies(g, Not(isNilPtr(ch))))
		if s.Dir == types.SendOnly {
			e.chanSend(st, fs.fr, g, ch, s.Chan.Type().Underlying().(*types.Chan), e.get(fs, s.Send))
			continue
		}
		if !x.Blocking {
			// a closed channel is ready, so the default is not taken; a channel nothing is sent on is only
			// ready if it is closed (sequential reading: other tasks do not close it in between)
			closed := FALSE
			for _, a := range ch.alts {
				if a.loc != nil {
					closed = Or(closed, And(a.g, Not(isNilPtr(ch)), e.chanClosed(st, a.loc)))
				}
			}
			st.addFact(Implies(Eq(sel, lo), Not(closed)))
			if e.neverSent(s.Chan.Type().Underlying().(*types.Chan)) {
				st.addFact(Implies(g, closed))
			}
		}
		res = append(res, e.chanRecv(st, g, okAsked, ch, s.Chan.Type().Underlying().(*types.Chan).Elem()))
	}
	fs.fr.regs[x] = &VTuple{res}
	return one(fs)
}

// ---- calls ----

func (e *Exec) callOperands(fs FS, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fv := e.get(fs, c.Value)
	for _, a := range c.Args {
		args = append(args, e.get(fs, a))
	}
	return fv, args
}

func (e *Exec) runDefers(fs FS) []FS {
	states := []FS{fs}
	for len(fs.fr.defers) > 0 {
		d := fs.fr.defers[len(fs.fr.defers)-1]
		var next []FS
		for _, s := range states {
			s.fr.defers = s.fr.defers[:len(s.fr.defers)-1]
			for _, o := range e.invoke(s, d.call, d.fv, d.args, nil) {
				f := FS{o.st, s.fr}
				if len(states) > 1 {
					f.fr = s.fr.clone()
				}
				next = append(next, f)
			}
		}
		states = next
		if len(states) == 0 {
			return nil
		}
		fs = states[0]
	}
	return states
}

func (e *Exec) call(fs FS, in ssa.CallInstruction, c *ssa.CallCommon, res ssa.Value) []FS {
	fv, args := e.callOperands(fs, c)
	os := e.invoke(fs, c, fv, args, in)
	var out []FS
	for i, o := range os {
		fr := fs.fr
		if i < len(os)-1 {
			fr = fs.fr.clone()
		}
		if res != nil {
			fr.regs[res] = o.ret
		}
		out = append(out, FS{o.st, fr})
	}
	return out
}

// invoke performs a call with evaluated operands.
func (e *Exec) invoke(fs FS, c *ssa.CallCommon, fv Val, args []Val, in ssa.CallInstruction) []Outcome {
	st, fr := fs.st, fs.fr
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fs, b.Name(), c, args)
	}
	if c.IsInvoke() {
		iv := fv.(*VIface)
		if !e.require(st, fr, "nil interface method call", Not(ifaceNil(iv))) {
			return nil
		}
		var outs []Outcome
		for _, a := range iv.alts {
			if a.dyn == nil && a.tag == nil {
				continue
			}
			s2 := st
			if len(iv.alts) > 1 {
				s2 = st.clone()
				if a.g.isFalse() {
					continue
				}
				if !a.g.isTrue() {
					known := false
					for _, x := range s2.tr {
						if x.t == a.g {
							known = true
						}
					}
					if !known && !e.feasible(s2, a.g) {
						continue
					}
					s2.addPC(a.g)
				}
			}
			if a.dyn != nil {
				fn := e.prog.LookupMethod(a.dyn, c.Method.Pkg(), c.Method.Name())
				if fn == nil {
					panic(unsupported("method " + c.Method.Name() + " on " + a.dyn.String()))
				}
				outs = append(outs, e.dispatch(FS{s2, fr}, fn, append([]Val{a.val}, args...), nil, in)...)
				continue
			}
			outs = append(outs, e.opaqueInvoke(FS{s2, fr}, a, c, args)...)
		}
		return e.mergeOutcomes(outs)
	}
	f, ok := fv.(*VFunc)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	f = e.decodeFn(f)
	if !e.require(st, fr, "nil function call", Not(isNilFunc(f))) {
		return nil
	}
	var outs []Outcome
	for _, a := range f.alts {
		if a.fn == nil && a.ref == nil {
			continue
		}
		s2 := st
		if len(f.alts) > 1 {
			if a.g.isFalse() {
				continue
			}
			s2 = st.clone()
			if !e.feasible(s2, a.g) {
				continue
			}
			s2.addPC(a.g)
		}
		if a.fn == nil {
			s2.events = append(s2.events, Event{g: TRUE, kind: "callback", args: append([]Val{&VFunc{alts: []FnAlt{{g: TRUE, ref: a.ref}}}}, args...)})
			e.afterEvent(s2, fr)
			outs = append(outs, Outcome{s2, e.freshResult(c.Signature())})
			continue
		}
		outs = append(outs, e.dispatch(FS{s2, fr}, a.fn, args, a.binds, in)...)
	}
	return e.mergeOutcomes(outs)
}

func (e *Exec) freshResult(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.freshVal(sig.Results().At(0).Type(), "ext", nextRef)
	}
	return e.freshVal(sig.Results(), "ext", nextRef)
}

// dispatch calls a known function: stub, intrinsic, library model, or its real body.
func (e *Exec) dispatch(fs FS, fn *ssa.Function, args []Val, binds []Val, in ssa.CallInstruction) []Outcome {
	st, fr := fs.st, fs.fr
	cc := &callCtx{st: st, fr: fr, fn: fn, args: args, instr: in, sig: fn.Signature, depth: fr.depth + 1}
	if e.isSpecFn(fn) {
		if m, ok := intrinsics[fn.Name()]; ok {
			outs, _ := m(e, cc)
			return outs
		}
		if strings.HasPrefix(fn.Name(), "vSnap") {
			return []Outcome{{st, tagVer(args[0], st.clone())}}
		}
		// spec helper: executed without panic obligations
		e.specMode++
		defer func() { e.specMode-- }()
		return e.callFn(st, fn, args, binds, fr.depth+1, true)
	}
	if e.isRepo(fn) {
		sn := shortFn(fn)
		if h, ok := e.stubByName[sn]; ok {
			return e.runStub(fs, h, args)
		}
		if h, ok := e.contracts[sn]; ok && e.specMode == 0 {
			r := e.freshResult(fn.Signature)
			var rs []Val
			if tu, ok := r.(*VTuple); ok {
				rs = tu.v
			} else if r != nil {
				rs = []Val{r}
			}
			all := append(append([]Val{}, args...), rs...)
			all = e.adaptArgs(st, sn, e.closureOf(h).fn.Signature, fn.Signature, all)
			st.addFact(e.evalBool(st, fr, h, all))
			e.event(st, sn, all...)
			return []Outcome{{st, r}}
		}
		if e.record[sn] && e.specMode == 0 {
			e.event(st, sn, args...)
			return []Outcome{{st, e.freshResult(fn.Signature)}}
		}
	}
	name := fn.String()
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && !e.isRepo(fn) {
		return []Outcome{{st, nil}}
	}
	if m, ok := libModels[name]; ok {
		if outs, handled := m(e, cc); handled {
			return outs
		}
	}
	if fn.Blocks != nil && (e.isRepo(fn) || inlineOK(fn)) {
		return e.callFn(st, fn, args, binds, fr.depth+1, fr.spec)
	}
	// synthetic wrappers (promoted methods, bound methods) have bodies but no package
	if fn.Blocks != nil && fn.Synthetic != "" && fn.Pkg == nil {
		return e.callFn(st, fn, args, binds, fr.depth+1, fr.spec)
	}
	if endsProcess(fn) {
		e.require(st, fr, "end of the process", FALSE)
		return nil
	}
	if mayWrite(fn) {
		panic(unsupported("call of " + name + ", which has no model and may write to memory"))
	}
	// external function: no effect on repository state, unconstrained result
	if !pureOK[pkgOf(fn)] {
		panic(unsupported("call of " + name + ", which has no model"))
	}
	e.note("external call " + name + ": arbitrary result, no effect on repository state")
	return []Outcome{{st, e.freshResult(fn.Signature)}}
}

// adaptArgs arranges the receiver, arguments and results of a call as the contract lists them; they may have been
// reordered, passed by pointer or value, added, or (errors) removed since the contract was written.
func (e *Exec) adaptArgs(st *State, name string, want, sig *types.Signature, all []Val) []Val {
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	if len(ts) != len(all) {
		panic(unsupported("contract of " + name))
	}
	used := make([]bool, len(all))
	var out []Val
	for i := 0; i < want.Params().Len(); i++ {
		w := want.Params().At(i).Type()
		var v Val
		for j, t := range ts {
			if used[j] {
				continue
			}
			if types.Identical(t, w) {
				v = all[j]
			} else if p, ok := t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), w) {
				v = e.loadPtr(st, all[j].(*VPtr))
			} else if p, ok := w.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
				v = ptrTo(e.alloc(st, rootT(t), t, all[j]))
			} else {
				continue
			}
			used[j] = true
			break
		}
		if v == nil {
			if n, ok := w.(*types.Named); !ok || n.Obj().Pkg() != nil || n.Obj().Name() != "error" {
				panic(unsupported("contract of " + name + ": no " + w.String() + " among its parameters"))
			}
			v = nilIface()
		}
		out = append(out, v)
	}
	return out
}

// ---- builtins ----

func (e *Exec) builtin(fs FS, name string, c *ssa.CallCommon, args []Val) []Outcome {
	st, fr := fs.st, fs.fr
	ret := func(v Val) []Outcome { return []Outcome{{st, v}} }
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *VSlice:
			return ret(a.len)
		case *VString:
			return ret(a.len)
		case *VArr:
			return ret(a.n)
		case *VPtr:
			switch u := c.Args[0].Type().Underlying().(type) {
			case *types.Pointer:
				return ret(I64(u.Elem().Underlying().(*types.Array).Len()))
			case *types.Map:
				e.note("len(map) unconstrained non-negative")
				return ret(FreshUB("maplen", 64, lenUB))
			}
			return ret(FreshUB("chanlen", 64, lenUB))
		}
	case "cap":
		switch a := args[0].(type) {
		case *VSlice:
			return ret(a.cap)
		case *VArr:
			return ret(a.n)
		case *VPtr:
			if u, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return ret(I64(u.Elem().Underlying().(*types.Array).Len()))
			}
			return ret(FreshUB("chancap", 64, lenUB))
		}
	case "append":
		s := args[0].(*VSlice)
		elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return ret(e.appendOp(st, s, args[1], elem))
	case "copy":
		dst := args[0].(*VSlice)
		n, at := e.sourceOf(st, args[1])
		k := Ite(ULt(dst.len, n), dst.len, n)
		for _, a := range dst.base.alts {
			if a.loc != nil {
				g := a.g
				if len(dst.base.alts) == 1 {
					g = TRUE
				}
				e.storeRange(st, g, a.loc, dst.off, k, at)
			}
		}
		return ret(k)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*VPtr)
		k := keyTerm(args[1])
		for _, a := range m.alts {
			if a.loc != nil {
				g := a.g
				if a.loc.obj == 0 {
					g = And(g, Not(Eq(a.loc.ref, BV(64, 0))))
				}
				e.mapSet(st, g, a.loc, mt, k, nil)
				if ks, ok := args[1].(*VString); ok {
					e.strMapSet(st, g, a.loc, ks, nil)
				}
			}
		}
		return ret(nil)
	case "close":
		ch := args[0].(*VPtr)
		if !e.require(st, fr, "close of nil channel", Not(isNilPtr(ch))) {
			return nil
		}
		for _, a := range ch.alts {
			if a.loc == nil {
				continue
			}
			if !e.require(st, fr, "close of closed channel", Or(Not(a.g), Not(e.chanClosed(st, a.loc)))) {
				return nil
			}
			e.noteWrite(st, a.loc)
			if a.loc.obj != 0 {
				o := e.getObj(st, a.loc.obj)
				st.setObj(a.loc.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: Or(a.g, o.val.(*Term))})
				continue
			}
			k := a.loc.root + "#closed"
			old := e.leafFor(st.leaves, k, 0, 0)
			a := a
			st.setLeaf(k, &Leaf{w: 0, memo: map[string]*Term{}, sel: func(x []*Term) *Term {
				return Or(And(a.g, Eq(x[0], a.loc.ref)), old.at(x))
			}})
		}
		st.events = append(st.events, Event{g: TRUE, kind: "close", args: []Val{ch}})
		return ret(nil)
	case "print", "println":
		return ret(nil)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := ULt(t, r)
			if isSigned(c.Args[0].Type()) {
				lt = SLt(t, r)
			}
			if name == "max" {
				lt = Not(lt)
			}
			r = Ite(lt, t, r)
		}
		return ret(r)
	case "clear":
		if m, ok := args[0].(*VPtr); ok {
			mt := c.Args[0].Type().Underlying().(*types.Map)
			for _, a := range m.alts {
				if a.loc != nil && a.loc.obj != 0 {
					o := e.getObj(st, a.loc.obj)
					e.noteWrite(st, a.loc)
					st.setObj(a.loc.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: merge(a.g, emptyMap(mt), o.val)})
				} else if a.loc != nil {
					panic(unsupported("clear of symbolic map"))
				}
			}
			return ret(nil)
		}
		s := args[0].(*VSlice)
		z := zeroVal(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		for _, a := range s.base.alts {
			if a.loc != nil {
				e.storeRange(st, a.g, a.loc, s.off, s.len, func(*Term) Val { return z })
			}
		}
		return ret(nil)
	case "recover":
		return ret(nilIface())
	case "ssa:wrapnilchk":
		p := args[0].(*VPtr)
		if !e.require(st, fr, "nil dereference", Not(isNilPtr(p))) {
			return nil
		}
		return ret(p)
	}
	panic(unsupported(fmt.Sprintf("builtin %s of %T in %s", name, args[0], fr.fn)))
}

// sourceOf gives length and frozen content of a slice or string.
func (e *Exec) sourceOf(st *State, v Val) (*Term, func(i *Term) Val) {
	switch s := v.(type) {
	case *VString:
		return s.len, func(i *Term) Val { return s.at(i) }
	case *VSlice:
		frozen := st.clone()
		return s.len, func(i *Term) Val { return e.sliceAtOr(frozen, s, i) }
	}
	panic(unsupported(fmt.Sprintf("copy source %T", v)))
}

func (e *Exec) sliceAtOr(st *State, s *VSlice, i *Term) Val {
	r := e.sliceAt(st, s, i)
	return r
}

func (e *Exec) appendOp(st *State, s *VSlice, more Val, elem types.Type) Val {
	n, at := e.sourceOf(st, more)
	if n.isConst() && n.val == 0 {
		return s
	}
	newLen := Add(s.len, n)
	fits := ULe(newLen, s.cap)
	if isNilPtr(s.base).isTrue() {
		fits = FALSE
	}
	if !fits.isConst() {
		if e.valid(st, fits, 2*time.Second) {
			fits = TRUE
		}
	}
	frozen := st.clone()
	var res *VSlice
	if !fits.isTrue() {
		x := FreshUB("xcap", 64, lenUB)
		cp := Add(newLen, x)
		s0 := s
		nw := e.newSlice(st, elem, newLen, cp, nil)
		l := nw.base.alts[0].loc
		o := st.objs[l.obj]
		z := zeroVal(elem)
		arr := newArr(elem, cp, func(j *Term) Val {
			d := Sub(j, s0.len)
			inOld := ULt(j, s0.len)
			inNew := And(Not(inOld), ULt(d, n))
			if inOld.isTrue() {
				return e.sliceAt(frozen, s0, j)
			}
			if inNew.isTrue() {
				return at(d)
			}
			var v Val = z
			if !inNew.isFalse() {
				v = merge(inNew, at(d), v)
			}
			if !inOld.isFalse() {
				if ov := e.sliceAt(frozen, s0, j); ov != nil {
					v = merge(inOld, ov, v)
				}
			}
			return v
		})
		st.setObj(l.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: arr})
		res = nw
	}
	if !fits.isFalse() {
		for _, a := range s.base.alts {
			if a.loc != nil {
				g := And(a.g, fits)
				if g.isFalse() {
					continue
				}
				e.storeRange(st, g, a.loc, Add(s.off, s.len), n, at)
			}
		}
		in := &VSlice{base: s.base, off: s.off, len: newLen, cap: s.cap}
		if res == nil {
			return in
		}
		return merge(fits, in, res)
	}
	return res
}

// shortFn names a repository function as in contracts: "Controller.updateNode", "ArtPollReplyFromConfig".
func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	for _, p := range []string{"github.com/jsimonetti/go-artnet/packet/code.", "github.com/jsimonetti/go-artnet/packet.", "github.com/jsimonetti/go-artnet/version.", "github.com/jsimonetti/go-artnet."} {
		s = strings.ReplaceAll(s, p, "")
	}
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	return s
}
