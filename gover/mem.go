package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Obj is a concrete allocation; its value is a host-level tree.
type Obj struct {
	id   int
	root string
	rt   types.Type
	val  Val
}

// Leaf is one field map of the symbolic heap: args = ref, path indices..., in-type indices...
type Leaf struct {
	w    int
	sel  func(args []*Term) *Term
	memo map[string]*Term
}

func (l *Leaf) at(args []*Term) *Term {
	k := argKey(args)
	if t, ok := l.memo[k]; ok {
		return t
	}
	t := l.sel(args)
	l.memo[k] = t
	return t
}

type Event struct {
	g    *Term
	kind string // send, go, call, close, lock, unlock, recv
	name string
	args []Val
	typs []types.Type
	task *task // the background task a go event starts
}

// TE is one entry of the trail: a branch decision or an assumed fact.
type TE struct {
	t    *Term
	fact bool
}

type State struct {
	tr     []TE
	objs   map[int]*Obj
	leaves map[string]*Leaf
	events []Event
	now    *Term
	cuts   int // number of loop cuts passed (keeps heaps of different epochs apart)
	hist   string
	rd     map[string]bool // locks held for reading only
	stale  map[int]bool    // quantified facts about parts of the heap overwritten since (used last in proofs)
}

func (s *State) clone() *State {
	n := *s
	n.tr = s.tr[:len(s.tr):len(s.tr)]
	n.events = s.events[:len(s.events):len(s.events)]
	return &n
}

// setRd notes whether a lock is held for reading only.
func (s *State) setRd(k string, on bool) {
	if s.rd[k] == on {
		return
	}
	n := map[string]bool{}
	for x := range s.rd {
		n[x] = true
	}
	if on {
		n[k] = true
	} else {
		delete(n, k)
	}
	s.rd = n
}

// lockKey identifies a lock.
func lockKey(p *VPtr) string {
	var sb strings.Builder
	for _, a := range p.alts {
		if a.loc == nil {
			continue
		}
		k, args := pathKey(a.loc)
		sb.WriteString(k)
		for _, t := range args {
			sb.WriteString(" " + t.String())
		}
		sb.WriteString(";")
	}
	return sb.String()
}

// objs and leaves are copy-on-write: a map, once shared with a clone or a lazy value, never changes
// (except that untouched initial leaves may be materialised in it).
func (s *State) setObj(id int, o *Obj) {
	n := make(map[int]*Obj, len(s.objs)+1)
	for k, v := range s.objs {
		n[k] = v
	}
	n[id] = o
	s.objs = n
}
func (s *State) setLeaf(k string, l *Leaf) {
	n := make(map[string]*Leaf, len(s.leaves)+1)
	for k, v := range s.leaves {
		n[k] = v
	}
	n[k] = l
	s.leaves = n
}

func (s *State) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.addPC(a)
		}
		return
	}
	s.tr = append(s.tr, TE{t, false})
}
func (s *State) terms() []*Term {
	r := make([]*Term, len(s.tr))
	for i, x := range s.tr {
		r[i] = x.t
	}
	return r
}
func (s *State) addFact(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.addFact(a)
		}
		return
	}
	s.tr = append(s.tr, TE{t, true})
}

var objCtr int
var aliasReg = map[uint64]*Loc{}
var aliasIdx = map[string]uint64{}

const aliasBase = uint64(1) << 56

// concBase: concrete refs lie at or above inputBase; each loop cut bumps the next id far up so that
// references havocked at the cut have a strict upper bound below later allocations.
var nextRef = inputBase

var objByRef = map[uint64]int{}
var escaped = map[int]bool{}
var objRef = map[int]*Term{}

func (e *Exec) alloc(st *State, root string, rt types.Type, v Val) *Loc {
	objCtr++
	id := objCtr
	ref := BV(64, nextRef)
	objByRef[nextRef] = id
	objRef[id] = ref
	nextRef++
	for _, w := range e.wlogs {
		w.allocs[root] = rt
	}
	st.setObj(id, &Obj{id: id, root: root, rt: rt, val: v})
	return &Loc{obj: id, root: root, rt: rt, ref: ref}
}

func rootT(t types.Type) string { return "T:" + typeKey(t) }
func rootA(t types.Type) string { return "A:" + typeKey(t) }
func rootM(t *types.Map) string { return "M:" + typeKey(t.Key()) + ">" + typeKey(t.Elem()) }
func rootC(t *types.Chan) string {
	return "C:" + typeKey(t.Elem())
}

// encodePtr turns a pointer value into a reference term so it can be stored in the symbolic heap.
func encodePtr(p *VPtr) *Term {
	r := BV(64, 0)
	for _, a := range p.alts {
		var t *Term
		switch {
		case a.loc == nil:
			t = BV(64, 0)
		case len(a.loc.path) == 0 && a.loc.obj == 0:
			t = a.loc.ref
		case len(a.loc.path) == 0:
			escaped[a.loc.obj] = true
			t = a.loc.ref
		default:
			if a.loc.obj != 0 {
				escaped[a.loc.obj] = true
			}
			k := a.loc.String()
			id, ok := aliasIdx[k]
			if !ok {
				id = aliasBase + uint64(len(aliasIdx))
				aliasIdx[k] = id
				l := *a.loc
				aliasReg[id] = &l
			}
			t = BV(64, id)
		}
		r = Ite(a.g, t, r)
	}
	return r
}

func markEscaped(v Val) {
	switch x := v.(type) {
	case *VPtr:
		for _, a := range x.alts {
			if a.loc != nil && a.loc.obj != 0 {
				escaped[a.loc.obj] = true
			}
		}
	case *VSlice:
		markEscaped(x.base)
	case *VStruct:
		for _, f := range x.f {
			markEscaped(f)
		}
	}
}

// decodePtr splits a reference term into alternatives.
func decodePtr(ref *Term, root string, rt types.Type, ver *State) *VPtr {
	var alts []PtrAlt
	var symG, symR *Term
	n := 0
	var rec func(g, t *Term)
	rec = func(g, t *Term) {
		if g.isFalse() {
			return
		}
		if t.op == OIte && n < 200 {
			n++
			rec(And(g, t.args[0]), t.args[1])
			rec(And(g, Not(t.args[0])), t.args[2])
			return
		}
		if t.isConst() {
			var l *Loc
			switch {
			case t.val == 0:
			case t.val >= aliasBase:
				l = aliasReg[t.val]
				if ver != nil {
					c := *l
					c.ver = ver
					l = &c
				}
			default:
				if id, ok := objByRef[t.val]; ok {
					l = &Loc{obj: id, root: root, rt: rt, ref: t, ver: ver}
				} else {
					l = &Loc{root: root, rt: rt, ref: t, ver: ver}
				}
			}
			for i := range alts {
				if sameLoc(alts[i].loc, l) {
					alts[i].g = Or(alts[i].g, g)
					return
				}
			}
			alts = append(alts, PtrAlt{g, l})
			return
		}
		if symG == nil {
			symG, symR = g, t
			return
		}
		symR = Ite(g, t, symR)
		symG = Or(symG, g)
	}
	rec(TRUE, ref)
	if symG != nil {
		l := &Loc{root: root, rt: rt, ref: symR, ver: ver}
		if len(alts) == 0 {
			return ptrTo(l)
		}
		alts = append(alts, PtrAlt{symG, l})
	}
	if len(alts) == 1 {
		alts[0].g = TRUE
	}
	return &VPtr{alts: alts}
}

// builder reads a leaf: suffix names it, w its width, ub its bound, ex extra indices.
type builder func(suffix string, w int, ub uint64, ex []*Term) *Term

func (e *Exec) symVal(t types.Type, suffix string, ex []*Term, b builder, ver *State) Val {
	if isTime(t) {
		return b(suffix, 64, timeUB, ex)
	}
	if isMutex(t) {
		return b(suffix+"#held", 0, 0, ex)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			ln := b(suffix+"#len", 64, lenUB, ex)
			memo := map[int]*Term{}
			return &VString{len: ln, at: func(i *Term) *Term {
				if r, ok := memo[i.id]; ok {
					return r
				}
				r := b(suffix+"#ch", 8, 0, append(append([]*Term{}, ex...), i))
				memo[i.id] = r
				return r
			}}
		}
		w := basicWidth(u)
		if w < 0 {
			return VOpaque{"float"}
		}
		return b(suffix, w, typeUB(w), ex)
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.symVal(u.Field(i).Type(), suffix+"."+fieldName(u, i), ex, b, ver)
		}
		return &VStruct{typ: u, f: f}
	case *types.Array:
		return newArr(u.Elem(), I64(u.Len()), func(i *Term) Val {
			return e.symVal(u.Elem(), suffix+"[]", append(append([]*Term{}, ex...), i), b, ver)
		})
	case *types.Pointer:
		return decodePtr(b(suffix+"#ptr", 64, inputBase, ex), rootT(u.Elem()), u.Elem(), ver)
	case *types.Map:
		return decodePtr(b(suffix+"#map", 64, inputBase, ex), rootM(u), u, ver)
	case *types.Chan:
		return decodePtr(b(suffix+"#chan", 64, inputBase, ex), rootC(u), u, ver)
	case *types.Slice:
		base := b(suffix+"#base", 64, inputBase, ex)
		isNil := Eq(base, BV(64, 0))
		z := BV(64, 0)
		ln := Ite(isNil, z, b(suffix+"#len", 64, lenUB, ex))
		xt := Ite(isNil, z, b(suffix+"#xcap", 64, lenUB, ex))
		off := Ite(isNil, z, b(suffix+"#off", 64, lenUB, ex))
		return &VSlice{base: decodePtr(base, rootA(u.Elem()), u.Elem(), ver), off: off, len: ln, cap: Add(ln, xt)}
	case *types.Interface:
		tag := b(suffix+"#tag", 16, 0, ex)
		ref := b(suffix+"#iref", 64, inputBase, ex)
		impls := e.implementers(t)
		if len(impls) == 0 {
			return &VIface{alts: []IfAlt{{g: TRUE, tag: tag, ref: ref}}}
		}
		var alts []IfAlt
		rest := TRUE
		for i, it := range impls {
			g := Eq(tag, BV(16, uint64(i+1)))
			alts = append(alts, IfAlt{g: g, dyn: it, val: decodePtr(Ite(Eq(ref, BV(64, 0)), BV(64, 1), ref), rootT(it.(*types.Pointer).Elem()), it.(*types.Pointer).Elem(), ver)})
			rest = And(rest, Not(g))
		}
		alts = append(alts, IfAlt{g: rest})
		return &VIface{alts: alts}
	case *types.Signature:
		return &VFunc{alts: []FnAlt{{g: TRUE, ref: b(suffix+"#fn", 64, inputBase, ex)}}}
	}
	panic(unsupported("symbolic value of " + t.String()))
}

func fieldName(s *types.Struct, i int) string {
	n := s.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

// freshVal makes an unconstrained value of type t.
func (e *Exec) freshVal(t types.Type, prefix string, refUB uint64) Val {
	freshCtr++
	pre := fmt.Sprintf("%s!%d", prefix, freshCtr)
	if t == nil {
		return VOpaque{"nil type"}
	}
	if tt, ok := t.(*types.Tuple); ok {
		v := make([]Val, tt.Len())
		for i := range v {
			v[i] = e.freshVal(tt.At(i).Type(), fmt.Sprintf("%s_%d", prefix, i), refUB)
		}
		return &VTuple{v}
	}
	return e.symVal(t, "", nil, func(suffix string, w int, ub uint64, ex []*Term) *Term {
		if ub == inputBase {
			ub = refUB
		}
		n := pre + suffix
		if strings.HasSuffix(suffix, "#held") {
			return FALSE
		}
		if strings.HasSuffix(suffix, "#off") && refUB == inputBase {
			return BV(64, 0)
		}
		if ub != 0 {
			symUB[n] = ub
		}
		return App(n, w, ex...)
	}, nil)
}

// leafFor returns the current leaf, creating the initial uninterpreted one.
func (e *Exec) leafFor(leaves map[string]*Leaf, key string, w int, ub uint64) *Leaf {
	if l, ok := leaves[key]; ok {
		return l
	}
	n := "H0$" + key
	var l *Leaf
	switch {
	case strings.HasSuffix(key, "#held"):
		l = &Leaf{w: w, sel: func([]*Term) *Term { return FALSE }, memo: map[string]*Term{}}
	case strings.HasSuffix(key, "#off"):
		l = &Leaf{w: w, sel: func([]*Term) *Term { return BV(64, 0) }, memo: map[string]*Term{}}
	default:
		if ub != 0 {
			symUB[n] = ub
		}
		l = &Leaf{w: w, sel: func(a []*Term) *Term { return App(n, w, a...) }, memo: map[string]*Term{}}
	}
	leaves[key] = l
	return l
}

func pathKey(l *Loc) (string, []*Term) {
	k := l.root
	args := []*Term{l.ref}
	t := l.rt
	if strings.HasPrefix(l.root, "A:") {
		// first step is the index
		for i, s := range l.path {
			if i == 0 {
				k += "[]"
				args = append(args, s.idx)
				continue
			}
			k, t = stepKey(k, t, s, &args)
		}
		return k, args
	}
	for _, s := range l.path {
		k, t = stepKey(k, t, s, &args)
	}
	return k, args
}

func stepKey(k string, t types.Type, s Step, args *[]*Term) (string, types.Type) {
	if s.idx != nil {
		*args = append(*args, s.idx)
		return k + "[]", t.Underlying().(*types.Array).Elem()
	}
	st := t.Underlying().(*types.Struct)
	return k + "." + fieldName(st, s.field), st.Field(s.field).Type()
}

// locType is the type of the memory cell at l.
func locType(l *Loc) types.Type {
	t := l.rt
	for i, s := range l.path {
		if i == 0 && strings.HasPrefix(l.root, "A:") {
			continue
		}
		if s.idx != nil {
			t = t.Underlying().(*types.Array).Elem()
		} else {
			t = t.Underlying().(*types.Struct).Field(s.field).Type()
		}
	}
	return t
}

func getPath(v Val, path []Step) Val {
	for _, s := range path {
		if s.idx != nil {
			v = v.(*VArr).at(s.idx)
		} else {
			v = v.(*VStruct).f[s.field]
		}
	}
	return v
}

func setPath(v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		a := v.(*VArr)
		if len(path) == 1 {
			return a.set(s.idx, nv)
		}
		return a.set(s.idx, setPath(a.at(s.idx), path[1:], nv))
	}
	x := v.(*VStruct)
	f := append([]Val{}, x.f...)
	f[s.field] = setPath(f[s.field], path[1:], nv)
	return &VStruct{typ: x.typ, f: f}
}

// tagVer marks every pointer inside v as belonging to snapshot ver.
func tagVer(v Val, ver *State) Val {
	switch x := v.(type) {
	case *VPtr:
		n := &VPtr{}
		for _, a := range x.alts {
			if a.loc != nil {
				c := *a.loc
				c.ver = ver
				a.loc = &c
			}
			n.alts = append(n.alts, a)
		}
		return n
	case *VSlice:
		c := *x
		c.base = tagVer(x.base, ver).(*VPtr)
		return &c
	case *VStruct:
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = tagVer(x.f[i], ver)
		}
		return &VStruct{typ: x.typ, f: f}
	case *VArr:
		if isScalarT(x.elem) {
			return x
		}
		return newArr(x.elem, x.n, func(i *Term) Val { return tagVer(x.at(i), ver) })
	case *VIface:
		n := &VIface{}
		for _, a := range x.alts {
			if a.val != nil {
				a.val = tagVer(a.val, ver)
			}
			n.alts = append(n.alts, a)
		}
		return n
	}
	return v
}

func (e *Exec) load(st *State, l *Loc) Val {
	if l.ver != nil {
		nl := *l
		nl.ver = nil
		return tagVer(e.load(l.ver, &nl), l.ver)
	}
	if l.obj != 0 {
		o := e.getObj(st, l.obj)
		if o == nil {
			panic(unsupported("load from unknown object " + l.String()))
		}
		e.noteRead(st, l)
		return getPath(o.val, l.path)
	}
	if l.ref.isConst() {
		p := decodePtr(l.ref, l.root, l.rt, nil)
		if a := p.alts[0].loc; a != nil && (a.obj != 0 || len(a.path) > 0) {
			n := *a
			n.path = append(append([]Step{}, a.path...), l.path...)
			return e.load(st, &n)
		}
	}
	e.noteRead(st, l)
	key, args := pathKey(l)
	t := locType(l)
	var v Val
	if strings.HasPrefix(l.root, "A:") && len(l.path) == 0 {
		v = newArr(l.rt, BV(64, lenUB), func(i *Term) Val {
			return e.symVal(l.rt, "[]", []*Term{i}, e.heapBuilder(st, key, args), nil)
		})
	} else {
		v = e.symVal(t, "", nil, e.heapBuilder(st, key, args), nil)
	}
	for _, id := range e.escapedOf(st, l) {
		o := st.objs[id]
		c := Eq(l.ref, objRef[id])
		if c.isFalse() {
			continue
		}
		v = merge(c, getPath(o.val, l.path), v)
	}
	return v
}

func (e *Exec) heapBuilder(st *State, key string, args []*Term) builder {
	frozen := st.leaves
	return func(suffix string, w int, ub uint64, ex []*Term) *Term {
		l := e.leafFor(frozen, key+suffix, w, ub)
		return l.at(append(append([]*Term{}, args...), ex...))
	}
}

func (e *Exec) escapedOf(st *State, l *Loc) []int {
	if l.ref.ub != 0 && l.ref.ub <= inputBase {
		return nil
	}
	var ids []int
	for id := range st.objs {
		if escaped[id] && st.objs[id].root == l.root {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	return ids
}

func (e *Exec) store(st *State, l *Loc, v Val) { e.storeIf(st, TRUE, l, v) }

func (e *Exec) storeIf(st *State, g *Term, l *Loc, v Val) {
	if l.ver != nil {
		panic(unsupported("store to snapshot"))
	}
	if l.obj != 0 {
		o := e.getObj(st, l.obj)
		if o == nil {
			panic(unsupported("store to unknown object"))
		}
		e.noteWrite(st, l)
		if escaped[l.obj] {
			markEscaped(v)
		}
		nv := setPath(o.val, l.path, merge(g, v, nilSafe(g, func() Val { return getPath(o.val, l.path) })))
		st.setObj(l.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: nv})
		return
	}
	if l.ref.isConst() {
		p := decodePtr(l.ref, l.root, l.rt, nil)
		if a := p.alts[0].loc; a != nil && (a.obj != 0 || len(a.path) > 0) {
			n := *a
			n.path = append(append([]Step{}, a.path...), l.path...)
			e.storeIf(st, g, &n, v)
			return
		}
	}
	e.noteWrite(st, l)
	for _, id := range e.escapedOf(st, l) {
		o := st.objs[id]
		c := And(g, Eq(l.ref, objRef[id]))
		if c.isFalse() {
			continue
		}
		old := getPath(o.val, l.path)
		e.noteWrite(st, &Loc{obj: id, root: o.root, rt: o.rt, ref: objRef[id]})
		st.setObj(id, &Obj{id: o.id, root: o.root, rt: o.rt, val: setPath(o.val, l.path, merge(c, v, old))})
	}
	key, args := pathKey(l)
	e.storeLeaves(st, g, key, args, locType(l), func(ex []*Term) Val { return v }, 0)
}

func nilSafe(g *Term, f func() Val) Val {
	if g.isTrue() {
		return nil
	}
	return f()
}

// storeLeaves updates all leaves of type t at key; nIn counts in-type array indices.
func (e *Exec) storeLeaves(st *State, g *Term, key string, args []*Term, t types.Type, val func(ex []*Term) Val, nIn int) {
	upd := func(suffix string, w int, ub uint64, f func(v Val, ex []*Term) *Term) {
		k := key + suffix
		old := e.leafFor(st.leaves, k, w, ub)
		na := len(args)
		st.setLeaf(k, &Leaf{w: w, memo: map[string]*Term{}, sel: func(a []*Term) *Term {
			c := g
			for i := range args {
				c = And(c, Eq(a[i], args[i]))
				if c.isFalse() {
					return old.at(a)
				}
			}
			nv := f(val(a[na:na+nIn]), a[na+nIn:])
			if c.isTrue() {
				return nv
			}
			return Ite(c, nv, old.at(a))
		}})
	}
	if isTime(t) {
		upd("", 64, timeUB, func(v Val, _ []*Term) *Term { return v.(*Term) })
		return
	}
	if isMutex(t) {
		upd("#held", 0, 0, func(v Val, _ []*Term) *Term { return v.(*Term) })
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			upd("#len", 64, lenUB, func(v Val, _ []*Term) *Term { return v.(*VString).len })
			upd("#ch", 8, 0, func(v Val, ex []*Term) *Term { return v.(*VString).at(ex[0]) })
			return
		}
		w := basicWidth(u)
		if w < 0 {
			return
		}
		upd("", w, typeUB(w), func(v Val, _ []*Term) *Term { return v.(*Term) })
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			i := i
			e.storeLeaves(st, g, key+"."+fieldName(u, i), args, u.Field(i).Type(), func(ex []*Term) Val { return val(ex).(*VStruct).f[i] }, nIn)
		}
	case *types.Array:
		e.storeLeaves(st, g, key+"[]", args, u.Elem(), func(ex []*Term) Val {
			return val(ex[:len(ex)-1]).(*VArr).at(ex[len(ex)-1])
		}, nIn+1)
	case *types.Pointer:
		markNow(val, nIn)
		upd("#ptr", 64, inputBase, func(v Val, _ []*Term) *Term { return encodePtr(v.(*VPtr)) })
	case *types.Map:
		markNow(val, nIn)
		upd("#map", 64, inputBase, func(v Val, _ []*Term) *Term { return encodePtr(v.(*VPtr)) })
	case *types.Chan:
		markNow(val, nIn)
		upd("#chan", 64, inputBase, func(v Val, _ []*Term) *Term { return encodePtr(v.(*VPtr)) })
	case *types.Slice:
		markNow(val, nIn)
		upd("#base", 64, inputBase, func(v Val, _ []*Term) *Term { return encodePtr(v.(*VSlice).base) })
		upd("#off", 64, lenUB, func(v Val, _ []*Term) *Term { return v.(*VSlice).off })
		upd("#len", 64, lenUB, func(v Val, _ []*Term) *Term { return v.(*VSlice).len })
		upd("#xcap", 64, lenUB, func(v Val, _ []*Term) *Term { s := v.(*VSlice); return Sub(s.cap, s.len) })
	case *types.Interface:
		upd("#tag", 16, 0, func(v Val, _ []*Term) *Term {
			r := BV(16, 0)
			for _, a := range v.(*VIface).alts {
				switch {
				case a.tag != nil:
					r = Ite(a.g, a.tag, r)
				case a.dyn != nil:
					r = Ite(a.g, BV(16, e.dynTag(t, a.dyn)), r)
				}
			}
			return r
		})
		upd("#iref", 64, inputBase, func(v Val, _ []*Term) *Term {
			r := BV(64, 0)
			for _, a := range v.(*VIface).alts {
				switch {
				case a.tag != nil:
					r = Ite(a.g, a.ref, r)
				case a.dyn != nil:
					if p, ok := a.val.(*VPtr); ok {
						r = Ite(a.g, encodePtr(p), r)
					} else {
						r = Ite(a.g, Fresh("ifv", 64), r)
					}
				}
			}
			return r
		})
	case *types.Signature:
		upd("#fn", 64, inputBase, func(v Val, _ []*Term) *Term {
			r := BV(64, 0)
			for _, a := range v.(*VFunc).alts {
				switch {
				case a.ref != nil:
					r = Ite(a.g, a.ref, r)
				case a.fn != nil:
					r = Ite(a.g, e.fnRef(a), r)
				}
			}
			return r
		})
	default:
		panic(unsupported("store of " + t.String()))
	}
}

func markNow(val func(ex []*Term) Val, nIn int) {
	if nIn == 0 {
		markEscaped(val(nil))
	}
}

// dynTag numbers dynamic types; implementers of closed interfaces use their position.
func (e *Exec) dynTag(it, dyn types.Type) uint64 {
	for i, t := range e.implementers(it) {
		if types.Identical(t, dyn) {
			return uint64(i + 1)
		}
	}
	k := typeKey(dyn)
	if n, ok := e.dynTags[k]; ok {
		return n
	}
	n := uint64(1000 + len(e.dynTags))
	e.dynTags[k] = n
	return n
}

func (e *Exec) fnRef(a FnAlt) *Term {
	k := a.fn.String()
	if len(a.binds) > 0 {
		k += fmt.Sprintf("%p", a.binds)
	}
	if n, ok := e.fnRefs[k]; ok {
		return BV(64, n)
	}
	n := aliasBase + (1 << 50) + uint64(len(e.fnRefs))
	e.fnRefs[k] = n
	e.fnByRef[n] = a
	return BV(64, n)
}

// decodeFn resolves constant references of stored functions.
func (e *Exec) decodeFn(f *VFunc) *VFunc {
	var out []FnAlt
	var rec func(g, t *Term)
	rec = func(g, t *Term) {
		if g.isFalse() {
			return
		}
		if t.op == OIte {
			rec(And(g, t.args[0]), t.args[1])
			rec(And(g, Not(t.args[0])), t.args[2])
			return
		}
		if t.isConst() {
			if t.val == 0 {
				out = append(out, FnAlt{g: g})
				return
			}
			if a, ok := e.fnByRef[t.val]; ok {
				a.g = g
				out = append(out, a)
				return
			}
		}
		out = append(out, FnAlt{g: g, ref: t})
	}
	for _, a := range f.alts {
		if a.ref == nil {
			out = append(out, a)
			continue
		}
		rec(a.g, a.ref)
	}
	return &VFunc{alts: out}
}

// ---- maps ----

// keyTerm packs a map key into one bit-vector (or reports failure).
func keyTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return B2BV(x, 8)
		}
		return x
	case *VStruct:
		var r *Term
		for _, f := range x.f {
			t := keyTerm(f)
			if t == nil {
				return nil
			}
			if r == nil {
				r = t
			} else {
				r = Concat(r, t)
			}
		}
		return r
	case *VPtr:
		return encodePtr(x)
	}
	return nil
}

func keyWidth(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := basicWidth(u)
		if w == 0 {
			return 8
		}
		return w
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			w := keyWidth(u.Field(i).Type())
			if w < 0 {
				return -1
			}
			n += w
		}
		if n > 64 {
			return -1
		}
		return n
	case *types.Pointer:
		return 64
	}
	return -1
}

func unpackKey(t types.Type, k *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if basicWidth(u) == 0 {
			return Not(Eq(k, BV(8, 0)))
		}
		return k
	case *types.Struct:
		f := make([]Val, u.NumFields())
		hi := k.w
		for i := range f {
			w := keyWidth(u.Field(i).Type())
			f[i] = unpackKey(u.Field(i).Type(), Extract(k, hi-1, hi-w))
			hi -= w
		}
		return &VStruct{typ: u, f: f}
	case *types.Pointer:
		return decodePtr(k, rootT(u.Elem()), u.Elem(), nil)
	}
	panic(unsupported("map key " + t.String()))
}

func emptyMap(mt *types.Map) *MapVal {
	z := zeroVal(mt.Elem())
	m := &MapVal{kt: mt.Key(), vt: mt.Elem(), opaque: keyWidth(mt.Key()) < 0,
		dom: func(*Term) *Term { return FALSE }, val: func(*Term) Val { return z }}
	if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		m.sdom, m.sval = func(*VString) *Term { return FALSE }, func(*VString) Val { return z }
	}
	return m
}

// strMapSet sets (or with v == nil removes) an entry of a map with string keys.
func (e *Exec) strMapSet(st *State, g *Term, l *Loc, k *VString, v Val) {
	if l.ver != nil {
		return
	}
	if l.obj == 0 {
		// the content of any map this one may be is no longer known
		for _, id := range e.escapedOf(st, l) {
			if c := And(g, Eq(l.ref, objRef[id])); !c.isFalse() {
				o := e.getObj(st, id)
				m := o.val.(*MapVal)
				e.noteWrite(st, &Loc{obj: id, root: l.root, rt: l.rt, ref: objRef[id]})
				st.setObj(id, &Obj{id: o.id, root: o.root, rt: o.rt, val: &MapVal{kt: m.kt, vt: m.vt, opaque: true}})
			}
		}
		return
	}
	o := e.getObj(st, l.obj)
	m := o.val.(*MapVal)
	if m.sdom == nil {
		return
	}
	n := &MapVal{kt: m.kt, vt: m.vt, opaque: true, sval: m.sval,
		sdom: func(q *VString) *Term { return Ite(And(g, strEq(q, k)), BoolT(v != nil), m.sdom(q)) }}
	if v != nil {
		n.sval = func(q *VString) Val {
			c := And(g, strEq(q, k))
			if c.isTrue() {
				return v
			}
			if c.isFalse() {
				return m.sval(q)
			}
			return merge(c, v, m.sval(q))
		}
	}
	st.setObj(l.obj, &Obj{id: o.id, root: o.root, rt: o.rt, val: n})
}

// mapAt gives the content of the map at loc in st.
func (e *Exec) mapAt(st *State, l *Loc, mt *types.Map) *MapVal {
	if l.ver != nil {
		nl := *l
		nl.ver = nil
		ver := l.ver
		m := e.mapAt(ver, &nl, mt)
		n := *m
		n.val = func(k *Term) Val { return tagVer(m.val(k), ver) }
		return &n
	}
	e.noteRead(st, l)
	if l.obj != 0 {
		return e.getObj(st, l.obj).val.(*MapVal)
	}
	key := l.root
	ref := l.ref
	if keyWidth(mt.Key()) < 0 {
		return &MapVal{kt: mt.Key(), vt: mt.Elem(), opaque: true}
	}
	bld := e.heapBuilder(st, key, []*Term{ref})
	z := zeroVal(mt.Elem())
	m := &MapVal{kt: mt.Key(), vt: mt.Elem(),
		dom: func(k *Term) *Term { return bld("#dom", 0, 0, []*Term{k}) },
		val: func(k *Term) Val {
			return e.symVal(mt.Elem(), "#v", []*Term{k}, bld, nil)
		}}
	_ = z
	ids := e.escapedOf(st, l)
	if len(ids) == 0 {
		return m
	}
	snap := map[int]*MapVal{}
	for _, id := range ids {
		snap[id] = st.objs[id].val.(*MapVal)
	}
	base := *m
	return &MapVal{kt: m.kt, vt: m.vt,
		dom: func(k *Term) *Term {
			r := base.dom(k)
			for _, id := range ids {
				if c := Eq(ref, objRef[id]); !c.isFalse() {
					r = Ite(c, snap[id].dom(k), r)
				}
			}
			return r
		},
		val: func(k *Term) Val {
			r := base.val(k)
			for _, id := range ids {
				if c := Eq(ref, objRef[id]); !c.isFalse() {
					r = merge(c, snap[id].val(k), r)
				}
			}
			return r
		}}
}

// mapSet stores (or, with v == nil, deletes) key k if g.
func (e *Exec) mapSet(st *State, g *Term, l *Loc, mt *types.Map, k *Term, v Val) {
	if l.ver != nil {
		panic(unsupported("store to snapshot map"))
	}
	e.noteWrite(st, l)
	updObj := func(id int, c *Term) {
		o := e.getObj(st, id)
		m := o.val.(*MapVal)
		if escaped[id] && v != nil {
			markEscaped(v)
		}
		n := &MapVal{kt: m.kt, vt: m.vt,
			dom: func(q *Term) *Term { return Ite(And(c, Eq(q, k)), BoolT(v != nil), m.dom(q)) },
			val: m.val}
		if v != nil {
			n.val = func(q *Term) Val {
				cc := And(c, Eq(q, k))
				if cc.isTrue() {
					return v
				}
				return merge(cc, v, m.val(q))
			}
		}
		st.setObj(id, &Obj{id: o.id, root: o.root, rt: o.rt, val: n})
	}
	if l.obj != 0 {
		if k == nil {
			return
		}
		updObj(l.obj, g)
		return
	}
	if k == nil {
		return
	}
	for _, id := range e.escapedOf(st, l) {
		if c := And(g, Eq(l.ref, objRef[id])); !c.isFalse() {
			e.noteWrite(st, &Loc{obj: id, root: l.root, rt: l.rt, ref: objRef[id]})
			updObj(id, c)
		}
	}
	key := l.root
	args := []*Term{l.ref, k}
	old := e.leafFor(st.leaves, key+"#dom", 0, 0)
	st.setLeaf(key+"#dom", &Leaf{w: 0, memo: map[string]*Term{}, sel: func(a []*Term) *Term {
		return Ite(And(g, Eq(a[0], args[0]), Eq(a[1], args[1])), BoolT(v != nil), old.at(a))
	}})
	if v != nil {
		e.storeLeaves(st, g, key+"#v", args, mt.Elem(), func([]*Term) Val { return v }, 0)
	}
}

// ---- write tracking ----

type WriteLog struct {
	objs   map[int]map[string][]Step // paths up to the first index
	allocs map[string]types.Type
	leaves map[string]map[int]*Term // leaf key prefix -> refs written (nil ref entry = all rows)
	locs   map[string]*Loc
}

func newWriteLog() *WriteLog {
	return &WriteLog{objs: map[int]map[string][]Step{}, allocs: map[string]types.Type{}, leaves: map[string]map[int]*Term{}, locs: map[string]*Loc{}}
}

func (e *Exec) noteWrite(st *State, l *Loc) {
	if e.onAccess != nil {
		e.onAccess(st, l, true)
	}
	for _, w := range e.wlogs {
		if l.obj != 0 {
			m := w.objs[l.obj]
			if m == nil {
				m = map[string][]Step{}
				w.objs[l.obj] = m
			}
			k := ""
			var p []Step
			for _, s := range l.path {
				if s.idx != nil {
					break
				}
				k += fmt.Sprintf(".%d", s.field)
				p = append(p, s)
			}
			m[k] = p
			continue
		}
		k, _ := pathKey(l)
		m := w.leaves[k]
		if m == nil {
			m = map[int]*Term{}
			w.leaves[k] = m
			w.locs[k] = l
		}
		m[l.ref.id] = l.ref
	}
}

func (e *Exec) noteRead(st *State, l *Loc) {
	if e.onAccess != nil {
		e.onAccess(st, l, false)
	}
}
