package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: *Term, *VStruct, *VArr, *VPtr, *VSlice, *VString, *VIface, *VFunc, *VTuple,
// *MapVal (content of a map object), *IterVal, nil-able opaque VOpaque.
type Val interface{}

type VStruct struct {
	typ *types.Struct
	f   []Val
}

// VArr is a (possibly symbolic-length) array value.
type VArr struct {
	elem types.Type
	n    *Term // length, 64 bit
	base func(i *Term) Val
	over []arrOver // newest last
	memo map[int]Val
}
type arrOver struct {
	idx *Term
	val Val
}

func newArr(elem types.Type, n *Term, base func(i *Term) Val) *VArr {
	return &VArr{elem: elem, n: n, base: base}
}

func (a *VArr) at(i *Term) Val {
	if a.memo == nil {
		a.memo = map[int]Val{}
	}
	if v, ok := a.memo[i.id]; ok {
		return v
	}
	v := a.atFrom(i, len(a.over)-1)
	a.memo[i.id] = v
	return v
}
func (a *VArr) atFrom(i *Term, k int) Val {
	type pend struct {
		c *Term
		v Val
	}
	var ps []pend
	var res Val
	for ; k >= 0; k-- {
		c := Eq(a.over[k].idx, i)
		if c.isTrue() {
			res = a.over[k].val
			break
		}
		if c.isFalse() {
			continue
		}
		ps = append(ps, pend{c, a.over[k].val})
	}
	if res == nil {
		res = a.base(i)
	}
	for j := len(ps) - 1; j >= 0; j-- {
		res = merge(ps[j].c, ps[j].v, res)
	}
	return res
}
func (a *VArr) set(i *Term, v Val) *VArr {
	no := make([]arrOver, 0, len(a.over)+1)
	for _, o := range a.over {
		if o.idx == i {
			continue
		}
		no = append(no, o)
	}
	no = append(no, arrOver{i, v})
	return &VArr{elem: a.elem, n: a.n, base: a.base, over: no}
}

// setRange replaces [lo,lo+n) by src(j-lo).
func (a *VArr) setRange(lo, n *Term, src func(i *Term) Val) *VArr {
	if n.isConst() && n.val == 0 {
		return a
	}
	if lo.isConst() && lo.val == 0 && n == a.n {
		return newArr(a.elem, a.n, src)
	}
	return newArr(a.elem, a.n, func(j *Term) Val {
		d := Sub(j, lo)
		c := And(ULe(lo, j), ULt(d, n))
		if j.isConst() && lo.isConst() {
			if j.val < lo.val {
				c = FALSE
			} else {
				c = ULt(d, n)
			}
		}
		if c.isTrue() {
			return src(d)
		}
		if c.isFalse() {
			return a.at(j)
		}
		return merge(c, src(d), a.at(j))
	})
}

type Step struct {
	field int   // >=0 for field steps
	idx   *Term // non-nil for index steps
}

// Loc addresses memory: a concrete object (obj != 0) or a row of the symbolic heap.
type Loc struct {
	obj  int
	root string     // root key, e.g. "T:pkg.Type", "A:elem", "M:map", "C:chan"
	rt   types.Type // type of the root object (elem type for arrays "A:")
	ref  *Term
	path []Step
	ver  *State // frozen snapshot or nil
}

type PtrAlt struct {
	g   *Term
	loc *Loc // nil: nil pointer
}

// VPtr is a pointer, map or channel value: a guarded union of locations.
type VPtr struct {
	alts []PtrAlt
}

type VSlice struct {
	base          *VPtr // locations of the backing array (root A: or array paths)
	off, len, cap *Term
}

type VString struct {
	len *Term
	at  func(i *Term) *Term
	lit *string
	// of a concatenation: what it was made of
	prev, last *VString
}

type IfAlt struct {
	g    *Term
	dyn  types.Type // nil: nil interface (or opaque if tag != nil)
	val  Val
	tag  *Term // opaque dynamic value: tag (16 bit, non-zero) and ref
	ref  *Term
	note string
}
type VIface struct {
	alts []IfAlt
}
type FnAlt struct {
	g     *Term
	fn    *ssa.Function // nil with ref==nil: nil func
	binds []Val
	ref   *Term // opaque function
}
type VFunc struct {
	alts []FnAlt
}
type VTuple struct{ v []Val }

// MapVal is the content of a map object.
type MapVal struct {
	kt, vt types.Type
	opaque bool
	sdom   func(k *VString) *Term // maps with string keys whose content is known (opaque otherwise)
	sval   func(k *VString) Val
	dom    func(k *Term) *Term
	val    func(k *Term) Val
	keys   []*Term // known constant keys when fully concrete (nil otherwise)
	known  bool
}

type IterVal struct {
	m       *VPtr
	mt      *types.Map
	start   func(k *Term) *Term
	visited func(k *Term) *Term
	cur     *Term
	str     *VString
	pos     *Term
}

type VOpaque struct{ what string }

func nilPtr() *VPtr      { return &VPtr{alts: []PtrAlt{{TRUE, nil}}} }
func ptrTo(l *Loc) *VPtr { return &VPtr{alts: []PtrAlt{{TRUE, l}}} }
func nilIface() *VIface  { return &VIface{alts: []IfAlt{{g: TRUE}}} }
func nilFunc() *VFunc    { return &VFunc{alts: []FnAlt{{g: TRUE}}} }
func strLit(s string) *VString {
	return &VString{len: I64(int64(len(s))), lit: &s, at: func(i *Term) *Term { return litAt(s, i) }}
}

var litMemo = map[string]map[int]*Term{}

func litAt(s string, i *Term) *Term {
	if i.isConst() {
		if i.val < uint64(len(s)) {
			return BV(8, uint64(s[i.val]))
		}
		return BV(8, 0)
	}
	m := litMemo[s]
	if m == nil {
		m = map[int]*Term{}
		litMemo[s] = m
	}
	if t, ok := m[i.id]; ok {
		return t
	}
	r := BV(8, 0)
	for k := len(s) - 1; k >= 0; k-- {
		r = Ite(Eq(i, I64(int64(k))), BV(8, uint64(s[k])), r)
	}
	m[i.id] = r
	return r
}

type mergeFail struct{ why string }

func (l *Loc) child(s Step) *Loc {
	n := *l
	n.path = append(append([]Step{}, l.path...), s)
	return &n
}

func sameLoc(a, b *Loc) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.obj != b.obj || a.root != b.root || a.ver != b.ver || len(a.path) != len(b.path) {
		return false
	}
	if a.obj == 0 && a.ref != b.ref {
		return false
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field || a.path[i].idx != b.path[i].idx {
			return false
		}
	}
	return true
}

func samePath(a, b []Step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].field != b[i].field || (a[i].idx == nil) != (b[i].idx == nil) {
			return false
		}
	}
	return true
}

func merge(c *Term, a, b Val) Val {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
	case *Term:
		y := b.(*Term)
		return Ite(c, x, y)
	case *VStruct:
		y := b.(*VStruct)
		if x == y {
			return x
		}
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = merge(c, x.f[i], y.f[i])
		}
		return &VStruct{typ: x.typ, f: f}
	case *VArr:
		y := b.(*VArr)
		if x == y {
			return x
		}
		return newArr(x.elem, Ite(c, x.n, y.n), func(i *Term) Val { return merge(c, x.at(i), y.at(i)) })
	case *VPtr:
		return mergePtr(c, x, b.(*VPtr))
	case *VSlice:
		y := b.(*VSlice)
		if x == y {
			return x
		}
		bx, by := x.base, y.base
		return &VSlice{base: mergePtr(c, bx, by), off: Ite(c, x.off, y.off), len: Ite(c, x.len, y.len), cap: Ite(c, x.cap, y.cap)}
	case *VString:
		y := b.(*VString)
		if x == y || (x.lit != nil && y.lit != nil && *x.lit == *y.lit) {
			return x
		}
		memo := map[int]*Term{}
		return &VString{len: Ite(c, x.len, y.len), at: func(i *Term) *Term {
			if t, ok := memo[i.id]; ok {
				return t
			}
			t := Ite(c, x.at(i), y.at(i))
			memo[i.id] = t
			return t
		}}
	case *VIface:
		y := b.(*VIface)
		if x == y {
			return x
		}
		var alts []IfAlt
		add := func(al IfAlt) {
			if al.g.isFalse() {
				return
			}
			for i := range alts {
				o := &alts[i]
				if o.tag == nil && al.tag == nil && o.dyn == nil && al.dyn == nil {
					o.g = Or(o.g, al.g)
					return
				}
				if o.tag != nil && al.tag != nil {
					o.tag = Ite(al.g, al.tag, o.tag)
					o.ref = Ite(al.g, al.ref, o.ref)
					o.g = Or(o.g, al.g)
					return
				}
				if o.dyn != nil && al.dyn != nil && types.Identical(o.dyn, al.dyn) {
					o.val = merge(al.g, al.val, o.val)
					o.g = Or(o.g, al.g)
					return
				}
			}
			alts = append(alts, al)
		}
		for _, al := range x.alts {
			al.g = And(c, al.g)
			add(al)
		}
		for _, al := range y.alts {
			al.g = And(Not(c), al.g)
			add(al)
		}
		return &VIface{alts: alts}
	case *VFunc:
		y := b.(*VFunc)
		if x == y {
			return x
		}
		var alts []FnAlt
		for _, al := range x.alts {
			al.g = And(c, al.g)
			alts = append(alts, al)
		}
		for _, al := range y.alts {
			al.g = And(Not(c), al.g)
			dup := false
			for i := range alts {
				o := &alts[i]
				if o.fn == al.fn && o.ref == al.ref && len(o.binds) == len(al.binds) {
					nb := make([]Val, len(o.binds))
					for k := range nb {
						nb[k] = merge(al.g, al.binds[k], o.binds[k])
					}
					o.binds = nb
					o.g = Or(o.g, al.g)
					dup = true
					break
				}
			}
			if !dup {
				alts = append(alts, al)
			}
		}
		return &VFunc{alts: alts}
	case *VTuple:
		y := b.(*VTuple)
		f := make([]Val, len(x.v))
		for i := range f {
			f[i] = merge(c, x.v[i], y.v[i])
		}
		return &VTuple{f}
	case *MapVal:
		y := b.(*MapVal)
		if x == y {
			return x
		}
		if x.opaque || y.opaque {
			n := &MapVal{kt: x.kt, vt: x.vt, opaque: true}
			if x.sdom != nil && y.sdom != nil {
				n.sdom = func(k *VString) *Term { return Ite(c, x.sdom(k), y.sdom(k)) }
				n.sval = func(k *VString) Val { return merge(c, x.sval(k), y.sval(k)) }
			}
			return n
		}
		return &MapVal{kt: x.kt, vt: x.vt, dom: func(k *Term) *Term { return Ite(c, x.dom(k), y.dom(k)) },
			val: func(k *Term) Val { return merge(c, x.val(k), y.val(k)) }}
	case *IterVal:
		y := b.(*IterVal)
		if x == y {
			return x
		}
		if x.str != nil {
			return &IterVal{str: x.str, pos: Ite(c, x.pos, y.pos)}
		}
		n := *x
		n.visited = func(k *Term) *Term { return Ite(c, x.visited(k), y.visited(k)) }
		if x.cur != nil && y.cur != nil {
			n.cur = Ite(c, x.cur, y.cur)
		}
		return &n
	case VOpaque:
		return x
	}
	panic(mergeFail{fmt.Sprintf("cannot merge %T and %T", a, b)})
}

func mergePtr(c *Term, x, y *VPtr) *VPtr {
	if x == y {
		return x
	}
	var alts []PtrAlt
	add := func(g *Term, l *Loc) {
		if g.isFalse() {
			return
		}
		for i := range alts {
			o := &alts[i]
			if sameLoc(o.loc, l) {
				o.g = Or(o.g, g)
				return
			}
			if o.loc != nil && l != nil && o.loc.obj == 0 && l.obj == 0 && o.loc.root == l.root && o.loc.ver == l.ver && samePath(o.loc.path, l.path) {
				n := *o.loc
				n.ref = Ite(g, l.ref, o.loc.ref)
				n.path = append([]Step{}, o.loc.path...)
				for k := range n.path {
					if n.path[k].idx != nil {
						n.path[k].idx = Ite(g, l.path[k].idx, n.path[k].idx)
					}
				}
				o.loc = &n
				o.g = Or(o.g, g)
				return
			}
			if o.loc != nil && l != nil && o.loc.obj != 0 && l.obj == o.loc.obj && o.loc.ver == l.ver && samePath(o.loc.path, l.path) {
				n := *o.loc
				n.path = append([]Step{}, o.loc.path...)
				for k := range n.path {
					if n.path[k].idx != nil {
						n.path[k].idx = Ite(g, l.path[k].idx, n.path[k].idx)
					}
				}
				o.loc = &n
				o.g = Or(o.g, g)
				return
			}
		}
		alts = append(alts, PtrAlt{g, l})
	}
	for _, al := range x.alts {
		add(And(c, al.g), al.loc)
	}
	for _, al := range y.alts {
		add(And(Not(c), al.g), al.loc)
	}
	if len(alts) == 1 {
		alts[0].g = TRUE
	}
	return &VPtr{alts: alts}
}

func isNilPtr(p *VPtr) *Term {
	r := FALSE
	for _, a := range p.alts {
		if a.loc == nil {
			r = Or(r, a.g)
		} else if a.loc.obj == 0 {
			r = Or(r, And(a.g, Eq(a.loc.ref, BV(64, 0))))
		}
	}
	return r
}

func locEq(a, b *Loc) *Term {
	if a == nil && b == nil {
		return TRUE
	}
	zero := BV(64, 0)
	if a == nil {
		a, b = b, a
	}
	if b == nil {
		if a.obj != 0 {
			return FALSE
		}
		return Eq(a.ref, zero)
	}
	if a.root != b.root {
		// different root kinds alias only if both nil
		if a.obj == 0 && b.obj == 0 && len(a.path) == 0 && len(b.path) == 0 {
			return And(Eq(a.ref, zero), Eq(b.ref, zero))
		}
		return FALSE
	}
	c := Eq(a.ref, b.ref)
	if !samePath(a.path, b.path) {
		return FALSE
	}
	for i := range a.path {
		if a.path[i].idx != nil {
			c = And(c, Eq(a.path[i].idx, b.path[i].idx))
		}
	}
	return c
}

func ptrEq(x, y *VPtr) *Term {
	r := FALSE
	for _, a := range x.alts {
		for _, b := range y.alts {
			r = Or(r, And(a.g, b.g, locEq(a.loc, b.loc)))
		}
	}
	return r
}

// strEq compares two strings.
func strEq(x, y *VString) *Term {
	if x.lit != nil && y.lit != nil {
		return BoolT(*x.lit == *y.lit)
	}
	le := Eq(x.len, y.len)
	if le.isFalse() {
		return FALSE
	}
	if y.len.isConst() {
		x, y = y, x
	}
	if x.len.isConst() && x.len.val <= 4096 {
		c := []*Term{le}
		for i := uint64(0); i < x.len.val; i++ {
			c = append(c, Eq(x.at(BV(64, i)), y.at(BV(64, i))))
		}
		return And(c...)
	}
	ub := x.len.ub
	if y.len.ub != 0 && (ub == 0 || y.len.ub < ub) {
		ub = y.len.ub
	}
	if ub != 0 && ub <= 300 {
		c := []*Term{le}
		for i := uint64(0); i+1 < ub; i++ {
			c = append(c, Or(Not(ULt(BV(64, i), x.len)), Eq(x.at(BV(64, i)), y.at(BV(64, i)))))
		}
		return And(c...)
	}
	v := Fresh("k", 64)
	return And(le, Forall([]*Term{v}, Or(Not(ULt(v, x.len)), Eq(x.at(v), y.at(v)))))
}

func valEq(a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case *VStruct:
		y := b.(*VStruct)
		c := []*Term{}
		for i := range x.f {
			if x.typ.Field(i).Name() == "_" {
				continue
			}
			c = append(c, valEq(x.f[i], y.f[i], x.typ.Field(i).Type()))
		}
		return And(c...)
	case *VArr:
		y := b.(*VArr)
		if x == y {
			return TRUE
		}
		if !x.n.isConst() {
			panic(unsupported("array equality with symbolic length"))
		}
		if x.n.val > 64 && isScalarT(x.elem) {
			v := Fresh("k", 64)
			return Forall([]*Term{v}, Or(Not(ULt(v, x.n)), valEq(x.at(v), y.at(v), x.elem)))
		}
		var c []*Term
		for i := uint64(0); i < x.n.val; i++ {
			c = append(c, valEq(x.at(BV(64, i)), y.at(BV(64, i)), x.elem))
		}
		return And(c...)
	case *VPtr:
		return ptrEq(x, b.(*VPtr))
	case *VString:
		return strEq(x, b.(*VString))
	case *VSlice:
		y := b.(*VSlice)
		// only slice == nil is legal Go
		return And(isNilPtr(x.base), isNilPtr(y.base))
	case *VIface:
		y := b.(*VIface)
		r := FALSE
		for _, p := range x.alts {
			for _, q := range y.alts {
				g := And(p.g, q.g)
				if g.isFalse() {
					continue
				}
				r = Or(r, And(g, ifAltEq(p, q)))
			}
		}
		return r
	case *VFunc:
		y := b.(*VFunc)
		return And(isNilFunc(x), isNilFunc(y))
	case VOpaque:
		return TRUE
	}
	panic(unsupported(fmt.Sprintf("equality on %T", a)))
}

func isNilFunc(f *VFunc) *Term {
	r := FALSE
	for _, a := range f.alts {
		if a.fn == nil {
			if a.ref == nil {
				r = Or(r, a.g)
			} else {
				r = Or(r, And(a.g, Eq(a.ref, BV(64, 0))))
			}
		}
	}
	return r
}

func ifAltEq(p, q IfAlt) *Term {
	pn, qn := p.dyn == nil && p.tag == nil, q.dyn == nil && q.tag == nil
	switch {
	case pn && qn:
		return TRUE
	case p.tag != nil && q.tag != nil:
		return And(Eq(p.tag, q.tag), Eq(p.ref, q.ref))
	case p.tag != nil && qn:
		return Eq(p.tag, BV(16, 0))
	case q.tag != nil && pn:
		return Eq(q.tag, BV(16, 0))
	case p.dyn != nil && q.dyn != nil && types.Identical(p.dyn, q.dyn):
		return valEq(p.val, q.val, p.dyn)
	}
	return FALSE
}

func ifaceNil(x *VIface) *Term {
	r := FALSE
	for _, p := range x.alts {
		if p.dyn == nil {
			if p.tag == nil {
				r = Or(r, p.g)
			} else {
				r = Or(r, And(p.g, Eq(p.tag, BV(16, 0))))
			}
		}
	}
	return r
}

type unsupportedErr struct{ what string }

func unsupported(s string) unsupportedErr { return unsupportedErr{s} }

// ---- types ----

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}
func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}
func isMutex(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func isScalarT(t types.Type) bool {
	if isTime(t) || isMutex(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && basicWidth(b) >= 0
}

// zeroVal builds Go's zero value.
func zeroVal(t types.Type) Val {
	if isTime(t) {
		return BV(64, 0)
	}
	if isMutex(t) {
		return FALSE
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strLit("")
		}
		w := basicWidth(u)
		if w == 0 {
			return FALSE
		}
		if w < 0 {
			if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
				return nilPtr()
			}
			return VOpaque{"float"}
		}
		return BV(w, 0)
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &VStruct{typ: u, f: f}
	case *types.Array:
		z := zeroVal(u.Elem())
		return newArr(u.Elem(), I64(u.Len()), func(*Term) Val { return z })
	case *types.Pointer, *types.Map, *types.Chan:
		return nilPtr()
	case *types.Slice:
		z := BV(64, 0)
		return &VSlice{base: nilPtr(), off: z, len: z, cap: z}
	case *types.Interface:
		return nilIface()
	case *types.Signature:
		return nilFunc()
	case *types.Tuple:
		v := make([]Val, u.Len())
		for i := range v {
			v[i] = zeroVal(u.At(i).Type())
		}
		return &VTuple{v}
	}
	panic(unsupported("zero value of " + t.String()))
}

const lenUB = uint64(1) << 40
const inputBase = uint64(1) << 32 // input references lie in [1, inputBase)
const timeUB = uint64(1) << 62

func (l *Loc) String() string {
	if l == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s", l.root)
	if l.obj != 0 {
		fmt.Fprintf(&sb, "@%d", l.obj)
	} else {
		fmt.Fprintf(&sb, "(%s)", l.ref)
	}
	for _, s := range l.path {
		if s.idx != nil {
			fmt.Fprintf(&sb, "[%s]", s.idx)
		} else {
			fmt.Fprintf(&sb, ".%d", s.field)
		}
	}
	if l.ver != nil {
		sb.WriteString("@old")
	}
	return sb.String()
}
