package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT terms over Bool and bit-vectors of width <= 64.
// Everything else (structs, arrays, strings, heaps) is expanded on the host.

type Op uint8

const (
	OConst Op = iota
	OApp      // uninterpreted function application (constants are 0-ary)
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd // n-ary, linear normal form
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract
	OZExt
	OSExt
	OForall
	OExists
)

type Term struct {
	op   Op
	w    int // 0: Bool
	val  uint64
	hi   int // extract hi; val = lo
	name string
	args []*Term
	pats [][]*Term
	id   int
	ub   uint64 // exclusive upper bound, 0 = unknown
	tz   int    // known number of trailing zero bits (only tracked through shl)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

type tkey struct {
	op   Op
	w    int
	val  uint64
	hi   int
	name string
	args string
}

var consTable = map[tkey]*Term{}
var termCount int
var termsByID []*Term

func argKey(args []*Term) string {
	switch len(args) {
	case 0:
		return ""
	case 1:
		return strconv.Itoa(args[0].id)
	case 2:
		return strconv.Itoa(args[0].id) + "," + strconv.Itoa(args[1].id)
	}
	var sb strings.Builder
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

func mk(op Op, w int, val uint64, hi int, name string, args []*Term) *Term {
	k := tkey{op, w, val, hi, name, argKey(args)}
	if t, ok := consTable[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, hi: hi, name: name, args: args, id: termCount}
	termCount++
	termsByID = append(termsByID, t)
	consTable[k] = t
	t.ub = computeUB(t)
	return t
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func typeUB(w int) uint64 {
	if w >= 64 || w == 0 {
		return 0
	}
	return uint64(1) << uint(w)
}

func computeUB(t *Term) uint64 {
	if t.w == 0 {
		return 0
	}
	def := typeUB(t.w)
	switch t.op {
	case OConst:
		if t.val == ^uint64(0) {
			return 0
		}
		return t.val + 1
	case OApp:
		if b, ok := symUB[t.name]; ok {
			return b
		}
		return def
	case OIte:
		a, b := t.args[1].ub, t.args[2].ub
		if a == 0 || b == 0 {
			return def
		}
		if a > b {
			return a
		}
		return b
	case OZExt:
		return t.args[0].ub
	case OAdd:
		var s uint64
		for _, a := range t.args {
			if a.ub == 0 {
				return def
			}
			ns, c := bits.Add64(s, a.ub-1, 0)
			if c != 0 {
				return def
			}
			s = ns
		}
		if t.w < 64 && s > maskW(t.w) {
			return def
		}
		if s == ^uint64(0) {
			return 0
		}
		return s + 1
	case OMul:
		if t.args[0].isConst() && t.args[1].ub != 0 {
			hi, lo := bits.Mul64(t.args[0].val, t.args[1].ub-1)
			if hi == 0 && lo <= maskW(t.w) && lo != ^uint64(0) {
				return lo + 1
			}
		}
		return def
	case OBAnd:
		m := uint64(0)
		for _, a := range t.args {
			if a.ub != 0 && (m == 0 || a.ub < m) {
				m = a.ub
			}
		}
		if m != 0 {
			return m
		}
	case OLShr:
		if t.args[1].isConst() && t.args[0].ub != 0 && t.args[1].val < 64 {
			return (t.args[0].ub-1)>>t.args[1].val + 1
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			return t.args[1].val
		}
	case OBOr, OBXor:
		m := uint64(0)
		for _, a := range t.args {
			if a.ub == 0 {
				return def
			}
			m |= a.ub - 1
		}
		b := bits.Len64(m)
		if b < 64 {
			return uint64(1) << uint(b)
		}
	}
	return def
}

// symUB gives known exclusive upper bounds of symbols (references, lengths).
var symUB = map[string]uint64{}

var TRUE = mk(OConst, 0, 1, 0, "", nil)
var FALSE = mk(OConst, 0, 0, 0, "", nil)

func BV(w int, v uint64) *Term { return mk(OConst, w, v&maskW(w), 0, "", nil) }
func I64(v int64) *Term        { return BV(64, uint64(v)) }
func BoolT(b bool) *Term {
	if b {
		return TRUE
	}
	return FALSE
}

func Sym(name string, w int) *Term                { return mk(OApp, w, 0, 0, name, nil) }
func App(name string, w int, args ...*Term) *Term { return mk(OApp, w, 0, 0, name, args) }
func SymB(name string, w int, ub uint64) *Term {
	if ub != 0 {
		symUB[name] = ub
	}
	return mk(OApp, w, 0, 0, name, nil)
}

var freshCtr int

func Fresh(prefix string, w int) *Term {
	freshCtr++
	return Sym(fmt.Sprintf("%s!%d", prefix, freshCtr), w)
}
func FreshUB(prefix string, w int, ub uint64) *Term {
	freshCtr++
	return SymB(fmt.Sprintf("%s!%d", prefix, freshCtr), w, ub)
}

func Not(a *Term) *Term {
	if a.isConst() {
		return BoolT(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return mk(ONot, 0, 0, 0, "", []*Term{a})
}

func And(ts ...*Term) *Term { return nary(OAnd, TRUE, FALSE, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, FALSE, TRUE, ts) }
func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		n := Not(t)
		if seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if t.w != 0 {
			panic("nary: not bool")
		}
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, 0, 0, 0, "", out)
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d: %s / %s", a.w, b.w, a, b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a == b {
		return a
	}
	return mk(OIte, a.w, 0, 0, "", []*Term{c, a, b})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TRUE
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d: %s = %s", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return FALSE
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if a.isFalse() {
			return Not(b)
		}
	}
	if a.isConst() {
		if b.ub != 0 && a.val >= b.ub {
			return FALSE
		}
		switch b.op {
		case OIte:
			x, y := b.args[1], b.args[2]
			if x.isConst() || y.isConst() || iteConstTree(b, 6) {
				return Ite(b.args[0], Eq(a, x), Eq(a, y))
			}
		case OZExt:
			return Eq(BV(b.args[0].w, a.val), b.args[0])
		case OAdd:
			if len(b.args) == 2 && b.args[0].isConst() {
				return Eq(BV(a.w, a.val-b.args[0].val), b.args[1])
			}
		case OConcat:
			lo := b.args[1]
			return And(Eq(BV(b.args[0].w, a.val>>uint(lo.w)), b.args[0]), Eq(BV(lo.w, a.val), lo))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return Eq(a.args[0], b.args[0])
	}
	if a.op == OConcat && b.op == OConcat && a.args[0].w == b.args[0].w {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	if a.w != 0 && (a.op == OAdd || b.op == OAdd) {
		d := Sub(a, b)
		if d.isConst() {
			return BoolT(d.val == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, 0, 0, "", []*Term{a, b})
}

func iteConstTree(t *Term, depth int) bool {
	if t.isConst() {
		return true
	}
	if depth == 0 || t.op != OIte {
		return false
	}
	return iteConstTree(t.args[1], depth-1) && iteConstTree(t.args[2], depth-1)
}

// linear normal form: const + sum coef*term
func linOf(t *Term, coef uint64, m map[int]uint64, c *uint64) {
	switch {
	case t.isConst():
		*c += coef * t.val
	case t.op == OAdd:
		for _, a := range t.args {
			linOf(a, coef, m, c)
		}
	case t.op == OMul && t.args[0].isConst():
		linOf(t.args[1], coef*t.args[0].val, m, c)
	default:
		m[t.id] += coef
	}
}

func linMk(w int, m map[int]uint64, c uint64) *Term {
	ids := make([]int, 0, len(m))
	for id, k := range m {
		if k&maskW(w) != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	c &= maskW(w)
	if c != 0 || len(ids) == 0 {
		args = append(args, BV(w, c))
	}
	for _, id := range ids {
		k := m[id] & maskW(w)
		t := termsByID[id]
		if k != 1 {
			t = mk(OMul, w, 0, 0, "", []*Term{BV(w, k), t})
		}
		args = append(args, t)
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(OAdd, w, 0, 0, "", args)
}

func Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return BV(a.w, a.val+b.val)
	}
	m := map[int]uint64{}
	var c uint64
	linOf(a, 1, m, &c)
	linOf(b, 1, m, &c)
	return linMk(a.w, m, c)
}

func Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return BV(a.w, a.val-b.val)
	}
	m := map[int]uint64{}
	var c uint64
	linOf(a, 1, m, &c)
	linOf(b, ^uint64(0), m, &c)
	return linMk(a.w, m, c)
}

func Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if b.isConst() {
			return BV(a.w, a.val*b.val)
		}
		m := map[int]uint64{}
		var c uint64
		linOf(b, a.val, m, &c)
		return linMk(a.w, m, c)
	}
	return mk(OMul, a.w, 0, 0, "", []*Term{a, b})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		switch op {
		case OUDiv:
			if y == 0 {
				return BV(w, ^uint64(0))
			}
			return BV(w, x/y)
		case OURem:
			if y == 0 {
				return a
			}
			return BV(w, x%y)
		case OSDiv:
			if y != 0 {
				if sx(y, w) == -1 {
					return BV(w, -x)
				}
				return BV(w, uint64(sx(x, w)/sx(y, w)))
			}
		case OSRem:
			if y != 0 {
				if sx(y, w) == -1 {
					return BV(w, 0)
				}
				return BV(w, uint64(sx(x, w)%sx(y, w)))
			}
		case OBAnd:
			return BV(w, x&y)
		case OBOr:
			return BV(w, x|y)
		case OBXor:
			return BV(w, x^y)
		case OShl:
			if y >= 64 {
				return BV(w, 0)
			}
			return BV(w, x<<y)
		case OLShr:
			if y >= 64 {
				return BV(w, 0)
			}
			return BV(w, x>>y)
		case OAShr:
			if y >= 63 {
				y = 63
			}
			return BV(w, uint64(sx(x, w)>>y))
		}
	}
	switch op {
	case OBAnd:
		if a == b {
			return a
		}
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.val == 0 {
				return a
			}
			if a.val == maskW(w) {
				return b
			}
			if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) {
				return Ite(b.args[0], bin(op, a, b.args[1]), bin(op, a, b.args[2]))
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.val == 0 {
				return b
			}
			if a.val == maskW(w) {
				return a
			}
		}
	case OBXor:
		if a == b {
			return BV(w, 0)
		}
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() && a.val == 0 {
			return b
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(w) && op != OAShr {
			return BV(w, 0)
		}
		if op == OLShr && b.isConst() && b.val%8 == 0 {
			// x >> k  ==  zext(extract(w-1,k,x))
			return ZExt(Extract(a, w-1, int(b.val)), w)
		}
		if op == OShl && b.isConst() && b.val%8 == 0 {
			return Concat(Extract(a, w-1-int(b.val), 0), BV(int(b.val), 0))
		}
		if op == OAShr && a.ub != 0 && a.ub <= uint64(1)<<uint(w-1) {
			return bin(OLShr, a, b)
		}
	case OSDiv, OSRem:
		half := uint64(1) << uint(w-1)
		if a.ub != 0 && a.ub <= half && b.ub != 0 && b.ub <= half {
			if op == OSDiv {
				return bin(OUDiv, a, b)
			}
			return bin(OURem, a, b)
		}
	case OURem:
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return bin(OBAnd, a, BV(w, b.val-1))
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return bin(OLShr, a, BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	switch op {
	case OBAnd, OBOr, OBXor:
		// byte-wise structure: distribute over concat/zext when both sides have it
		if r := byteSplit(op, a, b); r != nil {
			return r
		}
		if a.id > b.id && !a.isConst() {
			a, b = b, a
		}
	}
	return mk(op, w, 0, 0, "", []*Term{a, b})
}

// byteSplit splits a bitwise operation at a common byte boundary if one side is a concat/zext there.
func byteSplit(op Op, a, b *Term) *Term {
	cut := func(t *Term) int {
		switch t.op {
		case OConcat:
			return t.args[1].w
		case OZExt:
			return t.args[0].w
		}
		return 0
	}
	c := cut(a)
	if c == 0 {
		c = cut(b)
	}
	if c == 0 || c%8 != 0 || c >= a.w {
		return nil
	}
	if cut(a) != 0 && cut(b) != 0 && cut(a) != cut(b) {
		if cut(a) > cut(b) {
			c = cut(b)
		} else {
			c = cut(a)
		}
	}
	hi := bin(op, Extract(a, a.w-1, c), Extract(b, a.w-1, c))
	lo := bin(op, Extract(a, c-1, 0), Extract(b, c-1, 0))
	return Concat(hi, lo)
}

func BNot(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return mk(OBNot, a.w, 0, 0, "", []*Term{a})
}
func Neg(a *Term) *Term { return Sub(BV(a.w, 0), a) }

func ULt(a, b *Term) *Term {
	if a == b {
		return FALSE
	}
	if a.isConst() && b.isConst() {
		return BoolT(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return FALSE
		}
		if a.ub != 0 && a.ub <= b.val {
			return TRUE
		}
		if b.val == 1 {
			return Eq(a, BV(a.w, 0))
		}
	}
	if a.isConst() {
		if b.ub != 0 && a.val+1 >= b.ub {
			return FALSE
		}
		if a.val == 0 {
			return Not(Eq(b, a))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return ULt(a.args[0], b.args[0])
	}
	if a.op == OZExt && b.isConst() && b.val <= maskW(a.args[0].w) {
		return ULt(a.args[0], BV(a.args[0].w, b.val))
	}
	if b.op == OZExt && a.isConst() && a.val <= maskW(b.args[0].w) {
		return ULt(BV(b.args[0].w, a.val), b.args[0])
	}
	if a.op == OIte && b.isConst() && iteConstTree(a, 6) {
		return Ite(a.args[0], ULt(a.args[1], b), ULt(a.args[2], b))
	}
	if b.op == OIte && a.isConst() && iteConstTree(b, 6) {
		return Ite(b.args[0], ULt(a, b.args[1]), ULt(a, b.args[2]))
	}
	// x + c1 < x + c2 style with no wraparound
	if a.ub != 0 && b.ub != 0 && (a.op == OAdd || b.op == OAdd) {
		d := Sub(a, b)
		if d.isConst() {
			return BoolT(int64(sx(d.val, d.w)) < 0)
		}
	}
	return mk(OULt, 0, 0, 0, "", []*Term{a, b})
}
func ULe(a, b *Term) *Term { return Not(ULt(b, a)) }

func nonneg(a *Term) bool {
	return a.ub != 0 && a.ub <= uint64(1)<<uint(a.w-1)
}
func SLt(a, b *Term) *Term {
	if a == b {
		return FALSE
	}
	if a.isConst() && b.isConst() {
		return BoolT(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return ULt(a, b)
	}
	if b.isConst() && nonneg(a) && sx(b.val, b.w) <= 0 {
		return FALSE
	}
	if a.isConst() && nonneg(b) && sx(a.val, a.w) < 0 {
		return TRUE
	}
	if a.op == OIte && b.isConst() && iteConstTree(a, 6) {
		return Ite(a.args[0], SLt(a.args[1], b), SLt(a.args[2], b))
	}
	return mk(OSLt, 0, 0, 0, "", []*Term{a, b})
}
func SLe(a, b *Term) *Term { return Not(SLt(b, a)) }

func Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return BV(w, a.val<<uint(b.w)|b.val)
	}
	if a.isConst() && a.val == 0 {
		return ZExt(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.args[0] == b.args[0] && int(a.val) == b.hi+1 {
		return Extract(a.args[0], a.hi, int(b.val))
	}
	if b.op == OConcat && a.op == OExtract && b.args[0].op == OExtract && a.args[0] == b.args[0].args[0] && int(a.val) == b.args[0].hi+1 {
		return Concat(Extract(a.args[0], a.hi, int(b.args[0].val)), b.args[1])
	}
	if a.op == OConcat {
		return Concat(a.args[0], Concat(a.args[1], b))
	}
	if a.op == OZExt {
		return ZExt(Concat(a.args[0], b), w)
	}
	return mk(OConcat, w, 0, 0, "", []*Term{a, b})
}

func Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	if a.isConst() {
		return BV(w, a.val>>uint(lo))
	}
	switch a.op {
	case OExtract:
		return Extract(a.args[0], hi+int(a.val), lo+int(a.val))
	case OConcat:
		lw := a.args[1].w
		if hi < lw {
			return Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return Extract(a.args[0], hi-lw, lo-lw)
		}
		return Concat(Extract(a.args[0], hi-lw, 0), Extract(a.args[1], lw-1, lo))
	case OZExt:
		iw := a.args[0].w
		if hi < iw {
			return Extract(a.args[0], hi, lo)
		}
		if lo >= iw {
			return BV(w, 0)
		}
		return ZExt(Extract(a.args[0], iw-1, lo), w)
	case OIte:
		return Ite(a.args[0], Extract(a.args[1], hi, lo), Extract(a.args[2], hi, lo))
	case OBAnd, OBOr, OBXor:
		return bin(a.op, Extract(a.args[0], hi, lo), Extract(a.args[1], hi, lo))
	case OBNot:
		return BNot(Extract(a.args[0], hi, lo))
	case OAdd:
		if lo == 0 {
			r := Extract(a.args[0], hi, 0)
			for _, x := range a.args[1:] {
				r = Add(r, Extract(x, hi, 0))
			}
			return r
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(a.args[0], hi, 0), Extract(a.args[1], hi, 0))
		}
	}
	return mk(OExtract, w, uint64(lo), hi, "", []*Term{a})
}

func ZExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrowing")
	}
	if a.isConst() {
		return BV(w, a.val)
	}
	if a.op == OZExt {
		return ZExt(a.args[0], w)
	}
	if a.op == OIte && iteConstTree(a, 6) {
		return Ite(a.args[0], ZExt(a.args[1], w), ZExt(a.args[2], w))
	}
	return mk(OZExt, w, 0, 0, "", []*Term{a})
}

func SExt(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return BV(w, uint64(sx(a.val, a.w)))
	}
	if nonneg(a) {
		return ZExt(a, w)
	}
	return mk(OSExt, w, 0, 0, "", []*Term{a})
}

func B2BV(b *Term, w int) *Term { return Ite(b, BV(w, 1), BV(w, 0)) }

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isConst() {
		return body
	}
	// bound variables get canonical names (by quantifier depth), so that equal formulas are the same term
	d := qdepth(body)
	m := map[*Term]*Term{}
	cv := make([]*Term, len(vars))
	for i, v := range vars {
		n := fmt.Sprintf("q@%d.%d.%d.%d", d+1, i, v.w, v.ub)
		if v.name == n {
			cv[i] = v
			continue
		}
		if v.ub != typeUB(v.w) {
			cv[i] = SymB(n, v.w, v.ub)
		} else {
			cv[i] = Sym(n, v.w)
		}
		m[v] = cv[i]
	}
	if len(m) > 0 {
		body = Subst(body, m)
		if body.isConst() {
			return body
		}
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, x := range p {
				q = append(q, Subst(x, m))
			}
			np = append(np, q)
		}
		pats = np
	}
	t := mk(OForall, 0, 0, 0, patKey(pats), append(append([]*Term{}, cv...), body))
	t.pats = pats
	return t
}

var qdepthMemo = map[int]int{}

func qdepth(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if d, ok := qdepthMemo[t.id]; ok {
		return d
	}
	d := 0
	for _, a := range t.args {
		if x := qdepth(a); x > d {
			d = x
		}
	}
	if t.op == OForall {
		d++
	}
	qdepthMemo[t.id] = d
	return d
}

func Exists(vars []*Term, body *Term) *Term {
	return Not(Forall(vars, Not(body)))
}
func patKey(p [][]*Term) string {
	var sb strings.Builder
	for _, ps := range p {
		sb.WriteString("{" + argKey(ps) + "}")
	}
	return sb.String()
}

// Subst replaces symbols by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuildTerm(t, na)
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuildTerm(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, t.w, a...)
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case OMul:
		return Mul(a[0], a[1])
	case OULt:
		return ULt(a[0], a[1])
	case OSLt:
		return SLt(a[0], a[1])
	case OConcat:
		return Concat(a[0], a[1])
	case OExtract:
		return Extract(a[0], t.hi, int(t.val))
	case OZExt:
		return ZExt(a[0], t.w)
	case OSExt:
		return SExt(a[0], t.w)
	case OBNot:
		return BNot(a[0])
	case OForall:
		n := len(a) - 1
		return Forall(a[:n], a[n], t.pats...)
	default:
		return bin(t.op, a[0], a[1])
	}
}

// ContainsSym reports whether any symbol satisfying f occurs in t.
func ContainsSym(t *Term, f func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OApp && f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBNot: "bvnot", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat"}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func symStr(n string) string { return "|" + n + "|" }

// printNode prints one node given how its arguments are written.
func printNode(t *Term, arg func(*Term) string) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OApp:
		if len(t.args) == 0 {
			return symStr(t.name)
		}
		s := "(" + symStr(t.name)
		for _, a := range t.args {
			s += " " + arg(a)
		}
		return s + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.val, arg(t.args[0]))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, arg(t.args[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, arg(t.args[0]))
	case OForall:
		n := len(t.args) - 1
		s := "(forall ("
		for _, v := range t.args[:n] {
			s += "(" + symStr(v.name) + " " + sortStr(v.w) + ")"
		}
		s += ") "
		body := arg(t.args[n])
		// a bound variable ranges over the values below its bound only (the simplifier relies on it)
		for _, v := range t.args[:n] {
			if v.ub != typeUB(v.w) {
				body = fmt.Sprintf("(or (not (bvult %s %s)) %s)", symStr(v.name), constStr(BV(v.w, v.ub)), body)
			}
		}
		if len(t.pats) > 0 {
			s += "(! " + body
			for _, p := range t.pats {
				s += " :pattern ("
				for i, x := range p {
					if i > 0 {
						s += " "
					}
					s += arg(x)
				}
				s += ")"
			}
			s += ")"
		} else {
			s += body
		}
		return s + ")"
	default:
		var sb strings.Builder
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + arg(a))
		}
		sb.WriteString(")")
		return sb.String()
	}
}

func (t *Term) String() string {
	n := 0
	var rec func(t *Term) string
	rec = func(t *Term) string {
		n++
		if n > 400 {
			return "..."
		}
		if t.op == OConst && t.w > 0 {
			return fmt.Sprintf("%d:%d", t.val, t.w)
		}
		return printNode(t, rec)
	}
	return rec(t)
}
