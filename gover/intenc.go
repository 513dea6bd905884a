package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Integer encoding of ground queries. A 64-bit value is written as the integer in [-2^63, 2^63) it denotes, a narrower one as
// the integer in [0, 2^w). Operations are exact (wrap-around included) except multiplication of two unknowns, shifts by
// unknowns and bitwise operations on unknowns, which become uninterpreted functions: the encoding has at least the models of
// the bit-vector query, so an unsat answer carries over.

type irange struct{ lo, hi *big.Int } // inclusive

var irangeMemo = map[int]irange{}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func canon(w int) irange {
	if w == 64 {
		h := pow2(63)
		return irange{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
	}
	return irange{big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1))}
}

func canonConst(t *Term) *big.Int {
	v := new(big.Int).SetUint64(t.val)
	if t.w == 64 && t.val >= 1<<63 {
		v.Sub(v, pow2(64))
	}
	return v
}

// signedConst reads a constant factor or summand as the integer of smallest size congruent to it.
func signedConst(t *Term) *big.Int {
	v := new(big.Int).SetUint64(t.val)
	if t.val >= uint64(1)<<uint(t.w-1) {
		v.Sub(v, pow2(t.w))
	}
	return v
}

func intRange(t *Term) irange {
	if r, ok := irangeMemo[t.id]; ok {
		return r
	}
	c := canon(t.w)
	r := c
	clip := func(x irange) irange {
		if x.lo.Cmp(c.lo) >= 0 && x.hi.Cmp(c.hi) <= 0 {
			return x
		}
		return c
	}
	switch t.op {
	case OConst:
		v := canonConst(t)
		r = irange{v, v}
	case OIte:
		a, b := intRange(t.args[1]), intRange(t.args[2])
		lo, hi := a.lo, a.hi
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
		r = irange{lo, hi}
	case OAdd, OMul:
		if x, ok := rawRange(t); ok {
			r = clip(x)
		}
	case OZExt:
		r = intRange(t.args[0])
	}
	if t.ub != 0 && t.op != OConst {
		u := new(big.Int).SetUint64(t.ub - 1)
		if u.Cmp(pow2(63)) < 0 || t.w < 64 {
			lo, hi := r.lo, r.hi
			if lo.Sign() < 0 {
				lo = big.NewInt(0)
			}
			if u.Cmp(hi) < 0 {
				hi = u
			}
			r = irange{lo, hi}
		}
	}
	irangeMemo[t.id] = r
	return r
}

// rawRange is the range of a sum or constant multiple before wrapping.
func rawRange(t *Term) (irange, bool) {
	switch t.op {
	case OConst:
		v := signedConst(t)
		return irange{v, v}, true
	case OAdd:
		lo, hi := big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			r, ok := rawRange(a)
			if !ok {
				return r, false
			}
			lo = new(big.Int).Add(lo, r.lo)
			hi = new(big.Int).Add(hi, r.hi)
		}
		return irange{lo, hi}, true
	case OMul:
		if t.args[0].isConst() {
			c := signedConst(t.args[0])
			r := intRange(t.args[1])
			a, b := new(big.Int).Mul(c, r.lo), new(big.Int).Mul(c, r.hi)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			return irange{a, b}, true
		}
		return irange{}, false
	}
	return intRange(t), true
}

func bigStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// wrap brings an integer expression with the given range into the canonical range of width w.
func wrap(s string, r irange, w int) string {
	c := canon(w)
	if r.lo.Cmp(c.lo) >= 0 && r.hi.Cmp(c.hi) <= 0 {
		return s
	}
	m := pow2(w)
	lo1, hi1 := new(big.Int).Sub(c.lo, m), new(big.Int).Add(c.hi, m)
	if r.lo.Cmp(lo1) >= 0 && r.hi.Cmp(hi1) <= 0 {
		e := s
		e2 := "wr"
		if r.hi.Cmp(c.hi) > 0 {
			e2 = fmt.Sprintf("(ite (> wr %s) (- wr %s) %s)", bigStr(c.hi), m, e2)
		}
		if r.lo.Cmp(c.lo) < 0 {
			e2 = fmt.Sprintf("(ite (< wr %s) (+ wr %s) %s)", bigStr(c.lo), m, e2)
		}
		return fmt.Sprintf("(let ((wr %s)) %s)", e, e2)
	}
	if w == 64 {
		return fmt.Sprintf("(let ((wr (mod %s %s))) (ite (>= wr %s) (- wr %s) wr))", s, m, pow2(63), m)
	}
	return fmt.Sprintf("(mod %s %s)", s, m)
}

func sumStr(t *Term, arg func(*Term) string) string {
	switch t.op {
	case OConst:
		return bigStr(signedConst(t))
	case OAdd:
		var sb strings.Builder
		sb.WriteString("(+")
		for _, a := range t.args {
			sb.WriteString(" " + sumStr(a, arg))
		}
		return sb.String() + ")"
	case OMul:
		if t.args[0].isConst() {
			return fmt.Sprintf("(* %s %s)", bigStr(signedConst(t.args[0])), arg(t.args[1]))
		}
	}
	return arg(t)
}

// unsigned reads a canonical value as the unsigned integer it denotes.
func unsignedStr(t *Term, s string) string {
	if t.w < 64 || intRange(t).lo.Sign() >= 0 {
		return s
	}
	return fmt.Sprintf("(mod %s %s)", s, pow2(64))
}
func signedStr(t *Term, s string) string {
	if t.w == 64 || intRange(t).hi.Cmp(pow2(t.w-1)) < 0 {
		return s
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", s, pow2(t.w-1), s, pow2(t.w), s)
}

func printInt(s *Solver, t *Term, arg func(*Term) string) string {
	unint := func() string {
		n := fmt.Sprintf("%s_%d", opNames[t.op], t.w)
		if !s.declared[n] {
			s.declared[n] = true
			s.send(fmt.Sprintf("(declare-fun |%s| (%s) %s)", n, strings.TrimSpace(strings.Repeat("Int ", len(t.args))), intSort(t.w)))
		}
		x := "(|" + n + "|"
		for _, a := range t.args {
			x += " " + arg(a)
		}
		x += ")"
		if t.w == 0 {
			return x
		}
		// any value of the width
		return wrap(x, irange{new(big.Int).Neg(pow2(200)), pow2(200)}, t.w)
	}
	unsignedRange := irange{big.NewInt(0), new(big.Int).Sub(pow2(t.w), big.NewInt(1))}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return constStr(t)
		}
		return bigStr(canonConst(t))
	case OApp, ONot, OAnd, OOr, OIte, OEq:
		return printNode(t, arg)
	case OAdd:
		if r, ok := rawRange(t); ok {
			return wrap(sumStr(t, arg), r, t.w)
		}
		return wrap(sumStr(t, arg), irange{new(big.Int).Neg(pow2(200)), pow2(200)}, t.w)
	case OMul:
		if t.args[0].isConst() {
			r, _ := rawRange(t)
			return wrap(sumStr(t, arg), r, t.w)
		}
		return unint()
	case OULt, OULe:
		op := map[Op]string{OULt: "<", OULe: "<="}[t.op]
		a, b := t.args[0], t.args[1]
		x, y := arg(a), arg(b)
		na, nb := a.w == 64 && intRange(a).lo.Sign() < 0, b.w == 64 && intRange(b).lo.Sign() < 0
		switch {
		case !na && !nb:
			return fmt.Sprintf("(%s %s %s)", op, x, y)
		case !nb:
			return fmt.Sprintf("(and (<= 0 %s) (%s %s %s))", x, op, x, y)
		case !na:
			return fmt.Sprintf("(or (< %s 0) (%s %s %s))", y, op, x, y)
		}
		return fmt.Sprintf("(or (and (<= 0 %s) (< %s 0)) (and (= (<= 0 %s) (<= 0 %s)) (%s %s %s)))", x, y, x, y, op, x, y)
	case OSLt, OSLe:
		op := map[Op]string{OSLt: "<", OSLe: "<="}[t.op]
		a, b := t.args[0], t.args[1]
		return fmt.Sprintf("(%s %s %s)", op, signedStr(a, arg(a)), signedStr(b, arg(b)))
	case OConcat:
		a, b := t.args[0], t.args[1]
		x := fmt.Sprintf("(+ (* %s %s) %s)", unsignedStr(a, arg(a)), pow2(b.w), unsignedStr(b, arg(b)))
		return wrap(x, unsignedRange, t.w)
	case OExtract:
		x := arg(t.args[0])
		if t.val > 0 {
			x = fmt.Sprintf("(div %s %s)", x, pow2(int(t.val)))
		}
		if t.hi+1 == t.args[0].w && t.args[0].w < 64 {
			return wrap(x, unsignedRange, t.w)
		}
		x = fmt.Sprintf("(mod %s %s)", x, pow2(t.hi-int(t.val)+1))
		return wrap(x, unsignedRange, t.w)
	case OZExt:
		return arg(t.args[0])
	case OSExt:
		a := t.args[0]
		x := signedStr(a, arg(a))
		if t.w == 64 {
			return x
		}
		return wrap(x, irange{new(big.Int).Neg(pow2(a.w)), pow2(a.w)}, t.w)
	case OBAnd:
		for i := 0; i < 2 && len(t.args) == 2; i++ {
			c := t.args[i]
			if c.isConst() && c.val&(c.val+1) == 0 && c.val != ^uint64(0) {
				return fmt.Sprintf("(mod %s %d)", arg(t.args[1-i]), c.val+1)
			}
		}
	case OShl:
		if t.args[1].isConst() && t.args[1].val < uint64(t.w) {
			return wrap(fmt.Sprintf("(* %s %s)", arg(t.args[0]), pow2(int(t.args[1].val))), irange{new(big.Int).Neg(pow2(200)), pow2(200)}, t.w)
		}
	case OLShr:
		if t.args[1].isConst() && t.args[1].val < uint64(t.w) {
			return wrap(fmt.Sprintf("(div %s %s)", unsignedStr(t.args[0], arg(t.args[0])), pow2(int(t.args[1].val))), unsignedRange, t.w)
		}
	case OUDiv:
		if t.args[1].isConst() && t.args[1].val > 0 && t.args[1].val < 1<<62 {
			return wrap(fmt.Sprintf("(div %s %d)", unsignedStr(t.args[0], arg(t.args[0])), t.args[1].val), unsignedRange, t.w)
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].val > 0 && t.args[1].val < 1<<62 {
			return wrap(fmt.Sprintf("(mod %s %d)", unsignedStr(t.args[0], arg(t.args[0])), t.args[1].val), unsignedRange, t.w)
		}
	}
	return unint()
}

func intSort(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "Int"
}

// intBounds asserts the range of every application in t.
func (s *Solver) intBounds(t *Term) {
	if s.bnd[t.id] {
		return
	}
	s.bnd[t.id] = true
	s.bndLvl[len(s.bndLvl)-1] = append(s.bndLvl[len(s.bndLvl)-1], t.id)
	if t.op == OApp && t.w > 0 {
		r := intRange(t)
		x := s.ref(t)
		s.send(fmt.Sprintf("(assert (and (<= %s %s) (<= %s %s)))", bigStr(r.lo), x, x, bigStr(r.hi)))
	}
	for _, a := range t.args {
		s.intBounds(a)
	}
}
