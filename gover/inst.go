package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// Quantifier instantiation. A query with quantifiers is first tried without them: every closed quantified formula F is
// replaced by a propositional constant p(F); for finitely many ground terms t the solver is given p(F) -> body[t], and once
// not p(F) -> not body[s] for a fresh s. All added formulas hold in every model of the original query (with p(F) read as F and
// s as a witness), so an unsatisfiable ground query proves the original unsatisfiable. A satisfiable one proves nothing; the
// quantified query then goes to the solvers as it is.

type pattern struct {
	name string
	pos  int
	rest *Term // argument pos is v+rest
	app  *Term
}

type qinfo struct {
	f        *Term
	v        *Term
	proxy    *Term
	pats     []pattern
	eqs      []*Term // terms the variable is compared with for equality
	skol     *Term   // not p -> not body[s]
	skolBody *Term
	insts    map[int]*Term
}

var qinfos = map[int]*qinfo{}
var groundMemo = map[int]*Term{}
var hasQMemo = map[int]bool{}

func hasQuant(t *Term) bool {
	if len(t.args) == 0 {
		return false
	}
	if r, ok := hasQMemo[t.id]; ok {
		return r
	}
	r := t.op == OForall
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	hasQMemo[t.id] = r
	return r
}

// ground replaces the closed quantified formulas of t (a term without free bound variables) by their proxies.
func ground(t *Term) *Term {
	if !hasQuant(t) {
		return t
	}
	if r, ok := groundMemo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OForall {
		r = infoOf(t).proxy
	} else {
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = ground(a)
		}
		r = rebuildTerm(t, na)
	}
	groundMemo[t.id] = r
	return r
}

func infoOf(f *Term) *qinfo {
	if q, ok := qinfos[f.id]; ok {
		return q
	}
	q := &qinfo{f: f, proxy: Sym(fmt.Sprintf("pf!%d", f.id), 0), insts: map[int]*Term{}}
	qinfos[f.id] = q
	if len(f.args) != 2 {
		return q
	}
	q.v = f.args[0]
	body := f.args[1]
	inner := qvars(body)
	hasBound := func(t *Term) bool {
		return ContainsSym(t, func(x *Term) bool { return len(x.args) == 0 && (x == q.v || inner[x.name]) })
	}
	seen := map[int]bool{}
	have := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if len(t.args) == 0 || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp {
			for i, a := range t.args {
				if a.w != q.v.w {
					continue
				}
				var rest *Term
				if a == q.v {
					rest = BV(a.w, 0)
				} else if a.op == OAdd {
					d := Sub(a, q.v)
					if !hasBound(d) {
						rest = d
					}
				}
				if rest == nil {
					continue
				}
				k := fmt.Sprintf("%s/%d/%d", t.name, i, rest.id)
				for j, b := range t.args {
					if j != i {
						if hasBound(b) {
							k += "/*"
						} else {
							k += fmt.Sprintf("/%d", b.id)
						}
					}
				}
				if !have[k] {
					have[k] = true
					q.pats = append(q.pats, pattern{t.name, i, rest, t})
				}
			}
		}
		if t.op == OEq && t.args[0].w == q.v.w && len(q.eqs) < 8 {
			// v+a = b: try v := b-a
			for _, d := range []*Term{Sub(t.args[0], t.args[1]), Sub(t.args[1], t.args[0])} {
				x := Sub(q.v, d)
				if !hasBound(x) {
					dup := false
					for _, y := range q.eqs {
						dup = dup || x == y
					}
					if !dup {
						q.eqs = append(q.eqs, x)
					}
					break
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	q.skolBody = Not(ground(skolem(f)))
	q.skol = Or(q.proxy, q.skolBody)
	return q
}

// inst returns p -> body[t] and body[t].
func (q *qinfo) inst(t *Term) (*Term, *Term) {
	b, ok := q.insts[t.id]
	if !ok {
		b = ground(Subst(q.f.args[1], map[*Term]*Term{q.v: t}))
		q.insts[t.id] = b
	}
	r := Or(Not(q.proxy), b)
	if q.v.ub != typeUB(q.v.w) && (t.ub == 0 || t.ub > q.v.ub) {
		r = Or(r, Not(mk(OULt, 0, 0, 0, "", []*Term{t, BV(q.v.w, q.v.ub)})))
	}
	return r, b
}

type instState struct {
	seen   map[int]int
	byName map[string][]*Term
	gen    map[int]int // generation of an application: 0 in the goal, 1 in the path condition, n+1 in an instance
	qs     []*qinfo
	qseen  map[int]bool
	done   map[[2]int]bool
	out    []*Term
	outSet map[int]bool
}

// add collects the applications and proxies of a ground term. pol: 1 asserted positively, 2 negatively, 3 both.
// A proxy asserted only positively needs no witness, one asserted only negatively needs no instances.
func (s *instState) add(t *Term, gen, pol int) {
	old := s.seen[t.id]
	if old|pol == old {
		return
	}
	s.seen[t.id] = old | pol
	if t.op == OApp {
		if len(t.args) > 0 {
			if old == 0 {
				s.byName[t.name] = append(s.byName[t.name], t)
				s.gen[t.id] = gen
			}
		} else if t.w == 0 && len(t.name) > 3 && t.name[:3] == "pf!" {
			var id int
			fmt.Sscanf(t.name[3:], "%d", &id)
			if q := qinfos[id]; q != nil && q.v != nil {
				if pol&1 != 0 && !s.qseen[id] {
					s.qseen[id] = true
					s.qs = append(s.qs, q)
				}
				if pol&2 != 0 && s.emit(q.skol) {
					s.add(q.skolBody, gen, 1)
				}
			}
		}
	}
	switch {
	case t.w != 0 || t.op == OApp:
		for _, a := range t.args {
			s.add(a, gen, 3)
		}
	case t.op == OAnd || t.op == OOr:
		for _, a := range t.args {
			s.add(a, gen, pol)
		}
	case t.op == ONot:
		s.add(t.args[0], gen, flip(pol))
	case t.op == OIte:
		s.add(t.args[0], gen, 3)
		s.add(t.args[1], gen, pol)
		s.add(t.args[2], gen, pol)
	default:
		for _, a := range t.args {
			s.add(a, gen, 3)
		}
	}
}

func flip(p int) int { return p>>1 | p<<1&2 }

func (s *instState) emit(t *Term) bool {
	if t.isTrue() || s.outSet[t.id] {
		return false
	}
	s.outSet[t.id] = true
	s.out = append(s.out, t)
	return true
}

// round adds instances for the applications up to generation gen; it reports whether anything was added.
func (s *instState) round(gen, limit int, loose bool) bool {
	type fr struct {
		t *Term
		g int
	}
	var fresh []fr
	nq := len(s.qs)
	for i := 0; i < nq; i++ {
		q := s.qs[i]
		n := 0
		for _, t := range q.eqs {
			k := [2]int{q.f.id, t.id}
			if s.done[k] || t.isConst() && q.v.ub != 0 && t.val >= q.v.ub {
				continue
			}
			s.done[k] = true
			if x, b := q.inst(t); s.emit(x) {
				fresh = append(fresh, fr{b, gen + 1})
			}
		}
		for pass := 0; pass < 2; pass++ {
			if pass == 1 && !loose {
				break
			}
			for _, p := range q.pats {
				for _, g := range s.byName[p.name] {
					if n >= limit {
						break
					}
					if s.gen[g.id] > gen || len(g.args) != len(p.app.args) {
						continue
					}
					exact, ok := true, true
					for j, b := range p.app.args {
						if j == p.pos || b == g.args[j] {
							continue
						}
						exact = false
						if b.isConst() && g.args[j].isConst() {
							ok = false
						}
					}
					if !ok || exact != (pass == 0) {
						continue
					}
					t := Sub(g.args[p.pos], p.rest)
					if t.isConst() && q.v.ub != 0 && t.val >= q.v.ub {
						continue
					}
					k := [2]int{q.f.id, t.id}
					if s.done[k] {
						continue
					}
					s.done[k] = true
					n++
					if x, b := q.inst(t); s.emit(x) {
						fresh = append(fresh, fr{b, s.gen[g.id] + 1})
					}
				}
			}
		}
	}
	for _, t := range fresh {
		s.add(t.t, t.g, 1)
	}
	return len(fresh) > 0
}

// subgoals splits a goal into conjuncts, with its universally quantified variables replaced by fresh constants.
func subgoals(c *Term, out *[]*Term) {
	switch c.op {
	case OAnd:
		for _, a := range c.args {
			subgoals(a, out)
		}
		return
	case OForall:
		if len(c.args) == 2 {
			subgoals(skolem(c), out)
			return
		}
	case OIte:
		if c.w == 0 && hasQuant(c) {
			subgoals(Or(Not(c.args[0]), c.args[1]), out)
			subgoals(Or(c.args[0], c.args[2]), out)
			return
		}
	case OOr:
		for i, a := range c.args {
			rest := func(x *Term) *Term {
				var o []*Term
				o = append(o, c.args[:i]...)
				o = append(o, x)
				o = append(o, c.args[i+1:]...)
				return Or(o...)
			}
			switch {
			case a.op == OForall && len(a.args) == 2:
				subgoals(rest(skolem(a)), out)
				return
			case a.op == OAnd && len(*out) < 64:
				for _, x := range a.args {
					subgoals(rest(x), out)
				}
				return
			case a.op == OIte && hasQuant(a) && len(*out) < 64:
				subgoals(rest(Or(Not(a.args[0]), a.args[1])), out)
				subgoals(rest(Or(a.args[0], a.args[2])), out)
				return
			}
		}
	}
	*out = append(*out, c)
}

func skolem(f *Term) *Term {
	v := f.args[0]
	ub := uint64(0)
	if v.ub != typeUB(v.w) {
		ub = v.ub
	}
	var sk *Term
	if v.w == 16 && ub == 0 {
		sk = Concat(Fresh("sk", 8), Fresh("sk", 8)) // an address
	} else {
		sk = FreshUB("sk", v.w, ub)
	}
	return Subst(f.args[1], map[*Term]*Term{v: sk})
}

// instCheck tries to show pc && extra unsatisfiable by instantiation.
// The second result is false when the query has no quantifiers.
func (e *Exec) instCheck(st *State, pc []*Term, extra *Term, rounds, limit int, to time.Duration) (string, bool) {
	if !e.anyQuant(pc, extra) {
		return "unknown", false
	}
	r, _ := e.instRun(st, pc, extra, rounds, limit, to, nil)
	return r, true
}

func (e *Exec) instRun(st *State, pc []*Term, extra *Term, rounds, limit int, to time.Duration, model func(ev func(ts []*Term) []uint64)) (string, int) {
	if e.qf == nil {
		e.qf = NewSolver("z3-new", "-in", "-smt2")
		e.qf.ints = true
	}
	s := &instState{seen: map[int]int{}, byName: map[string][]*Term{}, qseen: map[int]bool{}, done: map[[2]int]bool{}, outSet: map[int]bool{}, gen: map[int]int{}}
	gpc := make([]*Term, len(pc))
	gx := ground(extra)
	s.add(gx, 0, 1)
	for i, t := range pc {
		gpc[i] = ground(t)
		if !st.stale[t.id] {
			s.add(gpc[i], 1, 1)
		}
	}
	res := "unknown"
	for i := 0; i < rounds; i++ {
		var more bool
		switch i {
		case 3:
			for j, t := range pc {
				if st.stale[t.id] {
					s.add(gpc[j], 1, 1)
				}
			}
			more = s.round(1, 6, true)
		case 4:
			more = s.round(3, limit, false)
		default:
			more = s.round(i, limit, false)
		}
		if !more && i > 0 {
			continue
		}
		x := And(append([]*Term{gx}, s.out...)...)
		if x.isFalse() {
			return "unsat", len(s.out)
		}
		if d := os.Getenv("GOVER_DUMP"); d != "" && e.quiet == 0 && rounds > 2 {
			dumpN++
			dumpQuery(fmt.Sprintf("%s/q%03d_r%d.smt2", d, dumpN, i), gpc, x)
		}
		t0 := time.Now()
		res, _ = e.qf.Check(gpc, x, to, nil)
		if e.verbose && time.Since(t0) > time.Second {
			fmt.Fprintf(os.Stderr, "    inst round %d: %d instances, %d quantified formulas, %s %v (dump %d)\n", i, len(s.out), len(s.qs), res, time.Since(t0), dumpN)
		}
		if res == "unsat" {
			return res, len(s.out)
		}
		if res == "unknown" && i > 0 {
			break
		}
	}
	if os.Getenv("GOVER_INST") != "" && rounds > 2 {
		for _, q := range s.qs {
			n := 0
			for k := range s.done {
				if k[0] == q.f.id {
					n++
				}
			}
			t := strings.ReplaceAll(q.f.String(), "github.com/jsimonetti/go-artnet.", "")
			if len(t) > 700 {
				t = t[:700]
			}
			fmt.Fprintf(os.Stderr, "      %d inst, %d pats %d eqs: %s\n", n, len(q.pats), len(q.eqs), t)
		}
	}
	if model != nil && res == "sat" {
		x := And(append([]*Term{gx}, s.out...)...)
		return e.qf.CheckModel(gpc, x, to, model), len(s.out)
	}
	return res, len(s.out)
}

var dumpN int

func dumpQuery(file string, pc []*Term, x *Term) {
	f, err := os.Create(file)
	if err != nil {
		return
	}
	defer f.Close()
	s := NewSolver("sh", "-c", "cat >/dev/null")
	s.log = f
	s.ints = true
	defer s.Close()
	for _, t := range pc {
		s.assertTerm(t)
	}
	s.assertTerm(x)
	s.send("(check-sat)")
}

func (e *Exec) anyQuant(pc []*Term, x *Term) bool {
	if hasQuant(x) {
		return true
	}
	for _, t := range pc {
		if hasQuant(t) {
			return true
		}
	}
	return false
}

var symsMemo = map[int]map[string]bool{}

// symbols returns the names of the functions in t.
func symbols(t *Term) map[string]bool {
	if r, ok := symsMemo[t.id]; ok {
		return r
	}
	r := map[string]bool{}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OApp && len(t.args) > 0 {
			r[t.name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	symsMemo[t.id] = r
	return r
}

// markStale notes the quantified facts that speak about the heap parts with the given keys.
func (st *State) markStale(keys []string) {
	n := map[int]bool{}
	for k := range st.stale {
		n[k] = true
	}
	for _, x := range st.tr {
		if n[x.t.id] || !hasQuant(x.t) {
			continue
		}
	syms:
		for name := range symbols(x.t) {
			i := strings.Index(name, "$")
			if i < 0 {
				continue
			}
			for _, k := range keys {
				if strings.HasPrefix(name[i+1:], k) {
					n[x.t.id] = true
					break syms
				}
			}
		}
	}
	st.stale = n
}
