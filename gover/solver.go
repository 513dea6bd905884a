package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver drives one incremental SMT process.
type Solver struct {
	cmdline  []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	bw       *bufio.Writer
	out      *bufio.Reader
	stack    []*Term
	bndLvl   [][]int
	bnd      map[int]bool
	axLvl    [][]string
	ax       map[string]bool
	declared map[string]bool
	defined  map[int]bool
	queries  int
	time     time.Duration
	log      io.Writer
	dead     bool
	lines    chan string
	dirty    int
	ints     bool // integer encoding
}

func NewSolver(cmdline ...string) *Solver {
	s := &Solver{cmdline: cmdline}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	s.in = in
	s.bw = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.bndLvl = [][]int{nil}
	s.bnd = map[int]bool{}
	s.axLvl = [][]string{nil}
	s.ax = map[string]bool{}
	s.declared = map[string]bool{}
	s.defined = map[int]bool{}
	s.dead = false
	s.dirty = 0
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.send("(set-option :print-success false)")
	s.send("(set-option :produce-models true)")
	s.send("(set-option :global-declarations true)")
	if strings.Contains(s.cmdline[0], "cvc5") {
		s.send("(set-logic ALL)")
	}
	lines := make(chan string, 64)
	s.lines = lines
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- strings.TrimRight(l, "\n")
		}
	}()
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(l string) {
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	s.bw.WriteString(l)
	s.bw.WriteByte('\n')
}

var boundedCache = map[int][]*Term{}
var hasQ = map[int]bool{}

// bounded returns the applications inside t that carry a bound the type does not imply.
func bounded(t *Term) []*Term {
	if r, ok := boundedCache[t.id]; ok {
		return r
	}
	set := map[int]*Term{}
	if t.op == OApp && t.ub != typeUB(t.w) {
		set[t.id] = t
	}
	for _, a := range t.args {
		for _, x := range bounded(a) {
			set[x.id] = x
		}
	}
	var r []*Term
	for _, x := range set {
		r = append(r, x)
	}
	boundedCache[t.id] = r
	return r
}

// boundVars of quantifiers in t
var qvarsCache = map[int]map[string]bool{}

func qvars(t *Term) map[string]bool {
	if r, ok := qvarsCache[t.id]; ok {
		return r
	}
	var r map[string]bool
	add := func(n string) {
		if r == nil {
			r = map[string]bool{}
		}
		r[n] = true
	}
	for _, a := range t.args {
		for n := range qvars(a) {
			add(n)
		}
	}
	if t.op == OForall {
		for _, v := range t.args[:len(t.args)-1] {
			add(v.name)
		}
	}
	qvarsCache[t.id] = r
	return r
}

func (s *Solver) declare(t *Term, qv map[string]bool) {
	if t.op == OApp && !s.declared[t.name] && !(qv[t.name] && len(t.args) == 0) {
		s.declared[t.name] = true
		var sb strings.Builder
		for i, a := range t.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(s.sort(a.w))
		}
		s.send(fmt.Sprintf("(declare-fun %s (%s) %s)", symStr(t.name), sb.String(), s.sort(t.w)))
	}
}

// ref makes sure t is defined in the solver and returns the text naming it.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		if s.ints && t.w > 0 {
			return bigStr(canonConst(t))
		}
		return constStr(t)
	}
	if t.op == OApp && len(t.args) == 0 {
		s.declare(t, nil)
		return symStr(t.name)
	}
	if s.defined[t.id] {
		return "t" + strconv.Itoa(t.id)
	}
	if t.op == OForall {
		// printed as a closed formula with let-free inline body
		body := s.inline(t)
		s.defined[t.id] = true
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, sortStr(t.w), body))
		return "t" + strconv.Itoa(t.id)
	}
	s.declare(t, nil)
	// iterative depth: recursion is fine for our term depths
	var str string
	if s.ints {
		str = printInt(s, t, s.ref)
	} else {
		str = printNode(t, s.ref)
	}
	s.defined[t.id] = true
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, s.sort(t.w), str))
	return "t" + strconv.Itoa(t.id)
}

// inline prints a term containing bound variables; subterms without them use ref.
func (s *Solver) inline(t *Term) string {
	bvs := map[*Term]bool{}
	var hasBV func(t *Term, memo map[int]bool) bool
	hasBV = func(t *Term, memo map[int]bool) bool {
		if r, ok := memo[t.id]; ok {
			return r
		}
		r := bvs[t]
		for _, a := range t.args {
			if hasBV(a, memo) {
				r = true
			}
		}
		memo[t.id] = r
		return r
	}
	var rec func(t *Term, memo map[int]bool) string
	rec = func(t *Term, memo map[int]bool) string {
		if t.op == OForall {
			n := len(t.args) - 1
			for _, v := range t.args[:n] {
				bvs[v] = true
			}
			m2 := map[int]bool{}
			return printNode(t, func(a *Term) string { return rec(a, m2) })
		}
		if bvs[t] {
			return symStr(t.name)
		}
		if !hasBV(t, memo) {
			return s.ref(t)
		}
		if t.op == OApp {
			s.declare(t, nil)
		}
		return printNode(t, func(a *Term) string { return rec(a, memo) })
	}
	return rec(t, map[int]bool{})
}

func (s *Solver) sort(w int) string {
	if s.ints {
		return intSort(w)
	}
	return sortStr(w)
}

func (s *Solver) assertTerm(t *Term) {
	if s.ints {
		s.intBounds(t)
		s.send(fmt.Sprintf("(assert %s)", s.ref(t)))
		return
	}
	qv := qvars(t)
	for _, b := range bounded(t) {
		if s.bnd[b.id] {
			continue
		}
		if len(qv) > 0 && ContainsSym(b, func(x *Term) bool { return len(x.args) == 0 && qv[x.name] }) {
			if len(b.args) == 0 || s.ax[b.name] {
				continue
			}
			s.ax[b.name] = true
			s.axLvl[len(s.axLvl)-1] = append(s.axLvl[len(s.axLvl)-1], b.name)
			vs := make([]*Term, len(b.args))
			for i, a := range b.args {
				vs[i] = Sym(fmt.Sprintf("ubq!%d!%d", i, a.w), a.w)
			}
			app := App(b.name, b.w, vs...)
			s.send(fmt.Sprintf("(assert %s)", s.inline(mk(OForall, 0, 0, 0, "ub", append(append([]*Term{}, vs...), mk(OULt, 0, 0, 0, "", []*Term{app, BV(app.w, app.ub)}))))))
			continue
		}
		s.bnd[b.id] = true
		s.bndLvl[len(s.bndLvl)-1] = append(s.bndLvl[len(s.bndLvl)-1], b.id)
		s.send(fmt.Sprintf("(assert (bvult %s %s))", s.ref(b), constStr(BV(b.w, b.ub))))
	}
	s.send(fmt.Sprintf("(assert %s)", s.ref(t)))
}

func (s *Solver) push() {
	s.send("(push 1)")
	s.bndLvl = append(s.bndLvl, nil)
	s.axLvl = append(s.axLvl, nil)
}
func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)", n))
	for i := 0; i < n; i++ {
		for _, id := range s.bndLvl[len(s.bndLvl)-1] {
			delete(s.bnd, id)
		}
		for _, id := range s.axLvl[len(s.axLvl)-1] {
			delete(s.ax, id)
		}
		s.bndLvl = s.bndLvl[:len(s.bndLvl)-1]
		s.axLvl = s.axLvl[:len(s.axLvl)-1]
	}
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.pop(len(s.stack) - k)
	s.stack = s.stack[:k]
	for _, t := range pc[k:] {
		s.push()
		s.assertTerm(t)
		s.stack = append(s.stack, t)
	}
}

// Check decides satisfiability of pc and extra. If sat and want is non-empty, the values of want are returned.
func (s *Solver) Check(pc []*Term, extra *Term, timeout time.Duration, want []*Term) (string, []uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	s.dirty++
	if s.dead || s.dirty > 20000 {
		s.restart()
	}
	s.sync(pc)
	s.push()
	s.assertTerm(extra)
	var refs []string
	for _, w := range want {
		refs = append(refs, s.ref(w))
	}
	if strings.Contains(s.cmdline[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)", timeout.Milliseconds()))
	}
	s.send("(check-sat)")
	s.send("(echo \"done\")")
	s.bw.Flush()
	res := "unknown"
	deadline := time.After(timeout + 3*time.Second)
	ok := false
loop:
	for {
		select {
		case l, open := <-s.lines:
			if !open {
				s.dead = true
				break loop
			}
			switch {
			case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
				res = l
				if l == "timeout" {
					res = "unknown"
				}
			case strings.Contains(l, "done") && !strings.Contains(l, "error"):
				ok = true
				break loop
			case strings.Contains(l, "error"):
				if strings.Contains(l, "canceled") {
					continue
				}
				fmt.Fprintln(os.Stderr, "solver error:", l)
				res = "unknown"
			}
		case <-deadline:
			s.dead = true
			break loop
		}
	}
	if !ok {
		s.dead = true
		return "unknown", nil
	}
	var vals []uint64
	if res == "sat" && len(want) > 0 {
		vals = make([]uint64, len(want))
		for i, r := range refs {
			if want[i].isConst() {
				vals[i] = want[i].val
				continue
			}
			s.send(fmt.Sprintf("(get-value (%s))", r))
			s.send("(echo \"done\")")
			s.bw.Flush()
			txt := ""
			for l := range s.lines {
				if strings.Trim(l, "\"") == "done" {
					break
				}
				txt += l
			}
			vals[i] = parseVal(txt)
		}
	}
	s.pop(1)
	return res, vals
}

func parseVal(t string) uint64 {
	t = strings.TrimSpace(t)
	if i := strings.LastIndex(t, "#x"); i >= 0 {
		v, _ := strconv.ParseUint(strings.TrimRight(t[i+2:], ") "), 16, 64)
		return v
	}
	if i := strings.LastIndex(t, "#b"); i >= 0 {
		v, _ := strconv.ParseUint(strings.TrimRight(t[i+2:], ") "), 2, 64)
		return v
	}
	if strings.Contains(t, "true)") {
		return 1
	}
	if i := strings.LastIndex(t, "(_ bv"); i >= 0 {
		f := strings.Fields(t[i+5:])
		v, _ := strconv.ParseUint(f[0], 10, 64)
		return v
	}
	return 0
}

// OneShot runs a fresh solver on pc && extra.
func OneShot(cmdline []string, pc []*Term, extra *Term, timeout time.Duration) string {
	s := NewSolver(cmdline...)
	defer s.Close()
	for _, t := range pc {
		s.assertTerm(t)
	}
	s.assertTerm(extra)
	s.send("(check-sat)")
	s.bw.Flush()
	select {
	case l, ok := <-s.lines:
		if ok && (l == "sat" || l == "unsat") {
			return l
		}
		return "unknown"
	case <-time.After(timeout):
		return "unknown"
	}
}

// Portfolio runs several solvers concurrently and returns the first definite answer.
func Portfolio(pc []*Term, extra *Term, timeout time.Duration) (string, string) {
	cmds := [][]string{{"z3-new", "-in", "-smt2"}, {"z3", "-in", "-smt2"}, {"cvc5", "--incremental", "--lang=smt2"}}
	type res struct{ r, by string }
	var scripts []string
	for range cmds {
		scripts = append(scripts, "")
	}
	ch := make(chan res, len(cmds))
	var mu sync.Mutex
	var live []*Solver
	for _, c := range cmds {
		// building the script touches the shared term table: do it sequentially
		s := NewSolver(c...)
		for _, t := range pc {
			s.assertTerm(t)
		}
		s.assertTerm(extra)
		s.send("(check-sat)")
		s.bw.Flush()
		mu.Lock()
		live = append(live, s)
		mu.Unlock()
		go func(s *Solver, name string) {
			for l := range s.lines {
				if l == "sat" || l == "unsat" || l == "unknown" {
					ch <- res{l, name}
					return
				}
			}
			ch <- res{"unknown", name}
		}(s, c[0])
	}
	defer func() {
		for _, s := range live {
			s.Close()
		}
	}()
	dl := time.After(timeout)
	for i := 0; i < len(cmds); i++ {
		select {
		case r := <-ch:
			if r.r != "unknown" {
				return r.r, r.by
			}
		case <-dl:
			return "unknown", ""
		}
	}
	return "unknown", ""
}
