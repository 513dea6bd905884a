package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops are unrolled when their trip count is provably small; every other loop is cut: the state at the
// header is generalised to an arbitrary state satisfying an inductive invariant (checked initially and for
// every back edge), which covers all iterations.

const unrollLimit = 12
const maxConstTrip = 1100

type loopLimit struct{ h *ssa.BasicBlock }

func hasSelectOrNext(body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.Next:
				if !x.IsString {
					return true
				}
			}
		}
	}
	return false
}

// tripBound evaluates the loop condition in the entry state and bounds the trip count (-1: unbounded/unknown).
func (e *Exec) tripBound(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int {
	if hasSelectOrNext(body) {
		return -1
	}
	if n := e.exitBound(fs, h, h, body); n >= 0 {
		return n
	}
	// other exits of the loop ("i < n && i < 4"); whether unrolling that far suffices is checked when unrolling
	best := -1
	for b := range body {
		if b == h {
			continue
		}
		if n := e.exitBound(fs, h, b, body); n >= 0 && (best < 0 || n < best) {
			best = n
		}
	}
	return best
}

// exitBound gives the number of iterations after which the exit test of block b stops the loop with header h.
func (e *Exec) exitBound(fs FS, h, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || (body[b.Succs[0]] && body[b.Succs[1]]) {
		return -1
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	tb, ok := cmp.X.Type().Underlying().(*types.Basic)
	if !ok || tb.Info()&types.IsInteger == 0 {
		return -1
	}
	ev := e.evalHeader(fs, h)
	if ev == nil {
		return -1
	}
	if b != h {
		// only counters of the header against constants or values from outside the loop
		if ph, ok := cmp.X.(*ssa.Phi); !ok || ph.Block() != h {
			return -1
		}
		if c, ok := cmp.Y.(ssa.Instruction); ok && body[c.Block()] {
			return -1
		}
	}
	x, okx := e.tryGet(*ev, cmp.X)
	y, oky := e.tryGet(*ev, cmp.Y)
	if !okx || !oky {
		return -1
	}
	xt, ok1 := x.(*Term)
	yt, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		return -1
	}
	w := xt.w
	d := Sub(yt, xt)
	if d.isConst() {
		v := int64(sx(d.val, w))
		if v < 0 {
			v = -v
		}
		if v <= maxConstTrip {
			return int(v) + 2
		}
		return -1
	}
	// symbolic bound: small?
	lim := BV(w, unrollLimit-1)
	for _, t := range []*Term{d, Neg(d)} {
		if e.valid(ev.st, And(SLe(t, lim), SLe(Neg(lim), t)), time.Second) {
			return unrollLimit
		}
	}
	if e.valid(ev.st, SLe(d, lim), time.Second) && e.valid(ev.st, SLe(Neg(BV(w, 1<<20&maskW(w))), d), time.Second) {
		return unrollLimit
	}
	return -1
}

func (e *Exec) tryGet(fs FS, v ssa.Value) (r Val, ok bool) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return e.get(fs, v), true
	}
	r, ok = fs.fr.regs[v]
	return
}

// evalHeader runs the header's non-terminator instructions on a copy, without obligations.
func (e *Exec) evalHeader(fs FS, h *ssa.BasicBlock) (res *FS) {
	c := fs.clone()
	e.quiet++
	defer func() {
		e.quiet--
		if x := recover(); x != nil {
			if _, ok := x.(unsupportedErr); ok {
				res = nil
				return
			}
			panic(x)
		}
	}()
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		}
		os := e.instr(c, in)
		if len(os) != 1 {
			return nil
		}
		c = os[0]
	}
	return &c
}

func (e *Exec) doLoop(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, stop stops) []Res {
	if !e.cut[h] {
		b := e.tripBound(fs, h, body)
		if b >= 0 && !(b > 40 && e.fillCovers(fs, h, body)) {
			rs, ok := e.unroll(fs.clone(), h, stop, b)
			if ok {
				return rs
			}
		}
		if os.Getenv("GOVER_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "  cut loop %s block %d (bound %d)\n", fs.fr.fn, h.Index, b)
		}
	}
	return e.cutLoop(fs, h, body, stop)
}

func (e *Exec) unroll(fs FS, h *ssa.BasicBlock, stop stops, bound int) (rs []Res, ok bool) {
	nob := len(e.obls)
	depth := len(e.wlogs)
	q, sp := e.quiet, e.specMode
	defer func() {
		if x := recover(); x != nil {
			if l, is := x.(loopLimit); is && l.h == h {
				e.obls = e.obls[:nob]
				e.wlogs = e.wlogs[:depth]
				e.quiet, e.specMode = q, sp
				e.cut[h] = true
				rs, ok = nil, false
				return
			}
			panic(x)
		}
	}()
	fs.fr.inLoop[h] = true
	fs.fr.visits[h] = 0
	if e.loopLim == nil {
		e.loopLim = map[*ssa.BasicBlock]int{}
	}
	if bound > e.loopLim[h] {
		e.loopLim[h] = bound
	}
	more, next, done := e.block(fs, h, stop)
	if !done {
		more = append(more, e.run(fs, next, stop)...)
	}
	return more, true
}

// ---- cutting ----

type writeSet struct {
	now    bool
	objs   map[int]map[string][]Step
	leaves map[string]*leafWrite
	allocs map[string]types.Type
}
type leafWrite struct {
	loc  *Loc
	all  bool
	rows []*Term
}

func symCtrOf(name string) int {
	i := strings.IndexByte(name, '!')
	if i < 0 {
		return 0
	}
	n := 0
	for _, c := range name[i+1:] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func (w *writeSet) absorb(l *WriteLog, objLimit, freshLimit int) bool {
	changed := false
	for id, paths := range l.objs {
		if id > objLimit {
			continue
		}
		m := w.objs[id]
		if m == nil {
			m = map[string][]Step{}
			w.objs[id] = m
		}
		for k, p := range paths {
			if _, ok := m[k]; !ok {
				m[k] = p
				changed = true
			}
		}
	}
	for k, refs := range l.leaves {
		lw := w.leaves[k]
		if lw == nil {
			lw = &leafWrite{loc: l.locs[k]}
			w.leaves[k] = lw
			changed = true
		}
		if lw.all {
			continue
		}
		for _, r := range refs {
			inv := !ContainsSym(r, func(t *Term) bool { return symCtrOf(t.name) > freshLimit })
			if r.isConst() && r.val >= inputBase {
				inv = false
			}
			if !inv || len(lw.rows) > 6 {
				lw.all = true
				changed = true
				break
			}
			dup := false
			for _, x := range lw.rows {
				dup = dup || x == r
			}
			if !dup {
				lw.rows = append(lw.rows, r)
				changed = true
			}
		}
	}
	for k, t := range l.allocs {
		if _, ok := w.allocs[k]; !ok {
			w.allocs[k] = t
			changed = true
		}
	}
	return changed
}

// leafNames lists the leaves of a value of type t: suffix, width, bound.
type leafInfo struct {
	suffix string
	w      int
	ub     uint64
}

func (e *Exec) leafNames(t types.Type) []leafInfo {
	var out []leafInfo
	add := func(s string, w int, ub uint64) { out = append(out, leafInfo{s, w, ub}) }
	var rec func(t types.Type, s string)
	rec = func(t types.Type, s string) {
		if isTime(t) {
			add(s, 64, timeUB)
			return
		}
		if isMutex(t) {
			return // lock state is never generalised; balance is checked at the back edge
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				add(s+"#len", 64, lenUB)
				add(s+"#ch", 8, 0)
				return
			}
			if w := basicWidth(u); w >= 0 {
				add(s, w, typeUB(w))
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), s+"."+fieldName(u, i))
			}
		case *types.Array:
			rec(u.Elem(), s+"[]")
		case *types.Pointer:
			add(s+"#ptr", 64, inputBase)
		case *types.Map:
			add(s+"#map", 64, inputBase)
		case *types.Chan:
			add(s+"#chan", 64, inputBase)
		case *types.Slice:
			add(s+"#base", 64, inputBase)
			add(s+"#off", 64, lenUB)
			add(s+"#len", 64, lenUB)
			add(s+"#xcap", 64, lenUB)
		case *types.Interface:
			add(s+"#tag", 16, 0)
			add(s+"#iref", 64, inputBase)
		case *types.Signature:
			add(s+"#fn", 64, inputBase)
		default:
			panic(unsupported("havoc of " + t.String()))
		}
	}
	rec(t, "")
	return out
}

// havocLeaves generalises all leaves below key (of type t) in the rows selected by cond.
func (e *Exec) havocLeaves(st *State, key string, infos []leafInfo, cond func(a []*Term) *Term) {
	for _, li := range infos {
		k := key + li.suffix
		old := e.leafFor(st.leaves, k, li.w, li.ub)
		freshCtr++
		name := fmt.Sprintf("hv!%d$%s", freshCtr, k)
		ub := li.ub
		if ub == inputBase {
			ub = nextRef
		}
		if ub != 0 {
			symUB[name] = ub
		}
		w := li.w
		st.setLeaf(k, &Leaf{w: w, memo: map[string]*Term{}, sel: func(a []*Term) *Term {
			c := TRUE
			if cond != nil {
				c = cond(a)
			}
			n := App(name, w, a...)
			if c.isTrue() {
				return n
			}
			return Ite(c, n, old.at(a))
		}})
	}
}

// infosFor lists the leaves affected by a write to loc.
func (e *Exec) infosFor(l *Loc) []leafInfo {
	switch {
	case strings.HasPrefix(l.root, "M:"):
		mt := l.rt.Underlying().(*types.Map)
		out := []leafInfo{{"#dom", 0, 0}}
		for _, li := range e.leafNames(mt.Elem()) {
			out = append(out, leafInfo{"#v" + li.suffix, li.w, li.ub})
		}
		return out
	case strings.HasPrefix(l.root, "C:"):
		return []leafInfo{{"#closed", 0, 0}}
	case strings.HasPrefix(l.root, "I:"):
		return nil
	case strings.HasPrefix(l.root, "A:") && len(l.path) == 0:
		var out []leafInfo
		for _, li := range e.leafNames(l.rt) {
			out = append(out, leafInfo{"[]" + li.suffix, li.w, li.ub})
		}
		return out
	}
	return e.leafNames(locType(l))
}

// keepLocks copies lock components of old into v.
func keepLocks(v, old Val, t types.Type) Val {
	if isMutex(t) {
		return old
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
		x, y := v.(*VStruct), old.(*VStruct)
		f := append([]Val{}, x.f...)
		for i := range f {
			f[i] = keepLocks(x.f[i], y.f[i], u.Field(i).Type())
		}
		return &VStruct{typ: x.typ, f: f}
	}
	return v
}

func (e *Exec) freshLike(o *Obj, path []Step, old Val) Val {
	if len(path) > 0 {
		l := &Loc{root: o.root, rt: o.rt, path: path}
		t := locType(l)
		return keepLocks(e.freshVal(t, "hvo", nextRef), old, t)
	}
	switch {
	case strings.HasPrefix(o.root, "A:"):
		n := old.(*VArr).n
		freshCtr++
		pre := fmt.Sprintf("hva!%d", freshCtr)
		return newArr(o.rt, n, func(i *Term) Val {
			return e.symVal(o.rt, "", []*Term{i}, func(suffix string, w int, ub uint64, ex []*Term) *Term {
				if strings.HasSuffix(suffix, "#held") {
					return FALSE
				}
				if ub == inputBase {
					ub = nextRef
				}
				if ub != 0 {
					symUB[pre+suffix] = ub
				}
				return App(pre+suffix, w, ex...)
			}, nil)
		})
	case strings.HasPrefix(o.root, "M:"):
		mv := old.(*MapVal)
		if mv.opaque {
			return &MapVal{kt: mv.kt, vt: mv.vt, opaque: true}
		}
		freshCtr++
		pre := fmt.Sprintf("hvm!%d", freshCtr)
		return &MapVal{kt: mv.kt, vt: mv.vt,
			dom: func(k *Term) *Term { return App(pre+"#dom", 0, k) },
			val: func(k *Term) Val {
				return e.symVal(mv.vt, "#v", []*Term{k}, func(suffix string, w int, ub uint64, ex []*Term) *Term {
					if strings.HasSuffix(suffix, "#held") {
						return FALSE
					}
					if ub == inputBase {
						ub = nextRef
					}
					if ub != 0 {
						symUB[pre+suffix] = ub
					}
					return App(pre+suffix, w, ex...)
				}, nil)
			}}
	case strings.HasPrefix(o.root, "I:"):
		it := *old.(*IterVal)
		freshCtr++
		if it.str != nil {
			it.pos = FreshUB("itpos", 64, lenUB)
			return &it
		}
		n := fmt.Sprintf("vis!%d", freshCtr)
		it.visited = func(k *Term) *Term { return App(n, 0, k) }
		it.cur = nil
		return &it
	case strings.HasPrefix(o.root, "C:"):
		return Fresh("closed", 0)
	}
	return keepLocks(e.freshVal(o.rt, "hvo", nextRef), old, o.rt)
}

func (e *Exec) havoc(fs FS, h *ssa.BasicBlock, w *writeSet, oldNext uint64) FS {
	c := fs.clone()
	st := c.st
	for id := range st.objs {
		escaped[id] = true
	}
	nextRef += 1 << 32
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c.fr.regs[ph] = e.freshVal(ph.Type(), "phi_"+ph.Name(), nextRef)
	}
	ids := make([]int, 0, len(w.objs))
	for id := range w.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := e.getObj(st, id)
		if o == nil {
			continue
		}
		v := o.val
		paths := w.objs[id]
		if _, whole := paths[""]; whole {
			v = e.freshLike(o, nil, o.val)
		} else {
			ks := make([]string, 0, len(paths))
			for k := range paths {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				p := paths[k]
				v = setPath(v, p, e.freshLike(o, p, getPath(o.val, p)))
			}
		}
		st.setObj(id, &Obj{id: o.id, root: o.root, rt: o.rt, val: v})
	}
	ks := make([]string, 0, len(w.leaves))
	for k := range w.leaves {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	st.markStale(ks)
	for _, k := range ks {
		lw := w.leaves[k]
		var cond func(a []*Term) *Term
		if !lw.all {
			rows := lw.rows
			cond = func(a []*Term) *Term {
				r := FALSE
				for _, x := range rows {
					r = Or(r, Eq(a[0], x))
				}
				return r
			}
		}
		e.havocLeaves(st, k, e.infosFor(lw.loc), cond)
	}
	for root, rt := range w.allocs {
		if strings.HasPrefix(root, "I:") {
			continue
		}
		l := &Loc{root: root, rt: rt}
		on := BV(64, oldNext)
		e.havocLeaves(st, root, e.infosFor(l), func(a []*Term) *Term { return ULe(on, a[0]) })
	}
	if st.now != nil && w.now {
		n := FreshUB("now", 64, timeUB)
		st.addFact(ULe(st.now, n))
		st.now = n
	}
	st.events = append(st.events, Event{g: TRUE, kind: "loop"})
	st.cuts++
	return c
}

type cand struct {
	name string
	f    func(fs FS) *Term // evaluated at the header (phis assigned)
}

func (e *Exec) cutLoop(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, stop stops) []Res {
	e.cut[h] = true
	exits := stops{h: true}
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] {
				exits[s] = true
			}
		}
	}
	oldNext := nextRef
	objLimit := objCtr
	entryFresh := freshCtr
	w := &writeSet{objs: map[int]map[string][]Step{}, leaves: map[string]*leafWrite{}, allocs: map[string]types.Type{}}
	silent := false
	pass := func(assume []*cand, quiet bool) (FS, []Res, *WriteLog) {
		c := e.havoc(fs, h, w, oldNext)
		if silent {
			c.st.events = fs.st.events
		}
		for _, a := range assume {
			for _, t := range conj(a.f(c)) {
				c.st.addFact(t)
			}
		}
		start := c.clone()
		if !silent {
			if !quiet {
				e.windowObj = objCtr
			}
			e.loopDepth++
			defer func() { e.loopDepth-- }()
		}
		c.fr.inLoop[h] = true
		wl := newWriteLog()
		e.wlogs = append(e.wlogs, wl)
		if quiet {
			e.quiet++
		}
		more, next, done := e.block(c, h, exits)
		if !done {
			more = append(more, e.run(c, next, exits)...)
		}
		if quiet {
			e.quiet--
		}
		e.wlogs = e.wlogs[:len(e.wlogs)-1]
		return start, e.rotate(e.mergeRes(more), h, body), wl
	}
	// The invariant (the candidates kept) and the write set are found together: the write set covers every state of the
	// loop header that satisfies the invariant and differs from the entry state within the write set only; the
	// invariant holds on entry and is preserved from such states.
	cands := e.candidates(fs, h, body)
	var keep []*cand
	for _, c := range cands {
		if e.proves(fs.st, c.f(fs), 5*time.Second) {
			keep = append(keep, c)
		} else if os.Getenv("GOVER_LOOPS") != "" && c.name != "" {
			fmt.Fprintf(os.Stderr, "  invariant %s does not hold on entry to loop of %s\n", c.name, fs.fr.fn)
		}
	}
	for {
		// write set under the current candidates
		for i := 0; ; i++ {
			if i > 20 {
				panic(unsupported("write set of loop does not stabilise"))
			}
			start, rs, wl := pass(keep, true)
			grown := w.absorb(wl, objLimit, entryFresh)
			for _, r := range rs {
				if r.fs.st != nil && r.fs.st.now != start.st.now && !w.now {
					w.now, grown = true, true
				}
			}
			if !grown {
				break
			}
		}
		if len(keep) == 0 {
			break
		}
		_, rs, _ := pass(keep, true)
		var next []*cand
		for _, c := range keep {
			ok := true
			for _, r := range rs {
				if r.kind == rStop && r.blk == h {
					if !e.proves(r.fs.st, c.f(r.fs), 5*time.Second) {
						ok = false
						break
					}
				}
			}
			if ok {
				next = append(next, c)
			} else if os.Getenv("GOVER_LOOPS") != "" {
				fmt.Fprintf(os.Stderr, "  invariant %s is not preserved by loop of %s\n", c.name, fs.fr.fn)
			}
		}
		if len(next) == len(keep) {
			break
		}
		keep = next
	}
	if e.quiet == 0 {
		var ns []string
		for _, c := range keep {
			ns = append(ns, c.name)
		}
		e.loopInfo = append(e.loopInfo, fmt.Sprintf("%s: loop cut, invariant {%s}", fnName(fs.fr.fn), strings.Join(ns, "; ")))
		if os.Getenv("GOVER_LOOPS") != "" {
			fmt.Fprintln(os.Stderr, "  ", e.loopInfo[len(e.loopInfo)-1])
		}
	}
	// a loop that only computes (no events, no choice between channels or map entries) does not divide its
	// surroundings into windows of events
	if !hasSelectOrNext(body) {
		start, rs, _ := pass(keep, true)
		silent = len(rs) > 0
		for _, r := range rs {
			if r.fs.st == nil || len(r.fs.st.events) != len(start.st.events) {
				silent = false
			}
		}
	}
	if silent {
		start, rs, _ := pass(keep, false)
		var out []Res
		for _, r := range rs {
			if r.kind == rStop && r.blk == h {
				e.lockBalance(r.fs, start, w)
				e.progress(start, r.fs, h)
				continue
			}
			if r.kind == rStop {
				delete(r.fs.fr.inLoop, h)
				out = append(out, e.run(r.fs, r.blk, stop)...)
				continue
			}
			out = append(out, r)
		}
		return e.mergeRes(out)
	}
	// entry into the loop ends the window of events before it
	if e.loopDepth == 0 {
		e.iterEnd(nil, fs.st, 0)
	} else {
		e.iterEnd(nil, fs.st, 10+e.loopDepth)
	}
	outerStart, outerObj := e.iterStart, e.windowObj
	// 3. final pass
	start, rs, _ := pass(keep, false)
	innerStart, innerObj := e.iterStart, e.windowObj
	var out []Res
	for _, r := range rs {
		e.iterStart, e.windowObj = innerStart, innerObj
		if r.kind == rStop && r.blk == h {
			e.lockBalance(r.fs, start, w)
			e.progress(start, r.fs, h)
			e.iterEnd(start.st, r.fs.st, e.loopDepth+1)
			continue
		}
		if r.kind == rStop {
			if e.loopDepth > 0 {
				e.iterEnd(start.st, r.fs.st, -e.loopDepth-1)
			}
			e.iterStart, e.windowObj = outerStart, outerObj
			delete(r.fs.fr.inLoop, h)
			out = append(out, e.run(r.fs, r.blk, stop)...)
			continue
		}
		out = append(out, r)
	}
	return e.mergeRes(out)
}

// flagHeader: the loop's header only asks a flag that is a variable of the loop (for running { ... }). It returns the
// flag, its value for which the loop is left, and where that leads.
func flagHeader(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (flag *ssa.Phi, leave bool, to *ssa.BasicBlock) {
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || body[h.Succs[0]] == body[h.Succs[1]] {
		return nil, false, nil
	}
	cond, neg := ifi.Cond, false
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.NOT || x != cond {
				return nil, false, nil
			}
		default:
			return nil, false, nil
		}
	}
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT && u.Block() == h {
		cond, neg = u.X, true
	}
	flag, ok = cond.(*ssa.Phi)
	if !ok || flag.Block() != h {
		return nil, false, nil
	}
	if body[h.Succs[0]] {
		return flag, neg, h.Succs[1]
	}
	return flag, !neg, h.Succs[0]
}

// rotate: an iteration of a loop controlled by a flag that ends with the flag saying so leaves the loop; it is not
// read as the beginning of another iteration.
func (e *Exec) rotate(rs []Res, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []Res {
	flag, leave, to := flagHeader(h, body)
	if flag == nil {
		return rs
	}
	var out []Res
	for _, r := range rs {
		v, ok := r.fs.fr.regs[flag].(*Term)
		if r.kind != rStop || r.blk != h || !ok {
			out = append(out, r)
			continue
		}
		if !leave {
			v = Not(v)
		}
		if v.isFalse() {
			out = append(out, r)
			continue
		}
		f := r.fs.clone()
		f.st.addPC(v)
		e.edge(f, h, to)
		out = append(out, Res{fs: f, kind: rStop, blk: to})
		if !v.isTrue() {
			r.fs.st.addPC(Not(v))
			out = append(out, r)
		}
	}
	return out
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// progress: an iteration that goes on to the next one changes a loop variable or the measure the contract states with
// vProgress; one that changes nothing would be repeated forever.
func (e *Exec) progress(start, end FS, h *ssa.BasicBlock) {
	if len(e.measures) == 0 || e.quiet > 0 || e.specMode > 0 {
		return
	}
	moved := FALSE
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Next:
			return // a range over a map or text comes to its end
		case *ssa.Phi:
			switch x.Type().Underlying().(type) {
			case *types.Basic, *types.Pointer, *types.Struct:
				moved = Or(moved, Not(e.eqVals(e.get(start, x), e.get(end, x), x.Type(), x.Type())))
			case *types.Slice:
				p, q := e.get(start, x).(*VSlice), e.get(end, x).(*VSlice)
				moved = Or(moved, Not(Eq(p.len, q.len)))
			default:
				return
			}
		}
	}
	for _, m := range e.measures {
		a, b := e.evalInt(start, m), e.evalInt(end, m)
		if a == nil || b == nil {
			return
		}
		moved = Or(moved, Not(Eq(a, b)))
	}
	e.oblige(end.st, e.curName+"/every iteration makes progress in loop of "+fnName(h.Parent()), moved)
}

func (e *Exec) evalInt(fs FS, m iterHook) *Term {
	a := e.closureOf(m.fn)
	e.specMode++
	e.quiet++
	outs := e.callFn(fs.st.clone(), a.fn, nil, a.binds, m.fr.depth+1, true)
	e.quiet--
	e.specMode--
	if len(outs) != 1 {
		return nil
	}
	t, _ := outs[0].ret.(*Term)
	return t
}

// lockBalance: every lock touched in the loop body is in the same state at the back edge as at the header.
func (e *Exec) lockBalance(end, start FS, w *writeSet) {
	for k, lw := range w.leaves {
		var ks []string
		if lw.loc != nil && isMutex(locType(lw.loc)) {
			ks = append(ks, k+"#held")
		}
		for _, key := range ks {
			a := e.leafFor(end.st.leaves, key, 0, 0)
			b := e.leafFor(start.st.leaves, key, 0, 0)
			q := Fresh("lk", 64)
			e.oblige(end.st, e.curName+"/lock balance in loop of "+fnName(start.fr.fn), Eq(a.at([]*Term{q}), b.at([]*Term{q})))
		}
	}
	for id := range w.objs {
		a, b := e.getObj(end.st, id), e.getObj(start.st, id)
		if a == nil || b == nil || a == b {
			continue
		}
		if strings.HasPrefix(a.root, "T:") {
			lockEqs(a.val, b.val, a.rt, func(c *Term) {
				e.oblige(end.st, e.curName+"/lock balance in loop of "+fnName(start.fr.fn), c)
			})
		}
	}
}

func lockEqs(a, b Val, t types.Type, f func(c *Term)) {
	if isMutex(t) {
		f(Eq(a.(*Term), b.(*Term)))
		return
	}
	if isTime(t) {
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		x, y := a.(*VStruct), b.(*VStruct)
		for i := range x.f {
			lockEqs(x.f[i], y.f[i], u.Field(i).Type(), f)
		}
	}
}

func (e *Exec) candidates(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*cand {
	var out []*cand
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	if ph, _, _ := flagHeader(h, body); ph != nil {
		if init, ok := fs.fr.regs[ph].(*Term); ok {
			out = append(out, &cand{ph.Comment + "==init", func(f FS) *Term { return Eq(f.fr.regs[ph].(*Term), init) }})
		}
	}
	for _, ph := range phis {
		ph := ph
		if !isInt(ph.Type()) {
			continue
		}
		init, ok := fs.fr.regs[ph].(*Term)
		if !ok {
			continue
		}
		le := SLe
		if !isSigned(ph.Type()) {
			le = ULe
		}
		out = append(out, &cand{ph.Comment + ">=init", func(f FS) *Term { return le(init, f.fr.regs[ph].(*Term)) }})
		out = append(out, &cand{ph.Comment + "<=init", func(f FS) *Term { return le(f.fr.regs[ph].(*Term), init) }})
	}
	// bounds from the header comparison
	if ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		if cmp, ok := ifi.Cond.(*ssa.BinOp); ok && isInt(cmp.X.Type()) {
			mk := func(name string, rel func(x, y *Term) *Term) *cand {
				return &cand{name, func(f FS) *Term {
					ev := e.evalHeader(f, h)
					if ev == nil {
						return FALSE
					}
					x, ok1 := e.tryGet(*ev, cmp.X)
					y, ok2 := e.tryGet(*ev, cmp.Y)
					if !ok1 || !ok2 {
						return FALSE
					}
					return rel(x.(*Term), y.(*Term))
				}}
			}
			for _, ph := range phis {
				ph := ph
				if !types.Identical(ph.Type(), cmp.X.Type()) {
					continue
				}
				out = append(out, &cand{ph.Comment + "<=bound", func(f FS) *Term {
					ev := e.evalHeader(f, h)
					if ev == nil {
						return FALSE
					}
					y, ok := e.tryGet(*ev, cmp.Y)
					if !ok {
						return FALSE
					}
					return SLe(f.fr.regs[ph].(*Term), y.(*Term))
				}})
			}
			out = append(out, mk("bound<=", func(x, y *Term) *Term { return SLe(x, y) }), mk("bound>=", func(x, y *Term) *Term { return SLe(y, x) }))
		}
	}
	// bounds from comparisons that leave the loop elsewhere
	for _, b := range fs.fr.fn.Blocks {
		if !body[b] || b == h || len(b.Succs) != 2 || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		cmp, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp)
		if !ok || !isInt(cmp.X.Type()) {
			continue
		}
		for _, ph := range phis {
			for _, side := range []ssa.Value{cmp.X, cmp.Y} {
				ph, side := ph, side
				if !types.Identical(ph.Type(), side.Type()) || side == ssa.Value(ph) {
					continue
				}
				if _, ok := e.pureAt(fs, side, body, 0); !ok {
					continue
				}
				le := SLe
				if !isSigned(ph.Type()) {
					le = ULe
				}
				out = append(out, &cand{ph.Comment + "<=" + side.Name(), func(f FS) *Term {
					y, ok := e.pureAt(f, side, body, 0)
					if !ok {
						return FALSE
					}
					return le(f.fr.regs[ph].(*Term), y.(*Term))
				}})
			}
		}
	}
	out = append(out, e.fillCands(fs, h, body)...)
	out = append(out, e.accumCands(fs, h, body)...)
	// user invariants
	for _, iv := range e.invs {
		if iv.fnName != "" && !strings.HasSuffix(fnName(fs.fr.fn), iv.fnName) {
			continue
		}
		iv := iv
		var choose func(k int, acc []func(f FS) Val, label string)
		choose = func(k int, acc []func(f FS) Val, label string) {
			if len(out) > 60 {
				return
			}
			if k == len(iv.params) {
				acc := append([]func(f FS) Val{}, acc...)
				out = append(out, &cand{iv.name + label, func(f FS) *Term {
					args := make([]Val, len(acc))
					for i, a := range acc {
						args[i] = a(f)
					}
					return e.evalBool(f.st, f.fr, iv.fn, args)
				}})
				return
			}
			t := iv.params[k]
			for _, ph := range phis {
				ph := ph
				if types.Identical(ph.Type(), t) {
					choose(k+1, append(acc, func(f FS) Val { return f.fr.regs[ph] }), label+"["+ph.Name()+"]")
					if isInt(t) {
						choose(k+1, append(acc, func(f FS) Val {
							x := f.fr.regs[ph].(*Term)
							return Add(x, BV(x.w, 1))
						}), label+"["+ph.Name()+"+1]")
					}
				}
			}
			// values held in local variables of this function (captured or address-taken)
			for _, v := range e.localsOf(fs, t) {
				v := v
				choose(k+1, append(acc, func(f FS) Val { return e.loadPtr(f.st, f.fr.regs[v].(*VPtr)) }), label+"[*"+v.Name()+"]")
			}
		}
		choose(0, nil, "")
	}
	return out
}

// localsOf lists allocs of the current function holding a value of type t.
func (e *Exec) localsOf(fs FS, t types.Type) []ssa.Value {
	var out []ssa.Value
	for v := range fs.fr.regs {
		if a, ok := v.(*ssa.Alloc); ok && types.Identical(a.Type().(*types.Pointer).Elem(), t) {
			out = append(out, v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
