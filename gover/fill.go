package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Candidate invariants for loops that fill an array: one trial iteration at an arbitrary index k, from the state at
// loop entry, tells what is stored at that index; the candidates say that all indices passed so far hold that value
// and that all others are as they were. They are guesses: like every candidate they are kept only if they hold on
// entry and are preserved by every iteration.

// pureAt gives the value of v in fs, evaluating the instructions that compute it on a copy if need be.
func (e *Exec) pureAt(fs FS, v ssa.Value, body map[*ssa.BasicBlock]bool, depth int) (Val, bool) {
	in, ok := v.(ssa.Instruction)
	if _, phi := v.(*ssa.Phi); phi || !ok || !body[in.Block()] {
		return e.tryGet(fs, v)
	}
	if depth > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return nil, false
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.Slice, *ssa.ChangeType:
	default:
		return nil, false
	}
	c := fs.clone()
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		if _, ok := (*op).(*ssa.Builtin); ok {
			continue
		}
		x, ok := e.pureAt(fs, *op, body, depth+1)
		if !ok {
			return nil, false
		}
		switch (*op).(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		default:
			c.fr.regs[*op] = x
		}
	}
	return e.evalOn(c, in, v)
}

func (e *Exec) evalOn(c FS, in ssa.Instruction, v ssa.Value) (r Val, ok bool) {
	e.quiet++
	e.specMode++
	defer func() {
		e.quiet--
		e.specMode--
		if x := recover(); x != nil {
			if _, is := x.(unsupportedErr); is {
				r, ok = nil, false
				return
			}
			panic(x)
		}
	}()
	os := e.instr(c, in)
	if len(os) != 1 {
		return nil, false
	}
	r, ok = os[0].fr.regs[v]
	return
}

// elemAt gives the element of the array addressed by ia at index j.
func (e *Exec) elemAt(fs FS, ia *ssa.IndexAddr, j *Term, body map[*ssa.BasicBlock]bool) (*Term, bool) {
	x, ok := e.pureAt(fs, ia.X, body, 0)
	if !ok {
		return nil, false
	}
	var p *VPtr
	switch b := x.(type) {
	case *VSlice:
		p = mapLoc(b.base, func(l *Loc) *Loc { return l.child(Step{idx: Add(b.off, j)}) })
	case *VPtr:
		p = mapLoc(b, func(l *Loc) *Loc { return l.child(Step{idx: j}) })
	default:
		return nil, false
	}
	t, ok := e.loadPtr(fs.st, p).(*Term)
	return t, ok
}

type fillStore struct {
	ia *ssa.IndexAddr
	ph *ssa.Phi
}

// fillStores lists the indexed stores of the loop whose index moves with a loop counter, and tells whether there are
// no other writes.
func fillStores(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (out []fillStore, only bool) {
	only = true
	var follow func(v ssa.Value, d int) *ssa.Phi
	follow = func(v ssa.Value, d int) *ssa.Phi {
		if d > 3 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == h {
				return x
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if p := follow(x.X, d+1); p != nil {
					return p
				}
				return follow(x.Y, d+1)
			}
		case *ssa.Convert:
			return follow(x.X, d+1)
		}
		return nil
	}
	for _, b := range h.Parent().Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || !body[ia.Block()] {
					only = false
					continue
				}
				bt, isB := ia.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
				ph := follow(ia.Index, 0)
				if ph == nil || !isB || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					only = false
					continue
				}
				out = append(out, fillStore{ia, ph})
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				only = false
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					only = false
				}
			}
		}
	}
	return out, only
}

func (e *Exec) fillCands(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (out []*cand) {
	stores, _ := fillStores(h, body)
	if len(stores) == 0 || len(stores) > 8 {
		return nil
	}
	exits := stops{h: true}
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] {
				exits[s] = true
			}
		}
	}
	done := map[*ssa.IndexAddr]bool{}
	for _, fst := range stores {
		ia, ph := fst.ia, fst.ph
		init, ok := fs.fr.regs[ph].(*Term)
		if !ok || done[ia] || init.w != 64 {
			continue
		}
		done[ia] = true
		// the trial iteration
		k := FreshUB("fill", 64, 0)
		rs := func() (rs []Res) {
			c := fs.clone()
			c.fr.regs[ph] = k
			c.fr.inLoop[h] = true
			q, sp, nw := e.quiet, e.specMode, len(e.wlogs)
			e.quiet++
			e.loopDepth++
			e.wlogs = append(e.wlogs, newWriteLog())
			defer func() {
				e.quiet, e.specMode = q, sp
				e.wlogs = e.wlogs[:nw]
				e.loopDepth--
				if x := recover(); x != nil {
					if _, is := x.(unsupportedErr); !is {
						panic(x)
					}
					rs = nil
				}
			}()
			more, next, fin := e.block(c, h, exits)
			if !fin {
				more = append(more, e.run(c, next, exits)...)
			}
			return e.mergeRes(more)
		}()
		var end *FS
		n := 0
		for _, r := range rs {
			if r.kind == rStop && r.blk == h {
				f := r.fs
				end = &f
				n++
			}
		}
		if n != 1 {
			continue
		}
		// index and value at the end of the trial iteration; the counter has moved on, so take it back
		back := end.clone()
		back.fr.regs[ph] = k
		ixv, ok := e.pureAt(back, ia.Index, body, 0)
		if !ok {
			continue
		}
		ix := signExt64(ixv.(*Term), ia.Index.Type())
		d := Sub(ix, k)
		if ContainsSym(d, func(t *Term) bool { return t == k }) {
			continue
		}
		val, ok := e.elemAt(back, ia, ix, body)
		if !ok {
			continue
		}
		if os.Getenv("GOVER_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "  fill candidate %s: [k+%s] = %.200s\n", ia.Name(), d.String(), val.String())
		}
		lo := Add(init, d)
		for _, down := range []bool{false, true} {
			down := down
			if down != counterGoesDown(ph, h) {
				continue
			}
			in := func(f FS, j *Term) *Term {
				cur := Add(f.fr.regs[ph].(*Term), d)
				if down {
					return And(SLt(cur, j), SLe(j, lo))
				}
				return And(SLe(lo, j), SLt(j, cur))
			}
			out = append(out, &cand{"filled " + ia.Name(), func(f FS) *Term {
				j := FreshUB("q", 64, lenUB)
				x, ok := e.elemAt(f, ia, j, body)
				if !ok {
					return FALSE
				}
				return Forall([]*Term{j}, Implies(in(f, j), Eq(x, Subst(val, map[*Term]*Term{k: Sub(j, d)}))))
			}}, &cand{"frame of " + ia.Name(), func(f FS) *Term {
				j := FreshUB("q", 64, lenUB)
				x, ok := e.elemAt(f, ia, j, body)
				y, ok2 := e.elemAt(fs, ia, j, body)
				if !ok || !ok2 {
					return FALSE
				}
				return Forall([]*Term{j}, Or(in(f, j), Eq(x, y)))
			}})
		}
	}
	return out
}

func counterGoesDown(ph *ssa.Phi, h *ssa.BasicBlock) bool {
	for _, ed := range ph.Edges {
		b, ok := ed.(*ssa.BinOp)
		if !ok {
			continue
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ssa.Value(ph) {
			continue
		}
		neg := c.Int64() < 0
		if b.Op == token.SUB {
			neg = !neg
		}
		if (b.Op == token.SUB || b.Op == token.ADD) && neg {
			return true
		}
	}
	return false
}

// fillCovers: the loop does nothing but fill arrays, and the candidates say what with.
func (e *Exec) fillCovers(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	stores, only := fillStores(h, body)
	if !only || len(stores) == 0 {
		return false
	}
	for _, c := range e.fillCands(fs, h, body) {
		if !e.proves(fs.st, c.f(fs), time.Second) {
			return false
		}
	}
	return true
}

// accumCands: candidates for loops that collect bytes in a string or slice: what is collected is what was read so
// far from the array that the loop counter runs over.
func (e *Exec) accumCands(fs FS, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (out []*cand) {
	var accs []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch t := ph.Type().Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				accs = append(accs, ph)
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				accs = append(accs, ph)
			}
		}
	}
	if len(accs) == 0 || len(accs) > 4 {
		return nil
	}
	seen := 0
	for _, b := range h.Parent().Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			bt, ok := ia.Type().(*types.Pointer).Elem().Underlying().(*types.Basic)
			if !ok || bt.Kind() != types.Uint8 {
				continue
			}
			i0v, ok := e.pureAt(fs, ia.Index, body, 0)
			if !ok {
				continue
			}
			i0, ok := i0v.(*Term)
			if !ok || i0.w != 64 {
				continue
			}
			if seen++; seen > 3 {
				return
			}
			for _, ph := range accs {
				ph, ia := ph, ia
				length := func(f FS) *Term {
					switch s := f.fr.regs[ph].(type) {
					case *VString:
						return s.len
					case *VSlice:
						return s.len
					}
					return nil
				}
				n0 := length(fs)
				if n0 == nil {
					continue
				}
				out = append(out, &cand{"length of " + ph.Name(), func(f FS) *Term {
					n := length(f)
					ix, ok := e.pureAt(f, ia.Index, body, 0)
					if !ok || n == nil {
						return FALSE
					}
					return Eq(Sub(n, n0), Sub(ix.(*Term), i0))
				}}, &cand{"content of " + ph.Name(), func(f FS) *Term {
					j := FreshUB("q", 64, lenUB)
					n := length(f)
					y, ok := e.elemAt(f, ia, Add(i0, j), body)
					if !ok || n == nil {
						return FALSE
					}
					var x *Term
					switch s := f.fr.regs[ph].(type) {
					case *VString:
						x = s.at(Add(n0, j))
					case *VSlice:
						x, _ = e.sliceAt(f.st, s, Add(n0, j)).(*Term)
					}
					if x == nil {
						return FALSE
					}
					return Forall([]*Term{j}, Implies(ULt(Add(n0, j), n), Eq(x, y)))
				}})
			}
		}
	}
	return out
}
