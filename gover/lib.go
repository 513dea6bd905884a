package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions. Each is an assumed contract on a dependency and is reported as such.

var libModels map[string]model

// inlineOK lists library functions whose real bodies are executed instead of a model.
func inlineOK(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	name := f.String()
	switch pkg {
	case "encoding/binary":
		return strings.Contains(name, "bigEndian)") || strings.Contains(name, "littleEndian)")
	case "math/bits":
		return !strings.Contains(name, "Mul") && !strings.Contains(name, "Div")
	case "bytes":
		switch name {
		case "bytes.Equal", "bytes.NewReader", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "bytes.NewBuffer", "(*bytes.Reader).Len", "(*bytes.Reader).Size",
			"bytes.HasPrefix", "bytes.HasSuffix":
			return true
		}
	case "strings":
		switch name {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix":
			return true
		}
	case "internal/stringslite":
		return strings.Contains(name, "Prefix") || strings.Contains(name, "Suffix")
	case "net":
		switch name {
		case "(net.IP).To4", "net.isZeros", "(net.IP).Equal", "net.IPv4", "(net.IP).To16":
			return true
		}
	case "encoding":
		return true
	case "slices", "maps", "cmp":
		return true
	}
	return false
}

// pureOK lists packages whose remaining functions neither change repository state nor call back into it.
var pureOK = map[string]bool{
	"fmt": true, "errors": true, "strconv": true, "strings": true, "unicode": true, "unicode/utf8": true,
	"net": true, "time": true, "os": true, "io": true, "math": true, "bytes": true, "context": true, "runtime": true,
	"github.com/sirupsen/logrus": true, "log": true, "encoding/hex": true,
}

// endsProcess: the library function does not return (it ends the process or the task).
func endsProcess(fn *ssa.Function) bool {
	p := pkgOf(fn)
	n := fn.Name()
	return p == "os" && n == "Exit" || p == "runtime" && n == "Goexit" ||
		(p == "log" || p == "github.com/sirupsen/logrus") && (strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") || n == "Exit")
}

var writesRx = regexp.MustCompile(`^(Read|Decode|Encode|Put|Append|Copy|Sscan|Fscan|Scan|Unmarshal|Reverse|Sort|Swap|Fill|Write|Set|Peek|Next|Truncate|Reset|Grow)`)

// mayWrite: the library function may write to memory it is given.
func mayWrite(fn *ssa.Function) bool {
	if !writesRx.MatchString(fn.Name()) {
		return false
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		switch ps.At(i).Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Interface:
			return true
		}
	}
	return false
}

func pkgOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func (e *Exec) event(st *State, name string, args ...Val) {
	snap := st.clone()
	vs := make([]Val, len(args))
	for i, a := range args {
		vs[i] = tagVer(a, snap)
	}
	st.events = append(st.events, Event{g: TRUE, kind: "call", name: name, args: vs})
}

// implementers of a closed interface (one with an unexported method): the repository's pointer types.
func (e *Exec) implementers(t types.Type) []types.Type {
	k := typeKey(t)
	if r, ok := e.implMemo[k]; ok {
		return r
	}
	var res []types.Type
	it, ok := t.Underlying().(*types.Interface)
	closed := false
	if ok {
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if !m.Exported() && m.Pkg() != nil && e.repoPkgs[m.Pkg().Path()] {
				closed = true
			}
		}
	}
	if closed {
		for _, p := range e.prog.AllPackages() {
			if !e.repoPkgs[p.Pkg.Path()] {
				continue
			}
			for _, m := range p.Members {
				if tn, ok := m.(*ssa.Type); ok && !types.IsInterface(tn.Type()) {
					pt := types.NewPointer(tn.Type())
					if types.Implements(pt, it) {
						res = append(res, pt)
					}
				}
			}
		}
		sort.Slice(res, func(i, j int) bool { return typeKey(res[i]) < typeKey(res[j]) })
	}
	e.implMemo[k] = res
	return res
}

// opaqueInvoke calls a method on an interface value of unknown dynamic type.
func (e *Exec) opaqueInvoke(fs FS, a IfAlt, c *ssa.CallCommon, args []Val) []Outcome {
	name := c.Method.Name()
	sig := c.Method.Type().(*types.Signature)
	recv := typeKey(c.Value.Type())
	e.note("interface call " + shortKey(recv) + "." + name + " on an unknown implementation: arbitrary result, no effect on repository state")
	r := e.freshResult(sig)
	if name == "GetOpCode" && a.ref != nil && sig.Results().Len() == 1 {
		e.note("GetOpCode depends on the packet only")
		r = App("meth$GetOpCode", r.(*Term).w, a.tag, a.ref)
	}
	if name == "With" && sig.Results().Len() == 1 {
		if p, ok := r.(*VPtr); ok {
			fs.st.addFact(Not(isNilPtr(p)))
			e.note("Logger.With returns a non-nil logger")
		}
	}
	return []Outcome{{fs.st, r}}
}

func one1(c *callCtx, v Val) ([]Outcome, bool) { return []Outcome{{c.st, v}}, true }

func deref(v Val) *Loc {
	p := v.(*VPtr)
	if len(p.alts) != 1 || p.alts[0].loc == nil {
		return nil
	}
	return p.alts[0].loc
}

// ---- encoding/binary ----

type seg struct {
	off, n int
	at     func(i *Term) *Term // byte i of the segment
}

// fixedSize is binary.Size of a type, or -1.
func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
		return -1
	case *types.Array:
		n := fixedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// encodeSegs lists the byte segments of v.
func encodeSegs(v Val, t types.Type, big bool, off int, out *[]seg) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x := v.(*Term)
		if x.w == 0 {
			x = B2BV(x, 8)
		}
		n := x.w / 8
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			b := Extract(x, 8*k+7, 8*k)
			*out = append(*out, seg{off + i, 1, func(*Term) *Term { return b }})
		}
		return off + n
	case *types.Array:
		a := v.(*VArr)
		es := fixedSize(u.Elem())
		if es == 1 && isScalarT(u.Elem()) {
			*out = append(*out, seg{off, int(u.Len()), func(i *Term) *Term {
				t := a.at(i).(*Term)
				if t.w == 0 {
					t = B2BV(t, 8)
				}
				return t
			}})
			return off + int(u.Len())
		}
		for i := int64(0); i < u.Len(); i++ {
			off = encodeSegs(a.at(I64(i)), u.Elem(), big, off, out)
		}
		return off
	case *types.Struct:
		s := v.(*VStruct)
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if u.Field(i).Name() == "_" {
				*out = append(*out, seg{off, n, func(*Term) *Term { return BV(8, 0) }})
				off += n
				continue
			}
			off = encodeSegs(s.f[i], u.Field(i).Type(), big, off, out)
		}
		return off
	}
	panic(unsupported("binary encoding of " + t.String()))
}

func segAt(segs []seg, i *Term) *Term {
	if i.isConst() {
		for _, s := range segs {
			if i.val >= uint64(s.off) && i.val < uint64(s.off+s.n) {
				return s.at(I64(int64(i.val) - int64(s.off)))
			}
		}
		return BV(8, 0)
	}
	r := BV(8, 0)
	for k := len(segs) - 1; k >= 0; k-- {
		s := segs[k]
		d := Sub(i, I64(int64(s.off)))
		var c *Term
		if s.n == 1 {
			c = Eq(i, I64(int64(s.off)))
		} else {
			c = And(ULe(I64(int64(s.off)), i), ULt(i, I64(int64(s.off+s.n))))
		}
		if c.isFalse() {
			continue
		}
		r = Ite(c, s.at(d), r)
	}
	return r
}

// decodeVal builds the value of type t read from bytes at(off...). old supplies blank fields.
func decodeVal(t types.Type, big bool, off int, at func(i *Term) *Term, old Val) (Val, int) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := fixedSize(t)
		var r *Term
		for i := 0; i < n; i++ {
			b := at(I64(int64(off + i)))
			switch {
			case r == nil:
				r = b
			case big:
				r = Concat(r, b)
			default:
				r = Concat(b, r)
			}
		}
		if u.Kind() == types.Bool {
			return Not(Eq(r, BV(8, 0))), off + n
		}
		if basicWidth(u) < 0 {
			return VOpaque{"float"}, off + n
		}
		return r, off + n
	case *types.Array:
		es := fixedSize(u.Elem())
		if es == 1 && isScalarT(u.Elem()) && u.Elem().Underlying().(*types.Basic).Kind() != types.Bool {
			o := I64(int64(off))
			return newArr(u.Elem(), I64(u.Len()), func(i *Term) Val { return at(Add(o, i)) }), off + int(u.Len())
		}
		oa, _ := old.(*VArr)
		var arr *VArr = newArr(u.Elem(), I64(u.Len()), func(i *Term) Val { return zeroVal(u.Elem()) })
		for i := int64(0); i < u.Len(); i++ {
			var ov Val
			if oa != nil {
				ov = oa.at(I64(i))
			}
			var v Val
			v, off = decodeVal(u.Elem(), big, off, at, ov)
			arr = arr.set(I64(i), v)
		}
		return arr, off
	case *types.Struct:
		os := old.(*VStruct)
		f := make([]Val, u.NumFields())
		for i := range f {
			if u.Field(i).Name() == "_" {
				f[i] = os.f[i]
				off += fixedSize(u.Field(i).Type())
				continue
			}
			f[i], off = decodeVal(u.Field(i).Type(), big, off, at, os.f[i])
		}
		return &VStruct{typ: u, f: f}, off
	}
	panic(unsupported("binary decoding of " + t.String()))
}

func hasUnexported(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return hasUnexported(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() != "_" && !f.Exported() && !f.Embedded() {
				return true
			}
			if hasUnexported(f.Type()) {
				return true
			}
		}
	}
	return false
}

func orderBig(v Val) (bool, bool) {
	i := v.(*VIface)
	if len(i.alts) != 1 || i.alts[0].dyn == nil {
		return false, false
	}
	k := typeKey(i.alts[0].dyn)
	switch k {
	case "encoding/binary.bigEndian":
		return true, true
	case "encoding/binary.littleEndian":
		return false, true
	}
	return false, false
}

// ifaceCases splits an interface argument into its alternatives (feasible ones), each in its own state.
func (e *Exec) ifaceCases(c *callCtx, v Val, f func(st *State, a IfAlt) []Outcome) []Outcome {
	iv := v.(*VIface)
	var outs []Outcome
	for _, a := range iv.alts {
		if a.g.isFalse() {
			continue
		}
		s := c.st
		if len(iv.alts) > 1 {
			s = c.st.clone()
			if !e.feasible(s, a.g) {
				continue
			}
			s.addPC(a.g)
		}
		outs = append(outs, f(s, a)...)
	}
	return e.mergeOutcomes(outs)
}

func (e *Exec) binaryWrite(c *callCtx) ([]Outcome, bool) {
	big, ok := orderBig(c.args[1])
	if !ok {
		panic(unsupported("binary.Write byte order"))
	}
	e.note("encoding/binary.Write: fields in order, blank fields as zero bytes, fixed-size data only")
	return e.ifaceCases(c, c.args[0], func(st *State, w IfAlt) []Outcome {
		if w.dyn == nil || typeKey(w.dyn) != "*bytes.Buffer" {
			panic(unsupported("binary.Write to a writer other than *bytes.Buffer"))
		}
		c2 := *c
		c2.st = st
		return e.ifaceCases(&c2, c.args[2], func(st *State, d IfAlt) []Outcome {
			if d.dyn == nil {
				panic(unsupported("binary.Write of unknown data"))
			}
			t := d.dyn
			v := d.val
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				if fixedSize(t) < 0 {
					return []Outcome{{st, e.newError("binary.Write: invalid type")}}
				}
				if !e.require(st, c.fr, "nil dereference", Not(isNilPtr(v.(*VPtr)))) {
					return nil
				}
				v = e.loadPtr(st, v.(*VPtr))
			}
			var n *Term
			var at func(i *Term) Val
			if sl, ok := t.Underlying().(*types.Slice); ok {
				if fixedSize(sl.Elem()) != 1 {
					panic(unsupported("binary.Write of a slice"))
				}
				n, at = e.sourceOf(st, v)
			} else {
				sz := fixedSize(t)
				if sz < 0 {
					return []Outcome{{st, e.newError("binary.Write: invalid type")}}
				}
				var segs []seg
				encodeSegs(v, t, big, 0, &segs)
				n = I64(int64(sz))
				at = func(i *Term) Val { return segAt(segs, i) }
			}
			e.bufAppend(st, w.val.(*VPtr), n, at)
			return []Outcome{{st, nilIface()}}
		})
	}), true
}

// bufAppend appends bytes to a bytes.Buffer.
func (e *Exec) bufAppend(st *State, buf *VPtr, n *Term, at func(i *Term) Val) {
	l := deref(buf)
	if l == nil {
		panic(unsupported("bytes.Buffer pointer"))
	}
	bt := l.rt.Underlying().(*types.Struct)
	fi := fieldIndex(bt, "buf")
	fl := l.child(Step{field: fi})
	s := e.load(st, fl).(*VSlice)
	z := BV(64, 0)
	tmp := &VString{len: n, at: func(i *Term) *Term { return at(i).(*Term) }}
	if s.len == z {
		ns := e.newSlice(st, types.Typ[types.Uint8], n, n, func(i *Term) Val { return at(i) })
		e.store(st, fl, ns)
		return
	}
	e.store(st, fl, e.appendOp(st, s, tmp, types.Typ[types.Uint8]))
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("library field " + name))
}

func (e *Exec) binaryRead(c *callCtx) ([]Outcome, bool) {
	big, ok := orderBig(c.args[1])
	if !ok {
		panic(unsupported("binary.Read byte order"))
	}
	e.note("encoding/binary.Read: reads exactly the fixed size or fails leaving the data unchanged; blank fields skipped")
	return e.ifaceCases(c, c.args[0], func(st *State, r IfAlt) []Outcome {
		if r.dyn == nil || (typeKey(r.dyn) != "*bytes.Reader" && typeKey(r.dyn) != "*bytes.Buffer") {
			panic(unsupported("binary.Read from a reader other than *bytes.Reader"))
		}
		isBuf := typeKey(r.dyn) == "*bytes.Buffer"
		c2 := *c
		c2.st = st
		return e.ifaceCases(&c2, c.args[2], func(st *State, d IfAlt) []Outcome {
			if d.dyn == nil {
				panic(unsupported("binary.Read into unknown data"))
			}
			p, ok := d.dyn.Underlying().(*types.Pointer)
			if !ok || fixedSize(p.Elem()) < 0 {
				return []Outcome{{st, e.newError("binary.Read: invalid type")}}
			}
			t := p.Elem()
			if hasUnexported(t) {
				if !e.require(st, c.fr, "binary.Read into unexported field", FALSE) {
					return nil
				}
			}
			if !e.require(st, c.fr, "nil dereference", Not(isNilPtr(d.val.(*VPtr)))) {
				return nil
			}
			sz := I64(int64(fixedSize(t)))
			rl := deref(r.val)
			if rl == nil {
				panic(unsupported("bytes.Reader pointer"))
			}
			rt := rl.rt.Underlying().(*types.Struct)
			sname, iname := "s", "i"
			if isBuf {
				sname, iname = "buf", "off"
			}
			sl := e.load(st, rl.child(Step{field: fieldIndex(rt, sname)})).(*VSlice)
			il := rl.child(Step{field: fieldIndex(rt, iname)})
			pos := e.load(st, il).(*Term)
			avail := Sub(sl.len, pos)
			okc := And(ULe(pos, sl.len), ULe(sz, avail))
			var outs []Outcome
			if !okc.isTrue() && e.feasible(st, Not(okc)) {
				s := st.clone()
				s.addPC(Not(okc))
				e.store(s, il, sl.len)
				eof := e.errGlobal("io", "EOF")
				uex := e.errGlobal("io", "ErrUnexpectedEOF")
				outs = append(outs, Outcome{s, merge(ULe(sl.len, pos), eof, uex)})
			}
			if !okc.isFalse() && e.feasible(st, okc) {
				s := st.clone()
				s.addPC(okc)
				frozen := s.clone()
				at := func(i *Term) *Term { return e.sliceAt(frozen, sl, Add(pos, i)).(*Term) }
				for _, a := range d.val.(*VPtr).alts {
					if a.loc == nil {
						continue
					}
					old := e.load(s, a.loc)
					v, _ := decodeVal(t, big, 0, at, old)
					e.storeIf(s, a.g, a.loc, v)
				}
				e.store(s, il, Add(pos, sz))
				outs = append(outs, Outcome{s, nilIface()})
			}
			return outs
		})
	}), true
}

// errGlobal is the value of a library error variable.
func (e *Exec) errGlobal(pkg, name string) Val {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return e.newError(pkg + "." + name)
	}
	g := p.Members[name].(*ssa.Global)
	l := e.globalLoc(g)
	return e.lazyObjs[l.obj].val
}

// ---- formatting ----

// decimal is the decimal rendering of an unsigned 32-bit term below bound.
func decimal(v *Term, ub uint64) *VString {
	if v.isConst() {
		return strLit(fmt.Sprintf("%d", v.val))
	}
	digits := 1
	for p := uint64(10); p < ub; p *= 10 {
		digits++
	}
	pow := func(k int) *Term {
		r := uint64(1)
		for i := 0; i < k; i++ {
			r *= 10
		}
		return BV(32, r)
	}
	ln := I64(1)
	for k := 1; k < digits; k++ {
		ln = Ite(ULe(pow(k), v), I64(int64(k+1)), ln)
	}
	dig := make([]*Term, digits) // dig[k] = k-th digit from the right
	for k := range dig {
		d := v
		if k > 0 {
			d = bin(OUDiv, v, pow(k))
		}
		if k < digits-1 {
			d = bin(OURem, d, BV(32, 10))
		}
		dig[k] = Add(BV(8, '0'), Extract(d, 7, 0))
	}
	return &VString{len: ln, at: func(i *Term) *Term {
		// digit index from the right: len-1-i
		r := BV(8, 0)
		for k := range dig {
			r = Ite(Eq(Add(i, I64(int64(k+1))), ln), dig[k], r)
		}
		return r
	}}
}

func (e *Exec) sprintf(c *callCtx, format string, args []Val) *VString {
	st := c.st
	_ = st
	res := strLit("")
	k := 0
	flush := func(s string) { res = strConcat(res, strLit(s)) }
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(format) && strings.ContainsRune("0123456789.+#- ", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			return nil
		}
		verb := format[j]
		flags := format[i:j]
		i = j
		flush(lit)
		lit = ""
		if k >= len(args) {
			return nil
		}
		iv, ok := args[k].(*VIface)
		k++
		if !ok || len(iv.alts) != 1 || iv.alts[0].dyn == nil {
			return nil
		}
		t, v := iv.alts[0].dyn, iv.alts[0].val
		switch x := v.(type) {
		case *VString:
			if (verb == 's' || verb == 'v') && flags == "" {
				res = strConcat(res, x)
				continue
			}
			return nil
		case *Term:
			if x.w == 0 {
				if x.isConst() {
					lit += fmt.Sprintf("%"+flags+string(verb), x.isTrue())
					continue
				}
				if verb == 'v' || verb == 't' {
					res = strConcat(res, merge(x, strLit("true"), strLit("false")).(*VString))
					continue
				}
				return nil
			}
			if verb == 's' || verb == 'v' {
				if m := e.prog.LookupMethod(t, nil, "String"); m != nil {
					// Stringer: call it
					outs := e.dispatch(FS{c.st, c.fr}, m, []Val{v}, nil, nil)
					if len(outs) != 1 || outs[0].st != c.st {
						return nil
					}
					res = strConcat(res, outs[0].ret.(*VString))
					continue
				}
			}
			if x.isConst() {
				if isSigned(t) {
					lit += fmt.Sprintf("%"+flags+string(verb), int64(sx(x.val, x.w)))
				} else {
					lit += fmt.Sprintf("%"+flags+string(verb), x.val)
				}
				continue
			}
			if flags != "" || (verb != 'd' && verb != 'v') {
				return nil
			}
			w := x
			ub := x.ub
			if w.w < 32 {
				if isSigned(t) && !nonneg(w) {
					return nil
				}
				if ub == 0 {
					ub = 1 << uint(w.w)
				}
				w = ZExt(w, 32)
			} else if w.w == 64 {
				if ub == 0 || ub > 1<<20 {
					return nil
				}
				w = Extract(w, 31, 0)
			} else if ub == 0 || ub > 1<<20 {
				return nil
			}
			res = strConcat(res, decimal(w, ub))
		default:
			return nil
		}
	}
	flush(lit)
	if k != len(args) {
		return nil
	}
	return res
}

// varargs reads the variadic interface slice of a call.
func (e *Exec) varargs(st *State, v Val) ([]Val, bool) {
	s, ok := v.(*VSlice)
	if !ok || !s.len.isConst() {
		return nil, false
	}
	var out []Val
	for i := uint64(0); i < s.len.val; i++ {
		out = append(out, e.sliceAt(st, s, BV(64, i)))
	}
	return out, true
}

func (e *Exec) freshString(c *callCtx, what string) *VString {
	return e.freshVal(types.Typ[types.String], what, inputBase).(*VString)
}

// ---- table ----

func init() {
	newErr := func(e *Exec, c *callCtx) ([]Outcome, bool) {
		return one1(c, e.newError(c.fn.String()))
	}
	lock := func(e *Exec, c *callCtx) ([]Outcome, bool) {
		p := c.args[0].(*VPtr)
		read := c.fn.Name() == "RLock"
		if !e.require(c.st, c.fr, "nil dereference", Not(isNilPtr(p))) {
			return nil, true
		}
		e.noAccess++
		held := e.loadPtr(c.st, p).(*Term)
		e.noAccess--
		if !e.require(c.st, c.fr, "lock acquired while already held", Not(held)) {
			return nil, true
		}
		e.noAccess++
		e.storePtr(c.st, p, TRUE)
		e.noAccess--
		c.st.setRd(lockKey(p), read)
		c.st.events = append(c.st.events, Event{g: TRUE, kind: "lock", args: []Val{p}})
		for _, m := range e.monitors {
			if eq := ptrEq(m.lock, p); !eq.isFalse() {
				if !eq.isTrue() {
					panic(unsupported("monitor on an unknown lock"))
				}
				if e.specMode == 0 {
					e.havocKeys(c.st, m.keys)
					t := e.evalBool(c.st, c.fr, m.fn, nil)
					c.st.addFact(t)
					c.st.events = append(c.st.events, Event{g: TRUE, kind: "acquired"})
				}
			}
		}
		return one1(c, nil)
	}
	unlock := func(e *Exec, c *callCtx) ([]Outcome, bool) {
		p := c.args[0].(*VPtr)
		e.noAccess++
		held := e.loadPtr(c.st, p).(*Term)
		e.noAccess--
		if !e.require(c.st, c.fr, "unlock of unlocked mutex", held) {
			return nil, true
		}
		if c.st.rd[lockKey(p)] != (c.fn.Name() == "RUnlock") {
			if !e.require(c.st, c.fr, "unlock of a lock held in another mode", FALSE) {
				return nil, true
			}
		}
		for _, m := range e.monitors {
			if eq := ptrEq(m.lock, p); !eq.isFalse() && e.specMode == 0 {
				e.oblige(c.st, e.curName+"/what other tasks rely on holds when the lock is released", e.evalBool(c.st, c.fr, m.fn, nil))
			}
		}
		c.st.setRd(lockKey(p), false)
		e.noAccess++
		e.storePtr(c.st, p, FALSE)
		e.noAccess--
		c.st.events = append(c.st.events, Event{g: TRUE, kind: "unlock", args: []Val{p}})
		return one1(c, nil)
	}
	tNow := func(e *Exec, st *State) *Term {
		n := FreshUB("now", 64, timeUB)
		st.addFact(ULe(st.now, n))
		st.now = n
		return n
	}
	libModels = map[string]model{
		"encoding/binary.Write": func(e *Exec, c *callCtx) ([]Outcome, bool) { return e.binaryWrite(c) },
		"encoding/binary.Read":  func(e *Exec, c *callCtx) ([]Outcome, bool) { return e.binaryRead(c) },
		"encoding/binary.Size": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			iv := c.args[0].(*VIface)
			if len(iv.alts) == 1 && iv.alts[0].dyn != nil {
				t := iv.alts[0].dyn
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if n := fixedSize(t); n >= 0 {
					return one1(c, I64(int64(n)))
				}
			}
			panic(unsupported("binary.Size"))
		},
		"(*bytes.Buffer).Write": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n, at := e.sourceOf(c.st, c.args[1])
			e.bufAppend(c.st, c.args[0].(*VPtr), n, at)
			return one1(c, &VTuple{[]Val{n, nilIface()}})
		},
		"(*bytes.Buffer).WriteString": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n, at := e.sourceOf(c.st, c.args[1])
			e.bufAppend(c.st, c.args[0].(*VPtr), n, at)
			return one1(c, &VTuple{[]Val{n, nilIface()}})
		},
		"(*bytes.Buffer).WriteByte": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			b := c.args[1].(*Term)
			e.bufAppend(c.st, c.args[0].(*VPtr), I64(1), func(*Term) Val { return b })
			return one1(c, nilIface())
		},
		"internal/bytealg.Equal": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, e.bytesEq(c.st, c.args[0].(*VSlice), c.args[1].(*VSlice)))
		},
		"bytes.Equal": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, e.bytesEq(c.st, c.args[0].(*VSlice), c.args[1].(*VSlice)))
		},
		"(*bytes.Buffer).String":         builderString,
		"(*strings.Builder).String":      builderString,
		"(*strings.Builder).Len":         builderLen,
		"(*strings.Builder).Grow":        builderGrow,
		"(*strings.Builder).WriteString": builderWrite,
		"(*strings.Builder).Write":       builderWrite,
		"(*strings.Builder).WriteByte":   builderWrite,
		"(*strings.Builder).WriteRune":   builderWrite,
		"strings.Join": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			as, ok := e.varargs(c.st, c.args[0])
			if !ok || len(as) > 64 {
				return one1(c, e.freshString(c, "join"))
			}
			r := strLit("")
			for i, a := range as {
				if i > 0 {
					r = strConcat(r, c.args[1].(*VString))
				}
				r = strConcat(r, a.(*VString))
			}
			return one1(c, r)
		},
		"strings.Repeat": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			n := c.args[1].(*Term)
			if !e.require(c.st, c.fr, "negative Repeat count", SLe(BV(64, 0), n)) {
				return nil, true
			}
			if !n.isConst() || n.val > 64 {
				return one1(c, e.freshString(c, "repeat"))
			}
			r := strLit("")
			for i := uint64(0); i < n.val; i++ {
				r = strConcat(r, c.args[0].(*VString))
			}
			return one1(c, r)
		},
		"bytes.IndexByte":   func(e *Exec, c *callCtx) ([]Outcome, bool) { return e.indexByte(c) },
		"strings.IndexByte": func(e *Exec, c *callCtx) ([]Outcome, bool) { return e.indexByte(c) },
		"errors.New":        newErr,
		"errors.Is": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			a, b := c.args[0].(*VIface), c.args[1].(*VIface)
			return one1(c, Or(valEq(a, b, nil), And(Not(ifaceNil(a)), Not(ifaceNil(b)), Fresh("errIs", 0))))
		},
		"fmt.Errorf": newErr,
		"fmt.Sprintf": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			f, ok := c.args[0].(*VString)
			if ok && f.lit != nil {
				if as, ok := e.varargs(c.st, c.args[1]); ok {
					if s := e.sprintf(c, *f.lit, as); s != nil {
						e.note("fmt.Sprintf: literal text with %d/%s/%v of integers and strings")
						return one1(c, s)
					}
				}
			}
			return one1(c, e.freshString(c, "sprintf"))
		},
		"strconv.Itoa": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			x := c.args[0].(*Term)
			if x.isConst() {
				return one1(c, strLit(fmt.Sprint(int64(x.val))))
			}
			if x.ub != 0 && x.ub <= 1<<20 {
				return one1(c, decimal(Extract(x, 31, 0), x.ub))
			}
			return one1(c, e.freshString(c, "itoa"))
		},
		"(*sync.Mutex).Lock":      lock,
		"(*sync.Mutex).Unlock":    unlock,
		"(*sync.RWMutex).Lock":    lock,
		"(*sync.RWMutex).Unlock":  unlock,
		"(*sync.RWMutex).RLock":   lock,
		"(*sync.RWMutex).RUnlock": unlock,
		"time.Now": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.note("time.Now: monotone abstract clock in nanoseconds")
			return one1(c, tNow(e, c.st))
		},
		"time.Since": func(e *Exec, c *callCtx) ([]Outcome, bool) { return one1(c, Sub(tNow(e, c.st), c.args[0].(*Term))) },
		"time.Until": func(e *Exec, c *callCtx) ([]Outcome, bool) { return one1(c, Sub(c.args[0].(*Term), tNow(e, c.st))) },
		"(time.Time).Add": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, Add(c.args[0].(*Term), c.args[1].(*Term)))
		},
		"(time.Time).Sub": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, Sub(c.args[0].(*Term), c.args[1].(*Term)))
		},
		"(time.Time).Before": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, SLt(c.args[0].(*Term), c.args[1].(*Term)))
		},
		"(time.Time).After": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, SLt(c.args[1].(*Term), c.args[0].(*Term)))
		},
		"(time.Time).Equal": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, Eq(c.args[1].(*Term), c.args[0].(*Term)))
		},
		"(time.Time).Compare": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			a, b := c.args[0].(*Term), c.args[1].(*Term)
			return one1(c, Ite(SLt(a, b), BV(64, ^uint64(0)), Ite(Eq(a, b), BV(64, 0), BV(64, 1))))
		},
		"(time.Time).IsZero": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, Eq(c.args[0].(*Term), BV(64, 0)))
		},
		"(time.Time).UnixNano": func(e *Exec, c *callCtx) ([]Outcome, bool) { return one1(c, c.args[0]) },
		"time.NewTicker": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			d := c.args[0].(*Term)
			if !e.require(c.st, c.fr, "non-positive interval for NewTicker", SLt(BV(64, 0), d)) {
				return nil, true
			}
			t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
			st := t.Underlying().(*types.Struct)
			v := zeroVal(t).(*VStruct)
			fi := fieldIndex(st, "C")
			ct := st.Field(fi).Type().Underlying().(*types.Chan)
			f := append([]Val{}, v.f...)
			f[fi] = ptrTo(e.alloc(c.st, rootC(ct), ct, FALSE))
			l := e.alloc(c.st, rootT(t), t, &VStruct{typ: v.typ, f: f})
			e.event(c.st, "time.NewTicker", d)
			return one1(c, ptrTo(l))
		},
		"(*time.Ticker).Stop": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			if !e.require(c.st, c.fr, "nil dereference", Not(isNilPtr(c.args[0].(*VPtr)))) {
				return nil, true
			}
			e.event(c.st, "Ticker.Stop", c.args[0])
			return one1(c, nil)
		},
		"(*time.Ticker).Reset": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			if !e.require(c.st, c.fr, "nil dereference", Not(isNilPtr(c.args[0].(*VPtr)))) {
				return nil, true
			}
			if !e.require(c.st, c.fr, "non-positive interval for Ticker.Reset", SLt(BV(64, 0), c.args[1].(*Term))) {
				return nil, true
			}
			e.event(c.st, "Ticker.Reset", c.args[0], c.args[1])
			return one1(c, nil)
		},
		"time.Sleep": func(e *Exec, c *callCtx) ([]Outcome, bool) { tNow(e, c.st); return one1(c, nil) },
		"time.After": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			return one1(c, e.freshChan(c, c.sig.Results().At(0).Type()))
		},
		"net.ListenPacket": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.event(c.st, "net.ListenPacket", c.args[0], c.args[1])
			e.note("net.ListenPacket(\"udp4\") returns a non-nil *net.UDPConn or a non-nil error")
			return e.openSocket(c, true)
		},
		"net.ListenUDP": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.event(c.st, "net.ListenUDP", c.args[0], c.args[1])
			e.note("net.ListenUDP returns a non-nil *net.UDPConn or a non-nil error")
			return e.openSocket(c, false)
		},
		"(*net.UDPConn).ReadFromUDP": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.note("(*net.UDPConn).ReadFromUDP: stores an arbitrary datagram in a prefix of the buffer; the address is non-nil if there is no error")
			if e.onSocketRead != nil {
				e.onSocketRead(c)
			}
			buf := c.args[1].(*VSlice)
			freshCtr++
			nm := fmt.Sprintf("net!%d", freshCtr)
			for _, a := range buf.base.alts {
				if a.loc != nil {
					e.storeRange(c.st, a.g, a.loc, buf.off, buf.len, func(i *Term) Val { return App(nm, 8, i) })
				}
			}
			n := FreshUB("rdn", 64, lenUB)
			c.st.addFact(ULe(n, buf.len))
			rt := c.sig.Results()
			from := e.freshVal(rt.At(1).Type(), "from", inputBase).(*VPtr)
			er := e.freshVal(rt.At(2).Type(), "rderr", inputBase).(*VIface)
			c.st.addFact(Implies(ifaceNil(er), Not(isNilPtr(from))))
			e.event(c.st, "ReadFromUDP", buf, n, from, er)
			return one1(c, &VTuple{[]Val{n, from, er}})
		},
		"(*net.UDPConn).WriteToUDP": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			if e.onSocketWrite != nil {
				e.onSocketWrite(c)
			}
			e.event(c.st, "WriteToUDP", c.args[1], c.args[2])
			e.note("(*net.UDPConn).WriteToUDP: arbitrary result, does not change its arguments")
			return one1(c, e.freshResult(c.sig))
		},
		"(*net.UDPConn).Close": func(e *Exec, c *callCtx) ([]Outcome, bool) {
			e.event(c.st, "UDPConn.Close", c.args[0])
			return one1(c, e.freshResult(c.sig))
		},
	}
	// promoted methods of the embedded conn
	libModels["(*net.conn).Close"] = libModels["(*net.UDPConn).Close"]
}

func (e *Exec) freshChan(c *callCtx, t types.Type) Val {
	ct := t.Underlying().(*types.Chan)
	return ptrTo(e.alloc(c.st, rootC(ct), ct, FALSE))
}

func (e *Exec) openSocket(c *callCtx, iface bool) ([]Outcome, bool) {
	rt := c.sig.Results()
	s2 := c.st.clone()
	var v Val
	var ut types.Type
	if iface {
		p := e.prog.ImportedPackage("net")
		ut = types.NewPointer(p.Type("UDPConn").Type())
	} else {
		ut = rt.At(0).Type()
	}
	p := e.freshVal(ut, "conn", inputBase).(*VPtr)
	ok := Fresh("listenok", 0)
	c.st.addPC(ok)
	c.st.addFact(Not(isNilPtr(p)))
	v = p
	if iface {
		v = &VIface{alts: []IfAlt{{g: TRUE, dyn: ut, val: p}}}
	}
	s2.addPC(Not(ok))
	return []Outcome{
		{c.st, &VTuple{[]Val{v, nilIface()}}},
		{s2, &VTuple{[]Val{zeroVal(rt.At(0).Type()), e.newError("listen")}}},
	}, true
}

func (e *Exec) bytesEq(st *State, a, b *VSlice) *Term {
	mk := func(s *VSlice) *VString {
		frozen := st.clone()
		return &VString{len: s.len, at: func(i *Term) *Term {
			r := e.sliceAt(frozen, s, i)
			if r == nil {
				return BV(8, 0)
			}
			return r.(*Term)
		}}
	}
	x, y := mk(a), mk(b)
	for _, n := range []*Term{x.len, y.len} {
		if !n.isConst() && e.valid(st, ULe(n, BV(64, 16)), time.Second) {
			// short sequences (addresses): compare without a quantifier
			r := Eq(x.len, y.len)
			for k := int64(0); k < 16; k++ {
				r = And(r, Or(ULe(n, I64(k)), Eq(x.at(I64(k)), y.at(I64(k)))))
			}
			return r
		}
	}
	return strEq(x, y)
}

// ---- strings.Builder ----

// textOf gives the text in a strings.Builder or unread bytes.Buffer, and where it is kept.
func (e *Exec) textOf(c *callCtx) (*VString, *Loc, bool) {
	p := c.args[0].(*VPtr)
	if !e.require(c.st, c.fr, "nil dereference", Not(isNilPtr(p))) {
		return nil, nil, false
	}
	l := deref(p)
	if l == nil {
		panic(unsupported(c.fn.String() + " of an unknown builder"))
	}
	bt := l.rt.Underlying().(*types.Struct)
	fl := l.child(Step{field: fieldIndex(bt, "buf")})
	s, ok := e.load(c.st, fl).(*VSlice)
	if !ok {
		panic(unsupported("contents of a builder"))
	}
	if s.len.isConst() && s.len.val == 0 {
		return strLit(""), fl, true
	}
	n, at := e.sourceOf(c.st, s)
	return &VString{len: n, at: func(i *Term) *Term { return at(i).(*Term) }}, fl, true
}

func builderString(e *Exec, c *callCtx) ([]Outcome, bool) {
	s, _, ok := e.textOf(c)
	if !ok {
		return nil, true
	}
	if c.fn.String() == "(*bytes.Buffer).String" {
		l := deref(c.args[0])
		off := e.load(c.st, l.child(Step{field: fieldIndex(l.rt.Underlying().(*types.Struct), "off")})).(*Term)
		if !off.isConst() || off.val != 0 {
			return one1(c, e.freshString(c, "bufstr"))
		}
	}
	return one1(c, s)
}

func builderLen(e *Exec, c *callCtx) ([]Outcome, bool) {
	s, _, ok := e.textOf(c)
	if !ok {
		return nil, true
	}
	return one1(c, s.len)
}

func builderGrow(e *Exec, c *callCtx) ([]Outcome, bool) {
	if !e.require(c.st, c.fr, "negative Grow count", SLe(BV(64, 0), c.args[1].(*Term))) {
		return nil, true
	}
	return one1(c, nil)
}

func builderWrite(e *Exec, c *callCtx) ([]Outcome, bool) {
	s, fl, ok := e.textOf(c)
	if !ok {
		return nil, true
	}
	var add *VString
	var res Val
	switch c.fn.Name() {
	case "WriteByte":
		b := c.args[1].(*Term)
		add = &VString{len: I64(1), at: func(*Term) *Term { return b }}
		res = nilIface()
	case "WriteRune":
		add = e.runeText(c.st, SExt(c.args[1].(*Term), 64))
		res = &VTuple{[]Val{add.len, nilIface()}}
	default:
		n, at := e.sourceOf(c.st, c.args[1])
		add = &VString{len: n, at: func(i *Term) *Term { return at(i).(*Term) }}
		if v, ok := c.args[1].(*VString); ok {
			add = v
		}
		res = &VTuple{[]Val{n, nilIface()}}
	}
	e.note("strings.Builder: appends; the capacity is not observed, copying a builder is not checked")
	t := strConcat(s, add)
	e.store(c.st, fl, e.newSlice(c.st, types.Typ[types.Uint8], t.len, t.len, func(i *Term) Val { return t.at(i) }))
	return one1(c, res)
}

func (e *Exec) indexByte(c *callCtx) ([]Outcome, bool) {
	n, at0 := e.sourceOf(c.st, c.args[0])
	at := func(i *Term) *Term { return at0(i).(*Term) }
	b := c.args[1].(*Term)
	m1 := BV(64, ^uint64(0))
	if n.isConst() && n.val <= 512 {
		r := m1
		for i := int64(n.val) - 1; i >= 0; i-- {
			r = Ite(Eq(at(I64(i)), b), I64(i), r)
		}
		return one1(c, r)
	}
	r := Fresh("idx", 64)
	q := Fresh("q", 64)
	before := Forall([]*Term{q}, Or(Not(ULt(q, n)), Not(And(Or(Eq(r, m1), ULt(q, r)))), Not(Eq(at(q), b))))
	c.st.addFact(before)
	c.st.addFact(Or(Eq(r, m1), And(ULt(r, n), Eq(at(r), b))))
	return one1(c, r)
}
