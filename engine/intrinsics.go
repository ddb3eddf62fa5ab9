package main

import (
	"fmt"
	"go/types"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value

func (e *Engine) intrinsic(fn *ssa.Function) intrinsicFn {
	if h, ok := e.intrCache(fn); ok {
		return h
	}
	return nil
}

func (e *Engine) intrCache(fn *ssa.Function) (intrinsicFn, bool) {
	e.fnMu.Lock()
	defer e.fnMu.Unlock()
	if e.intr == nil {
		e.intr = intrinsics()
		intrByFn = map[*ssa.Function]intrinsicFn{}
	}
	if h, ok := intrByFn[fn]; ok {
		return h, h != nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	h := e.intr[name]
	if h == nil && strings.HasPrefix(name, "sync/atomic.") {
		h = atomicIntrinsic(strings.TrimPrefix(name, "sync/atomic."))
	}
	if h == nil && strings.HasPrefix(name, "(*sync/atomic.") {
		h = atomicMethod(name)
	}
	intrByFn[fn] = h
	return h, h != nil
}

var intrByFn map[*ssa.Function]intrinsicFn

func (p *Path) str(v Value) string {
	s := v.(*Str)
	if s.sym != nil {
		panic(unsupported{"symbolic string where a concrete one is needed"})
	}
	return s.s
}

func identity(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
func nop(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
	return zeroResults(p.tb, fn)
}

// bitLen is bits.Len as a chain of if-then-else terms.
func (p *Path) bitLen(x *Term) *Term {
	tb := p.tb
	if x.isConst() {
		n := 0
		for v := x.val; v != 0; v >>= 1 {
			n++
		}
		return tb.Const(uint64(n), 64)
	}
	r := tb.Const(0, 64)
	for i := uint8(0); i < x.w; i++ {
		r = tb.Ite(tb.Eq(tb.Extract(i, i, x), tb.Const(1, 1)), tb.Const(uint64(i)+1, 64), r)
	}
	return r
}

func symIn(w uint8) intrinsicFn {
	return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.newInput(p.str(a[0]), w)
	}
}

func atomicIntrinsic(name string) intrinsicFn {
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return fr.load(a[0].(Ptr)) }
	case strings.HasPrefix(name, "Store"):
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			p.lockDepth++
			a[0].(Ptr).c.store(p, a[1])
			p.lockDepth--
			return nil
		}
	case strings.HasPrefix(name, "Add"):
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			c := a[0].(Ptr).c
			v := p.tb.Add(c.v.(*Term), a[1].(*Term))
			p.lockDepth++
			c.store(p, v)
			p.lockDepth--
			return v
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			c := a[0].(Ptr).c
			eq := p.branch(p.eqv(c.load(p.tb), a[1], nil))
			if eq {
				p.lockDepth++
				c.store(p, a[2])
				p.lockDepth--
			}
			return p.tb.Bool(eq)
		}
	}
	return nil
}

// atomicMethod models the methods of the sync/atomic types on their value field.
func atomicMethod(name string) intrinsicFn {
	i := strings.LastIndex(name, ".")
	m := name[i+1:]
	val := func(p *Path, ptr Ptr) *Cell {
		if ptr.isNil() {
			p.raise("nil pointer dereference", nil)
		}
		return ptr.c.kids[len(ptr.c.kids)-1]
	}
	isBool := strings.Contains(name, "atomic.Bool)")
	if strings.Contains(name, "atomic.Value)") {
		return nil
	}
	switch m {
	case "Load":
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			v := val(p, a[0].(Ptr)).load(p.tb)
			if isBool {
				return p.tb.Not(p.tb.Eq(v.(*Term), p.tb.Const(0, v.(*Term).w)))
			}
			return v
		}
	case "Store":
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			v := a[1]
			if isBool {
				v = p.tb.Ite(v.(*Term), p.tb.Const(1, 32), p.tb.Const(0, 32))
			}
			p.lockDepth++
			val(p, a[0].(Ptr)).store(p, v)
			p.lockDepth--
			return nil
		}
	case "Add":
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			c := val(p, a[0].(Ptr))
			v := p.tb.Add(c.v.(*Term), a[1].(*Term))
			p.lockDepth++
			c.store(p, v)
			p.lockDepth--
			return v
		}
	}
	return nil
}

func intrinsics() map[string]intrinsicFn {
	m := map[string]intrinsicFn{}

	// ---- harness interface ----
	m["verif/sv.U8"] = symIn(8)
	m["verif/sv.U16"] = symIn(16)
	m["verif/sv.U32"] = symIn(32)
	m["verif/sv.U64"] = symIn(64)
	m["verif/sv.I8"] = symIn(8)
	m["verif/sv.I16"] = symIn(16)
	m["verif/sv.I32"] = symIn(32)
	m["verif/sv.I64"] = symIn(64)
	m["verif/sv.Bool"] = symIn(0)
	m["verif/sv.F32"] = symIn(32)
	m["verif/sv.F64"] = symIn(64)
	m["verif/sv.Choose"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[1].(*Term), "choose"))
		return p.tb.Const(uint64(p.choose(p.str(a[0]), n)), 64)
	}
	m["verif/sv.Bytes"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[1].(*Term), "bytes"))
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = p.newInput(p.str(a[0]), 8)
		}
		return p.bytesToSlice(bs)
	}
	m["verif/sv.Str"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(p.concretize(a[1].(*Term), "str"))
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = p.newInput(p.str(a[0]), 8)
		}
		return p.symStr(bs)
	}
	m["verif/sv.Assume"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.assume(a[0].(*Term))
		return nil
	}
	m["verif/sv.Assert"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.assert(a[0].(*Term), p.str(a[1]))
		return nil
	}
	m["verif/sv.Concrete"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return p.tb.Const(p.concretize(t, "concrete"), t.w)
	}
	m["verif/sv.Long"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.long = 9
		return nil
	}
	m["verif/sv.Reach"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.h.mu.Lock()
		p.h.Reached[p.str(a[0])]++
		p.h.mu.Unlock()
		return nil
	}
	m["verif/sv.Section"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.section = p.str(a[0])
		return nil
	}
	m["verif/sv.Thorough"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.tb.Bool(p.w.eng.thorough)
	}
	m["verif/sv.Observe"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[1].(Iface)
		v := x.v
		if s, ok := v.(Slice); ok { // snapshot
			vs := make(ArrayV, s.len)
			for i := range vs {
				vs[i] = s.arr.elem(p.tb, s.off+i).load(p.tb)
			}
			v = vs
		}
		p.obs = append(p.obs, obsVal{p.str(a[0]), v, x.t})
		return nil
	}
	m["verif/sv.AllocLimit"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.allocLimit = uint64(p.concretize(a[0].(*Term), "limit"))
		p.allocated = 0
		return nil
	}
	m["verif/sv.SymAlloc"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.symAlloc = p.concretize(a[0].(*Term), "limit")
		return nil
	}
	m["verif/sv.SkipAlloc"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.skipAlloc = p.concretize(a[0].(*Term), "limit")
		return nil
	}
	m["verif/sv.Freeze"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		freezeValue(p, a[0], map[*Cell]bool{}, map[*MapObj]bool{})
		p.freezeOn = true
		return nil
	}
	m["verif/sv.FreezeGlobals"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.freezeGlobals = true
		p.freezeOn = true
		seen, ms := map[*Cell]bool{}, map[*MapObj]bool{}
		for _, c := range p.globals {
			c.freeze(p, seen, ms)
		}
		return nil
	}
	m["verif/sv.Unfreeze"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.freezeOn = false
		return nil
	}
	m["verif/sv.MapOrder"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.mapOrder = a[0].(*Term).isTrue()
		return nil
	}
	m["verif/sv.Equal"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.deepEq(a[0], a[1], 0)
	}
	m["verif/sv.Fill"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[1].(Iface)
		ml := int(p.concretize(a[2].(*Term), "fill"))
		ptr := x.v.(Ptr)
		p.fill(p.str(a[0]), ptr.c, ml, 0)
		return nil
	}
	m["verif/sv.And"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.tb.And(a[0].(*Term), a[1].(*Term))
	}
	m["verif/sv.Or"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.tb.Or(a[0].(*Term), a[1].(*Term))
	}
	m["verif/sv.IteU64"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	m["verif/sv.BytesEqual"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return p.tb.ff
		}
		r := p.tb.tt
		for i := 0; i < x.len; i++ {
			r = p.tb.And(r, p.tb.Eq(x.arr.elem(p.tb, x.off+i).v.(*Term), y.arr.elem(p.tb, y.off+i).v.(*Term)))
		}
		return r
	}

	// ---- math ----
	for _, n := range []string{"math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits"} {
		m[n] = identity
	}
	m["math.Abs"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return p.tb.bitop(OBAnd, t, p.tb.Const(mask(63), 64))
	}
	m["math.IsNaN"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.fNaN(a[0].(*Term)) }
	for _, n := range []string{"Len", "Len8", "Len16", "Len32", "Len64"} {
		m["math/bits."+n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			return p.bitLen(a[0].(*Term))
		}
	}
	for _, n := range []string{"LeadingZeros", "LeadingZeros8", "LeadingZeros16", "LeadingZeros32", "LeadingZeros64"} {
		m["math/bits."+n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			return p.tb.Sub(p.tb.Const(uint64(t.w), 64), p.bitLen(t))
		}
	}
	for _, n := range []string{"TrailingZeros", "TrailingZeros8", "TrailingZeros16", "TrailingZeros32", "TrailingZeros64"} {
		m["math/bits."+n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			r := p.tb.Const(uint64(t.w), 64)
			for i := int(t.w) - 1; i >= 0; i-- {
				r = p.tb.Ite(p.tb.Eq(p.tb.Extract(uint8(i), uint8(i), t), p.tb.Const(1, 1)), p.tb.Const(uint64(i), 64), r)
			}
			return r
		}
	}
	for _, n := range []string{"OnesCount", "OnesCount8", "OnesCount16", "OnesCount32", "OnesCount64"} {
		m["math/bits."+n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			r := p.tb.Const(0, 64)
			for i := uint8(0); i < t.w; i++ {
				r = p.tb.Add(r, p.tb.Zext(p.tb.Extract(i, i, t), 64))
			}
			return r
		}
	}

	// ---- bytes, strings, unsafe helpers ----
	m["internal/abi.NoEscape"] = identity
	m["internal/bytealg.MakeNoZero"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := p.allocLen(p.tb.Zext(a[0].(*Term), 64), 1, fn)
		return Slice{arr: newArray(types.Typ[types.Byte], n), len: n, cap: n}
	}
	indexByte := func(p *Path, bs []*Term, c *Term) Value {
		for i, b := range bs {
			if p.branch(p.tb.Eq(b, c)) {
				return p.tb.Const(uint64(i), 64)
			}
		}
		return p.tb.Const(^uint64(0), 64)
	}
	m["internal/bytealg.IndexByte"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return indexByte(p, p.sliceBytes(a[0].(Slice)), a[1].(*Term))
	}
	m["internal/bytealg.IndexByteString"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return indexByte(p, p.strBytes(a[0].(*Str)), a[1].(*Term))
	}
	m["internal/stringslite.IndexByte"] = m["internal/bytealg.IndexByteString"]
	cmpStr := func(p *Path, x, y *Str) Value {
		tb := p.tb
		return tb.Ite(p.eqv(x, y, nil), tb.Const(0, 64), tb.Ite(p.strLess(x, y, false), tb.Const(^uint64(0), 64), tb.Const(1, 64)))
	}
	for _, n := range []string{"internal/bytealg.abigen_runtime_cmpstring", "internal/bytealg.CompareString", "strings.Compare"} {
		m[n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			return cmpStr(p, a[0].(*Str), a[1].(*Str))
		}
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare"} {
		m[n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			return cmpStr(p, p.symStr(p.sliceBytes(a[0].(Slice))), p.symStr(p.sliceBytes(a[1].(Slice))))
		}
	}
	m["maps.clone"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		old, _ := x.v.(*MapObj)
		if old == nil {
			return x
		}
		mo := p.newMap()
		for _, e := range old.ents {
			if !e.dead {
				mo.ents = append(mo.ents, &MapEnt{k: e.k, v: e.v})
			}
		}
		return Iface{t: x.t, v: mo}
	}
	for _, n := range []string{"Floor", "Ceil", "Trunc", "Exp", "Exp2", "Hypot", "Max", "Min", "Log", "Modf", "Sqrt"} {
		m["math.arch"+n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			f := fn.Pkg.Func(strings.ToLower(n))
			if f == nil {
				panic(unsupported{"external function " + fn.String()})
			}
			return p.callFn(f, a, nil, fr)
		}
	}
	bytesEq := func(p *Path, x, y []*Term) *Term {
		if len(x) != len(y) {
			return p.tb.ff
		}
		r := p.tb.tt
		for i := range x {
			r = p.tb.And(r, p.tb.Eq(x[i], y[i]))
		}
		return r
	}
	m["bytes.Equal"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return bytesEq(p, p.sliceBytes(a[0].(Slice)), p.sliceBytes(a[1].(Slice)))
	}
	m["internal/bytealg.Equal"] = m["bytes.Equal"]
	m["internal/bytealg.CountString"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if s := a[0].(*Str); s.sym != nil {
			n := p.tb.Const(0, 64)
			for _, b := range s.sym {
				n = p.tb.Add(n, p.tb.Ite(p.tb.Eq(b, a[1].(*Term)), p.tb.Const(1, 64), p.tb.Const(0, 64)))
			}
			return n
		}
		return p.tb.Const(uint64(strings.Count(p.str(a[0]), string([]byte{byte(a[1].(*Term).val)}))), 64)
	}
	m["internal/bytealg.IndexString"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, y := p.strBytes(a[0].(*Str)), p.strBytes(a[1].(*Str)); a[0].(*Str).sym != nil || a[1].(*Str).sym != nil {
			for i := 0; i+len(y) <= len(x); i++ {
				if p.branch(bytesEq(p, x[i:i+len(y)], y)) {
					return p.tb.Const(uint64(i), 64)
				}
			}
			return p.tb.Const(^uint64(0), 64)
		}
		return p.tb.Const(uint64(int64(strings.Index(p.str(a[0]), p.str(a[1])))), 64)
	}
	s1 := func(f func(string) string) intrinsicFn {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return concStr(f(p.str(a[0]))) }
	}
	// functions on concrete strings run natively when they can
	m["strings.Index"] = m["internal/bytealg.IndexString"]
	m["strings.Title"] = s1(strings.Title)
	m["strings.ToLower"] = s1(strings.ToLower)
	m["strings.ToUpper"] = s1(strings.ToUpper)
	m["strings.TrimSpace"] = s1(strings.TrimSpace)
	m["strings.Replace"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return concStr(strings.Replace(p.str(a[0]), p.str(a[1]), p.str(a[2]), int(int64(a[3].(*Term).val))))
	}
	m["strings.ReplaceAll"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return concStr(strings.ReplaceAll(p.str(a[0]), p.str(a[1]), p.str(a[2])))
	}
	strSlice := func(p *Path, ss []string) Value {
		arr := newArray(types.Typ[types.String], len(ss))
		for i, s := range ss {
			arr.elem(p.tb, i).v = concStr(s)
		}
		return Slice{arr: arr, len: len(ss), cap: len(ss)}
	}
	m["strings.Split"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return strSlice(p, strings.Split(p.str(a[0]), p.str(a[1])))
	}
	m["strings.Join"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		var out []*Term
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out = append(out, p.strBytes(a[1].(*Str))...)
			}
			out = append(out, p.strBytes(s.arr.elem(p.tb, s.off+i).v.(*Str))...)
		}
		return p.symStr(out)
	}

	// interpreted when a string is symbolic
	for n, h := range m {
		if !strings.HasPrefix(n, "strings.") || n == "strings.Join" {
			continue
		}
		h := h
		m[n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			for _, x := range a {
				if s, ok := x.(*Str); ok && s.sym != nil && fn.Blocks != nil {
					return p.interpret(fn, a, nil, fr)
				}
			}
			return h(p, fr, fn, a)
		}
	}

	// ---- errors, fmt, strconv ----
	m["errors.Is"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.tb.Bool(p.errorsIs(fr, a[0].(Iface), a[1].(Iface)))
	}
	m["errors.As"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.tb.Bool(p.errorsAs(fr, a[0].(Iface), a[1].(Iface)))
	}
	m["fmt.Errorf"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.errorf(fr, a[0].(*Str), a[1].(Slice))
	}
	m["fmt.Sprintf"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := p.sprintf(fr, a[0].(*Str), a[1].(Slice), true)
		return s
	}
	m["fmt.Sprint"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		sl := a[0].(Slice)
		var as []any
		for i := 0; i < sl.len; i++ {
			v, ok := p.native(fr, sl.arr.elem(p.tb, sl.off+i).v.(Iface))
			if !ok {
				panic(unsupported{"fmt.Sprint of a symbolic value"})
			}
			as = append(as, v)
		}
		return concStr(fmt.Sprint(as...))
	}
	write := func(p *Path, fr *frame, w Value, s *Str) Value {
		wi := w.(Iface)
		if wi.t == nil {
			p.raise("nil pointer dereference", nil)
		}
		f := p.w.eng.methodByName(wi.t, "Write")
		bs := p.strBytes(s)
		arr := newArray(types.Typ[types.Byte], len(bs))
		for i, b := range bs {
			arr.elem(p.tb, i).v = b
		}
		return p.callFn(f, []Value{wi.v, Slice{arr: arr, len: len(bs), cap: len(bs)}}, nil, fr)
	}
	sprint := func(p *Path, fr *frame, sl Slice, ln bool) *Str {
		var as []any
		for i := 0; i < sl.len; i++ {
			v, ok := p.native(fr, sl.arr.elem(p.tb, sl.off+i).v.(Iface))
			if !ok {
				panic(unsupported{"fmt.Sprint of a symbolic value"})
			}
			as = append(as, v)
		}
		if ln {
			return concStr(fmt.Sprintln(as...))
		}
		return concStr(fmt.Sprint(as...))
	}
	m["fmt.Sprintln"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return sprint(p, fr, a[0].(Slice), true)
	}
	m["fmt.Fprintln"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return write(p, fr, a[0], sprint(p, fr, a[1].(Slice), true))
	}
	m["fmt.Fprint"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return write(p, fr, a[0], sprint(p, fr, a[1].(Slice), false))
	}
	m["fmt.Fprintf"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := p.sprintf(fr, a[1].(*Str), a[2].(Slice), true)
		return write(p, fr, a[0], s)
	}
	m["fmt.Appendf"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s, _ := p.sprintf(fr, a[1].(*Str), a[2].(Slice), true)
		bs := append(append([]*Term{}, p.sliceBytes(a[0].(Slice))...), p.strBytes(s)...)
		arr := newArray(types.Typ[types.Byte], len(bs))
		for i, b := range bs {
			arr.elem(p.tb, i).v = b
		}
		return Slice{arr: arr, len: len(bs), cap: len(bs)}
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Printf", "log.Println", "log.Print"} {
		m[n] = nop
	}
	m["strconv.Itoa"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if !t.isConst() {
			return p.interpret(fn, a, nil, fr)
		}
		return concStr(strconv.Itoa(int(t.val)))
	}
	m["strconv.ParseFloat"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s := p.str(a[0])
		v, err := strconv.ParseFloat(s, int(a[1].(*Term).val))
		e := Iface{}
		if err != nil {
			e = p.newError(err.Error())
		}
		return Tuple{p.tb.Const(math.Float64bits(v), 64), e}
	}

	// ---- sync ----
	lock := func(d int) intrinsicFn {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			p.lockDepth += d
			return nil
		}
	}
	m["(*sync.Mutex).Lock"] = lock(1)
	m["(*sync.Mutex).Unlock"] = lock(-1)
	m["(*sync.RWMutex).Lock"] = lock(1)
	m["(*sync.RWMutex).Unlock"] = lock(-1)
	m["(*sync.RWMutex).RLock"] = nop
	m["(*sync.RWMutex).RUnlock"] = nop
	m["(*sync.Once).Do"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(Ptr).c
		if p.onceDone[c] {
			return nil
		}
		p.onceDone[c] = true
		p.lockDepth++
		fr.callValue(a[1], nil, nil)
		p.lockDepth--
		return nil
	}
	m["(*sync.Map).Load"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		e := p.mapGet(p.syncMap(a[0].(Ptr)), a[1])
		if e == nil {
			return Tuple{Iface{}, p.tb.ff}
		}
		return Tuple{e.v, p.tb.tt}
	}
	m["(*sync.Map).Store"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.mapSet(p.syncMap(a[0].(Ptr)), a[1], a[2])
		return nil
	}
	m["(*sync.Map).LoadOrStore"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		mm := p.syncMap(a[0].(Ptr))
		if e := p.mapGet(mm, a[1]); e != nil {
			return Tuple{e.v, p.tb.tt}
		}
		p.mapSet(mm, a[1], a[2])
		return Tuple{a[2], p.tb.ff}
	}
	m["(*sync.Pool).Get"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(Ptr).c
		nw := c.kids[len(c.kids)-1].v.(*Closure)
		if nw == nil {
			return Iface{}
		}
		return fr.callValue(nw, nil, nil)
	}
	m["(*sync.Pool).Put"] = nop

	// ---- files: a stand-in that only records the paths ----
	m["verif/sv.TempDir"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.files = nil
		return concStr("/tmp/sv00000000")
	}
	m["verif/sv.Files"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		dir := p.str(a[0]) + "/"
		var in []Value
		for _, f := range p.files {
			bs := p.strBytes(f.(*Str))
			if len(bs) <= len(dir) {
				continue
			}
			under := p.tb.tt
			for i := range dir {
				under = p.tb.And(under, p.tb.Eq(bs[i], p.tb.Const(uint64(dir[i]), 8)))
			}
			if p.branch(under) {
				in = append(in, f)
			}
		}
		arr := newArray(types.Typ[types.String], len(in))
		for i, f := range in {
			arr.elem(p.tb, i).v = f
		}
		return Slice{arr: arr, len: len(in), cap: len(in)}
	}
	create := func(p *Path, name Value) {
		for _, f := range p.files {
			if p.branch(p.eqv(f, name, nil)) {
				return
			}
		}
		p.files = append(p.files, name)
	}
	nilErr := Iface{}
	open := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		create(p, a[0])
		return Tuple{Ptr{c: newCell(p.tb, p.namedType("os", "File"))}, nilErr}
	}
	m["os.OpenFile"] = open
	m["os.Create"] = open
	m["os.WriteFile"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		create(p, a[0])
		return nilErr
	}
	m["os.Remove"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		for i, f := range p.files {
			if p.branch(p.eqv(f, a[0], nil)) {
				p.files = append(append([]Value{}, p.files[:i]...), p.files[i+1:]...)
				break
			}
		}
		return nilErr
	}
	for _, n := range []string{"os.MkdirAll", "os.Mkdir", "(*os.File).Close", "(*os.File).Sync", "(*os.File).Chmod"} {
		m[n] = nop
	}
	written := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		switch x := a[1].(type) {
		case Slice:
			n = x.len
		case *Str:
			n = x.Len()
		}
		return Tuple{p.tb.Const(uint64(n), 64), nilErr}
	}
	m["(*os.File).Write"] = written
	m["(*os.File).WriteString"] = written

	// ---- text/template and go/format: no output ----
	m["github.com/Masterminds/sprig/v3.TxtFuncMap"] = nop
	m["github.com/Masterminds/sprig/v3.FuncMap"] = nop
	m["text/template.New"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Ptr{c: newCell(p.tb, p.namedType("text/template", "Template"))}
	}
	for _, n := range []string{"Funcs", "Lookup", "New", "Option", "Delims"} {
		m["(*text/template.Template)."+n] = identity
	}
	for _, n := range []string{"ParseFS", "Parse", "ParseGlob", "ParseFiles"} {
		m["(*text/template.Template)."+n] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{a[0], nilErr}
		}
	}
	m["(*text/template.Template).Execute"] = nop
	m["(*text/template.Template).ExecuteTemplate"] = nop
	m["go/format.Source"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{a[0], nilErr}
	}

	// ---- sort ----
	sortSlice := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		at := func(i int) *Cell { return s.arr.elem(p.tb, s.off+i) }
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				less := fr.callValue(a[1], []Value{p.tb.Const(uint64(j), 64), p.tb.Const(uint64(j-1), 64)}, nil)
				if !p.branch(less.(*Term)) {
					break
				}
				x, y := at(j).load(p.tb), at(j-1).load(p.tb)
				at(j).store(p, y)
				at(j-1).store(p, x)
			}
		}
		return nil
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	m["sort.Strings"] = func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		ss := make([]string, s.len)
		for i := range ss {
			ss[i] = p.str(s.arr.elem(p.tb, s.off+i).v)
		}
		sort.Strings(ss)
		for i := range ss {
			s.arr.elem(p.tb, s.off+i).store(p, concStr(ss[i]))
		}
		return nil
	}
	return m
}

var syncMaps = map[*Cell]*MapObj{}

func (p *Path) syncMap(ptr Ptr) *MapObj {
	if ptr.isNil() {
		p.raise("nil pointer dereference", nil)
	}
	// the map is kept in the value slot of the first cell of the struct
	c := ptr.c
	for c.kids != nil && len(c.kids) > 0 {
		c = c.kids[0]
	}
	if mo, ok := c.v.(*MapObj); ok && mo != nil {
		return mo
	}
	mo := p.newMap()
	c.v = mo
	return mo
}

// ---- errors ----

func (p *Path) namedType(pkg, name string) types.Type {
	pk := p.w.eng.prog.ImportedPackage(pkg)
	if pk == nil {
		panic(unsupported{"package " + pkg + " not loaded"})
	}
	return pk.Type(name).Type()
}

func (p *Path) newError(msg string) Iface {
	t := p.namedType("errors", "errorString")
	c := newCell(p.tb, t)
	c.kids[0].v = concStr(msg)
	return Iface{t: types.NewPointer(t), v: Ptr{c: c}}
}

func (p *Path) errorf(fr *frame, format *Str, args Slice) Value {
	msg, wrapped := p.sprintf(fr, format, args, false)
	switch len(wrapped) {
	case 0:
		t := p.namedType("errors", "errorString")
		c := newCell(p.tb, t)
		c.kids[0].v = msg
		return Iface{t: types.NewPointer(t), v: Ptr{c: c}}
	case 1:
		t := p.namedType("fmt", "wrapError")
		c := newCell(p.tb, t)
		c.kids[0].v = msg
		c.kids[1].v = wrapped[0]
		return Iface{t: types.NewPointer(t), v: Ptr{c: c}}
	}
	t := p.namedType("fmt", "wrapErrors")
	c := newCell(p.tb, t)
	c.kids[0].v = msg
	et := under(c.kids[1].t).(*types.Slice).Elem()
	arr := newArray(et, len(wrapped))
	for i, w := range wrapped {
		arr.elem(p.tb, i).v = w
	}
	c.kids[1].v = Slice{arr: arr, len: len(wrapped), cap: len(wrapped)}
	return Iface{t: types.NewPointer(t), v: Ptr{c: c}}
}

// sprintf formats natively; symbolic operands become "?" in error texts and are
// spliced in as byte terms for %s in strict mode.
func (p *Path) sprintf(fr *frame, format *Str, args Slice, strict bool) (*Str, []Value) {
	f := p.str(format)
	var wrapped []Value
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, p.tb.Const(uint64(s[i]), 8))
		}
	}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			lit(f[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit(f[i:])
			break
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= args.len {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		arg := args.arr.elem(p.tb, args.off+ai).v.(Iface)
		ai++
		if verb == 'w' {
			if arg.t != nil {
				wrapped = append(wrapped, arg)
			}
			spec = spec[:len(spec)-1] + "v"
		}
		if s, ok := arg.v.(*Str); ok && (verb == 's' || verb == 'v') && len(spec) == 2 {
			out = append(out, p.strBytes(s)...)
			continue
		}
		if verb == 'T' {
			lit(fmt.Sprint(arg.t))
			continue
		}
		v, ok := p.native(fr, arg)
		if !ok {
			if strict {
				if t, ok := arg.v.(*Term); ok && (verb == 'd' || verb == 'v') && len(spec) == 2 && isInteger(arg.t) {
					if s, ok := p.formatInt(fr, t, isSigned(arg.t)); ok {
						out = append(out, p.strBytes(s)...)
						continue
					}
				}
				panic(unsupported{"formatting of a symbolic value"})
			}
			lit("?")
			continue
		}
		lit(fmt.Sprintf(spec, v))
	}
	return p.symStr(out), wrapped
}

// formatInt writes a symbolic integer in base 10 with the library's own code.
func (p *Path) formatInt(fr *frame, t *Term, signed bool) (*Str, bool) {
	pk := p.w.eng.prog.ImportedPackage("strconv")
	if pk == nil {
		return nil, false
	}
	name, v := "FormatUint", p.tb.Zext(t, 64)
	if signed {
		name, v = "FormatInt", p.tb.Sext(t, 64)
	}
	s, ok := p.callFn(pk.Func(name), []Value{v, p.tb.Const(10, 64)}, nil, fr).(*Str)
	return s, ok
}

// structFmt prints like a struct value.
type structFmt struct {
	names []string
	vals  []any
	ptr   bool
}

func (s structFmt) Format(f fmt.State, verb rune) {
	if s.ptr {
		io.WriteString(f, "&")
	}
	io.WriteString(f, "{")
	for i, v := range s.vals {
		if i > 0 {
			io.WriteString(f, " ")
		}
		spec := "%" + string(verb)
		if f.Flag('+') {
			spec = "%+" + string(verb)
			io.WriteString(f, s.names[i]+":")
		}
		fmt.Fprintf(f, spec, v)
	}
	io.WriteString(f, "}")
}

// native converts a concrete value for formatting.
func (p *Path) native(fr *frame, x Iface) (any, bool) {
	if x.t == nil {
		return nil, true
	}
	if fn := p.w.eng.methodByName(x.t, "Error"); fn != nil {
		if ptr, ok := x.v.(Ptr); ok && ptr.isNil() {
			return "<nil>", true
		}
		s := p.callFn(fn, []Value{x.v}, nil, fr).(*Str)
		if s.sym != nil {
			return "?", true
		}
		return s.s, true
	}
	if fn := p.w.eng.methodByName(x.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
		if t, ok := x.v.(*Term); ok && !t.isConst() {
			return nil, false
		}
		if s, ok := p.callFn(fn, []Value{x.v}, nil, fr).(*Str); ok && s.sym == nil {
			return s.s, true
		}
		return nil, false
	}
	switch v := x.v.(type) {
	case *Term:
		if !v.isConst() {
			return nil, false
		}
		b := under(x.t).(*types.Basic)
		switch {
		case v.w == 0:
			return v.val == 1, true
		case b.Info()&types.IsFloat != 0:
			if v.w == 32 {
				return math.Float32frombits(uint32(v.val)), true
			}
			return math.Float64frombits(v.val), true
		case b.Info()&types.IsUnsigned != 0:
			return v.val, true
		default:
			return signExt(v.val, v.w), true
		}
	case *Str:
		if v.sym != nil {
			return nil, false
		}
		return v.s, true
	case Slice:
		var out []any
		et := under(x.t).(*types.Slice).Elem()
		for i := 0; i < v.len; i++ {
			e, ok := p.native(fr, asIface(et, v.arr.elem(p.tb, v.off+i).load(p.tb)))
			if !ok {
				return nil, false
			}
			out = append(out, e)
		}
		return out, true
	case StructV:
		st := under(x.t).(*types.Struct)
		r := structFmt{}
		for i, e := range v {
			et := st.Field(i).Type()
			var n any
			ok := true
			switch e := e.(type) {
			case Iface:
				n, ok = p.native(fr, e)
			case *Term, *Str, StructV, Slice:
				n, ok = p.native(fr, Iface{t: et, v: e})
			case Ptr:
				if !e.isNil() {
					return nil, false
				}
			default:
				return nil, false
			}
			if !ok {
				return nil, false
			}
			r.names = append(r.names, st.Field(i).Name())
			r.vals = append(r.vals, n)
		}
		return r, true
	case Ptr:
		if v.isNil() {
			return nil, true
		}
		if pt, ok := under(x.t).(*types.Pointer); ok && v.c != nil {
			if _, ok := under(pt.Elem()).(*types.Struct); ok {
				r, ok := p.native(fr, Iface{t: pt.Elem(), v: v.c.load(p.tb)})
				if sf, is := r.(structFmt); is && ok {
					sf.ptr = true
					return sf, true
				}
			}
		}
	case *MapObj:
		mt, ok := under(x.t).(*types.Map)
		if !ok {
			break
		}
		out := map[any]any{}
		if v != nil {
			for _, e := range v.ents {
				if e.dead {
					continue
				}
				k, ok1 := p.native(fr, asIface(mt.Key(), e.k))
				w, ok2 := p.native(fr, asIface(mt.Elem(), e.v))
				if !ok1 || !ok2 {
					return nil, false
				}
				out[k] = w
			}
		}
		return out, true
	case ArrayV:
		var out []any
		et := under(x.t).(*types.Array).Elem()
		for _, e := range v {
			n, ok := p.native(fr, asIface(et, e))
			if !ok {
				return nil, false
			}
			out = append(out, n)
		}
		return out, true
	}
	return nil, false
}

func asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t: t, v: v}
}

func (p *Path) unwrap(fr *frame, e Iface) []Iface {
	fn := p.w.eng.methodByName(e.t, "Unwrap")
	if fn == nil || fn.Signature.Results().Len() != 1 {
		return nil
	}
	r := p.callFn(fn, []Value{e.v}, nil, fr)
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		var out []Iface
		for i := 0; i < x.len; i++ {
			out = append(out, x.arr.elem(p.tb, x.off+i).v.(Iface))
		}
		return out
	}
	return nil
}

func (p *Path) errorsIs(fr *frame, e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) && p.branch(p.eqv(e, target, nil)) {
		return true
	}
	if fn := p.w.eng.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if p.branch(p.callFn(fn, []Value{e.v, target}, nil, fr).(*Term)) {
			return true
		}
	}
	for _, u := range p.unwrap(fr, e) {
		if p.errorsIs(fr, u, target) {
			return true
		}
	}
	return false
}

func (p *Path) errorsAs(fr *frame, e, target Iface) bool {
	if e.t == nil {
		return false
	}
	ptr := target.v.(Ptr)
	tt := ptr.c.t
	match := false
	if it, ok := under(tt).(*types.Interface); ok {
		match = p.w.eng.implements(e.t, it)
		if match {
			ptr.c.store(p, e)
			return true
		}
	} else if types.Identical(e.t, tt) {
		ptr.c.store(p, e.v)
		return true
	}
	for _, u := range p.unwrap(fr, e) {
		if p.errorsAs(fr, u, target) {
			return true
		}
	}
	return false
}

// ---- structural equality and arbitrary values ----

// deepEq compares structurally: pointers by what they point to, nil and empty
// slices alike, floats by bit pattern.
func (p *Path) deepEq(x, y Value, depth int) *Term {
	tb := p.tb
	if depth > 60 {
		panic(unsupported{"deepEq depth"})
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok || a.w != b.w {
			return tb.ff
		}
		return tb.Eq(a, b)
	case *Str:
		b, ok := y.(*Str)
		if !ok {
			return tb.ff
		}
		return p.eqv(a, b, nil)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return tb.ff
		}
		if a.isNil() || b.isNil() {
			return tb.Bool(a.isNil() && b.isNil())
		}
		if a.c == b.c {
			return tb.tt
		}
		return p.deepEq(a.c.load(tb), b.c.load(tb), depth+1)
	case Slice:
		b, ok := y.(Slice)
		if !ok || a.len != b.len {
			return tb.ff
		}
		r := tb.tt
		for i := 0; i < a.len; i++ {
			r = tb.And(r, p.deepEq(a.arr.elem(tb, a.off+i).load(tb), b.arr.elem(tb, b.off+i).load(tb), depth+1))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return tb.ff
		}
		if a.t == nil || b.t == nil {
			return tb.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tb.ff
		}
		return p.deepEq(a.v, b.v, depth+1)
	case StructV:
		b, ok := y.(StructV)
		if !ok || len(a) != len(b) {
			return tb.ff
		}
		r := tb.tt
		for i := range a {
			r = tb.And(r, p.deepEq(a[i], b[i], depth+1))
		}
		return r
	case ArrayV:
		b, ok := y.(ArrayV)
		if !ok || len(a) != len(b) {
			return tb.ff
		}
		r := tb.tt
		for i := range a {
			r = tb.And(r, p.deepEq(a[i], b[i], depth+1))
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("deepEq on %T", x)})
}

// fill stores arbitrary values of the cell's type: integers, bools, floats and
// string bytes are solver variables; pointers are nil or fresh, slice and string
// lengths are 0..maxLen, one path for each.
func (p *Path) fill(name string, c *Cell, maxLen, depth int) {
	tb := p.tb
	switch u := under(c.t).(type) {
	case *types.Basic:
		if w, ok := basicWidth(u); ok {
			c.v = p.newInput(name, w)
			return
		}
		if u.Info()&types.IsString != 0 {
			n := p.choose(name+".len", maxLen+1)
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = p.newInput(name, 8)
			}
			c.v = p.symStr(bs)
			return
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Exported() {
				p.fill(name+"."+f.Name(), c.kids[i], maxLen, depth)
			}
		}
		return
	case *types.Array:
		for i := 0; i < c.n; i++ {
			p.fill(name+"["+strconv.Itoa(i)+"]", c.elem(tb, i), maxLen, depth)
		}
		return
	case *types.Pointer:
		if depth >= 4 {
			c.v = Ptr{}
			return
		}
		if p.choose(name+".ptr", 2) == 0 {
			c.v = Ptr{}
			return
		}
		k := newCell(tb, u.Elem())
		p.fill(name, k, maxLen, depth+1)
		c.v = Ptr{c: k}
		return
	case *types.Slice:
		if depth >= 4 {
			return
		}
		n := p.choose(name+".len", maxLen+1)
		arr := newArray(u.Elem(), n)
		for i := 0; i < n; i++ {
			p.fill(name+"["+strconv.Itoa(i)+"]", arr.elem(tb, i), maxLen, depth+1)
		}
		c.v = Slice{arr: arr, len: n, cap: n}
		return
	case *types.Interface:
		return
	}
	panic(unsupported{"Fill of " + c.t.String()})
}

// obsString renders an observed value under a model, like sv.Observe natively.
func (p *Path) obsString(ev *Evaluator, v Value, t types.Type) string {
	switch x := v.(type) {
	case *Term:
		u := ev.Eval(x)
		if x.w == 0 {
			return strconv.FormatBool(u == 1)
		}
		return strconv.FormatUint(u, 10)
	case *Str:
		var sb strings.Builder
		for i := 0; i < x.Len(); i++ {
			sb.WriteByte(byte(ev.Eval(p.strByte(x, i))))
		}
		return strconv.Quote(sb.String())
	case ArrayV:
		parts := []string{}
		for _, e := range x {
			parts = append(parts, p.obsString(ev, e, nil))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return "non-nil"
	case nil:
		return "nil"
	case Ptr:
		if x.isNil() {
			return "nil"
		}
		return "non-nil"
	}
	return "?"
}
