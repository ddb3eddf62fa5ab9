package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) raise(kind string, fn *ssa.Function) {
	name := ""
	if fn != nil {
		name = fn.String()
	}
	panic(&goPanic{val: Iface{t: p.w.eng.rtErr, v: concStr(kind)}, kind: kind, fn: name})
}

func (f *frame) instr(in ssa.Instruction) {
	p := f.p
	tb := p.tb
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.set(in, Ptr{c: newCell(tb, in.Type().(*types.Pointer).Elem())})
	case *ssa.BinOp:
		f.set(in, p.binop(in.Op, f.get(in.X), f.get(in.Y), in.X.Type(), in.Y.Type(), f.fn))
	case *ssa.UnOp:
		x := f.get(in.X)
		switch in.Op {
		case token.MUL:
			f.set(in, f.load(x.(Ptr)))
		case token.NOT:
			f.set(in, tb.Not(x.(*Term)))
		case token.SUB:
			t := x.(*Term)
			if isFloat(in.X.Type()) {
				f.set(in, tb.bitop(OBXor, t, tb.Const(1<<(t.w-1), t.w)))
			} else {
				f.set(in, tb.Neg(t))
			}
		case token.XOR:
			f.set(in, tb.BNot(x.(*Term)))
		default:
			panic(unsupported{"unop " + in.Op.String()})
		}
	case *ssa.ChangeType:
		f.set(in, f.get(in.X))
	case *ssa.Convert:
		f.set(in, p.convert(f.get(in.X), in.X.Type(), in.Type(), f.fn))
	case *ssa.MultiConvert:
		panic(unsupported{"multiconvert"})
	case *ssa.SliceToArrayPointer:
		f.set(in, p.sliceToArray(f.get(in.X).(Slice), in.Type(), f.fn))
	case *ssa.ChangeInterface:
		f.set(in, f.get(in.X))
	case *ssa.MakeInterface:
		f.set(in, Iface{t: in.X.Type(), v: f.get(in.X)})
	case *ssa.Extract:
		f.set(in, f.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Field:
		f.set(in, f.get(in.X).(StructV)[in.Field])
	case *ssa.FieldAddr:
		ptr := f.get(in.X).(Ptr)
		if ptr.isNil() {
			p.raise("nil pointer dereference", f.fn)
		}
		if ptr.sym != nil {
			ptr = p.concSym(ptr)
		}
		if ptr.c.kids == nil || in.Field >= len(ptr.c.kids) {
			panic(unsupported{"field address of a reinterpreted pointer"})
		}
		f.set(in, Ptr{c: ptr.c.kids[in.Field]})
	case *ssa.Index:
		idx := p.idx64(f.term(in.Index), in.Index.Type())
		switch x := f.get(in.X).(type) {
		case ArrayV:
			p.check(tb.Ult(idx, tb.Const(uint64(len(x)), 64)), "index out of range", f.fn)
			f.set(in, p.selectVal(x, idx))
		case *Str:
			p.check(tb.Ult(idx, tb.Const(uint64(x.Len()), 64)), "index out of range", f.fn)
			f.set(in, p.strAt(x, idx))
		default:
			panic(unsupported{"index"})
		}
	case *ssa.IndexAddr:
		idx := p.idx64(f.term(in.Index), in.Index.Type())
		switch x := f.get(in.X).(type) {
		case Slice:
			p.check(tb.Ult(idx, tb.Const(uint64(x.len), 64)), "index out of range", f.fn)
			f.set(in, p.elemPtr(x.arr, x.off, x.len, idx))
		case Ptr:
			if x.isNil() {
				p.raise("nil pointer dereference", f.fn)
			}
			if x.sym != nil {
				x = p.concSym(x)
			}
			p.check(tb.Ult(idx, tb.Const(uint64(x.c.n), 64)), "index out of range", f.fn)
			f.set(in, p.elemPtr(x.c, 0, x.c.n, idx))
		default:
			panic(unsupported{"indexaddr"})
		}
	case *ssa.Store:
		ptr := f.get(in.Addr).(Ptr)
		if ptr.isNil() {
			p.raise("nil pointer dereference", f.fn)
		}
		v := f.get(in.Val)
		if ptr.sym != nil {
			s := ptr.sym
			t, ok := v.(*Term)
			if !ok || s.n > 512 {
				ptr = p.concSym(ptr)
			} else {
				for i := 0; i < s.n; i++ {
					e := s.arr.elem(tb, s.off+i)
					e.store(p, tb.Ite(tb.Eq(s.idx, tb.Const(uint64(i), 64)), t, e.v.(*Term)))
				}
				return
			}
		}
		f.storeCell(ptr.c, v)
	case *ssa.Call:
		r := f.call(&in.Call)
		f.set(in, r)
	case *ssa.Defer:
		fv, args := f.prepCall(&in.Call)
		f.defers = append(f.defers, deferred{fv, args, &in.Call})
	case *ssa.MakeClosure:
		free := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			free[i] = f.get(b)
		}
		f.set(in, &Closure{fn: in.Fn.(*ssa.Function), free: free})
	case *ssa.MakeSlice:
		elem := under(in.Type()).(*types.Slice).Elem()
		ln := p.makeLen(f.term(in.Len), in.Len.Type(), elem, f.fn)
		cp := ln
		if ct := f.term(in.Cap); in.Cap != in.Len && !ct.isConst() {
			p.symCap(ct, ln, in.Cap.Type(), elem, f.fn)
		} else if in.Cap != in.Len {
			cp = p.makeLen(ct, in.Cap.Type(), elem, f.fn)
			if cp < ln {
				p.raise("makeslice: cap out of range", f.fn)
			}
		}
		f.set(in, Slice{arr: newArray(elem, cp), len: ln, cap: cp})
	case *ssa.MakeMap:
		f.set(in, p.newMap())
	case *ssa.MapUpdate:
		m := f.get(in.Map).(*MapObj)
		if m == nil {
			p.raise("assignment to entry in nil map", f.fn)
		}
		if m.frozen && p.freezeOn {
			p.frozenMapWrite(m)
		}
		p.mapSet(m, f.get(in.Key), f.get(in.Value))
	case *ssa.Lookup:
		switch x := f.get(in.X).(type) {
		case *Str:
			idx := p.idx64(f.term(in.Index), in.Index.Type())
			p.check(tb.Ult(idx, tb.Const(uint64(x.Len()), 64)), "index out of range", f.fn)
			f.set(in, p.strAt(x, idx))
		case *MapObj:
			e := p.mapGet(x, f.get(in.Index))
			var v Value
			if e != nil {
				v = e.v
			} else {
				v = zero(tb, under(in.X.Type()).(*types.Map).Elem())
			}
			if in.CommaOk {
				f.set(in, Tuple{v, tb.Bool(e != nil)})
			} else {
				f.set(in, v)
			}
		default:
			panic(unsupported{"lookup"})
		}
	case *ssa.Range:
		switch x := f.get(in.X).(type) {
		case *Str:
			f.set(in, &RangeIter{str: x})
		case *MapObj:
			it := &RangeIter{m: x}
			if x != nil {
				for _, e := range x.ents {
					if !e.dead {
						it.left = append(it.left, e)
					}
				}
			}
			f.set(in, it)
		default:
			panic(unsupported{"range"})
		}
	case *ssa.Next:
		f.set(in, f.next(in))
	case *ssa.Slice:
		f.set(in, f.slice(in))
	case *ssa.TypeAssert:
		f.set(in, f.typeAssert(in))
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		panic(unsupported{fmt.Sprintf("concurrency instruction %T", in)})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (f *frame) load(ptr Ptr) Value {
	p := f.p
	if ptr.isNil() {
		p.raise("nil pointer dereference", f.fn)
	}
	if ptr.sym != nil {
		s := ptr.sym
		if s.n <= 512 {
			vals := make([]Value, s.n)
			ok := true
			for i := range vals {
				vals[i] = s.arr.elem(p.tb, s.off+i).load(p.tb)
				if _, isT := vals[i].(*Term); !isT {
					ok = false
				}
			}
			if ok {
				return p.selectVal(vals, s.idx)
			}
		}
		ptr = p.concSym(ptr)
	}
	return f.loadCell(ptr.c)
}

func (p *Path) concSym(ptr Ptr) Ptr {
	i := int(p.concretize(ptr.sym.idx, "pointer"))
	return Ptr{c: ptr.sym.arr.elem(p.tb, ptr.sym.off+i), arr: ptr.sym.arr, idx: ptr.sym.off + i}
}

func (p *Path) elemPtr(arr *Cell, off, n int, idx *Term) Ptr {
	if idx.isConst() {
		i := off + int(idx.val)
		return Ptr{c: arr.elem(p.tb, i), arr: arr, idx: i}
	}
	return Ptr{sym: &SymIdx{arr: arr, off: off, n: n, idx: idx}}
}

// selectVal reads vals[idx], idx is known to be in range.
func (p *Path) selectVal(vals []Value, idx *Term) Value {
	if idx.isConst() {
		return vals[idx.val]
	}
	ok := len(vals) <= 512
	for _, v := range vals {
		if _, isT := v.(*Term); !isT {
			ok = false
		}
	}
	if !ok {
		return vals[p.concretize(idx, "index")]
	}
	r := vals[len(vals)-1].(*Term)
	for i := len(vals) - 2; i >= 0; i-- {
		r = p.tb.Ite(p.tb.Eq(idx, p.tb.Const(uint64(i), 64)), vals[i].(*Term), r)
	}
	return r
}

func (p *Path) strByte(s *Str, i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return p.tb.Const(uint64(s.s[i]), 8)
}

func (p *Path) strAt(s *Str, idx *Term) *Term {
	if idx.isConst() {
		return p.strByte(s, int(idx.val))
	}
	vals := make([]Value, s.Len())
	for i := range vals {
		vals[i] = p.strByte(s, i)
	}
	return p.selectVal(vals, idx).(*Term)
}

// idx64 widens an index to 64 bits; negative values become huge unsigned ones.
func (p *Path) idx64(t *Term, typ types.Type) *Term {
	if isSigned(typ) {
		return p.tb.Sext(t, 64)
	}
	return p.tb.Zext(t, 64)
}

// check forks: where cond can be false the path panics with kind.
func (p *Path) check(cond *Term, kind string, fn *ssa.Function) {
	if cond.isTrue() {
		return
	}
	if !p.branch(cond) {
		p.raise(kind, fn)
	}
}

const maxMakeElems = 1 << 24

// makeLen turns the (possibly symbolic) length of a make into a concrete one.
func (p *Path) makeLen(t *Term, typ types.Type, elem types.Type, fn *ssa.Function) int {
	v := p.idx64(t, typ)
	tb := p.tb
	size := p.w.eng.sizes.Sizeof(elem)
	if size == 0 {
		size = 1
	}
	lim := uint64(1) << 46 / uint64(size)
	p.check(tb.Ule(v, tb.Const(lim, 64)), "makeslice: len out of range", fn)
	return p.allocLen(v, uint64(size), fn)
}

// symCap checks a symbolic capacity without splitting the path on its value: the
// slice gets its length as capacity, so an append copies where the real one would not.
func (p *Path) symCap(t *Term, ln int, typ types.Type, elem types.Type, fn *ssa.Function) {
	tb := p.tb
	v := p.idx64(t, typ)
	size := uint64(p.w.eng.sizes.Sizeof(elem))
	if size == 0 {
		size = 1
	}
	p.check(tb.And(tb.Ule(v, tb.Const(uint64(1)<<46/size, 64)), tb.Ule(tb.Const(uint64(ln), 64), v)), "makeslice: cap out of range", fn)
	if p.allocLimit > 0 && !p.branch(tb.Ule(v, tb.Const(p.allocLimit/size, 64))) {
		p.violation("alloc", "allocation larger than the limit of "+fmt.Sprint(p.allocLimit)+" bytes in "+fn.String())
	}
}

// allocLen concretises an allocation length, applying the harness's allocation
// limit and the engine's bound on symbolic allocations.
func (p *Path) allocLen(v *Term, size uint64, fn *ssa.Function) int {
	tb := p.tb
	if p.allocLimit > 0 {
		lim := p.allocLimit / size
		if !p.branch(tb.Ule(v, tb.Const(lim, 64))) {
			p.violation("alloc", "allocation larger than the limit of "+fmt.Sprint(p.allocLimit)+" bytes in "+fn.String())
		}
		if v.isConst() {
			p.allocated += v.val * size
			if p.allocated > p.allocLimit {
				p.violation("alloc", "allocations exceed the limit of "+fmt.Sprint(p.allocLimit)+" bytes in "+fn.String())
			}
		}
	}
	if v.isConst() {
		if v.val > 1<<31 {
			panic(pathEnd{"cut", "allocation of more than 2^31 elements"})
		}
		return int(v.val)
	}
	bound := tb.Const(p.symAlloc, 64)
	if !p.branch(tb.Ule(v, bound)) {
		if p.skipAlloc > 0 {
			if !p.branch(tb.Ult(tb.Const(p.skipAlloc, 64), v)) {
				panic(pathEnd{"pruned", "allocation length outside the bounds"})
			}
			n := p.concretizeMax(v, 3, "a large allocation")
			p.allocated += n * size
			return int(n)
		}
		panic(pathEnd{"cut", fmt.Sprintf("symbolic allocation length above %d", p.symAlloc)})
	}
	n := int(p.concretize(v, "make"))
	p.allocated += uint64(n) * size
	return n
}

func (p *Path) concInt(v Value, typ types.Type, why string) int64 {
	t := p.idx64(v.(*Term), typ)
	return int64(p.concretize(t, why))
}

func (f *frame) slice(in *ssa.Slice) Value {
	p := f.p
	tb := p.tb
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = p.idx64(f.term(in.Low), in.Low.Type())
	}
	if in.High != nil {
		hi = p.idx64(f.term(in.High), in.High.Type())
	}
	if in.Max != nil {
		mx = p.idx64(f.term(in.Max), in.Max.Type())
	}
	k := func(n int) *Term { return tb.Const(uint64(n), 64) }
	if lo == nil {
		lo = k(0)
	}
	switch x := f.get(in.X).(type) {
	case *Str:
		if hi == nil {
			hi = k(x.Len())
		}
		p.check(tb.Ule(hi, k(x.Len())), "slice bounds out of range", f.fn)
		p.check(tb.Ule(lo, hi), "slice bounds out of range", f.fn)
		a, b := int(p.concretize(lo, "slice")), int(p.concretize(hi, "slice"))
		if x.sym != nil {
			return p.symStr(x.sym[a:b])
		}
		return concStr(x.s[a:b])
	case Slice:
		if hi == nil {
			hi = k(x.len)
		}
		c := k(x.cap)
		if mx != nil {
			p.check(tb.Ule(mx, c), "slice bounds out of range", f.fn)
			c = mx
		}
		p.check(tb.Ule(hi, c), "slice bounds out of range", f.fn)
		p.check(tb.Ule(lo, hi), "slice bounds out of range", f.fn)
		a, b, cc := int(p.concretize(lo, "slice")), int(p.concretize(hi, "slice")), int(p.concretize(c, "slice"))
		if x.arr == nil {
			return Slice{}
		}
		return Slice{arr: x.arr, off: x.off + a, len: b - a, cap: cc - a}
	case Ptr:
		if x.isNil() {
			p.raise("nil pointer dereference", f.fn)
		}
		if hi == nil {
			hi = k(x.c.n)
		}
		c := k(x.c.n)
		if mx != nil {
			p.check(tb.Ule(mx, c), "slice bounds out of range", f.fn)
			c = mx
		}
		p.check(tb.Ule(hi, c), "slice bounds out of range", f.fn)
		p.check(tb.Ule(lo, hi), "slice bounds out of range", f.fn)
		a, b, cc := int(p.concretize(lo, "slice")), int(p.concretize(hi, "slice")), int(p.concretize(c, "slice"))
		return Slice{arr: x.c, off: a, len: b - a, cap: cc - a}
	}
	panic(unsupported{"slice"})
}

// symStr normalises a byte list to a Str.
func (p *Path) symStr(b []*Term) *Str {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		raw := make([]byte, len(b))
		for i, t := range b {
			raw[i] = byte(t.val)
		}
		return concStr(string(raw))
	}
	return &Str{sym: append([]*Term{}, b...)}
}

func (p *Path) sliceBytes(s Slice) []*Term {
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = s.arr.elem(p.tb, s.off+i).v.(*Term)
	}
	return r
}

func (p *Path) strBytes(s *Str) []*Term {
	r := make([]*Term, s.Len())
	for i := range r {
		r[i] = p.strByte(s, i)
	}
	return r
}

func (p *Path) bytesToSlice(b []*Term) Slice {
	arr := newArray(types.Typ[types.Byte], len(b))
	for i, t := range b {
		arr.elem(p.tb, i).v = t
	}
	return Slice{arr: arr, len: len(b), cap: len(b)}
}

// within tells whether lo <= b <= hi holds, on this path.
func (p *Path) within(b *Term, lo, hi uint64) bool {
	return p.branch(p.tb.And(p.tb.Ule(p.tb.Const(lo, b.w), b), p.tb.Ule(b, p.tb.Const(hi, b.w))))
}

// decodeRune decodes the first UTF-8 character of b; paths split on its size.
func (p *Path) decodeRune(b []*Term) (*Term, int) {
	tb := p.tb
	bits := func(b *Term, n uint8) *Term { return tb.Zext(tb.Extract(n-1, 0, b), 32) }
	join := func(x, y *Term) *Term { return tb.Add(tb.ShlC(x, 6), bits(y, 6)) }
	bad := tb.Const(utf8.RuneError, 32)
	if p.branch(tb.Ult(b[0], tb.Const(0x80, 8))) {
		return tb.Zext(b[0], 32), 1
	}
	if p.within(b[0], 0xc2, 0xdf) {
		if len(b) > 1 && p.within(b[1], 0x80, 0xbf) {
			return join(bits(b[0], 5), b[1]), 2
		}
		return bad, 1
	}
	// the second byte of longer characters excludes overlong encodings, surrogates,
	// and values above the largest character
	second := func(lo, hi, first, edge, last, edge2 uint64) bool {
		if len(b) < 2 {
			return false
		}
		if p.branch(tb.Eq(b[0], tb.Const(first, 8))) {
			return p.within(b[1], edge, hi)
		}
		if p.branch(tb.Eq(b[0], tb.Const(last, 8))) {
			return p.within(b[1], lo, edge2)
		}
		return p.within(b[1], lo, hi)
	}
	if p.within(b[0], 0xe0, 0xef) {
		if second(0x80, 0xbf, 0xe0, 0xa0, 0xed, 0x9f) && len(b) > 2 && p.within(b[2], 0x80, 0xbf) {
			return join(join(bits(b[0], 4), b[1]), b[2]), 3
		}
		return bad, 1
	}
	if p.within(b[0], 0xf0, 0xf4) {
		if second(0x80, 0xbf, 0xf0, 0x90, 0xf4, 0x8f) && len(b) > 3 && p.within(b[2], 0x80, 0xbf) && p.within(b[3], 0x80, 0xbf) {
			return join(join(join(bits(b[0], 3), b[1]), b[2]), b[3]), 4
		}
	}
	return bad, 1
}

// encodeRune is the UTF-8 encoding of the character r (32 bits); paths split on its size.
func (p *Path) encodeRune(r *Term) []*Term {
	tb := p.tb
	if r.isConst() {
		var bs []*Term
		for _, b := range []byte(string(rune(int32(r.val)))) {
			bs = append(bs, tb.Const(uint64(b), 8))
		}
		return bs
	}
	c := func(b uint64) *Term { return tb.Const(b, 8) }
	tail := func(lo uint8) *Term { return tb.Add(c(0x80), tb.Zext(tb.Extract(lo+5, lo, r), 8)) }
	head := func(mark uint64, hi, lo uint8) *Term { return tb.Add(c(mark), tb.Zext(tb.Extract(hi, lo, r), 8)) }
	switch {
	case p.branch(tb.Ult(r, tb.Const(0x80, 32))):
		return []*Term{tb.Extract(7, 0, r)}
	case p.branch(tb.Ult(r, tb.Const(0x800, 32))):
		return []*Term{head(0xc0, 10, 6), tail(0)}
	case p.within(r, 0xd800, 0xdfff), p.branch(tb.Ult(tb.Const(utf8.MaxRune, 32), r)):
		return []*Term{c(0xef), c(0xbf), c(0xbd)}
	case p.branch(tb.Ult(r, tb.Const(0x10000, 32))):
		return []*Term{head(0xe0, 15, 12), tail(6), tail(0)}
	}
	return []*Term{head(0xf0, 20, 18), tail(12), tail(6), tail(0)}
}

func (f *frame) next(in *ssa.Next) Value {
	p := f.p
	tb := p.tb
	it := f.get(in.Iter).(*RangeIter)
	if in.IsString {
		n := it.str.Len()
		if it.pos >= n {
			return Tuple{tb.ff, tb.Const(0, 64), tb.Const(0, 32)}
		}
		pos := it.pos
		if it.str.sym == nil {
			r, sz := utf8.DecodeRuneInString(it.str.s[it.pos:])
			it.pos += sz
			return Tuple{tb.tt, tb.Const(uint64(pos), 64), tb.Const(uint64(uint32(r)), 32)}
		}
		r, size := p.decodeRune(it.str.sym[pos:])
		it.pos += size
		return Tuple{tb.tt, tb.Const(uint64(pos), 64), r}
	}
	var live []*MapEnt
	for _, e := range it.left {
		if !e.dead {
			live = append(live, e)
		}
	}
	mt := in.Iter.(*ssa.Range).X.Type()
	m := under(mt).(*types.Map)
	if len(live) == 0 {
		it.left = nil
		return Tuple{tb.ff, zero(tb, m.Key()), zero(tb, m.Elem())}
	}
	k := 0
	if p.mapOrder && len(live) > 1 && p.initDepth == 0 {
		k = p.choose("maporder", len(live))
	}
	e := live[k]
	it.left = append(append([]*MapEnt{}, live[:k]...), live[k+1:]...)
	return Tuple{tb.tt, e.k, e.v}
}

func (f *frame) typeAssert(in *ssa.TypeAssert) Value {
	p := f.p
	x := f.get(in.X).(Iface)
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := under(in.AssertedType).(*types.Interface); isI {
			ok = p.w.eng.implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = x.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = zero(p.tb, in.AssertedType)
		}
		return Tuple{v, p.tb.Bool(ok)}
	}
	if !ok {
		p.raise("interface conversion", f.fn)
	}
	return v
}

func (f *frame) prepCall(cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := f.get(cc.Value).(Iface)
		if recv.t == nil {
			f.p.raise("nil pointer dereference", f.fn)
		}
		if nm, isNative := recv.v.(nativeErr); isNative {
			_ = nm
		}
		fn := f.p.w.eng.method(recv.t, cc.Method)
		if fn == nil {
			panic(unsupported{"method " + cc.Method.Name() + " of " + recv.t.String()})
		}
		args = append(args, recv.v)
		for _, a := range cc.Args {
			args = append(args, f.get(a))
		}
		return &Closure{fn: fn}, args
	}
	for _, a := range cc.Args {
		args = append(args, f.get(a))
	}
	return f.get(cc.Value), args
}

type nativeErr struct{}

func (f *frame) call(cc *ssa.CallCommon) Value {
	// initialisers of imported packages run lazily, see Path.global
	if fn, ok := cc.Value.(*ssa.Function); ok && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return nil
	}
	fv, args := f.prepCall(cc)
	return f.callValue(fv, args, cc)
}

func (f *frame) builtin(b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	p := f.p
	tb := p.tb
	n64 := func(n int) *Term { return tb.Const(uint64(n), 64) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return n64(x.Len())
		case Slice:
			return n64(x.len)
		case *MapObj:
			n := 0
			if x != nil {
				for _, e := range x.ents {
					if !e.dead {
						n++
					}
				}
			}
			return n64(n)
		case ArrayV:
			return n64(len(x))
		case Ptr:
			return n64(x.c.n)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return n64(x.cap)
		case ArrayV:
			return n64(len(x))
		case Ptr:
			return n64(x.c.n)
		}
	case "append":
		s := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case *Str:
			for _, t := range p.strBytes(y) {
				src = append(src, t)
			}
		case Slice:
			src = make([]Value, y.len)
			for i := range src {
				src[i] = y.arr.elem(tb, y.off+i).load(tb)
			}
		}
		if len(src) == 0 {
			return s
		}
		n := s.len + len(src)
		if n <= s.cap {
			for i, v := range src {
				s.arr.elem(tb, s.off+s.len+i).store(p, v)
			}
			s.len = n
			return s
		}
		nc := growCap(s.cap, n)
		elem := under(cc.Args[0].Type()).(*types.Slice).Elem()
		if p.allocLimit > 0 {
			p.allocated += uint64(nc) * uint64(p.w.eng.sizes.Sizeof(elem))
			if p.allocated > p.allocLimit {
				p.violation("alloc", "allocations exceed the limit of "+fmt.Sprint(p.allocLimit)+" bytes in "+f.fn.String())
			}
		}
		arr := newArray(elem, nc)
		for i := 0; i < s.len; i++ {
			arr.elem(tb, i).store(p, s.arr.elem(tb, s.off+i).load(tb))
		}
		for i, v := range src {
			arr.elem(tb, s.len+i).store(p, v)
		}
		return Slice{arr: arr, len: n, cap: nc}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case *Str:
			for i := 0; i < min(y.Len(), d.len); i++ {
				src = append(src, p.strByte(y, i))
			}
		case Slice:
			for i := 0; i < min(y.len, d.len); i++ {
				src = append(src, y.arr.elem(tb, y.off+i).load(tb))
			}
		}
		for i, v := range src {
			d.arr.elem(tb, d.off+i).store(p, v)
		}
		return n64(len(src))
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			if m.frozen && p.freezeOn {
				p.frozenMapWrite(m)
			}
			if e := p.mapGet(m, args[1]); e != nil {
				e.dead = true
			}
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
			}
		case Slice:
			for i := 0; i < x.len; i++ {
				c := x.arr.elem(tb, x.off+i)
				c.store(p, zero(tb, c.t))
			}
		}
		return nil
	case "min", "max":
		t := cc.Args[0].Type()
		r := args[0]
		for i := 1; i < len(args); i++ {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := p.binop(op, r, args[i], t, t, f.fn).(*Term)
			if x, ok := r.(*Term); ok && !isFloat(t) {
				r = tb.Ite(c, x, args[i].(*Term))
			} else if !p.branch(c) {
				r = args[i]
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		// called by a deferred function: the panicking frame is the caller's caller
		if fr := f.caller; fr != nil && fr.panicking != nil && !fr.panicking.rec {
			fr.panicking.rec = true
			v := fr.panicking.val
			return v
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if ptr, ok := args[0].(Ptr); ok && ptr.isNil() {
			p.raise("nil pointer dereference", f.fn)
		}
		return args[0]
	case "String": // unsafe.String
		ptr := args[0].(Ptr)
		n := int(p.concretize(args[1].(*Term), "unsafe.String"))
		if n == 0 {
			return concStr("")
		}
		if ptr.arr == nil {
			panic(unsupported{"unsafe.String of a plain pointer"})
		}
		return p.symStr(p.sliceBytes(Slice{arr: ptr.arr, off: ptr.idx, len: n, cap: n}))
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil || s.cap == 0 {
			return Ptr{}
		}
		return Ptr{c: s.arr.elem(tb, s.off), arr: s.arr, idx: s.off}
	case "StringData":
		s := args[0].(*Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		sl := p.bytesToSlice(p.strBytes(s))
		return Ptr{c: sl.arr.elem(tb, 0), arr: sl.arr, idx: 0}
	case "Slice": // unsafe.Slice
		ptr := args[0].(Ptr)
		n := int(p.concInt(args[1], cc.Args[1].Type(), "unsafe.Slice"))
		if ptr.arr == nil {
			panic(unsupported{"unsafe.Slice"})
		}
		return Slice{arr: ptr.arr, off: ptr.idx, len: n, cap: n}
	}
	panic(unsupported{"builtin " + b.Name()})
}

func growCap(old, n int) int {
	c := old * 2
	if old >= 256 {
		c = old + (old+3*256)/4
	}
	if c < n {
		c = n
	}
	if c < 8 && n <= 8 {
		c = 8
	}
	return c
}

// ---- arithmetic ----

func (p *Path) binop(op token.Token, xv, yv Value, xt, yt types.Type, fn *ssa.Function) Value {
	tb := p.tb
	switch op {
	case token.EQL:
		return p.eqv(xv, yv, xt)
	case token.NEQ:
		return tb.Not(p.eqv(xv, yv, xt))
	}
	if xs, ok := xv.(*Str); ok {
		ys := yv.(*Str)
		switch op {
		case token.ADD:
			if xs.sym == nil && ys.sym == nil {
				return concStr(xs.s + ys.s)
			}
			return p.symStr(append(p.strBytes(xs), p.strBytes(ys)...))
		case token.LSS:
			return p.strLess(xs, ys, false)
		case token.LEQ:
			return p.strLess(xs, ys, true)
		case token.GTR:
			return p.strLess(ys, xs, false)
		case token.GEQ:
			return p.strLess(ys, xs, true)
		}
		panic(unsupported{"string op"})
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s on %T", op, xv)})
	}
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return tb.Fp("add", x.w, x, y)
		case token.SUB:
			return tb.Fp("sub", x.w, x, y)
		case token.MUL:
			return tb.Fp("mul", x.w, x, y)
		case token.QUO:
			return tb.Fp("div", x.w, x, y)
		case token.LSS:
			return p.fless(x, y, false)
		case token.LEQ:
			return p.fless(x, y, true)
		case token.GTR:
			return p.fless(y, x, false)
		case token.GEQ:
			return p.fless(y, x, true)
		}
		panic(unsupported{"float op " + op.String()})
	}
	sg := isSigned(xt)
	switch op {
	case token.ADD:
		return tb.Add(x, y)
	case token.SUB:
		return tb.Sub(x, y)
	case token.MUL:
		return tb.Mul(x, y)
	case token.QUO, token.REM:
		p.check(tb.Not(tb.Eq(y, tb.Const(0, y.w))), "integer divide by zero", fn)
		o := OUDiv
		switch {
		case sg && op == token.QUO:
			o = OSDiv
		case sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return tb.divrem(o, x, y)
	case token.AND:
		if x.w == 0 {
			return tb.And(x, y)
		}
		return tb.bitop(OBAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return tb.Or(x, y)
		}
		return tb.bitop(OBOr, x, y)
	case token.XOR:
		return tb.bitop(OBXor, x, y)
	case token.AND_NOT:
		return tb.bitop(OBAnd, x, tb.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			p.check(tb.Sle(tb.Const(0, y.w), y), "negative shift amount", fn)
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if sg {
				o = OAshr
			}
		}
		if y.w <= x.w {
			return tb.shift(o, x, tb.Zext(y, x.w))
		}
		small := tb.Ult(y, tb.Const(uint64(x.w), y.w))
		r := tb.shift(o, x, tb.Extract(x.w-1, 0, y))
		var big *Term
		if o == OAshr {
			big = tb.shift(OAshr, x, tb.Const(uint64(x.w-1), x.w))
		} else {
			big = tb.Const(0, x.w)
		}
		return tb.Ite(small, r, big)
	case token.LSS:
		if sg {
			return tb.Slt(x, y)
		}
		return tb.Ult(x, y)
	case token.LEQ:
		if sg {
			return tb.Sle(x, y)
		}
		return tb.Ule(x, y)
	case token.GTR:
		if sg {
			return tb.Slt(y, x)
		}
		return tb.Ult(y, x)
	case token.GEQ:
		if sg {
			return tb.Sle(y, x)
		}
		return tb.Ule(y, x)
	}
	panic(unsupported{"binop " + op.String()})
}

func fExpMant(w uint8) (uint8, uint8) {
	if w == 32 {
		return 8, 23
	}
	return 11, 52
}

func (p *Path) fNaN(x *Term) *Term {
	tb := p.tb
	e, m := fExpMant(x.w)
	return tb.And(tb.Eq(tb.Extract(m+e-1, m, x), tb.Const(mask(e), e)),
		tb.Not(tb.Eq(tb.Extract(m-1, 0, x), tb.Const(0, m))))
}
func (p *Path) fZero(x *Term) *Term {
	return p.tb.Eq(p.tb.Extract(x.w-2, 0, x), p.tb.Const(0, x.w-1))
}
func (p *Path) fEq(x, y *Term) *Term {
	tb := p.tb
	return tb.And(tb.And(tb.Not(p.fNaN(x)), tb.Not(p.fNaN(y))),
		tb.Or(tb.Eq(x, y), tb.And(p.fZero(x), p.fZero(y))))
}
func (p *Path) fless(x, y *Term, eq bool) *Term {
	tb := p.tb
	w := x.w
	sx := tb.Eq(tb.Extract(w-1, w-1, x), tb.Const(1, 1))
	sy := tb.Eq(tb.Extract(w-1, w-1, y), tb.Const(1, 1))
	mx, my := tb.Extract(w-2, 0, x), tb.Extract(w-2, 0, y)
	bothZero := tb.And(p.fZero(x), p.fZero(y))
	lt := tb.Ite(sx, tb.Ite(sy, tb.Ult(my, mx), tb.Not(bothZero)), tb.Ite(sy, tb.ff, tb.Ult(mx, my)))
	r := tb.And(tb.And(tb.Not(p.fNaN(x)), tb.Not(p.fNaN(y))), lt)
	if eq {
		r = tb.Or(r, p.fEq(x, y))
	}
	return r
}

func (p *Path) strLess(x, y *Str, orEq bool) *Term {
	tb := p.tb
	if x.sym == nil && y.sym == nil {
		if orEq {
			return tb.Bool(x.s <= y.s)
		}
		return tb.Bool(x.s < y.s)
	}
	n := min(x.Len(), y.Len())
	var r *Term
	if orEq {
		r = tb.Bool(x.Len() <= y.Len())
	} else {
		r = tb.Bool(x.Len() < y.Len())
	}
	for i := n - 1; i >= 0; i-- {
		a, b := p.strByte(x, i), p.strByte(y, i)
		r = tb.Or(tb.Ult(a, b), tb.And(tb.Eq(a, b), r))
	}
	return r
}

// eqv implements == on values of type t (nil when unknown).
func (p *Path) eqv(x, y Value, t types.Type) *Term {
	tb := p.tb
	switch a := x.(type) {
	case *Term:
		if t != nil && isFloat(t) {
			return p.fEq(a, y.(*Term))
		}
		return tb.Eq(a, y.(*Term))
	case *Str:
		b := y.(*Str)
		if a.sym == nil && b.sym == nil {
			return tb.Bool(a.s == b.s)
		}
		if a.Len() != b.Len() {
			return tb.ff
		}
		r := tb.tt
		for i := 0; i < a.Len(); i++ {
			r = tb.And(r, tb.Eq(p.strByte(a, i), p.strByte(b, i)))
		}
		return r
	case Ptr:
		b := y.(Ptr)
		if a.sym != nil {
			a = p.concSym(a)
		}
		if b.sym != nil {
			b = p.concSym(b)
		}
		return tb.Bool(a.c == b.c)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported{"interface compared with a concrete value"})
		}
		if a.t == nil || b.t == nil {
			return tb.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tb.ff
		}
		if !types.Comparable(a.t) {
			p.raise("comparing uncomparable type", nil)
		}
		return p.eqv(a.v, b.v, a.t)
	case StructV:
		b := y.(StructV)
		r := tb.tt
		for i := range a {
			var ft types.Type
			if t != nil {
				ft = under(t).(*types.Struct).Field(i).Type()
			}
			r = tb.And(r, p.eqv(a[i], b[i], ft))
		}
		return r
	case ArrayV:
		b := y.(ArrayV)
		r := tb.tt
		var et types.Type
		if t != nil {
			et = under(t).(*types.Array).Elem()
		}
		for i := range a {
			r = tb.And(r, p.eqv(a[i], b[i], et))
		}
		return r
	case Slice: // comparison with nil
		b := y.(Slice)
		if a.arr == nil || b.arr == nil {
			return tb.Bool(a.arr == nil && b.arr == nil)
		}
	case *MapObj:
		return tb.Bool(a == y.(*MapObj))
	case *Closure:
		b := y.(*Closure)
		return tb.Bool(a == nil && b == nil)
	case *ChanObj:
		return tb.Bool(a == y.(*ChanObj))
	}
	panic(unsupported{fmt.Sprintf("== on %T", x)})
}

func (p *Path) convert(v Value, from, to types.Type, fn *ssa.Function) Value {
	tb := p.tb
	uf, ut := under(from), under(to)
	if t, ok := v.(*Term); ok {
		if isString(to) { // rune to string
			if isSigned(from) {
				t = tb.Sext(t, 64)
			} else {
				t = tb.Zext(t, 64)
			}
			if !p.branch(tb.Ule(t, tb.Const(utf8.MaxRune, 64))) {
				return concStr(string(utf8.RuneError))
			}
			return p.symStr(p.encodeRune(tb.Zext(t, 32)))
		}
		bt, ok := ut.(*types.Basic)
		if !ok {
			panic(unsupported{"convert to " + to.String()})
		}
		if bt.Kind() == types.UnsafePointer {
			panic(unsupported{"uintptr to unsafe.Pointer"})
		}
		w, _ := basicWidth(bt)
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case !ff && !tf:
			if w == t.w {
				return t
			}
			if isSigned(from) {
				return tb.Sext(t, w)
			}
			return tb.Zext(t, w)
		case ff && tf:
			if w == t.w {
				return t
			}
			return tb.Fp("f2f", w, t)
		case tf:
			if isSigned(from) {
				return tb.Fp("s2f", w, t)
			}
			return tb.Fp("u2f", w, t)
		default:
			if isSigned(to) {
				return tb.Fp("f2s", w, t)
			}
			return tb.Fp("f2u", w, t)
		}
	}
	switch x := v.(type) {
	case *Str:
		if s, ok := ut.(*types.Slice); ok {
			if b, ok := under(s.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return p.bytesToSlice(p.strBytes(x))
			}
			if x.sym != nil {
				var rs []*Term
				for left := x.sym; len(left) > 0; {
					r, size := p.decodeRune(left)
					rs, left = append(rs, r), left[size:]
				}
				arr := newArray(s.Elem(), len(rs))
				for i, r := range rs {
					arr.elem(tb, i).v = r
				}
				return Slice{arr: arr, len: len(rs), cap: len(rs)}
			}
			rs := []rune(x.s)
			arr := newArray(s.Elem(), len(rs))
			for i, r := range rs {
				arr.elem(tb, i).v = tb.Const(uint64(uint32(r)), 32)
			}
			return Slice{arr: arr, len: len(rs), cap: len(rs)}
		}
		return x
	case Slice:
		if isString(to) {
			s := uf.(*types.Slice)
			if b, ok := under(s.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				return p.symStr(p.sliceBytes(x))
			}
			bs := []*Term{}
			for i := 0; i < x.len; i++ {
				bs = append(bs, p.encodeRune(x.arr.elem(tb, x.off+i).v.(*Term))...)
			}
			return p.symStr(bs)
		}
		return x
	case Ptr:
		if bt, ok := ut.(*types.Basic); ok && bt.Kind() == types.Uintptr {
			panic(unsupported{"unsafe.Pointer to uintptr"})
		}
		return x
	}
	return v
}

// ---- maps ----

func (p *Path) newMap() *MapObj { return &MapObj{} }

func (p *Path) mapGet(m *MapObj, k Value) *MapEnt {
	if m == nil {
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		c := p.eqv(e.k, k, nil)
		if c.isTrue() {
			return e
		}
		if c.isFalse() {
			continue
		}
		if p.branch(c) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapObj, k, v Value) {
	if e := p.mapGet(m, k); e != nil {
		e.v = v
		return
	}
	m.ents = append(m.ents, &MapEnt{k: k, v: v})
}

// sliceToArray is the pointer to the first elements of a slice seen as an array.
func (p *Path) sliceToArray(s Slice, t types.Type, fn *ssa.Function) Value {
	at := under(under(t).(*types.Pointer).Elem()).(*types.Array)
	n := int(at.Len())
	if s.len < n {
		p.raise("slice to array conversion: length out of range", fn)
	}
	if s.arr == nil {
		return Ptr{}
	}
	if s.off == 0 && s.arr.n == n {
		return Ptr{c: s.arr}
	}
	if n > bigArray {
		panic(unsupported{"slice to a huge array"})
	}
	c := &Cell{t: at, n: n, frozen: s.arr.frozen, kids: make([]*Cell, n)}
	for i := range c.kids {
		c.kids[i] = s.arr.elem(p.tb, s.off+i)
	}
	return Ptr{c: c}
}
