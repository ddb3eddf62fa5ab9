// Package c07: packed arrays of every element type.
//
//sv:bound all 24 element types and bit fields of 1, 3, 13, 33, 63 and 64 bits; arrays of 0..3 elements for unsigned types of up to 32 bits, 0..2 for the others (thorough: 0..3 everywhere, 4 for small types); all element values, representable or not
//sv:bound quick tier, types of more than 16 bits: differences of 0, 1, 2, 7, 8, 14, 27, 32, 61, 62, 63 and 64 bits (thorough: every width)
//sv:bound additionally arrays of 3 (uint32: 4; thorough: one more) elements whose neighbouring differences take each combination of chosen widths (0, 1, 9, 32, 62, 63, 64), for uint32, uint64, int64, varuint, varint without negative elements
//sv:bound uint16, int:33, varuint arrays of 128 and 4097 elements whose last element is arbitrary, its difference of one of three or four widths, the others fixed; bit offset 3
//sv:bound automatic length at bit offset 0 and fixed length at 3 (thorough: both at 0, 3, 7); decoding what was encoded, and the bytes' layout
//sv:assume boolean elements: only the round trip is claimed, not the layout
package c07

import (
	"math/bits"

	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// plan is the reference for an array: the width of the widest difference, whether
// packing with it is smaller, and whether there are elements of both signs.
type plan struct {
	width           int
	plain, first, n int
	mixed           bool
}

func (p plan) smaller(width int) bool {
	each := 0
	if width > 0 {
		each = width + 1
	}
	return p.n > 0 && 7+p.first+(p.n-1)*each < 1+p.plain
}

// distance is the distance of two elements of the same sign; for elements of both
// signs it is the smaller of two equally valid choices modulo 2^64 the encoder has.
func distance(x, y uint64) uint64 {
	if x > y {
		return x - y
	}
	return y - x
}

// widest splits the path on the width of the widest distance of neighbours, and on
// the first pair of neighbours that has it.
func widest[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], a []T, all bool) int {
	if len(a) < 2 {
		return 0
	}
	if k.Signed && k.Var { // sign and magnitude encoding
		for _, v := range a {
			if sv.Choose("negative", 2) == 1 {
				sv.Assume(int64(k.Num(v)) < 0)
			} else {
				sv.Assume(!(int64(k.Num(v)) < 0))
			}
		}
	}
	at := 1 + sv.Choose("widest", len(a)-1)
	w := bits.Len64(distance(k.Num(a[at]), k.Num(a[at-1])))
	if all {
		w = sv.Concrete(w)
	} else {
		c := fewWidths[sv.Choose("width", len(fewWidths))]
		sv.Assume(w == c)
		w = c
	}
	most := 0
	for i := 1; i < len(a); i++ {
		l := bits.Len64(distance(k.Num(a[i]), k.Num(a[i-1])))
		switch {
		case i < at:
			sv.Assume(l < w)
			if l > most {
				most = l
			}
			sv.Assume(w > most)
		case i > at:
			sv.Assume(!(l > w))
		}
	}
	return w
}

func reference[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], a []T, width int) plan {
	p := plan{n: len(a), width: width}
	minus, plus := false, false
	for i, v := range a {
		minus = sv.Or(minus, sv.And(k.Signed, int64(k.Num(v)) < 0))
		plus = sv.Or(plus, !sv.And(k.Signed, int64(k.Num(v)) < 0))
		b := &hx.Bits{}
		k.Put(b, v)
		p.plain += b.Len()
		if i == 0 {
			p.first = b.Len()
		}
	}
	p.mixed = sv.And(minus, plus)
	return p
}

func check[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], most int) {
	checkLayout(k, most, true, true)
}

// few restricts the widths of the differences in the quick tier.
func few[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], most int) {
	checkLayout(k, most, true, sv.Thorough())
}

var fewWidths = []int{0, 1, 2, 7, 8, 14, 27, 32, 61, 62, 63, 64}

func checkLayout[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], most int, layout, all bool) {
	n := sv.Choose("length", most+1)
	auto, off := true, 0
	if sv.Thorough() {
		auto, off = sv.Choose("auto", 2) == 1, hx.Offset(3)
	} else if sv.Choose("mode", 2) == 1 {
		auto, off = false, 3
	}
	elems := k.Array(n)
	fits := k.AllFit(elems)
	width := 0
	if k.Num != nil && fits {
		width = widest(k, elems, all)
	}
	verify(k, elems, fits, layout, auto, off, width)
}

// gaps checks arrays whose neighbours differ by the given widths, in any order.
func gaps[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], n int, widths ...int) {
	elems := k.Array(n)
	sv.Assume(k.AllFit(elems))
	width := 0
	for i := 1; i < n; i++ {
		w := widths[sv.Choose("gap", len(widths))]
		sv.Assume(bits.Len64(distance(k.Num(elems[i]), k.Num(elems[i-1]))) == w)
		width = max(width, w)
	}
	for _, v := range elems {
		sv.Assume(!sv.And(k.Signed, int64(k.Num(v)) < 0))
	}
	verify(k, elems, true, true, true, 0, width)
}

func verify[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], elems []T, fits, layout, auto bool, off, width int) {
	n := len(elems)
	arr := k.New(elems, auto, true)
	sv.Section("encode")
	b, w, done, ref := hx.WriterAt(off)
	err := arr.MarshalZserio(w)
	if fits {
		sv.Assert(err == nil, "accepts")
	}
	if err != nil {
		return
	}
	length := int(w.BitPosition())
	post := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(done() == nil, "close")

	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	size := n
	if auto {
		size = 0
	}
	got, err := ztype.ArrayFromReader[T, Y](r, k.Traits, size, true, auto)
	sv.Assert(err == nil, "decodes")
	sv.Assert(k.Same(elems, got.RawArray), "round-trip")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Reach("round-trips")

	if !fits || !layout {
		return
	}
	sv.Section("layout")
	if auto {
		ref.PutVarUint(uint64(n), 5)
	}
	if n > 0 && k.Num != nil {
		p := reference(k, elems, width)
		at := ref.Len()
		packed := b.B[at/8]>>uint(7-at%8)&1 == 1
		if packed {
			// the differences of elements of both signs are modulo 2^64, so the
			// width is the encoder's choice
			w := width
			if p.mixed {
				r := hx.NewReader(b.B)
				_, _ = r.ReadBits(uint8(at + 1))
				u, err := r.ReadBits(6)
				sv.Assert(err == nil, "width-present")
				w = sv.Concrete(int(u))
			}
			sv.Assert(p.smaller(w), "packed-only-when-smaller")
			sv.Assert(w <= 62, "packed-only-up-to-62-bits")
			ref.Put(1, 1)
			ref.Put(uint64(w), 6)
			for i, v := range elems {
				if i == 0 {
					k.Put(ref, v)
				} else if w > 0 {
					ref.Put(k.Num(v)-k.Num(elems[i-1]), w+1)
				}
			}
		} else {
			sv.Assert(!sv.And(p.smaller(width) && width <= 62, !p.mixed), "packed-when-smaller")
			ref.Put(0, 1)
			for _, v := range elems {
				k.Put(ref, v)
			}
		}
	} else {
		for _, v := range elems {
			k.Put(ref, v)
		}
	}
	sv.Assert(length == ref.Len(), "bits")
	ref.Put(post, 8)
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "bytes")
}

// large: arrays of sizes an implementation may treat apart; only the last element is
// arbitrary, at gives the others. None is negative.
func large[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T, few ...int) {
	sv.Long()
	n := []int{128, 4097}[sv.Choose("large", 2)]
	a := make([]T, n)
	for i := range a {
		a[i] = at(i)
	}
	a[n-1] = k.In()
	sv.Assume(k.AllFit(a[n-1:]))
	sv.Assume(!sv.And(k.Signed, int64(k.Num(a[n-1])) < 0))
	width := few[sv.Choose("gap", len(few))]
	sv.Assume(bits.Len64(distance(k.Num(a[n-1]), k.Num(a[n-2]))) == width)
	for i := 1; i < n-1; i++ {
		width = max(width, bits.Len64(distance(k.Num(a[i]), k.Num(a[i-1]))))
	}
	verify(k, a, true, true, n > 128 || sv.Choose("auto", 2) == 1, 3, width)
}

func C07_LargeUInt16() {
	large(hx.UBits[uint16](16, sv.U16), func(i int) uint16 { return uint16(30000 + i%3) }, 0, 2, 14, 15)
}
func C07_LargeInt33() {
	large(hx.SBits[int64](33, sv.I64), func(i int) int64 { return int64(1<<30 - i) }, 0, 8, 31, 32)
}
func C07_LargeVarUint() {
	large(hx.VarUint(), func(i int) uint64 { return 1<<20 - uint64(i/7) }, 0, 8, 20)
}

// deep is the array length for a type: q in the quick tier.
func deep(q int) int {
	if sv.Thorough() {
		if q == 3 {
			return 4
		}
		return 3
	}
	return q
}

func C07_UInt8()     { check(hx.UBits[uint8](8, sv.U8), deep(3)) }
func C07_UInt16()    { check(hx.UBits[uint16](16, sv.U16), deep(3)) }
func C07_UInt32()    { few(hx.UBits[uint32](32, sv.U32), deep(3)) }
func C07_UInt64()    { few(hx.UBits[uint64](64, sv.U64), deep(2)) }
func C07_Bit1()      { check(hx.UBits[uint8](1, sv.U8), deep(3)) }
func C07_Bit3()      { check(hx.UBits[uint8](3, sv.U8), deep(3)) }
func C07_Bit13()     { check(hx.UBits[uint16](13, sv.U16), deep(3)) }
func C07_Bit33()     { few(hx.UBits[uint64](33, sv.U64), deep(2)) }
func C07_Bit63()     { few(hx.UBits[uint64](63, sv.U64), deep(2)) }
func C07_Int8()      { check(hx.SBits[int8](8, sv.I8), deep(3)) }
func C07_Int16()     { check(hx.SBits[int16](16, sv.I16), deep(2)) }
func C07_Int32()     { few(hx.SBits[int32](32, sv.I32), deep(2)) }
func C07_Int64()     { few(hx.SBits[int64](64, sv.I64), deep(2)) }
func C07_Int1()      { check(hx.SBits[int8](1, sv.I8), deep(3)) }
func C07_Int3()      { check(hx.SBits[int8](3, sv.I8), deep(3)) }
func C07_Int13()     { check(hx.SBits[int16](13, sv.I16), deep(2)) }
func C07_Int33()     { few(hx.SBits[int64](33, sv.I64), deep(2)) }
func C07_Int63()     { few(hx.SBits[int64](63, sv.I64), deep(2)) }
func C07_VarUint16() { check(hx.VarUint16(), deep(3)) }
func C07_VarUint32() { few(hx.VarUint32(), deep(2)) }
func C07_VarUint64() { few(hx.VarUint64(), deep(2)) }
func C07_VarUint()   { few(hx.VarUint(), deep(2)) }
func C07_VarSize()   { few(hx.VarSize(), deep(2)) }
func C07_VarInt16()  { check(hx.VarInt16(), deep(2)) }
func C07_VarInt32()  { few(hx.VarInt32(), deep(2)) }
func C07_VarInt64()  { few(hx.VarInt64(), deep(2)) }
func C07_VarInt()    { few(hx.VarInt(), deep(2)) }
func C07_Bool()      { checkLayout(hx.Bool(), 3, false, true) }
func C07_Float16()   { check(hx.Float16(), deep(2)) }
func C07_Float32()   { check(hx.Float32(), deep(2)) }
func C07_Float64()   { check(hx.Float64(), deep(2)) }
func C07_String()    { check(hx.String(), deep(2)) }
func C07_Bytes()     { check(hx.Bytes(), deep(2)) }
func C07_Extern()    { check(hx.Extern(), deep(2)) }

// the history of the differences: a wide one before, between or after small ones
func C07_GapsUInt64()  { gaps(hx.UBits[uint64](64, sv.U64), 3+more(), 1, 62, 63, 64) }
func C07_GapsInt64()   { gaps(hx.SBits[int64](64, sv.I64), 3+more(), 1, 62, 63) }
func C07_GapsVarUint() { gaps(hx.VarUint(), 3+more(), 1, 62, 63, 64) }
func C07_GapsVarInt()  { gaps(hx.VarInt(), 3+more(), 1, 62, 63) }
func C07_GapsUInt32()  { gaps(hx.UBits[uint32](32, sv.U32), 4+more(), 0, 1, 9, 32) }

func more() int {
	if sv.Thorough() {
		return 1
	}
	return 0
}
