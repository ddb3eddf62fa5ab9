// Package c06: unpacked arrays of every element type.
//
//sv:bound all 24 element types and bit fields of 1, 3, 8, 13, 31, 33, 63 and 64 bits; arrays of 0..3 elements (thorough: 0..4) of fixed width, 0..2 (thorough: 0..3) of variable width; all element values
//sv:bound strings and bytes of 0..2 bytes, extern of 0, 3, 8 and 13 bits as elements; bool arrays of 127, 128 and 129 elements (three of them arbitrary) for the count prefix
//sv:bound arrays of 127, 128, 4095, 4096, 4097, 8193, 16383 and 16384 elements for some of uint8, bool, int:13, varint16, string: the last element arbitrary, for fixed widths also the first and the 4096th and 4097th, the others fixed; bit offset 3
//sv:bound bit offsets 0..7 for fixed-width elements, 0 and 3 (thorough: 0, 3, 7, 4) for the others; automatic and fixed length; with and without offset methods
package c06

import (
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func count(v bool) int {
	n := 4
	if v {
		n = 3
	}
	if sv.Thorough() {
		n++
	}
	return n
}

func check[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	n := sv.Choose("length", count(k.Var))
	offs := 8
	if k.Var {
		offs = 2
		if sv.Thorough() {
			offs = 4
		}
	}
	auto := sv.Choose("auto", 2) == 1
	off := hx.Offset(offs)
	checkArray(k, k.Array(n), auto, off)
}

func checkArray[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], elems []T, auto bool, off int) {
	n := len(elems)
	arr := k.New(elems, auto, false)

	sv.Section("encode")
	b, w, done, ref := hx.WriterAt(off)
	err := arr.MarshalZserio(w)
	fits := k.AllFit(elems)
	if !fits {
		sv.Assert(err != nil, "rejects-unrepresentable")
		return
	}
	sv.Assert(err == nil, "accepts")
	post := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(done() == nil, "close")
	if auto {
		ref.PutVarUint(uint64(n), 5)
	}
	for _, v := range elems {
		k.Put(ref, v)
	}
	ref.Put(post, 8)
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")

	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	size := n
	if auto {
		size = 0
	}
	got, err := ztype.ArrayFromReader[T, Y](r, k.Traits, size, false, auto)
	sv.Assert(err == nil, "decodes")
	sv.Assert(k.Same(elems, got.RawArray), "round-trip")
	sv.Assert(got.Size() == n, "size")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Reach("round-trips")
}

// offsets: with offset methods every element starts at a byte boundary and the
// method is told its index and that position.
func offsets[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	n := sv.Choose("length", 3)
	off := hx.Offset(2)
	packed := sv.Choose("packed", 2) == 1 && k.Num == nil
	elems := k.Array(n)
	sv.Assume(k.AllFit(elems))
	var idx []int
	var pos []int64
	empty, err := ztype.ArrayFromReader[T, Y](hx.NewReader(nil), k.Traits, 0, packed, false,
		ztype.WithCheckOffsetMethod[T, Y](func(i int, p int64) { idx = append(idx, i); pos = append(pos, p) }),
		ztype.WithSetOffsetMethod[T, Y](func(int, int64) {}))
	sv.Assert(err == nil, "empty")
	empty.RawArray, empty.IsAuto, empty.FixedSize = elems, true, n
	size, err := empty.ZserioBitSize(off)
	sv.Assert(err == nil, "predicts")

	b, w, done, ref := hx.WriterAt(off)
	sv.Section("encode")
	sv.Assert(empty.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	ref.PutVarUint(uint64(n), 5)
	sv.Assert(len(idx) == n, "called-for-each")
	for i, v := range elems {
		ref.Align(8)
		sv.Assert(idx[i] == i && pos[i] == int64(ref.Len()), "told-position")
		k.Put(ref, v)
	}
	sv.Assert(size == ref.Len()-off, "predicted-size")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")

	sv.Section("decode")
	idx, pos = nil, nil
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	var at []int64
	got, err := ztype.ArrayFromReader[T, Y](r, k.Traits, 0, packed, true,
		ztype.WithCheckOffsetMethod[T, Y](func(i int, p int64) { at = append(at, p) }))
	sv.Assert(err == nil && len(at) == n, "decodes")
	sv.Assert(k.Same(elems, got.RawArray), "round-trip")
	sv.Reach("round-trips")
}

func C06_UInt8()     { check(hx.UBits[uint8](8, sv.U8)) }
func C06_UInt16()    { check(hx.UBits[uint16](16, sv.U16)) }
func C06_UInt32()    { check(hx.UBits[uint32](32, sv.U32)) }
func C06_UInt64()    { check(hx.UBits[uint64](64, sv.U64)) }
func C06_Bit1()      { check(hx.UBits[uint8](1, sv.U8)) }
func C06_Bit3()      { check(hx.UBits[uint8](3, sv.U8)) }
func C06_Bit13()     { check(hx.UBits[uint16](13, sv.U16)) }
func C06_Bit31()     { check(hx.UBits[uint32](31, sv.U32)) }
func C06_Bit33()     { check(hx.UBits[uint64](33, sv.U64)) }
func C06_Bit63()     { check(hx.UBits[uint64](63, sv.U64)) }
func C06_Int8()      { check(hx.SBits[int8](8, sv.I8)) }
func C06_Int16()     { check(hx.SBits[int16](16, sv.I16)) }
func C06_Int32()     { check(hx.SBits[int32](32, sv.I32)) }
func C06_Int64()     { check(hx.SBits[int64](64, sv.I64)) }
func C06_Int1()      { check(hx.SBits[int8](1, sv.I8)) }
func C06_Int3()      { check(hx.SBits[int8](3, sv.I8)) }
func C06_Int13()     { check(hx.SBits[int16](13, sv.I16)) }
func C06_Int31()     { check(hx.SBits[int32](31, sv.I32)) }
func C06_Int33()     { check(hx.SBits[int64](33, sv.I64)) }
func C06_Int63()     { check(hx.SBits[int64](63, sv.I64)) }
func C06_VarUint16() { check(hx.VarUint16()) }
func C06_VarUint32() { check(hx.VarUint32()) }
func C06_VarUint64() { check(hx.VarUint64()) }
func C06_VarUint()   { check(hx.VarUint()) }
func C06_VarSize()   { check(hx.VarSize()) }
func C06_VarInt16()  { check(hx.VarInt16()) }
func C06_VarInt32()  { check(hx.VarInt32()) }
func C06_VarInt64()  { check(hx.VarInt64()) }
func C06_VarInt()    { check(hx.VarInt()) }
func C06_Bool()      { check(hx.Bool()) }
func C06_Float16()   { check(hx.Float16()) }
func C06_Float32()   { check(hx.Float32()) }
func C06_Float64()   { check(hx.Float64()) }
func C06_String()    { check(hx.String()) }
func C06_Bytes()     { check(hx.Bytes()) }
func C06_Extern()    { check(hx.Extern()) }

// C06_Long: arrays whose element count needs one and two bytes.
func C06_Long() {
	k := hx.Bool()
	n := 127 + sv.Choose("long", 3)
	a := make([]bool, n)
	a[0], a[64], a[n-1] = k.In(), k.In(), k.In()
	checkArray(k, a, true, hx.Offset(2))
}

// large checks arrays of sizes an implementation may treat apart; the elements at the
// ends and around the 4096th are arbitrary, the others as given by at.
func large[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T, sizes ...int) {
	sv.Long()
	n := sizes[sv.Choose("large", len(sizes))]
	a := make([]T, n)
	for i := range a {
		a[i] = at(i)
	}
	a[n-1] = k.In()
	if !k.Var {
		a[0] = k.In()
		if n > 4096 {
			a[4095], a[4096] = k.In(), k.In()
		}
	}
	sv.Assume(k.AllFit(a))
	checkArray(k, a, sv.Choose("auto", 2) == 1, 3)
}

func C06_LargeUInt8() {
	large(hx.UBits[uint8](8, sv.U8), func(i int) uint8 { return uint8(5 * i) }, 128, 4095, 4096, 4097, 8193)
}

func C06_LargeBool() {
	large(hx.Bool(), func(i int) bool { return i%3 == 0 }, 4096, 4097, 16383, 16384)
}

func C06_LargeInt13() {
	large(hx.SBits[int16](13, sv.I16), func(i int) int16 { return int16(i%8192 - 4096) }, 127, 128, 4096, 4097)
}

func C06_LargeVarInt16() {
	large(hx.VarInt16(), func(i int) int16 { return int16(i%129 - 64) }, 127, 128, 4097)
}

func C06_LargeString() {
	large(hx.String(), func(i int) string { return "ab"[:i%3] }, 127, 128, 4097)
}

func C06_OffsetsUInt16()    { offsets(hx.UBits[uint16](16, sv.U16)) }
func C06_OffsetsBit3()      { offsets(hx.UBits[uint8](3, sv.U8)) }
func C06_OffsetsInt13()     { offsets(hx.SBits[int16](13, sv.I16)) }
func C06_OffsetsBool()      { offsets(hx.Bool()) }
func C06_OffsetsVarUint32() { offsets(hx.VarUint32()) }
func C06_OffsetsString()    { offsets(hx.String()) }
func C06_OffsetsFloat32()   { offsets(hx.Float32()) }

// C06_NegativeSize: a negative fixed size is an error.
func C06_NegativeSize() {
	n := sv.I64("size")
	sv.Assume(n < 0)
	_, err := ztype.ArrayFromReader[uint8](hx.NewReader(nil), ztype.ArrayTraits.UInt8, int(n), false, false)
	sv.Assert(err != nil, "rejected")
}
