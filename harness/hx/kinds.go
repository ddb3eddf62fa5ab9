package hx

import (
	"math"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
	"verif/sv"
)

// Kind describes an array element type: its traits in the library and, written
// from the specification, its range, its encoding and its delta arithmetic.
type Kind[T any, Y ztype.IArrayTraits[T]] struct {
	Traits Y
	// In returns an arbitrary value.
	In func() T
	// Fits tells whether the element type can represent the value.
	Fits func(T) bool
	// Put appends the reference encoding of a value that fits.
	Put func(*Bits, T)
	// Eq compares without splitting the path.
	Eq func(a, b T) bool
	// Num is the number a value denotes in delta arithmetic, as int64; nil when the
	// type is not delta encoded. Unsigned tells that it must be read as uint64.
	Num func(T) uint64
	// Signed tells that Num is a signed number.
	Signed bool
	// Var tells that the encoded size depends on the value, so that paths split on it.
	Var bool
	// Wide tells that differences of elements can have many widths.
	Wide bool
}

func eq[T comparable](a, b T) bool { return a == b }

type uns interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64
}
type sig interface {
	~int8 | ~int16 | ~int32 | ~int64
}

func yes[T any](T) bool { return true }

// UBits is an unsigned bit field of n bits held in T.
func UBits[T uns](n int, in func(string) T) Kind[T, *ztype.BitFieldArrayTraits[T]] {
	return Kind[T, *ztype.BitFieldArrayTraits[T]]{
		Traits: ztype.GetBitFieldArrayTraits[T](uint8(n)),
		In:     func() T { return in("element") },
		Fits:   func(v T) bool { return n == 64 || uint64(v)>>uint(n) == 0 },
		Put:    func(b *Bits, v T) { b.Put(uint64(v), n) },
		Eq:     eq[T],
		Num:    func(v T) uint64 { return uint64(v) },
		Wide:   n > 8,
	}
}

// SBits is a signed bit field of n bits held in T.
func SBits[T sig](n int, in func(string) T) Kind[T, *ztype.SignedBitFieldArrayTraits[T]] {
	return Kind[T, *ztype.SignedBitFieldArrayTraits[T]]{
		Traits: ztype.GetSignedBitFieldArrayTraits[T](uint8(n)),
		In:     func() T { return in("element") },
		Fits:   func(v T) bool { return int64(v)<<uint(64-n)>>uint(64-n) == int64(v) },
		Put:    func(b *Bits, v T) { b.Put(uint64(int64(v)), n) },
		Eq:     eq[T],
		Num:    func(v T) uint64 { return uint64(int64(v)) },
		Signed: true,
		Wide:   n > 8,
	}
}

func vu[T uns, Y ztype.IArrayTraits[T]](tr Y, max int, limit uint64, in func(string) T) Kind[T, Y] {
	return Kind[T, Y]{Traits: tr, In: func() T { return in("element") }, Fits: func(v T) bool { return uint64(v) <= limit },
		Put: func(b *Bits, v T) { b.PutVarUint(uint64(v), max) }, Eq: eq[T],
		Num: func(v T) uint64 { return uint64(v) }, Var: true, Wide: true}
}

func vi[T sig, Y ztype.IArrayTraits[T]](tr Y, max int, limit int64, in func(string) T) Kind[T, Y] {
	return Kind[T, Y]{Traits: tr, In: func() T { return in("element") },
		Fits: func(v T) bool {
			return sv.Or(limit == math.MaxInt64, sv.And(int64(v) <= limit, int64(v) >= -limit))
		},
		Put: func(b *Bits, v T) { b.PutVarInt(int64(v), max) }, Eq: eq[T],
		Num: func(v T) uint64 { return uint64(int64(v)) }, Signed: true, Var: true, Wide: true}
}

func VarUint16() Kind[uint16, *ztype.VarUInt16ArrayTraits] {
	return vu(ztype.ArrayTraits.VarUInt16, 2, 1<<15-1, sv.U16)
}
func VarUint32() Kind[uint32, *ztype.VarUInt32ArrayTraits] {
	return vu(ztype.ArrayTraits.VarUInt32, 4, 1<<29-1, sv.U32)
}
func VarUint64() Kind[uint64, *ztype.VarUInt64ArrayTraits] {
	return vu(ztype.ArrayTraits.VarUInt64, 8, 1<<57-1, sv.U64)
}
func VarUint() Kind[uint64, *ztype.VarUIntArrayTraits] {
	return vu(ztype.ArrayTraits.VarUInt, 9, math.MaxUint64, sv.U64)
}
func VarSize() Kind[uint64, *ztype.VarSizeArrayTraits] {
	return vu(ztype.ArrayTraits.VarSize, 5, 1<<31-1, sv.U64)
}
func VarInt16() Kind[int16, *ztype.VarInt16ArrayTraits] {
	return vi(ztype.ArrayTraits.VarInt16, 2, 1<<14-1, sv.I16)
}
func VarInt32() Kind[int32, *ztype.VarInt32ArrayTraits] {
	return vi(ztype.ArrayTraits.VarInt32, 4, 1<<28-1, sv.I32)
}
func VarInt64() Kind[int64, *ztype.VarInt64ArrayTraits] {
	return vi(ztype.ArrayTraits.VarInt64, 8, 1<<56-1, sv.I64)
}
func VarInt() Kind[int64, *ztype.VarIntArrayTraits] {
	return vi(ztype.ArrayTraits.VarInt, 9, math.MaxInt64, sv.I64)
}

func Bool() Kind[bool, *ztype.BooleanArrayTraits] {
	return Kind[bool, *ztype.BooleanArrayTraits]{Traits: ztype.ArrayTraits.Bool, In: func() bool { return sv.Bool("element") },
		Fits: yes[bool], Put: func(b *Bits, v bool) { b.Put(sv.IteU64(v, 1, 0), 1) }, Eq: eq[bool],
		Num: func(v bool) uint64 { return sv.IteU64(v, 1, 0) }}
}

// Float16 holds values that half precision represents.
func Float16() Kind[float32, *ztype.Float16ArrayTraits] {
	return Kind[float32, *ztype.Float16ArrayTraits]{Traits: ztype.ArrayTraits.Float16,
		In: func() float32 { // every finite half precision number
			h := sv.U16("element")
			exp := uint32(h>>10) & 31
			sv.Assume(sv.And(exp != 31, sv.Or(exp != 0, h&1023 == 0)))
			bits := uint32(h&0x8000)<<16 | uint32(sv.IteU64(exp == 0, 0, uint64((exp+112)<<23|uint32(h&1023)<<13)))
			return math.Float32frombits(bits)
		},
		Fits: yes[float32],
		Put: func(b *Bits, v float32) {
			u := math.Float32bits(v)
			e := u >> 23 & 255
			b.Put(uint64(u>>31<<15)|sv.IteU64(e == 0, 0, uint64((e-112)<<10&0x7c00|u>>13&1023)), 16)
		},
		Eq: func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }}
}
func Float32() Kind[float32, *ztype.Float32ArrayTraits] {
	return Kind[float32, *ztype.Float32ArrayTraits]{Traits: ztype.ArrayTraits.Float32,
		In: func() float32 { return sv.F32("element") }, Fits: yes[float32],
		Put: func(b *Bits, v float32) { b.Put(uint64(math.Float32bits(v)), 32) },
		Eq:  func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }}
}
func Float64() Kind[float64, *ztype.Float64ArrayTraits] {
	return Kind[float64, *ztype.Float64ArrayTraits]{Traits: ztype.ArrayTraits.Float64,
		In: func() float64 { return sv.F64("element") }, Fits: yes[float64],
		Put: func(b *Bits, v float64) { b.Put(math.Float64bits(v), 64) },
		Eq:  func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }}
}

// String holds strings of 0..2 bytes.
func String() Kind[string, *ztype.StringArrayTraits] {
	return Kind[string, *ztype.StringArrayTraits]{Traits: ztype.ArrayTraits.String,
		In: func() string { return sv.Str("element", sv.Choose("string length", 3)) }, Fits: yes[string],
		Put: func(b *Bits, v string) { b.PutVarUint(uint64(len(v)), 5); b.PutBytes([]byte(v)) },
		Eq:  func(a, c string) bool { return len(a) == len(c) && a == c }, Var: true}
}
func Bytes() Kind[*ztype.BytesType, *ztype.BytesArrayTraits] {
	return Kind[*ztype.BytesType, *ztype.BytesArrayTraits]{Traits: ztype.ArrayTraits.Bytes,
		In: func() *ztype.BytesType {
			n := sv.Choose("bytes length", 3)
			return &ztype.BytesType{Buffer: sv.Bytes("element", n), ByteSize: uint64(n)}
		}, Fits: yes[*ztype.BytesType],
		Put: func(b *Bits, v *ztype.BytesType) { b.PutVarUint(v.ByteSize, 5); b.PutBytes(v.Buffer) },
		Eq: func(a, c *ztype.BytesType) bool {
			return len(a.Buffer) == len(c.Buffer) && sv.And(a.ByteSize == c.ByteSize, sv.BytesEqual(a.Buffer, c.Buffer))
		}, Var: true}
}

// Extern holds 0, 3, 8 or 13 bits, the bits after them zero.
func Extern() Kind[*ztype.ExternType, *ztype.BitBufferArrayTraits] {
	return Kind[*ztype.ExternType, *ztype.BitBufferArrayTraits]{Traits: ztype.ArrayTraits.Extern,
		In: func() *ztype.ExternType {
			n := []int{0, 3, 8, 13}[sv.Choose("extern bits", 4)]
			v := &ztype.ExternType{Buffer: sv.Bytes("element", (n+7)/8), BitSize: uint64(n)}
			if n%8 != 0 {
				v.Buffer[n/8] &= 0xff << uint(8-n%8)
			}
			return v
		}, Fits: yes[*ztype.ExternType],
		Put: func(b *Bits, v *ztype.ExternType) {
			n := int(v.BitSize)
			b.PutVarUint(v.BitSize, 5)
			b.PutBytes(v.Buffer[:n/8])
			if n%8 != 0 {
				b.Put(uint64(v.Buffer[n/8])>>uint(8-n%8), n%8)
			}
		},
		Eq: func(a, c *ztype.ExternType) bool {
			return len(a.Buffer) == len(c.Buffer) && sv.And(a.BitSize == c.BitSize, sv.BytesEqual(a.Buffer, c.Buffer))
		}, Var: true}
}

// Array returns n arbitrary elements.
func (k Kind[T, Y]) Array(n int) []T {
	a := make([]T, n)
	for i := range a {
		a[i] = k.In()
	}
	return a
}

// AllFit tells whether every element fits, without splitting the path.
func (k Kind[T, Y]) AllFit(a []T) bool {
	ok := true
	for _, v := range a {
		ok = sv.And(ok, k.Fits(v))
	}
	return ok
}

// Same compares two arrays.
func (k Kind[T, Y]) Same(a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sv.And(ok, k.Eq(a[i], b[i]))
	}
	return ok
}

// New returns the library's array.
func (k Kind[T, Y]) New(a []T, auto, packed bool) *ztype.Array[T, Y] {
	return &ztype.Array[T, Y]{ArrayTraits: k.Traits, RawArray: a, IsAuto: auto, IsPacked: packed, FixedSize: len(a)}
}

// WriterAt returns a writer after off arbitrary bits, and these bits.
func WriterAt(off int) (*Buf, *zstream.BitWriter, func() error, *Bits) {
	pre := sv.U64("before") & (1<<uint(off) - 1)
	b, w := NewWriter()
	sv.Assert(w.WriteBits(pre, uint8(off)) == nil, "prefix")
	ref := &Bits{}
	ref.Put(pre, off)
	return b, w, w.Close, ref
}

// Offset chooses where a stream starts: the first n of these offsets.
func Offset(n int) int {
	return []int{0, 3, 7, 4, 1, 2, 5, 6}[sv.Choose("offset", n)]
}
