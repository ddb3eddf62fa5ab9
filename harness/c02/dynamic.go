package c02

//sv:bound widths above 64: every number of bits 65..255 in the library, every width of 16 bits that another field determines

import (
	"gen/zs/dv"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// C02_TooWide: no number has more than 64 bits.
func C02_TooWide() {
	bits := sv.U8("bits")
	sv.Assume(bits > 64)
	_, w := hx.NewWriter()
	sv.Assert(w.WriteBits(1, 3) == nil, "prefix")
	sv.Assert(ztype.WriteUnsignedBits(w, sv.U64("v"), bits) != nil, "unsigned-rejected")
	sv.Assert(ztype.WriteSignedBits(w, sv.I64("s"), bits) != nil, "signed-rejected")
	sv.Assert(w.BitPosition() == 3, "rejected-writes-nothing")
	r := hx.NewReader(make([]byte, 40))
	_, err := ztype.ReadUnsignedBits(r, bits)
	sv.Assert(err != nil, "unsigned-read-rejected")
	_, err = ztype.ReadSignedBits(r, bits)
	sv.Assert(err != nil, "signed-read-rejected")
}

// C02_DynamicUnsigned: fields whose width is another field, also of more than 64
// and of more than 255 bits.
func C02_DynamicUnsigned() {
	v := &dv.Width{N: sv.U16("n"), A: sv.U64("a"), Z: 5}
	n := sv.Choose("width", 66)
	if n <= 64 {
		v.N = uint16(n)
	} else {
		sv.Assume(v.N > 64)
	}
	b, w := hx.NewWriter()
	err := v.MarshalZserio(w)
	if n > 64 || n < 64 && v.A>>uint(n) != 0 {
		sv.Assert(err != nil, "rejected")
		return
	}
	sv.Assert(err == nil, "accepted")
	sv.Assert(w.Close() == nil, "close")
	ref := &hx.Bits{}
	ref.Put(uint64(n), 16)
	ref.Put(v.A, n)
	ref.Put(5, 3)
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	got := &dv.Width{}
	sv.Assert(got.UnmarshalZserio(hx.NewReader(b.B)) == nil, "decode")
	sv.Assert(got.A == v.A && got.Z == 5 && got.N == v.N, "round-trip")
}

func C02_DynamicSigned() {
	v := &dv.SWidth{N: sv.I16("n"), A: sv.I64("a"), Z: 5}
	n := sv.Choose("width", 65) + 1
	if n <= 64 {
		v.N = int16(n)
	} else {
		sv.Assume(v.N > 64 || v.N < 0)
	}
	b, w := hx.NewWriter()
	err := v.MarshalZserio(w)
	if n > 64 || v.A>>uint(n-1) != 0 && v.A>>uint(n-1) != -1 {
		sv.Assert(err != nil, "rejected")
		return
	}
	sv.Assert(err == nil, "accepted")
	sv.Assert(w.Close() == nil, "close")
	ref := &hx.Bits{}
	ref.Put(uint64(n), 16)
	ref.Put(uint64(v.A), n)
	ref.Put(5, 3)
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	got := &dv.SWidth{}
	sv.Assert(got.UnmarshalZserio(hx.NewReader(b.B)) == nil, "decode")
	sv.Assert(got.A == v.A && got.Z == 5 && got.N == v.N, "round-trip")
}

// C02_DynamicTooWide: such a field can not be decoded either.
func C02_DynamicTooWide() {
	n := sv.U16("n")
	sv.Assume(n > 64)
	in := make([]byte, 80)
	in[0], in[1] = byte(n>>8), byte(n)
	sv.Assert((&dv.Width{}).UnmarshalZserio(hx.NewReader(in)) != nil, "unsigned-rejected")
	sv.Assert((&dv.SWidth{}).UnmarshalZserio(hx.NewReader(in)) != nil, "signed-rejected")
	in[2] = 1
	sv.Assert((&dv.WidthArray{}).UnmarshalZserio(hx.NewReader(in)) != nil, "array-read-rejected")
	sv.Assert((&dv.PSWidthArray{}).UnmarshalZserio(hx.NewReader(in)) != nil, "packed-array-read-rejected")
	sv.Assert((&dv.WidthArray{N: n, A: []uint64{1}}).MarshalZserio(zeroes()) != nil, "array-rejected")
	sv.Assert((&dv.PSWidthArray{N: n, A: []int64{1, 1}}).MarshalZserio(zeroes()) != nil, "packed-array-rejected")
}

func zeroes() *zstream.BitWriter {
	_, w := hx.NewWriter()
	return w
}
