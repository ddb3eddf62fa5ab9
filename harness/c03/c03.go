// Package c03: floating point codecs.
//
//sv:bound all 2^32 and 2^64 input bit patterns, all 2^16 half-precision patterns, bit offsets 0..7
package c03

import (
	"math"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// emit writes v after some prefix bits and returns the bits of v in the stream.
func emit(n int, write func(zserio.Writer) error) (uint64, []byte, int) {
	off := sv.Choose("offset", 8)
	pre := sv.U64("before") & (1<<uint(off) - 1)
	b, w := hx.NewWriter()
	sv.Section("encode")
	sv.Assert(w.WriteBits(pre, uint8(off)) == nil, "prefix")
	sv.Assert(write(w) == nil, "accepted")
	sv.Assert(w.BitPosition() == int64(off+n), "occupies-n-bits")
	sv.Assert(w.Close() == nil, "close")
	sv.Assert(len(b.B) == (off+n+7)/8, "length")
	r := hx.NewReader(b.B)
	p, err := r.ReadBits(uint8(off))
	sv.Assert(err == nil && p == pre, "prefix-back")
	x, err := r.ReadBits(uint8(n))
	sv.Assert(err == nil, "bits-back")
	sv.Observe("bits", x)
	return x, b.B, off
}

// at returns a reader at an offset.
func at(b []byte, off int) zserio.Reader {
	r := hx.NewReader(b)
	_, err := r.ReadBits(uint8(off))
	sv.Assert(err == nil, "seek")
	sv.Section("decode")
	return r
}

func C03_Float32() {
	v := sv.F32("v")
	x, b, off := emit(32, func(w zserio.Writer) error { return ztype.WriteFloat32(w, v) })
	sv.Assert(uint32(x) == math.Float32bits(v), "ieee-bits")
	g, err := ztype.ReadFloat32(at(b, off))
	sv.Assert(err == nil, "decodes")
	sv.Assert(math.Float32bits(g) == math.Float32bits(v), "round-trip")
}

func C03_Float64() {
	v := sv.F64("v")
	x, b, off := emit(64, func(w zserio.Writer) error { return ztype.WriteFloat64(w, v) })
	sv.Assert(x == math.Float64bits(v), "ieee-bits")
	g, err := ztype.ReadFloat64(at(b, off))
	sv.Assert(err == nil, "decodes")
	sv.Assert(math.Float64bits(g) == math.Float64bits(v), "round-trip")
}

// half rounds the bits of a finite float32 or an infinity to half precision, to
// nearest, ties to even.
func half(b uint32) uint32 {
	sign := b >> 16 & 0x8000
	e, m := int(b>>23&0xff), b&0x7fffff
	switch {
	case e >= 113: // normal range of half precision, or above
		t := b&0x7fffffff - 112<<23
		t += 0xfff + t>>13&1
		t >>= 13
		if t > 0x7c00 {
			t = 0x7c00
		}
		return sign | t
	case e >= 102: // subnormal half precision
		m |= 1 << 23
		s := uint32(126 - e)
		q, rem, tie := m>>s, m&(1<<s-1), uint32(1)<<(s-1)
		if rem > tie || rem == tie && q&1 == 1 {
			q++
		}
		return sign | q
	}
	return sign
}

func C03_Float16Encode() {
	v := sv.F32("v")
	x, _, _ := emit(16, func(w zserio.Writer) error { return ztype.WriteFloat16(w, v) })
	b := math.Float32bits(v)
	if b&0x7fffffff > 0x7f800000 {
		sv.Assert(x&0x7fff > 0x7c00, "nan-stays-nan")
		sv.Reach("nan")
		return
	}
	sv.Assert(uint32(x) == half(b), "nearest-even")
	sv.Reach("finite")
}

func C03_Float16Decode() {
	h := sv.U16("h")
	off := sv.Choose("offset", 8)
	b, w := hx.NewWriter()
	sv.Assert(w.WriteBits(0, uint8(off)) == nil && w.WriteBits(uint64(h), 16) == nil && w.Close() == nil, "setup")
	g, err := ztype.ReadFloat16(at(b.B, off))
	sv.Assert(err == nil, "decodes")
	x := math.Float32bits(g)
	sign := uint32(h>>15) << 31
	e, m := uint32(h>>10&31), uint32(h&0x3ff)
	switch {
	case e == 31 && m != 0:
		sv.Assert(x&0x7fffffff > 0x7f800000, "nan")
	case e == 31:
		sv.Assert(x == sign|0x7f800000, "infinity")
	case e != 0:
		sv.Assert(x == sign|(e+112)<<23|m<<13, "normal")
	case m == 0:
		sv.Assert(x == sign, "zero")
	default: // m * 2^-24
		for k := 9; k >= 0; k-- {
			if m>>uint(k) == 1 {
				sv.Assert(x == sign|uint32(k+103)<<23|m<<uint(23-k)&0x7fffff, "subnormal")
			}
		}
	}
}

// C03_Float16RoundTrip: a half-precision value survives encoding and decoding.
func C03_Float16RoundTrip() {
	h := sv.U16("h")
	sv.Assume(h&0x7fff <= 0x7c00)
	b, w := hx.NewWriter()
	sv.Assert(w.WriteBits(uint64(h), 16) == nil && w.Close() == nil, "setup")
	g, err := ztype.ReadFloat16(hx.NewReader(b.B))
	sv.Assert(err == nil, "decodes")
	x, _, _ := emit(16, func(w zserio.Writer) error { return ztype.WriteFloat16(w, g) })
	sv.Assert(uint16(x) == h, "round-trip")
}
