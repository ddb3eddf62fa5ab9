// Package c01: the variable-length integer codecs.
//
//sv:bound all values of the Go parameter type (full 16, 32 or 64 bits); one value per stream; at every bit offset 0..7
//sv:bound decoding: every byte string of up to one byte more than the longest encoding
package c01

import (
	"errors"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

type uns interface{ ~uint16 | ~uint32 | ~uint64 }
type sig interface{ ~int16 | ~int32 | ~int64 }

// around writes the value after some prefix bits, so at any bit offset.
func around(inRange bool, n int, put func(*hx.Bits), write func(zserio.Writer) error, read func(zserio.Reader) bool, fails func(zserio.Reader) bool) {
	off := sv.Choose("offset", 8)
	pre := sv.U64("before") & (1<<uint(off) - 1)
	b, w := hx.NewWriter()
	sv.Assert(w.WriteBits(pre, uint8(off)) == nil, "prefix")
	sv.Section("encode")
	err := write(w)
	if !inRange {
		sv.Assert(errors.Is(err, ztype.ErrOutOfBounds), "out-of-range-rejected")
		sv.Assert(w.BitPosition() == int64(off), "rejected-writes-nothing")
		return
	}
	sv.Assert(err == nil, "in-range-accepted")
	sv.Assert(w.BitPosition() == int64(off+8*n), "encoded-length")
	post := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(w.Close() == nil, "close")
	ref := &hx.Bits{}
	ref.Put(pre, off)
	put(ref)
	ref.Put(post, 8)
	sv.Observe("bytes", b.B)
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "format")
	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	sv.Assert(read(r), "round-trip")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Section("decode truncated")
	if off == 0 {
		k := sv.Choose("cut", n)
		sv.Assert(fails(hx.NewReader(b.B[:k])), "truncated-is-error")
	}
	sv.Reach("accepts")
}

func encU[T uns](v T, inRange bool, write func(zserio.Writer, T) error, read func(zserio.Reader) (T, error), max int) {
	n := hx.VarUintBytes(uint64(v), max)
	if inRange {
		size, err := ztype.UnsignedBitSize(uint64(v), max)
		sv.Assert(err == nil && size == 8*n, "size-function")
	}
	around(inRange, n, func(b *hx.Bits) { b.PutVarUint(uint64(v), max) },
		func(w zserio.Writer) error { return write(w, v) },
		func(r zserio.Reader) bool { g, err := read(r); return sv.And(err == nil, g == v) },
		func(r zserio.Reader) bool { _, err := read(r); return err != nil })
}

func encS[T sig](v T, inRange bool, write func(zserio.Writer, T) error, read func(zserio.Reader) (T, error), max int) {
	n := hx.VarIntBytes(abs(int64(v)), max)
	if max == 9 && int64(v) == -1<<63 {
		n = 1
	}
	if inRange {
		size, err := ztype.SignedBitSize(int64(v), max)
		sv.Assert(err == nil && size == 8*n, "size-function")
	}
	around(inRange, n, func(b *hx.Bits) { b.PutVarInt(int64(v), max) },
		func(w zserio.Writer) error { return write(w, v) },
		func(r zserio.Reader) bool { g, err := read(r); return sv.And(err == nil, g == v) },
		func(r zserio.Reader) bool { _, err := read(r); return err != nil })
}

func abs(v int64) uint64 {
	if v < 0 {
		return uint64(-v)
	}
	return uint64(v)
}

// decode reads arbitrary bytes: the outcome is the one the format defines, also for
// encodings that are longer than necessary.
func decode(max int, signed bool, limit uint64, read func(zserio.Reader) (int64, error)) {
	n := sv.Choose("len", max+2)
	b := sv.Bytes("b", n)
	sv.Section("decode")
	r := hx.NewReader(b)
	got, err := read(r)
	v, used, neg := uint64(0), 0, false
	for {
		if used == n {
			sv.Assert(err != nil, "truncated-is-error")
			return
		}
		c := b[used]
		used++
		bits := uint(7)
		if signed && used == 1 {
			neg = c&0x80 != 0
			bits = 6
		}
		if used == max {
			v = v<<8 | uint64(c)
			break
		}
		v = v<<bits | uint64(c)&(1<<bits-1)
		if c>>bits&1 == 0 {
			break
		}
	}
	if v > limit {
		sv.Assert(err != nil, "out-of-range-is-error")
		return
	}
	sv.Assert(err == nil, "decodes")
	switch {
	case neg && v == 0: // minus zero: the minimum of varint, zero elsewhere
		sv.Assert(sv.Or(got == 0, max == 9), "minus-zero")
		sv.Assert(sv.Or(max != 9 || used != 1, got == -1<<63), "minimum")
	case neg:
		sv.Assert(got == -int64(v), "value")
	default:
		sv.Assert(got == int64(v), "value")
	}
	rest := 0
	for {
		if _, err := r.ReadByte(); err != nil {
			break
		}
		rest++
	}
	sv.Assert(rest == n-used, "consumes-exactly")
}

func wide[T uns | sig](read func(zserio.Reader) (T, error)) func(zserio.Reader) (int64, error) {
	return func(r zserio.Reader) (int64, error) { v, err := read(r); return int64(v), err }
}

func C01_DecodeVaruint16() { decode(2, false, 1<<15-1, wide(ztype.ReadVaruint16)) }
func C01_DecodeVaruint32() { decode(4, false, 1<<29-1, wide(ztype.ReadVaruint32)) }
func C01_DecodeVaruint64() { decode(8, false, 1<<57-1, wide(ztype.ReadVaruint64)) }
func C01_DecodeVaruint()   { decode(9, false, 1<<64-1, wide(ztype.ReadVaruint)) }
func C01_DecodeVarsize()   { decode(5, false, 1<<31-1, wide(ztype.ReadVarsize)) }
func C01_DecodeVarint16()  { decode(2, true, 1<<14-1, wide(ztype.ReadVarint16)) }
func C01_DecodeVarint32()  { decode(4, true, 1<<28-1, wide(ztype.ReadVarint32)) }
func C01_DecodeVarint64()  { decode(8, true, 1<<56-1, wide(ztype.ReadVarint64)) }
func C01_DecodeVarint()    { decode(9, true, 1<<63-1, wide(ztype.ReadVarint)) }

func C01_Varuint16() {
	v := sv.U16("v")
	encU(v, v < 1<<15, ztype.WriteVaruint16, ztype.ReadVaruint16, 2)
}

func C01_Varuint32() {
	v := sv.U32("v")
	encU(v, v < 1<<29, ztype.WriteVaruint32, ztype.ReadVaruint32, 4)
}

func C01_Varuint64() {
	v := sv.U64("v")
	encU(v, v < 1<<57, ztype.WriteVaruint64, ztype.ReadVaruint64, 8)
}

func C01_Varuint() {
	v := sv.U64("v")
	encU(v, true, ztype.WriteVaruint, ztype.ReadVaruint, 9)
}

func C01_Varsize() {
	v := sv.U64("v")
	encU(v, v < 1<<31, ztype.WriteVarsize, ztype.ReadVarsize, 5)
}

func C01_Varint16() {
	v := sv.I16("v")
	encS(v, v > -(1<<14) && v < 1<<14, ztype.WriteVarint16, ztype.ReadVarint16, 2)
}

func C01_Varint32() {
	v := sv.I32("v")
	encS(v, v > -(1<<28) && v < 1<<28, ztype.WriteVarint32, ztype.ReadVarint32, 4)
}

func C01_Varint64() {
	v := sv.I64("v")
	encS(v, v > -(1<<56) && v < 1<<56, ztype.WriteVarint64, ztype.ReadVarint64, 8)
}

func C01_Varint() {
	v := sv.I64("v")
	encS(v, true, ztype.WriteVarint, ztype.ReadVarint, 9)
}
