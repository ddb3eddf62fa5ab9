// Package c02: fixed-width integers and booleans.
//
//sv:bound every width 1..64 (fixed-width types: their own), every value of int64/uint64, every bit offset 0..7 with arbitrary neighbouring bits
package c02

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// around writes prefix bits, calls write, writes suffix bits and compares the stream
// with prefix, n bits of v and suffix; then it reads all of it back.
func around(fits bool, v uint64, n int, write func(zserio.Writer) error, read func(zserio.Reader) bool) {
	off := sv.Choose("offset", 8)
	pre := sv.U64("before") & (1<<uint(off) - 1)
	post := uint64(sv.U8("after"))
	b, w := hx.NewWriter()
	sv.Section("encode")
	sv.Assert(w.WriteBits(pre, uint8(off)) == nil, "prefix")
	err := write(w)
	if !fits {
		sv.Assert(err != nil, "rejected")
		sv.Assert(w.BitPosition() == int64(off), "rejected-writes-nothing")
	} else {
		sv.Assert(err == nil, "accepted")
		sv.Assert(w.BitPosition() == int64(off+n), "occupies-n-bits")
	}
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(w.Close() == nil, "close")
	ref := &hx.Bits{}
	ref.Put(pre, off)
	if fits {
		ref.Put(v, n)
	}
	ref.Put(post, 8)
	sv.Observe("bytes", b.B)
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	if !fits {
		return
	}
	sv.Section("decode")
	r := hx.NewReader(b.B)
	p, err := r.ReadBits(uint8(off))
	sv.Assert(err == nil && p == pre, "prefix-back")
	sv.Assert(read(r), "round-trip")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
}

func C02_Unsigned() {
	n := sv.Choose("width", 64) + 1
	v := sv.U64("v")
	around(n == 64 || v>>uint(n) == 0, v, n,
		func(w zserio.Writer) error { return ztype.WriteUnsignedBits(w, v, uint8(n)) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadUnsignedBits(r, uint8(n))
			return sv.And(err == nil, g == v)
		})
}

func C02_Signed() {
	n := sv.Choose("width", 64) + 1
	v := sv.I64("v")
	top := v >> uint(n-1) // 0 or -1 when v fits
	around(sv.Or(top == 0, top == -1), uint64(v), n,
		func(w zserio.Writer) error { return ztype.WriteSignedBits(w, v, uint8(n)) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadSignedBits(r, uint8(n))
			return sv.And(err == nil, g == v)
		})
}

func typed[T comparable](v T, u uint64, n int, write func(zserio.Writer, T) error, read func(zserio.Reader) (T, error)) {
	around(true, u, n, func(w zserio.Writer) error { return write(w, v) }, func(r zserio.Reader) bool {
		g, err := read(r)
		return sv.And(err == nil, g == v)
	})
}

func C02_Uint8() {
	v := sv.U8("v")
	typed(v, uint64(v), 8, ztype.WriteUint8, ztype.ReadUint8)
}

func C02_Uint16() {
	v := sv.U16("v")
	typed(v, uint64(v), 16, ztype.WriteUint16, ztype.ReadUint16)
}

func C02_Uint32() {
	v := sv.U32("v")
	typed(v, uint64(v), 32, ztype.WriteUint32, ztype.ReadUint32)
}

func C02_Uint64() {
	v := sv.U64("v")
	typed(v, v, 64, ztype.WriteUint64, ztype.ReadUint64)
}

func C02_Int8() {
	v := sv.I8("v")
	typed(v, uint64(v), 8, ztype.WriteInt8, ztype.ReadInt8)
}

func C02_Int16() {
	v := sv.I16("v")
	typed(v, uint64(v), 16, ztype.WriteInt16, ztype.ReadInt16)
}

func C02_Int32() {
	v := sv.I32("v")
	typed(v, uint64(v), 32, ztype.WriteInt32, ztype.ReadInt32)
}

func C02_Int64() {
	v := sv.I64("v")
	typed(v, uint64(v), 64, ztype.WriteInt64, ztype.ReadInt64)
}

func C02_Bool() {
	v := sv.Bool("v")
	typed(v, sv.IteU64(v, 1, 0), 1, ztype.WriteBool, ztype.ReadBool)
}

// C02_StreamBits: the bit stream itself keeps the n lowest bits.
func C02_StreamBits() {
	n := sv.Choose("width", 64) + 1
	v := sv.U64("v")
	around(true, v, n,
		func(w zserio.Writer) error { return w.WriteBits(v, uint8(n)) },
		func(r zserio.Reader) bool {
			g, err := r.ReadBits(uint8(n))
			return sv.And(err == nil, g == v&(^uint64(0)>>uint(64-n)))
		})
}

// C02_StreamMethods: the remaining entry points of the bit stream.
func C02_StreamMethods() {
	bit, by, u := sv.Bool("bit"), sv.U8("byte"), sv.U8("unsafe")&0x1f
	bulk := sv.Bytes("bulk", sv.Choose("len", 4))
	around(true, 0, 0, func(w zserio.Writer) error { return nil }, func(r zserio.Reader) bool { return true })
	off := sv.Choose("offset2", 8)
	b, w := hx.NewWriter()
	ref := &hx.Bits{}
	sv.Assert(w.WriteBits(0, uint8(off)) == nil, "prefix")
	ref.Put(0, off)
	sv.Assert(w.WriteBool(bit) == nil, "WriteBool")
	ref.Put(sv.IteU64(bit, 1, 0), 1)
	sv.Assert(w.WriteByte(by) == nil, "WriteByte")
	ref.Put(uint64(by), 8)
	n, err := w.Write(bulk)
	sv.Assert(err == nil && n == len(bulk), "Write")
	ref.PutBytes(bulk)
	sv.Assert(w.WriteBitsUnsafe(uint64(u), 5) == nil, "WriteBitsUnsafe")
	ref.Put(uint64(u), 5)
	sv.Assert(w.Close() == nil, "close")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "ReadBits")
	g, err := r.ReadBool()
	sv.Assert(sv.And(err == nil, g == bit), "ReadBool")
	gb, err := r.ReadByte()
	sv.Assert(sv.And(err == nil, gb == by), "ReadByte")
	buf := make([]byte, len(bulk))
	n, err = r.Read(buf)
	sv.Assert(len(bulk) == 0 || err == nil && n == len(bulk), "Read")
	sv.Assert(sv.BytesEqual(buf, bulk), "Read-content")
	_ = (*zstream.BitReader)(r)
}
