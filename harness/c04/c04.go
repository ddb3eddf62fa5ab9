// Package c04: strings, bytes and extern values.
//
//sv:bound strings, bytes and extern of 4095..4097, 8191..8193, 12289, 16383, 16384 and 20481 bytes: contents arbitrary in up to 8 bytes (around the first, the last and every 4096th byte), fixed elsewhere; bit offsets 0 and 3
//sv:bound all contents; lengths 0..4 bytes at bit offsets 0..7, 126..129 bytes (thorough: 16383 and 16384) at offset 0 and 3
//sv:bound extern: 0..34 bits at bit offsets 0..7, 127..129 bits; declared sizes: all 64 bit values with buffers of 0..3 bytes
package c04

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func lens() (n, off int) {
	big := []int{126, 127, 128, 129}
	if sv.Thorough() {
		big = append(big, 16383, 16384)
	}
	k := sv.Choose("length", 5+len(big))
	if k < 5 {
		return k, sv.Choose("offset", 8)
	}
	return big[k-5], 3 * sv.Choose("offset", 2)
}

// around writes prefix, value and suffix, compares with the reference and reads back.
func around(off int, put func(*hx.Bits), write func(zserio.Writer) error, read func(zserio.Reader) bool) {
	pre := sv.U64("before") & (1<<uint(off) - 1)
	post := uint64(sv.U8("after"))
	b, w := hx.NewWriter()
	sv.Section("encode")
	sv.Assert(w.WriteBits(pre, uint8(off)) == nil, "prefix")
	sv.Assert(write(w) == nil, "accepted")
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(w.Close() == nil, "close")
	ref := &hx.Bits{}
	ref.Put(pre, off)
	put(ref)
	ref.Put(post, 8)
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err := r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	sv.Assert(read(r), "round-trip")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
}

func C04_String() {
	n, off := lens()
	s := sv.Str("s", n)
	size, err := ztype.BitSizeOfString(s)
	sv.Assert(err == nil && size == 8*hx.VarUintBytes(uint64(n), 5)+8*n, "predicted-size")
	around(off, func(b *hx.Bits) { b.PutVarUint(uint64(n), 5); b.PutBytes([]byte(s)) },
		func(w zserio.Writer) error { return ztype.WriteString(w, s) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadString(r)
			return err == nil && len(g) == n && g == s
		})
}

func C04_Bytes() {
	n, off := lens()
	v := &ztype.BytesType{Buffer: sv.Bytes("b", n), ByteSize: uint64(n)}
	size := ztype.BytesArrayTraits{}.BitSizeOf(v, off)
	sv.Assert(size == 8*hx.VarUintBytes(uint64(n), 5)+8*n, "predicted-size")
	around(off, func(b *hx.Bits) { b.PutVarUint(uint64(n), 5); b.PutBytes(v.Buffer) },
		func(w zserio.Writer) error { return ztype.WriteBytes(w, v) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadBytes(r)
			return err == nil && g.ByteSize == uint64(n) && len(g.Buffer) == n && sv.BytesEqual(g.Buffer, v.Buffer)
		})
}

func C04_Extern() {
	k := sv.Choose("bits", 38)
	n, off := k, 0
	if k < 35 {
		off = sv.Choose("offset", 8)
	} else {
		n = 127 + k - 35
	}
	buf := sv.Bytes("b", (n+7)/8)
	v := &ztype.ExternType{Buffer: buf, BitSize: uint64(n)}
	size := ztype.BitBufferArrayTraits{}.BitSizeOf(v, off)
	sv.Assert(size == 8*hx.VarUintBytes(uint64(n), 5)+n, "predicted-size")
	around(off, func(b *hx.Bits) {
		b.PutVarUint(uint64(n), 5)
		b.PutBytes(buf[:n/8])
		if n%8 != 0 {
			b.Put(uint64(buf[n/8])>>uint(8-n%8), n%8)
		}
	}, func(w zserio.Writer) error { return ztype.WriteExtern(w, v) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadExtern(r)
			if err != nil || g.BitSize != uint64(n) || len(g.Buffer) != len(buf) {
				return false
			}
			ok := sv.BytesEqual(g.Buffer[:n/8], buf[:n/8])
			if n%8 != 0 { // the unused bits of the last byte do not count
				ok = sv.And(ok, g.Buffer[n/8]>>uint(8-n%8) == buf[n/8]>>uint(8-n%8))
			}
			return ok
		})
}

// C04_BytesSize: a declared size that is not the buffer's is rejected.
func C04_BytesSize() {
	v := &ztype.BytesType{Buffer: sv.Bytes("b", sv.Choose("len", 4)), ByteSize: sv.U64("size")}
	_, w := hx.NewWriter()
	err := ztype.WriteBytes(w, v)
	sv.Assert((err == nil) == (v.ByteSize == uint64(len(v.Buffer))), "size-checked")
	if err != nil {
		sv.Assert(w.BitPosition() == 0, "rejected-writes-nothing")
		sv.Reach("rejects")
	}
}

// C04_ExternSize: more declared bits than the buffer has are rejected.
func C04_ExternSize() {
	v := &ztype.ExternType{Buffer: sv.Bytes("b", sv.Choose("len", 4)), BitSize: sv.U64("size")}
	_, w := hx.NewWriter()
	err := ztype.WriteExtern(w, v)
	if v.BitSize > uint64(8*len(v.Buffer)) {
		sv.Assert(err != nil, "size-checked")
		sv.Assert(w.BitPosition() == 0, "rejected-writes-nothing")
		sv.Reach("rejects")
	} else {
		sv.Assert(err == nil, "accepted")
	}
}

// large is a length around a power of two that an implementation may treat apart,
// and a content that is arbitrary around the places where a part may end.
func large() []byte {
	sizes := []int{4095, 4096, 4097, 8191, 8192, 8193, 12289, 16383, 16384, 20481}
	n := sizes[sv.Choose("length", len(sizes))]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8)
	}
	for i := 0; i < n; i += 4096 {
		b[i] = sv.U8("b")
	}
	b[n-1] = sv.U8("b")
	if n > 4096 {
		b[4095] = sv.U8("b")
	}
	return b
}

// aroundLarge is around, with a reference of whole bytes: the length, the content
// and a suffix, moved by off bits.
func aroundLarge(off int, length uint64, content []byte, lastBits int, write func(zserio.Writer) error, read func(zserio.Reader) bool) {
	pre := sv.U8("before") & (1<<uint(off) - 1)
	b, w := hx.NewWriter()
	sv.Section("encode")
	sv.Assert(w.WriteBits(uint64(pre), uint8(off)) == nil, "prefix")
	sv.Assert(write(w) == nil, "accepted")
	sv.Assert(w.Close() == nil, "close")
	h := &hx.Bits{}
	h.PutVarUint(length, 5)
	want := append(h.Bytes(), content...)
	want[len(want)-1] &= 0xff << uint(8-lastBits)
	if off > 0 {
		carry := pre << uint(8-off)
		for i, c := range want {
			want[i] = carry | c>>uint(off)
			carry = c << uint(8-off)
		}
		if off+lastBits > 8 {
			want = append(want, carry)
		}
	}
	sv.Assert(len(b.B) == len(want), "length")
	sv.Assert(sv.BytesEqual(b.B, want), "layout")
	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err := r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	sv.Assert(read(r), "round-trip")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Reach("round-trips")
}

func C04_LargeString() {
	buf, off := large(), 3*sv.Choose("offset", 2)
	n, s := len(buf), string(buf)
	size, err := ztype.BitSizeOfString(s)
	sv.Assert(err == nil && size == 8*hx.VarUintBytes(uint64(n), 5)+8*n, "predicted-size")
	aroundLarge(off, uint64(n), buf, 8,
		func(w zserio.Writer) error { return ztype.WriteString(w, s) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadString(r)
			return err == nil && len(g) == n && g == s
		})
}

func C04_LargeBytes() {
	buf, off := large(), 3*sv.Choose("offset", 2)
	n := len(buf)
	v := &ztype.BytesType{Buffer: buf, ByteSize: uint64(n)}
	size := ztype.BytesArrayTraits{}.BitSizeOf(v, off)
	sv.Assert(size == 8*hx.VarUintBytes(uint64(n), 5)+8*n, "predicted-size")
	aroundLarge(off, uint64(n), buf, 8,
		func(w zserio.Writer) error { return ztype.WriteBytes(w, v) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadBytes(r)
			return err == nil && g.ByteSize == uint64(n) && len(g.Buffer) == n && sv.BytesEqual(g.Buffer, buf)
		})
}

func C04_LargeExtern() {
	buf, off := large(), 3*sv.Choose("offset", 2)
	n := 8*len(buf) - 3*sv.Choose("partial", 2)
	v := &ztype.ExternType{Buffer: buf, BitSize: uint64(n)}
	size := ztype.BitBufferArrayTraits{}.BitSizeOf(v, off)
	sv.Assert(size == 8*hx.VarUintBytes(uint64(n), 5)+n, "predicted-size")
	aroundLarge(off, uint64(n), buf, 8-(8*len(buf)-n), func(w zserio.Writer) error { return ztype.WriteExtern(w, v) },
		func(r zserio.Reader) bool {
			g, err := ztype.ReadExtern(r)
			if err != nil || g.BitSize != uint64(n) || len(g.Buffer) != len(buf) {
				return false
			}
			ok := sv.BytesEqual(g.Buffer[:n/8], buf[:n/8])
			if n%8 != 0 {
				ok = sv.And(ok, g.Buffer[n/8]>>uint(8-n%8) == buf[n/8]>>uint(8-n%8))
			}
			return ok
		})
}
