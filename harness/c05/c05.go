// Package c05: stream positions and alignment.
//
//sv:bound sequences of 3 (thorough: 4) operations with arbitrary contents; bulk writes of up to 2 bytes, bit writes of 1..64 bits in three widths
//sv:bound alignment at 15 positions of 256 to 131093 bits after a bulk write, 13 boundaries; size helper: every boundary at 10 positions up to 2^62
//sv:bound alignment: boundaries 1..255 at 20 positions up to 520 (thorough: every position 0..263); size helper: every position below 2^16 and boundary
package c05

import (
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C05_Sequence() {
	steps := 3
	if sv.Thorough() {
		steps = 4
	}
	b, w := hx.NewWriter()
	ref := &hx.Bits{}
	sv.Assert(w.BitPosition() == 0, "starts-at-zero")
	type op struct {
		kind int
		v    uint64
		n    int
		p    []byte
	}
	var ops []op
	widths := []int{1, 3, 13, 64}
	bounds := []int{1, 3, 8, 16, 100}
	sv.Section("write")
	for i := 0; i < steps; i++ {
		k := sv.Choose("op", 13)
		o := op{kind: k}
		switch {
		case k < 4:
			o.n = widths[k]
			o.v = sv.U64("bits") & (^uint64(0) >> uint(64-o.n))
			sv.Assert(w.WriteBits(o.v, uint8(o.n)) == nil, "WriteBits")
			ref.Put(o.v, o.n)
		case k == 4:
			o.v = uint64(sv.U8("byte"))
			sv.Assert(w.WriteByte(byte(o.v)) == nil, "WriteByte")
			ref.Put(o.v, 8)
		case k == 5:
			o.v = uint64(sv.U8("bool") & 1)
			sv.Assert(w.WriteBool(o.v == 1) == nil, "WriteBool")
			ref.Put(o.v, 1)
		case k < 8:
			o.p = sv.Bytes("bulk", 3*(k-6))
			n, err := w.Write(o.p)
			sv.Assert(err == nil && n == len(o.p), "Write")
			ref.PutBytes(o.p)
		default:
			o.n = bounds[k-8]
			pos, err := w.Align(uint8(o.n))
			sv.Assert(err == nil, "Align")
			ref.Align(o.n)
			sv.Assert(pos == int64(ref.Len()), "align-returns-position")
		}
		sv.Assert(w.BitPosition() == int64(ref.Len()), "position")
		ops = append(ops, o)
	}
	sv.Assert(w.Close() == nil, "close")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "content")
	sv.Section("read")
	r := hx.NewReader(b.B)
	pos := 0
	for _, o := range ops {
		switch k := o.kind; {
		case k < 4:
			g, err := r.ReadBits(uint8(o.n))
			sv.Assert(sv.And(err == nil, g == o.v), "ReadBits")
			pos += o.n
		case k == 4:
			g, err := r.ReadByte()
			sv.Assert(sv.And(err == nil, uint64(g) == o.v), "ReadByte")
			pos += 8
		case k == 5:
			g, err := r.ReadBool()
			sv.Assert(sv.And(err == nil, g == (o.v == 1)), "ReadBool")
			pos++
		case k < 8:
			buf := make([]byte, len(o.p))
			n, err := r.Read(buf)
			sv.Assert(len(buf) == 0 || err == nil && n == len(buf), "Read")
			sv.Assert(sv.BytesEqual(buf, o.p), "Read-content")
			pos += 8 * len(buf)
		default:
			g, err := r.Align(uint8(o.n))
			pos = (pos + o.n - 1) / o.n * o.n
			sv.Assert(err == nil, "Align")
			sv.Assert(g == int64(pos), "reader-position")
		}
	}
	sv.Assert(pos == ref.Len(), "same-end")
}

// C05_Align: one alignment between arbitrary neighbours.
func C05_Align() {
	boundary := 1 + sv.Choose("boundary", 255)
	var p int
	if sv.Thorough() {
		p = sv.Choose("position", 264)
	} else {
		p = []int{0, 1, 2, 7, 8, 9, 31, 63, 64, 65, 100, 127, 128, 129, 253, 254, 255, 256, 257, 520}[sv.Choose("position", 20)]
	}
	b, w := hx.NewWriter()
	before := sv.U64("before")
	ref := &hx.Bits{}
	for i := p; i > 0; i -= 64 {
		n := min(i, 64)
		x := before & (^uint64(0) >> uint(64-n))
		sv.Assert(w.WriteBits(x, uint8(n)) == nil, "prefix")
		ref.Put(x, n)
	}
	sv.Section("write")
	pos, err := w.Align(uint8(boundary))
	sv.Assert(err == nil, "accepted")
	ref.Align(boundary)
	sv.Assert(pos == int64(ref.Len()) && w.BitPosition() == pos, "writer-position")
	after := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(after, 8) == nil && w.Close() == nil, "suffix")
	ref.Put(after, 8)
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "zero-padding")
	sv.Section("read")
	r := hx.NewReader(b.B)
	for i := p; i > 0; i -= 64 {
		_, err := r.ReadBits(uint8(min(i, 64)))
		sv.Assert(err == nil, "prefix-back")
	}
	rp, err := r.Align(uint8(boundary))
	sv.Assert(err == nil && rp == pos, "reader-position")
	g, err := r.ReadBits(8)
	sv.Assert(err == nil && g == after, "suffix-back")
}

// C05_SizeHelper: the number of padding bits for every position.
func C05_SizeHelper() {
	p, boundary := sv.U16("position"), uint8(1+sv.Choose("boundary", 255))
	n := ztype.CountAlignBits(int(p), boundary)
	sv.Observe("n", n)
	b := uint16(boundary)
	sv.Assert(n == int((b-p%b)%b), "smallest-multiple")
}

// C05_AlignFar: positions that need more than 8 and 16 bits.
func C05_AlignFar() {
	sv.Long()
	boundary := []int{1, 3, 7, 8, 9, 12, 24, 64, 100, 127, 128, 200, 255}[sv.Choose("boundary", 13)]
	bytes := []int{32, 4096, 8192, 8193, 16385}[sv.Choose("bytes", 5)]
	extra := []int{0, 1, 13}[sv.Choose("bits", 3)]
	p := 8*bytes + extra
	b, w := hx.NewWriter()
	x := sv.U64("before") & (1<<uint(extra) - 1)
	n, err := w.Write(make([]byte, bytes))
	sv.Assert(err == nil && n == bytes, "bulk")
	sv.Assert(w.WriteBits(x, uint8(extra)) == nil, "prefix")
	sv.Assert(w.BitPosition() == int64(p), "position")
	want := (p + boundary - 1) / boundary * boundary
	sv.Section("write")
	pos, err := w.Align(uint8(boundary))
	sv.Assert(err == nil, "accepted")
	sv.Assert(pos == int64(want) && w.BitPosition() == pos, "writer-position")
	after := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(after, 8) == nil && w.Close() == nil, "suffix")
	ref := &hx.Bits{}
	ref.Put(x, extra)
	for i := p; i < want; i++ {
		ref.Put(0, 1)
	}
	ref.Put(after, 8)
	sv.Assert(len(b.B) == (want+8+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B[bytes:], ref.Bytes()), "zero-padding")
	sv.Section("read")
	r := hx.NewReader(b.B)
	buf := make([]byte, bytes)
	n, err = r.Read(buf)
	sv.Assert(err == nil && n == bytes, "bulk-back")
	g, err := r.ReadBits(uint8(extra))
	sv.Assert(err == nil && g == x, "prefix-back")
	rp, err := r.Align(uint8(boundary))
	sv.Assert(err == nil && rp == pos, "reader-position")
	g, err = r.ReadBits(8)
	sv.Assert(err == nil && g == after, "suffix-back")
	sv.Reach("aligned")
}

// C05_SizeHelperFar: positions of up to 62 bits.
func C05_SizeHelperFar() {
	p := []int{1 << 16, 1<<16 + 1, 1<<20 - 1, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1 << 32, 1<<32 + 7, 1<<40 + 3, 1<<62 - 1}[sv.Choose("position", 10)]
	boundary := 1 + sv.Choose("boundary", 255)
	n := ztype.CountAlignBits(p, uint8(boundary))
	sv.Assert(n == (boundary-p%boundary)%boundary, "smallest-multiple")
	sv.Reach("checked")
}
