// Package gt has the checks that apply to every generated type of the corpus.
package gt

import (
	"errors"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// Offset chooses where the encoding starts.
func Offset() int {
	if sv.Thorough() {
		return sv.Choose("offset", 8)
	}
	return []int{0, 3}[sv.Choose("offset", 2)]
}

// RoundTrip: the encoding is the reference encoding and decodes to the value.
func RoundTrip(c cs.Case) {
	v := c.Make()
	off := Offset()
	b, w, done, ref := hx.WriterAt(off)
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	post := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(done() == nil, "close")
	if c.Put != nil {
		sv.Section("reference")
		c.Put(ref, v)
		ref.Put(post, 8)
		sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
		sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	}
	sv.Section("decode")
	got := c.Fresh(v)
	r := hx.NewReader(b.B)
	_, err := r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	sv.Assert(got.UnmarshalZserio(r) == nil, "decodes")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Section("compare")
	c.Norm(got)
	sv.Assert(c.Eq(v, got), "round-trip")
	sv.Reach("round-trips")
}

// Size: the predicted size is the number of bits that encoding adds.
func Size(c cs.Case) {
	v := c.Make()
	off := sv.Choose("offset", 8)
	_, w, _, _ := hx.WriterAt(off)
	sv.Section("predict")
	n, err := v.ZserioBitSize(off)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(Pos(w) == off+n, "predicted-size")
	sv.Reach("sized")
}

// Pos is the number of bits written so far.
func Pos(w *zstream.BitWriter) int {
	p, err := w.Align(1)
	sv.Assert(err == nil, "position")
	return int(p)
}

// Encode returns the encoding of v after off bits.
func Encode(v cs.Message, off int) []byte {
	b, w := hx.NewWriter()
	sv.Assert(w.WriteBits(1, uint8(off)) == nil, "prefix")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(w.Close() == nil, "close")
	return b.B
}

// FailSink: a sink that fails at any byte is reported, and what it got is a prefix.
func FailSink(c cs.Case) {
	v := c.Make()
	full := Encode(v, 0)
	if len(full) == 0 {
		return
	}
	left := sv.Choose("accepted bytes", len(full))
	sv.Section("encode")
	sink := &hx.FailBuf{Left: left, Recovers: sv.Bool("recovers")}
	w := zstream.NewWriter(sink)
	err := v.MarshalZserio(w)
	err2 := w.Close()
	sv.Assert(err != nil || err2 != nil, "reports-failure")
	sv.Assert(len(sink.B) >= left && sv.BytesEqual(sink.B[:left], full[:left]), "prefix-accepted")
	sv.Assert(len(sink.B) == left || sink.Recovers, "nothing-after-the-failure")
	if err != nil {
		sv.Assert(errors.Is(err, hx.ErrSink), "reports-the-cause")
	}
	sv.Reach("failed")
}

// Truncated: an encoding cut at any byte is an error.
func Truncated(c cs.Case) {
	v := c.Make()
	full := Encode(v, 0)
	if len(full) == 0 {
		return
	}
	cut := sv.Choose("kept bytes", len(full))
	sv.Section("decode")
	got := c.Fresh(v)
	err := got.UnmarshalZserio(hx.NewReader(full[:cut]))
	sv.Assert(err != nil, "reports-truncation")
	sv.Reach("truncated")
}

// Arbitrary: decoding up to n arbitrary bytes ends with a value or an error.
func Arbitrary(c cs.Case, n int) {
	if arbitrary(c, n) == nil {
		sv.Reach("decoded")
	} else {
		sv.Reach("rejected")
	}
}

// Prefix is Arbitrary for inputs too short for a value.
func Prefix(c cs.Case, n int) {
	if arbitrary(c, n) != nil {
		sv.Reach("rejected")
	}
}

func arbitrary(c cs.Case, n int) error {
	got := c.Fresh(nil)
	var in []byte
	if n <= 20 {
		in = sv.Bytes("in", sv.Choose("length", n+1))
	} else {
		in = sv.Bytes("in", []int{0, 1, n / 2, n - 1, n}[sv.Choose("length", 5)])
	}
	sv.Section("decode")
	sv.SymAlloc(8)
	sv.SkipAlloc(4095)
	sv.AllocLimit(1<<20 + uint64(64*len(in)))
	return got.UnmarshalZserio(hx.NewReader(in))
}

// Pure: encoding and sizing do not write to the value or to shared state, and
// repeating them gives the same result. A value with members that receive
// parameters is not frozen: passing them on stores them.
func Pure(c cs.Case, freeze bool) {
	v := c.Make()
	if freeze {
		sv.Freeze(v)
	}
	sv.FreezeGlobals()
	sv.Section("size")
	n1, err := v.ZserioBitSize(3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	a := Encode(v, 3)
	n2, err := v.ZserioBitSize(3)
	sv.Assert(err == nil && n1 == n2, "same-size")
	b := Encode(v, 3)
	sv.Assert(len(a) == len(b) && sv.BytesEqual(a, b), "same-bytes")
	sv.Freeze(a)
	sv.Section("decode")
	got := c.Fresh(v)
	r := hx.NewReader(a)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil, "prefix-back")
	sv.Assert(got.UnmarshalZserio(r) == nil, "decodes")
	sv.Unfreeze()
	c.Norm(got)
	sv.Assert(c.Eq(v, got), "unchanged")
	sv.Reach("pure")
}

// Reuse: decoding into a used receiver gives what decoding into a fresh one gives.
func Reuse(c cs.Case) {
	v := c.Make()
	in := Encode(v, 0)
	sv.Section("decode")
	fresh, used := c.Fresh(v), c.Used(v)
	err1 := fresh.UnmarshalZserio(hx.NewReader(in))
	err2 := used.UnmarshalZserio(hx.NewReader(in))
	sv.Assert(err1 == nil, "decodes")
	sv.Assert(err2 == nil, "decodes-again")
	c.Norm(fresh)
	c.Norm(used)
	sv.Assert(c.Eq(fresh, used), "same-value")
	sv.Reach("reused")
}
