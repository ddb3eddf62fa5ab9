// Package at has the checks that apply to the library's arrays of every element type.
package at

import (
	"errors"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// value returns an arbitrary encodable array. Paths split on the width of the
// differences in packed arrays; with narrow their elements are -100..100 in the
// quick tier.
func value[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], narrow bool) *ztype.Array[T, Y] {
	packed := sv.Choose("packed", 2) == 1
	auto := sv.Choose("auto", 2) == 1
	elems := k.Array(sv.Choose("length", 3))
	sv.Assume(k.AllFit(elems))
	if narrow && packed && k.Wide && !sv.Thorough() {
		for _, v := range elems {
			sv.Assume(k.Num(v)+100 <= 200)
		}
	}
	return k.New(elems, auto, packed)
}

func encode[T any, Y ztype.IArrayTraits[T]](a *ztype.Array[T, Y], off int) []byte {
	b, w := hx.NewWriter()
	sv.Assert(w.WriteBits(1, uint8(off)) == nil, "prefix")
	sv.Assert(a.MarshalZserio(w) == nil, "accepts")
	sv.Assert(w.Close() == nil, "close")
	return b.B
}

func predict[T any, Y ztype.IArrayTraits[T]](a *ztype.Array[T, Y], off int) (int, error) {
	if a.IsPacked {
		return a.ZserioBitSizePacked(off)
	}
	return a.ZserioBitSize(off)
}

// Size: the predicted size is the number of bits written.
func Size[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	a := value(k, k.Var)
	off := hx.Offset(3)
	if sv.Thorough() {
		off = sv.Choose("offset", 8)
	}
	sv.Section("predict")
	n, err := predict(a, off)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	_, w := hx.NewWriter()
	sv.Assert(w.WriteBits(1, uint8(off)) == nil, "prefix")
	sv.Assert(a.MarshalZserio(w) == nil, "accepts")
	p, err := w.Align(1)
	sv.Assert(err == nil && int(p) == off+n, "predicted-size")
	sv.Reach("sized")
}

// FailSink: a sink that fails at any byte is reported.
func FailSink[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	a := value(k, true)
	full := encode(a, 3)
	left := sv.Choose("accepted bytes", len(full))
	sv.Section("encode")
	sink := &hx.FailBuf{Left: left, Recovers: sv.Bool("recovers")}
	w := zstream.NewWriter(sink)
	err := w.WriteBits(1, 3)
	if err == nil {
		err = a.MarshalZserio(w)
	}
	err2 := w.Close()
	sv.Assert(err != nil || err2 != nil, "reports-failure")
	sv.Assert(len(sink.B) >= left && sv.BytesEqual(sink.B[:left], full[:left]), "prefix-accepted")
	sv.Assert(len(sink.B) == left || sink.Recovers, "nothing-after-the-failure")
	if err != nil {
		sv.Assert(errors.Is(err, hx.ErrSink), "reports-the-cause")
	}
	sv.Reach("failed")
}

func read[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], a *ztype.Array[T, Y], in []byte) (*ztype.Array[T, Y], error) {
	r := hx.NewReader(in)
	if _, err := r.ReadBits(3); err != nil {
		return nil, err
	}
	return ztype.ArrayFromReader[T, Y](r, k.Traits, a.FixedSize, a.IsPacked, a.IsAuto)
}

// Truncated: an encoding cut at any byte is an error.
func Truncated[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	a := value(k, true)
	full := encode(a, 3)
	if len(a.RawArray) == 0 && !a.IsAuto {
		return
	}
	cut := sv.Choose("kept bytes", len(full))
	sv.Section("decode")
	_, err := read(k, a, full[:cut])
	sv.Assert(err != nil, "reports-truncation")
	sv.Reach("truncated")
}

// Arbitrary: decoding any bytes ends with a value or an error.
func Arbitrary[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], n int) {
	in := sv.Bytes("in", sv.Choose("length", n+1))
	auto := sv.Choose("auto", 2) == 1
	packed := sv.Choose("packed", 2) == 1
	size := 0
	if !auto {
		size = sv.Choose("size", 4)
	}
	sv.SymAlloc(8)
	sv.SkipAlloc(4095)
	sv.AllocLimit(1<<17 + uint64(64*len(in)))
	sv.Section("decode")
	a, err := ztype.ArrayFromReader[T, Y](hx.NewReader(in), k.Traits, size, packed, auto)
	if err != nil {
		sv.Reach("rejected")
		return
	}
	sv.Assert(auto || a.Size() == size, "size")
	sv.Reach("decoded")
}

// Pure: sizing and encoding do not write to the elements or to shared state and
// give the same result each time.
func Pure[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	a := value(k, true)
	sv.Freeze(a.RawArray)
	sv.FreezeGlobals()
	sv.Section("size")
	n1, err := predict(a, 3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	x := encode(a, 3)
	n2, err := predict(a, 3)
	sv.Assert(err == nil && n1 == n2, "same-size")
	y := encode(a, 3)
	sv.Assert(len(x) == len(y) && sv.BytesEqual(x, y), "same-bytes")
	sv.Freeze(x)
	sv.Section("decode")
	got, err := read(k, a, x)
	sv.Assert(err == nil, "decodes")
	sv.Unfreeze()
	sv.Assert(k.Same(a.RawArray, got.RawArray), "unchanged")
	sv.Reach("pure")
}

// Reuse: an array that was used before decodes to what a new one does.
func Reuse[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y]) {
	a := value(k, true)
	full := encode(a, 0)
	sv.Section("decode")
	fresh := k.New(nil, a.IsAuto, a.IsPacked)
	old := k.New(k.Array(sv.Choose("old length", 2)), a.IsAuto, a.IsPacked)
	fresh.FixedSize, old.FixedSize = a.FixedSize, a.FixedSize
	if len(old.RawArray) > 0 && a.IsPacked { // leave a packing context behind
		_, w := hx.NewWriter()
		sv.Assume(old.MarshalZserio(w) == nil)
	}
	sv.Assert(fresh.UnmarshalZserio(hx.NewReader(full)) == nil, "decodes")
	sv.Assert(old.UnmarshalZserio(hx.NewReader(full)) == nil, "decodes-again")
	sv.Assert(k.Same(fresh.RawArray, old.RawArray), "same-value")
	sv.Reach("reused")
}
