package at

import (
	"errors"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// large is an array of a size that an implementation may treat apart. Its last element
// is arbitrary unless it is packed, at gives the others.
func large[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T) *ztype.Array[T, Y] {
	sv.Long()
	packed := sv.Choose("packed", 2) == 1
	n := []int{128, 4097}[sv.Choose("large", 2)]
	a := make([]T, n)
	for i := range a {
		a[i] = at(i)
	}
	if k.Num != nil && !packed {
		a[n-1] = k.In()
		sv.Assume(k.AllFit(a[n-1:]))
	}
	return k.New(a, true, packed)
}

// places are byte positions within n bytes where something may go wrong.
func places(n int) int {
	p := []int{0, 1, n / 2, n - 2, n - 1}
	for i := 4096; i < n; i += 4096 {
		p = append(p, i-1, i, i+1)
	}
	return min(n-1, p[sv.Choose("place", len(p))])
}

// LargeSize is Size for large arrays.
func LargeSize[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T) {
	a := large(k, at)
	sv.Section("predict")
	n, err := predict(a, 3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	_, w := hx.NewWriter()
	sv.Assert(w.WriteBits(1, 3) == nil, "prefix")
	sv.Assert(a.MarshalZserio(w) == nil, "accepts")
	p, err := w.Align(1)
	sv.Assert(err == nil && int(p) == 3+n, "predicted-size")
	sv.Reach("sized")
}

// LargeFailSink is FailSink for large arrays.
func LargeFailSink[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T) {
	a := large(k, at)
	full := encode(a, 3)
	left := places(len(full))
	sv.Section("encode")
	sink := &hx.FailBuf{Left: left}
	w := zstream.NewWriter(sink)
	err := w.WriteBits(1, 3)
	if err == nil {
		err = a.MarshalZserio(w)
	}
	err2 := w.Close()
	sv.Assert(err != nil || err2 != nil, "reports-failure")
	sv.Assert(len(sink.B) == left && sv.BytesEqual(sink.B, full[:left]), "prefix-accepted")
	if err != nil {
		sv.Assert(errors.Is(err, hx.ErrSink), "reports-the-cause")
	}
	sv.Reach("failed")
}

// LargeTruncated is Truncated for large arrays.
func LargeTruncated[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T) {
	a := large(k, at)
	full := encode(a, 3)
	cut := places(len(full))
	sv.Section("decode")
	_, err := read(k, a, full[:cut])
	sv.Assert(err != nil, "reports-truncation")
	sv.Reach("truncated")
}

// LargePure is Pure for large arrays.
func LargePure[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T) {
	a := large(k, at)
	sv.Freeze(a.RawArray)
	sv.FreezeGlobals()
	sv.Section("encode")
	x := encode(a, 3)
	y := encode(a, 3)
	sv.Assert(len(x) == len(y) && sv.BytesEqual(x, y), "same-bytes")
	sv.Freeze(x)
	sv.Section("decode")
	got, err := read(k, a, x)
	sv.Assert(err == nil, "decodes")
	sv.Unfreeze()
	sv.Assert(k.Same(a.RawArray, got.RawArray), "unchanged")
	sv.Reach("pure")
}

// LargeReuse is Reuse with a receiver that held a large array.
func LargeReuse[T any, Y ztype.IArrayTraits[T]](k hx.Kind[T, Y], at func(i int) T) {
	sv.Long()
	packed := sv.Choose("packed", 2) == 1
	mk := func(n, shift int) []T {
		a := make([]T, n)
		for i := range a {
			a[i] = at(i + shift)
		}
		return a
	}
	sizes := []int{0, 3, 4096, 4097}
	a := k.New(mk(sizes[sv.Choose("size", 4)], 0), true, packed)
	if len(a.RawArray) > 0 && k.Num != nil && !packed {
		a.RawArray[len(a.RawArray)-1] = k.In()
		sv.Assume(k.AllFit(a.RawArray[len(a.RawArray)-1:]))
	}
	full := encode(a, 0)
	old := k.New(mk(sizes[sv.Choose("old size", 4)], 1), true, packed)
	_, w := hx.NewWriter()
	sv.Assert(old.MarshalZserio(w) == nil, "accepts")
	sv.Section("decode")
	sv.Assert(old.UnmarshalZserio(hx.NewReader(full)) == nil, "decodes-again")
	sv.Assert(k.Same(a.RawArray, old.RawArray), "same-value")
	sv.Reach("reused")
}
