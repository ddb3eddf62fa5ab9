// Package c15: enums and bitmasks of every base type.
//
//sv:bound 28 enums and 14 bitmasks that cover every integer base type, bit fields, subtypes as base, and explicit, implicit and computed item values; every value of the underlying type, declared or not
//sv:bound single values at bit offsets 0, 3 (thorough: 0..7); packed arrays of 0..2 elements (thorough: 3 for types of up to 8 bits) against the packed array of the base type; differences as in C07
//sv:bound an enum of 300 items and a bitmask of 64 values (schemas/big.zs): their values and names
//sv:bound names: every string of up to 2 bytes (thorough: 3), and every declared name
package c15

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

type num interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~int8 | ~int16 | ~int32 | ~int64
}

func value[T, B num, Y ztype.IArrayTraits[B], P zserio.PackableZserioType[T]](k hx.Kind[B, Y]) {
	off := []int{0, 3}[sv.Choose("offset", 2)]
	if sv.Thorough() {
		off = sv.Choose("offset", 8)
	}
	raw := k.In()
	v := T(raw)
	b, w, done, ref := hx.WriterAt(off)
	sv.Section("encode")
	err := P(&v).MarshalZserio(w)
	size, sizeErr := P(&v).ZserioBitSize(off)
	if !k.Fits(raw) {
		sv.Assert(err != nil, "rejects")
		return
	}
	sv.Assert(err == nil && sizeErr == nil, "accepts")
	length := int(w.BitPosition())
	sv.Assert(w.WriteBits(5, 3) == nil && done() == nil, "close")
	sv.Section("reference")
	k.Put(ref, raw)
	sv.Assert(length == ref.Len(), "bits")
	sv.Assert(size == ref.Len()-off, "size")
	ref.Put(5, 3)
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "bytes")
	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix")
	got := T(sv.U8("old"))
	sv.Assert(P(&got).UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(got == v, "round-trip")
	after, err := r.ReadBits(3)
	sv.Assert(err == nil && after == 5, "consumes")
	sv.Reach("encoded")
}

func packed[T, B num, Y ztype.IArrayTraits[B], P zserio.PackableZserioType[T]](k hx.Kind[B, Y]) {
	n := sv.Choose("length", 3)
	raw := k.Array(n)
	sv.Assume(k.AllFit(raw))
	if n > 1 {
		if k.Var && k.Signed {
			for _, v := range raw {
				if sv.Choose("negative", 2) == 1 {
					sv.Assume(v < 0)
				} else {
					sv.Assume(!(v < 0))
				}
			}
		}
		d := k.Num(raw[1]) - k.Num(raw[0])
		if k.Wide { // both neighbours of a few widths
			c := []uint64{0, 1, 3, 1 << 7, 1<<31 + 5, 1<<62 - 1, 1 << 62}[sv.Choose("difference", 7)]
			if sv.Choose("down", 2) == 1 {
				c = -c
			}
			sv.Assume(d == c)
		}
	}
	a := make([]T, n)
	for i := range a {
		a[i] = T(raw[i])
	}
	sv.Section("encode")
	b, w := hx.NewWriter()
	arr := ztype.ObjectArray[T, P]{IsPacked: true, IsAuto: true}
	err := arr.MarshalZserio(a, w)
	sv.Section("encode-base")
	b2, w2 := hx.NewWriter()
	err2 := k.New(raw, true, true).MarshalZserio(w2)
	sv.Assert((err == nil) == (err2 == nil), "accepts-as-base")
	if err != nil || err2 != nil {
		return
	}
	length := int(w.BitPosition())
	sv.Assert(length == int(w2.BitPosition()), "bits-as-base")
	sv.Assert(w.WriteBits(5, 3) == nil && w2.WriteBits(5, 3) == nil, "suffix")
	sv.Assert(w.Close() == nil && w2.Close() == nil, "close")
	sv.Assert(sv.BytesEqual(b.B, b2.B), "bytes-as-base")
	sv.Section("size")
	arr = ztype.ObjectArray[T, P]{IsPacked: true, IsAuto: true}
	size, err := arr.ZserioBitSizePacked(a, 0)
	sv.Assert(err == nil && size == length, "size")
	sv.Section("decode")
	r := hx.NewReader(b.B)
	arr = ztype.ObjectArray[T, P]{IsPacked: true, IsAuto: true}
	got, err := arr.UnmarshalZserio(r)
	sv.Assert(err == nil && len(got) == n, "decodes")
	same := true
	for i := range a {
		same = sv.And(same, got[i] == a[i])
	}
	sv.Assert(same, "round-trip")
	after, err := r.ReadBits(3)
	sv.Assert(err == nil && after == 5, "consumes")
	sv.Reach("packed")
}

// names checks the declared items against the table, which is the schema's.
func names[T num](values []T, strs []string, from func(string) (T, error), str func(T) string, want []T, name []string) {
	sv.Assert(len(values) == len(want) && len(strs) == len(want), "items")
	for i, v := range want {
		sv.Assert(values[i] == v, "value")
		sv.Assert(strs[i] == name[i], "name-in-order")
		got, err := from(name[i])
		sv.Assert(err == nil && got == v, "name-to-value")
		sv.Assert(str(v) == name[i], "value-to-name")
	}
	most := 2
	if sv.Thorough() {
		most = 3
	}
	sv.Section("any-name")
	s := sv.Str("name", sv.Choose("name length", most+1))
	v, err := from(s)
	declared := false
	for i, n := range name {
		if len(n) == len(s) {
			is := sv.BytesEqual([]byte(n), []byte(s))
			sv.Assert(sv.Or(!is, v == want[i]), "value-of-name")
			declared = sv.Or(declared, is)
		}
	}
	sv.Assert((err == nil) == declared, "accepts-declared-names-only")
	sv.Section("any-value")
	raw := T(sv.U64("value"))
	for i, w := range want {
		if raw == w {
			sv.Assert(str(raw) == name[i], "name-of-value")
			break
		}
	}
	sv.Reach("checked")
}
