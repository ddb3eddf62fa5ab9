// Package cs is the corpus of generated types: for each one how to make an arbitrary
// value that can be encoded, and its encoding written from the zserio specification.
package cs

import (
	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// Message is a generated type.
type Message interface {
	zserio.Marshaler
	zserio.Unmarshaler
}

// Case is one type of the corpus.
type Case struct {
	// Make returns an arbitrary value that can be encoded; what the bytes do not
	// contain is zero.
	Make func() Message
	// Put appends the reference encoding; nil when only the round trip is claimed.
	Put func(*hx.Bits, Message)
	// Fresh returns a new receiver with the parameters of v, or arbitrary ones.
	Fresh func(v Message) Message
	// Used returns a receiver with arbitrary content and the parameters of v.
	Used func(v Message) Message
	// Norm clears what the encoding of the value does not contain.
	Norm func(Message)
	// Eq compares two values.
	Eq func(a, b Message) bool
}

type ptr[T any] interface {
	*T
	Message
}

type opt[T any] struct {
	params func(dst, src *T) // copies the parameters
	any    func(*T)          // arbitrary parameters
	norm   func(*T)
	max    int // longest string or array of a used receiver
}

func mk[T any, P ptr[T]](make func(*T), put func(*hx.Bits, *T), o opt[T]) Case {
	c := Case{
		Make: func() Message {
			v := new(T)
			make(v)
			return P(v)
		},
		Eq: func(a, b Message) bool { return sv.Equal(a, b) },
	}
	if put != nil {
		c.Put = func(b *hx.Bits, m Message) { put(b, (*T)(m.(P))) }
	}
	set := func(t *T, v Message) {
		if o.params == nil {
			return
		}
		if v == nil {
			o.any(t)
		} else {
			o.params(t, (*T)(v.(P)))
		}
	}
	c.Fresh = func(v Message) Message {
		t := new(T)
		set(t, v)
		return P(t)
	}
	c.Used = func(v Message) Message {
		t := new(T)
		sv.Fill("old", t, o.max)
		set(t, v)
		return P(t)
	}
	c.Norm = func(v Message) {
		if o.norm != nil {
			o.norm((*T)(v.(P)))
		}
	}
	return c
}

// values that fit

func u8(n int) uint8 {
	return sv.U8("f") & uint8(1<<uint(n)-1)
}
func u16(n int) uint16 {
	return sv.U16("f") & uint16(1<<uint(n)-1)
}
func u64(n int) uint64 {
	return sv.U64("f") >> uint(64-n)
}
func s8(n int) int8 {
	return sv.I8("f") << uint(8-n) >> uint(8-n)
}

func num(m int) int { return sv.Choose("count", m+1) }

func str() string { return sv.Str("s", num(2)) }

func blob() *ztype.BytesType {
	n := num(2)
	return &ztype.BytesType{Buffer: sv.Bytes("b", n), ByteSize: uint64(n)}
}

func extern() *ztype.ExternType {
	n := []int{0, 5, 8, 11}[sv.Choose("bits", 4)]
	v := &ztype.ExternType{Buffer: sv.Bytes("x", (n+7)/8), BitSize: uint64(n)}
	if n%8 != 0 {
		v.Buffer[n/8] &= 0xff << uint(8-n%8)
	}
	return v
}

// reference encodings

func pb(b *hx.Bits, v bool) { b.Put(sv.IteU64(v, 1, 0), 1) }
func pf(b *hx.Bits, present bool) bool {
	pb(b, present)
	return present
}
func pstr(b *hx.Bits, s string) {
	b.PutVarUint(uint64(len(s)), 5)
	b.PutBytes([]byte(s))
}
func pblob(b *hx.Bits, v *ztype.BytesType) {
	b.PutVarUint(v.ByteSize, 5)
	b.PutBytes(v.Buffer)
}
func pextern(b *hx.Bits, v *ztype.ExternType) {
	n := int(v.BitSize)
	b.PutVarUint(uint64(n), 5)
	b.PutBytes(v.Buffer[:n/8])
	if n%8 != 0 {
		b.Put(uint64(v.Buffer[n/8])>>uint(8-n%8), n%8)
	}
}
func arr[T any](b *hx.Bits, a []T, auto bool, put func(*hx.Bits, T)) {
	if auto {
		b.PutVarUint(uint64(len(a)), 5)
	}
	for _, v := range a {
		put(b, v)
	}
}
func list[T any](n int, f func() T) []T {
	a := make([]T, n)
	for i := range a {
		a[i] = f()
	}
	return a
}
