// Package pl has a reference encoder for messages with packed arrays of compound types.
package pl

import (
	"math/bits"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// col is a column: the same field of each element that has it.
type col struct {
	signed      bool
	nums        []uint64
	first, size int
	started     bool
	mixed       bool // elements of both signs
	packed      bool
	width       int
	prev        uint64
}

// Lay is the reference encoder: it visits every element twice, first to collect the
// columns and then to write.
type Lay struct {
	b     *hx.Bits
	got   []byte
	cols  map[string]*col
	order []*col
	path  string
	emit  bool
	subs  []*Lay // the arrays within, in the order of their visits
	next  int
}

func distance(x, y uint64) uint64 {
	if x > y {
		return x - y
	}
	return y - x
}

// Num is an integer field; put writes its plain encoding.
func (l *Lay) Num(name string, num uint64, signed bool, put func(*hx.Bits)) {
	c := l.cols[l.path+name]
	if c == nil {
		c = &col{signed: signed}
		l.cols[l.path+name] = c
		l.order = append(l.order, c)
	}
	if !l.emit {
		b := &hx.Bits{}
		put(b)
		if len(c.nums) == 0 {
			c.first = b.Len()
		}
		c.size += b.Len()
		c.nums = append(c.nums, num)
		return
	}
	if !c.started {
		c.started = true
		c.prev = num
		l.descriptor(c)
		put(l.b)
		return
	}
	if !c.packed {
		put(l.b)
		return
	}
	if c.width > 0 {
		l.b.Put(num-c.prev, c.width+1)
	}
	c.prev = num
}

// widths are the widths of differences that the quick tier covers.
func widths(c *col) []int {
	if c.size <= 16*len(c.nums) {
		return []int{0, 1, 3, 8, 15, 16}
	}
	return []int{0, 1, 9, 32, 62, 63, 64}
}

// plan splits the path on the widths of the differences of c.
func (c *col) plan() {
	minus, plus := false, false
	for _, v := range c.nums {
		minus = sv.Or(minus, sv.And(c.signed, int64(v) < 0))
		plus = sv.Or(plus, !sv.And(c.signed, int64(v) < 0))
	}
	if sv.And(minus, plus) {
		c.mixed = true
	}
	few := widths(c)
	for i := 1; i < len(c.nums); i++ {
		d := bits.Len64(distance(c.nums[i], c.nums[i-1]))
		if !sv.Thorough() {
			ok := c.mixed && d > 32
			for _, w := range few {
				ok = sv.Or(ok, d == w)
			}
			sv.Assume(ok)
		}
		c.width = max(c.width, sv.Concrete(d))
	}
	c.packed = !c.mixed && c.smaller(c.width)
}

func (c *col) smaller(width int) bool {
	each := 0
	if width > 0 {
		each = width + 1
	}
	n := len(c.nums)
	return n > 1 && 7+c.first+(n-1)*each < 1+c.size && width <= 62
}

func (l *Lay) descriptor(c *col) {
	if c.mixed {
		at := l.b.Len()
		r := hx.NewReader(l.got)
		_, err := r.ReadBits(uint8(at % 8))
		for i := 0; i < at/8; i++ {
			_, err = r.ReadByte()
		}
		p, err := r.ReadBits(1)
		sv.Assert(err == nil, "descriptor-present")
		if p == 1 {
			u, err := r.ReadBits(6)
			sv.Assert(err == nil, "width-present")
			c.width = sv.Concrete(int(u))
			c.packed = true
			sv.Assert(c.smaller(c.width), "packed-only-when-smaller")
		}
	}
	if c.packed {
		l.b.Put(1, 1)
		l.b.Put(uint64(c.width), 6)
	} else {
		l.b.Put(0, 1)
	}
}

// U and S are integers of n bits.
func (l *Lay) U(name string, v uint64, n int) {
	l.Num(name, v, false, func(b *hx.Bits) { b.Put(v, n) })
}
func (l *Lay) S(name string, v int64, n int) {
	l.Num(name, uint64(v), true, func(b *hx.Bits) { b.Put(uint64(v), n) })
}
func (l *Lay) VU(name string, v uint64, max int) {
	l.Num(name, v, false, func(b *hx.Bits) { b.PutVarUint(v, max) })
}
func (l *Lay) VI(name string, v int64, max int) {
	l.Num(name, uint64(v), true, func(b *hx.Bits) { b.PutVarInt(v, max) })
}

// Raw is a part without a column.
func (l *Lay) Raw(put func(*hx.Bits)) {
	if l.emit {
		put(l.b)
	}
}
func (l *Lay) Bit(v bool) {
	l.Raw(func(b *hx.Bits) { b.Put(sv.IteU64(v, 1, 0), 1) })
}
func (l *Lay) Str(s string) {
	l.Raw(func(b *hx.Bits) {
		b.PutVarUint(uint64(len(s)), 5)
		b.PutBytes([]byte(s))
	})
}

// In visits a nested value.
func (l *Lay) In(name string, f func()) {
	old := l.path
	l.path += name + "."
	f()
	l.path = old
}

// Array is a packed array.
func Array[E any](l *Lay, items []E, auto bool, visit func(*Lay, *E)) {
	if !l.emit {
		sub := &Lay{cols: map[string]*col{}}
		l.subs = append(l.subs, sub)
		for i := range items {
			visit(sub, &items[i])
		}
		for _, c := range sub.order {
			c.plan()
		}
		return
	}
	sub := l.subs[l.next]
	l.next++
	if auto {
		l.b.PutVarUint(uint64(len(items)), 5)
	}
	sub.b, sub.got, sub.emit = l.b, l.got, true
	for i := range items {
		visit(sub, &items[i])
	}
}

type message interface {
	MarshalZserio(w zserio.Writer) error
	UnmarshalZserio(r zserio.Reader) error
	ZserioBitSize(bitPosition int) (int, error)
}

// Run encodes the message h (fresh: one with the same parameters), compares the
// encoding with the reference put, decodes it and
// compares the values once norm has run.
func Run(h, fresh message, put func(*Lay), norm func()) {
	sv.Section("plan")
	root := &Lay{}
	put(root)
	off := []int{0, 3}[sv.Choose("offset", 2)]
	b, w, done, ref := hx.WriterAt(off)
	sv.Section("predict")
	size, err := h.ZserioBitSize(off)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(h.MarshalZserio(w) == nil, "accepts")
	post := uint64(sv.U8("after"))
	sv.Assert(w.WriteBits(post, 8) == nil, "suffix")
	sv.Assert(done() == nil, "close")

	sv.Section("decode")
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(uint8(off))
	sv.Assert(err == nil, "prefix-back")
	sv.Assert(fresh.UnmarshalZserio(r) == nil, "decodes")
	q, err := r.ReadBits(8)
	sv.Assert(err == nil && q == post, "suffix-back")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Section("compare")
	if norm != nil {
		norm()
	}
	sv.Assert(sv.Equal(h, fresh), "round-trip")

	sv.Section("layout")
	root.b, root.got, root.emit = ref, b.B, true
	put(root)
	sv.Assert(ref.Len() == off+size, "predicted-size")
	ref.Put(post, 8)
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Reach("packed")
}
