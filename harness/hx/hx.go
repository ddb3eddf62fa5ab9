// Package hx has what the harnesses share: byte sinks and sources, and reference
// encodings written from the zserio bit stream specification.
package hx

import (
	"bytes"
	"errors"
	"io"

	"github.com/woven-planet/go-zserio/zstream"
)

// Buf is a plain in-memory sink.
type Buf struct{ B []byte }

func (b *Buf) Write(p []byte) (int, error) {
	b.B = append(b.B, p...)
	return len(p), nil
}

func (b *Buf) WriteByte(c byte) error {
	b.B = append(b.B, c)
	return nil
}

// ErrSink is what a failing sink returns.
var ErrSink = errors.New("sink failed")

// FailBuf accepts Left bytes, then every write fails, or only the next one if it
// recovers.
type FailBuf struct {
	B        []byte
	Left     int
	Recovers bool
	Failed   bool
}

func (b *FailBuf) Write(p []byte) (int, error) {
	for i, c := range p {
		if b.WriteByte(c) != nil {
			return i, ErrSink
		}
	}
	return len(p), nil
}

func (b *FailBuf) WriteByte(c byte) error {
	if b.Left <= 0 && !(b.Failed && b.Recovers) {
		b.Failed = true
		return ErrSink
	}
	b.Left--
	b.B = append(b.B, c)
	return nil
}

// NewWriter returns a bit writer and its sink.
func NewWriter() (*Buf, *zstream.BitWriter) {
	b := &Buf{}
	return b, zstream.NewWriter(b)
}

// NewReader returns a bit reader of b.
func NewReader(b []byte) *zstream.BitReader {
	return zstream.NewReader(bytes.NewReader(b))
}

// AtEnd tells whether r has no whole byte left; it consumes one if there is.
func AtEnd(r *zstream.BitReader) bool {
	_, err := r.ReadByte()
	return err == io.EOF || err == io.ErrUnexpectedEOF
}

// Bits is a reference bit stream: one element for each bit, most significant first.
type Bits struct{ b []byte }

// Put appends the n lowest bits of v.
func (s *Bits) Put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		s.b = append(s.b, byte(v>>uint(i))&1)
	}
}

// PutBytes appends whole bytes.
func (s *Bits) PutBytes(p []byte) {
	for _, c := range p {
		s.Put(uint64(c), 8)
	}
}

// Align pads with zero bits to a multiple of n.
func (s *Bits) Align(n int) {
	for len(s.b)%n != 0 {
		s.b = append(s.b, 0)
	}
}

// Len is the number of bits.
func (s *Bits) Len() int { return len(s.b) }

// Bytes returns the stream padded with zero bits.
func (s *Bits) Bytes() []byte {
	out := make([]byte, (len(s.b)+7)/8)
	for i, c := range s.b {
		out[i/8] |= c << uint(7-i%8)
	}
	return out
}

// VarUintBytes is the number of bytes of a value in an unsigned variable-length
// type of max bytes: every byte but the max-th has 7 payload bits, that has 8.
func VarUintBytes(v uint64, max int) int {
	for n := 1; n < max; n++ {
		if v < 1<<uint(7*n) {
			return n
		}
	}
	return max
}

// PutVarUint appends the zserio encoding of v in a type of max bytes.
func (s *Bits) PutVarUint(v uint64, max int) {
	n := VarUintBytes(v, max)
	last := 7
	if n == max {
		last = 8
	}
	for i := 1; i < n; i++ {
		s.Put(1, 1)
		s.Put(v>>uint(last+7*(n-1-i)), 7)
	}
	if last == 7 {
		s.Put(0, 1)
	}
	s.Put(v, last)
}

// VarIntBytes is VarUintBytes for the signed types: the first byte has 6 payload bits.
func VarIntBytes(abs uint64, max int) int {
	for n := 1; n < max; n++ {
		if abs < 1<<uint(7*n-1) {
			return n
		}
	}
	return max
}

// PutVarInt appends the zserio encoding of a sign and a magnitude.
func (s *Bits) PutVarInt(v int64, max int) {
	neg := v < 0
	abs := uint64(v)
	if neg {
		abs = uint64(-v)
	}
	if max == 9 && neg && abs == 1<<63 { // the varint minimum is "minus zero"
		s.Put(0x80, 8)
		return
	}
	n := VarIntBytes(abs, max)
	last := 7
	if n == max {
		last = 8
	}
	if n == 1 {
		last = 6
	}
	sign := uint64(0)
	if neg {
		sign = 1
	}
	s.Put(sign, 1)
	if n == 1 {
		s.Put(0, 1)
		s.Put(abs, 6)
		return
	}
	s.Put(1, 1)
	s.Put(abs>>uint(last+7*(n-2)), 6)
	for i := 2; i < n; i++ {
		s.Put(1, 1)
		s.Put(abs>>uint(last+7*(n-1-i)), 7)
	}
	if last == 7 {
		s.Put(0, 1)
	}
	s.Put(abs, last)
}
