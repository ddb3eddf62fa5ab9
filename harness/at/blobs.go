package at

import (
	"errors"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// blob chooses a large string, bytes or extern value with a few arbitrary bytes.
func blob() (write func(zserio.Writer) error, read func(zserio.Reader) error) {
	sv.Long()
	n := []int{4097, 12289}[sv.Choose("large", 2)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(3 * i)
	}
	b[0], b[n/2], b[4096], b[n-1] = sv.U8("b"), sv.U8("b"), sv.U8("b"), sv.U8("b")
	switch sv.Choose("kind", 3) {
	case 0:
		return func(w zserio.Writer) error { return ztype.WriteString(w, string(b)) },
			func(r zserio.Reader) error { _, err := ztype.ReadString(r); return err }
	case 1:
		return func(w zserio.Writer) error {
				return ztype.WriteBytes(w, &ztype.BytesType{Buffer: b, ByteSize: uint64(n)})
			},
			func(r zserio.Reader) error { _, err := ztype.ReadBytes(r); return err }
	}
	return func(w zserio.Writer) error {
			return ztype.WriteExtern(w, &ztype.ExternType{Buffer: b, BitSize: uint64(8*n - 3)})
		},
		func(r zserio.Reader) error { _, err := ztype.ReadExtern(r); return err }
}

// BlobFailSink: a sink that fails within a large value is reported.
func BlobFailSink() {
	write, _ := blob()
	b, w := hx.NewWriter()
	off := 3 * sv.Choose("offset", 2)
	sv.Assert(w.WriteBits(1, uint8(off)) == nil && write(w) == nil && w.Close() == nil, "accepts")
	left := places(len(b.B))
	sv.Section("encode")
	sink := &hx.FailBuf{Left: left, Recovers: sv.Bool("recovers")}
	w = zstream.NewWriter(sink)
	err := w.WriteBits(1, uint8(off))
	if err == nil {
		err = write(w)
	}
	err2 := w.Close()
	sv.Assert(err != nil || err2 != nil, "reports-failure")
	sv.Assert(len(sink.B) >= left && sv.BytesEqual(sink.B[:left], b.B[:left]), "prefix-accepted")
	if err != nil {
		sv.Assert(errors.Is(err, hx.ErrSink), "reports-the-cause")
	}
	sv.Reach("failed")
}

// BlobTruncated: a large value that is cut is an error.
func BlobTruncated() {
	write, read := blob()
	b, w := hx.NewWriter()
	off := 3 * sv.Choose("offset", 2)
	sv.Assert(w.WriteBits(1, uint8(off)) == nil && write(w) == nil && w.Close() == nil, "accepts")
	cut := places(len(b.B))
	sv.Section("decode")
	r := hx.NewReader(b.B[:cut])
	_, err := r.ReadBits(uint8(off))
	if err == nil {
		err = read(r)
	}
	sv.Assert(err != nil, "reports-truncation")
	sv.Reach("truncated")
}
