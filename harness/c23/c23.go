// Package c23: Marshal and Unmarshal.
//
//sv:bound messages of 0..3 parts, each 0..8 arbitrary bits (so 0..24 bits), or a part that fails at any place, before or after its bits
//sv:bound followed by 0..2 arbitrary bytes when decoding; truncated at any byte
//sv:bound the structs, choices and unions Names, Holder, Union and AutoArrays of the corpus as messages
package c23

import (
	"bytes"
	"errors"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

var errPart = errors.New("part failed")

type part struct {
	v uint64
	n int
}

// msg writes its parts and fails at part fail.
type msg struct {
	parts []part
	fail  int
	late  bool
}

func (m *msg) MarshalZserio(w zserio.Writer) error {
	for i, p := range m.parts {
		if i == m.fail && !m.late {
			return errPart
		}
		if err := w.WriteBits(p.v, uint8(p.n)); err != nil {
			return err
		}
		if i == m.fail && m.late {
			return errPart
		}
	}
	return nil
}

func (m *msg) ZserioBitSize(int) (int, error) { return 0, nil }

func (m *msg) UnmarshalZserio(r zserio.Reader) error {
	for i := range m.parts {
		if i == m.fail {
			return errPart
		}
		v, err := r.ReadBits(uint8(m.parts[i].n))
		if err != nil {
			return err
		}
		m.parts[i].v = v
	}
	return nil
}

func message() *msg {
	m := &msg{fail: -1}
	n := sv.Choose("parts", 4)
	for i := 0; i < n; i++ {
		w := sv.Choose("bits", 9)
		m.parts = append(m.parts, part{uint64(sv.U8("v")) & (1<<uint(w) - 1), w})
	}
	return m
}

func reference(m *msg) *hx.Bits {
	b := &hx.Bits{}
	for _, p := range m.parts {
		b.Put(p.v, p.n)
	}
	return b
}

// C23_Marshal: exactly the message's bits, padded with zero bits to a whole byte.
func C23_Marshal() {
	m := message()
	sv.Section("encode")
	got, err := zserio.Marshal(m)
	sv.Assert(err == nil, "accepts")
	ref := reference(m).Bytes()
	sv.Assert(len(got) == len(ref) && sv.BytesEqual(got, ref), "bytes")
	sv.Reach("encoded")
}

// C23_Failure: no bytes and the part's error when a part fails.
func C23_Failure() {
	m := message()
	if len(m.parts) == 0 {
		return
	}
	m.fail, m.late = sv.Choose("fail", len(m.parts)), sv.Choose("late", 2) == 1
	sv.Section("encode")
	got, err := zserio.Marshal(m)
	sv.Assert(len(got) == 0, "no-bytes")
	sv.Assert(err != nil && errors.Is(err, errPart), "error")
	sv.Reach("failed")
}

// C23_Unmarshal: restores the message, whatever follows it.
func C23_Unmarshal() {
	m := message()
	in := append(reference(m).Bytes(), sv.Bytes("more", sv.Choose("more", 3))...)
	got := &msg{fail: -1}
	for _, p := range m.parts {
		got.parts = append(got.parts, part{0, p.n})
	}
	sv.Section("decode")
	sv.Assert(zserio.Unmarshal(in, got) == nil, "accepts")
	for i, p := range m.parts {
		sv.Assert(got.parts[i].v == p.v, "value")
	}
	sv.Reach("decoded")
}

// C23_Truncated: an incomplete message is an error.
func C23_Truncated() {
	m := message()
	in := reference(m).Bytes()
	if len(in) == 0 {
		return
	}
	in = in[:sv.Choose("kept", len(in))]
	sv.Section("decode")
	sv.Assert(zserio.Unmarshal(in, m) != nil, "rejects")
	sv.Reach("rejected")
}

// C23_PartError: the error of a part is reported.
func C23_PartError() {
	m := message()
	if len(m.parts) == 0 {
		return
	}
	in := reference(m).Bytes()
	m.fail = sv.Choose("fail", len(m.parts))
	sv.Section("decode")
	err := zserio.Unmarshal(in, m)
	sv.Assert(err != nil && errors.Is(err, errPart), "error")
	sv.Reach("rejected")
}

// whole: generated messages through Marshal and Unmarshal; a second message is
// independent of the first.
func whole(c cs.Case) {
	v := c.Make()
	sv.Section("encode")
	got, err := zserio.Marshal(v)
	sv.Assert(err == nil, "accepts")
	ref := &hx.Bits{}
	c.Put(ref, v)
	sv.Assert(len(got) == len(ref.Bytes()) && sv.BytesEqual(got, ref.Bytes()), "bytes")
	keep := bytes.Clone(got)
	_, err = zserio.Marshal(c.Fresh(v))
	sv.Assert(err == nil || err != nil, "any")
	sv.Assert(sv.BytesEqual(got, keep), "not-overwritten")
	sv.Section("decode")
	back := c.Fresh(v)
	sv.Assert(zserio.Unmarshal(append(keep, sv.Bytes("more", 1)...), back) == nil, "decodes")
	c.Norm(back)
	sv.Assert(c.Eq(v, back), "round-trip")
	sv.Reach("round-trips")
}

func C23_Names()      { whole(cs.Names()) }
func C23_Holder()     { whole(cs.Holder()) }
func C23_Union()      { whole(cs.Union()) }
func C23_AutoArrays() { whole(cs.AutoArrays()) }

// C23_Error: a generated message that cannot be encoded gives no bytes.
func C23_Error() {
	v := cs.FixedValue()
	sv.Section("encode")
	got, err := zserio.Marshal(v)
	fits := cs.FixedFits(v)
	sv.Assert((err == nil) == fits, "accepts-iff-in-range")
	sv.Assert(err == nil || len(got) == 0, "no-bytes")
	sv.Reach("encoded")
}
