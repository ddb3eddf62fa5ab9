package c12

import (
	"gen/zs/st"

	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// C12_FixedRange: a field that its type cannot represent is an error.
func C12_FixedRange() {
	v := cs.FixedValue()
	_, w := hx.NewWriter()
	sv.Section("encode")
	err := v.MarshalZserio(w)
	sv.Assert((err == nil) == cs.FixedFits(v), "accepts-iff-in-range")
	sv.Reach("encoded")
}

// C12_VarRange: the same for variable-length fields.
func C12_VarRange() {
	v := &st.VarB{A: sv.U8("a") & 1, B: sv.U32("b"), C: sv.I32("c")}
	fits := sv.And(v.B < 1<<29, sv.And(v.C < 1<<28, v.C > -(1<<28)))
	_, w := hx.NewWriter()
	sv.Section("encode")
	err := v.MarshalZserio(w)
	sv.Assert((err == nil) == fits, "accepts-iff-in-range")
	sv.Reach("encoded")
}

// C12_NestedRange: and for fields of members, array elements, enums.
func C12_NestedRange() {
	bad := sv.U8("bad")
	sv.Assume(bad >= 8)
	var v cs.Message
	switch sv.Choose("where", 4) {
	case 0:
		v = &st.Names{E: st.Inner{X: bad}}
	case 1:
		v = &st.FixedArrays{A: make([]uint8, 2), B: make([]int8, 3), C: make([]uint16, 1), D: []st.Inner{{}, {X: bad}}, E: make([]bool, 3), F: make([]st.Colour, 2)}
	case 2:
		v = &st.Opt{D: &st.Inner{X: bad}}
	case 3:
		v = &st.Names{A: st.Colour(bad)}
	}
	_, w := hx.NewWriter()
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) != nil, "rejected")
	sv.Reach("rejected")
}

// C12_FixedLength: an array whose length is not the one of the schema is an error.
func C12_FixedLength() {
	n := func(want int) int { return []int{want, want + 1, want - 1}[sv.Choose("n", 3)] }
	a, b, c := n(2), n(3), n(1)
	v := &st.FixedArrays{A: make([]uint8, a), B: make([]int8, b), C: make([]uint16, c), D: make([]st.Inner, 2), E: make([]bool, 3), F: make([]st.Colour, 2)}
	d := n(2)
	v.D = make([]st.Inner, d)
	_, w := hx.NewWriter()
	sv.Section("encode")
	err := v.MarshalZserio(w)
	sv.Assert((err == nil) == (a == 2 && b == 3 && c == 1 && d == 2), "accepts-iff-declared-length")
	sv.Reach("encoded")
}

// C12_FieldLength: the same for a length that is an expression of other fields.
func C12_FieldLength() {
	n, m := sv.U8("n"), sv.I8("m")
	sv.Assume(sv.And(m >= 0, m < 8))
	sv.Assume(int(n)+int(m) < 256)
	l := [4]int{sv.Choose("a", 3), sv.Choose("b", 2), sv.Choose("c", 2), sv.Choose("d", 3)}
	v := &st.LenArrays{N: n, M: m, A: make([]uint8, l[0]), B: make([]st.Inner, l[1]), C: make([]uint8, l[2]), D: make([]uint16, l[3])}
	_, w := hx.NewWriter()
	sv.Section("encode")
	err := v.MarshalZserio(w)
	want := int(n) == l[0] && int(n) == l[1] && int(m) == l[2] && int(n)+int(m) == l[3]
	sv.Assert((err == nil) == want, "accepts-iff-declared-length")
	sv.Reach("encoded")
}
