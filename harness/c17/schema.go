package c17

import (
	"gen/zs/cf"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// C17_Schema: constants from the schema text to the generated code.
func C17_Schema() {
	for i, c := range []struct{ got, want int64 }{
		{int64(cf.PREC1), 7}, {int64(cf.PREC2), 9}, {int64(cf.PREC3), 13}, {int64(cf.PREC4), 10},
		{int64(cf.PREC5), 4}, {int64(cf.PREC6), 32}, {int64(cf.PREC7), 32}, {int64(cf.PREC8), 27},
		{int64(cf.PREC9), 6}, {int64(cf.PREC10), 1},
		{int64(cf.NEG1), -2}, {int64(cf.NEG2), 9}, {int64(cf.NEG3), -3}, {int64(cf.NEG4), -1}, {int64(cf.NEG5), 10}, {int64(cf.NEG6), 6},
		{int64(cf.SHIFT), 48}, {int64(cf.TERN1), 10}, {int64(cf.TERN2), 2},
		{int64(cf.HEX), 255}, {int64(cf.OCT), 15}, {int64(cf.BIN), 10}, {int64(cf.BIN2), 5},
		{cf.LARGE, 9223372036854775807}, {cf.LOW, -9223372036854775807},
		{int64(cf.REF1), 7}, {int64(cf.REF2), 6}, {int64(cf.BASE), 3},
		{int64(cf.NUMB1), 3}, {int64(cf.NUMB2), 4}, {int64(cf.NUMB3), 0}, {int64(cf.NUMB4), 1},
		{int64(cf.VALUE1), 4}, {int64(cf.VALUE2), 6}, {int64(cf.COL), 5}, {int64(cf.FLG), 2},
		{int64(cf.ColorRed), 0}, {int64(cf.ColorGreen), 4}, {int64(cf.ColorBlue), 5}, {int64(cf.ColorDark), 40}, {int64(cf.ColorGray), 41},
		{int64(cf.OtherX), -3}, {int64(cf.OtherY), 40}, {int64(cf.OtherZ), -2},
		{int64(cf.FlagsA), 1}, {int64(cf.FlagsB), 2}, {int64(cf.FlagsC), 64}, {int64(cf.FlagsD), 128}, {int64(cf.FlagsE), 8},
	} {
		sv.Assert(c.got == c.want, "integer constant "+string(rune('A'+i)))
	}
	for i, c := range []struct{ got, want bool }{
		{cf.CMP1, true}, {cf.CMP2, true}, {cf.CMP3, false}, {cf.CMP4, true}, {cf.CMP5, true}, {cf.CMP6, true}, {cf.CMP7, true},
	} {
		sv.Assert(c.got == c.want, "bool constant "+string(rune('A'+i)))
	}
	for i, c := range []struct{ got, want float64 }{
		{cf.TERN3, 2.5}, {cf.FL1, 1.2e-7}, {cf.FL2, -1.5}, {cf.FL3, 2.25}, {cf.FL4, 3.5}, {cf.FL5, 1e100}, {float64(cf.FL6), 1.5}, {cf.FL7, 3.5}, {float64(cf.FL8), -0.5},
	} {
		sv.Assert(c.got == c.want, "float constant "+string(rune('A'+i)))
	}
	for i, c := range []struct{ got, want string }{
		{cf.STR1, "tab\there"}, {cf.STR2, "q\"uote\\"}, {cf.STR3, "AéA"}, {cf.STR4, "concat"},
	} {
		sv.Assert(c.got == c.want, "string constant "+string(rune('A'+i)))
	}
	sv.Reach("constants")
}

// C17_Uses: constants as widths, array lengths and in conditions.
func C17_Uses() {
	u := cf.Uses{A: sv.U8("a"), B: sv.I64("b"), C: make([]uint8, 7), D: sv.U64("d")}
	sv.Assume(sv.And(u.B >= -256, sv.And(u.B < 256, u.D < 8)))
	for i := range u.C {
		u.C[i] = sv.U8("c")
	}
	b, w := hx.NewWriter()
	sv.Section("encode")
	err := u.MarshalZserio(w)
	sv.Assert(err == nil, "accepts")
	length := int(w.BitPosition())
	sv.Assert(w.Close() == nil, "close")
	want := 8 + 9 + 7*8
	if u.A == 0 {
		want += 3
		sv.Reach("optional")
	}
	sv.Assert(length == want, "length")
	var got cf.Uses
	sv.Section("decode")
	sv.Assert(got.UnmarshalZserio(hx.NewReader(b.B)) == nil, "decodes")
	sv.Assert(sv.And(got.A == u.A, got.B == u.B), "values")
	for i := range u.C {
		sv.Assert(got.C[i] == u.C[i], "array")
	}
	if u.A == 0 {
		sv.Assert(got.D == u.D, "optional value")
	}
}
