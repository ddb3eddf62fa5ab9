// Package c25: default values.
//
//sv:bound the structs of schemas/df.zs: a default for each built-in type, for enums, bitmasks and subtypes of them, written as literals, constants, constant expressions and references to items
//sv:bound nested structs, subtypes of structs, parameterized structs, unions and choices; fields without a default, optional fields and arrays
//sv:bound all values that the fields had before; strings of 1 byte, arrays of 1 element, optional fields set or not
package c25

import (
	"gen/zs/df"

	"verif/sv"
)

func C25_Fields() {
	v := &df.D{}
	sv.Fill("before", v, 0)
	v.S, v.Hs, v.N = sv.Str("s", 1), sv.Str("hs", 1), df.Name(sv.Str("n", 1))
	v.P.S = sv.Str("ps", 1)
	v.Arr = sv.Bytes("arr", 1)
	v.Ins = []df.In{{X: sv.U8("x"), Y: sv.U8("y"), C: df.Color(sv.U8("c"))}}

	want := *v
	want.U8, want.U16, want.U32, want.U64 = 5, 65535, 1<<32-1, 1<<63-1
	want.I8, want.I16, want.I32, want.I64 = -128, -300, -599, -1<<63+1
	want.B5, want.K11, want.B40, want.Dyn, want.Idyn = 31, -1024, 1<<39, 3, -3
	want.V16, want.V32, want.V, want.Vs, want.Vi, want.Vi16, want.Vu32, want.Vi64, want.Vu64 = 32767, -5, 12, 8, -1, -2, 4, -6, 9
	want.F16, want.F32, want.F64 = 1.5, -2.5, 0.1
	want.T, want.F, want.S, want.Hs = true, false, "a\"b", "hello"
	want.C, want.L, want.Fl, want.Fl2 = 4, -300, 256, 3
	want.Z, want.Z2, want.Tint, want.N, want.Y, want.F2 = 9, 9, 3, "nm", true, 2
	want.In.X, want.In.C, want.Inner.X, want.Inner.C = 7, 200, 7, 200
	want.Val, want.Cmp, want.Tern, want.Nb = 201, true, -1, 4
	// what is shared with v must not change either
	if v.O != nil {
		o := *v.O
		want.O = &o
	}
	if v.Oin != nil {
		o := *v.Oin
		want.Oin = &o
	}
	want.Arr = append([]uint8(nil), v.Arr...)
	want.Ins = append([]df.In(nil), v.Ins...)

	sv.Assert(v.LoadDefaultValues() == nil, "error")
	sv.Assert(sv.Equal(v, &want), "values")
	sv.Reach("end")
}

// C25_Fresh: the defaults of a new value.
func C25_Fresh() {
	v := &df.D{}
	sv.Assert(v.LoadDefaultValues() == nil, "error")
	sv.Assert(v.None == 0 && v.O == nil && v.Arr == nil && v.Ins == nil && v.Oin == nil && v.Nc == 0 && v.Nf == 0, "others")
	sv.Assert(v.C == df.ColorGreen && v.Fl == df.FlagsC && v.Tint == df.Tint(df.ColorRed) && v.L == df.LevelLow, "items")
	sv.Assert(v.In.C == df.ColorBlue && v.In.X == 7 && v.In.Y == 0, "nested")
	sv.Assert(v.P == df.Plain{}, "plain")
}

func C25_Nested() {
	v := &df.HasPar{}
	sv.Fill("before", v, 0)
	want := *v
	want.P.A, want.E = 4, 2
	sv.Assert(v.LoadDefaultValues() == nil, "error")
	sv.Assert(sv.Equal(v, &want), "values")

	u := &df.HasU{}
	sv.Fill("u", u, 0)
	wu := *u
	wu.G = 1
	wu.U.B.X, wu.U.B.C = 7, 200
	wu.Ch.A.X, wu.Ch.A.C = 7, 200
	sv.Assert(u.LoadDefaultValues() == nil, "error")
	sv.Assert(sv.Equal(u, &wu), "values of a union and a choice")
	sv.Reach("end")
}

//sv:bound 19 string defaults: escape sequences, quotes, backslashes, control characters, characters of other scripts, and what Go, the template engine and the formatting of text treat in a special way

func C25_Texts() {
	v := &df.Texts{}
	for _, p := range []*string{&v.A, &v.B, &v.C, &v.D, &v.E, &v.F, &v.G, &v.H, &v.I, &v.J, &v.K, &v.L, &v.M, &v.N, &v.O, &v.Q, &v.R, &v.S} {
		*p = sv.Str("before", 1)
	}
	want := df.Texts{
		A: "back" + string(rune(92)) + "slash", B: "tab\x09new\x0aline\x0d\x0c", C: "100%d %s", D: "back\x60quote", E: "$HOME {{.}}",
		F: "q\x22q\x5c\x22q", G: "A\xc3\xa9\xe4\xb8\xad", H: "\xc3\xa9\xe4\xb8\xad", J: "a\x09b", K: "\x5cn", L: "it's", M: "// no", N: "/* no */",
		O: "a\x09bc\x5c", P: "c:\x5cnew\x5ctable", Q: "\x5cx41", R: "\x00\x7f", S: "\x5c",
	}
	sv.Assert(v.LoadDefaultValues() == nil, "error")
	sv.Assert(sv.Equal(v, &want), "values")
	sv.Assert(df.TAB == "a\x09b" && df.SLASH == "c:\x5cnew\x5ctable", "constants")
	sv.Reach("end")
}
