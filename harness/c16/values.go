package c16

import (
	"gen/zs/ex"
	"verif/sv"
)

func C16_NumsAdd() {
	v := nums()
	sv.Assert(v.Add() == (I(v.A)+I(v.B)), "Add")
}

func C16_NumsSub() {
	v := nums()
	sv.Assert(v.Sub() == (I(v.A)-I(v.B)), "Sub")
}

func C16_NumsMul() {
	v := nums()
	sv.Assert(v.Mul() == (I(v.A)*I(v.B)), "Mul")
}

func C16_NumsDiv() {
	v := nums()
	sv.Assume(v.B != 0)
	sv.Assert(v.Div() == (I(v.A)/I(v.B)), "Div")
}

func C16_NumsMod() {
	v := nums()
	sv.Assume(v.B != 0)
	sv.Assert(v.Mod() == (I(v.A)%I(v.B)), "Mod")
}

func C16_NumsMix1() {
	v := nums()
	sv.Assert(v.Mix1() == (I(v.A)+I(v.E)), "Mix1")
}

func C16_NumsMix2() {
	v := nums()
	sv.Assert(v.Mix2() == (I(v.D)-I(v.G)), "Mix2")
}

func C16_NumsMix3() {
	v := nums()
	sv.Assert(v.Mix3() == (I(v.F)-I(v.G)), "Mix3")
}

func C16_NumsMix4() {
	v := nums()
	sv.Assert(v.Mix4() == (I(v.C)*I(v.D)), "Mix4")
}

func C16_NumsMix5() {
	v := nums()
	sv.Assert(v.Mix5() == (I(v.K)+I(v.J)-I(v.L)), "Mix5")
}

func C16_NumsMix6() {
	v := nums()
	sv.Assume(v.C != 0)
	sv.Assert(v.Mix6() == (I(v.M)/I(v.C)), "Mix6")
}

func C16_NumsMix7() {
	v := nums()
	sv.Assert(v.Mix7() == (I(v.O)-I(v.A)), "Mix7")
}

func C16_NumsMix8() {
	v := nums()
	sv.Assume(v.H <= ^uint64(0)-255)
	sv.Assert(v.Mix8() == (v.H+uint64(v.A)), "Mix8")
}

func C16_NumsMix9() {
	v := nums()
	sv.Assume(v.N < 1<<56)
	sv.Assert(v.Mix9() == (v.N*uint64(v.S)), "Mix9")
}

func C16_NumsMix10() {
	v := nums()
	sv.Assume(v.I > -1<<62 && v.I < 1<<62)
	sv.Assert(v.Mix10() == (v.I-I(v.E)), "Mix10")
}

func C16_NumsMix11() {
	v := nums()
	sv.Assert(v.Mix11() == (I(v.Q)+I(v.C)), "Mix11")
}

func C16_NumsMix12() {
	v := nums()
	sv.Assume(v.C >= 0 || v.P >= 128)
	sv.Assert(v.Mix12() == (v.P+uint64(I(v.C))), "Mix12")
}

func C16_NumsLit1() {
	v := nums()
	sv.Assert(v.Lit1() == (I(v.A)+300), "Lit1")
}

func C16_NumsLit2() {
	v := nums()
	sv.Assert(v.Lit2() == (1000-I(v.A)), "Lit2")
}

func C16_NumsLit3() {
	v := nums()
	sv.Assert(v.Lit3() == (I(v.C)*-7), "Lit3")
}

func C16_NumsLit4() {
	v := nums()
	sv.Assert(v.Lit4() == (I(v.A)-2), "Lit4")
}

func C16_NumsLit5() {
	v := nums()
	sv.Assume(v.H <= ^uint64(0)-5)
	sv.Assert(v.Lit5() == (v.H+5), "Lit5")
}

func C16_NumsLit6() {
	v := nums()
	sv.Assume(v.H >= 7)
	sv.Assert(v.Lit6() == (v.H-7), "Lit6")
}

func C16_NumsNeg() {
	v := nums()
	sv.Assert(v.Neg() == (-I(v.A)), "Neg")
}

func C16_NumsNegs() {
	v := nums()
	sv.Assert(v.Negs() == (I(v.B)-I(v.C)), "Negs")
}

func C16_NumsNot1() {
	v := nums()
	sv.Assert(v.Not1() == (-I(v.A)-1), "Not1")
}

func C16_NumsNot2() {
	v := nums()
	sv.Assert(v.Not2() == (-I(v.C)-2), "Not2")
}

func C16_NumsNot3() {
	v := nums()
	sv.Assert(v.Not3() == (^uint64(0)-v.H), "Not3")
}

func C16_NumsPrec1() {
	v := nums()
	sv.Assert(v.Prec1() == (I(v.A)&(I(v.B)+1)), "Prec1")
}

func C16_NumsPrec2() {
	v := nums()
	sv.Assert(v.Prec2() == (I(v.A)*4), "Prec2")
}

func C16_NumsPrec3() {
	v := nums()
	sv.Assert(v.Prec3() == (I(v.A)^(I(v.B)&I(v.D))), "Prec3")
}

func C16_NumsPrec4() {
	v := nums()
	sv.Assert(v.Prec4() == (I(v.A)|(I(v.B)^I(v.D))), "Prec4")
}

func C16_NumsPrec5() {
	v := nums()
	sv.Assert(v.Prec5() == (I(v.A)-I(v.B)+I(v.D)), "Prec5")
}

func C16_NumsPrec6() {
	v := nums()
	sv.Assert(v.Prec6() == ((I(v.A)*(I(v.B)+I(v.D)))%7), "Prec6")
}

func C16_NumsPrec7() {
	v := nums()
	sv.Assert(v.Prec7() == (-I(v.A)-I(v.B)), "Prec7")
}

func C16_NumsPrec8() {
	v := nums()
	sv.Assert(v.Prec8() == ((v.A&1) == v.B), "Prec8")
}

func C16_NumsPrec9() {
	v := nums()
	sv.Assert(v.Prec9() == (((v.A&1) == 0 && v.B > 3) || v.D < 7), "Prec9")
}

func C16_NumsBit1() {
	v := nums()
	sv.Assert(v.Bit1() == (I(v.A)&I(v.D)), "Bit1")
}

func C16_NumsBit2() {
	v := nums()
	sv.Assert(v.Bit2() == (I(v.C)|I(v.D)), "Bit2")
}

func C16_NumsBit3() {
	v := nums()
	sv.Assert(v.Bit3() == ((I(v.E)^255)&4095), "Bit3")
}

func C16_NumsBit4() {
	v := nums()
	sv.Assert(v.Bit4() == (v.H-v.H%8+v.H&1), "Bit4")
}

func C16_NumsSh1() {
	v := nums()
	sv.Assert(v.Sh1() == (I(v.A)*16), "Sh1")
}

func C16_NumsSh2() {
	v := nums()
	sv.Assert(v.Sh2() == (pow(v.J)), "Sh2")
}

func C16_NumsSh3() {
	v := nums()
	sv.Assert(v.Sh3() == (quarter(v.C)), "Sh3")
}

func C16_NumsSh4() {
	v := nums()
	sv.Assert(v.Sh4() == ((I(v.A)+1)*pow(v.J)), "Sh4")
}

func C16_NumsSh5() {
	v := nums()
	sv.Assert(v.Sh5() == (v.H>>v.A), "Sh5")
}

func C16_NumsCmp1() {
	v := nums()
	sv.Assert(v.Cmp1() == (I(v.A) < I(v.C)), "Cmp1")
}

func C16_NumsCmp2() {
	v := nums()
	sv.Assert(v.Cmp2() == (I(v.E) >= I(v.D)), "Cmp2")
}

func C16_NumsCmp3() {
	v := nums()
	sv.Assert(v.Cmp3() == (I(v.F) == I(v.G)), "Cmp3")
}

func C16_NumsCmp4() {
	v := nums()
	sv.Assert(v.Cmp4() == (true), "Cmp4")
}

func C16_NumsCmp5() {
	v := nums()
	sv.Assert(v.Cmp5() == (v.I <= I(v.E)), "Cmp5")
}

func C16_NumsCmp6() {
	v := nums()
	sv.Assert(v.Cmp6() == (v.H > v.N), "Cmp6")
}

func C16_NumsCmp7() {
	v := nums()
	sv.Assert(v.Cmp7() == (v.A < v.B), "Cmp7")
}

func C16_NumsCmp8() {
	v := nums()
	sv.Assert(v.Cmp8() == (uint8(v.S) == v.A), "Cmp8")
}

func C16_NumsCmp9() {
	v := nums()
	sv.Assert(v.Cmp9() == (I(v.A)+I(v.B) > 300), "Cmp9")
}

func C16_NumsCmp10() {
	v := nums()
	sv.Assert(v.Cmp10() == (v.H >= uint64(v.A)), "Cmp10")
}

func C16_NumsCmp11() {
	v := nums()
	sv.Assert(v.Cmp11() == (true), "Cmp11")
}

func C16_NumsTern1() {
	v := nums()
	sv.Assert(v.Tern1() == (pick(v.A > v.B, I(v.A), I(v.C))), "Tern1")
}

func C16_NumsTern2() {
	v := nums()
	sv.Assert(v.Tern2() == (pick(v.A > v.B, I(v.D), 5)+1), "Tern2")
}

func C16_NumsTern3() {
	v := nums()
	sv.Assert(v.Tern3() == (pick(v.A > v.B, pick(uint16(v.A) < v.D, 1, 2), 3)), "Tern3")
}

func C16_NumsTern4() {
	v := nums()
	sv.Assert(v.Tern4() == (uint64(pick(v.C > 0, I(v.H), 5))), "Tern4")
}

func C16_NumsBits1() {
	v := nums()
	sv.Assert(v.Bits1() == (uint8(numbits(uint64(v.A)))), "Bits1")
}

func C16_NumsBits2() {
	v := nums()
	sv.Assert(v.Bits2() == (numbits(v.H)+I(v.A)), "Bits2")
}

func C16_NumsNarrow() {
	v := nums()
	sv.Assert(v.Narrow() == (uint8((I(v.A)+I(v.B))/2)), "Narrow")
}

func C16_NumsCall() {
	v := nums()
	sv.Assert(v.Call() == (I(v.A)+I(v.B)+(I(v.A)+I(v.B))/2*2), "Call")
}

func C16_OthersEn1() {
	v := others()
	sv.Assert(v.En1() == (v.M == 1), "En1")
}

func C16_OthersEn2() {
	v := others()
	sv.Assert(v.En2() == (uint8(v.M) != uint8(v.M2)), "En2")
}

func C16_OthersEn3() {
	v := others()
	sv.Assert(v.En3() == (I(v.M)+300), "En3")
}

func C16_OthersEn4() {
	v := others()
	sv.Assert(v.En4() == (I(v.L)-I(v.M)), "En4")
}

func C16_OthersEn5() {
	v := others()
	sv.Assert(v.En5() == (v.L < 0), "En5")
}

func C16_OthersEn6() {
	v := others()
	sv.Assert(v.En6() == (v.M2 == 9), "En6")
}

func C16_OthersBm1() {
	v := others()
	sv.Assert(v.Bm1() == (v.C&2 != 0), "Bm1")
}

func C16_OthersBm2() {
	v := others()
	sv.Assert(v.Bm2() == (v.C&1 == 1), "Bm2")
}

func C16_OthersBm3() {
	v := others()
	sv.Assert(v.Bm3() == (v.C == 5), "Bm3")
}

func C16_OthersBm4() {
	v := others()
	sv.Assert(v.Bm4() == (v.C&1 == 1 && v.C&4 == 0), "Bm4")
}

func C16_OthersBm5() {
	v := others()
	sv.Assert(v.Bm5() == (I(v.C)+1), "Bm5")
}

func C16_OthersBm6() {
	v := others()
	sv.Assert(v.Bm6() == (v.C2&2 != 0), "Bm6")
}

func C16_OthersBm7() {
	v := others()
	sv.Assert(v.Bm7() == ((uint8(v.C)|uint8(v.C2))&4 != 0), "Bm7")
}

func C16_OthersBo1() {
	v := others()
	sv.Assert(v.Bo1() == (v.T && bool(v.F)), "Bo1")
}

func C16_OthersBo2() {
	v := others()
	sv.Assert(v.Bo2() == (v.T == bool(v.F)), "Bo2")
}

func C16_OthersBo3() {
	v := others()
	sv.Assert(v.Bo3() == (!bool(v.F) || v.T), "Bo3")
}

func C16_OthersBo4() {
	v := others()
	sv.Assert(v.Bo4() == (bool(v.F) == v.T && v.T || !v.T), "Bo4")
}

func C16_OthersBo5() {
	v := others()
	sv.Assert(v.Bo5() == (v.T != (v.A > 3)), "Bo5")
}

func C16_OthersSt1() {
	v := others()
	sv.Assert(v.St1() == (v.S == string(v.Z)), "St1")
}

func C16_OthersSt2() {
	v := others()
	sv.Assert(v.St2() == (v.S == "abc"), "St2")
}

func C16_OthersSt3() {
	v := others()
	sv.Assert(v.St3() == (v.S+string(v.Z)), "St3")
}

func C16_OthersIn1() {
	v := others()
	sv.Assert(v.In1() == (I(v.N.X)+1), "In1")
}

func C16_OthersIn2() {
	v := others()
	sv.Assert(v.In2() == (v.N.M == 1), "In2")
}

func C16_OthersAr1() {
	v := others()
	sv.Assert(v.Ar1() == (I(len(v.Xs))+I(v.Len)), "Ar1")
}

func C16_OthersAr2() {
	v := others()
	sv.Assume(len(v.Xs) >= 2)
	sv.Assert(v.Ar2() == (I(v.Xs[0])+I(v.Xs[1])), "Ar2")
}

func C16_OthersAr3() {
	v := others()
	sv.Assume(v.Len > 0 && int(v.Len) <= len(v.Ins))
	sv.Assert(v.Ar3() == (I(v.Ins[sv.Concrete(int(v.Len)-1)].X)), "Ar3")
}

func C16_OthersAr4() {
	v := others()
	sv.Assume(len(v.Ins) > 0)
	sv.Assert(v.Ar4() == (v.Ins[0].M == 9), "Ar4")
}

func C16_OthersTern1() {
	v := others()
	sv.Assert(v.Tern1() == (ex.Mode(pick(v.T, I(v.M), 1))), "Tern1")
}

func C16_OthersTern2() {
	v := others()
	sv.Assert(v.Tern2() == (pick(v.T, I(v.M), I(v.M2)) == 0), "Tern2")
}

func C16_OthersTern3() {
	v := others()
	sv.Assert(v.Tern3() == (str(v.T, v.S, "no")), "Tern3")
}

func C16_OthersConst1() {
	v := others()
	sv.Assert(v.Const1() == (10), "Const1")
}

func C16_OthersFl1() {
	v := floats()
	sv.Assert(v.Fl1() == (v.Fl < 1.5), "Fl1")
}

func C16_OthersFl2() {
	v := floats()
	sv.Assert(v.Fl2() == (float64(v.Fl) < v.Db), "Fl2")
}

func C16_OthersFl3() {
	v := floats()
	sv.Assert(same(v.Fl3(), float64(v.Fl)+v.Db), "Fl3")
}

func C16_OthersFl4() {
	v := floats()
	sv.Assert(same(v.Fl4(), v.Db*float64(v.A)), "Fl4")
}

func C16_OthersFl5() {
	v := floats()
	sv.Assert(same(v.Fl5(), -v.Db), "Fl5")
}

func C16_OthersFl6() {
	v := floats()
	sv.Assert(same(v.Fl6(), float64(v.A)*1.5), "Fl6")
}
