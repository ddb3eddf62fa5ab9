// Written by tools/genc16u.py.

package c16

import (
	"gen/zs/ul"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

//sv:bound 162 expressions over unsigned values of 64 bits (uint64, varuint, bit:64, bit<n>, subtypes, members, elements, functions), of which 14 as conditions, lengths and selectors: all values, those above 2^63 as well (schemas/ul.zs)

func unsigned() *ul.Ops {
	return &ul.Ops{K: 64, A: sv.U64("a"), B: sv.U64("b"), C: sv.U64("c"), D: sv.U64("d"), E: ul.Big(sv.U64("e")),
		N: ul.In{U: sv.U64("u"), W: ul.Wide(sv.U64("w"))}, Xs: []uint64{sv.U64("x")}, S: sv.U8("s"), T: sv.U16("t"), H: sv.U8("h") & 63}
}

func C16_Unsigned000() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y0() == (v.A/uint64(v.S)), "a / s")
}

func C16_Unsigned001() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y1() == (v.B/uint64(v.S)), "b / s")
}

func C16_Unsigned002() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y2() == (v.C/uint64(v.S)), "c / s")
}

func C16_Unsigned003() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y3() == (v.D/uint64(v.S)), "d / s")
}

func C16_Unsigned004() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y4() == (uint64(v.E)/uint64(v.S)), "e / s")
}

func C16_Unsigned005() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y5() == (v.N.U/uint64(v.S)), "n.u / s")
}

func C16_Unsigned006() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y6() == (uint64(v.N.W)/uint64(v.S)), "n.w / s")
}

func C16_Unsigned007() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y7() == (v.Xs[0]/uint64(v.S)), "xs[0] / s")
}

func C16_Unsigned008() {
	v := unsigned()
	sv.Assume(v.S != 0)
	sv.Assert(v.Y8() == (v.A/uint64(v.S)), "fa() / s")
}

func C16_Unsigned009() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y9() == (v.A%uint64(v.T)), "a % t")
}

func C16_Unsigned010() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y10() == (v.B%uint64(v.T)), "b % t")
}

func C16_Unsigned011() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y11() == (v.C%uint64(v.T)), "c % t")
}

func C16_Unsigned012() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y12() == (v.D%uint64(v.T)), "d % t")
}

func C16_Unsigned013() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y13() == (uint64(v.E)%uint64(v.T)), "e % t")
}

func C16_Unsigned014() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y14() == (v.N.U%uint64(v.T)), "n.u % t")
}

func C16_Unsigned015() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y15() == (uint64(v.N.W)%uint64(v.T)), "n.w % t")
}

func C16_Unsigned016() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y16() == (v.Xs[0]%uint64(v.T)), "xs[0] % t")
}

func C16_Unsigned017() {
	v := unsigned()
	sv.Assume(v.T != 0)
	sv.Assert(v.Y17() == (v.A%uint64(v.T)), "fa() % t")
}

func C16_Unsigned018() {
	v := unsigned()
	sv.Assert(v.Y18() == (v.A>>v.H), "a >> h")
}

func C16_Unsigned019() {
	v := unsigned()
	sv.Assert(v.Y19() == (v.B>>v.H), "b >> h")
}

func C16_Unsigned020() {
	v := unsigned()
	sv.Assert(v.Y20() == (v.C>>v.H), "c >> h")
}

func C16_Unsigned021() {
	v := unsigned()
	sv.Assert(v.Y21() == (v.D>>v.H), "d >> h")
}

func C16_Unsigned022() {
	v := unsigned()
	sv.Assert(v.Y22() == (uint64(v.E)>>v.H), "e >> h")
}

func C16_Unsigned023() {
	v := unsigned()
	sv.Assert(v.Y23() == (v.N.U>>v.H), "n.u >> h")
}

func C16_Unsigned024() {
	v := unsigned()
	sv.Assert(v.Y24() == (uint64(v.N.W)>>v.H), "n.w >> h")
}

func C16_Unsigned025() {
	v := unsigned()
	sv.Assert(v.Y25() == (v.Xs[0]>>v.H), "xs[0] >> h")
}

func C16_Unsigned026() {
	v := unsigned()
	sv.Assert(v.Y26() == (v.A>>v.H), "fa() >> h")
}

func C16_Unsigned027() {
	v := unsigned()
	sv.Assert(v.Y27() == (v.A/3), "a / 3")
}

func C16_Unsigned028() {
	v := unsigned()
	sv.Assert(v.Y28() == (v.B/3), "b / 3")
}

func C16_Unsigned029() {
	v := unsigned()
	sv.Assert(v.Y29() == (v.C/3), "c / 3")
}

func C16_Unsigned030() {
	v := unsigned()
	sv.Assert(v.Y30() == (v.D/3), "d / 3")
}

func C16_Unsigned031() {
	v := unsigned()
	sv.Assert(v.Y31() == (uint64(v.E)/3), "e / 3")
}

func C16_Unsigned032() {
	v := unsigned()
	sv.Assert(v.Y32() == (v.N.U/3), "n.u / 3")
}

func C16_Unsigned033() {
	v := unsigned()
	sv.Assert(v.Y33() == (uint64(v.N.W)/3), "n.w / 3")
}

func C16_Unsigned034() {
	v := unsigned()
	sv.Assert(v.Y34() == (v.Xs[0]/3), "xs[0] / 3")
}

func C16_Unsigned035() {
	v := unsigned()
	sv.Assert(v.Y35() == (v.A/3), "fa() / 3")
}

func C16_Unsigned036() {
	v := unsigned()
	sv.Assert(v.Y36() == (v.A%10), "a % 10")
}

func C16_Unsigned037() {
	v := unsigned()
	sv.Assert(v.Y37() == (v.B%10), "b % 10")
}

func C16_Unsigned038() {
	v := unsigned()
	sv.Assert(v.Y38() == (v.C%10), "c % 10")
}

func C16_Unsigned039() {
	v := unsigned()
	sv.Assert(v.Y39() == (v.D%10), "d % 10")
}

func C16_Unsigned040() {
	v := unsigned()
	sv.Assert(v.Y40() == (uint64(v.E)%10), "e % 10")
}

func C16_Unsigned041() {
	v := unsigned()
	sv.Assert(v.Y41() == (v.N.U%10), "n.u % 10")
}

func C16_Unsigned042() {
	v := unsigned()
	sv.Assert(v.Y42() == (uint64(v.N.W)%10), "n.w % 10")
}

func C16_Unsigned043() {
	v := unsigned()
	sv.Assert(v.Y43() == (v.Xs[0]%10), "xs[0] % 10")
}

func C16_Unsigned044() {
	v := unsigned()
	sv.Assert(v.Y44() == (v.A%10), "fa() % 10")
}

func C16_Unsigned045() {
	v := unsigned()
	sv.Assert(v.Y45() == (uint64(v.S)+v.A/2), "s - 0 + a / 2")
}

func C16_Unsigned046() {
	v := unsigned()
	sv.Assert(v.Y46() == (uint64(v.S)+v.B/2), "s - 0 + b / 2")
}

func C16_Unsigned047() {
	v := unsigned()
	sv.Assert(v.Y47() == (uint64(v.S)+v.C/2), "s - 0 + c / 2")
}

func C16_Unsigned048() {
	v := unsigned()
	sv.Assert(v.Y48() == (uint64(v.S)+v.D/2), "s - 0 + d / 2")
}

func C16_Unsigned049() {
	v := unsigned()
	sv.Assert(v.Y49() == (uint64(v.S)+uint64(v.E)/2), "s - 0 + e / 2")
}

func C16_Unsigned050() {
	v := unsigned()
	sv.Assert(v.Y50() == (uint64(v.S)+v.N.U/2), "s - 0 + n.u / 2")
}

func C16_Unsigned051() {
	v := unsigned()
	sv.Assert(v.Y51() == (uint64(v.S)+uint64(v.N.W)/2), "s - 0 + n.w / 2")
}

func C16_Unsigned052() {
	v := unsigned()
	sv.Assert(v.Y52() == (uint64(v.S)+v.Xs[0]/2), "s - 0 + xs[0] / 2")
}

func C16_Unsigned053() {
	v := unsigned()
	sv.Assert(v.Y53() == (uint64(v.S)+v.A/2), "s - 0 + fa() / 2")
}

func C16_Unsigned054() {
	v := unsigned()
	sv.Assert(v.Y54() == ((v.A|uint64(v.T))>>1), "(a | t) >> 1")
}

func C16_Unsigned055() {
	v := unsigned()
	sv.Assert(v.Y55() == ((v.B|uint64(v.T))>>1), "(b | t) >> 1")
}

func C16_Unsigned056() {
	v := unsigned()
	sv.Assert(v.Y56() == ((v.C|uint64(v.T))>>1), "(c | t) >> 1")
}

func C16_Unsigned057() {
	v := unsigned()
	sv.Assert(v.Y57() == ((v.D|uint64(v.T))>>1), "(d | t) >> 1")
}

func C16_Unsigned058() {
	v := unsigned()
	sv.Assert(v.Y58() == ((uint64(v.E)|uint64(v.T))>>1), "(e | t) >> 1")
}

func C16_Unsigned059() {
	v := unsigned()
	sv.Assert(v.Y59() == ((v.N.U|uint64(v.T))>>1), "(n.u | t) >> 1")
}

func C16_Unsigned060() {
	v := unsigned()
	sv.Assert(v.Y60() == ((uint64(v.N.W)|uint64(v.T))>>1), "(n.w | t) >> 1")
}

func C16_Unsigned061() {
	v := unsigned()
	sv.Assert(v.Y61() == ((v.Xs[0]|uint64(v.T))>>1), "(xs[0] | t) >> 1")
}

func C16_Unsigned062() {
	v := unsigned()
	sv.Assert(v.Y62() == ((v.A|uint64(v.T))>>1), "(fa() | t) >> 1")
}

func C16_Unsigned063() {
	v := unsigned()
	sv.Assert(v.Y63() == ((v.A^uint64(v.S))/7), "(a ^ s) / 7")
}

func C16_Unsigned064() {
	v := unsigned()
	sv.Assert(v.Y64() == ((v.B^uint64(v.S))/7), "(b ^ s) / 7")
}

func C16_Unsigned065() {
	v := unsigned()
	sv.Assert(v.Y65() == ((v.C^uint64(v.S))/7), "(c ^ s) / 7")
}

func C16_Unsigned066() {
	v := unsigned()
	sv.Assert(v.Y66() == ((v.D^uint64(v.S))/7), "(d ^ s) / 7")
}

func C16_Unsigned067() {
	v := unsigned()
	sv.Assert(v.Y67() == ((uint64(v.E)^uint64(v.S))/7), "(e ^ s) / 7")
}

func C16_Unsigned068() {
	v := unsigned()
	sv.Assert(v.Y68() == ((v.N.U^uint64(v.S))/7), "(n.u ^ s) / 7")
}

func C16_Unsigned069() {
	v := unsigned()
	sv.Assert(v.Y69() == ((uint64(v.N.W)^uint64(v.S))/7), "(n.w ^ s) / 7")
}

func C16_Unsigned070() {
	v := unsigned()
	sv.Assert(v.Y70() == ((v.Xs[0]^uint64(v.S))/7), "(xs[0] ^ s) / 7")
}

func C16_Unsigned071() {
	v := unsigned()
	sv.Assert(v.Y71() == ((v.A^uint64(v.S))/7), "(fa() ^ s) / 7")
}

func C16_Unsigned072() {
	v := unsigned()
	sv.Assert(v.Y72() == ((v.A&v.A)>>3), "(a & a) >> 3")
}

func C16_Unsigned073() {
	v := unsigned()
	sv.Assert(v.Y73() == ((v.B&v.A)>>3), "(b & a) >> 3")
}

func C16_Unsigned074() {
	v := unsigned()
	sv.Assert(v.Y74() == ((v.C&v.A)>>3), "(c & a) >> 3")
}

func C16_Unsigned075() {
	v := unsigned()
	sv.Assert(v.Y75() == ((v.D&v.A)>>3), "(d & a) >> 3")
}

func C16_Unsigned076() {
	v := unsigned()
	sv.Assert(v.Y76() == ((uint64(v.E)&v.A)>>3), "(e & a) >> 3")
}

func C16_Unsigned077() {
	v := unsigned()
	sv.Assert(v.Y77() == ((v.N.U&v.A)>>3), "(n.u & a) >> 3")
}

func C16_Unsigned078() {
	v := unsigned()
	sv.Assert(v.Y78() == ((uint64(v.N.W)&v.A)>>3), "(n.w & a) >> 3")
}

func C16_Unsigned079() {
	v := unsigned()
	sv.Assert(v.Y79() == ((v.Xs[0]&v.A)>>3), "(xs[0] & a) >> 3")
}

func C16_Unsigned080() {
	v := unsigned()
	sv.Assert(v.Y80() == ((v.A&v.A)>>3), "(fa() & a) >> 3")
}

func C16_Unsigned081() {
	v := unsigned()
	sv.Assert(v.Y81() == (v.A > uint64(v.S)), "a > s")
}

func C16_Unsigned082() {
	v := unsigned()
	sv.Assert(v.Y82() == (v.B > uint64(v.S)), "b > s")
}

func C16_Unsigned083() {
	v := unsigned()
	sv.Assert(v.Y83() == (v.C > uint64(v.S)), "c > s")
}

func C16_Unsigned084() {
	v := unsigned()
	sv.Assert(v.Y84() == (v.D > uint64(v.S)), "d > s")
}

func C16_Unsigned085() {
	v := unsigned()
	sv.Assert(v.Y85() == (uint64(v.E) > uint64(v.S)), "e > s")
}

func C16_Unsigned086() {
	v := unsigned()
	sv.Assert(v.Y86() == (v.N.U > uint64(v.S)), "n.u > s")
}

func C16_Unsigned087() {
	v := unsigned()
	sv.Assert(v.Y87() == (uint64(v.N.W) > uint64(v.S)), "n.w > s")
}

func C16_Unsigned088() {
	v := unsigned()
	sv.Assert(v.Y88() == (v.Xs[0] > uint64(v.S)), "xs[0] > s")
}

func C16_Unsigned089() {
	v := unsigned()
	sv.Assert(v.Y89() == (v.A > uint64(v.S)), "fa() > s")
}

func C16_Unsigned090() {
	v := unsigned()
	sv.Assert(v.Y90() == (uint64(v.T) < v.A), "t < a")
}

func C16_Unsigned091() {
	v := unsigned()
	sv.Assert(v.Y91() == (uint64(v.T) < v.B), "t < b")
}

func C16_Unsigned092() {
	v := unsigned()
	sv.Assert(v.Y92() == (uint64(v.T) < v.C), "t < c")
}

func C16_Unsigned093() {
	v := unsigned()
	sv.Assert(v.Y93() == (uint64(v.T) < v.D), "t < d")
}

func C16_Unsigned094() {
	v := unsigned()
	sv.Assert(v.Y94() == (uint64(v.T) < uint64(v.E)), "t < e")
}

func C16_Unsigned095() {
	v := unsigned()
	sv.Assert(v.Y95() == (uint64(v.T) < v.N.U), "t < n.u")
}

func C16_Unsigned096() {
	v := unsigned()
	sv.Assert(v.Y96() == (uint64(v.T) < uint64(v.N.W)), "t < n.w")
}

func C16_Unsigned097() {
	v := unsigned()
	sv.Assert(v.Y97() == (uint64(v.T) < v.Xs[0]), "t < xs[0]")
}

func C16_Unsigned098() {
	v := unsigned()
	sv.Assert(v.Y98() == (uint64(v.T) < v.A), "t < fa()")
}

func C16_Unsigned099() {
	v := unsigned()
	sv.Assert(v.Y99() == (v.A >= 1<<63-1), "a >= 9223372036854775807")
}

func C16_Unsigned100() {
	v := unsigned()
	sv.Assert(v.Y100() == (v.B >= 1<<63-1), "b >= 9223372036854775807")
}

func C16_Unsigned101() {
	v := unsigned()
	sv.Assert(v.Y101() == (v.C >= 1<<63-1), "c >= 9223372036854775807")
}

func C16_Unsigned102() {
	v := unsigned()
	sv.Assert(v.Y102() == (v.D >= 1<<63-1), "d >= 9223372036854775807")
}

func C16_Unsigned103() {
	v := unsigned()
	sv.Assert(v.Y103() == (uint64(v.E) >= 1<<63-1), "e >= 9223372036854775807")
}

func C16_Unsigned104() {
	v := unsigned()
	sv.Assert(v.Y104() == (v.N.U >= 1<<63-1), "n.u >= 9223372036854775807")
}

func C16_Unsigned105() {
	v := unsigned()
	sv.Assert(v.Y105() == (uint64(v.N.W) >= 1<<63-1), "n.w >= 9223372036854775807")
}

func C16_Unsigned106() {
	v := unsigned()
	sv.Assert(v.Y106() == (v.Xs[0] >= 1<<63-1), "xs[0] >= 9223372036854775807")
}

func C16_Unsigned107() {
	v := unsigned()
	sv.Assert(v.Y107() == (v.A >= 1<<63-1), "fa() >= 9223372036854775807")
}

func C16_Unsigned108() {
	v := unsigned()
	sv.Assert(v.Y108() == (v.A <= v.A), "a <= a")
}

func C16_Unsigned109() {
	v := unsigned()
	sv.Assert(v.Y109() == (v.B <= v.A), "b <= a")
}

func C16_Unsigned110() {
	v := unsigned()
	sv.Assert(v.Y110() == (v.C <= v.A), "c <= a")
}

func C16_Unsigned111() {
	v := unsigned()
	sv.Assert(v.Y111() == (v.D <= v.A), "d <= a")
}

func C16_Unsigned112() {
	v := unsigned()
	sv.Assert(v.Y112() == (uint64(v.E) <= v.A), "e <= a")
}

func C16_Unsigned113() {
	v := unsigned()
	sv.Assert(v.Y113() == (v.N.U <= v.A), "n.u <= a")
}

func C16_Unsigned114() {
	v := unsigned()
	sv.Assert(v.Y114() == (uint64(v.N.W) <= v.A), "n.w <= a")
}

func C16_Unsigned115() {
	v := unsigned()
	sv.Assert(v.Y115() == (v.Xs[0] <= v.A), "xs[0] <= a")
}

func C16_Unsigned116() {
	v := unsigned()
	sv.Assert(v.Y116() == (v.A <= v.A), "fa() <= a")
}

func C16_Unsigned117() {
	v := unsigned()
	sv.Assert(v.Y117() == (v.A/2 > 1<<62), "a / 2 > 4611686018427387904")
}

func C16_Unsigned118() {
	v := unsigned()
	sv.Assert(v.Y118() == (v.B/2 > 1<<62), "b / 2 > 4611686018427387904")
}

func C16_Unsigned119() {
	v := unsigned()
	sv.Assert(v.Y119() == (v.C/2 > 1<<62), "c / 2 > 4611686018427387904")
}

func C16_Unsigned120() {
	v := unsigned()
	sv.Assert(v.Y120() == (v.D/2 > 1<<62), "d / 2 > 4611686018427387904")
}

func C16_Unsigned121() {
	v := unsigned()
	sv.Assert(v.Y121() == (uint64(v.E)/2 > 1<<62), "e / 2 > 4611686018427387904")
}

func C16_Unsigned122() {
	v := unsigned()
	sv.Assert(v.Y122() == (v.N.U/2 > 1<<62), "n.u / 2 > 4611686018427387904")
}

func C16_Unsigned123() {
	v := unsigned()
	sv.Assert(v.Y123() == (uint64(v.N.W)/2 > 1<<62), "n.w / 2 > 4611686018427387904")
}

func C16_Unsigned124() {
	v := unsigned()
	sv.Assert(v.Y124() == (v.Xs[0]/2 > 1<<62), "xs[0] / 2 > 4611686018427387904")
}

func C16_Unsigned125() {
	v := unsigned()
	sv.Assert(v.Y125() == (v.A/2 > 1<<62), "fa() / 2 > 4611686018427387904")
}

func C16_Unsigned126() {
	v := unsigned()
	sv.Assert(v.Y126() == (v.A == v.B), "a == b")
}

func C16_Unsigned127() {
	v := unsigned()
	sv.Assert(v.Y127() == (v.B == v.B), "b == b")
}

func C16_Unsigned128() {
	v := unsigned()
	sv.Assert(v.Y128() == (v.C == v.B), "c == b")
}

func C16_Unsigned129() {
	v := unsigned()
	sv.Assert(v.Y129() == (v.D == v.B), "d == b")
}

func C16_Unsigned130() {
	v := unsigned()
	sv.Assert(v.Y130() == (uint64(v.E) == v.B), "e == b")
}

func C16_Unsigned131() {
	v := unsigned()
	sv.Assert(v.Y131() == (v.N.U == v.B), "n.u == b")
}

func C16_Unsigned132() {
	v := unsigned()
	sv.Assert(v.Y132() == (uint64(v.N.W) == v.B), "n.w == b")
}

func C16_Unsigned133() {
	v := unsigned()
	sv.Assert(v.Y133() == (v.Xs[0] == v.B), "xs[0] == b")
}

func C16_Unsigned134() {
	v := unsigned()
	sv.Assert(v.Y134() == (v.A == v.B), "fa() == b")
}

func C16_Unsigned135() {
	v := unsigned()
	sv.Assert(v.Y135() == (v.A != uint64(v.T)), "a != t")
}

func C16_Unsigned136() {
	v := unsigned()
	sv.Assert(v.Y136() == (v.B != uint64(v.T)), "b != t")
}

func C16_Unsigned137() {
	v := unsigned()
	sv.Assert(v.Y137() == (v.C != uint64(v.T)), "c != t")
}

func C16_Unsigned138() {
	v := unsigned()
	sv.Assert(v.Y138() == (v.D != uint64(v.T)), "d != t")
}

func C16_Unsigned139() {
	v := unsigned()
	sv.Assert(v.Y139() == (uint64(v.E) != uint64(v.T)), "e != t")
}

func C16_Unsigned140() {
	v := unsigned()
	sv.Assert(v.Y140() == (v.N.U != uint64(v.T)), "n.u != t")
}

func C16_Unsigned141() {
	v := unsigned()
	sv.Assert(v.Y141() == (uint64(v.N.W) != uint64(v.T)), "n.w != t")
}

func C16_Unsigned142() {
	v := unsigned()
	sv.Assert(v.Y142() == (v.Xs[0] != uint64(v.T)), "xs[0] != t")
}

func C16_Unsigned143() {
	v := unsigned()
	sv.Assert(v.Y143() == (v.A != uint64(v.T)), "fa() != t")
}

func C16_Unsigned144() {
	v := unsigned()
	sv.Assert(v.Y144() == (sv.IteU64(v.A > uint64(v.T), v.A, uint64(v.T))), "a > t ? a : t")
}

func C16_Unsigned145() {
	v := unsigned()
	sv.Assert(v.Y145() == (sv.IteU64(v.B > uint64(v.T), v.B, uint64(v.T))), "b > t ? b : t")
}

func C16_Unsigned146() {
	v := unsigned()
	sv.Assert(v.Y146() == (sv.IteU64(v.C > uint64(v.T), v.C, uint64(v.T))), "c > t ? c : t")
}

func C16_Unsigned147() {
	v := unsigned()
	sv.Assert(v.Y147() == (sv.IteU64(v.D > uint64(v.T), v.D, uint64(v.T))), "d > t ? d : t")
}

func C16_Unsigned148() {
	v := unsigned()
	sv.Assert(v.Y148() == (sv.IteU64(uint64(v.E) > uint64(v.T), uint64(v.E), uint64(v.T))), "e > t ? e : t")
}

func C16_Unsigned149() {
	v := unsigned()
	sv.Assert(v.Y149() == (sv.IteU64(v.N.U > uint64(v.T), v.N.U, uint64(v.T))), "n.u > t ? n.u : t")
}

func C16_Unsigned150() {
	v := unsigned()
	sv.Assert(v.Y150() == (sv.IteU64(uint64(v.N.W) > uint64(v.T), uint64(v.N.W), uint64(v.T))), "n.w > t ? n.w : t")
}

func C16_Unsigned151() {
	v := unsigned()
	sv.Assert(v.Y151() == (sv.IteU64(v.Xs[0] > uint64(v.T), v.Xs[0], uint64(v.T))), "xs[0] > t ? xs[0] : t")
}

func C16_Unsigned152() {
	v := unsigned()
	sv.Assert(v.Y152() == (sv.IteU64(v.A > uint64(v.T), v.A, uint64(v.T))), "fa() > t ? fa() : t")
}

func C16_Unsigned153() {
	v := unsigned()
	sv.Assert(v.Y153() == (sv.IteU64(v.A > uint64(v.S), v.A/5, v.A)), "a > s ? a / 5 : a")
}

func C16_Unsigned154() {
	v := unsigned()
	sv.Assert(v.Y154() == (sv.IteU64(v.B > uint64(v.S), v.B/5, v.A)), "b > s ? b / 5 : a")
}

func C16_Unsigned155() {
	v := unsigned()
	sv.Assert(v.Y155() == (sv.IteU64(v.C > uint64(v.S), v.C/5, v.A)), "c > s ? c / 5 : a")
}

func C16_Unsigned156() {
	v := unsigned()
	sv.Assert(v.Y156() == (sv.IteU64(v.D > uint64(v.S), v.D/5, v.A)), "d > s ? d / 5 : a")
}

func C16_Unsigned157() {
	v := unsigned()
	sv.Assert(v.Y157() == (sv.IteU64(uint64(v.E) > uint64(v.S), uint64(v.E)/5, v.A)), "e > s ? e / 5 : a")
}

func C16_Unsigned158() {
	v := unsigned()
	sv.Assert(v.Y158() == (sv.IteU64(v.N.U > uint64(v.S), v.N.U/5, v.A)), "n.u > s ? n.u / 5 : a")
}

func C16_Unsigned159() {
	v := unsigned()
	sv.Assert(v.Y159() == (sv.IteU64(uint64(v.N.W) > uint64(v.S), uint64(v.N.W)/5, v.A)), "n.w > s ? n.w / 5 : a")
}

func C16_Unsigned160() {
	v := unsigned()
	sv.Assert(v.Y160() == (sv.IteU64(v.Xs[0] > uint64(v.S), v.Xs[0]/5, v.A)), "xs[0] > s ? xs[0] / 5 : a")
}

func C16_Unsigned161() {
	v := unsigned()
	sv.Assert(v.Y161() == (sv.IteU64(v.A > uint64(v.S), v.A/5, v.A)), "fa() > s ? fa() / 5 : a")
}

// C16_UnsignedConds: the fields that exist and their sizes.
func C16_UnsignedConds() {
	v := &ul.Conds{K: 64, A: sv.U64("a"), B: sv.U64("b"), C: sv.U64("c"), D: sv.U64("d"), E: ul.Big(sv.U64("e")), S: sv.U8("s"), T: sv.U16("t")}
	sv.Assume(sv.Or(v.B < 128, v.B >= 1<<56))
	sum := 8 + 64 + int(sv.IteU64(v.B < 128, 8, 72)) + 64 + 64 + 64 + 8 + 16
	sum += int(sv.IteU64(v.A/2 > uint64(v.S), 3, 0))
	sum += int(sv.IteU64(v.B/2 > uint64(v.S), 3, 0))
	sum += int(sv.IteU64(v.C>>1 > uint64(v.T), 3, 0))
	sum += int(sv.IteU64(v.D%10 < 5, 3, 0))
	sum += int(sv.IteU64(uint64(v.E) > uint64(v.S), 3, 0))
	sum += int(sv.IteU64(v.B >= 1<<63-1, 3, 0))
	sum += int(sv.IteU64(sv.And(v.C != v.B, v.D <= v.A), 3, 0))
	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "error")
	sv.Assert(n == sum, "size")
	sv.Reach("end")
}

// C16_UnsignedLens: arrays are written when they have the length of the expression.
func C16_UnsignedLens() {
	v := &ul.Lens{}
	switch sv.Choose("which", 3) {
	case 0:
		v.A = sv.U64("a")
	case 1:
		v.B = sv.U64("b")
		sv.Assume(sv.Or(v.B < 128, v.B >= 1<<56))
	case 2:
		v.C = sv.U64("c")
	}
	v.L1, v.L2, v.L3 = make([]uint8, sv.Choose("l1", 3)), make([]uint8, sv.Choose("l2", 3)), make([]uint8, sv.Choose("l3", 4))
	fits := sv.And(v.A%3 == uint64(len(v.L1)), sv.And(v.B%3 == uint64(len(v.L2)), v.C>>62 == uint64(len(v.L3))))
	_, w := hx.NewWriter()
	err := v.MarshalZserio(w)
	sv.Assert((err == nil) == fits, "error")
	sv.Reach("end")
}

// C16_UnsignedWidth: widths of 1 to 16 bits.
func C16_UnsignedWidth() {
	v := &ul.Wid{K: 64, A: sv.U64("a"), D: sv.U64("d")}
	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "error")
	sv.Assert(n == 64+8+64+int(v.D%7+1)+int(v.A>>60+1), "size")
	sv.Reach("end")
}

// C16_UnsignedSelector: the parameters of a choice.
func C16_UnsignedSelector() {
	v := &ul.Sel{B: sv.U64("b"), C: sv.U64("c")}
	sv.Assume(sv.Or(v.B < 128, v.B >= 1<<56))
	v.P.Q, v.P.R = uint8(v.B%5), uint8(v.C/(1<<63-1))
	k := v.P.Q*2 + v.P.R
	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "error")
	sv.Assert(n == 64+int(sv.IteU64(v.B < 128, 8, 72))+int(sv.IteU64(k == 0, 8, sv.IteU64(sv.Or(k == 1, k == 2), 3, 5))), "size")
	sv.Reach("end")
}
