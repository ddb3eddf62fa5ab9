// Written by tools/genc16.py.

package c16

import (
	"gen/zs/exr"

	"verif/sv"
)

func ops() *exr.Ops {
	v := &exr.Ops{A: sv.U8("a"), B: sv.I8("b"), C: sv.U16("c"), D: sv.I16("d"), E: sv.U32("e"), F: sv.I32("f"), S: sv.U8("s") & 7, G: sv.I8("g"), P: sv.Bool("p"), Q: sv.Bool("q"), R: sv.Bool("r")}
	sv.Assume(sv.And(v.G >= -64, v.G < 64))
	return v
}

func C16_Pairs000() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X0() == ((I(v.C)+I(v.D))+I(v.D)), "c + d + d")
	v = ops()
	sv.Assert(v.X1() == (I(v.C)+(I(v.D)+I(v.B))), "c + (d + b)")
	v = ops()
	sv.Assert(v.X2() == ((I(v.D)+I(v.A))-I(v.D)), "d + a - d")
	v = ops()
	sv.Assert(v.X3() == (I(v.G)+(I(v.G)-I(v.C))), "g + (g - c)")
	v = ops()
	sv.Assert(v.X4() == ((I(v.B)+I(v.G))*I(v.B)), "(b + g) * b")
	v = ops()
	sv.Assert(v.X5() == (I(v.A)+(I(v.C)*I(v.C))), "a + c * c")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X6() == ((I(v.C)+I(v.G))/I(v.B)), "(c + g) / b")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X7() == (I(v.G)+(I(v.S)/I(v.C))), "g + s / c")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X8() == ((I(v.A)+I(v.B))%I(v.S)), "(a + b) % s")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X9() == (I(v.C)+(I(v.A)%I(v.B))), "c + a % b")
	v = ops()
	sv.Assert(v.X10() == ((I(v.S)+I(v.G))<<I(v.S)), "s + g << s")
	v = ops()
	sv.Assert(v.X11() == (I(v.D)+(I(v.D)<<I(v.S))), "d + (d << s)")
	v = ops()
	sv.Assert(v.X12() == ((I(v.B)+I(v.C))>>I(v.S)), "b + c >> s")
	v = ops()
	sv.Assert(v.X13() == (I(v.C)+(I(v.D)>>I(v.S))), "c + (d >> s)")
	v = ops()
	sv.Assert(v.X14() == ((I(v.C)+I(v.D))&I(v.D)), "c + d & d")
	v = ops()
	sv.Assert(v.X15() == (I(v.S)+(I(v.G)&I(v.B))), "s + (g & b)")
	v = ops()
	sv.Assert(v.X16() == ((I(v.S)+I(v.C))^I(v.S)), "s + c ^ s")
	v = ops()
	sv.Assert(v.X17() == (I(v.A)+(I(v.C)^I(v.A))), "a + (c ^ a)")
	v = ops()
	sv.Assert(v.X18() == ((I(v.A)+I(v.S))|I(v.C)), "a + s | c")
	v = ops()
	sv.Assert(v.X19() == (I(v.B)+(I(v.D)|I(v.B))), "b + (d | b)")
}

func C16_Pairs001() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X20() == ((I(v.C)+I(v.C)) < I(v.C)), "c + c < c")
	v = ops()
	sv.Assert(v.X21() == (I(v.D) < (I(v.D)+I(v.A))), "d < d + a")
	v = ops()
	sv.Assert(v.X22() == ((I(v.B)+I(v.G)) <= I(v.D)), "b + g <= d")
	v = ops()
	sv.Assert(v.X23() == (I(v.G) <= (I(v.A)+I(v.D))), "g <= a + d")
	v = ops()
	sv.Assert(v.X24() == ((I(v.D)+I(v.A)) > I(v.D)), "d + a > d")
	v = ops()
	sv.Assert(v.X25() == (I(v.G) > (I(v.A)+I(v.D))), "g > a + d")
	v = ops()
	sv.Assert(v.X26() == ((I(v.S)+I(v.A)) >= I(v.D)), "s + a >= d")
	v = ops()
	sv.Assert(v.X27() == (I(v.G) >= (I(v.A)+I(v.B))), "g >= a + b")
	v = ops()
	sv.Assert(v.X28() == ((I(v.G)+I(v.B)) == I(v.D)), "g + b == d")
	v = ops()
	sv.Assert(v.X29() == (I(v.C) == (I(v.A)+I(v.S))), "c == a + s")
	v = ops()
	sv.Assert(v.X30() == ((I(v.A)+I(v.G)) != I(v.G)), "a + g != g")
	v = ops()
	sv.Assert(v.X31() == (I(v.D) != (I(v.S)+I(v.C))), "d != s + c")
	v = ops()
	sv.Assert(v.X32() == (-(I(v.D) + I(v.S))), "-(d + s)")
	v = ops()
	sv.Assert(v.X33() == ((-I(v.G))+I(v.G)), "-g + g")
	v = ops()
	sv.Assert(v.X34() == (I(v.G)+(-I(v.B))), "g + -b")
	v = ops()
	sv.Assert(v.X35() == (I(v.B)+I(v.C)), "+(b + c)")
	v = ops()
	sv.Assert(v.X36() == (I(v.A)+I(v.G)), "+a + g")
	v = ops()
	sv.Assert(v.X37() == (I(v.A)+I(v.B)), "a + +b")
	v = ops()
	sv.Assert(v.X38() == (^(I(v.B) + I(v.A))), "~(b + a)")
	v = ops()
	sv.Assert(v.X39() == ((^I(v.D))+I(v.G)), "~d + g")
}

func C16_Pairs002() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X40() == (I(v.A)+(^I(v.B))), "a + ~b")
	v = ops()
	sv.Assert(v.X41() == ((I(v.G)-I(v.G))+I(v.A)), "g - g + a")
	v = ops()
	sv.Assert(v.X42() == (I(v.D)-(I(v.B)+I(v.G))), "d - (b + g)")
	v = ops()
	sv.Assert(v.X43() == ((I(v.G)-I(v.C))-I(v.B)), "g - c - b")
	v = ops()
	sv.Assert(v.X44() == (I(v.B)-(I(v.S)-I(v.A))), "b - (s - a)")
	v = ops()
	sv.Assert(v.X45() == ((I(v.B)-I(v.S))*I(v.B)), "(b - s) * b")
	v = ops()
	sv.Assert(v.X46() == (I(v.A)-(I(v.A)*I(v.G))), "a - a * g")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X47() == ((I(v.B)-I(v.C))/I(v.D)), "(b - c) / d")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X48() == (I(v.D)-(I(v.A)/I(v.D))), "d - a / d")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X49() == ((I(v.D)-I(v.G))%I(v.D)), "(d - g) % d")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X50() == (I(v.D)-(I(v.C)%I(v.A))), "d - c % a")
	v = ops()
	sv.Assert(v.X51() == ((I(v.A)-I(v.A))<<I(v.S)), "a - a << s")
	v = ops()
	sv.Assert(v.X52() == (I(v.D)-(I(v.G)<<I(v.S))), "d - (g << s)")
	v = ops()
	sv.Assert(v.X53() == ((I(v.S)-I(v.D))>>I(v.S)), "s - d >> s")
	v = ops()
	sv.Assert(v.X54() == (I(v.B)-(I(v.A)>>I(v.S))), "b - (a >> s)")
	v = ops()
	sv.Assert(v.X55() == ((I(v.G)-I(v.A))&I(v.C)), "g - a & c")
	v = ops()
	sv.Assert(v.X56() == (I(v.A)-(I(v.D)&I(v.D))), "a - (d & d)")
	v = ops()
	sv.Assert(v.X57() == ((I(v.B)-I(v.D))^I(v.B)), "b - d ^ b")
	v = ops()
	sv.Assert(v.X58() == (I(v.B)-(I(v.B)^I(v.D))), "b - (b ^ d)")
	v = ops()
	sv.Assert(v.X59() == ((I(v.D)-I(v.S))|I(v.B)), "d - s | b")
}

func C16_Pairs003() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X60() == (I(v.D)-(I(v.B)|I(v.C))), "d - (b | c)")
	v = ops()
	sv.Assert(v.X61() == ((I(v.G)-I(v.D)) < I(v.B)), "g - d < b")
	v = ops()
	sv.Assert(v.X62() == (I(v.D) < (I(v.B)-I(v.G))), "d < b - g")
	v = ops()
	sv.Assert(v.X63() == ((I(v.D)-I(v.A)) <= I(v.D)), "d - a <= d")
	v = ops()
	sv.Assert(v.X64() == (I(v.C) <= (I(v.S)-I(v.C))), "c <= s - c")
	v = ops()
	sv.Assert(v.X65() == ((I(v.A)-I(v.A)) > I(v.C)), "a - a > c")
	v = ops()
	sv.Assert(v.X66() == (I(v.G) > (I(v.D)-I(v.B))), "g > d - b")
	v = ops()
	sv.Assert(v.X67() == ((I(v.S)-I(v.G)) >= I(v.D)), "s - g >= d")
	v = ops()
	sv.Assert(v.X68() == (I(v.B) >= (I(v.S)-I(v.D))), "b >= s - d")
	v = ops()
	sv.Assert(v.X69() == ((I(v.S)-I(v.B)) == I(v.D)), "s - b == d")
	v = ops()
	sv.Assert(v.X70() == (I(v.S) == (I(v.A)-I(v.G))), "s == a - g")
	v = ops()
	sv.Assert(v.X71() == ((I(v.G)-I(v.A)) != I(v.G)), "g - a != g")
	v = ops()
	sv.Assert(v.X72() == (I(v.G) != (I(v.C)-I(v.A))), "g != c - a")
	v = ops()
	sv.Assert(v.X73() == (-(I(v.D) - I(v.A))), "-(d - a)")
	v = ops()
	sv.Assert(v.X74() == ((-I(v.D))-I(v.G)), "-d - g")
	v = ops()
	sv.Assert(v.X75() == (I(v.A)-(-I(v.G))), "a - -g")
	v = ops()
	sv.Assert(v.X76() == (I(v.S)-I(v.B)), "+(s - b)")
	v = ops()
	sv.Assert(v.X77() == (I(v.A)-I(v.G)), "+a - g")
	v = ops()
	sv.Assert(v.X78() == (I(v.C)-I(v.G)), "c - +g")
	v = ops()
	sv.Assert(v.X79() == (^(I(v.C) - I(v.D))), "~(c - d)")
}

func C16_Pairs004() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X80() == ((^I(v.A))-I(v.B)), "~a - b")
	v = ops()
	sv.Assert(v.X81() == (I(v.B)-(^I(v.G))), "b - ~g")
	v = ops()
	sv.Assert(v.X82() == ((I(v.B)*I(v.G))+I(v.A)), "b * g + a")
	v = ops()
	sv.Assert(v.X83() == (I(v.G)*(I(v.A)+I(v.B))), "g * (a + b)")
	v = ops()
	sv.Assert(v.X84() == ((I(v.C)*I(v.D))-I(v.S)), "c * d - s")
	v = ops()
	sv.Assert(v.X85() == (I(v.S)*(I(v.B)-I(v.A))), "s * (b - a)")
	v = ops()
	sv.Assert(v.X86() == ((I(v.C)*I(v.G))*I(v.A)), "c * g * a")
	v = ops()
	sv.Assert(v.X87() == (I(v.D)*(I(v.G)*I(v.A))), "d * (g * a)")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X88() == ((I(v.B)*I(v.G))/I(v.S)), "b * g / s")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X89() == (I(v.G)*(I(v.B)/I(v.B))), "g * (b / b)")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X90() == ((I(v.S)*I(v.G))%I(v.S)), "s * g % s")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X91() == (I(v.G)*(I(v.G)%I(v.G))), "g * (g % g)")
	v = ops()
	sv.Assert(v.X92() == ((I(v.G)*I(v.C))<<I(v.S)), "g * c << s")
	v = ops()
	sv.Assert(v.X93() == (I(v.S)*(I(v.S)<<I(v.S))), "s * (s << s)")
	v = ops()
	sv.Assert(v.X94() == ((I(v.D)*I(v.S))>>I(v.S)), "d * s >> s")
	v = ops()
	sv.Assert(v.X95() == (I(v.C)*(I(v.B)>>I(v.S))), "c * (b >> s)")
	v = ops()
	sv.Assert(v.X96() == ((I(v.G)*I(v.G))&I(v.B)), "g * g & b")
	v = ops()
	sv.Assert(v.X97() == (I(v.A)*(I(v.B)&I(v.A))), "a * (b & a)")
	v = ops()
	sv.Assert(v.X98() == ((I(v.A)*I(v.C))^I(v.G)), "a * c ^ g")
	v = ops()
	sv.Assert(v.X99() == (I(v.C)*(I(v.G)^I(v.G))), "c * (g ^ g)")
}

func C16_Pairs005() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X100() == ((I(v.A)*I(v.B))|I(v.A)), "a * b | a")
	v = ops()
	sv.Assert(v.X101() == (I(v.B)*(I(v.S)|I(v.G))), "b * (s | g)")
	v = ops()
	sv.Assert(v.X102() == ((I(v.G)*I(v.A)) < I(v.G)), "g * a < g")
	v = ops()
	sv.Assert(v.X103() == (I(v.B) < (I(v.C)*I(v.B))), "b < c * b")
	v = ops()
	sv.Assert(v.X104() == ((I(v.S)*I(v.D)) <= I(v.A)), "s * d <= a")
	v = ops()
	sv.Assert(v.X105() == (I(v.B) <= (I(v.A)*I(v.D))), "b <= a * d")
	v = ops()
	sv.Assert(v.X106() == ((I(v.A)*I(v.A)) > I(v.S)), "a * a > s")
	v = ops()
	sv.Assert(v.X107() == (I(v.B) > (I(v.B)*I(v.G))), "b > b * g")
	v = ops()
	sv.Assert(v.X108() == ((I(v.G)*I(v.B)) >= I(v.B)), "g * b >= b")
	v = ops()
	sv.Assert(v.X109() == (I(v.D) >= (I(v.A)*I(v.C))), "d >= a * c")
	v = ops()
	sv.Assert(v.X110() == ((I(v.A)*I(v.G)) == I(v.D)), "a * g == d")
	v = ops()
	sv.Assert(v.X111() == (I(v.D) == (I(v.C)*I(v.A))), "d == c * a")
	v = ops()
	sv.Assert(v.X112() == ((I(v.S)*I(v.D)) != I(v.S)), "s * d != s")
	v = ops()
	sv.Assert(v.X113() == (I(v.B) != (I(v.C)*I(v.G))), "b != c * g")
	v = ops()
	sv.Assert(v.X114() == (-(I(v.D) * I(v.C))), "-(d * c)")
	v = ops()
	sv.Assert(v.X115() == ((-I(v.D))*I(v.A)), "-d * a")
	v = ops()
	sv.Assert(v.X116() == (I(v.C)*(-I(v.B))), "c * -b")
	v = ops()
	sv.Assert(v.X117() == (I(v.A)*I(v.B)), "+(a * b)")
	v = ops()
	sv.Assert(v.X118() == (I(v.D)*I(v.D)), "+d * d")
	v = ops()
	sv.Assert(v.X119() == (I(v.A)*I(v.B)), "a * +b")
}

func C16_Pairs006() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X120() == (^(I(v.D) * I(v.G))), "~(d * g)")
	v = ops()
	sv.Assert(v.X121() == ((^I(v.G))*I(v.S)), "~g * s")
	v = ops()
	sv.Assert(v.X122() == (I(v.C)*(^I(v.B))), "c * ~b")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X123() == ((I(v.S)/I(v.D))+I(v.C)), "s / d + c")
	v = ops()
	sv.Assume((I(v.G) + I(v.B)) != 0)
	sv.Assert(v.X124() == (I(v.A)/(I(v.G)+I(v.B))), "a / (g + b)")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X125() == ((I(v.D)/I(v.B))-I(v.C)), "d / b - c")
	v = ops()
	sv.Assume((I(v.D) - I(v.A)) != 0)
	sv.Assert(v.X126() == (I(v.B)/(I(v.D)-I(v.A))), "b / (d - a)")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X127() == ((I(v.D)/I(v.A))*I(v.D)), "d / a * d")
	v = ops()
	sv.Assume((I(v.G) * I(v.D)) != 0)
	sv.Assert(v.X128() == (I(v.G)/(I(v.G)*I(v.D))), "g / (g * d)")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X129() == ((I(v.G)/I(v.A))/I(v.B)), "g / a / b")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assume((I(v.B) / I(v.G)) != 0)
	sv.Assert(v.X130() == (I(v.A)/(I(v.B)/I(v.G))), "a / (b / g)")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X131() == ((I(v.B)/I(v.G))%I(v.S)), "b / g % s")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assume((I(v.S) % I(v.G)) != 0)
	sv.Assert(v.X132() == (I(v.C)/(I(v.S)%I(v.G))), "c / (s % g)")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X133() == ((I(v.S)/I(v.D))<<I(v.S)), "s / d << s")
	v = ops()
	sv.Assume((I(v.A) << I(v.S)) != 0)
	sv.Assert(v.X134() == (I(v.A)/(I(v.A)<<I(v.S))), "a / (a << s)")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X135() == ((I(v.B)/I(v.C))>>I(v.S)), "b / c >> s")
	v = ops()
	sv.Assume((I(v.B) >> I(v.S)) != 0)
	sv.Assert(v.X136() == (I(v.D)/(I(v.B)>>I(v.S))), "d / (b >> s)")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X137() == ((I(v.C)/I(v.S))&I(v.S)), "c / s & s")
	v = ops()
	sv.Assume((I(v.S) & I(v.A)) != 0)
	sv.Assert(v.X138() == (I(v.D)/(I(v.S)&I(v.A))), "d / (s & a)")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X139() == ((I(v.G)/I(v.B))^I(v.S)), "g / b ^ s")
}

func C16_Pairs007() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) ^ I(v.C)) != 0)
	sv.Assert(v.X140() == (I(v.D)/(I(v.G)^I(v.C))), "d / (g ^ c)")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X141() == ((I(v.A)/I(v.G))|I(v.C)), "a / g | c")
	v = ops()
	sv.Assume((I(v.C) | I(v.G)) != 0)
	sv.Assert(v.X142() == (I(v.D)/(I(v.C)|I(v.G))), "d / (c | g)")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X143() == ((I(v.S)/I(v.D)) < I(v.A)), "s / d < a")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X144() == (I(v.A) < (I(v.A)/I(v.C))), "a < a / c")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X145() == ((I(v.D)/I(v.C)) <= I(v.D)), "d / c <= d")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X146() == (I(v.C) <= (I(v.B)/I(v.C))), "c <= b / c")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X147() == ((I(v.A)/I(v.D)) > I(v.G)), "a / d > g")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X148() == (I(v.A) > (I(v.G)/I(v.B))), "a > g / b")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X149() == ((I(v.A)/I(v.D)) >= I(v.B)), "a / d >= b")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X150() == (I(v.S) >= (I(v.B)/I(v.C))), "s >= b / c")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X151() == ((I(v.D)/I(v.S)) == I(v.A)), "d / s == a")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X152() == (I(v.G) == (I(v.C)/I(v.A))), "g == c / a")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X153() == ((I(v.C)/I(v.B)) != I(v.C)), "c / b != c")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X154() == (I(v.D) != (I(v.S)/I(v.C))), "d != s / c")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X155() == (-(I(v.C) / I(v.B))), "-(c / b)")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X156() == ((-I(v.B))/I(v.G)), "-b / g")
	v = ops()
	sv.Assume((-I(v.B)) != 0)
	sv.Assert(v.X157() == (I(v.B)/(-I(v.B))), "b / -b")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X158() == (I(v.S)/I(v.A)), "+(s / a)")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X159() == (I(v.C)/I(v.A)), "+c / a")
}

func C16_Pairs008() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X160() == (I(v.G)/I(v.B)), "g / +b")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X161() == (^(I(v.S) / I(v.A))), "~(s / a)")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X162() == ((^I(v.G))/I(v.C)), "~g / c")
	v = ops()
	sv.Assume((^I(v.B)) != 0)
	sv.Assert(v.X163() == (I(v.B)/(^I(v.B))), "b / ~b")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X164() == ((I(v.A)%I(v.D))+I(v.D)), "a % d + d")
	v = ops()
	sv.Assume((I(v.A) + I(v.A)) != 0)
	sv.Assert(v.X165() == (I(v.C)%(I(v.A)+I(v.A))), "c % (a + a)")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X166() == ((I(v.A)%I(v.G))-I(v.C)), "a % g - c")
	v = ops()
	sv.Assume((I(v.D) - I(v.A)) != 0)
	sv.Assert(v.X167() == (I(v.G)%(I(v.D)-I(v.A))), "g % (d - a)")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X168() == ((I(v.C)%I(v.D))*I(v.S)), "c % d * s")
	v = ops()
	sv.Assume((I(v.D) * I(v.B)) != 0)
	sv.Assert(v.X169() == (I(v.D)%(I(v.D)*I(v.B))), "d % (d * b)")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X170() == ((I(v.S)%I(v.B))/I(v.C)), "s % b / c")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assume((I(v.B) / I(v.G)) != 0)
	sv.Assert(v.X171() == (I(v.B)%(I(v.B)/I(v.G))), "b % (b / g)")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X172() == ((I(v.B)%I(v.B))%I(v.D)), "b % b % d")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume((I(v.C) % I(v.A)) != 0)
	sv.Assert(v.X173() == (I(v.G)%(I(v.C)%I(v.A))), "g % (c % a)")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X174() == ((I(v.B)%I(v.A))<<I(v.S)), "b % a << s")
	v = ops()
	sv.Assume((I(v.G) << I(v.S)) != 0)
	sv.Assert(v.X175() == (I(v.B)%(I(v.G)<<I(v.S))), "b % (g << s)")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X176() == ((I(v.A)%I(v.G))>>I(v.S)), "a % g >> s")
	v = ops()
	sv.Assume((I(v.D) >> I(v.S)) != 0)
	sv.Assert(v.X177() == (I(v.C)%(I(v.D)>>I(v.S))), "c % (d >> s)")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X178() == ((I(v.G)%I(v.C))&I(v.D)), "g % c & d")
	v = ops()
	sv.Assume((I(v.C) & I(v.B)) != 0)
	sv.Assert(v.X179() == (I(v.B)%(I(v.C)&I(v.B))), "b % (c & b)")
}

func C16_Pairs009() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X180() == ((I(v.D)%I(v.A))^I(v.S)), "d % a ^ s")
	v = ops()
	sv.Assume((I(v.C) ^ I(v.A)) != 0)
	sv.Assert(v.X181() == (I(v.A)%(I(v.C)^I(v.A))), "a % (c ^ a)")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X182() == ((I(v.D)%I(v.S))|I(v.D)), "d % s | d")
	v = ops()
	sv.Assume((I(v.D) | I(v.S)) != 0)
	sv.Assert(v.X183() == (I(v.S)%(I(v.D)|I(v.S))), "s % (d | s)")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X184() == ((I(v.A)%I(v.S)) < I(v.B)), "a % s < b")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X185() == (I(v.G) < (I(v.B)%I(v.S))), "g < b % s")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X186() == ((I(v.B)%I(v.A)) <= I(v.B)), "b % a <= b")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X187() == (I(v.A) <= (I(v.B)%I(v.C))), "a <= b % c")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X188() == ((I(v.B)%I(v.C)) > I(v.D)), "b % c > d")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X189() == (I(v.A) > (I(v.D)%I(v.B))), "a > d % b")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X190() == ((I(v.B)%I(v.C)) >= I(v.D)), "b % c >= d")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X191() == (I(v.D) >= (I(v.G)%I(v.C))), "d >= g % c")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X192() == ((I(v.G)%I(v.C)) == I(v.B)), "g % c == b")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X193() == (I(v.C) == (I(v.D)%I(v.G))), "c == d % g")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X194() == ((I(v.A)%I(v.D)) != I(v.A)), "a % d != a")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X195() == (I(v.B) != (I(v.G)%I(v.G))), "b != g % g")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X196() == (-(I(v.D) % I(v.G))), "-(d % g)")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X197() == ((-I(v.B))%I(v.A)), "-b % a")
	v = ops()
	sv.Assume((-I(v.B)) != 0)
	sv.Assert(v.X198() == (I(v.B)%(-I(v.B))), "b % -b")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X199() == (I(v.A)%I(v.S)), "+(a % s)")
}

func C16_Pairs010() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X200() == (I(v.A)%I(v.S)), "+a % s")
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X201() == (I(v.B)%I(v.B)), "b % +b")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X202() == (^(I(v.D) % I(v.C))), "~(d % c)")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X203() == ((^I(v.A))%I(v.D)), "~a % d")
	v = ops()
	sv.Assume((^I(v.G)) != 0)
	sv.Assert(v.X204() == (I(v.A)%(^I(v.G))), "a % ~g")
	v = ops()
	sv.Assert(v.X205() == ((I(v.G)<<I(v.S))+I(v.C)), "(g << s) + c")
	v = ops()
	sv.Assert(v.X206() == (I(v.G)<<(I(v.S)+I(v.S))), "g << s + s")
	v = ops()
	sv.Assert(v.X207() == ((I(v.B)<<I(v.S))-I(v.S)), "(b << s) - s")
	v = ops()
	sv.Assume((I(v.S) - I(v.S)) >= 0)
	sv.Assume((I(v.S) - I(v.S)) <= 20)
	sv.Assert(v.X208() == (I(v.C)<<(I(v.S)-I(v.S))), "c << s - s")
	v = ops()
	sv.Assert(v.X209() == ((I(v.C)<<I(v.S))*I(v.C)), "(c << s) * c")
	v = ops()
	sv.Assume((I(v.S) * I(v.S)) >= 0)
	sv.Assume((I(v.S) * I(v.S)) <= 20)
	sv.Assert(v.X210() == (I(v.A)<<(I(v.S)*I(v.S))), "a << s * s")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X211() == ((I(v.D)<<I(v.S))/I(v.C)), "(d << s) / c")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X212() == (I(v.G)<<(I(v.S)/I(v.S))), "g << s / s")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X213() == ((I(v.D)<<I(v.S))%I(v.G)), "(d << s) % g")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X214() == (I(v.C)<<(I(v.S)%I(v.S))), "c << s % s")
	v = ops()
	sv.Assert(v.X215() == ((I(v.C)<<I(v.S))<<I(v.S)), "c << s << s")
	v = ops()
	sv.Assume((I(v.S) << I(v.S)) >= 0)
	sv.Assume((I(v.S) << I(v.S)) <= 20)
	sv.Assert(v.X216() == (I(v.B)<<(I(v.S)<<I(v.S))), "b << (s << s)")
	v = ops()
	sv.Assert(v.X217() == ((I(v.G)<<I(v.S))>>I(v.S)), "g << s >> s")
	v = ops()
	sv.Assert(v.X218() == (I(v.C)<<(I(v.S)>>I(v.S))), "c << (s >> s)")
	v = ops()
	sv.Assert(v.X219() == ((I(v.B)<<I(v.S))&I(v.B)), "b << s & b")
}

func C16_Pairs011() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X220() == (I(v.S)<<(I(v.S)&I(v.S))), "s << (s & s)")
	v = ops()
	sv.Assert(v.X221() == ((I(v.G)<<I(v.S))^I(v.S)), "g << s ^ s")
	v = ops()
	sv.Assert(v.X222() == (I(v.B)<<(I(v.S)^I(v.S))), "b << (s ^ s)")
	v = ops()
	sv.Assert(v.X223() == ((I(v.B)<<I(v.S))|I(v.B)), "b << s | b")
	v = ops()
	sv.Assert(v.X224() == (I(v.S)<<(I(v.S)|I(v.S))), "s << (s | s)")
	v = ops()
	sv.Assert(v.X225() == ((I(v.G)<<I(v.S)) < I(v.S)), "g << s < s")
	v = ops()
	sv.Assert(v.X226() == (I(v.B) < (I(v.B)<<I(v.S))), "b < b << s")
	v = ops()
	sv.Assert(v.X227() == ((I(v.D)<<I(v.S)) <= I(v.A)), "d << s <= a")
	v = ops()
	sv.Assert(v.X228() == (I(v.A) <= (I(v.B)<<I(v.S))), "a <= b << s")
	v = ops()
	sv.Assert(v.X229() == ((I(v.S)<<I(v.S)) > I(v.B)), "s << s > b")
	v = ops()
	sv.Assert(v.X230() == (I(v.G) > (I(v.G)<<I(v.S))), "g > g << s")
	v = ops()
	sv.Assert(v.X231() == ((I(v.S)<<I(v.S)) >= I(v.A)), "s << s >= a")
	v = ops()
	sv.Assert(v.X232() == (I(v.A) >= (I(v.G)<<I(v.S))), "a >= g << s")
	v = ops()
	sv.Assert(v.X233() == ((I(v.B)<<I(v.S)) == I(v.A)), "b << s == a")
	v = ops()
	sv.Assert(v.X234() == (I(v.D) == (I(v.D)<<I(v.S))), "d == d << s")
	v = ops()
	sv.Assert(v.X235() == ((I(v.C)<<I(v.S)) != I(v.S)), "c << s != s")
	v = ops()
	sv.Assert(v.X236() == (I(v.B) != (I(v.B)<<I(v.S))), "b != b << s")
	v = ops()
	sv.Assert(v.X237() == (-(I(v.G) << I(v.S))), "-(g << s)")
	v = ops()
	sv.Assert(v.X238() == ((-I(v.G))<<I(v.S)), "-g << s")
	v = ops()
	sv.Assume((-I(v.G)) >= 0)
	sv.Assume((-I(v.G)) <= 20)
	sv.Assert(v.X239() == (I(v.G)<<(-I(v.G))), "g << -g")
}

func C16_Pairs012() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X240() == (I(v.S)<<I(v.S)), "+(s << s)")
	v = ops()
	sv.Assert(v.X241() == (I(v.S)<<I(v.S)), "+s << s")
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X242() == (I(v.D)<<I(v.B)), "d << +b")
	v = ops()
	sv.Assert(v.X243() == (^(I(v.C) << I(v.S))), "~(c << s)")
	v = ops()
	sv.Assert(v.X244() == ((^I(v.D))<<I(v.S)), "~d << s")
	v = ops()
	sv.Assume((^I(v.G)) >= 0)
	sv.Assume((^I(v.G)) <= 20)
	sv.Assert(v.X245() == (I(v.D)<<(^I(v.G))), "d << ~g")
	v = ops()
	sv.Assert(v.X246() == ((I(v.B)>>I(v.S))+I(v.B)), "(b >> s) + b")
	v = ops()
	sv.Assert(v.X247() == (I(v.D)>>(I(v.S)+I(v.S))), "d >> s + s")
	v = ops()
	sv.Assert(v.X248() == ((I(v.S)>>I(v.S))-I(v.B)), "(s >> s) - b")
	v = ops()
	sv.Assume((I(v.S) - I(v.S)) >= 0)
	sv.Assume((I(v.S) - I(v.S)) <= 20)
	sv.Assert(v.X249() == (I(v.D)>>(I(v.S)-I(v.S))), "d >> s - s")
	v = ops()
	sv.Assert(v.X250() == ((I(v.S)>>I(v.S))*I(v.S)), "(s >> s) * s")
	v = ops()
	sv.Assume((I(v.S) * I(v.S)) >= 0)
	sv.Assume((I(v.S) * I(v.S)) <= 20)
	sv.Assert(v.X251() == (I(v.D)>>(I(v.S)*I(v.S))), "d >> s * s")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X252() == ((I(v.S)>>I(v.S))/I(v.D)), "(s >> s) / d")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X253() == (I(v.G)>>(I(v.S)/I(v.S))), "g >> s / s")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X254() == ((I(v.D)>>I(v.S))%I(v.S)), "(d >> s) % s")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X255() == (I(v.S)>>(I(v.S)%I(v.S))), "s >> s % s")
	v = ops()
	sv.Assert(v.X256() == ((I(v.C)>>I(v.S))<<I(v.S)), "c >> s << s")
	v = ops()
	sv.Assume((I(v.S) << I(v.S)) >= 0)
	sv.Assume((I(v.S) << I(v.S)) <= 20)
	sv.Assert(v.X257() == (I(v.S)>>(I(v.S)<<I(v.S))), "s >> (s << s)")
	v = ops()
	sv.Assert(v.X258() == ((I(v.S)>>I(v.S))>>I(v.S)), "s >> s >> s")
	v = ops()
	sv.Assert(v.X259() == (I(v.B)>>(I(v.S)>>I(v.S))), "b >> (s >> s)")
}

func C16_Pairs013() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X260() == ((I(v.C)>>I(v.S))&I(v.B)), "c >> s & b")
	v = ops()
	sv.Assert(v.X261() == (I(v.G)>>(I(v.S)&I(v.S))), "g >> (s & s)")
	v = ops()
	sv.Assert(v.X262() == ((I(v.A)>>I(v.S))^I(v.D)), "a >> s ^ d")
	v = ops()
	sv.Assert(v.X263() == (I(v.B)>>(I(v.S)^I(v.S))), "b >> (s ^ s)")
	v = ops()
	sv.Assert(v.X264() == ((I(v.C)>>I(v.S))|I(v.S)), "c >> s | s")
	v = ops()
	sv.Assert(v.X265() == (I(v.C)>>(I(v.S)|I(v.S))), "c >> (s | s)")
	v = ops()
	sv.Assert(v.X266() == ((I(v.A)>>I(v.S)) < I(v.C)), "a >> s < c")
	v = ops()
	sv.Assert(v.X267() == (I(v.G) < (I(v.A)>>I(v.S))), "g < a >> s")
	v = ops()
	sv.Assert(v.X268() == ((I(v.A)>>I(v.S)) <= I(v.C)), "a >> s <= c")
	v = ops()
	sv.Assert(v.X269() == (I(v.S) <= (I(v.C)>>I(v.S))), "s <= c >> s")
	v = ops()
	sv.Assert(v.X270() == ((I(v.G)>>I(v.S)) > I(v.G)), "g >> s > g")
	v = ops()
	sv.Assert(v.X271() == (I(v.S) > (I(v.G)>>I(v.S))), "s > g >> s")
	v = ops()
	sv.Assert(v.X272() == ((I(v.D)>>I(v.S)) >= I(v.G)), "d >> s >= g")
	v = ops()
	sv.Assert(v.X273() == (I(v.S) >= (I(v.D)>>I(v.S))), "s >= d >> s")
	v = ops()
	sv.Assert(v.X274() == ((I(v.B)>>I(v.S)) == I(v.C)), "b >> s == c")
	v = ops()
	sv.Assert(v.X275() == (I(v.G) == (I(v.S)>>I(v.S))), "g == s >> s")
	v = ops()
	sv.Assert(v.X276() == ((I(v.C)>>I(v.S)) != I(v.A)), "c >> s != a")
	v = ops()
	sv.Assert(v.X277() == (I(v.C) != (I(v.C)>>I(v.S))), "c != c >> s")
	v = ops()
	sv.Assert(v.X278() == (-(I(v.B) >> I(v.S))), "-(b >> s)")
	v = ops()
	sv.Assert(v.X279() == ((-I(v.S))>>I(v.S)), "-s >> s")
}

func C16_Pairs014() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-I(v.G)) >= 0)
	sv.Assume((-I(v.G)) <= 20)
	sv.Assert(v.X280() == (I(v.G)>>(-I(v.G))), "g >> -g")
	v = ops()
	sv.Assert(v.X281() == (I(v.G)>>I(v.S)), "+(g >> s)")
	v = ops()
	sv.Assert(v.X282() == (I(v.D)>>I(v.S)), "+d >> s")
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X283() == (I(v.D)>>I(v.B)), "d >> +b")
	v = ops()
	sv.Assert(v.X284() == (^(I(v.C) >> I(v.S))), "~(c >> s)")
	v = ops()
	sv.Assert(v.X285() == ((^I(v.C))>>I(v.S)), "~c >> s")
	v = ops()
	sv.Assume((^I(v.G)) >= 0)
	sv.Assume((^I(v.G)) <= 20)
	sv.Assert(v.X286() == (I(v.C)>>(^I(v.G))), "c >> ~g")
	v = ops()
	sv.Assert(v.X287() == ((I(v.C)&I(v.S))+I(v.C)), "(c & s) + c")
	v = ops()
	sv.Assert(v.X288() == (I(v.C)&(I(v.S)+I(v.C))), "c & s + c")
	v = ops()
	sv.Assert(v.X289() == ((I(v.A)&I(v.D))-I(v.B)), "(a & d) - b")
	v = ops()
	sv.Assert(v.X290() == (I(v.D)&(I(v.S)-I(v.C))), "d & s - c")
	v = ops()
	sv.Assert(v.X291() == ((I(v.D)&I(v.B))*I(v.A)), "(d & b) * a")
	v = ops()
	sv.Assert(v.X292() == (I(v.A)&(I(v.C)*I(v.D))), "a & c * d")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X293() == ((I(v.A)&I(v.C))/I(v.A)), "(a & c) / a")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X294() == (I(v.G)&(I(v.D)/I(v.G))), "g & d / g")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X295() == ((I(v.D)&I(v.G))%I(v.C)), "(d & g) % c")
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X296() == (I(v.D)&(I(v.B)%I(v.S))), "d & b % s")
	v = ops()
	sv.Assert(v.X297() == ((I(v.C)&I(v.G))<<I(v.S)), "(c & g) << s")
	v = ops()
	sv.Assert(v.X298() == (I(v.C)&(I(v.D)<<I(v.S))), "c & d << s")
	v = ops()
	sv.Assert(v.X299() == ((I(v.G)&I(v.C))>>I(v.S)), "(g & c) >> s")
}

func C16_Pairs015() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X300() == (I(v.B)&(I(v.A)>>I(v.S))), "b & a >> s")
	v = ops()
	sv.Assert(v.X301() == ((I(v.C)&I(v.C))&I(v.B)), "c & c & b")
	v = ops()
	sv.Assert(v.X302() == (I(v.A)&(I(v.S)&I(v.A))), "a & (s & a)")
	v = ops()
	sv.Assert(v.X303() == ((I(v.D)&I(v.C))^I(v.G)), "d & c ^ g")
	v = ops()
	sv.Assert(v.X304() == (I(v.D)&(I(v.C)^I(v.C))), "d & (c ^ c)")
	v = ops()
	sv.Assert(v.X305() == ((I(v.B)&I(v.B))|I(v.D)), "b & b | d")
	v = ops()
	sv.Assert(v.X306() == (I(v.G)&(I(v.B)|I(v.D))), "g & (b | d)")
	v = ops()
	sv.Assert(v.X307() == ((I(v.C)&I(v.G)) < I(v.A)), "(c & g) < a")
	v = ops()
	sv.Assert(v.X308() == (I(v.C) < (I(v.D)&I(v.B))), "c < (d & b)")
	v = ops()
	sv.Assert(v.X309() == ((I(v.G)&I(v.D)) <= I(v.S)), "(g & d) <= s")
	v = ops()
	sv.Assert(v.X310() == (I(v.A) <= (I(v.C)&I(v.G))), "a <= (c & g)")
	v = ops()
	sv.Assert(v.X311() == ((I(v.S)&I(v.B)) > I(v.D)), "(s & b) > d")
	v = ops()
	sv.Assert(v.X312() == (I(v.A) > (I(v.S)&I(v.D))), "a > (s & d)")
	v = ops()
	sv.Assert(v.X313() == ((I(v.G)&I(v.A)) >= I(v.S)), "(g & a) >= s")
	v = ops()
	sv.Assert(v.X314() == (I(v.A) >= (I(v.S)&I(v.C))), "a >= (s & c)")
	v = ops()
	sv.Assert(v.X315() == ((I(v.A)&I(v.B)) == I(v.B)), "(a & b) == b")
	v = ops()
	sv.Assert(v.X316() == (I(v.D) == (I(v.S)&I(v.D))), "d == (s & d)")
	v = ops()
	sv.Assert(v.X317() == ((I(v.D)&I(v.A)) != I(v.S)), "(d & a) != s")
	v = ops()
	sv.Assert(v.X318() == (I(v.G) != (I(v.D)&I(v.A))), "g != (d & a)")
	v = ops()
	sv.Assert(v.X319() == (-(I(v.A) & I(v.G))), "-(a & g)")
}

func C16_Pairs016() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X320() == ((-I(v.A))&I(v.C)), "-a & c")
	v = ops()
	sv.Assert(v.X321() == (I(v.S)&(-I(v.G))), "s & -g")
	v = ops()
	sv.Assert(v.X322() == (I(v.C)&I(v.G)), "+(c & g)")
	v = ops()
	sv.Assert(v.X323() == (I(v.A)&I(v.D)), "+a & d")
	v = ops()
	sv.Assert(v.X324() == (I(v.C)&I(v.B)), "c & +b")
	v = ops()
	sv.Assert(v.X325() == (^(I(v.B) & I(v.D))), "~(b & d)")
	v = ops()
	sv.Assert(v.X326() == ((^I(v.B))&I(v.B)), "~b & b")
	v = ops()
	sv.Assert(v.X327() == (I(v.D)&(^I(v.B))), "d & ~b")
	v = ops()
	sv.Assert(v.X328() == ((I(v.A)^I(v.C))+I(v.G)), "(a ^ c) + g")
	v = ops()
	sv.Assert(v.X329() == (I(v.G)^(I(v.S)+I(v.A))), "g ^ s + a")
	v = ops()
	sv.Assert(v.X330() == ((I(v.B)^I(v.A))-I(v.B)), "(b ^ a) - b")
	v = ops()
	sv.Assert(v.X331() == (I(v.S)^(I(v.A)-I(v.B))), "s ^ a - b")
	v = ops()
	sv.Assert(v.X332() == ((I(v.D)^I(v.D))*I(v.B)), "(d ^ d) * b")
	v = ops()
	sv.Assert(v.X333() == (I(v.C)^(I(v.A)*I(v.S))), "c ^ a * s")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X334() == ((I(v.S)^I(v.B))/I(v.A)), "(s ^ b) / a")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X335() == (I(v.A)^(I(v.A)/I(v.A))), "a ^ a / a")
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X336() == ((I(v.S)^I(v.G))%I(v.A)), "(s ^ g) % a")
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X337() == (I(v.A)^(I(v.D)%I(v.D))), "a ^ d % d")
	v = ops()
	sv.Assert(v.X338() == ((I(v.A)^I(v.D))<<I(v.S)), "(a ^ d) << s")
	v = ops()
	sv.Assert(v.X339() == (I(v.A)^(I(v.D)<<I(v.S))), "a ^ d << s")
}

func C16_Pairs017() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X340() == ((I(v.A)^I(v.A))>>I(v.S)), "(a ^ a) >> s")
	v = ops()
	sv.Assert(v.X341() == (I(v.A)^(I(v.S)>>I(v.S))), "a ^ s >> s")
	v = ops()
	sv.Assert(v.X342() == ((I(v.C)^I(v.A))&I(v.B)), "(c ^ a) & b")
	v = ops()
	sv.Assert(v.X343() == (I(v.S)^(I(v.A)&I(v.S))), "s ^ a & s")
	v = ops()
	sv.Assert(v.X344() == ((I(v.C)^I(v.G))^I(v.C)), "c ^ g ^ c")
	v = ops()
	sv.Assert(v.X345() == (I(v.A)^(I(v.S)^I(v.C))), "a ^ (s ^ c)")
	v = ops()
	sv.Assert(v.X346() == ((I(v.A)^I(v.A))|I(v.S)), "a ^ a | s")
	v = ops()
	sv.Assert(v.X347() == (I(v.G)^(I(v.S)|I(v.A))), "g ^ (s | a)")
	v = ops()
	sv.Assert(v.X348() == ((I(v.S)^I(v.B)) < I(v.B)), "(s ^ b) < b")
	v = ops()
	sv.Assert(v.X349() == (I(v.B) < (I(v.G)^I(v.S))), "b < (g ^ s)")
	v = ops()
	sv.Assert(v.X350() == ((I(v.G)^I(v.S)) <= I(v.B)), "(g ^ s) <= b")
	v = ops()
	sv.Assert(v.X351() == (I(v.D) <= (I(v.D)^I(v.C))), "d <= (d ^ c)")
	v = ops()
	sv.Assert(v.X352() == ((I(v.S)^I(v.G)) > I(v.D)), "(s ^ g) > d")
	v = ops()
	sv.Assert(v.X353() == (I(v.D) > (I(v.C)^I(v.D))), "d > (c ^ d)")
	v = ops()
	sv.Assert(v.X354() == ((I(v.C)^I(v.S)) >= I(v.G)), "(c ^ s) >= g")
	v = ops()
	sv.Assert(v.X355() == (I(v.A) >= (I(v.B)^I(v.B))), "a >= (b ^ b)")
	v = ops()
	sv.Assert(v.X356() == ((I(v.S)^I(v.C)) == I(v.D)), "(s ^ c) == d")
	v = ops()
	sv.Assert(v.X357() == (I(v.G) == (I(v.C)^I(v.G))), "g == (c ^ g)")
	v = ops()
	sv.Assert(v.X358() == ((I(v.C)^I(v.G)) != I(v.S)), "(c ^ g) != s")
	v = ops()
	sv.Assert(v.X359() == (I(v.G) != (I(v.B)^I(v.D))), "g != (b ^ d)")
}

func C16_Pairs018() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X360() == (-(I(v.S) ^ I(v.A))), "-(s ^ a)")
	v = ops()
	sv.Assert(v.X361() == ((-I(v.A))^I(v.D)), "-a ^ d")
	v = ops()
	sv.Assert(v.X362() == (I(v.D)^(-I(v.G))), "d ^ -g")
	v = ops()
	sv.Assert(v.X363() == (I(v.B)^I(v.C)), "+(b ^ c)")
	v = ops()
	sv.Assert(v.X364() == (I(v.S)^I(v.B)), "+s ^ b")
	v = ops()
	sv.Assert(v.X365() == (I(v.D)^I(v.B)), "d ^ +b")
	v = ops()
	sv.Assert(v.X366() == (^(I(v.A) ^ I(v.C))), "~(a ^ c)")
	v = ops()
	sv.Assert(v.X367() == ((^I(v.G))^I(v.G)), "~g ^ g")
	v = ops()
	sv.Assert(v.X368() == (I(v.C)^(^I(v.B))), "c ^ ~b")
	v = ops()
	sv.Assert(v.X369() == ((I(v.G)|I(v.D))+I(v.D)), "(g | d) + d")
	v = ops()
	sv.Assert(v.X370() == (I(v.A)|(I(v.C)+I(v.S))), "a | c + s")
	v = ops()
	sv.Assert(v.X371() == ((I(v.C)|I(v.S))-I(v.B)), "(c | s) - b")
	v = ops()
	sv.Assert(v.X372() == (I(v.D)|(I(v.C)-I(v.D))), "d | c - d")
	v = ops()
	sv.Assert(v.X373() == ((I(v.D)|I(v.A))*I(v.B)), "(d | a) * b")
	v = ops()
	sv.Assert(v.X374() == (I(v.G)|(I(v.A)*I(v.C))), "g | a * c")
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X375() == ((I(v.C)|I(v.G))/I(v.C)), "(c | g) / c")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X376() == (I(v.B)|(I(v.D)/I(v.G))), "b | d / g")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X377() == ((I(v.A)|I(v.S))%I(v.G)), "(a | s) % g")
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X378() == (I(v.G)|(I(v.C)%I(v.G))), "g | c % g")
	v = ops()
	sv.Assert(v.X379() == ((I(v.G)|I(v.A))<<I(v.S)), "(g | a) << s")
}

func C16_Pairs019() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X380() == (I(v.C)|(I(v.B)<<I(v.S))), "c | b << s")
	v = ops()
	sv.Assert(v.X381() == ((I(v.G)|I(v.B))>>I(v.S)), "(g | b) >> s")
	v = ops()
	sv.Assert(v.X382() == (I(v.S)|(I(v.S)>>I(v.S))), "s | s >> s")
	v = ops()
	sv.Assert(v.X383() == ((I(v.A)|I(v.D))&I(v.D)), "(a | d) & d")
	v = ops()
	sv.Assert(v.X384() == (I(v.B)|(I(v.C)&I(v.A))), "b | c & a")
	v = ops()
	sv.Assert(v.X385() == ((I(v.B)|I(v.G))^I(v.A)), "(b | g) ^ a")
	v = ops()
	sv.Assert(v.X386() == (I(v.C)|(I(v.A)^I(v.D))), "c | a ^ d")
	v = ops()
	sv.Assert(v.X387() == ((I(v.G)|I(v.C))|I(v.A)), "g | c | a")
	v = ops()
	sv.Assert(v.X388() == (I(v.C)|(I(v.D)|I(v.S))), "c | (d | s)")
	v = ops()
	sv.Assert(v.X389() == ((I(v.C)|I(v.B)) < I(v.B)), "(c | b) < b")
	v = ops()
	sv.Assert(v.X390() == (I(v.G) < (I(v.C)|I(v.A))), "g < (c | a)")
	v = ops()
	sv.Assert(v.X391() == ((I(v.C)|I(v.B)) <= I(v.A)), "(c | b) <= a")
	v = ops()
	sv.Assert(v.X392() == (I(v.G) <= (I(v.B)|I(v.S))), "g <= (b | s)")
	v = ops()
	sv.Assert(v.X393() == ((I(v.B)|I(v.A)) > I(v.G)), "(b | a) > g")
	v = ops()
	sv.Assert(v.X394() == (I(v.S) > (I(v.S)|I(v.D))), "s > (s | d)")
	v = ops()
	sv.Assert(v.X395() == ((I(v.G)|I(v.C)) >= I(v.S)), "(g | c) >= s")
	v = ops()
	sv.Assert(v.X396() == (I(v.S) >= (I(v.B)|I(v.B))), "s >= (b | b)")
	v = ops()
	sv.Assert(v.X397() == ((I(v.S)|I(v.B)) == I(v.C)), "(s | b) == c")
	v = ops()
	sv.Assert(v.X398() == (I(v.S) == (I(v.C)|I(v.G))), "s == (c | g)")
	v = ops()
	sv.Assert(v.X399() == ((I(v.D)|I(v.B)) != I(v.S)), "(d | b) != s")
}

func C16_Pairs020() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X400() == (I(v.B) != (I(v.D)|I(v.S))), "b != (d | s)")
	v = ops()
	sv.Assert(v.X401() == (-(I(v.B) | I(v.G))), "-(b | g)")
	v = ops()
	sv.Assert(v.X402() == ((-I(v.B))|I(v.C)), "-b | c")
	v = ops()
	sv.Assert(v.X403() == (I(v.G)|(-I(v.G))), "g | -g")
	v = ops()
	sv.Assert(v.X404() == (I(v.B)|I(v.G)), "+(b | g)")
	v = ops()
	sv.Assert(v.X405() == (I(v.G)|I(v.S)), "+g | s")
	v = ops()
	sv.Assert(v.X406() == (I(v.B)|I(v.B)), "b | +b")
	v = ops()
	sv.Assert(v.X407() == (^(I(v.S) | I(v.D))), "~(s | d)")
	v = ops()
	sv.Assert(v.X408() == ((^I(v.G))|I(v.C)), "~g | c")
	v = ops()
	sv.Assert(v.X409() == (I(v.D)|(^I(v.G))), "d | ~g")
	v = ops()
	sv.Assert(v.X410() == ((bool(v.P) && bool(v.Q)) && bool(v.R)), "p && q && r")
	v = ops()
	sv.Assert(v.X411() == (bool(v.P) && (bool(v.Q) && bool(v.R))), "p && (q && r)")
	v = ops()
	sv.Assert(v.X412() == ((bool(v.P) && bool(v.Q)) || bool(v.R)), "p && q || r")
	v = ops()
	sv.Assert(v.X413() == (bool(v.P) && (bool(v.Q) || bool(v.R))), "p && (q || r)")
	v = ops()
	sv.Assert(v.X414() == ((bool(v.P) && bool(v.Q)) == bool(v.R)), "(p && q) == r")
	v = ops()
	sv.Assert(v.X415() == (bool(v.P) && (bool(v.Q) == bool(v.R))), "p && q == r")
	v = ops()
	sv.Assert(v.X416() == ((bool(v.P) && bool(v.Q)) != bool(v.R)), "(p && q) != r")
	v = ops()
	sv.Assert(v.X417() == (bool(v.P) && (bool(v.Q) != bool(v.R))), "p && q != r")
	v = ops()
	sv.Assert(v.X418() == ((I(v.S) < I(v.S)) && bool(v.P)), "s < s && p")
	v = ops()
	sv.Assert(v.X419() == (bool(v.P) && (I(v.C) < I(v.D))), "p && c < d")
}

func C16_Pairs021() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X420() == ((!(I(v.C) < I(v.G))) && bool(v.Q)), "!(c < g) && q")
	v = ops()
	sv.Assert(v.X421() == ((I(v.G) <= I(v.C)) && bool(v.P)), "g <= c && p")
	v = ops()
	sv.Assert(v.X422() == (bool(v.P) && (I(v.S) <= I(v.B))), "p && s <= b")
	v = ops()
	sv.Assert(v.X423() == ((!(I(v.D) <= I(v.A))) && bool(v.Q)), "!(d <= a) && q")
	v = ops()
	sv.Assert(v.X424() == ((I(v.D) > I(v.D)) && bool(v.P)), "d > d && p")
	v = ops()
	sv.Assert(v.X425() == (bool(v.P) && (I(v.G) > I(v.A))), "p && g > a")
	v = ops()
	sv.Assert(v.X426() == ((!(I(v.C) > I(v.B))) && bool(v.Q)), "!(c > b) && q")
	v = ops()
	sv.Assert(v.X427() == ((I(v.B) >= I(v.S)) && bool(v.P)), "b >= s && p")
	v = ops()
	sv.Assert(v.X428() == (bool(v.P) && (I(v.S) >= I(v.A))), "p && s >= a")
	v = ops()
	sv.Assert(v.X429() == ((!(I(v.C) >= I(v.G))) && bool(v.Q)), "!(c >= g) && q")
	v = ops()
	sv.Assert(v.X430() == ((I(v.B) == I(v.A)) && bool(v.P)), "b == a && p")
	v = ops()
	sv.Assert(v.X431() == (bool(v.P) && (I(v.D) == I(v.A))), "p && d == a")
	v = ops()
	sv.Assert(v.X432() == ((!(I(v.A) == I(v.G))) && bool(v.Q)), "!(a == g) && q")
	v = ops()
	sv.Assert(v.X433() == ((I(v.B) != I(v.A)) && bool(v.P)), "b != a && p")
	v = ops()
	sv.Assert(v.X434() == (bool(v.P) && (I(v.C) != I(v.S))), "p && c != s")
	v = ops()
	sv.Assert(v.X435() == ((!(I(v.D) != I(v.G))) && bool(v.Q)), "!(d != g) && q")
	v = ops()
	sv.Assert(v.X436() == ((bool(v.P) || bool(v.Q)) && bool(v.R)), "(p || q) && r")
	v = ops()
	sv.Assert(v.X437() == (bool(v.P) || (bool(v.Q) && bool(v.R))), "p || q && r")
	v = ops()
	sv.Assert(v.X438() == ((bool(v.P) || bool(v.Q)) || bool(v.R)), "p || q || r")
	v = ops()
	sv.Assert(v.X439() == (bool(v.P) || (bool(v.Q) || bool(v.R))), "p || (q || r)")
}

func C16_Pairs022() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X440() == ((bool(v.P) || bool(v.Q)) == bool(v.R)), "(p || q) == r")
	v = ops()
	sv.Assert(v.X441() == (bool(v.P) || (bool(v.Q) == bool(v.R))), "p || q == r")
	v = ops()
	sv.Assert(v.X442() == ((bool(v.P) || bool(v.Q)) != bool(v.R)), "(p || q) != r")
	v = ops()
	sv.Assert(v.X443() == (bool(v.P) || (bool(v.Q) != bool(v.R))), "p || q != r")
	v = ops()
	sv.Assert(v.X444() == ((I(v.S) < I(v.B)) || bool(v.P)), "s < b || p")
	v = ops()
	sv.Assert(v.X445() == (bool(v.P) || (I(v.A) < I(v.D))), "p || a < d")
	v = ops()
	sv.Assert(v.X446() == ((!(I(v.S) < I(v.A))) || bool(v.Q)), "!(s < a) || q")
	v = ops()
	sv.Assert(v.X447() == ((I(v.S) <= I(v.A)) || bool(v.P)), "s <= a || p")
	v = ops()
	sv.Assert(v.X448() == (bool(v.P) || (I(v.C) <= I(v.D))), "p || c <= d")
	v = ops()
	sv.Assert(v.X449() == ((!(I(v.S) <= I(v.D))) || bool(v.Q)), "!(s <= d) || q")
	v = ops()
	sv.Assert(v.X450() == ((I(v.C) > I(v.A)) || bool(v.P)), "c > a || p")
	v = ops()
	sv.Assert(v.X451() == (bool(v.P) || (I(v.S) > I(v.G))), "p || s > g")
	v = ops()
	sv.Assert(v.X452() == ((!(I(v.B) > I(v.C))) || bool(v.Q)), "!(b > c) || q")
	v = ops()
	sv.Assert(v.X453() == ((I(v.B) >= I(v.G)) || bool(v.P)), "b >= g || p")
	v = ops()
	sv.Assert(v.X454() == (bool(v.P) || (I(v.C) >= I(v.A))), "p || c >= a")
	v = ops()
	sv.Assert(v.X455() == ((!(I(v.C) >= I(v.A))) || bool(v.Q)), "!(c >= a) || q")
	v = ops()
	sv.Assert(v.X456() == ((I(v.S) == I(v.D)) || bool(v.P)), "s == d || p")
	v = ops()
	sv.Assert(v.X457() == (bool(v.P) || (I(v.S) == I(v.S))), "p || s == s")
	v = ops()
	sv.Assert(v.X458() == ((!(I(v.G) == I(v.A))) || bool(v.Q)), "!(g == a) || q")
	v = ops()
	sv.Assert(v.X459() == ((I(v.C) != I(v.B)) || bool(v.P)), "c != b || p")
}

func C16_Pairs023() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X460() == (bool(v.P) || (I(v.D) != I(v.C))), "p || d != c")
	v = ops()
	sv.Assert(v.X461() == ((!(I(v.S) != I(v.D))) || bool(v.Q)), "!(s != d) || q")
	v = ops()
	sv.Assert(v.X462() == ((bool(v.P) == bool(v.Q)) && bool(v.R)), "p == q && r")
	v = ops()
	sv.Assert(v.X463() == (bool(v.P) == (bool(v.Q) && bool(v.R))), "p == (q && r)")
	v = ops()
	sv.Assert(v.X464() == ((bool(v.P) == bool(v.Q)) || bool(v.R)), "p == q || r")
	v = ops()
	sv.Assert(v.X465() == (bool(v.P) == (bool(v.Q) || bool(v.R))), "p == (q || r)")
	v = ops()
	sv.Assert(v.X466() == ((bool(v.P) == bool(v.Q)) == bool(v.R)), "p == q == r")
	v = ops()
	sv.Assert(v.X467() == (bool(v.P) == (bool(v.Q) == bool(v.R))), "p == (q == r)")
	v = ops()
	sv.Assert(v.X468() == ((bool(v.P) == bool(v.Q)) != bool(v.R)), "p == q != r")
	v = ops()
	sv.Assert(v.X469() == (bool(v.P) == (bool(v.Q) != bool(v.R))), "p == (q != r)")
	v = ops()
	sv.Assert(v.X470() == ((I(v.D) < I(v.G)) == bool(v.P)), "d < g == p")
	v = ops()
	sv.Assert(v.X471() == (bool(v.P) == (I(v.D) < I(v.D))), "p == d < d")
	v = ops()
	sv.Assert(v.X472() == ((!(I(v.C) < I(v.G))) == bool(v.Q)), "!(c < g) == q")
	v = ops()
	sv.Assert(v.X473() == ((I(v.C) <= I(v.G)) == bool(v.P)), "c <= g == p")
	v = ops()
	sv.Assert(v.X474() == (bool(v.P) == (I(v.D) <= I(v.D))), "p == d <= d")
	v = ops()
	sv.Assert(v.X475() == ((!(I(v.B) <= I(v.C))) == bool(v.Q)), "!(b <= c) == q")
	v = ops()
	sv.Assert(v.X476() == ((I(v.S) > I(v.G)) == bool(v.P)), "s > g == p")
	v = ops()
	sv.Assert(v.X477() == (bool(v.P) == (I(v.G) > I(v.B))), "p == g > b")
	v = ops()
	sv.Assert(v.X478() == ((!(I(v.D) > I(v.G))) == bool(v.Q)), "!(d > g) == q")
	v = ops()
	sv.Assert(v.X479() == ((I(v.B) >= I(v.B)) == bool(v.P)), "b >= b == p")
}

func C16_Pairs024() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X480() == (bool(v.P) == (I(v.C) >= I(v.S))), "p == c >= s")
	v = ops()
	sv.Assert(v.X481() == ((!(I(v.C) >= I(v.C))) == bool(v.Q)), "!(c >= c) == q")
	v = ops()
	sv.Assert(v.X482() == ((I(v.D) == I(v.G)) == bool(v.P)), "d == g == p")
	v = ops()
	sv.Assert(v.X483() == (bool(v.P) == (I(v.D) == I(v.G))), "p == (d == g)")
	v = ops()
	sv.Assert(v.X484() == ((!(I(v.A) == I(v.D))) == bool(v.Q)), "!(a == d) == q")
	v = ops()
	sv.Assert(v.X485() == ((I(v.B) != I(v.C)) == bool(v.P)), "b != c == p")
	v = ops()
	sv.Assert(v.X486() == (bool(v.P) == (I(v.C) != I(v.G))), "p == (c != g)")
	v = ops()
	sv.Assert(v.X487() == ((!(I(v.G) != I(v.G))) == bool(v.Q)), "!(g != g) == q")
	v = ops()
	sv.Assert(v.X488() == ((bool(v.P) != bool(v.Q)) && bool(v.R)), "p != q && r")
	v = ops()
	sv.Assert(v.X489() == (bool(v.P) != (bool(v.Q) && bool(v.R))), "p != (q && r)")
	v = ops()
	sv.Assert(v.X490() == ((bool(v.P) != bool(v.Q)) || bool(v.R)), "p != q || r")
	v = ops()
	sv.Assert(v.X491() == (bool(v.P) != (bool(v.Q) || bool(v.R))), "p != (q || r)")
	v = ops()
	sv.Assert(v.X492() == ((bool(v.P) != bool(v.Q)) == bool(v.R)), "p != q == r")
	v = ops()
	sv.Assert(v.X493() == (bool(v.P) != (bool(v.Q) == bool(v.R))), "p != (q == r)")
	v = ops()
	sv.Assert(v.X494() == ((bool(v.P) != bool(v.Q)) != bool(v.R)), "p != q != r")
	v = ops()
	sv.Assert(v.X495() == (bool(v.P) != (bool(v.Q) != bool(v.R))), "p != (q != r)")
	v = ops()
	sv.Assert(v.X496() == ((I(v.S) < I(v.D)) != bool(v.P)), "s < d != p")
	v = ops()
	sv.Assert(v.X497() == (bool(v.P) != (I(v.S) < I(v.S))), "p != s < s")
	v = ops()
	sv.Assert(v.X498() == ((!(I(v.A) < I(v.D))) != bool(v.Q)), "!(a < d) != q")
	v = ops()
	sv.Assert(v.X499() == ((I(v.C) <= I(v.C)) != bool(v.P)), "c <= c != p")
}

func C16_Pairs025() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X500() == (bool(v.P) != (I(v.G) <= I(v.D))), "p != g <= d")
	v = ops()
	sv.Assert(v.X501() == ((!(I(v.A) <= I(v.S))) != bool(v.Q)), "!(a <= s) != q")
	v = ops()
	sv.Assert(v.X502() == ((I(v.C) > I(v.D)) != bool(v.P)), "c > d != p")
	v = ops()
	sv.Assert(v.X503() == (bool(v.P) != (I(v.D) > I(v.S))), "p != d > s")
	v = ops()
	sv.Assert(v.X504() == ((!(I(v.D) > I(v.A))) != bool(v.Q)), "!(d > a) != q")
	v = ops()
	sv.Assert(v.X505() == ((I(v.G) >= I(v.S)) != bool(v.P)), "g >= s != p")
	v = ops()
	sv.Assert(v.X506() == (bool(v.P) != (I(v.B) >= I(v.S))), "p != b >= s")
	v = ops()
	sv.Assert(v.X507() == ((!(I(v.D) >= I(v.A))) != bool(v.Q)), "!(d >= a) != q")
	v = ops()
	sv.Assert(v.X508() == ((I(v.A) == I(v.C)) != bool(v.P)), "a == c != p")
	v = ops()
	sv.Assert(v.X509() == (bool(v.P) != (I(v.B) == I(v.S))), "p != (b == s)")
	v = ops()
	sv.Assert(v.X510() == ((!(I(v.D) == I(v.B))) != bool(v.Q)), "!(d == b) != q")
	v = ops()
	sv.Assert(v.X511() == ((I(v.S) != I(v.A)) != bool(v.P)), "s != a != p")
	v = ops()
	sv.Assert(v.X512() == (bool(v.P) != (I(v.S) != I(v.A))), "p != (s != a)")
	v = ops()
	sv.Assert(v.X513() == ((!(I(v.B) != I(v.G))) != bool(v.Q)), "!(b != g) != q")
}

func C16_Random000() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.E) | 1000) != 0)
	sv.Assume((-((70000 * I(v.C)) & (I(v.G) | I(v.D)))) != 0)
	sv.Assert(v.X514() == ((^((I(v.D) << I(v.S)) / (I(v.E) | 1000)))/(-((70000 * I(v.C)) & (I(v.G) | I(v.D))))), "~((d << s) / (e | 1000)) / -(70000 * c & (g | d))")
}

func C16_Random001() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) - (-I(v.C))) >= 0)
	sv.Assume((I(v.G) - (-I(v.C))) <= 20)
	sv.Assert(v.X515() == ((^((I(v.E) | I(v.C)) << (I(v.S) + I(v.S))))&(I(v.F)<<(I(v.G)-(-I(v.C))))), "~((e | c) << s + s) & f << g - -c")
}

func C16_Random002() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X516() == ((((I(v.F)+7)&I(v.F))^((I(v.C)/256)*(^I(v.G))))/I(v.A)), "(f + 7 & f ^ c / 256 * ~g) / a")
}

func C16_Random003() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X517() == ((((-I(v.F)) == (I(v.D)/70000)) && ((bool(v.P) != bool(v.P)) == (!bool(v.Q)))) || (((I(v.E)&1)-(I(v.E)-I(v.C))) != I(v.E))), "-f == d / 70000 && p != p == !q || (e & 1) - (e - c) != e")
}

func C16_Random004() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X518() == (((!((bool(v.P) && bool(v.P)) || (!bool(v.P) && bool(v.R)))) && ((!bool(v.Q)) != (I(v.S) >= I(v.G)))) != ((!(!bool(v.R))) == ((I(v.G)^200) == (I(v.G)-1000)))), "(!(p ? p : r) && !q != s >= g) != (!!r == ((g ^ 200) == g - 1000))")
}

func C16_Random005() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume(((I(v.A) * I(v.B)) % I(v.D)) != 0)
	sv.Assert(v.X519() == ((10^I(v.C)) == (pick((bool(v.Q) && bool(v.Q)), (I(v.G)/10), (I(v.F)-I(v.A)))/((I(v.A)*I(v.B))%I(v.D)))), "(10 ^ c) == (q && q ? g / 10 : f - a) / (a * b % d)")
}

func C16_Random006() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X520() == ((((I(v.A)/I(v.C))-(I(v.D)-3)) <= (-(I(v.A) >> 3))) || (I(v.C) != ((I(v.G)+I(v.E))|(I(v.E)%I(v.B))))), "a / c - (d - 3) <= -(a >> 3) || c != (g + e | e % b)")
}

func C16_Random007() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) / 2) != 0)
	sv.Assert(v.X521() == ((((^I(v.B))%2)|((-I(v.G))<<pick(bool(v.R), I(v.S), I(v.S))))/(I(v.G)/2)), "(~b % +2 | -g << (r ? s : s)) / (g / 2)")
}

func C16_Random008() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume((((I(v.F) << I(v.C)) | (I(v.F) << I(v.C))) % 2) != 0)
	sv.Assert(v.X522() == (I(v.F)%(((I(v.F)<<I(v.C))|(I(v.F)<<I(v.C)))%2)), "+f % ((f << c | f << c) % 2)")
}

func C16_Random009() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X523() == (!(!(I(v.A) <= (255 - I(v.C))))), "!!(a <= 255 - c)")
}

func C16_Random010() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X524() == (((I(v.C)-(I(v.A)&70000))-((I(v.S)^I(v.F))&I(v.E))) != (((256^I(v.S))+(I(v.S)+3))*(^I(v.G)))), "c - (a & 70000) - ((s ^ f) & e) != ((256 ^ s) + (s + 3)) * ~g")
}

func C16_Random011() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assume(I(v.F) != 0)
	sv.Assume((I(v.B) / I(v.F)) >= 0)
	sv.Assume((I(v.B) / I(v.F)) <= 20)
	sv.Assume(pick(bool(v.P), I(v.S), I(v.C)) >= 0)
	sv.Assume(pick(bool(v.P), I(v.S), I(v.C)) <= 20)
	sv.Assert(v.X525() == (!(((I(v.D) % I(v.F)) << (I(v.B) / I(v.F))) > ((I(v.E) + I(v.A)) << pick(bool(v.P), I(v.S), I(v.C))))), "!(d % f << b / f > e + a << (p ? s : c))")
}

func C16_Random012() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) ^ I(v.A)) >= 0)
	sv.Assume((I(v.G) ^ I(v.A)) <= 20)
	sv.Assume(((I(v.G) ^ I(v.A)) >> (I(v.G) ^ I(v.A))) >= 0)
	sv.Assume(((I(v.G) ^ I(v.A)) >> (I(v.G) ^ I(v.A))) <= 20)
	sv.Assert(v.X526() == ((I(v.E)>>((I(v.G)^I(v.A))>>(I(v.G)^I(v.A)))) < ((I(v.B)*I(v.C))^(^200))), "e >> ((g ^ a) >> (g ^ a)) < +(b * c ^ ~200)")
}

func C16_Random013() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X527() == ((((70000>>I(v.C))|(^0)) == pick(((bool(v.Q) && bool(v.Q)) || (!bool(v.Q) && bool(v.Q))), (I(v.A)%I(v.D)), (I(v.G)|I(v.G)))) != bool(v.P)), "(70000 >> c | ~0) == ((q ? q : q) ? a % d : g | g) != p")
}

func C16_Random014() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.B) != 0)
	sv.Assume(I(v.C) != 0)
	sv.Assume((I(v.B) % I(v.C)) >= 0)
	sv.Assume((I(v.B) % I(v.C)) <= 20)
	sv.Assume(I(v.E) != 0)
	sv.Assert(v.X528() == ((I(v.A) > ((I(v.D)%I(v.S))%I(v.A))) == (((I(v.A)/I(v.B))>>(I(v.B)%I(v.C))) <= ((256*I(v.B))|(I(v.S)%I(v.E))))), "a > d % s % a == a / b >> b % c <= (256 * b | s % e)")
}

func C16_Random015() {
	var v *exr.Ops
	v = ops()
	sv.Assume((^I(v.B)) != 0)
	sv.Assert(v.X529() == ((I(v.S)&((I(v.E)-I(v.B))%(^I(v.B)))) > 1000), "(s & (e - b) % ~b) > 1000")
}

func C16_Random016() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-I(v.B)) >= 0)
	sv.Assume((-I(v.B)) <= 20)
	sv.Assert(v.X530() == (!(((I(v.B) - I(v.D)) >> (-I(v.B))) < (I(v.D) - (I(v.E) << 1)))), "!(b - d >> -b < d - (e << 1))")
}

func C16_Random017() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assert(v.X531() == ((((I(v.G)*I(v.A)) < (I(v.E)>>I(v.F))) == ((70000 == I(v.E)) && (bool(v.Q) && bool(v.Q)))) == (bool(v.P) && (!(bool(v.P) != bool(v.Q))))), "g * a < e >> f == (70000 == e && (q && q)) == (p && !(p != q))")
}

func C16_Random018() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X532() == (((I(v.D)+I(v.E))*70000) < (((I(v.S)-I(v.C))-(I(v.B)*I(v.E)))&(I(v.F)*I(v.E)))), "(d + e) * 70000 < (s - c - b * e & f * e)")
}

func C16_Random019() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X533() == (pick(((I(v.S)|2) > (1<<I(v.S))), ((I(v.B)*I(v.D))|I(v.B)), ((I(v.G)/I(v.F))^pick(bool(v.R), I(v.A), I(v.G))))+I(v.A)), "((s | 2) > 1 << s ? b * d | b : g / f ^ (r ? a : g)) + a")
}

func C16_Random020() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume(((I(v.E) << I(v.E)) ^ (^7)) != 0)
	sv.Assert(v.X534() == (pick(bool(v.R), ((I(v.D)|I(v.E))*(I(v.B)-I(v.B))), ((I(v.D)%200)-(I(v.B)%I(v.E))))/((I(v.E)<<I(v.E))^(^7))), "(r ? (d | e) * (b - b) : d % 200 - b % e) / +(e << e ^ ~7)")
}

func C16_Random021() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X535() == (!(bool(v.P) != ((bool(v.R) != bool(v.P)) || (2 <= I(v.F))))), "!(p != (r != p || 2 <= f))")
}

func C16_Random022() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X536() == (-((pick(bool(v.R), I(v.C), I(v.E)) - (I(v.E) - 1)) + (I(v.E) + I(v.S)))), "-((r ? c : e) - (e - 1) + (e + s))")
}

func C16_Random023() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assert(v.X537() == (^((I(v.B) & (200 ^ I(v.G))) - ((I(v.G) & I(v.D)) - (I(v.B) >> I(v.D))))), "~((+b & (200 ^ g)) - ((g & d) - (b >> d)))")
}

func C16_Random024() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume((I(v.B) << I(v.A)) != 0)
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume((I(v.A) << I(v.B)) != 0)
	sv.Assert(v.X538() == (^(((I(v.B) >> I(v.E)) / (I(v.B) << I(v.A))) + (7 / (I(v.A) << I(v.B))))), "~((b >> e) / (b << a) + 7 / (a << b))")
}

func C16_Random025() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assume(pick(bool(v.P), I(v.G), I(v.G)) != 0)
	sv.Assert(v.X539() == ((((I(v.E)/I(v.F))-(I(v.D)^I(v.A))) != (pick(bool(v.R), 10, I(v.S))%pick(bool(v.P), I(v.G), I(v.G)))) != bool(v.R)), "e / f - (d ^ a) != (r ? 10 : s) % (p ? g : g) != r")
}

func C16_Random026() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(((pick(bool(v.Q), I(v.D), I(v.B)) + (I(v.S) << I(v.B))) | I(v.G)) != 0)
	sv.Assert(v.X540() == (I(v.C)/((pick(bool(v.Q), I(v.D), I(v.B))+(I(v.S)<<I(v.B)))|I(v.G))), "c / ((q ? d : b) + (s << b) | g)")
}

func C16_Random027() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-I(v.G)) >= 0)
	sv.Assume((-I(v.G)) <= 20)
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assert(v.X541() == ((((I(v.A)-I(v.B))<<(-I(v.G))) == ((I(v.C)&10)/256)) || (!((1000 >> I(v.C)) > (3 * I(v.S))))), "a - b << -g == (c & 10) / 256 || !(1000 >> c > 3 * s)")
}

func C16_Random028() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X542() == (I(v.D)*((256-I(v.F))+(I(v.E)*I(v.C)))), "d * +(256 - f + e * c)")
}

func C16_Random029() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume((I(v.F) * 200) >= 0)
	sv.Assume((I(v.F) * 200) <= 20)
	sv.Assume((((1000 % I(v.C)) - (I(v.C) << I(v.S))) - (I(v.E) >> (I(v.F) * 200))) != 0)
	sv.Assert(v.X543() == ((^(I(v.A) ^ pick(bool(v.P), I(v.D), I(v.F))))%(((1000%I(v.C))-(I(v.C)<<I(v.S)))-(I(v.E)>>(I(v.F)*200)))), "~(a ^ (p ? d : f)) % (1000 % c - (c << s) - (e >> f * 200))")
}

func C16_Random030() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X544() == ((!bool(v.P)) || (((I(v.F) < (I(v.G)|I(v.D))) && ((I(v.C)%I(v.S)) != (I(v.F)+I(v.S)))) || (!(I(v.F) < (I(v.G)|I(v.D))) && (pick(bool(v.Q), 10, 7) == (I(v.D)+I(v.S)))))), "!p || (f < (g | d) ? c % s != f + s : (q ? 10 : 7) == d + s)")
}

func C16_Random031() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assert(v.X545() == (I(v.A) <= (-((I(v.G) >> I(v.F)) << (I(v.S) >> I(v.D))))), "a <= -(g >> f << (s >> d))")
}

func C16_Random032() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) + I(v.G)) != 0)
	sv.Assume(((I(v.C) ^ I(v.S)) / (I(v.G) + I(v.G))) >= 0)
	sv.Assume(((I(v.C) ^ I(v.S)) / (I(v.G) + I(v.G))) <= 20)
	sv.Assert(v.X546() == ((-((-255) + (I(v.F) ^ 3))) != ((-(1000 & I(v.F)))>>((I(v.C)^I(v.S))/(I(v.G)+I(v.G))))), "-(-255 + (f ^ 3)) != -(1000 & f) >> (c ^ s) / (g + g)")
}

func C16_Random033() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X547() == ((pick((bool(v.P) != bool(v.R)), (I(v.G)/I(v.S)), (I(v.A)%I(v.C)))*I(v.B))+(I(v.D)+(^1000))), "(p != r ? g / s : a % c) * b + (d + ~+1000)")
}

func C16_Random034() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X548() == (I(v.A) >= (((I(v.B)^I(v.A))*(256&I(v.S)))|(I(v.E)&(I(v.G)^I(v.B))))), "a >= ((b ^ a) * (256 & s) | e & (g ^ b))")
}

func C16_Random035() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X549() == ((I(v.E) <= I(v.S)) && (((bool(v.Q) != bool(v.R)) != (I(v.G) > I(v.F))) && ((!bool(v.R)) == ((bool(v.Q) && bool(v.R)) || (!bool(v.Q) && bool(v.R)))))), "e <= s && (q != r != g > f && !r == (q ? r : r))")
}

func C16_Random036() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X550() == ((((I(v.S)+I(v.A))|(I(v.E)&I(v.D)))-I(v.G)) >= (((I(v.B)>>I(v.G))^(I(v.E)+I(v.E)))+((I(v.B)|I(v.A))/I(v.F)))), "(s + a | e & d) - g >= (b >> g ^ e + e) + (b | a) / f")
}

func C16_Random037() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X551() == (!((((!bool(v.P)) && (!bool(v.R))) || (!(!bool(v.P)) && (!bool(v.Q)))) && ((I(v.E) % I(v.C)) < (I(v.A) & I(v.B))))), "!((!p ? !r : !q) && e % c < (a & b))")
}

func C16_Random038() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X552() == pick(bool(v.Q), pick((!(70000 != I(v.A))), ((I(v.S)*I(v.B))+I(v.G)), (-I(v.E))), (^I(v.G))), "q ? !(70000 != a) ? s * b + +g : -e : ~g")
}

func C16_Random039() {
	var v *exr.Ops
	v = ops()
	sv.Assume((200 | I(v.S)) != 0)
	sv.Assume(I(v.E) != 0)
	sv.Assume(pick(bool(v.P), 255, I(v.B)) != 0)
	sv.Assume((((255 % I(v.E)) % pick(bool(v.P), 255, I(v.B))) + I(v.D)) != 0)
	sv.Assert(v.X553() == ((((I(v.E)-I(v.C))/(200|I(v.S)))>>(-(^3)))/(((255%I(v.E))%pick(bool(v.P), 255, I(v.B)))+I(v.D))), "((e - c) / (200 | s) >> -~3) / (255 % e % (p ? 255 : b) + d)")
}

func C16_Random040() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X554() == (pick((I(v.D) == I(v.B)), (-(I(v.B)*I(v.D))), ((I(v.A)-I(v.D))^(I(v.G)|I(v.D)))) >= (((I(v.C)^I(v.D))^I(v.E))-I(v.D))), "(d == b ? -(b * d) : a - d ^ (g | d)) >= (c ^ d ^ e) - d")
}

func C16_Random041() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume((I(v.A) >> I(v.D)) >= 0)
	sv.Assume((I(v.A) >> I(v.D)) <= 20)
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X555() == (^(((I(v.A) >> I(v.A)) >> (I(v.A) >> I(v.D))) + ((I(v.F) * I(v.D)) | (I(v.E) % I(v.A))))), "~((a >> a >> (a >> d)) + (f * d | e % a))")
}

func C16_Random042() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X556() == ((!((bool(v.R) && bool(v.Q)) && (I(v.A) > I(v.S)))) && (((I(v.C)<<I(v.A))+(I(v.C)<<2)) == ((1-I(v.B))*(I(v.E)%I(v.B))))), "!(r && q && a > s) && (c << a) + (c << 2) == (1 - b) * (e % b)")
}

func C16_Random043() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assert(v.X557() == (!(!(I(v.A) <= (7 >> I(v.C))))), "!!(a <= 7 >> c)")
}

func C16_Random044() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assume((I(v.E) >> I(v.G)) != 0)
	sv.Assert(v.X558() == (-pick((!(bool(v.P) != bool(v.P))), ((I(v.C)&I(v.G))&(3-I(v.A))), ((^I(v.B))/(I(v.E)>>I(v.G))))), "-(!(p != p) ? c & g & 3 - a : ~b / (e >> g))")
}

func C16_Random045() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X559() == ((((I(v.F)>>I(v.D))|pick(bool(v.Q), 10, 7))<<I(v.C))-(((I(v.C)/I(v.S))-(I(v.E)-I(v.B)))|I(v.A))), "((f >> d | (q ? 10 : 7)) << c) - (c / s - (e - b) | a)")
}

func C16_Random046() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assert(v.X560() == (!(bool(v.R) || ((1000 >> I(v.B)) == (1000 << I(v.E))))), "!(r || 1000 >> b == 1000 << e)")
}

func C16_Random047() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume(pick((bool(v.R) == bool(v.P)), (I(v.A)/256), pick(bool(v.R), I(v.E), I(v.A))) != 0)
	sv.Assert(v.X561() == (I(v.D)-((I(v.F)+(7<<I(v.F)))/pick((bool(v.R) == bool(v.P)), (I(v.A)/256), pick(bool(v.R), I(v.E), I(v.A))))), "d - (f + (7 << f)) / (r == p ? a / 256 : r ? e : a)")
}

func C16_Random048() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X562() == ((bool(v.R) && (2 != (I(v.F)<<I(v.C)))) == (((1000/I(v.A))+(2^I(v.B))) <= ((I(v.F)>>I(v.B))+(I(v.E)%I(v.C))))), "(r && 2 != f << c) == 1000 / a + (2 ^ b) <= (f >> b) + e % c")
}

func C16_Random049() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X563() == (!(((10 | I(v.A)) >= 70000) || (!(I(v.F) >= I(v.C))))), "!((10 | a) >= 70000 || !(f >= c))")
}

func C16_Random050() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assume((I(v.A) & I(v.B)) >= 0)
	sv.Assume((I(v.A) & I(v.B)) <= 20)
	sv.Assert(v.X564() == (I(v.B) != (^((7 / I(v.E)) << (I(v.A) & I(v.B))))), "b != ~(7 / e << (a & b))")
}

func C16_Random051() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X565() == (((!((bool(v.R) && bool(v.Q)) || (!bool(v.R) && bool(v.R)))) != (!(I(v.A) >= I(v.A)))) != bool(v.R)), "!(r ? q : r) != !(a >= a) != r")
}

func C16_Random052() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X566() == (!(((((bool(v.Q) && bool(v.P)) || (!bool(v.Q) && bool(v.Q))) && (bool(v.P) == bool(v.Q))) || (!((bool(v.Q) && bool(v.P)) || (!bool(v.Q) && bool(v.Q))) && bool(v.Q))) != ((!bool(v.P)) != ((bool(v.R) && bool(v.Q)) || (!bool(v.R) && bool(v.R)))))), "!(((q ? p : q) ? p == q : q) != (!p != (r ? q : r)))")
}

func C16_Random053() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X567() == (!(((I(v.S) >= 200) && (7 != 255)) || ((3 / I(v.S)) >= (I(v.C) ^ I(v.S))))), "!(s >= 200 && 7 != 255 || 3 / s >= (c ^ s))")
}

func C16_Random054() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X568() == (I(v.D)+((pick(bool(v.Q), I(v.D), I(v.F))%I(v.S))|(I(v.S)|(I(v.E)&I(v.F))))), "d + ((q ? d : f) % s | (s | e & f))")
}

func C16_Random055() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume((I(v.S) / I(v.D)) >= 0)
	sv.Assume((I(v.S) / I(v.D)) <= 20)
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X569() == ((((I(v.S)%256)>>(I(v.S)/I(v.D)))^((I(v.A)>>I(v.B))|I(v.G)))+I(v.C)), "(s % 256 >> s / d ^ (a >> b | g)) + c")
}

func C16_Random056() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assume((I(v.G) % I(v.F)) >= 0)
	sv.Assume((I(v.G) % I(v.F)) <= 20)
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X570() == (I(v.E) != (((I(v.D)*I(v.S))<<(I(v.G)%I(v.F)))^((255/I(v.F))-(I(v.F)-I(v.B))))), "e != (d * s << g % f ^ 255 / f - (f - b))")
}

func C16_Random057() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X571() == (bool(v.P) || ((!(bool(v.R) != bool(v.R))) != (((1 == I(v.D)) && (I(v.D) == I(v.C))) || (!(1 == I(v.D)) && (I(v.C) > I(v.S)))))), "p || !(r != r) != (1 == d ? d == c : c > s)")
}

func C16_Random058() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assert(v.X572() == (((pick(bool(v.Q), I(v.G), I(v.C))+(I(v.D)>>I(v.F)))-((256>>I(v.C))&(^I(v.G))))*1), "((q ? g : c) + (d >> f) - (256 >> c & ~g)) * 1")
}

func C16_Random059() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assume(((I(v.G) - I(v.A)) / I(v.F)) != 0)
	sv.Assume((I(v.D) / 255) >= 0)
	sv.Assume((I(v.D) / 255) <= 20)
	sv.Assert(v.X573() == ((I(v.B)/((I(v.G)-I(v.A))/I(v.F))) == (((I(v.G)*I(v.D))>>(I(v.D)/255))*((I(v.B)|I(v.F))|256))), "b / ((g - a) / f) == (g * d >> d / 255) * (b | f | 256)")
}

func C16_Random060() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X574() == ((((3%I(v.A))<<pick(bool(v.P), I(v.S), I(v.S)))&255)^I(v.C)), "3 % a << (p ? s : s) & 255 ^ c")
}

func C16_Random061() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X575() == (((!(!(bool(v.P) != bool(v.R)))) && (((!bool(v.R)) != (I(v.F) >= 2)) != (I(v.S) > (^I(v.F))))) || (!(!(!(bool(v.P) != bool(v.R)))) && bool(v.P))), "!!(p != r) ? !r != f >= 2 != +s > ~f : p")
}

func C16_Random062() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume((I(v.F) / I(v.D)) >= 0)
	sv.Assume((I(v.F) / I(v.D)) <= 20)
	sv.Assume((I(v.E) << (I(v.F) / I(v.D))) != 0)
	sv.Assert(v.X576() == (((2|I(v.A))&pick(bool(v.P), I(v.A), I(v.G)))/(I(v.E)<<(I(v.F)/I(v.D)))), "+(((2 | a) & (p ? a : g)) / (+e << f / d))")
}

func C16_Random063() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X577() == ((pick(bool(v.Q), I(v.F), (I(v.F)+I(v.D)))+pick(bool(v.Q), I(v.D), (^I(v.C))))-7), "(q ? f : f + d) + (q ? d : ~c) - 7")
}

func C16_Random064() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X578() == ((pick((!bool(v.R)), I(v.A), (-I(v.B)))&((I(v.G)-I(v.E))%1)) > (-I(v.A))), "((!r ? a : -b) & (g - e) % 1) > -a")
}

func C16_Random065() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X579() == (!((I(v.B) | I(v.D)) >= (I(v.E) + (I(v.G) & I(v.B))))), "!(+(b | d) >= e + (g & b))")
}

func C16_Random066() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume((I(v.F) ^ I(v.D)) >= 0)
	sv.Assume((I(v.F) ^ I(v.D)) <= 20)
	sv.Assume(((I(v.A) % I(v.C)) >> (I(v.F) ^ I(v.D))) >= 0)
	sv.Assume(((I(v.A) % I(v.C)) >> (I(v.F) ^ I(v.D))) <= 20)
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X580() == (((I(v.C)|I(v.E))>>((I(v.A)%I(v.C))>>(I(v.F)^I(v.D))))^((I(v.F)%10)|(10%I(v.C)))), "+(c | e) >> (a % c >> (f ^ d)) ^ +(f % 10 | 10 % c)")
}

func C16_Random067() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.E) * I(v.S)) != 0)
	sv.Assert(v.X581() == ((((I(v.B)/(I(v.E)*I(v.S))) < (I(v.A)/7)) && (bool(v.P) == (((bool(v.P) && bool(v.R)) || (!bool(v.P) && bool(v.R))) == (bool(v.P) || bool(v.Q))))) || (!((I(v.B)/(I(v.E)*I(v.S))) < (I(v.A)/7)) && bool(v.R))), "b / (e * s) < +(a / 7) ? p == ((p ? r : r) == (p || q)) : r")
}

func C16_Random068() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X582() == (!((!(bool(v.P) != bool(v.P))) != ((I(v.D) < 3) == (bool(v.R) && bool(v.R))))), "!(!(p != p) != (d < 3 == (r && r)))")
}

func C16_Random069() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(pick(bool(v.P), I(v.A), I(v.G)) >= 0)
	sv.Assume(pick(bool(v.P), I(v.A), I(v.G)) <= 20)
	sv.Assume(((I(v.E) >> I(v.D)) >> pick(bool(v.P), I(v.A), I(v.G))) != 0)
	sv.Assert(v.X583() == ((I(v.S)^(^(I(v.E) << 2)))%((I(v.E)>>I(v.D))>>pick(bool(v.P), I(v.A), I(v.G)))), "(s ^ ~(e << 2)) % +(e >> d >> (p ? a : g))")
}

func C16_Random070() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X584() == (!((((bool(v.P) && bool(v.P)) || (!bool(v.P) && bool(v.P))) && ((bool(v.P) && bool(v.P)) || (!bool(v.P) && bool(v.P)))) || ((((bool(v.Q) && bool(v.Q)) || (!bool(v.Q) && bool(v.Q))) && (!bool(v.Q))) || (!((bool(v.Q) && bool(v.Q)) || (!bool(v.Q) && bool(v.Q))) && (I(v.F) != I(v.A)))))), "!((p ? p : p) && (p ? p : p) || ((q ? q : q) ? !q : f != a))")
}

func C16_Random071() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X585() == ((!bool(v.R)) == (((-I(v.G)) > (^I(v.F))) == bool(v.P))), "!r == (-g > ~f == p)")
}

func C16_Random072() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X586() == (I(v.S)|(I(v.C)*((I(v.F)/I(v.B))-pick(bool(v.P), 256, I(v.G))))), "s | c * (f / b - (p ? 256 : g))")
}

func C16_Random073() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X587() == (((((I(v.S) >= I(v.F)) != (I(v.D) <= I(v.A))) && (((I(v.D) != 70000) && (!bool(v.R))) || (!(I(v.D) != 70000) && (I(v.D) != 255)))) || (!((I(v.S) >= I(v.F)) != (I(v.D) <= I(v.A))) && (!(!bool(v.R))))) != bool(v.R)), "(s >= f != d <= a ? d != 70000 ? !r : d != 255 : !!r) != r")
}

func C16_Random074() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X588() == (((-(I(v.D) % I(v.A))) != 70000) == (I(v.F) > ((I(v.C)/I(v.A))-(I(v.B)&1000)))), "-(d % a) != + +70000 == f > c / a - (b & 1000)")
}

func C16_Random075() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X589() == ((2&((I(v.A)&256)-I(v.F))) > 200), "(2 & (a & 256) - f) > 200")
}

func C16_Random076() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assert(v.X590() == (7 < pick((!(bool(v.R) && bool(v.R))), 2, pick((bool(v.Q) == bool(v.R)), (I(v.B)>>I(v.C)), (I(v.C)>>I(v.D))))), "7 < (!(r && r) ? 2 : q == r ? b >> c : c >> d)")
}

func C16_Random077() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X591() == (!((((bool(v.R) == bool(v.Q)) && (bool(v.P) && bool(v.R))) && ((I(v.C) & I(v.A)) > (^I(v.B)))) || (!((bool(v.R) == bool(v.Q)) && (bool(v.P) && bool(v.R))) && ((I(v.S) / I(v.A)) <= (I(v.G) + I(v.G)))))), "!(r == q && (p && r) ? (c & a) > ~b : s / a <= g + g)")
}

func C16_Random078() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X592() == ((I(v.G) == I(v.G)) || (!((bool(v.Q) != bool(v.P)) != bool(v.Q)))), "g == +g || !(q != p != q)")
}

func C16_Random079() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X593() == ((((!bool(v.R)) || (1000 > I(v.S))) || ((I(v.D) != 0) == bool(v.R))) && (!(!(bool(v.P) != bool(v.R))))), "(!r || 1000 > s || d != 0 == r) && !!(p != r)")
}

func C16_Random080() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.F) ^ I(v.A)) >= 0)
	sv.Assume((I(v.F) ^ I(v.A)) <= 20)
	sv.Assert(v.X594() == ((I(v.G)>>(I(v.F)^I(v.A))) < pick((!((bool(v.Q) && bool(v.Q)) || (!bool(v.Q) && bool(v.P)))), (^(I(v.E)/70000)), (I(v.C)+I(v.E)))), "g >> (f ^ a) < (!(q ? q : p) ? ~(e / 70000) : +(c + e))")
}

func C16_Random081() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X595() == ((bool(v.P) && ((!bool(v.R)) || (!(bool(v.R) || bool(v.Q))))) || (!bool(v.P) && ((bool(v.R) != (I(v.D) == I(v.A))) || (!((bool(v.R) && bool(v.R)) || (!bool(v.R) && bool(v.P))))))), "p ? !r || !(r || q) : r != (d == a) || !(r ? r : p)")
}

func C16_Random082() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X596() == ((((pick(bool(v.R), I(v.F), I(v.G)) <= I(v.E)) || bool(v.Q)) && (I(v.D) >= 70000)) || (!((pick(bool(v.R), I(v.F), I(v.G)) <= I(v.E)) || bool(v.Q)) && bool(v.R))), "(r ? f : g) <= e || q ? d >= 70000 : r")
}

func C16_Random083() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume(I(v.D) != 0)
	sv.Assume((10 % I(v.D)) != 0)
	sv.Assert(v.X597() == ((((I(v.C)<<I(v.A))|3) >= ((I(v.F)|2)%(10%I(v.D)))) != (bool(v.P) && ((bool(v.P) == bool(v.R)) != (bool(v.R) && bool(v.Q))))), "(c << a | 3) >= (f | 2) % (10 % d) != (p && p == r != (r && q))")
}

func C16_Random084() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X598() == ((((I(v.F)/I(v.C))|(I(v.S)*256)) != (I(v.G)-1)) != (I(v.F) <= 1)), "(f / c | s * 256) != +(g - 1) != f <= 1")
}

func C16_Random085() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X599() == (!(((I(v.A) > I(v.E)) && (bool(v.Q) == bool(v.R))) == ((I(v.D) == I(v.E)) || (I(v.S) <= 2)))), "!((a > e && q == r) == (d == e || s <= 2))")
}

func C16_Random086() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.A) * I(v.G)) >= 0)
	sv.Assume((I(v.A) * I(v.G)) <= 20)
	sv.Assert(v.X600() == (((7+(I(v.D)-10))+(1>>(I(v.A)*I(v.G)))) <= I(v.B)), "+7 + (d - 10) + (1 >> a * g) <= +b")
}

func C16_Random087() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.C) * I(v.S)) >= 0)
	sv.Assume((I(v.C) * I(v.S)) <= 20)
	sv.Assume((((I(v.F) & I(v.D)) >> (I(v.C) * I(v.S))) ^ (I(v.D) ^ I(v.S))) >= 0)
	sv.Assume((((I(v.F) & I(v.D)) >> (I(v.C) * I(v.S))) ^ (I(v.D) ^ I(v.S))) <= 20)
	sv.Assert(v.X601() == ((((I(v.A)|I(v.D))+(I(v.D)-I(v.D)))-I(v.C))<<(((I(v.F)&I(v.D))>>(I(v.C)*I(v.S)))^(I(v.D)^I(v.S)))), "(a | d) + (d - d) - c << ((f & d) >> c * s ^ (d ^ s))")
}

func C16_Random088() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.S) & I(v.E)) >= 0)
	sv.Assume((I(v.S) & I(v.E)) <= 20)
	sv.Assume(((I(v.B) & I(v.G)) * pick(bool(v.P), I(v.B), I(v.G))) != 0)
	sv.Assert(v.X602() == (((I(v.B)<<(I(v.S)&I(v.E)))%((I(v.B)&I(v.G))*pick(bool(v.P), I(v.B), I(v.G)))) == I(v.S)), "(b << (s & e)) % ((b & g) * (p ? b : g)) == s")
}

func C16_Random089() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume((I(v.E) | I(v.B)) >= 0)
	sv.Assume((I(v.E) | I(v.B)) <= 20)
	sv.Assume(((10 - I(v.D)) * (I(v.C) >> I(v.S))) != 0)
	sv.Assert(v.X603() == ((I(v.S)|(-(I(v.F) << I(v.E))))+((I(v.F)<<(I(v.E)|I(v.B)))%((10-I(v.D))*(I(v.C)>>I(v.S))))), "(s | -(f << e)) + (f << (e | b)) % ((10 - d) * (c >> s))")
}

func C16_Random090() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assume((10 % I(v.E)) != 0)
	sv.Assume(((I(v.S) | I(v.B)) + (I(v.C) & I(v.C))) >= 0)
	sv.Assume(((I(v.S) | I(v.B)) + (I(v.C) & I(v.C))) <= 20)
	sv.Assert(v.X604() == (I(v.E) > (((I(v.S)+I(v.S))/(10%I(v.E)))<<((I(v.S)|I(v.B))+(I(v.C)&I(v.C))))), "e > (s + s) / (10 % e) << (s | b) + (c & c)")
}

func C16_Random091() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(I(v.D) != 0)
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assert(v.X605() == (^(pick((!bool(v.Q)), (I(v.D)>>I(v.D)), (I(v.G)%I(v.D))) ^ pick((I(v.F) >= I(v.F)), (1000>>I(v.A)), pick(bool(v.Q), 0, I(v.C))))), "~((!q ? d >> d : g % d) ^ (f >= f ? 1000 >> a : q ? 0 : c))")
}

func C16_Random092() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X606() == (((1%I(v.D))-pick((bool(v.R) || bool(v.R)), (255&I(v.C)), (3<<I(v.D))))/I(v.G)), "(1 % d - (r || r ? 255 & c : 3 << d)) / g")
}

func C16_Random093() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assert(v.X607() == (^((I(v.F) & (I(v.E) & I(v.G))) | ((I(v.B) - 70000) % I(v.G)))), "~(f & (e & g) | (b - 70000) % g)")
}

func C16_Random094() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assume(pick((bool(v.R) || bool(v.Q)), I(v.E), (I(v.A)-I(v.D))) != 0)
	sv.Assume((-I(v.C)) != 0)
	sv.Assert(v.X608() == ((((I(v.G)<<I(v.S))*(I(v.D)<<I(v.G)))/pick((bool(v.R) || bool(v.Q)), I(v.E), (I(v.A)-I(v.D)))) < (I(v.E)%(-I(v.C)))), "(g << s) * (d << g) / (r || q ? e : a - d) < e % -c")
}

func C16_Random095() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume((^((I(v.C) >> I(v.C)) ^ pick(bool(v.P), I(v.B), I(v.E)))) != 0)
	sv.Assert(v.X609() == (3/(^((I(v.C) >> I(v.C)) ^ pick(bool(v.P), I(v.B), I(v.E))))), "3 / ~(c >> c ^ (p ? b : e))")
}

func C16_Random096() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X610() == (bool(v.Q) == ((^pick(bool(v.P), I(v.A), I(v.D))) >= ((I(v.E)-I(v.F))&pick(bool(v.P), 3, I(v.A))))), "q == ~(p ? a : d) >= (e - f & (p ? 3 : a))")
}

func C16_Random097() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X611() == ((!bool(v.P)) && (!((bool(v.Q) || bool(v.Q)) != (bool(v.R) != bool(v.Q))))), "!p && !((q || q) != (r != q))")
}

func C16_Random098() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume((I(v.D) / I(v.D)) >= 0)
	sv.Assume((I(v.D) / I(v.D)) <= 20)
	sv.Assert(v.X612() == ((256^(I(v.E)|I(v.A)))|(((I(v.D)|I(v.E))>>(I(v.D)/I(v.D)))&200)), "+(256 ^ (e | a)) | (d | e) >> d / d & 200")
}

func C16_Random099() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(I(v.A) != 0)
	sv.Assume(((I(v.E) | (7 & I(v.B))) ^ I(v.E)) >= 0)
	sv.Assume(((I(v.E) | (7 & I(v.B))) ^ I(v.E)) <= 20)
	sv.Assert(v.X613() == ((((I(v.C)%1)-(I(v.D)<<I(v.B)))-((3%I(v.A))*(7-I(v.S))))<<((I(v.E)|(7&I(v.B)))^I(v.E))), "c % 1 - (d << b) - 3 % a * (7 - s) << ((e | 7 & b) ^ e)")
}

func C16_Random100() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume((I(v.A) & I(v.G)) != 0)
	sv.Assume(((I(v.C) / I(v.D)) / (I(v.A) & I(v.G))) != 0)
	sv.Assert(v.X614() == (7*(I(v.C)%((I(v.C)/I(v.D))/(I(v.A)&I(v.G))))), "7 * (c % (c / d / (a & g)))")
}

func C16_Random101() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X615() == (((-I(v.D))&pick(bool(v.R), 200, I(v.F))) <= ((^I(v.F))*I(v.G))), "(-+d & +(r ? 200 : f)) <= ~f * g")
}

func C16_Random102() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X616() == (!(bool(v.Q) != (((!bool(v.Q)) && (!bool(v.P))) || (!(!bool(v.Q)) && (bool(v.R) != bool(v.R)))))), "!(q != (!q ? !p : r != r))")
}

func C16_Random103() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X617() == ((((I(v.D)-I(v.E))|I(v.A))+I(v.G))/I(v.A)), "((d - e | a) + g) / a")
}

func C16_Random104() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.D) & (pick(bool(v.P), I(v.C), I(v.F)) ^ (I(v.C) + I(v.F)))) >= 0)
	sv.Assume((I(v.D) & (pick(bool(v.P), I(v.C), I(v.F)) ^ (I(v.C) + I(v.F)))) <= 20)
	sv.Assert(v.X618() == ((((I(v.F)^I(v.B))-I(v.C))*I(v.A))>>(I(v.D)&(pick(bool(v.P), I(v.C), I(v.F))^(I(v.C)+I(v.F))))), "((f ^ b) - c) * +a >> (d & ((p ? c : f) ^ c + f))")
}

func C16_Random105() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assert(v.X619() == (((pick(bool(v.Q), I(v.F), I(v.S))+I(v.S))&((I(v.S)%I(v.D))*(I(v.G)>>I(v.C))))-I(v.G)), "((q ? f : s) + +s & s % d * (g >> c)) - g")
}

func C16_Random106() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X620() == (!(((bool(v.Q) && (bool(v.Q) == bool(v.P))) && ((bool(v.Q) == bool(v.R)) == (I(v.G) > 2))) || (!(bool(v.Q) && (bool(v.Q) == bool(v.P))) && (pick(bool(v.R), I(v.A), I(v.G)) > (I(v.C) << I(v.B)))))), "!(q && q == p ? q == r == g > 2 : (r ? a : g) > c << b)")
}

func C16_Random107() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X621() == (I(v.B)&((I(v.F)+I(v.S))+(I(v.S)|(I(v.E)>>I(v.B))))), "b & +(f + s) + (s | e >> b)")
}

func C16_Random108() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X622() == ((!(I(v.C) <= (I(v.F) & I(v.B)))) == (((1000^I(v.A)) <= (I(v.G)^I(v.A))) != ((bool(v.R) != bool(v.P)) != (I(v.F) != I(v.E))))), "!(+c <= (f & b)) == ((1000 ^ a) <= (g ^ a) != (r != p != (f != e)))")
}

func C16_Random109() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assume(pick(bool(v.Q), (70000/I(v.S)), (-I(v.C))) >= 0)
	sv.Assume(pick(bool(v.Q), (70000/I(v.S)), (-I(v.C))) <= 20)
	sv.Assert(v.X623() == ((((70000&I(v.D))*(I(v.B)-I(v.G)))<<pick(bool(v.Q), (70000/I(v.S)), (-I(v.C)))) < 200), "(70000 & d) * (b - g) << (q ? 70000 / s : -c) < 200")
}

func C16_Random110() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X624() == (I(v.E)+(pick((!bool(v.P)), (10<<I(v.S)), (I(v.S)/I(v.F)))&((^200)|(I(v.S)&200)))), "e + ((!p ? 10 << s : s / f) & (~200 | s & 200))")
}

func C16_Random111() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X625() == (!((((bool(v.P) && bool(v.P)) == (I(v.S) <= 2)) && ((I(v.G) / I(v.F)) >= pick(bool(v.R), I(v.C), I(v.G)))) || (!((bool(v.P) && bool(v.P)) == (I(v.S) <= 2)) && (!(bool(v.P) && bool(v.P)))))), "!((p && p) == s <= 2 ? g / f >= (r ? c : g) : !(p && p))")
}

func C16_Random112() {
	var v *exr.Ops
	v = ops()
	sv.Assume((((I(v.E) - I(v.F)) & (I(v.D) & I(v.E))) | ((I(v.C) ^ I(v.A)) ^ (I(v.S) - 3))) != 0)
	sv.Assert(v.X626() == ((-I(v.A))/(((I(v.E)-I(v.F))&(I(v.D)&I(v.E)))|((I(v.C)^I(v.A))^(I(v.S)-3)))), "-a / (e - f & (d & e) | c ^ a ^ s - 3)")
}

func C16_Random113() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X627() == (((!((bool(v.P) != bool(v.R)) == (bool(v.P) == bool(v.Q)))) && bool(v.P)) || (!(!((bool(v.P) != bool(v.R)) == (bool(v.P) == bool(v.Q)))) && ((((bool(v.R) == bool(v.Q)) && (!bool(v.Q))) || (!(bool(v.R) == bool(v.Q)) && (bool(v.R) == bool(v.P)))) && bool(v.Q)))), "!(p != r == (p == q)) ? p : (r == q ? !q : r == p) && q")
}

func C16_Random114() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X628() == ((((I(v.D)+I(v.B)) <= (I(v.F)&7)) == (bool(v.R) && (bool(v.Q) && bool(v.Q)))) && (!((I(v.E) << I(v.B)) >= I(v.C)))), "d + b <= (f & 7) == (r && (q && q)) && !(e << b >= c)")
}

func C16_Random115() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X629() == (bool(v.R) && (!(((bool(v.P) && bool(v.P)) && (bool(v.Q) && bool(v.Q))) || (!(bool(v.P) && bool(v.P)) && (I(v.A) >= I(v.C)))))), "r && !(p && p ? q && q : a >= c)")
}

func C16_Random116() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) != 0)
	sv.Assume(((255 & I(v.F)) % I(v.G)) != 0)
	sv.Assume((I(v.S) & I(v.F)) != 0)
	sv.Assert(v.X630() == pick((I(v.G) != ((1&I(v.E))^(I(v.A)&I(v.A)))), (I(v.E)/((255&I(v.F))%I(v.G))), (2-(I(v.C)%(I(v.S)&I(v.F))))), "g != (1 & e ^ a & a) ? e / ((255 & f) % g) : 2 - c % (s & f)")
}

func C16_Random117() {
	var v *exr.Ops
	v = ops()
	sv.Assume((pick(bool(v.P), I(v.B), 1) ^ (I(v.D) ^ I(v.B))) != 0)
	sv.Assume((((I(v.G) >> 7) - (I(v.G) - 256)) / (pick(bool(v.P), I(v.B), 1) ^ (I(v.D) ^ I(v.B)))) >= 0)
	sv.Assume((((I(v.G) >> 7) - (I(v.G) - 256)) / (pick(bool(v.P), I(v.B), 1) ^ (I(v.D) ^ I(v.B)))) <= 20)
	sv.Assert(v.X631() == (I(v.E)>>(((I(v.G)>>7)-(I(v.G)-256))/(pick(bool(v.P), I(v.B), 1)^(I(v.D)^I(v.B))))), "e >> ((g >> 7) - (g - 256)) / ((p ? b : 1) ^ (d ^ b))")
}

func C16_Random118() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X632() == ((((I(v.G)<<I(v.B))|(I(v.A)/I(v.F)))+pick((200 < 70000), (I(v.C)&256), 10)) >= (^((-I(v.F)) % (I(v.B) - 200)))), "(g << b | a / f) + (200 < 70000 ? c & 256 : 10) >= ~(-f % (b - 200))")
}

func C16_Random119() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assume(I(v.G) != 0)
	sv.Assume(I(v.E) != 0)
	sv.Assume(((-(I(v.E) % I(v.E))) - ((I(v.S) - I(v.G)) << I(v.S))) >= 0)
	sv.Assume(((-(I(v.E) % I(v.E))) - ((I(v.S) - I(v.G)) << I(v.S))) <= 20)
	sv.Assert(v.X633() == ((((I(v.C)%I(v.S))-(I(v.G)%I(v.G)))^1)>>((-(I(v.E) % I(v.E)))-((I(v.S)-I(v.G))<<I(v.S)))), "(c % s - g % g ^ 1) >> -(e % e) - (s - g << s)")
}

func C16_Random120() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X634() == ((((70000&I(v.D))*I(v.C))|((I(v.G)&I(v.B))*(I(v.B)+I(v.E))))-((I(v.E)/I(v.A))+(^I(v.G)))), "((70000 & d) * c | (g & b) * (b + e)) - +(e / a + ~g)")
}

func C16_Random121() {
	var v *exr.Ops
	v = ops()
	sv.Assume(((^I(v.D)) - (I(v.A) | 0)) != 0)
	sv.Assume(I(v.C) != 0)
	sv.Assume((I(v.E) % I(v.C)) >= 0)
	sv.Assume((I(v.E) % I(v.C)) <= 20)
	sv.Assert(v.X635() == (((-200)%((^I(v.D))-(I(v.A)|0))) >= ((I(v.F)>>(I(v.E)%I(v.C)))^((1-I(v.F))|pick(bool(v.Q), I(v.G), I(v.A))))), "-200 % (~d - (a | 0)) >= (f >> e % c ^ (1 - f | (q ? g : a)))")
}

func C16_Random122() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-(I(v.C) * I(v.B))) != 0)
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume((I(v.B) >> I(v.F)) != 0)
	sv.Assert(v.X636() == ((I(v.A)%(-(I(v.C) * I(v.B)))) <= (((7<<I(v.S))%(I(v.B)>>I(v.F)))-0)), "a % -(c * b) <= (7 << s) % (b >> f) - 0")
}

func C16_Random123() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assert(v.X637() == ((-pick(bool(v.P), (I(v.E)<<I(v.E)), pick(bool(v.R), I(v.B), I(v.A))))^(-(pick(bool(v.P), I(v.F), I(v.S)) * (I(v.C) | I(v.S))))), "-(p ? e << e : r ? b : a) ^ -((p ? f : s) * (c | s))")
}

func C16_Random124() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X638() == (!((I(v.A) * (I(v.C) / I(v.S))) >= pick((bool(v.P) || bool(v.P)), I(v.A), pick(bool(v.Q), I(v.B), I(v.A))))), "!(a * (c / s) >= (p || p ? a : q ? b : a))")
}

func C16_Random125() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(I(v.S) != 0)
	sv.Assume((I(v.G) % I(v.S)) >= 0)
	sv.Assume((I(v.G) % I(v.S)) <= 20)
	sv.Assert(v.X639() == ((pick((I(v.S) > I(v.G)), 7, (I(v.E)<<I(v.D))) >= ((I(v.F)|256)<<(I(v.G)%I(v.S)))) != ((I(v.D) > I(v.S)) == bool(v.Q))), "(s > g ? 7 : e << d) >= (f | 256) << g % s != (d > +s == q)")
}

func C16_Random126() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X640() == (!(((((bool(v.P) && bool(v.R)) || (!bool(v.P) && bool(v.Q))) && (bool(v.P) != bool(v.Q))) && (!(I(v.E) < I(v.F)))) || (!(((bool(v.P) && bool(v.R)) || (!bool(v.P) && bool(v.Q))) && (bool(v.P) != bool(v.Q))) && ((-I(v.C)) <= (I(v.E) | 7))))), "!((p ? r : q) && p != q ? !(e < f) : -c <= (e | 7))")
}

func C16_Random127() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assert(v.X641() == ((-(1000 * I(v.E)))<<I(v.E)), "+-(1000 * e) << e")
}

func C16_Random128() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assert(v.X642() == (pick((!bool(v.R)), pick(bool(v.R), I(v.F), I(v.C)), (I(v.D)>>I(v.G)))&(I(v.F)+(I(v.B)&I(v.D)))), "+((!r ? r ? f : c : d >> g) & f + (b & d))")
}

func C16_Random129() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X643() == (!((bool(v.Q) && ((I(v.D) <= 70000) || (bool(v.Q) != bool(v.Q)))) || (!bool(v.Q) && (((bool(v.R) && bool(v.Q)) || (!bool(v.R) && bool(v.R))) != (I(v.C) < I(v.F)))))), "!(q ? d <= 70000 || q != q : (r ? q : r) != c < f)")
}

func C16_Random130() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume(((3 / I(v.S)) | (I(v.B) << I(v.E))) != 0)
	sv.Assert(v.X644() == (((I(v.G)|(^I(v.G)))/((3/I(v.S))|(I(v.B)<<I(v.E)))) < I(v.A)), "(g | ~g) / (3 / s | b << e) < a")
}

func C16_Random131() {
	var v *exr.Ops
	v = ops()
	sv.Assume((^I(v.B)) != 0)
	sv.Assume(I(v.F) != 0)
	sv.Assume(((I(v.A) % I(v.F)) ^ (I(v.S) / 200)) >= 0)
	sv.Assume(((I(v.A) % I(v.F)) ^ (I(v.S) / 200)) <= 20)
	sv.Assert(v.X645() == ((((3^I(v.S))%(^I(v.B)))>>((I(v.A)%I(v.F))^(I(v.S)/200))) > 3), "(3 ^ s) % ~b >> (a % f ^ s / 200) > 3")
}

func C16_Random132() {
	var v *exr.Ops
	v = ops()
	sv.Assume((^pick((!bool(v.R)), pick(bool(v.Q), I(v.A), 1000), pick(bool(v.Q), I(v.B), I(v.S)))) >= 0)
	sv.Assume((^pick((!bool(v.R)), pick(bool(v.Q), I(v.A), 1000), pick(bool(v.Q), I(v.B), I(v.S)))) <= 20)
	sv.Assert(v.X646() == (I(v.E)<<(^pick((!bool(v.R)), pick(bool(v.Q), I(v.A), 1000), pick(bool(v.Q), I(v.B), I(v.S))))), "e << ~(!r ? q ? a : 1000 : q ? b : s)")
}

func C16_Random133() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) - I(v.F)) >= 0)
	sv.Assume((I(v.G) - I(v.F)) <= 20)
	sv.Assume(((1000 & I(v.B)) << (I(v.G) - I(v.F))) != 0)
	sv.Assume((256 & I(v.D)) >= 0)
	sv.Assume((256 & I(v.D)) <= 20)
	sv.Assert(v.X647() == ((I(v.G)/((1000&I(v.B))<<(I(v.G)-I(v.F)))) != ((I(v.B)*pick(bool(v.R), 2, I(v.E)))>>(10>>(256&I(v.D))))), "g / ((1000 & b) << g - f) != b * (r ? 2 : e) >> (10 >> (256 & d))")
}

func C16_Random134() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.D) + I(v.S)) != 0)
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume(((I(v.D) << I(v.F)) & (I(v.S) - I(v.C))) >= 0)
	sv.Assume(((I(v.D) << I(v.F)) & (I(v.S) - I(v.C))) <= 20)
	sv.Assume((I(v.F) << ((I(v.D) << I(v.F)) & (I(v.S) - I(v.C)))) >= 0)
	sv.Assume((I(v.F) << ((I(v.D) << I(v.F)) & (I(v.S) - I(v.C)))) <= 20)
	sv.Assert(v.X648() == ((((I(v.E)&I(v.S))+(^I(v.S)))+(I(v.F)%(I(v.D)+I(v.S))))<<(I(v.F)<<((I(v.D)<<I(v.F))&(I(v.S)-I(v.C))))), "(e & s) + ~s + f % (d + s) << (f << (d << f & s - c))")
}

func C16_Random135() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assume(((I(v.G) + 2) ^ (I(v.F) - I(v.C))) != 0)
	sv.Assume(I(v.F) != 0)
	sv.Assume((I(v.F) / I(v.F)) >= 0)
	sv.Assume((I(v.F) / I(v.F)) <= 20)
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assert(v.X649() == (((^(200 / I(v.F)))/((I(v.G)+2)^(I(v.F)-I(v.C)))) > (((^I(v.E))<<(I(v.F)/I(v.F)))-((^I(v.S))>>I(v.A)))), "~(200 / f) / (g + 2 ^ f - c) > (~e << f / f) - (~s >> a)")
}

func C16_Random136() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assert(v.X650() == (((I(v.S)^(I(v.A)+I(v.S)))-I(v.C))<<I(v.F)), "(s ^ a + s) - c << f")
}

func C16_Random137() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X651() == (-(-((2 + I(v.A)) & I(v.F)))), "- -(2 + a & f)")
}

func C16_Random138() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.E) * I(v.A)) >= 0)
	sv.Assume((I(v.E) * I(v.A)) <= 20)
	sv.Assert(v.X652() == ((((I(v.E)*I(v.C))>>(I(v.E)*I(v.A)))+I(v.F))^((I(v.E)-I(v.D))&pick(bool(v.Q), I(v.B), 10))), "(e * c >> e * a) + f ^ e - d & +(q ? b : 10)")
}

func C16_Random139() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X653() == (!(bool(v.R) == ((0 != I(v.B)) == bool(v.Q)))), "!(r == (0 != b == q))")
}

func C16_Random140() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.S) != 0)
	sv.Assert(v.X654() == ((bool(v.R) == ((I(v.B)>>I(v.C)) < (3%I(v.A)))) != (I(v.E) > (I(v.F)-(I(v.A)%I(v.S))))), "r == b >> c < 3 % a != e > +f - a % s")
}

func C16_Random141() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assert(v.X655() == (((^(I(v.S) << I(v.A)))|pick((I(v.F) < I(v.D)), I(v.G), (I(v.B)%10))) < I(v.F)), "(~(s << a) | (f < d ? g : b % 10)) < f")
}

func C16_Random142() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X656() == (bool(v.Q) || (((bool(v.P) || bool(v.P)) == (bool(v.P) || bool(v.P))) || ((256/I(v.D)) >= I(v.E)))), "q || ((p || p) == (p || p) || 256 / d >= e)")
}

func C16_Random143() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.F) | I(v.F)) >= 0)
	sv.Assume((I(v.F) | I(v.F)) <= 20)
	sv.Assume(I(v.B) != 0)
	sv.Assume(I(v.E) != 0)
	sv.Assume(((I(v.C) / I(v.B)) & (I(v.D) / I(v.E))) != 0)
	sv.Assert(v.X657() == (((I(v.G)*(I(v.B)+7))-255)*(((I(v.D)-200)>>(I(v.F)|I(v.F)))/((I(v.C)/I(v.B))&(I(v.D)/I(v.E))))), "(g * (b + 7) - 255) * ((d - 200 >> (f | f)) / (c / b & d / e))")
}

func C16_Random144() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X658() == (!(!((I(v.S) - I(v.S)) < (^I(v.C))))), "!!(s - s < ~c)")
}

func C16_Random145() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X659() == (((-I(v.G))+((3*I(v.A))&(I(v.S)^I(v.C)))) > I(v.S)), "-g + (3 * a & (s ^ c)) > s")
}

func C16_Random146() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X660() == (!((200 > I(v.S)) || ((I(v.D) ^ I(v.F)) > (I(v.G) & I(v.D))))), "!(200 > s || (d ^ f) > (g & d))")
}

func C16_Random147() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X661() == (!(((bool(v.R) != bool(v.R)) || (2 <= I(v.D))) && ((I(v.D) <= 10) != (I(v.F) < 3)))), "!((r != r || 2 <= d) && d <= 10 != f < 3)")
}

func C16_Random148() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assume(I(v.F) != 0)
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assert(v.X662() == ((((256%I(v.E))+(I(v.A)%I(v.F)))-I(v.D))>>I(v.A)), "256 % e + a % f - d >> a")
}

func C16_Random149() {
	var v *exr.Ops
	v = ops()
	sv.Assume(((I(v.F) + I(v.B)) ^ pick(bool(v.R), I(v.C), I(v.D))) != 0)
	sv.Assert(v.X663() == (I(v.C)%((I(v.F)+I(v.B))^pick(bool(v.R), I(v.C), I(v.D)))), "+(c % (f + b ^ (r ? c : d)))")
}

func C16_Random150() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X664() == (pick((((!bool(v.Q)) && (I(v.A) > I(v.C))) || (!(!bool(v.Q)) && bool(v.Q))), ((70000+I(v.G))&(I(v.S)%I(v.F))), (^I(v.C)))&I(v.D)), "((!q ? a > c : q) ? 70000 + g & s % f : +~c) & d")
}

func C16_Random151() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.A) - (I(v.F) * I(v.C))) >= 0)
	sv.Assume((I(v.A) - (I(v.F) * I(v.C))) <= 20)
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X665() == ((((I(v.A)^I(v.S))+I(v.A))<<(I(v.A)-(I(v.F)*I(v.C))))*(-((I(v.C) % I(v.B)) + (I(v.A) - I(v.E))))), "((a ^ s) + a << a - f * c) * -(c % b + (a - e))")
}

func C16_Random152() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assert(v.X666() == (((pick(bool(v.R), I(v.C), I(v.E))+I(v.B))-((I(v.B)|I(v.F))|2))<<I(v.A)), "(r ? c : e) + b - (b | f | +2) << a")
}

func C16_Random153() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.S) != 0)
	sv.Assume(pick(bool(v.Q), I(v.G), I(v.A)) >= 0)
	sv.Assume(pick(bool(v.Q), I(v.G), I(v.A)) <= 20)
	sv.Assume(I(v.E) != 0)
	sv.Assume((I(v.F) / I(v.E)) >= 0)
	sv.Assume((I(v.F) / I(v.E)) <= 20)
	sv.Assert(v.X667() == ((((I(v.F)%I(v.S))>>pick(bool(v.Q), I(v.G), I(v.A)))^(I(v.A)*(I(v.G)|I(v.B)))) != ((I(v.E)&I(v.S))<<(I(v.F)/I(v.E)))), "(f % s >> (q ? g : a) ^ +a * (g | b)) != +((e & s) << f / e)")
}

func C16_Random154() {
	var v *exr.Ops
	v = ops()
	sv.Assume(((I(v.C) ^ I(v.B)) ^ I(v.F)) != 0)
	sv.Assert(v.X668() == ((I(v.E)%((I(v.C)^I(v.B))^I(v.F)))*(((I(v.G)*2)*(3&I(v.B)))&256)), "e % (c ^ b ^ f) * (g * 2 * (3 & b) & 256)")
}

func C16_Random155() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume((I(v.E) / I(v.C)) != 0)
	sv.Assert(v.X669() == (!((-(I(v.S) ^ I(v.E))) > (pick(bool(v.P), I(v.D), I(v.C)) % (I(v.E) / I(v.C))))), "!(-(s ^ e) > (p ? d : c) % (e / c))")
}

func C16_Random156() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X670() == (!(((bool(v.R) != bool(v.P)) != (I(v.E) < I(v.S))) != (!(I(v.E) < 70000)))), "!(r != p != e < s != !(e < 70000))")
}

func C16_Random157() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X671() == (!(!((I(v.S) - I(v.B)) != (I(v.S) + 7)))), "!!(s - b != s + 7)")
}

func C16_Random158() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume((7 - I(v.G)) >= 0)
	sv.Assume((7 - I(v.G)) <= 20)
	sv.Assume((((^I(v.G)) >> I(v.F)) + ((I(v.B) ^ I(v.B)) >> (7 - I(v.G)))) != 0)
	sv.Assert(v.X672() == (I(v.S)%(((^I(v.G))>>I(v.F))+((I(v.B)^I(v.B))>>(7-I(v.G))))), "s % ((~g >> f) + ((b ^ b) >> 7 - g))")
}

func C16_Random159() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X673() == ((pick((I(v.A) == I(v.A)), (I(v.E)%70000), (I(v.E)-1))+(I(v.F)&(I(v.B)^I(v.S)))) <= I(v.A)), "(a == a ? e % 70000 : e - 1) + (f & (b ^ s)) <= a")
}

func C16_Random160() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume(pick((bool(v.R) || bool(v.P)), (I(v.A)*10), (255>>I(v.S))) >= 0)
	sv.Assume(pick((bool(v.R) || bool(v.P)), (I(v.A)*10), (255>>I(v.S))) <= 20)
	sv.Assert(v.X674() == ((^pick((bool(v.Q) || bool(v.R)), (I(v.F)%I(v.D)), (I(v.C)+70000)))<<pick((bool(v.R) || bool(v.P)), (I(v.A)*10), (255>>I(v.S)))), "~(q || r ? f % d : c + 70000) << +(r || p ? a * 10 : 255 >> s)")
}

func C16_Random161() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X675() == (!(!((I(v.D) & I(v.B)) >= (I(v.S) % I(v.F))))), "!!((d & b) >= s % f)")
}

func C16_Random162() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assume((I(v.D) / 10) >= 0)
	sv.Assume((I(v.D) / 10) <= 20)
	sv.Assert(v.X676() == (I(v.B)|((I(v.C)|(I(v.E)/I(v.B)))&((^1000)<<(I(v.D)/10)))), "b | (c | e / b) & ~1000 << d / 10")
}

func C16_Random163() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X677() == ((I(v.F)^pick((bool(v.Q) == bool(v.R)), I(v.B), (I(v.E)|I(v.A))))*((I(v.B)*(I(v.S)*I(v.C)))|(-(I(v.G) + I(v.A))))), "(f ^ (q == r ? b : e | a)) * (b * (s * c) | -(g + a))")
}

func C16_Random164() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assert(v.X678() == (((((2 <= I(v.C)) != (256 >= I(v.S))) && (((bool(v.P) && bool(v.Q)) || (!bool(v.P) && bool(v.P))) || (I(v.C) == I(v.S)))) || (!((2 <= I(v.C)) != (256 >= I(v.S))) && (I(v.D) != (I(v.G)%I(v.A))))) == bool(v.R)), "(2 <= c != 256 >= s ? (p ? q : p) || c == s : d != g % a) == r")
}

func C16_Random165() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume(((I(v.D) >> I(v.E)) >> I(v.A)) >= 0)
	sv.Assume(((I(v.D) >> I(v.E)) >> I(v.A)) <= 20)
	sv.Assert(v.X679() == ((pick((!bool(v.R)), (I(v.E)&I(v.A)), (^I(v.E)))>>((I(v.D)>>I(v.E))>>I(v.A))) != I(v.F)), "(!r ? e & a : ~e) >> (d >> e >> a) != f")
}

func C16_Random166() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) | I(v.S)) >= 0)
	sv.Assume((I(v.G) | I(v.S)) <= 20)
	sv.Assume((I(v.E) & I(v.F)) != 0)
	sv.Assert(v.X680() == (!((I(v.F) >> (I(v.G) | I(v.S))) >= (I(v.A) / (I(v.E) & I(v.F))))), "!(f >> (g | s) >= a / (e & f))")
}

func C16_Random167() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X681() == (pick(((bool(v.R) && (255 >= I(v.C))) || (!bool(v.R) && (bool(v.P) == bool(v.P)))), I(v.D), (-(-I(v.C))))|I(v.S)), "((r ? 255 >= c : p == p) ? d : - -c) | s")
}

func C16_Random168() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X682() == ((((-I(v.B))-pick(bool(v.R), I(v.C), I(v.B)))*((I(v.A)<<I(v.B))+(I(v.B)>>10))) == I(v.G)), "(-b - (r ? c : b)) * ((a << b) + (b >> 10)) == g")
}

func C16_Random169() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assert(v.X683() == ((!(I(v.E) >= (I(v.G) | I(v.B)))) || (((^I(v.C)) != (I(v.G)>>I(v.F))) == (!(!bool(v.P))))), "!(e >= (g | b)) || ~c != g >> f == !!p")
}

func C16_Random170() {
	var v *exr.Ops
	v = ops()
	sv.Assume(pick((I(v.C) > (70000&I(v.A))), I(v.S), ((I(v.E)^I(v.B))-200)) >= 0)
	sv.Assume(pick((I(v.C) > (70000&I(v.A))), I(v.S), ((I(v.E)^I(v.B))-200)) <= 20)
	sv.Assert(v.X684() == (I(v.C)<<pick((I(v.C) > (70000&I(v.A))), I(v.S), ((I(v.E)^I(v.B))-200))), "c << (+c > (70000 & a) ? s : (e ^ b) - 200)")
}

func C16_Random171() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X685() == (((I(v.B)-(I(v.E)*I(v.A)))+(pick(bool(v.P), I(v.B), I(v.D))*(^200)))^I(v.E)), "b - e * a + (p ? b : d) * ~200 ^ e")
}

func C16_Random172() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X686() == ((I(v.B)-(I(v.C)*I(v.D))) > (((I(v.F)<<1)+(^I(v.G)))-(^pick(bool(v.Q), 0, I(v.B))))), "+(b - c * d) > (f << 1) + ~g - ~(q ? 0 : b)")
}

func C16_Random173() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume((I(v.G) * I(v.A)) >= 0)
	sv.Assume((I(v.G) * I(v.A)) <= 20)
	sv.Assume(((I(v.F) + I(v.G)) >> (I(v.G) * I(v.A))) >= 0)
	sv.Assume(((I(v.F) + I(v.G)) >> (I(v.G) * I(v.A))) <= 20)
	sv.Assert(v.X687() == ((-((I(v.B) + I(v.C)) & (I(v.A) & I(v.B)))) >= (((I(v.B)/I(v.A))-(I(v.E)&I(v.E)))<<((I(v.F)+I(v.G))>>(I(v.G)*I(v.A))))), "-(b + c & (a & b)) >= b / a - (e & e) << (f + g >> g * a)")
}

func C16_Random174() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assert(v.X688() == (!((bool(v.R) != (!bool(v.P))) || (I(v.C) < (2 >> I(v.C))))), "!(r != !p || +c < 2 >> c)")
}

func C16_Random175() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assert(v.X689() == ((-I(v.A))+(pick(((bool(v.P) && bool(v.Q)) || (!bool(v.P) && bool(v.P))), (I(v.C)^I(v.E)), (I(v.D)*I(v.A)))<<(0<<I(v.E)))), "-a + (((p ? q : p) ? c ^ e : d * a) << +(0 << e))")
}

func C16_Random176() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.F) + 70000) != 0)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(I(v.E) != 0)
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assert(v.X690() == ((((I(v.A)*I(v.B))/(I(v.F)+70000))<<I(v.D))^(pick(((bool(v.R) && bool(v.R)) || (!bool(v.R) && bool(v.P))), (I(v.G)%I(v.E)), (200&I(v.A)))<<I(v.G))), "a * b / (f + 70000) << d ^ ((r ? r : p) ? g % e : 200 & a) << g")
}

func C16_Random177() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X691() == ((((I(v.D)|I(v.E))%I(v.C))<<I(v.S))^pick(((bool(v.Q) == bool(v.P)) == (!bool(v.R))), ((I(v.F)>>2)^(I(v.E)%I(v.F))), I(v.C))), "(d | e) % c << s ^ (q == p == !r ? f >> 2 ^ e % f : c)")
}

func C16_Random178() {
	var v *exr.Ops
	v = ops()
	sv.Assume(pick(bool(v.Q), I(v.B), 3) != 0)
	sv.Assert(v.X692() == (!(((I(v.D) ^ I(v.S)) | (I(v.E) - I(v.D))) != ((I(v.F) ^ I(v.G)) / pick(bool(v.Q), I(v.B), 3)))), "!((d ^ s | e - d) != (f ^ g) / (q ? b : 3))")
}

func C16_Random179() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X693() == ((pick((!bool(v.Q)), (I(v.G)+I(v.F)), (I(v.S)&10))&((I(v.D)|I(v.E))|(I(v.F)|I(v.A))))*I(v.B)), "((!q ? g + f : s & 10) & (d | e | (f | a))) * b")
}

func C16_Random180() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X694() == ((70000 >= ((I(v.A)|I(v.S))/(^I(v.A)))) == ((I(v.A) <= (I(v.S)*I(v.E))) && (!(I(v.E) != I(v.C))))), "70000 >= (a | s) / ~a == (a <= s * e && !(e != c))")
}

func C16_Random181() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X695() == (^pick(((I(v.D) != I(v.A)) && bool(v.Q)), I(v.F), (I(v.S)|(1000%I(v.C))))), "~(d != a && q ? f : s | 1000 % c)")
}

func C16_Random182() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assume((I(v.B) / I(v.D)) >= 0)
	sv.Assume((I(v.B) / I(v.D)) <= 20)
	sv.Assume((^(-I(v.G))) != 0)
	sv.Assert(v.X696() == (pick(bool(v.P), I(v.S), I(v.C)) != (((I(v.S)&I(v.C))<<(I(v.B)/I(v.D)))%(^(-I(v.G))))), "(p ? s : c) != ((s & c) << b / d) % ~-g")
}

func C16_Random183() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.D) + I(v.B)) != 0)
	sv.Assume(I(v.B) != 0)
	sv.Assert(v.X697() == (((bool(v.Q) == (I(v.A) < I(v.E))) || bool(v.Q)) != (((70000<<I(v.S))/(I(v.D)+I(v.B))) > ((I(v.C)%I(v.B))*(10+I(v.E))))), "(q == a < e || q) != (70000 << s) / (d + b) > c % b * (10 + e)")
}

func C16_Random184() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assert(v.X698() == (2*((-(I(v.G) << I(v.S)))+((256<<I(v.F))*(256+I(v.C))))), "+2 * (-(g << s) + (256 << f) * (256 + c))")
}

func C16_Random185() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X699() == ((!(!(200 <= I(v.S)))) && ((pick(bool(v.R), I(v.A), I(v.C)) > pick(bool(v.R), 2, I(v.G))) != ((I(v.D) >= I(v.S)) && bool(v.R)))), "!!(200 <= s) && (r ? a : c) > (r ? 2 : g) != (d >= s && r)")
}

func C16_Random186() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume((^pick((!bool(v.R)), (I(v.A) | I(v.A)), (I(v.C) | I(v.F)))) != 0)
	sv.Assert(v.X700() == ((^((I(v.C) | I(v.C)) | (I(v.C) >> I(v.E))))%(^pick((!bool(v.R)), (I(v.A)|I(v.A)), (I(v.C)|I(v.F))))), "~(c | c | c >> e) % ~(!r ? a | a : c | f)")
}

func C16_Random187() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X701() == ((((I(v.D)|I(v.E))^(256^I(v.G))) >= I(v.D)) && bool(v.R)), "((d | e) ^ (256 ^ g)) >= d && r")
}

func C16_Random188() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assume(I(v.C) != 0)
	sv.Assert(v.X702() == ((((-I(v.S))^(1000>>I(v.G)))^(I(v.G)-pick(bool(v.Q), I(v.E), 2))) == (-((I(v.E) / I(v.C)) | (2 | I(v.S))))), "(-s ^ 1000 >> g ^ +g - (q ? e : 2)) == -(e / c | (2 | s))")
}

func C16_Random189() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X703() == (((((!bool(v.P)) && (I(v.A) <= I(v.D))) || (!(!bool(v.P)) && (bool(v.P) || bool(v.P)))) != (!bool(v.R))) || bool(v.R)), "(!p ? a <= d : p || p) != !r || r")
}

func C16_Random190() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X704() == ((bool(v.R) || ((!bool(v.R)) == (I(v.C) != I(v.D)))) && (((!bool(v.Q)) && (!(!bool(v.P)))) || (!(!bool(v.Q)) && (((bool(v.Q) || bool(v.P)) && (bool(v.P) && bool(v.P))) || (!(bool(v.Q) || bool(v.P)) && (!bool(v.Q))))))), "(r || !r == (c != d)) && (!q ? !!p : q || p ? p && p : !q)")
}

func C16_Random191() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X705() == (!((pick(bool(v.Q), 255, I(v.A)) | (I(v.F) * 200)) == pick((I(v.G) >= I(v.A)), (1000^I(v.E)), (I(v.A)-I(v.D))))), "!(((q ? 255 : a) | f * 200) == (g >= a ? 1000 ^ e : a - d))")
}

func C16_Random192() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X706() == (((((bool(v.Q) && bool(v.Q)) || (!bool(v.Q) && bool(v.Q))) == (I(v.D) >= I(v.A))) && (((bool(v.P) == bool(v.R)) && (I(v.D) > 3)) || (!(bool(v.P) == bool(v.R)) && (I(v.D) >= I(v.E))))) == bool(v.Q)), "((q ? q : q) == d >= a && (p == r ? d > 3 : d >= e)) == q")
}

func C16_Random193() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X707() == (bool(v.R) == ((I(v.D)-I(v.G)) > 200)), "r == +d - g > 200")
}

func C16_Random194() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X708() == (2*(((I(v.B)/70000)^I(v.A))&((I(v.F)*I(v.G))^(-255)))), "+ + +2 * ((b / 70000 ^ a) & (f * g ^ -255))")
}

func C16_Random195() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X709() == (!(((!bool(v.P)) && (pick(bool(v.R), I(v.E), I(v.E)) == (I(v.C) & I(v.C)))) || (!(!bool(v.P)) && ((I(v.S) >= I(v.G)) == (10 < I(v.F)))))), "!(!p ? (r ? e : e) == (c & c) : s >= g == 10 < f)")
}

func C16_Random196() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assume((I(v.B) >> I(v.G)) != 0)
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assert(v.X710() == (pick((!(I(v.G) >= 10)), I(v.A), ((^I(v.B))/(I(v.B)>>I(v.G))))^((^(I(v.A) | I(v.G)))-(2|(I(v.S)>>I(v.F))))), "(!(g >= 10) ? a : ~b / (b >> g)) ^ ~(a | g) - (2 | s >> f)")
}

func C16_Random197() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) / 10) != 0)
	sv.Assume(((3 * I(v.C)) & (2 * I(v.B))) != 0)
	sv.Assert(v.X711() == ((I(v.S)%(I(v.G)/10)) >= (I(v.C)%((3*I(v.C))&(2*I(v.B))))), "s % (g / 10) >= c % (3 * c & 2 * b)")
}

func C16_Random198() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume((I(v.E) + I(v.F)) >= 0)
	sv.Assume((I(v.E) + I(v.F)) <= 20)
	sv.Assert(v.X712() == ((I(v.E)|((I(v.E)/I(v.A))<<(I(v.E)+I(v.F)))) < I(v.B)), "(e | e / a << e + f) < b")
}

func C16_Random199() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume(I(v.F) >= 0)
	sv.Assume(I(v.F) <= 20)
	sv.Assume((I(v.D) * ((I(v.E) << 3) + (I(v.G) * I(v.C)))) >= 0)
	sv.Assume((I(v.D) * ((I(v.E) << 3) + (I(v.G) * I(v.C)))) <= 20)
	sv.Assert(v.X713() == ((((I(v.G)<<I(v.S))>>I(v.A))<<I(v.F))<<(I(v.D)*((I(v.E)<<3)+(I(v.G)*I(v.C))))), "g << s >> a << f << d * ((e << 3) + g * c)")
}

func C16_Random200() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X714() == ((I(v.C)*(^(10 + I(v.S)))) >= (I(v.S)-(I(v.D)^(I(v.B)|256)))), "c * ~(10 + s) >= s - (d ^ (b | 256))")
}

func C16_Random201() {
	var v *exr.Ops
	v = ops()
	sv.Assume(((I(v.G) * I(v.S)) + I(v.F)) >= 0)
	sv.Assume(((I(v.G) * I(v.S)) + I(v.F)) <= 20)
	sv.Assert(v.X715() == (-(pick((bool(v.P) != bool(v.Q)), (I(v.A)|0), pick(bool(v.R), I(v.F), I(v.S))) << ((I(v.G) * I(v.S)) + I(v.F)))), "-((p != q ? a | 0 : r ? f : s) << g * s + f)")
}

func C16_Random202() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume(((I(v.C) & I(v.D)) ^ (I(v.D) >> I(v.D))) >= 0)
	sv.Assume(((I(v.C) & I(v.D)) ^ (I(v.D) >> I(v.D))) <= 20)
	sv.Assert(v.X716() == ((((I(v.E)|I(v.A))>>(10>>I(v.S)))<<((I(v.C)&I(v.D))^(I(v.D)>>I(v.D))))+(I(v.F)&70000)), "((e | a) >> (10 >> s) << (c & d ^ d >> d)) + (f & 70000)")
}

func C16_Random203() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X717() == ((pick((bool(v.Q) != bool(v.P)), I(v.G), (I(v.F)%I(v.D)))^I(v.E))*I(v.S)), "((q != p ? g : f % d) ^ e) * s")
}

func C16_Random204() {
	var v *exr.Ops
	v = ops()
	sv.Assume((pick(bool(v.R), 255, I(v.E)) ^ pick(bool(v.R), I(v.B), I(v.D))) != 0)
	sv.Assert(v.X718() == (^(I(v.G) / (pick(bool(v.R), 255, I(v.E)) ^ pick(bool(v.R), I(v.B), I(v.D))))), "~(g / ((r ? 255 : e) ^ (r ? b : d)))")
}

func C16_Random205() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assert(v.X719() == (!(pick((bool(v.Q) || bool(v.R)), (I(v.S)&3), I(v.F)) <= ((7 / I(v.A)) | (I(v.F) >> I(v.B))))), "!((q || r ? s & 3 : f) <= (7 / a | f >> b))")
}

func C16_Random206() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X720() == (-pick((!(bool(v.R) || bool(v.P))), (-(I(v.B) + 7)), I(v.C))), "-(!(r || p) ? -(b + 7) : c)")
}

func C16_Random207() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assert(v.X721() == ((((bool(v.P) && bool(v.R)) == (I(v.E) == I(v.C))) == bool(v.P)) == ((I(v.D)^(I(v.E)/I(v.A))) < (-(I(v.S) << I(v.G))))), "(p && r) == (e == c) == p == (d ^ e / a) < -(s << g)")
}

func C16_Random208() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.A) - I(v.F)) >= 0)
	sv.Assume((I(v.A) - I(v.F)) <= 20)
	sv.Assume(I(v.C) != 0)
	sv.Assume((^((-I(v.B)) - (I(v.E) % I(v.C)))) >= 0)
	sv.Assume((^((-I(v.B)) - (I(v.E) % I(v.C)))) <= 20)
	sv.Assert(v.X722() == (((pick(bool(v.R), I(v.B), I(v.B))&(1000*I(v.A)))^((I(v.S)&I(v.E))<<(I(v.A)-I(v.F))))>>(^((-I(v.B)) - (I(v.E) % I(v.C))))), "((r ? b : b) & 1000 * a ^ (s & e) << a - f) >> ~(-b - e % c)")
}

func C16_Random209() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume((I(v.C) - I(v.A)) >= 0)
	sv.Assume((I(v.C) - I(v.A)) <= 20)
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(I(v.C) >= 0)
	sv.Assume(I(v.C) <= 20)
	sv.Assume((((255 >> I(v.B)) << (I(v.C) - I(v.A))) * pick(bool(v.P), (I(v.G)>>I(v.B)), (I(v.G)<<I(v.C)))) != 0)
	sv.Assert(v.X723() == (I(v.G)/(((255>>I(v.B))<<(I(v.C)-I(v.A)))*pick(bool(v.P), (I(v.G)>>I(v.B)), (I(v.G)<<I(v.C))))), "g / ((255 >> b << c - a) * (p ? g >> b : g << c))")
}

func C16_Random210() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-I(v.G)) >= 0)
	sv.Assume((-I(v.G)) <= 20)
	sv.Assume(I(v.G) != 0)
	sv.Assume(pick(bool(v.P), I(v.B), ((I(v.D)%I(v.G))+(I(v.A)^I(v.D)))) != 0)
	sv.Assert(v.X724() == ((I(v.G)&(I(v.D)>>(-I(v.G))))/pick(bool(v.P), I(v.B), ((I(v.D)%I(v.G))+(I(v.A)^I(v.D))))), "(g & d >> -g) / (p ? b : d % g + (a ^ d))")
}

func C16_Random211() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.S) ^ (-I(v.G))) != 0)
	sv.Assert(v.X725() == (0^(((I(v.A)|I(v.F))-(I(v.F)&I(v.G)))/(I(v.S)^(-I(v.G))))), "0 ^ ((a | f) - (f & g)) / (+s ^ -g)")
}

func C16_Random212() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.C) | I(v.A)) != 0)
	sv.Assume(((I(v.A) & I(v.C)) / (I(v.C) | I(v.A))) >= 0)
	sv.Assume(((I(v.A) & I(v.C)) / (I(v.C) | I(v.A))) <= 20)
	sv.Assert(v.X726() == (((I(v.C)-I(v.A))+I(v.B))<<(I(v.S)>>((I(v.A)&I(v.C))/(I(v.C)|I(v.A))))), "+(c - a) + b << (s >> (a & c) / (c | a))")
}

func C16_Random213() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.A) != 0)
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X727() == ((!((((bool(v.R) && bool(v.Q)) || (!bool(v.R) && bool(v.R))) && (!bool(v.P))) || (!((bool(v.R) && bool(v.Q)) || (!bool(v.R) && bool(v.R))) && (!bool(v.R))))) && (((I(v.A)/I(v.A))&(I(v.E)^I(v.G))) >= (I(v.D)%I(v.F)))), "!((r ? q : r) ? !p : !r) && (a / a & (e ^ g)) >= d % +f")
}

func C16_Random214() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assume(I(v.A) != 0)
	sv.Assume((I(v.E) % I(v.A)) != 0)
	sv.Assert(v.X728() == (-pick(((bool(v.R) != bool(v.R)) && (bool(v.Q) != bool(v.P))), ((I(v.C)%I(v.E))%(I(v.E)%I(v.A))), pick((bool(v.Q) || bool(v.Q)), I(v.E), (I(v.F)|I(v.C))))), "-(r != r && q != p ? c % e % (e % a) : q || q ? e : f | c)")
}

func C16_Random215() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-I(v.E)) != 0)
	sv.Assume(((70000 >> I(v.S)) / (-I(v.E))) != 0)
	sv.Assume(((I(v.C) | (I(v.D) * I(v.D))) | (1000 | (I(v.A) + I(v.C)))) != 0)
	sv.Assert(v.X729() == ((I(v.G)%((70000>>I(v.S))/(-I(v.E))))%((I(v.C)|(I(v.D)*I(v.D)))|(1000|(I(v.A)+I(v.C))))), "g % ((70000 >> s) / -e) % (c | d * d | (1000 | a + c))")
}

func C16_Random216() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assert(v.X730() == ((((I(v.C)%I(v.F)) >= (I(v.C)+I(v.E))) == (!((bool(v.R) && bool(v.P)) || (!bool(v.R) && bool(v.Q))))) && ((I(v.G)+(I(v.E)*I(v.S))) != (-(^7)))), "c % f >= c + e == !(r ? p : q) && g + e * s != -~7")
}

func C16_Random217() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assume(I(v.B) != 0)
	sv.Assume(((pick(bool(v.P), I(v.S), I(v.C)) ^ (^I(v.C))) + (I(v.F) | I(v.B))) != 0)
	sv.Assert(v.X731() == ((((I(v.F)/I(v.E))|(^I(v.D)))&(I(v.A)/I(v.B)))/((pick(bool(v.P), I(v.S), I(v.C))^(^I(v.C)))+(I(v.F)|I(v.B)))), "((f / e | ~d) & a / b) / (((p ? s : c) ^ ~c) + +(f | b))")
}

func C16_Random218() {
	var v *exr.Ops
	v = ops()
	sv.Assume((-I(v.D)) >= 0)
	sv.Assume((-I(v.D)) <= 20)
	sv.Assert(v.X732() == pick((bool(v.R) || (pick(bool(v.R), 2, I(v.A)) > (I(v.B)&3))), I(v.G), pick(bool(v.R), (1000<<(-I(v.D))), pick((I(v.D) > I(v.A)), I(v.G), 3))), "r || (r ? 2 : a) > (b & 3) ? g : r ? 1000 << -d : d > a ? g : 3")
}

func C16_Random219() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assert(v.X733() == (!(!((I(v.B) / I(v.E)) < I(v.D)))), "!!(b / e < d)")
}

func C16_Random220() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume(((I(v.A) / I(v.C)) * pick(bool(v.Q), I(v.G), I(v.B))) >= 0)
	sv.Assume(((I(v.A) / I(v.C)) * pick(bool(v.Q), I(v.G), I(v.B))) <= 20)
	sv.Assert(v.X734() == (I(v.G)<<((I(v.A)/I(v.C))*pick(bool(v.Q), I(v.G), I(v.B)))), "g << +(a / c * (q ? g : b))")
}

func C16_Random221() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X735() == (!((I(v.A) & (I(v.F) / 3)) > ((I(v.D) ^ I(v.E)) * (I(v.C) << 10)))), "!((a & f / 3) > (d ^ e) * (c << 10))")
}

func C16_Random222() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X736() == (pick(((bool(v.R) && bool(v.R)) != (bool(v.R) || bool(v.P))), (I(v.F)|3), ((I(v.F)-I(v.D))+pick(bool(v.P), I(v.B), I(v.F))))^0), "((r && r) != (r || p) ? +(f | 3) : f - d + (p ? b : f)) ^ 0")
}

func C16_Random223() {
	var v *exr.Ops
	v = ops()
	sv.Assume(((I(v.A) * I(v.E)) * (I(v.S) + I(v.C))) != 0)
	sv.Assume(I(v.G) >= 0)
	sv.Assume(I(v.G) <= 20)
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume((I(v.A) >> I(v.B)) != 0)
	sv.Assume((I(v.G) % (I(v.A) >> I(v.B))) >= 0)
	sv.Assume((I(v.G) % (I(v.A) >> I(v.B))) <= 20)
	sv.Assert(v.X737() == (((I(v.S)+I(v.A))%((I(v.A)*I(v.E))*(I(v.S)+I(v.C))))&((I(v.D)^(I(v.G)>>I(v.G)))<<(I(v.G)%(I(v.A)>>I(v.B))))), "+(s + a) % (a * e * (s + c)) & (d ^ g >> g) << g % (a >> b)")
}

func C16_Random224() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X738() == (!(((1 > I(v.A)) != ((bool(v.P) && bool(v.R)) || (!bool(v.P) && bool(v.Q)))) || (!(bool(v.Q) == bool(v.Q))))), "!(1 > a != (p ? r : q) || !(q == q))")
}

func C16_Random225() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.B) & I(v.E)) != 0)
	sv.Assume(I(v.D) != 0)
	sv.Assert(v.X739() == (((I(v.G)/(I(v.B)&I(v.E)))+3) != (((70000+I(v.D))|(I(v.A)%I(v.D)))*((I(v.S)^3)-(I(v.S)-I(v.E))))), "g / (b & e) + 3 != (70000 + d | a % d) * ((s ^ 3) - (s - e))")
}

func C16_Random226() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) >= 0)
	sv.Assume(I(v.B) <= 20)
	sv.Assume(I(v.A) >= 0)
	sv.Assume(I(v.A) <= 20)
	sv.Assume((I(v.E) << I(v.A)) != 0)
	sv.Assume((I(v.C) / (I(v.E) << I(v.A))) != 0)
	sv.Assert(v.X740() == (((I(v.A)|I(v.B))<<I(v.B))/(I(v.C)/(I(v.E)<<I(v.A)))), "+(((a | b) << b) / (c / (e << a)))")
}

func C16_Random227() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.D) - I(v.C)) != 0)
	sv.Assume(((I(v.S) + I(v.A)) / (I(v.D) - I(v.C))) >= 0)
	sv.Assume(((I(v.S) + I(v.A)) / (I(v.D) - I(v.C))) <= 20)
	sv.Assume((I(v.E) >> 0) >= 0)
	sv.Assume((I(v.E) >> 0) <= 20)
	sv.Assert(v.X741() == ((I(v.B)<<((I(v.S)+I(v.A))/(I(v.D)-I(v.C))))|(I(v.F)^((I(v.D)*I(v.B))>>(I(v.E)>>0)))), "b << (s + a) / (d - c) | f ^ d * b >> (e >> 0)")
}

func C16_Random228() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assume((I(v.D) % I(v.B)) >= 0)
	sv.Assume((I(v.D) % I(v.B)) <= 20)
	sv.Assume(pick(bool(v.P), I(v.B), I(v.D)) != 0)
	sv.Assert(v.X742() == (^((I(v.D) >> (I(v.D) % I(v.B))) | ((10 - I(v.C)) % pick(bool(v.P), I(v.B), I(v.D))))), "~(d >> d % b | (10 - c) % (p ? b : d))")
}

func C16_Random229() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X743() == (^(pick(((bool(v.R) && bool(v.R)) || (!bool(v.R) && bool(v.Q))), (-I(v.A)), pick(bool(v.R), 200, I(v.D))) & ((I(v.C) | 70000) * (I(v.B) * 256)))), "~(((r ? r : q) ? -a : r ? 200 : d) & (c | 70000) * (b * 256))")
}

func C16_Random230() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.C) != 0)
	sv.Assume(I(v.D) != 0)
	sv.Assume((I(v.D) + (I(v.D) % I(v.D))) != 0)
	sv.Assume(((I(v.A) % I(v.C)) % (I(v.D) + (I(v.D) % I(v.D)))) >= 0)
	sv.Assume(((I(v.A) % I(v.C)) % (I(v.D) + (I(v.D) % I(v.D)))) <= 20)
	sv.Assert(v.X744() == (I(v.A)<<((I(v.A)%I(v.C))%(I(v.D)+(I(v.D)%I(v.D))))), "a << a % c % (+d + d % d)")
}

func C16_Random231() {
	var v *exr.Ops
	v = ops()
	sv.Assume((2 + I(v.F)) != 0)
	sv.Assert(v.X745() == (I(v.C) != (-((I(v.A) & I(v.S)) % (2 + I(v.F))))), "c != -((a & s) % (2 + f))")
}

func C16_Random232() {
	var v *exr.Ops
	v = ops()
	sv.Assume(((I(v.D) >> I(v.S)) | pick(bool(v.R), I(v.B), I(v.G))) != 0)
	sv.Assert(v.X746() == (200 >= ((I(v.B)^(I(v.D)+255))/((I(v.D)>>I(v.S))|pick(bool(v.R), I(v.B), I(v.G))))), "200 >= (+b ^ d + 255) / (d >> s | (r ? b : g))")
}

func C16_Random233() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assume((I(v.B) % I(v.B)) >= 0)
	sv.Assume((I(v.B) % I(v.B)) <= 20)
	sv.Assume(((I(v.F) + I(v.G)) << (I(v.B) % I(v.B))) >= 0)
	sv.Assume(((I(v.F) + I(v.G)) << (I(v.B) % I(v.B))) <= 20)
	sv.Assert(v.X747() == pick((!((I(v.S) > I(v.S)) || bool(v.R))), ((I(v.D)-I(v.E))<<((I(v.F)+I(v.G))<<(I(v.B)%I(v.B)))), I(v.A)), "!(s > s || r) ? +(d - e) << (f + g << b % b) : a")
}

func C16_Random234() {
	var v *exr.Ops
	v = ops()
	sv.Assert(v.X748() == (!((!(I(v.D) != I(v.G))) != ((I(v.S) < I(v.B)) == (bool(v.R) == bool(v.P))))), "!(!(d != g) != (s < b == (r == p)))")
}

func C16_Random235() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.G) + I(v.C)) != 0)
	sv.Assume(pick(((bool(v.R) && bool(v.P)) || (!bool(v.R) && bool(v.Q))), I(v.C), pick(bool(v.Q), I(v.C), I(v.E))) >= 0)
	sv.Assume(pick(((bool(v.R) && bool(v.P)) || (!bool(v.R) && bool(v.Q))), I(v.C), pick(bool(v.Q), I(v.C), I(v.E))) <= 20)
	sv.Assert(v.X749() == (((pick(bool(v.Q), 1, I(v.B))%(I(v.G)+I(v.C)))>>pick(((bool(v.R) && bool(v.P)) || (!bool(v.R) && bool(v.Q))), I(v.C), pick(bool(v.Q), I(v.C), I(v.E)))) < I(v.F)), "(q ? 1 : b) % (g + c) >> ((r ? p : q) ? c : q ? c : e) < f")
}

func C16_Random236() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.B) != 0)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assert(v.X750() == ((((I(v.E)*I(v.D))*pick(bool(v.Q), I(v.G), 7))-((I(v.C)+I(v.S))+(I(v.F)%I(v.B))))>>I(v.D)), "e * d * (q ? g : 7) - (c + s + f % b) >> d")
}

func C16_Random237() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.E) != 0)
	sv.Assert(v.X751() == (I(v.G)|(-((^I(v.D)) - (I(v.D) % I(v.E))))), "g | -(~d - d % e)")
}

func C16_Random238() {
	var v *exr.Ops
	v = ops()
	sv.Assume(I(v.F) != 0)
	sv.Assume(I(v.D) >= 0)
	sv.Assume(I(v.D) <= 20)
	sv.Assume((I(v.B) >> I(v.D)) != 0)
	sv.Assert(v.X752() == (!((-(I(v.C) | I(v.D))) != ((I(v.G) % I(v.F)) % (I(v.B) >> I(v.D))))), "!(-(c | d) != g % f % (b >> d))")
}

func C16_Random239() {
	var v *exr.Ops
	v = ops()
	sv.Assume((I(v.E) * I(v.D)) >= 0)
	sv.Assume((I(v.E) * I(v.D)) <= 20)
	sv.Assert(v.X753() == (^pick(((bool(v.R) != bool(v.P)) && (!bool(v.R))), ((I(v.A)+I(v.B))>>(I(v.E)*I(v.D))), ((I(v.E)&I(v.B))-I(v.C)))), "~(r != p && !r ? a + b >> e * d : (e & b) - c)")
}
