// Written by tools/genc16m.py.

package c16

import (
	"gen/zs/mem"

	"verif/sv"
)

//sv:bound 160 expressions over members, members of members, elements of arrays (also at an index that is an expression), parameters, members of parameters, functions, constants, subtypes, valueof, lengthof, isset (schemas/mem.zs); 24 of them as conditions

func memberE(name string) mem.E { return []mem.E{-100, 0, 90}[sv.Choose(name, 3)] }

func memberIn(vary bool) mem.In {
	v := mem.In{X: sv.U8("x"), Y: sv.I16("y"), Z: sv.U8("z") & 31, B: sv.Bool("b"), C: mem.Caps(sv.U8("c") & 7)}
	v.D = mem.Deep{U: sv.U16("u"), W: sv.I8("w")}
	v.E = mem.E(sv.I8("e"))
	sv.Assume(sv.Or(v.E == -100, sv.Or(v.E == 0, v.E == 90)))
	return v
}

func members(n int) *mem.Ops {
	v := &mem.Ops{K: sv.U8("k"), P5: sv.U8("p5") & 31, O: sv.U16("o"), E: mem.E(sv.I8("e")), Fl: sv.Bool("fl"), T: mem.Tiny(sv.I8("t"))}
	sv.Assume(sv.And(v.T >= -32, v.T < 32))
	sv.Assume(sv.Or(v.E == -100, sv.Or(v.E == 0, v.E == 90)))
	v.N, v.Hp = memberIn(true), memberIn(true)
	v.Xs = []int8{sv.I8("x0"), sv.I8("x1"), sv.I8("x2")}
	v.Ps = []mem.In{memberIn(false), memberIn(false)}
	v.As = make([]uint32, n)
	v.Bs = []bool{sv.Bool("b0"), sv.Bool("b1")}
	return v
}

func C16_Member000() {
	v := members(1)
	sv.Assert(v.Y0() == (I(v.N.D.W)+I(v.N.Y)), "n.d.w + n.y")
}

func C16_Member001() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y1() == (I(v.Ps[1].Y)+int64(len(v.As))), "ps[1].y + lengthof(as)")
}

func C16_Member002() {
	v := members(1)
	sv.Assert(v.Y2() == (I(v.T)+I(v.N.D.W)), "t + n.d.w")
}

func C16_Member003() {
	v := members(1)
	sv.Assert(v.Y3() == (I(v.N.D.U)+I(v.T)), "n.d.u + t")
}

func C16_Member004() {
	v := members(1)
	sv.Assert(v.Y4() == (I(v.T)-I(v.N.X)), "t - n.x")
}

func C16_Member005() {
	v := members(1)
	sv.Assert(v.Y5() == (I(v.Ps[1].Y)-I(v.N.X)), "ps[1].y - n.x")
}

func C16_Member006() {
	v := members(1)
	sv.Assert(v.Y6() == (I(v.N.E)-I(v.N.D.U)), "valueof(n.e) - n.d.u")
}

func C16_Member007() {
	v := members(1)
	sv.Assert(v.Y7() == (I(v.N.D.W)-I(v.T)), "n.d.w - t")
}

func C16_Member008() {
	v := members(1)
	sv.Assert(v.Y8() == (I(v.Hp.D.W)*I(v.N.D.U)), "hp.d.w * n.d.u")
}

func C16_Member009() {
	v := members(1)
	sv.Assert(v.Y9() == (I(v.Ps[0].D.U)*I(v.Ps[1].Y)), "ps[0].d.u * ps[1].y")
}

func C16_Member010() {
	v := members(1)
	sv.Assert(v.Y10() == (I(v.T)*I(v.Xs[0])), "t * xs[0]")
}

func C16_Member011() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y11() == (I(v.T)*int64(len(v.As))), "t * lengthof(as)")
}

func C16_Member012() {
	v := members(1)
	sv.Assume(I(v.N.Y) != 0)
	sv.Assert(v.Y12() == (I(v.N.D.W)/I(v.N.Y)), "n.d.w / n.y")
}

func C16_Member013() {
	v := members(1)
	sv.Assume(I(v.N.D.W) != 0)
	sv.Assert(v.Y13() == (I(v.N.Y)/I(v.N.D.W)), "n.y / n.d.w")
}

func C16_Member014() {
	v := members(sv.Choose("length", 3))
	sv.Assume(int64(len(v.As)) != 0)
	sv.Assert(v.Y14() == (I(v.T)/int64(len(v.As))), "t / lengthof(as)")
}

func C16_Member015() {
	v := members(1)
	sv.Assume(I(v.N.Y) != 0)
	sv.Assert(v.Y15() == (I(v.T)/I(v.N.Y)), "t / n.y")
}

func C16_Member016() {
	v := members(1)
	sv.Assume(I(v.N.D.W) != 0)
	sv.Assert(v.Y16() == (I(v.N.Y)%I(v.N.D.W)), "n.y % n.d.w")
}

func C16_Member017() {
	v := members(1)
	sv.Assume(I(v.N.Y) != 0)
	sv.Assert(v.Y17() == (I(v.Ps[0].D.U)%I(v.N.Y)), "ps[0].d.u % n.y")
}

func C16_Member018() {
	v := members(sv.Choose("length", 3))
	sv.Assume(int64(len(v.As)) != 0)
	sv.Assert(v.Y18() == (I(v.N.Y)%int64(len(v.As))), "n.y % lengthof(as)")
}

func C16_Member019() {
	v := members(1)
	sv.Assume(I(v.T) != 0)
	sv.Assert(v.Y19() == (I(v.N.Y)%I(v.T)), "n.y % t")
}

func C16_Member020() {
	v := members(1)
	sv.Assert(v.Y20() == (I(v.N.Y)<<I(v.N.C)), "n.y << valueof(n.c)")
}

func C16_Member021() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y21() == (I(v.N.E)<<int64(len(v.As))), "valueof(n.e) << lengthof(as)")
}

func C16_Member022() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y22() == (I(v.Ps[0].D.U)<<int64(len(v.As))), "ps[0].d.u << lengthof(as)")
}

func C16_Member023() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y23() == (I(v.Hp.D.W)<<int64(len(v.As))), "hp.d.w << lengthof(as)")
}

func C16_Member024() {
	v := members(1)
	sv.Assert(v.Y24() == (I(v.N.D.W)>>I(v.N.C)), "n.d.w >> valueof(n.c)")
}

func C16_Member025() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y25() == (I(v.Hp.D.W)>>int64(len(v.As))), "hp.d.w >> lengthof(as)")
}

func C16_Member026() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y26() == (I(v.Hp.D.W)>>int64(len(v.As))), "hp.d.w >> lengthof(as)")
}

func C16_Member027() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y27() == (I(v.N.X)>>int64(len(v.As))), "n.x >> lengthof(as)")
}

func C16_Member028() {
	v := members(1)
	sv.Assert(v.Y28() == (I(v.N.E)&I(v.N.X)), "valueof(n.e) & n.x")
}

func C16_Member029() {
	v := members(1)
	sv.Assert(v.Y29() == (I(v.Ps[0].D.U)&I(v.Hp.X)), "ps[0].d.u & hp.x")
}

func C16_Member030() {
	v := members(1)
	sv.Assert(v.Y30() == (I(v.N.Y)&I(v.Xs[0])), "n.y & xs[0]")
}

func C16_Member031() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y31() == (I(v.T)&int64(len(v.As))), "t & lengthof(as)")
}

func C16_Member032() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y32() == (I(v.N.X)^int64(len(v.As))), "n.x ^ lengthof(as)")
}

func C16_Member033() {
	v := members(1)
	sv.Assert(v.Y33() == (I(v.N.Y)^I(v.N.D.U)), "n.y ^ n.d.u")
}

func C16_Member034() {
	v := members(1)
	sv.Assert(v.Y34() == (I(v.Ps[1].Y)^I(v.T)), "ps[1].y ^ t")
}

func C16_Member035() {
	v := members(1)
	sv.Assert(v.Y35() == (I(v.N.Y)^I(v.N.X)), "n.y ^ n.x")
}

func C16_Member036() {
	v := members(1)
	sv.Assert(v.Y36() == (I(v.N.E)|I(v.Ps[1].Y)), "valueof(n.e) | ps[1].y")
}

func C16_Member037() {
	v := members(1)
	sv.Assert(v.Y37() == (I(v.Hp.D.W)|I(v.N.X)), "hp.d.w | n.x")
}

func C16_Member038() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y38() == (I(v.N.X)|int64(len(v.As))), "n.x | lengthof(as)")
}

func C16_Member039() {
	v := members(1)
	sv.Assert(v.Y39() == (I(v.N.D.U)|I(v.N.X)), "n.d.u | n.x")
}

func C16_Member040() {
	v := members(1)
	sv.Assert(v.Y40() == (I(v.N.X) < I(v.N.D.W)), "n.x < n.d.w")
}

func C16_Member041() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y41() == (I(v.N.Y) < int64(len(v.As))), "n.y < lengthof(as)")
}

func C16_Member042() {
	v := members(1)
	sv.Assert(v.Y42() == (I(v.N.Y) < I(v.Hp.X)), "n.y < hp.x")
}

func C16_Member043() {
	v := members(1)
	sv.Assert(v.Y43() == (I(v.N.E) < I(v.N.Y)), "valueof(n.e) < n.y")
}

func C16_Member044() {
	v := members(1)
	sv.Assert(v.Y44() == (I(v.N.D.U) <= I(v.N.D.W)), "n.d.u <= n.d.w")
}

func C16_Member045() {
	v := members(1)
	sv.Assert(v.Y45() == (I(v.Ps[1].Y) <= I(v.N.D.W)), "ps[1].y <= n.d.w")
}

func C16_Member046() {
	v := members(1)
	sv.Assert(v.Y46() == (I(v.N.Y) <= I(v.N.D.U)), "n.y <= n.d.u")
}

func C16_Member047() {
	v := members(1)
	sv.Assert(v.Y47() == (I(v.N.D.W) <= I(v.T)), "n.d.w <= t")
}

func C16_Member048() {
	v := members(1)
	sv.Assert(v.Y48() == (I(v.Hp.D.W) > I(v.Hp.X)), "hp.d.w > hp.x")
}

func C16_Member049() {
	v := members(1)
	sv.Assert(v.Y49() == (I(v.N.E) > I(v.T)), "valueof(n.e) > t")
}

func C16_Member050() {
	v := members(1)
	sv.Assert(v.Y50() == (I(v.Ps[1].Y) > I(v.N.Y)), "ps[1].y > n.y")
}

func C16_Member051() {
	v := members(1)
	sv.Assert(v.Y51() == (I(v.N.E) > I(v.Hp.X)), "valueof(n.e) > hp.x")
}

func C16_Member052() {
	v := members(1)
	sv.Assert(v.Y52() == (I(v.Ps[1].Y) >= I(v.T)), "ps[1].y >= t")
}

func C16_Member053() {
	v := members(1)
	sv.Assert(v.Y53() == (I(v.Ps[1].Y) >= I(v.Xs[0])), "ps[1].y >= xs[0]")
}

func C16_Member054() {
	v := members(1)
	sv.Assert(v.Y54() == (I(v.N.E) >= I(v.N.D.W)), "valueof(n.e) >= n.d.w")
}

func C16_Member055() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y55() == (I(v.N.X) >= int64(len(v.As))), "n.x >= lengthof(as)")
}

func C16_Member056() {
	v := members(1)
	sv.Assert(v.Y56() == (I(v.N.Y) == I(v.N.X)), "n.y == n.x")
}

func C16_Member057() {
	v := members(1)
	sv.Assert(v.Y57() == (I(v.N.X) == I(v.N.D.U)), "n.x == n.d.u")
}

func C16_Member058() {
	v := members(1)
	sv.Assert(v.Y58() == (I(v.N.X) == I(v.N.Y)), "n.x == n.y")
}

func C16_Member059() {
	v := members(1)
	sv.Assert(v.Y59() == (I(v.N.Y) == I(v.T)), "n.y == t")
}

func C16_Member060() {
	v := members(1)
	sv.Assert(v.Y60() == (I(v.N.D.W) != I(v.N.Y)), "n.d.w != n.y")
}

func C16_Member061() {
	v := members(1)
	sv.Assert(v.Y61() == (I(v.Hp.D.W) != I(v.N.D.U)), "hp.d.w != n.d.u")
}

func C16_Member062() {
	v := members(1)
	sv.Assert(v.Y62() == (I(v.N.Y) != I(v.Hp.X)), "n.y != hp.x")
}

func C16_Member063() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y63() == (I(v.Ps[1].Y) != int64(len(v.As))), "ps[1].y != lengthof(as)")
}

func C16_Member064() {
	v := members(1)
	sv.Assert(v.Y64() == ((pick((v.N.E == 0), (I(v.O)-1), int64(70000))*(^I(v.Hp.X)))|(I(v.N.D.W)+(I(v.N.Z)^I(v.N.D.U)))), "((n.e == E.MID) ? own() : BIG) * ~hp.x | n.d.w + (n.z ^ n.d.u)")
}

func C16_Member065() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y65() == (((I(v.Hp.D.W)|int64(len(v.As)))-(-I(v.N.X))) <= ((int64(len(v.As))-256)&255)), "(hp.d.w | lengthof(as)) - -n.x <= (lengthof(as) - 256 & 255)")
}

func C16_Member066() {
	v := members(1)
	sv.Assert(v.Y66() == (!(!(!(v.N.C&2 == 2)))), "!!!isset(n.c, Caps.W)")
}

func C16_Member067() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.Xs[len(v.As)]) >= 0)
	sv.Assume(I(v.Xs[len(v.As)]) <= 20)
	sv.Assume(I(v.O) >= 0)
	sv.Assume(I(v.O) <= 20)
	sv.Assert(v.Y67() == ((((I(v.O)-1)<<I(v.Xs[len(v.As)]))*(3>>I(v.O))) <= (int64(70000)-(I(v.P5)^2))), "(own() << xs[lengthof(as)]) * (3 >> o) <= BIG - (p5 ^ 2)")
}

func C16_Member068() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.N.Y) >= 0)
	sv.Assume(I(v.N.Y) <= 20)
	sv.Assert(v.Y68() == (((I(v.Xs[len(v.As)])>>I(v.N.Y)) < pick((v.N.C&2 == 2), I(v.O), I(v.Ps[0].D.U))) || (!(((v.E != v.N.E) && (v.N.E == 0)) || (!(v.E != v.N.E) && v.Hp.B)))), "xs[lengthof(as)] >> n.y < (isset(n.c, Caps.W) ? o : ps[0].d.u) || !((e != n.e) ? (n.e == E.MID) : hp.b)")
}

func C16_Member069() {
	v := members(1)
	sv.Assert(v.Y69() == (((I(v.N.X) != (I(v.N.D.U)+I(v.N.D.W))) || ((v.N.B && v.N.B) || (!v.N.B && v.Fl))) || (I(v.Ps[1].Y) >= int64(70000))), "n.x != n.d.sum() || (n.b ? n.b : fl) || +ps[1].y >= BIG")
}

func C16_Member070() {
	v := members(1)
	sv.Assume(((70000 & I(v.N.Y)) & I(v.N.Z)) >= 0)
	sv.Assume(((70000 & I(v.N.Y)) & I(v.N.Z)) <= 20)
	sv.Assert(v.Y70() == ((I(v.N.D.U)/int64(70000))<<((70000&I(v.N.Y))&I(v.N.Z))), "+(n.d.u / BIG) << (70000 & n.y & +n.z)")
}

func C16_Member071() {
	v := members(1)
	sv.Assert(v.Y71() == (((I(v.N.Y)^256) > (I(v.N.Y)|(I(v.N.D.U)+I(v.N.D.W)))) == (v.N.B == (int64(70000) <= I(v.Xs[0])))), "(n.g() ^ 256) > (n.g() | n.d.sum()) == (n.b == BIG <= xs[0])")
}

func C16_Member072() {
	v := members(1)
	sv.Assert(v.Y72() == (((I(v.Xs[0]) >= I(v.N.X)) && ((v.N.E == 0) != v.Bs[1])) && ((!(v.N.Y > 0)) || (I(v.Hp.D.W) > I(v.N.C)))), "xs[0] >= n.x && (n.e == E.MID) != bs[1] && (!n.pos() || hp.d.w > valueof(n.c))")
}

func C16_Member073() {
	v := members(1)
	sv.Assert(v.Y73() == ((I(v.N.Z) < (I(v.O)-I(v.N.C))) != (!(!v.Fl))), "n.z < o - valueof(n.c) != !!fl")
}

func C16_Member074() {
	v := members(1)
	sv.Assume(I(v.N.X) >= 0)
	sv.Assume(I(v.N.X) <= 20)
	sv.Assume(((I(v.N.D.U) + I(v.N.D.W)) + I(v.Hp.X)) != 0)
	sv.Assert(v.Y74() == ((1|(3^I(v.T))) < ((int64(70000)>>I(v.N.X))%((I(v.N.D.U)+I(v.N.D.W))+I(v.Hp.X)))), "(1 | 3 ^ t) < (BIG >> n.x) % (n.d.sum() + hp.x)")
}

func C16_Member075() {
	v := members(1)
	sv.Assume(I(v.K) != 0)
	sv.Assert(v.Y75() == (10*((I(v.N.C)%I(v.K))-(I(v.N.D.U)^I(v.N.D.W)))), "10 * (valueof(n.c) % k - (n.d.u ^ n.d.w))")
}

func C16_Member076() {
	v := members(sv.Choose("length", 3))
	sv.Assume((I(v.Xs[len(v.As)]) | I(v.T)) != 0)
	sv.Assume(I(v.N.E) != 0)
	sv.Assume(((I(v.P5) % I(v.N.E)) - ((I(v.O) - 1) + I(v.Ps[0].D.U))) >= 0)
	sv.Assume(((I(v.P5) % I(v.N.E)) - ((I(v.O) - 1) + I(v.Ps[0].D.U))) <= 20)
	sv.Assert(v.Y76() == ((3%(I(v.Xs[len(v.As)])|I(v.T)))<<((I(v.P5)%I(v.N.E))-((I(v.O)-1)+I(v.Ps[0].D.U)))), "3 % (xs[lengthof(as)] | t) << p5 % valueof(n.e) - (own() + ps[0].d.u)")
}

func C16_Member077() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.T) >= 0)
	sv.Assume(I(v.T) <= 20)
	sv.Assert(v.Y77() == (((-int64(len(v.As))) != (int64(70000)-I(v.N.C))) && ((I(v.N.D.U)*I(v.O)) >= (I(v.Ps[1].Y)<<I(v.T)))), "-lengthof(as) != BIG - valueof(n.c) && n.d.u * o >= ps[1].y << t")
}

func C16_Member078() {
	v := members(1)
	sv.Assume(I(v.N.Y) != 0)
	sv.Assert(v.Y78() == (I(v.K) == ((-I(v.N.Y))*(I(v.Hp.D.W)/I(v.N.Y)))), "k == -n.y * (hp.d.w / n.g())")
}

func C16_Member079() {
	v := members(1)
	sv.Assume(pick((v.N.C&2 == 2), I(v.K), I(v.Xs[0])) >= 0)
	sv.Assume(pick((v.N.C&2 == 2), I(v.K), I(v.Xs[0])) <= 20)
	sv.Assert(v.Y79() == (((I(v.Ps[0].D.U)|int64(70000))<<pick((v.N.C&2 == 2), I(v.K), I(v.Xs[0]))) <= 70000), "(ps[0].d.u | BIG) << (isset(n.c, Caps.W) ? k : xs[0]) <= 70000")
}

func C16_Member080() {
	v := members(1)
	sv.Assume((I(v.Hp.D.W) + I(v.N.X)) != 0)
	sv.Assert(v.Y80() == ((pick(v.Hp.B, I(v.O), I(v.N.E))%(I(v.Hp.D.W)+I(v.N.X)))&((-1000)*I(v.T))), "(hp.b ? o : valueof(n.e)) % (hp.d.w + n.x) & -1000 * +t")
}

func C16_Member081() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y81() == (((int64(len(v.As))*I(v.N.Y))|(-int64(-5)))+pick((v.N.C&2 == 2), int64(-5), I(v.T))), "(lengthof(as) * n.y | -MINUS) + +(isset(n.c, Caps.W) ? MINUS : t)")
}

func C16_Member082() {
	v := members(1)
	sv.Assert(v.Y82() == ((!((v.Hp.B && v.N.B) || (!v.Hp.B && v.Fl))) != (!v.Hp.B)), "!(hp.b ? n.b : fl) != !hp.b")
}

func C16_Member083() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) >= 0)
	sv.Assume(I(v.Ps[1].Y) <= 20)
	sv.Assume(I(v.N.Y) >= 0)
	sv.Assume(I(v.N.Y) <= 20)
	sv.Assert(v.Y83() == ((3>>I(v.Ps[1].Y)) <= ((I(v.N.D.U)|70000)^(I(v.P5)<<I(v.N.Y)))), "+(3 >> ps[1].y) <= ((n.d.u | 70000) ^ p5 << n.y)")
}

func C16_Member084() {
	v := members(1)
	sv.Assume(I(v.N.X) != 0)
	sv.Assert(v.Y84() == (((I(v.N.D.W)%I(v.N.X)) >= pick((v.N.Y > 0), I(v.Hp.D.W), I(v.N.Y))) || ((-int64(70000)) < I(v.Hp.D.W))), "n.d.w % n.x >= (n.pos() ? hp.d.w : n.g()) || -BIG < +hp.d.w")
}

func C16_Member085() {
	v := members(1)
	sv.Assume((^(-I(v.O))) >= 0)
	sv.Assume((^(-I(v.O))) <= 20)
	sv.Assert(v.Y85() == (pick(((v.Bs[1] && (v.E != v.N.E)) || (!v.Bs[1] && v.N.B)), (^1000), (7-I(v.N.Y)))>>(^(-I(v.O)))), "((bs[1] ? (e != n.e) : n.b) ? ~1000 : 7 - n.g()) >> ~-o")
}

func C16_Member086() {
	v := members(1)
	sv.Assert(v.Y86() == ((v.Hp.E == v.E) && v.Bs[1]), "(hp.e == e) && bs[1]")
}

func C16_Member087() {
	v := members(1)
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assume((I(v.N.E) << I(v.E)) >= 0)
	sv.Assume((I(v.N.E) << I(v.E)) <= 20)
	sv.Assume(I(v.N.D.W) >= 0)
	sv.Assume(I(v.N.D.W) <= 20)
	sv.Assert(v.Y87() == (((-I(v.N.Y))<<(I(v.N.E)<<I(v.E)))|((I(v.N.X)>>I(v.N.D.W))|(I(v.Ps[0].D.U)^int64(70000)))), "-n.y << (valueof(n.e) << valueof(e)) | (n.x >> n.d.w | ps[0].d.u ^ BIG)")
}

func C16_Member088() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y88() == ((^(I(v.N.Y) - I(v.P5))) >= pick(((v.N.C&2 == 2) != v.N.B), (I(v.N.Y)%int64(-5)), (^int64(len(v.As))))), "~(n.g() - p5) >= (isset(n.c, Caps.W) != n.b ? n.g() % MINUS : ~lengthof(as))")
}

func C16_Member089() {
	v := members(1)
	sv.Assert(v.Y89() == ((!(int64(70000) == I(v.N.C))) != ((v.N.B != v.N.B) && (256 <= (I(v.N.D.U)+I(v.N.D.W))))), "!(BIG == valueof(n.c)) != (n.b != n.b && 256 <= n.d.sum())")
}

func C16_Member090() {
	v := members(1)
	sv.Assume(I(v.N.E) >= 0)
	sv.Assume(I(v.N.E) <= 20)
	sv.Assume(((I(v.N.D.U) + I(v.N.D.W)) >> I(v.N.E)) >= 0)
	sv.Assume(((I(v.N.D.U) + I(v.N.D.W)) >> I(v.N.E)) <= 20)
	sv.Assume(((I(v.N.D.U) + I(v.N.D.W)) & (I(v.O) - 1)) >= 0)
	sv.Assume(((I(v.N.D.U) + I(v.N.D.W)) & (I(v.O) - 1)) <= 20)
	sv.Assert(v.Y90() == ((I(v.Xs[0])>>((I(v.N.D.U)+I(v.N.D.W))>>I(v.N.E))) != ((I(v.N.Y)*I(v.Xs[0]))>>((I(v.N.D.U)+I(v.N.D.W))&(I(v.O)-1)))), "xs[0] >> (n.d.sum() >> valueof(n.e)) != n.y * xs[0] >> (n.d.sum() & own())")
}

func C16_Member091() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.Xs[len(v.As)]) >= 0)
	sv.Assume(I(v.Xs[len(v.As)]) <= 20)
	sv.Assert(v.Y91() == (!((I(v.Ps[1].Y) + I(v.N.D.W)) != ((I(v.O) - 1) >> I(v.Xs[len(v.As)])))), "!(ps[1].y + n.d.w != own() >> xs[lengthof(as)])")
}

func C16_Member092() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.Hp.D.W) != 0)
	sv.Assert(v.Y92() == (((^int64(len(v.As))) > (^I(v.N.X))) != ((255^I(v.Ps[0].D.U)) <= (I(v.Ps[0].D.U)%I(v.Hp.D.W)))), "~lengthof(as) > ~n.x != (255 ^ ps[0].d.u) <= ps[0].d.u % hp.d.w")
}

func C16_Member093() {
	v := members(sv.Choose("length", 3))
	sv.Assume(int64(len(v.As)) != 0)
	sv.Assert(v.Y93() == (((I(v.E)%int64(len(v.As)))-pick(v.Hp.B, I(v.Xs[len(v.As)]), I(v.E))) < I(v.Hp.X)), "valueof(e) % lengthof(as) - (hp.b ? xs[lengthof(as)] : valueof(e)) < hp.x")
}

func C16_Member094() {
	v := members(1)
	sv.Assert(v.Y94() == ((v.E != v.N.E) != ((I(v.E)+(I(v.O)-1)) < (-I(v.O)))), "(e != n.e) != valueof(e) + own() < -o")
}

func C16_Member095() {
	v := members(1)
	sv.Assert(v.Y95() == ((I(v.N.D.U)+I(v.N.D.W)) == (^(int64(-5) | I(v.Hp.D.W)))), "n.d.sum() == ~(MINUS | hp.d.w)")
}

func C16_Member096() {
	v := members(1)
	sv.Assert(v.Y96() == ((!(v.E != v.N.E)) == (!(v.Bs[1] || v.Fl))), "!(e != n.e) == !(bs[1] || fl)")
}

func C16_Member097() {
	v := members(1)
	sv.Assert(v.Y97() == (!((v.N.B && v.N.B) && ((v.Hp.E == v.E) || v.Hp.B))), "!(n.b && n.b && ((hp.e == e) || hp.b))")
}

func C16_Member098() {
	v := members(1)
	sv.Assert(v.Y98() == (!(((v.E != v.N.E) == (v.E != v.N.E)) && (!v.N.B))), "!((e != n.e) == (e != n.e) && !n.b)")
}

func C16_Member099() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.K) != 0)
	sv.Assert(v.Y99() == ((pick((v.N.E == 0), 200, 3)-256) != ((I(v.Xs[len(v.As)])%I(v.K))+(I(v.N.E)*70000))), "((n.e == E.MID) ? 200 : 3) - 256 != xs[lengthof(as)] % k + valueof(n.e) * 70000")
}

func C16_Member100() {
	v := members(1)
	sv.Assume(I(v.P5) >= 0)
	sv.Assume(I(v.P5) <= 20)
	sv.Assume(I(v.N.X) != 0)
	sv.Assert(v.Y100() == (((I(v.N.C)<<I(v.P5))+I(v.N.Z))-((I(v.K)/I(v.N.X))-pick(v.Bs[1], I(v.N.Y), (I(v.O)-1)))), "(valueof(n.c) << p5) + n.z - (k / n.x - (bs[1] ? n.y : own()))")
}

func C16_Member101() {
	v := members(1)
	sv.Assert(v.Y101() == (!((I(v.N.C) <= I(v.Ps[0].D.U)) == ((v.N.Y > 0) == v.Fl))), "!(valueof(n.c) <= ps[0].d.u == (n.pos() == fl))")
}

func C16_Member102() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y102() == (I(v.N.Y) <= pick(v.N.B, (I(v.P5)|I(v.T)), (int64(len(v.As))*(I(v.N.D.U)+I(v.N.D.W))))), "n.g() <= (n.b ? p5 | t : lengthof(as) * n.d.sum())")
}

func C16_Member103() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) >= 0)
	sv.Assume(I(v.Ps[1].Y) <= 20)
	sv.Assume((I(v.T) * int64(-5)) >= 0)
	sv.Assume((I(v.T) * int64(-5)) <= 20)
	sv.Assert(v.Y103() == (((I(v.N.Z)>>I(v.Ps[1].Y))^(I(v.N.D.U)%1000))|((-int64(70000))<<(I(v.T)*int64(-5)))), "n.z >> ps[1].y ^ n.d.u % 1000 | -BIG << t * MINUS")
}

func C16_Member104() {
	v := members(1)
	sv.Assume(I(v.Ps[0].D.U) >= 0)
	sv.Assume(I(v.Ps[0].D.U) <= 20)
	sv.Assume(pick(v.Bs[1], (I(v.N.D.U)+I(v.N.D.W)), I(v.Hp.X)) >= 0)
	sv.Assume(pick(v.Bs[1], (I(v.N.D.U)+I(v.N.D.W)), I(v.Hp.X)) <= 20)
	sv.Assert(v.Y104() == ((^(I(v.N.C) - I(v.Hp.X))) < ((3<<I(v.Ps[0].D.U))<<pick(v.Bs[1], (I(v.N.D.U)+I(v.N.D.W)), I(v.Hp.X)))), "~(valueof(n.c) - hp.x) < 3 << ps[0].d.u << (bs[1] ? n.d.sum() : hp.x)")
}

func C16_Member105() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.T) >= 0)
	sv.Assume(I(v.T) <= 20)
	sv.Assume((I(v.Hp.D.W) >> I(v.T)) >= 0)
	sv.Assume((I(v.Hp.D.W) >> I(v.T)) <= 20)
	sv.Assert(v.Y105() == (((I(v.N.X)<<int64(len(v.As)))<<(I(v.Hp.D.W)>>I(v.T)))^(I(v.N.Y)+I(v.Xs[len(v.As)]))), "n.x << lengthof(as) << (hp.d.w >> t) ^ n.g() + xs[lengthof(as)]")
}

func C16_Member106() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.Ps[1].Y) >= 0)
	sv.Assume(I(v.Ps[1].Y) <= 20)
	sv.Assume(I(v.O) != 0)
	sv.Assert(v.Y106() == ((!(v.N.B && v.Hp.B)) && ((I(v.N.Y)<<I(v.Ps[1].Y)) < (int64(len(v.As))%I(v.O)))), "!(n.b && hp.b) && n.g() << ps[1].y < lengthof(as) % o")
}

func C16_Member107() {
	v := members(1)
	sv.Assert(v.Y107() == (pick(v.Hp.B, (I(v.O)-1), 3)*(I(v.N.E)*I(v.O))), "+((hp.b ? own() : 3) * (valueof(n.e) * o))")
}

func C16_Member108() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y108() == (((I(v.N.D.U)^I(v.N.Z))|I(v.Xs[len(v.As)]))^I(v.Ps[0].D.U)), "(n.d.u ^ n.z | xs[lengthof(as)]) ^ ps[0].d.u")
}

func C16_Member109() {
	v := members(1)
	sv.Assert(v.Y109() == (((int64(70000)+I(v.Ps[0].D.U))*I(v.K))*((I(v.E)/int64(70000))^(I(v.Ps[0].D.U)%int64(70000)))), "(BIG + ps[0].d.u) * k * (valueof(e) / BIG ^ ps[0].d.u % BIG)")
}

func C16_Member110() {
	v := members(1)
	sv.Assume(I(v.N.C) != 0)
	sv.Assert(v.Y110() == ((!((v.N.Y > 0) == (v.Hp.E == v.E))) != ((I(v.N.D.U)%I(v.N.C)) > (I(v.N.Y)*I(v.O)))), "!(n.pos() == (hp.e == e)) != n.d.u % valueof(n.c) > n.g() * o")
}

func C16_Member111() {
	v := members(1)
	sv.Assume(I(v.N.Y) != 0)
	sv.Assume((I(v.Ps[1].Y) / I(v.N.Y)) >= 0)
	sv.Assume((I(v.Ps[1].Y) / I(v.N.Y)) <= 20)
	sv.Assume(pick((v.E != v.N.E), I(v.N.C), I(v.P5)) != 0)
	sv.Assert(v.Y111() == ((I(v.N.E)<<(I(v.Ps[1].Y)/I(v.N.Y))) <= ((I(v.Xs[0])&I(v.N.Y))%pick((v.E != v.N.E), I(v.N.C), I(v.P5)))), "valueof(n.e) << ps[1].y / n.g() <= (xs[0] & n.y) % ((e != n.e) ? valueof(n.c) : p5)")
}

func C16_Member112() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y112() == (((I(v.Xs[len(v.As)])^I(v.Ps[0].D.U))|(int64(-5)+I(v.N.D.W))) <= (-(I(v.Hp.X) - I(v.N.C)))), "(xs[lengthof(as)] ^ ps[0].d.u | MINUS + n.d.w) <= -(hp.x - valueof(n.c))")
}

func C16_Member113() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) >= 0)
	sv.Assume(I(v.Ps[1].Y) <= 20)
	sv.Assume((I(v.N.C) | I(v.Ps[0].D.U)) >= 0)
	sv.Assume((I(v.N.C) | I(v.Ps[0].D.U)) <= 20)
	sv.Assert(v.Y113() == (I(v.P5) <= ((I(v.Ps[0].D.U)>>I(v.Ps[1].Y))<<(I(v.N.C)|I(v.Ps[0].D.U)))), "p5 <= ps[0].d.u >> ps[1].y << (valueof(n.c) | ps[0].d.u)")
}

func C16_Member114() {
	v := members(1)
	sv.Assume(I(v.Ps[0].D.U) != 0)
	sv.Assert(v.Y114() == (((v.N.Y > 0) && ((I(v.P5)%I(v.Ps[0].D.U)) != pick(v.N.B, I(v.N.X), I(v.N.Z)))) || (!(v.N.Y > 0) && (!(v.N.B || v.Bs[1])))), "n.pos() ? p5 % ps[0].d.u != (n.b ? n.x : n.z) : !(n.b || bs[1])")
}

func C16_Member115() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) != 0)
	sv.Assert(v.Y115() == ((^pick((v.Hp.E == v.E), I(v.E), I(v.E)))*(pick(v.Bs[1], I(v.E), I(v.Hp.D.W))^(I(v.N.D.W)/I(v.Ps[1].Y)))), "~((hp.e == e) ? valueof(e) : valueof(e)) * ((bs[1] ? valueof(e) : hp.d.w) ^ n.d.w / ps[1].y)")
}

func C16_Member116() {
	v := members(1)
	sv.Assert(v.Y116() == (I(v.Ps[1].Y)-(pick((v.N.Y > 0), I(v.N.X), I(v.Xs[0]))*(int64(70000)*(I(v.N.D.U)+I(v.N.D.W))))), "ps[1].y - (n.pos() ? n.x : xs[0]) * (BIG * n.d.sum())")
}

func C16_Member117() {
	v := members(1)
	sv.Assume(I(v.Ps[0].D.U) >= 0)
	sv.Assume(I(v.Ps[0].D.U) <= 20)
	sv.Assert(v.Y117() == (pick((((v.E != v.N.E) && (v.N.E == 0)) || (!(v.E != v.N.E) && (v.N.C&2 == 2))), ((I(v.N.D.U)+I(v.N.D.W))^I(v.N.C)), (256>>I(v.Ps[0].D.U))) < I(v.N.Z)), "(((e != n.e) ? (n.e == E.MID) : isset(n.c, Caps.W)) ? n.d.sum() ^ valueof(n.c) : 256 >> ps[0].d.u) < n.z")
}

func C16_Member118() {
	v := members(1)
	sv.Assert(v.Y118() == ((((v.Hp.B && (v.N.Y > 0)) || (!v.Hp.B && (v.N.E == 0))) != (!v.N.B)) && v.Bs[1]), "(hp.b ? n.pos() : (n.e == E.MID)) != !n.b && bs[1]")
}

func C16_Member119() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.Ps[0].D.U) != 0)
	sv.Assume(I(v.N.E) != 0)
	sv.Assume(((I(v.Xs[len(v.As)]) / I(v.Ps[0].D.U)) + (I(v.O) % I(v.N.E))) >= 0)
	sv.Assume(((I(v.Xs[len(v.As)]) / I(v.Ps[0].D.U)) + (I(v.O) % I(v.N.E))) <= 20)
	sv.Assert(v.Y119() == (((I(v.N.Y)^I(v.Xs[0]))+(-I(v.N.C)))>>((I(v.Xs[len(v.As)])/I(v.Ps[0].D.U))+(I(v.O)%I(v.N.E)))), "(n.g() ^ xs[0]) + -valueof(n.c) >> xs[lengthof(as)] / ps[0].d.u + o % valueof(n.e)")
}

func C16_Member120() {
	v := members(sv.Choose("length", 3))
	sv.Assume((I(v.N.X) ^ 200) != 0)
	sv.Assert(v.Y120() == (((7>>int64(len(v.As)))/(I(v.N.X)^200)) >= (I(v.T)-(I(v.N.Y)%10))), "(7 >> lengthof(as)) / (n.x ^ 200) >= t - n.y % 10")
}

func C16_Member121() {
	v := members(1)
	sv.Assume(I(v.N.Y) >= 0)
	sv.Assume(I(v.N.Y) <= 20)
	sv.Assert(v.Y121() == (0-((I(v.N.D.W)>>I(v.N.Y))|(I(v.Xs[0])*int64(70000)))), "0 - (n.d.w >> n.g() | xs[0] * BIG)")
}

func C16_Member122() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.N.D.U) != 0)
	sv.Assume(((I(v.O) - 1) % I(v.N.D.U)) != 0)
	sv.Assert(v.Y122() == (I(v.Hp.X) == (int64(len(v.As))/((I(v.O)-1)%I(v.N.D.U)))), "hp.x == lengthof(as) / (own() % n.d.u)")
}

func C16_Member123() {
	v := members(1)
	sv.Assume(I(v.Ps[0].D.U) >= 0)
	sv.Assume(I(v.Ps[0].D.U) <= 20)
	sv.Assert(v.Y123() == ((1000>>I(v.Ps[0].D.U))+((I(v.N.Y)-I(v.O))|I(v.N.C))), "+(1000 >> ps[0].d.u) + (n.g() - o | +valueof(n.c))")
}

func C16_Member124() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y124() == (^(int64(len(v.As)) * (1000 & I(v.Hp.X)))), "~(lengthof(as) * (1000 & hp.x))")
}

func C16_Member125() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) != 0)
	sv.Assert(v.Y125() == (((I(v.Hp.D.W)%I(v.Ps[1].Y)) > I(v.N.X)) && (v.Hp.E == v.E)), "hp.d.w % ps[1].y > n.x && (hp.e == e)")
}

func C16_Member126() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) != 0)
	sv.Assert(v.Y126() == ((!(I(v.N.Y) <= I(v.T))) || (pick(v.N.B, I(v.N.X), I(v.Hp.D.W)) != ((I(v.O)-1)/I(v.Ps[1].Y)))), "!(n.y <= t) || (n.b ? n.x : hp.d.w) != own() / ps[1].y")
}

func C16_Member127() {
	v := members(1)
	sv.Assume(I(v.N.D.W) != 0)
	sv.Assert(v.Y127() == (((I(v.N.D.W)%I(v.N.D.W))&(1^I(v.K)))|I(v.N.Y)), "n.d.w % n.d.w & (1 ^ k) | n.y")
}

func C16_Member128() {
	v := members(1)
	sv.Assume(I(v.N.Y) >= 0)
	sv.Assume(I(v.N.Y) <= 20)
	sv.Assume(((I(v.E) >> I(v.N.Y)) & (I(v.Ps[1].Y) * I(v.Hp.X))) >= 0)
	sv.Assume(((I(v.E) >> I(v.N.Y)) & (I(v.Ps[1].Y) * I(v.Hp.X))) <= 20)
	sv.Assert(v.Y128() == ((I(v.N.E)+(I(v.N.E)*I(v.Hp.D.W)))<<((I(v.E)>>I(v.N.Y))&(I(v.Ps[1].Y)*I(v.Hp.X)))), "valueof(n.e) + valueof(n.e) * hp.d.w << (valueof(e) >> n.y & ps[1].y * hp.x)")
}

func C16_Member129() {
	v := members(1)
	sv.Assert(v.Y129() == (((!(((v.N.E == 0) && v.Bs[1]) || (!(v.N.E == 0) && v.N.B))) && v.Fl) || (!(!(((v.N.E == 0) && v.Bs[1]) || (!(v.N.E == 0) && v.N.B))) && (!(((v.N.C&2 == 2) && (v.E != v.N.E)) || (!(v.N.C&2 == 2) && (v.N.Y > 0)))))), "!((n.e == E.MID) ? bs[1] : n.b) ? fl : !(isset(n.c, Caps.W) ? (e != n.e) : n.pos())")
}

func C16_Member130() {
	v := members(1)
	sv.Assume(I(v.Hp.X) != 0)
	sv.Assume(I(v.N.X) >= 0)
	sv.Assume(I(v.N.X) <= 20)
	sv.Assume(((int64(-5) / I(v.Hp.X)) | ((I(v.O) - 1) << I(v.N.X))) >= 0)
	sv.Assume(((int64(-5) / I(v.Hp.X)) | ((I(v.O) - 1) << I(v.N.X))) <= 20)
	sv.Assert(v.Y130() == (I(v.N.D.U)<<((int64(-5)/I(v.Hp.X))|((I(v.O)-1)<<I(v.N.X)))), "n.d.u << (MINUS / hp.x | own() << n.x)")
}

func C16_Member131() {
	v := members(1)
	sv.Assert(v.Y131() == ((255 > (I(v.N.X)|I(v.Hp.X))) && (v.N.C&2 == 2)), "255 > (n.x | hp.x) && isset(n.c, Caps.W)")
}

func C16_Member132() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.Ps[1].Y) >= 0)
	sv.Assume(I(v.Ps[1].Y) <= 20)
	sv.Assert(v.Y132() == (((int64(70000)+I(v.N.D.U))*(I(v.Xs[len(v.As)])*I(v.N.D.W))) <= (-(I(v.Hp.X) << I(v.Ps[1].Y)))), "(BIG + n.d.u) * (xs[lengthof(as)] * n.d.w) <= -(hp.x << ps[1].y)")
}

func C16_Member133() {
	v := members(1)
	sv.Assume(I(v.Ps[1].Y) >= 0)
	sv.Assume(I(v.Ps[1].Y) <= 20)
	sv.Assume((I(v.N.D.U) >> I(v.Ps[1].Y)) >= 0)
	sv.Assume((I(v.N.D.U) >> I(v.Ps[1].Y)) <= 20)
	sv.Assume((I(v.N.Z) ^ I(v.N.Y)) != 0)
	sv.Assert(v.Y133() == ((I(v.Ps[1].Y)>>(I(v.N.D.U)>>I(v.Ps[1].Y))) != (pick(v.Bs[1], I(v.N.Z), I(v.K))/(I(v.N.Z)^I(v.N.Y)))), "ps[1].y >> (n.d.u >> ps[1].y) != (bs[1] ? n.z : k) / (n.z ^ n.g())")
}

func C16_Member134() {
	v := members(1)
	sv.Assert(v.Y134() == (v.Bs[1] && (v.N.Y > 0)), "bs[1] && n.pos()")
}

func C16_Member135() {
	v := members(sv.Choose("length", 3))
	sv.Assert(v.Y135() == ((int64(-5) >= (I(v.Ps[1].Y)-(I(v.O)-1))) == (!(int64(len(v.As)) <= I(v.Ps[1].Y)))), "MINUS >= ps[1].y - own() == !(lengthof(as) <= ps[1].y)")
}

func C16_Member136() {
	v := members(1)
	sv.Assume((I(v.K) + I(v.O)) != 0)
	sv.Assert(v.Y136() == (^(I(v.N.C) / (I(v.K) + I(v.O)))), "~(valueof(n.c) / (k + o))")
}

func C16_Member137() {
	v := members(1)
	sv.Assume(I(v.N.E) != 0)
	sv.Assert(v.Y137() == ((I(v.Hp.D.W)-(I(v.Xs[0])*I(v.T))) == ((I(v.N.X)%I(v.N.E))-(I(v.N.D.U)&I(v.N.Z)))), "hp.d.w - xs[0] * t == n.x % valueof(n.e) - (n.d.u & n.z)")
}

func C16_Member138() {
	v := members(1)
	sv.Assume(I(v.E) >= 0)
	sv.Assume(I(v.E) <= 20)
	sv.Assert(v.Y138() == (-((I(v.N.E) - I(v.N.D.W)) * (I(v.T) << I(v.E)))), "-((valueof(n.e) - n.d.w) * (t << valueof(e)))")
}

func C16_Member139() {
	v := members(1)
	sv.Assume((int64(-5) & I(v.Ps[0].D.U)) != 0)
	sv.Assert(v.Y139() == ((I(v.Hp.X)/(int64(-5)&I(v.Ps[0].D.U)))|((I(v.O)&I(v.N.D.W))|(I(v.O)|I(v.N.Y)))), "hp.x / (MINUS & ps[0].d.u) | (o & n.d.w | (o | n.y))")
}

func C16_Member140() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.N.D.W) != 0)
	sv.Assert(v.Y140() == (((I(v.P5)&I(v.O)) >= (int64(-5)%I(v.N.D.W))) == (!(I(v.Xs[len(v.As)]) > I(v.E)))), "(p5 & o) >= MINUS % n.d.w == !(xs[lengthof(as)] > valueof(e))")
}

func C16_Member141() {
	v := members(1)
	sv.Assume(pick((v.N.Y > 0), I(v.N.Y), 3) != 0)
	sv.Assert(v.Y141() == (I(v.Hp.X) >= ((I(v.E)^I(v.P5))%pick((v.N.Y > 0), I(v.N.Y), 3))), "hp.x >= (valueof(e) ^ p5) % (n.pos() ? n.y : 3)")
}

func C16_Member142() {
	v := members(1)
	sv.Assume(I(v.N.D.W) >= 0)
	sv.Assume(I(v.N.D.W) <= 20)
	sv.Assert(v.Y142() == (((I(v.N.X)^int64(70000))>>I(v.N.D.W))*((I(v.N.D.W)/int64(70000))|(I(v.Hp.X)*int64(70000)))), "((n.x ^ BIG) >> n.d.w) * (n.d.w / BIG | hp.x * BIG)")
}

func C16_Member143() {
	v := members(sv.Choose("length", 3))
	sv.Assume(I(v.N.D.U) >= 0)
	sv.Assume(I(v.N.D.U) <= 20)
	sv.Assume(I(v.N.X) >= 0)
	sv.Assume(I(v.N.X) <= 20)
	sv.Assume(I(v.N.Z) >= 0)
	sv.Assume(I(v.N.Z) <= 20)
	sv.Assert(v.Y143() == (((I(v.N.D.U)<<I(v.N.D.U))<<I(v.N.X))+((I(v.N.D.W)>>I(v.N.Z))+(I(v.Xs[len(v.As)])|I(v.Xs[0])))), "(n.d.u << n.d.u << n.x) + ((n.d.w >> n.z) + (xs[lengthof(as)] | xs[0]))")
}

func C16_Member144() {
	v := members(1)
	sv.Assert(v.Y144() == (!(!((v.N.Y > 0) == v.N.B))), "!!(n.pos() == n.b)")
}

func C16_Member145() {
	v := members(1)
	sv.Assert(v.Y145() == (I(v.N.Y) == (pick((v.N.E == 0), I(v.O), I(v.Hp.D.W))+(I(v.P5)>>I(v.N.C)))), "n.g() == ((n.e == E.MID) ? o : hp.d.w) + (p5 >> valueof(n.c))")
}

func C16_Member146() {
	v := members(sv.Choose("length", 3))
	sv.Assume((I(v.Xs[len(v.As)]) ^ I(v.N.Y)) != 0)
	sv.Assert(v.Y146() == (((I(v.Xs[0])>>2)%(I(v.Xs[len(v.As)])^I(v.N.Y))) <= int64(70000)), "(xs[0] >> 2) % (xs[lengthof(as)] ^ n.y) <= BIG")
}

func C16_Member147() {
	v := members(1)
	sv.Assert(v.Y147() == (((-I(v.O))*(I(v.Hp.X)-I(v.N.Z)))|((int64(70000)&I(v.K))-int64(70000))), "-o * (hp.x - n.z) | (BIG & k) - BIG")
}

func C16_Member148() {
	v := members(1)
	sv.Assert(v.Y148() == (I(v.P5) != ((I(v.Xs[0])|I(v.N.X))-(I(v.Ps[0].D.U)&I(v.N.X)))), "p5 != (xs[0] | n.x) - (ps[0].d.u & n.x)")
}

func C16_Member149() {
	v := members(1)
	sv.Assume(I(v.T) >= 0)
	sv.Assume(I(v.T) <= 20)
	sv.Assume((I(v.O) - 1) != 0)
	sv.Assert(v.Y149() == (!((int64(-5) >> I(v.T)) > (2 / (I(v.O) - 1)))), "!(MINUS >> t > 2 / own())")
}

func C16_Member150() {
	v := members(1)
	sv.Assume((I(v.N.D.U) + I(v.N.D.W)) != 0)
	sv.Assert(v.Y150() == ((-(I(v.T) % (I(v.N.D.U) + I(v.N.D.W)))) != (((I(v.N.D.U)+I(v.N.D.W))^I(v.T))|I(v.Xs[0]))), "-(t % n.d.sum()) != (n.d.sum() ^ t | xs[0])")
}

func C16_Member151() {
	v := members(1)
	sv.Assert(v.Y151() == (((I(v.N.D.W) < I(v.N.E)) && (!(v.Hp.E == v.E))) == (v.E != v.N.E)), "(n.d.w < valueof(n.e) && !(hp.e == e)) == (e != n.e)")
}

func C16_Member152() {
	v := members(1)
	sv.Assume(I(v.N.D.W) >= 0)
	sv.Assume(I(v.N.D.W) <= 20)
	sv.Assume(I(v.O) >= 0)
	sv.Assume(I(v.O) <= 20)
	sv.Assert(v.Y152() == (((^(I(v.O) - 1))-(I(v.N.E)<<I(v.N.D.W))) < ((I(v.N.D.U)>>I(v.O))*(int64(-5)+I(v.N.C)))), "~own() - (valueof(n.e) << n.d.w) < (n.d.u >> o) * (MINUS + valueof(n.c))")
}

func C16_Member153() {
	v := members(1)
	sv.Assume(I(v.N.Z) >= 0)
	sv.Assume(I(v.N.Z) <= 20)
	sv.Assume(I(v.N.D.U) >= 0)
	sv.Assume(I(v.N.D.U) <= 20)
	sv.Assert(v.Y153() == (((I(v.N.X)<<I(v.N.Z))>>I(v.N.D.U))&(pick((v.E != v.N.E), I(v.P5), I(v.N.X))+(I(v.N.C)*200))), "n.x << n.z >> n.d.u & ((e != n.e) ? p5 : n.x) + valueof(n.c) * 200")
}

func C16_Member154() {
	v := members(1)
	sv.Assert(v.Y154() == (!(((v.Hp.E == v.E) != (v.N.Y > 0)) != ((I(v.N.D.U) + I(v.N.D.W)) == 0))), "!((hp.e == e) != n.pos() != (n.d.sum() == 0))")
}

func C16_Member155() {
	v := members(1)
	sv.Assert(v.Y155() == (!((v.Hp.B == v.Bs[1]) && (((v.N.E == 0) && v.Hp.B) || (!(v.N.E == 0) && v.N.B)))), "!(hp.b == bs[1] && ((n.e == E.MID) ? hp.b : n.b))")
}

func C16_Member156() {
	v := members(1)
	sv.Assume(I(v.N.Y) >= 0)
	sv.Assume(I(v.N.Y) <= 20)
	sv.Assert(v.Y156() == (((2^I(v.E))-(-1))<<I(v.N.Y)), "(2 ^ valueof(e)) - -1 << n.g()")
}

func C16_Member157() {
	v := members(1)
	sv.Assert(v.Y157() == ((I(v.N.Z)/70000) == (I(v.N.C)/(255+I(v.P5)))), "n.z / 70000 == valueof(n.c) / (255 + p5)")
}

func C16_Member158() {
	v := members(1)
	sv.Assume(I(v.Ps[0].D.U) >= 0)
	sv.Assume(I(v.Ps[0].D.U) <= 20)
	sv.Assert(v.Y158() == ((((I(v.N.D.U)+I(v.N.D.W))<<I(v.Ps[0].D.U)) > I(v.K)) != ((I(v.N.D.U)*I(v.N.Y)) <= (I(v.Xs[0])|(I(v.O)-1)))), "n.d.sum() << ps[0].d.u > k != n.d.u * n.g() <= (xs[0] | own())")
}

func C16_Member159() {
	v := members(1)
	sv.Assert(v.Y159() == (v.Hp.B != ((I(v.P5)-I(v.P5)) > ((I(v.N.D.U)+I(v.N.D.W))-I(v.N.C)))), "hp.b != p5 - p5 > n.d.sum() - valueof(n.c)")
}

func C16_MemberCondition00() {
	v := members(1)
	size(&mem.W0{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!((I(v.P5) > I(v.N.X)) == (256 == I(v.N.Y)))), 8))
}

func C16_MemberCondition01() {
	v := members(1)
	size(&mem.W1{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((((I(v.E) > I(v.N.E)) == (!v.Hp.B)) != (v.N.E == 0)), 8))
}

func C16_MemberCondition02() {
	v := members(1)
	size(&mem.W2{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((v.N.C&2 == 2) || ((I(v.Hp.X) == 7) != ((v.N.C&2 == 2) != (v.N.E == 0)))), 8))
}

func C16_MemberCondition03() {
	v := members(1)
	size(&mem.W3{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!(!(!(v.N.Y > 0)))), 8))
}

func C16_MemberCondition04() {
	v := members(1)
	size(&mem.W4{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((-(I(v.O)-I(v.E))) <= I(v.T)), 8))
}

func C16_MemberCondition05() {
	v := members(1)
	size(&mem.W5{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((pick((v.N.B || v.N.B), (I(v.N.Y)/int64(-5)), (I(v.N.Z)^I(v.K))) == I(v.N.Y)), 8))
}

func C16_MemberCondition06() {
	v := members(1)
	size(&mem.W6{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((((I(v.E) != I(v.E)) && ((v.N.Y > 0) == v.Hp.B)) || (!(v.Hp.B || (v.Hp.E == v.E)))), 8))
}

func C16_MemberCondition07() {
	v := members(1)
	size(&mem.W7{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((!(I(v.Hp.X) <= I(v.P5))) != (pick((v.N.C&2 == 2), I(v.N.E), I(v.K)) > I(v.N.D.W))), 8))
}

func C16_MemberCondition08() {
	v := members(1)
	size(&mem.W8{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!((!(v.Hp.E == v.E)) || ((v.N.Y > 0) || v.Fl))), 8))
}

func C16_MemberCondition09() {
	v := members(1)
	size(&mem.W9{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((int64(-5) != ((^(I(v.N.D.U)+I(v.N.D.W)))+pick((v.N.E == 0), I(v.N.Y), I(v.N.Y)))), 8))
}

func C16_MemberCondition10() {
	v := members(1)
	size(&mem.W10{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!(!((v.E != v.N.E) && v.N.B))), 8))
}

func C16_MemberCondition11() {
	v := members(1)
	size(&mem.W11{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!(!(!v.Fl))), 8))
}

func C16_MemberCondition12() {
	v := members(1)
	size(&mem.W12{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((!(I(v.N.X) != I(v.N.E))) || ((I(v.T)^I(v.O)) > (I(v.N.X)|70000))), 8))
}

func C16_MemberCondition13() {
	v := members(1)
	size(&mem.W13{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((!(10 == I(v.N.D.U))) || (v.N.Y > 0)), 8))
}

func C16_MemberCondition14() {
	v := members(1)
	size(&mem.W14{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!(!(v.E != v.N.E))), 8))
}

func C16_MemberCondition15() {
	v := members(1)
	size(&mem.W15{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((((I(v.K)&I(v.T))+(^I(v.N.Y))) < I(v.K)), 8))
}

func C16_MemberCondition16() {
	v := members(1)
	size(&mem.W16{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((((v.N.E == 0) != (v.N.C&2 == 2)) || (!(v.E != v.N.E))) == (v.N.E == 0)), 8))
}

func C16_MemberCondition17() {
	v := members(1)
	size(&mem.W17{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((!(v.N.E == 0)) && ((I(v.N.E)+(I(v.N.D.U)+I(v.N.D.W))) <= I(v.N.Z))), 8))
}

func C16_MemberCondition18() {
	v := members(1)
	size(&mem.W18{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((!(v.N.B && (v.Hp.E == v.E))) && (((v.N.C&2 == 2) != v.N.B) != (v.N.C&2 == 2))), 8))
}

func C16_MemberCondition19() {
	v := members(1)
	size(&mem.W19{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((^(I(v.K)|int64(70000))) != (I(v.O)&I(v.N.D.U))), 8))
}

func C16_MemberCondition20() {
	v := members(1)
	size(&mem.W20{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((!((I(v.N.D.W) >= I(v.N.E)) == (I(v.N.C) != I(v.N.D.U)))), 8))
}

func C16_MemberCondition21() {
	v := members(1)
	size(&mem.W21{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((((!((v.Hp.B && v.Fl) || (!v.Hp.B && (v.E != v.N.E)))) && (I(v.N.D.U) >= (int64(70000)&I(v.N.C)))) || (!(!((v.Hp.B && v.Fl) || (!v.Hp.B && (v.E != v.N.E)))) && (v.Hp.E == v.E))), 8))
}

func C16_MemberCondition22() {
	v := members(1)
	size(&mem.W22{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(((v.Fl == ((v.Hp.E == v.E) && (v.Hp.E == v.E))) != (v.N.C&2 == 2)), 8))
}

func C16_MemberCondition23() {
	v := members(1)
	size(&mem.W23{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits((10 >= ((I(v.N.E)*I(v.O))%(^int64(70000)))), 8))
}
