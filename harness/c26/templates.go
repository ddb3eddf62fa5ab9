// Package c26: templates and names across packages.
//
//sv:bound the types of schemas/tp.zs: template structs and choices with 1..2 parameters; arguments: integers, bit fields, varints, float32, bool, string, subtypes, enum, bitmask, struct, other instances; `instantiate` and subtypes of instances
//sv:bound uses of a template parameter: fields, conditions, initial values, functions, parameters, array lengths, elements of automatic and packed arrays, arguments of other templates
//sv:bound the packages of schemas/mp: chains of subtypes, constants, enums, bitmasks, structs, choices and templates of another package, whole and single imports, names given with their package, equal names in two packages
//sv:bound the types of schemas/cd.zs: functions of choices and unions, default cases, parameterized unions
//sv:bound the types of schemas/nm.zs and schemas/lc: lower case names of types (used in the same and in another package), names that are keywords of Go or that the generated code uses
//sv:bound all field values; arrays of 0..2 elements; strings of up to 2 bytes; start offsets 0 and 3
//sv:assume quick tier: packed columns with the differences listed for C24
package c26

import (
	"math"

	"gen/zs/tp"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// u is an unsigned field of n bits, s a signed one, outside of packed arrays.
func u(l *pl.Lay, v uint64, n int) { l.Raw(func(b *hx.Bits) { b.Put(v, n) }) }
func s(l *pl.Lay, v int64, n int)  { u(l, uint64(v), n) }
func count(l *pl.Lay, n int)       { l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(n), 5) }) }

func bits(name string, n int) uint64 { return sv.U64(name) & (1<<n - 1) }

// The Go types of the fields of the instances.
var (
	_ uint8     = tp.OneUint8{}.A
	_ uint16    = tp.OneUint16{}.A
	_ uint8     = tp.OneBit5{}.A
	_ int16     = tp.OneInt9{}.A
	_ tp.Alias2 = tp.OneAlias2{}.A
	_ tp.Three  = tp.OneThree{}.A
	_ bool      = tp.OneBool{}.A
	_ string    = tp.OneString{}.A
	_ float32   = tp.OneFloat32{}.A
	_ uint64    = tp.OneVaruint{}.A
	_ tp.Color  = tp.OneColor{}.A
	_ tp.Flags  = tp.OneFlags{}.A
	_ tp.OneIn  = tp.OneOneIn{}.A
	_ int8      = tp.OneAgain{}.A
	_ uint32    = tp.CondBit20{}.A
	_ *tp.Color = tp.TwoInColor{}.D
	_ []tp.In   = tp.TwoInColor{}.E
)

func C26_Arguments() {
	v := &tp.Uses{}
	v.U8.A, v.U16.A = sv.U8("u8"), sv.U16("u16")
	v.B5.A, v.B7.A, v.B5b.A, v.Th.A = uint8(bits("b5", 5)), uint8(bits("b7", 7)), uint8(bits("b5b", 5)), uint8(bits("th", 3))
	v.I9.A = sv.I16("i9") << 7 >> 7
	v.Al.A, v.Al2.A = sv.U16("al"), sv.U16("al2")
	v.T.A = sv.Bool("t")
	v.S.A = sv.Str("s", sv.Choose("len", 3))
	v.F.A = math.Float32frombits(sv.U32("f"))
	sv.Assume(v.F.A == v.F.A)
	v.V.A = bits("v", 21)
	v.C.A = []tp.Color{tp.ColorRed, tp.ColorGreen}[sv.Choose("c", 2)]
	v.Fl.A = tp.Flags(bits("fl", 2))
	v.In.A.X, v.Oin.A.A.X = sv.U8("in"), sv.U8("oin")
	v.I8.A, v.Ag.A, v.Of.A = sv.I8("i8"), sv.I8("ag"), tp.Flags(bits("of", 2))
	pl.Run(v, &tp.Uses{}, func(l *pl.Lay) {
		u(l, uint64(v.U8.A), 8)
		u(l, uint64(v.U16.A), 16)
		u(l, uint64(v.B5.A), 5)
		u(l, uint64(v.B7.A), 7)
		s(l, int64(v.I9.A), 9)
		u(l, uint64(v.B5b.A), 5)
		u(l, uint64(v.Al.A), 16)
		u(l, uint64(v.Al2.A), 16)
		u(l, uint64(v.Th.A), 3)
		l.Bit(v.T.A)
		l.Str(v.S.A)
		u(l, uint64(math.Float32bits(v.F.A)), 32)
		l.Raw(func(b *hx.Bits) { b.PutVarUint(v.V.A, 9) })
		u(l, uint64(v.C.A), 8)
		u(l, uint64(v.Fl.A), 8)
		u(l, uint64(v.In.A.X), 8)
		u(l, uint64(v.Oin.A.A.X), 8)
		s(l, int64(v.I8.A), 8)
		s(l, int64(v.Ag.A), 8)
		u(l, uint64(v.Of.A), 8)
	}, nil)
}

// An instance of Two, whose arguments are written by a and b (and packed by p).
func two[T, U any](l *pl.Lay, x *T, y *U, c []T, d *U, e []T, a func(*pl.Lay, *T), b func(*pl.Lay, *U), p func(*pl.Lay, *T)) {
	a(l, x)
	b(l, y)
	count(l, len(c))
	for i := range c {
		a(l, &c[i])
	}
	l.Bit(d != nil)
	if d != nil {
		b(l, d)
	}
	pl.Array(l, e, false, p)
}

func wide[T ~uint8 | ~uint16](n int) func(*pl.Lay, *T) {
	return func(l *pl.Lay, v *T) { u(l, uint64(*v), n) }
}

func pwide[T ~uint8 | ~uint16](n int) func(*pl.Lay, *T) {
	return func(l *pl.Lay, v *T) { l.U("", uint64(*v), n) }
}

func some8(k, n int) []uint8 {
	s := make([]uint8, k)
	for i := range s {
		s[i] = uint8(bits("item", n))
	}
	return s
}

func maybe[T any](v T) *T {
	if sv.Choose("present", 2) == 0 {
		return nil
	}
	return &v
}

func C26_TwoInts() {
	k := sv.Choose("length", 3)
	a := tp.TwoUint8Bit3{A: sv.U8("a"), B: uint8(bits("b", 3)), C: some8(k, 8), D: maybe(uint8(bits("d", 3))), E: some8(2, 8)}
	b := tp.TwoUint8Bit4{A: sv.U8("a"), B: uint8(bits("b", 4)), C: some8(2-k, 8), D: maybe(uint8(bits("d", 4))), E: some8(2, 8)}
	v := &tp.Uses2{A: a, B: b}
	rest(v)
	pl.Run(v, &tp.Uses2{}, func(l *pl.Lay) {
		two(l, &a.A, &a.B, a.C, a.D, a.E, wide[uint8](8), wide[uint8](3), pwide[uint8](8))
		two(l, &b.A, &b.B, b.C, b.D, b.E, wide[uint8](8), wide[uint8](4), pwide[uint8](8))
		layRest(l, v)
	}, nil)
}

// rest has what the harness does not vary.
func rest(v *tp.Uses2) {
	v.C.E = []tp.In{{X: 1}, {X: 2}}
	v.D.C.E, v.E.C.E = []uint8{1, 2}, []uint8{3, 3}
}

func layRest(l *pl.Lay, v *tp.Uses2) {
	layC(l, &v.C)
	nest(l, v.D.A.A, v.D.B.A.A, v.D.C.A, v.D.C.B.A, v.D.C.C, v.D.C.E, v.D.D.A, 6)
	nest(l, v.E.A.A, v.E.B.A.A, v.E.C.A, v.E.C.B.A, v.E.C.C, v.E.C.E, v.E.D.A, 2)
}

func layC(l *pl.Lay, c *tp.TwoInColor) {
	two(l, &c.A, &c.B, c.C, c.D, c.E, func(l *pl.Lay, v *tp.In) { u(l, uint64(v.X), 8) },
		wide[tp.Color](8), func(l *pl.Lay, v *tp.In) { l.U("x", uint64(v.X), 8) })
}

func nest(l *pl.Lay, a, b, ca, cb uint8, cc, ce []uint8, d uint8, n int) {
	u(l, uint64(a), n)
	u(l, uint64(b), n)
	var none *uint8
	two(l, &ca, &cb, cc, none, ce, wide[uint8](n), wide[uint8](n), pwide[uint8](n))
	u(l, uint64(d), 8)
}

func C26_TwoTypes() {
	v := &tp.Uses2{}
	rest(v)
	v.A.E, v.B.E = []uint8{0, 0}, []uint8{0, 0}
	v.C.A.X = sv.U8("a")
	v.C.B = []tp.Color{tp.ColorRed, tp.ColorGreen}[sv.Choose("b", 2)]
	for i := sv.Choose("length", 3); i > 0; i-- {
		v.C.C = append(v.C.C, tp.In{X: sv.U8("item")})
	}
	v.C.D = maybe(tp.ColorGreen)
	v.C.E = []tp.In{{X: sv.U8("e0")}, {X: sv.U8("e1")}}
	pl.Run(v, &tp.Uses2{}, func(l *pl.Lay) {
		two(l, &v.A.A, &v.A.B, v.A.C, v.A.D, v.A.E, wide[uint8](8), wide[uint8](3), pwide[uint8](8))
		two(l, &v.B.A, &v.B.B, v.B.C, v.B.D, v.B.E, wide[uint8](8), wide[uint8](4), pwide[uint8](8))
		layRest(l, v)
	}, nil)
}

func C26_Nested() {
	v := &tp.Uses2{}
	rest(v)
	v.A.E, v.B.E = []uint8{0, 0}, []uint8{0, 0}
	v.D.A.A, v.D.B.A.A, v.D.C.A, v.D.C.B.A, v.D.D.A = uint8(bits("a", 6)), uint8(bits("b", 6)), uint8(bits("ca", 6)), uint8(bits("cb", 6)), sv.U8("d")
	v.E.A.A, v.E.B.A.A, v.E.C.A, v.E.C.B.A, v.E.D.A = uint8(bits("a", 2)), uint8(bits("b", 2)), uint8(bits("ca", 2)), uint8(bits("cb", 2)), sv.U8("d")
	v.D.C.C, v.E.C.C = some8(sv.Choose("length", 3), 6), some8(1, 2)
	v.D.C.E, v.E.C.E = some8(2, 6), some8(2, 2)
	pl.Run(v, &tp.Uses2{}, func(l *pl.Lay) {
		two(l, &v.A.A, &v.A.B, v.A.C, v.A.D, v.A.E, wide[uint8](8), wide[uint8](3), pwide[uint8](8))
		two(l, &v.B.A, &v.B.B, v.B.C, v.B.D, v.B.E, wide[uint8](8), wide[uint8](4), pwide[uint8](8))
		layRest(l, v)
	}, nil)
}

func C26_Members() {
	v := &tp.Uses3{}
	v.A.A, v.B.A, v.C.A = sv.U8("a"), sv.I16("b"), uint32(bits("c", 20))
	aw, bw, cw := int(v.A.A)+1 > 200, int(v.B.A)+1 > 200, v.C.A+1 > 200
	if aw {
		v.A.W = sv.U8("aw")
	}
	if bw {
		v.B.W = sv.U8("bw")
	}
	if cw {
		v.C.W = sv.U8("cw")
	}
	v.D.A, v.E.A = sv.U8("d"), sv.I32("e")
	v.K = sv.U8("k")
	v.F, v.G = tp.ParUint8{P: sv.U8("stale"), B: sv.U8("fb")}, tp.ParInt16{P: sv.I16("stale"), B: sv.I16("gb")}
	if v.K > 3 {
		v.F.W, v.G.W = sv.U8("fw"), sv.U8("gw")
	}
	v.L.N = uint8(sv.Choose("l", 3))
	v.L.Xs = some8(int(v.L.N), 8)
	v.M.N = 3 - v.L.N
	v.M.Xs = some8(int(v.M.N), 8)
	v.N.A = sv.U8("n")
	v.O.A = tp.ColorGreen
	got := &tp.Uses3{}
	pl.Run(v, got, func(l *pl.Lay) {
		u(l, uint64(v.A.A), 8)
		if aw {
			u(l, uint64(v.A.W), 8)
		}
		s(l, int64(v.B.A), 16)
		if bw {
			u(l, uint64(v.B.W), 8)
		}
		u(l, uint64(v.C.A), 20)
		if cw {
			u(l, uint64(v.C.W), 8)
		}
		u(l, uint64(v.D.A), 8)
		s(l, int64(v.E.A), 32)
		u(l, uint64(v.K), 8)
		if v.K > 3 {
			u(l, uint64(v.F.W), 8)
		}
		u(l, uint64(v.F.B), 8)
		if v.K > 3 {
			u(l, uint64(v.G.W), 8)
		}
		s(l, int64(v.G.B), 16)
		u(l, uint64(v.L.N), 8)
		for _, x := range v.L.Xs {
			u(l, uint64(x), 8)
		}
		u(l, uint64(v.M.N), 2)
		for _, x := range v.M.Xs {
			u(l, uint64(x), 8)
		}
		u(l, uint64(v.N.A), 8)
		u(l, uint64(v.O.A), 8)
	}, func() {
		sv.Assert(got.F.P == v.K && got.G.P == int16(v.K), "parameters")
		var big bool = got.A.Big()
		sv.Assert(big == (v.A.A > 100), "functions")
		big = got.B.Big()
		sv.Assert(big == (v.B.A > 100), "functions")
		var n uint8 = got.N.Get()
		var o tp.Color = got.O.Get()
		sv.Assert(n == v.N.A && o == v.O.A, "functions")
	})
	var d tp.InitUint8
	var e tp.InitInt32
	sv.Assert(d.LoadDefaultValues() == nil && e.LoadDefaultValues() == nil && d.A == 5 && e.A == 5, "defaults")
}

func C26_Choices() {
	v := &tp.Uses4{K: sv.U8("k")}
	v.A.K, v.B.K = sv.U8("stale"), sv.U8("stale")
	if v.K == 1 {
		v.A.A, v.B.A = sv.U16("a"), uint8(bits("b", 4))
	} else if v.K == 2 {
		v.A.B.A, v.B.B.A = sv.U16("a"), uint8(bits("b", 4))
	} else {
		v.A.C = tp.TwoUint16Uint16{A: sv.U16("a"), C: []uint16{sv.U16("c")}, D: maybe(sv.U16("d")), E: []uint16{sv.U16("e0"), sv.U16("e1")}}
		v.B.C = tp.TwoBit4Bit4{A: uint8(bits("a", 4)), C: []uint8{}, E: []uint8{uint8(bits("e0", 4)), uint8(bits("e1", 4))}}
	}
	got := &tp.Uses4{}
	pl.Run(v, got, func(l *pl.Lay) {
		u(l, uint64(v.K), 8)
		if v.K == 1 {
			u(l, uint64(v.A.A), 16)
			u(l, uint64(v.B.A), 4)
		} else if v.K == 2 {
			u(l, uint64(v.A.B.A), 16)
			u(l, uint64(v.B.B.A), 4)
		} else {
			x := &v.A.C
			two(l, &x.A, &x.B, x.C, x.D, x.E, wide[uint16](16), wide[uint16](16), pwide[uint16](16))
			y := &v.B.C
			two(l, &y.A, &y.B, y.C, y.D, y.E, wide[uint8](4), wide[uint8](4), pwide[uint8](4))
		}
	}, nil)
}

func C26_Arrays() {
	v := &tp.Uses5{}
	for i := sv.Choose("length", 3); i > 0; i-- {
		v.Arr = append(v.Arr, tp.OneUint8{A: sv.U8("item")})
	}
	for i := sv.Choose("length", 3); i > 0; i-- {
		v.Parr = append(v.Parr, tp.OneUint16{A: sv.U16("item")})
	}
	pl.Run(v, &tp.Uses5{}, func(l *pl.Lay) {
		count(l, len(v.Arr))
		for i := range v.Arr {
			u(l, uint64(v.Arr[i].A), 8)
		}
		pl.Array(l, v.Parr, true, func(l *pl.Lay, x *tp.OneUint16) { l.U("a", uint64(x.A), 16) })
	}, nil)
}
