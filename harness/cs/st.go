package cs

import (
	"math"

	"gen/zs/st"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func inner() st.Inner { return st.Inner{X: u8(3), Y: s8(7)} }
func pinner(b *hx.Bits, v st.Inner) {
	b.Put(uint64(v.X), 3)
	b.Put(uint64(v.Y), 7)
}
func colour() st.Colour               { return st.Colour(u8(3)) }
func pcolour(b *hx.Bits, v st.Colour) { b.Put(uint64(v), 3) }
func flags() st.Flags                 { return st.Flags(sv.U16("f")) }
func pflags(b *hx.Bits, v st.Flags)   { b.Put(uint64(v), 16) }
func key() st.Key                     { return st.Key(sv.U16("f")) }
func p16[T ~uint16](b *hx.Bits, v T)  { b.Put(uint64(v), 16) }
func p8(b *hx.Bits, v uint8)          { b.Put(uint64(v), 8) }
func p5(b *hx.Bits, v int8)           { b.Put(uint64(v), 5) }
func p11(b *hx.Bits, v uint16)        { b.Put(uint64(v), 11) }
func pf32(b *hx.Bits, v float32)      { b.Put(uint64(math.Float32bits(v)), 32) }
func in8() uint8                      { return sv.U8("f") }
func in16() uint16                    { return sv.U16("f") }

// FixedValue is any value of st.Fixed, encodable or not.
func FixedValue() *st.Fixed {
	return &st.Fixed{A: sv.U8("a"), B: sv.U8("b"), C: sv.U16("c"), D: sv.U32("d"), E: sv.U64("e"), F: sv.I8("f"), G: sv.I16("g"),
		H: sv.I32("h"), I: sv.I64("i"), J: sv.Bool("j"), K: sv.I8("k"), L: sv.U64("l"), M: sv.I64("m"), N: sv.U64("n"),
		O: sv.I8("o"), P: hx.Float16().In(), Q: sv.F32("q"), R: sv.F64("r")}
}

func fits(v int64, n int) bool { return v<<uint(64-n)>>uint(64-n) == v }

// FixedFits tells whether every field is in range.
func FixedFits(v *st.Fixed) bool {
	return sv.And(sv.And(v.A < 8, fits(int64(v.K), 5)), sv.And(v.L>>33 == 0, fits(int64(v.O), 1)))
}

func Fixed() Case {
	return mk(func(v *st.Fixed) {
		*v = *FixedValue()
		v.A &= 7
		v.K = v.K << 3 >> 3
		v.L &= 1<<33 - 1
		v.O = v.O << 7 >> 7
	}, func(b *hx.Bits, v *st.Fixed) {
		b.Put(uint64(v.A), 3)
		b.Put(uint64(v.B), 8)
		b.Put(uint64(v.C), 16)
		b.Put(uint64(v.D), 32)
		b.Put(v.E, 64)
		b.Put(uint64(v.F), 8)
		b.Put(uint64(v.G), 16)
		b.Put(uint64(v.H), 32)
		b.Put(uint64(v.I), 64)
		pb(b, v.J)
		b.Put(uint64(v.K), 5)
		b.Put(v.L, 33)
		b.Put(uint64(v.M), 64)
		b.Put(v.N, 64)
		b.Put(uint64(v.O), 1)
		hx.Float16().Put(b, v.P)
		b.Put(uint64(math.Float32bits(v.Q)), 32)
		b.Put(math.Float64bits(v.R), 64)
	}, opt[st.Fixed]{})
}

func varu[T any, P ptr[T]](set func(*T, uint8, uint64), get func(*T) (uint8, uint64), limit uint64, max int) Case {
	return mk[T, P](func(v *T) {
		x := sv.U64("b")
		sv.Assume(x <= limit)
		set(v, u8(1), x)
	}, func(b *hx.Bits, v *T) {
		a, x := get(v)
		b.Put(uint64(a), 1)
		b.PutVarUint(x, max)
	}, opt[T]{})
}

func vars[T any, P ptr[T]](set func(*T, uint8, int64), get func(*T) (uint8, int64), limit int64, max int) Case {
	return mk[T, P](func(v *T) {
		x := sv.I64("b")
		if limit != math.MaxInt64 {
			sv.Assume(sv.And(x <= limit, x >= -limit))
		}
		set(v, u8(1), x)
	}, func(b *hx.Bits, v *T) {
		a, x := get(v)
		b.Put(uint64(a), 1)
		b.PutVarInt(x, max)
	}, opt[T]{})
}

func VarA() Case {
	return mk(func(v *st.VarA) {
		v.A, v.B, v.C = u8(1), sv.U16("b")&(1<<15-1), sv.I16("c")
		sv.Assume(sv.And(v.C < 1<<14, v.C > -(1<<14)))
	}, func(b *hx.Bits, v *st.VarA) {
		b.Put(uint64(v.A), 1)
		b.PutVarUint(uint64(v.B), 2)
		b.PutVarInt(int64(v.C), 2)
	}, opt[st.VarA]{})
}

func VarB() Case {
	return mk(func(v *st.VarB) {
		v.A, v.B, v.C = u8(1), sv.U32("b")&(1<<29-1), sv.I32("c")
		sv.Assume(sv.And(v.C < 1<<28, v.C > -(1<<28)))
	}, func(b *hx.Bits, v *st.VarB) {
		b.Put(uint64(v.A), 1)
		b.PutVarUint(uint64(v.B), 4)
		b.PutVarInt(int64(v.C), 4)
	}, opt[st.VarB]{})
}
func VarC() Case {
	return varu(func(v *st.VarC, a uint8, b uint64) { v.A, v.B = a, b }, func(v *st.VarC) (uint8, uint64) { return v.A, v.B }, 1<<57-1, 8)
}
func VarD() Case {
	return vars(func(v *st.VarD, a uint8, b int64) { v.A, v.B = a, b }, func(v *st.VarD) (uint8, int64) { return v.A, v.B }, 1<<56-1, 8)
}
func VarE() Case {
	return varu(func(v *st.VarE, a uint8, b uint64) { v.A, v.B = a, b }, func(v *st.VarE) (uint8, uint64) { return v.A, v.B }, math.MaxUint64, 9)
}
func VarF() Case {
	return vars(func(v *st.VarF, a uint8, b int64) { v.A, v.B = a, b }, func(v *st.VarF) (uint8, int64) { return v.A, v.B }, math.MaxInt64, 9)
}
func VarG() Case {
	return varu(func(v *st.VarG, a uint8, b uint64) { v.A, v.B = a, b }, func(v *st.VarG) (uint8, uint64) { return v.A, v.B }, 1<<31-1, 5)
}

func Blobs() Case {
	return mk(func(v *st.Blobs) { v.A, v.B, v.C, v.D = u8(5), str(), blob(), extern() },
		func(b *hx.Bits, v *st.Blobs) {
			b.Put(uint64(v.A), 5)
			pstr(b, v.B)
			pblob(b, v.C)
			pextern(b, v.D)
		}, opt[st.Blobs]{max: 1})
}

func names() st.Names {
	return st.Names{A: colour(), B: flags(), C: sv.U16("f"), D: key(), E: inner(), F: u8(2)}
}
func pnames(b *hx.Bits, v st.Names) {
	pcolour(b, v.A)
	pflags(b, v.B)
	p16(b, v.C)
	p16(b, v.D)
	pinner(b, v.E)
	b.Put(uint64(v.F), 2)
}
func Names() Case {
	return mk(func(v *st.Names) { *v = names() }, func(b *hx.Bits, v *st.Names) { pnames(b, *v) }, opt[st.Names]{})
}

func maybe[T any](f func() T) *T {
	if sv.Choose("present", 2) == 0 {
		return nil
	}
	v := f()
	return &v
}

func Opt() Case {
	return mk(func(v *st.Opt) {
		*v = st.Opt{A: u8(2), B: maybe(in8), C: maybe(func() int8 { return s8(6) }), D: maybe(inner), E: maybe(colour),
			F: maybe(func() string { return sv.Str("s", num(1)) }), G: maybe(key), Z: u8(1)}
	}, func(b *hx.Bits, v *st.Opt) {
		b.Put(uint64(v.A), 2)
		if pf(b, v.B != nil) {
			p8(b, *v.B)
		}
		if pf(b, v.C != nil) {
			b.Put(uint64(*v.C), 6)
		}
		if pf(b, v.D != nil) {
			pinner(b, *v.D)
		}
		if pf(b, v.E != nil) {
			pcolour(b, *v.E)
		}
		if pf(b, v.F != nil) {
			pstr(b, *v.F)
		}
		if pf(b, v.G != nil) {
			p16(b, *v.G)
		}
		b.Put(uint64(v.Z), 1)
	}, opt[st.Opt]{max: 1})
}

func normCond(v *st.Cond) {
	if !(v.A > 7) {
		v.D = 0
	}
	if !v.C {
		v.E = st.Inner{}
	}
	if !(v.C && v.A != 9) {
		v.F = 0
	}
	if !(!v.C || v.A == 3) {
		v.G = 0
	}
	if !(v.A < 4) {
		v.H = nil
	}
}

func Cond() Case {
	return mk(func(v *st.Cond) {
		*v = st.Cond{A: in8(), C: sv.Bool("c"), D: in8(), E: inner(), F: s8(5), G: sv.U16("g") & (1<<15 - 1), H: maybe(in8), Z: u8(1)}
		normCond(v)
	}, func(b *hx.Bits, v *st.Cond) {
		p8(b, v.A)
		pb(b, v.C)
		if v.A > 7 {
			p8(b, v.D)
		}
		if v.C {
			pinner(b, v.E)
		}
		if v.C && v.A != 9 {
			p5(b, v.F)
		}
		if !v.C || v.A == 3 {
			b.PutVarUint(uint64(v.G), 2)
		}
		if v.A < 4 {
			if pf(b, v.H != nil) {
				p8(b, *v.H)
			}
		}
		b.Put(uint64(v.Z), 1)
	}, opt[st.Cond]{norm: normCond})
}

func Aligned() Case {
	norm := func(v *st.Aligned) {
		if v.A != 1 {
			v.F = 0
		}
	}
	return mk(func(v *st.Aligned) {
		*v = st.Aligned{A: u8(3), B: in8(), C: u8(5), D: u8(2), E: inner(), F: u8(7), Z: u8(1)}
		norm(v)
	}, func(b *hx.Bits, v *st.Aligned) {
		b.Put(uint64(v.A), 3)
		b.Align(8)
		p8(b, v.B)
		b.Put(uint64(v.C), 5)
		b.Align(4)
		b.Put(uint64(v.D), 2)
		b.Align(16)
		pinner(b, v.E)
		if v.A == 1 {
			b.Align(32)
			b.Put(uint64(v.F), 7)
		}
		b.Put(uint64(v.Z), 1)
	}, opt[st.Aligned]{norm: norm})
}

func FixedArrays() Case {
	return mk(func(v *st.FixedArrays) {
		*v = st.FixedArrays{Z: u8(1), A: list(2, in8), B: list(3, func() int8 { return s8(5) }), C: list(1, func() uint16 { return u16(11) }),
			D: list(2, inner), E: list(3, func() bool { return sv.Bool("e") }), F: list(2, colour)}
	}, func(b *hx.Bits, v *st.FixedArrays) {
		b.Put(uint64(v.Z), 1)
		arr(b, v.A, false, p8)
		arr(b, v.B, false, p5)
		arr(b, v.C, false, p11)
		arr(b, v.D, false, pinner)
		arr(b, v.E, false, pb)
		arr(b, v.F, false, pcolour)
	}, opt[st.FixedArrays]{max: 1})
}

func AutoArrays() Case {
	return mk(func(v *st.AutoArrays) {
		*v = st.AutoArrays{Z: u8(1), A: list(num(2), in16), B: list(num(1), func() int8 { return s8(5) }), C: list(num(1), func() uint16 { return u16(11) }),
			D: list(num(2), inner)}
	}, func(b *hx.Bits, v *st.AutoArrays) {
		b.Put(uint64(v.Z), 1)
		arr(b, v.A, true, p16[uint16])
		arr(b, v.B, true, p5)
		arr(b, v.C, true, p11)
		arr(b, v.D, true, pinner)
	}, opt[st.AutoArrays]{max: 1})
}

func AutoMore() Case {
	return mk(func(v *st.AutoMore) {
		*v = st.AutoMore{Z: u8(1), A: list(num(2), colour), B: list(num(1), flags), C: list(num(2), key),
			D: list(num(1), func() bool { return sv.Bool("d") }), E: list(num(1), func() float32 { return sv.F32("e") })}
	}, func(b *hx.Bits, v *st.AutoMore) {
		b.Put(uint64(v.Z), 1)
		arr(b, v.A, true, pcolour)
		arr(b, v.B, true, pflags)
		arr(b, v.C, true, p16[st.Key])
		arr(b, v.D, true, pb)
		arr(b, v.E, true, pf32)
	}, opt[st.AutoMore]{max: 1})
}

func AutoBlobs() Case {
	return mk(func(v *st.AutoBlobs) {
		*v = st.AutoBlobs{Z: u8(1), A: list(num(2), func() string { return sv.Str("s", num(1)) }), B: list(num(1), blob), C: list(num(1), extern)}
	}, func(b *hx.Bits, v *st.AutoBlobs) {
		b.Put(uint64(v.Z), 1)
		arr(b, v.A, true, pstr)
		arr(b, v.B, true, pblob)
		arr(b, v.C, true, pextern)
	}, opt[st.AutoBlobs]{max: 1})
}

func AutoVars() Case {
	return mk(func(v *st.AutoVars) {
		*v = st.AutoVars{Z: u8(1), A: list(num(2), func() uint16 { return u16(15) }), B: list(num(1), func() int16 {
			x := sv.I16("b")
			sv.Assume(sv.And(x < 1<<14, x > -(1<<14)))
			return x
		})}
	}, func(b *hx.Bits, v *st.AutoVars) {
		b.Put(uint64(v.Z), 1)
		arr(b, v.A, true, func(b *hx.Bits, v uint16) { b.PutVarUint(uint64(v), 2) })
		arr(b, v.B, true, func(b *hx.Bits, v int16) { b.PutVarInt(int64(v), 2) })
	}, opt[st.AutoVars]{max: 1})
}

func LenArrays() Case {
	return mk(func(v *st.LenArrays) {
		n, m := num(2), num(1)
		*v = st.LenArrays{N: uint8(n), M: int8(m), A: list(n, in8), B: list(n, inner), C: list(m, func() uint8 { return u8(4) }), D: list(n+m, in16)}
	}, func(b *hx.Bits, v *st.LenArrays) {
		b.Put(uint64(v.N), 8)
		b.Put(uint64(v.M), 4)
		arr(b, v.A, false, p8)
		arr(b, v.B, false, pinner)
		arr(b, v.C, false, func(b *hx.Bits, v uint8) { b.Put(uint64(v), 4) })
		arr(b, v.D, false, p16[uint16])
	}, opt[st.LenArrays]{max: 1})
}

func OptArrays() Case {
	norm := func(v *st.OptArrays) {
		if v.N <= 2 {
			v.D = nil
		}
	}
	return mk(func(v *st.OptArrays) {
		n := num(3)
		*v = st.OptArrays{Z: u8(1), A: maybe(func() []uint8 { return list(num(1), in8) }), B: maybe(func() []st.Inner { return list(num(1), inner) }),
			N: uint8(n), C: maybe(func() []int8 { return list(n, func() int8 { return s8(5) }) })}
		if n > 2 {
			v.D = list(num(1), in16)
		}
	}, func(b *hx.Bits, v *st.OptArrays) {
		b.Put(uint64(v.Z), 1)
		if pf(b, v.A != nil) {
			arr(b, *v.A, true, p8)
		}
		if pf(b, v.B != nil) {
			arr(b, *v.B, true, pinner)
		}
		b.Put(uint64(v.N), 3)
		if pf(b, v.C != nil) {
			arr(b, *v.C, false, p5)
		}
		if v.N > 2 {
			arr(b, v.D, true, p16[uint16])
		}
	}, opt[st.OptArrays]{max: 1, norm: norm})
}

func PackedArrays() Case {
	return mk(func(v *st.PackedArrays) {
		*v = st.PackedArrays{Z: u8(1), A: list(num(2), in8), B: list(2, func() int8 { return s8(5) }), C: list(num(1), inner)}
	}, nil, opt[st.PackedArrays]{max: 1})
}

func PackedMore() Case {
	return mk(func(v *st.PackedMore) {
		*v = st.PackedMore{Z: u8(1), A: list(num(2), colour), B: list(num(1), flags), C: list(2, key)}
	}, nil, opt[st.PackedMore]{max: 1})
}

func PackedPlain() Case {
	return mk(func(v *st.PackedPlain) {
		*v = st.PackedPlain{Z: u8(1), A: list(num(2), func() string { return sv.Str("s", num(1)) }), B: list(num(2), func() float32 { return sv.F32("b") }),
			C: list(num(1), func() bool { return sv.Bool("c") })}
	}, nil, opt[st.PackedPlain]{max: 1})
}

func DynBits() Case {
	return mk(func(v *st.DynBits) {
		n := []int{1, 7, 8, 33, 63}[sv.Choose("n", 5)]
		*v = st.DynBits{N: uint8(n), A: u64(n), B: sv.I64("b") << uint(64-n) >> uint(64-n), Z: u8(1)}
	}, func(b *hx.Bits, v *st.DynBits) {
		b.Put(uint64(v.N), 6)
		b.Put(v.A, int(v.N))
		b.Put(uint64(v.B), int(v.N))
		b.Put(uint64(v.Z), 1)
	}, opt[st.DynBits]{})
}

func opt2() st.Opt2 { return st.Opt2{A: maybe(inner), B: u8(3)} }
func popt2(b *hx.Bits, v st.Opt2) {
	if pf(b, v.A != nil) {
		pinner(b, *v.A)
	}
	b.Put(uint64(v.B), 3)
}
func chain(depth int) st.Chain {
	c := st.Chain{V: in8()}
	if depth > 0 && sv.Choose("next", 2) == 1 {
		n := chain(depth - 1)
		c.Next = &n
	}
	return c
}
func pchain(b *hx.Bits, v st.Chain) {
	p8(b, v.V)
	if pf(b, v.Next != nil) {
		pchain(b, *v.Next)
	}
}
func Deep() Case {
	return mk(func(v *st.Deep) {
		*v = st.Deep{A: names(), B: maybe(opt2), C: list(num(2), func() st.Chain { return chain(1) })}
	}, func(b *hx.Bits, v *st.Deep) {
		pnames(b, v.A)
		if pf(b, v.B != nil) {
			popt2(b, *v.B)
		}
		arr(b, v.C, true, pchain)
	}, opt[st.Deep]{max: 1})
}

func HoldsEmpty() Case {
	return mk(func(v *st.HoldsEmpty) {
		*v = st.HoldsEmpty{B: u8(3), C: list(num(2), func() st.Empty { return st.Empty{} }), D: maybe(func() st.Empty { return st.Empty{} })}
	}, func(b *hx.Bits, v *st.HoldsEmpty) {
		b.Put(uint64(v.B), 3)
		b.PutVarUint(uint64(len(v.C)), 5)
		pb(b, v.D != nil)
	}, opt[st.HoldsEmpty]{max: 1})
}
