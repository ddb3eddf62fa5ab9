// Package c16: the value of expressions.
//
//sv:bound the functions, conditions, lengths, selectors and bit widths of schemas/ex.zs: all operators, with operands of every integer type, bool, strings, enums, bitmasks, floats, subtypes, nested fields and array elements; nested up to 4 operators
//sv:bound all values of all fields; strings of 0..3 bytes, arrays of 0..2 elements
//sv:assume the mathematical value fits the 64 bits that it is computed in, divisors are not zero, indices are within the array
package c16

import (
	"math"

	"gen/zs/ex"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

type integer interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~int8 | ~int16 | ~int32 | ~int64 | ~int
}

// I widens an integer.
func I[T integer](v T) int64 { return int64(v) }

func nums() *ex.Nums {
	v := &ex.Nums{A: sv.U8("a"), B: sv.U8("b"), C: sv.I8("c"), D: sv.U16("d"), E: sv.I16("e"), F: sv.U32("f"), G: sv.I32("g"),
		H: sv.U64("h"), I: sv.I64("i"), J: sv.U8("j") & 31, K: sv.I16("k"), L: sv.U16("l"), M: sv.I32("m"), N: sv.U64("n"),
		O: uint64(sv.U32("o")), S: sv.U8("s"), P: sv.U64("p"), Q: sv.U64("q")}
	sv.Assume(sv.And(v.K >= -1024, v.K < 1024))
	sv.Assume(sv.And(v.L < 1<<15, sv.And(v.M > -1<<28, v.M < 1<<28)))
	sv.Assume(sv.And(v.O < 1<<31, v.Q < 1<<57))
	return v
}

func others() *ex.Others {
	n := sv.Choose("n", 3)
	v := &ex.Others{M: ex.Mode(sv.U8("m")), L: ex.Level(sv.I16("l")), C: ex.Caps(sv.U8("c")), T: sv.Bool("t"), F: sv.Bool("f"),
		M2: ex.Mode2(sv.U8("m2")), C2: ex.Caps2(sv.U8("c2")), Len: sv.U8("len"), A: sv.U8("a"),
		N: ex.In{X: sv.U8("x"), M: ex.Mode(sv.U8("nm"))}}
	v.S = sv.Str("s", sv.Choose("ls", 4))
	v.Z = sv.Str("z", sv.Choose("lz", 4))
	for i := 0; i < n; i++ {
		v.Xs = append(v.Xs, sv.U8("xs"))
		v.Ins = append(v.Ins, ex.In{X: sv.U8("insx"), M: ex.Mode(sv.U8("insm"))})
	}
	return v
}

func floats() *ex.Others {
	return &ex.Others{Fl: sv.F32("fl"), Db: sv.F64("db"), A: sv.U8("a")}
}

func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func pick(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

func str(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func pow(n uint8) int64 {
	r := int64(1)
	for i := uint8(0); i < 31; i++ {
		if i < n {
			r += r
		}
	}
	return r
}

// quarter rounds down.
func quarter(c int8) int64 { return (I(c)+128)/4 - 32 }

// numbits is the number of bits that are needed for n values.
func numbits(n uint64) int64 {
	if n <= 1 {
		return I(n)
	}
	r := int64(0)
	for n--; n > 0; n >>= 1 {
		r++
	}
	return r
}

func size(v interface{ ZserioBitSize(int) (int, error) }, want int) {
	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "size error")
	sv.Assert(n == want, "size")
}

func bits(on bool, n int) int {
	if on {
		return n
	}
	return 0
}

// C16_Conditions: an optional field is present exactly when its condition holds.
func C16_Conditions() {
	v := &ex.Uses{A: sv.U8("a"), C: sv.I8("c"), D: sv.U16("d"), M: ex.Mode(sv.U8("m")), K: ex.Caps(sv.U8("k")), T: sv.Bool("t")}
	want := 8 + 8 + 16 + 8 + 8 + 1
	want += bits(I(v.A)+I(v.D) > 300, 8)
	want += bits(I(v.C) < I(v.A), 8)
	want += bits(!((v.T && v.A > 3) || v.C == -1), 8)
	want += bits(v.A&4 != 0 || v.C&8 != 0, 8)
	want += bits(v.K&2 != 0 && v.M == 1, 8)
	want += bits(pick(v.T, I(v.A), I(v.C)) > 100, 8)
	want += bits(I(v.M)*100 > I(v.D), 8)
	size(v, want)
}

// C16_Lengths: arrays are encoded with exactly the length that the schema states.
func C16_Lengths() {
	v := &ex.Lens{A: sv.U8("a"), C: sv.I8("c"), T: sv.Bool("t")}
	nx := int(v.A&1) + 1
	ny := int(pick(v.T, I(v.A)%3, 2))
	nz := int((I(v.C) + 128) / 64)
	lx, ly, lz := sv.Choose("lx", 4), sv.Choose("ly", 4), sv.Choose("lz", 4)
	v.Xs, v.Ys, v.Zs = sv.Bytes("xs", lx), sv.Bytes("ys", ly), sv.Bytes("zs", lz)
	_, w := hx.NewWriter()
	err := v.MarshalZserio(w)
	sv.Assert((err == nil) == (lx == nx && ly == ny && lz == nz), "lengths")
	sv.Reach("end")
}

func C16_Widths() {
	v := &ex.Lens{A: sv.U8("a"), C: 0, T: true}
	v.Xs, v.Ys, v.Zs = make([]byte, sv.Concrete(int(v.A&1)+1)), make([]byte, sv.Concrete(int(v.A%3))), make([]byte, 2)
	size(v, 8+8+1+8*len(v.Xs)+8*len(v.Ys)+16+int(v.A^3)%7+1)
}

func C16_Selector() {
	v := &ex.HasSel{A: sv.U8("a"), C: sv.I8("c")}
	v.S.A, v.S.C = v.A, v.C
	d := I(v.A) - I(v.C)
	want := 4
	if d == 300 {
		want = 8
	}
	if d == -1 {
		want = 16
	}
	size(v, 16+want)
}

func C16_TernarySelector() {
	v := &ex.HasFun{A: sv.U8("a"), T: sv.Bool("t")}
	v.S.A, v.S.T = v.A, v.T
	want := 4
	if v.T && v.A == 255 {
		want = 8
	}
	if !v.T {
		want = 16
	}
	size(v, 9+want)
}

// C16_Subtyped: enums and bitmasks that are based on subtypes.
func C16_Subtyped() {
	v := &ex.Subs{E: ex.Temp(sv.I16("e")), M: ex.Mask(sv.U8("m")), A: sv.U8("a")}
	sv.Assume(v.M < 32)
	sv.Assert(v.S1() == I(v.E)+I(v.A), "S1")
	sv.Assert(v.S2() == I(v.M)-I(v.A), "S2")
	sv.Assert(v.S3() == (I(v.E) == I(v.A)), "S3")
	sv.Assert(v.S4() == (v.E == -299 && v.M&1 == 1), "S4")
	size(v, 16+5+8+bits(I(v.E) > I(v.M), 8))
}
