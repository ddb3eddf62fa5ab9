package cs

import (
	"gen/zs/chu"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func pair() chu.Pair { return chu.Pair{X: u8(3), Y: s8(7)} }
func ppair(b *hx.Bits, v chu.Pair) {
	b.Put(uint64(v.X), 3)
	b.Put(uint64(v.Y), 7)
}

func normByInt(v *chu.ByInt) {
	w := chu.ByInt{Sel: v.Sel}
	switch v.Sel {
	case 0:
		w.A = v.A
	case 1, 9, 200:
		w.B = v.B
	case 3:
	case 4:
		w.C = v.C
	default:
		w.D = v.D
	}
	*v = w
}

func byInt(sel uint8) chu.ByInt {
	v := chu.ByInt{Sel: sel, A: in8(), B: s8(5), C: pair(), D: u16(11)}
	normByInt(&v)
	return v
}
func pbyInt(b *hx.Bits, v *chu.ByInt) {
	switch v.Sel {
	case 0:
		p8(b, v.A)
	case 1, 9, 200:
		p5(b, v.B)
	case 3:
	case 4:
		ppair(b, v.C)
	default:
		p11(b, v.D)
	}
}

func ByInt() Case {
	return mk(func(v *chu.ByInt) { *v = byInt(sv.U8("sel")) }, pbyInt,
		opt[chu.ByInt]{norm: normByInt, params: func(d, s *chu.ByInt) { d.Sel = s.Sel }, any: func(v *chu.ByInt) { v.Sel = sv.U8("sel") }})
}

// BySigned encodes without error and without bits when no case matches.
func BySigned() Case {
	norm := func(v *chu.BySigned) {
		if v.Sel != -1 {
			v.A = 0
		}
		if v.Sel != -128 && v.Sel != 127 {
			v.B = 0
		}
	}
	return mk(func(v *chu.BySigned) {
		*v = chu.BySigned{Sel: []int8{-1, -128, 127, 0}[sv.Choose("case", 4)], A: in16(), B: u8(2)}
		norm(v)
	}, func(b *hx.Bits, v *chu.BySigned) {
		switch v.Sel {
		case -1:
			p16(b, v.A)
		case -128, 127:
			b.Put(uint64(v.B), 2)
		}
	}, opt[chu.BySigned]{norm: norm, params: func(d, s *chu.BySigned) { d.Sel = s.Sel }, any: func(v *chu.BySigned) { v.Sel = sv.I8("sel") }})
}

func normByBool(v *chu.ByBool) {
	if v.Sel {
		v.B = nil
	} else {
		v.A = ""
	}
}
func byBool(sel bool) chu.ByBool {
	v := chu.ByBool{Sel: sel}
	if sel {
		v.A = str()
	} else {
		v.B = list(num(2), in8)
	}
	return v
}
func pbyBool(b *hx.Bits, v *chu.ByBool) {
	if v.Sel {
		pstr(b, v.A)
	} else {
		arr(b, v.B, true, p8)
	}
}
func ByBool() Case {
	return mk(func(v *chu.ByBool) { *v = byBool(sv.Bool("sel")) }, pbyBool,
		opt[chu.ByBool]{max: 1, norm: normByBool, params: func(d, s *chu.ByBool) { d.Sel = s.Sel }, any: func(v *chu.ByBool) { v.Sel = sv.Bool("sel") }})
}

func normByEnum(v *chu.ByEnum) {
	if v.Sel != chu.KindNum && v.Sel != chu.KindPair {
		v.A = 0
	}
	if v.Sel != chu.KindText {
		v.B = ""
	}
}
func kind() chu.Kind {
	return []chu.Kind{0, 1, 7, 8}[sv.Choose("kind", 4)]
}
func byEnum(sel chu.Kind) chu.ByEnum {
	v := chu.ByEnum{Sel: sel}
	switch sel {
	case 1, 8:
		v.A = u16(15)
	case 7:
		v.B = sv.Str("s", num(1))
	}
	return v
}
func pbyEnum(b *hx.Bits, v *chu.ByEnum) {
	switch v.Sel {
	case 1, 8:
		b.PutVarUint(uint64(v.A), 2)
	case 7:
		pstr(b, v.B)
	}
}
func ByEnum() Case {
	return mk(func(v *chu.ByEnum) { *v = byEnum(kind()) }, pbyEnum,
		opt[chu.ByEnum]{max: 1, norm: normByEnum, params: func(d, s *chu.ByEnum) { d.Sel = s.Sel }, any: func(v *chu.ByEnum) { v.Sel = chu.Kind(sv.U8("sel")) }})
}

func ByMask() Case {
	norm := func(v *chu.ByMask) {
		if v.Sel != 1 {
			v.A = 0
		}
		if v.Sel != 4 {
			v.B = 0
		}
	}
	return mk(func(v *chu.ByMask) {
		*v = chu.ByMask{Sel: chu.Mode(sv.U8("sel")), A: in8(), B: in16()}
		norm(v)
	}, func(b *hx.Bits, v *chu.ByMask) {
		switch v.Sel {
		case 1:
			p8(b, v.A)
		case 4:
			p16(b, v.B)
		}
	}, opt[chu.ByMask]{norm: norm, params: func(d, s *chu.ByMask) { d.Sel = s.Sel }, any: func(v *chu.ByMask) { v.Sel = chu.Mode(sv.U8("sel")) }})
}

func normByMember(v *chu.ByMember) {
	if v.H.Kind != 1 {
		v.A = 0
	}
	if v.H.Kind != 7 {
		v.B = chu.Pair{}
	}
	if v.H.Kind == 1 || v.H.Kind == 7 {
		v.C = 0
	}
}
func byMember(h chu.Head) chu.ByMember {
	v := chu.ByMember{H: h, A: in8(), B: pair(), C: u8(3)}
	normByMember(&v)
	return v
}
func pbyMember(b *hx.Bits, v *chu.ByMember) {
	switch v.H.Kind {
	case 1:
		p8(b, v.A)
	case 7:
		ppair(b, v.B)
	default:
		b.Put(uint64(v.C), 3)
	}
}
func ByMember() Case {
	return mk(func(v *chu.ByMember) { *v = byMember(chu.Head{Kind: chu.Kind(sv.U8("kind")), Wide: sv.Bool("wide")}) }, pbyMember,
		opt[chu.ByMember]{norm: normByMember, params: func(d, s *chu.ByMember) { d.H = s.H },
			any: func(v *chu.ByMember) { v.H = chu.Head{Kind: chu.Kind(sv.U8("kind")), Wide: sv.Bool("wide")} }})
}

func ByExpr() Case {
	norm := func(v *chu.ByExpr) {
		s := int(v.P) + int(v.Q)
		if s != 3 {
			v.A = 0
		}
		if s != 4 {
			v.B = chu.Pair{}
		}
		if s == 3 || s == 4 {
			v.C = nil
		}
	}
	return mk(func(v *chu.ByExpr) {
		*v = chu.ByExpr{P: sv.U8("p"), Q: sv.U8("q"), A: in8(), B: pair(), C: list(2, in8)}
		sv.Assume(int(v.P)+int(v.Q) < 256)
		norm(v)
	}, nil, opt[chu.ByExpr]{max: 1, norm: norm, params: func(d, s *chu.ByExpr) { d.P, d.Q = s.P, s.Q }, any: func(v *chu.ByExpr) {
		v.P, v.Q = sv.U8("p"), sv.U8("q")
		sv.Assume(int(v.P)+int(v.Q) < 256)
	}})
}

func Bare() Case {
	norm := func(v *chu.Bare) {
		if v.Sel != 0 {
			v.A = 0
		}
		if v.Sel != 1 {
			v.B = 0
		}
	}
	return mk(func(v *chu.Bare) {
		*v = chu.Bare{Sel: u8(1), A: in8(), B: in16()}
		norm(v)
	}, func(b *hx.Bits, v *chu.Bare) {
		if v.Sel == 0 {
			p8(b, v.A)
		} else {
			p16(b, v.B)
		}
	}, opt[chu.Bare]{norm: norm, params: func(d, s *chu.Bare) { d.Sel = s.Sel }, any: func(v *chu.Bare) { v.Sel = u8(2) }})
}

func head() chu.Head { return chu.Head{Kind: kind(), Wide: sv.Bool("wide")} }
func phead(b *hx.Bits, v chu.Head) {
	b.Put(uint64(v.Kind), 8)
	pb(b, v.Wide)
}

func Holder() Case {
	return mk(func(v *chu.Holder) {
		h := head()
		*v = chu.Holder{H: h, A: byEnum(h.Kind), B: byBool(h.Wide), Z: u8(1)}
	}, func(b *hx.Bits, v *chu.Holder) {
		phead(b, v.H)
		pbyEnum(b, &v.A)
		pbyBool(b, &v.B)
		b.Put(uint64(v.Z), 1)
	}, opt[chu.Holder]{max: 1, norm: func(v *chu.Holder) {
		normByEnum(&v.A)
		normByBool(&v.B)
	}})
}

// Multi passes a field, a constant and a compound to choices.
func Multi() Case {
	norm := func(v *chu.Multi) {
		normByInt(&v.A)
		normByInt(&v.B)
		if v.Sel > 3 {
			normByMember(&v.C)
		} else {
			v.C = chu.ByMember{}
		}
	}
	return mk(func(v *chu.Multi) {
		sel := sv.U8("sel")
		h := chu.Head{Kind: chu.Kind(sv.U8("kind")), Wide: sv.Bool("wide")}
		*v = chu.Multi{Sel: sel, A: byInt(sel), B: byInt(7), H: h, C: byMember(h)}
		norm(v)
	}, func(b *hx.Bits, v *chu.Multi) {
		p8(b, v.Sel)
		pbyInt(b, &v.A)
		pbyInt(b, &v.B)
		phead(b, v.H)
		if v.Sel > 3 {
			pbyMember(b, &v.C)
		}
	}, opt[chu.Multi]{norm: norm})
}

// unions

func single() chu.Single { return chu.Single{UnionChoice: chu.SingleChoiceA, A: in8()} }
func psingle(b *hx.Bits, v chu.Single) {
	b.PutVarUint(0, 5)
	p8(b, v.A)
}

func union() chu.U {
	switch sv.Choose("select", 5) {
	case 0:
		return chu.U{UnionChoice: chu.UChoiceA, A: in8()}
	case 1:
		return chu.U{UnionChoice: chu.UChoiceB, B: pair()}
	case 2:
		return chu.U{UnionChoice: chu.UChoiceC, C: sv.Str("s", num(1))}
	case 3:
		return chu.U{UnionChoice: chu.UChoiceD, D: list(num(1), in16)}
	}
	return chu.U{UnionChoice: chu.UChoiceE, E: s8(5)}
}
func normU(v *chu.U) {
	w := chu.U{UnionChoice: v.UnionChoice}
	switch v.UnionChoice {
	case chu.UChoiceA:
		w.A = v.A
	case chu.UChoiceB:
		w.B = v.B
	case chu.UChoiceC:
		w.C = v.C
	case chu.UChoiceD:
		w.D = v.D
	case chu.UChoiceE:
		w.E = v.E
	}
	*v = w
}
func punion(b *hx.Bits, v chu.U) {
	switch v.UnionChoice {
	case chu.UChoiceA:
		b.PutVarUint(0, 5)
		p8(b, v.A)
	case chu.UChoiceB:
		b.PutVarUint(1, 5)
		ppair(b, v.B)
	case chu.UChoiceC:
		b.PutVarUint(2, 5)
		pstr(b, v.C)
	case chu.UChoiceD:
		b.PutVarUint(3, 5)
		arr(b, v.D, true, p16[uint16])
	case chu.UChoiceE:
		b.PutVarUint(4, 5)
		p5(b, v.E)
	}
}
func Union() Case {
	return mk(func(v *chu.U) { *v = union() }, func(b *hx.Bits, v *chu.U) { punion(b, *v) }, opt[chu.U]{max: 1, norm: normU})
}

func UNums() Case {
	norm := func(v *chu.UNums) {
		w := chu.UNums{UnionChoice: v.UnionChoice}
		switch v.UnionChoice {
		case chu.UNumsChoiceA:
			w.A = v.A
		case chu.UNumsChoiceB:
			w.B = v.B
		case chu.UNumsChoiceC:
			w.C = v.C
		case chu.UNumsChoiceD:
			w.D = v.D
		case chu.UNumsChoiceE:
			w.E = v.E
		}
		*v = w
	}
	return mk(func(v *chu.UNums) {
		switch sv.Choose("select", 5) {
		case 0:
			*v = chu.UNums{UnionChoice: chu.UNumsChoiceA, A: u8(3)}
		case 1:
			*v = chu.UNums{UnionChoice: chu.UNumsChoiceB, B: u16(15)}
		case 2:
			*v = chu.UNums{UnionChoice: chu.UNumsChoiceC, C: chu.Kind(sv.U8("c"))}
		case 3:
			*v = chu.UNums{UnionChoice: chu.UNumsChoiceD, D: chu.Mode(sv.U8("d"))}
		case 4:
			*v = chu.UNums{UnionChoice: chu.UNumsChoiceE, E: list(2, func() int8 { return sv.I8("e") })}
		}
	}, func(b *hx.Bits, v *chu.UNums) {
		b.PutVarUint(uint64(v.UnionChoice)-1, 5)
		switch v.UnionChoice {
		case chu.UNumsChoiceA:
			b.Put(uint64(v.A), 3)
		case chu.UNumsChoiceB:
			b.PutVarUint(uint64(v.B), 2)
		case chu.UNumsChoiceC:
			b.Put(uint64(v.C), 8)
		case chu.UNumsChoiceD:
			b.Put(uint64(v.D), 8)
		case chu.UNumsChoiceE:
			arr(b, v.E, false, func(b *hx.Bits, v int8) { b.Put(uint64(v), 8) })
		}
	}, opt[chu.UNums]{max: 1, norm: norm})
}

func nested() chu.UNested {
	switch sv.Choose("nested", 3) {
	case 0:
		return chu.UNested{UnionChoice: chu.UNestedChoiceA, A: union()}
	case 1:
		return chu.UNested{UnionChoice: chu.UNestedChoiceB, B: single()}
	}
	return chu.UNested{UnionChoice: chu.UNestedChoiceC, C: sv.Bool("c")}
}
func normNested(v *chu.UNested) {
	w := chu.UNested{UnionChoice: v.UnionChoice}
	switch v.UnionChoice {
	case chu.UNestedChoiceA:
		w.A = v.A
		normU(&w.A)
	case chu.UNestedChoiceB:
		w.B = v.B
	case chu.UNestedChoiceC:
		w.C = v.C
	}
	*v = w
}
func pnested(b *hx.Bits, v chu.UNested) {
	b.PutVarUint(uint64(v.UnionChoice)-1, 5)
	switch v.UnionChoice {
	case chu.UNestedChoiceA:
		punion(b, v.A)
	case chu.UNestedChoiceB:
		psingle(b, v.B)
	case chu.UNestedChoiceC:
		pb(b, v.C)
	}
}
func HoldsUnion() Case {
	return mk(func(v *chu.HoldsUnion) {
		*v = chu.HoldsUnion{N: u8(3), U: nested(), S: maybe(single), T: list(num(2), single)}
	}, func(b *hx.Bits, v *chu.HoldsUnion) {
		b.Put(uint64(v.N), 3)
		pnested(b, v.U)
		if pf(b, v.S != nil) {
			psingle(b, *v.S)
		}
		arr(b, v.T, true, psingle)
	}, opt[chu.HoldsUnion]{max: 1, norm: func(v *chu.HoldsUnion) { normNested(&v.U) }})
}
