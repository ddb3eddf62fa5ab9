// Package c24: packed arrays of compound types.
//
//sv:bound the compound types of schemas/pk.zs (structs with scalar, bit field, variable-length, optional, conditional, nested, recursive, array, string, enum, bitmask and aligned fields; choices; unions; parameterized types; enums and bitmasks as elements) in packed arrays
//sv:bound arrays of 0..2 elements (0..3 for enums and bitmasks; thorough: one more), all element values; quick tier: differences of 0, 1, 3, 8, 15 and 16 bits (columns of more than 16 bits: 0, 1, 9, 32, 62, 63, 64), thorough: every width
//sv:bound arrays of 128 and 4097 elements of two fields, of which one of the last element is arbitrary and the others are fixed
//sv:bound start offsets 0 and 3
//sv:assume columns with elements of both signs: the width and the choice to pack are the encoder's
package c24

import (
	"math"

	"gen/zs/cv"
	"gen/zs/pk"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// items returns n arbitrary elements.
func items[E any](most int, fix func(*E)) []E {
	s := make([]E, length(most))
	for i := range s {
		sv.Fill("item", &s[i], 1)
		if fix != nil {
			fix(&s[i])
		}
	}
	return s
}

func length(most int) int {
	if sv.Thorough() {
		most++
	}
	return sv.Choose("length", most+1)
}

func flat(l *pl.Lay, v *pk.Flat) { l.U("a", uint64(v.A), 8); l.S("b", int64(v.B), 8) }

func wider(l *pl.Lay, v *pk.Wider) { l.U("a", uint64(v.A), 32) }

func C24_Flat() {
	h := &pk.HFlat{Items: items[pk.Flat](2, nil)}
	pl.Run(h, &pk.HFlat{}, func(l *pl.Lay) { pl.Array(l, h.Items, true, flat) }, nil)
}

func C24_Wider() {
	h := &pk.HWider{Items: items[pk.Wider](3, nil)}
	pl.Run(h, &pk.HWider{}, func(l *pl.Lay) { pl.Array(l, h.Items, true, wider) }, nil)
}

func C24_Signed() {
	h := &pk.HSigned{Items: items[pk.Signed](2, nil)}
	pl.Run(h, &pk.HSigned{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Signed) { l.S("a", int64(v.A), 16) })
	}, nil)
}

func C24_Huge() {
	h := &pk.HHuge{Items: items[pk.Huge](2, nil)}
	pl.Run(h, &pk.HHuge{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Huge) { l.U("a", v.A, 64) })
	}, nil)
}

func C24_HugeSigned() {
	h := &pk.HHugeSigned{Items: items[pk.HugeSigned](2, nil)}
	pl.Run(h, &pk.HHugeSigned{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.HugeSigned) { l.S("a", v.A, 64) })
	}, nil)
}

func C24_Plain() {
	h := &pk.HPlain{Items: items[pk.Plain](2, nil)}
	pl.Run(h, &pk.HPlain{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Plain) {
			l.Bit(v.F)
			l.U("a", uint64(v.A), 8)
			l.Str(v.S)
			l.Raw(func(b *hx.Bits) { b.Put(uint64(math.Float32bits(v.H)), 32) })
		})
	}, nil)
}

func C24_Odd() {
	h := &pk.HOdd{Items: items(2, func(v *pk.Odd) {
		sv.Assume(v.A < 32)
		sv.Assume(v.B >= -4)
		sv.Assume(v.B < 4)
	})}
	pl.Run(h, &pk.HOdd{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Odd) {
			l.U("a", uint64(v.A), 5)
			l.S("b", int64(v.B), 3)
			l.U("k", uint64(v.K), 8)
		})
	}, nil)
}

func C24_Vars() {
	h := &pk.HVars{Items: items(2, func(v *pk.Vars) { sv.Assume(v.A < 1<<15) })}
	pl.Run(h, &pk.HVars{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Vars) { l.VU("a", uint64(v.A), 2) })
	}, nil)
}

func C24_Vars2() {
	h := &pk.HVars2{Items: items(2, func(v *pk.Vars2) { sv.Assume(v.A > -1<<14); sv.Assume(v.A < 1<<14) })}
	pl.Run(h, &pk.HVars2{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Vars2) { l.VI("a", int64(v.A), 2) })
	}, nil)
}

func C24_VSize() {
	h := &pk.HVSize{Items: items(2, func(v *pk.VSize) { sv.Assume(v.A < 1<<31) })}
	pl.Run(h, &pk.HVSize{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.VSize) { l.VU("a", v.A, 5) })
	}, nil)
}

func C24_Opt() {
	h := &pk.HOpt{Items: items(2, func(v *pk.Opt) {
		if v.K <= 3 {
			v.X = 0
		}
	})}
	pl.Run(h, &pk.HOpt{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Opt) {
			l.Bit(v.O != nil)
			if v.O != nil {
				l.U("o", uint64(*v.O), 8)
			}
			l.U("k", uint64(v.K), 8)
			if v.K > 3 {
				l.U("x", uint64(v.X), 8)
			}
		})
	}, nil)
}

func C24_Nest() {
	h := &pk.HNest{Items: items[pk.Nest](2, func(v *pk.Nest) { sv.Assume(v.Z < 16) })}
	pl.Run(h, &pk.HNest{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Nest) {
			l.In("in", func() { flat(l, &v.In) })
			l.U("z", uint64(v.Z), 8)
		})
	}, nil)
}

func C24_OptNest() {
	h := &pk.HOptNest{Items: items[pk.OptNest](3, nil)}
	pl.Run(h, &pk.HOptNest{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.OptNest) {
			l.Bit(v.In != nil)
			if v.In != nil {
				l.In("in", func() { wider(l, v.In) })
			}
		})
	}, nil)
}

// node returns an arbitrary chain.
func node(most int) *pk.Node {
	v := &pk.Node{V: sv.U8("v"), W: sv.U8("w")}
	if sv.Thorough() {
		sv.Assume(v.V < 8)
		sv.Assume(v.W < 4)
	}
	if most > 0 && sv.Choose("next", 2) == 1 {
		v.Next = node(most - 1)
	}
	return v
}

func putNode(l *pl.Lay, v *pk.Node) {
	l.U("v", uint64(v.V), 8)
	l.Bit(v.Next != nil)
	if v.Next != nil {
		putNode(l, v.Next)
	}
	l.U("w", uint64(v.W), 8)
}

func C24_Recursive() {
	h := &pk.HNode{Items: make([]pk.Node, sv.Choose("length", 2))}
	for i := range h.Items {
		depth := 1
		if sv.Thorough() {
			depth = 2
		}
		h.Items[i] = *node(depth)
	}
	pl.Run(h, &pk.HNode{}, func(l *pl.Lay) { pl.Array(l, h.Items, true, putNode) }, nil)
}

func putTree(l *pl.Lay, v *pk.Tree) {
	l.U("v", uint64(v.V), 8)
	pl.Array(l, v.Kids, true, putTree)
}

func C24_Tree() {
	h := &pk.HTree{Items: make([]pk.Tree, length(2))}
	for i := range h.Items {
		h.Items[i] = pk.Tree{V: sv.U8("v"), Kids: make([]pk.Tree, sv.Choose("kids", 3))}
		for j := range h.Items[i].Kids {
			h.Items[i].Kids[j] = pk.Tree{V: sv.U8("kid"), Kids: make([]pk.Tree, 0)}
		}
	}
	pl.Run(h, &pk.HTree{}, func(l *pl.Lay) { pl.Array(l, h.Items, true, putTree) }, nil)
}

func C24_Lists() {
	h := &pk.HLists{Items: make([]pk.Lists, length(2))}
	for i := range h.Items {
		v := &h.Items[i]
		v.N = uint8(sv.Choose("n", 3))
		v.Xs = make([]uint8, v.N)
		for j := range v.Xs {
			v.Xs[j] = sv.U8("x")
		}
	}
	pl.Run(h, &pk.HLists{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Lists) {
			l.U("n", uint64(v.N), 8)
			pl.Array(l, v.Xs, false, func(l *pl.Lay, x *uint8) { l.U("", uint64(*x), 8) })
		})
	}, nil)
}

func C24_Objects() {
	h := &pk.HObjects{Items: make([]pk.Objects, length(2))}
	for i := range h.Items {
		v := &h.Items[i]
		v.Ys = make([]pk.Flat, sv.Choose("n", 3-i))
		for j := range v.Ys {
			v.Ys[j].A = sv.U8("a")
			v.Ys[j].B = int8(i + j)
		}
		v.M = sv.U8("m") & 15
	}
	pl.Run(h, &pk.HObjects{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Objects) {
			pl.Array(l, v.Ys, true, flat)
			l.U("m", uint64(v.M), 4)
		})
	}, nil)
}

func C24_Strings() {
	h := &pk.HStrings{Items: items[pk.Strings](2, nil)}
	pl.Run(h, &pk.HStrings{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Strings) {
			pl.Array(l, v.S, true, func(l *pl.Lay, s *string) { l.Str(*s) })
			l.U("m", uint64(v.M), 8)
		})
	}, nil)
}

var colors = []pk.Color{pk.ColorRed, pk.ColorGreen, pk.ColorBlue}
var levels = []pk.Level{pk.LevelLow, pk.LevelMid, pk.LevelHigh}

func C24_Enums() {
	h := &pk.HEnums{Items: make([]pk.Enums, length(2))}
	for i := range h.Items {
		h.Items[i] = pk.Enums{C: colors[sv.Choose("c", 3)], L: levels[sv.Choose("l", 3)], F: pk.Flags(sv.U8("f"))}
	}
	pl.Run(h, &pk.HEnums{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Enums) {
			l.U("c", uint64(v.C), 8)
			l.S("l", int64(v.L), 16)
			l.U("f", uint64(v.F), 8)
		})
	}, nil)
}

func C24_Aligned() {
	h := &pk.HAligned{Items: items(2, func(v *pk.Aligned) { sv.Assume(v.A < 8) })}
	pl.Run(h, &pk.HAligned{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Aligned) {
			l.U("a", uint64(v.A), 3)
			l.Raw(func(b *hx.Bits) { b.Align(8) })
			l.U("b", uint64(v.B), 8)
		})
	}, nil)
}

func C24_NoPack() {
	h := &pk.HNoPack{Items: items[pk.NoPack](2, nil)}
	pl.Run(h, &pk.HNoPack{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.NoPack) { l.Bit(v.F); l.Str(v.S) })
	}, nil)
}

func C24_Picks() {
	h := &pk.HPicks{Items: make([]pk.Picks, length(2))}
	for i := range h.Items {
		v := &h.Items[i]
		v.T = uint8(1 + sv.Choose("t", 5))
		v.P.Sel = v.T
		switch v.T {
		case 1:
			v.P.A = sv.U8("a")
		case 2:
			v.P.W.A = uint32(sv.U8("w")) << 20
		case 3:
			v.P.S = sv.Str("s", 1)
		case 5:
			v.P.D = sv.I8("d")
		}
	}
	pl.Run(h, &pk.HPicks{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Picks) {
			l.U("t", uint64(v.T), 8)
			switch v.T {
			case 1:
				l.U("p.a", uint64(v.P.A), 8)
			case 2:
				l.In("p.w", func() { wider(l, &v.P.W) })
			case 3:
				l.Str(v.P.S)
			case 5:
				l.S("p.d", int64(v.P.D), 8)
			}
		})
	}, nil)
}

func C24_Same() {
	h := &pk.HSame{One: sv.Choose("one", 2) == 1, Items: make([]pk.Same, length(2))}
	for i := range h.Items {
		v := &h.Items[i]
		v.One = h.One
		if h.One {
			v.A = sv.U8("a")
		} else {
			v.B = sv.U16("b")
		}
	}
	pl.Run(h, &pk.HSame{}, func(l *pl.Lay) {
		l.Bit(h.One)
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Same) {
			if h.One {
				l.U("a", uint64(v.A), 8)
			} else {
				l.U("b", uint64(v.B), 16)
			}
		})
	}, nil)
}

func someOne() (v pk.One) {
	v.UnionChoice = pk.OneUnionChoiceType(1 + sv.Choose("tag", 4))
	switch v.UnionChoice {
	case pk.OneChoiceA:
		v.A = sv.U8("a")
	case pk.OneChoiceS:
		v.S = sv.Str("s", 1)
	case pk.OneChoiceF:
		v.F = pk.Flat{A: sv.U8("fa"), B: 5}
	case pk.OneChoiceC:
		v.C = colors[sv.Choose("c", 3)]
	}
	return v
}

func one(l *pl.Lay, v *pk.One) {
	l.VU("#", uint64(v.UnionChoice)-1, 5)
	switch v.UnionChoice {
	case pk.OneChoiceA:
		l.U("a", uint64(v.A), 8)
	case pk.OneChoiceS:
		l.Str(v.S)
	case pk.OneChoiceF:
		l.In("f", func() { flat(l, &v.F) })
	case pk.OneChoiceC:
		l.U("c", uint64(v.C), 8)
	}
}

func C24_One() {
	h := &pk.HOne{Items: make([]pk.One, length(2))}
	for i := range h.Items {
		h.Items[i] = someOne()
	}
	pl.Run(h, &pk.HOne{}, func(l *pl.Lay) { pl.Array(l, h.Items, true, one) }, nil)
}

func C24_InUnion() {
	h := &pk.HInUnion{Items: make([]pk.InUnion, length(2))}
	for i := range h.Items {
		h.Items[i] = pk.InUnion{U: someOne(), Z: sv.U8("z") & 3}
	}
	pl.Run(h, &pk.HInUnion{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.InUnion) {
			l.In("u", func() { one(l, &v.U) })
			l.U("z", uint64(v.Z), 2)
		})
	}, nil)
}

func par(l *pl.Lay, v *pk.Par, p uint8) {
	if p > 1 {
		l.U("x", uint64(v.X), 8)
	}
	l.U("y", uint64(v.Y), 16)
}

func somePar(p uint8) pk.Par {
	v := pk.Par{P: p, Y: uint16(sv.U8("y")) * 3}
	if p > 1 {
		v.X = sv.U8("x")
	}
	return v
}

func C24_Par() {
	h := &pk.HPar{P: sv.U8("p"), Items: make([]pk.Par, length(2))}
	for i := range h.Items {
		h.Items[i] = somePar(h.P)
	}
	pl.Run(h, &pk.HPar{}, func(l *pl.Lay) {
		l.Raw(func(b *hx.Bits) { b.Put(uint64(h.P), 8) })
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Par) { par(l, v, h.P) })
	}, nil)
}

func C24_Outer() {
	h := &pk.HOuter{Items: make([]pk.Outer, length(2))}
	for i := range h.Items {
		q := sv.U8("q") & 3
		h.Items[i] = pk.Outer{Q: q, Par: somePar(q)}
	}
	pl.Run(h, &pk.HOuter{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Outer) {
			l.U("q", uint64(v.Q), 8)
			l.In("par", func() { par(l, &v.Par, v.Q) })
		})
	}, nil)
}

func C24_Deep() {
	h := &pk.HDeep{Items: make([]pk.Deep, length(2))}
	for i := range h.Items {
		v := &h.Items[i]
		v.One.In.A, v.One.In.B, v.One.Z, v.Two.A = sv.U8("a"), 7, uint8(i), uint32(sv.U8("w"))<<9
	}
	pl.Run(h, &pk.HDeep{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Deep) {
			l.In("one.in", func() { flat(l, &v.One.In) })
			l.U("one.z", uint64(v.One.Z), 8)
			l.In("two", func() { wider(l, &v.Two) })
		})
	}, nil)
}

func C24_Color() {
	h := &pk.HColor{Items: make([]pk.Color, length(3))}
	for i := range h.Items {
		h.Items[i] = colors[sv.Choose("c", 3)]
	}
	pl.Run(h, &pk.HColor{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Color) { l.U("", uint64(*v), 8) })
	}, nil)
}

func C24_Level() {
	h := &pk.HLevel{Items: make([]pk.Level, length(3))}
	for i := range h.Items {
		h.Items[i] = levels[sv.Choose("l", 3)]
	}
	pl.Run(h, &pk.HLevel{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Level) { l.S("", int64(*v), 16) })
	}, nil)
}

func C24_Wide() {
	h := &pk.HWide{Items: make([]pk.Wide, length(3))}
	for i := range h.Items {
		h.Items[i] = []pk.Wide{pk.WideFew, pk.WideMany}[sv.Choose("l", 2)]
	}
	pl.Run(h, &pk.HWide{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Wide) { l.VU("", uint64(*v), 2) })
	}, nil)
}

func C24_Flags() {
	h := &pk.HFlags{Items: make([]pk.Flags, length(3))}
	for i := range h.Items {
		h.Items[i] = pk.Flags(sv.U8("f"))
	}
	pl.Run(h, &pk.HFlags{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Flags) { l.U("", uint64(*v), 8) })
	}, nil)
}

func C24_Fixed() {
	h := &pk.HFixed{Items: items[pk.Flat](2, func(v *pk.Flat) { sv.Assume(v.B > 0) })}
	h.N = uint8(len(h.Items))
	pl.Run(h, &pk.HFixed{}, func(l *pl.Lay) {
		l.Raw(func(b *hx.Bits) { b.Put(uint64(h.N), 8) })
		pl.Array(l, h.Items, false, flat)
	}, nil)
}

func C24_Two() {
	h := &pk.HTwo{Items: items(2, func(v *pk.Wider) { sv.Assume(v.A < 100) }), Others: make([]uint16, sv.Choose("n", 3))}
	for i := range h.Others {
		h.Others[i] = sv.U16("other")
	}
	pl.Run(h, &pk.HTwo{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, wider)
		pl.Array(l, h.Others, true, func(l *pl.Lay, v *uint16) { l.U("", uint64(*v), 16) })
	}, nil)
}

// C24_OnlyDefault: choices with nothing but a default case, or nothing.
func C24_OnlyDefault()       { onlyDefault(sv.Choose("length", 3), 0) }
func C24_OnlyDefaultArrays() { onlyDefault(0, length(2)) }

func onlyDefault(n, m int) {
	h := &pk.HOnlys{Items: make([]pk.Onlys, n), S: sv.U8("s")}
	for i := range h.Items {
		v := &h.Items[i]
		v.S, v.O.X, v.T.X = uint8(3*i), 7+uint16(sv.U8("x")), sv.Str("t", 1)
		v.O.S, v.T.S, v.N.S, v.M.S = v.S, v.S, v.S, v.S
	}
	h.Os, h.Ts = make([]pk.Only, m), make([]pk.OnlyText, m)
	for i := range h.Os {
		h.Os[i] = pk.Only{S: h.S, X: uint16(sv.U8("x")) << 3}
	}
	for i := range h.Ts {
		h.Ts[i] = pk.OnlyText{S: h.S, X: sv.Str("t", 1)}
	}
	pl.Run(h, &pk.HOnlys{}, func(l *pl.Lay) {
		pl.Array(l, h.Items, true, func(l *pl.Lay, v *pk.Onlys) {
			l.U("s", uint64(v.S), 8)
			l.U("o", uint64(v.O.X), 16)
			l.Str(v.T.X)
		})
		l.Raw(func(b *hx.Bits) { b.Put(uint64(h.S), 8) })
		pl.Array(l, h.Os, true, func(l *pl.Lay, v *pk.Only) { l.U("o", uint64(v.X), 16) })
		pl.Array(l, h.Ts, true, func(l *pl.Lay, v *pk.OnlyText) { l.Str(v.X) })
	}, nil)
}

// C24_Large: packed arrays of sizes an implementation may treat apart; the last element
// is arbitrary, the others are fixed.
func C24_Large() {
	sv.Long()
	n := []int{128, 4097}[sv.Choose("large", 2)]
	h := &pk.HFlat{Items: make([]pk.Flat, n)}
	for i := range h.Items {
		h.Items[i] = pk.Flat{A: uint8(100 + i%5), B: int8(i % 2)}
	}
	h.Items[n-1].A = sv.U8("a")
	pl.Run(h, &pk.HFlat{}, func(l *pl.Lay) { pl.Array(l, h.Items, true, flat) }, nil)
}

// C24_Subtypes: elements and fields whose types are subtypes of enums, bitmasks and integers.
func C24_Subtypes() {
	h := &cv.PackIn{V: items[cv.In](2, nil)}
	pl.Run(h, &cv.PackIn{}, func(l *pl.Lay) {
		pl.Array(l, h.V, true, func(l *pl.Lay, v *cv.In) {
			l.U("s", uint64(v.S), 8)
			l.U("t", uint64(v.T), 8)
			l.U("f", uint64(v.F), 8)
		})
	}, nil)
}
