package c26

import (
	"gen/zs/mp/base"
	"gen/zs/mp/mid"
	"gen/zs/mp/top"

	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// The types of constants and fields across packages.
var (
	_ uint8       = base.LIMIT
	_ int16       = base.LOW
	_ uint8       = mid.LIMIT2
	_ base.Word   = mid.Mid{}.W
	_ base.Color  = top.Top{}.H
	_ base.Point  = top.Top{}.Pp
	_ top.Size    = top.Top{}.Sz
	_ base.Size   = top.Top{}.Sz2
	_ mid.Shade   = mid.Box2Shade{}.Item
	_ top.Size    = top.Box2Size{}.Item
	_ base.Point  = mid.Box2P{}.Item
	_ []base.Word = top.Top{}.Ws
)

var colors = []base.Color{base.ColorRed, base.ColorGreen, base.ColorBlue}

func C26_Constants() {
	sv.Assert(base.LIMIT == 9 && base.LOW == -300 && mid.LIMIT2 == 10, "constants")
	sv.Assert(base.ColorRed == 1 && base.ColorGreen == 9 && base.ColorBlue == 10, "items")
	sv.Assert(mid.ShadeDark == 9 && mid.ShadeLight == 10, "items")
	sv.Assert(base.CapsR == 1 && base.CapsW == 2 && base.CapsX == 32, "values")
}

func point() base.Point { return base.Point{X: sv.U8("x"), Y: uint8(bits("y", 4))} }

func layPoint(l *pl.Lay, p *base.Point) {
	u(l, uint64(p.X), 8)
	u(l, uint64(p.Y), 4)
}

func someMid(few bool) mid.Mid {
	v := mid.Mid{P: point(), W: sv.U16("w"), T: colors[1], C: base.Caps(sv.U8("c") & 35)}
	if !few {
		v.T = colors[sv.Choose("t", 3)]
	}
	v.Par.P, v.S.C = sv.U16("stale"), colors[sv.Choose("stale", 2)]
	if v.W > 9 {
		v.Par.A = sv.U8("a")
	}
	v.Par.B = uint8(bits("b", 3))
	switch v.T {
	case base.ColorRed:
		v.S.R = sv.U8("r")
	case base.ColorGreen:
		v.S.G = point()
		v.Ifg = sv.U8("ifg")
	default:
		v.S.D = uint8(bits("d", 3))
	}
	v.Box.Item = sv.U16("item")
	if v.Box.Item > 9 {
		v.Box.Extra = sv.U8("extra")
	}
	v.Arr = some8(9, 8)
	if v.C&base.CapsW != 0 {
		v.Ifc = sv.U8("ifc")
	}
	return v
}

func layMid(l *pl.Lay, v *mid.Mid) {
	layPoint(l, &v.P)
	u(l, uint64(v.W), 16)
	u(l, uint64(v.T), 8)
	u(l, uint64(v.C), 6)
	if v.W > 9 {
		u(l, uint64(v.Par.A), 8)
	}
	u(l, uint64(v.Par.B), 3)
	switch v.T {
	case 1:
		u(l, uint64(v.S.R), 8)
	case 9:
		layPoint(l, &v.S.G)
	default:
		u(l, uint64(v.S.D), 3)
	}
	u(l, uint64(v.Box.Item), 16)
	if v.Box.Item > 9 {
		u(l, uint64(v.Box.Extra), 8)
	}
	for _, x := range v.Arr {
		u(l, uint64(x), 8)
	}
	if v.T == 9 {
		u(l, uint64(v.Ifg), 8)
	}
	if v.C&2 != 0 {
		u(l, uint64(v.Ifc), 8)
	}
}

func C26_Imported() {
	v := someMid(false)
	got := &mid.Mid{}
	pl.Run(&v, got, func(l *pl.Lay) { layMid(l, &v) }, func() {
		sv.Assert(got.Par.P == v.W && got.S.C == v.T, "parameters")
		var sum uint8 = got.Ps()
		sv.Assert(sum == v.P.X+v.P.Y, "functions")
	})
}

func someTop(m mid.Mid, dark bool) *top.Top {
	v := &top.Top{M: m, Pp: point(), H: base.ColorBlue, C: base.ColorRed}
	v.Sz.W, v.Sz2.W, v.Y = sv.U16("sz"), sv.U8("sz2"), bits("y", 9)
	v.Ps, v.Hs, v.Pps = []base.Point{}, []base.Color{}, []base.Point{}
	v.Ws = []base.Word{1, 2}
	v.Sh = mid.ShadeLight
	if dark {
		v.Sh = mid.ShadeDark
		v.Z = sv.U8("z")
	}
	if v.M.P.X > 10 {
		v.K = sv.U8("k")
	}
	return v
}

func layTop(l *pl.Lay, v *top.Top) {
	layMid(l, &v.M)
	layPoint(l, &v.Pp)
	count(l, len(v.Ps))
	for i := range v.Ps {
		layPoint(l, &v.Ps[i])
	}
	u(l, uint64(v.H), 8)
	u(l, uint64(v.C), 8)
	u(l, uint64(v.Sz.W), 16)
	u(l, uint64(v.Sz2.W), 8)
	if v.C == 10 {
		u(l, uint64(v.N), 8)
	}
	if v.M.P.X > 10 {
		u(l, uint64(v.K), 8)
	}
	u(l, v.Y, 9)
	u(l, uint64(v.Sh), 8)
	pl.Array(l, v.Ws, false, func(l *pl.Lay, x *base.Word) { l.U("", uint64(*x), 16) })
	pl.Array(l, v.Hs, true, func(l *pl.Lay, x *base.Color) { l.U("", uint64(*x), 8) })
	pl.Array(l, v.Pps, true, func(l *pl.Lay, x *base.Point) {
		l.U("x", uint64(x.X), 8)
		l.U("y", uint64(x.Y), 4)
	})
	if v.Sh == 9 {
		u(l, uint64(v.Z), 8)
	}
}

func C26_Transitive() {
	v := someTop(someMid(true), sv.Choose("dark", 2) == 1)
	v.H, v.C = colors[sv.Choose("h", 3)], colors[sv.Choose("c", 3)]
	if v.C == base.ColorBlue {
		v.N = sv.U8("n")
	}
	got := &top.Top{}
	pl.Run(v, got, func(l *pl.Lay) { layTop(l, v) }, func() {
		var sum uint8 = got.F()
		sv.Assert(sum == v.M.P.X+v.M.P.Y, "functions")
	})
}

func C26_TransitiveArrays() {
	m := mid.Mid{W: 300, T: base.ColorGreen, C: base.CapsR, Arr: some8(9, 8)}
	v := someTop(m, true)
	n := sv.Choose("length", 3)
	for i := 0; i < n; i++ {
		v.Ps = append(v.Ps, point())
		v.Pps = append(v.Pps, point())
	}
	pl.Run(v, &top.Top{}, func(l *pl.Lay) { layTop(l, v) }, nil)
}

func C26_TransitiveNumbers() {
	v := someTop(mid.Mid{T: base.ColorGreen, Arr: make([]uint8, 9)}, false)
	for i := sv.Choose("length", 3); i > 0; i-- {
		v.Hs = append(v.Hs, colors[sv.Choose("hs", 3)])
	}
	v.Ws = []base.Word{sv.U16("w0"), sv.U16("w1")}
	pl.Run(v, &top.Top{}, func(l *pl.Lay) { layTop(l, v) }, nil)
}

// box is the rest of an instance of Box2 from its second field on.
type box struct {
	p base.Point
	w base.Word
	c base.Color
	k uint8
}

func someBox() box {
	b := box{p: point(), w: sv.U16("w"), c: colors[sv.Choose("c", 2)]}
	if b.w > 9 {
		b.k = sv.U8("k")
	}
	return b
}

func (b *box) lay(l *pl.Lay) {
	layPoint(l, &b.p)
	u(l, uint64(b.w), 16)
	u(l, uint64(b.c), 8)
	if b.w > 9 {
		u(l, uint64(b.k), 8)
	}
}

func C26_ImportedTemplates() {
	x, y, z, p, q := someBox(), someBox(), someBox(), someBox(), someBox()
	v := &top.Boxes2{
		A: top.Box2Uint16{Item: sv.U16("a"), P: x.p, W: x.w, C: x.c, K: x.k},
		B: top.Box2Size{Item: top.Size{W: sv.U16("b")}, P: y.p, W: y.w, C: y.c, K: y.k},
		C: mid.Boxes{
			A: mid.Box2Uint8{Item: sv.U8("ca"), P: z.p, W: z.w, C: z.c, K: z.k},
			B: mid.Box2Shade{Item: mid.ShadeLight, P: p.p, W: p.w, C: p.c, K: p.k},
			C: mid.Box2P{Item: point(), P: q.p, W: q.w, C: q.c, K: q.k},
		},
	}
	pl.Run(v, &top.Boxes2{}, func(l *pl.Lay) {
		u(l, uint64(v.A.Item), 16)
		x.lay(l)
		u(l, uint64(v.B.Item.W), 16)
		y.lay(l)
		u(l, uint64(v.C.A.Item), 8)
		z.lay(l)
		u(l, uint64(v.C.B.Item), 8)
		p.lay(l)
		layPoint(l, &v.C.C.Item)
		q.lay(l)
	}, nil)

}
