package c26

import (
	"gen/zs/lc/base"
	"gen/zs/lc/top"
	"gen/zs/nm"

	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

func pt() base.Pt { return base.Pt{X: sv.I16("x"), Y: sv.I16("y")} }

func layPt(l *pl.Lay, p *base.Pt) { s(l, int64(p.X), 16); s(l, int64(p.Y), 16) }

// C26_LowerCase: types with lower case names, from another package.
func C26_LowerCase() {
	v := &top.Use{C: base.Col(sv.Choose("c", 2))}
	v.B.V = []base.Pt{}
	v.Bn.V = []base.Num{}
	if v.C == base.ColRed {
		v.H.R = sv.U8("r")
		v.N = sv.U16("n")
	} else {
		v.H.P = pt()
	}
	if sv.Choose("u", 2) == 0 {
		v.U = base.Un{UnionChoice: base.UnChoiceA, A: sv.U8("a")}
	} else {
		v.U = base.Un{UnionChoice: base.UnChoiceB, B: pt()}
	}
	n := sv.Choose("length", 3)
	for i := 0; i < n; i++ {
		v.B.V = append(v.B.V, pt())
		v.Bn.V = append(v.Bn.V, sv.U16("v"))
	}
	v.Ps = []base.Pt{}
	if n == 1 {
		v.Ps = append(v.Ps, pt())
	}
	v.Cs = make([]base.Col, 7)
	v.Cs[n] = base.ColGreen
	got := &top.Use{}
	pl.Run(v, got, func(l *pl.Lay) {
		u(l, uint64(v.C), 8)
		if v.C == 0 {
			u(l, uint64(v.H.R), 8)
		} else {
			layPt(l, &v.H.P)
		}
		count(l, int(v.U.UnionChoice)-1)
		if v.U.UnionChoice == 1 {
			u(l, uint64(v.U.A), 8)
		} else {
			layPt(l, &v.U.B)
		}
		count(l, len(v.B.V))
		for i := range v.B.V {
			layPt(l, &v.B.V[i])
		}
		count(l, len(v.Bn.V))
		for _, x := range v.Bn.V {
			u(l, uint64(x), 16)
		}
		if v.C == 0 {
			u(l, uint64(v.N), 16)
		}
		pl.Array(l, v.Ps, true, func(l *pl.Lay, x *base.Pt) { l.S("x", int64(x.X), 16); l.S("y", int64(x.Y), 16) })
		for _, x := range v.Cs {
			u(l, uint64(x), 8)
		}
	}, nil)
	sv.Assert(base.Lim == 7, "constant")
}

func C26_LowerCaseAliases() {
	var a top.Ptalias = pt()
	v := &top.Use2{P: a}
	if sv.Choose("q", 2) == 1 {
		q := pt()
		v.Q = &q
	}
	pl.Run(v, &top.Use2{}, func(l *pl.Lay) {
		layPt(l, &v.P)
		l.Bit(v.Q != nil)
		if v.Q != nil {
			layPt(l, v.Q)
		}
	}, nil)
	b := &top.Boxp{V: []top.Ptalias{}}
	for i := sv.Choose("length", 3); i > 0; i-- {
		b.V = append(b.V, pt())
	}
	pl.Run(b, &top.Boxp{}, func(l *pl.Lay) {
		count(l, len(b.V))
		for i := range b.V {
			layPt(l, &b.V[i])
		}
	}, nil)
}

// C26_Keywords: names that are keywords of Go, or that the generated code uses.
func C26_Keywords() {
	t := &nm.Type{}
	sv.Fill("t", t, 1)
	pl.Run(t, &nm.Type{}, func(l *pl.Lay) {
		for _, x := range []uint8{t.Type, t.Func, t.String_, t.Err, t.V, t.W, t.R} {
			u(l, uint64(x), 8)
		}
	}, nil)
	p := &nm.UsePar{Type: sv.U8("type"), R: sv.U8("r")}
	if p.Type > p.R {
		p.P.X = sv.U8("x")
	}
	pl.Run(p, &nm.UsePar{}, func(l *pl.Lay) {
		u(l, uint64(p.Type), 8)
		u(l, uint64(p.R), 8)
		if p.Type > p.R {
			u(l, uint64(p.P.X), 8)
		}
	}, nil)
	c := &nm.Cc{Type: 1, V: sv.U8("v")}
	if sv.Choose("type", 2) == 1 {
		c = &nm.Cc{Type: 2, W: sv.U8("w")}
	}
	pl.Run(c, &nm.Cc{Type: c.Type}, func(l *pl.Lay) { u(l, uint64(c.V)+uint64(c.W), 8) }, nil)
	f := nm.Fn{A: sv.U8("a")}
	var r uint8 = f.Func()
	sv.Assert(r == f.A && f.Type() == f.A, "functions")
}

func C26_Locals() {
	n := &nm.Nil{}
	sv.Fill("n", n, 1)
	n.Len = []uint8{sv.U8("l"), sv.U8("l"), sv.U8("l")}
	pl.Run(n, &nm.Nil{}, func(l *pl.Lay) {
		for _, x := range []uint8{n.I, n.Fmt, n.Errors, n.Ztype, n.Len[0], n.Len[1], n.Len[2], n.EndBitPosition, n.ContextNode} {
			u(l, uint64(x), 8)
		}
	}, nil)
	v := &nm.UseLower{L: nm.Lower{X: sv.U8("x")}, Ls: []nm.Lower{{Y_z: sv.U8("y")}}}
	pl.Run(v, &nm.UseLower{}, func(l *pl.Lay) {
		u(l, uint64(v.L.X), 8)
		u(l, uint64(v.L.Y_z), 8)
		count(l, 1)
		u(l, uint64(v.Ls[0].X), 8)
		u(l, uint64(v.Ls[0].Y_z), 8)
	}, nil)
	sv.Assert(nm.ENil == 3 && nm.BNil == 1 && nm.BV == 2 && nm.LowerEnumBc == 1 && nm.LowerConst == 3, "constants")
}
