package c26

import (
	"gen/zs/sc"

	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// C26_FieldHidesConstant: the field x and not the constant x decides.
func C26_FieldHidesConstant() {
	v := &sc.S{X: sv.U8("x")}
	if v.X > 3 {
		v.Y = sv.U8("y")
	}
	pl.Run(v, &sc.S{}, func(l *pl.Lay) {
		u(l, uint64(v.X), 8)
		if v.X > 3 {
			u(l, uint64(v.Y), 8)
		}
	}, nil)
	w := &sc.U{Head: sc.Head{A: sv.U8("a")}, N: uint8(sv.Choose("n", 3)), V: []uint8{}}
	for i := uint8(0); i < w.N; i++ {
		w.V = append(w.V, sv.U8("v"))
	}
	if w.Head.A > 4 {
		w.W = sv.U8("w")
	}
	w.M2 = []uint8{1, sv.U8("m2"), 3, 4}
	sv.Assert(w.K() == w.N, "function")
	pl.Run(w, &sc.U{}, func(l *pl.Lay) {
		u(l, uint64(w.Head.A), 8)
		u(l, uint64(w.N), 8)
		for _, e := range w.V {
			u(l, uint64(e), 8)
		}
		if w.Head.A > 4 {
			u(l, uint64(w.W), 8)
		}
		for _, e := range w.M2 {
			u(l, uint64(e), 8)
		}
	}, nil)
}

// C26_ParameterHidesConstant: the same for parameters, and types.
func C26_ParameterHidesConstant() {
	v := &sc.Q{X: sv.U8("x")}
	if v.X > 4 {
		v.P.V = sv.U8("v")
	}
	if v.X > 3 {
		v.P.W = sv.U8("w")
	}
	pl.Run(v, &sc.Q{}, func(l *pl.Lay) {
		u(l, uint64(v.X), 8)
		if v.X > 4 {
			u(l, uint64(v.P.V), 8)
		}
		if v.X > 3 {
			u(l, uint64(v.P.W), 8)
		}
	}, nil)
}

// C26_SharedItems: two enums with items of the same names, and other values.
func C26_SharedItems() {
	sv.Assert(sc.ALast == 4 && sc.BSome == 4 && sc.BNone == 9 && sc.FA == 4 && sc.FB == 8, "constants")
	v := &sc.T{B: []sc.B{sc.BNone, sc.BSome}[sv.Choose("b", 2)], A: sc.A(sv.Choose("a", 2))}
	if v.B == 9 {
		v.V = sv.U8("v")
	}
	if v.A == 0 {
		v.W = sv.U8("w")
	}
	pl.Run(v, &sc.T{}, func(l *pl.Lay) {
		u(l, uint64(v.B), 8)
		if v.B == 9 {
			u(l, uint64(v.V), 8)
		}
		u(l, uint64(v.A), 8)
		if v.A == 0 {
			u(l, uint64(v.W), 8)
		}
	}, nil)
	a := &sc.Ca{B: sc.A([]uint8{0, 1, 4}[sv.Choose("ca", 3)])}
	switch a.B {
	case 0:
		a.A = sv.U8("a")
	case 1:
		a.C = sv.U16("c")
	}
	pl.Run(a, &sc.Ca{B: a.B}, func(l *pl.Lay) {
		switch a.B {
		case 0:
			u(l, uint64(a.A), 8)
		case 1:
			u(l, uint64(a.C), 16)
		}
	}, nil)
}

func C26_SharedItemsChoices() {
	b := &sc.Cb{B: sc.B([]uint8{9, 4}[sv.Choose("cb", 2)])}
	if b.B == 9 {
		b.A = sv.U8("a")
	} else {
		b.C = sv.U16("c")
	}
	pl.Run(b, &sc.Cb{B: b.B}, func(l *pl.Lay) {
		if b.B == 9 {
			u(l, uint64(b.A), 8)
		} else {
			u(l, uint64(b.C), 16)
		}
	}, nil)
	c := &sc.Cn{SOME: sc.A(sv.Choose("cn", 2))}
	if c.SOME == 0 {
		c.A = sv.U8("a")
	} else {
		c.NONE = sv.U16("c")
	}
	pl.Run(c, &sc.Cn{SOME: c.SOME}, func(l *pl.Lay) {
		if c.SOME == 0 {
			u(l, uint64(c.A), 8)
		} else {
			u(l, uint64(c.NONE), 16)
		}
	}, nil)
}
