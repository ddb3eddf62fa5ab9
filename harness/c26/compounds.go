package c26

import (
	"gen/zs/cd"

	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

func C26_Compounds() {
	v := &cd.S{K: sv.U8("k")}
	v.C.K, v.Up.P = sv.U8("stale"), sv.U8("stale")
	switch v.K {
	case 1:
		v.C.A = sv.U16("a")
	case 2:
		v.C.B.X = sv.U8("b")
	default:
		v.C.D.X = sv.U8("d")
	}
	switch sv.Choose("union", 3) {
	case 0:
		v.U = cd.U{UnionChoice: cd.UChoiceA, A: sv.U8("ua")}
	case 1:
		v.U = cd.U{UnionChoice: cd.UChoiceB, B: cd.In{X: sv.U8("ub")}}
	case 2:
		v.U = cd.U{UnionChoice: cd.UChoiceArr, Arr: []uint16{sv.U16("arr")}}
	}
	wide := sv.Choose("wide", 2) == 1
	if wide {
		sv.Assume(v.K > 0 && v.K <= 64)
		v.Up.UnionChoice = cd.UpChoiceD
		v.Up.D = sv.U64("upd")
		sv.Assume(v.Up.D>>1>>(v.K-1) == 0)
	} else {
		v.Up.UnionChoice = cd.UpChoiceA
		v.Up.A = sv.U8("upa")
		sv.Assume(v.Up.A < v.K)
	}
	got := &cd.S{}
	pl.Run(v, got, func(l *pl.Lay) {
		u(l, uint64(v.K), 8)
		switch v.K {
		case 1:
			u(l, uint64(v.C.A), 16)
		case 2:
			u(l, uint64(v.C.B.X), 8)
		default:
			u(l, uint64(v.C.D.X), 8)
		}
		switch v.U.UnionChoice {
		case cd.UChoiceA:
			count(l, 0)
			u(l, uint64(v.U.A), 8)
		case cd.UChoiceB:
			count(l, 1)
			u(l, uint64(v.U.B.X), 8)
		case cd.UChoiceArr:
			count(l, 2)
			count(l, 1)
			u(l, uint64(v.U.Arr[0]), 16)
		}
		if wide {
			count(l, 1)
			u(l, v.Up.D, sv.Concrete(int(v.K)))
		} else {
			count(l, 0)
			u(l, uint64(v.Up.A), 8)
		}
	}, func() {
		sv.Assert(got.C.K == v.K && got.Up.P == v.K, "parameters")
		var one bool = got.One()
		var dx uint8 = got.C.Dx()
		var cf uint8 = got.Cf()
		sv.Assert(one == (v.K == 1) && dx == v.C.D.X && cf == v.C.B.X, "functions of choices")
		var ua, uf uint8 = got.Ua(), got.Uf()
		var more int64 = got.U.More()
		sv.Assert(ua == v.U.A && uf == v.U.A && more == int64(v.U.A)+int64(v.U.B.X), "functions of unions")
	})
}
