package c22

import (
	"gen/zs/cv"

	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// a template whose type parameter is parameterized

func par2(k uint8) cv.Par { return cv.Par{K: sv.U8("stale"), A: sv.U8("a"), B: sv.U16("b")} }

func putPar(l *pl.Lay, v *cv.Par, k uint8) {
	if k > 3 {
		plain(l, uint64(v.A), 8)
	}
	plain(l, uint64(v.B), 16)
}

func C22_TemplateOfParameterized() {
	n := sv.U8("n")
	v := &cv.Use{T: cv.T1Par{N: n, V: par2(n), W: []cv.Par{par2(n + 1), par2(n + 1)}}, Z: 1}
	for _, x := range []struct {
		p *cv.Par
		k uint8
	}{{&v.T.V, n}, {&v.T.W[0], n + 1}, {&v.T.W[1], n + 1}} {
		if !(x.k > 3) {
			x.p.A = 0
		}
	}
	got := &cv.Use{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		putPar(l, &v.T.V, n)
		putPar(l, &v.T.W[0], n+1)
		putPar(l, &v.T.W[1], n+1)
		plain(l, 1, 1)
	}, func() { sv.Assert(got.T.V.K == n && got.T.W[0].K == n+1 && got.T.W[1].K == n+1, "parameter") })
}

func C22_TemplateChoices() {
	k := sv.U8("k")
	v := &cv.UseTc{K: k, X: cv.TcUint16{S: sv.U8("stale")}, Y: cv.TcUint16{B: sv.U8("yb")}, Q: cv.TcColor{}}
	switch {
	case k == 1:
		v.X.A, v.Q.A = sv.U16("xa"), cv.Color(sv.U8("qa"))
	case k == 2:
		v.X.B, v.Q.B = sv.U8("xb"), sv.U8("qb")
	default:
		v.X.C, v.Q.C = sv.U8("xc")&15, sv.U8("qc")&15
	}
	got := &cv.UseTc{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(k), 8)
		switch {
		case k == 1:
			plain(l, uint64(v.X.A), 16)
		case k == 2:
			plain(l, uint64(v.X.B), 8)
		default:
			plain(l, uint64(v.X.C), 4)
		}
		plain(l, uint64(v.Y.B), 8)
		switch {
		case k == 1:
			plain(l, uint64(v.Q.A), 8)
		case k == 2:
			plain(l, uint64(v.Q.B), 8)
		default:
			plain(l, uint64(v.Q.C), 4)
		}
	}, func() { sv.Assert(got.X.S == k && got.Y.S == 2 && got.Q.S == k, "parameter") })
}

// results of functions

func some2(k uint8, c cv.Color) cv.Two {
	v := cv.Two{K: sv.U8("stale"), C: cv.Color(sv.U8("stale"))}
	if k > 3 && c == cv.ColorRed {
		v.A = sv.U8("a")
	}
	if c != cv.ColorRed {
		v.B = sv.U16("b")
	}
	return v
}

func putTwo(l *pl.Lay, v *cv.Two, k uint8, c cv.Color) {
	if k > 3 && c == cv.ColorRed {
		plain(l, uint64(v.A), 8)
	}
	if c != cv.ColorRed {
		plain(l, uint64(v.B), 16)
	}
}

func C22_Functions() {
	a, c := sv.U8("a"), cv.Color(sv.U8("c"))
	sv.Assume(a < 200)
	v := &cv.HasTwo{F: cv.Fn{A: a, C: c}, V: some2(a, c), W: some2(9, cv.ColorRed)}
	for i := sv.Choose("length", 3); i > 0; i-- {
		v.P = append(v.P, some2(a+9, c))
	}
	got := &cv.HasTwo{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(a), 8)
		plain(l, uint64(c), 8)
		putTwo(l, &v.V, a, c)
		putTwo(l, &v.W, 9, cv.ColorRed)
		pl.Array(l, v.P, true, func(l *pl.Lay, e *cv.Two) {
			if c == cv.ColorRed {
				l.U("a", uint64(e.A), 8)
			} else {
				l.U("b", uint64(e.B), 16)
			}
		})
	}, func() {
		for i := range got.P {
			sv.Assert(got.P[i].K == a+9 && got.P[i].C == c, "parameter")
		}
	})
}

func C22_FunctionConditions() {
	v := &cv.UsesFn{F: cv.Fn{A: sv.U8("a"), C: cv.Color(sv.U8("c"))}}
	sv.Assume(v.F.A < 200)
	red, green := v.F.C == 1, v.F.C == 5
	if red {
		v.X = sv.U8("x")
	}
	if green {
		v.Y = sv.U16("y")
	}
	v.Z = make([]uint8, sv.Concrete(int((v.F.A+9)%3)))
	for i := range v.Z {
		v.Z[i] = sv.U8("z")
	}
	pl.Run(v, &cv.UsesFn{}, func(l *pl.Lay) {
		plain(l, uint64(v.F.A), 8)
		plain(l, uint64(v.F.C), 8)
		if red {
			plain(l, uint64(v.X), 8)
		}
		if green {
			plain(l, uint64(v.Y), 16)
		}
		for _, z := range v.Z {
			plain(l, uint64(z), 8)
		}
	}, nil)
}
