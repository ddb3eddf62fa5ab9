// Package c22: parameterized types.
//
//sv:bound the types of schemas/pa.zs: structs, choices and unions with 1..3 parameters of integer, signed, bool, enum, bitmask, subtype, string and compound type
//sv:bound arguments: fields, nested fields, expressions, literals, constants, enum items, function results, parameters of the enclosing type, @index and array elements at @index
//sv:bound places: fields, conditional and optional fields, choice and union members, automatic, fixed, optional and packed arrays of 0..2 elements, types in packed arrays
//sv:bound all argument and field values; whatever the parameters held before; start offsets 0 and 3
//sv:assume quick tier: packed columns with the differences listed for C24
package c22

import (
	"gen/zs/pa"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// somePar is a Par that is to be encoded with p; its parameter still holds anything.
func somePar(p uint8) pa.Par {
	v := pa.Par{P: sv.U8("stale")}
	if p > 4 {
		v.X = sv.U8("x")
	}
	v.Y = uint64(sv.U8("y") & (1<<((p&3)+1) - 1))
	return v
}

func par(l *pl.Lay, v *pa.Par, p uint8) {
	if p > 4 {
		l.U("x", uint64(v.X), 8)
	}
	l.U("y", uint64(v.Y), sv.Concrete(int(p&3)+1))
}

func plain(l *pl.Lay, v, n uint64) { l.Raw(func(b *hx.Bits) { b.Put(v, int(n)) }) }

// field is par outside of a packed array.
func field(l *pl.Lay, v *pa.Par, p uint8) {
	if p > 4 {
		plain(l, uint64(v.X), 8)
	}
	plain(l, uint64(v.Y), uint64(sv.Concrete(int(p&3)+1)))
}

func is(v *pa.Par, p uint8) { sv.Assert(v.P == p, "parameter") }

func C22_FromField() {
	n := sv.U8("n")
	v := &pa.FromField{N: n, V: somePar(n)}
	got := &pa.FromField{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		field(l, &v.V, n)
	}, func() { is(&got.V, n); is(&v.V, n) })
}

func C22_FromExpr() {
	n := sv.U8("n")
	v := &pa.FromExpr{N: n, V: somePar(n + 3), W: somePar(5), Z: somePar(7)}
	got := &pa.FromExpr{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		field(l, &v.V, n+3)
		field(l, &v.W, 5)
		field(l, &v.Z, 7)
	}, func() { is(&got.V, n+3); is(&got.W, 5); is(&got.Z, 7) })
}

var modes = []pa.Mode{pa.ModeOff, pa.ModeOn, pa.ModeAuto}

func someHead() pa.Head {
	return pa.Head{N: sv.U8("n"), K: sv.I16("k"), Wide: sv.Bool("wide"), Mode: modes[sv.Choose("mode", 3)], Caps: pa.Caps(sv.U8("caps"))}
}

func head(l *pl.Lay, h *pa.Head) {
	plain(l, uint64(h.N), 8)
	plain(l, uint64(h.K), 16)
	plain(l, sv.IteU64(h.Wide, 1, 0), 1)
	plain(l, uint64(h.Mode), 8)
	plain(l, uint64(h.Caps), 8)
}

func C22_FromNested() {
	h := someHead()
	v := &pa.FromNested{H: h, V: somePar(h.N), K: pa.BySigned{K: sv.I16("stale")}}
	if h.K < 0 {
		v.K.A = sv.U8("a")
	}
	if h.K >= 100 {
		v.K.B = sv.U16("b")
	}
	got := &pa.FromNested{}
	pl.Run(v, got, func(l *pl.Lay) {
		head(l, &h)
		field(l, &v.V, h.N)
		if h.K < 0 {
			plain(l, uint64(v.K.A), 8)
		}
		if h.K >= 100 {
			plain(l, uint64(v.K.B), 16)
		}
	}, func() { is(&got.V, h.N); sv.Assert(got.K.K == h.K, "parameter") })
}

func someByMode(m pa.Mode, b bool) pa.ByMode {
	v := pa.ByMode{M: modes[sv.Choose("stale", 3)], B: sv.Bool("stale")}
	if m == pa.ModeAuto {
		v.A = sv.U8("a")
	}
	if b {
		v.C = sv.U8("c")
	}
	return v
}

func byMode(l *pl.Lay, v *pa.ByMode, m pa.Mode, b bool) {
	if m == pa.ModeAuto {
		plain(l, uint64(v.A), 8)
	}
	if b {
		plain(l, uint64(v.C), 8)
	}
}

func C22_FromEnum() {
	h := someHead()
	v := &pa.FromEnum{H: h, M: someByMode(h.Mode, h.Wide), Q: someByMode(pa.ModeAuto, !h.Wide)}
	v.C.C = pa.Caps(sv.U8("stale"))
	if h.Caps&pa.CapsW != 0 {
		v.C.A = sv.U8("ca")
	}
	got := &pa.FromEnum{}
	pl.Run(v, got, func(l *pl.Lay) {
		head(l, &h)
		byMode(l, &v.M, h.Mode, h.Wide)
		byMode(l, &v.Q, pa.ModeAuto, !h.Wide)
		if h.Caps&2 != 0 {
			plain(l, uint64(v.C.A), 8)
		}
	}, func() {
		sv.Assert(got.M.M == h.Mode && got.M.B == h.Wide, "parameter")
		sv.Assert(got.Q.M == pa.ModeAuto && got.Q.B == !h.Wide, "parameter")
		sv.Assert(got.C.C == h.Caps, "parameter")
	})
}

func C22_FromText() {
	v := &pa.FromText{S: sv.Str("s", sv.Choose("len", 3)), T: pa.ByText{A: sv.U8("a"), S: "stale"}}
	got := &pa.FromText{}
	pl.Run(v, got, func(l *pl.Lay) {
		l.Str(v.S)
		plain(l, uint64(v.T.A), 8)
	}, func() { sv.Assert(got.T.S == v.S, "parameter") })
}

func C22_FromHead() {
	h := someHead()
	h.N = uint8(sv.Choose("count", 3))
	v := &pa.FromHead{H: h, V: pa.ByHead{H: someHead(), Xs: make([]uint8, h.N)}}
	for i := range v.V.Xs {
		v.V.Xs[i] = sv.U8("x")
	}
	if h.Wide {
		v.V.Y = sv.U8("y")
	}
	got := &pa.FromHead{}
	pl.Run(v, got, func(l *pl.Lay) {
		head(l, &h)
		for _, x := range v.V.Xs {
			plain(l, uint64(x), 8)
		}
		if h.Wide {
			plain(l, uint64(v.V.Y), 8)
		}
	}, func() { sv.Assert(got.V.H == h, "parameter") })
}

func C22_FromFunction() {
	n := sv.U8("n")
	v := &pa.FromFunction{N: n, V: somePar(n * 2)}
	got := &pa.FromFunction{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		field(l, &v.V, n*2)
	}, func() { is(&got.V, n*2) })
}

func C22_FromMany() {
	a, b, c := sv.U8("a"), sv.I16("b"), sv.U32("c")
	v := &pa.FromMany{A: a, B: b, C: c}
	v.V = pa.ByMany{A: sv.U8("stale"), B: sv.I16("stale"), C: sv.U32("stale")}
	both := int(a)+int(b) > 10
	if both {
		v.V.X = sv.U8("x")
	}
	if c == 70000 {
		v.V.Y = sv.U8("y")
	}
	got := &pa.FromMany{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(a), 8)
		plain(l, uint64(b), 16)
		plain(l, uint64(c), 32)
		if both {
			plain(l, uint64(v.V.X), 8)
		}
		if c == 70000 {
			plain(l, uint64(v.V.Y), 8)
		}
	}, func() { sv.Assert(got.V.A == a && got.V.B == b && got.V.C == c, "parameter") })
}

func someList(n int) pa.List {
	v := pa.List{N: pa.Size(sv.U8("stale")), Xs: make([]uint16, n)}
	for i := range v.Xs {
		v.Xs[i] = sv.U16("item")
	}
	return v
}

func list(l *pl.Lay, v *pa.List) {
	for _, x := range v.Xs {
		plain(l, uint64(x), 16)
	}
}

func C22_FromSub() {
	n := sv.Choose("n", 3)
	v := &pa.FromSub{N: pa.Small(n), V: someList(n)}
	got := &pa.FromSub{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		list(l, &v.V)
	}, func() { sv.Assert(int(got.V.N) == n, "parameter") })
}

func through(p uint8) pa.Through {
	return pa.Through{P: sv.U8("stale"), V: somePar(p), W: somePar(p + 1)}
}

func C22_Chain() {
	n := sv.U8("n")
	v := &pa.Chain{N: n, T: through(n)}
	got := &pa.Chain{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		field(l, &v.T.V, n)
		field(l, &v.T.W, n+1)
	}, func() { is(&got.T.V, n); is(&got.T.W, n+1); sv.Assert(got.T.P == n, "parameter") })
}

func pars(n int, p func(int) uint8) []pa.Par {
	s := make([]pa.Par, n)
	for i := range s {
		s[i] = somePar(p(i))
	}
	return s
}

func all(s []pa.Par, n int, p func(int) uint8) {
	sv.Assert(len(s) == n, "parameter")
	for i := range s {
		is(&s[i], p(i))
	}
}

func length() int {
	if sv.Thorough() {
		return sv.Choose("length", 4)
	}
	return sv.Choose("length", 3)
}

func C22_InArray() {
	n, k := sv.U8("n"), length()
	same := func(int) uint8 { return n }
	v := &pa.InArray{N: n, V: pars(k, same)}
	got := &pa.InArray{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(k), 5) })
		for i := range v.V {
			field(l, &v.V[i], n)
		}
	}, func() { all(got.V, k, same); all(v.V, k, same) })
}

func C22_InFixed() {
	n := sv.U8("n")
	same := func(int) uint8 { return n }
	v := &pa.InFixed{N: n, V: pars(2, same)}
	got := &pa.InFixed{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		for i := range v.V {
			field(l, &v.V[i], n)
		}
	}, func() { all(got.V, 2, same) })
}

func C22_InPacked() {
	n, k := sv.U8("n"), length()
	same := func(int) uint8 { return n }
	v := &pa.InPacked{N: n, V: pars(k, same)}
	got := &pa.InPacked{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		pl.Array(l, v.V, true, func(l *pl.Lay, x *pa.Par) { par(l, x, n) })
	}, func() { all(got.V, k, same) })
}

func C22_ByIndex() {
	k := length()
	p := func(i int) uint8 { return uint8(i + 4) }
	v := &pa.ByIndex{V: pars(k, p)}
	got := &pa.ByIndex{}
	pl.Run(v, got, func(l *pl.Lay) {
		l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(k), 5) })
		for i := range v.V {
			field(l, &v.V[i], p(i))
		}
	}, func() { all(got.V, k, p) })
}

func C22_ByItem() {
	k := length()
	ns := make([]uint8, k)
	for i := range ns {
		ns[i] = sv.U8("arg")
	}
	p := func(i int) uint8 { return ns[i] }
	v := &pa.ByItem{Len: uint8(k), Ns: ns, V: pars(k, p)}
	got := &pa.ByItem{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(k), 8)
		for _, x := range ns {
			plain(l, uint64(x), 8)
		}
		for i := range v.V {
			field(l, &v.V[i], p(i))
		}
	}, func() { all(got.V, k, p) })
}

func C22_InOptional() {
	n := sv.U8("n")
	v := &pa.InOptional{N: n}
	if sv.Choose("present", 2) == 1 {
		x := somePar(n)
		v.V = &x
	}
	got := &pa.InOptional{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		l.Bit(v.V != nil)
		if v.V != nil {
			field(l, v.V, n)
		}
	}, func() {
		if v.V != nil {
			sv.Assert(got.V != nil, "parameter")
			is(got.V, n)
		}
	})
}

func C22_InIf() {
	n := sv.U8("n")
	v := &pa.InIf{N: n}
	if n > 4 {
		v.V = somePar(n)
	}
	got := &pa.InIf{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		if n > 4 {
			field(l, &v.V, n)
		}
	}, func() {
		if n > 4 {
			is(&got.V, n)
		}
	})
}

func C22_InChoice() {
	n := uint8(sv.Choose("n", 7))
	v := &pa.InChoice{N: n, V: pa.Pick{P: sv.U8("stale")}}
	switch n {
	case 1:
		v.V.A = sv.U8("a")
	case 2:
		v.V.B = somePar(n)
	case 5:
		v.V.C = somePar(n + 2)
	}
	got := &pa.InChoice{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		switch n {
		case 1:
			plain(l, uint64(v.V.A), 8)
		case 2:
			field(l, &v.V.B, n)
		case 5:
			field(l, &v.V.C, n+2)
		}
	}, func() {
		sv.Assert(got.V.P == n, "parameter")
		switch n {
		case 2:
			is(&got.V.B, 2)
		case 5:
			is(&got.V.C, 7)
		}
	})
}

func C22_InUnion() {
	n := sv.U8("n")
	v := &pa.InUnion{N: n, V: pa.Any{P: sv.U8("stale"), UnionChoice: pa.AnyUnionChoiceType(1 + sv.Choose("tag", 3))}}
	switch v.V.UnionChoice {
	case pa.AnyChoiceA:
		v.V.A = somePar(n)
	case pa.AnyChoiceB:
		v.V.B = sv.U8("b")
	case pa.AnyChoiceC:
		sv.Assume(n < 3)
		for i := 0; i < sv.Choose("length", 3); i++ {
			v.V.C = append(v.V.C, someList(sv.Concrete(int(n))))
		}
	}
	got := &pa.InUnion{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(v.V.UnionChoice)-1, 5) })
		switch v.V.UnionChoice {
		case pa.AnyChoiceA:
			field(l, &v.V.A, n)
		case pa.AnyChoiceB:
			plain(l, uint64(v.V.B), 8)
		case pa.AnyChoiceC:
			l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(len(v.V.C)), 5) })
			for i := range v.V.C {
				list(l, &v.V.C[i])
			}
		}
	}, func() {
		sv.Assert(got.V.P == n, "parameter")
		if got.V.UnionChoice == pa.AnyChoiceA {
			is(&got.V.A, n)
		}
		for i := range got.V.C {
			sv.Assert(uint8(got.V.C[i].N) == n, "parameter")
		}
	})
}

func C22_Lists() {
	n, k := sv.Choose("n", 3), length()
	v := &pa.Lists{N: uint8(n)}
	for i := 0; i < k; i++ {
		v.V = append(v.V, someList(n))
	}
	got := &pa.Lists{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(k), 5) })
		for i := range v.V {
			list(l, &v.V[i])
		}
	}, func() {
		for i := range got.V {
			sv.Assert(int(got.V[i].N) == n, "parameter")
		}
	})
}

func C22_PackedChain() {
	n, k := sv.U8("n"), sv.Choose("length", 3)
	v := &pa.PackedChain{N: n}
	for i := 0; i < k; i++ {
		v.V = append(v.V, through(n))
		sv.Assume(v.V[i].V.X == v.V[0].V.X)
		sv.Assume(v.V[i].W.Y == v.V[0].W.Y)
	}
	got := &pa.PackedChain{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		pl.Array(l, v.V, true, func(l *pl.Lay, x *pa.Through) {
			l.In("v", func() { par(l, &x.V, n) })
			l.In("w", func() { par(l, &x.W, n+1) })
		})
	}, func() {
		for i := range got.V {
			is(&got.V[i].V, n)
			is(&got.V[i].W, n+1)
			sv.Assert(got.V[i].P == n, "parameter")
		}
	})
}

func C22_PackedByIndex() {
	k := length()
	p := func(i int) uint8 { return uint8(i + 4) }
	v := &pa.PackedByIndex{V: pars(k, p)}
	got := &pa.PackedByIndex{}
	pl.Run(v, got, func(l *pl.Lay) {
		i := 0
		pl.Array(l, v.V, true, func(l *pl.Lay, x *pa.Par) { par(l, x, p(i)); i++ })
	}, func() { all(got.V, k, p) })
}

func C22_InPackedField() {
	k := sv.Choose("length", 3)
	v := &pa.InPackedField{}
	for i := 0; i < k; i++ {
		n := sv.U8("n") & 7
		v.V = append(v.V, pa.PackedItem{N: n, V: somePar(n)})
	}
	got := &pa.InPackedField{}
	pl.Run(v, got, func(l *pl.Lay) {
		pl.Array(l, v.V, true, func(l *pl.Lay, x *pa.PackedItem) {
			l.U("n", uint64(x.N), 8)
			l.In("v", func() { par(l, &x.V, x.N) })
		})
	}, func() {
		for i := range got.V {
			is(&got.V[i].V, got.V[i].N)
		}
	})
}

func C22_OptionalArray() {
	n := sv.U8("n")
	same := func(int) uint8 { return n }
	v := &pa.OptionalArray{N: n}
	if sv.Choose("present", 2) == 1 {
		s := pars(length(), same)
		v.V = &s
	}
	got := &pa.OptionalArray{}
	pl.Run(v, got, func(l *pl.Lay) {
		plain(l, uint64(n), 8)
		l.Bit(v.V != nil)
		if v.V != nil {
			l.Raw(func(b *hx.Bits) { b.PutVarUint(uint64(len(*v.V)), 5) })
			for i := range *v.V {
				field(l, &(*v.V)[i], n)
			}
		}
	}, func() {
		if v.V != nil {
			sv.Assert(got.V != nil, "parameter")
			all(*got.V, len(*v.V), same)
		}
	})
}
