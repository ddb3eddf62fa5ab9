package cs

import (
	"gen/zs/ec"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// EcCases are choices with cases that have no field.

func several(sel uint8) ec.Several {
	v := ec.Several{Sel: sel, A: sv.U8("a"), D: u8(5)}
	nseveral(&v)
	return v
}
func nseveral(v *ec.Several) {
	switch v.Sel {
	case 1:
		v.D = 0
	case 2, 3, 4:
		v.A, v.D = 0, 0
	default:
		v.A = 0
	}
}
func pseveral(b *hx.Bits, v *ec.Several) {
	switch v.Sel {
	case 1:
		b.Put(uint64(v.A), 8)
	case 2, 3, 4:
	default:
		b.Put(uint64(v.D), 5)
	}
}

func EcSeveral() Case {
	return mk(func(v *ec.Several) { *v = several(sv.U8("sel")) }, pseveral,
		opt[ec.Several]{norm: nseveral, params: func(d, s *ec.Several) { d.Sel = s.Sel }, any: func(v *ec.Several) { v.Sel = sv.U8("sel") }})
}

func first(sel uint8) ec.First {
	v := ec.First{Sel: sel, A: sv.U16("a"), D: u16(15)}
	nfirst(&v)
	return v
}
func nfirst(v *ec.First) {
	switch v.Sel {
	case 0, 255:
		v.A, v.D = 0, 0
	case 7:
		v.D = 0
	default:
		v.A = 0
	}
}
func pfirst(b *hx.Bits, v *ec.First) {
	switch v.Sel {
	case 0, 255:
	case 7:
		b.Put(uint64(v.A), 16)
	default:
		b.PutVarUint(uint64(v.D), 2)
	}
}

func EcFirst() Case {
	return mk(func(v *ec.First) { *v = first(sv.U8("sel")) }, pfirst,
		opt[ec.First]{norm: nfirst, params: func(d, s *ec.First) { d.Sel = s.Sel }, any: func(v *ec.First) { v.Sel = sv.U8("sel") }})
}

func EcSingle() Case {
	norm := func(v *ec.Single) {
		if v.Sel == -5 || v.Sel == 5 || v.Sel == 300 {
			v.D = 0
		}
		if v.Sel != 300 {
			v.A = 0
		}
	}
	return mk(func(v *ec.Single) {
		*v = ec.Single{Sel: sv.I16("sel"), A: u8(3), D: sv.U8("d")}
		norm(v)
	}, func(b *hx.Bits, v *ec.Single) {
		switch v.Sel {
		case -5, 5:
		case 300:
			b.Put(uint64(v.A), 3)
		default:
			b.Put(uint64(v.D), 8)
		}
	}, opt[ec.Single]{norm: norm, params: func(d, s *ec.Single) { d.Sel = s.Sel }, any: func(v *ec.Single) { v.Sel = sv.I16("sel") }})
}

func nbyKind(v *ec.ByKind) {
	if v.Sel != ec.KindA {
		v.A = 0
	}
	if v.Sel == ec.KindA || v.Sel == ec.KindB || v.Sel == ec.KindD {
		v.D = 0
	}
}
func ecKind() ec.Kind { return []ec.Kind{0, 1, 2, 200}[sv.Choose("kind", 4)] }
func ecByKind(sel ec.Kind) ec.ByKind {
	v := ec.ByKind{Sel: sel, A: u16(9), D: s8(4)}
	nbyKind(&v)
	return v
}
func pecByKind(b *hx.Bits, v *ec.ByKind) {
	switch v.Sel {
	case 0:
		b.Put(uint64(v.A), 9)
	case 1, 200:
	default:
		b.Put(uint64(v.D), 4)
	}
}

func EcByKind() Case {
	return mk(func(v *ec.ByKind) { *v = ecByKind(ecKind()) }, pecByKind,
		opt[ec.ByKind]{norm: nbyKind, params: func(d, s *ec.ByKind) { d.Sel = s.Sel }, any: func(v *ec.ByKind) { v.Sel = ecKind() }})
}

func EcByMask() Case {
	norm := func(v *ec.ByMask) {
		if v.Sel != 1 {
			v.A = 0
		}
		if v.Sel == 1 || v.Sel == 2 || v.Sel == 0x8000 {
			v.D = 0
		}
	}
	return mk(func(v *ec.ByMask) {
		*v = ec.ByMask{Sel: ec.Mask(sv.U16("sel")), A: u8(2), D: sv.I8("d")}
		norm(v)
	}, func(b *hx.Bits, v *ec.ByMask) {
		switch v.Sel {
		case 1:
			b.Put(uint64(v.A), 2)
		case 2, 0x8000:
		default:
			b.Put(uint64(v.D), 8)
		}
	}, opt[ec.ByMask]{norm: norm, params: func(d, s *ec.ByMask) { d.Sel = s.Sel }, any: func(v *ec.ByMask) { v.Sel = ec.Mask(sv.U16("sel")) }})
}

func ecByBool(sel bool) ec.ByBool {
	v := ec.ByBool{Sel: sel}
	if !sel {
		v.V = u8(6)
	}
	return v
}
func EcByBool() Case {
	return mk(func(v *ec.ByBool) { *v = ecByBool(sv.Choose("sel", 2) == 1) }, func(b *hx.Bits, v *ec.ByBool) {
		if !v.Sel {
			b.Put(uint64(v.V), 6)
		}
	}, opt[ec.ByBool]{norm: func(v *ec.ByBool) {
		if v.Sel {
			v.V = 0
		}
	}, params: func(d, s *ec.ByBool) { d.Sel = s.Sel }, any: func(v *ec.ByBool) { v.Sel = sv.Bool("sel") }})
}

func ecNotBool(sel bool) ec.NotBool {
	v := ec.NotBool{Sel: sel}
	if sel {
		v.V = u8(6)
	}
	return v
}
func EcNotBool() Case {
	return mk(func(v *ec.NotBool) { *v = ecNotBool(sv.Choose("sel", 2) == 1) }, func(b *hx.Bits, v *ec.NotBool) {
		if v.Sel {
			b.Put(uint64(v.V), 6)
		}
	}, opt[ec.NotBool]{norm: func(v *ec.NotBool) {
		if !v.Sel {
			v.V = 0
		}
	}, params: func(d, s *ec.NotBool) { d.Sel = s.Sel }, any: func(v *ec.NotBool) { v.Sel = sv.Bool("sel") }})
}

func EcNoDefault() Case {
	return mk(func(v *ec.NoDefault) {
		*v = ec.NoDefault{Sel: uint8(1 + sv.Choose("sel", 3))}
		if v.Sel == 3 {
			v.A = sv.U8("a")
		}
	}, func(b *hx.Bits, v *ec.NoDefault) {
		if v.Sel == 3 {
			b.Put(uint64(v.A), 8)
		}
	}, opt[ec.NoDefault]{norm: func(v *ec.NoDefault) {
		if v.Sel != 3 {
			v.A = 0
		}
	}, params: func(d, s *ec.NoDefault) { d.Sel = s.Sel }, any: func(v *ec.NoDefault) { v.Sel = sv.U8("sel") }})
}

func EcOnlyEmpty() Case {
	return mk(func(v *ec.OnlyEmpty) { *v = ec.OnlyEmpty{Sel: sv.U8("sel")} }, func(b *hx.Bits, v *ec.OnlyEmpty) {},
		opt[ec.OnlyEmpty]{params: func(d, s *ec.OnlyEmpty) { d.Sel = s.Sel }, any: func(v *ec.OnlyEmpty) { v.Sel = sv.U8("sel") }})
}

func nforms(v *ec.Forms) {
	w := ec.Forms{Sel: v.Sel}
	switch v.Sel {
	case 16, 3, 8:
		w.A = v.A
	case 4, 6:
		w.B = v.B
	case 20:
	default:
		w.D = v.D
	}
	*v = w
}
func forms(sel uint8) ec.Forms {
	v := ec.Forms{Sel: sel, A: u8(1), B: sv.U8("b"), D: u8(7)}
	nforms(&v)
	return v
}
func pforms(b *hx.Bits, v *ec.Forms) {
	switch v.Sel {
	case 16, 3, 8:
		b.Put(uint64(v.A), 1)
	case 4, 6:
		b.Put(uint64(v.B), 8)
	case 20:
	default:
		b.Put(uint64(v.D), 7)
	}
}
func EcForms() Case {
	return mk(func(v *ec.Forms) { *v = forms(sv.U8("sel")) }, pforms,
		opt[ec.Forms]{norm: nforms, params: func(d, s *ec.Forms) { d.Sel = s.Sel }, any: func(v *ec.Forms) { v.Sel = sv.U8("sel") }})
}

// EcAll has the choices as members.
func EcAll() Case {
	return mk(func(v *ec.All) {
		n := []uint8{0, 1, 2, 4, 7, 16, 20}[sv.Choose("n", 7)]
		k := ecKind()
		*v = ec.All{N: n, K: k, A: several(n), B: first(n), C: ecByKind(k), D: ecByBool(n > 3), E: ecNotBool(n == 4), F: forms(n)}
	}, func(b *hx.Bits, v *ec.All) {
		b.Put(uint64(v.N), 8)
		b.Put(uint64(v.K), 8)
		pseveral(b, &v.A)
		pfirst(b, &v.B)
		pecByKind(b, &v.C)
		if v.N <= 3 {
			b.Put(uint64(v.D.V), 6)
		}
		if v.N == 4 {
			b.Put(uint64(v.E.V), 6)
		}
		pforms(b, &v.F)
	}, opt[ec.All]{})
}

// EcPacks has them in arrays.
func EcPacks() Case {
	return mk(func(v *ec.Packs) {
		n := []uint8{0, 1, 2, 3, 7}[sv.Choose("n", 5)]
		*v = ec.Packs{N: n}
		for i := 0; i < 2; i++ {
			v.P = append(v.P, several(n))
			v.Q = append(v.Q, first(n))
		}
	}, nil, opt[ec.Packs]{max: 1})
}
