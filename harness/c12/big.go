// Code generated by tools/genbig.py.

package c12

import (
	"gen/zs/big"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// C12_Many: a struct of 40 fields, half of them optional.
func C12_Many() {
	v := &big.S{}
	big7 := sv.Choose("condition", 2) == 1
	p0, p1, p2 := sv.Choose("present", 2) == 1, sv.Choose("present", 2) == 1, sv.Choose("present", 2) == 1
	has0 := p1
	x0 := sv.U8("v")
	if has0 {
		v.F0 = &x0
	}
	v.F1 = 3
	if big7 {
		v.F1 = 20
	}
	v.F2 = sv.U16("v")
	has3 := p2
	x3 := sv.Bool("v")
	if has3 {
		v.F3 = &x3
	}
	has4 := p0
	x4 := sv.U8("v")
	if has4 {
		v.F4 = &x4
	}
	v.F5 = sv.U8("v") & 31
	v.F6 = sv.U16("v")
	has7 := p0
	x7 := sv.Bool("v")
	if has7 {
		v.F7 = &x7
	}
	has8 := p0
	x8 := sv.U8("v")
	if has8 {
		v.F8 = &x8
	}
	v.F9 = sv.U8("v") & 31
	v.F10 = sv.U16("v")
	has11 := p0
	x11 := sv.Bool("v")
	if has11 {
		v.F11 = &x11
	}
	has12 := p1
	x12 := sv.U8("v")
	if has12 {
		v.F12 = &x12
	}
	v.F13 = sv.U8("v") & 31
	v.F14 = sv.U16("v")
	has15 := p2
	x15 := sv.Bool("v")
	if has15 {
		v.F15 = &x15
	}
	has16 := p0
	x16 := sv.U8("v")
	if has16 {
		v.F16 = &x16
	}
	v.F17 = sv.U8("v") & 31
	v.F18 = sv.U16("v")
	has19 := p0
	x19 := sv.Bool("v")
	if has19 {
		v.F19 = &x19
	}
	has20 := p0
	x20 := sv.U8("v")
	if has20 {
		v.F20 = &x20
	}
	v.F21 = sv.U8("v") & 31
	v.F22 = sv.U16("v")
	has23 := p0
	x23 := sv.Bool("v")
	if has23 {
		v.F23 = &x23
	}
	has24 := p1
	x24 := sv.U8("v")
	if has24 {
		v.F24 = &x24
	}
	v.F25 = sv.U8("v") & 31
	v.F26 = sv.U16("v")
	has27 := p2
	x27 := sv.Bool("v")
	if has27 {
		v.F27 = &x27
	}
	has28 := p0
	x28 := sv.U8("v")
	if has28 {
		v.F28 = &x28
	}
	v.F29 = sv.U8("v") & 31
	v.F30 = sv.U16("v")
	has31 := p0
	x31 := sv.Bool("v")
	if has31 {
		v.F31 = &x31
	}
	has32 := p0
	x32 := sv.U8("v")
	if has32 {
		v.F32 = &x32
	}
	v.F33 = sv.U8("v") & 31
	v.F34 = sv.U16("v")
	has35 := p0
	x35 := sv.Bool("v")
	if has35 {
		v.F35 = &x35
	}
	has36 := p1
	x36 := sv.U8("v")
	if has36 {
		v.F36 = &x36
	}
	v.F37 = sv.U8("v") & 31
	v.F38 = sv.U16("v")
	has39 := p2
	x39 := sv.Bool("v")
	if has39 {
		v.F39 = &x39
	}
	b, w, done, ref := hx.WriterAt(3)
	sv.Section("predict")
	size, err := v.ZserioBitSize(3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	if has0 {
		ref.Put(1, 1)
		ref.Put(uint64(x0), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F1), 5)
	if big7 {
		ref.Put(uint64(v.F2), 16)
	}
	if has3 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x3, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has4 {
		ref.Put(1, 1)
		ref.Put(uint64(x4), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F5), 5)
	if big7 {
		ref.Put(uint64(v.F6), 16)
	}
	if has7 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x7, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has8 {
		ref.Put(1, 1)
		ref.Put(uint64(x8), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F9), 5)
	if big7 {
		ref.Put(uint64(v.F10), 16)
	}
	if has11 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x11, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has12 {
		ref.Put(1, 1)
		ref.Put(uint64(x12), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F13), 5)
	if big7 {
		ref.Put(uint64(v.F14), 16)
	}
	if has15 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x15, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has16 {
		ref.Put(1, 1)
		ref.Put(uint64(x16), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F17), 5)
	if big7 {
		ref.Put(uint64(v.F18), 16)
	}
	if has19 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x19, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has20 {
		ref.Put(1, 1)
		ref.Put(uint64(x20), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F21), 5)
	if big7 {
		ref.Put(uint64(v.F22), 16)
	}
	if has23 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x23, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has24 {
		ref.Put(1, 1)
		ref.Put(uint64(x24), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F25), 5)
	if big7 {
		ref.Put(uint64(v.F26), 16)
	}
	if has27 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x27, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has28 {
		ref.Put(1, 1)
		ref.Put(uint64(x28), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F29), 5)
	if big7 {
		ref.Put(uint64(v.F30), 16)
	}
	if has31 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x31, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has32 {
		ref.Put(1, 1)
		ref.Put(uint64(x32), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F33), 5)
	if big7 {
		ref.Put(uint64(v.F34), 16)
	}
	if has35 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x35, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	if has36 {
		ref.Put(1, 1)
		ref.Put(uint64(x36), 8)
	} else {
		ref.Put(0, 1)
	}
	ref.Put(uint64(v.F37), 5)
	if big7 {
		ref.Put(uint64(v.F38), 16)
	}
	if has39 {
		ref.Put(1, 1)
		ref.Put(sv.IteU64(x39, 1, 0), 1)
	} else {
		ref.Put(0, 1)
	}
	sv.Assert(size == ref.Len()-3, "predicted-size")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	var g big.S
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil && g.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	ok := true
	if has0 {
		ok = sv.And(ok, g.F0 != nil && *g.F0 == x0)
	} else {
		ok = sv.And(ok, g.F0 == nil)
	}
	ok = sv.And(ok, g.F1 == v.F1)
	if big7 {
		ok = sv.And(ok, g.F2 == v.F2)
	}
	if has3 {
		ok = sv.And(ok, g.F3 != nil && *g.F3 == x3)
	} else {
		ok = sv.And(ok, g.F3 == nil)
	}
	if has4 {
		ok = sv.And(ok, g.F4 != nil && *g.F4 == x4)
	} else {
		ok = sv.And(ok, g.F4 == nil)
	}
	ok = sv.And(ok, g.F5 == v.F5)
	if big7 {
		ok = sv.And(ok, g.F6 == v.F6)
	}
	if has7 {
		ok = sv.And(ok, g.F7 != nil && *g.F7 == x7)
	} else {
		ok = sv.And(ok, g.F7 == nil)
	}
	if has8 {
		ok = sv.And(ok, g.F8 != nil && *g.F8 == x8)
	} else {
		ok = sv.And(ok, g.F8 == nil)
	}
	ok = sv.And(ok, g.F9 == v.F9)
	if big7 {
		ok = sv.And(ok, g.F10 == v.F10)
	}
	if has11 {
		ok = sv.And(ok, g.F11 != nil && *g.F11 == x11)
	} else {
		ok = sv.And(ok, g.F11 == nil)
	}
	if has12 {
		ok = sv.And(ok, g.F12 != nil && *g.F12 == x12)
	} else {
		ok = sv.And(ok, g.F12 == nil)
	}
	ok = sv.And(ok, g.F13 == v.F13)
	if big7 {
		ok = sv.And(ok, g.F14 == v.F14)
	}
	if has15 {
		ok = sv.And(ok, g.F15 != nil && *g.F15 == x15)
	} else {
		ok = sv.And(ok, g.F15 == nil)
	}
	if has16 {
		ok = sv.And(ok, g.F16 != nil && *g.F16 == x16)
	} else {
		ok = sv.And(ok, g.F16 == nil)
	}
	ok = sv.And(ok, g.F17 == v.F17)
	if big7 {
		ok = sv.And(ok, g.F18 == v.F18)
	}
	if has19 {
		ok = sv.And(ok, g.F19 != nil && *g.F19 == x19)
	} else {
		ok = sv.And(ok, g.F19 == nil)
	}
	if has20 {
		ok = sv.And(ok, g.F20 != nil && *g.F20 == x20)
	} else {
		ok = sv.And(ok, g.F20 == nil)
	}
	ok = sv.And(ok, g.F21 == v.F21)
	if big7 {
		ok = sv.And(ok, g.F22 == v.F22)
	}
	if has23 {
		ok = sv.And(ok, g.F23 != nil && *g.F23 == x23)
	} else {
		ok = sv.And(ok, g.F23 == nil)
	}
	if has24 {
		ok = sv.And(ok, g.F24 != nil && *g.F24 == x24)
	} else {
		ok = sv.And(ok, g.F24 == nil)
	}
	ok = sv.And(ok, g.F25 == v.F25)
	if big7 {
		ok = sv.And(ok, g.F26 == v.F26)
	}
	if has27 {
		ok = sv.And(ok, g.F27 != nil && *g.F27 == x27)
	} else {
		ok = sv.And(ok, g.F27 == nil)
	}
	if has28 {
		ok = sv.And(ok, g.F28 != nil && *g.F28 == x28)
	} else {
		ok = sv.And(ok, g.F28 == nil)
	}
	ok = sv.And(ok, g.F29 == v.F29)
	if big7 {
		ok = sv.And(ok, g.F30 == v.F30)
	}
	if has31 {
		ok = sv.And(ok, g.F31 != nil && *g.F31 == x31)
	} else {
		ok = sv.And(ok, g.F31 == nil)
	}
	if has32 {
		ok = sv.And(ok, g.F32 != nil && *g.F32 == x32)
	} else {
		ok = sv.And(ok, g.F32 == nil)
	}
	ok = sv.And(ok, g.F33 == v.F33)
	if big7 {
		ok = sv.And(ok, g.F34 == v.F34)
	}
	if has35 {
		ok = sv.And(ok, g.F35 != nil && *g.F35 == x35)
	} else {
		ok = sv.And(ok, g.F35 == nil)
	}
	if has36 {
		ok = sv.And(ok, g.F36 != nil && *g.F36 == x36)
	} else {
		ok = sv.And(ok, g.F36 == nil)
	}
	ok = sv.And(ok, g.F37 == v.F37)
	if big7 {
		ok = sv.And(ok, g.F38 == v.F38)
	}
	if has39 {
		ok = sv.And(ok, g.F39 != nil && *g.F39 == x39)
	} else {
		ok = sv.And(ok, g.F39 == nil)
	}
	sv.Assert(ok, "round-trip")
	sv.Reach("round-trips")
}
