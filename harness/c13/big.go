// Code generated by tools/genbig.py.

package c13

import (
	"gen/zs/big"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// C13_Many: a choice of many cases of several conditions.
func C13_Many() {
	k := sv.Choose("selector", 302)
	v := &big.C{K: uint16(k)}
	x := sv.U64("v") & (1<<33 - 1)
	n := 33
	v.Other = x
	get := func(g *big.C) uint64 { return g.Other }
	switch k {
	case 0, 1, 3:
		n = 8
		v.F0 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F0) }
	case 5, 6, 8:
		n = 16
		v.F1 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F1) }
	case 10, 11, 13:
		n = 3
		v.F2 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F2) }
	case 15, 16, 18:
		n = 8
		v.F3 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F3) }
	case 20, 21, 23:
		n = 16
		v.F4 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F4) }
	case 25, 26, 28:
		n = 3
		v.F5 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F5) }
	case 30, 31, 33:
		n = 8
		v.F6 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F6) }
	case 35, 36, 38:
		n = 16
		v.F7 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F7) }
	case 40, 41, 43:
		n = 3
		v.F8 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F8) }
	case 45, 46, 48:
		n = 8
		v.F9 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F9) }
	case 50, 51, 53:
		n = 16
		v.F10 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F10) }
	case 55, 56, 58:
		n = 3
		v.F11 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F11) }
	case 60, 61, 63:
		n = 8
		v.F12 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F12) }
	case 65, 66, 68:
		n = 16
		v.F13 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F13) }
	case 70, 71, 73:
		n = 3
		v.F14 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F14) }
	case 75, 76, 78:
		n = 8
		v.F15 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F15) }
	case 80, 81, 83:
		n = 16
		v.F16 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F16) }
	case 85, 86, 88:
		n = 3
		v.F17 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F17) }
	case 90, 91, 93:
		n = 8
		v.F18 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F18) }
	case 95, 96, 98:
		n = 16
		v.F19 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F19) }
	case 100, 101, 103:
		n = 3
		v.F20 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F20) }
	case 105, 106, 108:
		n = 8
		v.F21 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F21) }
	case 110, 111, 113:
		n = 16
		v.F22 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F22) }
	case 115, 116, 118:
		n = 3
		v.F23 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F23) }
	case 120, 121, 123:
		n = 8
		v.F24 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F24) }
	case 125, 126, 128:
		n = 16
		v.F25 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F25) }
	case 130, 131, 133:
		n = 3
		v.F26 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F26) }
	case 135, 136, 138:
		n = 8
		v.F27 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F27) }
	case 140, 141, 143:
		n = 16
		v.F28 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F28) }
	case 145, 146, 148:
		n = 3
		v.F29 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F29) }
	case 150, 151, 153:
		n = 8
		v.F30 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F30) }
	case 155, 156, 158:
		n = 16
		v.F31 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F31) }
	case 160, 161, 163:
		n = 3
		v.F32 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F32) }
	case 165, 166, 168:
		n = 8
		v.F33 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F33) }
	case 170, 171, 173:
		n = 16
		v.F34 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F34) }
	case 175, 176, 178:
		n = 3
		v.F35 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F35) }
	case 180, 181, 183:
		n = 8
		v.F36 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F36) }
	case 185, 186, 188:
		n = 16
		v.F37 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F37) }
	case 190, 191, 193:
		n = 3
		v.F38 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F38) }
	case 195, 196, 198:
		n = 8
		v.F39 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F39) }
	case 200, 201, 203:
		n = 16
		v.F40 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F40) }
	case 205, 206, 208:
		n = 3
		v.F41 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F41) }
	case 210, 211, 213:
		n = 8
		v.F42 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F42) }
	case 215, 216, 218:
		n = 16
		v.F43 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F43) }
	case 220, 221, 223:
		n = 3
		v.F44 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F44) }
	case 225, 226, 228:
		n = 8
		v.F45 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F45) }
	case 230, 231, 233:
		n = 16
		v.F46 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F46) }
	case 235, 236, 238:
		n = 3
		v.F47 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F47) }
	case 240, 241, 243:
		n = 8
		v.F48 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F48) }
	case 245, 246, 248:
		n = 16
		v.F49 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F49) }
	case 250, 251, 253:
		n = 3
		v.F50 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F50) }
	case 255, 256, 258:
		n = 8
		v.F51 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F51) }
	case 260, 261, 263:
		n = 16
		v.F52 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F52) }
	case 265, 266, 268:
		n = 3
		v.F53 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F53) }
	case 270, 271, 273:
		n = 8
		v.F54 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F54) }
	case 275, 276, 278:
		n = 16
		v.F55 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F55) }
	case 280, 281, 283:
		n = 3
		v.F56 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F56) }
	case 285, 286, 288:
		n = 8
		v.F57 = uint8(x & (1<<8 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F57) }
	case 290, 291, 293:
		n = 16
		v.F58 = uint16(x & (1<<16 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F58) }
	case 295, 296, 298:
		n = 3
		v.F59 = uint8(x & (1<<3 - 1))
		get = func(g *big.C) uint64 { return uint64(g.F59) }
	}
	x &= 1<<uint(n) - 1
	b, w, done, ref := hx.WriterAt(3)
	sv.Section("predict")
	size, err := v.ZserioBitSize(3)
	sv.Assert(err == nil && size == n, "predicted-size")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	ref.Put(x, n)
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	got := &big.C{K: uint16(k)}
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil && got.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Assert(get(got) == x, "round-trip")
	sv.Reach("round-trips")
}
