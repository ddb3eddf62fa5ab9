// Code generated by tools/genbig.py.

package c14

import (
	"gen/zs/big"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// C14_Many: a union of so many fields that tags take one or two bytes.
func C14_Many() {
	choices := []big.UUnionChoiceType{big.UChoiceF0, big.UChoiceF1, big.UChoiceF2, big.UChoiceF3, big.UChoiceF4, big.UChoiceF5, big.UChoiceF6, big.UChoiceF7, big.UChoiceF8, big.UChoiceF9, big.UChoiceF10, big.UChoiceF11, big.UChoiceF12, big.UChoiceF13, big.UChoiceF14, big.UChoiceF15, big.UChoiceF16, big.UChoiceF17, big.UChoiceF18, big.UChoiceF19, big.UChoiceF20, big.UChoiceF21, big.UChoiceF22, big.UChoiceF23, big.UChoiceF24, big.UChoiceF25, big.UChoiceF26, big.UChoiceF27, big.UChoiceF28, big.UChoiceF29, big.UChoiceF30, big.UChoiceF31, big.UChoiceF32, big.UChoiceF33, big.UChoiceF34, big.UChoiceF35, big.UChoiceF36, big.UChoiceF37, big.UChoiceF38, big.UChoiceF39, big.UChoiceF40, big.UChoiceF41, big.UChoiceF42, big.UChoiceF43, big.UChoiceF44, big.UChoiceF45, big.UChoiceF46, big.UChoiceF47, big.UChoiceF48, big.UChoiceF49, big.UChoiceF50, big.UChoiceF51, big.UChoiceF52, big.UChoiceF53, big.UChoiceF54, big.UChoiceF55, big.UChoiceF56, big.UChoiceF57, big.UChoiceF58, big.UChoiceF59, big.UChoiceF60, big.UChoiceF61, big.UChoiceF62, big.UChoiceF63, big.UChoiceF64, big.UChoiceF65, big.UChoiceF66, big.UChoiceF67, big.UChoiceF68, big.UChoiceF69, big.UChoiceF70, big.UChoiceF71, big.UChoiceF72, big.UChoiceF73, big.UChoiceF74, big.UChoiceF75, big.UChoiceF76, big.UChoiceF77, big.UChoiceF78, big.UChoiceF79, big.UChoiceF80, big.UChoiceF81, big.UChoiceF82, big.UChoiceF83, big.UChoiceF84, big.UChoiceF85, big.UChoiceF86, big.UChoiceF87, big.UChoiceF88, big.UChoiceF89, big.UChoiceF90, big.UChoiceF91, big.UChoiceF92, big.UChoiceF93, big.UChoiceF94, big.UChoiceF95, big.UChoiceF96, big.UChoiceF97, big.UChoiceF98, big.UChoiceF99, big.UChoiceF100, big.UChoiceF101, big.UChoiceF102, big.UChoiceF103, big.UChoiceF104, big.UChoiceF105, big.UChoiceF106, big.UChoiceF107, big.UChoiceF108, big.UChoiceF109, big.UChoiceF110, big.UChoiceF111, big.UChoiceF112, big.UChoiceF113, big.UChoiceF114, big.UChoiceF115, big.UChoiceF116, big.UChoiceF117, big.UChoiceF118, big.UChoiceF119, big.UChoiceF120, big.UChoiceF121, big.UChoiceF122, big.UChoiceF123, big.UChoiceF124, big.UChoiceF125, big.UChoiceF126, big.UChoiceF127, big.UChoiceF128, big.UChoiceF129}
	i := sv.Choose("selection", 130)
	v := &big.U{UnionChoice: choices[i]}
	var put func(*hx.Bits)
	var same func(*big.U) bool
	switch i {
	case 0:
		x := sv.U8("v")
		v.F0 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F0 == x }
	case 1:
		x := sv.U16("v")
		v.F1 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F1 == x }
	case 2:
		x := sv.U8("v") & 7
		v.F2 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F2 == x }
	case 3:
		x := sv.Str("v", 1)
		v.F3 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F3 == x }
	case 4:
		x := sv.U8("v")
		v.F4 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F4 == x }
	case 5:
		x := sv.U16("v")
		v.F5 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F5 == x }
	case 6:
		x := sv.U8("v") & 7
		v.F6 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F6 == x }
	case 7:
		x := sv.Str("v", 1)
		v.F7 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F7 == x }
	case 8:
		x := sv.U8("v")
		v.F8 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F8 == x }
	case 9:
		x := sv.U16("v")
		v.F9 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F9 == x }
	case 10:
		x := sv.U8("v") & 7
		v.F10 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F10 == x }
	case 11:
		x := sv.Str("v", 1)
		v.F11 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F11 == x }
	case 12:
		x := sv.U8("v")
		v.F12 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F12 == x }
	case 13:
		x := sv.U16("v")
		v.F13 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F13 == x }
	case 14:
		x := sv.U8("v") & 7
		v.F14 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F14 == x }
	case 15:
		x := sv.Str("v", 1)
		v.F15 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F15 == x }
	case 16:
		x := sv.U8("v")
		v.F16 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F16 == x }
	case 17:
		x := sv.U16("v")
		v.F17 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F17 == x }
	case 18:
		x := sv.U8("v") & 7
		v.F18 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F18 == x }
	case 19:
		x := sv.Str("v", 1)
		v.F19 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F19 == x }
	case 20:
		x := sv.U8("v")
		v.F20 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F20 == x }
	case 21:
		x := sv.U16("v")
		v.F21 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F21 == x }
	case 22:
		x := sv.U8("v") & 7
		v.F22 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F22 == x }
	case 23:
		x := sv.Str("v", 1)
		v.F23 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F23 == x }
	case 24:
		x := sv.U8("v")
		v.F24 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F24 == x }
	case 25:
		x := sv.U16("v")
		v.F25 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F25 == x }
	case 26:
		x := sv.U8("v") & 7
		v.F26 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F26 == x }
	case 27:
		x := sv.Str("v", 1)
		v.F27 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F27 == x }
	case 28:
		x := sv.U8("v")
		v.F28 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F28 == x }
	case 29:
		x := sv.U16("v")
		v.F29 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F29 == x }
	case 30:
		x := sv.U8("v") & 7
		v.F30 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F30 == x }
	case 31:
		x := sv.Str("v", 1)
		v.F31 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F31 == x }
	case 32:
		x := sv.U8("v")
		v.F32 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F32 == x }
	case 33:
		x := sv.U16("v")
		v.F33 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F33 == x }
	case 34:
		x := sv.U8("v") & 7
		v.F34 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F34 == x }
	case 35:
		x := sv.Str("v", 1)
		v.F35 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F35 == x }
	case 36:
		x := sv.U8("v")
		v.F36 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F36 == x }
	case 37:
		x := sv.U16("v")
		v.F37 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F37 == x }
	case 38:
		x := sv.U8("v") & 7
		v.F38 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F38 == x }
	case 39:
		x := sv.Str("v", 1)
		v.F39 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F39 == x }
	case 40:
		x := sv.U8("v")
		v.F40 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F40 == x }
	case 41:
		x := sv.U16("v")
		v.F41 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F41 == x }
	case 42:
		x := sv.U8("v") & 7
		v.F42 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F42 == x }
	case 43:
		x := sv.Str("v", 1)
		v.F43 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F43 == x }
	case 44:
		x := sv.U8("v")
		v.F44 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F44 == x }
	case 45:
		x := sv.U16("v")
		v.F45 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F45 == x }
	case 46:
		x := sv.U8("v") & 7
		v.F46 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F46 == x }
	case 47:
		x := sv.Str("v", 1)
		v.F47 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F47 == x }
	case 48:
		x := sv.U8("v")
		v.F48 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F48 == x }
	case 49:
		x := sv.U16("v")
		v.F49 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F49 == x }
	case 50:
		x := sv.U8("v") & 7
		v.F50 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F50 == x }
	case 51:
		x := sv.Str("v", 1)
		v.F51 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F51 == x }
	case 52:
		x := sv.U8("v")
		v.F52 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F52 == x }
	case 53:
		x := sv.U16("v")
		v.F53 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F53 == x }
	case 54:
		x := sv.U8("v") & 7
		v.F54 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F54 == x }
	case 55:
		x := sv.Str("v", 1)
		v.F55 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F55 == x }
	case 56:
		x := sv.U8("v")
		v.F56 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F56 == x }
	case 57:
		x := sv.U16("v")
		v.F57 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F57 == x }
	case 58:
		x := sv.U8("v") & 7
		v.F58 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F58 == x }
	case 59:
		x := sv.Str("v", 1)
		v.F59 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F59 == x }
	case 60:
		x := sv.U8("v")
		v.F60 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F60 == x }
	case 61:
		x := sv.U16("v")
		v.F61 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F61 == x }
	case 62:
		x := sv.U8("v") & 7
		v.F62 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F62 == x }
	case 63:
		x := sv.Str("v", 1)
		v.F63 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F63 == x }
	case 64:
		x := sv.U8("v")
		v.F64 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F64 == x }
	case 65:
		x := sv.U16("v")
		v.F65 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F65 == x }
	case 66:
		x := sv.U8("v") & 7
		v.F66 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F66 == x }
	case 67:
		x := sv.Str("v", 1)
		v.F67 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F67 == x }
	case 68:
		x := sv.U8("v")
		v.F68 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F68 == x }
	case 69:
		x := sv.U16("v")
		v.F69 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F69 == x }
	case 70:
		x := sv.U8("v") & 7
		v.F70 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F70 == x }
	case 71:
		x := sv.Str("v", 1)
		v.F71 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F71 == x }
	case 72:
		x := sv.U8("v")
		v.F72 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F72 == x }
	case 73:
		x := sv.U16("v")
		v.F73 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F73 == x }
	case 74:
		x := sv.U8("v") & 7
		v.F74 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F74 == x }
	case 75:
		x := sv.Str("v", 1)
		v.F75 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F75 == x }
	case 76:
		x := sv.U8("v")
		v.F76 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F76 == x }
	case 77:
		x := sv.U16("v")
		v.F77 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F77 == x }
	case 78:
		x := sv.U8("v") & 7
		v.F78 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F78 == x }
	case 79:
		x := sv.Str("v", 1)
		v.F79 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F79 == x }
	case 80:
		x := sv.U8("v")
		v.F80 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F80 == x }
	case 81:
		x := sv.U16("v")
		v.F81 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F81 == x }
	case 82:
		x := sv.U8("v") & 7
		v.F82 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F82 == x }
	case 83:
		x := sv.Str("v", 1)
		v.F83 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F83 == x }
	case 84:
		x := sv.U8("v")
		v.F84 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F84 == x }
	case 85:
		x := sv.U16("v")
		v.F85 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F85 == x }
	case 86:
		x := sv.U8("v") & 7
		v.F86 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F86 == x }
	case 87:
		x := sv.Str("v", 1)
		v.F87 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F87 == x }
	case 88:
		x := sv.U8("v")
		v.F88 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F88 == x }
	case 89:
		x := sv.U16("v")
		v.F89 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F89 == x }
	case 90:
		x := sv.U8("v") & 7
		v.F90 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F90 == x }
	case 91:
		x := sv.Str("v", 1)
		v.F91 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F91 == x }
	case 92:
		x := sv.U8("v")
		v.F92 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F92 == x }
	case 93:
		x := sv.U16("v")
		v.F93 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F93 == x }
	case 94:
		x := sv.U8("v") & 7
		v.F94 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F94 == x }
	case 95:
		x := sv.Str("v", 1)
		v.F95 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F95 == x }
	case 96:
		x := sv.U8("v")
		v.F96 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F96 == x }
	case 97:
		x := sv.U16("v")
		v.F97 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F97 == x }
	case 98:
		x := sv.U8("v") & 7
		v.F98 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F98 == x }
	case 99:
		x := sv.Str("v", 1)
		v.F99 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F99 == x }
	case 100:
		x := sv.U8("v")
		v.F100 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F100 == x }
	case 101:
		x := sv.U16("v")
		v.F101 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F101 == x }
	case 102:
		x := sv.U8("v") & 7
		v.F102 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F102 == x }
	case 103:
		x := sv.Str("v", 1)
		v.F103 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F103 == x }
	case 104:
		x := sv.U8("v")
		v.F104 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F104 == x }
	case 105:
		x := sv.U16("v")
		v.F105 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F105 == x }
	case 106:
		x := sv.U8("v") & 7
		v.F106 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F106 == x }
	case 107:
		x := sv.Str("v", 1)
		v.F107 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F107 == x }
	case 108:
		x := sv.U8("v")
		v.F108 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F108 == x }
	case 109:
		x := sv.U16("v")
		v.F109 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F109 == x }
	case 110:
		x := sv.U8("v") & 7
		v.F110 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F110 == x }
	case 111:
		x := sv.Str("v", 1)
		v.F111 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F111 == x }
	case 112:
		x := sv.U8("v")
		v.F112 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F112 == x }
	case 113:
		x := sv.U16("v")
		v.F113 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F113 == x }
	case 114:
		x := sv.U8("v") & 7
		v.F114 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F114 == x }
	case 115:
		x := sv.Str("v", 1)
		v.F115 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F115 == x }
	case 116:
		x := sv.U8("v")
		v.F116 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F116 == x }
	case 117:
		x := sv.U16("v")
		v.F117 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F117 == x }
	case 118:
		x := sv.U8("v") & 7
		v.F118 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F118 == x }
	case 119:
		x := sv.Str("v", 1)
		v.F119 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F119 == x }
	case 120:
		x := sv.U8("v")
		v.F120 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F120 == x }
	case 121:
		x := sv.U16("v")
		v.F121 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F121 == x }
	case 122:
		x := sv.U8("v") & 7
		v.F122 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F122 == x }
	case 123:
		x := sv.Str("v", 1)
		v.F123 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F123 == x }
	case 124:
		x := sv.U8("v")
		v.F124 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F124 == x }
	case 125:
		x := sv.U16("v")
		v.F125 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F125 == x }
	case 126:
		x := sv.U8("v") & 7
		v.F126 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 3) }
		same = func(g *big.U) bool { return g.F126 == x }
	case 127:
		x := sv.Str("v", 1)
		v.F127 = x
		put = func(b *hx.Bits) { b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }
		same = func(g *big.U) bool { return g.F127 == x }
	case 128:
		x := sv.U8("v")
		v.F128 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 8) }
		same = func(g *big.U) bool { return g.F128 == x }
	case 129:
		x := sv.U16("v")
		v.F129 = x
		put = func(b *hx.Bits) { b.Put(uint64(x), 16) }
		same = func(g *big.U) bool { return g.F129 == x }
	}
	b, w, done, ref := hx.WriterAt(3)
	sv.Section("predict")
	size, err := v.ZserioBitSize(3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	ref.PutVarUint(uint64(i), 5)
	put(ref)
	sv.Assert(size == ref.Len()-3, "predicted-size")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	var got big.U
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil && got.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Assert(got.UnionChoice == choices[i], "selection")
	sv.Assert(same(&got), "round-trip")
	sv.Reach("round-trips")
}

// C14_ManyTags: a tag above the last field is an error.
func C14_ManyTags() {
	tag := sv.U64("tag")
	sv.Assume(tag >= 130)
	sv.Assume(tag < 1<<31)
	b := &hx.Bits{}
	b.PutVarUint(tag, 5)
	b.PutBytes(make([]byte, 4))
	var u big.U
	sv.Assert(u.UnmarshalZserio(hx.NewReader(b.Bytes())) != nil, "rejects-undeclared-tag")
	sv.Reach("rejected")
}
