package c20

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C20_LargeUInt16() {
	at.LargePure(hx.UBits[uint16](16, sv.U16), func(i int) uint16 { return uint16(30000 + i%3) })
}
func C20_LargeVarUint16() {
	at.LargePure(hx.VarUint16(), func(i int) uint16 { return uint16(120 + i%20) })
}
func C20_LargeInt5() {
	at.LargePure(hx.SBits[int8](5, sv.I8), func(i int) int8 { return int8(i % 7) })
}
func C20_LargeString() {
	at.LargePure(hx.String(), func(i int) string { return "abc"[:i%4] })
}
