package c21

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C21_LargeUInt16() {
	at.LargeReuse(hx.UBits[uint16](16, sv.U16), func(i int) uint16 { return uint16(30000 + i%3) })
}
func C21_LargeVarUint16() {
	at.LargeReuse(hx.VarUint16(), func(i int) uint16 { return uint16(120 + i%20) })
}
func C21_LargeInt5() {
	at.LargeReuse(hx.SBits[int8](5, sv.I8), func(i int) int8 { return int8(i % 7) })
}
func C21_LargeString() {
	at.LargeReuse(hx.String(), func(i int) string { return "abc"[:i%4] })
}
