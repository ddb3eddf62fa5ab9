package c08

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C08_LargeUInt16() {
	at.LargeSize(hx.UBits[uint16](16, sv.U16), func(i int) uint16 { return uint16(30000 + i%3) })
}
func C08_LargeVarUint16() {
	at.LargeSize(hx.VarUint16(), func(i int) uint16 { return uint16(120 + i%20) })
}
func C08_LargeInt5() {
	at.LargeSize(hx.SBits[int8](5, sv.I8), func(i int) int8 { return int8(i % 7) })
}
func C08_LargeString() {
	at.LargeSize(hx.String(), func(i int) string { return "abc"[:i%4] })
}
