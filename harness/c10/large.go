package c10

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C10_LargeUInt16() {
	at.LargeTruncated(hx.UBits[uint16](16, sv.U16), func(i int) uint16 { return uint16(30000 + i%3) })
}
func C10_LargeVarUint16() {
	at.LargeTruncated(hx.VarUint16(), func(i int) uint16 { return uint16(120 + i%20) })
}
func C10_LargeInt5() {
	at.LargeTruncated(hx.SBits[int8](5, sv.I8), func(i int) int8 { return int8(i % 7) })
}
func C10_LargeString() {
	at.LargeTruncated(hx.String(), func(i int) string { return "abc"[:i%4] })
}
func C10_LargeBlob() { at.BlobTruncated() }
