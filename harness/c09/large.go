package c09

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C09_LargeUInt16() {
	at.LargeFailSink(hx.UBits[uint16](16, sv.U16), func(i int) uint16 { return uint16(30000 + i%3) })
}
func C09_LargeVarUint16() {
	at.LargeFailSink(hx.VarUint16(), func(i int) uint16 { return uint16(120 + i%20) })
}
func C09_LargeInt5() {
	at.LargeFailSink(hx.SBits[int8](5, sv.I8), func(i int) int8 { return int8(i % 7) })
}
func C09_LargeString() {
	at.LargeFailSink(hx.String(), func(i int) string { return "abc"[:i%4] })
}
func C09_LargeBlob() { at.BlobFailSink() }
