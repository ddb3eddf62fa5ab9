// Package c09: a failing sink is reported.
//
//sv:bound generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)
//sv:bound library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length
//sv:bound the sink starts to fail at each byte of the encoding
//sv:bound arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed; the sink fails at the first two, the last two and the middle byte and around every 4096th; likewise strings, bytes and extern of 4097 and 12289 bytes
package c09

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// generated types

func C09_Fixed()        { gt.FailSink(cs.Fixed()) }
func C09_VarA()         { gt.FailSink(cs.VarA()) }
func C09_VarB()         { gt.FailSink(cs.VarB()) }
func C09_VarC()         { gt.FailSink(cs.VarC()) }
func C09_VarD()         { gt.FailSink(cs.VarD()) }
func C09_VarE()         { gt.FailSink(cs.VarE()) }
func C09_VarF()         { gt.FailSink(cs.VarF()) }
func C09_VarG()         { gt.FailSink(cs.VarG()) }
func C09_Blobs()        { gt.FailSink(cs.Blobs()) }
func C09_Names()        { gt.FailSink(cs.Names()) }
func C09_Opt()          { gt.FailSink(cs.Opt()) }
func C09_Cond()         { gt.FailSink(cs.Cond()) }
func C09_Aligned()      { gt.FailSink(cs.Aligned()) }
func C09_FixedArrays()  { gt.FailSink(cs.FixedArrays()) }
func C09_AutoArrays()   { gt.FailSink(cs.AutoArrays()) }
func C09_AutoMore()     { gt.FailSink(cs.AutoMore()) }
func C09_AutoBlobs()    { gt.FailSink(cs.AutoBlobs()) }
func C09_AutoVars()     { gt.FailSink(cs.AutoVars()) }
func C09_LenArrays()    { gt.FailSink(cs.LenArrays()) }
func C09_OptArrays()    { gt.FailSink(cs.OptArrays()) }
func C09_PackedArrays() { gt.FailSink(cs.PackedArrays()) }
func C09_PackedMore()   { gt.FailSink(cs.PackedMore()) }
func C09_PackedPlain()  { gt.FailSink(cs.PackedPlain()) }
func C09_DynBits()      { gt.FailSink(cs.DynBits()) }
func C09_Deep()         { gt.FailSink(cs.Deep()) }
func C09_HoldsEmpty()   { gt.FailSink(cs.HoldsEmpty()) }
func C09_ByInt()        { gt.FailSink(cs.ByInt()) }
func C09_BySigned()     { gt.FailSink(cs.BySigned()) }
func C09_ByBool()       { gt.FailSink(cs.ByBool()) }
func C09_ByEnum()       { gt.FailSink(cs.ByEnum()) }
func C09_ByMask()       { gt.FailSink(cs.ByMask()) }
func C09_ByMember()     { gt.FailSink(cs.ByMember()) }
func C09_ByExpr()       { gt.FailSink(cs.ByExpr()) }
func C09_Bare()         { gt.FailSink(cs.Bare()) }
func C09_Holder()       { gt.FailSink(cs.Holder()) }
func C09_Multi()        { gt.FailSink(cs.Multi()) }
func C09_Union()        { gt.FailSink(cs.Union()) }
func C09_UNums()        { gt.FailSink(cs.UNums()) }
func C09_HoldsUnion()   { gt.FailSink(cs.HoldsUnion()) }

// arrays of the library

func C09_ArrayUInt8()     { at.FailSink(hx.UBits[uint8](8, sv.U8)) }
func C09_ArrayUInt16()    { at.FailSink(hx.UBits[uint16](16, sv.U16)) }
func C09_ArrayUInt32()    { at.FailSink(hx.UBits[uint32](32, sv.U32)) }
func C09_ArrayUInt64()    { at.FailSink(hx.UBits[uint64](64, sv.U64)) }
func C09_ArrayBit1()      { at.FailSink(hx.UBits[uint8](1, sv.U8)) }
func C09_ArrayBit13()     { at.FailSink(hx.UBits[uint16](13, sv.U16)) }
func C09_ArrayBit33()     { at.FailSink(hx.UBits[uint64](33, sv.U64)) }
func C09_ArrayInt8()      { at.FailSink(hx.SBits[int8](8, sv.I8)) }
func C09_ArrayInt16()     { at.FailSink(hx.SBits[int16](16, sv.I16)) }
func C09_ArrayInt32()     { at.FailSink(hx.SBits[int32](32, sv.I32)) }
func C09_ArrayInt64()     { at.FailSink(hx.SBits[int64](64, sv.I64)) }
func C09_ArrayInt3()      { at.FailSink(hx.SBits[int8](3, sv.I8)) }
func C09_ArrayInt13()     { at.FailSink(hx.SBits[int16](13, sv.I16)) }
func C09_ArrayInt33()     { at.FailSink(hx.SBits[int64](33, sv.I64)) }
func C09_ArrayVarUint16() { at.FailSink(hx.VarUint16()) }
func C09_ArrayVarUint32() { at.FailSink(hx.VarUint32()) }
func C09_ArrayVarUint64() { at.FailSink(hx.VarUint64()) }
func C09_ArrayVarUint()   { at.FailSink(hx.VarUint()) }
func C09_ArrayVarSize()   { at.FailSink(hx.VarSize()) }
func C09_ArrayVarInt16()  { at.FailSink(hx.VarInt16()) }
func C09_ArrayVarInt32()  { at.FailSink(hx.VarInt32()) }
func C09_ArrayVarInt64()  { at.FailSink(hx.VarInt64()) }
func C09_ArrayVarInt()    { at.FailSink(hx.VarInt()) }
func C09_ArrayBool()      { at.FailSink(hx.Bool()) }
func C09_ArrayFloat16()   { at.FailSink(hx.Float16()) }
func C09_ArrayFloat32()   { at.FailSink(hx.Float32()) }
func C09_ArrayFloat64()   { at.FailSink(hx.Float64()) }
func C09_ArrayString()    { at.FailSink(hx.String()) }
func C09_ArrayBytes()     { at.FailSink(hx.Bytes()) }
func C09_ArrayExtern()    { at.FailSink(hx.Extern()) }
