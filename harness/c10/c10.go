// Package c10: truncated input is an error.
//
//sv:bound generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)
//sv:bound library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length
//sv:bound the encoding is cut at each byte
//sv:bound arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed; cut at the first two, the last two and the middle byte and around every 4096th; likewise strings, bytes and extern of 4097 and 12289 bytes
package c10

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// generated types

func C10_Fixed()        { gt.Truncated(cs.Fixed()) }
func C10_VarA()         { gt.Truncated(cs.VarA()) }
func C10_VarB()         { gt.Truncated(cs.VarB()) }
func C10_VarC()         { gt.Truncated(cs.VarC()) }
func C10_VarD()         { gt.Truncated(cs.VarD()) }
func C10_VarE()         { gt.Truncated(cs.VarE()) }
func C10_VarF()         { gt.Truncated(cs.VarF()) }
func C10_VarG()         { gt.Truncated(cs.VarG()) }
func C10_Blobs()        { gt.Truncated(cs.Blobs()) }
func C10_Names()        { gt.Truncated(cs.Names()) }
func C10_Opt()          { gt.Truncated(cs.Opt()) }
func C10_Cond()         { gt.Truncated(cs.Cond()) }
func C10_Aligned()      { gt.Truncated(cs.Aligned()) }
func C10_FixedArrays()  { gt.Truncated(cs.FixedArrays()) }
func C10_AutoArrays()   { gt.Truncated(cs.AutoArrays()) }
func C10_AutoMore()     { gt.Truncated(cs.AutoMore()) }
func C10_AutoBlobs()    { gt.Truncated(cs.AutoBlobs()) }
func C10_AutoVars()     { gt.Truncated(cs.AutoVars()) }
func C10_LenArrays()    { gt.Truncated(cs.LenArrays()) }
func C10_OptArrays()    { gt.Truncated(cs.OptArrays()) }
func C10_PackedArrays() { gt.Truncated(cs.PackedArrays()) }
func C10_PackedMore()   { gt.Truncated(cs.PackedMore()) }
func C10_PackedPlain()  { gt.Truncated(cs.PackedPlain()) }
func C10_DynBits()      { gt.Truncated(cs.DynBits()) }
func C10_Deep()         { gt.Truncated(cs.Deep()) }
func C10_HoldsEmpty()   { gt.Truncated(cs.HoldsEmpty()) }
func C10_ByInt()        { gt.Truncated(cs.ByInt()) }
func C10_BySigned()     { gt.Truncated(cs.BySigned()) }
func C10_ByBool()       { gt.Truncated(cs.ByBool()) }
func C10_ByEnum()       { gt.Truncated(cs.ByEnum()) }
func C10_ByMask()       { gt.Truncated(cs.ByMask()) }
func C10_ByMember()     { gt.Truncated(cs.ByMember()) }
func C10_ByExpr()       { gt.Truncated(cs.ByExpr()) }
func C10_Bare()         { gt.Truncated(cs.Bare()) }
func C10_Holder()       { gt.Truncated(cs.Holder()) }
func C10_Multi()        { gt.Truncated(cs.Multi()) }
func C10_Union()        { gt.Truncated(cs.Union()) }
func C10_UNums()        { gt.Truncated(cs.UNums()) }
func C10_HoldsUnion()   { gt.Truncated(cs.HoldsUnion()) }

// arrays of the library

func C10_ArrayUInt8()     { at.Truncated(hx.UBits[uint8](8, sv.U8)) }
func C10_ArrayUInt16()    { at.Truncated(hx.UBits[uint16](16, sv.U16)) }
func C10_ArrayUInt32()    { at.Truncated(hx.UBits[uint32](32, sv.U32)) }
func C10_ArrayUInt64()    { at.Truncated(hx.UBits[uint64](64, sv.U64)) }
func C10_ArrayBit1()      { at.Truncated(hx.UBits[uint8](1, sv.U8)) }
func C10_ArrayBit13()     { at.Truncated(hx.UBits[uint16](13, sv.U16)) }
func C10_ArrayBit33()     { at.Truncated(hx.UBits[uint64](33, sv.U64)) }
func C10_ArrayInt8()      { at.Truncated(hx.SBits[int8](8, sv.I8)) }
func C10_ArrayInt16()     { at.Truncated(hx.SBits[int16](16, sv.I16)) }
func C10_ArrayInt32()     { at.Truncated(hx.SBits[int32](32, sv.I32)) }
func C10_ArrayInt64()     { at.Truncated(hx.SBits[int64](64, sv.I64)) }
func C10_ArrayInt3()      { at.Truncated(hx.SBits[int8](3, sv.I8)) }
func C10_ArrayInt13()     { at.Truncated(hx.SBits[int16](13, sv.I16)) }
func C10_ArrayInt33()     { at.Truncated(hx.SBits[int64](33, sv.I64)) }
func C10_ArrayVarUint16() { at.Truncated(hx.VarUint16()) }
func C10_ArrayVarUint32() { at.Truncated(hx.VarUint32()) }
func C10_ArrayVarUint64() { at.Truncated(hx.VarUint64()) }
func C10_ArrayVarUint()   { at.Truncated(hx.VarUint()) }
func C10_ArrayVarSize()   { at.Truncated(hx.VarSize()) }
func C10_ArrayVarInt16()  { at.Truncated(hx.VarInt16()) }
func C10_ArrayVarInt32()  { at.Truncated(hx.VarInt32()) }
func C10_ArrayVarInt64()  { at.Truncated(hx.VarInt64()) }
func C10_ArrayVarInt()    { at.Truncated(hx.VarInt()) }
func C10_ArrayBool()      { at.Truncated(hx.Bool()) }
func C10_ArrayFloat16()   { at.Truncated(hx.Float16()) }
func C10_ArrayFloat32()   { at.Truncated(hx.Float32()) }
func C10_ArrayFloat64()   { at.Truncated(hx.Float64()) }
func C10_ArrayString()    { at.Truncated(hx.String()) }
func C10_ArrayBytes()     { at.Truncated(hx.Bytes()) }
func C10_ArrayExtern()    { at.Truncated(hx.Extern()) }
