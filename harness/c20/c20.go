// Package c20: encoding is pure and deterministic.
//
//sv:bound generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)
//sv:bound library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length
//sv:bound every store, map update and append of the encoder, the size prediction and the decoder is checked against the memory of the value, of the input and of all package-level variables, and each of these operations runs twice
//sv:bound arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed
package c20

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// generated types

func C20_Fixed()        { gt.Pure(cs.Fixed(), true) }
func C20_VarA()         { gt.Pure(cs.VarA(), true) }
func C20_VarB()         { gt.Pure(cs.VarB(), true) }
func C20_VarC()         { gt.Pure(cs.VarC(), true) }
func C20_VarD()         { gt.Pure(cs.VarD(), true) }
func C20_VarE()         { gt.Pure(cs.VarE(), true) }
func C20_VarF()         { gt.Pure(cs.VarF(), true) }
func C20_VarG()         { gt.Pure(cs.VarG(), true) }
func C20_Blobs()        { gt.Pure(cs.Blobs(), true) }
func C20_Names()        { gt.Pure(cs.Names(), true) }
func C20_Opt()          { gt.Pure(cs.Opt(), true) }
func C20_Cond()         { gt.Pure(cs.Cond(), true) }
func C20_Aligned()      { gt.Pure(cs.Aligned(), true) }
func C20_FixedArrays()  { gt.Pure(cs.FixedArrays(), true) }
func C20_AutoArrays()   { gt.Pure(cs.AutoArrays(), true) }
func C20_AutoMore()     { gt.Pure(cs.AutoMore(), true) }
func C20_AutoBlobs()    { gt.Pure(cs.AutoBlobs(), true) }
func C20_AutoVars()     { gt.Pure(cs.AutoVars(), true) }
func C20_LenArrays()    { gt.Pure(cs.LenArrays(), true) }
func C20_OptArrays()    { gt.Pure(cs.OptArrays(), true) }
func C20_PackedArrays() { gt.Pure(cs.PackedArrays(), true) }
func C20_PackedMore()   { gt.Pure(cs.PackedMore(), true) }
func C20_PackedPlain()  { gt.Pure(cs.PackedPlain(), true) }
func C20_DynBits()      { gt.Pure(cs.DynBits(), true) }
func C20_Deep()         { gt.Pure(cs.Deep(), true) }
func C20_HoldsEmpty()   { gt.Pure(cs.HoldsEmpty(), true) }
func C20_ByInt()        { gt.Pure(cs.ByInt(), true) }
func C20_BySigned()     { gt.Pure(cs.BySigned(), true) }
func C20_ByBool()       { gt.Pure(cs.ByBool(), true) }
func C20_ByEnum()       { gt.Pure(cs.ByEnum(), true) }
func C20_ByMask()       { gt.Pure(cs.ByMask(), true) }
func C20_ByMember()     { gt.Pure(cs.ByMember(), true) }
func C20_ByExpr()       { gt.Pure(cs.ByExpr(), true) }
func C20_Bare()         { gt.Pure(cs.Bare(), true) }
func C20_Holder()       { gt.Pure(cs.Holder(), false) }
func C20_Multi()        { gt.Pure(cs.Multi(), false) }
func C20_Union()        { gt.Pure(cs.Union(), true) }
func C20_UNums()        { gt.Pure(cs.UNums(), true) }
func C20_HoldsUnion()   { gt.Pure(cs.HoldsUnion(), true) }

// arrays of the library

func C20_ArrayUInt8()     { at.Pure(hx.UBits[uint8](8, sv.U8)) }
func C20_ArrayUInt16()    { at.Pure(hx.UBits[uint16](16, sv.U16)) }
func C20_ArrayUInt32()    { at.Pure(hx.UBits[uint32](32, sv.U32)) }
func C20_ArrayUInt64()    { at.Pure(hx.UBits[uint64](64, sv.U64)) }
func C20_ArrayBit1()      { at.Pure(hx.UBits[uint8](1, sv.U8)) }
func C20_ArrayBit13()     { at.Pure(hx.UBits[uint16](13, sv.U16)) }
func C20_ArrayBit33()     { at.Pure(hx.UBits[uint64](33, sv.U64)) }
func C20_ArrayInt8()      { at.Pure(hx.SBits[int8](8, sv.I8)) }
func C20_ArrayInt16()     { at.Pure(hx.SBits[int16](16, sv.I16)) }
func C20_ArrayInt32()     { at.Pure(hx.SBits[int32](32, sv.I32)) }
func C20_ArrayInt64()     { at.Pure(hx.SBits[int64](64, sv.I64)) }
func C20_ArrayInt3()      { at.Pure(hx.SBits[int8](3, sv.I8)) }
func C20_ArrayInt13()     { at.Pure(hx.SBits[int16](13, sv.I16)) }
func C20_ArrayInt33()     { at.Pure(hx.SBits[int64](33, sv.I64)) }
func C20_ArrayVarUint16() { at.Pure(hx.VarUint16()) }
func C20_ArrayVarUint32() { at.Pure(hx.VarUint32()) }
func C20_ArrayVarUint64() { at.Pure(hx.VarUint64()) }
func C20_ArrayVarUint()   { at.Pure(hx.VarUint()) }
func C20_ArrayVarSize()   { at.Pure(hx.VarSize()) }
func C20_ArrayVarInt16()  { at.Pure(hx.VarInt16()) }
func C20_ArrayVarInt32()  { at.Pure(hx.VarInt32()) }
func C20_ArrayVarInt64()  { at.Pure(hx.VarInt64()) }
func C20_ArrayVarInt()    { at.Pure(hx.VarInt()) }
func C20_ArrayBool()      { at.Pure(hx.Bool()) }
func C20_ArrayFloat16()   { at.Pure(hx.Float16()) }
func C20_ArrayFloat32()   { at.Pure(hx.Float32()) }
func C20_ArrayFloat64()   { at.Pure(hx.Float64()) }
func C20_ArrayString()    { at.Pure(hx.String()) }
func C20_ArrayBytes()     { at.Pure(hx.Bytes()) }
func C20_ArrayExtern()    { at.Pure(hx.Extern()) }
