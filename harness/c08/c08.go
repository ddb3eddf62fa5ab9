// Package c08: the predicted bit size is the number of bits written.
//
//sv:bound generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)
//sv:bound library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length
//sv:bound start offsets: 0..7 for generated types, 0, 3 and 7 (thorough: 0..7) for library arrays
//sv:bound arrays of 128 and 4097 elements of uint16, varuint16, int:5 and string: the last element arbitrary when unpacked, the others fixed; start offset 3
package c08

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// generated types

func C08_Fixed()        { gt.Size(cs.Fixed()) }
func C08_VarA()         { gt.Size(cs.VarA()) }
func C08_VarB()         { gt.Size(cs.VarB()) }
func C08_VarC()         { gt.Size(cs.VarC()) }
func C08_VarD()         { gt.Size(cs.VarD()) }
func C08_VarE()         { gt.Size(cs.VarE()) }
func C08_VarF()         { gt.Size(cs.VarF()) }
func C08_VarG()         { gt.Size(cs.VarG()) }
func C08_Blobs()        { gt.Size(cs.Blobs()) }
func C08_Names()        { gt.Size(cs.Names()) }
func C08_Opt()          { gt.Size(cs.Opt()) }
func C08_Cond()         { gt.Size(cs.Cond()) }
func C08_Aligned()      { gt.Size(cs.Aligned()) }
func C08_FixedArrays()  { gt.Size(cs.FixedArrays()) }
func C08_AutoArrays()   { gt.Size(cs.AutoArrays()) }
func C08_AutoMore()     { gt.Size(cs.AutoMore()) }
func C08_AutoBlobs()    { gt.Size(cs.AutoBlobs()) }
func C08_AutoVars()     { gt.Size(cs.AutoVars()) }
func C08_LenArrays()    { gt.Size(cs.LenArrays()) }
func C08_OptArrays()    { gt.Size(cs.OptArrays()) }
func C08_PackedArrays() { gt.Size(cs.PackedArrays()) }
func C08_PackedMore()   { gt.Size(cs.PackedMore()) }
func C08_PackedPlain()  { gt.Size(cs.PackedPlain()) }
func C08_DynBits()      { gt.Size(cs.DynBits()) }
func C08_Deep()         { gt.Size(cs.Deep()) }
func C08_HoldsEmpty()   { gt.Size(cs.HoldsEmpty()) }
func C08_ByInt()        { gt.Size(cs.ByInt()) }
func C08_BySigned()     { gt.Size(cs.BySigned()) }
func C08_ByBool()       { gt.Size(cs.ByBool()) }
func C08_ByEnum()       { gt.Size(cs.ByEnum()) }
func C08_ByMask()       { gt.Size(cs.ByMask()) }
func C08_ByMember()     { gt.Size(cs.ByMember()) }
func C08_ByExpr()       { gt.Size(cs.ByExpr()) }
func C08_Bare()         { gt.Size(cs.Bare()) }
func C08_Holder()       { gt.Size(cs.Holder()) }
func C08_Multi()        { gt.Size(cs.Multi()) }
func C08_Union()        { gt.Size(cs.Union()) }
func C08_UNums()        { gt.Size(cs.UNums()) }
func C08_HoldsUnion()   { gt.Size(cs.HoldsUnion()) }

// arrays of the library

func C08_ArrayUInt8()     { at.Size(hx.UBits[uint8](8, sv.U8)) }
func C08_ArrayUInt16()    { at.Size(hx.UBits[uint16](16, sv.U16)) }
func C08_ArrayUInt32()    { at.Size(hx.UBits[uint32](32, sv.U32)) }
func C08_ArrayUInt64()    { at.Size(hx.UBits[uint64](64, sv.U64)) }
func C08_ArrayBit1()      { at.Size(hx.UBits[uint8](1, sv.U8)) }
func C08_ArrayBit13()     { at.Size(hx.UBits[uint16](13, sv.U16)) }
func C08_ArrayBit33()     { at.Size(hx.UBits[uint64](33, sv.U64)) }
func C08_ArrayInt8()      { at.Size(hx.SBits[int8](8, sv.I8)) }
func C08_ArrayInt16()     { at.Size(hx.SBits[int16](16, sv.I16)) }
func C08_ArrayInt32()     { at.Size(hx.SBits[int32](32, sv.I32)) }
func C08_ArrayInt64()     { at.Size(hx.SBits[int64](64, sv.I64)) }
func C08_ArrayInt3()      { at.Size(hx.SBits[int8](3, sv.I8)) }
func C08_ArrayInt13()     { at.Size(hx.SBits[int16](13, sv.I16)) }
func C08_ArrayInt33()     { at.Size(hx.SBits[int64](33, sv.I64)) }
func C08_ArrayVarUint16() { at.Size(hx.VarUint16()) }
func C08_ArrayVarUint32() { at.Size(hx.VarUint32()) }
func C08_ArrayVarUint64() { at.Size(hx.VarUint64()) }
func C08_ArrayVarUint()   { at.Size(hx.VarUint()) }
func C08_ArrayVarSize()   { at.Size(hx.VarSize()) }
func C08_ArrayVarInt16()  { at.Size(hx.VarInt16()) }
func C08_ArrayVarInt32()  { at.Size(hx.VarInt32()) }
func C08_ArrayVarInt64()  { at.Size(hx.VarInt64()) }
func C08_ArrayVarInt()    { at.Size(hx.VarInt()) }
func C08_ArrayBool()      { at.Size(hx.Bool()) }
func C08_ArrayFloat16()   { at.Size(hx.Float16()) }
func C08_ArrayFloat32()   { at.Size(hx.Float32()) }
func C08_ArrayFloat64()   { at.Size(hx.Float64()) }
func C08_ArrayString()    { at.Size(hx.String()) }
func C08_ArrayBytes()     { at.Size(hx.Bytes()) }
func C08_ArrayExtern()    { at.Size(hx.Extern()) }
