// Package c21: the decoded value depends only on the bytes.
//
//sv:bound generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)
//sv:bound library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length
//sv:bound the receiver holds arbitrary content: scalars of any value, nil or allocated pointers, slices and strings of 0..1 elements
//sv:bound receivers that held 0, 3, 4096 or 4097 elements and get 0, 3, 4096 or 4097 (uint16, varuint16, int:5, string; last element arbitrary when unpacked, the others fixed)
package c21

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// generated types

func C21_Fixed()        { gt.Reuse(cs.Fixed()) }
func C21_VarA()         { gt.Reuse(cs.VarA()) }
func C21_VarB()         { gt.Reuse(cs.VarB()) }
func C21_VarC()         { gt.Reuse(cs.VarC()) }
func C21_VarD()         { gt.Reuse(cs.VarD()) }
func C21_VarE()         { gt.Reuse(cs.VarE()) }
func C21_VarF()         { gt.Reuse(cs.VarF()) }
func C21_VarG()         { gt.Reuse(cs.VarG()) }
func C21_Blobs()        { gt.Reuse(cs.Blobs()) }
func C21_Names()        { gt.Reuse(cs.Names()) }
func C21_Opt()          { gt.Reuse(cs.Opt()) }
func C21_Cond()         { gt.Reuse(cs.Cond()) }
func C21_Aligned()      { gt.Reuse(cs.Aligned()) }
func C21_FixedArrays()  { gt.Reuse(cs.FixedArrays()) }
func C21_AutoArrays()   { gt.Reuse(cs.AutoArrays()) }
func C21_AutoMore()     { gt.Reuse(cs.AutoMore()) }
func C21_AutoBlobs()    { gt.Reuse(cs.AutoBlobs()) }
func C21_AutoVars()     { gt.Reuse(cs.AutoVars()) }
func C21_LenArrays()    { gt.Reuse(cs.LenArrays()) }
func C21_OptArrays()    { gt.Reuse(cs.OptArrays()) }
func C21_PackedArrays() { gt.Reuse(cs.PackedArrays()) }
func C21_PackedMore()   { gt.Reuse(cs.PackedMore()) }
func C21_PackedPlain()  { gt.Reuse(cs.PackedPlain()) }
func C21_DynBits()      { gt.Reuse(cs.DynBits()) }
func C21_Deep()         { gt.Reuse(cs.Deep()) }
func C21_HoldsEmpty()   { gt.Reuse(cs.HoldsEmpty()) }
func C21_ByInt()        { gt.Reuse(cs.ByInt()) }
func C21_BySigned()     { gt.Reuse(cs.BySigned()) }
func C21_ByBool()       { gt.Reuse(cs.ByBool()) }
func C21_ByEnum()       { gt.Reuse(cs.ByEnum()) }
func C21_ByMask()       { gt.Reuse(cs.ByMask()) }
func C21_ByMember()     { gt.Reuse(cs.ByMember()) }
func C21_ByExpr()       { gt.Reuse(cs.ByExpr()) }
func C21_Bare()         { gt.Reuse(cs.Bare()) }
func C21_Holder()       { gt.Reuse(cs.Holder()) }
func C21_Multi()        { gt.Reuse(cs.Multi()) }
func C21_Union()        { gt.Reuse(cs.Union()) }
func C21_UNums()        { gt.Reuse(cs.UNums()) }
func C21_HoldsUnion()   { gt.Reuse(cs.HoldsUnion()) }

// arrays of the library

func C21_ArrayUInt8()     { at.Reuse(hx.UBits[uint8](8, sv.U8)) }
func C21_ArrayUInt16()    { at.Reuse(hx.UBits[uint16](16, sv.U16)) }
func C21_ArrayUInt32()    { at.Reuse(hx.UBits[uint32](32, sv.U32)) }
func C21_ArrayUInt64()    { at.Reuse(hx.UBits[uint64](64, sv.U64)) }
func C21_ArrayBit1()      { at.Reuse(hx.UBits[uint8](1, sv.U8)) }
func C21_ArrayBit13()     { at.Reuse(hx.UBits[uint16](13, sv.U16)) }
func C21_ArrayBit33()     { at.Reuse(hx.UBits[uint64](33, sv.U64)) }
func C21_ArrayInt8()      { at.Reuse(hx.SBits[int8](8, sv.I8)) }
func C21_ArrayInt16()     { at.Reuse(hx.SBits[int16](16, sv.I16)) }
func C21_ArrayInt32()     { at.Reuse(hx.SBits[int32](32, sv.I32)) }
func C21_ArrayInt64()     { at.Reuse(hx.SBits[int64](64, sv.I64)) }
func C21_ArrayInt3()      { at.Reuse(hx.SBits[int8](3, sv.I8)) }
func C21_ArrayInt13()     { at.Reuse(hx.SBits[int16](13, sv.I16)) }
func C21_ArrayInt33()     { at.Reuse(hx.SBits[int64](33, sv.I64)) }
func C21_ArrayVarUint16() { at.Reuse(hx.VarUint16()) }
func C21_ArrayVarUint32() { at.Reuse(hx.VarUint32()) }
func C21_ArrayVarUint64() { at.Reuse(hx.VarUint64()) }
func C21_ArrayVarUint()   { at.Reuse(hx.VarUint()) }
func C21_ArrayVarSize()   { at.Reuse(hx.VarSize()) }
func C21_ArrayVarInt16()  { at.Reuse(hx.VarInt16()) }
func C21_ArrayVarInt32()  { at.Reuse(hx.VarInt32()) }
func C21_ArrayVarInt64()  { at.Reuse(hx.VarInt64()) }
func C21_ArrayVarInt()    { at.Reuse(hx.VarInt()) }
func C21_ArrayBool()      { at.Reuse(hx.Bool()) }
func C21_ArrayFloat16()   { at.Reuse(hx.Float16()) }
func C21_ArrayFloat32()   { at.Reuse(hx.Float32()) }
func C21_ArrayFloat64()   { at.Reuse(hx.Float64()) }
func C21_ArrayString()    { at.Reuse(hx.String()) }
func C21_ArrayBytes()     { at.Reuse(hx.Bytes()) }
func C21_ArrayExtern()    { at.Reuse(hx.Extern()) }
