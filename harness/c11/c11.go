// Package c11: decoding arbitrary bytes.
//
//sv:bound generated types: the structs of schemas/st.zs and the choices and unions of schemas/chu.zs (arrays of 0..2 elements, strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, all scalar values, all presence and selection combinations)
//sv:bound library arrays: every element type, 0..2 elements of any value, packed and unpacked, automatic and fixed length
//sv:bound input: every byte string of 0..3 bytes, for types of fixed size up to their size and one byte
//sv:bound a length of a string, bytes or extern value read from the input is 0..8 or at least 4096 (the largest the code reserves before it reads the content), lengths in between are left out
//sv:bound the allocation limit is 1 MiB for a generated type and 128 KiB for a library array plus 64 bytes for each input byte
package c11

import (
	"github.com/woven-planet/go-zserio/zzverif/at"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// generated types

func C11_Fixed()        { gt.Arbitrary(cs.Fixed(), 67) }
func C11_VarA()         { gt.Arbitrary(cs.VarA(), 6) }
func C11_VarB()         { gt.Arbitrary(cs.VarB(), 9) }
func C11_VarC()         { gt.Arbitrary(cs.VarC(), 10) }
func C11_VarD()         { gt.Arbitrary(cs.VarD(), 10) }
func C11_VarE()         { gt.Arbitrary(cs.VarE(), 10) }
func C11_VarF()         { gt.Arbitrary(cs.VarF(), 10) }
func C11_VarG()         { gt.Arbitrary(cs.VarG(), 7) }
func C11_Blobs()        { gt.Arbitrary(cs.Blobs(), 4) }
func C11_Names()        { gt.Arbitrary(cs.Names(), 8) }
func C11_Opt()          { gt.Arbitrary(cs.Opt(), 3) }
func C11_Cond()         { gt.Arbitrary(cs.Cond(), 5) }
func C11_Aligned()      { gt.Arbitrary(cs.Aligned(), 14) }
func C11_FixedArrays()  { gt.Arbitrary(cs.FixedArrays(), 20) }
func C11_AutoArrays()   { gt.Arbitrary(cs.AutoArrays(), 5) }
func C11_AutoMore()     { gt.Arbitrary(cs.AutoMore(), 6) }
func C11_AutoBlobs()    { gt.Arbitrary(cs.AutoBlobs(), 4) }
func C11_AutoVars()     { gt.Arbitrary(cs.AutoVars(), 3) }
func C11_LenArrays()    { gt.Arbitrary(cs.LenArrays(), 3) }
func C11_OptArrays()    { gt.Arbitrary(cs.OptArrays(), 3) }
func C11_PackedArrays() { gt.Prefix(cs.PackedArrays(), 3) }
func C11_PackedMore()   { gt.Prefix(cs.PackedMore(), 3) }
func C11_PackedPlain()  { gt.Arbitrary(cs.PackedPlain(), 4) }
func C11_DynBits()      { gt.Arbitrary(cs.DynBits(), 17) }
func C11_Deep()         { gt.Arbitrary(cs.Deep(), 9) }
func C11_ByInt()        { gt.Arbitrary(cs.ByInt(), 3) }
func C11_BySigned()     { gt.Arbitrary(cs.BySigned(), 3) }
func C11_ByBool()       { gt.Arbitrary(cs.ByBool(), 3) }
func C11_ByEnum()       { gt.Arbitrary(cs.ByEnum(), 3) }
func C11_ByMask()       { gt.Arbitrary(cs.ByMask(), 3) }
func C11_ByMember()     { gt.Arbitrary(cs.ByMember(), 3) }
func C11_ByExpr()       { gt.Arbitrary(cs.ByExpr(), 3) }
func C11_Bare()         { gt.Arbitrary(cs.Bare(), 3) }
func C11_Holder()       { gt.Arbitrary(cs.Holder(), 3) }
func C11_Multi()        { gt.Arbitrary(cs.Multi(), 7) }
func C11_Union()        { gt.Arbitrary(cs.Union(), 3) }
func C11_UNums()        { gt.Arbitrary(cs.UNums(), 3) }
func C11_HoldsUnion()   { gt.Arbitrary(cs.HoldsUnion(), 4) }

// arrays of the library

func C11_ArrayUInt8()     { at.Arbitrary(hx.UBits[uint8](8, sv.U8), 3) }
func C11_ArrayUInt16()    { at.Arbitrary(hx.UBits[uint16](16, sv.U16), 3) }
func C11_ArrayUInt32()    { at.Arbitrary(hx.UBits[uint32](32, sv.U32), 3) }
func C11_ArrayUInt64()    { at.Arbitrary(hx.UBits[uint64](64, sv.U64), 3) }
func C11_ArrayBit1()      { at.Arbitrary(hx.UBits[uint8](1, sv.U8), 2) }
func C11_ArrayBit13()     { at.Arbitrary(hx.UBits[uint16](13, sv.U16), 3) }
func C11_ArrayBit33()     { at.Arbitrary(hx.UBits[uint64](33, sv.U64), 3) }
func C11_ArrayInt8()      { at.Arbitrary(hx.SBits[int8](8, sv.I8), 3) }
func C11_ArrayInt16()     { at.Arbitrary(hx.SBits[int16](16, sv.I16), 3) }
func C11_ArrayInt32()     { at.Arbitrary(hx.SBits[int32](32, sv.I32), 3) }
func C11_ArrayInt64()     { at.Arbitrary(hx.SBits[int64](64, sv.I64), 3) }
func C11_ArrayInt3()      { at.Arbitrary(hx.SBits[int8](3, sv.I8), 3) }
func C11_ArrayInt13()     { at.Arbitrary(hx.SBits[int16](13, sv.I16), 3) }
func C11_ArrayInt33()     { at.Arbitrary(hx.SBits[int64](33, sv.I64), 3) }
func C11_ArrayVarUint16() { at.Arbitrary(hx.VarUint16(), 3) }
func C11_ArrayVarUint32() { at.Arbitrary(hx.VarUint32(), 3) }
func C11_ArrayVarUint64() { at.Arbitrary(hx.VarUint64(), 3) }
func C11_ArrayVarUint()   { at.Arbitrary(hx.VarUint(), 3) }
func C11_ArrayVarSize()   { at.Arbitrary(hx.VarSize(), 3) }
func C11_ArrayVarInt16()  { at.Arbitrary(hx.VarInt16(), 3) }
func C11_ArrayVarInt32()  { at.Arbitrary(hx.VarInt32(), 3) }
func C11_ArrayVarInt64()  { at.Arbitrary(hx.VarInt64(), 3) }
func C11_ArrayVarInt()    { at.Arbitrary(hx.VarInt(), 3) }
func C11_ArrayBool()      { at.Arbitrary(hx.Bool(), 2) }
func C11_ArrayFloat16()   { at.Arbitrary(hx.Float16(), 3) }
func C11_ArrayFloat32()   { at.Arbitrary(hx.Float32(), 3) }
func C11_ArrayFloat64()   { at.Arbitrary(hx.Float64(), 3) }
func C11_ArrayString()    { at.Arbitrary(hx.String(), 3) }
func C11_ArrayBytes()     { at.Arbitrary(hx.Bytes(), 3) }
func C11_ArrayExtern()    { at.Arbitrary(hx.Extern(), 3) }
