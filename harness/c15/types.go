package c15

import (
	"gen/zs/en"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// Written by tools/genc15.py from schemas/en.zs, with the values zserio assigns.

func C15_EU8() { value[en.EU8](hx.UBits[uint8](8, sv.U8)) }

func C15_EU8_Packed() { packed[en.EU8](hx.UBits[uint8](8, sv.U8)) }

func C15_EU8_Names() {
	names(en.EU8Values(), en.EU8Strings(), en.EU8String, en.EU8.String, []en.EU8{0, 1, 7, 8, 255}, []string{"A", "B", "C", "D", "E"})
	sv.Assert(en.EU8A == 0, "constant-A")
	sv.Assert(en.EU8B == 1, "constant-B")
	sv.Assert(en.EU8C == 7, "constant-C")
	sv.Assert(en.EU8D == 8, "constant-D")
	sv.Assert(en.EU8E == 255, "constant-E")
}

func C15_EU16() { value[en.EU16](hx.UBits[uint16](16, sv.U16)) }

func C15_EU16_Packed() { packed[en.EU16](hx.UBits[uint16](16, sv.U16)) }

func C15_EU16_Names() {
	names(en.EU16Values(), en.EU16Strings(), en.EU16String, en.EU16.String, []en.EU16{1, 65535, 300}, []string{"A", "B", "C"})
	sv.Assert(en.EU16A == 1, "constant-A")
	sv.Assert(en.EU16B == 65535, "constant-B")
	sv.Assert(en.EU16C == 300, "constant-C")
}

func C15_EU32() { value[en.EU32](hx.UBits[uint32](32, sv.U32)) }

func C15_EU32_Packed() { packed[en.EU32](hx.UBits[uint32](32, sv.U32)) }

func C15_EU32_Names() {
	names(en.EU32Values(), en.EU32Strings(), en.EU32String, en.EU32.String, []en.EU32{0, 4294967295}, []string{"A", "B"})
	sv.Assert(en.EU32A == 0, "constant-A")
	sv.Assert(en.EU32B == 4294967295, "constant-B")
}

func C15_EU64() { value[en.EU64](hx.UBits[uint64](64, sv.U64)) }

func C15_EU64_Packed() { packed[en.EU64](hx.UBits[uint64](64, sv.U64)) }

func C15_EU64_Names() {
	names(en.EU64Values(), en.EU64Strings(), en.EU64String, en.EU64.String, []en.EU64{0, 9223372036854775807, 5}, []string{"A", "B", "C"})
	sv.Assert(en.EU64A == 0, "constant-A")
	sv.Assert(en.EU64B == 9223372036854775807, "constant-B")
	sv.Assert(en.EU64C == 5, "constant-C")
}

func C15_EI8() { value[en.EI8](hx.SBits[int8](8, sv.I8)) }

func C15_EI8_Packed() { packed[en.EI8](hx.SBits[int8](8, sv.I8)) }

func C15_EI8_Names() {
	names(en.EI8Values(), en.EI8Strings(), en.EI8String, en.EI8.String, []en.EI8{-128, -127, -1, 0, 127}, []string{"A", "B", "C", "D", "E"})
	sv.Assert(en.EI8A == -128, "constant-A")
	sv.Assert(en.EI8B == -127, "constant-B")
	sv.Assert(en.EI8C == -1, "constant-C")
	sv.Assert(en.EI8D == 0, "constant-D")
	sv.Assert(en.EI8E == 127, "constant-E")
}

func C15_EI16() { value[en.EI16](hx.SBits[int16](16, sv.I16)) }

func C15_EI16_Packed() { packed[en.EI16](hx.SBits[int16](16, sv.I16)) }

func C15_EI16_Names() {
	names(en.EI16Values(), en.EI16Strings(), en.EI16String, en.EI16.String, []en.EI16{-32768, 0, 32767}, []string{"A", "B", "C"})
	sv.Assert(en.EI16A == -32768, "constant-A")
	sv.Assert(en.EI16B == 0, "constant-B")
	sv.Assert(en.EI16C == 32767, "constant-C")
}

func C15_EI32() { value[en.EI32](hx.SBits[int32](32, sv.I32)) }

func C15_EI32_Packed() { packed[en.EI32](hx.SBits[int32](32, sv.I32)) }

func C15_EI32_Names() {
	names(en.EI32Values(), en.EI32Strings(), en.EI32String, en.EI32.String, []en.EI32{-2147483648, 1}, []string{"A", "B"})
	sv.Assert(en.EI32A == -2147483648, "constant-A")
	sv.Assert(en.EI32B == 1, "constant-B")
}

func C15_EI64() { value[en.EI64](hx.SBits[int64](64, sv.I64)) }

func C15_EI64_Packed() { packed[en.EI64](hx.SBits[int64](64, sv.I64)) }

func C15_EI64_Names() {
	names(en.EI64Values(), en.EI64Strings(), en.EI64String, en.EI64.String, []en.EI64{-9223372036854775807, 7, 8}, []string{"A", "B", "C"})
	sv.Assert(en.EI64A == -9223372036854775807, "constant-A")
	sv.Assert(en.EI64B == 7, "constant-B")
	sv.Assert(en.EI64C == 8, "constant-C")
}

func C15_EB3() { value[en.EB3](hx.UBits[uint8](3, sv.U8)) }

func C15_EB3_Packed() { packed[en.EB3](hx.UBits[uint8](3, sv.U8)) }

func C15_EB3_Names() {
	names(en.EB3Values(), en.EB3Strings(), en.EB3String, en.EB3.String, []en.EB3{0, 1, 7}, []string{"A", "B", "C"})
	sv.Assert(en.EB3A == 0, "constant-A")
	sv.Assert(en.EB3B == 1, "constant-B")
	sv.Assert(en.EB3C == 7, "constant-C")
}

func C15_EB13() { value[en.EB13](hx.UBits[uint16](13, sv.U16)) }

func C15_EB13_Packed() { packed[en.EB13](hx.UBits[uint16](13, sv.U16)) }

func C15_EB13_Names() {
	names(en.EB13Values(), en.EB13Strings(), en.EB13String, en.EB13.String, []en.EB13{8191, 0}, []string{"A", "B"})
	sv.Assert(en.EB13A == 8191, "constant-A")
	sv.Assert(en.EB13B == 0, "constant-B")
}

func C15_EB33() { value[en.EB33](hx.UBits[uint64](33, sv.U64)) }

func C15_EB33_Packed() { packed[en.EB33](hx.UBits[uint64](33, sv.U64)) }

func C15_EB33_Names() {
	names(en.EB33Values(), en.EB33Strings(), en.EB33String, en.EB33.String, []en.EB33{8589934591, 1}, []string{"A", "B"})
	sv.Assert(en.EB33A == 8589934591, "constant-A")
	sv.Assert(en.EB33B == 1, "constant-B")
}

func C15_ES5() { value[en.ES5](hx.SBits[int8](5, sv.I8)) }

func C15_ES5_Packed() { packed[en.ES5](hx.SBits[int8](5, sv.I8)) }

func C15_ES5_Names() {
	names(en.ES5Values(), en.ES5Strings(), en.ES5String, en.ES5.String, []en.ES5{-16, 15, -3}, []string{"A", "B", "C"})
	sv.Assert(en.ES5A == -16, "constant-A")
	sv.Assert(en.ES5B == 15, "constant-B")
	sv.Assert(en.ES5C == -3, "constant-C")
}

func C15_ES33() { value[en.ES33](hx.SBits[int64](33, sv.I64)) }

func C15_ES33_Packed() { packed[en.ES33](hx.SBits[int64](33, sv.I64)) }

func C15_ES33_Names() {
	names(en.ES33Values(), en.ES33Strings(), en.ES33String, en.ES33.String, []en.ES33{-4294967296, 4294967295}, []string{"A", "B"})
	sv.Assert(en.ES33A == -4294967296, "constant-A")
	sv.Assert(en.ES33B == 4294967295, "constant-B")
}

func C15_EV16() { value[en.EV16](hx.VarUint16()) }

func C15_EV16_Packed() { packed[en.EV16](hx.VarUint16()) }

func C15_EV16_Names() {
	names(en.EV16Values(), en.EV16Strings(), en.EV16String, en.EV16.String, []en.EV16{0, 32767}, []string{"A", "B"})
	sv.Assert(en.EV16A == 0, "constant-A")
	sv.Assert(en.EV16B == 32767, "constant-B")
}

func C15_EV32() { value[en.EV32](hx.VarUint32()) }

func C15_EV32_Packed() { packed[en.EV32](hx.VarUint32()) }

func C15_EV32_Names() {
	names(en.EV32Values(), en.EV32Strings(), en.EV32String, en.EV32.String, []en.EV32{3, 536870911}, []string{"A", "B"})
	sv.Assert(en.EV32A == 3, "constant-A")
	sv.Assert(en.EV32B == 536870911, "constant-B")
}

func C15_EVI32() { value[en.EVI32](hx.VarInt32()) }

func C15_EVI32_Packed() { packed[en.EVI32](hx.VarInt32()) }

func C15_EVI32_Names() {
	names(en.EVI32Values(), en.EVI32Strings(), en.EVI32String, en.EVI32.String, []en.EVI32{-268435455, 268435455, 0}, []string{"A", "B", "C"})
	sv.Assert(en.EVI32A == -268435455, "constant-A")
	sv.Assert(en.EVI32B == 268435455, "constant-B")
	sv.Assert(en.EVI32C == 0, "constant-C")
}

func C15_EV64() { value[en.EV64](hx.VarUint64()) }

func C15_EV64_Packed() { packed[en.EV64](hx.VarUint64()) }

func C15_EV64_Names() {
	names(en.EV64Values(), en.EV64Strings(), en.EV64String, en.EV64.String, []en.EV64{0, 144115188075855871}, []string{"A", "B"})
	sv.Assert(en.EV64A == 0, "constant-A")
	sv.Assert(en.EV64B == 144115188075855871, "constant-B")
}

func C15_EVI64() { value[en.EVI64](hx.VarInt64()) }

func C15_EVI64_Packed() { packed[en.EVI64](hx.VarInt64()) }

func C15_EVI64_Names() {
	names(en.EVI64Values(), en.EVI64Strings(), en.EVI64String, en.EVI64.String, []en.EVI64{-72057594037927935, 2}, []string{"A", "B"})
	sv.Assert(en.EVI64A == -72057594037927935, "constant-A")
	sv.Assert(en.EVI64B == 2, "constant-B")
}

func C15_EVU() { value[en.EVU](hx.VarUint()) }

func C15_EVU_Packed() { packed[en.EVU](hx.VarUint()) }

func C15_EVU_Names() {
	names(en.EVUValues(), en.EVUStrings(), en.EVUString, en.EVU.String, []en.EVU{0, 9223372036854775807}, []string{"A", "B"})
	sv.Assert(en.EVUA == 0, "constant-A")
	sv.Assert(en.EVUB == 9223372036854775807, "constant-B")
}

func C15_EVI() { value[en.EVI](hx.VarInt()) }

func C15_EVI_Packed() { packed[en.EVI](hx.VarInt()) }

func C15_EVI_Names() {
	names(en.EVIValues(), en.EVIStrings(), en.EVIString, en.EVI.String, []en.EVI{-9223372036854775807, 1}, []string{"A", "B"})
	sv.Assert(en.EVIA == -9223372036854775807, "constant-A")
	sv.Assert(en.EVIB == 1, "constant-B")
}

func C15_EVS() { value[en.EVS](hx.VarSize()) }

func C15_EVS_Packed() { packed[en.EVS](hx.VarSize()) }

func C15_EVS_Names() {
	names(en.EVSValues(), en.EVSStrings(), en.EVSString, en.EVS.String, []en.EVS{0, 2147483647}, []string{"A", "B"})
	sv.Assert(en.EVSA == 0, "constant-A")
	sv.Assert(en.EVSB == 2147483647, "constant-B")
}

func C15_EFive() { value[en.EFive](hx.UBits[uint8](5, sv.U8)) }

func C15_EFive_Packed() { packed[en.EFive](hx.UBits[uint8](5, sv.U8)) }

func C15_EFive_Names() {
	names(en.EFiveValues(), en.EFiveStrings(), en.EFiveString, en.EFive.String, []en.EFive{0, 31}, []string{"A", "B"})
	sv.Assert(en.EFiveA == 0, "constant-A")
	sv.Assert(en.EFiveB == 31, "constant-B")
}

func C15_EFive2() { value[en.EFive2](hx.UBits[uint8](5, sv.U8)) }

func C15_EFive2_Packed() { packed[en.EFive2](hx.UBits[uint8](5, sv.U8)) }

func C15_EFive2_Names() {
	names(en.EFive2Values(), en.EFive2Strings(), en.EFive2String, en.EFive2.String, []en.EFive2{0, 30}, []string{"A", "B"})
	sv.Assert(en.EFive2A == 0, "constant-A")
	sv.Assert(en.EFive2B == 30, "constant-B")
}

func C15_EShort() { value[en.EShort](hx.SBits[int16](16, sv.I16)) }

func C15_EShort_Packed() { packed[en.EShort](hx.SBits[int16](16, sv.I16)) }

func C15_EShort_Names() {
	names(en.EShortValues(), en.EShortStrings(), en.EShortString, en.EShort.String, []en.EShort{-5, -4}, []string{"A", "B"})
	sv.Assert(en.EShortA == -5, "constant-A")
	sv.Assert(en.EShortB == -4, "constant-B")
}

func C15_EVuSub() { value[en.EVuSub](hx.VarUint()) }

func C15_EVuSub_Packed() { packed[en.EVuSub](hx.VarUint()) }

func C15_EVuSub_Names() {
	names(en.EVuSubValues(), en.EVuSubStrings(), en.EVuSubString, en.EVuSub.String, []en.EVuSub{0, 300}, []string{"A", "B"})
	sv.Assert(en.EVuSubA == 0, "constant-A")
	sv.Assert(en.EVuSubB == 300, "constant-B")
}

func C15_EVi16Sub() { value[en.EVi16Sub](hx.VarInt16()) }

func C15_EVi16Sub_Packed() { packed[en.EVi16Sub](hx.VarInt16()) }

func C15_EVi16Sub_Names() {
	names(en.EVi16SubValues(), en.EVi16SubStrings(), en.EVi16SubString, en.EVi16Sub.String, []en.EVi16Sub{-200, 300}, []string{"A", "B"})
	sv.Assert(en.EVi16SubA == -200, "constant-A")
	sv.Assert(en.EVi16SubB == 300, "constant-B")
}

func C15_EExpr() { value[en.EExpr](hx.UBits[uint16](16, sv.U16)) }

func C15_EExpr_Packed() { packed[en.EExpr](hx.UBits[uint16](16, sv.U16)) }

func C15_EExpr_Names() {
	names(en.EExprValues(), en.EExprStrings(), en.EExprString, en.EExpr.String, []en.EExpr{21, 22, 42, 256, 20}, []string{"A", "B", "C", "D", "E"})
	sv.Assert(en.EExprA == 21, "constant-A")
	sv.Assert(en.EExprB == 22, "constant-B")
	sv.Assert(en.EExprC == 42, "constant-C")
	sv.Assert(en.EExprD == 256, "constant-D")
	sv.Assert(en.EExprE == 20, "constant-E")
}

func C15_MU8() { value[en.MU8](hx.UBits[uint8](8, sv.U8)) }

func C15_MU8_Packed() { packed[en.MU8](hx.UBits[uint8](8, sv.U8)) }

func C15_MU8_Values() {
	sv.Assert(en.MU8A == 1, "constant-A")
	sv.Assert(en.MU8B == 2, "constant-B")
	sv.Assert(en.MU8C == 4, "constant-C")
	sv.Reach("checked")
}

func C15_MU16() { value[en.MU16](hx.UBits[uint16](16, sv.U16)) }

func C15_MU16_Packed() { packed[en.MU16](hx.UBits[uint16](16, sv.U16)) }

func C15_MU16_Values() {
	sv.Assert(en.MU16A == 1, "constant-A")
	sv.Assert(en.MU16B == 32768, "constant-B")
	sv.Assert(en.MU16C == 2, "constant-C")
	sv.Reach("checked")
}

func C15_MU32() { value[en.MU32](hx.UBits[uint32](32, sv.U32)) }

func C15_MU32_Packed() { packed[en.MU32](hx.UBits[uint32](32, sv.U32)) }

func C15_MU32_Values() {
	sv.Assert(en.MU32A == 1, "constant-A")
	sv.Assert(en.MU32B == 2147483648, "constant-B")
	sv.Reach("checked")
}

func C15_MU64() { value[en.MU64](hx.UBits[uint64](64, sv.U64)) }

func C15_MU64_Packed() { packed[en.MU64](hx.UBits[uint64](64, sv.U64)) }

func C15_MU64_Values() {
	sv.Assert(en.MU64A == 1, "constant-A")
	sv.Assert(en.MU64B == 4611686018427387904, "constant-B")
	sv.Reach("checked")
}

func C15_MB3() { value[en.MB3](hx.UBits[uint8](3, sv.U8)) }

func C15_MB3_Packed() { packed[en.MB3](hx.UBits[uint8](3, sv.U8)) }

func C15_MB3_Values() {
	sv.Assert(en.MB3A == 1, "constant-A")
	sv.Assert(en.MB3B == 2, "constant-B")
	sv.Assert(en.MB3C == 4, "constant-C")
	sv.Reach("checked")
}

func C15_MB13() { value[en.MB13](hx.UBits[uint16](13, sv.U16)) }

func C15_MB13_Packed() { packed[en.MB13](hx.UBits[uint16](13, sv.U16)) }

func C15_MB13_Values() {
	sv.Assert(en.MB13A == 4096, "constant-A")
	sv.Assert(en.MB13B == 1, "constant-B")
	sv.Reach("checked")
}

func C15_MB33() { value[en.MB33](hx.UBits[uint64](33, sv.U64)) }

func C15_MB33_Packed() { packed[en.MB33](hx.UBits[uint64](33, sv.U64)) }

func C15_MB33_Values() {
	sv.Assert(en.MB33A == 4294967296, "constant-A")
	sv.Assert(en.MB33B == 1, "constant-B")
	sv.Reach("checked")
}

func C15_MFive() { value[en.MFive](hx.UBits[uint8](5, sv.U8)) }

func C15_MFive_Packed() { packed[en.MFive](hx.UBits[uint8](5, sv.U8)) }

func C15_MFive_Values() {
	sv.Assert(en.MFiveA == 1, "constant-A")
	sv.Assert(en.MFiveB == 16, "constant-B")
	sv.Reach("checked")
}

func C15_MFive2() { value[en.MFive2](hx.UBits[uint8](5, sv.U8)) }

func C15_MFive2_Packed() { packed[en.MFive2](hx.UBits[uint8](5, sv.U8)) }

func C15_MFive2_Values() {
	sv.Assert(en.MFive2A == 1, "constant-A")
	sv.Assert(en.MFive2B == 8, "constant-B")
	sv.Assert(en.MFive2C == 16, "constant-C")
	sv.Reach("checked")
}

func C15_MV16() { value[en.MV16](hx.VarUint16()) }

func C15_MV16_Packed() { packed[en.MV16](hx.VarUint16()) }

func C15_MV16_Values() {
	sv.Assert(en.MV16A == 1, "constant-A")
	sv.Assert(en.MV16B == 16384, "constant-B")
	sv.Reach("checked")
}

func C15_MV64() { value[en.MV64](hx.VarUint64()) }

func C15_MV64_Packed() { packed[en.MV64](hx.VarUint64()) }

func C15_MV64_Values() {
	sv.Assert(en.MV64A == 1, "constant-A")
	sv.Assert(en.MV64B == 2, "constant-B")
	sv.Reach("checked")
}

func C15_MVU() { value[en.MVU](hx.VarUint()) }

func C15_MVU_Packed() { packed[en.MVU](hx.VarUint()) }

func C15_MVU_Values() {
	sv.Assert(en.MVUA == 1, "constant-A")
	sv.Assert(en.MVUB == 2, "constant-B")
	sv.Reach("checked")
}

func C15_MVuSub() { value[en.MVuSub](hx.VarUint()) }

func C15_MVuSub_Packed() { packed[en.MVuSub](hx.VarUint()) }

func C15_MVuSub_Values() {
	sv.Assert(en.MVuSubA == 1, "constant-A")
	sv.Assert(en.MVuSubB == 2, "constant-B")
	sv.Reach("checked")
}

func C15_MNone() { value[en.MNone](hx.UBits[uint8](8, sv.U8)) }

func C15_MNone_Packed() { packed[en.MNone](hx.UBits[uint8](8, sv.U8)) }

func C15_MNone_Values() {
	sv.Assert(en.MNoneNONE == 0, "constant-NONE")
	sv.Assert(en.MNoneA == 1, "constant-A")
	sv.Assert(en.MNoneB == 2, "constant-B")
	sv.Assert(en.MNoneBOTH == 3, "constant-BOTH")
	sv.Assert(en.MNoneC == 4, "constant-C")
	sv.Reach("checked")
}
