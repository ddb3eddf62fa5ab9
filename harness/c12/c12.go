// Package c12: generated structs.
//
//sv:bound every field type and modifier: the structs of schemas/st.zs
//sv:bound arrays of 0..2 elements (0..3 where the schema fixes the length), strings and bytes of 0..2 bytes, extern of 0, 5, 8 and 11 bits, dynamic bit fields of 1, 7, 8, 33 and 63 bits, recursion depth 2; all scalar values, all presence combinations
//sv:bound arrays of structs of 127, 128, 4095, 4096 and 4097 elements, of which the last is arbitrary and the others are fixed
//sv:bound a struct of 40 fields, half of them optional (schemas/big.zs), present in up to three groups
//sv:bound start offsets 0 and 3 (thorough: 0..7)
//sv:bound packed arrays inside a struct: round trip here, their layout under C07 and C24
package c12

import (
	"gen/zs/st"
	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/gt"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func C12_Fixed()        { gt.RoundTrip(cs.Fixed()) }
func C12_VarA()         { gt.RoundTrip(cs.VarA()) }
func C12_VarB()         { gt.RoundTrip(cs.VarB()) }
func C12_VarC()         { gt.RoundTrip(cs.VarC()) }
func C12_VarD()         { gt.RoundTrip(cs.VarD()) }
func C12_VarE()         { gt.RoundTrip(cs.VarE()) }
func C12_VarF()         { gt.RoundTrip(cs.VarF()) }
func C12_VarG()         { gt.RoundTrip(cs.VarG()) }
func C12_Blobs()        { gt.RoundTrip(cs.Blobs()) }
func C12_Names()        { gt.RoundTrip(cs.Names()) }
func C12_Opt()          { gt.RoundTrip(cs.Opt()) }
func C12_Cond()         { gt.RoundTrip(cs.Cond()) }
func C12_Aligned()      { gt.RoundTrip(cs.Aligned()) }
func C12_FixedArrays()  { gt.RoundTrip(cs.FixedArrays()) }
func C12_AutoArrays()   { gt.RoundTrip(cs.AutoArrays()) }
func C12_AutoMore()     { gt.RoundTrip(cs.AutoMore()) }
func C12_AutoBlobs()    { gt.RoundTrip(cs.AutoBlobs()) }
func C12_AutoVars()     { gt.RoundTrip(cs.AutoVars()) }
func C12_LenArrays()    { gt.RoundTrip(cs.LenArrays()) }
func C12_OptArrays()    { gt.RoundTrip(cs.OptArrays()) }
func C12_PackedArrays() { gt.RoundTrip(cs.PackedArrays()) }
func C12_PackedMore()   { gt.RoundTrip(cs.PackedMore()) }
func C12_PackedPlain()  { gt.RoundTrip(cs.PackedPlain()) }
func C12_DynBits()      { gt.RoundTrip(cs.DynBits()) }
func C12_Deep()         { gt.RoundTrip(cs.Deep()) }
func C12_HoldsEmpty()   { gt.RoundTrip(cs.HoldsEmpty()) }

// C12_LargeArrays: arrays of structs of sizes an implementation may treat apart.
func C12_LargeArrays() {
	sv.Long()
	n := []int{127, 128, 4095, 4096, 4097}[sv.Choose("large", 5)]
	v := &st.AutoArrays{Z: 1, D: make([]st.Inner, n)}
	for i := range v.D {
		v.D[i] = st.Inner{X: uint8(i % 8), Y: int8(i%128 - 64)}
	}
	last := &v.D[n-1]
	last.X, last.Y = sv.U8("x"), sv.I8("y")
	sv.Assume(last.X < 8)
	sv.Assume(last.Y >= -64)
	sv.Assume(last.Y < 64)
	b, w, done, ref := hx.WriterAt(0)
	sv.Section("predict")
	size, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	ref.Put(1, 1)
	for i := 0; i < 3; i++ {
		ref.PutVarUint(0, 5)
	}
	ref.PutVarUint(uint64(n), 5)
	for i := range v.D {
		ref.Put(uint64(v.D[i].X), 3)
		ref.Put(uint64(v.D[i].Y), 7)
	}
	sv.Assert(size == ref.Len(), "predicted-size")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	var got st.AutoArrays
	r := hx.NewReader(b.B)
	sv.Assert(got.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Assert(len(got.D) == n, "elements")
	same := true
	for i := range got.D {
		same = sv.And(same, sv.And(got.D[i].X == v.D[i].X, got.D[i].Y == v.D[i].Y))
	}
	sv.Assert(same, "round-trip")
	sv.Reach("round-trips")
}
