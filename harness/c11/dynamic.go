package c11

//sv:bound fields whose width or length another field determines (schemas/dv.zs): every byte string of 0..4 up to 0..12 bytes

import (
	"gen/zs/dv"

	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

func dynamic(v cs.Message, n int) {
	decode(v, sv.Bytes("in", sv.Choose("length", n+1)))
}

func decode(v cs.Message, in []byte) {
	sv.Section("decode")
	sv.SymAlloc(8)
	sv.SkipAlloc(4095)
	sv.AllocLimit(1<<20 + uint64(64*len(in)))
	if v.UnmarshalZserio(hx.NewReader(in)) == nil {
		sv.Reach("decoded")
	} else {
		sv.Reach("rejected")
	}
}

// Lengths and widths of any value, also negative ones and those above 64 bits.

// C11_DynWidthArray leaves out elements of no bits.
func C11_DynWidthArray() {
	in := sv.Bytes("in", sv.Choose("length", 7))
	sv.Assume(len(in) < 2 || sv.Or(in[0] != 0, in[1] != 0))
	decode(&dv.WidthArray{}, in)
}

func C11_DynWidth()        { dynamic(&dv.Width{}, 12) }
func C11_DynSWidth()       { dynamic(&dv.SWidth{}, 12) }
func C11_DynSWidthArray()  { dynamic(&dv.SWidthArray{}, 6) }
func C11_DynPWidthArray()  { dynamic(&dv.PWidthArray{}, 6) }
func C11_DynPSWidthArray() { dynamic(&dv.PSWidthArray{}, 6) }
func C11_DynPacked()       { dynamic(&dv.PEl{}, 6) }
func C11_DynWidthDiff()    { dynamic(&dv.WidthDiff{}, 5) }
func C11_DynLen()          { dynamic(&dv.Len{}, 4) }
func C11_DynLenDiff()      { dynamic(&dv.LenDiff{}, 4) }
func C11_DynLenBig()       { dynamic(&dv.LenBig{}, 10) }
