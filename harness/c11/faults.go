package c11

import (
	"gen/zs/fx"

	"github.com/woven-planet/go-zserio/zzverif/cs"
	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

// Expressions without a value: recorded findings.

func fault(v cs.Message, name string) {
	in := sv.Bytes("in", 5)
	sv.Section(name)
	if v.UnmarshalZserio(hx.NewReader(in)) == nil {
		sv.Reach("decoded")
	}
}

func C11_FaultQuotient()  { fault(&fx.Quot{}, "quotient") }
func C11_FaultRemainder() { fault(&fx.Rem{}, "remainder") }
func C11_FaultShift()     { fault(&fx.Shift{}, "shift") }
func C11_FaultIndex()     { fault(&fx.Index{}, "index") }
