package c27

import (
	"gen/zs/cm"

	"verif/sv"
)

// C27_Corpus: the code generated for a schema whose comments and strings mention
// packages compiles.
func C27_Corpus() {
	v := &cm.S{}
	sv.Fill("v", v, 1)
	sv.Assert(v.LoadDefaultValues() == nil && v.S == "ztype.", "default")
	sv.Assert(cm.T == "bitio. driver." && cm.K == 3 && cm.ColorRed == 0, "constants")
	sv.Reach("checked")
}
