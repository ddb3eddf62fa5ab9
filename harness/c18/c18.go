// Package c18: values of enum items and bitmask values without an explicit one.
//
//sv:bound enums and bitmasks of 1 to 4 items (thorough: 5), every mix of explicit and implicit items, every explicit value of 63 bits
//sv:bound explicit values given by a literal or constant, by the sum of a constant and an earlier item, or by a later explicit item
//sv:bound bitmask values up to the highest of 64 bits: two implicit values after any explicit one of 63 bits
//sv:assume otherwise the values stay in the range of a 64 bit signed integer; bitmask values are not negative
package c18

import (
	"math"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/parser"
	"verif/sv"
)

var names = []string{"A", "B", "C", "D", "E"}

func id(name string) *ast.Expression {
	return &ast.Expression{Type: parser.ZserioParserID, Text: name}
}

func dot(item string) *ast.Expression {
	return &ast.Expression{Type: parser.ZserioParserDOT, Operand1: id("T"), Operand2: &ast.Expression{Type: parser.UnevaluatableExpressionType, Text: item}}
}

func constant(p *ast.Package, name string, v int64) {
	p.Consts[name] = &ast.Const{Name: name, ValueExpression: &ast.Expression{
		EvaluationState: ast.EvaluationStateComplete, FullyResolved: true, ResultType: ast.ExpressionTypeInteger, ResultIntValue: v,
	}}
}

const (
	implicit = iota
	explicit
	sum   // the constant plus the first item
	later // the same as the last item, when that is explicit
)

// items chooses the items: the expressions and the explicit values.
func items(p *ast.Package, lowest int64) (ex []*ast.Expression, kinds []int, vs []int64) {
	most := 4
	if sv.Thorough() {
		most = 5
	}
	n := 1 + sv.Choose("items", most)
	for i := 0; i < n; i++ {
		k := sv.Choose("kind", 4)
		if k == sum && i == 0 || k == later && i == n-1 {
			k = implicit
		}
		v := int64(0)
		var e *ast.Expression
		if k == explicit || k == sum {
			v = sv.I64("value " + names[i])
			sv.Assume(v >= lowest)
			constant(p, "v"+names[i], v)
			e = id("v" + names[i])
		}
		if k == sum {
			e = &ast.Expression{Type: parser.ZserioParserPLUS, Operand1: e, Operand2: dot("A")}
		}
		if k == later {
			e = dot(names[n-1])
		}
		ex, kinds, vs = append(ex, e), append(kinds, k), append(vs, v)
	}
	return ex, kinds, vs
}

// laterOf resolves the references to the last item.
func laterOf(kinds []int) bool {
	for _, k := range kinds {
		if k == later && kinds[len(kinds)-1] != explicit {
			return false
		}
	}
	return true
}

// C18_Enum: enum items.
func C18_Enum() {
	p := ast.NewPackage("p")
	ex, kinds, vs := items(p, math.MinInt64)
	if !laterOf(kinds) {
		return
	}
	en := &ast.Enum{Name: "T"}
	for i, e := range ex {
		en.AddItem(&ast.EnumItem{Name: names[i], Expression: e})
	}
	p.Enums["T"] = en
	want := make([]int64, len(ex))
	for i, k := range kinds {
		switch k {
		case implicit:
			if i > 0 {
				sv.Assume(want[i-1] != math.MaxInt64)
				want[i] = want[i-1] + 1
			}
		case explicit:
			want[i] = vs[i]
		case sum:
			want[i] = vs[i] + want[0]
			sv.Assume((vs[i]^want[i])&(want[0]^want[i]) >= 0)
		case later:
			want[i] = vs[len(vs)-1]
		}
	}
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	sv.Section("evaluate")
	sv.Assert(en.Evaluate(p) == nil, "accepts")
	for i := range ex {
		sv.Assert(en.Items[i].ResultType == ast.ExpressionTypeInteger, "type")
		sv.Assert(en.Items[i].ResultIntValue == want[i], "value")
	}
	sv.Reach("values")
}

// C18_Bitmask: bitmask values.
func C18_Bitmask() {
	p := ast.NewPackage("p")
	ex, kinds, vs := items(p, 0)
	if !laterOf(kinds) {
		return
	}
	bm := &ast.BitmaskType{Name: "T"}
	for i, e := range ex {
		if kinds[i] == sum {
			// bits are combined, not added
			e.Type = parser.ZserioParserOR
		}
		bm.Values = append(bm.Values, &ast.BitmaskValue{Name: names[i], Expression: e})
	}
	p.Bitmasks["T"] = bm
	for i := range ex {
		sv.Assume(vs[i] < 1<<56)
	}
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	sv.Section("evaluate")
	sv.Assert(bm.Evaluate(p) == nil, "accepts")
	for i, k := range kinds {
		v := bm.Values[i].ResultIntValue
		switch k {
		case implicit:
			last := int64(0)
			if i > 0 {
				last = bm.Values[i-1].ResultIntValue
			}
			// the smallest power of two above the predecessor
			sv.Assert(sv.And(v > 0, v&(v-1) == 0), "power of two")
			sv.Assert(v > last, "above")
			sv.Assert(sv.Or(v == 1, v>>1 <= last), "smallest")
		case explicit:
			sv.Assert(v == vs[i], "value")
		case sum:
			sv.Assert(v == vs[i]|bm.Values[0].ResultIntValue, "combined")
		case later:
			sv.Assert(v == vs[len(vs)-1], "later")
		}
	}
	sv.Reach("values")
}

// C18_HighBits: up to the highest of 64 bits, after which there is none.
func C18_HighBits() {
	p := ast.NewPackage("p")
	v := sv.I64("value A")
	sv.Assume(v >= 0)
	constant(p, "vA", v)
	bm := &ast.BitmaskType{Name: "T"}
	for i := 0; i < 3; i++ {
		bm.Values = append(bm.Values, &ast.BitmaskValue{Name: names[i]})
	}
	bm.Values[0].Expression = id("vA")
	p.Bitmasks["T"] = bm
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	sv.Section("evaluate")
	err := bm.Evaluate(p)
	if uint64(v) >= 1<<62 {
		sv.Assert(err != nil, "no-bit-left")
		sv.Reach("rejects")
		return
	}
	sv.Assert(err == nil, "accepts")
	last := uint64(v)
	for _, b := range bm.Values[1:] {
		next := uint64(b.ResultIntValue)
		sv.Assert(sv.And(next > 0, next&(next-1) == 0), "power of two")
		sv.Assert(next > last, "above")
		sv.Assert(sv.Or(next == 1, next>>1 <= last), "smallest")
		last = next
	}
	sv.Reach("values")
}
