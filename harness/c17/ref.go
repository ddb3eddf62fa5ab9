package c17

import (
	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/parser"
	"verif/sv"
)

func dot(typ, item string) *ast.Expression {
	return node(parser.ZserioParserDOT, id(typ), &ast.Expression{Type: parser.UnevaluatableExpressionType, Text: item})
}

// C17_Items: the value of an enum item or bitmask value in an expression, whichever is evaluated first.
func C17_Items() {
	v := sv.I64("explicit")
	sv.Assume(sv.And(v >= 0, v < 1<<40))
	isEnum := sv.Choose("kind", 2) == 0
	names := []string{"A", "B", "C", "D"}
	item := sv.Choose("item", 4)
	imported := sv.Choose("imported", 2) == 1
	evaluated := sv.Choose("evaluated", 2) == 1
	explicit := func(i int) *ast.Expression {
		if i == 2 {
			return id("x")
		}
		return nil
	}

	// A, B, C = x, D
	p := scope(map[string]val{"x": {i: v}})
	scopeOf := p
	want := []int64{0, 1, v, v + 1}[item]
	if isEnum {
		en := &ast.Enum{Name: "E"}
		for i, n := range names {
			en.AddItem(&ast.EnumItem{Name: n, Expression: explicit(i)})
		}
		p.Enums["E"] = en
	} else {
		bm := &ast.BitmaskType{Name: "E"}
		for i, n := range names {
			bm.Values = append(bm.Values, &ast.BitmaskValue{Name: n, Expression: explicit(i)})
		}
		p.Bitmasks["E"] = bm
		want = []int64{1, 2, v, 0}[item]
	}
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	if imported {
		// the importing package has another x
		q := scope(map[string]val{"x": {i: 7}})
		q.Name = "q"
		q.ImportedPackages = append(q.ImportedPackages, p)
		scopeOf = q
	}
	if evaluated {
		if isEnum {
			sv.Assert(p.Enums["E"].Evaluate(p) == nil, "evaluate enum")
		} else {
			sv.Assert(p.Bitmasks["E"].Evaluate(p) == nil, "evaluate bitmask")
		}
	}
	e := dot("E", names[item])
	sv.Section("evaluate")
	sv.Assert(e.Evaluate(scopeOf) == nil, "accepts")
	if !isEnum && item == 3 {
		sv.Assert(sv.And(e.ResultIntValue > v, e.ResultIntValue&(e.ResultIntValue-1) == 0), "next power")
	} else {
		sv.Assert(e.ResultIntValue == want, "value")
	}
	if isEnum {
		value := node(parser.ZserioParserVALUEOF, dot("E", names[item]))
		sv.Assert(value.Evaluate(scopeOf) == nil, "accepts valueof")
		sv.Assert(value.ResultIntValue == want, "valueof")
		// compared with a number, the value counts
		y := sv.I64("y")
		scopeOf.Consts["y"] = &ast.Const{Name: "y", ValueExpression: val{i: y}.expression()}
		sv.Assert(scopeOf.CollectSymbols() == nil, "symbols")
		sum := node(parser.ZserioParserPLUS, dot("E", names[item]), id("y"))
		sv.Assert(sum.Evaluate(scopeOf) == nil, "accepts sum")
		sv.Assert(sum.ResultIntValue == want+y, "sum")
		sv.Reach("enum")
	} else {
		sv.Reach("bitmask")
	}
}

// C17_IsSet: isset() on constant bitmask values.
func C17_IsSet() {
	x, y := sv.I64("a"), sv.I64("b")
	p := scope(map[string]val{"x": {i: x}, "y": {i: y}})
	p.Bitmasks["M"] = &ast.BitmaskType{Name: "M", Values: []*ast.BitmaskValue{
		{Name: "A", Expression: id("x")}, {Name: "B", Expression: id("y")},
	}}
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	op := []int{parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR}[sv.Choose("operator", 3)]
	e := node(op, dot("M", "A"), dot("M", "B"))
	sv.Section("evaluate")
	sv.Assert(e.Evaluate(p) == nil, "accepts")
	want, _ := binary(op, val{i: x}, val{i: y})
	sv.Assert(e.ResultType == ast.ExpressionTypeBitmask, "type")
	sv.Assert(e.ResultIntValue == want.i, "value")
}

// C17_Constants: constants that refer to constants, in their own or an imported package, in any order of evaluation.
func C17_Constants() {
	v, w := sv.I64("v"), sv.I64("w")
	op := ops[sv.Choose("operator", integerOps)]
	want, ok := binary(op, val{i: v}, val{i: w})
	p := scope(map[string]val{"v": {i: v}, "w": {i: w}})
	c := &ast.Const{Name: "c", ValueExpression: node(op, id("v"), id("w"))}
	d := &ast.Const{Name: "d", ValueExpression: node(parser.ZserioParserLPAREN, id("c"))}
	p.Consts["c"], p.Consts["d"] = c, d
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	scopeOf := p
	if sv.Choose("imported", 2) == 1 {
		q := scope(map[string]val{"v": {i: 1}, "w": {i: 2}})
		q.Name = "q"
		q.ImportedPackages = append(q.ImportedPackages, p)
		scopeOf = q
	}
	if sv.Choose("order", 2) == 1 {
		sv.Assert((c.Evaluate(p) == nil) == ok, "const")
	}
	e := id("d")
	sv.Section("evaluate")
	err := e.Evaluate(scopeOf)
	if !ok {
		sv.Assert(err != nil, "rejects")
		sv.Reach("rejected")
		return
	}
	sv.Assert(err == nil, "accepts")
	same(e, want)
	sv.Reach("value")
}

// C17_Cycles: constants and items that depend on themselves are an error.
func C17_Cycles() {
	p := scope(nil)
	a := &ast.Const{Name: "a", ValueExpression: node(parser.ZserioParserPLUS, id("b"), id("b"))}
	b := &ast.Const{Name: "b", ValueExpression: id("a")}
	p.Consts["a"], p.Consts["b"] = a, b
	en := &ast.Enum{Name: "E"}
	en.AddItem(&ast.EnumItem{Name: "A", Expression: dot("E", "B")})
	en.AddItem(&ast.EnumItem{Name: "B"})
	p.Enums["E"] = en
	bm := &ast.BitmaskType{Name: "M", Values: []*ast.BitmaskValue{{Name: "A", Expression: dot("M", "B")}, {Name: "B"}}}
	p.Bitmasks["M"] = bm
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	switch sv.Choose("cycle", 4) {
	case 0:
		sv.Assert(a.Evaluate(p) != nil, "constants")
	case 1:
		sv.Assert(b.Evaluate(p) != nil, "constants")
	case 2:
		sv.Assert(en.Evaluate(p) != nil, "enum")
	case 3:
		sv.Assert(bm.Evaluate(p) != nil, "bitmask")
	}
}
