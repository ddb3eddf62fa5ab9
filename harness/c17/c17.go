// Package c17: evaluation of constant expressions by the generator.
//
//sv:bound every operator on every pair of 64 bit integers, 64 bit floats, booleans and strings of up to 2 bytes; factors of a product within 32 bits (thorough: the sums and shifts they are nested in are not limited)
//sv:bound every pair of nested integer operators in both tree shapes, for all 64 bit operands
//sv:bound literals: decimal up to 4 and of 9 digits (thorough: up to 19), hexadecimal up to 4 and of 16 (in four patterns of letters and decimal digits), octal up to 4 and of 21, binary up to 8 and of 64 digits (thorough: every length in between); string literals of up to 3 symbolic characters and one escape sequence of each kind
//sv:bound references: enum items and bitmask values with explicit and implicit values, constants of the same and of an imported package
//sv:assume the value of the expression and of its parts is representable in 64 bits (others are rejected or wrap)
package c17

import (
	"math"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/parser"
	"verif/sv"
)

const (
	kInt = iota
	kFloat
	kBool
	kString
)

// val is a value of one of the kinds.
type val struct {
	kind int
	i    int64
	f    float64
	b    bool
	s    string
}

func symbolic(name string, kind int) val {
	v := val{kind: kind}
	switch kind {
	case kInt:
		v.i = sv.I64(name)
	case kFloat:
		v.f = sv.F64(name)
	case kBool:
		v.b = sv.Bool(name)
	case kString:
		v.s = sv.Str(name, sv.Choose("len "+name, 3))
	}
	return v
}

func (v val) expression() *ast.Expression {
	return &ast.Expression{
		EvaluationState:   ast.EvaluationStateComplete,
		FullyResolved:     true,
		ResultType:        []ast.ExpressionType{ast.ExpressionTypeInteger, ast.ExpressionTypeFloat, ast.ExpressionTypeBool, ast.ExpressionTypeString}[v.kind],
		ResultIntValue:    v.i,
		ResultFloatValue:  v.f,
		ResultBoolValue:   v.b,
		ResultStringValue: v.s,
	}
}

// scope is a package with a constant for each value.
func scope(vs map[string]val) *ast.Package {
	p := ast.NewPackage("p")
	for n, v := range vs {
		p.Consts[n] = &ast.Const{Name: n, ValueExpression: v.expression()}
	}
	sv.Assert(p.CollectSymbols() == nil, "symbols")
	return p
}

func id(name string) *ast.Expression {
	return &ast.Expression{Type: parser.ZserioParserID, Text: name}
}

func node(op int, x ...*ast.Expression) *ast.Expression {
	e := &ast.Expression{Type: op, Operand1: x[0]}
	if len(x) > 1 {
		e.Operand2 = x[1]
	}
	if len(x) > 2 {
		e.Operand3 = x[2]
	}
	return e
}

// same asserts that the expression has the value.
func same(e *ast.Expression, want val) {
	switch want.kind {
	case kInt:
		sv.Assert(e.ResultType == ast.ExpressionTypeInteger, "type")
		sv.Assert(e.ResultIntValue == want.i, "value")
	case kFloat:
		sv.Assert(e.ResultType == ast.ExpressionTypeFloat, "type")
		sv.Assert(sv.Or(math.Float64bits(e.ResultFloatValue) == math.Float64bits(want.f), sv.And(e.ResultFloatValue != e.ResultFloatValue, want.f != want.f)), "value")
	case kBool:
		sv.Assert(e.ResultType == ast.ExpressionTypeBool, "type")
		sv.Assert(e.ResultBoolValue == want.b, "value")
	case kString:
		sv.Assert(e.ResultType == ast.ExpressionTypeString, "type")
		sv.Assert(e.ResultStringValue == want.s, "value")
	}
	sv.Assert(e.FullyResolved, "resolved")
}

var ops = []int{
	parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
	parser.ZserioParserLSHIFT, parser.ZserioParserRSHIFT, parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR,
	parser.ZserioParserLT, parser.ZserioParserLE, parser.ZserioParserGT, parser.ZserioParserGE, parser.ZserioParserEQ, parser.ZserioParserNE,
	parser.ZserioParserLOGICAL_AND, parser.ZserioParserLOGICAL_OR,
}

const integerOps = 10

// binary is the value of an operation, or false if it has none.
func binary(op int, x, y val) (val, bool) {
	switch op {
	case parser.ZserioParserLOGICAL_AND, parser.ZserioParserLOGICAL_OR:
		if x.kind != kBool || y.kind != kBool {
			return val{}, false
		}
		if op == parser.ZserioParserLOGICAL_AND {
			return val{kind: kBool, b: sv.And(x.b, y.b)}, true
		}
		return val{kind: kBool, b: sv.Or(x.b, y.b)}, true
	case parser.ZserioParserEQ, parser.ZserioParserNE:
		if x.kind != y.kind || x.kind == kFloat {
			return val{}, false
		}
		eq := false
		switch x.kind {
		case kInt:
			eq = x.i == y.i
		case kBool:
			eq = x.b == y.b
		case kString:
			eq = x.s == y.s
		}
		return val{kind: kBool, b: eq == (op == parser.ZserioParserEQ)}, true
	case parser.ZserioParserLT, parser.ZserioParserLE, parser.ZserioParserGT, parser.ZserioParserGE:
		if x.kind != y.kind || x.kind == kBool || x.kind == kString {
			return val{}, false
		}
		if op == parser.ZserioParserGT || op == parser.ZserioParserGE {
			x, y = y, x
		}
		less := x.i < y.i
		equal := x.i == y.i
		if x.kind == kFloat {
			less, equal = x.f < y.f, x.f == y.f
		}
		if op == parser.ZserioParserLE || op == parser.ZserioParserGE {
			less = sv.Or(less, equal)
		}
		return val{kind: kBool, b: less}, true
	case parser.ZserioParserLSHIFT, parser.ZserioParserRSHIFT, parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR, parser.ZserioParserMODULO:
		if x.kind != kInt || y.kind != kInt {
			return val{}, false
		}
		r := int64(0)
		switch op {
		case parser.ZserioParserMODULO:
			if y.i == 0 {
				return val{}, false
			}
			r = x.i % y.i
		case parser.ZserioParserLSHIFT, parser.ZserioParserRSHIFT:
			if y.i < 0 {
				return val{}, false
			}
			if op == parser.ZserioParserRSHIFT {
				r = x.i >> uint64(y.i)
				break
			}
			r = x.i << uint64(y.i)
			sv.Assume(sv.And(y.i < 64, r>>uint64(y.i) == x.i))
		case parser.ZserioParserAND:
			r = x.i & y.i
		case parser.ZserioParserOR:
			r = x.i | y.i
		case parser.ZserioParserXOR:
			r = x.i ^ y.i
		}
		return val{kind: kInt, i: r}, true
	}
	// + - * /
	if x.kind == kString && y.kind == kString && op == parser.ZserioParserPLUS {
		return val{kind: kString, s: x.s + y.s}, true
	}
	if x.kind > kFloat || y.kind > kFloat {
		return val{}, false
	}
	if x.kind == kInt && y.kind == kInt {
		r := int64(0)
		switch op {
		case parser.ZserioParserPLUS:
			r = x.i + y.i
			sv.Assume((x.i^r)&(y.i^r) >= 0)
		case parser.ZserioParserMINUS:
			r = x.i - y.i
			sv.Assume((x.i^y.i)&(x.i^r) >= 0)
		case parser.ZserioParserMULTIPLY:
			sv.Assume(sv.And(x.i == int64(int32(x.i)), y.i == int64(int32(y.i))))
			r = x.i * y.i
		case parser.ZserioParserDIVIDE:
			if y.i == 0 {
				return val{}, false
			}
			sv.Assume(sv.Or(x.i != math.MinInt64, y.i != -1))
			r = x.i / y.i
		}
		return val{kind: kInt, i: r}, true
	}
	if x.kind == kInt {
		x.f = float64(x.i)
	}
	if y.kind == kInt {
		y.f = float64(y.i)
	}
	f := 0.0
	switch op {
	case parser.ZserioParserPLUS:
		f = x.f + y.f
	case parser.ZserioParserMINUS:
		f = x.f - y.f
	case parser.ZserioParserMULTIPLY:
		f = x.f * y.f
	case parser.ZserioParserDIVIDE:
		if y.f == 0 {
			return val{}, false
		}
		f = x.f / y.f
	}
	return val{kind: kFloat, f: f}, true
}

func checkBinary(op int, x, y val) {
	want, ok := binary(op, x, y)
	p := scope(map[string]val{"a": x, "b": y})
	e := node(op, id("a"), id("b"))
	sv.Section("evaluate")
	err := e.Evaluate(p)
	if !ok {
		sv.Assert(err != nil, "rejects")
		sv.Reach("rejected")
		return
	}
	sv.Assert(err == nil, "accepts")
	same(e, want)
	sv.Reach("value")
}

// C17_Integers: every operator on every two integers.
func C17_Integers() {
	checkBinary(ops[sv.Choose("operator", len(ops))], symbolic("a", kInt), symbolic("b", kInt))
}

// C17_Kinds: every operator on values of every two other kinds.
func C17_Kinds() {
	x := sv.Choose("kind a", 4)
	y := sv.Choose("kind b", 4)
	if x == kInt && y == kInt {
		return
	}
	checkBinary(ops[sv.Choose("operator", len(ops))], symbolic("a", x), symbolic("b", y))
}

// C17_Unary: the operators with one operand.
func C17_Unary() {
	x := symbolic("a", sv.Choose("kind", 4))
	p := scope(map[string]val{"a": x})
	want := x
	ok := true
	op := []int{parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserTILDE, parser.ZserioParserBANG, parser.ZserioParserLPAREN, parser.ZserioParserNUMBITS}[sv.Choose("operator", 6)]
	switch op {
	case parser.ZserioParserPLUS:
		ok = x.kind <= kFloat
	case parser.ZserioParserMINUS:
		ok = x.kind <= kFloat
		want.i, want.f = -x.i, -x.f
		sv.Assume(x.i != math.MinInt64)
	case parser.ZserioParserTILDE:
		ok = x.kind == kInt
		want.i = -1 - x.i
	case parser.ZserioParserBANG:
		ok = x.kind == kBool
		want.b = x.b == false
	case parser.ZserioParserNUMBITS:
		ok = x.kind == kInt
		sv.Assume(x.i >= 0)
	}
	e := node(op, id("a"))
	sv.Section("evaluate")
	err := e.Evaluate(p)
	if !ok {
		sv.Assert(err != nil, "rejects")
		sv.Reach("rejected")
		return
	}
	sv.Assert(err == nil, "accepts")
	sv.Reach("value")
	if op == parser.ZserioParserNUMBITS {
		// the smallest number of bits that hold the values below the operand
		n := uint64(e.ResultIntValue)
		sv.Assert(e.ResultType == ast.ExpressionTypeInteger, "type")
		sv.Assert(n <= 63, "numbits range")
		sv.Assert((x.i == 0) == (n == 0), "numbits zero")
		sv.Assert(uint64(1)<<n >= uint64(x.i), "numbits enough")
		sv.Assert(sv.Or(n <= 1, uint64(1)<<(n-1) < uint64(x.i)), "numbits least")
		return
	}
	same(e, want)
}

// C17_Ternary: both branches with values of every kind.
func C17_Ternary() {
	c := symbolic("c", sv.Choose("condition", 4))
	k := sv.Choose("kind", 4)
	x, y := symbolic("a", k), symbolic("b", k)
	p := scope(map[string]val{"a": x, "b": y, "c": c})
	e := node(parser.ZserioParserQUESTIONMARK, id("c"), id("a"), id("b"))
	sv.Section("evaluate")
	err := e.Evaluate(p)
	if c.kind != kBool {
		sv.Assert(err != nil, "rejects")
		return
	}
	sv.Assert(err == nil, "accepts")
	if c.b {
		same(e, x)
		sv.Reach("first")
	} else {
		same(e, y)
		sv.Reach("second")
	}
}

// C17_Nested: two operators in both tree shapes.
func C17_Nested() {
	a, b, c := symbolic("a", kInt), symbolic("b", kInt), symbolic("c", kInt)
	inner := ops[sv.Choose("inner", integerOps)]
	outer := ops[sv.Choose("outer", integerOps+6)]
	left := sv.Choose("shape", 2) == 0
	p := scope(map[string]val{"a": a, "b": b, "c": c})
	var e *ast.Expression
	var want val
	ok := true
	if left {
		e = node(outer, node(parser.ZserioParserLPAREN, node(inner, id("a"), id("b"))), id("c"))
		if want, ok = binary(inner, a, b); ok {
			want, ok = binary(outer, want, c)
		}
	} else {
		e = node(outer, id("a"), node(inner, id("b"), id("c")))
		if want, ok = binary(inner, b, c); ok {
			want, ok = binary(outer, a, want)
		}
	}
	sv.Section("evaluate")
	err := e.Evaluate(p)
	if !ok {
		sv.Assert(err != nil, "rejects")
		sv.Reach("rejected")
		return
	}
	sv.Assert(err == nil, "accepts")
	same(e, want)
	sv.Reach("value")
}
