package main

import (
	"math"
	"strings"
)

// Model assigns values to variables.
type Model map[string]uint64

// Evaluator evaluates terms under a model, memoised by term id.
type Evaluator struct {
	m    Model
	memo map[int32]uint64
}

func NewEvaluator(m Model) *Evaluator { return &Evaluator{m: m, memo: map[int32]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t.name] & boolMask(t.w)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.eval(t) & boolMask(t.w)
	e.memo[t.id] = v
	return v
}

func (e *Evaluator) eval(t *Term) uint64 {
	if t.op == OIte {
		if e.Eval(t.args[0]) == 1 {
			return e.Eval(t.args[1])
		}
		return e.Eval(t.args[2])
	}
	if t.op == OConcat {
		var r uint64
		for _, a := range t.args {
			if a.w >= 64 {
				r = e.Eval(a)
			} else {
				r = r<<a.w | e.Eval(a)
			}
		}
		return r
	}
	if t.op == OFp {
		vs := make([]uint64, len(t.args))
		for i, a := range t.args {
			vs[i] = e.Eval(a)
		}
		return evalFp(t, vs)
	}
	x := e.Eval(t.args[0])
	var y uint64
	var w uint8 = t.args[0].w
	if len(t.args) > 1 {
		y = e.Eval(t.args[1])
	}
	switch t.op {
	case ONot:
		return 1 - x
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2u(x == y)
	case OAdd:
		return x + y
	case OSub:
		return x - y
	case OMul:
		return x * y
	case OUDiv:
		if y == 0 {
			return ^uint64(0)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := signExt(x, w), signExt(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if b == -1 {
			return uint64(-a)
		}
		return uint64(a / b)
	case OSRem:
		a, b := signExt(x, w), signExt(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a % b)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x
	case ONeg:
		return -x
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(signExt(x, w) >> y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(signExt(x, w) < signExt(y, w))
	case OSle:
		return b2u(signExt(x, w) <= signExt(y, w))
	case OExtract:
		return x >> t.b
	case OSext:
		return uint64(signExt(x, w))
	}
	panic("eval: op")
}

func fval(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalFp(t *Term, v []uint64) uint64 {
	fw := t.args[0].w
	switch strings.Split(t.name, ":")[0] {
	case "add":
		if fw == 32 {
			return uint64(math.Float32bits(math.Float32frombits(uint32(v[0])) + math.Float32frombits(uint32(v[1]))))
		}
		return fbits(fval(v[0], fw)+fval(v[1], fw), fw)
	case "sub":
		if fw == 32 {
			return uint64(math.Float32bits(math.Float32frombits(uint32(v[0])) - math.Float32frombits(uint32(v[1]))))
		}
		return fbits(fval(v[0], fw)-fval(v[1], fw), fw)
	case "mul":
		if fw == 32 {
			return uint64(math.Float32bits(math.Float32frombits(uint32(v[0])) * math.Float32frombits(uint32(v[1]))))
		}
		return fbits(fval(v[0], fw)*fval(v[1], fw), fw)
	case "div":
		if fw == 32 {
			return uint64(math.Float32bits(math.Float32frombits(uint32(v[0])) / math.Float32frombits(uint32(v[1]))))
		}
		return fbits(fval(v[0], fw)/fval(v[1], fw), fw)
	case "lt":
		return b2u(fval(v[0], fw) < fval(v[1], fw))
	case "le":
		return b2u(fval(v[0], fw) <= fval(v[1], fw))
	case "eq":
		return b2u(fval(v[0], fw) == fval(v[1], fw))
	case "f2f":
		return fbits(fval(v[0], fw), t.w)
	case "s2f":
		if t.w == 32 {
			return uint64(math.Float32bits(float32(signExt(v[0], fw))))
		}
		return math.Float64bits(float64(signExt(v[0], fw)))
	case "u2f":
		if t.w == 32 {
			return uint64(math.Float32bits(float32(v[0])))
		}
		return math.Float64bits(float64(v[0]))
	case "f2s":
		return uint64(int64(fval(v[0], fw))) & mask(t.w)
	case "f2u":
		return uint64(fval(v[0], fw)) & mask(t.w)
	}
	panic("evalFp")
}
