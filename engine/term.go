package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator. Bool terms have width 0, bit-vector terms 1..64 (the
// intermediate concatenations of multi-word values never exceed 64 bits).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat  // n-ary, most significant first
	OExtract // a = hi, b = lo
	OSext
	OFp // floating point operation; name holds the kind
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

// Term is a hash-consed SMT term. Terms belong to one TermTable.
type Term struct {
	op   Op
	w    uint8
	a, b uint8
	val  uint64
	name string
	args []*Term
	id   int32
	h    uint64 // structural hash, orders commutative operands the same way in every table
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

// signExt interprets v as a w bit two's complement number.
func signExt(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// TermTable hash-conses terms.
type TermTable struct {
	m      map[string]*Term
	next   int32
	noSimp bool
	tt, ff *Term
	keybuf []byte
	fpSize map[int32]int
}

func NewTermTable(noSimp bool) *TermTable {
	tb := &TermTable{m: map[string]*Term{}, noSimp: noSimp}
	tb.tt = tb.mk(Term{op: OConst, w: 0, val: 1})
	tb.ff = tb.mk(Term{op: OConst, w: 0, val: 0})
	return tb
}

func (tb *TermTable) mk(t Term) *Term {
	k := tb.keybuf[:0]
	k = append(k, byte(t.op), t.w, t.a, t.b)
	k = strconv.AppendUint(k, t.val, 36)
	if t.name != "" {
		k = append(k, '|')
		k = append(k, t.name...)
	}
	for _, a := range t.args {
		k = append(k, ',')
		k = strconv.AppendInt(k, int64(a.id), 36)
	}
	tb.keybuf = k
	if r, ok := tb.m[string(k)]; ok {
		return r
	}
	n := t
	n.h = structHash(&n)
	n.id = tb.next
	tb.next++
	tb.m[string(k)] = &n
	return &n
}

func structHash(t *Term) uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) {
		h ^= v
		h *= 1099511628211
		h ^= h >> 29
	}
	mix(uint64(t.op)<<24 | uint64(t.w)<<16 | uint64(t.a)<<8 | uint64(t.b))
	mix(t.val)
	for i := 0; i < len(t.name); i++ {
		mix(uint64(t.name[i]))
	}
	for _, a := range t.args {
		mix(a.h)
	}
	return h
}

func (tb *TermTable) Const(v uint64, w uint8) *Term {
	return tb.mk(Term{op: OConst, w: w, val: v & mask(w)})
}
func (tb *TermTable) Bool(b bool) *Term {
	if b {
		return tb.tt
	}
	return tb.ff
}
func (tb *TermTable) Var(name string, w uint8) *Term {
	return tb.mk(Term{op: OVar, w: w, name: name})
}

func (tb *TermTable) Not(x *Term) *Term {
	if x.isConst() {
		return tb.Bool(x.val == 0)
	}
	if x.op == ONot {
		return x.args[0]
	}
	if !tb.noSimp {
		switch x.op {
		case OUlt:
			return tb.Ule(x.args[1], x.args[0])
		case OUle:
			return tb.Ult(x.args[1], x.args[0])
		case OSlt:
			return tb.Sle(x.args[1], x.args[0])
		case OSle:
			return tb.Slt(x.args[1], x.args[0])
		}
	}
	return tb.mk(Term{op: ONot, args: []*Term{x}})
}

func (tb *TermTable) And(x, y *Term) *Term {
	switch {
	case x.isFalse() || y.isFalse():
		return tb.ff
	case x.isTrue():
		return y
	case y.isTrue():
		return x
	case x == y:
		return x
	}
	if (x.op == ONot && x.args[0] == y) || (y.op == ONot && y.args[0] == x) {
		return tb.ff
	}
	return tb.mk(Term{op: OAnd, args: []*Term{x, y}})
}

func (tb *TermTable) Or(x, y *Term) *Term {
	switch {
	case x.isTrue() || y.isTrue():
		return tb.tt
	case x.isFalse():
		return y
	case y.isFalse():
		return x
	case x == y:
		return x
	}
	if (x.op == ONot && x.args[0] == y) || (y.op == ONot && y.args[0] == x) {
		return tb.tt
	}
	return tb.mk(Term{op: OOr, args: []*Term{x, y}})
}

func (tb *TermTable) Eq(x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x == y {
		return tb.tt
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(x.val == y.val)
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return tb.Not(x)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if !tb.noSimp && y.isConst() && x.w > 0 {
		switch x.op {
		case OIte:
			a, b := x.args[1], x.args[2]
			if a.isConst() && b.isConst() {
				switch {
				case a.val == y.val && b.val == y.val:
					return tb.tt
				case a.val == y.val:
					return x.args[0]
				case b.val == y.val:
					return tb.Not(x.args[0])
				default:
					return tb.ff
				}
			}
		case OConcat:
			// split off constant segments
			rem := x.w
			var rest []*Term
			var restV []uint64
			changed := false
			for _, s := range x.args {
				rem -= s.w
				v := (y.val >> rem) & mask(s.w)
				if s.isConst() {
					if s.val != v {
						return tb.ff
					}
					changed = true
					continue
				}
				rest = append(rest, s)
				restV = append(restV, v)
			}
			if changed {
				r := tb.tt
				for i, s := range rest {
					r = tb.And(r, tb.Eq(s, tb.Const(restV[i], s.w)))
				}
				return r
			}
		}
	}
	if !tb.noSimp && x.op == OConcat && y.op == OConcat && len(x.args) == len(y.args) {
		same := true
		for i := range x.args {
			if x.args[i].w != y.args[i].w {
				same = false
				break
			}
		}
		if same {
			r := tb.tt
			for i := range x.args {
				r = tb.And(r, tb.Eq(x.args[i], y.args[i]))
			}
			return r
		}
	}
	if x.h > y.h && !y.isConst() {
		x, y = y, x
	}
	return tb.mk(Term{op: OEq, args: []*Term{x, y}})
}

func (tb *TermTable) Ite(c, x, y *Term) *Term {
	if x.w != y.w {
		panic("Ite width mismatch")
	}
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() {
			return tb.Or(c, y)
		}
		if x.isFalse() {
			return tb.And(tb.Not(c), y)
		}
		if y.isTrue() {
			return tb.Or(tb.Not(c), x)
		}
		if y.isFalse() {
			return tb.And(c, x)
		}
	}
	if c.op == ONot {
		return tb.Ite(c.args[0], y, x)
	}
	return tb.mk(Term{op: OIte, w: x.w, args: []*Term{c, x, y}})
}

// umax is a cheap upper bound of the unsigned value of x.
func umax(x *Term) uint64 {
	switch x.op {
	case OConst:
		return x.val
	case OConcat:
		i := 0
		w := x.w
		for i < len(x.args) && x.args[i].isConst() && x.args[i].val == 0 {
			w -= x.args[i].w
			i++
		}
		return mask(w)
	case OIte:
		return max(umax(x.args[1]), umax(x.args[2]))
	case OBAnd:
		return min(umax(x.args[0]), umax(x.args[1]))
	case OURem:
		if x.args[1].isConst() && x.args[1].val > 0 {
			return x.args[1].val - 1
		}
	case OAdd:
		a, b := umax(x.args[0]), umax(x.args[1])
		if a <= mask(x.w)-b {
			return a + b
		}
	case OUDiv:
		if x.args[1].isConst() && x.args[1].val > 0 {
			return umax(x.args[0]) / x.args[1].val
		}
	}
	return mask(x.w)
}

func (tb *TermTable) Ult(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tb.Bool(x.val < y.val)
	}
	if x == y {
		return tb.ff
	}
	if y.isConst() && y.val == 0 {
		return tb.ff
	}
	if !tb.noSimp {
		if y.isConst() && umax(x) < y.val {
			return tb.tt
		}
		if x.isConst() && umax(y) <= x.val {
			return tb.ff
		}
	}
	return tb.mk(Term{op: OUlt, args: []*Term{x, y}})
}

func (tb *TermTable) Ule(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tb.Bool(x.val <= y.val)
	}
	if x == y {
		return tb.tt
	}
	if x.isConst() && x.val == 0 {
		return tb.tt
	}
	if !tb.noSimp {
		if y.isConst() && umax(x) <= y.val {
			return tb.tt
		}
		if x.isConst() && umax(y) < x.val {
			return tb.ff
		}
	}
	return tb.mk(Term{op: OUle, args: []*Term{x, y}})
}

func nonNeg(x *Term) bool { return umax(x) <= mask(x.w)>>1 }

func (tb *TermTable) Slt(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tb.Bool(signExt(x.val, x.w) < signExt(y.val, y.w))
	}
	if x == y {
		return tb.ff
	}
	if !tb.noSimp {
		if nonNeg(x) && nonNeg(y) {
			return tb.Ult(x, y)
		}
		if y.isConst() && y.val == 0 && nonNeg(x) {
			return tb.ff
		}
	}
	return tb.mk(Term{op: OSlt, args: []*Term{x, y}})
}

func (tb *TermTable) Sle(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tb.Bool(signExt(x.val, x.w) <= signExt(y.val, y.w))
	}
	if x == y {
		return tb.tt
	}
	if !tb.noSimp {
		if nonNeg(x) && nonNeg(y) {
			return tb.Ule(x, y)
		}
	}
	return tb.mk(Term{op: OSle, args: []*Term{x, y}})
}

func (tb *TermTable) Extract(hi, lo uint8, x *Term) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	if x.isConst() {
		return tb.Const(x.val>>lo, w)
	}
	if !tb.noSimp {
		switch x.op {
		case OExtract:
			return tb.Extract(hi+x.b, lo+x.b, x.args[0])
		case OConcat:
			return tb.concat(sliceSegs(tb, x.args, x.w, hi, lo))
		case OBAnd, OBOr, OBXor:
			return tb.bitop(x.op, tb.Extract(hi, lo, x.args[0]), tb.Extract(hi, lo, x.args[1]))
		case OBNot:
			return tb.BNot(tb.Extract(hi, lo, x.args[0]))
		case OIte:
			if x.args[1].isConst() || x.args[2].isConst() {
				return tb.Ite(x.args[0], tb.Extract(hi, lo, x.args[1]), tb.Extract(hi, lo, x.args[2]))
			}
		case OSext:
			in := x.args[0]
			if hi < in.w {
				return tb.Extract(hi, lo, in)
			}
			if lo == 0 {
				return tb.Sext(in, w)
			}
		case OAdd, OSub, OMul:
			if lo == 0 {
				return tb.arith(x.op, tb.Extract(hi, 0, x.args[0]), tb.Extract(hi, 0, x.args[1]))
			}
		case ONeg:
			if lo == 0 {
				return tb.Neg(tb.Extract(hi, 0, x.args[0]))
			}
		}
	}
	return tb.mk(Term{op: OExtract, w: w, a: hi, b: lo, args: []*Term{x}})
}

// sliceSegs returns the segments of bits hi..lo of the concatenation segs of width w.
func sliceSegs(tb *TermTable, segs []*Term, w, hi, lo uint8) []*Term {
	var out []*Term
	top := int(w)
	for _, s := range segs {
		bot := top - int(s.w)
		h, l := min(int(hi), top-1), max(int(lo), bot)
		if h >= l {
			out = append(out, tb.Extract(uint8(h-bot), uint8(l-bot), s))
		}
		top = bot
	}
	return out
}

// concat builds a canonical concatenation of the segments, most significant first.
func (tb *TermTable) concat(segs []*Term) *Term {
	var out []*Term
	w := 0
	var add func(s *Term)
	add = func(s *Term) {
		if s.op == OConcat && !tb.noSimp {
			for _, a := range s.args {
				add(a)
			}
			return
		}
		w += int(s.w)
		if n := len(out); n > 0 && !tb.noSimp {
			p := out[n-1]
			if p.isConst() && s.isConst() {
				out[n-1] = tb.Const(p.val<<s.w|s.val, p.w+s.w)
				return
			}
			if p.op == OExtract {
				if s.op == OExtract && s.args[0] == p.args[0] && p.b == s.a+1 {
					out[n-1] = tb.Extract(p.a, s.b, p.args[0])
					return
				}
			}
		}
		out = append(out, s)
	}
	for _, s := range segs {
		add(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	return tb.mk(Term{op: OConcat, w: uint8(w), args: out})
}

func (tb *TermTable) Zext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return tb.Extract(w-1, 0, x)
	}
	if x.isConst() {
		return tb.Const(x.val, w)
	}
	return tb.concat([]*Term{tb.Const(0, w-x.w), x})
}

func (tb *TermTable) Sext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return tb.Extract(w-1, 0, x)
	}
	if x.isConst() {
		return tb.Const(uint64(signExt(x.val, x.w)), w)
	}
	if !tb.noSimp {
		if nonNeg(x) {
			return tb.Zext(x, w)
		}
		if x.op == OSext {
			x = x.args[0]
		}
	}
	return tb.mk(Term{op: OSext, w: w, args: []*Term{x}})
}

func (tb *TermTable) arith(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic("arith width mismatch")
	}
	if x.isConst() && y.isConst() {
		switch op {
		case OAdd:
			return tb.Const(x.val+y.val, w)
		case OSub:
			return tb.Const(x.val-y.val, w)
		case OMul:
			return tb.Const(x.val*y.val, w)
		}
	}
	switch op {
	case OAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.val == 0 {
			return x
		}
		if !tb.noSimp && y.isConst() && x.op == OAdd && x.args[1].isConst() {
			return tb.arith(OAdd, x.args[0], tb.Const(x.args[1].val+y.val, w))
		}
		if !tb.noSimp && x.op == OSub && x.args[1] == y {
			return x.args[0]
		}
		if !tb.noSimp && y.op == OSub && y.args[1] == x {
			return y.args[0]
		}
	case OSub:
		if y.isConst() {
			return tb.arith(OAdd, x, tb.Const(-y.val, w))
		}
		if x == y {
			return tb.Const(0, w)
		}
		if !tb.noSimp && x.op == OAdd {
			if x.args[0] == y {
				return x.args[1]
			}
			if x.args[1] == y {
				return x.args[0]
			}
		}
	case OMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if !tb.noSimp && bits.OnesCount64(y.val) == 1 {
				return tb.ShlC(x, uint8(bits.TrailingZeros64(y.val)))
			}
		}
	}
	if (op == OAdd || op == OMul) && !y.isConst() && x.h > y.h {
		x, y = y, x
	}
	return tb.mk(Term{op: op, w: w, args: []*Term{x, y}})
}
func (tb *TermTable) Add(x, y *Term) *Term { return tb.arith(OAdd, x, y) }
func (tb *TermTable) Sub(x, y *Term) *Term { return tb.arith(OSub, x, y) }
func (tb *TermTable) Mul(x, y *Term) *Term { return tb.arith(OMul, x, y) }

func (tb *TermTable) Neg(x *Term) *Term {
	if x.isConst() {
		return tb.Const(-x.val, x.w)
	}
	if x.op == ONeg {
		return x.args[0]
	}
	return tb.mk(Term{op: ONeg, w: x.w, args: []*Term{x}})
}

func (tb *TermTable) BNot(x *Term) *Term {
	if x.isConst() {
		return tb.Const(^x.val, x.w)
	}
	if x.op == OBNot {
		return x.args[0]
	}
	return tb.mk(Term{op: OBNot, w: x.w, args: []*Term{x}})
}

// divrem: y is assumed nonzero by the caller (Go panics before).
func (tb *TermTable) divrem(op Op, x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() && y.val != 0 {
		switch op {
		case OUDiv:
			return tb.Const(x.val/y.val, w)
		case OURem:
			return tb.Const(x.val%y.val, w)
		case OSDiv:
			a, b := signExt(x.val, w), signExt(y.val, w)
			if b == -1 {
				return tb.Const(uint64(-a), w)
			}
			return tb.Const(uint64(a/b), w)
		case OSRem:
			a, b := signExt(x.val, w), signExt(y.val, w)
			if b == -1 {
				return tb.Const(0, w)
			}
			return tb.Const(uint64(a%b), w)
		}
	}
	if !tb.noSimp && w > 1 {
		if (op == OSDiv || op == OSRem) && nonNeg(x) && nonNeg(y) {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
		if op == OUDiv || op == OURem { // divide in the width the operands need
			if n := uint8(bits.Len64(max(umax(x), umax(y), 1))); n < w && !x.isConst() {
				return tb.Zext(tb.divrem(op, tb.Extract(n-1, 0, x), tb.Extract(n-1, 0, y)), w)
			}
		}
	}
	if !tb.noSimp && y.isConst() && y.val != 0 {
		if (op == OSDiv || op == OSRem) && nonNeg(x) && nonNeg(y) {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
		if bits.OnesCount64(y.val) == 1 {
			k := uint8(bits.TrailingZeros64(y.val))
			if op == OUDiv {
				return tb.LshrC(x, k)
			}
			if op == OURem {
				if k == 0 {
					return tb.Const(0, w)
				}
				return tb.Zext(tb.Extract(k-1, 0, x), w)
			}
		}
	}
	return tb.mk(Term{op: op, w: w, args: []*Term{x, y}})
}

func (tb *TermTable) ShlC(x *Term, k uint8) *Term {
	if k == 0 {
		return x
	}
	if k >= x.w {
		return tb.Const(0, x.w)
	}
	return tb.concat([]*Term{tb.Extract(x.w-1-k, 0, x), tb.Const(0, k)})
}
func (tb *TermTable) LshrC(x *Term, k uint8) *Term {
	if k == 0 {
		return x
	}
	if k >= x.w {
		return tb.Const(0, x.w)
	}
	return tb.concat([]*Term{tb.Const(0, k), tb.Extract(x.w-1, k, x)})
}

// shift with SMT semantics (count >= width gives 0 or the sign).
func (tb *TermTable) shift(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic("shift width mismatch")
	}
	w := x.w
	if y.isConst() {
		k := y.val
		switch op {
		case OShl:
			if k >= uint64(w) {
				return tb.Const(0, w)
			}
			if x.isConst() || !tb.noSimp {
				return tb.ShlC(x, uint8(k))
			}
		case OLshr:
			if k >= uint64(w) {
				return tb.Const(0, w)
			}
			if x.isConst() || !tb.noSimp {
				return tb.LshrC(x, uint8(k))
			}
		case OAshr:
			if k >= uint64(w) {
				k = uint64(w) - 1
				y = tb.Const(k, w)
			}
			if k == 0 {
				return x
			}
			if x.isConst() {
				return tb.Const(uint64(signExt(x.val, w)>>k), w)
			}
			if !tb.noSimp {
				return tb.Sext(tb.Extract(w-1, uint8(k), x), w)
			}
		}
	}
	if x.isConst() && x.val == 0 {
		return x
	}
	return tb.mk(Term{op: op, w: w, args: []*Term{x, y}})
}

func segsOf(x *Term) []*Term {
	if x.op == OConcat {
		return x.args
	}
	return []*Term{x}
}

func (tb *TermTable) bitop(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic("bitop width mismatch")
	}
	if x.isConst() && y.isConst() {
		switch op {
		case OBAnd:
			return tb.Const(x.val&y.val, w)
		case OBOr:
			return tb.Const(x.val|y.val, w)
		case OBXor:
			return tb.Const(x.val^y.val, w)
		}
	}
	if x == y {
		if op == OBXor {
			return tb.Const(0, w)
		}
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch {
		case y.val == 0 && op == OBAnd:
			return y
		case y.val == 0:
			return x
		case y.val == mask(w) && op == OBAnd:
			return x
		case y.val == mask(w) && op == OBOr:
			return y
		case y.val == mask(w) && op == OBXor:
			return tb.BNot(x)
		}
		if !tb.noSimp {
			// split at runs of equal bits when that makes the term simpler
			runs := 0
			for i := uint8(0); i < w; {
				b := y.val >> i & 1
				j := i
				for j < w && y.val>>j&1 == b {
					j++
				}
				runs++
				i = j
			}
			if runs <= 4 {
				var segs []*Term
				for i := int(w) - 1; i >= 0; {
					b := y.val >> uint(i) & 1
					j := i
					for j >= 0 && y.val>>uint(j)&1 == b {
						j--
					}
					n := uint8(i - j)
					part := tb.Extract(uint8(i), uint8(j+1), x)
					if b == 0 {
						if op == OBAnd {
							part = tb.Const(0, n)
						}
					} else {
						switch op {
						case OBOr:
							part = tb.Const(mask(n), n)
						case OBXor:
							part = tb.BNot(part)
						}
					}
					segs = append(segs, part)
					i = j
				}
				return tb.concat(segs)
			}
		}
	}
	if !tb.noSimp && (x.op == OConcat || y.op == OConcat) {
		// refine both to common segment boundaries, combine when every
		// pair has a constant in it
		xs, ys := segsOf(x), segsOf(y)
		ok := true
		type pr struct{ a, b *Term }
		var prs []pr
		xi, yi := 0, 0
		xr, yr := xs[0], ys[0]
		for {
			n := min(xr.w, yr.w)
			a := tb.Extract(xr.w-1, xr.w-n, xr)
			b := tb.Extract(yr.w-1, yr.w-n, yr)
			if !a.isConst() && !b.isConst() && a != b {
				ok = false
				break
			}
			prs = append(prs, pr{a, b})
			if xr.w > n {
				xr = tb.Extract(xr.w-n-1, 0, xr)
			} else {
				xi++
				if xi < len(xs) {
					xr = xs[xi]
				} else {
					xr = nil
				}
			}
			if yr.w > n {
				yr = tb.Extract(yr.w-n-1, 0, yr)
			} else {
				yi++
				if yi < len(ys) {
					yr = ys[yi]
				} else {
					yr = nil
				}
			}
			if xr == nil || yr == nil {
				break
			}
		}
		if ok {
			var segs []*Term
			for _, p := range prs {
				segs = append(segs, tb.bitop(op, p.a, p.b))
			}
			return tb.concat(segs)
		}
	}
	if !y.isConst() && x.h > y.h {
		x, y = y, x
	}
	return tb.mk(Term{op: op, w: w, args: []*Term{x, y}})
}

// Fp builds a floating point operation term. Operands and results are IEEE bit
// patterns; kinds: add sub mul div neg (w-bit), lt le eq (bool), f2f:<from>:<to>,
// s2f:<from>:<to>, u2f:<from>:<to>, f2s:<from>:<to>, f2u:<from>:<to>.
func (tb *TermTable) Fp(kind string, w uint8, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	t := Term{op: OFp, w: w, name: kind, args: args}
	if all {
		vs := make([]uint64, len(args))
		for i, a := range args {
			vs[i] = a.val
		}
		return tb.mk(Term{op: OConst, w: w, val: evalFp(&t, vs) & boolMask(w)})
	}
	return tb.mk(t)
}

func boolMask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constText(t.val, t.w)
	case OVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

// body renders the term with references to the named sub-terms.
func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.a, t.b, t.args[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OConcat:
		// n-ary concat as nested binary ones
		for i := 0; i < len(t.args)-1; i++ {
			sb.WriteString("(concat ")
			sb.WriteString(t.args[i].ref())
			sb.WriteString(" ")
		}
		sb.WriteString(t.args[len(t.args)-1].ref())
		sb.WriteString(strings.Repeat(")", len(t.args)-1))
	case OFp:
		return fpBody(t)
	default:
		sb.WriteString("(")
		sb.WriteString(opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" ")
			sb.WriteString(a.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func fpSort(w uint8) string {
	switch w {
	case 16:
		return "5 11"
	case 32:
		return "8 24"
	}
	return "11 53"
}

func toFp(t *Term, w uint8) string {
	return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(w), t.ref())
}

func fpBody(t *Term) string {
	p := strings.Split(t.name, ":")
	fw := t.args[0].w
	switch p[0] {
	case "add", "sub", "mul", "div":
		return fmt.Sprintf("(fp.to_ieee_bv (fp.%s RNE %s %s))", p[0], toFp(t.args[0], fw), toFp(t.args[1], fw))
	case "lt":
		return fmt.Sprintf("(fp.lt %s %s)", toFp(t.args[0], fw), toFp(t.args[1], fw))
	case "le":
		return fmt.Sprintf("(fp.leq %s %s)", toFp(t.args[0], fw), toFp(t.args[1], fw))
	case "eq":
		return fmt.Sprintf("(fp.eq %s %s)", toFp(t.args[0], fw), toFp(t.args[1], fw))
	case "f2f":
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), toFp(t.args[0], fw))
	case "s2f":
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), t.args[0].ref())
	case "u2f":
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), t.args[0].ref())
	case "f2s":
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFp(t.args[0], fw))
	case "f2u":
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFp(t.args[0], fw))
	}
	panic("fp kind " + t.name)
}
