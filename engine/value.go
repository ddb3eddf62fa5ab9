package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the symbolic interpreter:
//
//	*Term            bool, integers, floats (as IEEE bit patterns)
//	*Str             string of concrete length
//	Ptr              pointer (also unsafe.Pointer)
//	Slice            slice with concrete offset/length/capacity
//	Iface            interface value with concrete dynamic type
//	StructV, ArrayV  aggregates by value
//	*MapObj          map
//	*Closure         function value
//	Tuple            multiple results
type Value any

type Str struct {
	s   string
	sym []*Term // when non-nil the bytes, s is unused
}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

func concStr(s string) *Str { return &Str{s: s} }

type Ptr struct {
	c   *Cell
	arr *Cell // array the cell is an element of, if known
	idx int
	sym *SymIdx
}

// SymIdx is a pointer to an element selected by a symbolic index.
type SymIdx struct {
	arr    *Cell
	off, n int
	idx    *Term // 64 bit, known to be < n
}

func (p Ptr) isNil() bool { return p.c == nil && p.sym == nil }

type Slice struct {
	arr           *Cell
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type StructV []Value
type ArrayV []Value
type Tuple []Value

type MapEnt struct {
	k, v Value
	dead bool
}
type MapObj struct {
	ents   []*MapEnt
	id     int
	frozen bool
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
}

type RangeIter struct {
	str  *Str
	pos  int
	m    *MapObj
	left []*MapEnt
}

// Cell is a memory location, a tree for structs and arrays.
type Cell struct {
	t      types.Type
	v      Value
	kids   []*Cell
	big    map[int]*Cell
	n      int
	frozen bool
}

const bigArray = 1 << 16

func under(t types.Type) types.Type { return t.Underlying() }

func newCell(tb *TermTable, t types.Type) *Cell {
	c := &Cell{t: t}
	switch u := under(t).(type) {
	case *types.Struct:
		c.kids = make([]*Cell, u.NumFields())
		for i := range c.kids {
			c.kids[i] = newCell(tb, u.Field(i).Type())
		}
	case *types.Array:
		c.n = int(u.Len())
		c.initArr()
	default:
		c.v = zero(tb, t)
	}
	return c
}

func (c *Cell) initArr() {
	if c.n <= bigArray {
		c.kids = make([]*Cell, c.n)
	} else {
		c.big = map[int]*Cell{}
	}
}

// newArray makes the backing store of a slice of n elements of type elem.
func newArray(elem types.Type, n int) *Cell {
	c := &Cell{t: types.NewArray(elem, int64(n)), n: n}
	c.initArr()
	return c
}

func (c *Cell) elem(tb *TermTable, i int) *Cell {
	if c.big != nil {
		e := c.big[i]
		if e == nil {
			e = newCell(tb, under(c.t).(*types.Array).Elem())
			e.frozen = c.frozen
			c.big[i] = e
		}
		return e
	}
	e := c.kids[i]
	if e == nil {
		e = newCell(tb, under(c.t).(*types.Array).Elem())
		e.frozen = c.frozen
		c.kids[i] = e
	}
	return e
}

func (c *Cell) isAgg() bool { return c.kids != nil || c.big != nil }

func (c *Cell) load(tb *TermTable) Value {
	if c.big != nil {
		panic(unsupported{"load of a huge array by value"})
	}
	switch under(c.t).(type) {
	case *types.Struct:
		r := make(StructV, len(c.kids))
		for i, k := range c.kids {
			r[i] = k.load(tb)
		}
		return r
	case *types.Array:
		r := make(ArrayV, c.n)
		for i := range r {
			r[i] = c.elem(tb, i).load(tb)
		}
		return r
	}
	return c.v
}

func (c *Cell) store(p *Path, v Value) {
	switch under(c.t).(type) {
	case *types.Struct:
		sv := v.(StructV)
		for i, k := range c.kids {
			k.store(p, sv[i])
		}
		return
	case *types.Array:
		av := v.(ArrayV)
		for i := range av {
			c.elem(p.tb, i).store(p, av[i])
		}
		return
	}
	if c.frozen && p.freezeOn {
		p.frozenWrite(c, v)
	}
	c.v = v
}

func basicWidth(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(tb *TermTable, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, ok := basicWidth(u); ok {
			if w == 0 {
				return tb.ff
			}
			return tb.Const(0, w)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return concStr("")
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Struct:
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = zero(tb, u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := make(ArrayV, u.Len())
		for i := range r {
			r[i] = zero(tb, u.Elem())
		}
		return r
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(tb, u.At(i).Type())
		}
		return r
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return complexV{}
	}
	panic(unsupported{fmt.Sprintf("zero value of %s", t)})
}

type ChanObj struct{}

// complexV stands for a complex number; nothing is done with one.
type complexV struct{}

type unsupported struct{ why string }

// goPanic is a Go panic travelling through interpreted frames.
type goPanic struct {
	val  Iface
	kind string
	fn   string
	rec  bool
}

type pathEnd struct {
	kind string // "pruned", "cut", "violation"
	why  string
}
