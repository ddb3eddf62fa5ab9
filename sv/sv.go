// Package sv is the harness interface. Under the symbolic engine every function
// here is intercepted: the value functions return solver variables, Assume and
// Assert become path constraints and proof obligations. Compiled natively (this
// file) the same harness replays one concrete assignment found by the solver.
package sv

import (
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Input is one value of an assignment, in the order the harness asks for them.
type Input struct {
	Name string `json:"n"`
	W    int    `json:"w"`
	V    string `json:"v"`
}

// Fail is the panic value of a failed assertion.
type Fail struct{ Kind, Label string }

// Skip is the panic value of an assignment that violates an assumption.
type Skip struct{ Why string }

// State is the assignment of the running replay.
type State struct {
	Inputs   []Input
	Pos      int
	Obs      []string
	section  string
	limit    uint64
	base     uint64
	frozen   []snap
	thorough bool
}

type snap struct{ ptr, copy reflect.Value }

var (
	single = &State{}
	racing bool
	slots  [4]struct {
		id atomic.Int64
		st *State
	}
)

// st is the state of the running replay; under the race detector each goroutine
// has its own, found without synchronisation that would hide a race.
func st() *State {
	if !racing {
		return single
	}
	id := goid()
	for i := range slots {
		if slots[i].id.Load() == id {
			return slots[i].st
		}
	}
	return single
}

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

// RacePrepare switches to per-goroutine states; RaceStart is called by each.
func RacePrepare(in []Input, thorough bool, n int) {
	racing = true
	for i := 0; i < n; i++ {
		slots[i].st = &State{Inputs: in, thorough: thorough}
	}
}
func RaceStart(i int) { slots[i].id.Store(goid()) }

// Start installs an assignment.
func Start(in []Input, thorough bool) *State {
	single = &State{Inputs: in, thorough: thorough}
	return single
}

// Section returns the label given last.
func (s *State) SectionName() string { return s.section }

// Finish performs the checks that are due at the end of a harness.
func Finish() {
	checkAlloc()
	checkFrozen()
}

func next(name string, w int) uint64 {
	cur := st()
	if cur.Pos >= len(cur.Inputs) {
		cur.Pos++
		return 0
	}
	in := cur.Inputs[cur.Pos]
	cur.Pos++
	if in.Name != name {
		panic(Skip{fmt.Sprintf("input %d is %q, harness asks for %q", cur.Pos-1, in.Name, name)})
	}
	v, err := strconv.ParseUint(in.V, 10, 64)
	if err != nil {
		panic(Skip{err.Error()})
	}
	return v
}

func U8(name string) uint8    { return uint8(next(name, 8)) }
func U16(name string) uint16  { return uint16(next(name, 16)) }
func U32(name string) uint32  { return uint32(next(name, 32)) }
func U64(name string) uint64  { return next(name, 64) }
func I8(name string) int8     { return int8(next(name, 8)) }
func I16(name string) int16   { return int16(next(name, 16)) }
func I32(name string) int32   { return int32(next(name, 32)) }
func I64(name string) int64   { return int64(next(name, 64)) }
func Bool(name string) bool   { return next(name, 1)&1 == 1 }
func F32(name string) float32 { return math.Float32frombits(uint32(next(name, 32))) }
func F64(name string) float64 { return math.Float64frombits(next(name, 64)) }

// Choose returns an arbitrary value of 0..n-1; the engine explores each.
func Choose(name string, n int) int { return int(next(name, 32)) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

// Str returns a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the explored inputs.
func Assume(b bool) {
	if !b {
		panic(Skip{"assumption"})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		panic(Fail{"assert", label})
	}
}

// Concrete splits the path on every possible value of x.
func Concrete(x int) int { return x }

// Reach marks a place that some path must reach, or the harness is vacuous.
func Reach(label string) {}

// Long grants the path ten times the usual steps before it counts as hanging.
func Long() {}

// Section names the phase that a following panic is attributed to.
func Section(label string) { st().section = label }

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return st().thorough }

// Observe records a value; engine and native run must agree on it.
func Observe(name string, v any) {
	cur := st()
	cur.Obs = append(cur.Obs, name+"="+render(reflect.ValueOf(v)))
}

func render(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int8:
		return strconv.FormatUint(uint64(uint8(v.Int())), 10)
	case reflect.Int16:
		return strconv.FormatUint(uint64(uint16(v.Int())), 10)
	case reflect.Int32:
		return strconv.FormatUint(uint64(uint32(v.Int())), 10)
	case reflect.Int, reflect.Int64:
		return strconv.FormatUint(uint64(v.Int()), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32:
		return strconv.FormatUint(uint64(math.Float32bits(float32(v.Float()))), 10)
	case reflect.Float64:
		return strconv.FormatUint(math.Float64bits(v.Float()), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice, reflect.Array:
		p := []string{}
		for i := 0; i < v.Len(); i++ {
			p = append(p, render(v.Index(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "non-nil"
	}
	return "?"
}

// AllocLimit bounds the memory the code may allocate from here on.
func AllocLimit(bytes uint64) {
	cur := st()
	checkAlloc()
	cur.limit = bytes
	if bytes > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		cur.base = m.TotalAlloc
	}
}

func checkAlloc() {
	cur := st()
	if cur.limit == 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.TotalAlloc-cur.base > cur.limit {
		cur.limit = 0
		panic(Fail{"alloc", "alloc@" + cur.section})
	}
}

// SymAlloc sets the largest allocation length the engine enumerates.
func SymAlloc(n int) {}

// SkipAlloc leaves allocation lengths above SymAlloc and up to n that the input
// does not determine out of the exploration; longer ones must have one value.
func SkipAlloc(n int) {}

// Freeze forbids writes to anything reachable from x.
func Freeze(x any) {
	cur := st()
	v := reflect.ValueOf(x)
	cur.frozen = append(cur.frozen, snap{v, deepCopy(v)})
}

// FreezeGlobals forbids writes to package-level state.
func FreezeGlobals() {}

// Unfreeze ends Freeze and FreezeGlobals.
func Unfreeze() {
	checkFrozen()
}

func checkFrozen() {
	cur := st()
	fs := cur.frozen
	cur.frozen = nil
	for _, f := range fs {
		if !deepEqual(f.ptr, f.copy) {
			panic(Fail{"frozen", "frozen@" + cur.section})
		}
	}
}

func deepCopy(v reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// MapOrder makes the iteration order of maps arbitrary.
func MapOrder(on bool) {}

// Equal compares structurally: nil and empty slices are alike, floats compare
// by bit pattern, pointers by what they point to.
func Equal(a, b any) bool {
	return deepEqual(reflect.ValueOf(a), reflect.ValueOf(b))
}

func deepEqual(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return deepEqual(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Func, reflect.Map, reflect.Chan:
		return a.IsNil() == b.IsNil()
	}
	return false
}

// Fill stores an arbitrary value in *p: every exported scalar is arbitrary,
// pointers are nil or not, slices and strings have 0..maxLen elements.
func Fill(name string, p any, maxLen int) {
	fill(name, reflect.ValueOf(p).Elem(), maxLen, 0)
}

func fill(name string, v reflect.Value, maxLen, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(next(name, 1)&1 == 1)
	case reflect.Int8:
		v.SetInt(int64(int8(next(name, 8))))
	case reflect.Int16:
		v.SetInt(int64(int16(next(name, 16))))
	case reflect.Int32:
		v.SetInt(int64(int32(next(name, 32))))
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(next(name, 64)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint, reflect.Uint64:
		v.SetUint(next(name, 64))
	case reflect.Float32:
		u := uint32(next(name, 32))
		v.Set(reflect.ValueOf(math.Float32frombits(u)).Convert(v.Type()))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(next(name, 64)))
	case reflect.String:
		n := Choose(name+".len", maxLen+1)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(next(name, 8))
		}
		v.SetString(string(b))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() {
				fill(name+"."+f.Name, v.Field(i), maxLen, depth)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(name+"["+strconv.Itoa(i)+"]", v.Index(i), maxLen, depth)
		}
	case reflect.Pointer:
		if depth >= 4 || Choose(name+".ptr", 2) == 0 {
			v.SetZero()
			return
		}
		n := reflect.New(v.Type().Elem())
		fill(name, n.Elem(), maxLen, depth+1)
		v.Set(n)
	case reflect.Slice:
		if depth >= 4 {
			return
		}
		n := Choose(name+".len", maxLen+1)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(name+"["+strconv.Itoa(i)+"]", s.Index(i), maxLen, depth+1)
		}
		v.Set(s)
	}
}

// And and Or combine conditions without splitting the path.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// IteU64 selects without splitting the path.
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// BytesEqual compares without splitting the path.
func BytesEqual(a, b []byte) bool { return string(a) == string(b) }

// TempDir is the path of a new directory, of the same length in every run.
func TempDir() string {
	for i := time.Now().UnixNano(); ; i++ {
		dir := fmt.Sprintf("/tmp/sv%08x", uint32(i))
		if os.Mkdir(dir, 0o755) == nil {
			return dir
		}
	}
}

// Files removes the directory and returns the paths of all files that were in it,
// in any order.
func Files(dir string) []string {
	var files []string
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			files = append(files, path)
		}
		return nil
	})
	os.RemoveAll(dir)
	return files
}
