package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice of a path.
type Decision struct {
	taken, implied bool
	val            uint64
}

type Item struct {
	h      *Harness
	prefix []Decision
	model  Model
}

// Input is one nondeterministic value a path asked for, in call order.
type Input struct {
	Name string
	W    uint8
	term *Term
}

// Violation is a failed property on one path, with the inputs of the model.
type Violation struct {
	Harness string
	Label   string
	Kind    string // assert, panic, alloc, frozen, hang
	Detail  string
	Inputs  []InputVal
	Replay  string
	Status  string // confirmed, not-reproduced
	NStatus string
	NDetail string
}

type InputVal struct {
	Name string `json:"n"`
	W    uint8  `json:"w"`
	V    string `json:"v"`
}

type Sample struct {
	Harness string
	Inputs  []InputVal
	Obs     []string
	Native  string
}

// Harness is one entry point and its results.
type Harness struct {
	Name    string
	fn      *ssa.Function
	mu      sync.Mutex
	Paths   int
	Done    int
	Pruned  int
	Cut     map[string]int
	Unsup   map[string]int
	Viol    []*Violation
	violCnt map[string]int
	Reached map[string]int
	Reach   map[string]bool // required reach labels
	Asserts int             // assertion evaluations
	Trivial int             // decided by term rewriting alone
	Solved  int             // decided by a solver query
	Undec   int             // solver gave up
	Forks   int
	Steps   int64
	MaxSt   int
	Samples []*Sample
	Funcs   map[string]bool
	pending int
	stop    bool
	start   time.Time
	Wall    time.Duration
}

type Path struct {
	w      *Worker
	tb     *TermTable
	h      *Harness
	prefix []Decision
	pos    int
	dec    []Decision
	pc     []*Term
	model  Model
	ev     *Evaluator
	steps  int
	long   int // how many times more steps than usual the path may take, less one

	globals       map[*ssa.Global]*Cell
	inited        map[*ssa.Package]bool
	initDepth     int
	inputs        []Input
	section       string
	obs           []obsVal
	freezeOn      bool
	freezeGlobals bool
	lockDepth     int
	allocLimit    uint64
	allocated     uint64
	symAlloc      uint64
	skipAlloc     uint64
	mapOrder      bool
	onceDone      map[*Cell]bool
	files         []Value // the files that exist, by path
	forks         int
	// pins holds the terms this path has decided to be a constant; an assumption that
	// rewrites to a constant pins nothing, so the map is always made
	pins map[*Term]*Term
}

type obsVal struct {
	name string
	v    Value
	t    types.Type
}

type Worker struct {
	id       int
	eng      *Engine
	tb       *TermTable
	sol      *Solver
	fns      map[*ssa.Function]*fnInfo
	consts   map[*ssa.Const]Value
	noMerge  bool
	maxSteps int
	merges   int
	mu       sync.Mutex
	stack    []*Item
	rng      *rand.Rand
	seen     map[*ssa.Function]bool
	xDone    int
	xDiff    int
}

// Engine explores harnesses.
type Engine struct {
	prog     *ssa.Program
	sizes    types.Sizes
	rtErr    types.Type
	intr     map[string]intrinsicFn
	workers  []*Worker
	mu       sync.Mutex
	methods  sync.Map
	impls    sync.Map
	idle     int
	cond     *sync.Cond
	finished bool
	seed     int64
	thorough bool
	deadline time.Time
	enough   time.Time   // from here on a violation ends the exploration
	found    atomic.Bool // whether there is one
	maxPaths int
	noSimp   bool
	noMerge  bool
	solver   []string
	timeout  time.Duration
	violStop int
	harn     []*Harness
	fnMu     sync.Mutex
	fnTotal  map[string]int
	known    map[string]string
	xcheck   int
}

type implKey struct {
	a types.Type
	b *types.Interface
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := e.impls.Load(k); ok {
		return v.(bool)
	}
	e.mu.Lock()
	r := types.Implements(t, it)
	e.mu.Unlock()
	e.impls.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if v, ok := e.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.mu.Lock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.mu.Unlock()
	e.methods.Store(k, fn)
	return fn
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Path) fnSeen(fn *ssa.Function) {
	if p.w.seen[fn] {
		return
	}
	p.w.seen[fn] = true
	if pk := fn.Pkg; pk != nil || fn.Origin() != nil {
		n := 0
		for _, b := range fn.Blocks {
			n += len(b.Instrs)
		}
		p.w.eng.fnMu.Lock()
		p.w.eng.fnTotal[fn.String()] = n
		p.w.eng.fnMu.Unlock()
	}
}

func (p *Path) take(c *Term, d Decision) {
	p.dec = append(p.dec, d)
	if d.taken {
		p.pin(c, true)
	} else {
		p.pin(c, false)
		c = p.tb.Not(c)
	}
	if d.implied {
		return
	}
	p.pc = append(p.pc, c)
}

// pin remembers what a decision fixes, so that later results of the same term are
// constants.
func (p *Path) pin(c *Term, v bool) {
	if c.isConst() {
		return
	}
	k := p.tb.Bool(v)
	p.pins[c] = k
	switch {
	case c.op == ONot:
		p.pin(c.args[0], !v)
	case c.op == OAnd && v:
		for _, a := range c.args {
			p.pin(a, true)
		}
	case c.op == OOr && !v:
		for _, a := range c.args {
			p.pin(a, false)
		}
	case c.op == OEq && v:
		a, b := c.args[0], c.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && !a.isConst() && a.w > 0 {
			p.pins[a] = b
		}
	}
}

// pinned replaces a term the path has fixed.
func (p *Path) pinned(v Value) Value {
	if t, ok := v.(*Term); ok && !t.isConst() {
		if k, ok := p.pins[t]; ok {
			return k
		}
	}
	return v
}

// ensureModel makes p.model satisfy pc; it prunes infeasible paths.
func (p *Path) ensureModel() {
	if p.ev != nil {
		return
	}
	if p.model != nil {
		p.ev = NewEvaluator(p.model)
		return
	}
	r, m := p.w.sol.Check(p.pc, nil)
	switch r {
	case Unsat:
		panic(pathEnd{"pruned", "infeasible"})
	case Sat:
		p.model = m
	default:
		panic(pathEnd{"cut", "solver gave no verdict on the path condition"})
	}
	p.ev = NewEvaluator(p.model)
}

func (p *Path) setModel(m Model) {
	p.model = m
	if m != nil {
		p.ev = NewEvaluator(m)
	} else {
		p.ev = nil
	}
}

// branch decides a condition, forking the path when both outcomes are feasible.
func (p *Path) branch(c *Term) bool {
	if k, ok := p.pins[c]; ok {
		c = k
	}
	if c.isConst() {
		return c.val == 1
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.take(c, d)
		return d.taken
	}
	p.ensureModel()
	side := p.ev.Eval(c) == 1
	other := c
	if side {
		other = p.tb.Not(c)
	}
	r, m := p.w.sol.Check(p.pc, other)
	if r == Unsat {
		p.take(c, Decision{taken: side, implied: true})
		return side
	}
	if r == Unknown {
		m = nil
		p.h.mu.Lock()
		p.h.Undec++
		p.h.mu.Unlock()
	}
	p.fork(Decision{taken: !side}, m)
	p.take(c, Decision{taken: side})
	return side
}

func (p *Path) fork(d Decision, m Model) {
	p.forks++
	pre := make([]Decision, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	p.w.push(&Item{h: p.h, prefix: pre, model: m})
}

// concretize forks over all feasible values of t.
func (p *Path) concretize(t *Term, why string) uint64 {
	return p.concretizeMax(t, 70000, why)
}

// concretizeMax splits the path on at most max values.
func (p *Path) concretizeMax(t *Term, max int, why string) uint64 {
	if k, ok := p.pins[t]; ok {
		t = k
	}
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > max {
			panic(pathEnd{"cut", "too many values for " + why})
		}
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.take(p.tb.Eq(t, p.tb.Const(d.val, t.w)), d)
			if d.taken {
				p.pins[t] = p.tb.Const(d.val, t.w)
				return d.val
			}
			continue
		}
		p.ensureModel()
		v := p.ev.Eval(t)
		c := p.tb.Eq(t, p.tb.Const(v, t.w))
		r, m := p.w.sol.Check(p.pc, p.tb.Not(c))
		if r == Unsat {
			p.take(c, Decision{taken: true, implied: true, val: v})
			p.pins[t] = p.tb.Const(v, t.w)
			return v
		}
		if r == Unknown {
			m = nil
		}
		p.fork(Decision{taken: false, val: v}, m)
		p.take(c, Decision{taken: true, val: v})
		p.pins[t] = p.tb.Const(v, t.w)
		return v
	}
}

func (p *Path) newInput(name string, w uint8) *Term {
	if w == 0 {
		// booleans are bit vectors of one bit at the interface
		return p.tb.Eq(p.newInput(name, 1), p.tb.Const(1, 1))
	}
	n := "v" + strconv.Itoa(len(p.inputs)) + "_" + sanitize(name) + "_" + strconv.Itoa(int(w))
	t := p.tb.Var(n, w)
	p.inputs = append(p.inputs, Input{Name: name, W: w, term: t})
	return t
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

// choose returns a value in [0,n), one path for each.
func (p *Path) choose(name string, n int) int {
	if n <= 0 {
		panic(pathEnd{"pruned", "empty choice"})
	}
	t := p.newInput(name, 32)
	if n == 1 {
		p.assume(p.tb.Eq(t, p.tb.Const(0, 32)))
		return 0
	}
	p.assume(p.tb.Ult(t, p.tb.Const(uint64(n), 32)))
	return int(p.concretize(t, name))
}

func (p *Path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"pruned", "assumption"})
	}
	// an assumption is a decision that is never taken the other way
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.take(c, d)
		return
	}
	p.ensureModel()
	if p.ev.Eval(c) != 1 {
		r, m := p.w.sol.Check(p.pc, c)
		switch r {
		case Unsat:
			panic(pathEnd{"pruned", "assumption"})
		case Unknown:
			panic(pathEnd{"cut", "solver gave no verdict on an assumption"})
		}
		p.take(c, Decision{taken: true})
		p.setModel(m)
		return
	}
	p.take(c, Decision{taken: true})
}

func (p *Path) assert(c *Term, label string) {
	p.h.mu.Lock()
	p.h.Asserts++
	p.h.mu.Unlock()
	if c.isTrue() {
		p.h.mu.Lock()
		p.h.Trivial++
		p.h.mu.Unlock()
		return
	}
	if p.pos < len(p.prefix) {
		// decided when this prefix was first explored
		d := p.prefix[p.pos]
		p.pos++
		p.take(c, d)
		return
	}
	if c.isFalse() {
		p.ensureModel()
		p.record("assert", label, "assertion "+label, p.model)
		panic(pathEnd{"violation", label})
	}
	p.ensureModel()
	r, m := Sat, p.model
	if p.ev.Eval(c) == 1 {
		r, m = p.w.sol.Check(p.pc, p.tb.Not(c))
	}
	p.h.mu.Lock()
	if r == Unknown {
		p.h.Undec++
	} else {
		p.h.Solved++
	}
	p.h.mu.Unlock()
	switch r {
	case Unsat:
		p.crossCheck(c)
		p.take(c, Decision{taken: true, implied: true})
		return
	case Sat:
		p.record("assert", label, "assertion "+label, m)
	}
	// go on where the assertion holds
	if p.ev.Eval(c) != 1 {
		r, m := p.w.sol.Check(p.pc, c)
		if r != Sat {
			panic(pathEnd{"violation", label})
		}
		p.take(c, Decision{taken: true})
		p.setModel(m)
		return
	}
	p.take(c, Decision{taken: true})
}

// crossCheck decides a sample of the discharged assertions with a second solver.
func (p *Path) crossCheck(c *Term) {
	w := p.w
	if w.xDone >= w.eng.xcheck || w.rng.Intn(4) != 0 {
		return
	}
	all := append(append([]*Term{}, p.pc...), p.tb.Not(c))
	r, _ := OneShot([]string{"cvc5", "--lang=smt2", "--produce-models", "-q"}, all, 5*time.Second)
	if r == Unknown {
		return
	}
	w.xDone++
	if r != Unsat {
		w.xDiff++
	}
}

// violation reports a failure of the whole current path and ends it.
func (p *Path) violation(kind, detail string) {
	p.ensureModel()
	p.record(kind, kind+"@"+p.section, detail, p.model)
	panic(pathEnd{"violation", kind})
}

func (p *Path) inputVals(m Model) []InputVal {
	out := make([]InputVal, len(p.inputs))
	for i, in := range p.inputs {
		out[i] = InputVal{Name: in.Name, W: in.W, V: strconv.FormatUint(m[in.term.name]&mask(in.W), 10)}
	}
	return out
}

func (p *Path) record(kind, label, detail string, m Model) {
	p.h.mu.Lock()
	defer p.h.mu.Unlock()
	p.h.violCnt[label]++
	if p.h.violCnt[label] > 3 {
		return
	}
	p.h.Viol = append(p.h.Viol, &Violation{Harness: p.h.Name, Label: label, Kind: kind, Detail: detail, Inputs: p.inputVals(m)})
	if kind != "hang" && !p.w.eng.isKnown(p.h.Name, label) {
		p.w.eng.found.Store(true)
	}
	if p.w.eng.violStop > 0 && !p.w.eng.isKnown(p.h.Name, label) {
		n := 0
		for l := range p.h.violCnt {
			if !p.w.eng.isKnown(p.h.Name, l) {
				n++
			}
		}
		if n >= p.w.eng.violStop {
			p.h.stop = true
		}
	}
}

func (p *Path) frozenWrite(c *Cell, v Value) {
	if p.lockDepth > 0 || p.initDepth > 0 {
		return
	}
	p.violation("frozen", "write to memory that must not be modified")
}
func (p *Path) frozenMapWrite(m *MapObj) {
	if p.lockDepth > 0 || p.initDepth > 0 {
		return
	}
	p.violation("frozen", "write to a map that must not be modified")
}

// freeze marks everything reachable from v.
func freezeValue(p *Path, v Value, seen map[*Cell]bool, ms map[*MapObj]bool) {
	switch x := v.(type) {
	case Ptr:
		if x.c != nil {
			x.c.freeze(p, seen, ms)
		}
		if x.arr != nil {
			x.arr.freeze(p, seen, ms)
		}
	case Slice:
		if x.arr != nil {
			x.arr.freeze(p, seen, ms)
		}
	case Iface:
		freezeValue(p, x.v, seen, ms)
	case StructV:
		for _, e := range x {
			freezeValue(p, e, seen, ms)
		}
	case ArrayV:
		for _, e := range x {
			freezeValue(p, e, seen, ms)
		}
	case *MapObj:
		if x == nil || ms[x] {
			return
		}
		ms[x] = true
		x.frozen = true
		for _, e := range x.ents {
			freezeValue(p, e.k, seen, ms)
			freezeValue(p, e.v, seen, ms)
		}
	case *Closure:
		if x != nil {
			for _, e := range x.free {
				freezeValue(p, e, seen, ms)
			}
		}
	}
}

func (c *Cell) freeze(p *Path, seen map[*Cell]bool, ms map[*MapObj]bool) {
	if seen[c] {
		return
	}
	seen[c] = true
	c.frozen = true
	for _, k := range c.kids {
		if k != nil {
			k.freeze(p, seen, ms)
		}
	}
	for _, k := range c.big {
		k.freeze(p, seen, ms)
	}
	if c.v != nil {
		freezeValue(p, c.v, seen, ms)
	}
}

// ---- exploration ----

func (w *Worker) push(it *Item) {
	it.h.mu.Lock()
	it.h.pending++
	it.h.mu.Unlock()
	w.mu.Lock()
	w.stack = append(w.stack, it)
	w.mu.Unlock()
	w.eng.mu.Lock()
	if w.eng.idle > 0 {
		w.eng.cond.Signal()
	}
	w.eng.mu.Unlock()
}

func (w *Worker) pop() *Item {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n := len(w.stack); n > 0 {
		it := w.stack[n-1]
		w.stack = w.stack[:n-1]
		return it
	}
	return nil
}

func (w *Worker) stealFrom() *Item {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.stack) > 0 {
		it := w.stack[0]
		w.stack = w.stack[1:]
		return it
	}
	return nil
}

func (w *Worker) next() *Item {
	e := w.eng
	for {
		if it := w.pop(); it != nil {
			return it
		}
		for i := range e.workers {
			o := e.workers[(w.id+1+i)%len(e.workers)]
			if o == w {
				continue
			}
			if it := o.stealFrom(); it != nil {
				return it
			}
		}
		e.mu.Lock()
		if e.finished {
			e.mu.Unlock()
			return nil
		}
		// re-check under the lock
		any := false
		for _, o := range e.workers {
			o.mu.Lock()
			if len(o.stack) > 0 {
				any = true
			}
			o.mu.Unlock()
		}
		if any {
			e.mu.Unlock()
			continue
		}
		e.idle++
		if e.idle == len(e.workers) {
			e.finished = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return nil
		}
		e.cond.Wait()
		e.idle--
		fin := e.finished
		e.mu.Unlock()
		if fin {
			return nil
		}
	}
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.sol.Close()
	}
	q := w.sol
	w.tb = NewTermTable(w.eng.noSimp)
	w.sol = NewSolver(w.tb, w.eng.solver, w.eng.timeout)
	if q != nil {
		w.sol.Queries, w.sol.SatN, w.sol.UnsatN, w.sol.UnknownN, w.sol.Fallback, w.sol.Time = q.Queries, q.SatN, q.UnsatN, q.UnknownN, q.Fallback, q.Time
		if w.sol.fatal == nil {
			w.sol.fatal = q.fatal
		}
	}
	w.consts = map[*ssa.Const]Value{}
}

func (w *Worker) loop() {
	for {
		it := w.next()
		if it == nil {
			w.sol.Close()
			return
		}
		w.runItem(it)
		if w.tb.next > 1500000 {
			w.reset()
		}
	}
}

func (w *Worker) runItem(it *Item) {
	h := it.h
	h.mu.Lock()
	h.pending--
	if h.start.IsZero() {
		h.start = time.Now()
	}
	over := h.Paths >= w.eng.maxPaths
	now := time.Now()
	if w.eng.found.Load() && now.After(w.eng.enough) {
		h.stop = true
	}
	if h.stop || over || now.After(w.eng.deadline) {
		if over {
			h.Cut["path limit"]++
		} else if !h.stop {
			h.Cut["time limit"]++
		} else {
			h.Cut["stopped after violations"]++
		}
		h.mu.Unlock()
		return
	}
	h.Paths++
	h.mu.Unlock()
	p := &Path{w: w, pins: map[*Term]*Term{}, tb: w.tb, h: h, prefix: it.prefix, model: it.model,
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{},
		onceDone: map[*Cell]bool{}, symAlloc: 64}
	if it.prefix == nil {
		p.model = Model{}
	}
	kind, why := p.execute()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Steps += int64(p.steps)
	h.Forks += p.forks
	if p.steps > h.MaxSt {
		h.MaxSt = p.steps
	}
	h.Wall = time.Since(h.start)
	switch kind {
	case "done":
		h.Done++
		if p.model != nil {
			keep := len(h.Samples) < 2
			if !keep && len(h.Samples) < 6 {
				keep = w.rng.Intn(8) == 0
			}
			if keep {
				ev := NewEvaluator(p.model)
				s := &Sample{Harness: h.Name, Inputs: p.inputVals(p.model)}
				for _, o := range p.obs {
					s.Obs = append(s.Obs, o.name+"="+p.obsString(ev, o.v, o.t))
				}
				h.Samples = append(h.Samples, s)
			}
		}
	case "pruned":
		h.Pruned++
	case "violation":
	case "unsupported":
		h.Unsup[why]++
	default:
		h.Cut[why]++
	}
}

func (p *Path) execute() (kind, why string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd:
			if x.kind == "steps" {
				// possible non-termination: report it, the native replay decides
				func() {
					defer func() { recover() }()
					p.ensureModel()
					p.record("hang", "hang@"+p.section, "step limit reached", p.model)
				}()
				kind, why = "cut", "step limit"
				return
			}
			kind, why = x.kind, x.why
		case *goPanic:
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(pathEnd); ok {
							kind, why = pe.kind, pe.why
							return
						}
						panic(r)
					}
				}()
				p.ensureModel()
				p.record("panic", "panic@"+p.section, "panic: "+x.kind+" in "+x.fn+" "+p.panicText(x), p.model)
				kind, why = "violation", "panic"
			}()
		case unsupported:
			kind, why = "unsupported", x.why
		default:
			kind, why = "unsupported", fmt.Sprintf("engine: %v", r)
			if os.Getenv("SVDEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
			}
		}
	}()
	p.callFn(p.h.fn, nil, nil, nil)
	if p.ev == nil {
		p.ensureModel()
	}
	return "done", ""
}

func (p *Path) panicText(g *goPanic) string {
	if s, ok := g.val.v.(*Str); ok && s.sym == nil {
		return s.s
	}
	return ""
}

// Run explores all harnesses to the end or to the limits.
func (e *Engine) Run(hs []*Harness, nw int) {
	e.cond = sync.NewCond(&e.mu)
	e.harn = hs
	e.fnTotal = map[string]int{}
	for i := 0; i < nw; i++ {
		w := &Worker{id: i, eng: e, fns: map[*ssa.Function]*fnInfo{}, noMerge: e.noMerge,
			maxSteps: 3000000, rng: rand.New(rand.NewSource(e.seed + int64(i))), seen: map[*ssa.Function]bool{}}
		w.reset()
		e.workers = append(e.workers, w)
	}
	for i, h := range hs {
		h.Cut, h.Unsup = map[string]int{}, map[string]int{}
		h.violCnt, h.Reached = map[string]int{}, map[string]int{}
		w := e.workers[i%nw]
		h.pending++
		w.stack = append(w.stack, &Item{h: h})
	}
	for _, w := range e.workers {
		// depth first on the first harness pushed
		sort.SliceStable(w.stack, func(i, j int) bool { return false })
	}
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.loop()
		}(w)
	}
	wg.Wait()
}
