package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"time"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx     map[ssa.Value]int
	n       int
	pdom    map[*ssa.BasicBlock]*ssa.BasicBlock
	noMerge map[*ssa.BasicBlock]bool
	intr    intrinsicFn
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, noMerge: map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.intr = w.eng.intrinsic(fn)
	fi.pdom = postDom(fn)
	w.fns[fn] = fi
	return fi
}

// postDom computes immediate post-dominators (nil: only the exit).
func postDom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	full := make([][]bool, n)
	for i := range full {
		full[i] = make([]bool, n)
		for j := range full[i] {
			full[i][j] = len(fn.Blocks[i].Succs) > 0
		}
		full[i][i] = true
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				if j == i || !full[i][j] {
					continue
				}
				all := true
				for _, s := range b.Succs {
					if !full[s.Index][j] {
						all = false
						break
					}
				}
				if !all {
					full[i][j] = false
					changed = true
				}
			}
		}
	}
	cnt := make([]int, n)
	for i := range full {
		for j := range full[i] {
			if full[i][j] {
				cnt[i]++
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := range full {
		best := -1
		for j := range full[i] {
			if j != i && full[i][j] && (best < 0 || cnt[j] > cnt[best]) {
				best = j
			}
		}
		if best >= 0 {
			r[fn.Blocks[i]] = fn.Blocks[best]
		}
	}
	return r
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	p         *Path
	fn        *ssa.Function
	fi        *fnInfo
	regs      []Value
	defers    []deferred
	panicking *goPanic
	depth     int
	caller    *frame
	overlay   map[*Cell]Value // speculation: pending stores
	spec      bool
}

func (f *frame) set(v ssa.Value, x Value) {
	if len(f.p.pins) > 0 {
		x = f.p.pinned(x)
	}
	f.regs[f.fi.idx[v]] = x
}

func (f *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return f.p.constant(v)
	case *ssa.Global:
		return Ptr{c: f.p.global(v)}
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{bi: v}
	}
	i, ok := f.fi.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, f.fn))
	}
	return f.regs[i]
}

func (f *frame) term(v ssa.Value) *Term { return f.get(v).(*Term) }

func (p *Path) constant(c *ssa.Const) Value {
	if v, ok := p.w.consts[c]; ok {
		return v
	}
	v := p.mkConst(c)
	p.w.consts[c] = v
	return v
}

func (p *Path) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(p.tb, c.Type())
	}
	b, ok := under(c.Type()).(*types.Basic)
	if !ok {
		panic(unsupported{"constant of type " + c.Type().String()})
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.Int {
			return concStr(string(rune(c.Int64())))
		}
		return concStr(constant.StringVal(c.Value))
	}
	w, ok := basicWidth(b)
	if !ok {
		panic(unsupported{"constant of type " + c.Type().String()})
	}
	switch {
	case w == 0:
		return p.tb.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		if w == 32 {
			fv, _ := constant.Float32Val(c.Value)
			return p.tb.Const(uint64(math.Float32bits(fv)), 32)
		}
		fv, _ := constant.Float64Val(c.Value)
		return p.tb.Const(math.Float64bits(fv), 64)
	case b.Info()&types.IsUnsigned != 0:
		return p.tb.Const(c.Uint64(), w)
	default:
		return p.tb.Const(uint64(c.Int64()), w)
	}
}

// global returns the cell of a package-level variable, running the package's
// initialisers the first time a variable of the package is needed.
func (p *Path) global(g *ssa.Global) *Cell {
	if c, ok := p.globals[g]; ok {
		return c
	}
	pkg := g.Pkg
	if pkg != nil && !p.inited[pkg] {
		p.inited[pkg] = true
		if fn := pkg.Func("init"); fn != nil && fn.Blocks != nil {
			if why := initDenied(pkg.Pkg.Path()); why != "" {
				// leave the zero values
			} else {
				saved := p.freezeOn
				p.freezeOn = false
				p.initDepth++
				p.callFn(fn, nil, nil, nil)
				p.initDepth--
				p.freezeOn = saved
			}
		}
	}
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := newCell(p.tb, g.Type().(*types.Pointer).Elem())
	p.globals[g] = c
	if p.freezeGlobals {
		c.freeze(p, map[*Cell]bool{}, map[*MapObj]bool{})
	}
	return c
}

func initDenied(path string) string {
	switch path {
	case "runtime", "os", "syscall", "reflect", "internal/poll", "time", "internal/cpu", "internal/godebug",
		"internal/testlog", "internal/oserror", "log", "flag", "net", "testing", "runtime/debug", "context",
		"sync", "internal/abi", "math/rand", "text/template", "html/template", "regexp", "regexp/syntax":
		return "denied"
	}
	return ""
}

func (p *Path) callFn(fn *ssa.Function, args []Value, free []Value, caller *frame) Value {
	fi := p.w.info(fn)
	if fi.intr != nil {
		return fi.intr(p, caller, fn, args)
	}
	return p.interpret(fn, args, free, caller)
}

// interpret executes the body of a function.
func (p *Path) interpret(fn *ssa.Function, args []Value, free []Value, caller *frame) Value {
	fi := p.w.info(fn)
	if fn.Blocks == nil {
		panic(unsupported{"external function " + fn.String()})
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 2000 {
		p.raise("stack overflow", fn)
	}
	p.fnSeen(fn)
	f := &frame{p: p, fn: fn, fi: fi, regs: make([]Value, fi.n), depth: depth, caller: caller}
	for i := range fn.Params {
		f.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		f.regs[len(fn.Params)+i] = free[i]
	}
	return f.run()
}

func (f *frame) run() (res Value) {
	if f.hasDefers() {
		return f.runDeferred()
	}
	return f.exec(f.fn.Blocks[0], nil)
}

func (f *frame) hasDefers() bool {
	if f.fn.Recover != nil {
		return true
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (f *frame) runDeferred() (res Value) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		f.panicking = gp
		f.runDefers()
		if f.panicking != nil {
			panic(f.panicking)
		}
		// recovered
		if f.fn.Recover != nil {
			res = f.exec(f.fn.Recover, nil)
		} else {
			res = zeroResults(f.p.tb, f.fn)
		}
	}()
	return f.exec(f.fn.Blocks[0], nil)
}

func zeroResults(tb *TermTable, fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zero(tb, rs.At(0).Type())
	}
	return zero(tb, rs)
}

func (f *frame) runDefers() {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					f.panicking = gp
				}
			}()
			f.callValue(d.fn, d.args, d.call)
		}()
	}
	if f.panicking != nil && f.panicking.rec {
		f.panicking = nil
	}
}

func (f *frame) callValue(fv Value, args []Value, cc *ssa.CallCommon) Value {
	cl, _ := fv.(*Closure)
	if cl == nil {
		f.p.raise("nil pointer dereference", f.fn)
	}
	if cl.bi != nil {
		return f.builtin(cl.bi, args, cc)
	}
	return f.p.callFn(cl.fn, args, cl.free, f)
}

// exec runs from block b (entered from pred) until a return.
func (f *frame) exec(b, pred *ssa.BasicBlock) Value {
	p := f.p
	var mergedPhis []Value
	for {
		// phis, in parallel
		i := 0
		if mergedPhis != nil {
			for ; i < len(b.Instrs); i++ {
				phi, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				f.set(phi, mergedPhis[i])
			}
			mergedPhis = nil
		} else {
			f.phis(b, pred)
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			p.steps++
			if p.steps > p.w.maxSteps*(1+p.long) {
				panic(pathEnd{"steps", "step limit"})
			}
			if p.steps&1023 == 0 && time.Now().After(p.w.eng.deadline) {
				panic(pathEnd{"cut", "time limit"})
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Jump:
				pred, next = b, b.Succs[0]
			case *ssa.If:
				c := f.term(in.Cond)
				t, fl := b.Succs[0], b.Succs[1]
				tp, fp := b, b
				if !c.isConst() && !p.w.noMerge {
					c, t, tp, fl, fp = f.shortCircuit(c, t, tp, fl, fp)
				}
				if !c.isConst() && !p.w.noMerge {
					if j, vals, ok := f.tryMerge(b, c, t, tp, fl, fp); ok {
						mergedPhis = vals
						if mergedPhis == nil {
							mergedPhis = []Value{}
						}
						next, pred = j, nil
						break
					}
				}
				if p.branch(c) {
					next, pred = t, tp
				} else {
					next, pred = fl, fp
				}
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return f.get(in.Results[0])
				}
				r := make(Tuple, len(in.Results))
				for k, v := range in.Results {
					r[k] = f.get(v)
				}
				return r
			case *ssa.Panic:
				v := f.get(in.X).(Iface)
				panic(&goPanic{val: v, kind: "panic", fn: f.fn.String()})
			case *ssa.RunDefers:
				f.runDefers()
				if f.panicking != nil {
					gp := f.panicking
					f.panicking = nil
					panic(gp)
				}
			default:
				f.instr(in)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			panic("block without terminator in " + f.fn.String())
		}
		b = next
	}
}

func (f *frame) phis(b, pred *ssa.BasicBlock) {
	n := 0
	for n < len(b.Instrs) {
		if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n == 0 {
		return
	}
	e := predIndex(b, pred)
	vals := make([]Value, n)
	for i := 0; i < n; i++ {
		vals[i] = f.get(b.Instrs[i].(*ssa.Phi).Edges[e])
	}
	for i := 0; i < n; i++ {
		f.set(b.Instrs[i].(*ssa.Phi), vals[i])
	}
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == pred {
			return i
		}
	}
	panic("predIndex")
}

// ---- merging ----

type specFail struct{}

// shortCircuit folds `a && b` and `a || b` condition chains into one condition.
func (f *frame) shortCircuit(c *Term, t, tp, fl, fp *ssa.BasicBlock) (*Term, *ssa.BasicBlock, *ssa.BasicBlock, *ssa.BasicBlock, *ssa.BasicBlock) {
	tb := f.p.tb
	for iter := 0; iter < 8; iter++ {
		if c2, ok := f.condBlock(t); ok {
			if t.Succs[1] == fl && f.samePhis(fl, fp, t) {
				c = tb.And(c, c2)
				tp, t = t, t.Succs[0]
				continue
			}
			if t.Succs[0] == fl && f.samePhis(fl, fp, t) {
				c = tb.And(c, tb.Not(c2))
				tp, t = t, t.Succs[1]
				continue
			}
		}
		if c2, ok := f.condBlock(fl); ok {
			if fl.Succs[0] == t && f.samePhis(t, tp, fl) {
				c = tb.Or(c, c2)
				fp, fl = fl, fl.Succs[1]
				continue
			}
			if fl.Succs[1] == t && f.samePhis(t, tp, fl) {
				c = tb.Or(c, tb.Not(c2))
				fp, fl = fl, fl.Succs[0]
				continue
			}
		}
		break
	}
	return c, t, tp, fl, fp
}

// condBlock evaluates a side-effect free single-predecessor block ending in If.
func (f *frame) condBlock(b *ssa.BasicBlock) (c *Term, ok bool) {
	if len(b.Preds) != 1 || len(b.Succs) != 2 || len(b.Instrs) > 12 {
		return nil, false
	}
	if _, isPhi := b.Instrs[0].(*ssa.Phi); isPhi {
		return nil, false
	}
	in, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false
	}
	for _, x := range b.Instrs[:len(b.Instrs)-1] {
		if _, isStore := x.(*ssa.Store); isStore {
			return nil, false
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if _, sf := r.(specFail); sf {
				c, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	saved := f.spec
	f.spec = true
	defer func() { f.spec = saved }()
	for _, x := range b.Instrs[:len(b.Instrs)-1] {
		f.specInstr(x)
	}
	return f.term(in.Cond), true
}

func (f *frame) samePhis(b, p1, p2 *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x, y := phi.Edges[predIndex(b, p1)], phi.Edges[predIndex(b, p2)]
		if x == y {
			continue
		}
		if f.isDefined(x) && f.isDefined(y) && sameValue(f.get(x), f.get(y)) {
			continue
		}
		return false
	}
	return true
}

func (f *frame) isDefined(v ssa.Value) bool {
	if i, ok := f.fi.idx[v]; ok {
		return f.regs[i] != nil
	}
	return true
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.c == y.c && x.sym == y.sym
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && (x == y || (x.sym == nil && y.sym == nil && x.s == y.s))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameValue(x.v, y.v)
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// mergeValue builds ite(c, a, b) where the representation allows it.
func (f *frame) mergeValue(c *Term, a, b Value) Value {
	if sameValue(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return f.p.tb.Ite(c, x, y)
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x) == len(y) {
			r := make(StructV, len(x))
			for i := range x {
				r[i] = f.mergeValue(c, x[i], y[i])
			}
			return r
		}
	}
	panic(specFail{})
}

type specState struct {
	overlay map[*Cell]Value
	phis    []Value
}

// tryMerge executes both sides of a symbolic branch up to the immediate
// post-dominator, when they are free of calls, allocations and possible panics,
// and joins the results with if-then-else terms instead of forking the path.
func (f *frame) tryMerge(b *ssa.BasicBlock, c *Term, t, tp, fl, fp *ssa.BasicBlock) (j *ssa.BasicBlock, vals []Value, ok bool) {
	if f.fi.noMerge[b] {
		return nil, nil, false
	}
	j = f.fi.pdom[b]
	if j == nil {
		f.fi.noMerge[b] = true
		return nil, nil, false
	}
	budget := 60
	saved, savedSpec := f.overlay, f.spec
	defer func() {
		f.overlay, f.spec = saved, savedSpec
		if r := recover(); r != nil {
			if _, sf := r.(specFail); sf {
				j, vals, ok = nil, nil, false
				return
			}
			panic(r)
		}
	}()
	f.spec = true
	st := f.specMerge(c, t, tp, fl, fp, j, nil, &budget, &visited{b: b})
	f.overlay, f.spec = saved, savedSpec
	for cell, v := range st.overlay {
		f.storeCell(cell, v)
	}
	f.p.w.merges++
	return j, st.phis, true
}

// visited lists the blocks a speculation has been through: none is executed twice,
// so no register that code outside the region reads is overwritten.
type visited struct {
	b  *ssa.BasicBlock
	up *visited
}

// root is the block of the branch where the speculation started.
func (v *visited) root() *ssa.BasicBlock {
	for v.up != nil {
		v = v.up
	}
	return v.b
}

func (v *visited) has(b *ssa.BasicBlock) bool {
	for ; v != nil; v = v.up {
		if v.b == b {
			return true
		}
	}
	return false
}

func (f *frame) specMerge(c *Term, t, tp, fl, fp, j *ssa.BasicBlock, base map[*Cell]Value, budget *int, seen *visited) specState {
	s1 := f.specRun(t, tp, j, base, budget, seen)
	s2 := f.specRun(fl, fp, j, base, budget, seen)
	out := specState{overlay: map[*Cell]Value{}}
	cells := map[*Cell]bool{}
	for k := range s1.overlay {
		cells[k] = true
	}
	for k := range s2.overlay {
		cells[k] = true
	}
	for k := range cells {
		v1, ok1 := s1.overlay[k]
		v2, ok2 := s2.overlay[k]
		if !ok1 {
			v1 = k.load(f.p.tb)
		}
		if !ok2 {
			v2 = k.load(f.p.tb)
		}
		out.overlay[k] = f.mergeValue(c, v1, v2)
	}
	if len(s1.phis) != len(s2.phis) {
		panic(specFail{})
	}
	out.phis = make([]Value, len(s1.phis))
	for i := range s1.phis {
		out.phis[i] = f.mergeValue(c, s1.phis[i], s2.phis[i])
	}
	return out
}

// specRun executes from b up to (not into) j.
func (f *frame) specRun(b, pred, j *ssa.BasicBlock, base map[*Cell]Value, budget *int, seen *visited) specState {
	ov := make(map[*Cell]Value, len(base))
	for k, v := range base {
		ov[k] = v
	}
	f.overlay = ov
	var merged []Value
	for {
		if b == j {
			var ph []Value
			if merged != nil {
				ph = merged
			} else {
				e := predIndex(b, pred)
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					ph = append(ph, f.get(phi.Edges[e]))
				}
			}
			return specState{overlay: f.overlay, phis: ph}
		}
		if seen.has(b) || b.Dominates(seen.root()) {
			// Back at a block that has been executed on the way to the branch: its
			// registers are still read on the other side and behind the join.
			panic(specFail{})
		}
		seen = &visited{b, seen}
		i := 0
		if merged != nil {
			for ; i < len(b.Instrs); i++ {
				phi, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				f.set(phi, merged[i])
			}
			merged = nil
		} else {
			f.phis(b, pred)
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			*budget--
			if *budget < 0 {
				panic(specFail{})
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Jump:
				pred, next = b, b.Succs[0]
			case *ssa.If:
				c := f.term(in.Cond)
				if c.isTrue() {
					pred, next = b, b.Succs[0]
				} else if c.isFalse() {
					pred, next = b, b.Succs[1]
				} else {
					jj := f.fi.pdom[b]
					if jj == nil {
						panic(specFail{})
					}
					st := f.specMerge(c, b.Succs[0], b, b.Succs[1], b, jj, f.overlay, budget, seen)
					f.overlay = st.overlay
					merged = st.phis
					if merged == nil {
						merged = []Value{}
					}
					next, pred = jj, nil
				}
			default:
				f.specInstr(in)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			panic(specFail{})
		}
		b = next
	}
}

// specInstr executes an instruction that cannot fork, panic or have an effect
// outside the overlay; anything else aborts the speculation.
func (f *frame) specInstr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.BinOp:
		x, ok1 := f.get(in.X).(*Term)
		y, ok2 := f.get(in.Y).(*Term)
		if !ok1 || !ok2 {
			panic(specFail{})
		}
		switch in.Op {
		case token.QUO, token.REM:
			if !isFloat(in.X.Type()) && (!y.isConst() || y.val == 0) {
				panic(specFail{})
			}
		case token.SHL, token.SHR:
			if isSigned(in.Y.Type()) && !(y.isConst() && signExt(y.val, y.w) >= 0) && !nonNeg(y) {
				panic(specFail{})
			}
		}
		f.set(in, f.p.binop(in.Op, x, y, in.X.Type(), in.Y.Type(), f.fn))
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ptr, ok := f.get(in.X).(Ptr)
			if !ok || ptr.c == nil || ptr.c.isAgg() {
				panic(specFail{})
			}
			if _, isG := in.X.(*ssa.Global); isG && !f.p.inited[in.X.(*ssa.Global).Pkg] {
				panic(specFail{})
			}
			f.set(in, f.loadCell(ptr.c))
			return
		}
		if in.Op == token.ARROW {
			panic(specFail{})
		}
		f.instr(in)
	case *ssa.Convert:
		if _, ok := f.get(in.X).(*Term); !ok {
			panic(specFail{})
		}
		if isString(in.Type()) {
			panic(specFail{})
		}
		f.instr(in)
	case *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.MakeInterface, *ssa.ChangeInterface:
		f.instr(in)
	case *ssa.FieldAddr:
		ptr, ok := f.get(in.X).(Ptr)
		if !ok || ptr.c == nil {
			panic(specFail{})
		}
		f.instr(in)
	case *ssa.IndexAddr:
		idx, ok := f.get(in.Index).(*Term)
		if !ok || !idx.isConst() {
			panic(specFail{})
		}
		k := int64(signExt(idx.val, idx.w))
		switch x := f.get(in.X).(type) {
		case Slice:
			if k < 0 || k >= int64(x.len) {
				panic(specFail{})
			}
		case Ptr:
			if x.c == nil || k < 0 || k >= int64(x.c.n) {
				panic(specFail{})
			}
		default:
			panic(specFail{})
		}
		f.instr(in)
	case *ssa.Store:
		ptr, ok := f.get(in.Addr).(Ptr)
		if !ok || ptr.c == nil || ptr.c.isAgg() {
			panic(specFail{})
		}
		if f.overlay == nil {
			panic(specFail{})
		}
		if ptr.c.frozen && f.p.freezeOn {
			panic(specFail{})
		}
		f.overlay[ptr.c] = f.get(in.Val)
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			f.instr(in)
			return
		}
		if fn := in.Call.StaticCallee(); fn != nil && pureIntrinsic(fn.String()) {
			f.instr(in)
			return
		}
		panic(specFail{})
	default:
		panic(specFail{})
	}
}

func pureIntrinsic(name string) bool {
	switch name {
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits",
		"math/bits.Len64", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8", "math/bits.Len",
		"verif/sv.Ite":
		return true
	}
	return false
}

func (f *frame) loadCell(c *Cell) Value {
	if f.spec && f.overlay != nil {
		if v, ok := f.overlay[c]; ok {
			return v
		}
	}
	return c.load(f.p.tb)
}

func (f *frame) storeCell(c *Cell, v Value) { c.store(f.p, v) }
