package main

// Symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Path struct {
	frames  []*Frame
	heap    *Heap
	pc      []*Term
	out     *Term
	nextRef int
	parent  *Path // spec mode: facts go to the parent
	trace   []string
	dead    bool
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	idx       int
	defers    []deferred
	panicking bool
	recovered bool
	isDefer   bool
	retTo     ssa.Value
	loops     map[*ssa.BasicBlock]*loopState
	spec      *Contract
	entryHeap *Heap
	entryOut  *Term
	params    []Val
	unroll    map[*ssa.BasicBlock]int
}

type loopState struct {
	K       *Term
	measure []*Term
	iters   map[ssa.Value]*Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopState, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

func (p *Path) clone() *Path {
	n := *p
	n.frames = make([]*Frame, len(p.frames))
	for i, f := range p.frames {
		n.frames[i] = f.clone()
	}
	n.heap = p.heap.clone()
	n.pc = p.pc[:len(p.pc):len(p.pc)]
	n.trace = p.trace[:len(p.trace):len(p.trace)]
	return &n
}

func (p *Path) top() *Frame { return p.frames[len(p.frames)-1] }

func (p *Path) assume(t *Term) {
	if t == True || t.bound != nil {
		return
	}
	if p.parent != nil {
		p.parent.assume(t)
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			p.assume(a)
		}
		return
	}
	if t == False {
		p.dead = true
		if os.Getenv("GOVC_DEAD") != "" {
			debug.PrintStack()
		}
	}
	n := len(p.pc)
	for i := n - 1; i >= 0 && i > n-40; i-- {
		if p.pc[i] == t {
			return
		}
	}
	p.pc = append(p.pc, t)
}

type unsup struct{ msg string }

type Exec struct {
	snaps    map[snapKey]*Heap
	modFirst *modSet // what the loop changes, by a first look
	modPath  *Path
	modLim   uint64
	w        *World
	c        *Contract
	fn       *ssa.Function
	obls     []*Obl
	spec     bool
	work     []*Path
	npaths   int
	nfeas    int
	feasTime time.Duration
	maxPaths int
	params   []Val
	entry    *Heap
	exits    int
	notes    map[string]bool
	callees  map[string]bool
	inlined  map[string]bool
	depth    int
	bounded  int // >0: unroll loops this many times instead of cutting
	deadline time.Time
	panicPre *Term
	argOf    map[ssa.Value]ssa.Value // arguments of the calls being walked for effects
}

func (x *Exec) unsupported(msg string) { panic(unsup{msg}) }

func (x *Exec) pos(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	ps := x.w.prog.Fset.Position(i.Pos())
	if !ps.IsValid() {
		return i.Parent().Name()
	}
	return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
}

func shortFile(f string) string {
	for _, pre := range []string{"/repo/", "/verif/"} {
		f = strings.TrimPrefix(f, pre)
	}
	return f
}

// oblige records a proof obligation under the path condition.
func (x *Exec) oblige(p *Path, name, pos string, goal *Term) {
	if x.spec {
		return
	}
	if parts := conjuncts(goal); len(parts) > 1 && (hasOpaque(parts) || goal.hasStr) {
		for k, g := range parts {
			x.oblige(p, fmt.Sprintf("%s (%d of %d)", name, k+1, len(parts)), pos, g)
		}
		return
	}
	o := &Obl{Fn: x.c.Name, Name: name, Pos: pos, Goal: goal, folded: x.c.Folded, open: x.c.Open}
	if goal == True {
		o.Res, o.By, o.trivially = "proved", "simplifier", true
		x.obls = append(x.obls, o)
		return
	}
	o.Hyps = p.pc[:len(p.pc):len(p.pc)]
	o.path = &Path{trace: p.trace[:len(p.trace):len(p.trace)]}
	x.obls = append(x.obls, o)
}

// conjuncts splits A -> B && C into A -> B and A -> C.
func conjuncts(g *Term) []*Term {
	switch g.Op {
	case OAnd:
		var out []*Term
		for _, a := range g.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	case OOr:
		for k, a := range g.Args {
			if a.Op != OAnd {
				continue
			}
			var out []*Term
			for _, c := range a.Args {
				as := append([]*Term{}, g.Args...)
				as[k] = c
				out = append(out, conjuncts(Or(as...))...)
			}
			if len(out) > 12 {
				return []*Term{g}
			}
			return out
		}
	}
	return []*Term{g}
}

func (x *Exec) feasible(p *Path, c *Term) bool {
	if c == False || p.dead {
		return false
	}
	if c == True {
		return true
	}
	for _, h := range p.pc {
		if h == c {
			return true
		}
		if h == Not(c) {
			return false
		}
	}
	hyps := relevant(p.pc, c)
	x.nfeas++
	t0 := time.Now()
	r := x.w.feas(append(hyps, c))
	x.feasTime += time.Since(t0)
	return r
}

// raise starts a panic on the path.
func (x *Exec) raise(p *Path, what, pos string) {
	if x.spec {
		return
	}
	f := p.top()
	f.panicking = true
	x.unwind(p, what, pos)
}

// unwind continues a panic in the top frame.
func (x *Exec) unwind(p *Path, what, pos string) {
	for {
		f := p.top()
		if f.recovered {
			f.panicking = false
			f.recovered = false
			// remaining deferred calls run, then the recover block returns
			if f.fn.Recover != nil {
				f.prev = f.block
				f.block = f.fn.Recover
				f.idx = 0
				x.work = append(x.work, p)
				return
			}
			x.doReturn(p, x.zeroResults(f.fn))
			return
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if x.pushCall(p, d.fn, d.args, nil, nil, true) {
				x.work = append(x.work, p)
				return
			}
			continue
		}
		if len(p.frames) == 1 {
			// the panic leaves the function under contract
			x.exits++
			x.checkPanicExit(p, what, pos)
			if x.c.PanicsAny {
				return
			}
			goal := False
			if x.c.Panics != nil {
				goal = x.panicPre
			}
			x.oblige(p, "panic-only-when-allowed: "+what, pos, goal)
			return
		}
		p.frames = p.frames[:len(p.frames)-1]
		p.top().panicking = true
	}
}

// checkPanicExit: what a caller that recovers may rely on.
func (x *Exec) checkPanicExit(p *Path, what, pos string) {
	b := &binding{ct: x.c, params: x.params, pre: x.entry, out: p.out}
	for k, c := range x.c.OnPanic {
		x.oblige(p, fmt.Sprintf("onpanic %d: %s (%s)", k+1, c.Text, what), pos, x.evalClause(p, c, b))
	}
	x.checkFrame(p, b, pos)
}

func (x *Exec) zeroResults(fn *ssa.Function) []Val {
	var out []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, x.zero(rs.At(i).Type()))
	}
	return out
}

func (p *Path) hasDefers() bool {
	for _, f := range p.frames {
		if len(f.defers) > 0 || f.panicking {
			return true
		}
	}
	return false
}

// mayPanic handles an operation that panics when cond holds.
// It returns false when the path cannot continue.
func (x *Exec) mayPanic(p *Path, cond *Term, what string, in ssa.Instruction) bool {
	return x.mayPanicIn(p, cond, what, in, nil)
}

// mayPanicIn: effects gives what a callee may have done before it panicked.
func (x *Exec) mayPanicIn(p *Path, cond *Term, what string, in ssa.Instruction, effects func(q *Path)) bool {
	if x.spec || cond == False {
		return true
	}
	pos := x.pos(in)
	if !p.hasDefers() && (x.c.PanicsAny || x.c.Panics != nil) {
		q := p.clone()
		q.assume(cond)
		if effects != nil {
			effects(q)
		}
		x.checkPanicExit(q, what, pos)
	}
	if x.c.PanicsAny && !p.hasDefers() {
		p.assume(Not(cond))
		return cond != True
	}
	if !p.hasDefers() {
		goal := False
		if x.c.Panics != nil {
			goal = x.panicPre
		}
		q := *p
		q.pc = append(p.pc[:len(p.pc):len(p.pc)], flattenAnd(cond)...)
		if goal == False {
			x.oblige(p, "no-panic: "+what, pos, Not(cond))
		} else {
			x.oblige(&q, "panic-only-when-allowed: "+what, pos, goal)
		}
		p.assume(Not(cond))
		return cond != True && !p.dead
	}
	if x.feasible(p, cond) {
		q := p.clone()
		q.assume(cond)
		q.trace = append(q.trace, pos+" panics")
		if effects != nil {
			effects(q)
		}
		x.raise(q, what, pos)
	}
	p.assume(Not(cond))
	return cond != True && !p.dead
}

func flattenAnd(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	if t.Op == ONot && t.Args[0].Op == OOr {
		var out []*Term
		for _, a := range t.Args[0].Args {
			out = append(out, flattenAnd(Not(a))...)
		}
		return out
	}
	return []*Term{t}
}

// ---- running ----

func (x *Exec) run() {
	for len(x.work) > 0 {
		p := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.npaths++
		if x.npaths > x.maxPaths {
			x.unsupported(fmt.Sprintf("more than %d paths", x.maxPaths))
		}
		if !x.deadline.IsZero() && time.Now().After(x.deadline) {
			x.unsupported("exploration deadline")
		}
		x.runPath(p)
	}
}

func (x *Exec) get(p *Path, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return FuncV{Fn: c}
	case *ssa.Global:
		t := c.Type().(*types.Pointer).Elem()
		n := "global/" + c.RelString(nil)
		r := NamedVar(n, sortRef)
		refOld[r] = true
		p.assume(Not(mk(OEq, sortBool, 0, "", nil, r, RefLit(0))))
		return PtrV{Root: t, Ref: r, Idx: BV64(0), T: t}
	case *ssa.Builtin:
		return OpqV{"builtin " + c.Name()}
	}
	f := p.top()
	r, ok := f.env[v]
	if !ok {
		x.unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn.Name()))
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			s := basicSort(u)
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return BV(uint64(v), s.W)
			}
			v, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return BV(v, s.W)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return floatBits(f, u)
		}
	}
	x.unsupported("constant of type " + t.String())
	return nil
}

func (x *Exec) runPath(p *Path) {
	for !p.dead {
		f := p.top()
		if f.idx >= len(f.block.Instrs) {
			x.unsupported("fell off block")
		}
		in := f.block.Instrs[f.idx]
		f.idx++
		switch i := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			if !x.jump(p, f.block.Succs[0]) {
				return
			}
			continue
		case *ssa.If:
			c := x.get(p, i.Cond).(*Term)
			if c == True || c == False {
				k := 0
				if c == False {
					k = 1
				}
				if !x.jump(p, f.block.Succs[k]) {
					return
				}
				continue
			}
			ft := x.feasible(p, c)
			ff := x.feasible(p, Not(c))
			if ft && ff {
				q := p.clone()
				q.assume(Not(c))
				q.trace = append(q.trace, x.pos(in)+":false")
				if x.jump(q, f.block.Succs[1]) {
					x.work = append(x.work, q)
				}
			}
			if ft {
				p.assume(c)
				p.trace = append(p.trace, x.pos(in)+":true")
				if !x.jump(p, f.block.Succs[0]) {
					return
				}
				continue
			}
			if ff {
				p.assume(Not(c))
				if !x.jump(p, f.block.Succs[1]) {
					return
				}
				continue
			}
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range i.Results {
				rs = append(rs, x.get(p, r))
			}
			if !x.doReturn(p, rs) {
				return
			}
			continue
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				f.idx--
				x.pushCall(p, d.fn, d.args, nil, in, true)
			}
			continue
		case *ssa.Defer:
			var args []Val
			for _, a := range i.Call.Args {
				args = append(args, x.get(p, a))
			}
			if i.Call.IsInvoke() {
				x.unsupported("deferred interface call")
			}
			f.defers = append(f.defers, deferred{fn: x.get(p, i.Call.Value), args: args, call: &i.Call})
			continue
		case *ssa.Panic:
			x.raise(p, "explicit panic", x.pos(in))
			return
		case *ssa.Call:
			if !x.call(p, i) {
				return
			}
			continue
		}
		if !x.step(p, in) {
			return
		}
	}
}

// doReturn pops the frame; false when the path ended.
func (x *Exec) doReturn(p *Path, rs []Val) bool {
	f := p.top()
	if len(p.frames) == 1 {
		x.finish(p, rs)
		return false
	}
	p.frames = p.frames[:len(p.frames)-1]
	g := p.top()
	if f.isDefer {
		if g.panicking {
			x.unwind(p, "re-panic", "")
			return false
		}
		return true
	}
	if f.retTo != nil {
		switch len(rs) {
		case 0:
		case 1:
			g.env[f.retTo] = rs[0]
		default:
			g.env[f.retTo] = TupleV(rs)
		}
	}
	return true
}

// finish checks the contract at a normal exit of the root function.
func (x *Exec) finish(p *Path, rs []Val) {
	x.exits++
	if x.bounded > 0 && x.c == nil {
		return
	}
	x.checkExit(p, rs)
}

// jump moves to block b, handling loop headers. False: the path ended.
func (x *Exec) jump(p *Path, b *ssa.BasicBlock) bool {
	f := p.top()
	from := f.block
	L := x.w.loopInfo(f.fn).byHeader[b]
	if L != nil && x.bounded == 0 {
		if L.blocks[from] {
			x.backEdge(p, L, from)
			return false
		}
		return x.enterLoop(p, L, from)
	}
	if L != nil {
		f.unroll[b]++
		if !L.blocks[from] {
			f.unroll[b] = 0
		}
		if f.unroll[b] > x.bounded {
			return false
		}
	}
	x.doPhis(p, b, from)
	return true
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == from {
			return i
		}
	}
	return -1
}

func (x *Exec) doPhis(p *Path, b, from *ssa.BasicBlock) {
	f := p.top()
	k := predIndex(b, from)
	var vals []Val
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.get(p, phi.Edges[k]))
		n++
	}
	for j := 0; j < n; j++ {
		f.env[b.Instrs[j].(*ssa.Phi)] = vals[j]
	}
	f.prev, f.block, f.idx = from, b, n
}

func isUnsignedIdx(t types.Type) bool { return !isSigned(t) }

// idx64 widens an index value to 64 bits.
func idx64(v *Term, t types.Type) *Term {
	if v.Sort.W == 64 {
		return v
	}
	if isSigned(t) {
		return Sext(v, 64)
	}
	return Zext(v, 64)
}

// step executes a straight-line instruction; false when the path ended.
func (x *Exec) step(p *Path, in ssa.Instruction) bool {
	f := p.top()
	switch i := in.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			r := x.newObj(p, at.Elem())
			f.env[i] = PtrV{Root: at.Elem(), Ref: r, Idx: BV64(0), T: t}
			return true
		}
		r := x.newObj(p, t)
		f.env[i] = PtrV{Root: t, Ref: r, Idx: BV64(0), T: t}
	case *ssa.BinOp:
		v, ok := x.binop(p, i)
		if !ok {
			return false
		}
		f.env[i] = v
	case *ssa.UnOp:
		a := x.get(p, i.X)
		switch i.Op {
		case token.MUL:
			ptr, ok := a.(PtrV)
			if !ok {
				x.unsupported(fmt.Sprintf("load through %T", a))
			}
			if !x.mayPanic(p, Eq(ptr.Ref, RefLit(0)), "nil pointer dereference", in) {
				return false
			}
			if at, ok := ptr.T.Underlying().(*types.Array); ok && ptr.Path == "" && !(len(leaves(ptr.T)) == 1 && leaves(ptr.T)[0].sort == sortOpq) && types.Identical(ptr.Root, at.Elem()) {
				arr := ArrV{T: at}
				for k := int64(0); k < at.Len(); k++ {
					arr.E = append(arr.E, x.load(p, PtrV{Root: ptr.Root, Ref: ptr.Ref, Idx: Add(ptr.Idx, BV64(uint64(k))), T: at.Elem(), Snap: ptr.Snap}))
				}
				f.env[i] = arr
				return true
			}
			f.env[i] = x.load(p, ptr)
		case token.NOT:
			f.env[i] = Not(a.(*Term))
		case token.SUB:
			if isFloat(i.X.Type()) {
				x.unsupported("float arithmetic")
			}
			f.env[i] = Neg(a.(*Term))
		case token.XOR:
			f.env[i] = BNot(a.(*Term))
		default:
			x.unsupported("unary " + i.Op.String())
		}
	case *ssa.Store:
		ptr := x.get(p, i.Addr).(PtrV)
		if !x.mayPanic(p, Eq(ptr.Ref, RefLit(0)), "nil pointer dereference", in) {
			return false
		}
		v := x.get(p, i.Val)
		if at, ok := ptr.T.Underlying().(*types.Array); ok && types.Identical(ptr.Root, at.Elem()) {
			av, ok := v.(ArrV)
			if !ok {
				x.unsupported("array store")
			}
			for k := range av.E {
				x.store(p, PtrV{Root: ptr.Root, Ref: ptr.Ref, Idx: Add(ptr.Idx, BV64(uint64(k))), T: at.Elem()}, av.E[k])
			}
			return true
		}
		x.store(p, ptr, v)
	case *ssa.FieldAddr:
		ptr, ok := x.get(p, i.X).(PtrV)
		if !ok {
			x.unsupported("field address")
		}
		if !x.mayPanic(p, Eq(ptr.Ref, RefLit(0)), "nil pointer dereference", in) {
			return false
		}
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f.env[i] = PtrV{Root: ptr.Root, Ref: ptr.Ref, Idx: ptr.Idx, Path: ptr.Path + "." + fieldName(st, i.Field), T: st.Field(i.Field).Type(), Snap: ptr.Snap}
	case *ssa.Field:
		s, ok := x.get(p, i.X).(StructV)
		if !ok {
			x.unsupported("field of non-struct")
		}
		f.env[i] = s.F[i.Field]
	case *ssa.IndexAddr:
		idx := idx64(x.get(p, i.Index).(*Term), i.Index.Type())
		switch b := x.get(p, i.X).(type) {
		case SliceV:
			if !x.mayPanic(p, Not(Ult(idx, b.Len)), "index out of range", in) {
				return false
			}
			f.env[i] = PtrV{Root: b.Elem, Ref: b.Ref, Idx: Add(b.Off, idx), T: b.Elem, Snap: b.Snap}
		case PtrV:
			at, ok := b.T.Underlying().(*types.Array)
			if !ok || b.Path != "" {
				x.unsupported("index of interior array")
			}
			if !x.mayPanic(p, Not(Ult(idx, BV64(uint64(at.Len())))), "index out of range", in) {
				return false
			}
			f.env[i] = PtrV{Root: b.Root, Ref: b.Ref, Idx: Add(b.Idx, idx), T: at.Elem(), Snap: b.Snap}
		default:
			x.unsupported("index address")
		}
	case *ssa.Index:
		idx := idx64(x.get(p, i.Index).(*Term), i.Index.Type())
		switch b := x.get(p, i.X).(type) {
		case *Term:
			if !x.mayPanic(p, Not(Ult(idx, SLen(b))), "index out of range", in) {
				return false
			}
			f.env[i] = SAt(b, idx)
		case ArrV:
			if !x.mayPanic(p, Not(Ult(idx, BV64(uint64(len(b.E))))), "index out of range", in) {
				return false
			}
			var r Val = b.E[0]
			for k := 1; k < len(b.E); k++ {
				r = x.iteVal(Eq(idx, BV64(uint64(k))), b.E[k], r)
			}
			f.env[i] = r
		default:
			x.unsupported("index")
		}
	case *ssa.Lookup:
		switch m := x.get(p, i.X).(type) {
		case *Term:
			idx := idx64(x.get(p, i.Index).(*Term), i.Index.Type())
			if !x.mayPanic(p, Not(Ult(idx, SLen(m))), "index out of range", in) {
				return false
			}
			f.env[i] = SAt(m, idx)
		case MapV:
			v, ok := x.mapGet(p, m, x.get(p, i.Index).(*Term))
			if i.CommaOk {
				f.env[i] = TupleV{v, ok}
			} else {
				f.env[i] = v
			}
		default:
			x.unsupported("lookup")
		}
	case *ssa.MapUpdate:
		m := x.get(p, i.Map).(MapV)
		if !x.mayPanic(p, Eq(m.Ref, RefLit(0)), "assignment to nil map", in) {
			return false
		}
		x.mapSet(p, m, x.get(p, i.Key).(*Term), x.get(p, i.Value))
	case *ssa.MakeMap:
		f.env[i] = x.newMap(p, i.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		n := idx64(x.get(p, i.Len).(*Term), i.Len.Type())
		c := idx64(x.get(p, i.Cap).(*Term), i.Cap.Type())
		if !x.mayPanic(p, Not(And(Ule(n, c), Ult(c, BV64(1<<44)))), "makeslice: len or cap out of range", in) {
			return false
		}
		el := i.Type().Underlying().(*types.Slice).Elem()
		r := x.newObj(p, el)
		f.env[i] = SliceV{r, BV64(0), n, c, el, nil}
	case *ssa.Slice:
		return x.sliceOp(p, i)
	case *ssa.Extract:
		t, ok := x.get(p, i.Tuple).(TupleV)
		if !ok {
			x.unsupported("extract")
		}
		f.env[i] = t[i.Index]
	case *ssa.ChangeType, *ssa.ChangeInterface:
		v := x.get(p, *in.Operands(nil)[0])
		if s, ok := v.(StructV); ok {
			s.T = in.(ssa.Value).Type()
			v = s
		}
		f.env[in.(ssa.Value)] = v
	case *ssa.Convert:
		f.env[i] = x.convert(p, i)
	case *ssa.MakeInterface:
		f.env[i] = x.makeIface(p, x.get(p, i.X), i.X.Type())
	case *ssa.TypeAssert:
		return x.typeAssert(p, i)
	case *ssa.MakeClosure:
		fv := FuncV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.Free = append(fv.Free, x.get(p, b))
		}
		f.env[i] = fv
	case *ssa.Range:
		switch m := x.get(p, i.X).(type) {
		case *Term:
			f.env[i] = IterV{Str: m}
			x.setIter(p, i, BV64(0))
		case MapV:
			mm := m
			f.env[i] = IterV{Map: &mm, Base: p.heap.clone()}
			x.setIter(p, i, ConstArr(mapKeySort(x, m.T), False))
		default:
			x.unsupported("range")
		}
	case *ssa.Next:
		return x.next(p, i)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		x.unsupported(fmt.Sprintf("%T", in))
	default:
		x.unsupported(fmt.Sprintf("instruction %T", in))
	}
	return true
}

func (x *Exec) sliceOp(p *Path, i *ssa.Slice) bool {
	f := p.top()
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return idx64(x.get(p, v).(*Term), v.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = BV64(0)
	}
	switch b := x.get(p, i.X).(type) {
	case *Term:
		n := SLen(b)
		if hi == nil {
			hi = n
		}
		if !x.mayPanic(p, Or(Not(Ule(lo, hi)), Not(Ule(hi, n))), "slice bounds out of range", i) {
			return false
		}
		f.env[i] = SSub(b, lo, hi)
	case SliceV:
		c := b.Cap
		if mx != nil {
			c = mx
		}
		if hi == nil {
			hi = b.Len
		}
		var bad []*Term
		if i.Low != nil {
			bad = append(bad, Not(Ule(lo, hi)))
		}
		if i.High != nil {
			bad = append(bad, Not(Ule(hi, c)))
		}
		if mx != nil {
			bad = append(bad, Not(Ule(mx, b.Cap)))
		}
		if !x.mayPanic(p, Or(bad...), "slice bounds out of range", i) {
			return false
		}
		if r := x.decideNil(p, b).Ref; r != b.Ref {
			m := newSubst(map[*Term]*Term{b.Ref.Args[0]: False})
			b, lo, hi, c = x.get(p, i.X).(SliceV), m.term(lo), m.term(hi), m.term(c)
		}
		f.env[i] = SliceV{b.Ref, Add(b.Off, lo), Sub(hi, lo), Sub(c, lo), b.Elem, b.Snap}
	case PtrV:
		at, ok := b.T.Underlying().(*types.Array)
		if !ok || b.Path != "" {
			x.unsupported("slice of interior array")
		}
		n := BV64(uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !x.mayPanic(p, Or(Not(Ule(lo, hi)), Not(Ule(hi, mx)), Not(Ule(mx, n))), "slice bounds out of range", i) {
			return false
		}
		f.env[i] = SliceV{b.Ref, Add(b.Idx, lo), Sub(hi, lo), Sub(mx, lo), at.Elem(), b.Snap}
	default:
		x.unsupported("slice")
	}
	return true
}

func (x *Exec) binop(p *Path, i *ssa.BinOp) (Val, bool) {
	a, b := x.get(p, i.X), x.get(p, i.Y)
	switch i.Op {
	case token.EQL:
		return x.eqVal(x.adapt(a, b, i.X.Type(), i.Y.Type())), true
	case token.NEQ:
		return Not(x.eqVal(x.adapt(a, b, i.X.Type(), i.Y.Type()))), true
	}
	s, t := a.(*Term), b.(*Term)
	if isFloat(i.X.Type()) {
		if i.Op == token.LSS || i.Op == token.LEQ || i.Op == token.GTR || i.Op == token.GEQ {
			return App("fcmp"+i.Op.String()+fmt.Sprint(s.Sort.W), sortBool, s, t), true
		}
		return App("farith"+i.Op.String()+fmt.Sprint(s.Sort.W), s.Sort, s, t), true
	}
	if isString(i.X.Type()) {
		switch i.Op {
		case token.ADD:
			return StrCat(s, t), true
		case token.LSS:
			return App("strlt", sortBool, s, t), true
		case token.GTR:
			return App("strlt", sortBool, t, s), true
		case token.LEQ:
			return Not(App("strlt", sortBool, t, s)), true
		case token.GEQ:
			return Not(App("strlt", sortBool, s, t)), true
		}
	}
	sg := isSigned(i.X.Type())
	switch i.Op {
	case token.ADD:
		return Add(s, t), true
	case token.SUB:
		return Sub(s, t), true
	case token.MUL:
		return Mul(s, t), true
	case token.QUO, token.REM:
		if !x.mayPanic(p, Eq(t, BV(0, t.Sort.W)), "integer divide by zero", i) {
			return nil, false
		}
		op := map[bool]map[token.Token]Op{true: {token.QUO: OSDiv, token.REM: OSRem}, false: {token.QUO: OUDiv, token.REM: OURem}}[sg][i.Op]
		if sg && nonNeg(s) && nonNeg(t) {
			op = map[token.Token]Op{token.QUO: OUDiv, token.REM: OURem}[i.Op]
		}
		return BinBV(op, s, t), true
	case token.AND:
		return BinBV(OBAnd, s, t), true
	case token.OR:
		return BinBV(OBOr, s, t), true
	case token.XOR:
		return BinBV(OBXor, s, t), true
	case token.AND_NOT:
		return BinBV(OBAnd, s, BNot(t)), true
	case token.SHL, token.SHR:
		if isSigned(i.Y.Type()) && !t.isConst() {
			if !x.mayPanic(p, Slt(t, BV(0, t.Sort.W)), "negative shift amount", i) {
				return nil, false
			}
		}
		w := s.Sort.W
		var c *Term
		if t.Sort.W <= w {
			c = Zext(t, w)
		} else {
			c = Ite(Ult(t, BV(uint64(w), t.Sort.W)), Extract(t, w-1, 0), BV(uint64(w), w))
		}
		op := OShl
		if i.Op == token.SHR {
			op = OLshr
			if sg {
				op = OAshr
			}
		}
		return BinBV(op, s, c), true
	case token.LSS:
		if sg {
			return Slt(s, t), true
		}
		return Ult(s, t), true
	case token.LEQ:
		if sg {
			return Sle(s, t), true
		}
		return Ule(s, t), true
	case token.GTR:
		if sg {
			return Slt(t, s), true
		}
		return Ult(t, s), true
	case token.GEQ:
		if sg {
			return Sle(t, s), true
		}
		return Ule(t, s), true
	}
	x.unsupported("binary " + i.Op.String())
	return nil, false
}

// adapt makes the two sides of an equality comparable (interface vs concrete).
func (x *Exec) adapt(a, b Val, ta, tb types.Type) (Val, Val) {
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		return a, x.ifaceOf(b, tb)
	}
	if ib && !ia {
		return x.ifaceOf(a, ta), b
	}
	return a, b
}

func (x *Exec) convert(p *Path, i *ssa.Convert) Val {
	return x.convertVal(p, x.get(p, i.X), i.X.Type(), i.Type())
}

func (x *Exec) convertVal(p *Path, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		t := v.(*Term)
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		switch {
		case fi && ti:
			w := basicSort(tb).W
			switch {
			case w == t.Sort.W:
				return t
			case w < t.Sort.W:
				return Extract(t, w-1, 0)
			case isSigned(from):
				return Sext(t, w)
			default:
				return Zext(t, w)
			}
		case isString(from) && isString(to):
			return t
		case fi && isString(to):
			return App("runestr", sortStr, Zext(t, 64))
		case isFloat(from) || isFloat(to):
			if basicSort(fb) == basicSort(tb) && isFloat(from) == isFloat(to) {
				return t
			}
			return App(fmt.Sprintf("conv_%s_%s", fb.Name(), tb.Name()), basicSort(tb), t)
		}
	}
	if isString(to) {
		if s, ok := v.(SliceV); ok && isByte(s.Elem) {
			return x.bytesToStr(p, s)
		}
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok && isByte(sl.Elem()) {
			return x.strToBytes(p, v.(*Term))
		}
	}
	x.unsupported("conversion " + from.String() + " to " + to.String())
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) bytesArr(p *Path, s SliceV) *Term {
	return x.inner(x.heapFor(p, s.Snap), typeKey(s.Elem), bvSort(8), s.Ref)
}

func (x *Exec) bytesToStr(p *Path, s SliceV) *Term {
	if s.Ref.Op == OIte && s.Ref.Args[1] == RefLit(0) {
		s.Ref = s.Ref.Args[2] // a nil slice is empty
	}
	return BStr(x.bytesArr(p, s), s.Off, s.Len)
}

func (x *Exec) strToBytes(p *Path, t *Term) SliceV {
	el := types.Typ[types.Uint8]
	key := typeKey(el)
	H := p.heap.get(key, arrSort(bvSort(64), bvSort(8)))
	r := RefLit(p.nextRef)
	p.nextRef++
	var arr *Term
	if t.isConst() && len(t.S) <= 64 {
		arr = ConstArr(bvSort(64), BV(0, 8))
		for i := 0; i < len(t.S); i++ {
			arr = Store(arr, BV64(uint64(i)), BV(uint64(t.S[i]), 8))
		}
	} else if t.Op == OApp && t.S == "bstr" {
		arr = CopyArr(ConstArr(bvSort(64), BV(0, 8)), t.Args[0], BV64(0), t.Args[2], t.Args[1])
	} else {
		arr = App("strbytes", arrSort(bvSort(64), bvSort(8)), t)
	}
	p.heap.m[key] = Store(H, r, arr)
	return SliceV{r, BV64(0), SLen(t), SLen(t), el, nil}
}

// ---- interfaces ----

var ifaceByKind = map[types.BasicKind]string{
	types.Uint64: "IU64", types.Int: "IInt", types.Int64: "II64", types.String: "IStr", types.Bool: "IBool",
	types.Float32: "IF32", types.Float64: "IF64", types.Uint8: "IU8", types.Uint16: "IU16", types.Uint32: "IU32",
	types.Int8: "II8", types.Int16: "II16", types.Int32: "II32", types.Uint: "IUint",
}

func ifaceCtorFor(t types.Type) string {
	if _, named := types.Unalias(t).(*types.Named); named {
		return ""
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	return ifaceByKind[b.Kind()]
}

func (x *Exec) ifaceOf(v Val, t types.Type) *Term {
	if c := ifaceCtorFor(t); c != "" {
		return Ctor(c, v.(*Term))
	}
	x.unsupported("interface comparison with " + t.String())
	return nil
}

func (w *World) typeID(t types.Type) *Term {
	k := typeKey(t)
	id, ok := w.typeIDs[k]
	if !ok {
		id = len(w.typeIDs) + 1
		w.typeIDs[k] = id
		w.typeVals[k] = t
	}
	return BV(uint64(id), 32)
}

func (x *Exec) makeIface(p *Path, v Val, t types.Type) *Term {
	if c := ifaceCtorFor(t); c != "" {
		return Ctor(c, v.(*Term))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(*Term)
	}
	// box
	r := RefLit(p.nextRef)
	p.nextRef++
	H := p.heap.get("#type", bvSort(32))
	p.heap.m["#type"] = Store(H, r, x.w.typeID(t))
	if pv, ok := v.(PtrV); ok && pv.Path != "" {
		x.notes["interior pointer boxed"] = true
		return Ctor("IOther", r)
	}
	ts := x.flattenAny(v, t)
	for i, l := range leaves(t) {
		key := "box(" + typeKey(t) + ")" + l.suffix
		B := p.heap.get(key, l.sort)
		p.heap.m[key] = Store(B, r, ts[i])
	}
	return Ctor("IOther", r)
}

func (x *Exec) unbox(p *Path, i *Term, t types.Type) (Val, *Term) {
	if c := ifaceCtorFor(t); c != "" {
		return CtorArg(c, i), IsCtor(c, i)
	}
	r := CtorArg("IOther", i)
	ok := And(IsCtor("IOther", i), Eq(Select(p.heap.get("#type", bvSort(32)), r), x.w.typeID(t)))
	var ts []*Term
	for _, l := range leaves(t) {
		key := "box(" + typeKey(t) + ")" + l.suffix
		ts = append(ts, Select(p.heap.get(key, l.sort), r))
	}
	v := x.unflatten(ts, t, nil)
	x.assumeWF(p, v)
	return v, ok
}

func (x *Exec) typeAssert(p *Path, i *ssa.TypeAssert) bool {
	f := p.top()
	v := x.get(p, i.X).(*Term)
	if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		if i.CommaOk {
			x.unsupported("interface to interface assertion")
		}
		f.env[i] = v
		return true
	}
	r, ok := x.unbox(p, v, i.AssertedType)
	if i.CommaOk {
		z := x.zero(i.AssertedType)
		f.env[i] = TupleV{x.iteVal(ok, r, z), ok}
		return true
	}
	if !x.mayPanic(p, Not(ok), "type assertion", i) {
		return false
	}
	f.env[i] = r
	return true
}

// ---- iterators ----

func (x *Exec) setIter(p *Path, r ssa.Value, pos *Term) {
	f := p.top()
	it := f.env[r].(IterV)
	f.env[r] = it
	f.env[iterKey{r}] = pos
}

// iterKey is an environment key for the position of an iterator.
type iterKey struct{ ssa.Value }

func (x *Exec) next(p *Path, i *ssa.Next) bool {
	f := p.top()
	it := f.env[i.Iter].(IterV)
	pos := f.env[iterKey{i.Iter}].(*Term)
	tt := i.Type().(*types.Tuple)
	if it.Str != nil {
		s := it.Str
		n := SLen(s)
		ok := Ult(pos, n)
		b := SAt(s, pos)
		ascii := Ult(b, BV(0x80, 8))
		r := Ite(ascii, Zext(b, 32), App("utf8rune", bvSort(32), s, pos))
		w := Ite(ascii, BV64(1), App("utf8width", bvSort(64), s, pos))
		np := Add(pos, w)
		// UTF-8 decoding: a non-ASCII rune covers 1..4 bytes, all >= 0x80
		ur, uw := App("utf8rune", bvSort(32), s, pos), App("utf8width", bvSort(64), s, pos)
		p.assume(Implies(And(ok, Not(ascii)), And(Ule(BV(0x80, 32), ur), Ult(ur, BV(0x110000, 32)), Ule(BV64(1), uw), Ule(uw, BV64(4)), Ule(Add(pos, uw), n))))
		for k := uint64(1); k < 4; k++ {
			p.assume(Implies(And(ok, Not(ascii), Ult(BV64(k), uw)), Ule(BV(0x80, 8), SAt(s, Add(pos, BV64(k))))))
		}
		if !x.spec && ok != False {
			// one path for each width of a rune outside ASCII, one for ASCII and the end
			multi := And(ok, Not(ascii))
			if x.feasible(p, multi) {
				for k := uint64(1); k <= 4; k++ {
					q := p.clone()
					q.assume(multi)
					q.assume(Eq(uw, BV64(k)))
					q.assume(Ule(Add(pos, BV64(k)), n))
					if q.dead {
						continue
					}
					q.top().env[i] = TupleV{True, pos, ur}
					q.top().env[iterKey{i.Iter}] = Add(pos, BV64(k))
					x.work = append(x.work, q)
				}
			}
			p.assume(Or(Not(ok), ascii))
			f.env[i] = TupleV{ok, pos, Zext(b, 32)}
			f.env[iterKey{i.Iter}] = Ite(ok, Add(pos, BV64(1)), pos)
			return !p.dead
		}
		f.env[i] = TupleV{ok, pos, r}
		f.env[iterKey{i.Iter}] = Ite(ok, np, pos)
		return true
	}
	m := *it.Map
	ks := mapKeySort(x, m.T)
	k := Fresh("key", ks)
	ok := Fresh("more", sortBool)
	// Go: keys removed before being reached are not produced; keys added may or may not be.
	dom := x.mapDom(p.heap, m)
	base := x.mapDom(it.Base, m)
	v, _ := x.mapGet(p, m, k)
	p.assume(Implies(ok, And(Not(Eq(m.Ref, RefLit(0))), Select(dom, k), Not(Select(pos, k)))))
	b := BoundVar("mk", ks)
	p.assume(Implies(Not(ok), Forall(b, Implies(And(Select(base, b), Select(dom, b), Not(Eq(m.Ref, RefLit(0)))), Select(pos, b)))))
	var kv, vv Val = k, v
	if tt.At(1).Type() == types.Typ[types.Invalid] {
		kv = BV64(0)
	}
	if tt.At(2).Type() == types.Typ[types.Invalid] {
		vv = BV64(0)
	}
	f.env[i] = TupleV{ok, kv, vv}
	f.env[iterKey{i.Iter}] = Ite(ok, Store(pos, k, True), pos)
	return true
}
