package main

// Evaluation of specification functions and contract clauses.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type binding struct {
	ct      *Contract
	params  []Val
	results []Val
	pre     *Heap
	outPre  *Term
	out     *Term
	local   func(name string) Val
	k       *Term
	kn      func(n int) Val
	pos     *Term
}

// withSnap redirects reads through v to heap h.
func withSnap(v Val, h *Heap) Val {
	switch w := v.(type) {
	case SliceV:
		w.Snap = h
		return w
	case PtrV:
		w.Snap = h
		return w
	case MapV:
		w.Snap = h
		return w
	case StructV:
		r := StructV{T: w.T}
		for _, f := range w.F {
			r.F = append(r.F, withSnap(f, h))
		}
		return r
	}
	return v
}

func (x *Exec) clauseArgs(c *Clause, b *binding) []Val {
	var args []Val
	for _, pr := range c.Params {
		var v Val
		switch pr.Kind {
		case "param":
			if b.local != nil && pr.Local {
				v = b.local(pr.Name)
			}
			if v == nil {
				v = b.params[pr.Index]
			}
		case "old":
			v = withSnap(b.params[pr.Index], b.pre)
		case "result":
			v = b.results[pr.Index]
		case "local":
			v = b.local(pr.Name)
			if v == nil {
				x.unsupported("specification names variable " + pr.Name + " which the code does not have here")
			}
		case "K":
			v = b.k
		case "Kn":
			if b.kn != nil {
				v = b.kn(pr.Index)
			}
		case "POS":
			v = b.pos
		case "OUT":
			v = b.out
		default:
			panic("clause param kind " + pr.Kind)
		}
		if v == nil {
			x.unsupported("no value for " + pr.Name + " in clause " + c.Text)
		}
		args = append(args, v)
	}
	return args
}

func (x *Exec) evalClauseVal(p *Path, c *Clause, b *binding) Val {
	return x.evalPure(p, FuncV{Fn: c.Fn}, x.clauseArgs(c, b))
}

func (x *Exec) evalClause(p *Path, c *Clause, b *binding) *Term {
	return x.evalClauseVal(p, c, b).(*Term)
}

// evalPure evaluates a function as an expression: both sides of every branch, merged.
func (x *Exec) evalPure(p *Path, fv FuncV, args []Val) Val {
	fn := fv.Fn
	if x.w.recursive(fn) {
		return x.recApp(p, fn, args)
	}
	if fn.Blocks == nil {
		x.unsupported("specification calls " + fullName(fn))
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 60 {
		x.unsupported("specification call depth")
	}
	was := x.spec
	if !was || x.snaps == nil {
		x.snaps = map[snapKey]*Heap{}
	}
	x.spec = true
	defer func() { x.spec = was }()
	root := p
	for root.parent != nil {
		root = root.parent
	}
	q := &Path{heap: p.heap.clone(), out: p.out, nextRef: p.nextRef, parent: root}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopState{}, unroll: map[*ssa.BasicBlock]int{}, block: fn.Blocks[0], params: args}
	for k, prm := range fn.Params {
		f.env[prm] = args[k]
	}
	for k, v := range fn.FreeVars {
		f.env[v] = fv.Free[k]
	}
	q.frames = []*Frame{f}
	steps := 0
	return x.pureRun(q, &steps)
}

func (x *Exec) pureRun(q *Path, steps *int) Val {
	for {
		f := q.top()
		*steps++
		if *steps > 200000 {
			x.unsupported("specification function too large: " + f.fn.Name())
		}
		in := f.block.Instrs[f.idx]
		f.idx++
		switch i := in.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.pureJump(q, f.block.Succs[0])
			continue
		case *ssa.If:
			c := x.get(q, i.Cond).(*Term)
			if c == True {
				x.pureJump(q, f.block.Succs[0])
				continue
			}
			if c == False {
				x.pureJump(q, f.block.Succs[1])
				continue
			}
			q2 := q.clone()
			succ := f.block.Succs
			x.pureJump(q, succ[0])
			a := x.pureRun(q, steps)
			x.pureJump(q2, succ[1])
			b := x.pureRun(q2, steps)
			if a == nil {
				return b
			}
			if b == nil {
				return a
			}
			return x.iteVal(c, a, b)
		case *ssa.Return:
			switch len(i.Results) {
			case 0:
				return TupleV{}
			case 1:
				return x.get(q, i.Results[0])
			}
			var t TupleV
			for _, r := range i.Results {
				t = append(t, x.get(q, r))
			}
			return t
		case *ssa.Panic:
			return nil
		case *ssa.Call:
			if !x.call(q, i) {
				return nil
			}
			continue
		case *ssa.RunDefers:
			continue
		}
		if !x.step(q, in) {
			return nil
		}
	}
}

func (x *Exec) pureJump(q *Path, b *ssa.BasicBlock) {
	f := q.top()
	f.unroll[b]++
	if f.unroll[b] > 300 {
		x.unsupported("loop in specification function " + f.fn.Name())
	}
	x.doPhis(q, b, f.block)
}

// ---- recursive specification functions ----

type recDef struct {
	fn     *ssa.Function
	sort   *Sort
	name   string
	opaque bool

	recursive bool // calls itself
}

var recDefs = map[string]*recDef{}

func (w *World) recursive(fn *ssa.Function) bool {
	if r, ok := w.recCache[fn]; ok {
		return r
	}
	w.recCache[fn] = false
	r := false
	if w.isSpecFn(fn) {
		r = fn.Pkg != nil && opaqueFns[fn.Pkg.Pkg.Name()+"."+fn.Name()]
		r = r || callsItself(fn)
	}
	w.recCache[fn] = r
	return r
}

func callsItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func (x *Exec) recApp(p *Path, fn *ssa.Function, args []Val) Val {
	name := "spec/" + fn.Pkg.Pkg.Name() + "." + fn.Name()
	res := fn.Signature.Results().At(0).Type()
	s := scalarSort(res)
	if s == nil {
		x.unsupported("recursive specification function " + fn.Name() + " must return a scalar")
	}
	if recDefs[name] == nil {
		recDefs[name] = &recDef{fn: fn, sort: s, name: name, opaque: opaqueFns[strings.TrimPrefix(name, "spec/")], recursive: callsItself(fn)}
	}
	var ts []*Term
	for k, a := range args {
		ts = append(ts, x.canonArgs(p, a, fn.Params[k].Type())...)
	}
	t := mk(OApp, s, 0, name, nil, ts...)
	// unfold at once when the function decides by constants
	if allConst(ts) {
		if d := x.w.unfold(t); d != nil && d.isConst() {
			return d
		}
	}
	return t
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

// hkey is one heap array: its key and the sort of the array per reference.
type hkey struct {
	key   string
	inner *Sort
}

// reachKeys lists the heap arrays that can be reached through a value of type t, leaving out those in skip.
func (x *Exec) reachKeys(t types.Type, skip map[string]bool) []hkey {
	var out []hkey
	done := map[string]bool{}
	add := func(k string, s *Sort) bool {
		if done[k] {
			return false
		}
		done[k] = true
		if !skip[k] {
			out = append(out, hkey{k, s})
		}
		return true
	}
	var elems func(t types.Type)
	var walk func(t types.Type)
	elems = func(t types.Type) {
		for _, l := range leaves(t) {
			add(typeKey(t)+l.suffix, arrSort(bvSort(64), l.sort))
		}
		walk(t)
	}
	seen := map[string]bool{}
	walk = func(t types.Type) {
		k := typeKey(t)
		if seen[k] {
			return
		}
		seen[k] = true
		if ls := leaves(t); len(ls) >= 1 && strings.HasPrefix(ls[0].suffix, "#") && ls[0].suffix != "#ref" {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			elems(u.Elem())
		case *types.Pointer:
			elems(u.Elem())
		case *types.Map:
			if ks := scalarSort(u.Key()); ks != nil {
				add(mapKey(u)+"#dom", arrSort(ks, sortBool))
				for _, l := range leaves(u.Elem()) {
					add(mapKey(u)+l.suffix, arrSort(ks, l.sort))
				}
				walk(u.Elem())
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			walk(u.Elem())
		}
	}
	walk(t)
	return out
}

// nestedOf: the heap arrays a parameter of a recursive specification function needs besides its own elements.
func (x *Exec) nestedOf(t types.Type) []hkey {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		skip := map[string]bool{}
		for _, l := range leaves(sl.Elem()) {
			skip[typeKey(sl.Elem())+l.suffix] = true
		}
		return x.reachKeys(sl.Elem(), skip)
	}
	return x.reachKeys(t, nil)
}

const canonRef = 0x7fffff01

// canonArgs passes a value by content.
func (x *Exec) canonArgs(p *Path, v Val, t types.Type) []*Term {
	var out []*Term
	var snap *Heap
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case SliceV:
		snap = w.Snap
		h := x.heapFor(p, w.Snap)
		for _, l := range leaves(w.Elem) {
			out = append(out, x.inner(h, typeKey(w.Elem)+l.suffix, l.sort, w.Ref))
		}
		out = append(out, w.Off, w.Len)
	case StructV:
		snap = snapOf(w)
		out = x.flattenAny(w, t)
	case PtrV:
		snap = w.Snap
		out = x.flattenAny(w, t)
	case MapV:
		snap = w.Snap
		out = x.flattenAny(w, t)
	default:
		x.unsupported(fmt.Sprintf("argument %T of a recursive specification function", v))
	}
	h := x.heapFor(p, snap)
	for _, k := range x.nestedOf(t) {
		H := h.get(k.key, k.inner)
		for H.Op == OStore && H.Args[1].isConst() && H.Args[1].N >= canonRef {
			H = H.Args[0]
		}
		out = append(out, H)
	}
	return out
}

// snapOf finds the state a structure's references belong to.
func snapOf(v Val) *Heap {
	switch w := v.(type) {
	case SliceV:
		return w.Snap
	case PtrV:
		return w.Snap
	case MapV:
		return w.Snap
	case StructV:
		for _, f := range w.F {
			if h := snapOf(f); h != nil {
				return h
			}
		}
	}
	return nil
}

var unfoldMemo = map[*Term]*Term{}
var unfolding = map[*Term]bool{}

// unfold gives the defining equation's right-hand side for an application.
func (w *World) unfold(t *Term) *Term {
	if d, ok := unfoldMemo[t]; ok {
		return d
	}
	if unfolding[t] {
		return nil
	}
	unfolding[t] = true
	defer delete(unfolding, t)
	d := recDefs[t.S]
	x := &Exec{w: w, c: &Contract{}, spec: true, notes: map[string]bool{}, callees: map[string]bool{}, inlined: map[string]bool{}}
	h := &Heap{m: map[string]*Term{}, strict: true}
	q := &Path{heap: h, out: StrLit(""), nextRef: FreshBase}
	var args []Val
	rest := t.Args
	ref := canonRef
	for _, prm := range d.fn.Params {
		if scalarSort(prm.Type()) != nil {
			rest = rest[1:]
			continue
		}
		n := len(leaves(prm.Type()))
		if sl, ok := prm.Type().Underlying().(*types.Slice); ok {
			n = len(leaves(sl.Elem())) + 2
		}
		rest = rest[n:]
		for _, k := range x.nestedOf(prm.Type()) {
			h.m[k.key] = rest[0]
			rest = rest[1:]
		}
	}
	rest = t.Args
	for _, prm := range d.fn.Params {
		switch u := prm.Type().Underlying().(type) {
		case *types.Slice:
			r := RefLit(ref)
			ref++
			for _, l := range leaves(u.Elem()) {
				key := typeKey(u.Elem()) + l.suffix
				H, ok := h.m[key]
				if !ok {
					H = NamedVar("canon/"+key, arrSort(sortRef, arrSort(bvSort(64), l.sort)))
				}
				h.m[key] = Store(H, r, rest[0])
				rest = rest[1:]
			}
			args = append(args, SliceV{r, rest[0], rest[1], rest[1], u.Elem(), nil})
			rest = rest[2:]
		default:
			n := len(leaves(prm.Type()))
			args = append(args, x.unflatten(rest[:n], prm.Type(), nil))
			rest = rest[n:]
		}
		if scalarSort(prm.Type()) == nil {
			rest = rest[len(x.nestedOf(prm.Type())):]
		}
	}
	x.spec = true
	f := &Frame{fn: d.fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopState{}, unroll: map[*ssa.BasicBlock]int{}, block: d.fn.Blocks[0], params: args}
	for k, prm := range d.fn.Params {
		f.env[prm] = args[k]
	}
	q.frames = []*Frame{f}
	q.parent = &Path{heap: h, out: StrLit("")}
	steps := 0
	v := x.pureRun(q, &steps).(*Term)
	unfoldMemo[t] = v
	return v
}

// ---- quantifiers ----

func (x *Exec) quant(p *Path, all bool, args []Val) Val {
	lo, hi := args[0].(*Term), args[1].(*Term)
	fv := args[2].(FuncV)
	v := BoundVar("q", bvSort(64))
	body := x.evalPure(p, fv, []Val{v}).(*Term)
	rng := And(Sle(lo, v), Slt(v, hi))
	if lo.isConst() && lo.N == 0 {
		// 0 <= v < hi, as one comparison when hi cannot be negative
		if nonNegLen(hi) {
			rng = Ult(v, hi)
		}
	}
	if all {
		return Forall(v, Implies(rng, body))
	}
	return Exists(v, And(rng, body))
}

func nonNegLen(t *Term) bool {
	if t.isConst() {
		return int64(t.N) >= 0
	}
	return false
}

// ---- loop clauses ----

func (x *Exec) evalLoopClause(p *Path, f *Frame, L *Loop, c *Clause) *Term {
	b := x.loopBinding(p, f, L)
	return x.evalClause(p, c, b)
}

func (x *Exec) loopBinding(p *Path, f *Frame, L *Loop) *binding {
	ls := f.loops[L.header]
	b := &binding{ct: f.spec, params: f.params, pre: f.entryHeap, out: p.out, k: ls.K}
	if f.entryOut != nil && p.out != f.entryOut {
		b.out = strAfter(p.out, f.entryOut)
	}
	if f.entryOut == p.out {
		b.out = StrLit("")
	}
	for _, blk := range blocksOf(L.blocks) {
		for _, in := range blk.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if t, ok := f.env[iterKey{nx.Iter}].(*Term); ok && blk == L.header {
					b.pos = t
				}
			}
		}
	}
	if b.pos == nil {
		b.pos = ls.K // a counting loop: the number of completed rounds
	}
	b.local = func(name string) Val { return x.localVar(p, f, L, name) }
	b.kn = func(n int) Val {
		for h, l := range f.loops {
			if m := x.w.loopInfo(f.fn).byHeader[h]; m != nil && m.num == n {
				return l.K
			}
		}
		return nil
	}
	return b
}

// strAfter removes the prefix pre from the rope t.
func strAfter(t, pre *Term) *Term {
	a, b := strParts(t), strParts(pre)
	if len(b) <= len(a) {
		ok := true
		for i := range b {
			if a[i] != b[i] {
				if i == len(b)-1 && a[i].isConst() && b[i].isConst() && len(a[i].S) >= len(b[i].S) && a[i].S[:len(b[i].S)] == b[i].S {
					rest := append([]*Term{StrLit(a[i].S[len(b[i].S):])}, a[i+1:]...)
					return StrCat(rest...)
				}
				ok = false
				break
			}
		}
		if ok {
			return StrCat(a[len(b):]...)
		}
	}
	return t
}

// localVar finds the current value of a source variable at the header of L.
func (x *Exec) localVar(p *Path, f *Frame, L *Loop, name string) Val {
	// a phi of the header carrying that variable
	for _, in := range L.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if phi.Comment == name {
			return f.env[phi]
		}
	}
	type cand struct {
		v    ssa.Value
		addr bool
	}
	var best *cand
	var bestBlk *ssa.BasicBlock
	bestIdx := -1
	consider := func(v ssa.Value, addr bool) {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
			blk := in.Block()
			if !blk.Dominates(L.header) {
				return
			}
			if blk == L.header {
				// computable in the header
				if addr {
					return
				}
				best, bestBlk, bestIdx = &cand{v, addr}, blk, 1<<30
				return
			}
			if _, have := f.env[v]; !have {
				return
			}
			idx := 0
			for k, q := range blk.Instrs {
				if q == in {
					idx = k
				}
			}
			if bestBlk == nil || bestBlk != blk && bestBlk.Dominates(blk) || bestBlk == blk && idx > bestIdx {
				best, bestBlk, bestIdx = &cand{v, addr}, blk, idx
			}
			return
		}
		if best == nil {
			best = &cand{v, addr}
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil && d.Object().Name() == name {
				if _, isVar := d.Object().(*types.Var); isVar {
					consider(d.X, d.IsAddr)
				}
			}
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				consider(a, true)
			}
		}
	}
	if best == nil {
		return nil
	}
	if best.addr {
		pv, ok := x.get(p, best.v).(PtrV)
		if !ok {
			return nil
		}
		q := x.specPath(p)
		return x.load(q, pv)
	}
	if in, ok := best.v.(ssa.Instruction); ok && in.Block() == L.header {
		q := x.specPath(p)
		return x.evalHeader(q, L, best.v)
	}
	return x.get(p, best.v)
}

// assumeDef assumes g; an equation for a variable made at this point replaces the variable.
func (x *Exec) assumeDef(p *Path, g *Term) {
	for _, c := range flattenAnd(g) {
		done := false
		if c.Op == OEq {
			a, b := c.Args[0], c.Args[1]
			for k := 0; k < 2 && !done; k++ {
				if a.Op == OVar && b.bound == nil && !occurs(a, b) && a.Sort != sortRef && maxFresh(a) > 0 && maxFresh(a) >= maxFresh(b) {
					x.substPath(p, map[*Term]*Term{a: b})
					done = true
				}
				a, b = b, a
			}
		}
		if !done {
			p.assume(c)
		}
	}
}

// decideNil: a slice that cannot be nil here is known not to be from here on.
func (x *Exec) decideNil(p *Path, sv SliceV) SliceV {
	r := sv.Ref
	if x.spec || r.Op != OIte || r.Args[0].Op != OVar || !r.Args[1].isConst() || r.Args[1].N != 0 {
		return sv
	}
	c := r.Args[0]
	if x.feasible(p, c) {
		return sv
	}
	m := map[*Term]*Term{c: False}
	x.substPath(p, m)
	return newSubst(m).val(sv).(SliceV)
}

func (x *Exec) substPath(p *Path, m map[*Term]*Term) {
	sb := newSubst(m)
	for _, f := range p.frames {
		for k, v := range f.env {
			f.env[k] = sb.val(v)
		}
		for k, ls := range f.loops {
			n := *ls
			n.K = sb.term(ls.K)
			n.measure = nil
			for _, t := range ls.measure {
				n.measure = append(n.measure, sb.term(t))
			}
			f.loops[k] = &n
		}
	}
	nh := p.heap.clone()
	for _, k := range sortedKeys(nh.m) {
		v := nh.m[k]
		nh.m[k] = sb.term(v)
	}
	p.heap = nh
	p.out = sb.term(p.out)
	var pc []*Term
	for _, t := range p.pc {
		pc = append(pc, sb.term(t))
	}
	p.pc = pc
}

// ---- function exit ----

func (x *Exec) checkExit(p *Path, rs []Val) {
	ct := x.c
	b := &binding{ct: ct, params: x.params, results: rs, pre: x.entry, out: p.out}
	pos := x.w.prog.Fset.Position(x.fn.Pos())
	ps := fmt.Sprintf("%s:%d", shortFile(pos.Filename), pos.Line)
	if ct.Panics != nil && !ct.PanicsAny && !ct.MayPanic {
		x.oblige(p, "returns normally only when it must not panic", ps, Not(x.panicPre))
	}
	for k, c := range ct.Returns {
		if c == nil {
			continue
		}
		v := x.evalClauseVal(p, c, b)
		x.oblige(p, fmt.Sprintf("result %d is %s", k, c.Text), ps, x.eqResult(p, rs[k], v))
	}
	for k, c := range ct.Ensures {
		x.oblige(p, fmt.Sprintf("ensures %d: %s", k+1, c.Text), ps, x.evalClause(p, c, b))
	}
	if ct.OutputC != nil {
		x.oblige(p, "output is "+ct.OutputC.Text, ps, Eq(p.out, x.evalClauseVal(p, ct.OutputC, b).(*Term)))
	} else if !ct.Output {
		x.oblige(p, "prints nothing", ps, Eq(p.out, StrLit("")))
	}
	if ct.FreshResult {
		for _, r := range rs {
			if sv, ok := r.(SliceV); ok {
				x.oblige(p, "result slice is newly made", ps, Or(Eq(sv.Ref, RefLit(0)), Ule(BV(FreshBase, RefW), sv.Ref)))
			}
		}
	}
	x.checkFrame(p, b, ps)
}

func (x *Exec) eqResult(p *Path, a, b Val) *Term {
	if s, ok := a.(SliceV); ok {
		w := b.(SliceV)
		// same content
		if isByte(s.Elem) {
			x.unsupported("returns clause on a slice: use ensures")
		}
		return And(Eq(s.Ref, w.Ref), Eq(s.Off, w.Off), Eq(s.Len, w.Len))
	}
	return x.eqVal(a, b)
}

// checkFrame: memory that existed at entry is unchanged except where modifies allows.
func (x *Exec) checkFrame(p *Path, b *binding, pos string) {
	type allow struct {
		ref, idx *Term
	}
	allowed := map[string][]allow{}
	for _, md := range x.c.Modifies {
		q := &Path{heap: x.entry.clone(), out: StrLit(""), nextRef: FreshBase, parent: p}
		q.frames = []*Frame{{fn: x.fn, env: map[ssa.Value]Val{}}}
		switch w := x.evalClauseVal(q, md, b).(type) {
		case SliceV:
			for _, l := range leaves(w.Elem) {
				k := typeKey(w.Elem) + l.suffix
				allowed[k] = append(allowed[k], allow{w.Ref, nil})
			}
		case PtrV:
			for _, l := range leaves(w.T) {
				k := typeKey(w.Root) + w.Path + l.suffix
				allowed[k] = append(allowed[k], allow{w.Ref, w.Idx})
			}
		case MapV:
			allowed[mapKey(w.T)+"#dom"] = append(allowed[mapKey(w.T)+"#dom"], allow{w.Ref, nil})
			for _, l := range leaves(w.T.Elem()) {
				k := mapKey(w.T) + l.suffix
				allowed[k] = append(allowed[k], allow{w.Ref, nil})
			}
		}
	}
	every := x.everyKeys(x.c)
	for _, k := range sortedKeys(p.heap.m) {
		h := p.heap.m[k]
		h0, ok := x.entry.m[k]
		if !ok {
			h0 = NamedVar("H0/"+k, h.Sort)
		}
		if h == h0 || x.c.AnyEffect || every[k] != nil {
			continue
		}
		var goals []*Term
		t := h
		for t != h0 {
			switch t.Op {
			case OStore:
				ref := t.Args[1]
				if lo, _ := refRange(ref); lo < FreshBase {
					ok := Or(Ule(BV(FreshBase, RefW), ref), Eq(ref, RefLit(0)))
					for _, a := range allowed[k] {
						if a.idx == nil {
							ok = Or(ok, Eq(ref, a.ref))
						} else {
							// only index a.idx may differ
							base := Select(t.Args[0], ref)
							w := t.Args[2]
							only := True
							for w != base && w.Op == OStore {
								only = And(only, Eq(w.Args[1], a.idx))
								w = w.Args[0]
							}
							for w != base && base.Op == OStore {
								only = And(only, Eq(base.Args[1], a.idx))
								base = base.Args[0]
							}
							if w == base {
								ok = Or(ok, And(Eq(ref, a.ref), only))
							}
						}
					}
					goals = append(goals, ok)
				}
				t = t.Args[0]
			case OHavoc:
				if t.N < FreshBase {
					goals = append(goals, False)
				}
				t = t.Args[0]
			default:
				goals = append(goals, False)
				t = h0
			}
		}
		x.oblige(p, "changes only what modifies allows ("+k+")", pos, And(goals...))
	}
}
