package main

// Calls: inlining, contracts, closures and specification functions.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

// call executes a call instruction; false when the path ended.
func (x *Exec) call(p *Path, i *ssa.Call) bool {
	f := p.top()
	c := &i.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.get(p, a))
	}
	if c.IsInvoke() {
		recv := x.get(p, c.Value)
		return x.invoke(p, i, c.Method.Name(), recv, args)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, ok := x.builtinCall(p, i, b.Name(), args)
		if !ok {
			return false
		}
		f.env[i] = v
		return true
	}
	fv, ok := x.get(p, c.Value).(FuncV)
	if !ok {
		x.unsupported("call of unknown function value")
	}
	return x.callFn(p, i, fv, args)
}

func (x *Exec) callFn(p *Path, i *ssa.Call, fv FuncV, args []Val) bool {
	f := p.top()
	fn := fv.Fn
	name := fullName(fn)
	if x.w.isNoEffect(fn) {
		f.env[i] = x.freshResults(p, fn)
		return true
	}
	if fn.Name() == "govcAll" || fn.Name() == "govcEx" {
		f.env[i] = x.quant(p, fn.Name() == "govcAll", args)
		return true
	}
	if m, ok := builtins[name]; ok {
		v, ok := m(x, p, i, args)
		if !ok {
			return false
		}
		f.env[i] = v
		return true
	}
	if x.spec {
		f.env[i] = x.evalPure(p, fv, args)
		return true
	}
	if ct := x.w.contracts[fn]; ct != nil && !ct.Inline && !(x.bounded > 0) {
		return x.applyContract(p, i, ct, args)
	}
	if fn.Blocks == nil {
		x.unsupported("call of " + name + " (no body, no model)")
	}
	if x.w.isSpecFn(fn) {
		f.env[i] = x.evalPure(p, fv, args)
		return true
	}
	return x.pushCall(p, fv, args, i, i, false)
}

func (x *Exec) freshResults(p *Path, fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return TupleV{}
	case 1:
		return x.freshVal(p, fn.Name(), rs.At(0).Type(), false)
	}
	return x.freshVal(p, fn.Name(), rs, false)
}

// pushCall enters a function body.
func (x *Exec) pushCall(p *Path, fvv Val, args []Val, retTo ssa.Value, in ssa.Instruction, isDefer bool) bool {
	fv, ok := fvv.(FuncV)
	if !ok {
		x.unsupported("deferred call of unknown function")
	}
	fn := fv.Fn
	if isDefer {
		if x.w.isNoEffect(fn) {
			return false
		}
		if _, ok := builtins[fullName(fn)]; ok {
			return false // deferred library calls (file.Close) have no effect we track
		}
	}
	if fn.Blocks == nil {
		x.unsupported("call of " + fullName(fn))
	}
	for _, g := range p.frames {
		if g.fn == fn {
			x.unsupported("recursive call of " + fn.Name())
		}
	}
	if len(p.frames) > 20 {
		x.unsupported("call depth")
	}
	if !isDefer {
		x.inlined[fullName(fn)] = true
	}
	g := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopState{}, unroll: map[*ssa.BasicBlock]int{},
		block: fn.Blocks[0], isDefer: isDefer, retTo: retTo, spec: x.w.contracts[fn], params: args, entryHeap: p.heap.clone(), entryOut: p.out}
	for k, prm := range fn.Params {
		g.env[prm] = args[k]
	}
	for k, fvr := range fn.FreeVars {
		g.env[fvr] = fv.Free[k]
	}
	p.frames = append(p.frames, g)
	return true
}

func (x *Exec) invoke(p *Path, i *ssa.Call, method string, recv Val, args []Val) bool {
	f := p.top()
	t, ok := recv.(*Term)
	if !ok || method != "Error" {
		x.unsupported("interface call " + method)
	}
	if !x.mayPanic(p, Eq(t, INil), "nil error: method call", i) {
		return false
	}
	f.env[i] = App("errtext", sortStr, t)
	return true
}

// ---- contracts at call sites ----

func (x *Exec) applyContract(p *Path, i *ssa.Call, ct *Contract, args []Val) bool {
	f := p.top()
	x.callees[ct.Name] = true
	pos := x.pos(i)
	for k, prm := range ct.Fn.Params {
		// implicit preconditions: pointer arguments are not nil
		if pv, ok := args[k].(PtrV); ok && !ct.nilOK[prm.Name()] {
			x.oblige(p, fmt.Sprintf("call %s: argument %d is not nil", ct.FnName, k), pos, Not(Eq(pv.Ref, RefLit(0))))
			p.assume(Not(Eq(pv.Ref, RefLit(0))))
		}
	}
	// A pointer to a field: the callee is verified for pointers to separate objects, so
	// the field is copied to an object of its own for the call and copied back after it.
	// That is the same when the callee cannot reach the field's object in another way.
	type copyBack struct{ from, to PtrV }
	var back []copyBack
	for k := range ct.Fn.Params {
		pv, ok := args[k].(PtrV)
		if !ok || pv.Path == "" {
			continue
		}
		if !scalarPtr(pv) {
			x.unsupported("interior pointer passed to " + ct.FnName)
		}
		for j, o := range ct.Fn.Params {
			if j == k {
				continue
			}
			if ov, ok := args[j].(PtrV); reachesType(o.Type(), pv.Root, 0) || ok && ov.Path != "" && types.Identical(ov.Root, pv.Root) {
				x.unsupported("interior pointer passed to " + ct.FnName + " along with its object")
			}
		}
		tmp := PtrV{Root: pv.T, Ref: x.newObj(p, pv.T), Idx: BV64(0), T: pv.T}
		x.store(p, tmp, x.load(p, pv))
		if len(back) == 0 {
			args = append([]Val(nil), args...)
		}
		args[k] = tmp
		back = append(back, copyBack{tmp, pv})
	}
	b := &binding{ct: ct, params: args, pre: p.heap.clone(), outPre: p.out}
	for k, c := range ct.Requires {
		g := x.evalClause(p, c, b)
		x.oblige(p, fmt.Sprintf("call %s: requires %d: %s", ct.FnName, k+1, c.Text), pos, g)
		p.assume(g)
	}
	var evText *Term
	if ct.Event != nil {
		evText = x.evalClauseVal(p, ct.Event, b).(*Term)
	}
	effects := func(q *Path) {
		q.nextRef += 0x100
		for _, md := range ct.Modifies {
			x.havocVal2(q, x.evalClauseVal(p, md, b), ct.FnName)
		}
		ek := x.everyKeys(ct)
		for _, key := range sortedKeys(ek) {
			q.heap.m[key] = Fresh("call/"+key, arrSort(sortRef, ek[key]))
		}
		fk := ct.freshKeys(x)
		for _, key := range sortedKeys(fk) {
			q.heap.m[key] = Havoc(q.heap.get(key, fk[key]), uint64(q.nextRef)-0x100, "call/"+key)
		}
		for _, c := range back {
			x.store(q, c.to, x.load(q, c.from))
		}
		if ct.Event != nil {
			q.out = StrCat(StrCat(q.out, evText), StrLit("!panic"))
		} else if ct.Output {
			q.out = StrCat(q.out, Fresh("out/"+ct.FnName, sortStr))
		}
		for _, c := range ct.OnPanic {
			q.assume(x.evalClause(q, c, b))
		}
	}
	if ct.PanicsAny {
		if !x.mayPanicIn(p, Fresh("panics", sortBool), "callee "+ct.FnName+" may panic", i, effects) {
			return false
		}
	} else if ct.Panics != nil {
		g := x.evalClause(p, ct.Panics, b)
		if ct.MayPanic {
			g = And(g, Fresh("panics", sortBool))
		}
		if !x.mayPanicIn(p, g, "callee "+ct.FnName+" panics", i, effects) {
			return false
		}
	}
	if p.dead {
		return false
	}
	// effects
	freshFrom := freshCount
	p.nextRef += 0x100
	for _, md := range ct.Modifies {
		x.havocVal2(p, x.evalClauseVal(p, md, b), ct.FnName)
	}
	if ct.AnyEffect {
		x.unsupported("call of " + ct.Name + ", whose effect is not specified")
	}
	ek := x.everyKeys(ct)
	for _, key := range sortedKeys(ek) {
		p.heap.m[key] = Fresh("call/"+key, arrSort(sortRef, ek[key]))
	}
	fk := ct.freshKeys(x)
	for _, key := range sortedKeys(fk) {
		s := fk[key]
		H := p.heap.get(key, s)
		p.heap.m[key] = Havoc(H, uint64(p.nextRef)-0x100, "call/"+key)
	}
	b.out = StrLit("")
	if ct.Output {
		b.out = Fresh("out/"+ct.FnName, sortStr)
	}
	rs := ct.Fn.Signature.Results()
	b.results = nil
	for k := 0; k < rs.Len(); k++ {
		b.results = append(b.results, x.freshVal(p, ct.FnName+"."+fmt.Sprint(k), rs.At(k).Type(), false))
	}
	if ct.FreshResult {
		for k, r := range b.results {
			if sv, ok := r.(SliceV); ok && sv.Ref.Op == OVar {
				lo, hi := uint64(p.nextRef)-0x100, uint64(p.nextRef)
				refBounds[sv.Ref] = [2]uint64{lo, hi}
				p.assume(And(mk(OUle, sortBool, 0, "", nil, BV(lo, RefW), sv.Ref), mk(OUlt, sortBool, 0, "", nil, sv.Ref, BV(hi, RefW))))
				isnil := Fresh(ct.FnName+"#nil", sortBool)
				p.assume(Implies(isnil, Eq(sv.Cap, BV64(0))))
				sv.Ref = Ite(isnil, RefLit(0), sv.Ref)
				b.results[k] = sv
			}
		}
	}
	if ct.OutputC != nil {
		b.out = x.evalClauseVal(p, ct.OutputC, b).(*Term)
	}
	for k, c := range ct.Returns {
		if c != nil {
			b.results[k] = x.evalClauseVal(p, c, b)
		}
	}
	var facts []*Term
	for _, c := range ct.Ensures {
		facts = append(facts, x.evalClause(p, c, b))
	}
	// equations defining the values made just now are applied as substitutions
	sub := map[*Term]*Term{}
	var rest []*Term
	for _, g := range facts {
		rest = append(rest, splitDefs(g, freshFrom, sub)...)
	}
	if len(sub) > 0 {
		sb := newSubst(sub)
		for k := range b.results {
			b.results[k] = sb.val(b.results[k])
		}
		for _, k := range sortedKeys(p.heap.m) {
			h := p.heap.m[k]
			p.heap.m[k] = sb.term(h)
		}
		b.out = sb.term(b.out)
		for k := range rest {
			rest[k] = sb.term(rest[k])
		}
		for k := range p.pc {
			if p.pc[k].hasFreshSince(freshFrom) {
				n := make([]*Term, len(p.pc))
				for j := range p.pc {
					n[j] = sb.term(p.pc[j])
				}
				p.pc = n
				break
			}
		}
	}
	for _, g := range rest {
		p.assume(g)
	}
	for _, c := range back {
		x.store(p, c.to, x.load(p, c.from))
	}
	if evText != nil {
		p.out = StrCat(p.out, evText)
	} else {
		p.out = StrCat(p.out, b.out)
	}
	switch len(b.results) {
	case 0:
		f.env[i] = TupleV{}
	case 1:
		f.env[i] = b.results[0]
	default:
		f.env[i] = TupleV(b.results)
	}
	return !p.dead
}

// reachesType: can a value of type t lead to an object of type root?
func reachesType(t, root types.Type, d int) bool {
	if d > 6 {
		return true
	}
	if types.Identical(t, root) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reachesType(u.Elem(), root, d+1)
	case *types.Slice:
		return reachesType(u.Elem(), root, d+1)
	case *types.Array:
		return reachesType(u.Elem(), root, d+1)
	case *types.Map:
		return reachesType(u.Key(), root, d+1) || reachesType(u.Elem(), root, d+1)
	case *types.Struct:
		for k := 0; k < u.NumFields(); k++ {
			if reachesType(u.Field(k).Type(), root, d+1) {
				return true
			}
		}
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}

func scalarPtr(pv PtrV) bool {
	ls := leaves(pv.T)
	return len(ls) == 1
}

func (x *Exec) havocVal2(p *Path, v Val, name string) {
	switch w := v.(type) {
	case SliceV:
		for _, l := range leaves(w.Elem) {
			key := typeKey(w.Elem) + l.suffix
			H := p.heap.get(key, arrSort(bvSort(64), l.sort))
			p.heap.m[key] = Store(H, w.Ref, Fresh("call/"+key, arrSort(bvSort(64), l.sort)))
		}
	case PtrV:
		if w.Snap != nil {
			w.Snap = nil
		}
		for _, l := range leaves(w.T) {
			key := typeKey(w.Root) + w.Path + l.suffix
			H := p.heap.get(key, arrSort(bvSort(64), l.sort))
			p.heap.m[key] = Store(H, w.Ref, Store(Select(H, w.Ref), w.Idx, Fresh("call/"+key, l.sort)))
		}
	case MapV:
		ks := mapKeySort(x, w.T)
		keys := []leaf{{"#dom", sortBool}}
		keys = append(keys, leaves(w.T.Elem())...)
		for _, l := range keys {
			key := mapKey(w.T) + l.suffix
			H := p.heap.get(key, arrSort(ks, l.sort))
			p.heap.m[key] = Store(H, w.Ref, Fresh("call/"+key, arrSort(ks, l.sort)))
		}
	default:
		x.unsupported(fmt.Sprintf("modifies %T", v))
	}
}

// everyKeys: heap keys of the types all of whose objects the contract lets change.
func (x *Exec) everyKeys(ct *Contract) map[string]*Sort {
	out := map[string]*Sort{}
	for _, n := range ct.Every {
		k := strings.LastIndex(n, ".")
		var t types.Type
		for _, p := range x.w.pkgs {
			if k > 0 && p.Pkg.Name() == n[:k] {
				if o := p.Pkg.Scope().Lookup(n[k+1:]); o != nil {
					t = o.Type()
				}
			}
		}
		if t == nil {
			// a type of the standard library
			for _, p := range x.w.prog.AllPackages() {
				if k > 0 && p.Pkg.Path() == n[:k] {
					if o := p.Pkg.Scope().Lookup(n[k+1:]); o != nil {
						t = o.Type()
					}
				}
			}
		}
		if t == nil {
			x.unsupported("modifies every " + n + ": no such type")
		}
		for _, l := range leaves(t) {
			out[typeKey(t)+l.suffix] = arrSort(bvSort(64), l.sort)
		}
	}
	return out
}

// freshKeys: heap keys of objects reachable from slice results, whose new objects are unknown to the caller.
func (ct *Contract) freshKeys(x *Exec) map[string]*Sort {
	out := map[string]*Sort{}
	rs := ct.Fn.Signature.Results()
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		if d > 4 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			for _, l := range leaves(u.Elem()) {
				out[typeKey(u.Elem())+l.suffix] = arrSort(bvSort(64), l.sort)
			}
			walk(u.Elem(), d+1)
		case *types.Pointer:
			for _, l := range leaves(u.Elem()) {
				out[typeKey(u.Elem())+l.suffix] = arrSort(bvSort(64), l.sort)
			}
			walk(u.Elem(), d+1)
		case *types.Struct:
			for k := 0; k < u.NumFields(); k++ {
				walk(u.Field(k).Type(), d+1)
			}
		case *types.Map:
			ks := mapKeySort(x, u)
			out[mapKey(u)+"#dom"] = arrSort(ks, sortBool)
			for _, l := range leaves(u.Elem()) {
				out[mapKey(u)+l.suffix] = arrSort(ks, l.sort)
			}
			walk(u.Elem(), d+1)
		}
	}
	for k := 0; k < rs.Len(); k++ {
		walk(rs.At(k).Type(), 0)
	}
	for _, md := range ct.Modifies {
		walk(md.Fn.Signature.Results().At(0).Type(), 0)
	}
	return out
}

// ---- substitution ----

func (t *Term) hasFreshSince(n int) bool { return maxFresh(t) > n }

var maxFreshMemo = map[*Term]int{}

func maxFresh(t *Term) int {
	if v, ok := maxFreshMemo[t]; ok {
		return v
	}
	m := 0
	if t.Op == OVar {
		if k := strings.LastIndex(t.S, "!"); k >= 0 {
			fmt.Sscanf(t.S[k+1:], "%d", &m)
		}
	}
	for _, a := range t.Args {
		if v := maxFresh(a); v > m {
			m = v
		}
	}
	maxFreshMemo[t] = m
	return m
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// splitDefs moves equations v = t, v newer than n, into sub and returns the other conjuncts.
func splitDefs(g *Term, n int, sub map[*Term]*Term) []*Term {
	var rest []*Term
	for _, c := range flattenAnd(g) {
		if len(sub) > 0 {
			c = newSubst(sub).term(c)
		}
		if c == True {
			continue
		}
		if c.Op == OEq || (c.Op == OVar && c.Sort == sortBool) || (c.Op == ONot && c.Args[0].Op == OVar) {
			var a, b *Term
			switch c.Op {
			case OEq:
				a, b = c.Args[0], c.Args[1]
			case OVar:
				a, b = c, True
			default:
				a, b = c.Args[0], False
			}
			done := false
			for k := 0; k < 2 && !done; k++ {
				if a.Op == OVar && maxFresh(a) > n && !occurs(a, b) && b.bound == nil {
					one := newSubst(map[*Term]*Term{a: b})
					for v, t := range sub {
						sub[v] = one.term(t)
					}
					sub[a] = b
					done = true
				}
				a, b = b, a
			}
			if done {
				continue
			}
		}
		rest = append(rest, c)
	}
	return rest
}

type subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newSubst(m map[*Term]*Term) *subst { return &subst{m, map[*Term]*Term{}} }

func (s *subst) term(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = s.term(a)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	s.memo[t] = r
	return r
}

func (s *subst) val(v Val) Val {
	switch w := v.(type) {
	case *Term:
		return s.term(w)
	case SliceV:
		return SliceV{s.term(w.Ref), s.term(w.Off), s.term(w.Len), s.term(w.Cap), w.Elem, w.Snap}
	case PtrV:
		return PtrV{w.Root, s.term(w.Ref), s.term(w.Idx), w.Path, w.T, w.Snap}
	case MapV:
		return MapV{s.term(w.Ref), w.T, w.Snap}
	case StructV:
		r := StructV{T: w.T}
		for _, f := range w.F {
			r.F = append(r.F, s.val(f))
		}
		return r
	case TupleV:
		var r TupleV
		for _, f := range w {
			r = append(r, s.val(f))
		}
		return r
	}
	return v
}

// rebuild makes t's operator over new arguments, simplifying again.
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OAdd:
		l := &lin{ts: map[*Term]uint64{}, c: t.N}
		for i := range a {
			toLin(a[i], t.Cs[i], l)
		}
		return fromLin(l, t.Sort.W)
	case OMul:
		return Mul(a[0], a[1])
	case OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return BinBV(t.Op, a[0], a[1])
	case OBNot:
		return BNot(a[0])
	case OUlt:
		return Ult(a[0], a[1])
	case OUle:
		return Ule(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OSle:
		return Sle(a[0], a[1])
	case OConcat:
		return Concat(a[0], a[1])
	case OExtract:
		return Extract(a[0], int(t.N>>16), int(t.N&0xffff))
	case OZext:
		return Zext(a[0], t.Sort.W)
	case OSext:
		return Sext(a[0], t.Sort.W)
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OStrCat:
		return StrCat(a...)
	case OForall:
		return Forall(a[0], a[1])
	case OCtor:
		return Ctor(t.S, a...)
	case OTest:
		return IsCtor(t.S, a[0])
	case OSel:
		for _, c := range ifaceCtors {
			if c.sel == t.S {
				return CtorArg(c.name, a[0])
			}
		}
	case OApp:
		switch t.S {
		case "slen":
			return SLen(a[0])
		case "sat8":
			return SAt(a[0], a[1])
		case "substr":
			return SSub(a[0], a[1], a[2])
		case "bstr":
			return BStr(a[0], a[1], a[2])
		case "chr":
			return Chr(a[0])
		}
		return mk(OApp, t.Sort, 0, t.S, nil, a...)
	case OCopy:
		return CopyArr(a[0], a[1], a[2], a[3], a[4])
	}
	return mk(t.Op, t.Sort, t.N, t.S, t.Cs, a...)
}
