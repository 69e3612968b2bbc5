package main

// Loop cutting: invariants, havoc, induction variables, termination.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	num     int
}

type LoopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
	order    []*Loop
}

func (w *World) loopInfo(fn *ssa.Function) *LoopInfo {
	if li, ok := w.loopCache[fn]; ok {
		return li
	}
	li := &LoopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	w.loopCache[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := li.byHeader[s]
				if L == nil {
					L = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = L
				}
				L.latches = append(L.latches, b)
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if L.blocks[n] {
						continue
					}
					L.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	for _, L := range li.byHeader {
		li.order = append(li.order, L)
	}
	posOf := func(L *Loop) token.Pos {
		var best token.Pos
		for b := range L.blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue // a phi's position is that of the variable
				}
				if p := in.Pos(); p.IsValid() && (best == 0 || p < best) {
					best = p
				}
			}
		}
		return best
	}
	sort.Slice(li.order, func(i, j int) bool {
		a, b := posOf(li.order[i]), posOf(li.order[j])
		if a != b {
			return a < b
		}
		return li.order[i].header.Index < li.order[j].header.Index
	})
	for i, L := range li.order {
		L.num = i + 1
	}
	return li
}

// loopSpec finds the specification for a loop of the frame.
func (x *Exec) loopSpec(f *Frame, L *Loop) *LoopSpec {
	if f.spec == nil {
		return nil
	}
	for _, s := range f.spec.Loops {
		if s.Num == L.num {
			return s
		}
	}
	return nil
}

func constStep(phi *ssa.Phi, L *Loop) (int64, bool) {
	var step int64
	n := 0
	for k, e := range phi.Edges {
		if !L.blocks[phi.Block().Preds[k]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		var c *ssa.Const
		sign := int64(1)
		switch b.Op {
		case token.ADD:
			if b.X == phi {
				c, _ = b.Y.(*ssa.Const)
			} else if b.Y == phi {
				c, _ = b.X.(*ssa.Const)
			}
		case token.SUB:
			if b.X == phi {
				c, _ = b.Y.(*ssa.Const)
				sign = -1
			}
		}
		if c == nil || c.Value == nil {
			return 0, false
		}
		s := sign * c.Int64()
		if n > 0 && s != step {
			return 0, false
		}
		step = s
		n++
	}
	return step, n > 0
}

// freshSlicePhi: every value that reaches the phi is nil, made here or appended here.
// freshOrNil: no object that existed at entry.
func freshOrNil(r *Term) bool {
	if r.Op == OIte {
		return freshOrNil(r.Args[1]) && freshOrNil(r.Args[2])
	}
	if r.isConst() {
		return r.N == 0 || r.N >= FreshBase
	}
	lo, _ := refRange(r)
	return lo >= FreshBase
}

func (x *Exec) freshSlicePhi(p *Path, phi *ssa.Phi, L *Loop, entry SliceV) bool {
	if !freshOrNil(entry.Ref) {
		return false
	}
	seen := map[ssa.Value]bool{phi: true}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch e := v.(type) {
		case *ssa.Phi:
			for _, y := range e.Edges {
				if !ok(y) {
					return false
				}
			}
			return true
		case *ssa.MakeSlice:
			return true
		case *ssa.Const:
			return e.Value == nil
		case *ssa.Slice:
			if _, isS := e.X.Type().Underlying().(*types.Slice); isS {
				return ok(e.X)
			}
			_, isA := e.X.(*ssa.Alloc)
			return isA
		case *ssa.Call:
			if b, isB := e.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
				return ok(e.Call.Args[0])
			}
		}
		return false
	}
	for k, e := range phi.Edges {
		if L.blocks[phi.Block().Preds[k]] && !ok(e) {
			return false
		}
	}
	return true
}

// sliceCell: a local slice variable that lives in memory (a named result of a function that
// recovers), and is only loaded and stored. It starts as nil.
func sliceCell(v ssa.Value) (*ssa.Alloc, []*ssa.Store) {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return nil, nil
	}
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); !ok {
		return nil, nil
	}
	var stores []*ssa.Store
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr != v || i.Val == v {
				return nil, nil
			}
			stores = append(stores, i)
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return nil, nil
			}
		case *ssa.DebugRef:
		default:
			return nil, nil
		}
	}
	return a, stores
}

// freshCells: the slice variables in memory that only ever hold nil or slices made or appended here.
func (x *Exec) freshCells(p *Path, L *Loop) []*ssa.Alloc {
	var out []*ssa.Alloc
	f := p.top()
	if f.fn.Recover == nil {
		return nil
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || L.blocks[b] {
				continue
			}
			if c, st := sliceCell(a); c == nil || len(st) == 0 {
				continue
			}
			pv, ok := f.env[a].(PtrV)
			if !ok {
				continue
			}
			sv, ok := x.load(p, pv).(SliceV)
			if ok && sv.Snap == nil && freshOrNil(sv.Ref) && staticFreshCell(a, map[ssa.Value]bool{}) {
				out = append(out, a)
			}
		}
	}
	return out
}

func staticFreshCell(v ssa.Value, seen map[ssa.Value]bool) bool {
	c, st := sliceCell(v)
	if c == nil {
		return false
	}
	for _, s := range st {
		if !staticFresh(s.Val, seen) {
			return false
		}
	}
	return true
}

// staticFresh: every source of the slice is nil or memory allocated by this function.
func staticFresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch e := v.(type) {
	case *ssa.Phi:
		for _, y := range e.Edges {
			if !staticFresh(y, seen) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.UnOp:
		return e.Op == token.MUL && staticFreshCell(e.X, seen)
	case *ssa.Const:
		return e.Value == nil
	case *ssa.Slice:
		if _, isS := e.X.Type().Underlying().(*types.Slice); isS {
			return staticFresh(e.X, seen)
		}
		_, isA := e.X.(*ssa.Alloc)
		return isA
	case *ssa.Call:
		if b, isB := e.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
			return staticFresh(e.Call.Args[0], seen)
		}
	}
	return false
}

type modItem struct {
	ref *Term // nil: unknown object
	idx *Term // nil: whole object
	lim uint64
}

type modSet struct {
	keys   map[string][]modItem
	sorts  map[string]*Sort
	output bool
	all    string // non-empty: cannot bound the effects
}

func (m *modSet) add(t types.Type, path string, pt types.Type, it modItem) {
	for _, l := range leaves(pt) {
		k := typeKey(t) + path + l.suffix
		m.keys[k] = append(m.keys[k], it)
		m.sorts[k] = arrSort(bvSort(64), l.sort)
	}
}

func (m *modSet) addMap(x *Exec, t *types.Map, it modItem) {
	ks := mapKeySort(x, t)
	k := mapKey(t) + "#dom"
	m.keys[k] = append(m.keys[k], it)
	m.sorts[k] = arrSort(ks, sortBool)
	for _, l := range leaves(t.Elem()) {
		k := mapKey(t) + l.suffix
		m.keys[k] = append(m.keys[k], it)
		m.sorts[k] = arrSort(ks, l.sort)
	}
}

// modifies of the loop body, found by walking the code.
func (x *Exec) loopMods(p *Path, L *Loop, freshPhis map[ssa.Value]bool, lim uint64) *modSet {
	f := p.top()
	m := &modSet{keys: map[string][]modItem{}, sorts: map[string]*Sort{}}
	resolve := func(v ssa.Value) (Val, bool, bool) { // value, known, fresh
		if in, ok := v.(ssa.Instruction); ok && in.Parent() == f.fn && L.blocks[in.Block()] {
			// a local variable in memory that is set once, before the loop
			if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if a, ok := ld.X.(*ssa.Alloc); ok && setOnceOutside(a, L) {
					if y, ok := f.env[a]; ok {
						if pv, ok := y.(PtrV); ok {
							return x.load(p, pv), true, false
						}
					}
				}
			}
			return nil, false, false
		}
		if _, ok := v.(*ssa.Global); ok {
			return x.get(p, v), true, false
		}
		if y, ok := f.env[v]; ok {
			return y, true, false
		}
		return nil, false, false
	}
	x.modFirst, x.modPath, x.modLim = nil, nil, lim
	x.walkMods(m, blocksOf(L.blocks), resolve, freshPhis, lim, 0)
	// second pass: what the loop does not change is known when it is loaded in the loop
	first := m
	m = &modSet{keys: map[string][]modItem{}, sorts: map[string]*Sort{}}
	x.modFirst, x.modPath = first, p
	x.walkMods(m, blocksOf(L.blocks), resolve, freshPhis, lim, 0)
	x.modFirst, x.modPath = nil, nil
	return m
}

// loadMod resolves a value loaded in a loop from an object known before the loop, in memory
// that the loop does not change.
func (x *Exec) loadMod(v ssa.Value, res resolver) (Val, bool) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || x.modFirst == nil || x.modFirst.all != "" {
		return nil, false
	}
	var addr func(a ssa.Value) (PtrV, bool)
	addr = func(a ssa.Value) (PtrV, bool) {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			b, ok := addr(fa.X)
			if !ok {
				return b, false
			}
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			b.Path += "." + fieldName(st, fa.Field)
			b.T = st.Field(fa.Field).Type()
			return b, true
		}
		y, known, _ := res(a)
		if !known {
			y, known = x.loadMod(a, res)
		}
		pv, ok := y.(PtrV)
		return pv, known && ok && pv.Snap == nil
	}
	pv, ok := addr(ld.X)
	if !ok {
		return nil, false
	}
	for _, l := range leaves(pv.T) {
		for _, it := range x.modFirst.keys[typeKey(pv.Root)+pv.Path+l.suffix] {
			if it.ref != nil || it.lim < x.modLim {
				return nil, false
			}
		}
	}
	return x.load(x.modPath, pv), true
}

// setOnceOutside: the variable is stored to once, outside the loop, and only read otherwise
// (by its function and the closures that capture it).
func setOnceOutside(a *ssa.Alloc, L *Loop) bool {
	stores := 0
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if d > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr != v || i.Val == v || L.blocks[i.Block()] || d > 0 {
					return false
				}
				stores++
			case *ssa.UnOp:
				if i.Op != token.MUL {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.MakeClosure:
				for k, b := range i.Bindings {
					if b == v && !ok(i.Fn.(*ssa.Function).FreeVars[k], d+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(a, 0) && stores <= 1
}

func blocksOf(s map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range s {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

// addrPath splits an address into its root value, the path and whether an index was applied.
func addrRoot(v ssa.Value) (root ssa.Value, path string, indexed bool) {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		r, pth, ix := addrRoot(a.X)
		st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return r, pth + "." + fieldName(st, a.Field), ix
	case *ssa.IndexAddr:
		r, _, _ := addrRoot(a.X)
		return r, "", true
	case *ssa.Slice:
		r, pth, _ := addrRoot(a.X)
		return r, pth, true
	case *ssa.ChangeType:
		return addrRoot(a.X)
	}
	return v, "", false
}

func objType(v ssa.Value) types.Type {
	switch u := v.Type().Underlying().(type) {
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			return at.Elem()
		}
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

type resolver func(v ssa.Value) (Val, bool, bool)

func (x *Exec) itemFor(v ssa.Value, res resolver, freshPhis map[ssa.Value]bool, lim uint64, indexed bool) modItem {
	if a, ok := v.(*ssa.Alloc); ok {
		if y, known, _ := res(a); known {
			pv := y.(PtrV)
			it := modItem{ref: pv.Ref}
			return it
		}
		return modItem{lim: lim} // allocated inside the loop
	}
	if _, ok := v.(*ssa.MakeSlice); ok {
		if y, known, _ := res(v); known {
			return modItem{ref: y.(SliceV).Ref}
		}
		return modItem{lim: lim}
	}
	if freshPhis[v] {
		return modItem{lim: FreshBase}
	}
	y, known, fresh := res(v)
	if !known {
		if z, ok := x.loadMod(v, res); ok {
			y, known = z, true
		}
	}
	if !known && staticFresh(v, map[ssa.Value]bool{}) {
		return modItem{lim: FreshBase}
	}
	if known {
		switch z := y.(type) {
		case PtrV:
			it := modItem{ref: z.Ref}
			if !indexed {
				it.idx = z.Idx
			}
			return it
		case SliceV:
			return modItem{ref: z.Ref}
		case MapV:
			return modItem{ref: z.Ref}
		}
	}
	if fresh {
		return modItem{lim: lim}
	}
	switch e := v.(type) {
	case *ssa.Call:
		if b, ok := e.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			it := x.itemFor(e.Call.Args[0], res, freshPhis, lim, true)
			if it.ref != nil {
				// in place or a new object
				return it
			}
			return it
		}
	case *ssa.Const:
		return modItem{lim: lim}
	case *ssa.Slice:
		r, _, _ := addrRoot(e)
		return x.itemFor(r, res, freshPhis, lim, true)
	case *ssa.Phi:
		// all incoming values allocated in the loop
		return modItem{lim: 0}
	case *ssa.UnOp:
		if e.Op == token.MUL {
			// a slice header loaded from a local variable that only ever holds fresh slices is not tracked
			return modItem{lim: 0}
		}
	}
	return modItem{lim: 0}
}

func (x *Exec) walkMods(m *modSet, blocks []*ssa.BasicBlock, res resolver, freshPhis map[ssa.Value]bool, lim uint64, depth int) {
	if depth > 12 {
		m.all = "call depth"
		return
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				root, path, ix := addrRoot(i.Addr)
				ot := objType(root)
				pt := i.Addr.Type().Underlying().(*types.Pointer).Elem()
				if at, ok := pt.Underlying().(*types.Array); ok && path == "" {
					pt = at.Elem()
					ix = true
				}
				// a path through an embedded pointer index restarts at the element type
				base, bt := x.storeBase(i.Addr)
				_ = root
				_ = ot
				it := x.itemFor(base, res, freshPhis, lim, ix)
				if y, known, _ := res(base); known {
					if pv, ok := y.(PtrV); ok && pv.Path != "" {
						bt, path = pv.Root, pv.Path+path
					}
				} else if mayBeInterior(base) {
					m.all = "store through a pointer that may point to a field"
				}
				m.add(bt, path, pt, it)
			case *ssa.MapUpdate:
				base := i.Map
				it := x.itemFor(base, res, freshPhis, lim, false)
				if _, ok := base.(*ssa.MakeMap); ok && it.ref == nil {
					it.lim = lim
				}
				m.addMap(x, base.Type().Underlying().(*types.Map), it)
			case *ssa.Alloc:
				t := i.Type().Underlying().(*types.Pointer).Elem()
				if at, ok := t.Underlying().(*types.Array); ok {
					t = at.Elem()
				}
				m.add(t, "", t, modItem{lim: lim})
			case *ssa.MakeSlice:
				t := i.Type().Underlying().(*types.Slice).Elem()
				m.add(t, "", t, modItem{lim: lim})
			case *ssa.MakeMap:
				m.addMap(x, i.Type().Underlying().(*types.Map), modItem{lim: lim})
			case *ssa.MakeInterface:
				if ifaceCtorFor(i.X.Type()) == "" {
					k := "#type"
					m.keys[k] = append(m.keys[k], modItem{lim: lim})
					m.sorts[k] = bvSort(32)
					for _, l := range leaves(i.X.Type()) {
						k := "box(" + typeKey(i.X.Type()) + ")" + l.suffix
						m.keys[k] = append(m.keys[k], modItem{lim: lim})
						m.sorts[k] = l.sort
					}
				}
			case *ssa.Convert:
				if sl, ok := i.Type().Underlying().(*types.Slice); ok {
					m.add(sl.Elem(), "", sl.Elem(), modItem{lim: lim})
				}
			case *ssa.Defer:
				m.all = "defer inside a loop"
			case *ssa.Call:
				x.callMods(m, &i.Call, i, res, freshPhis, lim, depth)
			}
		}
	}
}

// storeBase gives the value that names the object stored into and the object's element type.
func (x *Exec) storeBase(addr ssa.Value) (ssa.Value, types.Type) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return x.storeBase(a.X)
	case *ssa.IndexAddr:
		base := a.X
		for {
			if s, ok := base.(*ssa.Slice); ok {
				base = s.X
				continue
			}
			break
		}
		return base, objType(a.X)
	case *ssa.ChangeType:
		return x.storeBase(a.X)
	}
	return addr, objType(addr)
}

func (x *Exec) callMods(m *modSet, c *ssa.CallCommon, in *ssa.Call, res resolver, freshPhis map[ssa.Value]bool, lim uint64, depth int) {
	if c.IsInvoke() {
		if c.Method.Name() == "Error" {
			return
		}
		m.all = "interface call " + c.Method.Name()
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			t := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			it := x.itemFor(c.Args[0], res, freshPhis, lim, true)
			m.add(t, "", t, it)
			m.add(t, "", t, modItem{lim: lim})
		case "copy":
			t := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			m.add(t, "", t, x.itemFor(c.Args[0], res, freshPhis, lim, true))
		case "delete":
			m.addMap(x, c.Args[0].Type().Underlying().(*types.Map), x.itemFor(c.Args[0], res, freshPhis, lim, true))
		}
		return
	}
	fn := c.StaticCallee()
	if fn == nil {
		m.all = "dynamic call"
		return
	}
	sub := func(v ssa.Value) (Val, bool, bool) {
		for k, prm := range fn.Params {
			if prm == v {
				a := c.Args[k]
				if al, ok := a.(*ssa.Alloc); ok {
					if y, known, _ := res(al); known {
						return y, true, false
					}
					return nil, false, true
				}
				base := a
				for {
					if s, ok := base.(*ssa.Slice); ok {
						base = s.X
						continue
					}
					break
				}
				if y, known, fr := res(base); known {
					return y, known, fr
				}
				it := x.itemFor(a, res, freshPhis, lim, true)
				if it.ref == nil && it.lim >= lim {
					return nil, false, true
				}
				return nil, false, false
			}
		}
		if _, ok := v.(*ssa.Global); ok {
			return res(v)
		}
		return nil, false, false
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		prev := sub
		sub = func(v ssa.Value) (Val, bool, bool) {
			for k, fv := range fn.FreeVars {
				if fv == v {
					return res(mc.Bindings[k])
				}
			}
			return prev(v)
		}
	}
	if ct := x.w.contracts[fn]; ct != nil && !ct.Inline {
		if ct.Output || ct.OutputC != nil || ct.Event != nil {
			m.output = true
		}
		for _, md := range ct.Modifies {
			x.contractMod(m, md, fn, c, sub, res, freshPhis, lim)
		}
		// results may be new objects of any type reachable from the result types
		for k, s := range x.everyKeys(ct) {
			m.keys[k] = append(m.keys[k], modItem{lim: 0})
			m.sorts[k] = s
		}
		for k, s := range ct.freshKeys(x) {
			m.keys[k] = append(m.keys[k], modItem{lim: lim})
			m.sorts[k] = s
		}
		return
	}
	name := fullName(fn)
	if bi, ok := builtinMods[name]; ok {
		bi(x, m, c, res, freshPhis, lim)
		return
	}
	if _, ok := builtins[name]; ok || x.w.isNoEffect(fn) {
		return
	}
	if fn.Blocks == nil {
		m.all = "call of " + name
		return
	}
	for k, prm := range fn.Params {
		if _, known, _ := sub(prm); !known && isFieldAddr(c.Args[k]) {
			m.all = "pointer to a field passed to " + name
			return
		}
	}
	if x.argOf == nil {
		x.argOf = map[ssa.Value]ssa.Value{}
	}
	for k, prm := range fn.Params {
		x.argOf[prm] = c.Args[k]
	}
	x.walkMods(m, fn.Blocks, sub, nil, lim, depth+1)
}

// isFieldAddr: is v the address of a field of an object?
func isFieldAddr(v ssa.Value) bool {
	_, path, _ := addrRoot(v)
	return path != ""
}

// mayBeInterior: can the pointer, not known before the loop, be the address of a field?
func mayBeInterior(v ssa.Value) bool {
	pt, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
		return false
	}
	_, phi := v.(*ssa.Phi)
	return phi
}

// contractMod adds one modifies clause of a callee.
func (x *Exec) contractMod(m *modSet, md *Clause, fn *ssa.Function, c *ssa.CallCommon, res, outer resolver, freshPhis map[ssa.Value]bool, lim uint64) {
	t := md.Fn.Signature.Results().At(0).Type()
	it := modItem{lim: 0}
	// only a bare parameter can be tracked to an object
	if md.bareParam >= 0 {
		if arg := c.Args[md.bareParam]; isFieldAddr(arg) {
			if _, known, _ := outer(arg); !known {
				_, path, ix := addrRoot(arg)
				base, bt := x.storeBase(arg)
				pt := arg.Type().Underlying().(*types.Pointer).Elem()
				m.add(bt, path, pt, x.itemFor(base, outer, freshPhis, lim, ix))
				m.add(pt, "", pt, modItem{lim: lim}) // the object made for the call
				return
			}
		}
		it = x.itemFor(fn.Params[md.bareParam], res, freshPhis, lim, true)
		if y, known, _ := res(fn.Params[md.bareParam]); known {
			if pv, ok := y.(PtrV); ok {
				it.idx = pv.Idx
				m.add(pv.Root, pv.Path, pv.T, it)
				if pv.Path != "" {
					m.add(pv.T, "", pv.T, modItem{lim: lim})
				}
				return
			}
		}
	}
	if md.derefParam >= 0 {
		// the slice in a local variable that is set once, to memory made in the loop
		if al, ok := c.Args[md.derefParam].(*ssa.Alloc); ok {
			if _, known, _ := outer(al); !known {
				stores := 0
				if x.onlyLoaded(al, &stores, 0) && stores == 1 && freshCellStore(al) {
					it = modItem{lim: FreshBase}
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		m.add(u.Elem(), "", u.Elem(), it)
	case *types.Pointer:
		m.add(u.Elem(), "", u.Elem(), it)
	case *types.Map:
		m.addMap(x, u, it)
	}
}

// onlyLoaded: the variable at v is stored to by its own function only (counted), and only read
// otherwise, also by the functions its address is passed to.
func (x *Exec) onlyLoaded(v ssa.Value, stores *int, depth int) bool {
	if v.Referrers() == nil || depth > 5 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr != v || i.Val == v || depth > 0 {
				return false
			}
			*stores++
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.Call:
			fn := i.Call.StaticCallee()
			if fn == nil || fn.Blocks == nil {
				return false
			}
			for k, a := range i.Call.Args {
				if a != v {
					continue
				}
				if ct := x.w.contracts[fn]; ct != nil && !ct.Inline {
					if len(x.everyKeys(ct)) > 0 || ct.AnyEffect {
						return false
					}
					for _, md := range ct.Modifies {
						if md.bareParam == k || md.derefParam < 0 && md.bareParam < 0 {
							return false
						}
					}
					continue
				}
				if !x.onlyLoaded(fn.Params[k], stores, depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// freshCellStore: what is stored to the variable is memory made here.
func freshCellStore(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && !staticFresh(s.Val, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

func (x *Exec) havocMods(p *Path, m *modSet, name string) {
	keys := make([]string, 0, len(m.keys))
	for k := range m.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		items := m.keys[k]
		H := p.heap.get(k, m.sorts[k])
		lim := uint64(refTop)
		var exact []modItem
		for _, it := range items {
			if it.ref == nil {
				if it.lim < lim {
					lim = it.lim
				}
			} else {
				exact = append(exact, it)
			}
		}
		if lim < refTop {
			H = Havoc(H, lim, "loop/"+k)
		}
		for _, it := range exact {
			if lo, _ := refRange(it.ref); lo >= lim {
				continue
			}
			if it.idx != nil && m.sorts[k].K == SArr {
				H = Store(H, it.ref, Store(Select(H, it.ref), it.idx, Fresh("loop/"+k, m.sorts[k].B)))
			} else {
				H = Store(H, it.ref, Fresh("loop/"+k, m.sorts[k]))
			}
		}
		p.heap.m[k] = H
	}
	if m.output {
		p.out = Fresh("out", sortStr)
	}
}

// assumeUnfolds gives the definitions of the applications in the loop's unfold clauses.
func (x *Exec) assumeUnfolds(p *Path, f *Frame, L *Loop, spec *LoopSpec) {
	for _, c := range spec.Unfolds {
		var apps []*Term
		subterms([]*Term{x.evalLoopClause(p, f, L, c)}, func(t *Term) {
			if isApp(t) {
				apps = append(apps, t)
			}
		})
		for _, a := range apps {
			if e := x.w.definition(a); e != nil {
				p.assume(e)
			}
		}
	}
}

func (x *Exec) enterLoop(p *Path, L *Loop, from *ssa.BasicBlock) bool {
	f := p.top()
	b := L.header
	spec := x.loopSpec(f, L)
	tag := fmt.Sprintf("%sloop%d", x.frameTag(f), L.num)
	pos := x.loopPos(L)
	x.doPhis(p, b, from)
	entryVals := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
			entryVals[phi] = f.env[phi]
		} else {
			break
		}
	}
	ls := &loopState{K: BV64(0)}
	f.loops[b] = ls
	if spec != nil {
		x.assumeUnfolds(p, f, L, spec)
		for k, c := range spec.Invs {
			g := x.evalLoopClause(p, f, L, c)
			x.oblige(p, fmt.Sprintf("%s invariant %d holds on entry: %s", tag, k+1, c.Text), pos, g)
		}
	}
	// what the body may change
	entryNext := uint64(p.nextRef)
	freshPhis := map[ssa.Value]bool{}
	for _, phi := range phis {
		if sv, ok := entryVals[phi].(SliceV); ok && x.freshSlicePhi(p, phi, L, sv) {
			freshPhis[phi] = true
		}
	}
	cells := x.freshCells(p, L)
	mods := x.loopMods(p, L, freshPhis, entryNext)
	if mods.all != "" {
		x.unsupported("effects of " + tag + " not bounded: " + mods.all)
	}
	p.nextRef += 0x10000
	outBefore := p.out
	K := Fresh("K", bvSort(64)) // before what the loop changes, so that this can be defined by it
	cellVals := map[*ssa.Alloc]SliceV{}
	for _, c := range cells {
		cellVals[c] = x.load(p, f.env[c].(PtrV)).(SliceV)
	}
	x.havocMods(p, mods, tag)
	if !mods.output {
		p.out = outBefore
	}
	ls.K = K
	p.assume(Ult(K, BV64(1<<62)))
	ind := map[*ssa.Phi]int64{}
	for _, phi := range phis {
		if t, ok := entryVals[phi].(*Term); ok && t.Sort.K == SBV {
			if s, ok := constStep(phi, L); ok {
				w := t.Sort.W
				kk := K
				if w < 64 {
					kk = Extract(K, w-1, 0)
				}
				f.env[phi] = Add(t, Mul(BV(uint64(s), w), kk))
				ind[phi] = s
				continue
			}
		}
		if sv, ok := entryVals[phi].(SliceV); ok && freshPhis[phi] {
			nm := phi.Comment
			f.env[phi] = x.havocFreshSlice(p, nm, sv)
			continue
		}
		f.env[phi] = x.havocVal(p, phi.Comment, phi.Type(), entryVals[phi])
	}
	for _, c := range cells {
		pv := f.env[c].(PtrV)
		sv := cellVals[c]
		if changed := x.load(p, pv).(SliceV); changed.Ref == sv.Ref && changed.Len == sv.Len {
			continue
		}
		x.store(p, pv, x.havocFreshSlice(p, c.Comment, sv))
	}
	// iterator positions
	ls.iters = map[ssa.Value]*Term{}
	for _, blk := range blocksOf(L.blocks) {
		for _, in := range blk.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			if _, ok := f.env[iterKey{nx.Iter}]; !ok {
				continue
			}
			it := f.env[nx.Iter].(IterV)
			old := f.env[iterKey{nx.Iter}].(*Term)
			np := Fresh("POS", old.Sort)
			f.env[iterKey{nx.Iter}] = np
			ls.iters[nx.Iter] = np
			if it.Str != nil {
				p.assume(And(Ule(np, SLen(it.Str)), Ule(K, np)))
				p.assume(Implies(Eq(K, BV64(0)), Eq(np, BV64(0))))
			}
		}
	}
	// the exit test held the previous times round
	x.guardFact(p, L, ind, K)
	if spec != nil {
		for _, c := range spec.Invs {
			g := x.evalLoopClause(p, f, L, c)
			x.assumeDef(p, g)
		}
		x.assumeUnfolds(p, f, L, spec)
		for _, c := range spec.Decreases {
			t := x.evalLoopClause(p, f, L, c)
			f.loops[b].measure = append(f.loops[b].measure, t)
		}
	}
	if p.dead {
		return false
	}
	return true
}

// havocFreshSlice: an unknown slice that is nil or made here, in place of sv.
func (x *Exec) havocFreshSlice(p *Path, nm string, sv SliceV) SliceV {
	fr := Fresh(nm+"#ref", sortRef)
	lo := uint64(FreshBase)
	if sv.Ref.isConst() && sv.Ref.N >= FreshBase {
		lo = sv.Ref.N
	}
	refBounds[fr] = [2]uint64{lo, uint64(p.nextRef)}
	p.assume(And(mk(OUle, sortBool, 0, "", nil, BV(lo, RefW), fr), mk(OUlt, sortBool, 0, "", nil, fr, BV(uint64(p.nextRef), RefW))))
	isnil := False
	if sv.Ref.isConst() && sv.Ref.N == 0 || sv.Ref.Op == OIte {
		isnil = Fresh(nm+"#nil", sortBool)
	}
	lenVar := Fresh(nm+"#len", bvSort(64))
	lenVars[lenVar] = true
	v := SliceV{Ite(isnil, RefLit(0), fr), Fresh(nm+"#off", bvSort(64)), lenVar, Fresh(nm+"#cap", bvSort(64)), sv.Elem, nil}
	p.assume(And(Ule(v.Len, v.Cap), Ult(v.Cap, BV64(maxLen)), Ult(v.Off, BV64(maxLen)), Implies(isnil, Eq(v.Cap, BV64(0)))))
	return v
}

// havocVal: an unknown value in place of v, of the same shape.
func (x *Exec) havocVal(p *Path, name string, t types.Type, v Val) Val {
	if pv, ok := v.(PtrV); ok && pv.Path != "" {
		x.unsupported("loop-carried interior pointer " + name)
	}
	if _, ok := v.(FuncV); ok {
		x.unsupported("loop-carried function value")
	}
	return x.freshVal(p, name, t, false)
}

func (x *Exec) frameTag(f *Frame) string {
	if f.fn == x.fn {
		return ""
	}
	return "(in " + f.fn.Name() + ") "
}

func (x *Exec) loopPos(L *Loop) string {
	for _, in := range L.header.Instrs {
		if _, ok := in.(*ssa.Phi); !ok && in.Pos().IsValid() {
			return x.pos(in)
		}
	}
	for _, b := range blocksOf(L.blocks) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return x.pos(in)
			}
		}
	}
	return L.header.Parent().Name()
}

// headerCond returns the loop's exit test in the header and which way stays in the loop.
func headerCond(L *Loop) (ssa.Value, bool) {
	last, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	in0, in1 := L.blocks[L.header.Succs[0]], L.blocks[L.header.Succs[1]]
	if in0 && !in1 {
		return last.Cond, true
	}
	if in1 && !in0 {
		return last.Cond, false
	}
	return nil, false
}

// guardFact assumes: K = 0 or the header test, a function of induction variables only, held at K-1.
func (x *Exec) guardFact(p *Path, L *Loop, ind map[*ssa.Phi]int64, K *Term) {
	cond, stay := headerCond(L)
	if cond == nil {
		return
	}
	f := p.top()
	var pure func(v ssa.Value) bool
	pure = func(v ssa.Value) bool {
		switch e := v.(type) {
		case *ssa.Const, *ssa.Parameter:
			return true
		case *ssa.Phi:
			_, ok := ind[e]
			if ok {
				return true
			}
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if !L.blocks[in.Block()] {
			_, have := f.env[v]
			return have
		}
		if in.Block() != L.header {
			return false
		}
		switch e := v.(type) {
		case *ssa.BinOp:
			return e.Op != token.QUO && e.Op != token.REM && pure(e.X) && pure(e.Y)
		case *ssa.Convert:
			return pure(e.X)
		case *ssa.UnOp:
			return e.Op != token.MUL && pure(e.X)
		case *ssa.Call:
			if b, ok := e.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return pure(e.Call.Args[0])
			}
		}
		return false
	}
	if !pure(cond) {
		return
	}
	q := x.specPath(p)
	g := q.top()
	for phi, s := range ind {
		t := g.env[phi].(*Term)
		g.env[phi] = Sub(t, BV(uint64(s), t.Sort.W))
	}
	c, ok := x.evalHeader(q, L, cond).(*Term)
	if !ok {
		return
	}
	if !stay {
		c = Not(c)
	}
	p.assume(Or(Eq(K, BV64(0)), c))
}

// evalHeader computes a value defined in the loop header from the current phi values.
func (x *Exec) evalHeader(q *Path, L *Loop, v ssa.Value) Val {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() != L.header {
		return x.get(q, v)
	}
	if _, ok := v.(*ssa.Phi); ok {
		return x.get(q, v)
	}
	f := q.top()
	for _, i := range L.header.Instrs {
		switch e := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Call:
			x.specCall(q, e)
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Extract, *ssa.ChangeType, *ssa.Slice, *ssa.Lookup, *ssa.Next, *ssa.Index:
			was := x.spec
			x.spec = true
			x.step(q, i)
			x.spec = was
		default:
			x.unsupported("loop header value")
		}
		if vv, ok := i.(ssa.Value); ok && vv == v {
			return f.env[v]
		}
	}
	return nil
}

func (x *Exec) specCall(q *Path, e *ssa.Call) {
	was := x.spec
	x.spec = true
	defer func() { x.spec = was }()
	x.call(q, e)
}

// specPath is a scratch copy for evaluating specification expressions.
func (x *Exec) specPath(p *Path) *Path {
	q := p.clone()
	q.parent = p
	q.pc = nil
	return q
}

func (x *Exec) backEdge(p *Path, L *Loop, from *ssa.BasicBlock) {
	f := p.top()
	b := L.header
	spec := x.loopSpec(f, L)
	tag := fmt.Sprintf("%sloop%d", x.frameTag(f), L.num)
	pos := x.loopPos(L)
	ls := f.loops[b]
	if ls == nil {
		x.unsupported("back edge without loop entry")
	}
	Kold := ls.K
	// is the header test of the simple counting kind?
	auto := x.autoTerminates(p, L)
	x.doPhis(p, b, from)
	nls := *ls
	nls.K = Add(Kold, BV64(1))
	f.loops[b] = &nls
	if spec != nil {
		for k, c := range spec.Invs {
			g := x.evalLoopClause(p, f, L, c)
			if x.c.Folded {
				g = splitLast(g, Kold)
			}
			x.oblige(p, fmt.Sprintf("%s invariant %d preserved: %s", tag, k+1, c.Text), pos, g)
		}
	}
	switch {
	case spec != nil && len(spec.Decreases) > 0:
		// lexicographic
		goal := False
		eq := True
		for k, c := range spec.Decreases {
			n := x.evalLoopClause(p, f, L, c)
			o := ls.measure[k]
			var less *Term
			if isSigned(c.Fn.Signature.Results().At(0).Type()) {
				less = And(Sle(BV(0, o.Sort.W), o), Slt(n, o))
			} else {
				less = Ult(n, o)
			}
			goal = Or(goal, And(eq, less))
			eq = And(eq, Eq(n, o))
		}
		x.oblige(p, tag+" terminates", pos, goal)
	case auto:
		x.oblige(p, tag+" terminates (counting or range loop)", pos, True)
	case x.c.NoTerm:
	default:
		x.oblige(p, tag+" terminates: no measure", pos, False)
	}
}

// splitLast proves what holds for all i < K+1 for all i < K and for K.
func splitLast(g, K *Term) *Term {
	switch g.Op {
	case OAnd:
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitLast(a, K))
		}
		return And(out...)
	case OForall:
		v, body := g.Args[0], g.Args[1]
		if body.Op != OOr {
			return g
		}
		for k, a := range body.Args {
			if a.Op != ONot || a.Args[0].Op != OAnd {
				continue
			}
			conds := a.Args[0].Args
			for j, c := range conds {
				if c.Op != OSlt || c.Args[0] != v || c.Args[1] != Add(K, BV64(1)) {
					continue
				}
				cs := append([]*Term{}, conds...)
				cs[j] = Slt(v, K)
				as := append([]*Term{}, body.Args...)
				as[k] = Not(And(cs...))
				rest := append(append([]*Term{}, body.Args[:k]...), body.Args[k+1:]...)
				return And(mk(OForall, sortBool, 0, "", nil, v, Or(as...)), substBound(Or(rest...), v, K))
			}
		}
	}
	return g
}

// autoTerminates recognises range loops and loops counting up to an unchanging bound.
func (x *Exec) autoTerminates(p *Path, L *Loop) bool {
	cond, stay := headerCond(L)
	if cond == nil {
		return false
	}
	if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 0 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && nx.Block() == L.header {
			return true
		}
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	inv := func(v ssa.Value) bool {
		switch e := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.Call:
			if bi, ok := e.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := e.Call.Args[0]
				if in, ok := a.(ssa.Instruction); ok {
					return !L.blocks[in.Block()]
				}
				return true
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			return !L.blocks[in.Block()]
		}
		return false
	}
	ind := func(v ssa.Value) (int64, bool) {
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
			if c, ok := bo.Y.(*ssa.Const); ok && c.Int64() == 1 {
				v = bo.X // range loops test index+1
			}
		}
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != L.header {
			return 0, false
		}
		return constStep(phi, L)
	}
	op := b.Op
	X, Y := b.X, b.Y
	if !stay {
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.LEQ:
			op = token.GTR
		default:
			return false
		}
	}
	switch op {
	case token.LSS: // i < n, i += 1
		if s, ok := ind(X); ok && s == 1 && inv(Y) {
			return true
		}
		// n < ... with i -= 1: n < i
		if s, ok := ind(Y); ok && s == -1 && inv(X) {
			return true
		}
	case token.GTR:
		if s, ok := ind(Y); ok && s == 1 && inv(X) {
			return true
		}
		if s, ok := ind(X); ok && s == -1 && inv(Y) {
			return true
		}
	case token.GEQ:
		if s, ok := ind(X); ok && s == -1 && isSigned(X.Type()) && inv(Y) {
			if c, ok := Y.(*ssa.Const); ok && c.Int64() > -1<<62 {
				return true
			}
		}
	}
	return false
}
