package main

// Symbolic values and the heap.

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Heap struct {
	m      map[string]*Term
	strict bool // reading an unset key is an error
}

func (h *Heap) clone() *Heap {
	n := &Heap{m: make(map[string]*Term, len(h.m)), strict: h.strict}
	for k, v := range h.m {
		n.m[k] = v
	}
	return n
}

func (h *Heap) get(key string, inner *Sort) *Term {
	if t, ok := h.m[key]; ok {
		return t
	}
	if h.strict {
		panic(unsup{"recursive specification function reads " + key})
	}
	t := NamedVar("H0/"+key, arrSort(sortRef, inner))
	h.m[key] = t
	return t
}

// getAlloc is get for adding a new object.
func (h *Heap) getAlloc(key string, inner *Sort) *Term {
	if _, ok := h.m[key]; !ok && h.strict {
		h.m[key] = NamedVar("canon/"+key, arrSort(sortRef, inner))
	}
	return h.get(key, inner)
}

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)

type SliceV struct {
	Ref, Off, Len, Cap *Term
	Elem               types.Type
	Snap               *Heap
}

type PtrV struct {
	Root     types.Type // type of the elements of the object pointed into
	Ref, Idx *Term
	Path     string
	T        types.Type // pointee
	Snap     *Heap
}

type StructV struct {
	T types.Type
	F []Val
}

type ArrV struct {
	T *types.Array
	E []Val
}

type TupleV []Val

type MapV struct {
	Ref  *Term
	T    *types.Map
	Snap *Heap
}

type FuncV struct {
	Fn   *ssa.Function
	Free []Val
}

type OpqV struct{ Why string }

type IterV struct {
	Str  *Term
	Map  *MapV
	Base *Heap // heap when the iteration started
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface {}", "any")
	s = strings.ReplaceAll(s, "interface{}", "any")
	s = reByte.ReplaceAllString(s, "uint8")
	return reRune.ReplaceAllString(s, "int32")
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path()+"."+o.Name() == name
}

func basicSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return sortBool
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return bvSort(64)
	case types.Int32, types.Uint32, types.UntypedRune:
		return bvSort(32)
	case types.Int16, types.Uint16:
		return bvSort(16)
	case types.Int8, types.Uint8:
		return bvSort(8)
	case types.Float64, types.UntypedFloat:
		return bvSort(64)
	case types.Float32:
		return bvSort(32)
	case types.String, types.UntypedString:
		return sortStr
	}
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// scalarSort gives the SMT sort of a type held in a single term, nil otherwise.
func scalarSort(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicSort(u)
	case *types.Interface:
		return sortIface
	}
	return nil
}

type leaf struct {
	suffix string
	sort   *Sort
}

// leaves lists the heap leaves of a value of type t.
func leaves(t types.Type) []leaf {
	if isNamed(t, "bytes.Buffer") {
		return []leaf{{"#buf", sortStr}}
	}
	if isNamed(t, "os.File") {
		return []leaf{{"#data", arrSort(bvSort(64), bvSort(8))}, {"#size", bvSort(64)}, {"#pos", bvSort(64)}}
	}
	if isNamed(t, "sync.Map") {
		return []leaf{{"#dom", arrSort(sortIface, sortBool)}, {"#val", arrSort(sortIface, sortIface)}}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "db-recovery") {
		if _, isS := n.Underlying().(*types.Struct); isS {
			return []leaf{{"#opq", sortOpq}}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := basicSort(u)
		if s == nil {
			return []leaf{{"#opq", sortOpq}}
		}
		return []leaf{{"", s}}
	case *types.Interface:
		return []leaf{{"", sortIface}}
	case *types.Slice:
		return []leaf{{"#ref", sortRef}, {"#off", bvSort(64)}, {"#len", bvSort(64)}, {"#cap", bvSort(64)}}
	case *types.Pointer:
		return []leaf{{"#ref", sortRef}, {"#idx", bvSort(64)}}
	case *types.Map:
		return []leaf{{"#ref", sortRef}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + fieldName(u, i) + l.suffix, l.sort})
			}
		}
		return out
	case *types.Array:
		if u.Len() <= 16 {
			var out []leaf
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					out = append(out, leaf{fmt.Sprintf("[%d]%s", i, l.suffix), l.sort})
				}
			}
			return out
		}
	}
	return []leaf{{"#opq", sortOpq}}
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

// flatten splits a value into leaf terms, in the order of leaves(t).
func (x *Exec) flatten(v Val, t types.Type) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case SliceV:
		return []*Term{w.Ref, w.Off, w.Len, w.Cap}
	case PtrV:
		if w.Path != "" {
			x.unsupported("interior pointer stored")
		}
		return []*Term{w.Ref, w.Idx}
	case MapV:
		return []*Term{w.Ref}
	case StructV:
		st := t.Underlying().(*types.Struct)
		var out []*Term
		for i := range w.F {
			out = append(out, x.flatten(w.F[i], st.Field(i).Type())...)
		}
		return out
	case ArrV:
		var out []*Term
		if len(leaves(t)) == 1 {
			return []*Term{Fresh("opq", sortOpq)}
		}
		for _, e := range w.E {
			out = append(out, x.flatten(e, w.T.Elem())...)
		}
		return out
	}
	ls := leaves(t)
	if len(ls) == 1 && ls[0].sort == sortOpq {
		return []*Term{Fresh("opq", sortOpq)}
	}
	x.unsupported(fmt.Sprintf("flatten %T of %s", v, t))
	return nil
}

// unflatten builds a value of type t from leaf terms.
func (x *Exec) unflatten(ts []*Term, t types.Type, snap *Heap) Val {
	v, rest := x.unflat(ts, t, snap)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}

func (x *Exec) unflat(ts []*Term, t types.Type, snap *Heap) (Val, []*Term) {
	ls := leaves(t)
	if len(ls) == 1 && (ls[0].suffix == "#opq" || ls[0].suffix == "#buf") {
		return StructV{T: t, F: []Val{ts[0]}}, ts[1:]
	}
	if isNamed(t, "sync.Map") {
		return StructV{T: t, F: []Val{ts[0], ts[1]}}, ts[2:]
	}
	if isNamed(t, "os.File") {
		return StructV{T: t, F: []Val{ts[0], ts[1], ts[2]}}, ts[3:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Interface:
		return ts[0], ts[1:]
	case *types.Slice:
		return SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem(), snap}, ts[4:]
	case *types.Pointer:
		return PtrV{Root: u.Elem(), Ref: ts[0], Idx: ts[1], T: u.Elem(), Snap: snap}, ts[2:]
	case *types.Map:
		return MapV{ts[0], u, snap}, ts[1:]
	case *types.Struct:
		s := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = x.unflat(ts, u.Field(i).Type(), snap)
			s.F = append(s.F, f)
		}
		return s, ts
	case *types.Array:
		a := ArrV{T: u}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ts = x.unflat(ts, u.Elem(), snap)
			a.E = append(a.E, f)
		}
		return a, ts
	}
	x.unsupported("unflatten " + t.String())
	return nil, nil
}

func (s StructV) isOpaque() bool {
	ls := leaves(s.T)
	return len(ls) >= 1 && strings.HasPrefix(ls[0].suffix, "#")
}

func init() {
	// StructV of opaque types is flattened through its raw leaves.
	_ = sort.Strings
}

func zeroLeaf(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SBV:
		return BV(0, s.W)
	case SStr:
		return StrLit("")
	case SIface:
		return INil
	case SArr:
		return ConstArr(s.A, zeroLeaf(s.B))
	case SOpq:
		return NamedVar("opq0", sortOpq)
	}
	panic("zeroLeaf")
}

func (x *Exec) zero(t types.Type) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroLeaf(l.sort))
	}
	return x.unflatten(ts, t, nil)
}

// freshVal makes an unknown value of type t; wf facts go to the path.
func (x *Exec) freshVal(p *Path, name string, t types.Type, old bool) Val {
	if _, ok := t.Underlying().(*types.Signature); ok {
		return OpqV{"func"}
	}
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, x.freshVal(p, fmt.Sprintf("%s.%d", name, i), tt.At(i).Type(), old))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leaves(t) {
		v := Fresh(name+l.suffix, l.sort)
		if strings.HasSuffix(l.suffix, "#len") {
			lenVars[v] = true
		}
		if l.sort == sortRef {
			if old {
				refOld[v] = true
				p.assume(Ult(v, BV(FreshBase, RefW)))
			} else {
				refBounds[v] = [2]uint64{0, uint64(p.nextRef)}
				p.assume(mk(OUlt, sortBool, 0, "", nil, v, BV(uint64(p.nextRef), RefW)))
			}
		}
		ts = append(ts, v)
	}
	v := x.unflatten(ts, t, nil)
	x.assumeWF(p, v)
	return v
}

const maxLen = uint64(1) << 40

func (x *Exec) assumeWF(p *Path, v Val) {
	switch w := v.(type) {
	case SliceV:
		p.assume(wfSlice(w))
	case StructV:
		if !w.isOpaque() {
			for _, f := range w.F {
				x.assumeWF(p, f)
			}
		}
	case TupleV:
		for _, f := range w {
			x.assumeWF(p, f)
		}
	}
}

func wfSlice(w SliceV) *Term {
	return And(Ule(w.Len, w.Cap), Ult(w.Cap, BV64(maxLen)), Ult(w.Off, BV64(maxLen)),
		Implies(Eq(w.Ref, RefLit(0)), Eq(w.Cap, BV64(0))))
}

// ---- heap access ----

func (x *Exec) heapFor(p *Path, snap *Heap) *Heap {
	if snap != nil {
		return snap
	}
	return p.heap
}

func (x *Exec) inner(h *Heap, key string, s *Sort, ref *Term) *Term {
	return Select(h.get(key, arrSort(bvSort(64), s)), ref)
}

func (x *Exec) load(p *Path, a PtrV) Val {
	h := x.heapFor(p, a.Snap)
	var ts []*Term
	for _, l := range leaves(a.T) {
		key := typeKey(a.Root) + a.Path + l.suffix
		t := Select(x.inner(h, key, l.sort, a.Ref), a.Idx)
		if l.sort == sortRef && !t.isConst() && t.bound == nil {
			if _, hi := refRange(t); hi == refTop && a.Snap == nil && !x.spec {
				// anything stored in memory has been allocated before
				p.assume(mk(OUlt, sortBool, 0, "", nil, t, BV(uint64(p.nextRef), RefW)))
			}
		}
		ts = append(ts, t)
	}
	snap := a.Snap
	if x.spec && snap == nil && a.Ref.isConst() {
		snap = x.snaps[snapKey{a.Ref.N, a.Idx, a.Path}]
	}
	v := x.unflatten(ts, a.T, snap)
	if sv, ok := v.(SliceV); ok && sv.Len.bound == nil && sv.Ref.bound == nil {
		p.assume(wfSlice(sv))
	}
	if st, ok := v.(StructV); ok && !st.isOpaque() {
		for _, f := range st.F {
			if sv, ok := f.(SliceV); ok && sv.Len.bound == nil {
				p.assume(wfSlice(sv))
			}
		}
	}
	return v
}

type snapKey struct {
	ref  uint64
	idx  *Term
	path string
}

// oldOf: the earlier state that a value is read in.
func oldOf(v Val) *Heap {
	switch w := v.(type) {
	case SliceV:
		return w.Snap
	case PtrV:
		return w.Snap
	case MapV:
		return w.Snap
	case StructV:
		for _, f := range w.F {
			if h := oldOf(f); h != nil {
				return h
			}
		}
	}
	return nil
}

func (x *Exec) store(p *Path, a PtrV, v Val) {
	if a.Snap != nil {
		x.unsupported("store through old pointer")
	}
	if x.spec && a.Ref.isConst() {
		// a variable of a specification that holds a value of the state before
		k := snapKey{a.Ref.N, a.Idx, a.Path}
		if x.snaps == nil {
			x.snaps = map[snapKey]*Heap{}
		}
		if h := oldOf(v); h != nil {
			x.snaps[k] = h
		} else {
			delete(x.snaps, k)
		}
	} else if oldOf(v) != nil {
		x.unsupported("store of an old value")
	}
	ts := x.flattenAny(v, a.T)
	for i, l := range leaves(a.T) {
		key := typeKey(a.Root) + a.Path + l.suffix
		H := p.heap.get(key, arrSort(bvSort(64), l.sort))
		p.heap.m[key] = Store(H, a.Ref, Store(Select(H, a.Ref), a.Idx, ts[i]))
	}
}

func (x *Exec) flattenAny(v Val, t types.Type) []*Term {
	if s, ok := v.(StructV); ok && s.isOpaque() {
		var out []*Term
		for _, f := range s.F {
			out = append(out, f.(*Term))
		}
		return out
	}
	if s, ok := v.(StructV); ok {
		st := t.Underlying().(*types.Struct)
		var out []*Term
		for i := range s.F {
			out = append(out, x.flattenAny(s.F[i], st.Field(i).Type())...)
		}
		return out
	}
	return x.flatten(v, t)
}

// setObj sets all elements of a new object to given inner arrays (zero when nil).
func (x *Exec) newObj(p *Path, elem types.Type) *Term {
	r := RefLit(p.nextRef)
	p.nextRef++
	if p.nextRef >= 0x7fffff00 {
		x.unsupported("too many allocations")
	}
	for _, l := range leaves(elem) {
		key := typeKey(elem) + l.suffix
		H := p.heap.getAlloc(key, arrSort(bvSort(64), l.sort))
		p.heap.m[key] = Store(H, r, ConstArr(bvSort(64), zeroLeaf(l.sort)))
	}
	return r
}

// ---- maps ----

func mapKeySort(x *Exec, t *types.Map) *Sort {
	s := scalarSort(t.Key())
	if s == nil {
		x.unsupported("map key type " + t.Key().String())
	}
	return s
}

func mapKey(t *types.Map) string { return typeKey(t) }

func (x *Exec) mapDom(h *Heap, m MapV) *Term {
	ks := mapKeySort(x, m.T)
	t := Select(h.get(mapKey(m.T)+"#dom", arrSort(ks, sortBool)), m.Ref)
	if m.Ref.isConst() && m.Ref.N == 0 {
		return ConstArr(ks, False)
	}
	return t
}

func (x *Exec) mapGet(p *Path, m MapV, k *Term) (Val, *Term) {
	h := x.heapFor(p, m.Snap)
	ks := mapKeySort(x, m.T)
	ok := Select(x.mapDom(h, m), k)
	if !(m.Ref.isConst()) {
		ok = And(Not(Eq(m.Ref, RefLit(0))), ok)
	}
	var ts []*Term
	for _, l := range leaves(m.T.Elem()) {
		a := Select(h.get(mapKey(m.T)+l.suffix, arrSort(ks, l.sort)), m.Ref)
		ts = append(ts, Ite(ok, Select(a, k), zeroLeaf(l.sort)))
	}
	v := x.unflatten(ts, m.T.Elem(), m.Snap)
	if ok.bound == nil {
		x.assumeWF(p, v)
	}
	return v, ok
}

func (x *Exec) mapSet(p *Path, m MapV, k *Term, v Val) {
	ks := mapKeySort(x, m.T)
	dk := mapKey(m.T) + "#dom"
	D := p.heap.get(dk, arrSort(ks, sortBool))
	p.heap.m[dk] = Store(D, m.Ref, Store(Select(D, m.Ref), k, True))
	ts := x.flattenAny(v, m.T.Elem())
	for i, l := range leaves(m.T.Elem()) {
		key := mapKey(m.T) + l.suffix
		H := p.heap.get(key, arrSort(ks, l.sort))
		p.heap.m[key] = Store(H, m.Ref, Store(Select(H, m.Ref), k, ts[i]))
	}
}

func (x *Exec) newMap(p *Path, t *types.Map) MapV {
	r := RefLit(p.nextRef)
	p.nextRef++
	ks := mapKeySort(x, t)
	dk := mapKey(t) + "#dom"
	D := p.heap.get(dk, arrSort(ks, sortBool))
	p.heap.m[dk] = Store(D, r, ConstArr(ks, False))
	for _, l := range leaves(t.Elem()) {
		key := mapKey(t) + l.suffix
		H := p.heap.get(key, arrSort(ks, l.sort))
		p.heap.m[key] = Store(H, r, ConstArr(ks, zeroLeaf(l.sort)))
	}
	return MapV{Ref: r, T: t}
}

// iteVal merges two values.
func (x *Exec) iteVal(c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch v := a.(type) {
	case nil:
		return nil
	case *Term:
		return Ite(c, v, b.(*Term))
	case SliceV:
		w := b.(SliceV)
		if v.Snap != w.Snap {
			if w.Ref.isConst() && w.Ref.N == 0 {
				w.Snap = v.Snap
			} else if v.Ref.isConst() && v.Ref.N == 0 {
				v.Snap = w.Snap
			} else {
				x.unsupported("merge of slices from different states")
			}
		}
		return SliceV{Ite(c, v.Ref, w.Ref), Ite(c, v.Off, w.Off), Ite(c, v.Len, w.Len), Ite(c, v.Cap, w.Cap), v.Elem, v.Snap}
	case PtrV:
		w := b.(PtrV)
		if v.Path != w.Path || v.Snap != w.Snap {
			x.unsupported("merge of pointers")
		}
		return PtrV{v.Root, Ite(c, v.Ref, w.Ref), Ite(c, v.Idx, w.Idx), v.Path, v.T, v.Snap}
	case MapV:
		w := b.(MapV)
		return MapV{Ite(c, v.Ref, w.Ref), v.T, v.Snap}
	case StructV:
		w := b.(StructV)
		r := StructV{T: v.T}
		for i := range v.F {
			r.F = append(r.F, x.iteVal(c, v.F[i], w.F[i]))
		}
		return r
	case TupleV:
		w := b.(TupleV)
		var r TupleV
		for i := range v {
			r = append(r, x.iteVal(c, v[i], w[i]))
		}
		return r
	}
	x.unsupported(fmt.Sprintf("merge of %T", a))
	return nil
}

func (x *Exec) eqVal(a, b Val) *Term {
	switch v := a.(type) {
	case *Term:
		return Eq(v, b.(*Term))
	case PtrV:
		w := b.(PtrV)
		if v.Path != w.Path {
			if v.Ref.isConst() && v.Ref.N == 0 || w.Ref.isConst() && w.Ref.N == 0 {
				return Eq(v.Ref, w.Ref)
			}
			x.unsupported("pointer comparison")
		}
		return And(Eq(v.Ref, w.Ref), Or(Eq(v.Ref, RefLit(0)), Eq(v.Idx, w.Idx)))
	case SliceV:
		w := b.(SliceV)
		return Eq(v.Ref, w.Ref) // only comparison with nil is legal
	case MapV:
		return Eq(v.Ref, b.(MapV).Ref)
	case StructV:
		w := b.(StructV)
		var cs []*Term
		for i := range v.F {
			cs = append(cs, x.eqVal(v.F[i], w.F[i]))
		}
		return And(cs...)
	}
	x.unsupported(fmt.Sprintf("compare %T", a))
	return nil
}
