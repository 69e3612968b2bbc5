package main

// Models of built-in and library functions. Everything here is trusted; the list is reported as such.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type builtinFn func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool)

var builtins map[string]builtinFn

type modFn func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64)

var builtinMods map[string]modFn

// ---- language built-ins ----

func (x *Exec) builtinCall(p *Path, i *ssa.Call, name string, a []Val) (Val, bool) {
	switch name {
	case "len":
		switch v := a[0].(type) {
		case SliceV:
			return v.Len, true
		case *Term:
			return SLen(v), true
		case MapV:
			h := x.heapFor(p, v.Snap)
			d := x.mapDom(h, v)
			n := App("maplen", bvSort(64), d)
			p.assume(Ult(n, BV64(maxLen)))
			return Ite(Eq(v.Ref, RefLit(0)), BV64(0), n), true
		case ArrV:
			return BV64(uint64(len(v.E))), true
		}
	case "cap":
		if v, ok := a[0].(SliceV); ok {
			return v.Cap, true
		}
	case "append":
		return x.appendCall(p, i, a)
	case "copy":
		d, ok := a[0].(SliceV)
		if !ok {
			break
		}
		switch s := a[1].(type) {
		case SliceV:
			n := Ite(Ult(d.Len, s.Len), d.Len, s.Len)
			for _, l := range leaves(d.Elem) {
				key := typeKey(d.Elem) + l.suffix
				H := p.heap.get(key, arrSort(bvSort(64), l.sort))
				src := x.inner(x.heapFor(p, s.Snap), key, l.sort, s.Ref)
				p.heap.m[key] = Store(H, d.Ref, CopyArr(Select(H, d.Ref), src, d.Off, n, s.Off))
			}
			return n, true
		}
	case "delete":
		m := a[0].(MapV)
		ks := mapKeySort(x, m.T)
		dk := mapKey(m.T) + "#dom"
		D := p.heap.get(dk, arrSort(ks, sortBool))
		p.heap.m[dk] = Store(D, m.Ref, Store(Select(D, m.Ref), a[1].(*Term), False))
		return TupleV{}, true
	case "recover":
		if len(p.frames) >= 2 && p.top().isDefer {
			g := p.frames[len(p.frames)-2]
			if g.panicking && !g.recovered {
				g.recovered = true
				v := Fresh("recovered", sortIface)
				p.assume(Not(Eq(v, INil)))
				return v, true
			}
		}
		return INil, true
	case "print", "println":
		return TupleV{}, true
	case "ssa:wrapnilchk":
		return a[0], true
	}
	x.unsupported("built-in " + name)
	return nil, false
}

// linearAppend: the slice appended to is not used again and is not shared.
func (x *Exec) linearAppend(i *ssa.Call) bool {
	s := i.Call.Args[0]
	if c, ok := s.(*ssa.Const); ok && c.Value == nil {
		return true
	}
	if !staticFresh(s, map[ssa.Value]bool{}) {
		return false
	}
	// all aliases: values flowing into s and their derived slices
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if _, isC := v.(*ssa.Const); isC {
			return true
		}
		if c, st := sliceCell(v); c != nil {
			// every append to what the variable holds is stored back before anything else is
			for _, r := range *c.Referrers() {
				if ld, isL := r.(*ssa.UnOp); isL && !(ok(ld) && storedBack(ld, c)) {
					return false
				}
			}
			for _, s := range st {
				if !ok(s.Val) {
					return false
				}
			}
			return true
		}
		if _, isA := v.(*ssa.Alloc); isA {
			return true
		}
		if ld, isL := v.(*ssa.UnOp); isL && ld.Op == token.MUL {
			if c, _ := sliceCell(ld.X); c == nil || !ok(c) {
				return false
			}
		}
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch e := r.(type) {
			case *ssa.DebugRef, *ssa.IndexAddr, *ssa.Return, *ssa.Range:
			case *ssa.Phi:
				if !ok(e) {
					return false
				}
			case *ssa.Slice:
				return false
			case *ssa.Call:
				b, isB := e.Call.Value.(*ssa.Builtin)
				if !isB {
					// passed to a function: it may keep it only by storing it; accept reads
					if !x.w.isNoEffectCall(e) {
						return false
					}
					continue
				}
				switch b.Name() {
				case "len", "cap":
				case "append":
					if e.Call.Args[0] == v {
						if e != i && !ok(e) {
							return false
						}
						// a second append to the same value shares the tail
						n := 0
						for _, q := range *refs {
							if c, isC := q.(*ssa.Call); isC {
								if bb, isBB := c.Call.Value.(*ssa.Builtin); isBB && bb.Name() == "append" && c.Call.Args[0] == v {
									n++
								}
							}
						}
						if n > 1 {
							return false
						}
					}
				case "copy":
				default:
					return false
				}
			case *ssa.Store:
				if e.Val == v && !ok(e.Addr) {
					return false
				}
			case *ssa.MakeInterface:
				return false
			default:
				return false
			}
		}
		// writes through older values after the append are not possible when they have no later use;
		// element writes through v itself happen before or on the appended slice
		switch e := v.(type) {
		case *ssa.Phi:
			for _, y := range e.Edges {
				if !ok(y) {
					return false
				}
			}
		case *ssa.Slice:
			if _, isS := e.X.Type().Underlying().(*types.Slice); isS {
				return false
			}
		case *ssa.Call:
			return ok(e.Call.Args[0])
		}
		return true
	}
	return ok(s)
}

// storedBack: an append to the loaded value is stored to the variable, in the same block, with no
// other access to the variable in between.
func storedBack(ld *ssa.UnOp, c *ssa.Alloc) bool {
	for _, r := range *ld.Referrers() {
		call, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || call.Call.Args[0] != ssa.Value(ld) {
			continue
		}
		found, in := false, false
		for _, i := range ld.Block().Instrs {
			if i == ssa.Instruction(ld) {
				in = true
				continue
			}
			if !in {
				continue
			}
			if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(c) {
				found = s.Val == ssa.Value(call)
				break
			}
			if l, ok := i.(*ssa.UnOp); ok && l.X == ssa.Value(c) {
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (w *World) isNoEffectCall(c *ssa.Call) bool {
	fn := c.Call.StaticCallee()
	return fn != nil && w.isNoEffect(fn)
}

func (x *Exec) appendCall(p *Path, i *ssa.Call, a []Val) (Val, bool) {
	s, ok := a[0].(SliceV)
	if !ok {
		x.unsupported("append")
	}
	var n *Term
	var src *SliceV
	var str *Term
	switch t := a[1].(type) {
	case SliceV:
		n, src = t.Len, &t
	case *Term:
		n, str = SLen(t), t
	default:
		x.unsupported("append")
	}
	if n.isConst() && n.N == 0 {
		return s, true
	}
	newLen := Add(s.Len, n)
	write := func(q *Path, dst, base *Term) {
		for _, l := range leaves(s.Elem) {
			key := typeKey(s.Elem) + l.suffix
			H := q.heap.get(key, arrSort(bvSort(64), l.sort))
			var from, off *Term
			if src != nil {
				from = x.inner(x.heapFor(q, src.Snap), key, l.sort, src.Ref)
				off = src.Off
			} else {
				from, off = App("strbytes", arrSort(bvSort(64), bvSort(8)), str), BV64(0)
			}
			old := Select(x.heapFor(q, s.Snap).get(key, arrSort(bvSort(64), l.sort)), base)
			if s.Snap == nil {
				old = Select(H, base)
			}
			q.heap.m[key] = Store(H, dst, CopyArr(old, from, Add(s.Off, s.Len), n, off))
		}
	}
	fits := Ule(newLen, s.Cap)
	if !x.spec && !x.linearAppend(i) && x.feasible(p, fits) {
		// the in-place case is followed on a path of its own
		if x.feasible(p, Not(fits)) {
			q := p.clone()
			q.assume(fits)
			s0, n0, l0 := s, newLen, src
			s = x.decideNil(q, s)
			if s.Ref == s0.Ref && s.Ref.Op == OIte && s.Ref.Args[0].Op == OVar && s.Ref.Args[1].isConst() && s.Ref.Args[1].N == 0 {
				// a nil slice with nothing appended stays nil
				c := s.Ref.Args[0]
				e := q.clone()
				m := map[*Term]*Term{c: True}
				x.substPath(e, m)
				e.assume(Eq(newSubst(m).term(newLen), BV64(0)))
				t := newSubst(m).val(s).(SliceV)
				e.top().env[i] = SliceV{t.Ref, t.Off, BV64(0), t.Cap, s.Elem, nil}
				e.trace = append(e.trace, x.pos(i)+": append nothing to nil")
				if !e.dead {
					x.work = append(x.work, e)
				}
				m = map[*Term]*Term{c: False}
				x.substPath(q, m)
				s = newSubst(m).val(s).(SliceV)
			}
			if s.Ref != s0.Ref {
				m := newSubst(map[*Term]*Term{s0.Ref.Args[0]: False})
				newLen = m.term(newLen)
				if src != nil {
					t := m.val(*src).(SliceV)
					src = &t
				}
			}
			write(q, s.Ref, s.Ref)
			q.top().env[i] = SliceV{s.Ref, s.Off, newLen, s.Cap, s.Elem, nil}
			s, newLen, src = s0, n0, l0
			q.trace = append(q.trace, x.pos(i)+": append in place")
			if !q.dead {
				x.work = append(x.work, q)
			}
			p.assume(Not(fits))
		} else {
			p.assume(fits)
			write(p, s.Ref, s.Ref)
			return SliceV{s.Ref, s.Off, newLen, s.Cap, s.Elem, nil}, !p.dead
		}
	}
	r := RefLit(p.nextRef)
	p.nextRef++
	write(p, r, s.Ref)
	c := Fresh("cap", bvSort(64))
	p.assume(And(Ule(newLen, c), Ult(c, BV64(maxLen))))
	ref := Ite(And(Eq(n, BV64(0)), Eq(s.Ref, RefLit(0))), RefLit(0), r)
	return SliceV{ref, s.Off, newLen, c, s.Elem, nil}, true
}

// ---- formatting ----

// varargs gives the interface arguments of a variadic call.
func (x *Exec) varargs(p *Path, v Val) []*Term {
	s := v.(SliceV)
	if !s.Len.isConst() {
		x.unsupported("variadic call with a slice")
	}
	arr := x.inner(x.heapFor(p, s.Snap), "any", sortIface, s.Ref)
	var out []*Term
	for k := uint64(0); k < s.Len.N; k++ {
		out = append(out, Select(arr, Add(s.Off, BV64(k))))
	}
	return out
}

var ifaceSigned = map[string]bool{"IInt": true, "II64": true, "II8": true, "II16": true, "II32": true}
var ifaceInt = map[string]bool{"IU64": true, "IInt": true, "II64": true, "IU8": true, "IU16": true, "IU32": true, "II8": true, "II16": true, "II32": true, "IUint": true}

// decimal text of an integer; flags are the part between % and the verb.
func decimal(flags string, t *Term, signed bool) *Term {
	name := "dec" + flags
	if t.isConst() {
		v := t.N
		if signed {
			return StrLit(fmt.Sprintf("%"+flags+"d", sx(v, t.Sort.W)))
		}
		return StrLit(fmt.Sprintf("%"+flags+"d", v))
	}
	if signed && !nonNeg(t) {
		w := Sext(t, 64)
		return Ite(Slt(w, BV64(0)), App(name+":s", sortStr, w), App(name+":u", sortStr, w))
	}
	if !signed {
		return App(name+":u", sortStr, Zext(t, 64))
	}
	return App(name+":u", sortStr, Sext(t, 64))
}

func (x *Exec) format(p *Path, flags string, verb byte, arg *Term) *Term {
	if arg.Op == OIte {
		return Ite(arg.Args[0], x.format(p, flags, verb, arg.Args[1]), x.format(p, flags, verb, arg.Args[2]))
	}
	if arg.Op == OCtor {
		switch {
		case arg.S == "INil" && verb == 'v':
			return StrLit("<nil>")
		case arg.S == "IStr" && (verb == 's' || verb == 'v') && flags == "":
			return arg.Args[0]
		case ifaceInt[arg.S] && (verb == 'd' || verb == 'v'):
			return decimal(flags, arg.Args[0], ifaceSigned[arg.S])
		case ifaceInt[arg.S] && verb == 'b' && flags == "":
			t := arg.Args[0]
			if !ifaceSigned[arg.S] || nonNeg(t) {
				return App("binary", sortStr, Zext(t, 64))
			}
		case arg.S == "IBool" && (verb == 'v' || verb == 't'):
			return Ite(arg.Args[0], StrLit("true"), StrLit("false"))
		case arg.S == "IOther":
			id := Select(p.heap.get("#type", bvSort(32)), arg.Args[0])
			if id == x.w.typeID(types.NewSlice(types.Typ[types.Uint8])) {
				v, _ := x.unbox(p, arg, types.NewSlice(types.Typ[types.Uint8]))
				if flags == "" && verb == 's' {
					return x.bytesToStr(p, v.(SliceV))
				}
				if flags == "" && verb == 'x' {
					return hexStr(x.bytesToStr(p, v.(SliceV)))
				}
			}
		}
	}
	if verb == 'v' && flags == "" {
		return App("fmtv", sortStr, arg)
	}
	return App("fmt%"+flags+string(verb), sortStr, arg)
}

func hexStr(s *Term) *Term { return App("hexstr", sortStr, s) }

func (x *Exec) sprintf(p *Path, f string, args []*Term) *Term {
	var out []*Term
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i : i+1])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			x.unsupported("format string")
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if k >= len(args) {
			x.unsupported("format string has too few arguments")
		}
		out = append(out, StrLit(lit))
		lit = ""
		out = append(out, x.format(p, f[i+1:j], f[j], args[k]))
		k++
		i = j
	}
	if k != len(args) {
		x.unsupported("format string has extra arguments")
	}
	out = append(out, StrLit(lit))
	return StrCat(out...)
}

func (x *Exec) newErr(p *Path) *Term {
	r := RefLit(p.nextRef)
	p.nextRef++
	return Ctor("IOther", r)
}

func (x *Exec) errOr(p *Path, name string) *Term {
	return Fresh(name, sortIface)
}

func (x *Exec) bufPtr(v Val) PtrV {
	pv, ok := v.(PtrV)
	if !ok {
		x.unsupported("buffer receiver")
	}
	return pv
}

func (x *Exec) bufGet(p *Path, pv PtrV) *Term {
	return x.load(p, pv).(StructV).F[0].(*Term)
}

func (x *Exec) bufSet(p *Path, pv PtrV, t *Term) {
	x.store(p, pv, StructV{T: pv.T, F: []Val{t}})
}

func constStr(v Val) (string, bool) {
	t, ok := v.(*Term)
	if ok && t.isConst() {
		return t.S, true
	}
	return "", false
}

func byteStr(b *Term) *Term {
	return Chr(b)
}

// leBytes reads n bytes little- or big-endian from the start of a slice.
func (x *Exec) readInt(p *Path, i *ssa.Call, s SliceV, n int, big bool) (*Term, bool) {
	if !x.mayPanic(p, Ult(s.Len, BV64(uint64(n))), "index out of range", i) {
		return nil, false
	}
	arr := x.bytesArr(p, s)
	var r *Term
	for k := 0; k < n; k++ {
		b := Select(arr, Add(s.Off, BV64(uint64(k))))
		switch {
		case r == nil:
			r = b
		case big:
			r = Concat(r, b)
		default:
			r = Concat(b, r)
		}
	}
	return r, true
}

func pureStr(name string, f func(a ...string) (string, bool)) builtinFn {
	return func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		var cs []string
		var ts []*Term
		for _, v := range a {
			t, ok := v.(*Term)
			if !ok {
				x.unsupported(name)
			}
			ts = append(ts, t)
			if t.isConst() {
				cs = append(cs, t.S)
			}
		}
		if len(cs) == len(ts) {
			if r, ok := f(cs...); ok {
				return StrLit(r), true
			}
		}
		return App(name, sortStr, ts...), true
	}
}

const fileT = "os.File"

func init() {
	builtins = map[string]builtinFn{
		"fmt.Println": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			var out []*Term
			for k, t := range x.varargs(p, a[0]) {
				if k > 0 {
					out = append(out, StrLit(" "))
				}
				out = append(out, x.format(p, "", 'v', t))
			}
			out = append(out, StrLit("\n"))
			p.out = StrCat(append([]*Term{p.out}, out...)...)
			return TupleV{BV64(0), INil}, true
		},
		"fmt.Printf": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			f, ok := constStr(a[0])
			if !ok {
				x.unsupported("Printf format")
			}
			p.out = StrCat(p.out, x.sprintf(p, f, x.varargs(p, a[1])))
			return TupleV{BV64(0), INil}, true
		},
		"fmt.Print": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			ts := x.varargs(p, a[0])
			if len(ts) != 1 {
				x.unsupported("Print of several operands")
			}
			p.out = StrCat(p.out, x.format(p, "", 'v', ts[0]))
			return TupleV{BV64(0), INil}, true
		},
		"fmt.Sprintf": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			f, ok := constStr(a[0])
			if !ok {
				x.unsupported("Sprintf format")
			}
			return x.sprintf(p, f, x.varargs(p, a[1])), true
		},
		"fmt.Sprint": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			ts := x.varargs(p, a[0])
			if len(ts) != 1 {
				x.unsupported("Sprint of several operands")
			}
			return x.format(p, "", 'v', ts[0]), true
		},
		"fmt.Errorf": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return x.newErr(p), true },
		"errors.New": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return x.newErr(p), true },
		"strconv.ParseInt": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			s, ok := constStr(a[0])
			b, bits := a[1].(*Term), a[2].(*Term)
			if !ok || !b.isConst() || !bits.isConst() {
				x.unsupported("ParseInt of a variable")
			}
			v, err := strconv.ParseInt(s, int(b.N), int(bits.N))
			if err != nil {
				return TupleV{BV64(uint64(v)), x.newErr(p)}, true
			}
			return TupleV{BV64(uint64(v)), INil}, true
		},
		"strconv.Itoa": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return decimal("", a[0].(*Term), true), true
		},
		"strconv.FormatUint": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			b := a[1].(*Term)
			if b.isConst() && b.N == 10 {
				return decimal("", a[0].(*Term), false), true
			}
			if b.isConst() && b.N == 2 {
				return App("binary", sortStr, a[0].(*Term)), true
			}
			return App("FormatUint", sortStr, a[0].(*Term), b), true
		},
		"strconv.FormatInt": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			b := a[1].(*Term)
			if b.isConst() && b.N == 10 {
				return decimal("", a[0].(*Term), true), true
			}
			return App("FormatInt", sortStr, a[0].(*Term), b), true
		},
		"strings.TrimSpace": pureStr("TrimSpace", func(a ...string) (string, bool) { return strings.TrimSpace(a[0]), true }),
		"strings.ToLower":   pureStr("ToLower", func(a ...string) (string, bool) { return strings.ToLower(a[0]), true }),
		"strings.TrimRight": pureStr("TrimRight", func(a ...string) (string, bool) { return strings.TrimRight(a[0], a[1]), true }),
		"strings.Contains": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			s, t := a[0].(*Term), a[1].(*Term)
			if s.isConst() && t.isConst() {
				return Bool(strings.Contains(s.S, t.S)), true
			}
			return App("strcontains", sortBool, s, t), true
		},
		"strings.HasPrefix": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			s, t := a[0].(*Term), a[1].(*Term)
			if s.isConst() && t.isConst() {
				return Bool(strings.HasPrefix(s.S, t.S)), true
			}
			return App("strprefix", sortBool, s, t), true
		},
		"strings.Split": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			s, sep := a[0].(*Term), a[1].(*Term)
			r := x.newObj(p, types.Typ[types.String])
			n := App("split#n", bvSort(64), s, sep)
			p.assume(And(Ule(BV64(1), n), Ult(n, BV64(maxLen))))
			// at least two parts exactly when the separator occurs
			if sep.isConst() && sep.S != "" {
				p.assume(Eq(Ule(BV64(2), n), App("strcontains", sortBool, s, sep)))
			}
			H := p.heap.get("string", arrSort(bvSort(64), sortStr))
			p.heap.m["string"] = Store(H, r, App("split", arrSort(bvSort(64), sortStr), s, sep))
			return SliceV{r, BV64(0), n, n, types.Typ[types.String], nil}, true
		},
		"bytes.IndexByte": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			s := a[0].(SliceV)
			r := Fresh("IndexByte", bvSort(64))
			c := a[1].(*Term)
			arr := x.bytesArr(p, s)
			v := BoundVar("q", bvSort(64))
			p.assume(And(Sle(BV64(^uint64(0)), r), Slt(r, s.Len)))
			p.assume(Implies(Sle(BV64(0), r), Eq(Select(arr, Add(s.Off, r)), c)))
			p.assume(Forall(v, Implies(And(Ult(v, s.Len), Or(Eq(r, BV64(^uint64(0))), Ult(v, r))), Not(Eq(Select(arr, Add(s.Off, v)), c)))))
			return r, true
		},
		"bytes.NewBuffer": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			t := i.Type().Underlying().(*types.Pointer).Elem()
			r := x.newObj(p, t)
			pv := PtrV{Root: t, Ref: r, Idx: BV64(0), T: t}
			x.bufSet(p, pv, x.bytesToStr(p, a[0].(SliceV)))
			return pv, true
		},
		"(*bytes.Buffer).WriteString": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			b := x.bufPtr(a[0])
			x.bufSet(p, b, StrCat(x.bufGet(p, b), a[1].(*Term)))
			return TupleV{SLen(a[1].(*Term)), INil}, true
		},
		"(*bytes.Buffer).WriteByte": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			b := x.bufPtr(a[0])
			x.bufSet(p, b, StrCat(x.bufGet(p, b), byteStr(a[1].(*Term))))
			return INil, true
		},
		"(*bytes.Buffer).Write": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			b := x.bufPtr(a[0])
			s := a[1].(SliceV)
			x.bufSet(p, b, StrCat(x.bufGet(p, b), x.bytesToStr(p, s)))
			return TupleV{s.Len, INil}, true
		},
		"(*bytes.Buffer).String": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return x.bufGet(p, x.bufPtr(a[0])), true
		},
		"(*bytes.Buffer).Len": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return SLen(x.bufGet(p, x.bufPtr(a[0]))), true
		},
		"(*bytes.Buffer).Reset": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			x.bufSet(p, x.bufPtr(a[0]), StrLit(""))
			return TupleV{}, true
		},
		"math.Float32frombits": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return a[0], true },
		"math.Float64frombits": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return a[0], true },
		"math.Float32bits":     func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return a[0], true },
		"math.Float64bits":     func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return a[0], true },
		"encoding/hex.EncodedLen": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return Mul(BV64(2), a[0].(*Term)), true
		},
		"encoding/hex.EncodeToString": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return hexStr(x.bytesToStr(p, a[0].(SliceV))), true
		},
		"encoding/hex.Encode": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			d, s := a[0].(SliceV), a[1].(SliceV)
			n := Mul(BV64(2), s.Len)
			if !x.mayPanic(p, Ult(d.Len, n), "index out of range", i) {
				return nil, false
			}
			key := typeKey(d.Elem)
			H := p.heap.get(key, arrSort(bvSort(64), bvSort(8)))
			src := App("strbytes", arrSort(bvSort(64), bvSort(8)), hexStr(x.bytesToStr(p, s)))
			p.heap.m[key] = Store(H, d.Ref, mk(OCopy, src.Sort, 0, "", nil, Select(H, d.Ref), src, d.Off, n, BV64(0)))
			return n, true
		},
		"time.Unix": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return StructV{T: i.Type(), F: []Val{App("time.Unix", sortOpq, a[0].(*Term), a[1].(*Term))}}, true
		},
		"(time.Time).Format": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return App("time.Format", sortStr, a[0].(StructV).F[0].(*Term), a[1].(*Term)), true
		},
		"(time.Time).UTC": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return StructV{T: i.Type(), F: []Val{App("time.UTC", sortOpq, a[0].(StructV).F[0].(*Term))}}, true
		},
		"os.Open": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			t := i.Type().(*types.Tuple).At(0).Type().Underlying().(*types.Pointer).Elem()
			path := a[0].(*Term)
			err := App("os.Open.err", sortIface, path)
			r := x.newObj(p, t)
			x.store(p, PtrV{Root: t, Ref: r, Idx: BV64(0), T: t}, StructV{T: t, F: []Val{App("file.data", arrSort(bvSort(64), bvSort(8)), path), App("file.size", bvSort(64), path), BV64(0)}})
			p.assume(Ult(App("file.size", bvSort(64), path), BV64(maxLen)))
			return TupleV{PtrV{Root: t, Ref: Ite(Eq(err, INil), r, RefLit(0)), Idx: BV64(0), T: t}, err}, true
		},
		"(*os.File).Close": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) { return Fresh("close", sortIface), true },
		"(*os.File).Read": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return x.fileRead(p, a[0].(PtrV), a[1].(SliceV), false), true
		},
		"io.ReadFull": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			pv, err := x.boxedFile(p, a[0].(*Term))
			if err != "" {
				x.unsupported(err)
			}
			return x.fileRead(p, pv, a[1].(SliceV), true), true
		},
		"encoding/binary.Read": func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			// fills the object behind the pointer in an unknown way
			size := -1
			for _, k := range []int{2} {
				t := a[k].(*Term)
				if t.Op != OCtor || t.S != "IOther" {
					x.unsupported("binary.Read into an unknown object")
				}
				id := Select(p.heap.get("#type", bvSort(32)), t.Args[0])
				done := false
				for name, n := range x.w.typeIDs {
					if id == BV(uint64(n), 32) && strings.HasPrefix(name, "*") {
						done = true
						x.havocBoxed(p, t, name)
						size = x.w.binarySize(name)
					}
				}
				if !done {
					x.unsupported("binary.Read into an unknown object")
				}
			}
			err := x.errOr(p, "binary.Read")
			if n := x.bufferedBytes(p, a[0].(*Term)); n != nil && size >= 0 {
				// all types of fixed size are read when there is enough data
				p.assume(Implies(Ule(BV64(uint64(size)), n), Eq(err, INil)))
			}
			return err, true
		},
	}
	for _, n := range []int{16, 32, 64} {
		n := n
		for _, e := range []string{"little", "big"} {
			e := e
			builtins[fmt.Sprintf("(encoding/binary.%sEndian).Uint%d", e, n)] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
				return x.readInt2(p, i, a[1], n/8, e == "big")
			}
		}
	}
	builtinMods = map[string]modFn{
		"fmt.Println": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			m.output = true
		},
		"fmt.Printf": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			m.output = true
		},
		"fmt.Print": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			m.output = true
		},
		"strings.Split": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			m.add(types.Typ[types.String], "", types.Typ[types.String], modItem{lim: lim})
		},
		"encoding/hex.Encode": modArg(0),
		"(*os.File).Read": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			modArg(0)(x, m, c, res, fp, lim)
			modArg(1)(x, m, c, res, fp, lim)
		},
		"os.Open": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			t := c.StaticCallee().Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			m.add(t, "", t, modItem{lim: lim})
		},
		"bytes.NewBuffer": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			t := c.StaticCallee().Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			m.add(t, "", t, modItem{lim: lim})
		},
		"io.ReadFull": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			mi, ok := c.Args[0].(*ssa.MakeInterface)
			if !ok || typeKey(mi.X.Type()) != "*os.File" {
				m.all = "io.ReadFull of an unknown reader in a loop"
				return
			}
			t := mi.X.Type().Underlying().(*types.Pointer).Elem()
			m.add(t, "", t, x.itemFor(mi.X, res, fp, lim, true))
			modArg(1)(x, m, c, res, fp, lim)
		},
		"encoding/binary.Read": func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
			v := c.Args[2]
			for i := 0; i < 8; i++ {
				if a, ok := x.argOf[v]; ok {
					v = a
				}
			}
			mi, ok := v.(*ssa.MakeInterface)
			if !ok {
				m.all = "binary.Read into an unknown object in a loop"
				return
			}
			pt, ok := mi.X.Type().Underlying().(*types.Pointer)
			if !ok {
				m.all = "binary.Read into an unknown object in a loop"
				return
			}
			m.add(pt.Elem(), "", pt.Elem(), modItem{lim: 0})
			if bm, ok := c.Args[0].(*ssa.MakeInterface); ok {
				if bt, ok := bm.X.Type().Underlying().(*types.Pointer); ok {
					m.add(bt.Elem(), "", bt.Elem(), modItem{lim: 0})
				}
			}
		},
		"(*sync.Map).Store": modArg(0),
	}
	for _, n := range []string{"WriteString", "WriteByte", "Write", "Reset"} {
		builtinMods["(*bytes.Buffer)."+n] = modArg(0)
	}
	initSyncMap()
}

func init() {
	// the content of a file, and whether it cannot be opened, by its path
	const u = repoMod + "/recovery/utils."
	builtins[u+"SpecSlice"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		r, b, k := a[0].(SliceV), a[1].(SliceV), a[2].(*Term)
		return And(Eq(r.Ref, b.Ref), Eq(r.Off, Add(b.Off, k)), Eq(r.Len, Sub(b.Len, k))), true
	}
	builtins[u+"SpecFile"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		path := a[0].(*Term)
		return BStr(App("file.data", arrSort(bvSort(64), bvSort(8)), path), BV64(0), App("file.size", bvSort(64), path)), true
	}
	builtins[u+"SpecFileAt"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		st := x.load(p, a[0].(PtrV)).(StructV)
		path := a[1].(*Term)
		return And(Eq(st.F[0].(*Term), App("file.data", arrSort(bvSort(64), bvSort(8)), path)),
			Eq(st.F[1].(*Term), App("file.size", bvSort(64), path)), Eq(st.F[2].(*Term), a[2].(*Term))), true
	}
	builtins[u+"SpecSameFile"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		f, g := x.load(p, a[0].(PtrV)).(StructV), x.load(p, a[1].(PtrV)).(StructV)
		return And(Eq(f.F[0].(*Term), g.F[0].(*Term)), Eq(f.F[1].(*Term), g.F[1].(*Term))), true
	}
	for n, k := range map[string]int{"SpecFileLen": 1, "SpecFilePos": 2} {
		k := k
		builtins[u+n] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
			return x.load(p, a[0].(PtrV)).(StructV).F[k], true
		}
	}
	builtins[u+"SpecFileByte"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		return Select(x.load(p, a[0].(PtrV)).(StructV).F[0].(*Term), a[1].(*Term)), true
	}
	builtins[u+"SpecFileMissing"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		return Not(Eq(App("os.Open.err", sortIface, a[0].(*Term)), INil)), true
	}
}

func (x *Exec) readInt2(p *Path, i *ssa.Call, v Val, n int, big bool) (Val, bool) {
	r, ok := x.readInt(p, i, v.(SliceV), n, big)
	if !ok {
		return nil, false
	}
	return r, true
}

// modArg: the call changes the object its argument points to.
func modArg(k int) modFn {
	return func(x *Exec, m *modSet, c *ssa.CallCommon, res resolver, fp map[ssa.Value]bool, lim uint64) {
		a := c.Args[k]
		switch u := a.Type().Underlying().(type) {
		case *types.Slice:
			m.add(u.Elem(), "", u.Elem(), x.itemFor(a, res, fp, lim, true))
		case *types.Pointer:
			root, path, ix := addrRoot(a)
			_ = root
			base, bt := x.storeBase(a)
			m.add(bt, path, u.Elem(), x.itemFor(base, res, fp, lim, ix))
		}
	}
}

// binarySize is encoding/binary's size of what a pointer type points to, or -1.
func (w *World) binarySize(name string) int {
	t, ok := w.typeVals[name].(*types.Pointer)
	if !ok {
		return -1
	}
	var size func(t types.Type) int
	size = func(t types.Type) int {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Bool, types.Int8, types.Uint8:
				return 1
			case types.Int16, types.Uint16:
				return 2
			case types.Int32, types.Uint32, types.Float32:
				return 4
			case types.Int64, types.Uint64, types.Float64, types.Complex64:
				return 8
			}
		case *types.Array:
			if n := size(u.Elem()); n >= 0 {
				return n * int(u.Len())
			}
		case *types.Struct:
			s := 0
			for i := 0; i < u.NumFields(); i++ {
				n := size(u.Field(i).Type())
				// a field that is not exported cannot be set
				if n < 0 || !u.Field(i).Exported() && u.Field(i).Name() != "_" {
					return -1
				}
				s += n
			}
			return s
		}
		return -1
	}
	return size(t.Elem())
}

// bufferedBytes: the number of bytes a boxed *bytes.Buffer holds, or nil.
func (x *Exec) bufferedBytes(p *Path, t *Term) *Term {
	if t.Op != OCtor || t.S != "IOther" {
		return nil
	}
	id := Select(p.heap.get("#type", bvSort(32)), t.Args[0])
	n, ok := x.w.typeIDs["*bytes.Buffer"]
	if !ok || id != BV(uint64(n), 32) {
		return nil
	}
	bt := x.w.typeVals["*bytes.Buffer"].(*types.Pointer)
	ref := Select(p.heap.get("box(*bytes.Buffer)#ref", sortRef), t.Args[0])
	idx := Select(p.heap.get("box(*bytes.Buffer)#idx", bvSort(64)), t.Args[0])
	b := PtrV{Root: bt.Elem(), Ref: ref, Idx: idx, T: bt.Elem()}
	left := SLen(x.bufGet(p, b))
	x.bufSet(p, b, Fresh("buf", sortStr))
	return left
}

// boxedFile finds the *os.File inside an io.Reader value.
func (x *Exec) boxedFile(p *Path, t *Term) (PtrV, string) {
	if t.Op != OCtor || t.S != "IOther" {
		return PtrV{}, "reader is not a known file"
	}
	id := Select(p.heap.get("#type", bvSort(32)), t.Args[0])
	n, ok := x.w.typeIDs["*os.File"]
	if !ok || id != BV(uint64(n), 32) {
		return PtrV{}, "reader is not a known file"
	}
	ref := Select(p.heap.get("box(*os.File)#ref", sortRef), t.Args[0])
	idx := Select(p.heap.get("box(*os.File)#idx", bvSort(64)), t.Args[0])
	ft := x.w.fileType()
	return PtrV{Root: ft, Ref: ref, Idx: idx, T: ft}, ""
}

func (w *World) fileType() types.Type {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			return p.Pkg.Scope().Lookup("File").Type()
		}
	}
	panic(unsup{"package os not loaded"})
}

// fileRead models reading at the current position.
func (x *Exec) fileRead(p *Path, f PtrV, b SliceV, full bool) Val {
	st := x.load(p, f).(StructV)
	data, size, pos := st.F[0].(*Term), st.F[1].(*Term), st.F[2].(*Term)
	p.assume(And(Ule(pos, size), Ult(size, BV64(maxLen))))
	rem := Sub(size, pos)
	most := Ite(Ult(b.Len, rem), b.Len, rem)
	n := most
	err := Fresh("read.err", sortIface)
	if !full {
		n = Fresh("read.n", bvSort(64))
		p.assume(Ule(n, most))
		// a read of at least one byte before the end returns something, or fails
		p.assume(Implies(And(Eq(n, BV64(0)), Ult(BV64(0), b.Len)), Not(Eq(err, INil))))
		p.assume(Implies(And(Ult(BV64(0), b.Len), Eq(rem, BV64(0))), Not(Eq(err, INil))))
	} else {
		p.assume(Eq(Eq(err, INil), Eq(n, b.Len)))
	}
	key := typeKey(b.Elem)
	H := p.heap.get(key, arrSort(bvSort(64), bvSort(8)))
	p.heap.m[key] = Store(H, b.Ref, mk(OCopy, data.Sort, 0, "", nil, Select(H, b.Ref), data, b.Off, n, pos))
	x.store(p, f, StructV{T: f.T, F: []Val{data, size, Add(pos, n)}})
	return TupleV{n, err}
}

func (x *Exec) havocBoxed(p *Path, t *Term, name string) {
	ref := Select(p.heap.get("box("+name+")#ref", sortRef), t.Args[0])
	for _, k := range sortedKeys(p.heap.m) {
		h := p.heap.m[k]
		root := strings.TrimPrefix(name, "*")
		if k == root || strings.HasPrefix(k, root+".") || strings.HasPrefix(k, root+"[") {
			p.heap.m[k] = Store(h, ref, Fresh("binary.Read/"+k, h.Sort.B))
		}
	}
	x.notes["binary.Read fills its destination with unknown values"] = true
}

func initSyncMap() {
	get := func(x *Exec, p *Path, v Val) (PtrV, *Term, *Term) {
		pv := v.(PtrV)
		st := x.load(p, pv).(StructV)
		return pv, st.F[0].(*Term), st.F[1].(*Term)
	}
	builtins["(*sync.Map).Load"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		_, d, v := get(x, p, a[0])
		k := a[1].(*Term)
		ok := Select(d, k)
		return TupleV{Ite(ok, Select(v, k), INil), ok}, true
	}
	builtins["(*sync.Map).Store"] = func(x *Exec, p *Path, i *ssa.Call, a []Val) (Val, bool) {
		pv, d, v := get(x, p, a[0])
		k := a[1].(*Term)
		x.store(p, pv, StructV{T: pv.T, F: []Val{Store(d, k, True), Store(v, k, a[2].(*Term))}})
		return TupleV{}, true
	}
}
