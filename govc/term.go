package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SStr
	SIface
	SArr
	SOpq
)

type Sort struct {
	K    SortKind
	W    int
	A, B *Sort
	id   int
}

var (
	sortBool  = &Sort{K: SBool, id: 1}
	sortStr   = &Sort{K: SStr, id: 2}
	sortIface = &Sort{K: SIface, id: 3}
	sortOpq   = &Sort{K: SOpq, id: 4}
	bvSorts   = map[int]*Sort{}
	arrSorts  = map[[2]*Sort]*Sort{}
	sortCount = 100
)

func bvSort(w int) *Sort {
	if s, ok := bvSorts[w]; ok {
		return s
	}
	s := &Sort{K: SBV, W: w, id: 10 + w}
	bvSorts[w] = s
	return s
}

func arrSort(a, b *Sort) *Sort {
	k := [2]*Sort{a, b}
	if s, ok := arrSorts[k]; ok {
		return s
	}
	sortCount++
	s := &Sort{K: SArr, A: a, B: b, id: sortCount}
	arrSorts[k] = s
	return s
}

func (s *Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SStr:
		return "String"
	case SIface:
		return "Iface"
	case SOpq:
		return "Opq"
	case SArr:
		return fmt.Sprintf("(Array %s %s)", s.A, s.B)
	}
	panic("sort")
}

const RefW = 32

var sortRef = bvSort(RefW)

type Op int

const (
	OConst Op = iota // bv / bool const in N ; string const in S
	OVar             // free constant named S
	OBound           // bound variable
	OApp             // uninterpreted function S
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // n-ary, with coefficients in Cs and constant N
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // hi=N>>16, lo=N&0xffff
	OZext
	OSext
	OSelect
	OStore
	OConstArr
	OStrCat
	OForall
	OExists
	OCtor  // Iface constructor S
	OSel   // Iface selector S
	OTest  // Iface tester S
	OHavoc // lambda r. r < N ? Args[0][r] : Args[1][r]
	OCopy  // lambda i. d <= i < d+n ? B[i-d+s] : A[i]   Args = A,B,d,n,s
)

type Term struct {
	Op           Op
	Sort         *Sort
	Args         []*Term
	Cs           []uint64 // coefficients for OAdd
	N            uint64
	S            string
	id           int
	bound        map[int]bool // ids of free bound variables (nil if none)
	hasStr, hasQ bool
	size         int
}

var termTab = map[string]*Term{}
var termCount int

func mk(op Op, s *Sort, n uint64, str string, cs []uint64, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%d|%s", op, s.id, n, str)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, ",%d", c)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Sort: s, N: n, S: str, Cs: cs, Args: args, id: termCount, size: 1}
	if s.K == SStr || s.K == SIface {
		t.hasStr = true
	}
	for s2 := s; s2.K == SArr; s2 = s2.B {
		if s2.B.K == SStr || s2.B.K == SIface || s2.A.K == SStr {
			t.hasStr = true
		}
	}
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasStr {
			t.hasStr = true
		}
		if a.hasQ {
			t.hasQ = true
		}
		for b := range a.bound {
			if (op == OForall || op == OExists) && args[0].id == b {
				continue
			}
			if t.bound == nil {
				t.bound = map[int]bool{}
			}
			t.bound[b] = true
		}
	}
	if op == OBound {
		t.bound = map[int]bool{t.id: true}
	}
	if op == OForall || op == OExists {
		t.hasQ = true
	}
	termTab[key] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func BV(v uint64, w int) *Term { return mk(OConst, bvSort(w), v&mask(w), "", nil) }
func BV64(v uint64) *Term      { return BV(v, 64) }
func RefLit(n int) *Term       { return BV(uint64(n), RefW) }

var (
	True  = mk(OConst, sortBool, 1, "", nil)
	False = mk(OConst, sortBool, 0, "", nil)
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func StrLit(s string) *Term { return mk(OConst, sortStr, 0, s, nil) }

var freshCount int

func Fresh(name string, s *Sort) *Term {
	freshCount++
	return mk(OVar, s, 0, fmt.Sprintf("%s!%d", sanitize(name), freshCount), nil)
}
func NamedVar(name string, s *Sort) *Term { return mk(OVar, s, 0, sanitize(name), nil) }
func BoundVar(name string, s *Sort) *Term {
	freshCount++
	return mk(OBound, s, 0, fmt.Sprintf("%s?%d", sanitize(name), freshCount), nil)
}

func sanitize(n string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '/' || r == '-' {
			return r
		}
		return '_'
	}, n)
}

func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) isTrue() bool  { return t == True }
func (t *Term) isFalse() bool { return t == False }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == ONot:
		return a.Args[0]
	case a.Op == OUlt:
		return Ule(a.Args[1], a.Args[0])
	case a.Op == OUle:
		return Ult(a.Args[1], a.Args[0])
	case a.Op == OSlt:
		return Sle(a.Args[1], a.Args[0])
	case a.Op == OSle:
		return Slt(a.Args[1], a.Args[0])
	}
	return mk(ONot, sortBool, 0, "", nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.Op == OAnd {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAnd, sortBool, 0, "", nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		var xs []*Term
		if a.Op == OOr {
			xs = a.Args
		} else {
			xs = []*Term{a}
		}
		for _, x := range xs {
			if x == True {
				return True
			}
			if x == False || seen[x] {
				continue
			}
			if seen[Not(x)] {
				return True
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OOr, sortBool, 0, "", nil, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

// addDiff returns (a-b) as a constant if it simplifies to one.
func addDiff(a, b *Term) (uint64, bool) {
	if a.Sort.K != SBV {
		return 0, false
	}
	d := Sub(a, b)
	if d.isConst() {
		return d.N, true
	}
	return 0, false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.isConst() && b.isConst() {
		if a.Sort.K == SStr {
			return Bool(a.S == b.S)
		}
		return Bool(a.N == b.N)
	}
	if a.Sort == sortBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort.K == SBV && a.Sort.W > 1 {
		if d, ok := addDiff(a, b); ok {
			return Bool(d == 0)
		}
		// zext(x) == const
		for k := 0; k < 2; k++ {
			if a.Op == OZext && b.isConst() {
				iw := a.Args[0].Sort.W
				if b.N > mask(iw) {
					return False
				}
				return Eq(a.Args[0], BV(b.N, iw))
			}
			if a.Op == OZext && b.Op == OZext && a.Args[0].Sort == b.Args[0].Sort {
				return Eq(a.Args[0], b.Args[0])
			}
			a, b = b, a
		}
		// ite(c, k1, k2) == k
		for k := 0; k < 2; k++ {
			if a.Op == OIte && b.isConst() && a.Args[1].isConst() && a.Args[2].isConst() {
				e1, e2 := Eq(a.Args[1], b), Eq(a.Args[2], b)
				return Ite(a.Args[0], e1, e2)
			}
			a, b = b, a
		}
		if refDistinct(a, b) {
			return False
		}
	}
	if a.Sort.K == SIface && a.Op == OCtor && b.Op == OCtor {
		if a.S != b.S {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort.K == SIface && a.Op == OCtor && b.Op == OIte {
		a, b = b, a
	}
	if a.Sort.K == SIface && a.Op == OIte && b.Op == OCtor {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.Sort.K == SStr {
		// strip common prefix / suffix parts
		pa, pb := strParts(a), strParts(b)
		stripped := false
		for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			stripped = true
		}
		for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			stripped = true
		}
		if stripped {
			return Eq(StrCat(pa...), StrCat(pb...))
		}
		if len(pa) > 0 && len(pb) > 0 && pa[0].isConst() && pb[0].isConst() {
			x, y := pa[0].S, pb[0].S
			n := len(x)
			if len(y) < n {
				n = len(y)
			}
			if x[:n] != y[:n] {
				return False
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, sortBool, 0, "", nil, a, b)
}

// refOld marks reference constants known to be allocated before the function was entered.
var refOld = map[*Term]bool{}

const FreshBase = 0x10000

func refDistinct(a, b *Term) bool {
	if a.Sort != sortRef {
		return false
	}
	if a.isConst() && b.isConst() {
		return a.N != b.N
	}
	la, ha := refRange(a)
	lb, hb := refRange(b)
	return ha <= lb || hb <= la
}

// refBounds holds known [lo,hi) ranges of reference variables.
var refBounds = map[*Term][2]uint64{}

const refTop = uint64(1) << RefW

// refRange returns bounds [lo,hi) that hold for a reference term.
func refRange(t *Term) (uint64, uint64) {
	switch {
	case t.isConst():
		return t.N, t.N + 1
	case refOld[t]:
		return 0, FreshBase
	case t.Op == OIte:
		l1, h1 := refRange(t.Args[1])
		l2, h2 := refRange(t.Args[2])
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case t.Op == OSelect:
		a := t.Args[0]
		for a.Op == OSelect {
			a = a.Args[0]
		}
		if a.Op == OVar && strings.HasPrefix(a.S, "H0/") {
			return 0, FreshBase
		}
	}
	if b, ok := refBounds[t]; ok {
		return b[0], b[1]
	}
	return 0, refTop
}

// Havoc keeps the objects below lim and makes the others unknown.
func Havoc(h *Term, lim uint64, name string) *Term {
	f := Fresh(name, h.Sort)
	if lim == 0 {
		return f
	}
	return mk(OHavoc, h.Sort, lim, "", nil, h, f)
}

func strParts(t *Term) []*Term {
	if t.Op == OStrCat {
		return t.Args
	}
	if t.isConst() && t.S == "" {
		return nil
	}
	return []*Term{t}
}

func StrCat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range strParts(t) {
			if n := len(out); n > 0 && out[n-1].isConst() && p.isConst() {
				out[n-1] = StrLit(out[n-1].S + p.S)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return StrLit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OStrCat, sortStr, 0, "", nil, out...)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == sortBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sorts %s %s", a.Sort, b.Sort))
	}
	return mk(OIte, a.Sort, 0, "", nil, c, a, b)
}

// ---- bit-vector arithmetic ----

type lin struct {
	c  uint64
	ts map[*Term]uint64
}

func toLin(t *Term, coef uint64, l *lin) {
	switch t.Op {
	case OConst:
		l.c += coef * t.N
	case OAdd:
		l.c += coef * t.N
		for i, a := range t.Args {
			l.ts[a] += coef * t.Cs[i]
		}
	default:
		l.ts[t] += coef
	}
}

func fromLin(l *lin, w int) *Term {
	m := mask(w)
	var ks []*Term
	for k, c := range l.ts {
		if c&m != 0 {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	c := l.c & m
	if len(ks) == 0 {
		return BV(c, w)
	}
	if len(ks) == 1 && c == 0 && l.ts[ks[0]]&m == 1 {
		return ks[0]
	}
	cs := make([]uint64, len(ks))
	for i, k := range ks {
		cs[i] = l.ts[k] & m
	}
	return mk(OAdd, bvSort(w), c, "", cs, ks...)
}

func Add(a, b *Term) *Term {
	l := &lin{ts: map[*Term]uint64{}}
	toLin(a, 1, l)
	toLin(b, 1, l)
	return fromLin(l, a.Sort.W)
}
func Sub(a, b *Term) *Term {
	l := &lin{ts: map[*Term]uint64{}}
	toLin(a, 1, l)
	toLin(b, ^uint64(0), l)
	return fromLin(l, a.Sort.W)
}
func Neg(a *Term) *Term { return Sub(BV(0, a.Sort.W), a) }
func Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := &lin{ts: map[*Term]uint64{}}
		toLin(b, a.N, l)
		return fromLin(l, a.Sort.W)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.Sort, 0, "", nil, a, b)
}

func sx(v uint64, w int) int64 { return int64(v<<(64-uint(w))) >> (64 - uint(w)) }

func BinBV(op Op, a, b *Term) *Term {
	w := a.Sort.W
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("BinBV %d sorts %s %s", op, a.Sort, b.Sort))
	}
	if a.isConst() && b.isConst() {
		x, y := a.N, b.N
		var r uint64
		switch op {
		case OUDiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv, OSRem:
			if y == 0 || (sx(y, w) == -1) {
				return mk(op, a.Sort, 0, "", nil, a, b)
			}
			if op == OSDiv {
				r = uint64(sx(x, w) / sx(y, w))
			} else {
				r = uint64(sx(x, w) % sx(y, w))
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x << y
			}
		case OLshr:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sx(x, w) >> y)
		}
		return BV(r, w)
	}
	switch op {
	case OUDiv:
		if b.isConst() && b.N == 1 {
			return a
		}
	case OBAnd, OBOr, OBXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
		if a == b {
			if op == OBXor {
				return BV(0, w)
			}
			return a
		}
		if b.isConst() {
			if b.N == 0 {
				if op == OBAnd {
					return b
				}
				return a
			}
			if b.N == mask(w) {
				if op == OBAnd {
					return a
				}
				if op == OBOr {
					return b
				}
				return BNot(a)
			}
			if op == OBAnd {
				if a.Op == OBAnd && a.Args[1].isConst() {
					return BinBV(OBAnd, a.Args[0], BV(a.Args[1].N&b.N, w))
				}
				if a.Op == OZext && mask(a.Args[0].Sort.W)&^b.N == 0 {
					return a
				}
				if a.Op == OZext {
					iw := a.Args[0].Sort.W
					return Zext(BinBV(OBAnd, a.Args[0], BV(b.N, iw)), w)
				}
				// low mask -> zext(extract)
				if b.N&(b.N+1) == 0 {
					n := bits.Len64(b.N)
					return Zext(Extract(a, n-1, 0), w)
				}
			}
		}
		if op == OBOr || op == OBXor {
			if r := disjointOr(a, b); r != nil {
				return r
			}
		}
	case OShl, OLshr:
		if a.isConst() && a.N == 0 {
			return a
		}
		if b.isConst() {
			if b.N == 0 {
				return a
			}
			if b.N >= uint64(w) {
				return BV(0, w)
			}
			n := int(b.N)
			if op == OShl {
				return Concat(Extract(a, w-1-n, 0), BV(0, n))
			}
			return Zext(Extract(a, w-1, n), w)
		}
	case OAshr:
		if b.isConst() && b.N == 0 {
			return a
		}
	}
	return mk(op, a.Sort, 0, "", nil, a, b)
}

// pieces splits a term into concatenated segments (high first).
func pieces(t *Term) []*Term {
	switch t.Op {
	case OConcat:
		return append(append([]*Term{}, pieces(t.Args[0])...), pieces(t.Args[1])...)
	case OZext:
		return append([]*Term{BV(0, t.Sort.W-t.Args[0].Sort.W)}, pieces(t.Args[0])...)
	}
	return []*Term{t}
}

func fromPieces(ps []*Term) *Term {
	r := ps[0]
	for _, p := range ps[1:] {
		r = Concat(r, p)
	}
	return r
}

// disjointOr joins two terms whose non-zero segments do not overlap.
func disjointOr(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	if len(pa)+len(pb) > 64 {
		return nil
	}
	cut := map[int]bool{}
	mark := func(ps []*Term) {
		pos := a.Sort.W
		for _, p := range ps {
			pos -= p.Sort.W
			cut[pos] = true
		}
	}
	mark(pa)
	mark(pb)
	var cs []int
	for c := range cut {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := a.Sort.W - 1
	var out []*Term
	for _, lo := range cs {
		x, y := Extract(a, hi, lo), Extract(b, hi, lo)
		switch {
		case x.isConst() && x.N == 0:
			out = append(out, y)
		case y.isConst() && y.N == 0:
			out = append(out, x)
		case x.isConst() && y.isConst():
			return nil
		default:
			return nil
		}
		hi = lo - 1
	}
	return fromPieces(out)
}

func BNot(a *Term) *Term {
	if a.isConst() {
		return BV(^a.N, a.Sort.W)
	}
	if a.Op == OBNot {
		return a.Args[0]
	}
	return mk(OBNot, a.Sort, 0, "", nil, a)
}

func Concat(a, b *Term) *Term {
	w := a.Sort.W + b.Sort.W
	if w > 64 {
		panic("concat too wide")
	}
	if a.isConst() && b.isConst() {
		return BV(a.N<<uint(b.Sort.W)|b.N, w)
	}
	if a.isConst() && a.N == 0 {
		return Zext(b, w)
	}
	if a.Op == OExtract && b.Op == OExtract && a.Args[0] == b.Args[0] {
		ahi, alo := int(a.N>>16), int(a.N&0xffff)
		bhi, blo := int(b.N>>16), int(b.N&0xffff)
		if alo == bhi+1 {
			return Extract(a.Args[0], ahi, blo)
		}
	}
	// right-nest: (a1 . a2) . b => a1 . (a2 . b)
	if a.Op == OConcat {
		return Concat(a.Args[0], Concat(a.Args[1], b))
	}
	if a.Op == OZext {
		return Zext(Concat(a.Args[0], b), w)
	}
	if b.Op == OConcat && a.isConst() && b.Args[0].isConst() {
		return Concat(Concat(a, b.Args[0]), b.Args[1])
	}
	if b.Op == OConcat && a.Op == OExtract && b.Args[0].Op == OExtract && a.Args[0] == b.Args[0].Args[0] {
		if int(a.N&0xffff) == int(b.Args[0].N>>16)+1 {
			return Concat(Concat(a, b.Args[0]), b.Args[1])
		}
	}
	return mk(OConcat, bvSort(w), 0, "", nil, a, b)
}

func Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.Sort.W {
		return a
	}
	switch a.Op {
	case OConst:
		return BV(a.N>>uint(lo), w)
	case OZext:
		iw := a.Args[0].Sort.W
		if lo >= iw {
			return BV(0, w)
		}
		if hi < iw {
			return Extract(a.Args[0], hi, lo)
		}
		return Zext(Extract(a.Args[0], iw-1, lo), w)
	case OSext:
		iw := a.Args[0].Sort.W
		if hi < iw {
			return Extract(a.Args[0], hi, lo)
		}
	case OConcat:
		lw := a.Args[1].Sort.W
		if hi < lw {
			return Extract(a.Args[1], hi, lo)
		}
		if lo >= lw {
			return Extract(a.Args[0], hi-lw, lo-lw)
		}
		return Concat(Extract(a.Args[0], hi-lw, 0), Extract(a.Args[1], lw-1, lo))
	case OExtract:
		blo := int(a.N & 0xffff)
		return Extract(a.Args[0], hi+blo, lo+blo)
	case OIte:
		if a.Args[1].isConst() && a.Args[2].isConst() {
			return Ite(a.Args[0], Extract(a.Args[1], hi, lo), Extract(a.Args[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		if a.Args[1].isConst() {
			return BinBV(a.Op, Extract(a.Args[0], hi, lo), Extract(a.Args[1], hi, lo))
		}
	case OBNot:
		return BNot(Extract(a.Args[0], hi, lo))
	case OAdd:
		if lo == 0 {
			// low bits of a sum are the sum of low bits
			l := &lin{ts: map[*Term]uint64{}, c: a.N}
			for i, x := range a.Args {
				toLin(Extract(x, hi, 0), a.Cs[i], l)
			}
			return fromLin(l, w)
		}
	}
	return mk(OExtract, bvSort(w), uint64(hi)<<16|uint64(lo), "", nil, a)
}

func Zext(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.isConst() {
		return BV(a.N, w)
	}
	if a.Op == OZext {
		return Zext(a.Args[0], w)
	}
	return mk(OZext, bvSort(w), 0, "", nil, a)
}

func Sext(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.isConst() {
		return BV(uint64(sx(a.N, a.Sort.W)), w)
	}
	if a.Op == OZext {
		return Zext(a.Args[0], w)
	}
	return mk(OSext, bvSort(w), 0, "", nil, a)
}

func upperBound(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.N
	case OZext:
		return upperBound(t.Args[0])
	case OURem:
		if t.Args[1].isConst() && t.Args[1].N > 0 {
			return t.Args[1].N - 1
		}
	case OBAnd:
		if t.Args[1].isConst() {
			return t.Args[1].N
		}
	case OIte:
		a, b := upperBound(t.Args[1]), upperBound(t.Args[2])
		if a > b {
			return a
		}
		return b
	}
	return mask(t.Sort.W)
}

func Ult(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.isConst() && b.isConst() {
		return Bool(a.N < b.N)
	}
	if b.isConst() && b.N == 0 {
		return False
	}
	if b.isConst() && upperBound(a) < b.N {
		return True
	}
	if a.Sort == sortRef {
		la, ha := refRange(a)
		lb, hb := refRange(b)
		if ha <= lb {
			return True
		}
		if la+1 >= hb {
			return False
		}
	}
	if a.isConst() && upperBound(b) <= a.N {
		return False
	}
	if a.Op == OZext && b.isConst() && b.N <= mask(a.Args[0].Sort.W) {
		return Ult(a.Args[0], BV(b.N, a.Args[0].Sort.W))
	}
	return mk(OUlt, sortBool, 0, "", nil, a, b)
}
func Ule(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		return Bool(a.N <= b.N)
	}
	if a.isConst() && a.N == 0 {
		return True
	}
	if b.isConst() && upperBound(a) <= b.N {
		return True
	}
	if a.isConst() && upperBound(b) < a.N {
		return False
	}
	return mk(OUle, sortBool, 0, "", nil, a, b)
}

// nonNeg: the sign bit is known zero
func nonNeg(t *Term) bool { return upperBound(t) <= mask(t.Sort.W)>>1 }

func Slt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.isConst() && b.isConst() {
		return Bool(sx(a.N, a.Sort.W) < sx(b.N, b.Sort.W))
	}
	if nonNeg(a) && nonNeg(b) {
		return Ult(a, b)
	}
	return mk(OSlt, sortBool, 0, "", nil, a, b)
}
func Sle(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isConst() && b.isConst() {
		return Bool(sx(a.N, a.Sort.W) <= sx(b.N, b.Sort.W))
	}
	if nonNeg(a) && nonNeg(b) {
		return Ule(a, b)
	}
	return mk(OSle, sortBool, 0, "", nil, a, b)
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	for {
		if i.Op == OIte && i.Sort.W == RefW && (a.Op == OHavoc || a.Op == OStore && overHavoc(a)) && i.Args[1].isConst() {
			return Ite(i.Args[0], Select(a, i.Args[1]), Select(a, i.Args[2]))
		}
		switch a.Op {
		case OHavoc:
			lo, hi := refRange(i)
			if hi <= a.N {
				a = a.Args[0]
				continue
			}
			if lo >= a.N {
				a = a.Args[1]
				continue
			}
			return Ite(Ult(i, BV(a.N, RefW)), Select(a.Args[0], i), Select(a.Args[1], i))
		case OConstArr:
			return a.Args[0]
		case OCopy:
			d, n := a.Args[2], a.Args[3]
			rel := Sub(i, d)
			in := Ult(rel, n)
			if in == False {
				a = a.Args[0]
				continue
			}
			src := Add(rel, a.Args[4])
			if in == True {
				a, i = a.Args[1], src
				continue
			}
			return Ite(in, Select(a.Args[1], src), Select(a.Args[0], i))
		case OStore:
			e := Eq(a.Args[1], i)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
			if overHavoc(a.Args[0]) {
				return Ite(e, a.Args[2], Select(a.Args[0], i))
			}
		case OIte:
			if pushable(a.Args[1]) || pushable(a.Args[2]) {
				return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
			}
		}
		break
	}
	return mk(OSelect, a.Sort.B, 0, "", nil, a, i)
}

// overHavoc: stores on top of memory that a loop or call changed.
func overHavoc(a *Term) bool {
	for a.Op == OStore {
		a = a.Args[0]
	}
	return a.Op == OHavoc
}

func pushable(a *Term) bool {
	return a.Op == OStore || a.Op == OConstArr || a.Op == OCopy || a.Op == OHavoc || a.Op == OIte
}

// CopyArr is array a with n elements from b[s..] written at d.
func CopyArr(a, b, d, n, s *Term) *Term {
	if n.isConst() && n.N == 0 {
		return a
	}
	if n.isConst() && n.N <= 4 {
		for k := uint64(0); k < n.N; k++ {
			a = Store(a, Add(d, BV64(k)), Select(b, Add(s, BV64(k))))
		}
		return a
	}
	return mk(OCopy, a.Sort, 0, "", nil, a, b, d, n, s)
}

func Store(a, i, v *Term) *Term {
	if a.Op == OStore && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Sort.A != i.Sort || a.Sort.B != v.Sort {
		panic(fmt.Sprintf("Store sorts %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	return mk(OStore, a.Sort, 0, "", nil, a, i, v)
}

func ConstArr(idx *Sort, v *Term) *Term {
	return mk(OConstArr, arrSort(idx, v.Sort), 0, "", nil, v)
}

// SLen is the length of a string term.
func SLen(t *Term) *Term {
	switch {
	case t.isConst():
		return BV64(uint64(len(t.S)))
	case t.Op == OStrCat:
		r := BV64(0)
		for _, a := range t.Args {
			r = Add(r, SLen(a))
		}
		return r
	case t.Op == OApp && t.S == "chr":
		return BV64(1)
	case t.Op == OApp && t.S == "bstr":
		return t.Args[2]
	case t.Op == OApp && t.S == "hexstr":
		return Mul(BV64(2), SLen(t.Args[0]))
	case t.Op == OApp && t.S == "substr":
		return Sub(t.Args[2], t.Args[1])
	case t.Op == OIte:
		return Ite(t.Args[0], SLen(t.Args[1]), SLen(t.Args[2]))
	}
	return mk(OApp, bvSort(64), 0, "slen", nil, t)
}

// SAt is byte i of a string term.
func SAt(t, i *Term) *Term {
	if t.isConst() && i.isConst() && i.N < uint64(len(t.S)) {
		return BV(uint64(t.S[i.N]), 8)
	}
	if t.Op == OApp && t.S == "bstr" {
		return Select(t.Args[0], Add(t.Args[1], i))
	}
	if t.Op == OApp && t.S == "substr" {
		return SAt(t.Args[0], Add(t.Args[1], i))
	}
	if t.Op == OApp && t.S == "chr" && i.isConst() && i.N == 0 {
		return t.Args[0]
	}
	if t.Op == OIte {
		return Ite(t.Args[0], SAt(t.Args[1], i), SAt(t.Args[2], i))
	}
	return mk(OApp, bvSort(8), 0, "sat8", nil, t, i)
}

// SSub is t[lo:hi].
func SSub(t, lo, hi *Term) *Term {
	if lo == hi {
		return StrLit("")
	}
	if lo.isConst() && lo.N == 0 && hi == SLen(t) {
		return t
	}
	if t.isConst() && lo.isConst() && hi.isConst() && lo.N <= hi.N && hi.N <= uint64(len(t.S)) {
		return StrLit(t.S[lo.N:hi.N])
	}
	if t.Op == OApp && t.S == "substr" {
		return SSub(t.Args[0], Add(t.Args[1], lo), Add(t.Args[1], hi))
	}
	if t.Op == OApp && t.S == "bstr" {
		return BStr(t.Args[0], Add(t.Args[1], lo), Sub(hi, lo))
	}
	return mk(OApp, sortStr, 0, "substr", nil, t, lo, hi)
}

// BStr is string(arr[off:off+n]).
func BStr(arr, off, n *Term) *Term {
	if n.isConst() && n.N == 0 {
		return StrLit("")
	}
	if n.isConst() && off.isConst() && n.N <= 64 {
		bs := make([]byte, n.N)
		all := true
		for i := range bs {
			c := Select(arr, Add(off, BV64(uint64(i))))
			if !c.isConst() {
				all = false
				break
			}
			bs[i] = byte(c.N)
		}
		if all {
			return StrLit(string(bs))
		}
	}
	if n.isConst() && n.N == 1 {
		return Chr(Select(arr, off))
	}
	if arr.Op == OApp && arr.S == "strbytes" {
		return SSub(arr.Args[0], off, Add(off, n))
	}
	if arr.Op == OCopy && off == arr.Args[2] && n == arr.Args[3] {
		return BStr(arr.Args[1], arr.Args[4], n)
	}
	if arr.Op == OCopy && isLen(Sub(arr.Args[2], off)) && Add(Sub(arr.Args[2], off), arr.Args[3]) == n {
		// what was there, and what was appended
		return StrCat(BStr(arr.Args[0], off, Sub(arr.Args[2], off)), BStr(arr.Args[1], arr.Args[4], arr.Args[3]))
	}
	return mk(OApp, sortStr, 0, "bstr", nil, arr, off, n)
}

// lenVars are the variables that stand for the length of a slice.
var lenVars = map[*Term]bool{}

// isLen: a length, so below 2^40.
func isLen(t *Term) bool {
	switch t.Op {
	case OConst:
		return t.N < 1<<40
	case OVar:
		return lenVars[t]
	case OApp:
		return t.S == "file.size"
	case OAdd:
		for _, a := range t.Args {
			if !isLen(a) {
				return false
			}
		}
		return true
	}
	return false
}

// Chr is the one-byte string.
func Chr(b *Term) *Term {
	if b.isConst() {
		return StrLit(string([]byte{byte(b.N)}))
	}
	return mk(OApp, sortStr, 0, "chr", nil, b)
}

func appName(n string) string {
	return strings.NewReplacer("|", "_", "\\", "_").Replace(n)
}

func App(name string, s *Sort, args ...*Term) *Term {
	return mk(OApp, s, 0, appName(name), nil, args...)
}

func Forall(v, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.bound[v.id] {
		return body
	}
	return mk(OForall, sortBool, 0, "", nil, v, body)
}
func Exists(v, body *Term) *Term { return Not(Forall(v, Not(body))) }

// ---- Iface datatype ----
// constructors: INil, IU64(BV64), IInt(BV64), II64(BV64), IU32.., generic numeric kinds carry a tag.

type ifaceCtor struct {
	name string
	sel  string
	sort *Sort
}

var ifaceCtors = []ifaceCtor{
	{"INil", "", nil},
	{"IU64", "iu64", bvSort(64)},
	{"IInt", "iint", bvSort(64)},
	{"II64", "ii64", bvSort(64)},
	{"IStr", "istr", sortStr},
	{"IBool", "ibool", sortBool},
	{"IF32", "if32", bvSort(32)},
	{"IF64", "if64", bvSort(64)},
	{"IU8", "iu8", bvSort(8)},
	{"IU16", "iu16", bvSort(16)},
	{"IU32", "iu32", bvSort(32)},
	{"II8", "ii8", bvSort(8)},
	{"II16", "ii16", bvSort(16)},
	{"II32", "ii32", bvSort(32)},
	{"IUint", "iuint", bvSort(64)},
	{"IOther", "iother", bvSort(32)},
}

func ctorByName(n string) *ifaceCtor {
	for i := range ifaceCtors {
		if ifaceCtors[i].name == n {
			return &ifaceCtors[i]
		}
	}
	panic("ctor " + n)
}

func Ctor(name string, args ...*Term) *Term { return mk(OCtor, sortIface, 0, name, nil, args...) }

var INil = Ctor("INil")

func IsCtor(name string, t *Term) *Term {
	if t.Op == OCtor {
		return Bool(t.S == name)
	}
	if t.Op == OIte {
		return Ite(t.Args[0], IsCtor(name, t.Args[1]), IsCtor(name, t.Args[2]))
	}
	return mk(OTest, sortBool, 0, name, nil, t)
}
func CtorArg(name string, t *Term) *Term {
	if t.Op == OCtor && t.S == name {
		return t.Args[0]
	}
	if t.Op == OIte {
		x, y := t.Args[1], t.Args[2]
		if x.Op == OCtor && x.S != name {
			return CtorArg(name, y)
		}
		if y.Op == OCtor && y.S != name {
			return CtorArg(name, x)
		}
		return Ite(t.Args[0], CtorArg(name, x), CtorArg(name, y))
	}
	c := ctorByName(name)
	return mk(OSel, c.sort, 0, c.sel, nil, t)
}

// ---- printing (debug) ----

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store", OStrCat: "str.++"}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "..."
	}
	sub := func() string {
		var xs []string
		for _, a := range t.Args {
			xs = append(xs, a.str(d+1))
		}
		return strings.Join(xs, " ")
	}
	switch t.Op {
	case OConst:
		if t.Sort.K == SStr {
			return fmt.Sprintf("%q", t.S)
		}
		if t.Sort.K == SBool {
			return fmt.Sprint(t.N == 1)
		}
		return fmt.Sprintf("%d", t.N)
	case OVar, OBound:
		return t.S
	case OApp:
		return "(" + t.S + " " + sub() + ")"
	case OAdd:
		var xs []string
		for i, a := range t.Args {
			c := sx(t.Cs[i], t.Sort.W)
			if c == 1 {
				xs = append(xs, a.str(d+1))
			} else {
				xs = append(xs, fmt.Sprintf("%d*%s", c, a.str(d+1)))
			}
		}
		if t.N != 0 {
			xs = append(xs, fmt.Sprint(sx(t.N, t.Sort.W)))
		}
		return "(+ " + strings.Join(xs, " ") + ")"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.Args[0].str(d+1), t.N>>16, t.N&0xffff)
	case OZext:
		return fmt.Sprintf("zx%d(%s)", t.Sort.W, sub())
	case OSext:
		return fmt.Sprintf("sx%d(%s)", t.Sort.W, sub())
	case OConstArr:
		return "const[" + sub() + "]"
	case OForall:
		return "(forall " + sub() + ")"
	case OCtor, OSel, OTest:
		return "(" + t.S + " " + sub() + ")"
	}
	return "(" + opNames[t.Op] + " " + sub() + ")"
}
