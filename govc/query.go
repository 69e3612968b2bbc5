package main

// From an obligation to solver queries: skolemising the goal, instantiating hypotheses, unfolding definitions.

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// skolem makes the existential choices of an asserted formula: pol true means the formula is asserted.
func skolem(t *Term, pol bool) *Term {
	switch t.Op {
	case ONot:
		return Not(skolem(t.Args[0], !pol))
	case OAnd, OOr:
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = skolem(a, pol)
		}
		if t.Op == OAnd {
			return And(args...)
		}
		return Or(args...)
	case OForall:
		if !pol {
			v := t.Args[0]
			c := Fresh("sk", v.Sort)
			return skolem(substBound(t.Args[1], v, c), pol)
		}
	case OIte:
		if t.Sort == sortBool && hasQuant(t) {
			c := t.Args[0]
			if !hasQuant(c) {
				return Ite(c, skolem(t.Args[1], pol), skolem(t.Args[2], pol))
			}
		}
	case OEq:
		if t.Args[0].Sort == sortBool && hasQuant(t) {
			a, b := t.Args[0], t.Args[1]
			return skolem(And(Or(Not(a), b), Or(a, Not(b))), pol)
		}
	}
	return t
}

func substBound(t, v, by *Term) *Term {
	return newSubst(map[*Term]*Term{v: by}).term(t)
}

// subterms visits every subterm once.
func subterms(ts []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

// unfoldAll adds the defining equations of ground applications of recursive specification functions.
func unfoldAll(w *World, ts []*Term, fuel int) []*Term {
	return unfoldSome(w, ts, fuel, true)
}

func hasOpaque(ts []*Term) bool {
	r := false
	subterms(ts, func(t *Term) {
		if t.Op == OApp && recDefs[t.S] != nil && recDefs[t.S].opaque {
			r = true
		}
	})
	return r
}

// definition is the defining equation of an application.
func (w *World) definition(a *Term) *Term {
	d := w.unfold(a)
	if d == nil || d == a {
		return nil
	}
	if a.Sort == sortBool {
		return And(Or(Not(a), d), Or(a, Not(d)))
	}
	return mk(OEq, sortBool, 0, "", nil, a, d)
}

func unfoldSome(w *World, ts []*Term, fuel int, opaque bool) []*Term {
	return unfoldIf(w, ts, fuel, func(n string) bool { return opaque || !recDefs[n].opaque })
}

func unfoldIf(w *World, ts []*Term, fuel int, want func(string) bool) []*Term {
	if len(recDefs) == 0 {
		return ts
	}
	out := ts[:len(ts):len(ts)]
	done := map[*Term]bool{}
	front := ts
	for r := 0; r < fuel; r++ {
		var apps []*Term
		subterms(front, func(t *Term) {
			if t.Op == OApp && t.bound == nil && !done[t] && strings.HasPrefix(t.S, "spec/") && recDefs[t.S] != nil && want(t.S) {
				apps = append(apps, t)
			}
		})
		if len(apps) == 0 {
			break
		}
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		var next []*Term
		for _, a := range apps {
			done[a] = true
			if e := w.definition(a); e != nil {
				next = append(next, e)
			}
		}
		out = append(out, next...)
		front = next
		if len(out) > 3000 {
			break
		}
	}
	return out
}

// occurrence of a bound variable as index: array or function position, with the offset to it.
type trigger struct {
	kind string // "sel:<array id>" or "app:<name>:<pos>"
	off  *Term  // index = v + off
}

// triggersFor lists how v is used as an index in body.
func triggersFor(v, body *Term) []trigger {
	var out []trigger
	seen := map[string]bool{}
	add := func(kind string, idx *Term) {
		if !idx.bound[v.id] {
			return
		}
		off := Sub(idx, v)
		if off.bound[v.id] {
			return
		}
		if off.bound != nil && len(off.bound) > 0 {
			return
		}
		k := kind + "@" + off.String()
		if !seen[k] {
			seen[k] = true
			out = append(out, trigger{kind, off})
		}
	}
	subterms([]*Term{body}, func(t *Term) {
		switch t.Op {
		case OSelect:
			if t.Args[1].Sort == v.Sort && t.Args[1].Sort.K == SBV {
				add(selKind(t.Args[0]), t.Args[1])
			} else if t.Args[1] == v {
				k := selKind(t.Args[0])
				if !seen[k] {
					seen[k] = true
					out = append(out, trigger{k, nil})
				}
			}
		case OApp:
			for k, a := range t.Args {
				if a.Sort == v.Sort && a.Sort.K == SBV {
					add("app:"+t.S+":"+string(rune('0'+k)), a)
				}
			}
		}
	})
	return out
}

// selKind names the array read: by sort, so that reads of related arrays also count.
func selKind(a *Term) string { return "sel:" + a.Sort.String() }

// instantiate replaces asserted quantified hypotheses by ground instances.
func instantiate(ts []*Term, rounds, limit int) []*Term {
	return instantiateFrom(ts, nil, rounds, limit)
}

// instantiateFrom takes the index terms from src, if given, or from all of ts.
func instantiateFrom(ts, src []*Term, rounds, limit int) []*Term {
	var quants []*Term // asserted formulas containing a positive forall
	var ground []*Term
	for _, t := range ts {
		if hasQuant(t) {
			quants = append(quants, skolem(t, true))
		} else {
			ground = append(ground, t)
		}
	}
	var out []*Term
	for _, t := range quants {
		if !hasQuant(t) {
			ground = append(ground, t)
		}
	}
	have := map[*Term]bool{}
	for _, g := range ground {
		have[g] = true
	}
	out = append(out, ground...)
	for r := 0; r < rounds; r++ {
		// index terms present
		idx := map[string][]*Term{}
		seen := map[string]map[*Term]bool{}
		note := func(k string, t *Term) {
			if t.bound != nil && len(t.bound) > 0 {
				return
			}
			if seen[k] == nil {
				seen[k] = map[*Term]bool{}
			}
			if !seen[k][t] {
				seen[k][t] = true
				idx[k] = append(idx[k], t)
			}
		}
		all := append(append([]*Term{}, out...), quants...)
		if src != nil {
			all = src
		}
		subterms(all, func(t *Term) {
			switch t.Op {
			case OSelect:
				note(selKind(t.Args[0]), t.Args[1])
			case OApp:
				for k, a := range t.Args {
					if a.Sort.K == SBV {
						note("app:"+t.S+":"+string(rune('0'+k)), a)
					}
				}
			}
		})
		n0 := len(out)
		for _, q := range quants {
			if !hasQuant(q) {
				continue
			}
			for _, g := range instances(q, idx, 120) {
				if g == True || have[g] {
					continue
				}
				have[g] = true
				out = append(out, g)
				if len(out)-n0 > limit {
					break
				}
			}
		}
		if len(out) == n0 {
			break
		}
	}
	return out
}

// instances gives quantifier-free consequences of the asserted formula q.
func instances(q *Term, idx map[string][]*Term, max int) []*Term {
	fa := findForall(q)
	if fa == nil {
		if hasQuant(q) {
			return nil
		}
		return []*Term{q}
	}
	v, body := fa.Args[0], fa.Args[1]
	vals := map[*Term]bool{}
	var order []*Term
	for _, tr := range triggersFor(v, body) {
		for _, t := range idx[tr.kind] {
			if t.Sort != v.Sort {
				continue
			}
			c := t
			if tr.off != nil {
				c = Sub(t, tr.off)
			}
			if c.bound != nil && len(c.bound) > 0 {
				continue
			}
			if !vals[c] {
				vals[c] = true
				order = append(order, c)
			}
		}
	}
	var out []*Term
	for _, c := range order {
		g := newSubst(map[*Term]*Term{fa: substBound(body, v, c)}).term(q)
		g = skolem(g, true)
		if hasQuant(g) {
			out = append(out, instances(g, idx, max)...)
		} else {
			out = append(out, g)
		}
		if len(out) > max {
			break
		}
	}
	return out
}

// findForall finds a universally quantified part at positive polarity.
func findForall(t *Term) *Term {
	var rec func(t *Term, pol bool) *Term
	rec = func(t *Term, pol bool) *Term {
		if !hasQuant(t) {
			return nil
		}
		switch t.Op {
		case OForall:
			if pol {
				return t
			}
			return nil
		case ONot:
			return rec(t.Args[0], !pol)
		case OAnd, OOr:
			for _, a := range t.Args {
				if f := rec(a, pol); f != nil {
					return f
				}
			}
		case OIte:
			for _, a := range t.Args[1:] {
				if f := rec(a, pol); f != nil {
					return f
				}
			}
		}
		return nil
	}
	return rec(t, true)
}

// prepare prints the queries of an obligation.
func (w *World) prepare(o *Obl, fuel int) {
	neg := skolem(Not(o.Goal), true)
	var hyps []*Term
	for _, h := range o.Hyps {
		hyps = append(hyps, h)
	}
	n0 := len(hyps)
	asserts := append(hyps, flattenAnd(neg)...)
	anyQ := false
	for _, a := range asserts {
		if hasQuant(a) {
			anyQ = true
		}
	}
	asserts = propagate(asserts)
	nsame := 0
	if o.folded {
		if same := w.sameBytes(asserts, min(n0, len(asserts)-1)); len(same) > 0 {
			asserts = append(asserts, same...)
			nsame = len(same)
		}
		want := func(n string) bool { return o.open[n] || !recDefs[n].opaque && anyQ }
		if anyQ {
			var src []*Term
			for i, t := range asserts {
				if i >= n0 || !hasQuant(t) && hasOpaque([]*Term{t}) {
					src = append(src, t)
				}
			}
			lim := 100
			if nsame > 0 {
				// the bytes that the definitions of the strings read
				src = unfoldIf(w, dropQuant(src), 1, want)
				lim = 400
			}
			near := unfoldIf(w, dropQuant(instantiateFrom(asserts, src, 1, lim)), min(fuel, 3), want)
			o.q0 = smtQueryRight(near)
			inst := func() []*Term {
				if nsame > 0 {
					return instantiateFrom(asserts, unfoldIf(w, src, 1, want), 1, 800)
				}
				return instantiate(asserts, 2, 200)
			}
			ts := unfoldIf(w, dropQuant(inst()), fuel, want)
			o.qf = smtQueryRight(ts)
			o.full, o.qterms = smtQueryRight(unfoldIf(w, asserts, 2, want)), ts
			return
		}
		o.q0 = smtQueryRight(unfoldIf(w, asserts, min(fuel, 3), want))
		ts := unfoldIf(w, asserts, fuel, want)
		o.qf = smtQueryRight(ts)
		o.full, o.qterms = o.qf, ts
		return
	}
	asserts = w.extendSubstrings(asserts)
	if same := w.sameBytes(asserts, min(n0, len(asserts)-1)); len(same) > 0 {
		asserts = append(same, asserts...)
		n0 += len(same)
	}
	asserts = w.expandStrings(asserts, n0)
	asserts = w.expandOpaque(asserts)
	full := asserts
	qf := asserts
	if anyQ {
		pre := unfoldAll(w, asserts, 1)
		qf = instantiate(pre, 3, 600)
		qf = dropQuant(qf)
	}
	if !anyQ && hasOpaque(qf) {
		o.q0 = smtQuery(unfoldSome(w, qf, fuel, false))
		o.q1 = smtQuery(unfoldSome(w, unfoldSome(w, qf, 1, true), fuel, false))
	}
	qf = dropQuant(unfoldAll(w, qf, fuel))
	o.qf = smtQuery(qf)
	o.qterms = qf
	if anyQ {
		o.full = smtQuery(unfoldAll(w, full, fuel))
	} else {
		o.full = o.qf
	}
}

// propagate simplifies the asserted formulas by each other: an asserted literal is true wherever else it occurs.
func propagate(ts []*Term) []*Term {
	for round := 0; round < 2; round++ {
		m := map[*Term]*Term{}
		for _, t := range ts {
			if hasQuant(t) || t.bound != nil || t.isConst() {
				continue
			}
			switch t.Op {
			case OAnd, OOr, OIte:
				continue
			}
			m[t] = True
			m[Not(t)] = False
		}
		if len(m) == 0 {
			return ts
		}
		sb := newSubst(m)
		changed := false
		out := make([]*Term, 0, len(ts))
		for _, t := range ts {
			if len(t.Args) == 0 {
				out = append(out, t)
				continue
			}
			var n *Term
			if t.Op == ONot {
				in := t.Args[0]
				args := make([]*Term, len(in.Args))
				for i, a := range in.Args {
					args[i] = sb.term(a)
				}
				n = t
				if len(args) > 0 {
					n = Not(rebuildAny(in, args))
				}
			} else {
				args := make([]*Term, len(t.Args))
				for i, a := range t.Args {
					args[i] = sb.term(a)
				}
				n = rebuildAny(t, args)
			}
			if n != t {
				changed = true
			}
			out = append(out, n)
		}
		ts = out
		if !changed {
			break
		}
	}
	return ts
}

func rebuildAny(t *Term, args []*Term) *Term {
	for i := range args {
		if args[i] != t.Args[i] {
			return rebuild(t, args)
		}
	}
	return t
}

// expandStrings rewrites a goal about strings (the formulas from index n on, negated) until both sides are
// flat: equations of the hypotheses replace what they define, cases the hypotheses decide are dropped, and
// recursive string functions whose case is decided are replaced by their definition.
func (w *World) expandStrings(ts []*Term, n int) []*Term {
	isEq := func(t *Term) bool { return t.Op == OEq && t.Args[0].Sort == sortStr && t.bound == nil }
	gi := -1
	for i := n; i < len(ts); i++ {
		has := false
		subterms([]*Term{ts[i]}, func(t *Term) { has = has || isEq(t) })
		if has && !hasQuant(ts[i]) {
			gi = i
		}
	}
	if gi < 0 {
		return ts
	}
	orig := ts
	ts = append([]*Term{}, ts...)
	solveEqs(ts, gi)
	goal := ts[gi]
	var hyps []*Term
	for i, h := range ts {
		if i != gi {
			hyps = append(hyps, flattenAnd(h)...)
		}
	}
	m := map[*Term]*Term{}
	for _, h := range hyps {
		if !isEq(h) {
			continue
		}
		a, b := h.Args[0], h.Args[1]
		for k := 0; k < 2; k++ {
			if (a.Op == OVar || a.Op == OSelect || a.Op == OApp) && !occurs(a, b) && m[a] == nil && !(isApp(a) && !isApp(b) && b.Op != OStrCat && !b.isConst()) {
				m[a] = b
				break
			}
			a, b = b, a
		}
	}
	decide := w.newSimp(hyps).decide
	g := decide(goal)
	tried := map[*Term]bool{}
	for round := 0; round < 10; round++ {
		was := g
		use := map[*Term]*Term{}
		subterms([]*Term{g}, func(t *Term) {
			if r := m[t]; r != nil && !occurs(t, r) {
				use[t] = r
			}
		})
		for t, r := range use {
			g = newSubst(map[*Term]*Term{t: r}).term(g)
		}
		// only what the two sides do not have in common
		var apps []*Term
		want := map[*Term]bool{}
		subterms([]*Term{g}, func(t *Term) {
			if !isEq(t) {
				return
			}
			cnt := map[*Term]int{}
			for k, side := range t.Args {
				subterms([]*Term{side}, func(u *Term) {
					if isApp(u) && u.Sort == sortStr {
						cnt[u] |= 1 << uint(k)
					}
				})
			}
			for u, c := range cnt {
				if c != 3 && !tried[u] && !want[u] {
					want[u] = true
					apps = append(apps, u)
				}
			}
		})
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		for _, a := range apps {
			tried[a] = true
			d := w.unfold(a)
			if d == nil || d == a {
				continue
			}
			if d = decide(d); !hasIte(d) {
				g = newSubst(map[*Term]*Term{a: d}).term(g)
			}
		}
		if g == was {
			break
		}
	}
	if g == goal {
		return orig
	}
	return append(append([]*Term{}, orig...), append(ts[n:gi:gi], g)...)
}

func isApp(t *Term) bool {
	return t.Op == OApp && strings.HasPrefix(t.S, "spec/") && recDefs[t.S] != nil && t.bound == nil
}

func isOpaque(t *Term) bool { return isApp(t) && recDefs[t.S].opaque }

// hasIte: a case distinction is left.
func hasIte(t *Term) bool {
	if r, ok := hasIteMemo[t]; ok {
		return r
	}
	r := t.Op == OIte && t.bound == nil
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasIte(a)
	}
	hasIteMemo[t] = r
	return r
}

var hasIteMemo = map[*Term]bool{}

// arithVars: the variables and uninterpreted terms of integer terms.
func arithVars(t *Term) map[*Term]bool {
	if m, ok := arithVarsMemo[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	done := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		switch t.Op {
		case OVar, OApp, OSelect:
			m[t] = true
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	arithVarsMemo[t] = m
	return m
}

var arithVarsMemo = map[*Term]map[*Term]bool{}

// solveEqs replaces integer variables by what an equation among ts says they are; skip is the index of a goal.
func solveEqs(ts []*Term, skip int) {
	for i := range ts {
		h := ts[i]
		if i == skip || h.Op != OEq || h.Args[0].Sort != bvSort(64) || h.bound != nil {
			continue
		}
		a, b := h.Args[0], h.Args[1]
		if a.Op != OVar || occurs(a, b) {
			a, b = b, a
		}
		if a.Op != OVar || occurs(a, b) {
			continue
		}
		sb := newSubst(map[*Term]*Term{a: b})
		for j := range ts {
			if j != i {
				ts[j] = sb.term(ts[j])
			}
		}
	}
}

// simp decides conditions under hypotheses.
type simp struct {
	w     *World
	hyps  []*Term
	lits  *subst
	known map[*Term]*Term
	arith bool // arithmetic only
}

func (w *World) newSimp(hyps []*Term) *simp {
	lits := map[*Term]*Term{}
	for _, h := range hyps {
		if hasQuant(h) || h.bound != nil || h.isConst() {
			continue
		}
		switch h.Op {
		case OAnd, OOr, OIte:
			continue
		}
		lits[h] = True
		lits[Not(h)] = False
	}
	return &simp{w, hyps, newSubst(lits), map[*Term]*Term{}, false}
}

// decide drops the cases of t that the hypotheses exclude.
func (s *simp) decide(t *Term) *Term {
	t = s.lits.term(t)
	for k := 0; k < 60; k++ {
		var c *Term
		subterms([]*Term{t}, func(u *Term) {
			if u.Op != OIte || u.bound != nil || c != nil {
				return
			}
			x := u.Args[0]
			for x.Op == ONot || x.Op == OIte {
				x = x.Args[0]
			}
			if v, ok := s.known[x]; !ok || v != nil {
				c = x
			}
		})
		if c == nil {
			break
		}
		v, ok := s.known[c]
		if !ok {
			// only arithmetic and specification conditions can follow without occurring literally
			arith := c.Op == OUlt || c.Op == OUle || c.Op == OSlt || c.Op == OSle || isApp(c) || c.Op == OEq && c.Args[0].Sort.K == SBV
			if arith && s.arith {
				if isApp(c) {
					arith = false
				} else {
					pc := nearArith(s.hyps, c)
					if len(pc) == 0 {
						// nothing is known about it
					} else if !s.w.feasArith(append([]*Term{Not(c)}, pc...)) {
						v = True
					} else if !s.w.feasArith(append([]*Term{c}, pc...)) {
						v = False
					}
				}
			} else if arith {
				pc := near(s.hyps, c)
				fuel := 0
				if isApp(c) {
					fuel = 1
				}
				if !s.w.feasN(append(pc[:len(pc):len(pc)], Not(c)), fuel) {
					v = True
				} else if !s.w.feasN(append(pc[:len(pc):len(pc)], c), fuel) {
					v = False
				}
			}
			if v == nil && os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "undecided:", c)
			}
			s.known[c] = v
		}
		if v != nil {
			t = newSubst(map[*Term]*Term{c: v}).term(t)
		}
	}
	return t
}

// pushEq moves an equation with a constant into the cases of the other side.
func pushEq(t *Term) *Term {
	if t.Op == ONot {
		return Not(pushEq(t.Args[0]))
	}
	if t.Op != OEq || t.bound != nil {
		return t
	}
	a, b := t.Args[0], t.Args[1]
	if a.Op == OIte {
		a, b = b, a
	}
	if b.Op != OIte || a.Op == OIte || a.Sort.K != SBV {
		return t
	}
	c := b.Args[0]
	x, y := pushEq(Eq(a, b.Args[1])), pushEq(Eq(a, b.Args[2]))
	return And(Or(Not(c), x), Or(c, y))
}

func isLit(t *Term) bool {
	return t.Op != OAnd && t.Op != OOr && t.Op != OIte && t.Op != OForall
}

// expandOpaque rewrites formulas about opaque specification functions: an application is replaced by its
// definition where the other formulas decide all its cases, and a literal about one is spelled out.
func (w *World) expandOpaque(ts []*Term) []*Term {
	if !hasOpaque(ts) {
		return ts
	}
	orig := ts
	have0 := map[*Term]bool{}
	have := map[*Term]bool{}
	var cur []*Term
	add := func(t *Term) {
		for _, u := range flattenAnd(t) {
			if !have[u] {
				have[u] = true
				cur = append(cur, u)
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	solveEqs(cur, -1)
	spelled := map[*Term]bool{}
	from := map[*Term]map[string]bool{} // recursive predicates whose definition a literal comes from
	tried := map[*Term]int{}
	for round := 0; round < 8; round++ {
		if os.Getenv("GOVC_OPQ") != "" {
			fmt.Fprintln(os.Stderr, "== round", round, len(cur))
			for _, t := range cur {
				if !have0[t] {
					have0[t] = true
					fmt.Fprintln(os.Stderr, "     ", t)
				}
			}
		}
		n := len(cur)
		s := w.newSimp(cur)
		s.arith = true
		// applications whose cases are decided
		repl := map[*Term]*Term{}
		var apps []*Term
		varied := map[string]bool{} // functions applied at a position that is not constant
		subterms(dropQuant(cur), func(t *Term) {
			if isOpaque(t) && !t.Args[len(t.Args)-1].isConst() {
				varied[t.S] = true
			}
			if isOpaque(t) && t.Sort != sortBool && tried[t] < 3 {
				apps = append(apps, t)
			}
		})
		// what happens at the start is of no use to a proof about a later position
		aside := func(t *Term) bool { return t.Args[len(t.Args)-1].isConst() && varied[t.S] && recDefs[t.S].recursive }
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		defs := map[*Term]*Term{}
		for _, a := range apps {
			if aside(a) {
				continue
			}
			d := w.unfold(a)
			if d == nil || d == a {
				continue
			}
			tried[a]++
			if len(repl) > 0 {
				d = newSubst(repl).term(d)
			}
			d = s.decide(d)
			defs[a] = d
			if !hasIte(d) && !occurs(a, d) {
				repl[a] = d
			}
		}
		if len(repl) > 0 {
			sb := newSubst(repl)
			for _, t := range cur[:n] {
				if !hasQuant(t) {
					add(sb.term(t))
				}
			}
		}
		// literals about undecided ones
		for _, t := range cur[:n] {
			if spelled[t] || hasQuant(t) || !isLit(t) {
				continue
			}
			u := t
			if u.Op == ONot {
				u = u.Args[0]
			}
			if isOpaque(u) {
				if aside(u) || from[t][u.S] || t.Op == ONot && len(cur) > n {
					continue // what is known first
				}
				spelled[t] = true
				if d := w.unfold(u); d != nil && d != u {
					d = s.lits.term(d)
					if t.Op == ONot {
						d = Not(d)
					}
					for _, c := range flattenAnd(d) {
						if have[c] {
							continue
						}
						m := map[string]bool{u.S: true}
						for k := range from[t] {
							m[k] = true
						}
						from[c] = m
					}
					add(d)
				}
				continue
			}
			if u.Op == OEq {
				for k := range u.Args {
					if isOpaque(u.Args[k]) && defs[u.Args[k]] != nil {
						v := pushEq(Eq(u.Args[1-k], defs[u.Args[k]]))
						if t.Op == ONot {
							v = Not(v)
						}
						add(v)
					}
				}
			}
		}
		old := cur
		next := propagate(cur)
		solveEqs(next, -1)
		cur = nil
		have = map[*Term]bool{}
		for _, t := range next {
			add(t)
		}
		if have[False] {
			return []*Term{False}
		}
		if len(cur) == n {
			same := true
			for i := range cur {
				if cur[i] != old[i] {
					same = false
				}
			}
			if same {
				break
			}
		}
		if len(cur) > 800 {
			break
		}
	}
	_ = orig
	if os.Getenv("GOVC_OPQ") != "" {
		fmt.Fprintln(os.Stderr, "---- opaque", len(orig), len(cur))
		for _, t := range cur {
			fmt.Fprintln(os.Stderr, "   ", t)
		}
	}
	return cur
}

// feasArith is feasN for comparisons of integers, whose operands other than arithmetic count as unknowns.
func (w *World) feasArith(ts []*Term) bool {
	abs := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	pure := true
	var extra []*Term
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.Sort.K != SBV && t.Sort != sortBool:
			pure = false
		case t.Op == OVar || t.Op == OApp || t.Op == OSelect:
			r = NamedVar(fmt.Sprintf("v%d", len(abs)), t.Sort)
			abs[t] = r
			if t.S == "slen" {
				extra = append(extra, Ult(r, BV64(1<<48)))
			}
		case len(t.Args) > 0:
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = rec(a)
			}
			r = mk(t.Op, t.Sort, t.N, t.S, t.Cs, as...)
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = rec(t)
	}
	if !pure {
		return w.feasN(ts, 0)
	}
	out = append(out, extra...)
	q := smtQuery(out)
	if r, ok := w.feasMemo[q]; ok {
		return r
	}
	if w.arithProc == nil {
		w.arithProc = startProc("z3-new")
		w.arithProc.logic = "QF_BV"
	}
	t0 := time.Now()
	r, _ := w.arithProc.ask(q, 300*time.Millisecond, "")
	if os.Getenv("GOVC_FEAS") != "" {
		fmt.Fprintln(os.Stderr, "feas", r, len(ts), len(q), time.Since(t0))
		if time.Since(t0) > 50*time.Millisecond {
			os.WriteFile("/tmp/feas_slow.smt2", []byte(q+"(check-sat)\n"), 0o644)
		}
	}
	w.feasMemo[q] = r != "unsat"
	return r != "unsat"
}

// arithProves: a goal about integers that follows from comparisons near it alone. What is not
// arithmetic counts as unknown, so the answer is that of a stronger obligation.
func (w *World) arithProves(o *Obl) bool {
	neg := skolem(Not(o.Goal), true)
	if !cmpOnly(neg) {
		return false
	}
	var near []*Term
	for _, c := range flattenAnd(neg) {
		near = append(near, c)
	}
	hs := nearArithN(o.Hyps, neg, 60, true)
	if len(hs) == 60 {
		hs = nearArithN(o.Hyps, neg, 30, true)
	}
	return !w.feasArith(append(near, hs...))
}

// cmpOnly: built from comparisons of integers.
func cmpOnly(t *Term) bool {
	switch t.Op {
	case OAnd, OOr, ONot:
		for _, a := range t.Args {
			if !cmpOnly(a) {
				return false
			}
		}
		return true
	case OUlt, OUle, OSlt, OSle:
		return t.bound == nil && !hasIte(t)
	case OEq:
		return t.Args[0].Sort.K == SBV && t.bound == nil && !hasIte(t)
	}
	return t == True || t == False
}

// nearArith picks the comparisons of integers that have a variable in common with c.
func nearArith(hyps []*Term, c *Term) []*Term { return nearArithN(hyps, c, 14, false) }

func nearArithN(hyps []*Term, c *Term, limit int, cases bool) []*Term {
	vars := arithVars
	in := map[*Term]bool{}
	for v := range vars(c) {
		in[v] = true
	}
	var cand []*Term
	for _, h := range hyps {
		u := h
		if u.Op == ONot {
			u = u.Args[0]
		}
		switch u.Op {
		case OUlt, OUle, OSlt, OSle:
		case OEq:
			if u.Args[0].Sort.K != SBV {
				continue
			}
		case OAnd, OOr:
			if !cases || !cmpOnly(u) {
				continue
			}
		default:
			continue
		}
		if u.bound == nil && !hasIte(u) {
			cand = append(cand, h)
		}
	}
	var out []*Term
	used := map[*Term]bool{}
	for round := 0; round < 2; round++ {
		next := map[*Term]bool{}
		for _, h := range cand {
			if used[h] {
				continue
			}
			vs := vars(h)
			hit := false
			for v := range vs {
				hit = hit || in[v]
			}
			if hit && len(out) < limit {
				used[h] = true
				out = append(out, h)
				for v := range vs {
					next[v] = true
				}
			}
		}
		for v := range next {
			in[v] = true
		}
	}
	return out
}

// near picks the quantifier-free hypotheses about the variables of c, heap arrays apart.
func near(hyps []*Term, c *Term) []*Term {
	in := map[*Term]bool{}
	for _, l := range leafSet(c) {
		if l.Sort.K != SArr {
			in[l] = true
		}
	}
	var out []*Term
	for _, h := range hyps {
		if hasQuant(h) || h.Op == OEq && h.Args[0].Sort == sortStr && h != c {
			continue
		}
		for _, l := range leafSet(h) {
			if in[l] {
				out = append(out, h)
				break
			}
		}
	}
	return out
}

// sameBytes: two strings made from memory are equal when they have the same length and bytes; ground
// instances for the pairs with one in the goal, with an unknown position where they differ otherwise.
func (w *World) sameBytes(asserts []*Term, n0 int) []*Term {
	find := func(ts []*Term) map[*Term]bool {
		m := map[*Term]bool{}
		subterms(ts, func(t *Term) {
			if t.Op != OEq && t.Op != OIte && t.Op != OStrCat {
				return
			}
			for _, a := range t.Args {
				if a.Op == OApp && a.S == "bstr" && a.bound == nil {
					m[a] = true
				}
			}
		})
		return m
	}
	goal := find(asserts[n0:])
	for t := range find(asserts[:n0]) {
		delete(goal, t)
	}
	if len(goal) == 0 {
		return nil
	}
	all := find(unfoldAll(w, asserts, 1))
	var bs []*Term
	for t := range all {
		bs = append(bs, t)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	var out []*Term
	for i, t := range bs {
		for _, u := range bs[:i] {
			if goal[t] == goal[u] || t.Args[0] == u.Args[0] && t.Args[1] == u.Args[1] {
				continue
			}
			if t.Args[2].isConst() && u.Args[2].isConst() && t.Args[2] != u.Args[2] {
				continue
			}
			k := Fresh("differ", bvSort(64))
			out = append(out, Or(Eq(t, u), Not(Eq(t.Args[2], u.Args[2])),
				And(Ult(k, t.Args[2]), Not(Eq(Select(t.Args[0], Add(t.Args[1], k)), Select(u.Args[0], Add(u.Args[1], k)))))))
		}
	}
	if len(out) > 24 {
		return nil
	}
	return out
}

// extendSubstrings rewrites s[a:b+c] to s[a:b] followed by c bytes, where s[a:b] also occurs and the bounds hold.
func (w *World) extendSubstrings(ts []*Term) []*Term {
	var subs []*Term
	subterms(ts, func(t *Term) {
		if t.Op == OApp && t.S == "substr" && t.bound == nil {
			subs = append(subs, t)
		}
	})
	if len(subs) < 2 {
		return ts
	}
	sort.Slice(subs, func(i, j int) bool { return subs[i].id < subs[j].id })
	m := map[*Term]*Term{}
	for _, t := range subs {
		var best *Term
		var by uint64
		for _, u := range subs {
			if u == t || u.Args[0] != t.Args[0] || u.Args[1] != t.Args[1] {
				continue
			}
			d := Sub(t.Args[2], u.Args[2])
			if d.isConst() && d.N >= 1 && d.N <= 8 && (best == nil || d.N < by) {
				best, by = u, d.N
			}
		}
		if best == nil {
			continue
		}
		s, lo, hi := t.Args[0], t.Args[1], best.Args[2]
		cond := And(Ule(lo, hi), Ule(hi, t.Args[2]), Ule(t.Args[2], SLen(s)))
		if cond != True && w.feas(append(relevant(dropQuant(ts), cond), Not(cond))) {
			continue
		}
		parts := []*Term{best}
		for k := uint64(0); k < by; k++ {
			parts = append(parts, Chr(SAt(s, Add(hi, BV64(k)))))
		}
		m[t] = StrCat(parts...)
	}
	if len(m) == 0 {
		return ts
	}
	// chains: the longest is rewritten through the shorter ones
	for k := 0; k < 8; k++ {
		for t, r := range m {
			m[t] = newSubst(m).term(r)
		}
	}
	sb := newSubst(m)
	var out []*Term
	for _, t := range ts {
		out = append(out, sb.term(t))
	}
	return out
}

func dropQuant(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if !hasQuant(t) {
			out = append(out, t)
		}
	}
	return out
}
