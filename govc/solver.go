package main

// SMT-LIB printing and a pool of solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type printer struct {
	sb    strings.Builder
	done  map[*Term]string
	vars  map[string]bool
	fns   map[string]bool
	lits  []*Term
	strs  map[*Term]bool
	uses  map[*Term]int
	right bool
	order []*Term
}

const prelude = `(declare-sort Str 0)
(declare-sort Opq 0)
(declare-datatypes ((Iface 0)) (((INil) (IU64 (iu64 (_ BitVec 64))) (IInt (iint (_ BitVec 64))) (II64 (ii64 (_ BitVec 64))) (IStr (istr Str)) (IBool (ibool Bool)) (IF32 (if32 (_ BitVec 32))) (IF64 (if64 (_ BitVec 64))) (IU8 (iu8 (_ BitVec 8))) (IU16 (iu16 (_ BitVec 16))) (IU32 (iu32 (_ BitVec 32))) (II8 (ii8 (_ BitVec 8))) (II16 (ii16 (_ BitVec 16))) (II32 (ii32 (_ BitVec 32))) (IUint (iuint (_ BitVec 64))) (IOther (iother (_ BitVec 32))))))
(declare-fun scat (Str Str) Str)
(declare-fun slen (Str) (_ BitVec 64))
(declare-fun sat8 (Str (_ BitVec 64)) (_ BitVec 8))
`

func smtSort(s *Sort) string {
	switch s.K {
	case SStr:
		return "Str"
	case SArr:
		return fmt.Sprintf("(Array %s %s)", smtSort(s.A), smtSort(s.B))
	}
	return s.String()
}

func newPrinter() *printer {
	return &printer{done: map[*Term]string{}, vars: map[string]bool{}, fns: map[string]bool{}, strs: map[*Term]bool{}}
}

var builtinFns = map[string]bool{"slen": true, "sat8": true}

func q(n string) string { return "|" + n + "|" }

// ref returns the SMT text naming t, emitting definitions for it first.
func (p *printer) ref(t *Term) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	s := p.expr(t)
	if t.Sort == sortStr && t.bound == nil {
		p.strs[t] = true
	}
	if len(t.Args) > 0 && t.bound == nil && len(s) > 24 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, smtSort(t.Sort), s)
		s = n
	}
	if t.bound == nil || t.Op == OBound {
		p.done[t] = s
	}
	return s
}

func (p *printer) expr(t *Term) string {
	args := func(ts []*Term) string {
		var xs []string
		for _, a := range ts {
			xs = append(xs, p.ref(a))
		}
		return strings.Join(xs, " ")
	}
	switch t.Op {
	case OConst:
		switch t.Sort.K {
		case SBool:
			if t.N == 1 {
				return "true"
			}
			return "false"
		case SBV:
			return fmt.Sprintf("(_ bv%d %d)", t.N, t.Sort.W)
		case SStr:
			n := fmt.Sprintf("lit%d", t.id)
			fmt.Fprintf(&p.sb, "(declare-const %s Str) ; %q\n", n, t.S)
			p.lits = append(p.lits, t)
			return n
		}
	case OVar:
		if !p.vars[t.S] {
			p.vars[t.S] = true
			fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", q(t.S), smtSort(t.Sort))
		}
		return q(t.S)
	case OBound:
		return q(t.S)
	case OApp:
		as := args(t.Args)
		if builtinFns[t.S] {
			return "(" + t.S + " " + as + ")"
		}
		key := t.S
		if !p.fns[key] {
			p.fns[key] = true
			var ss []string
			for _, a := range t.Args {
				ss = append(ss, smtSort(a.Sort))
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", q(t.S), strings.Join(ss, " "), smtSort(t.Sort))
		}
		if len(t.Args) == 0 {
			return q(t.S)
		}
		return "(" + q(t.S) + " " + as + ")"
	case OAdd:
		w := t.Sort.W
		var pos, neg []string
		for i, a := range t.Args {
			c := t.Cs[i]
			s := p.ref(a)
			sc := sx(c, w)
			dst := &pos
			if sc < 0 {
				dst = &neg
				sc = -sc
			}
			if sc != 1 {
				if u := uint64(sc); u&(u-1) == 0 {
					sh := 0
					for u > 1 {
						u >>= 1
						sh++
					}
					s = fmt.Sprintf("(bvshl %s (_ bv%d %d))", s, sh, w)
				} else {
					s = fmt.Sprintf("(bvmul (_ bv%d %d) %s)", uint64(sc)&mask(w), w, s)
				}
			}
			*dst = append(*dst, s)
		}
		if t.N != 0 || len(pos) == 0 {
			pos = append(pos, fmt.Sprintf("(_ bv%d %d)", t.N, w))
		}
		r := pos[0]
		for _, x := range pos[1:] {
			r = "(bvadd " + r + " " + x + ")"
		}
		for _, x := range neg {
			r = "(bvsub " + r + " " + x + ")"
		}
		return r
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.N>>16, t.N&0xffff, p.ref(t.Args[0]))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, p.ref(t.Args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, p.ref(t.Args[0]))
	case OConstArr:
		return fmt.Sprintf("((as const %s) %s)", smtSort(t.Sort), p.ref(t.Args[0]))
	case OStrCat:
		if p.right {
			r := p.ref(t.Args[len(t.Args)-1])
			for i := len(t.Args) - 2; i >= 0; i-- {
				r = "(scat " + p.ref(t.Args[i]) + " " + r + ")"
			}
			return r
		}
		r := p.ref(t.Args[0])
		for i := 1; i < len(t.Args); i++ {
			r = "(scat " + r + " " + p.ref(t.Args[i]) + ")"
		}
		return r
	case OForall:
		v := t.Args[0]
		return fmt.Sprintf("(forall ((%s %s)) %s)", q(v.S), smtSort(v.Sort), p.ref(t.Args[1]))
	case OCtor:
		if len(t.Args) == 0 {
			return t.S
		}
		return "(" + t.S + " " + args(t.Args) + ")"
	case OSel:
		return "(" + t.S + " " + args(t.Args) + ")"
	case OTest:
		return "((_ is " + t.S + ") " + args(t.Args) + ")"
	case OHavoc:
		panic(unsup{"unresolved read of memory changed by a loop or call: " + t.S})
	case OCopy:
		// reads are resolved by the simplifier; as an opaque value it is just a name
		n := fmt.Sprintf("copy%d", t.id)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", n, smtSort(t.Sort))
		return n
	}
	n, ok := opNames[t.Op]
	if !ok {
		panic(fmt.Sprintf("print op %d", t.Op))
	}
	return "(" + n + " " + args(t.Args) + ")"
}

// smtQuery prints assertions.
func smtQuery(asserts []*Term) string { return smtQueryWith(asserts, false) }

// smtQueryRight prints concatenations nested to the right.
func smtQueryRight(asserts []*Term) string { return smtQueryWith(asserts, true) }

func smtQueryWith(asserts []*Term, right bool) string {
	p := newPrinter()
	p.right = right
	var body []string
	for _, a := range asserts {
		body = append(body, "(assert "+p.ref(a)+")")
	}
	// facts about strings that occur
	var facts []string
	if len(p.strs) > 0 {
		p.ref(StrLit(""))
		var ts []*Term
		for t := range p.strs {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		empty := p.ref(StrLit(""))
		for _, t := range ts {
			n := p.ref(t)
			if t.isConst() {
				continue
			}
			facts = append(facts, fmt.Sprintf("(assert (bvult (slen %s) (_ bv281474976710656 64)))", n))
			if t.Op == OStrCat {
				s := ""
				for i, a := range t.Args {
					x := "(slen " + p.ref(a) + ")"
					if i == 0 {
						s = x
					} else {
						s = "(bvadd " + s + " " + x + ")"
					}
				}
				facts = append(facts, fmt.Sprintf("(assert (= (slen %s) %s))", n, s))
				pre := p.ref(t.Args[0])
				for i := 1; i < len(t.Args); i++ {
					a := p.ref(t.Args[i])
					c := "(scat " + pre + " " + a + ")"
					facts = append(facts, fmt.Sprintf("(assert (=> (= %s %s) (= %s %s)))", a, empty, c, pre))
					facts = append(facts, fmt.Sprintf("(assert (=> (= %s %s) (= %s %s)))", pre, empty, c, a))
					pre = c
				}
			}
			facts = append(facts, fmt.Sprintf("(assert (= (= (slen %s) (_ bv0 64)) (= %s %s)))", n, n, empty))
			if t.Op == OApp {
				switch t.S {
				case "chr":
					facts = append(facts, fmt.Sprintf("(assert (= (slen %s) (_ bv1 64)))", n), fmt.Sprintf("(assert (= (sat8 %s (_ bv0 64)) %s))", n, p.ref(t.Args[0])))
					for _, l := range p.lits {
						if len(l.S) == 1 {
							facts = append(facts, fmt.Sprintf("(assert (= (= %s %s) (= %s (_ bv%d 8))))", n, p.ref(l), p.ref(t.Args[0]), l.S[0]))
						}
					}
				case "substr":
					lo, hi := p.ref(t.Args[1]), p.ref(t.Args[2])
					sl := p.ref(SLen(t.Args[0]))
					facts = append(facts, fmt.Sprintf("(assert (=> (and (bvule %s %s) (bvule %s %s) (bvult %s (_ bv281474976710656 64))) (= (slen %s) (bvsub %s %s))))", lo, hi, hi, sl, sl, n, hi, lo))
					if t.Args[1].isConst() && t.Args[1].N == 0 {
						facts = append(facts, fmt.Sprintf("(assert (=> (= %s %s) (= %s %s)))", hi, sl, n, p.ref(t.Args[0])))
					}
				case "bstr":
					l := p.ref(t.Args[2])
					facts = append(facts, fmt.Sprintf("(assert (=> (bvult %s (_ bv281474976710656 64)) (= (slen %s) %s)))", l, n, l))
				}
			}
		}
	}
	seen := map[*Term]bool{}
	var names []string
	for _, l := range p.lits {
		if seen[l] {
			continue
		}
		seen[l] = true
		n := p.done[l]
		names = append(names, n)
		facts = append(facts, fmt.Sprintf("(assert (= (slen %s) (_ bv%d 64)))", n, len(l.S)))
		if len(l.S) <= 64 {
			for i := 0; i < len(l.S); i++ {
				facts = append(facts, fmt.Sprintf("(assert (= (sat8 %s (_ bv%d 64)) (_ bv%d 8)))", n, i, l.S[i]))
			}
		}
	}
	if len(names) > 1 {
		facts = append(facts, "(assert (distinct "+strings.Join(names, " ")+"))")
	}
	return prelude + p.sb.String() + strings.Join(facts, "\n") + "\n" + strings.Join(body, "\n") + "\n"
}

// ---- solver processes ----

type proc struct {
	bin   string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	dead  bool
	logic string
}

func startProc(bin string) *proc {
	var cmd *exec.Cmd
	if strings.HasPrefix(bin, "cvc5") {
		cmd = exec.Command(bin, "--incremental", "--lang=smt2", "-q")
	} else {
		cmd = exec.Command(bin, "-in", "-memory:3000")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fatal("solver %s: %v", bin, err)
	}
	return &proc{bin: bin, cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20)}
}

func (p *proc) kill() {
	p.dead = true
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// ask runs one query; returns sat/unsat/unknown and extra output.
func (p *proc) ask(q string, timeout time.Duration, extra string) (string, string) {
	if p.dead {
		*p = *startProc(p.bin)
	}
	ms := int(timeout / time.Millisecond)
	var hdr string
	if strings.HasPrefix(p.bin, "cvc5") {
		hdr = fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-logic ALL)\n", ms)
	} else {
		hdr = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :model.compact true)\n", ms)
		if p.logic != "" {
			hdr += "(set-logic " + p.logic + ")\n"
		}
	}
	type res struct{ r, x string }
	ch := make(chan res, 1)
	go func() {
		io.WriteString(p.in, hdr+q+"(check-sat)\n"+extra+"(echo \"<<end>>\")\n")
		r := "unknown"
		var sb strings.Builder
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				ch <- res{"error", sb.String()}
				return
			}
			line = strings.TrimRight(line, "\n")
			if strings.Contains(line, "<<end>>") {
				break
			}
			if line == "sat" || line == "unsat" || line == "unknown" {
				r = line
				continue
			}
			if strings.HasPrefix(line, "(error") && extra == "" {
				r = "error"
			}
			sb.WriteString(line + "\n")
		}
		ch <- res{r, sb.String()}
	}()
	select {
	case x := <-ch:
		if x.r == "error" {
			p.kill()
		}
		return x.r, x.x
	case <-time.After(timeout + 3*time.Second):
		p.kill()
		return "unknown", "timeout"
	}
}

// ---- obligation pool ----

type Obl struct {
	Prop, Fn, Name string
	Pos            string
	Hyps           []*Term
	Goal           *Term
	qf, full       string // printed queries
	q0, q1         string // with opaque functions left folded, unfolded once
	qterms         []*Term
	Res            string // proved / failed / unknown
	By             string
	Time           time.Duration
	Prep           time.Duration
	Detail         string
	trivially      bool
	folded         bool
	open           map[string]bool
	path           *Path
}

type attempt struct {
	bin     string
	full    bool
	timeout time.Duration
	level   int
}

type Pool struct {
	wg    sync.WaitGroup
	ch    chan *Obl
	tries []attempt
	mu    sync.Mutex
	times map[string]time.Duration
	count map[string]int
	cache map[string]*Obl
}

func newPool(n int, tries []attempt) *Pool {
	p := &Pool{ch: make(chan *Obl, 100000), tries: tries, times: map[string]time.Duration{}, count: map[string]int{}, cache: map[string]*Obl{}}
	for i := 0; i < n; i++ {
		p.wg.Add(1)
		go func() {
			defer p.wg.Done()
			procs := map[string]*proc{}
			defer func() {
				for _, x := range procs {
					x.kill()
				}
			}()
			for o := range p.ch {
				p.solve(o, procs)
			}
		}()
	}
	return p
}

func (p *Pool) solve(o *Obl, procs map[string]*proc) {
	start := time.Now()
	defer func() { o.Time = time.Since(start) }()
	o.Res = "unknown"
	tries := p.tries
	if o.q1 != "" {
		tries = append([]attempt{{"z3", false, time.Second, 1}, {"z3", false, 2 * time.Second, 2}}, tries...)
	}
	if o.folded {
		tries = append([]attempt{{"z3", false, 300 * time.Millisecond, 1}, {"z3-new", false, 8 * time.Second, 1}, {"z3-new", false, 8 * time.Second, 0}}, tries...)
	}
	for _, a := range tries {
		q := o.qf
		if a.level == 1 {
			q = o.q0
		} else if a.level == 2 {
			q = o.q1
		} else if a.full {
			if o.full == o.qf {
				// same query, other solver: still worthwhile
			}
			q = o.full
		}
		pr := procs[a.bin]
		if pr == nil {
			pr = startProc(a.bin)
			procs[a.bin] = pr
		}
		t0 := time.Now()
		r, x := pr.ask(q, a.timeout, "")
		d := time.Since(t0)
		p.mu.Lock()
		p.times[a.bin] += d
		p.mu.Unlock()
		if r == "unsat" {
			o.Res, o.By = "proved", a.bin
			p.mu.Lock()
			p.count[a.bin]++
			p.mu.Unlock()
			return
		}
		if r == "error" {
			o.Detail = a.bin + ": " + x
			continue
		}
		if r == "sat" {
			if a.level > 0 {
				continue
			}
			o.Detail = a.bin + ": sat"
			if o.full == o.qf {
				o.Res = "failed"
				return
			}
			if a.full {
				o.Res = "failed"
				return
			}
			continue
		}
		o.Detail = a.bin + ": " + r
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(2)
}
