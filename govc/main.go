package main

// govc: deductive verification of Go functions against contracts.
//
//	govc check -prop C01 [-tier quick|thorough]   verify everything property C01 rests on
//	govc fn utils.GetIntValue ...                 verify single functions, verbosely
//	govc list                                     list contracts

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	C        *Contract
	Obls     []*Obl
	Err      string
	Paths    int
	Exits    int
	Feas     int
	Gen      time.Duration
	Callees  []string
	Inlined  []string
	Notes    []string
	Vacuous  string
	reachObl *Obl
}

// verify generates the obligations of one function.
func (w *World) verify(c *Contract) (res *FnResult) {
	res = &FnResult{C: c}
	if c.Missing != "" {
		res.Err = c.Missing
		return
	}
	t0 := time.Now()
	x := &Exec{w: w, c: c, fn: c.Fn, maxPaths: 4000, notes: map[string]bool{}, callees: map[string]bool{}, inlined: map[string]bool{}, bounded: c.Bounded}
	if c.MaxPaths > 0 {
		x.maxPaths = c.MaxPaths
	}
	x.deadline = time.Now().Add(400 * time.Second)
	defer func() {
		res.Gen = time.Since(t0)
		res.Obls = x.obls
		res.Paths, res.Exits, res.Feas = x.npaths, x.exits, x.nfeas
		res.Callees = keysOf(x.callees)
		res.Inlined = keysOf(x.inlined)
		res.Notes = keysOf(x.notes)
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				u = unsup{fmt.Sprint("internal: ", r)}
			}
			res.Err = u.msg
		}
	}()
	if c.Trusted != "" {
		return
	}
	p := &Path{heap: &Heap{m: map[string]*Term{}}, out: StrLit(""), nextRef: FreshBase}
	f := &Frame{fn: c.Fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopState{}, unroll: map[*ssa.BasicBlock]int{}, block: c.Fn.Blocks[0], spec: c}
	p.frames = []*Frame{f}
	for _, prm := range c.Fn.Params {
		v := x.freshVal(p, prm.Name(), prm.Type(), true)
		if pv, ok := v.(PtrV); ok && !c.nilOK[prm.Name()] {
			p.assume(Not(mk(OEq, sortBool, 0, "", nil, pv.Ref, RefLit(0))))
		}
		f.env[prm] = v
		x.params = append(x.params, v)
	}
	f.params = x.params
	x.entry = p.heap.clone()
	f.entryHeap = x.entry
	f.entryOut = p.out
	b := &binding{ct: c, params: x.params, pre: x.entry, outPre: p.out, out: p.out}
	for _, r := range c.Requires {
		p.assume(x.evalClause(p, r, b))
	}
	x.panicPre = False
	if c.Panics != nil {
		x.panicPre = x.evalClause(p, c.Panics, b)
	}
	// the precondition can be met
	res.reachObl = &Obl{Fn: c.Name, Name: "precondition can be met", Hyps: p.pc[:len(p.pc):len(p.pc)], Goal: False}
	if p.dead {
		res.Vacuous = "the precondition is contradictory"
		return
	}
	x.work = []*Path{p}
	x.run()
	if x.exits == 0 {
		res.Vacuous = "no path reaches an exit"
	}
	return
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var attempts = []attempt{
	{"z3", false, time.Second, 0},
	{"z3-new", false, 4 * time.Second, 0},
	{"z3", false, 4 * time.Second, 0},
	{"z3-new", false, 12 * time.Second, 0},
	{"z3", true, 10 * time.Second, 0},
	{"cvc5", false, 15 * time.Second, 0},
	{"z3-new", true, 15 * time.Second, 0},
	{"cvc5", true, 20 * time.Second, 0},
}

// discharge runs the solvers on all obligations.
func (w *World) discharge(rs []*FnResult, tries []attempt, workers int) *Pool {
	if n, err := strconv.Atoi(os.Getenv("GOVC_TRIES")); err == nil && n < len(tries) {
		tries = tries[:n] // for experiments
	}
	pool := newPool(workers, tries)
	byQuery := map[string]*Obl{}
	dup := map[*Obl]*Obl{}
	for _, r := range rs {
		for _, o := range r.Obls {
			if o.trivially {
				continue
			}
			t0 := time.Now()
			if w.arithProves(o) {
				o.Res, o.By, o.Time = "proved", "z3-new", time.Since(t0)
				pool.mu.Lock()
				pool.count["z3-new"]++
				pool.times["z3-new"] += o.Time
				pool.mu.Unlock()
				continue
			}
			w.prepare(o, 5)
			o.Prep = time.Since(t0)
			if q, ok := byQuery[o.full]; ok {
				dup[o] = q
				continue
			}
			byQuery[o.full] = o
			pool.ch <- o
		}
		if r.reachObl != nil && r.Err == "" {
			w.prepare(r.reachObl, 1)
			pool.ch <- r.reachObl
		}
	}
	close(pool.ch)
	pool.wg.Wait()
	for o, q := range dup {
		o.Res, o.By, o.Detail = q.Res, q.By, q.Detail
	}
	return pool
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: govc check|fn|list ...")
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := fs.Bool("v", false, "verbose")
	dump := fs.String("dump", "", "directory for queries of unproved obligations")
	secs := fs.Float64("secs", 3, "seconds per function")
	fs.Parse(os.Args[2:])
	onlyProp = *prop
	if f := os.Getenv("GOVC_PROF"); f != "" {
		fh, _ := os.Create(f)
		pprof.StartCPUProfile(fh)
		go func() {
			time.Sleep(60 * time.Second)
			pprof.StopCPUProfile()
			fh.Close()
			os.Exit(3)
		}()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(*repo, *verif, *prop, *tier))
	case "worker":
		os.Exit(runWorker(*repo, *verif, fs.Arg(0)))
	case "fn":
		w, err := loadWorld(*repo, *verif)
		if err != nil {
			fatal("%v", err)
		}
		for _, pr := range w.problems {
			fmt.Println("PROBLEM:", pr)
		}
		var rs []*FnResult
		for _, c := range w.list {
			for _, a := range fs.Args() {
				if ok, _ := filepath.Match(a, c.Name); ok {
					rs = append(rs, w.verify(c))
				}
			}
		}
		w.discharge(rs, attempts, 8)
		bad := 0
		for _, r := range rs {
			np, nt := 0, 0
			for _, o := range r.Obls {
				if o.Res == "proved" {
					np++
				}
				if o.trivially {
					nt++
				}
			}
			fmt.Printf("%s: %d/%d obligations (%d by simplification), %d paths, %d exits, %d feasibility queries, %.1fs gen\n", r.C.Name, np, len(r.Obls), nt, r.Paths, r.Exits, r.Feas, r.Gen.Seconds())
			if r.Err != "" {
				fmt.Println("   ERROR:", r.Err)
				bad++
			}
			if r.Vacuous != "" {
				fmt.Println("   VACUOUS:", r.Vacuous)
			}
			for _, d := range r.C.dropped {
				fmt.Println("   dropped:", d)
			}
			if r.reachObl != nil && r.reachObl.Res == "proved" {
				fmt.Println("   VACUOUS: contradictory precondition")
			}
			for k, o := range r.Obls {
				if o.Res != "proved" {
					bad++
					fmt.Printf("   NOT PROVED #%d: %s [%s] %s (%s, %.1fs)\n", k, o.Name, o.Pos, o.Res, o.Detail, o.Time.Seconds())
					if *verbose {
						for _, t := range o.path.trace {
							fmt.Println("        ", t)
						}
						fmt.Println("      goal:", o.Goal)
					}
					if *dump != "" {
						os.MkdirAll(*dump, 0o755)
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s_%d.smt2", r.C.Name, k)), []byte(o.full+"(check-sat)\n"), 0o644)
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s_%d.qf.smt2", r.C.Name, k)), []byte(o.qf+"(check-sat)\n"), 0o644)
					}
				} else if *verbose && !o.trivially {
					fmt.Printf("   proved #%d: %s [%s] %s %.2fs (%.2fs prep, %d bytes)\n", k, o.Name, o.Pos, o.By, o.Time.Seconds(), o.Prep.Seconds(), len(o.full))
					if *dump != "" && o.Time > 2*time.Second {
						os.MkdirAll(*dump, 0o755)
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("ok_%s_%d.smt2", r.C.Name, k)), []byte(o.full+"(check-sat)\n"), 0o644)
					}
				}
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "list":
		w, err := loadWorld(*repo, *verif)
		if err != nil {
			fatal("%v", err)
		}
		for _, c := range w.list {
			fmt.Println(c.Name, strings.Join(c.Props, ","), c.Missing)
		}
	case "native":
		w, err := loadWorld(*repo, *verif)
		if err != nil {
			fatal("%v", err)
		}
		var cs []*Contract
		for _, c := range w.list {
			for _, a := range fs.Args() {
				if ok, _ := filepath.Match(a, c.Name); ok && !containsC(cs, c) {
					cs = append(cs, c)
				}
			}
		}
		seed := int64(1)
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		rs, errs := w.native(cs, *secs, seed, nil)
		bad := len(errs) > 0
		for _, r := range rs {
			fmt.Printf("%s: tried %d, judged %d, distinct %d\n", r.Fn, r.Tried, r.Judged, r.Distinct)
			if r.Judged == 0 {
				fmt.Println("   NO INPUT met the precondition")
			}
			if r.Violation {
				bad = true
				fmt.Println("   BROKEN:", r.Clause, "(iteration", r.Iter, ")")
				for i, s := range r.Inputs {
					fmt.Printf("     argument %d: %s\n", i, s)
				}
				fmt.Println("    ", r.Detail)
			} else if *verbose {
				fmt.Println("   e.g.", strings.Join(r.Sample, " ; "))
			}
		}
		for _, e := range errs {
			fmt.Println("ERROR:", e)
		}
		if bad {
			os.Exit(1)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
