package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type known struct {
	prop, fn, obl, text string
}

// known-findings.txt: "finding: property=<id> fn=<function> obligation=<text> :: <what fails>"
func loadKnown(verif string) []known {
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k known
		d := strings.Index(l, "::")
		if d < 0 {
			continue
		}
		k.text = strings.TrimSpace(l[d+2:])
		for _, f := range strings.Fields(l[:d]) {
			if v := strings.TrimPrefix(f, "property="); v != f {
				k.prop = v
			}
			if v := strings.TrimPrefix(f, "fn="); v != f {
				k.fn = v
			}
		}
		out = append(out, k)
	}
	return out
}

func repoBuilds(repo string) (bool, string) {
	cmd := exec.Command("go", "build", "-o", "/dev/null", "./cmd/db-recovery")
	cmd.Dir = repo
	cmd.Env = goEnv()
	o, err := cmd.CombinedOutput()
	return err == nil, string(o)
}

type funcReport struct {
	Function    string   `json:"function"`
	Status      string   `json:"status"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Simplifier  int      `json:"by_simplifier"`
	Paths       int      `json:"paths"`
	GenS        float64  `json:"generation_s"`
	Inlined     []string `json:"inlined,omitempty"`
	Dropped     []string `json:"dropped_hints,omitempty"`
}

func runCheck(repo, verif, prop, tier string) int {
	start := time.Now()
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	evDir := filepath.Join(verif, "evidence")
	if d := os.Getenv("EVIDENCE_DIR"); d != "" {
		evDir = d
	}
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	violations := 0
	report := func(name, body string, concrete bool) {
		violations++
		h := sha256.Sum256([]byte(name + body))
		p := filepath.Join(evDir, "replay", fmt.Sprintf("%s_%x.txt", prop, h[:4]))
		os.WriteFile(p, []byte(body), 0o644)
		s := ""
		if !concrete {
			s = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, p, s)
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof"}
	finish := func(cov map[string]interface{}, assumptions []string) int {
		ev["coverage"] = cov
		ev["assumptions"] = assumptions
		ev["wall_s"] = time.Since(start).Seconds()
		ev["violations"] = violations
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
		if violations > 0 {
			return 1
		}
		return 0
	}
	cmdline := fmt.Sprintf("govc check -prop %s -tier %s", prop, tier)
	w, err := loadWorld(repo, verif)
	if err != nil {
		if ok, out := repoBuilds(repo); !ok {
			fmt.Println("the repository does not build:")
			fmt.Println(out)
			return 2
		}
		report("load", fmt.Sprintf("The specification of property %s does not fit the code any more, so nothing could be proved.\n\n%v\n", prop, err), false)
		return finish(map[string]interface{}{"obligations": 0, "discharged": 0, "checker_cmd": cmdline, "trusted_base": []string{"none used: specification does not load"}, "explanation": err.Error()}, nil)
	}
	// the contracts the property rests on, and those of the functions they call
	var rs []*FnResult
	done := map[string]bool{}
	var work []*Contract
	roots := 0
	for _, c := range w.list {
		for _, p := range c.Props {
			if p == prop && !done[c.Name] {
				done[c.Name] = true
				work = append(work, c)
				roots++
			}
		}
	}
	if len(work) == 0 {
		fmt.Println("no contract states property", prop)
		return 2
	}
	pool := w.dischargeAll(func() *FnResult {
		if len(work) == 0 {
			return nil
		}
		c := work[0]
		work = work[1:]
		r := w.verify(c)
		rs = append(rs, r)
		for _, n := range r.Callees {
			if d := w.byName(n); d != nil && !done[n] {
				done[n] = true
				work = append(work, d)
			}
		}
		return r
	})
	kn := loadKnown(verif)
	// collect failures per function
	type failure struct {
		r     *FnResult
		lines []string
		obls  []*Obl
	}
	var fails []failure
	var suspects []*Contract
	nobl, ndis, nsimp := 0, 0, 0
	var reps []funcReport
	trusted := map[string]bool{}
	assumed := map[string]bool{}
	var bounded []string
	bobl, bdis := 0, 0
	for _, r := range rs {
		rep := funcReport{Function: r.C.Name, Status: "proved", Paths: r.Paths, GenS: r.Gen.Seconds(), Inlined: r.Inlined, Dropped: r.C.dropped}
		if r.C.Trusted != "" {
			rep.Status = "trusted: " + r.C.Trusted
			trusted["contract of "+r.C.Name+" (not verified): "+r.C.Trusted] = true
			reps = append(reps, rep)
			continue
		}
		var lines []string
		var fo []*Obl
		if r.Err != "" {
			lines = append(lines, "outside the verifier's reach: "+r.Err)
		}
		if r.Vacuous != "" {
			lines = append(lines, "vacuous: "+r.Vacuous)
		}
		if r.reachObl != nil && r.reachObl.Res == "proved" {
			lines = append(lines, "vacuous: the precondition is contradictory")
		}
		for _, o := range r.Obls {
			rep.Obligations++
			if o.trivially {
				rep.Simplifier++
			}
			if o.Res == "proved" {
				rep.Discharged++
			} else {
				fo = append(fo, o)
				lines = append(lines, fmt.Sprintf("obligation not discharged: %s [%s]: %s (%s)", o.Name, o.Pos, o.Res, o.Detail))
			}
		}
		for _, n := range r.Notes {
			assumed[n] = true
		}
		if r.C.Bounded > 0 {
			rep.Status = fmt.Sprintf("bounded %d", r.C.Bounded)
			bounded = append(bounded, fmt.Sprintf("%s: loops unrolled %d times, %d obligations, %d discharged", r.C.Name, r.C.Bounded, rep.Obligations, rep.Discharged))
			bobl += rep.Obligations
			bdis += rep.Discharged
		} else {
			nobl += rep.Obligations
			ndis += rep.Discharged
			nsimp += rep.Simplifier
		}
		if len(lines) > 0 {
			rep.Status = "not proved"
			fails = append(fails, failure{r, lines, fo})
			suspects = append(suspects, r.C)
		}
		reps = append(reps, rep)
	}
	// replay what failed against the compiled code
	concrete := map[string]NativeResult{}
	var nativeNote []string
	var nat []NativeResult
	secs := 12.0
	nativeSet := suspects
	if tier == "thorough" {
		// cross-check of the library models: run every contract natively as well
		nativeSet = nil
		for _, r := range rs {
			nativeSet = append(nativeSet, r.C)
		}
		secs = 30
	} else if len(suspects) > 0 {
		// a caller's contract may show concretely what a callee's failure means
		for _, r := range rs {
			for _, p := range r.C.Props {
				if p == prop && !containsC(nativeSet, r.C) {
					nativeSet = append(nativeSet, r.C)
				}
			}
		}
	}
	if len(nativeSet) > 0 {
		seeds := map[string][]string{}
		for _, f := range fails {
			seeds[f.r.C.Name] = w.modelSeeds(f.r, f.obls)
		}
		var errs []string
		nat, errs = w.native(nativeSet, secs, seed, seeds)
		nativeNote = errs
		for _, r := range nat {
			if r.Violation {
				concrete[r.Fn] = r
			}
		}
	}
	knownHit := map[string]bool{}
	handled := map[string]bool{}
	describe := func(cr NativeResult) string {
		var sb strings.Builder
		fmt.Fprintf(&sb, "Property %s: function %s breaks its contract on a concrete input.\n\nclause: %s\n", prop, cr.Fn, cr.Clause)
		for i, s := range cr.Inputs {
			fmt.Fprintf(&sb, "  argument %d: %s\n", i, s)
		}
		fmt.Fprintf(&sb, "%s\n\nreplay against the compiled code: cd /verif && VERIF_SEED=%d GOVC_ITER=%d ./govc.sh native -secs 5 %s\n", cr.Detail, cr.Seed, cr.Iter, cr.Fn)
		return sb.String()
	}
	for _, f := range fails {
		name := f.r.C.Name
		handled[name] = true
		body := "Function " + name + " under contract (" + shortFile(f.r.C.File) + fmt.Sprintf(":%d):\n", f.r.C.Line)
		for _, l := range f.lines {
			body += "  " + l + "\n"
		}
		for _, o := range f.obls {
			if o.path != nil {
				body += "\npath of the failed obligation \"" + o.Name + "\":\n"
				for _, t := range o.path.trace {
					body += "    " + t + "\n"
				}
				g := o.Goal.String()
				if len(g) > 3000 {
					g = g[:3000] + "..."
				}
				body += "  goal: " + g + "\n  solver: " + o.Detail + "\n"
			}
		}
		hit := false
		for _, k := range kn {
			if k.prop == prop && k.fn == name {
				hit = true
				if !knownHit[k.text] {
					knownHit[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
		}
		if hit {
			continue
		}
		for _, l := range f.lines {
			fmt.Println(name+":", l)
		}
		if cr, ok := concrete[name]; ok {
			report(name, describe(cr)+"\n"+body, true)
			continue
		}
		// a function that calls it may have failed concretely
		report(name, "Property "+prop+": a proof obligation is not discharged on the current source.\n\n"+body+"\nNo failing input was found within the search budget.\n"+strings.Join(nativeNote, "\n"), false)
	}
	for name, cr := range concrete {
		if !handled[name] {
			fmt.Println(name + ": " + cr.Clause)
			report(name, describe(cr), true)
		}
	}
	for _, n := range nativeNote {
		fmt.Println("note:", n)
	}
	tb := []string{
		"govc itself: translation of Go SSA (golang.org/x/tools/go/ssa) to SMT, its simplifier, and its models of the Go library functions used",
		"SMT solvers z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
		"the Go compiler; 64-bit int; machine integers are exact bit vectors, no arithmetic is idealised",
		"logging calls (recovery/logs) have no effect on results",
	}
	for t := range trusted {
		tb = append(tb, t)
	}
	as := []string{"slice and string lengths are below 2^40", "pointer parameters are not nil unless the contract says so", "distinct pointer and slice parameters may alias only as Go allows; callers are single-threaded"}
	for a := range assumed {
		as = append(as, a)
	}
	sort.Strings(tb[4:])
	sort.Strings(as[3:])
	by := map[string]interface{}{"simplifier": nsimp}
	st := map[string]interface{}{}
	for k, v := range pool.count {
		by[k] = v
	}
	for k, v := range pool.times {
		st[k] = v.Seconds()
	}
	cov := map[string]interface{}{
		"obligations": nobl, "discharged": ndis, "checker_cmd": cmdline, "trusted_base": tb,
		"functions": reps, "functions_under_contract": len(reps), "stating_contracts": roots,
		"queries_discharged_by": by, "solver_seconds": st,
	}
	if len(bounded) > 0 {
		cov["bounded_not_proved"] = bounded
		cov["bounded_obligations"] = bobl
		cov["bounded_discharged"] = bdis
	}
	if len(nat) > 0 {
		tried, judged := 0, 0
		for _, r := range nat {
			tried += r.Tried
			judged += r.Judged
		}
		cov["native_cross_check"] = map[string]interface{}{"functions": len(nat), "inputs_tried": tried, "inputs_meeting_precondition": judged}
	}
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged (%d by simplification), %.1fs\n", prop, len(reps), ndis, nobl, nsimp, time.Since(start).Seconds())
	return finish(cov, as)
}

func containsC(cs []*Contract, c *Contract) bool {
	for _, d := range cs {
		if d == c {
			return true
		}
	}
	return false
}

func (w *World) modelSeeds(r *FnResult, obls []*Obl) []string { return nil }
