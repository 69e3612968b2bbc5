package main

// The program under verification: /repo's packages plus specification files laid over them.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/zbdba/db-recovery"

// the packages under contract: name used in contract files -> directory in /repo
var pkgDirs = []struct{ name, dir string }{
	{"utils", "recovery/utils"},
	{"ibdata", "recovery/ibdata"},
	{"redo", "recovery/redo"},
	{"main", "cmd/db-recovery"},
}

type World struct {
	repo, verif string
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	tpkgs       map[string]*packages.Package
	contracts   map[*ssa.Function]*Contract
	list        []*Contract
	loopCache   map[*ssa.Function]*LoopInfo
	recCache    map[*ssa.Function]bool
	typeIDs     map[string]int
	typeVals    map[string]types.Type
	overlay     map[string][]byte
	specFile    map[string]bool
	feasProc    *proc
	arithProc   *proc
	feasMemo    map[string]bool
	problems    []string // contracts that could not be attached to the code
}

func loadPkgs(repo string, overlay map[string][]byte) ([]*packages.Package, error) {
	var pats []string
	for _, d := range pkgDirs {
		pats = append(pats, "./"+d.dir)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir:     repo,
		Overlay: overlay,
		Env:     goEnv(),
	}
	return packages.Load(cfg, pats...)
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOSUMDB=off", "GO111MODULE=on")
}

var reErrPos = regexp.MustCompile(`^(.*):(\d+):(\d+)$`)

func loadWorld(repo, verif string) (*World, error) {
	w := &World{repo: repo, verif: verif, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{},
		contracts: map[*ssa.Function]*Contract{}, loopCache: map[*ssa.Function]*LoopInfo{}, recCache: map[*ssa.Function]bool{},
		typeIDs: map[string]int{}, typeVals: map[string]types.Type{}, overlay: map[string][]byte{}, specFile: map[string]bool{}, feasMemo: map[string]bool{}}
	for _, d := range pkgDirs {
		files, _ := filepath.Glob(filepath.Join(verif, "contracts", d.name, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			p := filepath.Join(repo, d.dir, "zz_govc_"+filepath.Base(f))
			w.overlay[p] = b
			w.specFile[p] = true
		}
		sup := filepath.Join(repo, d.dir, "zz_govc_support.go")
		w.overlay[sup] = []byte("package " + d.name + supportSrc)
		w.specFile[sup] = true
	}
	var cs []*Contract
	for _, d := range pkgDirs {
		files, _ := filepath.Glob(filepath.Join(verif, "contracts", "*.gvc"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			c, err := parseContracts(f, string(b), d.name)
			if err != nil {
				return nil, err
			}
			cs = append(cs, c...)
		}
	}
	// first pass: types of parameters and locals
	pk, err := loadPkgs(repo, w.overlay)
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
		w.tpkgs[nameOf(p)] = p
	}
	gen := map[string]*clauseFile{}
	for _, d := range pkgDirs {
		gen[d.name] = newClauseFile(d.name, w.tpkgs[d.name])
	}
	var ok []*Contract
	for _, c := range cs {
		if err := gen[c.Pkg].add(c); err != nil {
			w.problems = append(w.problems, err.Error())
			c.Missing = err.Error()
		}
		ok = append(ok, c)
	}
	bad := map[string]bool{}
	for round := 0; ; round++ {
		ov := map[string][]byte{}
		for k, v := range w.overlay {
			ov[k] = v
		}
		for _, d := range pkgDirs {
			p := filepath.Join(repo, d.dir, "zz_govc_clauses.go")
			ov[p] = []byte(gen[d.name].source(bad))
			w.specFile[p] = true
		}
		pk, err = loadPkgs(repo, ov)
		if err != nil {
			return nil, err
		}
		again := false
		for _, p := range pk {
			for _, e := range p.Errors {
				m := reErrPos.FindStringSubmatch(e.Pos)
				if m == nil || !strings.HasSuffix(m[1], "zz_govc_clauses.go") || round > 6 {
					return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
				}
				var line int
				fmt.Sscan(m[2], &line)
				cl := gen[nameOf(p)].atLine(line)
				if cl == nil {
					return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
				}
				bad[cl.name] = true
				cl.Bad = e.Msg
				again = true
			}
		}
		if !again {
			w.overlay = ov
			break
		}
	}
	for _, c := range cs {
		c.dropBad(w)
	}
	prog, spkgs := ssautil.Packages(pk, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for i, p := range pk {
		w.tpkgs[nameOf(p)] = p
		w.pkgs[nameOf(p)] = spkgs[i]
	}
	for _, c := range ok {
		if c.Missing != "" {
			w.list = append(w.list, c)
			continue
		}
		c.Fn = w.findFn(c.Pkg, c.FnName)
		if c.Fn == nil {
			c.Missing = "no function " + c.Pkg + "." + c.FnName
			w.problems = append(w.problems, c.Missing)
			w.list = append(w.list, c)
			continue
		}
		for _, cl := range c.clauses() {
			cl.Fn = w.pkgs[c.Pkg].Func(cl.name)
			if cl.Fn == nil {
				return nil, fmt.Errorf("clause function %s of %s lost", cl.name, c.Name)
			}
		}
		w.contracts[c.Fn] = c
		w.list = append(w.list, c)
	}
	return w, nil
}

func nameOf(p *packages.Package) string {
	for _, d := range pkgDirs {
		if strings.HasSuffix(p.PkgPath, d.dir) {
			return d.name
		}
	}
	return p.Name
}

func (w *World) findFn(pkg, name string) *ssa.Function {
	sp := w.pkgs[pkg]
	if k := strings.Index(name, "."); k >= 0 {
		tn, ok := sp.Members[name[:k]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if s := w.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, name[k+1:]); s != nil {
				f := w.prog.MethodValue(s)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (w *World) byName(n string) *Contract {
	for _, c := range w.list {
		if c.Name == n {
			return c
		}
	}
	return nil
}

// isSpecFn: the function comes from a specification file.
func (w *World) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if !fn.Pos().IsValid() || strings.HasPrefix(fn.Name(), "Do") {
		return false // lemma code with effects is executed, not evaluated
	}
	return w.specFile[w.prog.Fset.Position(fn.Pos()).Filename]
}

// isNoEffect: logging; it does not touch the program's state or standard output as far as properties go.
func (w *World) isNoEffect(fn *ssa.Function) bool {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == repoMod+"/recovery/logs" {
		switch fn.Name() {
		case "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "InitLogs", "FlushLogs", "SetLevel":
			return true
		}
	}
	return false
}

func floatBits(f float64, b *types.Basic) *Term {
	if b.Kind() == types.Float32 {
		return BV(uint64(math.Float32bits(float32(f))), 32)
	}
	return BV64(math.Float64bits(f))
}

// ---- feasibility ----

// feas: could all of these hold? Only a definite "no" prunes.
func (w *World) feas(ts []*Term) bool { return w.feasN(ts, 1) }

// feasN answers false only if the formulas contradict each other.
func (w *World) feasN(ts []*Term, fuel int) bool {
	for _, t := range ts {
		if t == False {
			return false
		}
	}
	if fuel > 0 {
		ts = unfoldAll(w, ts, fuel)
	}
	q := smtQuery(ts)
	if r, ok := w.feasMemo[q]; ok {
		return r
	}
	if w.feasProc == nil {
		w.feasProc = startProc("z3")
	}
	t0 := time.Now()
	r, out := w.feasProc.ask(q, 300*time.Millisecond, "")
	if os.Getenv("GOVC_FEAS") != "" {
		fmt.Fprintln(os.Stderr, "feas", r, len(ts), len(q), time.Since(t0))
		if time.Since(t0) > 150*time.Millisecond {
			os.WriteFile("/tmp/feas_slow.smt2", []byte(q+"(check-sat)\n"), 0o644)
		}
	}
	if r == "error" && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "feas error:", out)
		os.WriteFile("/tmp/feas_err.smt2", []byte(q), 0o644)
	}
	w.feasMemo[q] = r != "unsat"
	return r != "unsat"
}

func hasQuant(t *Term) bool {
	if v, ok := quantMemo[t]; ok {
		return v
	}
	r := t.Op == OForall
	for _, a := range t.Args {
		if !r && hasQuant(a) {
			r = true
		}
	}
	quantMemo[t] = r
	return r
}

var quantMemo = map[*Term]bool{}

// leafSet: the scalar unknowns a formula talks about.
func leafSet(t *Term) []*Term {
	if v, ok := leafMemo[t]; ok {
		return v
	}
	set := map[*Term]bool{}
	var rec func(t *Term)
	seen := map[*Term]bool{}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OVar, OSelect, OApp:
			if t.Sort.K != SArr {
				set[t] = true
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	var out []*Term
	for l := range set {
		out = append(out, l)
	}
	leafMemo[t] = out
	return out
}

var leafMemo = map[*Term][]*Term{}

// relevant picks the quantifier-free hypotheses connected with c.
func relevant(pc []*Term, c *Term) []*Term {
	var cand []*Term
	for _, h := range pc {
		if !hasQuant(h) {
			cand = append(cand, h)
		}
	}
	in := map[*Term]bool{}
	for _, l := range leafSet(c) {
		in[l] = true
	}
	used := make([]bool, len(cand))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, h := range cand {
			if used[i] {
				continue
			}
			ls := leafSet(h)
			hit := len(ls) == 0
			for _, l := range ls {
				if in[l] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, l := range ls {
					in[l] = true
				}
			}
		}
	}
	for i, h := range cand {
		if used[i] {
			out = append(out, h)
		}
	}
	return out
}

const supportSrc = `

func govcAll(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func govcEx(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}
`
