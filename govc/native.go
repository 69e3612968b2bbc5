package main

// Native execution of contracts: the clause functions are ordinary Go, so a contract can be run
// against the compiled function on concrete inputs. Used to replay a failed obligation against the
// real code and (thorough tier) to cross-check the library models the proofs rest on.

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed native_rt.txt
var nativeRT string

type NativeResult struct {
	Fn, Clause, Detail string
	Inputs             []string
	Iter               int
	Seed               int64
	Tried, Judged      int
	Distinct           int
	Sample             []string
	Violation          bool
}

// constants in the bodies fn can reach inside the repository
func mineConsts(w *World, fn *ssa.Function) (nums []uint64, strs []string) {
	seen := map[*ssa.Function]bool{}
	ns, ss := map[uint64]bool{}, map[string]bool{}
	var walk func(f *ssa.Function, d int)
	walk = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 6 || f.Blocks == nil || w.isNoEffect(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Const:
						if v.Value == nil {
							continue
						}
						switch v.Value.Kind() {
						case constant.Int:
							if u, ok := constant.Uint64Val(v.Value); ok && u > 1 {
								ns[u] = true
							}
						case constant.String:
							if s := constant.StringVal(v.Value); len(s) < 60 && !strings.Contains(s, "%") {
								ss[s] = true
							}
						}
					case *ssa.Function:
						walk(v, d+1)
					}
				}
			}
		}
	}
	walk(fn, 0)
	for n := range ns {
		nums = append(nums, n)
	}
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	sort.Strings(strs)
	return
}

func fnExpr(c *Contract) string {
	if k := strings.Index(c.FnName, "."); k >= 0 {
		recv := c.FnName[:k]
		if _, ptr := c.Fn.Signature.Recv().Type().(*types.Pointer); ptr {
			recv = "(*" + recv + ")"
		}
		return recv + c.FnName[k:]
	}
	return c.FnName
}

func (w *World) nativeSource(pkg string, cs []*Contract, seeds map[string][]string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n%s\nvar govcCases = []govcCase{\n", pkg, nativeRT)
	for _, c := range cs {
		fmt.Fprintf(&sb, "{name: %q, fn: %s, panicsAny: %v, mayPanic: %v, anyOut: %v, noFrame: %v, noTerm: %v, nilOK: map[int]bool{", c.FnName, fnExpr(c), c.PanicsAny, c.MayPanic, c.Output, len(c.Modifies)+len(c.Every) > 0 || c.AnyEffect, c.NoTerm)
		for i, p := range c.Fn.Params {
			if c.nilOK[p.Name()] {
				fmt.Fprintf(&sb, "%d: true,", i)
			}
		}
		sb.WriteString("},\n clauses: []govcClause{\n")
		var cls []*Clause
		cls = append(cls, c.Requires...)
		if c.Panics != nil {
			cls = append(cls, c.Panics)
		}
		for _, r := range c.Returns {
			if r != nil {
				cls = append(cls, r)
			}
		}
		cls = append(cls, c.Ensures...)
		if c.OutputC != nil {
			cls = append(cls, c.OutputC)
		}
		for _, cl := range cls {
			fmt.Fprintf(&sb, "  {%q, %q, %s, []govcParam{", cl.Kind, cl.Text, cl.name)
			for _, p := range cl.Params {
				fmt.Fprintf(&sb, "{%q, %d},", p.Kind, p.Index)
			}
			fmt.Fprintf(&sb, "}, %d},\n", cl.res)
		}
		nums, strs := mineConsts(w, c.Fn)
		fmt.Fprintf(&sb, " }, nums: []uint64{")
		for _, n := range nums {
			fmt.Fprintf(&sb, "%d,", n)
		}
		sb.WriteString("}, strs: []string{")
		for _, s := range strs {
			fmt.Fprintf(&sb, "%q,", s)
		}
		sb.WriteString("},\n seeds: [][]interface{}{")
		for _, s := range seeds[c.Name] {
			sb.WriteString(s + ",\n")
		}
		sb.WriteString("}},\n")
	}
	sb.WriteString("}\n")
	return sb.String()
}

// eventHooks instruments the functions with an event clause: what a call prints is replaced by
// the event, as the callers' contracts see it. Nothing else of the source changes.
func (w *World) eventHooks(pkg, dir string) map[string][]byte {
	type ins struct {
		off int
		txt string
	}
	at := map[string][]ins{}
	for _, c := range w.list {
		if c.Pkg != pkg || c.Event == nil || c.Missing != "" || c.Fn == nil || c.Event.Bad != "" {
			continue
		}
		fd, ok := c.Fn.Syntax().(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		var as []string
		good := true
		for _, p := range c.Event.Params {
			if p.Kind != "param" || c.Fn.Params[p.Index].Name() == "" {
				good = false
				break
			}
			as = append(as, c.Fn.Params[p.Index].Name())
		}
		if !good {
			continue
		}
		pos := w.prog.Fset.Position(fd.Body.Lbrace)
		at[pos.Filename] = append(at[pos.Filename], ins{pos.Offset + 1,
			fmt.Sprintf(" defer govcHook(%q, func() string { return %s(%s) })();", c.FnName, c.Event.name, strings.Join(as, ", "))})
	}
	out := map[string][]byte{}
	for f, is := range at {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		sort.Slice(is, func(i, j int) bool { return is[i].off > is[j].off })
		s := string(b)
		for _, i := range is {
			s = s[:i.off] + i.txt + s[i.off:]
		}
		out[f] = []byte(s)
	}
	out[filepath.Join(w.repo, dir, "zz_govc_hooks.go")] = []byte("package " + pkg + `

var govcHookImpl func(name string, f func() string) func()

func govcHook(name string, f func() string) func() {
	if govcHookImpl == nil {
		return func() {}
	}
	return govcHookImpl(name, f)
}
`)
	return out
}

// native runs the contracts on generated inputs for secs seconds per function.
func (w *World) native(cs []*Contract, secs float64, seed int64, seeds map[string][]string) (out []NativeResult, errs []string) {
	byPkg := map[string][]*Contract{}
	for _, c := range cs {
		if c.Missing == "" && c.Fn != nil && c.Trusted == "" {
			byPkg[c.Pkg] = append(byPkg[c.Pkg], c)
		}
	}
	type job struct {
		out []NativeResult
		err string
	}
	ch := make(chan job)
	n := 0
	for _, d := range pkgDirs {
		if len(byPkg[d.name]) == 0 {
			continue
		}
		n++
		go func(pkg, dir string, cs []*Contract) {
			o, e := w.nativePkg(pkg, dir, cs, secs, seed, seeds)
			ch <- job{o, e}
		}(d.name, d.dir, byPkg[d.name])
	}
	for ; n > 0; n-- {
		j := <-ch
		out = append(out, j.out...)
		if j.err != "" {
			errs = append(errs, j.err)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Fn < out[j].Fn })
	return
}

func (w *World) nativePkg(pkg, dir string, cs []*Contract, secs float64, seed int64, seeds map[string][]string) ([]NativeResult, string) {
	tmp, err := os.MkdirTemp("", "govcnat")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	put := func(target string, b []byte) {
		p := filepath.Join(tmp, fmt.Sprintf("f%d_%s", len(rep), filepath.Base(target)))
		os.WriteFile(p, b, 0o644)
		rep[target] = p
	}
	for t, b := range w.overlay {
		put(t, b)
	}
	for t, b := range w.eventHooks(pkg, dir) {
		put(t, b)
	}
	build := func(gens bool, sd map[string][]string) (string, string) {
		ov := map[string]string{}
		for k, v := range rep {
			ov[k] = v
		}
		// the package's own test files need fixtures and are left out
		own, _ := filepath.Glob(filepath.Join(w.repo, dir, "*_test.go"))
		for _, f := range own {
			ov[f] = ""
		}
		src := filepath.Join(tmp, "native_test.go")
		os.WriteFile(src, []byte(w.nativeSource(pkg, cs, sd)), 0o644)
		ov[filepath.Join(w.repo, dir, "zz_govc_native_test.go")] = src
		if gens {
			fs, _ := filepath.Glob(filepath.Join(w.verif, "contracts", pkg, "native", "*.go"))
			for _, f := range fs {
				ov[filepath.Join(w.repo, dir, "zz_govc_gen_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
			}
		}
		b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		os.WriteFile(filepath.Join(tmp, "overlay.json"), b, 0o644)
		bin := filepath.Join(tmp, "t.test")
		cmd := exec.Command("go", "test", "-c", "-o", bin, "-vet=off", "-overlay", filepath.Join(tmp, "overlay.json"), "./"+dir)
		cmd.Dir = w.repo
		cmd.Env = goEnv()
		o, err := cmd.CombinedOutput()
		if err != nil {
			return "", string(o)
		}
		return bin, ""
	}
	bin, msg := build(true, seeds)
	if bin == "" {
		first := msg
		if bin, msg = build(true, nil); bin == "" {
			if bin, msg = build(false, nil); bin == "" {
				return nil, "native run of package " + pkg + " does not build: " + first + msg
			}
		}
		fmt.Fprintln(os.Stderr, "note: native run built without seeds/generators:", strings.TrimSpace(first))
	}
	type job struct {
		out []NativeResult
		err string
	}
	sem := make(chan bool, 7)
	ch := make(chan job)
	for k, c := range cs {
		go func(k int, c *Contract) {
			sem <- true
			defer func() { <-sem }()
			of := filepath.Join(tmp, fmt.Sprintf("out%d.json", k))
			rd := filepath.Join(tmp, fmt.Sprintf("run%d", k))
			os.MkdirAll(rd, 0o755)
			cmd := exec.Command(bin, "-test.run", "TestGovcNative", "-test.timeout", fmt.Sprintf("%ds", int(secs)+60))
			cmd.Dir = rd
			cmd.Env = append(goEnv(), "GOVC_FUNCS="+c.FnName, fmt.Sprintf("GOVC_SECS=%g", secs), fmt.Sprintf("GOVC_SEED=%d", seed), "GOVC_OUT="+of, "GOMAXPROCS=2", "TZ=America/New_York")
			if it := os.Getenv("GOVC_ITER"); it != "" {
				cmd.Env = append(cmd.Env, "GOVC_ITER="+it)
			}
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			cmd.Start()
			done := make(chan bool)
			go func() {
				select {
				case <-done:
				case <-time.After(time.Duration(secs+90) * time.Second):
					cmd.Process.Kill()
				}
			}()
			cmd.Wait()
			close(done)
			var j job
			b, _ := os.ReadFile(of)
			for _, l := range bytes.Split(b, []byte("\n")) {
				var r NativeResult
				if len(l) > 0 && json.Unmarshal(l, &r) == nil {
					r.Fn = c.Name
					j.out = append(j.out, r)
				}
			}
			if len(j.out) == 0 {
				s := buf.String()
				if len(s) > 3000 {
					s = s[:1500] + "\n...\n" + s[len(s)-1500:]
				}
				j.err = "native run of " + c.Name + " ended without a result: " + s
			}
			ch <- j
		}(k, c)
	}
	var out []NativeResult
	var errs []string
	for range cs {
		j := <-ch
		out = append(out, j.out...)
		if j.err != "" {
			errs = append(errs, j.err)
		}
	}
	return out, strings.Join(errs, "\n")
}
