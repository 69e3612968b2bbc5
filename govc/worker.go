package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"sync"
	"time"
)

// Functions whose obligations need much preparation are discharged by a process of their own.

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type workerObl struct {
	Name, Res, By, Detail string
	Time                  float64
}

type workerResult struct {
	Obls  []workerObl
	Reach string
	Count map[string]int
	Times map[string]float64
}

// runWorker verifies one function and prints the outcome of every obligation.
func runWorker(repo, verif, name string) int {
	w, err := loadWorld(repo, verif)
	if err != nil {
		fatal("%v", err)
	}
	c := w.byName(name)
	if c == nil {
		fatal("no contract %s", name)
	}
	r := w.verify(c)
	threads := 3
	if len(r.Obls) > 1000 {
		threads = 6
	}
	pool := w.discharge([]*FnResult{r}, attempts, threads)
	out := workerResult{Count: pool.count, Times: map[string]float64{}}
	for k, v := range pool.times {
		out.Times[k] = v.Seconds()
	}
	for _, o := range r.Obls {
		out.Obls = append(out.Obls, workerObl{o.Name, o.Res, o.By, o.Detail, o.Time.Seconds()})
	}
	if r.reachObl != nil {
		out.Reach = r.reachObl.Res
	}
	json.NewEncoder(os.Stdout).Encode(out)
	return 0
}

func (r *FnResult) heavy() bool {
	n := 0
	for _, o := range r.Obls {
		if o.trivially {
			continue
		}
		n++
		ts := append([]*Term{o.Goal}, o.Hyps...)
		if hasOpaque(ts) {
			return true
		}
		for _, t := range ts {
			if t.hasStr {
				return true
			}
		}
	}
	return n > 60
}

// dischargeAll discharges the light functions here and each heavy one in a process of its own.
func (w *World) dischargeAll(next func() *FnResult) *Pool {
	self, _ := os.Executable()
	sem := make(chan bool, 7)
	var wg sync.WaitGroup
	var mu sync.Mutex
	count := map[string]int{}
	times := map[string]time.Duration{}
	var light, again []*FnResult
	for {
		r := next()
		if r == nil {
			break
		}
		if !r.heavy() {
			light = append(light, r)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, "worker", "-repo", w.repo, "-verif", w.verif, "-prop", onlyProp, r.C.Name)
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errb
			err := cmd.Run()
			var res workerResult
			if err == nil {
				err = json.Unmarshal(out.Bytes(), &res)
			}
			same := err == nil && len(res.Obls) == len(r.Obls)
			for i := range r.Obls {
				same = same && res.Obls[i].Name == r.Obls[i].Name
			}
			mu.Lock()
			defer mu.Unlock()
			if !same {
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "worker:", r.C.Name, err, errb.String())
				}
				again = append(again, r)
				return
			}
			for i, o := range r.Obls {
				x := res.Obls[i]
				o.Res, o.By, o.Detail, o.Time = x.Res, x.By, x.Detail, time.Duration(x.Time*float64(time.Second))
			}
			if r.reachObl != nil {
				r.reachObl.Res = res.Reach
			}
			for k, v := range res.Count {
				count[k] += v
			}
			for k, v := range res.Times {
				times[k] += time.Duration(v * float64(time.Second))
			}
		}()
	}
	pool := w.discharge(light, attempts, 4)
	wg.Wait()
	if len(again) > 0 {
		// done here instead
		p2 := w.discharge(again, attempts, 7)
		for k, v := range p2.count {
			pool.count[k] += v
		}
		for k, v := range p2.times {
			pool.times[k] += v
		}
	}
	for k, v := range count {
		pool.count[k] += v
	}
	for k, v := range times {
		pool.times[k] += v
	}
	return pool
}
