package main

import (
	"fmt"
	"sort"
	"sync"
	"time"
)

// same reports whether o is the violation being shrunk.
func same(want, o *outcome) bool {
	if o == nil || o.Class != want.Class {
		return false
	}
	if want.Class == "data-race" {
		return want.Detail == o.Detail
	}
	if want.Class == "panic" || want.Class == "allocation" {
		a, _ := repoFrames(want.Crash)
		b, _ := repoFrames(o.Crash)
		return a == b
	}
	return true
}

// firstOK evaluates candidates in parallel and returns the lowest that still fails.
func firstOK(n, par int, deadline time.Time, try func(i int) bool) int {
	for base := 0; base < n && time.Now().Before(deadline); base += par {
		ok := make([]bool, par)
		var wg sync.WaitGroup
		for j := 0; j < par && base+j < n; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok[j] = try(base + j)
			}()
		}
		wg.Wait()
		for j := range ok {
			if ok[j] {
				return base + j
			}
		}
	}
	return -1
}

// shrinkPlan simplifies the plan while some schedule still shows the violation.
func (p *pool) shrinkPlan(plan *planT, want *outcome, budget time.Duration) *planT {
	deadline := time.Now().Add(budget)
	cur := plan.clone()
	accept := func(c *planT) *planT {
		for k := uint64(0); k < 4; k++ {
			d := c.clone()
			d.Sched.Seed = c.Sched.Seed + k*0x1000193
			if same(want, p.run(planRun{plan: d})) {
				return d
			}
			if time.Now().After(deadline) {
				return nil
			}
		}
		return nil
	}
	par := cap(p.free)
	pass := func(cands []*planT) bool {
		res := make([]*planT, len(cands))
		i := firstOK(len(cands), par, deadline, func(i int) bool { res[i] = accept(cands[i]); return res[i] != nil })
		if i < 0 {
			return false
		}
		cur = res[i]
		return true
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		changed := false
		// chunks of steps, from large to small
		for size := (len(cur.Steps) + 1) / 2; size >= 1; size /= 2 {
			for {
				var cands []*planT
				for at := 0; at < len(cur.Steps); at += size {
					c := cur.clone()
					c.Steps = append(append([]stepT{}, cur.Steps[:at]...), cur.Steps[min(at+size, len(cur.Steps)):]...)
					cands = append(cands, c)
				}
				if len(cands) == 0 || !pass(cands) {
					break
				}
				changed = true
				if time.Now().After(deadline) {
					return cur
				}
			}
		}
		// faults
		for {
			var cands []*planT
			for i := range cur.Faults {
				c := cur.clone()
				c.Faults = append(append([]faultT{}, cur.Faults[:i]...), cur.Faults[i+1:]...)
				cands = append(cands, c)
			}
			if len(cands) == 0 || !pass(cands) {
				break
			}
			changed = true
		}
		// parameters, schedule, arguments
		var cands []*planT
		add := func(f func(c *planT) bool) {
			c := cur.clone()
			if f(c) {
				cands = append(cands, c)
			}
		}
		add(func(c *planT) bool {
			ch := c.Sched.Mode != 0
			c.Sched = schedT{Seed: c.Sched.Seed}
			return ch
		})
		add(func(c *planT) bool { ch := c.Sched.Stalls != 0; c.Sched.Stalls, c.Sched.StallP = 0, 0; return ch })
		add(func(c *planT) bool {
			if c.Sched.Mode != 1 || c.Sched.YieldP[1] <= 200 {
				return false
			}
			for i := range c.Sched.YieldP {
				c.Sched.YieldP[i] /= 4
			}
			return true
		})
		add(func(c *planT) bool {
			ch := c.P["net.lat"] != 0 || c.P["net.segp"] != 0 || c.P["net.shortp"] != 0 || c.P["net.buf"] != 1<<20
			c.P["net.lat"], c.P["net.latp"], c.P["net.segp"], c.P["net.shortp"], c.P["net.buf"] = 0, 0, 0, 0, 1<<20
			return ch
		})
		var keys []string
		for k := range cur.P {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v := int64(0)
			if k == "net.buf" {
				v = 1 << 20
			}
			if cur.P[k] != v {
				add(func(c *planT) bool { c.P[k] = v; return true })
			}
		}
		for i := range cur.Steps {
			if cur.Steps[i].D != 0 {
				add(func(c *planT) bool { c.Steps[i].D = 0; return true })
			}
			for j := range cur.Steps[i].N {
				if v := cur.Steps[i].N[j]; v != 0 {
					add(func(c *planT) bool { c.Steps[i].N[j] = 0; return true })
					if v > 40 {
						add(func(c *planT) bool { c.Steps[i].N[j] = v / 2; return true })
					}
				}
			}
			if n := len(cur.Steps[i].Data); n > 1 {
				add(func(c *planT) bool { c.Steps[i].Data = c.Steps[i].Data[:n/2]; return true })
			}
		}
		for n := 0; n < 60 && len(cands) > 0 && time.Now().Before(deadline); n++ {
			res := make([]*planT, len(cands))
			i := firstOK(len(cands), par, deadline, func(i int) bool { res[i] = accept(cands[i]); return res[i] != nil })
			if i < 0 {
				break
			}
			// later candidates were built from the plan before the change: rebuild next round
			cur = res[i]
			changed = true
			break
		}
		if !changed {
			break
		}
	}
	return cur
}

// shrinkDecisions reduces the recorded decisions to those that matter.
func (p *pool) shrinkDecisions(plan *planT, dec []int64, want *outcome, budget time.Duration) []int64 {
	deadline := time.Now().Add(budget)
	try := func(d []int64) bool {
		return same(want, p.run(planRun{plan: plan, dec: d, replay: true}))
	}
	if !try(dec) {
		return nil
	}
	if try([]int64{}) {
		return []int64{}
	}
	par := cap(p.free)
	cur := dec
	for n := 2; len(cur)/3 >= 1 && time.Now().Before(deadline); {
		k := len(cur) / 3
		if n > k {
			n = k
		}
		var cands [][]int64
		for i := 0; i < n; i++ {
			a, b := i*k/n, (i+1)*k/n
			c := append(append([]int64{}, cur[:3*a]...), cur[3*b:]...)
			cands = append(cands, c)
		}
		i := firstOK(len(cands), par, deadline, func(i int) bool { return try(cands[i]) })
		if i >= 0 {
			cur = cands[i]
			n = max(n-1, 2)
			continue
		}
		if n >= k {
			break
		}
		n = min(2*n, k)
	}
	return cur
}

func kindName(k int64) string {
	switch k {
	case 0:
		return "preempt"
	case 1:
		return "pick"
	case 2:
		return "stall"
	case 3:
		return "select"
	case 4:
		return "timer"
	case 8:
		return "latency"
	case 9:
		return "segment"
	case 10:
		return "short read"
	case 11, 12:
		return "peer"
	}
	return fmt.Sprint("kind ", k)
}
