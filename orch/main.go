// Command orch builds the simulator from the repository's working tree and
// drives it: searches, confirms, shrinks, replays.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type budget struct {
	quickRuns, thoroughRuns int
	quickCap, thoroughCap   time.Duration
	quickRace, thoroughRace time.Duration // with the race detector, after the rest
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Detail   string         `json:"detail"`
	Seed     uint64         `json:"seed"`
	Run      uint64         `json:"run"`
	Race     bool           `json:"race"` // run with the race detector
	Plan     *planT         `json:"plan"`
	Replay   bool           `json:"replay"` // decisions come from Dec, everything else takes its default
	Dec      []int64        `json:"dec"`
	Before   map[string]any `json:"before,omitempty"`
	Hash     string         `json:"hash,omitempty"`
	LogHash  string         `json:"log_hash,omitempty"`
	Schedule []string       `json:"schedule"`
	Log      []string       `json:"log"`
	Crash    string         `json:"crash,omitempty"`
}

type finding struct {
	prop, class, what string
	re                *regexp.Regexp
}

// knownFindings reads known-findings.txt: lines
//
//	open: property=<id> class=<class> detail=<regexp> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
func knownFindings(l *layout) ([]finding, error) {
	b, err := os.ReadFile(filepath.Join(l.verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []finding
	re := regexp.MustCompile(`^open: property=(\S+) class=(\S+) detail=(.*) :: (.*)$`)
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "open:") {
			continue
		}
		m := re.FindStringSubmatch(line)
		if m == nil {
			return nil, fmt.Errorf("known-findings.txt: cannot read %q", line)
		}
		r, err := regexp.Compile(m[3])
		if err != nil {
			return nil, err
		}
		out = append(out, finding{m[1], m[2], m[4], r})
	}
	return out, nil
}

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func envU(k string, d uint64) uint64 {
	if v, err := strconv.ParseUint(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func nproc() int {
	n := int(envU("VERIF_JOBS", 0))
	if n == 0 {
		n = runtime.NumCPU()
	}
	return max(1, min(n, 16))
}

func main() {
	if len(os.Args) < 2 {
		die(2, "usage: orch check ID | replay FILE | selftest [IDs] | run ID [-w world] [-n runs] | build")
	}
	l, err := newLayout()
	if err != nil {
		die(2, "%v", err)
	}
	race := os.Getenv("VERIF_RACE") != ""
	build := func(race bool) *built {
		bin, sites, bt, err := l.buildWorker(race)
		if err != nil {
			die(2, "%v", err)
		}
		return &built{bin, sites, bt}
	}
	switch os.Args[1] {
	case "build":
		for _, race := range []bool{false, true} {
			b := build(race)
			fmt.Printf("built %s from %s in %.1fs: %d instrumented statements\n", b.bin, l.repo, b.took.Seconds(), len(b.sites))
		}
	case "check", "run":
		prop := os.Args[2]
		if _, ok := budgets[prop]; !ok {
			die(2, "no check for %s", prop)
		}
		var plain, racy *built
		if prop != "C26" && !race {
			plain = build(false)
		}
		if os.Getenv("VERIF_NORACE") == "" {
			racy = build(true)
		}
		os.Exit(check(l, plain, racy, prop))
	case "replay":
		os.Exit(replay(l, build, os.Args[2]))
	case "selftest":
		os.Exit(selftest(l, build(race).bin, os.Args[2:]))
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}

// built is a simulator binary.
type built struct {
	bin   string
	sites []siteInfo
	took  time.Duration
}

// phase is one search: which binary, which runs, how long.
type phase struct {
	b           *built
	race        bool
	from, end   uint64
	limit       time.Duration
	prop, world string
	seed        uint64
	thorough    bool
}

func (ph *phase) cmd(from, n uint64) map[string]any {
	return map[string]any{"prop": ph.prop, "world": ph.world, "seed": ph.seed, "from": from, "stride": 1, "n": n, "thorough": ph.thorough}
}

type search struct {
	mu      sync.Mutex
	next    uint64
	stop    bool
	bad     []*outcome
	before  map[uint64]map[string]any
	known   map[string]int
	trouble string
	tot     agg
	hashes  map[string]bool
	samples []*outcome
	first   []string // hashes of the first chunk, for the recheck
	races   int      // runs with the race detector
	other   int      // race reports without code of the repository, other violations in the check for races
}

// raceFirst is the first run of those with the race detector.
const raceFirst = 1 << 24

func check(l *layout, plain, racy *built, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envU("VERIF_SEED", 1)
	b := budgets[prop]
	runs, limit, rlimit := b.quickRuns, b.quickCap, b.quickRace
	if tier == "thorough" {
		runs, limit, rlimit = b.thoroughRuns, b.thoroughCap, b.thoroughRace
	}
	if v := envU("VERIF_RUNS", 0); v != 0 {
		runs = int(v)
	}
	if v := envU("VERIF_CAP", 0); v != 0 {
		limit = time.Duration(v) * time.Second
		rlimit = min(rlimit, limit)
		if plain == nil {
			rlimit = limit
		}
	}
	world := os.Getenv("VERIF_WORLD")
	known, err := knownFindings(l)
	if err != nil {
		die(2, "%v", err)
	}
	ev := filepath.Join(l.verif, "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)

	s := &search{hashes: map[string]bool{}, known: map[string]int{}, before: map[uint64]map[string]any{}}
	s.tot.Stats, s.tot.Worlds, s.tot.Pairs, s.tot.Cov = map[string]int64{}, map[string]int64{}, make([]uint64, 1024), make([]uint64, 512)
	var phases []*phase
	base := phase{prop: prop, world: world, seed: seed, thorough: tier == "thorough"}
	if plain != nil {
		ph := base
		ph.b, ph.end, ph.limit = plain, uint64(runs), limit
		phases = append(phases, &ph)
	}
	if racy != nil && rlimit > 0 {
		ph := base
		ph.b, ph.race, ph.from, ph.end, ph.limit = racy, true, raceFirst, raceFirst+uint64(runs), rlimit
		phases = append(phases, &ph)
	}
	var ph *phase
	for _, ph = range phases {
		fmt.Printf("%s: seed %d, %s, %d runs, at most %v, race detector %v, built in %.1fs\n", prop, seed, tier, ph.end-ph.from, ph.limit, ph.race, ph.b.took.Seconds())
		s.run(ph, known)
		if s.trouble != "" || len(s.bad) > 0 {
			break
		}
	}
	searchWall := time.Since(t0)
	if s.trouble != "" {
		fmt.Fprintf(os.Stderr, "%s: the check itself failed: %s\n", prop, s.trouble)
		return 2
	}
	for _, f := range known {
		if f.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, f.what, s.known[f.what])
		}
	}
	code := 0
	nviol := 0
	if len(s.bad) > 0 {
		sort.Slice(s.bad, func(i, j int) bool { return s.bad[i].Run < s.bad[j].Run })
		var path string
		var o *outcome
		for _, x := range s.bad {
			fmt.Printf("%s: run %d: %s: %s\n", prop, x.Run, x.Class, x.Detail)
			if path, err = report(l, ph.b, ph.race, prop, seed, x, s.before[x.Run]); err == nil {
				o = x
				break
			}
			fmt.Fprintf(os.Stderr, "%s: run %d could not be repeated: %v\n", prop, x.Run, err)
		}
		if o == nil {
			fmt.Fprintf(os.Stderr, "%s: violations were seen and none of them repeats\n", prop)
			return 2
		}
		nviol = len(s.bad)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	rechecked, differing := 0, 0
	if code == 0 && len(s.first) > 0 {
		// the first runs again, in another process and one by one
		ph := phases[0]
		if w, err := startWorker(ph.b.bin); err == nil {
			n := min(8, len(s.first))
			cmd := ph.cmd(ph.from, uint64(n))
			cmd["hashes"] = true
			res := w.do(cmd)
			w.stop()
			for i := 0; i < n && i < len(res.hashes); i++ {
				rechecked++
				if res.hashes[i] != s.first[i] {
					differing++
				}
			}
		}
	}
	if f := os.Getenv("VERIF_COVER"); f != "" {
		writeCover(f, s.tot.Cov, phases[0].b.sites)
	}
	writeEvidence(l, prop, tier, seed, s, searchWall, time.Since(t0), nviol, rechecked, differing, phases[0].b.sites)
	if s.other > 0 {
		fmt.Printf("%s: %d runs ended with something this check does not judge\n", prop, s.other)
	}
	fmt.Printf("%s: %d runs (%d with the race detector), %d distinct, %.0f s of simulated time, %.1f s of search, exit %d\n", prop, s.tot.Runs, s.races, len(s.hashes), float64(s.tot.SimUs)/1e6, searchWall.Seconds(), code)
	return code
}

// run searches one phase.
func (s *search) run(ph *phase, known []finding) {
	deadline := time.Now().Add(ph.limit)
	const chunk = 32
	s.next = ph.from
	var wg sync.WaitGroup
	for k := 0; k < nproc(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() { w.stop() }()
			cmds := 0
			for {
				s.mu.Lock()
				if s.stop || s.next >= ph.end || time.Now().After(deadline) {
					s.mu.Unlock()
					return
				}
				from := s.next
				n := min(uint64(chunk), ph.end-from)
				s.next += n
				s.mu.Unlock()
				for n > 0 {
					if w == nil || cmds >= 8 {
						if w != nil {
							w.stop()
						}
						var err error
						if w, err = startWorker(ph.b.bin); err != nil {
							s.fail(err.Error())
							return
						}
						cmds = 0
					}
					cmds++
					cmd := ph.cmd(from, n)
					first := from == ph.from && s.first == nil
					if first {
						cmd["samples"] = 3
						cmd["hashes"] = true
					}
					res := w.do(cmd)
					if res.dead {
						w = nil
					}
					s.mu.Lock()
					s.samples = append(s.samples, res.samples...)
					if first {
						s.first = res.hashes
					}
					if res.agg != nil {
						s.merge(res.agg)
						if ph.race {
							s.races += res.agg.Runs
						}
					}
					if res.bad == nil {
						s.mu.Unlock()
						if res.agg.Next != 0 && res.agg.Next < from+n {
							n -= res.agg.Next - from
							from = res.agg.Next
							w.stop()
							w = nil
							continue
						}
						break
					}
					o := res.bad
					if o.Trouble != "" {
						s.mu.Unlock()
						s.fail(fmt.Sprintf("run %d: %s", o.Run, o.Trouble))
						return
					}
					s.tot.Runs += int(o.Run - from) // the quiet runs before it in this batch
					match := false
					if o.Class == "race-elsewhere" || ph.prop == "C26" && o.Class != "data-race" {
						s.other++
						match = true
					}
					for _, f := range known {
						if f.prop == ph.prop && f.class == o.Class && f.re.MatchString(o.Detail) {
							s.known[f.what]++
							match = true
							break
						}
					}
					if !match {
						s.bad = append(s.bad, o)
						s.before[o.Run] = ph.cmd(from, o.Run-from)
						s.stop = true
						s.mu.Unlock()
						return
					}
					s.tot.Runs++
					s.mu.Unlock()
					n -= o.Run + 1 - from
					from = o.Run + 1
				}
			}
		}()
	}
	wg.Wait()
}

func (s *search) fail(msg string) {
	s.mu.Lock()
	if s.trouble == "" {
		s.trouble = msg
	}
	s.stop = true
	s.mu.Unlock()
}

func (s *search) merge(a *agg) {
	t := &s.tot
	t.Runs += a.Runs
	t.SimUs += a.SimUs
	t.Steps += a.Steps
	t.NDec += a.NDec
	t.NonDef += a.NonDef
	t.Trivial += a.Trivial
	for k, v := range a.Stats {
		t.Stats[k] += v
	}
	for k, v := range a.Worlds {
		t.Worlds[k] += v
	}
	for _, h := range a.Hashes {
		s.hashes[h] = true
	}
	for i, v := range a.Pairs {
		if i < len(t.Pairs) {
			t.Pairs[i] |= v
		}
	}
	for i, v := range a.Cov {
		if i < len(t.Cov) {
			t.Cov[i] |= v
		}
	}
}

// report confirms, shrinks and writes down a violation.
func report(l *layout, b *built, race bool, prop string, seed uint64, o *outcome, before map[string]any) (string, error) {
	p := newPool(b.bin, l.build, nproc())
	defer p.close()
	var plan planT
	if len(o.Plan) > 0 {
		if err := json.Unmarshal(o.Plan, &plan); err != nil {
			return "", err
		}
	} else {
		pl, err := planOf(b.bin, before, o.Run)
		if err != nil {
			return "", err
		}
		plan = *pl
	}
	rf := &replayFile{Property: prop, Race: race, Seed: seed, Run: o.Run, Plan: &plan}
	c := p.run(planRun{plan: &plan, fresh: true})
	if !same(o, c) {
		c = p.run(planRun{plan: &plan, fresh: true, before: before})
		if !same(o, c) {
			return "", fmt.Errorf("alone it ends with %q %q", c.Class, c.Trouble)
		}
		rf.Before = before
	}
	final := c
	if rf.Before == nil {
		quick := os.Getenv("VERIF_NOSHRINK") != ""
		small := &plan
		if !quick {
			small = p.shrinkPlan(&plan, o, 40*time.Second)
		}
		rec := p.run(planRun{plan: small, record: true, fresh: true})
		if !same(o, rec) {
			small = &plan
			rec = p.run(planRun{plan: small, record: true, fresh: true})
		}
		rf.Plan = small
		if same(o, rec) {
			dec := rec.Dec
			if dec == nil {
				dec = []int64{}
			}
			var d []int64
			if !quick {
				d = p.shrinkDecisions(small, dec, o, 30*time.Second)
			}
			if d != nil {
				rf.Replay, rf.Dec = true, d
			}
		}
	}
	final = p.run(planRun{plan: rf.Plan, dec: rf.Dec, replay: rf.Replay, record: true, log: true, fresh: true, before: rf.Before})
	if !same(o, final) {
		return "", fmt.Errorf("the shrunk run ends with %q %q", final.Class, final.Trouble)
	}
	rf.Class, rf.Detail, rf.Hash, rf.LogHash, rf.Log, rf.Crash = final.Class, final.Detail, final.Hash, final.LogHash, final.Log, tail(final.Crash, 20000)
	rf.Schedule = schedule(final, b.sites)
	h := fnv.New32a()
	js, _ := json.Marshal(rf.Plan)
	h.Write(js)
	path := filepath.Join(l.verif, "evidence", "replay", fmt.Sprintf("%s-%d-%08x.json", prop, o.Run, h.Sum32()))
	js, _ = json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, js, 0o644); err != nil {
		return "", err
	}
	fmt.Printf("  %s: %s\n  shrunk to %d steps, %d faults, %d decisions in %d runs\n", rf.Class, rf.Detail, len(rf.Plan.Steps), len(rf.Plan.Faults), len(rf.Dec)/3, p.Runs.Load())
	for i, x := range rf.Schedule {
		if i == 30 {
			fmt.Println("   ...")
			break
		}
		fmt.Println("   ", x)
	}
	return path, nil
}

// planOf asks a worker for the plan of a run (used when the run killed its process).
func planOf(bin string, before map[string]any, run uint64) (*planT, error) {
	w, err := startWorker(bin)
	if err != nil {
		return nil, err
	}
	defer w.stop()
	cmd := map[string]any{}
	for k, v := range before {
		cmd[k] = v
	}
	cmd["from"], cmd["n"], cmd["show"] = run, 1, true
	res := w.do(cmd)
	if len(res.samples) == 0 {
		return nil, fmt.Errorf("no plan for run %d", run)
	}
	var p planT
	return &p, json.Unmarshal(res.samples[0].Plan, &p)
}

func schedule(o *outcome, sites []siteInfo) (out []string) {
	byID := map[uint32]siteInfo{}
	for _, s := range sites {
		byID[s.ID] = s
	}
	for i := 0; i+2 < len(o.Dec) && len(out) < 400; i += 3 {
		l := fmt.Sprintf("%s #%d -> %d", kindName(o.Dec[i]), o.Dec[i+1], o.Dec[i+2])
		if k := i / 3 * 2; k+1 < len(o.Sites) && o.Sites[k] != 0 {
			s := byID[uint32(o.Sites[k])]
			l += fmt.Sprintf(" (goroutine %d at %s:%d)", o.Sites[k+1], s.File, s.Line)
		}
		out = append(out, l)
	}
	return
}

func replay(l *layout, build func(race bool) *built, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die(2, "%v", err)
	}
	w := build(rf.Race)
	p := newPool(w.bin, l.build, 1)
	defer p.close()
	o := p.run(planRun{plan: rf.Plan, dec: rf.Dec, replay: rf.Replay, record: true, log: true, fresh: true, before: rf.Before})
	for _, x := range o.Log {
		fmt.Println(x)
	}
	for _, x := range schedule(o, w.sites) {
		fmt.Println("   ", x)
	}
	if o.Crash != "" {
		fmt.Println(tail(o.Crash, 4000))
	}
	if o.Trouble != "" {
		fmt.Fprintln(os.Stderr, "trouble:", o.Trouble)
		return 2
	}
	if o.Class == "" {
		fmt.Println("the run is quiet")
		return 0
	}
	ident := "identical to the recorded run"
	if o.Hash != rf.Hash || o.LogHash != rf.LogHash {
		ident = "not identical to the recorded run"
	}
	fmt.Printf("%s: %s (%s)\nVIOLATION property=%s replay=%s\n", o.Class, o.Detail, ident, rf.Property, file)
	return 1
}

// selftest runs the same seeds in different processes, at different positions and
// with different numbers of processes at once, and compares the event hashes.
func selftest(l *layout, bin string, props []string) int {
	if len(props) == 0 {
		for p := range budgets {
			props = append(props, p)
		}
		sort.Strings(props)
	}
	n := int(envU("VERIF_RUNS", 160))
	bad := 0
	for _, prop := range props {
		got := make([]map[string]string, 0)
		var mu sync.Mutex
		for _, cfg := range []struct{ chunk, par int }{{n, 1}, {16, 8}, {7, 4}, {1, 8}} {
			m := map[string]string{}
			sem := make(chan bool, cfg.par)
			var wg sync.WaitGroup
			for at := 0; at < n; at += cfg.chunk {
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					from := at
					for from < at+cfg.chunk && from < n {
						w, err := startWorker(bin)
						if err != nil {
							die(2, "%v", err)
						}
						res := w.do(map[string]any{"prop": prop, "seed": 77, "from": from, "stride": 1, "n": min(at+cfg.chunk, n) - from, "hashes": true})
						if !res.dead {
							w.stop()
						}
						mu.Lock()
						for _, h := range res.hashes {
							k, v, _ := strings.Cut(h, " ")
							m[k] = v
						}
						mu.Unlock()
						if res.bad != nil {
							mu.Lock()
							m[fmt.Sprint(res.bad.Run)] = res.bad.Class + res.bad.Trouble
							mu.Unlock()
							from = int(res.bad.Run) + 1
						} else if res.agg.Next != 0 {
							from = int(res.agg.Next)
						} else {
							break
						}
					}
				}()
			}
			wg.Wait()
			got = append(got, m)
		}
		diff := 0
		for i := 0; i < n; i++ {
			k := fmt.Sprint(i)
			for _, m := range got[1:] {
				if m[k] != got[0][k] {
					diff++
					if diff < 5 {
						fmt.Printf("  %s run %d: %q / %q\n", prop, i, got[0][k], m[k])
					}
					break
				}
			}
		}
		fmt.Printf("%s: %d seeds, 4 arrangements of processes, %d differ\n", prop, n, diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}

// writeCover appends the statements of /repo that were reached (+) and those that were not (-).
func writeCover(path string, cov []uint64, sites []siteInfo) {
	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	for _, x := range sites {
		c := "-"
		if cov[x.ID>>24&7<<6|x.ID>>6&63]>>(x.ID&63)&1 != 0 {
			c = "+"
		}
		fmt.Fprintf(f, "%s:%d %s\n", x.File, x.Line, c)
	}
}

func popcount(v []uint64) (n int) {
	for _, x := range v {
		n += bits.OnesCount64(x)
	}
	return
}
