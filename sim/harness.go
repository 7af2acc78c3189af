package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Decision kinds of the harness (see SimKindUser).
const (
	kLat   = runtime.SimKindUser + iota // latency of a segment
	kSeg                                // where a write is cut
	kShort                              // short reads
	kApp                                // choices of stub peers and workloads
	kApp2
)

// Step is one shrinkable element of a plan.  Its meaning is the scenario's; D is
// a delay in microseconds of simulated time before it.
type Step struct {
	Op   string  `json:"op"`
	D    int64   `json:"d,omitempty"`
	Who  int     `json:"w,omitempty"`
	N    []int64 `json:"n,omitempty"`
	S    string  `json:"s,omitempty"`
	Data []byte  `json:"data,omitempty"`
}

func (s *Step) n(i int) int64 {
	if i < len(s.N) {
		return s.N[i]
	}
	return 0
}

// Sched is the scheduling policy of a run.
type Sched struct {
	Seed    uint64    `json:"seed"`
	Mode    int       `json:"mode"`
	YieldP  [8]uint32 `json:"yieldp"`
	PickP   uint32    `json:"pickp"`
	StallP  uint32    `json:"stallp"`
	Stalls  int       `json:"stalls"`
	Changes []uint64  `json:"changes,omitempty"`
}

// Fault is one network fault, placed on a connection (by order of dialling) and
// a byte offset in one direction (0: from the dialler, 1: towards it).
type Fault struct {
	Conn int    `json:"conn"`
	Dir  int    `json:"dir"`
	Kind string `json:"kind"`
	Off  int64  `json:"off"`
	Arg  int64  `json:"arg,omitempty"`
}

// Plan is everything that defines a run besides the scheduling decisions.
type Plan struct {
	Prop   string           `json:"prop"`
	World  string           `json:"world"`
	Noise  uint64           `json:"noise"`
	P      map[string]int64 `json:"p"`
	Steps  []Step           `json:"steps"`
	Faults []Fault          `json:"faults,omitempty"`
	Sched  Sched            `json:"sched"`
}

func (p *Plan) p(k string) int64 { return p.P[k] }

// Gen draws plans.
type Gen struct {
	*rand.Rand
	P *Plan
	// Thorough widens sizes.
	Thorough bool
	// A slow run waits up to so many microseconds, a long run does things up to so many times.
	slow, many int64
	// A long run is often a calm one, without faults and stalls, to get far.
	calm bool
}

func (g *Gen) step(op string, d int64, who int, n ...int64) *Step {
	g.P.Steps = append(g.P.Steps, Step{Op: op, D: d, Who: who, N: n})
	return &g.P.Steps[len(g.P.Steps)-1]
}
func (g *Gen) fault(conn, dir int, kind string, off, arg int64) {
	g.P.Faults = append(g.P.Faults, Fault{conn, dir, kind, off, arg})
}
func (g *Gen) set(k string, v int64)    { g.P.P[k] = v }
func (g *Gen) chance(num, den int) bool { return g.IntN(den) < num }
func (g *Gen) pick(v ...int64) int64    { return v[g.IntN(len(v))] }
func (g *Gen) between(a, b int64) int64 {
	if b <= a {
		return a
	}
	return a + g.Int64N(b-a+1)
}
func (g *Gen) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Uint32())
	}
	return b
}

// delay in microseconds, mostly zero or tiny, sometimes long.
func (g *Gen) delay() int64 {
	switch g.IntN(10) {
	case 0, 1, 2, 3:
		return 0
	case 4, 5:
		return g.between(1, 50)
	case 6, 7:
		return g.between(50, 5000)
	case 8:
		return g.between(5000, 300000)
	default:
		if g.slow > 0 && g.chance(1, 2) {
			return g.between(3000000, g.slow)
		}
		return g.between(300000, 3000000)
	}
}

// brief is a delay the world's bounds count on.
func (g *Gen) brief() int64 {
	slow := g.slow
	g.slow = 0
	defer func() { g.slow = slow }()
	return g.delay()
}

// rep is how often something is done: less than n times, or very often.
func (g *Gen) rep(n int) int {
	if g.many > 0 && g.chance(1, 3) {
		return int(g.between(int64(n), g.many))
	}
	return g.IntN(n)
}

// workers numbers n workers, of a long run sometimes many more (from 100 on) that each do less.
func (g *Gen) workers(n int) (ws []int) {
	for w := 0; w < n; w++ {
		ws = append(ws, w)
	}
	if g.many > 0 && g.chance(1, 3) {
		for w := g.many; w > 0; w-- {
			ws = append(ws, 99+int(w))
		}
		g.many = 0
	}
	return ws
}

// width is how many there are of something, less than n unless the run is a long one.
func (g *Gen) width(n, most int) int {
	if g.many > 0 && g.chance(1, 3) {
		k := int(g.between(int64(min(n, most)), min(g.many, int64(most))))
		g.many = 0
		return k
	}
	return g.IntN(n)
}

// World is one simulated system with its workload and oracles.
type World struct {
	Name string
	Gen  func(g *Gen)
	Run  func(h *H)
	// Weight of the world among those of its property.
	Weight int
	// AllocCap overrides the single-allocation limit (bytes).
	AllocCap int64
	// MaxSpin overrides how many steps may pass without time passing.
	MaxSpin uint64
}

var worlds = map[string][]*World{} // by property

func register(prop string, w *World) {
	if w.Weight == 0 {
		w.Weight = 1
	}
	worlds[prop] = append(worlds[prop], w)
}

// H is the running simulation as the scenario sees it.
type H struct {
	Plan   *Plan
	Net    *Net
	Failed string // class of the violation
	Detail string
	Broken string // harness trouble
	stats  map[string]int64
	logh   uint64
	logn   int
	logOn  bool
	logBuf []string
	slack  time.Duration
	tasks  []*Task
	nseq   int64
}

// Fail records the first violation and ends the run.
func (h *H) Fail(class, format string, a ...any) {
	if h.Failed == "" && h.Broken == "" {
		h.Failed = class
		h.Detail = fmt.Sprintf(format, a...)
		h.Log("FAIL %s %s", class, h.Detail)
		if h.logOn && os.Getenv("VERIF_STACKS") != "" {
			for _, g := range h.repoGoroutines() {
				h.logBuf = append(h.logBuf, strings.Split(g, "\n")...)
			}
		}
	}
	h.abort()
}

// Trouble reports that the harness itself is at fault.
func (h *H) Trouble(format string, a ...any) {
	if h.Failed == "" && h.Broken == "" {
		h.Broken = fmt.Sprintf(format, a...)
		h.Log("TROUBLE %s", h.Broken)
	}
	h.abort()
}

func (h *H) abort() {
	runtime.SimFinish()
	select {}
}

func (h *H) Count(name string, n int64) { h.stats[name] += n }
func (h *H) Hit(name string)            { h.stats["hit."+name]++ }

// Log adds a line to the event log.  It takes no decisions and reads no clock but
// the simulated one.
func (h *H) Log(format string, a ...any) {
	l := fmt.Sprintf("%12d ", runtime.SimNow()) + fmt.Sprintf(format, a...)
	f := fnv.New64a()
	f.Write([]byte(l))
	h.logh = h.logh*0x100000001b3 ^ f.Sum64()
	h.logn++
	if h.logOn {
		h.logBuf = append(h.logBuf, l)
	}
}

// Seq is the global event sequence number.
func (h *H) Seq() int64 { h.nseq++; return h.nseq }

// Now is simulated time since the start of the run.
func (h *H) Now() time.Duration { return time.Duration(runtime.SimNow()) }

func (h *H) Sleep(d time.Duration) { time.Sleep(d) }

// Rand is a workload decision in [0,n).
func (h *H) Rand(n int) int {
	if n <= 1 {
		return 0
	}
	return int(runtime.SimDecide(kApp, uint32(n)))
}

// Chance is a workload decision: true with probability num/den, false in a shrunk run.
func (h *H) Chance(num, den int) bool {
	return runtime.SimChance(kApp2, uint32(num*65536/den))
}

// Task is a goroutine of the harness that calls the system under test.
type Task struct {
	Name  string
	done  chan struct{}
	Ended bool
	At    time.Duration
	Seq   int64
}

func (h *H) Go(name string, f func()) *Task {
	t := &Task{Name: name, done: make(chan struct{})}
	h.tasks = append(h.tasks, t)
	go func() {
		f()
		t.Ended, t.At, t.Seq = true, h.Now(), h.Seq()
		close(t.done)
	}()
	return t
}

// Await waits for the task for at most d of simulated time.
func (h *H) Await(t *Task, d time.Duration) bool {
	if t.Ended {
		return true
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-t.done:
		return true
	case <-tm.C:
		return t.Ended
	}
}

// Until polls cond until it holds or d has passed.
func (h *H) Until(d time.Duration, cond func() bool) bool {
	end := h.Now() + d
	step := 100 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if h.Now() >= end {
			return false
		}
		if step > end-h.Now() {
			step = end - h.Now()
		}
		time.Sleep(step)
		if step < 500*time.Millisecond {
			step *= 2
		}
	}
}

// Slack is added to every bound on simulated time: injected stalls and network delays.
func (h *H) Slack() time.Duration { return h.slack }

var stackBuf [1 << 20]byte // not to be counted as an allocation of the run

// repoGoroutines returns the stacks of simulated goroutines that are inside the
// system under test.
func (h *H) repoGoroutines() []string {
	buf := stackBuf[:]
	n := runtime.Stack(buf, true)
	tag := fmt.Sprintf("synctest bubble %d", runtime.SimBubbleID())
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(head, tag) || !strings.Contains(g, "github.com/tg123/phabrik/") {
			continue
		}
		out = append(out, g)
	}
	return out
}

// topRepoFrame names the innermost function of the system under test in a stack.
func topRepoFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if i := strings.Index(l, "github.com/tg123/phabrik/"); i >= 0 && !strings.HasPrefix(strings.TrimSpace(l), "/") {
			l = l[i+len("github.com/tg123/phabrik/"):]
			if j := strings.IndexByte(l, '('); j > 0 {
				// keep receiver: transport.(*connection).Wait(...)
				if strings.HasPrefix(l[j:], "(*") {
					if k := strings.IndexByte(l[j+2:], '('); k > 0 {
						return l[:j+2+k]
					}
				}
				return l[:j]
			}
			return l
		}
	}
	return "?"
}

// Outcome is what a worker prints for a run.
type Outcome struct {
	Run     uint64           `json:"run"`
	Class   string           `json:"class,omitempty"`
	Detail  string           `json:"detail,omitempty"`
	Trouble string           `json:"trouble,omitempty"`
	End     int              `json:"end"`
	Steps   uint64           `json:"steps"`
	SimNs   int64            `json:"sim_ns"`
	Hash    string           `json:"hash"`
	LogHash string           `json:"log_hash"`
	Log     []string         `json:"log,omitempty"`
	Stats   map[string]int64 `json:"stats,omitempty"`
	Plan    *Plan            `json:"plan,omitempty"`
	Dec     []int64          `json:"dec,omitempty"`   // kind,k,v triples
	Sites   []int64          `json:"sites,omitempty"` // site,goroutine per decision
	NDec    uint64           `json:"ndec"`
	NonDef  uint64           `json:"nondef"`
	Left    int              `json:"left"`
}

type runOpts struct {
	recbuf []runtime.SimDecision
	record bool
	replay []int64
	log    bool
}

var stallDur = []int64{1e3, 100e3, 5e6, 200e6, 3e9}

var crandSeed func(uint64)

func runPlan(p *Plan, o runOpts) *Outcome {
	var w *World
	for _, x := range worlds[p.Prop] {
		if x.Name == p.World {
			w = x
		}
	}
	if w == nil {
		return &Outcome{Trouble: "unknown world " + p.World}
	}
	h := &H{Plan: p, stats: map[string]int64{}, logOn: o.log}
	cfg := &runtime.SimConfig{
		Seed: p.Sched.Seed, Noise: p.Noise, Mode: p.Sched.Mode, YieldP: p.Sched.YieldP, PickP: p.Sched.PickP,
		Stalls: p.Sched.Stalls, StallDur: stallDur, Changes: p.Sched.Changes,
		MaxSteps: 20_000_000, MaxSpin: 4_000_000, MaxTime: int64(1000 * time.Hour),
		Record: o.record, RecBuf: o.recbuf, AllocCap: 48 << 20,
	}
	if w.MaxSpin != 0 {
		cfg.MaxSpin = w.MaxSpin
		cfg.MaxSteps = max(cfg.MaxSteps, 4*w.MaxSpin)
	}
	if w.AllocCap != 0 {
		cfg.AllocCap = uintptr(w.AllocCap)
		cfg.AllocTotal = 4 * cfg.AllocCap
	}
	for i := range cfg.StallP {
		cfg.StallP[i] = p.Sched.StallP
	}
	cfg.StallP[5] /= 16
	if o.replay != nil {
		cfg.Replay = true
		for i := 0; i+2 < len(o.replay); i += 3 {
			k := o.replay[i]
			cfg.Table[k] = append(cfg.Table[k], runtime.SimDecision{Kind: uint32(k), K: uint32(o.replay[i+1]), V: uint32(o.replay[i+2])})
		}
	}
	h.Net = newNet(h)
	h.slack = time.Duration(p.Sched.Stalls)*time.Duration(stallDur[len(stallDur)-1]) + 300*time.Millisecond
	crandSeed(p.Noise)
	curH = h
	restoreGlobals()
	res := runtime.SimRun(cfg, func() {
		w.Run(h)
		runtime.SimFinish()
	})
	curH = nil
	for k, v := range h.Net.stats {
		h.stats["net."+k] += v
	}
	if res.Stalls > 0 {
		h.stats["fault.stall"] += int64(res.Stalls)
	}
	out := &Outcome{Class: h.Failed, Detail: h.Detail, Trouble: h.Broken, End: res.End, Steps: res.Steps, SimNs: res.SimNs,
		Hash: fmt.Sprintf("%016x", res.Hash), LogHash: fmt.Sprintf("%016x", h.logh), Stats: h.stats, NDec: res.Decisions, NonDef: res.NonDefault, Left: res.Left}
	if o.log {
		out.Log = h.logBuf
	}
	if o.record {
		for _, d := range res.Rec {
			out.Dec = append(out.Dec, int64(d.Kind), int64(d.K), int64(d.V))
			if d.Kind == runtime.SimKindYield || d.Kind == runtime.SimKindStall {
				out.Sites = append(out.Sites, int64(d.Site), int64(d.G))
			} else {
				out.Sites = append(out.Sites, 0, 0)
			}
		}
	}
	if out.Class == "" && out.Trouble == "" {
		switch res.End {
		case runtime.SimEndFinished:
		case runtime.SimEndSpin:
			out.Class = "spin"
			out.Detail = fmt.Sprintf("code runs without end and without time passing, last at site %d", res.Site)
		case runtime.SimEndStepLimit:
			out.Class = "spin"
			out.Detail = fmt.Sprintf("run does not come to an end, last at site %d", res.Site)
		case runtime.SimEndDeadlock:
			out.Class, out.Detail = "blocked", "everything waits for ever"
		case runtime.SimEndTimeLimit:
			out.Class, out.Detail = "blocked", "the run goes on for ever"
		}
	}
	if res.Overflow && out.Class != "" {
		out.Trouble = "decision record overflow"
	}
	return out
}

var curH *H

// genPlan draws the plan of run number i of a property.
func genPlan(prop, only string, seed, i uint64, thorough bool) *Plan {
	r := rand.New(rand.NewPCG(seed*0x9e3779b97f4a7c15+i, hashStr(prop)))
	if prop == "C26" { // the worlds of all others, in turn, for the race detector
		prop = fmt.Sprintf("C%02d", 1+i%21)
	}
	ws := worlds[prop]
	if only != "" {
		for _, w := range worlds[prop] {
			if w.Name == only {
				ws = []*World{w}
			}
		}
	}
	tot := 0
	for _, w := range ws {
		tot += w.Weight
	}
	k := r.IntN(tot)
	var w *World
	for _, w = range ws {
		if k < w.Weight {
			break
		}
		k -= w.Weight
	}
	p := &Plan{Prop: prop, World: w.Name, Noise: r.Uint64(), P: map[string]int64{}}
	g := &Gen{Rand: r, P: p, Thorough: thorough}
	genSched(g)
	genNet(g)
	switch r.IntN(40) {
	case 0:
		g.slow = g.pick(100e6, 1200e6)
	case 1:
		g.many = g.pick(20, 40, 80, 150)
		if thorough {
			g.many *= 2
		}
		g.calm = g.chance(1, 2)
	}
	w.Gen(g)
	if g.calm {
		p.Faults = nil
		p.Sched.Stalls = 0
		g.set("net.lat", g.pick(0, 0, 1))
		g.set("net.latp", 0)
	}
	return p
}

func hashStr(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

func genSched(g *Gen) {
	s := &g.P.Sched
	s.Seed = g.Uint64()
	switch g.IntN(10) {
	case 0:
		s.Mode = 1 // no preemption: only the order of ready goroutines
		s.PickP = uint32(g.pick(0, 8192, 65536))
	case 1, 2, 3, 4, 5, 6:
		s.Mode = 1
		base := uint32(g.pick(200, 1000, 4000, 16000, 40000))
		for i := range s.YieldP {
			s.YieldP[i] = base
		}
		s.YieldP[5] = base / 16
		s.PickP = uint32(g.pick(0, 16384, 65536))
	default:
		s.Mode = 2
		d := 1 + g.IntN(6)
		span := g.pick(300, 2000, 10000, 40000)
		for i := 0; i < d; i++ {
			s.Changes = append(s.Changes, uint64(g.Int64N(span)))
		}
		sort.Slice(s.Changes, func(i, j int) bool { return s.Changes[i] < s.Changes[j] })
	}
	if g.chance(1, 4) {
		s.Stalls = 1 + g.IntN(3)
		s.StallP = uint32(g.pick(200, 2000, 20000))
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "json:", err)
		os.Exit(3)
	}
	return b
}

// The package variables of the system under test start every run as they were
// after initialisation, as in a process of its own.
type global struct {
	v, init reflect.Value
	m       reflect.Value // contents, if it is a map
}

var globals []global

func restoreGlobals() {
	if globals == nil {
		for _, p := range runtime.SimGlobals() {
			v := reflect.ValueOf(p).Elem()
			g := global{v: v, init: reflect.New(v.Type()).Elem()}
			g.init.Set(v)
			if v.Kind() == reflect.Map && !v.IsNil() {
				g.m = reflect.MakeMap(v.Type())
				for it := v.MapRange(); it.Next(); {
					g.m.SetMapIndex(it.Key(), it.Value())
				}
			}
			globals = append(globals, g)
		}
		return
	}
	for _, g := range globals {
		g.v.Set(g.init)
		if g.m.IsValid() && g.v.Len() != g.m.Len() {
			g.v.Clear()
			for it := g.m.MapRange(); it.Next(); {
				g.v.SetMapIndex(it.Key(), it.Value())
			}
		}
	}
}
