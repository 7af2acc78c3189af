// Simulation seam added to package runtime through "go build -overlay".
//
// While a simulation is on (SimRun), the goroutines of one synctest bubble are
// scheduled exclusively by the code in this file: every runnable goroutine of
// the bubble is kept in simst.q, and which one runs next - and whether the
// running one is preempted or stalled at an instrumented statement - is a
// numbered decision.  A decision comes either from a seeded PRNG (search) or
// from a table (replay).  Nothing here reads a real clock or the OS's
// randomness.
package runtime

import (
	"internal/runtime/atomic"
	"internal/runtime/sys"
	"unsafe"
)

const (
	simMaxQ   = 1 << 13
	simGTab   = 1 << 13
	simKinds  = 32
	simNPairs = 1 << 16
)

// Decision kinds owned by the runtime; kinds >= SimKindUser belong to the harness.
const (
	SimKindYield  = 0
	SimKindPick   = 1
	SimKindStall  = 2
	SimKindSelect = 3
	SimKindTimer  = 4
	SimKindUser   = 8
)

// Why a run ended.
const (
	SimEndFinished  = 1
	SimEndDeadlock  = 2
	SimEndStepLimit = 3
	SimEndTimeLimit = 4
	SimEndSpin      = 5 // many steps without the simulated clock moving
)

// SimDecision is one recorded non-default decision.
type SimDecision struct {
	Kind uint32
	K    uint32
	V    uint32
	Site uint32 // of a yield or stall, for traces
	G    uint32 // goroutine taking it
}

type SimConfig struct {
	Seed       uint64    // decisions
	Noise      uint64    // everything else that is random: map iteration, crypto, ids
	Mode       int       // 0: all defaults, 1: random, 2: priorities (PCT)
	YieldP     [8]uint32 // per site class, out of 65536
	PickP      uint32    // probability that a pick is random rather than FIFO (mode 1)
	StallP     [8]uint32 // per site class, out of 1<<20
	Stalls     int       // maximum number of stalls in the run
	StallDur   []int64
	Changes    []uint64 // PCT: step numbers at which the running goroutine's priority drops
	MaxSteps   uint64
	MaxSpin    uint64 // steps without simulated time passing
	MaxTime    int64  // simulated ns since start
	Record     bool
	RecBuf     []SimDecision // where to record; entry 0 holds the count
	Replay     bool
	Table      [simKinds][]SimDecision
	AllocCap   uintptr // largest single allocation
	AllocTotal uintptr // sum of the large (>32 KB) allocations
}

type SimResult struct {
	End        int
	Steps      uint64
	Switches   uint64
	Stalls     uint64
	StallNs    int64
	SimNs      int64
	Hash       uint64
	Decisions  uint64
	NonDefault uint64
	Left       int // goroutines left in the bubble
	Overflow   bool
	Site       uint32 // where a spinning run was stopped
	Rec        []SimDecision
}

var simst struct {
	on         bool
	done       bool
	end        int
	bubble     *synctestBubble
	root       *g
	q          [simMaxQ]guintptr
	n          int
	sysq       [simMaxQ]guintptr
	nsys       int
	forced     guintptr
	steps      uint64
	switches   uint64
	stallN     uint64
	stallNs    int64
	stallsLeft int
	hash       uint64
	ndec       uint64
	nondef     uint64
	cnt        [simKinds]uint32
	pos        [simKinds]int
	rng        [simKinds]uint64
	noise      uint64
	mapNoise   uint64
	goid0      uint64
	prio       [simGTab]uint64
	site       [simGTab]uint32
	change     int
	low        uint64
	wallOff    int64
	cfg        SimConfig
	rec        []SimDecision
	nrec       int
	over       bool
	pairs      [simNPairs / 64]uint64
	cov        [512]uint64 // statements reached
	start      int64
	mark       uint64 // steps when the clock last moved
	bigSum     uintptr
	spinSite   uint32
	curSite    uint32
	curG       uint32
}

func simMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func simNext(p *uint64) uint64 {
	*p += 0x9e3779b97f4a7c15
	x := *p
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// simActive reports whether the calling goroutine belongs to the simulated bubble.
//
//go:nosplit
func simActive() bool {
	if !simst.on {
		return false
	}
	gp := getg()
	if gp == gp.m.g0 {
		gp = gp.m.curg
		// timers of the bubble run on the root's system stack with curg cleared
		if gp == nil {
			return true
		}
	}
	return gp.bubble != nil && gp.bubble == simst.bubble
}

// simRand is the noise stream for runtime.rand inside the bubble.
//
//go:nosplit
func simRand() uint64 { return simNext(&simst.noise) }

// simMapRand seeds maps and map iteration inside the bubble.  It has its own
// stream so that map use does not shift other randomness.
//
//go:nosplit
func simMapRand() uint64 { return simNext(&simst.mapNoise) }

// simSelectOrder and simTimerOrder decide the order in which ready select cases
// and simultaneous timers win.
func simSelectOrder(n uint32) uint32 {
	want := uint32(0)
	if simst.cfg.Mode != 0 && n > 1 {
		want = uint32(simRnd(SimKindSelect) % uint64(n))
	}
	if n <= 1 {
		return 0
	}
	return simChoose(SimKindSelect, n, want)
}

func simTimerOrder() uint32 {
	want := uint32(0)
	if simst.cfg.Mode != 0 {
		want = uint32(simRnd(SimKindTimer) & 3)
	}
	return simChoose(SimKindTimer, 4, want)
}

func simChoose(kind uint32, n uint32, want uint32) uint32 {
	s := &simst
	k := s.cnt[kind]
	s.cnt[kind] = k + 1
	v := want
	if s.cfg.Replay {
		v = 0
		t := s.cfg.Table[kind]
		p := s.pos[kind]
		for p < len(t) && t[p].K < k {
			p++
		}
		if p < len(t) && t[p].K == k {
			v = t[p].V
			p++
		}
		s.pos[kind] = p
	}
	if v >= n {
		v = n - 1
	}
	s.ndec++
	if v != 0 {
		s.nondef++
		if s.cfg.Record {
			if s.nrec < len(s.rec) {
				s.rec[s.nrec] = SimDecision{kind, k, v, s.curSite, s.curG}
				s.nrec++
				s.rec[0].K = uint32(s.nrec) - 1
			} else {
				s.over = true
			}
		}
	}
	s.hash = (s.hash ^ (uint64(kind)<<56 | uint64(k)<<24 | uint64(v))) * 0x100000001b3
	s.hash ^= s.hash >> 29
	return v
}

// simRnd draws the policy's wish for a decision of this kind.
func simRnd(kind uint32) uint64 { return simNext(&simst.rng[kind]) }

// SimDecide is a harness-level decision: uniform in [0,n); 0 is the default in replay.
func SimDecide(kind uint32, n uint32) uint32 {
	if !simst.on || n <= 1 {
		return 0
	}
	want := uint32(0)
	if simst.cfg.Mode != 0 {
		want = uint32(simRnd(kind) % uint64(n))
	}
	return simChoose(kind, n, want)
}

// SimChance is a harness-level coin: true with probability p/65536.
func SimChance(kind uint32, p uint32) bool {
	if !simst.on {
		return false
	}
	want := uint32(0)
	if simst.cfg.Mode != 0 && uint32(simRnd(kind)&0xffff) < p {
		want = 1
	}
	return simChoose(kind, 2, want) == 1
}

func simGidx(gp *g) uint64 { return (gp.goid - simst.goid0) & (simGTab - 1) }

func simPrio(gp *g) uint64 {
	i := simGidx(gp)
	p := simst.prio[i]
	if p == 0 {
		p = simNext(&simst.rng[SimKindYield])>>1 | 1<<40
		simst.prio[i] = p
	}
	return p
}

// simDrain moves every runnable goroutine into the simulator's queues.
// Runs on the system stack.
func simDrain(pp *p) {
	s := &simst
	for {
		gp, _ := runqget(pp)
		if gp == nil {
			break
		}
		simEnq(gp)
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for {
			gp := globrunqget()
			if gp == nil {
				break
			}
			simEnq(gp)
		}
		unlock(&sched.lock)
	}
	_ = s
}

func simEnq(gp *g) {
	s := &simst
	if gp.bubble == s.bubble {
		if s.n == simMaxQ {
			throw("sim: run queue overflow")
		}
		s.q[s.n].set(gp)
		s.n++
		return
	}
	if gp.bubble != nil {
		return // goroutine left over from an earlier run: never runs again
	}
	if s.nsys == simMaxQ {
		throw("sim: system queue overflow")
	}
	s.sysq[s.nsys].set(gp)
	s.nsys++
}

func simTake(i int) *g {
	s := &simst
	gp := s.q[i].ptr()
	for j := i; j+1 < s.n; j++ {
		s.q[j] = s.q[j+1]
	}
	s.n--
	s.q[s.n] = 0
	return gp
}

// simPick is called by the scheduler, on g0, in place of its own queues.
func simPick(pp *p) *g {
	s := &simst
	simDrain(pp)
	if s.nsys > 0 {
		gp := s.sysq[0].ptr()
		for j := 0; j+1 < s.nsys; j++ {
			s.sysq[j] = s.sysq[j+1]
		}
		s.nsys--
		return gp
	}
	if s.done {
		for i := 0; i < s.n; i++ {
			if s.q[i].ptr() == s.root {
				gp := simTake(i)
				return gp
			}
		}
		return nil
	}
	if s.n == 0 {
		return nil
	}
	// The root goroutine only advances the clock; it is runnable only when nothing else is.
	for i := 0; i < s.n; i++ {
		if s.q[i].ptr() == s.root {
			return simTake(i)
		}
	}
	if s.forced != 0 {
		f := s.forced.ptr()
		s.forced = 0
		for i := 0; i < s.n; i++ {
			if s.q[i].ptr() == f {
				s.switches++
				return simTake(i)
			}
		}
	}
	s.steps++
	i := uint32(0)
	if s.n > 1 {
		want := uint32(0)
		switch s.cfg.Mode {
		case 1:
			if uint32(simRnd(SimKindPick)&0xffff) < s.cfg.PickP {
				want = uint32(simRnd(SimKindPick) % uint64(s.n))
			}
		case 2:
			best := uint64(0)
			for j := 0; j < s.n; j++ {
				if p := simPrio(s.q[j].ptr()); p > best {
					best, want = p, uint32(j)
				}
			}
		}
		i = simChoose(SimKindPick, uint32(s.n), want)
	}
	return simTake(int(i))
}

func simStop(reason int) {
	s := &simst
	if s.done {
		return
	}
	s.done = true
	s.end = reason
	lock(&s.bubble.mu)
	s.bubble.active++
	unlock(&s.bubble.mu)
	goready(s.root, 1)
}

// SimYield is the instrumentation point inserted before every statement of the
// system under test.
func SimYield(site uint32) {
	s := &simst
	if !s.on {
		return
	}
	gp := getg()
	if gp.bubble != s.bubble || gp == s.root || s.bubble == nil {
		return
	}
	s.steps++
	if s.cfg.MaxSpin != 0 && s.steps-s.mark > s.cfg.MaxSpin && !s.done {
		s.spinSite = site
		simStop(SimEndSpin)
	}
	if s.cfg.MaxSteps != 0 && s.steps > s.cfg.MaxSteps && !s.done {
		s.spinSite = site
		simStop(SimEndStepLimit)
	}
	if s.done {
		Gosched()
		return
	}
	idx := simGidx(gp)
	s.site[idx] = site
	s.curSite, s.curG = site, uint32(idx)
	s.cov[site>>24&7<<6|site>>6&63] |= 1 << (site & 63)
	cls := site >> 24 & 7
	if s.stallsLeft > 0 {
		want := uint32(0)
		nd := uint32(len(s.cfg.StallDur))
		if p := s.cfg.StallP[cls]; s.cfg.Mode != 0 && p != 0 && uint32(simRnd(SimKindStall)&(1<<20-1)) < p {
			want = 1 + uint32(simRnd(SimKindStall)%uint64(nd))
		}
		if v := simChoose(SimKindStall, nd+1, want); v != 0 {
			s.stallsLeft--
			s.stallN++
			d := s.cfg.StallDur[v-1]
			s.stallNs += d
			timeSleep(d)
			return
		}
	}
	mp := acquirem()
	pp := mp.p.ptr()
	systemstack(func() { simDrain(pp) })
	releasem(mp)
	if s.n == 0 {
		return
	}
	want := uint32(0)
	switch s.cfg.Mode {
	case 1:
		if p := s.cfg.YieldP[cls]; p != 0 && uint32(simRnd(SimKindYield)&0xffff) < p {
			want = 1 + uint32(simRnd(SimKindYield)%uint64(s.n))
		}
	case 2:
		if s.change < len(s.cfg.Changes) && s.steps >= s.cfg.Changes[s.change] {
			s.change++
			s.low--
			s.prio[idx] = s.low
		}
		best := simPrio(gp)
		for j := 0; j < s.n; j++ {
			if p := simPrio(s.q[j].ptr()); p > best {
				best, want = p, uint32(j+1)
			}
		}
	}
	v := simChoose(SimKindYield, uint32(s.n)+1, want)
	if v == 0 {
		return
	}
	other := s.q[v-1].ptr()
	pr := simMix(uint64(site)<<32|uint64(s.site[simGidx(other)])) & (simNPairs - 1)
	s.pairs[pr/64] |= 1 << (pr % 64)
	s.forced.set(other)
	Gosched()
}

// SimYields returns the step counter.
func SimSteps() uint64 { return simst.steps }

// SimOn reports whether the calling goroutine is simulated.
func SimOn() bool { return simActive() }

// SimGoroutines is the number of live goroutines in the bubble, without the clock's.
func SimGoroutines() int {
	if simst.bubble == nil {
		return 0
	}
	return simst.bubble.total - 1
}

// SimBubbleID identifies the bubble in stack dumps.
func SimBubbleID() uint64 { return simst.bubble.id }

// SimNow is the simulated monotonic clock in ns since the start of the run.
func SimNow() int64 {
	if simst.bubble == nil {
		return 0
	}
	return simst.bubble.now - simst.start
}

// SimWallStep moves the simulated wall clock, not the monotonic one.
func SimWallStep(d int64) { simst.wallOff += d }

// SimStalled returns the total injected stall time so far.
func SimStalled() int64 { return simst.stallNs }

// SimPairs returns the bitmap of (preempted site, resumed site) pairs seen in this process.
func SimPairs(dst []uint64) { copy(dst, simst.pairs[:]) }

// SimCov returns the bitmap of the yield points reached in this process, 4096 for each class.
func SimCov(dst []uint64) { copy(dst, simst.cov[:]) }

// SimGoid is the number of the calling goroutine, for logs.
func SimGoid() uint64 { return getg().goid - simst.goid0 }

// SimFinish ends the run; the function given to SimRun must call it last (it
// cannot be wrapped here, since goroutines started in package runtime count as
// system goroutines).
func SimFinish() {
	simStop(SimEndFinished)
}

// SimRun runs f as the main goroutine of a fresh bubble under the simulator's
// scheduler and returns when f returns, whatever other goroutines still exist.
func SimRun(cfg *SimConfig, f func()) SimResult {
	gp := getg()
	if gp.bubble != nil || simst.on {
		panic("SimRun: nested")
	}
	debug.asyncpreemptoff = 1
	simRaceInit()
	s := &simst
	bubble := &synctestBubble{
		id:      bubbleGen.Add(1),
		total:   1,
		running: 1,
		root:    gp,
	}
	const base = 946684800000000000 // midnight UTC 2000-01-01
	bubble.now = base
	lockInit(&bubble.mu, lockRankSynctest)
	lockInit(&bubble.timers.mu, lockRankTimers)

	s.cfg = *cfg
	s.done, s.end = false, 0
	s.n, s.nsys, s.forced = 0, 0, 0
	s.steps, s.switches, s.stallN, s.stallNs = 0, 0, 0, 0
	s.stallsLeft = cfg.Stalls
	s.hash, s.ndec, s.nondef = 0xcbf29ce484222325, 0, 0
	s.cnt = [simKinds]uint32{}
	s.pos = [simKinds]int{}
	for i := range s.rng {
		s.rng[i] = simMix(cfg.Seed ^ uint64(i)*0x632be59bd9b4e019)
	}
	s.noise = simMix(cfg.Noise ^ 0xa5a5a5a5)
	s.mapNoise = simMix(cfg.Noise ^ 0x5a5a5a5a5a)
	clear(s.prio[:])
	clear(s.site[:])
	s.change, s.low = 0, 1<<40
	s.mark, s.bigSum, s.spinSite = 0, 0, 0
	s.wallOff = 0
	s.nrec, s.over = 0, false
	if cfg.Record {
		if cfg.RecBuf != nil {
			s.rec = cfg.RecBuf
		} else if s.rec == nil {
			s.rec = make([]SimDecision, 1<<21)
		}
		s.nrec = 1
		s.rec[0] = SimDecision{}
	}
	s.root = gp
	s.bubble = bubble
	s.start = base

	gp.bubble = bubble
	pc := sys.GetCallerPC()
	systemstack(func() {
		fv := *(**funcval)(unsafe.Pointer(&f))
		bubble.main = newproc1(fv, gp, pc, false, waitReasonZero)
		s.goid0 = bubble.main.goid
		pp := getg().m.p.ptr()
		runqput(pp, bubble.main, true)
	})
	s.on = true

	lock(&bubble.mu)
	bubble.active++
	for {
		unlock(&bubble.mu)
		systemstack(func() {
			curg := gp.m.curg
			gp.m.curg = nil
			gp.bubble.timers.check(bubble.now, bubble)
			gp.m.curg = curg
		})
		gopark(synctestidle_c, nil, waitReasonSynctestRun, traceBlockSynctest, 0)
		lock(&bubble.mu)
		if bubble.active < 0 {
			throw("active < 0")
		}
		if s.done {
			break
		}
		next := bubble.timers.wakeTime()
		if next == 0 {
			s.done, s.end = true, SimEndDeadlock
			break
		}
		if next < bubble.now {
			throw("time went backwards")
		}
		if s.cfg.MaxTime != 0 && next-base > s.cfg.MaxTime {
			s.done, s.end = true, SimEndTimeLimit
			break
		}
		bubble.now = next
		s.mark = s.steps
	}
	left := bubble.total - 1
	unlock(&bubble.mu)
	s.on = false
	// Runnable leftovers are dropped; system goroutines go back to the scheduler.
	systemstack(func() {
		pp := getg().m.p.ptr()
		simDrain(pp)
		for i := 0; i < s.nsys; i++ {
			runqput(pp, s.sysq[i].ptr(), false)
		}
		s.nsys, s.n = 0, 0
	})
	gp.bubble = nil
	simRaceOver(bubble)
	if gp.timer != nil && gp.timer.isFake {
		throw("sim: root has a fake timer")
	}
	res := SimResult{End: s.end, Steps: s.steps, Switches: s.switches, Stalls: s.stallN, StallNs: s.stallNs,
		SimNs: bubble.now - base, Hash: s.hash, Decisions: s.ndec, NonDefault: s.nondef, Left: left, Overflow: s.over, Site: s.spinSite}
	if cfg.Record {
		res.Rec = append([]SimDecision(nil), s.rec[1:s.nrec]...)
	}
	return res
}

// simBigAlloc is called for large allocations.
func simBigAlloc(size uintptr) {
	if simst.cfg.AllocCap == 0 {
		return
	}
	gp := getg().m.curg
	if gp == nil || gp.bubble != simst.bubble {
		return
	}
	simst.bigSum += size
	if size <= simst.cfg.AllocCap && (simst.cfg.AllocTotal == 0 || simst.bigSum <= simst.cfg.AllocTotal) {
		return
	}
	simst.on = false
	printlock()
	print("SIM-HUGE-ALLOCATION ", size, " bytes in one allocation, ", simst.bigSum, " bytes in large allocations\n")
	printunlock()
	pc, sp := sys.GetCallerPC(), sys.GetCallerSP()
	systemstack(func() {
		traceback(pc, sp, 0, gp)
		exit(97)
	})
}

func simNow(b *synctestBubble) (sec int64, nsec int32, mono int64) {
	now := b.now
	if b == simst.bubble {
		w := now + simst.wallOff
		return w / 1000000000, int32(w % 1000000000), now
	}
	return now / 1000000000, int32(now % 1000000000), 0
}

var _ atomic.Uint32

var simGlobals []any

// SimGlobal registers package variables of the system under test.
func SimGlobal(p ...any) { simGlobals = append(simGlobals, p...) }

// SimGlobals returns the registered variables.
func SimGlobals() []any { return simGlobals }
