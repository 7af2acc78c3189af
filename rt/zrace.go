// Seam for simulating with the race detector (worker built with -race).
//
// Only the repository's packages are instrumented.  Runtime functions report
// accesses on behalf of their callers, so those calls are filtered by caller:
// what the harness does is not reported.  The harness passes the repository's
// objects between its goroutines without locks (they are scheduled
// cooperatively), so it publishes a happens-before edge at every statement
// (SimRaceSync); only the simulated network publishes none, because a real one
// would not.

//go:build race

package runtime

import "unsafe"

var (
	simRaceLo, simRaceHi [64]uintptr
	simRaceN             int
	simRaceObj           [64]byte
	simRaceEnd           [64]byte
)

const simRacePkg = "github.com/tg123/phabrik"

// simRaceInit finds the text ranges of the repository's packages.
func simRaceInit() {
	if simRaceN != 0 {
		return
	}
	for md := &firstmoduledata; md != nil; md = md.next {
		in := false
		for i := 0; i < len(md.ftab)-1; i++ {
			pc := md.textAddr(md.ftab[i].entryoff)
			f := funcInfo{(*_func)(unsafe.Pointer(&md.pclntable[md.ftab[i].funcoff])), md}
			name := funcname(f)
			ours := len(name) > len(simRacePkg) && name[:len(simRacePkg)] == simRacePkg
			if ours && !in {
				if simRaceN == len(simRaceLo) {
					throw("sim: too many text ranges")
				}
				simRaceLo[simRaceN] = pc
				simRaceN++
			}
			if !ours && in {
				simRaceHi[simRaceN-1] = pc
			}
			in = ours
		}
		if in {
			simRaceHi[simRaceN-1] = md.etext
		}
	}
	if simRaceN == 0 {
		throw("sim: no text of the repository found")
	}
}

// simRaceSkip reports whether an access on behalf of code at pc is none of the repository's.
//
//go:nosplit
func simRaceSkip(pc uintptr) bool {
	for i := 0; i < simRaceN; i++ {
		if pc >= simRaceLo[i] && pc < simRaceHi[i] {
			return false
		}
	}
	return true
}

//go:nosplit
func racereadpc(addr unsafe.Pointer, callpc, pc uintptr) {
	if !simRaceSkip(callpc) {
		simracereadpc(addr, callpc, pc)
	}
}

//go:nosplit
func racewritepc(addr unsafe.Pointer, callpc, pc uintptr) {
	if !simRaceSkip(callpc) {
		simracewritepc(addr, callpc, pc)
	}
}

// What the goroutines of a run did happens before the next run of the process:
// finished ones publish it as they end, the rest when the run is over.
func simRaceExit() {
	if getg().bubble != nil {
		racecall(&__tsan_release_merge, getg().racectx, uintptr(unsafe.Pointer(&simRaceEnd)), 0, 0)
	}
}

func simRaceOver(b *synctestBubble) {
	forEachG(func(gp *g) {
		if gp.bubble == b && readgstatus(gp)&^_Gscan != _Gdead && gp.racectx != 0 {
			racereleasemergeg(gp, unsafe.Pointer(&simRaceEnd))
		}
	})
	raceacquire(unsafe.Pointer(&simRaceEnd))
}

// SimRaceSync orders everything the harness did before with what the calling
// harness goroutine does next.
func SimRaceSync() {
	if getg().raceignore == 0 {
		RaceAcquire(unsafe.Pointer(&simRaceObj))
		RaceReleaseMerge(unsafe.Pointer(&simRaceObj))
	}
}

// SimNetEnter and SimNetExit bracket the simulated network, which creates no
// happens-before edges between those who use it.
func SimNetEnter() { RaceDisable() }
func SimNetExit()  { RaceEnable() }
