package main

import (
	"bufio"
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// The worker: reads commands (one JSON object per line) from standard input and
// answers on standard output.  "S <i>" announces a run, "R <json>" is its outcome.

type command struct {
	// a batch of generated runs: from, from+stride, ... (n of them)
	Prop     string `json:"prop,omitempty"`
	World    string `json:"world,omitempty"`
	Seed     uint64 `json:"seed"`
	From     uint64 `json:"from"`
	Stride   uint64 `json:"stride,omitempty"`
	N        uint64 `json:"n,omitempty"`
	Thorough bool   `json:"thorough,omitempty"`
	Samples  int    `json:"samples,omitempty"`
	Show     bool   `json:"show,omitempty"` // only print the plan
	// or one plan
	Plan    *Plan   `json:"plan,omitempty"`
	Dec     []int64 `json:"dec,omitempty"`
	Replay  bool    `json:"replay,omitempty"`
	Record  bool    `json:"record,omitempty"`
	Log     bool    `json:"log,omitempty"`
	RecFile string  `json:"recfile,omitempty"`
	Hashes  bool    `json:"hashes,omitempty"`
}

//go:linkname setTestingReader crypto/internal/rand.SetTestingReader
func setTestingReader(r io.Reader)

type cryptoSource struct{ r *rand.ChaCha8 }

func (c *cryptoSource) Read(p []byte) (int, error) { return c.r.Read(p) }

var cryptoRand = &cryptoSource{rand.NewChaCha8([32]byte{1})}

func seedCrypto(seed uint64) {
	var s [32]byte
	for i := range s {
		s[i] = byte(seed >> (8 * (i % 8)))
	}
	s[31] ^= 0x55
	cryptoRand.r = rand.NewChaCha8(s)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(24 << 20)
	log.SetOutput(io.Discard)
	crand.Reader = cryptoRand
	setTestingReader(cryptoRand)
	crandSeed = seedCrypto
	initCerts()

	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) // what the code under test prints
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c command
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, "bad command:", err)
			os.Exit(3)
		}
		if c.Plan != nil {
			fmt.Fprintf(out, "S 0\n")
			out.Flush()
			o := runOpts{record: c.Record, log: c.Log}
			if c.RecFile != "" {
				o.recbuf = mapRec(c.RecFile)
			}
			if c.Replay {
				o.replay = c.Dec
				if o.replay == nil {
					o.replay = []int64{}
				}
			}
			oc := runPlan(c.Plan, o)
			fmt.Fprintf(out, "R %s\n", mustJSON(oc))
			out.Flush()
			gc()
			continue
		}
		agg := newAgg()
		for k := uint64(0); k < c.N; k++ {
			i := c.From + k*c.Stride
			fmt.Fprintf(out, "S %d\n", i)
			out.Flush()
			p := genPlan(c.Prop, c.World, c.Seed, i, c.Thorough)
			if c.Show {
				fmt.Fprintf(out, "P %s\n", mustJSON(&Outcome{Run: i, Plan: p}))
				continue
			}
			oc := runPlan(p, runOpts{})
			oc.Run = i
			agg.add(p, oc)
			if c.Hashes {
				fmt.Fprintf(out, "H %d %s %s %s\n", i, oc.Hash, oc.LogHash, oc.Class)
			}
			if oc.Class != "" || oc.Trouble != "" {
				oc.Plan = p
				fmt.Fprintf(out, "R %s\n", mustJSON(oc))
				out.Flush()
				return
			}
			if k < uint64(c.Samples) {
				oc.Plan = p
				fmt.Fprintf(out, "P %s\n", mustJSON(oc))
			}
			if runtime.NumGoroutine() > 400 {
				// goroutines of finished runs stay parked for ever: recycle the process
				agg.Next = i + c.Stride
				break
			}
			gc()
		}
		fmt.Fprintf(out, "A %s\n", mustJSON(agg))
		out.Flush()
	}
}

var lastGC uint64

func gc() {
	var m runtime.MemStats
	lastGC++
	if lastGC%16 != 0 {
		return
	}
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 200<<20 {
		runtime.GC()
	}
}

// agg sums up the quiet runs of a batch.
type agg struct {
	Runs    int              `json:"runs"`
	SimUs   int64            `json:"sim_us"`
	Steps   uint64           `json:"steps"`
	NDec    uint64           `json:"ndec"`
	NonDef  uint64           `json:"nondef"`
	Stats   map[string]int64 `json:"stats"`
	Worlds  map[string]int64 `json:"worlds"`
	Hashes  []string         `json:"hashes"`
	Trivial int              `json:"trivial"` // runs in which the default schedule ran without any fault
	Pairs   []uint64         `json:"pairs"`
	Cov     []uint64         `json:"cov"`
	Next    uint64           `json:"next"` // where a recycled batch goes on
}

func newAgg() *agg {
	return &agg{Stats: map[string]int64{}, Worlds: map[string]int64{}}
}

func (a *agg) add(p *Plan, o *Outcome) {
	a.Runs++
	a.SimUs += o.SimNs / 1000
	a.Steps += o.Steps
	a.NDec += o.NDec
	a.NonDef += o.NonDef
	a.Worlds[p.World]++
	faults := int64(0)
	for k, v := range o.Stats {
		a.Stats[k] += v
		if len(k) > 6 && (k[:6] == "fault." || len(k) > 10 && k[:10] == "net.fault.") {
			faults += v
		}
	}
	if o.NonDef == 0 && faults == 0 {
		a.Trivial++
	} else {
		a.Hashes = append(a.Hashes, o.Hash+o.LogHash[:8])
	}
	if a.Pairs == nil {
		a.Pairs = make([]uint64, 1024)
		a.Cov = make([]uint64, 512)
	}
	runtime.SimPairs(a.Pairs)
	runtime.SimCov(a.Cov)
}

// mapRec maps the decision record onto a file, so that it survives a crash.
func mapRec(name string) []runtime.SimDecision {
	const n = 1 << 21
	size := n * int(unsafe.Sizeof(runtime.SimDecision{}))
	f, err := os.OpenFile(name, os.O_RDWR, 0)
	if err == nil {
		err = f.Truncate(int64(size))
	}
	var b []byte
	if err == nil {
		b, err = syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "record file:", err)
		os.Exit(3)
	}
	return unsafe.Slice((*runtime.SimDecision)(unsafe.Pointer(&b[0])), n)
}
