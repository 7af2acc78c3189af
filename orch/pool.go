package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// worker is one simulator process.
type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errb   *tailBuf
	bin    string
	lines  chan string
	runs   int
	recbuf string
}

// tailBuf keeps the first part of what a process writes.
type tailBuf struct {
	b bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func startWorker(bin string) (*worker, error) {
	w := &worker{bin: bin, errb: &tailBuf{}}
	w.cmd = exec.Command(bin)
	w.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GODEBUG=", "GOGC=off", "GORACE=halt_on_error=1 exitcode=66")
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in, w.cmd.Stderr = in, w.errb
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	w.lines = make(chan string, 64)
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			s, err := r.ReadString('\n')
			if err != nil {
				close(w.lines)
				return
			}
			w.lines <- s
		}
	}()
	return w, nil
}

func (w *worker) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	done := make(chan struct{})
	go func() {
		for range w.lines {
		}
		w.cmd.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
}

func (w *worker) kill() {
	w.cmd.Process.Kill()
	for range w.lines {
	}
	w.cmd.Wait()
}

type outcome struct {
	Run     uint64           `json:"run"`
	Class   string           `json:"class,omitempty"`
	Detail  string           `json:"detail,omitempty"`
	Trouble string           `json:"trouble,omitempty"`
	End     int              `json:"end"`
	Steps   uint64           `json:"steps"`
	SimNs   int64            `json:"sim_ns"`
	Hash    string           `json:"hash"`
	LogHash string           `json:"log_hash"`
	Log     []string         `json:"log,omitempty"`
	Stats   map[string]int64 `json:"stats,omitempty"`
	Plan    json.RawMessage  `json:"plan,omitempty"`
	Dec     []int64          `json:"dec,omitempty"`
	Sites   []int64          `json:"sites,omitempty"`
	NDec    uint64           `json:"ndec"`
	NonDef  uint64           `json:"nondef"`
	Crash   string           `json:"crash,omitempty"` // stack of a crashed run
}

type agg struct {
	Runs    int              `json:"runs"`
	SimUs   int64            `json:"sim_us"`
	Steps   uint64           `json:"steps"`
	NDec    uint64           `json:"ndec"`
	NonDef  uint64           `json:"nondef"`
	Stats   map[string]int64 `json:"stats"`
	Worlds  map[string]int64 `json:"worlds"`
	Hashes  []string         `json:"hashes"`
	Trivial int              `json:"trivial"`
	Pairs   []uint64         `json:"pairs"`
	Cov     []uint64         `json:"cov"`
	Next    uint64           `json:"next"`
}

// batchResult is what came of a batch command.
type batchResult struct {
	agg     *agg
	bad     *outcome // violation or trouble, with its run number
	samples []*outcome
	hashes  []string
	dead    bool
}

const watchdog = 180 * time.Second

// do sends a command and collects the answers.
func (w *worker) do(cmd map[string]any) *batchResult {
	b, _ := json.Marshal(cmd)
	res := &batchResult{}
	last := uint64(0)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		res.dead = true
		res.bad = w.crash(last)
		return res
	}
	t := time.NewTimer(watchdog)
	defer t.Stop()
	began := time.Now()
	slow, _ := time.ParseDuration(os.Getenv("VERIF_SLOW")) // what to call slow, to find such runs
	for {
		select {
		case <-t.C:
			w.kill()
			res.dead = true
			res.bad = &outcome{Run: last, Trouble: "watchdog: the simulator made no progress"}
			return res
		case l, ok := <-w.lines:
			if !ok {
				res.dead = true
				res.bad = w.crash(last)
				return res
			}
			if !t.Stop() {
				select {
				case <-t.C:
				default:
				}
			}
			t.Reset(watchdog)
			switch l[0] {
			case 'S':
				if now := time.Now(); slow > 0 && now.Sub(began) > slow {
					fmt.Fprintf(os.Stderr, "run %d took %.1f s\n", last, now.Sub(began).Seconds())
				}
				began = time.Now()
				fmt.Sscanf(l, "S %d", &last)
			case 'H':
				res.hashes = append(res.hashes, strings.TrimSpace(l[2:]))
			case 'P':
				var o outcome
				if json.Unmarshal([]byte(l[2:]), &o) == nil {
					res.samples = append(res.samples, &o)
				}
			case 'R':
				var o outcome
				if err := json.Unmarshal([]byte(l[2:]), &o); err != nil {
					o.Trouble = "bad worker output: " + err.Error()
				}
				res.bad = &o
				if cmd["plan"] == nil {
					// the worker exits after a failed run of a batch
					for range w.lines {
					}
					w.cmd.Wait()
					res.dead = true
				}
				return res
			case 'A':
				var a agg
				if err := json.Unmarshal([]byte(l[2:]), &a); err != nil {
					res.bad = &outcome{Trouble: "bad worker output: " + err.Error()}
					return res
				}
				res.agg = &a
				return res
			}
		}
	}
}

var reFrame = regexp.MustCompile(`github\.com/tg123/phabrik/([^\s]+?)\(`)

// crash reads what a dead process left behind.
func (w *worker) crash(run uint64) *outcome {
	err := w.cmd.Wait()
	s := w.errb.b.String()
	o := &outcome{Run: run, Crash: s}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	return classifyCrash(o, s, code)
}

func repoFrames(stack string) (top string, all int) {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		if i := strings.Index(l, "github.com/tg123/phabrik/"); i == 0 {
			all++
			if top == "" {
				top = l[len("github.com/tg123/phabrik/"):]
				if j := strings.LastIndexByte(top, '('); j > 0 {
					top = top[:j]
				}
			}
		}
	}
	return
}

// raceSides names the repository's topmost function of either access in a race report.
func raceSides(s string) (string, string) {
	var sides []string
	for _, block := range strings.Split(s, "\n\n") {
		if !strings.Contains(block, " by ") || strings.Contains(block, " created at:") {
			continue
		}
		top := ""
		for _, l := range strings.Split(block, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/tg123/phabrik/") && top == "" {
				top = l[len("github.com/tg123/phabrik/"):]
				if j := strings.LastIndexByte(top, '('); j > 0 {
					top = top[:j]
				}
			}
		}
		sides = append(sides, top)
	}
	for len(sides) < 2 {
		sides = append(sides, "")
	}
	sort.Strings(sides[:2])
	return sides[0], sides[1]
}

func classifyCrash(o *outcome, s string, code int) *outcome {
	first := s
	if i := strings.Index(s, "\ngoroutine "); i >= 0 {
		// the first goroutine's block
		rest := s[i+1:]
		if j := strings.Index(rest, "\n\n"); j >= 0 {
			rest = rest[:j]
		}
		first = s[:i] + "\n" + rest
	}
	top, n := repoFrames(first)
	head := ""
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "SIM-HUGE") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			head = l
			break
		}
	}
	switch {
	case code == 97:
		top, n = repoFrames(s)
		if n == 0 {
			o.Trouble = "huge allocation outside the system under test: " + tail(s, 1500)
			return o
		}
		o.Class, o.Detail = "allocation", head+" in "+top
	case strings.Contains(s, "WARNING: DATA RACE"):
		a, b := raceSides(s)
		if a == "" && b == "" {
			o.Class, o.Detail = "race-elsewhere", tail(s, 1500)
			return o
		}
		o.Class, o.Detail = "data-race", a+" / "+b
	case head != "" && strings.Contains(s, "stack overflow"):
		top, n = repoFrames(s)
		if n == 0 {
			o.Trouble = "stack overflow in the harness: " + tail(s, 1500)
			return o
		}
		o.Class, o.Detail = "panic", "stack overflow in "+top
	case head != "" && n > 0:
		o.Class, o.Detail = "panic", head+" in "+top
	case strings.HasPrefix(head, "panic:") && strings.Contains(first, "\nmain.("):
		// the user's part of the simulation trips over what it was given
		o.Class, o.Detail = "panic", head+" in a user of the system"
	default:
		o.Trouble = fmt.Sprintf("the simulator died (exit %d): %s", code, tail(s, 3000))
	}
	return o
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// pool runs single plans in worker processes.
type pool struct {
	bin  string
	dir  string
	free chan *worker
	Runs atomic.Int64
}

func newPool(bin, dir string, n int) *pool {
	p := &pool{bin: bin, dir: dir, free: make(chan *worker, n)}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

func (p *pool) close() {
	for i := 0; i < cap(p.free); i++ {
		w := <-p.free
		if w != nil {
			w.stop()
		}
	}
}

type planRun struct {
	plan   *planT
	dec    []int64
	replay bool
	record bool
	log    bool
	fresh  bool
	before map[string]any // batch to run first in the same process
}

func (p *pool) run(r planRun) *outcome {
	w := <-p.free
	defer func() { p.free <- w }()
	p.Runs.Add(1)
	if w != nil && (r.fresh || r.record || w.runs > 60) {
		w.stop()
		w = nil
	}
	if w == nil {
		var err error
		if w, err = startWorker(p.bin); err != nil {
			w = nil
			return &outcome{Trouble: err.Error()}
		}
	}
	w.runs++
	if r.before != nil {
		if res := w.do(r.before); res.dead {
			w = nil
			return &outcome{Trouble: "the runs before do not repeat"}
		}
	}
	cmd := map[string]any{"plan": r.plan, "replay": r.replay, "record": r.record, "log": r.log}
	if r.replay {
		if r.dec == nil {
			r.dec = []int64{}
		}
		cmd["dec"] = r.dec
	}
	var rf string
	if r.record {
		f, err := os.CreateTemp(p.dir, "rec")
		if err != nil {
			return &outcome{Trouble: err.Error()}
		}
		f.Close()
		rf = f.Name()
		defer os.Remove(rf)
		cmd["recfile"] = rf
	}
	res := w.do(cmd)
	if res.dead {
		w = nil
		if r.record && res.bad.Class != "" {
			res.bad.Dec, res.bad.Sites = readRec(rf)
		}
	}
	return res.bad
}

// readRec reads the decisions of a run that crashed.
func readRec(f string) (dec, sites []int64) {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 20 {
		return
	}
	n := int(binary.LittleEndian.Uint32(b[4:]))
	for i := 1; i <= n && (i+1)*20 <= len(b); i++ {
		e := b[i*20:]
		u := func(j int) int64 { return int64(binary.LittleEndian.Uint32(e[4*j:])) }
		dec = append(dec, u(0), u(1), u(2))
		if u(0) == 0 || u(0) == 2 {
			sites = append(sites, u(3), u(4))
		} else {
			sites = append(sites, 0, 0)
		}
	}
	return
}

var _ = filepath.Join
