package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"syscall"
	"time"
)

// The simulated network: reliable byte streams like TCP - segmented, delayed,
// back-pressured - plus the faults of the plan.  Everything runs on the
// simulator's cooperative scheduler, so no locks are needed.  SimNetEnter and
// SimNetExit tell the race detector, where there is one, that using the network
// orders nothing (rt/zrace.go).

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type notify struct{ ch chan struct{} }

// wait blocks until wake or until the simulated time (0: for ever).
func (n *notify) wait(until int64) {
	if n.ch == nil {
		n.ch = make(chan struct{})
	}
	ch := n.ch
	if until == 0 {
		<-ch
		return
	}
	d := until - runtime.SimNow()
	if d <= 0 {
		runtime.Gosched()
		return
	}
	t := time.NewTimer(time.Duration(d))
	select {
	case <-ch:
	case <-t.C:
	}
	t.Stop()
}

func (n *notify) wake() {
	if n.ch != nil {
		close(n.ch)
		n.ch = nil
	}
}

type netProfile struct {
	lat    []int64 // ns
	latP   uint32  // chance of a latency other than the first
	segP   uint32  // chance that a write is cut
	shortP uint32  // chance of a short read
	buf    int     // bytes in flight before a writer blocks
}

type Net struct {
	h         *H
	prof      netProfile
	listeners map[string]*simListener
	all       []*simListener
	conns     []*connPair
	faults    []Fault
	port      int
	blocked   map[[2]string]bool // partitions between hosts
	stats     map[string]int64
	dialHook  func(from, addr string) error // refusal or delay decided by the world
	lastRST   int64
}

var latProfiles = [][]int64{
	{0},
	{0, 1e3, 20e3, 500e3},
	{50e3, 0, 1e6, 5e6},
	{1e6, 0, 20e6, 100e6, 400e6},
	{0, 10e6, 1e9},
}

func genNet(g *Gen) {
	g.set("net.lat", int64(g.IntN(len(latProfiles))))
	g.set("net.latp", g.pick(0, 6000, 20000, 50000))
	g.set("net.segp", g.pick(0, 2000, 20000, 60000))
	g.set("net.shortp", g.pick(0, 2000, 20000, 60000))
	g.set("net.buf", g.pick(1<<20, 1<<20, 1<<20, 65536, 8192, 4096, 1200))
}

func newNet(h *H) *Net {
	p := h.Plan
	n := &Net{h: h, listeners: map[string]*simListener{}, port: 40000, blocked: map[[2]string]bool{}, stats: map[string]int64{}}
	n.prof = netProfile{lat: latProfiles[p.p("net.lat")], latP: uint32(p.p("net.latp")), segP: uint32(p.p("net.segp")), shortP: uint32(p.p("net.shortp")), buf: int(p.p("net.buf"))}
	if n.prof.buf == 0 {
		n.prof.buf = 1 << 20
	}
	n.faults = append(n.faults, p.Faults...)
	return n
}

type seg struct {
	data []byte
	at   int64
}

// half is one direction of a connection.
type half struct {
	net      *Net
	pair     *connPair
	dir      int
	q        []seg
	inflight int
	sent     int64 // bytes accepted from the writer
	got      int64 // bytes handed to the reader
	lastAt   int64
	fin      bool // writer has closed: EOF after the data
	finAt    int64
	hole     bool // everything from now on is lost silently
	readers  notify
	writers  notify
	token    bool // a Write call is in progress
	tokenN   notify
	tap      []byte // everything the writer handed in, up to a cap
	faults   []Fault
	hit      []string // faults that have happened
	logReads bool
	reads    []readAt // when the reader took which bytes
}

type readAt struct {
	end int64
	at  time.Duration
	seq int64
}

// readTime is when the byte before offset end was taken, or -1.
func (h *half) readTime(end int64) (time.Duration, int64) {
	i := sort.Search(len(h.reads), func(i int) bool { return h.reads[i].end >= end })
	if i == len(h.reads) {
		return -1, -1
	}
	return h.reads[i].at, h.reads[i].seq
}

type connPair struct {
	id     int
	a, b   *simConn // dialler, acceptor
	rstAt  int64    // -1: none
	at     int64    // when it came up
	rstErr error
}

type simConn struct {
	net      *Net
	pair     *connPair
	local    string
	remote   string
	rd, wr   *half
	closed   bool
	accepted bool
	ClosedAt time.Duration
	rdl, wdl int64 // deadlines, absolute simulated ns; 0 none
	epipe    bool
	server   bool
	werr     error
}

func host(a string) string {
	h, _, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	return h
}

func (n *Net) pairKey(a, b string) [2]string {
	a, b = host(a), host(b)
	if a > b {
		a, b = b, a
	}
	return [2]string{a, b}
}

// Partition blocks or heals the path between two hosts.
func (n *Net) Partition(a, b string, on bool) {
	n.blocked[n.pairKey(a, b)] = on
	if on {
		n.stats["fault.partition"]++
		return
	}
	for _, p := range n.conns {
		p.a.rd.readers.wake()
		p.b.rd.readers.wake()
	}
}

func (n *Net) isBlocked(a, b string) bool { return n.blocked[n.pairKey(a, b)] }

// newPair makes a connected pair; local is the dialler's address.
func (n *Net) newPair(local, remote string) *connPair {
	p := &connPair{id: len(n.conns), rstAt: -1, at: runtime.SimNow()}
	ab := &half{net: n, pair: p, dir: 0}
	ba := &half{net: n, pair: p, dir: 1}
	p.a = &simConn{net: n, pair: p, local: local, remote: remote, rd: ba, wr: ab}
	p.b = &simConn{net: n, pair: p, local: remote, remote: local, rd: ab, wr: ba, server: true}
	for _, f := range n.faults {
		if f.Conn == p.id && f.Dir < 2 {
			hf := ab
			if f.Dir == 1 {
				hf = ba
			}
			hf.faults = append(hf.faults, f)
		}
	}
	n.conns = append(n.conns, p)
	return p
}

// Pipe returns a connected pair without a listener.
func (n *Net) Pipe(a, b string) (*simConn, *simConn) {
	p := n.newPair(a, b)
	return p.a, p.b
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (n *Net) Dial(from, addr string) (net.Conn, error) {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	n.port++
	local := net.JoinHostPort(host(from), strconv.Itoa(n.port))
	if n.dialHook != nil {
		if err := n.dialHook(from, addr); err != nil {
			n.stats["fault.dialfail"]++
			return nil, opErr("dial", err)
		}
	}
	for t := 0; n.isBlocked(local, addr); t++ {
		if t > 210 {
			n.stats["fault.dialtimeout"]++
			return nil, opErr("dial", syscall.ETIMEDOUT)
		}
		time.Sleep(100 * time.Millisecond)
	}
	if d := n.latency(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	l := n.listeners[addr]
	if l == nil || l.closed {
		n.stats["dialrefused"]++
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	p := n.newPair(local, addr)
	l.queue = append(l.queue, p.b)
	l.n.wake()
	return p.a, nil
}

func (n *Net) latency() int64 {
	if len(n.prof.lat) > 1 && runtime.SimChance(kLat, n.prof.latP) {
		return n.prof.lat[1+runtime.SimDecide(kLat, uint32(len(n.prof.lat)-1))]
	}
	return n.prof.lat[0]
}

// --- listeners ---

type simListener struct {
	net    *Net
	addr   string
	id     int
	queue  []net.Conn
	closed bool
	n      notify
	calls  int64
	errs   int64
}

func (n *Net) Listen(addr string) *simListener {
	l := &simListener{net: n, addr: addr, id: len(n.all)}
	n.all = append(n.all, l)
	n.listeners[addr] = l
	return l
}

type tempErr struct{ temp bool }

func (e tempErr) Error() string   { return "simulated accept error" }
func (e tempErr) Timeout() bool   { return false }
func (e tempErr) Temporary() bool { return e.temp }

func (l *simListener) Accept() (net.Conn, error) {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	if l.closed {
		return nil, opErr("accept", net.ErrClosed)
	}
	l.calls++
	for _, f := range l.net.faults {
		if f.Conn == l.id && f.Dir == 2 && f.Off <= l.calls && l.calls <= f.Off+f.Arg {
			l.errs++
			switch f.Kind {
			case "accepttemp":
				l.net.stats["fault.accepttemp"]++
				return nil, opErr("accept", os.NewSyscallError("accept4", syscall.EMFILE))
			case "acceptabort":
				l.net.stats["fault.acceptabort"]++
				return nil, opErr("accept", os.NewSyscallError("accept4", syscall.ENFILE))
			case "acceptperm":
				l.net.stats["fault.acceptperm"]++
				return nil, opErr("accept", os.NewSyscallError("accept4", syscall.EBADF))
			}
		}
	}
	for {
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.(*simConn).accepted = true
			return c, nil
		}
		l.n.wait(0)
	}
}

func (l *simListener) Close() error {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	if l.net.listeners[l.addr] == l {
		delete(l.net.listeners, l.addr)
	}
	// connections nobody accepted are reset
	for _, c := range l.queue {
		c.(*simConn).reset()
	}
	l.queue = nil
	l.n.wake()
	return nil
}

func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

// --- connections ---

func (c *simConn) LocalAddr() net.Addr  { return simAddr(c.local) }
func (c *simConn) RemoteAddr() net.Addr { return simAddr(c.remote) }

var errTimeout error = os.ErrDeadlineExceeded

func minT(a, b int64) int64 {
	if a == 0 || (b != 0 && b < a) {
		return b
	}
	return a
}

func (c *simConn) Read(p []byte) (int, error) {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	h := c.rd
	if len(p) == 0 {
		return 0, nil
	}
	for {
		now := runtime.SimNow()
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if c.pair.rstAt >= 0 && now >= c.pair.rstAt {
			return 0, opErr("read", syscall.ECONNRESET)
		}
		if c.rdl != 0 && now >= c.rdl {
			return 0, opErr("read", errTimeout)
		}
		until := c.rdl
		if c.pair.rstAt >= 0 {
			until = minT(until, c.pair.rstAt)
		}
		if !h.net.isBlocked(c.local, c.remote) {
			avail := 0
			for _, s := range h.q {
				if s.at > now {
					break
				}
				avail += len(s.data)
			}
			if avail > 0 {
				n := min(avail, len(p))
				if n > 1 && runtime.SimChance(kShort, h.net.prof.shortP) {
					n = 1 + int(runtime.SimDecide(kShort, uint32(n)))
					if n > avail {
						n = avail
					}
					h.net.stats["fault.shortread"]++
				}
				k := 0
				for k < n {
					s := &h.q[0]
					m := copy(p[k:n], s.data)
					k += m
					s.data = s.data[m:]
					if len(s.data) == 0 {
						h.q = h.q[1:]
					}
				}
				h.inflight -= n
				h.got += int64(n)
				if h.logReads {
					h.reads = append(h.reads, readAt{h.got, time.Duration(now), h.net.h.Seq()})
				}
				h.writers.wake()
				return n, nil
			}
			if len(h.q) > 0 {
				until = minT(until, h.q[0].at)
			} else if h.fin {
				if now >= h.finAt {
					return 0, io.EOF
				}
				until = minT(until, h.finAt)
			}
		}
		h.readers.wait(until)
	}
}

const tapCap = 8 << 20

func (c *simConn) Write(p []byte) (n int, err error) {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	h := c.wr
	for h.token {
		if c.closed {
			return 0, opErr("write", net.ErrClosed)
		}
		h.tokenN.wait(0)
	}
	h.token = true
	defer func() {
		h.token = false
		h.tokenN.wake()
	}()
	h.net.stats["writes"]++
	for {
		now := runtime.SimNow()
		if c.closed {
			return n, opErr("write", net.ErrClosed)
		}
		if c.werr != nil {
			return n, opErr("write", c.werr)
		}
		if c.pair.rstAt >= 0 && now >= c.pair.rstAt || c.epipe {
			return n, opErr("write", syscall.EPIPE)
		}
		if c.wdl != 0 && now >= c.wdl {
			return n, opErr("write", errTimeout)
		}
		if n == len(p) {
			return n, nil
		}
		if c.peer().closed {
			// the first write after the peer closed is accepted and answered by a reset
			c.epipe = true
			if c.pair.rstAt < 0 {
				c.pair.rstAt = now + c.net.latency()
				c.wakeAll()
			}
			return len(p), nil
		}
		if h.fin {
			return n, opErr("write", syscall.EPIPE)
		}
		room := h.net.prof.buf - h.inflight
		if h.hole && room <= 0 {
			h.net.stats["holefull"]++
		}
		if room <= 0 {
			h.writers.wait(c.wdl)
			continue
		}
		k := min(room, len(p)-n)
		if k > 1 && runtime.SimChance(kSeg, h.net.prof.segP) {
			m := k - 1
			if m > 65536 {
				m = 65536
			}
			switch runtime.SimDecide(kSeg, 3) {
			case 0:
				k = 1 + int(runtime.SimDecide(kSeg, uint32(m)))
			case 1:
				k = 1
			case 2:
				k = 1 + int(runtime.SimDecide(kSeg, uint32(min(m, 24))))
			}
			h.net.stats["fault.split"]++
		}
		// faults placed in the next k bytes
		var flt *Fault
		for i := range h.faults {
			f := &h.faults[i]
			if f.Off >= h.sent && f.Off < h.sent+int64(k) && f.Kind != "flip" && f.Kind != "done" {
				if flt == nil || f.Off < flt.Off {
					flt = f
				}
			}
		}
		if flt != nil {
			k = int(flt.Off - h.sent)
		}
		if k > 0 {
			c.push(p[n : n+k])
			n += k
		}
		if flt != nil {
			kind, arg := flt.Kind, flt.Arg
			flt.Kind = "done"
			h.hit = append(h.hit, kind)
			h.net.stats["fault."+kind]++
			h.net.h.Log("fault %s conn %d dir %d at %d", kind, c.pair.id, h.dir, h.sent)
			switch kind {
			case "rst":
				c.pair.rstAt = runtime.SimNow()
				c.wakeAll()
			case "fin": // the writer's side dies; the other end sees an orderly end
				h.fin, h.finAt = true, h.lastAt
				c.werr = syscall.ECONNRESET
				h.readers.wake()
			case "werr":
				c.werr = syscall.Errno(syscall.ENOBUFS)
				if arg == 1 {
					c.werr = syscall.ETIMEDOUT
				}
			case "hole":
				h.hole = true
			case "stall":
				h.lastAt = max(h.lastAt, runtime.SimNow()) + arg
			}
		}
	}
}

func (c *simConn) peer() *simConn {
	if c.server {
		return c.pair.a
	}
	return c.pair.b
}

func (c *simConn) wakeAll() {
	for _, x := range []*simConn{c.pair.a, c.pair.b} {
		x.rd.readers.wake()
		x.wr.writers.wake()
		x.wr.tokenN.wake()
	}
}

func (c *simConn) push(p []byte) {
	h := c.wr
	d := append([]byte(nil), p...)
	if len(h.tap) < tapCap {
		h.tap = append(h.tap, d...)
	}
	for i := range h.faults {
		f := &h.faults[i]
		if f.Kind == "flip" && f.Off >= h.sent && f.Off < h.sent+int64(len(d)) {
			m := byte(f.Arg)
			if m == 0 {
				m = 1
			}
			d[f.Off-h.sent] ^= m
			f.Kind = "done"
			h.hit = append(h.hit, "flip")
			h.net.stats["fault.flip"]++
			h.net.h.Log("fault flip conn %d dir %d at %d", c.pair.id, h.dir, f.Off)
		}
	}
	h.sent += int64(len(d))
	h.net.stats["bytes"] += int64(len(d))
	if h.hole {
		h.inflight += len(d)
		return
	}
	at := runtime.SimNow() + h.net.latency()
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	h.q = append(h.q, seg{d, at})
	h.inflight += len(d)
	h.readers.wake()
}

// reset breaks the connection for both sides.
func (c *simConn) reset() {
	if c.pair.rstAt < 0 {
		c.pair.rstAt = runtime.SimNow()
	}
	c.wakeAll()
}

// Reset is reset as a fault of the workload.
func (c *simConn) Reset() {
	c.net.stats["fault.rst"]++
	c.reset()
}

// CloseWrite ends the outgoing direction only.
func (c *simConn) CloseWrite() {
	c.wr.fin, c.wr.finAt = true, max(c.wr.lastAt, runtime.SimNow())
	c.wr.readers.wake()
}

func (c *simConn) Close() error {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = c.net.h.Now()
	if !c.wr.hole {
		c.wr.fin, c.wr.finAt = true, max(c.wr.lastAt, runtime.SimNow())
	}
	c.rd.q, c.rd.inflight = nil, 0
	c.wakeAll()
	return nil
}

func (c *simConn) deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	// time.Until uses the simulated monotonic clock
	d := runtime.SimNow() + int64(time.Until(t))
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = c.deadline(t)
	c.rd.readers.wake()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	runtime.SimNetEnter()
	defer runtime.SimNetExit()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = c.deadline(t)
	c.wr.writers.wake()
	return nil
}

// Sent returns the bytes written by this end, as handed to the network.
func (c *simConn) Sent() []byte { return c.wr.tap }

// Dead reports whether this end can no longer carry data.
func (c *simConn) Dead() bool {
	return c.closed || c.pair.rstAt >= 0 && runtime.SimNow() >= c.pair.rstAt
}

var errRefused = syscall.ECONNREFUSED

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func init() {
	net.SimDial = func(network, addr string) (net.Conn, error) {
		if curH == nil {
			return nil, errors.New("no simulation")
		}
		return curH.Net.Dial("10.9.9.9", addr)
	}
	net.SimListen = func(network, addr string) (net.Listener, error) {
		if curH == nil {
			return nil, errors.New("no simulation")
		}
		n := curH.Net
		if _, port, _ := net.SplitHostPort(addr); port == "0" {
			n.port++
			addr = fmt.Sprintf("%s:%d", host(addr), n.port)
		}
		if l := n.listeners[addr]; l != nil {
			return nil, opErr("listen", syscall.EADDRINUSE)
		}
		return n.Listen(addr), nil
	}
}
