package main

import (
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"strconv"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/lease"
)

// The wire format of the lease layer, written down independently of the system.
const (
	ltMessage = 1
	ltConnect = 2

	lmLeaseRequest  = 0
	lmPingRequest   = 2
	lmPingResponse  = 3
	lmRelayResponse = 7

	lmHeader = 200
)

type lmsg struct {
	id, inst, remote int64
	typ              int32
	duration         int32 // ms
	expiration       int64 // ms
	suspend, arb     int32
	twoWay           bool
	lists            [9][]byte // raw contents
	host             string
	port             uint16
	raw              []byte
}

func (m *lmsg) endpoint() string { return net.JoinHostPort(m.host, strconv.Itoa(int(m.port))) }

func ltFrame(typ byte, body []byte) []byte {
	b := make([]byte, 12, 12+len(body))
	b[0] = typ
	binary.LittleEndian.PutUint32(b[4:], uint32(12+len(body)))
	return append(b, body...)
}

// encode writes the message; tail bytes follow the endpoint, as newer versions may add.
func (m *lmsg) encode(tail int) []byte {
	le := binary.LittleEndian
	b := make([]byte, lmHeader)
	b[0], b[1] = 2, 1
	le.PutUint32(b[4:], lmHeader)
	le.PutUint64(b[16:], uint64(m.id))
	le.PutUint32(b[24:], uint32(m.typ))
	le.PutUint64(b[32:], uint64(m.inst))
	le.PutUint64(b[40:], uint64(m.remote))
	le.PutUint32(b[48:], uint32(m.duration))
	le.PutUint64(b[56:], uint64(m.expiration))
	le.PutUint32(b[64:], uint32(m.suspend))
	le.PutUint32(b[68:], uint32(m.arb))
	if m.twoWay {
		b[72] = 1
	}
	desc := func(i int, count, off, size uint32) {
		le.PutUint32(b[76+12*i:], count)
		le.PutUint32(b[80+12*i:], off)
		le.PutUint32(b[84+12*i:], size)
	}
	for i := range m.lists {
		l := m.lists[i]
		if l == nil {
			l = []byte{4, 0, 0, 0, 0, 0, 0, 0} // size, no entries
		}
		off := uint32(len(b))
		b = append(b, l...)
		desc(i, 0, off, uint32(len(l)))
	}
	off := uint32(len(b))
	for _, u := range append(utf16.Encode([]rune(m.host)), 0) {
		b = le.AppendUint16(b, u)
	}
	b = le.AppendUint16(b, 2) // AF_INET
	b = le.AppendUint16(b, m.port)
	desc(9, 0, off, uint32(len(b))-off)
	b = append(b, make([]byte, tail)...)
	le.PutUint32(b[8:], uint32(len(b)))
	return b
}

func decodeLease(b []byte) (*lmsg, error) {
	le := binary.LittleEndian
	if len(b) < lmHeader {
		return nil, fmt.Errorf("lease message of %d bytes", len(b))
	}
	if b[0] != 2 || b[1] != 1 {
		return nil, fmt.Errorf("lease message version %d.%d", b[0], b[1])
	}
	if n := le.Uint32(b[4:]); n != lmHeader {
		return nil, fmt.Errorf("lease message header size %d", n)
	}
	if n := le.Uint32(b[8:]); int(n) != len(b) {
		return nil, fmt.Errorf("lease message size %d, has %d bytes", n, len(b))
	}
	m := &lmsg{id: int64(le.Uint64(b[16:])), typ: int32(le.Uint32(b[24:])), inst: int64(le.Uint64(b[32:])), remote: int64(le.Uint64(b[40:])),
		duration: int32(le.Uint32(b[48:])), expiration: int64(le.Uint64(b[56:])), suspend: int32(le.Uint32(b[64:])), arb: int32(le.Uint32(b[68:])), twoWay: b[72] != 0, raw: b}
	at := func(i int) ([]byte, error) {
		off, size := int64(le.Uint32(b[80+12*i:])), int64(le.Uint32(b[84+12*i:]))
		if off < lmHeader || off+size > int64(len(b)) {
			return nil, fmt.Errorf("list %d at %d, size %d, of a message of %d bytes", i, off, size, len(b))
		}
		return b[off : off+size], nil
	}
	for i := 0; i < 9; i++ {
		l, err := at(i)
		if err != nil {
			return nil, err
		}
		m.lists[i] = l
	}
	e, err := at(9)
	if err != nil {
		return nil, err
	}
	if len(e) < 6 || len(e)%2 != 0 {
		return nil, fmt.Errorf("endpoint of %d bytes", len(e))
	}
	var u []uint16
	for i := 0; i+4 < len(e); i += 2 {
		u = append(u, le.Uint16(e[i:]))
	}
	if u[len(u)-1] != 0 {
		return nil, fmt.Errorf("endpoint address does not end in 0")
	}
	m.host = string(utf16.Decode(u[:len(u)-1]))
	if f := le.Uint16(e[len(e)-4:]); f != 2 {
		return nil, fmt.Errorf("address family %d", f)
	}
	m.port = le.Uint16(e[len(e)-2:])
	return m, nil
}

// leaseTLS is one configuration for both roles, as the agent has only one.
func leaseTLS(mode int64) *tls.Config {
	if mode == 0 {
		return nil
	}
	s, c := tlsPair(mode, false)
	s.RootCAs, s.ServerName = c.RootCAs, c.ServerName
	return s
}

// lreq is a ping request a reference agent has received.
type lreq struct {
	at   time.Duration
	m    *lmsg
	conn *simConn
}

// lresp is a lease message sent to the system.
type lresp struct {
	ep   string
	typ  int32
	sent time.Duration // write begins
	in   *lin
	end  int64 // raw offset of its last byte; -1 while being written
	inst int64
	// the instance of the system's agent it names
	remote int64
}

// took is when the system took the last byte of the message, or -1.
func (r *lresp) took() (time.Duration, int64) {
	if r.end < 0 {
		return -1, -1
	}
	return r.in.raw.wr.readTime(r.end)
}

// lin is a reference agent's connection to the system's listener.
type lin struct {
	h    *H
	raw  *simConn
	c    net.Conn
	wr   *mutex
	up   bool // the connect frame has arrived
	got  int  // bytes received
	from time.Duration
	err  error
	done bool
}

// lworld is an agent of the system with reference agents around it.
type lworld struct {
	h     *H
	agent *lease.Agent
	conf  lease.AgentConfig
	addr  string
	lis   *simListener
	wait  *Task
	werr  error
	peers map[string]*lpeer
	resps []*lresp
	lins  []*lin
	all   []*lreq
	ids   map[int64]bool
	insts map[int64]*simConn
	calls []*lping
	t0    time.Time
	hosts string // host the agent dials from
	bad   string
	dials int
	// how dials go and when the last one to an address was over
	dialing map[string]lbad
	dialed  map[string]time.Duration
}

// lbad is what happens to a dial.
type lbad struct {
	slow   time.Duration
	refuse bool
}

// lpeer is a reference agent.
type lpeer struct {
	w      *lworld
	addr   string
	host   string
	port   uint16
	inst   int64
	lis    *simListener
	noRead bool
	begun  int // pings begun at it
	reqs   []*lreq
	ins    []*lin
	onReq  func(r *lreq)
	conns  []*simConn
}

// lping is one call of Ping.
type lping struct {
	p       *lpeer
	start   time.Duration
	startT  time.Time
	limit   time.Duration // when its context ends, or -1
	written int64         // the request has arrived for sure, a sequence number, or -1
	end     time.Duration
	err     error
	task    *Task
	s       *lsess
	quick   bool
}

// lsess is a session of the system.
type lsess struct {
	p       *lpeer
	s       lease.Session
	from    time.Duration // current from here
	to      time.Duration // replaced or closed, or -1
	fromMax time.Duration // current for sure from here
	closing time.Duration // close began, or -1
}

func newLworld(h *H, viaTCP bool) *lworld {
	w := &lworld{h: h, addr: "10.0.0.1:1025", peers: map[string]*lpeer{}, ids: map[int64]bool{}, insts: map[int64]*simConn{}, t0: time.Now(), hosts: "10.0.0.1", dialing: map[string]lbad{}, dialed: map[string]time.Duration{}}
	h.Net.dialHook = func(from, to string) error {
		if from != w.hosts && host(from) != w.hosts {
			return nil
		}
		d := w.dialing[to]
		if d.slow > 0 {
			h.Sleep(d.slow)
		}
		if d.refuse {
			return errors.New("refused")
		}
		w.dialed[to] = h.Now()
		return nil
	}
	w.conf = lease.AgentConfig{TLS: leaseTLS(h.Plan.p("tls")), AppId: "sim"}
	w.conf.SetDefault()
	var err error
	if viaTCP {
		w.hosts = "10.9.9.9"
		w.agent, err = lease.NewTcpListeningAgent(w.conf, w.addr)
		w.lis = h.Net.listeners[w.addr]
	} else {
		w.lis = h.Net.Listen(w.addr)
		w.agent, err = lease.NewAgent(w.conf, w.lis, func(addr string) (net.Conn, error) { w.dials++; return h.Net.Dial(w.hosts, addr) })
	}
	if err != nil {
		h.Fail("setup", "making an agent: %v", err)
	}
	if a := w.agent.Addr().String(); a != w.addr {
		h.Fail("setup", "the agent listens at %s", a)
	}
	return w
}

func (w *lworld) serve() { w.wait = w.h.Go("agent", func() { w.werr = w.agent.Wait() }) }

func (w *lworld) fail(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

func (w *lworld) peer(addr string) *lpeer {
	if p := w.peers[addr]; p != nil {
		return p
	}
	hs, ps, _ := net.SplitHostPort(addr)
	port, _ := strconv.Atoi(ps)
	p := &lpeer{w: w, addr: addr, host: hs, port: uint16(port), inst: int64(1000 + len(w.peers)), lis: w.h.Net.Listen(addr)}
	w.peers[addr] = p
	go func() {
		for {
			c, err := p.lis.Accept()
			if err != nil {
				return
			}
			p.conns = append(p.conns, c.(*simConn))
			go p.read(c.(*simConn))
		}
	}()
	return p
}

// read takes what a session of the system sends and checks it.
func (p *lpeer) read(raw *simConn) {
	w := p.w
	var c net.Conn = raw
	for p.noRead {
		time.Sleep(100 * time.Millisecond)
	}
	if w.conf.TLS != nil {
		t := tls.Server(raw, w.conf.TLS)
		if t.Handshake() != nil {
			raw.Close()
			return
		}
		c = t
	}
	if w.h.Chance(3, 4) {
		c.Write(ltFrame(ltConnect, nil))
	}
	var in []byte
	b := make([]byte, 4096)
	var inst int64
	for {
		for p.noRead {
			time.Sleep(100 * time.Millisecond)
		}
		n, err := c.Read(b)
		in = append(in, b[:n]...)
		for len(in) >= 12 {
			size := int(binary.LittleEndian.Uint32(in[4:]))
			if in[0] != ltMessage && in[0] != ltConnect || size < 12 || size > 4096 {
				w.fail("a session sends a broken frame: type %d, size %d", in[0], size)
				raw.Close()
				return
			}
			if len(in) < size {
				break
			}
			f := in[:size]
			in = in[size:]
			if f[0] == ltConnect {
				continue
			}
			m, err := decodeLease(append([]byte(nil), f[12:]...))
			if err != nil {
				w.fail("a session sends a broken message: %v", err)
				continue
			}
			if m.typ != lmPingRequest {
				w.fail("a session sends a message of type %d", m.typ)
				continue
			}
			if m.endpoint() != w.addr {
				w.fail("a ping request names the endpoint %s instead of %s", m.endpoint(), w.addr)
			}
			if m.expiration != w.conf.LeaseDuration.Milliseconds() {
				w.fail("a ping request's expiration is %d ms", m.expiration)
			}
			if w.ids[m.id] && w.h.Plan.Prop == "C18" {
				w.h.Fail("identifier", "message identifier %d is used twice", m.id)
			}
			w.ids[m.id] = true
			if inst == 0 {
				inst = m.inst
				if x := w.insts[inst]; x != nil && x != raw && w.h.Plan.Prop == "C18" {
					w.h.Fail("instance", "two sessions have the instance %d", inst)
				}
				w.insts[inst] = raw
			} else if inst != m.inst {
				w.fail("a session's instance changes from %d to %d", inst, m.inst)
			}
			known := m.remote == 0 || m.remote == p.inst || w.h.Plan.Prop == "C19"
			for _, r := range w.resps {
				known = known || r.typ == lmPingResponse && r.ep == p.addr && r.remote == m.remote
			}
			if !known {
				w.fail("a ping request to %s names the remote instance %d, which no ping response from there did", p.addr, m.remote)
			}
			r := &lreq{at: w.h.Now(), m: m, conn: raw}
			p.reqs = append(p.reqs, r)
			w.all = append(w.all, r)
			if len(p.reqs) == p.begun {
				for _, c := range w.calls {
					if c.p == p && c.end < 0 && c.written < 0 {
						c.written = w.h.Seq()
					}
				}
			}
			if p.onReq != nil {
				p.onReq(r)
			}
		}
		if err != nil {
			if len(in) > 0 && eofLike(err) && !broken(w.h) && raw.pair.rstAt < 0 {
				w.h.Count("cut frame", 1)
			}
			raw.Close()
			return
		}
	}
}

// connect opens one more connection to the agent, as the peer's own sessions do.
func (w *lworld) connect(from string) *lin {
	c, err := w.h.Net.Dial(from, w.addr)
	if err != nil {
		return nil
	}
	x := &lin{h: w.h, raw: c.(*simConn), c: c, wr: newMutex(), from: w.h.Now()}
	w.lins = append(w.lins, x)
	x.raw.wr.logReads = true
	x.wr.lock()
	go func() {
		if w.conf.TLS != nil {
			t := tls.Client(c, w.conf.TLS)
			if x.err = t.Handshake(); x.err != nil {
				x.raw.Close()
				x.done = true
				x.wr.unlock()
				return
			}
			x.c = t
		}
		x.wr.unlock()
		b := make([]byte, 64)
		var in []byte
		for {
			n, err := x.c.Read(b)
			in = append(in, b[:n]...)
			x.got += n
			if !x.up && len(in) >= 12 {
				if in[0] != ltConnect || binary.LittleEndian.Uint32(in[4:]) != 12 {
					w.fail("the agent's first frame is %x", in[:12])
				}
				x.up = true
			}
			if err != nil {
				x.err = err
				x.done = true
				return
			}
		}
	}()
	return x
}

// send writes bytes to the agent; resp describes the message they are.
func (x *lin) send(b []byte, resp *lresp) error {
	x.wr.lock()
	defer x.wr.unlock()
	if x.done {
		return net.ErrClosed
	}
	if resp != nil {
		resp.sent = x.h.Now()
	}
	n := x.raw.wr.sent
	_, err := x.c.Write(b)
	if resp != nil && err == nil && x.raw.wr.sent != n {
		resp.end = x.raw.wr.sent
	}
	return err
}

// message sends a lease message that names the endpoint of p.
func (w *lworld) message(x *lin, typ int32, p *lpeer, host string, port uint16, tail int) *lresp {
	m := &lmsg{id: int64(len(w.resps) + 1), typ: typ, inst: p.inst, remote: int64(5000 + len(w.resps)), host: host, port: port, duration: 30000}
	r := &lresp{ep: m.endpoint(), typ: typ, in: x, end: -1, inst: p.inst, remote: m.remote}
	w.resps = append(w.resps, r)
	x.send(ltFrame(ltMessage, m.encode(tail)), r)
	return r
}

// answer sends a ping response over one of the peer's connections.
func (p *lpeer) answer(k int) {
	if len(p.ins) == 0 {
		x := p.w.connect(p.host)
		if x == nil {
			return
		}
		p.ins = append(p.ins, x)
	}
	p.w.message(p.ins[k%len(p.ins)], lmPingResponse, p, p.host, p.port, p.w.h.Rand(3))
}
