package main

import (
	"time"

	"github.com/tg123/phabrik/transport"
)

// link is a connection of the system under test with the reference peer at its
// other end.
type link struct {
	h       *H
	server  bool // the system is the server
	conn    transport.Conn
	cli     *transport.Client
	srv     *transport.Server
	lis     *simListener
	raw     *simConn // the system's end of the network
	peer    *RawPeer
	wait    *Task // receive loop (client only)
	waitErr error
	serve   *Task
	err     error
	up      *Task
}

// start begins to connect; prep may set up the peer before it starts to read.
func (l *link) start(cb transport.MessageCallback, prep func(p *RawPeer)) {
	h := l.h
	sc, cc := confs(h.Plan)
	recv := func(c transport.Conn, m *transport.ByteArrayMessage) {
		if m.Headers.Action == "hello" {
			l.conn = c
			return
		}
		if cb != nil {
			cb(c, m)
		}
	}
	if l.server {
		if l.srv == nil {
			l.lis = h.Net.Listen(srvAddr)
			l.srv, _ = transport.Listen(l.lis, transport.ServerConfig{Config: sc, MessageCallback: recv})
			l.serve = h.Go("serve", func() { l.srv.Serve() })
		}
		l.up = h.Go("raw", func() {
			c, err := h.Net.Dial("10.0.0.1", srvAddr)
			if err != nil {
				l.err = err
				return
			}
			rc := c.(*simConn)
			p := NewRaw(h, "rawcli", rc, frameCfgOf(sc))
			l.peer, l.raw = p, rc.peer()
			if prep != nil {
				prep(p)
			}
			if cc.TLS != nil {
				if l.err = p.Handshake(cc.TLS, false); l.err != nil {
					rc.Close()
					return
				}
			}
			p.Start()
			l.err = p.Send(&RMsg{Actor: 5, Action: "hello"})
		})
		return
	}
	a, b := h.Net.Pipe("10.0.0.1:1", srvAddr)
	l.raw = a
	l.peer = NewRaw(h, "rawsrv", b, frameCfgOf(cc))
	if prep != nil {
		prep(l.peer)
	}
	h.Go("raw", func() {
		if sc.TLS != nil {
			if err := l.peer.Handshake(sc.TLS, true); err != nil {
				b.Close()
				return
			}
		}
		l.peer.Start()
	})
	l.up = h.Go("connect", func() {
		c, err := transport.Connect(a, transport.ClientConfig{Config: cc, MessageCallback: recv})
		if err != nil {
			l.err = err
			return
		}
		l.cli = c
		l.wait = h.Go("wait", func() { l.waitErr = c.Wait() })
		l.conn = c
	})
}

// ready waits until the connection is up; false if a fault came first.
func (l *link) ready() bool {
	h := l.h
	if !h.Await(l.up, long) || l.err != nil {
		if broken(h) {
			return false
		}
		h.Fail("connect", "connecting failed without any fault: %v", l.err)
	}
	if !h.Until(long, func() bool { return l.conn != nil || broken(h) }) {
		h.Fail("connect", "the connection is not established")
	}
	return l.conn != nil
}

// down is the time since when the system can notice that the connection is
// gone, or -1.
func (l *link) down() time.Duration {
	t := time.Duration(-1)
	add := func(x time.Duration) {
		if t < 0 || x < t {
			t = x
		}
	}
	if l.raw.pair.rstAt >= 0 {
		add(time.Duration(l.raw.pair.rstAt))
	}
	if l.raw.closed {
		add(l.raw.ClosedAt)
	}
	if l.raw.rd.fin && !l.raw.rd.hole {
		add(time.Duration(l.raw.rd.finAt))
	}
	return t
}

// netMax bounds the time between a write and the arrival of its bytes, provided
// buffers do not fill up.
func (h *H) netMax() time.Duration {
	m := int64(0)
	for _, x := range h.Net.prof.lat {
		m = max(m, x)
	}
	for _, f := range h.Plan.Faults {
		if f.Kind == "stall" {
			m += f.Arg
		}
	}
	return time.Duration(m)
}

// wide makes the buffers so large that writes never block.
func wide(g *Gen) { g.set("net.buf", 1<<20) }

// us is a duration of n microseconds.
func us(n int64) time.Duration { return time.Duration(n) * time.Microsecond }

// tlsClose is how long closing a TLS connection may take (its alert has a 5 s write deadline).
func (h *H) tlsClose() time.Duration {
	if h.Plan.p("tls") != 0 {
		return 6 * time.Second
	}
	return 0
}
