package main

import (
	"context"
	"net"
	"strings"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C05", &World{Name: "close", Weight: 5, Gen: gen05, Run: run05})
	register("C05", &World{Name: "attempt", Weight: 3, Gen: gen05att, Run: run05att})
}

func gen05(g *Gen) {
	g.set("server", g.pick(0, 1))
	genConf(g, 1, 4)
	g.set("noread", g.pick(0, 0, 1, 2)) // the peer: reads, never reads, stops reading after a while
	g.set("noreply", g.pick(0, 1))
	m := int64(4)
	if g.Thorough {
		m = 8
	}
	for w := 0; w < 1+g.IntN(4); w++ {
		for i := int64(0); i < g.between(1, m); i++ {
			switch g.IntN(5) {
			case 0, 1:
				g.step("send", g.pick(0, g.delay()), w, g.between(1, 6), g.pick(20, 500, 3000, 20000))
			case 2, 3:
				g.step("req", g.pick(0, g.delay()), w, g.pick(0, 0, g.between(1, 3000000)))
			default:
				g.step("ping", g.pick(0, g.delay()), w, g.pick(0, 0, g.between(1, 3000000)))
			}
		}
	}
	for i := 0; i < g.IntN(5); i++ {
		g.step("cb", g.delay(), 20, g.Int64N(6), g.delay())
	}
	for i := 0; i < g.IntN(3); i++ {
		g.step("beat", g.delay(), 21)
	}
	for i := 0; i < 1+g.IntN(3); i++ {
		g.step([]string{"close", "close", "rst", "peerclose", "peerfin", "closeserver"}[g.IntN(6)], g.pick(g.delay(), g.delay()+g.delay()), 30+i)
	}
	if g.chance(1, 4) {
		g.fault(0, g.IntN(2), []string{"rst", "fin", "werr"}[g.IntN(3)], g.between(0, g.pick(300, 3000, 20000)), g.pick(0, 1))
	}
}

type call struct {
	op         string
	begin, end time.Duration
	done       bool
	err        error
}

func run05(h *H) {
	l := &link{h: h, server: h.Plan.p("server") == 1}
	busy, lastCb := 0, time.Duration(0)
	reading := true
	localClose := time.Duration(-1)
	closeConn := func() {
		t0 := h.Now()
		if localClose < 0 {
			localClose = t0
		}
		l.conn.Close()
		if e := h.Now() - t0; e > h.Slack()+h.tlsClose() {
			h.Fail("late", "Close took %v", e)
		}
	}
	var calls []*call
	track := func(op string, f func() error) *call {
		c := &call{op: op, begin: h.Now()}
		calls = append(calls, c)
		c.err = f()
		c.end, c.done = h.Now(), true
		return c
	}
	l.start(func(c transport.Conn, m *transport.ByteArrayMessage) {
		if m.Headers.Action != "cb" {
			return // a late reply
		}
		busy++
		kind, d := m.Body[0], us(int64(m.Body[1])|int64(m.Body[2])<<8|int64(m.Body[3])<<16)
		switch kind {
		case 0:
			h.Sleep(d)
		case 1:
			c.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5}, Body: make([]byte, 100)})
		case 2:
			h.Sleep(d)
			if localClose < 0 {
				localClose = h.Now()
			}
			c.Close()
		case 3: // a request whose reply cannot be read while this callback runs on a client
			track("request", func() error {
				_, err := c.RequestReply(context.Background(), &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "cbreq"}})
				return err
			})
		case 4:
			track("ping", func() error {
				ctx, cancel := context.WithTimeout(context.Background(), d)
				defer cancel()
				_, err := c.Ping(ctx)
				return err
			})
		}
		busy--
		lastCb = h.Now()
	}, func(p *RawPeer) {
		noreply := h.Plan.p("noreply") == 1
		p.OnMsg = func(m *RMsg) {
			if m.Expects && !noreply {
				go p.Reply(m, []byte("ok"))
			}
		}
		if h.Plan.p("noread") == 2 {
			h.Go("stopread", func() { h.Sleep(time.Millisecond); p.NoRead, reading = true, false })
		}
		if noreply {
			p.OnBeat = func(*RMsg) {}
		}
	})
	if !l.ready() {
		// a fault came during set-up: nothing may be left behind
		run05end(h, l, true)
		return
	}
	if h.Plan.p("noread") == 1 {
		l.peer.NoRead, reading = true, false
	}
	bound := h.Slack() + h.netMax() + h.tlsClose()
	overdue := func(c *call, now time.Duration) {
		state := "is still blocked"
		if c.done {
			state = "ended"
		}
		if localClose >= 0 {
			if now > max(localClose, c.begin)+bound {
				h.Fail("late", "a %s %s %v after Close", c.op, state, now-localClose)
			}
			return
		}
		if h.Plan.p("tls") != 0 && l.raw.pair.rstAt < 0 && !l.raw.closed && !l.peer.raw.closed {
			return // crypto/tls cannot report an error while a write is blocked by a peer that does not read
		}
		if d := l.down(); d >= 0 && (l.server || busy == 0) {
			if !l.server {
				d = max(d, lastCb)
			}
			if now > max(d, c.begin)+2*bound {
				h.Fail("late", "a %s %s %v after the connection went down", c.op, state, now-d)
			}
		}
	}
	do := func(who, i int, s *Step) {
		ctx, cancel := context.Background(), context.CancelFunc(func() {})
		switch s.Op {
		case "close":
			closeConn()
		case "rst":
			l.raw.Reset()
		case "peerclose":
			l.peer.raw.Close()
		case "peerfin":
			l.peer.raw.CloseWrite()
		case "closeserver":
			if l.srv != nil {
				l.srv.Close()
			}
		case "send":
			for k := int64(0); k < s.n(0); k++ {
				track("send", func() error {
					return l.conn.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "s"}, Body: make([]byte, s.n(1))})
				})
			}
		case "req":
			if s.n(0) > 0 {
				ctx, cancel = context.WithTimeout(ctx, us(s.n(0)))
			}
			track("request", func() error {
				_, err := l.conn.RequestReply(ctx, &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "q"}})
				return err
			})
			cancel()
		case "ping":
			if s.n(0) > 0 {
				ctx, cancel = context.WithTimeout(ctx, us(s.n(0)))
			}
			track("ping", func() error { _, err := l.conn.Ping(ctx); return err })
			cancel()
		case "cb":
			d := s.n(1)
			l.peer.Send(&RMsg{Actor: 5, Action: "cb", Body: []byte{byte(s.n(0)), byte(d), byte(d >> 8), byte(d >> 16)}})
		case "beat":
			l.peer.Beat(object(func(e *enc) { e.i64(int64(i)) }))
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	// the workload ends by itself or blocks; check while the events happen, then close
	for k := 0; k < 40; k++ {
		h.Sleep(time.Second)
		for _, c := range calls {
			if !c.done {
				overdue(c, h.Now())
			}
		}
	}
	if localClose < 0 {
		h.Hit("closed at the end")
	} else {
		h.Hit("closed early")
	}
	for k := 0; k < 1+len(h.Plan.Steps)%3; k++ {
		ts = append(ts, h.Go("close", closeConn))
	}
	end := h.Now() + time.Hour
	for h.Now() < end {
		open := false
		for _, c := range calls {
			if !c.done {
				open = true
				overdue(c, h.Now())
			}
		}
		for _, t := range ts {
			open = open || !t.Ended
		}
		if !open {
			break
		}
		h.Sleep(time.Second)
	}
	for _, t := range ts {
		if !t.Ended && !strings.HasPrefix(t.Name, "task2") {
			h.Fail("stuck", "%s does not end after Close", t.Name)
		}
	}
	for _, c := range calls {
		overdue(c, c.end)
		if !c.done {
			h.Fail("stuck", "a %s does not end after Close", c.op)
		}
		if c.op != "send" && c.err == nil && c.begin > localClose+bound {
			h.Fail("alive", "a %s made %v after Close succeeded", c.op, c.begin-localClose)
		}
	}
	if !reading {
		h.Hit("peer did not read")
	}
	// later calls fail, at once
	for _, op := range []string{"request", "ping"} {
		var c *call
		t := h.Go(op, func() {
			c = track(op, func() error {
				var err error
				if op == "ping" {
					_, err = l.conn.Ping(context.Background())
				} else {
					_, err = l.conn.RequestReply(context.Background(), &transport.Message{})
				}
				return err
			})
		})
		if !h.Await(t, bound) {
			h.Fail("late", "a %s after Close does not end", op)
		}
		if c.err == nil {
			h.Fail("alive", "a %s after Close succeeded", op)
		}
	}
	run05end(h, l, false)
}

// run05end checks that nothing of a connection is left.
func run05end(h *H, l *link, failed bool) {
	bound := h.Slack() + h.netMax() + h.tlsClose()
	l.peer.NoRead = false
	if failed && l.conn == nil {
		// a set-up that cannot go on is ended by the peer
		h.Sleep(time.Second)
		l.peer.raw.Close()
		if !h.Await(l.up, long) && l.down() >= 0 {
			h.Fail("stuck", "connecting does not end although the network connection is gone")
		}
		if l.conn != nil {
			h.Go("close", func() { l.conn.Close() })
		}
	}
	if !l.server && l.conn == nil && l.err == nil {
		return // cut off before the network connection carried anything
	}
	if l.raw == nil {
		return
	}
	h.Sleep(2 * bound)
	if !l.raw.closed {
		h.Fail("leak", "the network connection is still open")
	}
	if l.wait != nil && !h.Await(l.wait, time.Hour) {
		h.Fail("stuck", "the receive loop does not end")
	}
	if l.srv != nil {
		l.srv.Close()
		if !h.Await(l.serve, bound) {
			h.Fail("stuck", "Serve does not end after Close")
		}
	}
	h.Sleep(time.Hour)
	if gs := h.repoGoroutines(); len(gs) > 0 {
		h.Fail("leak", "%d goroutines are still running after the connection was closed, one in %s", len(gs), topRepoFrame(gs[0]))
	}
}

// Ways a peer spoils a connection attempt.
const (
	badRefuse = iota
	badClose  // after some bytes
	badReset
	badGarbage
	badPlain
	badCert
	badExpired
	badSilent // then closes
	badFault  // a fault of the network at an offset
	nBad
)

func gen05att(g *Gen) {
	g.set("server", g.pick(0, 1))
	genConf(g, 3, 4)
	for i := int64(0); i < g.between(1, 4); i++ {
		k := g.Int64N(nBad)
		s := g.step("try", g.delay(), int(i), k, g.between(0, g.pick(20, 300, 3000)), g.delay(), g.pick(0, 1))
		if k == badGarbage {
			s.Data = genJunk(g)
		}
		if k == badFault {
			g.fault(int(i), g.IntN(2), []string{"rst", "fin", "werr"}[g.IntN(3)], g.between(0, g.pick(100, 1000, 4000)), g.pick(0, 1))
		}
	}
}

// genJunk draws bytes that are not a message of the protocol.
func genJunk(g *Gen) []byte {
	switch g.IntN(4) {
	case 0:
		return g.bytes(1 + g.IntN(200))
	case 1:
		return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case 2:
		return encodeFrame(g.bytes(g.IntN(40)), g.bytes(g.IntN(40)), frameCfg{headCRC: true, bodyCRC: true, mask: 1})
	}
	m := &RMsg{ID: MsgID{GUID{1}, 1}, Actor: aSecurityContext, Body: g.bytes(1 + g.IntN(300))}
	return m.encode(frameCfg{mask: 1, headCRC: true})
}

// spoil plays the misbehaving peer on an established network connection.
func spoil(h *H, s *Step, c *simConn, server bool) {
	sc, cc := confs(h.Plan)
	p := NewRaw(h, "bad", c, frameCfgOf(sc))
	time.AfterFunc(time.Minute, func() { c.Close() })
	drain := func() {
		b := make([]byte, 4096)
		for {
			if _, err := c.Read(b); err != nil {
				return
			}
		}
	}
	normal := func() {
		if sc.TLS != nil {
			conf := sc.TLS
			if !server {
				conf = cc.TLS
			}
			if err := p.Handshake(conf, server); err != nil {
				c.Close()
				return
			}
		}
		p.Start()
	}
	switch s.n(0) {
	case badClose, badReset:
		// read a while, then go away
		b := make([]byte, 64)
		for n := int64(0); n < s.n(1); {
			k, err := c.Read(b)
			if err != nil {
				break
			}
			n += int64(k)
			if c.rd.inflight == 0 {
				h.Sleep(us(s.n(2)))
				break
			}
		}
		if s.n(0) == badReset {
			c.Reset()
		} else {
			c.Close()
		}
	case badGarbage:
		c.Write(s.Data)
		h.Sleep(us(s.n(2)))
		go drain()
		h.Sleep(10 * time.Second)
		c.Close()
	case badPlain:
		p.SendInit()
		p.Send(&RMsg{Actor: 5, Action: "plain", Body: []byte("plain")})
		go drain()
		h.Sleep(10 * time.Second)
		c.Close()
	case badCert, badExpired:
		if sc.TLS == nil {
			c.Close()
			return
		}
		var err error
		if server {
			conf := sc.TLS.Clone()
			conf.Certificates[0] = certs.rogue
			if s.n(0) == badExpired {
				conf.Certificates[0] = certs.old
			}
			err = p.Handshake(conf, true)
		} else {
			conf := cc.TLS.Clone()
			conf.InsecureSkipVerify = true
			if len(conf.Certificates) > 0 {
				conf.Certificates[0] = certs.rogue
				if s.n(0) == badExpired {
					conf.Certificates[0] = certs.old
				}
			}
			err = p.Handshake(conf, false)
		}
		if err == nil {
			p.Start()
		}
		h.Sleep(10 * time.Second)
		c.Close()
	case badSilent:
		go drain()
		h.Sleep(us(s.n(2)))
		c.Close()
	default:
		normal()
		h.Sleep(10 * time.Second)
		c.Close()
	}
}

func run05att(h *H) {
	server := h.Plan.p("server") == 1
	sc, cc := confs(h.Plan)
	if server {
		l := h.Net.Listen(srvAddr)
		srv, _ := transport.Listen(l, transport.ServerConfig{Config: sc})
		serve := h.Go("serve", func() { srv.Serve() })
		var conns []*simConn
		ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
			c, err := h.Net.Dial("10.0.0.1", srvAddr)
			if err != nil {
				return
			}
			conns = append(conns, c.(*simConn).peer())
			spoil(h, s, c.(*simConn), false)
		})
		if t := h.awaitAll(ts, long); t != nil {
			h.Fail("stuck", "%s does not end", t.Name)
		}
		h.Sleep(time.Minute)
		for _, c := range conns {
			if !c.closed {
				h.Fail("leak", "the server keeps a network connection open that its client has given up")
			}
		}
		if serve.Ended {
			h.Fail("serve", "Serve ended")
		}
		srv.Close()
		h.Sleep(time.Hour)
		if gs := h.repoGoroutines(); len(gs) > 0 {
			h.Fail("leak", "%d goroutines are left of failed connections, one in %s", len(gs), topRepoFrame(gs[0]))
		}
		return
	}
	// the system dials; every attempt has a listener of its own
	for i := range h.Plan.Steps {
		s := &h.Plan.Steps[i]
		addr := "10.0.0.2:" + []string{"101", "102", "103", "104"}[i%4]
		n0 := len(h.Net.conns)
		var l *simListener
		if s.n(0) != badRefuse {
			l = h.Net.Listen(addr)
			h.Go("peer", func() {
				c, err := l.Accept()
				if err != nil {
					return
				}
				spoil(h, s, c.(*simConn), true)
			})
		}
		h.Sleep(us(s.D))
		var c *transport.Client
		var err error
		t := h.Go("connect", func() {
			if s.n(3) == 0 {
				c, err = transport.DialTCP(addr, transport.ClientConfig{Config: cc})
				return
			}
			var nc net.Conn
			if nc, err = h.Net.Dial("10.0.0.1", addr); err == nil {
				c, err = transport.Connect(nc, transport.ClientConfig{Config: cc})
			}
		})
		if !h.Await(t, time.Hour) {
			h.Fail("stuck", "connecting does not end although the peer has closed the connection")
		}
		if (c == nil) == (err == nil) {
			h.Fail("no-answer", "connecting returned %v and error %v", c, err)
		}
		var raw *simConn
		if len(h.Net.conns) > n0 {
			raw = h.Net.conns[n0].a
		}
		if err != nil {
			h.Hit("attempt failed")
			h.Sleep(h.Slack() + h.tlsClose())
			if raw != nil && !raw.closed {
				h.Fail("leak", "the failed attempt (%v) leaves its network connection open", err)
			}
		} else {
			h.Hit("attempt succeeded")
			w := h.Go("wait", func() { c.Wait() })
			if !h.Await(w, time.Hour) {
				h.Fail("stuck", "the receive loop does not end although the peer has closed the connection")
			}
			if !raw.closed {
				h.Fail("leak", "the receive loop has ended and the network connection is open")
			}
		}
		if gs := h.repoGoroutines(); len(gs) > 0 {
			h.Fail("leak", "%d goroutines are left of the connection (error %v), one in %s", len(gs), err, topRepoFrame(gs[0]))
		}
		if l != nil {
			l.Close()
		}
	}
}
