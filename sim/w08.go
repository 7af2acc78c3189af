package main

import (
	"context"
	"fmt"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C08", &World{Name: "serve", Weight: 1, MaxSpin: 8e6, Gen: gen08, Run: run08})
}

// What a bad client does; it then holds its connection for ever.
const (
	cliSilent = iota
	cliPartialSetup
	cliNoRead
	cliNoReadSetup
	cliGarbage
	cliReset
	cliBlock
	cliPartialFrame
	cliFlood
	cliBadCert
	cliGone
	nCli
)

func gen08(g *Gen) {
	genConf(g, 1, 3)
	g.set("listentcp", g.pick(0, 1))
	for w := 40; w < 40+g.IntN(6); w++ {
		k := g.Int64N(nCli)
		s := g.step("bad", g.delay(), w, k, g.between(0, g.pick(20, 300, 3000)), g.delay(), g.between(1, 40))
		if k != cliNoRead && k != cliFlood && k != cliNoReadSetup && g.chance(1, 20) {
			s.N = append(s.N, g.pick(12, 40, 40, 100, 300)) // a crowd of them
		}
		if k == cliGarbage {
			s.Data = genEvil(g, frameCfg{headCRC: true, bodyCRC: true})
		}
	}
	for w := 1; w < 2+g.IntN(4); w++ {
		g.step("connect", g.delay(), w, g.pick(0, 1))
		for k := g.rep(4); k >= 0; k-- {
			g.step("ask", g.delay(), w, g.pick(20, 200, 5000))
		}
	}
	n := int64(len(g.P.Steps))
	for k := g.IntN(4); k > 0; k-- {
		g.fault(0, 2, []string{"accepttemp", "acceptabort"}[g.IntN(2)], 1+g.Int64N(n+2), g.pick(0, 0, 1, 40)) // the last: once or many times in a row
	}
	if g.chance(1, 5) {
		g.fault(0, 2, "acceptperm", 1+g.Int64N(n+2), 0)
	}
	if g.chance(1, 3) {
		g.step("stop", g.delay()+g.delay(), 90, g.pick(0, 1))
	}
}

// crowd08 plays one bad client or many alike.
func crowd08(h *H, s *Step) {
	n := max(1, s.n(4))
	if n > 1 {
		h.Hit("crowd")
	}
	h.Go("bad", func() {
		for ; n > 0; n-- {
			h.Await(h.Go("bad", func() { bad08(h, s) }), 10*time.Millisecond)
		}
	})
}

// bad08 plays a bad client.
func bad08(h *H, s *Step) {
	sc, cc := confs(h.Plan)
	nc, err := h.Net.Dial(fmt.Sprintf("10.0.1.%d", s.Who), srvAddr)
	if err != nil {
		return
	}
	c := nc.(*simConn)
	p := NewRaw(h, fmt.Sprintf("bad%d", s.Who), c, frameCfgOf(sc))
	drain := func() {
		b := make([]byte, 4096)
		for {
			if _, err := c.Read(b); err != nil {
				return
			}
		}
	}
	setup := func() bool {
		if cc.TLS != nil {
			if p.Handshake(cc.TLS, false) != nil {
				c.Close()
				return false
			}
		}
		return true
	}
	h.Hit(fmt.Sprintf("client%d", s.n(0)))
	switch s.n(0) {
	case cliSilent:
	case cliPartialSetup:
		// the first bytes of what a proper client would send, then nothing
		if cc.TLS == nil {
			m := &RMsg{ID: p.NewID(), Actor: aTransport, Body: make([]byte, 3000)}
			c.Write(m.encode(p.cfg)[:min(3000, s.n(1))])
			break
		}
		a, b := h.Net.Pipe("10.0.2.1:1", "10.0.2.2:1")
		q := NewRaw(h, "half", a, frameCfgOf(sc))
		h.Go("half", func() { q.Handshake(cc.TLS, false) })
		h.Sleep(time.Second)
		d := a.wr.tap
		b.Close()
		c.Write(d[:min(int64(len(d)), s.n(1))])
	case cliNoRead:
		if !setup() {
			return
		}
		p.SendInit()
		for k := int64(0); k < s.n(3); k++ { // ask for much and read nothing
			if p.Send(&RMsg{Actor: 5, Action: "ask", Body: make([]byte, 4000)}) != nil {
				return
			}
		}
	case cliNoReadSetup:
		if cc.TLS != nil {
			a, _ := h.Net.Pipe("10.0.2.1:1", "10.0.2.2:1")
			q := NewRaw(h, "half", a, frameCfgOf(sc))
			h.Go("half", func() { q.Handshake(cc.TLS, false) })
			h.Sleep(time.Second)
			c.Write(a.wr.tap)
		}
	case cliGarbage:
		go drain()
		c.Write(s.Data)
	case cliReset:
		b := make([]byte, 64)
		for n := int64(0); n < s.n(1); {
			k, err := c.Read(b)
			if err != nil || c.rd.inflight == 0 {
				break
			}
			n += int64(k)
		}
		h.Sleep(us(s.n(2)))
		c.Reset()
	case cliBlock:
		if setup() {
			p.Start()
			for k := int64(0); k < min(s.n(3), 4); k++ {
				p.Send(&RMsg{Actor: 5, Action: "block"})
			}
		}
	case cliPartialFrame:
		if setup() {
			p.Start()
			m := &RMsg{ID: p.NewID(), Actor: 5, Action: "ask", Body: make([]byte, 2000)}
			p.wr.lock()
			p.c.Write(m.encode(p.cfg)[:min(2000, 1+s.n(1))])
		}
	case cliFlood:
		if setup() {
			p.Start()
			for k := int64(0); k < 5*s.n(3); k++ {
				if p.Send(&RMsg{Actor: 5, Action: "ask", Body: make([]byte, 100)}) != nil {
					return
				}
			}
		}
	case cliBadCert:
		if cc.TLS != nil {
			conf := cc.TLS.Clone()
			conf.InsecureSkipVerify = true
			if len(conf.Certificates) > 0 {
				conf.Certificates[0] = certs.rogue
			}
			p.Handshake(conf, false)
		}
		p.SendInit()
		go drain()
	case cliGone:
		h.Sleep(us(s.n(2)))
		c.Close()
	}
}

func run08(h *H) {
	sc, cc := confs(h.Plan)
	block := make(chan struct{})
	cb := func(c transport.Conn, m *transport.ByteArrayMessage) {
		if m.Headers.Action == "block" {
			<-block
		}
		echo(c, m)
	}
	var srv *transport.Server
	var err error
	if h.Plan.p("listentcp") == 1 {
		srv, err = transport.ListenTCP(srvAddr, transport.ServerConfig{Config: sc, MessageCallback: cb})
	} else {
		srv, err = transport.Listen(h.Net.Listen(srvAddr), transport.ServerConfig{Config: sc, MessageCallback: cb})
	}
	if err != nil {
		h.Fail("listen", "%v", err)
	}
	l := h.Net.listeners[srvAddr]
	if a := srv.Addr(); a.String() != srvAddr {
		h.Fail("addr", "Addr is %v", a)
	}
	bound := h.rtt() + us(4*1e6)
	for _, f := range h.Plan.Faults {
		bound += us(f.Arg * 2e6) // a server may pause a little before it accepts again
	}
	if h.Net.prof.buf < 1<<20 {
		bound += 200 * h.netMax()
	}
	stopped := time.Duration(-1)
	var serveErr error
	serve := h.Go("serve", func() { serveErr = srv.Serve() })
	failed := func() bool { return stopped >= 0 || h.Net.stats["fault.acceptperm"] > 0 }
	inn := map[int]*innocent{}
	var stops []*Task
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "bad":
			crowd08(h, s)
		case "connect":
			if failed() {
				return
			}
			x := &innocent{h: h}
			t := h.Go("dial", func() {
				c, err := h.Net.Dial(fmt.Sprintf("10.0.0.%d", 70+who), srvAddr)
				if err == nil {
					x.cli, err = transport.Connect(c, transport.ClientConfig{Config: cc})
				}
				x.err = err
			})
			if !h.Await(t, bound) || x.err != nil {
				if failed() {
					return
				}
				h.Fail("harmed", "a well-behaved client cannot connect: done %v, %v", t.Ended, x.err)
			}
			h.Go("innocent", func() { x.cli.Wait() })
			if who%2 == 0 && s.n(0) == 1 {
				// without a request nothing shows that the server has accepted
			}
			inn[who] = x
		case "ask":
			x := inn[who]
			if x == nil {
				return
			}
			b := make([]byte, s.n(0))
			copy(b, body("ask", i, 20))
			var r *transport.ByteArrayMessage
			var err error
			ctx, cancel := context.WithCancel(context.Background())
			t := h.Go("ask", func() {
				r, err = x.cli.RequestReply(ctx, &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "ask"}, Body: b})
			})
			if !h.Await(t, bound) {
				if failed() { // it may not have been accepted any more
					cancel()
					h.Await(t, bound)
					return
				}
				h.Fail("harmed", "a well-behaved client gets no answer within %v", bound)
			}
			cancel()
			if err != nil {
				if failed() {
					return
				}
				h.Fail("harmed", "a well-behaved client got the error %v", err)
			}
			if string(r.Body) != string(b) {
				h.Fail("harmed", "a well-behaved client got a wrong answer")
			}
			h.Count("asked", 1)
		case "stop":
			if s.n(0) == 1 {
				stops = append(stops, h.Go("close", func() { srv.Close() }))
			}
			stopped = h.Now()
			if err := srv.Close(); err != nil && s.n(0) == 0 {
				h.Fail("close", "Close: %v", err)
			}
		}
		if serve.Ended && !failed() {
			h.Fail("serve", "Serve returned %v while the listener is open", serveErr)
		}
	})
	if t := h.awaitAll(ts, 10*long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	h.Sleep(h.Slack() + us(5*1e6))
	if serve.Ended && !failed() {
		h.Fail("serve", "Serve returned %v while the listener is open", serveErr)
	}
	if l.errs > 0 {
		h.Hit("accept error")
	}
	if !failed() {
		h.Hit("open at the end")
		srv.Close()
		h.Sleep(h.Slack())
	}
	if !h.Await(serve, h.Slack()) {
		h.Fail("serve", "Serve does not return although the listener is closed or has failed")
	}
	if serveErr == nil {
		h.Fail("serve", "Serve returned no error")
	}
	if l.closed {
		var e2 error
		t := h.Go("serve again", func() { e2 = srv.Serve() })
		if !h.Await(t, h.Slack()) || e2 == nil {
			h.Fail("serve", "Serve on a closed listener: returned %v, %v", t.Ended, e2)
		}
	}
}
