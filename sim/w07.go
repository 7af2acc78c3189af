package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C07", &World{Name: "server", Weight: 3, Gen: gen07srv, Run: run07srv, AllocCap: 4 << 20})
	register("C07", &World{Name: "client", Weight: 3, Gen: gen07cli, Run: run07cli, AllocCap: 4 << 20})
}

// genHostile draws what hostile peers do; who numbers their connections.
func genHostile(g *Gen, who, conns int, c frameCfg) {
	for w := who; w < who+conns; w++ {
		// handshake properly (if TLS is used), or not
		g.step("open", g.delay(), w, g.pick(0, 1, 1, 1))
		for k := g.IntN(4); k >= 0; k-- {
			if g.chance(1, 5) {
				g.step("good", g.pick(0, g.delay()), w)
				continue
			}
			g.step("evil", g.pick(0, g.delay()), w).Data = genEvil(g, c)
		}
		g.step([]string{"bye", "byerst", "byefin", "linger"}[g.IntN(4)], g.delay(), w)
	}
}

func genHostileConf(g *Gen) frameCfg {
	genConf(g, 1, 4)
	c := frameCfg{headCRC: true, bodyCRC: true}
	if g.P.p("tls") != 0 {
		c = frameCfg{mask: 1}
	}
	return c
}

// hostile plays one hostile peer's steps.  dial or accept has happened: open
// gives the network connection.
type hostile struct {
	h     *H
	p     *RawPeer
	c     *simConn
	ended bool
	// listen makes it read what it is sent and remember the requests
	listen bool
	asked  []*RMsg
}

func (x *hostile) step(s *Step, open func() *simConn, server bool) {
	sc, cc := confs(x.h.Plan)
	conf := cc.TLS
	if server {
		conf = sc.TLS
	}
	x.step2(s, conf, frameCfgOf(sc), open, server)
}

func (x *hostile) step2(s *Step, conf *tls.Config, cfg frameCfg, open func() *simConn, server bool) {
	h := x.h
	if s.Op != "open" && (x.c == nil || x.p == nil) {
		return
	}
	write := func(f func()) {
		// a system that does not read any more must not block the plan
		t := h.Go("evil", f)
		h.Await(t, time.Minute)
	}
	switch s.Op {
	case "open":
		x.c = open()
		if x.c == nil {
			return
		}
		x.p = NewRaw(h, fmt.Sprintf("evil%d", s.Who), x.c, cfg)
		if conf != nil && s.n(0) == 1 {
			t := h.Go("handshake", func() {
				if x.p.Handshake(conf, server) != nil {
					x.c.Close()
				}
			})
			h.Await(t, time.Minute)
		}
		if x.listen && (conf == nil || s.n(0) == 1) {
			x.p.OnMsg = func(m *RMsg) { x.asked = append(x.asked, m) }
			go x.p.readLoop()
			return
		}
		go func() {
			b := make([]byte, 4096)
			for {
				if _, err := x.p.c.Read(b); err != nil {
					return
				}
			}
		}()
	case "good":
		write(func() { x.p.Send(&RMsg{Actor: 5, Action: "note", Body: []byte("hello")}) })
	case "evil":
		h.Count("fault.hostile", 1)
		write(func() {
			x.p.wr.lock()
			x.p.c.Write(s.Data)
			x.p.wr.unlock()
		})
	case "bye":
		x.c.Close()
	case "byerst":
		x.c.Reset()
	case "byefin":
		x.c.CloseWrite()
	case "linger":
	}
}

// innocent is a well-behaved client of the server that must keep being served.
type innocent struct {
	h   *H
	cli *transport.Client
	err error
}

// ask makes one request and fails the run if it is not answered in time.
func (x *innocent) ask(what string, bound time.Duration, i int) {
	h := x.h
	b := body("ask", i, 30)
	var r *transport.ByteArrayMessage
	var err error
	t := h.Go("ask", func() {
		r, err = x.cli.RequestReply(context.Background(), &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "ask"}, Body: b})
	})
	if !h.Await(t, bound) {
		h.Fail("harmed", "%s: a well-behaved connection gets no answer", what)
	}
	if err != nil {
		h.Fail("harmed", "%s: a well-behaved connection got the error %v", what, err)
	}
	if string(r.Body) != string(b) {
		h.Fail("harmed", "%s: a well-behaved connection got a wrong answer", what)
	}
}

func (x *innocent) dial(addr string, cc transport.Config, bound time.Duration) {
	h := x.h
	t := h.Go("dial", func() {
		c, err := h.Net.Dial("10.0.0.77", addr)
		if err == nil {
			x.cli, err = transport.Connect(c, transport.ClientConfig{Config: cc})
		}
		x.err = err
		if err == nil {
			h.Go("innocent", func() { x.cli.Wait() })
		}
	})
	if !h.Await(t, bound) {
		h.Fail("harmed", "a well-behaved client cannot connect: no answer")
	}
	if x.err != nil {
		h.Fail("harmed", "a well-behaved client cannot connect: %v", x.err)
	}
}

func echo(c transport.Conn, m *transport.ByteArrayMessage) {
	decodeAny(m.Body)
	if m.Headers.Action == "ask" {
		c.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "answer", RelatesTo: m.Headers.Id}, Body: m.Body})
	}
}

func gen07srv(g *Gen) {
	wide(g)
	c := genHostileConf(g)
	genHostile(g, 40, 1+g.IntN(4), c)
	for k := 1 + g.IntN(4); k > 0; k-- {
		g.step("ask", g.delay(), 1+g.IntN(2))
	}
}

// rtt bounds one exchange on a healthy connection, handshake included.
func (h *H) rtt() time.Duration { return h.Slack() + 10*h.netMax() + time.Second }

func run07srv(h *H) {
	sc, cc := confs(h.Plan)
	l := h.Net.Listen(srvAddr)
	srv, err := transport.Listen(l, transport.ServerConfig{Config: sc, MessageCallback: echo})
	if err != nil {
		h.Fail("listen", "%v", err)
	}
	serve := h.Go("serve", func() { srv.Serve() })
	inn := map[int]*innocent{}
	for _, w := range []int{1, 2} {
		inn[w] = &innocent{h: h}
		inn[w].dial(srvAddr, cc, h.rtt())
	}
	evil := map[int]*hostile{}
	var conns []*simConn
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		if s.Op == "ask" {
			inn[who].ask("during the attack", h.rtt(), i)
			return
		}
		x := evil[who]
		if x == nil {
			x = &hostile{h: h}
			evil[who] = x
		}
		x.step(s, func() *simConn {
			c, err := h.Net.Dial("10.0.0.66", srvAddr)
			if err != nil {
				return nil
			}
			conns = append(conns, c.(*simConn))
			return c.(*simConn)
		}, false)
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	for _, c := range conns {
		c.Close()
	}
	h.Sleep(h.Slack() + h.netMax() + h.tlsClose() + time.Second)
	for w, x := range inn {
		x.ask("after the attack", h.rtt(), w)
	}
	last := &innocent{h: h}
	last.dial(srvAddr, cc, h.rtt())
	last.ask("a new client after the attack", h.rtt(), 9)
	if serve.Ended {
		h.Fail("serve", "Serve ended")
	}
	for _, c := range conns {
		if !c.peer().closed {
			h.Fail("hang", "a hostile connection that is gone is still held open")
		}
	}
}

func gen07cli(g *Gen) {
	wide(g)
	c := genHostileConf(g)
	n := 1 + g.IntN(3)
	genHostile(g, 40, n, c)
	for w := 40; w < 40+n; w++ {
		for k := g.IntN(3); k > 0; k-- {
			g.step([]string{"req", "ping"}[g.IntN(2)], g.delay(), w+100)
		}
	}
	for k := 1 + g.IntN(4); k > 0; k-- {
		g.step("ask", g.delay(), 1)
	}
}

// run07cli: clients of the system connect to hostile servers.
func run07cli(h *H) {
	sc, cc := confs(h.Plan)
	l := h.Net.Listen(srvAddr)
	srv, _ := transport.Listen(l, transport.ServerConfig{Config: sc, MessageCallback: echo})
	h.Go("serve", func() { srv.Serve() })
	inn := &innocent{h: h}
	inn.dial(srvAddr, cc, h.rtt())
	type victim struct {
		cli     *transport.Client
		up      *Task
		wait    *Task
		evil    *hostile
		a, b    *simConn
		waitErr error
	}
	vs := map[int]*victim{}
	for i := range h.Plan.Steps {
		w := h.Plan.Steps[i].Who
		if w < 40 || w >= 100 || vs[w] != nil {
			continue
		}
		v := &victim{evil: &hostile{h: h}}
		v.a, v.b = h.Net.Pipe(fmt.Sprintf("10.0.0.1:%d", w), "10.0.0.66:1")
		v.up = h.Go("connect", func() {
			c, err := transport.Connect(v.a, transport.ClientConfig{Config: cc, MessageCallback: echo})
			if err != nil {
				return
			}
			v.wait = h.Go("wait", func() { v.waitErr = c.Wait() })
			v.cli = c
		})
		vs[w] = v
	}
	var calls []*Task
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch {
		case s.Op == "ask":
			inn.ask("during the attack", h.rtt(), i)
		case who >= 100:
			v := vs[who-100]
			if v == nil || v.cli == nil {
				return
			}
			calls = append(calls, h.Go(s.Op, func() {
				if s.Op == "ping" {
					v.cli.Ping(context.Background())
				} else {
					v.cli.RequestReply(context.Background(), &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "q"}})
				}
			}))
		default:
			v := vs[who]
			v.evil.step(s, func() *simConn { return v.b }, true)
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	for _, v := range vs {
		v.b.Close()
	}
	h.Sleep(2*(h.Slack()+h.netMax()+h.tlsClose()) + time.Second)
	for _, v := range vs {
		if !v.up.Ended {
			h.Fail("hang", "connecting does not end after the peer has gone")
		}
		if v.wait != nil && !v.wait.Ended {
			h.Fail("hang", "the receive loop does not end after the peer has gone")
		}
	}
	for _, c := range calls {
		if !c.Ended {
			h.Fail("hang", "a %s does not end after the peer has gone", c.Name)
		}
	}
	inn.ask("after the attack", h.rtt(), 99)
}
