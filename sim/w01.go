package main

import (
	"context"
	"fmt"
	"time"

	"github.com/tg123/phabrik/transport"
)

const long = 40 * time.Hour // far beyond any delay the simulated network can add

// pair is a real client connected to a real server.
type pair struct {
	h        *H
	l        *simListener
	srv      *transport.Server
	cli      *transport.Client
	raw      *simConn // the client's end of the network
	srvConn  transport.Conn
	cliCb    transport.MessageCallback
	srvCb    transport.MessageCallback
	serve    *Task
	wait     *Task
	waitErr  error
	serveErr error
	dialErr  error
	up       *Task
}

const srvAddr = "10.0.0.2:19000"

func (p *pair) start(cliCb, srvCb transport.MessageCallback) {
	h := p.h
	sc, cc := confs(h.Plan)
	p.l = h.Net.Listen(srvAddr)
	p.cliCb = cliCb
	p.srvCb = func(c transport.Conn, m *transport.ByteArrayMessage) {
		if m.Headers.Action == "hello" {
			p.srvConn = c
			return
		}
		srvCb(c, m)
	}
	srv, err := transport.Listen(p.l, transport.ServerConfig{Config: sc, MessageCallback: p.srvCb})
	if err != nil {
		h.Fail("listen", "Listen: %v", err)
	}
	p.srv = srv
	p.serve = h.Go("serve", func() { p.serveErr = srv.Serve() })
	p.up = h.Go("connect", func() {
		c, err := h.Net.Dial("10.0.0.1", srvAddr)
		if err != nil {
			p.dialErr = err
			return
		}
		p.raw = c.(*simConn)
		cl, err := transport.Connect(c, transport.ClientConfig{Config: cc, MessageCallback: cliCb})
		if err != nil {
			p.dialErr = err
			return
		}
		p.wait = h.Go("wait", func() { p.waitErr = cl.Wait() })
		if err := cl.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "hello"}}); err != nil {
			p.dialErr = err
		}
		p.cli = cl
	})
}

// broken reports whether a fault that may cut the connection has fired.
func broken(h *H) bool {
	for _, k := range []string{"rst", "fin", "werr", "hole", "flip"} {
		if h.Net.stats["fault."+k] > 0 {
			return true
		}
	}
	return false
}

func genBreak(g *Gen, num, den int) {
	if !g.chance(num, den) {
		return
	}
	off := g.between(0, 4000)
	if g.chance(1, 4) {
		off = g.between(0, 60000)
	}
	g.fault(0, g.IntN(2), []string{"rst", "fin", "werr", "hole"}[g.IntN(4)], off, int64(g.IntN(2)))
}

func genStall(g *Gen) {
	if g.chance(1, 5) {
		g.fault(0, g.IntN(2), "stall", g.between(0, 5000), g.pick(1e6, 1e9, 40e9))
	}
}

func init() {
	register("C01", &World{Name: "pair", AllocCap: 1 << 30, Weight: 5, Gen: gen01pair, Run: run01pair})
	register("C01", &World{Name: "rawserver", AllocCap: 1 << 30, Weight: 2, Gen: func(g *Gen) { gen01raw(g) }, Run: func(h *H) { run01raw(h, false) }})
	register("C01", &World{Name: "rawclient", AllocCap: 1 << 30, Weight: 2, Gen: func(g *Gen) { gen01raw(g) }, Run: func(h *H) { run01raw(h, true) }})
}

func genTraffic(g *Gen, tasks []int, max int64) {
	small := smallNet(g)
	for _, w := range tasks {
		n := 1 + int64(g.rep(int(max)))
		for i := int64(0); i < n; i++ {
			d := int64(0)
			if g.chance(1, 3) {
				d = g.delay()
			}
			switch g.IntN(12) {
			case 0:
				g.step("ping", d, w)
			case 1, 2:
				g.step("req", d, w, g.Int64N(1<<40), sizeDist(g, small))
			default:
				g.step("send", d, w, g.Int64N(1<<40), sizeDist(g, small))
			}
		}
	}
}

func gen01pair(g *Gen) {
	genConf(g, 2, 5)
	var ts []int
	for i := 0; i < 1+g.IntN(3); i++ {
		ts = append(ts, i)
	}
	for i := 0; i < g.IntN(4); i++ {
		ts = append(ts, 10+i)
	}
	m := int64(6)
	if g.Thorough {
		m = 14
	}
	genTraffic(g, ts, m)
	if g.chance(1, 6) {
		for i := int64(0); i < g.between(1, 4); i++ {
			g.step("setcb", g.delay(), ts[g.IntN(len(ts))])
		}
	}
	genStall(g)
	genBreak(g, 1, 5)
}

func run01pair(h *H) {
	p := &pair{h: h}
	c2s, s2c := newHistory(h, "client to server"), newHistory(h, "server to client")
	handle := func(y, back *history) transport.MessageCallback {
		return func(c transport.Conn, m *transport.ByteArrayMessage) {
			r := fromBAM(m)
			s := y.deliver(r)
			if s.who >= 100 && s.who < 200 { // wants a reply
				rep := makeMsg(s.who+100, s.i, int64(s.i)*7919, 30)
				rep.refuse = false
				rep.msg.Headers.RelatesTo = m.Headers.Id
				rep.exp.Rel = r.ID
				if len(rep.exp.encodeHeaders()) > 60000 {
					return
				}
				back.add(rep)
				rep.begun = true
				go func() {
					rep.err = c.SendOneWay(rep.msg)
					rep.done = true
				}()
			}
		}
	}
	p.start(handle(s2c, c2s), handle(c2s, s2c))
	if !h.Await(p.up, long) {
		if broken(h) {
			return
		}
		h.Fail("stuck", "connecting does not end")
	}
	if p.dialErr != nil {
		if !broken(h) {
			h.Fail("connect", "connecting failed without any fault: %v", p.dialErr)
		}
		return
	}
	if !h.Until(long, func() bool { return p.srvConn != nil || broken(h) }) {
		h.Fail("lost", "the first message never arrived")
	}
	if p.srvConn == nil {
		return
	}
	do := func(who, i int, s *Step) {
		var c transport.Conn = p.cli
		y, back := c2s, s2c
		if who >= 10 {
			c, y, back = p.srvConn, s2c, c2s
		}
		switch s.Op {
		case "setcb": // the same again, in the midst of things
			if who < 10 {
				p.cli.SetMessageCallback(p.cliCb)
			} else {
				p.srv.SetMessageCallback(p.srvCb)
			}
			h.Hit("callback set again")
		case "ping":
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Minute)
			d, err := c.Ping(ctx)
			cancel()
			if err != nil && !broken(h) {
				h.Fail("ping", "ping failed without any fault: %v", err)
			}
			if err == nil && d < 0 {
				h.Fail("ping", "negative round trip %v", d)
			}
		case "send":
			m := makeMsg(who, i, s.n(0), int(s.n(1)))
			y.add(m)
			m.begun = true
			m.err = c.SendOneWay(m.msg)
			m.done = true
			if m.err != nil && !m.refuse && !broken(h) {
				h.Fail("send", "send failed without any fault: %v", m.err)
			}
			if m.refuse {
				h.Hit("unrepresentable")
			}
		case "req":
			m := makeMsg(who+100, i, s.n(0), int(s.n(1)))
			m.exp.Expects = true
			m.exp.Rel = MsgID{}
			m.msg.Headers.RelatesTo = transport.MessageId{}
			y.add(m)
			m.begun = true
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Minute)
			r, err := c.RequestReply(ctx, m.msg)
			cancel()
			m.err, m.done = err, true
			if err != nil {
				rep := back.sent[key(body(fmt.Sprintf("t%d", who+200), i, 0))]
				if !m.refuse && !broken(h) && rep != nil {
					h.Fail("request", "request failed without any fault: %v", err)
				}
				return
			}
			rep := fromBAM(r)
			if rep.Rel != wireID(m.msg.Headers.Id) {
				h.Fail("wrong-reply", "request %v got a message that relates to %v", wireID(m.msg.Headers.Id), rep.Rel)
			}
			if s := back.deliver(rep); s.who != who+200 || s.i != i {
				h.Fail("wrong-reply", "request %d of task %d got the reply to request %d of task %d", i, who, s.i, s.who-200)
			}
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	if t := h.awaitAll(ts, 2*long); t != nil {
		if broken(h) {
			return
		}
		h.Fail("stuck", "%s does not end although nothing is broken", t.Name)
	}
	brk := broken(h)
	if !brk {
		if !h.Until(long, func() bool { return c2s.pending()+s2c.pending() == 0 || broken(h) }) {
			h.Fail("lost", "sent and never delivered: %d to the server, %d to the client", c2s.pending(), s2c.pending())
		}
		if brk = broken(h); !brk {
			time.Sleep(5 * time.Second)
			if p.wait.Ended {
				h.Fail("broke", "the connection ended without any fault: %v", p.waitErr)
			}
			if p.serve.Ended {
				h.Fail("broke", "Serve ended: %v", p.serveErr)
			}
		}
	} else {
		h.Sleep(10 * time.Minute)
		h.Hit("broken")
	}
	c2s.check()
	s2c.check()
	if h.Plan.p("tls") != 0 {
		s2c.inOrder(nonReplies(s2c), "callbacks")
		return
	}
	// the wire itself
	up, down := p.raw.Sent(), p.raw.peer().Sent()
	checkWire(h, c2s, up, frameCfgOf(mustConf(h)), brk)
	seq := checkWire(h, s2c, down, frameCfgOf(mustConf(h)), brk)
	// the client's callback sees messages in wire order
	k := 0
	cb := nonReplies(s2c)
	for _, x := range seq {
		if k < len(cb) && cb[k] == x {
			k++
		}
	}
	if k != len(cb) && len(down) < tapCap {
		h.Fail("order", "the client's callback got %v, on the wire it was %v", cb, seq)
	}
}

func mustConf(h *H) transport.Config { s, _ := confs(h.Plan); return s }

func nonReplies(y *history) (out []string) {
	for _, k := range y.order {
		if s := y.sent[k]; s != nil && s.who < 200 {
			out = append(out, k)
		}
	}
	return
}

// checkWire parses everything one side put on the wire and compares it with what it was given.
func checkWire(h *H, y *history, b []byte, cfg frameCfg, brk bool) (keys []string) {
	fs, rest, err := wireFrames(b)
	if err != nil {
		h.Fail("wire", "%s: %v after %d frames", y.name, err, len(fs))
	}
	if len(rest) > 0 && !brk && len(b) < tapCap {
		h.Fail("wire", "%s: %d bytes of an unfinished frame after %d frames", y.name, len(rest), len(fs))
	}
	seen := map[string]bool{}
	ids := map[MsgID]bool{}
	for i, f := range fs {
		if s := checkFrame(f, cfg); s != "" {
			h.Fail("wire", "%s: frame %d: %s", y.name, i, s)
		}
		m, err := decodeMsg(f)
		if err != nil {
			h.Fail("wire", "%s: frame %d: %v", y.name, i, err)
		}
		if ids[m.ID] || m.ID.empty() {
			h.Fail("id-reused", "%s: message id %v appears twice on the wire, or is empty", y.name, m.ID)
		}
		ids[m.ID] = true
		if m.Actor == aTransport || m.Action == "hello" {
			continue
		}
		k := msgKey(m)
		s := y.sent[k]
		if s == nil || !s.begun {
			h.Fail("invented", "%s: frame %d was never sent: %v", y.name, i, m)
		}
		if seen[k] {
			h.Fail("duplicate", "%s: message %s is on the wire twice", y.name, k)
		}
		seen[k] = true
		if d := sameMsg(s.expect(), m, s.done); d != "" {
			h.Fail("altered", "%s: message %s is altered on the wire: %s", y.name, k, d)
		}
		keys = append(keys, k)
	}
	y.inOrder(keys, "on the wire")
	return
}

func gen01raw(g *Gen) {
	genConf(g, 1, 4)
	genTraffic(g, []int{0, 1}[:1+g.IntN(2)], 6)
	for i := g.rep(10); i >= 0; i-- {
		g.step("raw", g.delay(), 20, g.Int64N(1<<40), sizeDist(g, smallNet(g)))
	}
	genStall(g)
	genBreak(g, 1, 6)
}

// spice turns a message into an unusual but valid encoding.
func spice(h *H, m *RMsg, c frameCfg) []byte {
	b := m.encodeHeaders()
	// cut into single headers
	var hs [][]byte
	for len(b) > 0 {
		n := 4 + int(b[2]) + int(b[3])<<8
		hs = append(hs, b[:n])
		b = b[n:]
	}
	if h.Chance(1, 3) { // rotate: same-id headers must keep their order, so only move the front group
		var ids, rest [][]byte
		for _, x := range hs {
			if x[0] == 0x03 && x[1] == 0x80 || x[0] == 1 && x[1] == 0x80 {
				ids = append(ids, x)
			} else {
				rest = append(rest, x)
			}
		}
		hs = append(rest, ids...)
	}
	if h.Chance(1, 4) {
		hs = append(hs, tlv(nil, hInvalid, []byte("padding")))
	}
	if h.Chance(1, 4) {
		hs = append([][]byte{tlv(nil, hInvalid, nil)}, hs...)
	}
	if h.Chance(1, 6) { // a newer version of the actor header has one more field
		for i, x := range hs {
			if x[0] == 1 && x[1] == 0x80 {
				hs[i] = tlv(nil, hActor, object(func(e *enc) { e.i64(m.Actor); e.str("newer"); e.u32(9) }))
			}
		}
	}
	b = nil
	for _, x := range hs {
		b = append(b, x...)
	}
	return encodeFrame(b, m.Body, c)
}

// run01raw connects a real client or server to the reference peer.
func run01raw(h *H, realServer bool) {
	sc, cc := confs(h.Plan)
	out, in := newHistory(h, "from the system"), newHistory(h, "to the system")
	var conn transport.Conn
	var peer *RawPeer
	var wait *Task
	var waitErr error
	recv := func(c transport.Conn, m *transport.ByteArrayMessage) {
		if m.Headers.Action == "hello" {
			conn = c
			return
		}
		in.deliver(fromBAM(m))
	}
	var up *Task
	var upErr error
	if realServer {
		l := h.Net.Listen(srvAddr)
		srv, _ := transport.Listen(l, transport.ServerConfig{Config: sc, MessageCallback: recv})
		h.Go("serve", func() { srv.Serve() })
		up = h.Go("raw", func() {
			c, err := h.Net.Dial("10.0.0.1", srvAddr)
			if err != nil {
				upErr = err
				return
			}
			peer = NewRaw(h, "rawcli", c.(*simConn), frameCfgOf(sc))
			if cc.TLS != nil {
				if upErr = peer.Handshake(cc.TLS, false); upErr != nil {
					return
				}
			}
			peer.Start()
			upErr = peer.Send(&RMsg{Actor: 5, Action: "hello"})
		})
	} else {
		a, b := h.Net.Pipe("10.0.0.1:1", srvAddr)
		peer = NewRaw(h, "rawsrv", b, frameCfgOf(cc))
		up = h.Go("raw", func() {
			if sc.TLS != nil {
				if upErr = peer.Handshake(sc.TLS, true); upErr != nil {
					return
				}
			}
			peer.Start()
		})
		h.Go("connect", func() {
			c, err := transport.Connect(a, transport.ClientConfig{Config: cc, MessageCallback: recv})
			if err != nil {
				if !broken(h) {
					h.Fail("connect", "connecting failed without any fault: %v", err)
				}
				return
			}
			wait = h.Go("wait", func() { waitErr = c.Wait() })
			conn = c
		})
	}
	if !h.Await(up, long) || upErr != nil {
		if broken(h) {
			return
		}
		h.Fail("connect", "the reference peer cannot connect: %v", upErr)
	}
	if !h.Until(long, func() bool { return conn != nil || broken(h) }) {
		h.Fail("connect", "the connection is not established")
	}
	if conn == nil {
		return
	}
	peer.OnMsg = func(m *RMsg) {
		s := out.deliver(m)
		if s.who >= 100 {
			rep := &sent{key: key(body(fmt.Sprintf("r%d", s.who), s.i, 0)), who: 300, i: s.i, begun: true}
			rep.exp = &RMsg{ID: peer.NewID(), Rel: m.ID, Actor: m.Actor, Body: body(fmt.Sprintf("r%d", s.who), s.i, 40+s.i%50)}
			in.add(rep)
			go func() { rep.err = peer.Send(rep.exp); rep.done = true }()
		}
	}
	do := func(who, i int, s *Step) {
		switch s.Op {
		case "raw":
			m := makeMsg(who, i, s.n(0), int(s.n(1)))
			if m.refuse {
				return
			}
			m.msg = nil
			m.exp.ID = peer.NewID()
			in.add(m)
			m.begun = true
			m.err = peer.SendBytes(spice(h, m.exp, peer.cfg))
			m.done = true
		case "send":
			m := makeMsg(who, i, s.n(0), int(s.n(1)))
			out.add(m)
			m.begun = true
			m.err = conn.SendOneWay(m.msg)
			m.done = true
			if m.err != nil && !m.refuse && !broken(h) {
				h.Fail("send", "send failed without any fault: %v", m.err)
			}
		case "ping":
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Minute)
			_, err := conn.Ping(ctx)
			cancel()
			if err != nil && !broken(h) {
				h.Fail("ping", "ping failed without any fault: %v", err)
			}
		case "req":
			m := makeMsg(who+100, i, s.n(0), int(s.n(1)))
			m.exp.Expects = true
			m.exp.Rel = MsgID{}
			m.msg.Headers.RelatesTo = transport.MessageId{}
			out.add(m)
			m.begun = true
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Minute)
			r, err := conn.RequestReply(ctx, m.msg)
			cancel()
			m.err, m.done = err, true
			if err != nil {
				if !m.refuse && !broken(h) {
					h.Fail("request", "request failed without any fault: %v", err)
				}
				return
			}
			in.deliver(fromBAM(r))
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	if t := h.awaitAll(ts, 2*long); t != nil {
		if broken(h) {
			return
		}
		h.Fail("stuck", "%s does not end although nothing is broken", t.Name)
	}
	brk := broken(h)
	if !brk && !h.Until(long, func() bool { return out.pending()+in.pending() == 0 || broken(h) }) {
		h.Fail("lost", "sent and never delivered: %d from the system, %d to it", out.pending(), in.pending())
	}
	if brk = broken(h); brk {
		h.Sleep(10 * time.Minute)
	}
	if peer.Bad != "" && !brk {
		h.Fail("wire", "%s", peer.Bad)
	}
	if !brk && wait != nil && wait.Ended {
		h.Fail("broke", "the connection ended without any fault: %v", waitErr)
	}
	out.check()
	in.check()
	out.inOrder(out.order, "at the reference peer")
	if !realServer {
		in.inOrder(nonReplies(in), "callbacks")
	}
}
