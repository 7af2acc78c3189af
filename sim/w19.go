package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"net"
	"time"
)

func init() {
	register("C19", &World{Name: "hostile", Weight: 3, Gen: gen19, Run: run19, AllocCap: 4 << 20})
	register("C19", &World{Name: "close", Weight: 1, Gen: gen19close, Run: run19, AllocCap: 4 << 20})
}

// genEvilLease draws bytes a hostile peer may send to a lease agent.
func genEvilLease(g *Gen) []byte {
	le := binary.LittleEndian
	m := &lmsg{id: g.Int64N(1 << 40), typ: int32(g.pick(0, 1, 2, 3, 3, 7, 9, -1)), inst: int64(g.extreme()), remote: int64(g.extreme()), duration: int32(g.extreme()), expiration: int64(g.extreme()), port: uint16(g.pick(0, 1, 1025, 65535))}
	m.host = []string{"", "10.0.1.1", "10.0.77.1", "fd00::3", "x]:%[", "\U0001F4A9é", string(bytes.Repeat([]byte("a"), 3000))}[g.IntN(7)]
	body := m.encode(g.IntN(3))
	switch g.IntN(11) {
	case 0:
		return g.bytes(1 + g.IntN(300))
	case 1, 2: // a frame header only, or with some of what it announces
		b := ltFrame(byte(g.pick(0, 1, 1, 1, 1, 2, 3, 255)), nil)
		le.PutUint32(b[4:], uint32(g.extreme()))
		if g.chance(1, 3) {
			le.PutUint32(b[4:], uint32(g.pick(0, 1, 11, 12, 13, 1<<31-1, 1<<31, 1<<32-1, 1<<24)))
		}
		return append(b, g.bytes(g.IntN(100))...)
	case 3: // connect frames, many
		return bytes.Repeat(ltFrame(ltConnect, nil), int(g.pick(1, 5, 100, 1000, 4000)))
	case 4: // connect frames whose size is not theirs
		b := ltFrame(ltConnect, nil)
		le.PutUint32(b[4:], uint32(g.extreme()))
		return bytes.Repeat(b, 1+g.IntN(4))
	case 5, 6, 7: // places and sizes of the lists
		for k := 1 + g.IntN(3); k > 0; k-- {
			f := 76 + 4*g.IntN(30)
			if g.chance(2, 3) {
				f = 76 + 12*9 + 4*g.IntN(3) // the endpoint's
			}
			v := uint32(g.extreme())
			switch g.IntN(4) {
			case 0:
				v = uint32(g.pick(0, 1, 2, 3, 4, 5, 6, 7, 8))
			case 1:
				v = uint32(int64(len(body)) + g.pick(-9, -7, -6, -5, -4, -3, -2, -1, 0, 1))
			}
			le.PutUint32(body[f:], v)
		}
		return ltFrame(ltMessage, body)
	case 8: // any field
		f := g.IntN(lmHeader/4) * 4
		le.PutUint32(body[f:], uint32(g.extreme()))
		return ltFrame(ltMessage, body)
	case 9: // cut short, or short of a header
		body = body[:g.IntN(len(body)+1)]
		return ltFrame(ltMessage, body)
	}
	b := ltFrame(ltMessage, body)
	for k := 1 + g.IntN(4); k > 0; k-- {
		b[g.IntN(len(b))] ^= byte(1 + g.IntN(255))
	}
	return b
}

func gen19(g *Gen) {
	if g.chance(1, 4) {
		g.set("tls", g.pick(1, 2))
	}
	g.set("tcp", g.pick(0, 1))
	n := 1 + int64(g.width(2, 60))
	g.set("peers", n)
	for w := 0; w < 1+g.IntN(6); w++ {
		conns := int64(1) // one after another
		if g.many > 0 && g.chance(1, 3) {
			conns = g.many
		}
		for c := int64(0); c < conns; c++ {
			// with TLS: whether the handshake is done
			g.step("open", g.delay(), 10+w, g.pick(0, 1, 1, 1))
			k := g.IntN(4)
			if conns == 1 {
				k = g.rep(4)
			}
			for ; k >= 0; k-- {
				switch {
				case g.chance(1, 8):
					g.step("good", g.pick(0, g.delay()), 10+w, g.Int64N(n))
				case g.chance(1, 8): // everything but the last bytes
					b := ltFrame(ltMessage, (&lmsg{host: "10.0.1.1", port: 1025, typ: lmPingResponse}).encode(0))
					g.step("evil", g.pick(0, g.delay()), 10+w).Data = b[:g.IntN(len(b))]
				default:
					g.step("evil", g.pick(0, g.delay()), 10+w).Data = genEvilLease(g)
				}
			}
			g.step([]string{"bye", "byerst", "byefin", "linger"}[g.IntN(4)], g.delay(), 10+w)
		}
	}
	for w := 0; w < int(n); w++ {
		for k := g.rep(4); k >= 0; k-- {
			g.step("ping", g.delay(), 40+w%10, g.Int64N(n))
		}
	}
	if g.chance(1, 3) { // accept fails for a while
		g.fault(0, 2, []string{"accepttemp", "acceptabort"}[g.IntN(2)], 1+g.Int64N(8), g.pick(0, 1, 5, 200, 3000))
	}
	genLeaseClose(g, n)
}

// genLeaseClose draws what happens around closing the agent.
func genLeaseClose(g *Gen, n int64) {
	if g.chance(1, 3) {
		g.set("deaf", 1) // a peer that accepts connections and does not read
	}
	if g.chance(1, 3) {
		g.set("evildial", 1) // a peer that answers what it is sent with rubbish
	}
	// how sessions are established while the agent is being closed
	for w := 50; w < 50+g.IntN(4); w++ {
		g.step("late", g.pick(0, 0, g.brief()), w, g.Int64N(n+2), g.pick(0, 0, 100, 1e6), g.pick(0, 1))
	}
	g.set("closers", g.pick(1, 1, 2, 3))
	g.set("closegap", g.pick(0, 0, 1, g.brief()))
}

func gen19close(g *Gen) {
	if g.chance(1, 4) {
		g.set("tls", g.pick(1, 2))
	}
	g.set("tcp", g.pick(0, 1))
	n := 1 + g.Int64N(3)
	g.set("peers", n)
	g.set("early", 1) // no waiting for the plan before the agent is closed
	g.set("after", g.pick(0, g.delay(), g.delay()))
	for w := 0; w < g.IntN(4); w++ {
		g.step("open", g.delay(), 10+w, g.pick(0, 1, 1, 1))
		g.step("evil", g.delay(), 10+w).Data = genEvilLease(g)
		g.step([]string{"bye", "byerst", "byefin", "linger"}[g.IntN(4)], g.delay(), 10+w)
	}
	for w := 0; w < int(n); w++ {
		for k := g.rep(4); k >= 0; k-- {
			g.step("ping", g.delay(), 40+w%10, g.Int64N(n))
		}
	}
	genLeaseClose(g, n)
	if g.chance(1, 6) {
		g.fault(0, 2, "acceptperm", 1+g.Int64N(4), 0)
	}
	if g.chance(1, 6) {
		g.fault(0, 2, []string{"accepttemp", "acceptabort"}[g.IntN(2)], 1+g.Int64N(4), g.pick(0, 5, 500))
	}
}

// run19 lets hostile and correct peers meet an agent, then closes it.
func run19(h *H) {
	w := newLworld(h, h.Plan.p("tcp") == 1)
	w.serve()
	n := int(h.Plan.p("peers"))
	var peers []*lpeer
	var sess []*lsess
	cur := map[*lpeer]*lsess{}
	for i := 0; i < n; i++ {
		p := w.peer(leaseAddr(i + 1))
		p.onReq = func(*lreq) { h.Go("answer", func() { p.answer(0) }) }
		peers = append(peers, p)
	}
	closing, permanent := false, func() bool { return h.Net.stats["fault.acceptperm"] > 0 }
	bound := h.Slack() + 40*h.netMax() + time.Second
	for _, f := range h.Plan.Faults {
		bound += min(us(f.Arg*2e6), time.Minute) // an agent may pause a little before it accepts again
	}
	if h.Net.prof.buf < 1<<20 {
		bound += 200 * h.netMax()
	}
	establish := func(p *lpeer) {
		x, err := w.establish(p)
		if err != nil {
			if !closing && p.onReq != nil {
				h.Fail("harmed", "establishing a session with a correct peer failed: %v", err)
			}
			return
		}
		if cur[p] == nil {
			cur[p] = x
		}
		sess = append(sess, x)
	}
	var deaf *lpeer
	if h.Plan.p("deaf") == 1 {
		deaf = w.peer("10.0.8.1:1025")
		deaf.noRead = true
	}
	var liar *simListener
	if h.Plan.p("evildial") == 1 {
		liar = h.Net.Listen("10.0.8.2:1025")
		h.Go("liar", func() {
			for {
				c, err := liar.Accept()
				if err != nil {
					return
				}
				h.Hit("lying peer")
				h.Go("liar conn", func() {
					c.Write(bytes.Repeat([]byte{0x16, 3, 3, 255, 255, 9}, 50))
					b := make([]byte, 512)
					if h.Chance(1, 2) {
						c.Read(b)
						c.(*simConn).Reset()
						return
					}
					for {
						if _, err := c.Read(b); err != nil {
							return
						}
					}
				})
			}
		})
	}
	first := h.Go("establish", func() {
		for _, p := range peers {
			establish(p)
		}
		if deaf != nil {
			establish(deaf)
		}
		if liar != nil {
			if s, err := w.agent.Establish("10.0.8.2:1025"); err == nil {
				x := &lsess{p: &lpeer{w: w, addr: "10.0.8.2:1025", host: "10.0.8.2"}, s: s, to: -1, closing: -1}
				sess = append(sess, x)
				w.ping(x, 3e6)
			}
		}
	})
	if !h.Await(first, long) {
		h.Fail("stuck", "establishing sessions does not end")
	}
	// innocent: a correct peer's connection to the agent, and its pings
	check := func(what string, p *lpeer) {
		x := cur[p]
		if x == nil || closing || p.onReq == nil || permanent() || w.hurt(p) {
			return
		}
		c := w.ping(x, 0)
		back := h.Await(c.task, bound)
		if closing || p.onReq == nil || permanent() || w.hurt(p) {
			return
		}
		if w.bad != "" {
			h.Fail("wire", "%s", w.bad)
		}
		if !back {
			h.Fail("harmed", "%s: a ping that a correct peer answers does not return within %v", what, bound)
		}
		if c.err != nil {
			h.Fail("harmed", "%s: a ping that a correct peer answers fails: %v", what, c.err)
		}
		h.Count("pings", 1)
	}
	// hostile connections
	type evil struct {
		raw *simConn
		c   net.Conn
		eof bool
	}
	conns := map[int]*evil{}
	write := func(c net.Conn, b []byte) {
		t := h.Go("evil", func() { c.Write(b) })
		h.Await(t, 20*time.Second)
	}
	lates := 0
	early := h.Plan.p("early") == 1
	step := func(who, i int, s *Step) {
		x := conns[who]
		switch s.Op {
		case "open":
			raw, err := h.Net.Dial(fmt.Sprintf("10.0.66.%d", who), w.addr)
			if err != nil {
				if !closing && !permanent() {
					h.Fail("harmed", "the agent does not accept: %v", err)
				}
				return
			}
			x = &evil{raw: raw.(*simConn), c: raw}
			conns[who] = x
			if w.conf.TLS != nil && s.n(0) == 1 {
				t := tls.Client(raw, w.conf.TLS)
				k := h.Go("handshake", func() {
					if t.Handshake() != nil {
						raw.Close()
					}
				})
				h.Await(k, time.Minute)
				x.c = t
			}
			h.Go("drain", func() {
				b := make([]byte, 64)
				for {
					if _, err := x.c.Read(b); err != nil {
						x.eof = true
						return
					}
				}
			})
		case "evil":
			if x == nil {
				return
			}
			h.Count("fault.hostile", 1)
			write(x.c, s.Data)
		case "good":
			if x != nil {
				p := peers[s.n(0)]
				write(x.c, ltFrame(ltMessage, (&lmsg{typ: lmPingResponse, host: p.host, port: p.port}).encode(0)))
			}
		case "bye":
			if x != nil {
				x.raw.Close()
			}
		case "byerst":
			if x != nil {
				x.raw.Reset()
			}
		case "byefin":
			if x != nil {
				x.raw.CloseWrite()
			}
		case "ping":
			check("while hostile peers are at work", peers[s.n(0)])
		}
	}
	var ts []*Task
	ts = tasksOf(h, func(who int) bool { return who < 50 }, step)
	if early {
		h.Sleep(us(h.Plan.p("after")))
	} else {
		if t := h.awaitAll(ts, long); t != nil {
			h.Fail("stuck", "%s does not end", t.Name)
		}
		h.Sleep(bound)
		for _, p := range peers {
			check("afterwards, on its own connection", p)
			p.ins = nil
			check("afterwards, on a new connection", p)
		}
		if w.wait.Ended {
			h.Fail("stopped", "the agent stopped serving: %v", w.werr)
		}
	}
	if permanent() && early {
		h.Sleep(bound)
		if !w.wait.Ended {
			h.Fail("stuck", "serving does not end after a permanent accept error")
		}
		h.Hit("permanent accept error")
	}
	// pings that wait while the agent is closed
	var waiting []*lping
	for _, p := range peers {
		p.onReq = nil
	}
	for _, x := range sess {
		if h.Chance(2, 3) {
			waiting = append(waiting, w.ping(x, 0))
		}
	}
	if h.Chance(1, 2) {
		h.Sleep(us(h.Plan.p("closegap")))
	}
	slow := us(0)
	h.Net.dialHook = func(from, to string) error {
		if lates > 0 && from == w.hosts && slow > 0 {
			time.Sleep(slow)
		}
		return nil
	}
	closedAt := time.Duration(-1)
	ls := tasksOf(h, func(who int) bool { return who >= 50 }, func(who, i int, s *Step) {
		if s.Op != "late" {
			return
		}
		lates++
		h.Hit("session established around the close")
		slow = us(s.n(1))
		p := peers[int(s.n(0))%n]
		if int(s.n(0)) == n && deaf != nil {
			p = deaf
		}
		began := h.Now()
		x, err := w.establish(p)
		if err != nil {
			return
		}
		if closedAt >= 0 && began > closedAt {
			h.Fail("closed", "a session is established although the agent is closed")
		}
		x.from = began
		sess = append(sess, x)
		waiting = append(waiting, w.ping(x, 0))
		if s.n(2) == 1 {
			x.s.Close()
		}
	})
	if h.Plan.p("closegap") > 0 && h.Chance(1, 2) {
		h.Sleep(us(h.Plan.p("closegap")))
	}
	closing = true
	var cs []*Task
	for i := int64(0); i < max(1, h.Plan.p("closers")); i++ {
		cs = append(cs, h.Go("close", func() { w.agent.Close() }))
	}
	limit := h.Slack() + 4*h.netMax() + time.Second + time.Duration(2*n+12)*h.tlsClose()
	if t := h.awaitAll(cs, limit); t != nil {
		h.Fail("stuck", "closing the agent does not return")
	}
	closedAt = h.Now()
	h.Sleep(time.Second + h.Slack())
	if !h.Await(w.wait, limit+bound) {
		h.Fail("stuck", "serving does not end after the agent was closed")
	}
	if t := h.awaitAll(ls, limit+us(3e6)); t != nil {
		h.Fail("stuck", "establishing a session after the agent was closed does not end")
	}
	h.Sleep(limit)
	for _, c := range waiting {
		if c.end < 0 {
			h.Fail("stuck", "a ping still waits after the agent was closed")
		}
	}
	if !w.lis.closed {
		h.Fail("open", "the listener is open after the agent was closed")
	}
	if t := h.Go("establish", func() {
		if _, err := w.agent.Establish(peers[0].addr); err == nil {
			h.Fail("closed", "a session is established although the agent is closed")
		}
	}); !h.Await(t, limit) {
		h.Fail("stuck", "establishing on a closed agent does not return")
	}
	for _, x := range sess {
		var err error
		t := h.Go("ping", func() { err = x.s.Ping(context.Background()) })
		if !h.Await(t, limit) {
			h.Fail("stuck", "a ping on a session of a closed agent waits")
		}
		if err == nil {
			h.Fail("closed", "a ping on a session of a closed agent succeeds")
		}
	}
	h.Sleep(time.Minute)
	for _, c := range h.Net.conns {
		if host(c.a.local) == w.hosts && !c.a.closed {
			h.Fail("open", "connection %d to %s is open after the agent was closed", c.id, c.a.remote)
		}
		if c.b.local == w.addr && !c.b.closed && c.b.accepted {
			h.Fail("open", "connection %d from %s is open after the agent was closed", c.id, c.a.local)
		}
	}
	// every goroutine of the agent's
	if gs := h.repoGoroutines(); len(gs) > 0 {
		h.Fail("running", "%s still runs after the agent was closed", topRepoFrame(gs[0]))
	}
	h.Count("sessions", int64(len(sess)))
}
