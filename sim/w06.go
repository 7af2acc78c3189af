package main

import (
	"context"
	"encoding/binary"
	"fmt"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C06", &World{Name: "peer", Weight: 6, Gen: gen06, Run: run06})
	register("C06", &World{Name: "pair", AllocCap: 1 << 30, Weight: 2, Gen: gen06pair, Run: run06pair})
}

// How the reference peer spoils a frame.
const (
	hurtByte    = iota // one byte anywhere
	hurtBurst          // up to four neighbouring bytes of the contents
	hurtHeader         // one byte of what the header checksum covers
	hurtHeadCRC        // the header checksum
	hurtBodyCRC        // the body checksum
	hurtCut            // the frame ends early, then the connection does
	hurtCutRst
	hurtZeroHead // no header checksum
	hurtZeroBody // no body checksum
	nHurt
)

func gen06(g *Gen) {
	g.set("server", g.pick(0, 1))
	wide(g)
	// what is generated by the system and what is checked; the peer generates both
	g.set("chk", g.pick(3, 3, 3, 1, 2, 0)) // bit 0: header, bit 1: body
	g.set("nohchk", 1-g.P.p("chk")&1)
	g.set("bchk", g.P.p("chk")>>1)
	g.set("bgen", g.pick(0, 1))
	n := g.between(2, 10)
	at := g.Int64N(n)
	for i := int64(0); i < n; i++ {
		s := g.step("m", g.pick(0, 0, g.delay()), 20, g.Int64N(1<<40), sizeDist(g, true))
		if i == at {
			s.Op = "hurt"
			s.N = append(s.N, g.Int64N(nHurt), g.Int64N(1<<30), g.between(1, 255), g.pick(0, 1))
		}
	}
	for w := 0; w < g.IntN(3); w++ {
		for i := int64(0); i < g.between(1, 4); i++ {
			// shape, size, delay of the reply, how it is spoilt (or -1)
			g.step("req", g.delay(), w, g.Int64N(1<<40), sizeDist(g, true), g.delay(), g.pick(-1, -1, -1, g.Int64N(nHurt)), g.Int64N(1<<30), g.between(1, 255))
		}
	}
	genStall(g)
}

// hurt spoils a frame; ok if the system has to accept it all the same.
func hurt(b []byte, kind, off, mask int64, chk int64) (out []byte, ok, sure bool) {
	b = append([]byte(nil), b...)
	head, bodyc := chk&1 != 0, chk&2 != 0
	flip := func(i int64) { b[i] ^= byte(mask) }
	n := int64(len(b))
	switch kind {
	case hurtByte:
		if head && bodyc {
			flip(off % n)
			return b, false, true
		}
		if head { // only what the checksum covers
			flip([]int64{0, 1, 2, 3, 4, 5, 6, 7}[off%8])
			return b, false, true
		}
		if bodyc {
			flip(8 + off%(n-8))
			return b, false, true
		}
		return b, true, true
	case hurtBurst:
		if !bodyc {
			return b, true, true
		}
		i := frameHdr + off%(n-frameHdr)
		for k := int64(0); k <= mask%4 && i+k < n; k++ {
			flip(i + k)
		}
		return b, false, true
	case hurtHeader:
		if !head {
			return b, true, true
		}
		flip([]int64{0, 1, 2, 3, 4, 6, 7}[off%7])
		return b, false, true
	case hurtHeadCRC:
		flip(5)
		return b, !head, true
	case hurtBodyCRC:
		flip(8 + off%4)
		return b, !bodyc, true
	case hurtZeroHead:
		ok := !head || b[5] == 0
		b[5] = 0
		return b, ok, true
	case hurtZeroBody:
		ok := !bodyc || binary.LittleEndian.Uint32(b[8:]) == 0
		copy(b[8:12], []byte{0, 0, 0, 0})
		return b, ok, true
	}
	return b[:off%n], false, true
}

func run06(h *H) {
	l := &link{h: h, server: h.Plan.p("server") == 1}
	in := newHistory(h, "to the system")
	chk := h.Plan.p("chk")
	wire := map[string]int{} // position on the wire
	bad, badAt := -1, h.Now()
	late := func(k string) {
		if bad >= 0 && wire[k] > bad {
			h.Fail("after", "a message sent after the spoilt frame was delivered")
		}
		if bad >= 0 && wire[k] == bad {
			h.Fail("spoilt", "the message of a spoilt frame was delivered")
		}
	}
	send := func(m *sent, kind, off, mask int64) {
		p := l.peer
		p.wr.lock()
		defer p.wr.unlock()
		if bad >= 0 && kind >= 0 {
			kind = -1 // one spoilt frame is enough
		}
		b := m.exp.encode(frameCfg{headCRC: true, bodyCRC: true})
		p.wireN++
		wire[m.key] = p.wireN
		m.begun = true
		ok := true
		if kind >= 0 {
			b, ok, _ = hurt(b, kind, off, mask, chk)
			h.Hit(fmt.Sprintf("spoilt%d", kind))
			if !ok {
				bad = p.wireN
				h.Count("fault.corrupt", 1)
			}
		}
		_, m.err = p.c.Write(b)
		m.done = true
		if !ok {
			badAt = h.Now()
			if kind == hurtCut {
				p.raw.CloseWrite()
			} else if kind == hurtCutRst {
				h.Sleep(h.netMax()) // let the rest arrive
				p.raw.Reset()
				badAt = h.Now()
			}
		}
	}
	l.start(func(c transport.Conn, m *transport.ByteArrayMessage) {
		s := in.deliver(fromBAM(m))
		late(s.key)
		s.done = true
	}, func(p *RawPeer) {
		p.want = &frameCfg{headCRC: true, bodyCRC: h.Plan.p("bgen") == 1}
		p.cfg = frameCfg{headCRC: true, bodyCRC: true}
	})
	if !l.ready() {
		return
	}
	replies := map[string]*Step{}
	l.peer.OnMsg = func(m *RMsg) {
		s := replies[msgKey(m)]
		if s == nil {
			return
		}
		no := 0
		for &h.Plan.Steps[no] != s {
			no++
		}
		rep := &sent{key: key(body("reply", no, 0)), who: 300, i: 0}
		rep.exp = &RMsg{ID: l.peer.NewID(), Rel: m.ID, Actor: m.Actor, Body: body("reply", no, 40)}
		if in.sent[rep.key] != nil {
			return
		}
		in.add(rep)
		go func() {
			h.Sleep(us(s.n(2)))
			send(rep, s.n(3), s.n(4), s.n(5))
		}()
	}
	type req struct {
		err  error
		done bool
	}
	var reqs []*req
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "m", "hurt":
			m := makeMsg(who, i, s.n(0), int(s.n(1)))
			if m.refuse {
				return
			}
			m.msg = nil
			m.exp.ID = l.peer.NewID()
			in.add(m)
			kind := int64(-1)
			if s.Op == "hurt" {
				kind = s.n(2)
			}
			send(m, kind, s.n(3), s.n(4))
		case "req":
			m := makeMsg(who+100, i, s.n(0), int(s.n(1)))
			m.msg.Headers.RelatesTo = transport.MessageId{}
			replies[m.key] = s
			q := &req{}
			reqs = append(reqs, q)
			r, err := l.conn.RequestReply(context.Background(), m.msg)
			q.err, q.done = err, true
			if err == nil {
				x := in.deliver(fromBAM(r))
				late(x.key)
				x.done = true
			}
		}
	})
	bound := h.Slack() + 2*h.netMax()
	for i, t := range ts {
		if !h.Await(t, long) && bad < 0 {
			h.Fail("stuck", "task %d does not end although nothing was spoilt", i)
		}
	}
	h.Sleep(bound + us(3000000))
	if bad < 0 {
		if l.raw.closed || l.wait != nil && l.wait.Ended {
			h.Fail("rejected", "the connection was ended although every frame was in order for what is checked: %v", l.waitErr)
		}
		if in.pending() > 0 {
			h.Fail("rejected", "%d messages in order for what is checked were not delivered", in.pending())
		}
	} else {
		h.Hit("spoilt")
		if e := badAt + bound - h.Now(); e > 0 {
			h.Sleep(e)
		}
		if !l.raw.closed {
			h.Fail("open", "the connection is still open %v after a spoilt frame", h.Now()-badAt)
		}
		if l.wait != nil {
			if !l.wait.Ended {
				h.Fail("open", "the receive loop goes on after a spoilt frame")
			}
			if l.waitErr == nil {
				h.Fail("no-error", "the receive loop ended without an error after a spoilt frame")
			}
		}
		for _, q := range reqs {
			if !q.done {
				h.Fail("stuck", "a request does not end after a spoilt frame")
			}
		}
	}
	if l.peer.Bad != "" {
		h.Fail("wire", "%s", l.peer.Bad)
	}
	in.check()
}

func gen06pair(g *Gen) {
	genConf(g, 1, 6)
	for _, k := range []string{"nohgen", "nohchk"} {
		g.set(k, 0)
	}
	for _, k := range []string{"bgen", "bchk"} {
		g.set(k, 1)
	}
	genTraffic(g, []int{0, 1, 10, 11}[:g.IntN(4)+1], 6)
	g.fault(0, g.IntN(2), "flip", g.between(0, g.pick(300, 3000, 20000)), g.between(1, 255))
	if g.chance(1, 4) {
		g.fault(0, 1-g.P.Faults[0].Dir, "flip", g.between(0, g.pick(300, 3000, 20000)), g.between(1, 255))
	}
}

func run06pair(h *H) {
	run01pair(h)
	if h.Net.stats["fault.flip"] == 0 || h.Plan.p("tls") != 0 { // a TLS record may have become longer: only safety is checked
		return
	}
	h.Hit("flipped")
	h.Sleep(long)
	c := h.Net.conns[0]
	if !c.a.closed && !c.b.closed {
		h.Fail("open", "a byte was altered in transit and the connection is still open")
	}
}
