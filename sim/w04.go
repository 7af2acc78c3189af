package main

import (
	"context"
	"fmt"
	"runtime"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C04", &World{Name: "peer", MaxSpin: 20e6, Weight: 5, Gen: gen04, Run: run04})
	register("C04", &World{Name: "pair", Weight: 1, Gen: gen04pair, Run: run04pair})
}

// What the reference peer does with the k-th heartbeat request (by policy of the ping).
const (
	pgAnswer = iota
	pgDelay
	pgTwice
	pgTwiceLate
	pgNever
	pgGarbage // malformed responses, then the answer
	pgStale   // repeats older answers first
	pgWrong   // an answer nobody asked for first
	nPg
)

func gen04(g *Gen) {
	g.set("server", g.pick(0, 1))
	genConf(g, 1, 6)
	wide(g)
	n := 1 + g.IntN(3)
	if g.chance(1, 2) {
		n = 1 // one pinger: every answer can be attributed exactly
	}
	ws := g.workers(n)
	n = len(ws)
	m := int64(7)
	if g.Thorough {
		m = 15
	}
	all := int64(-1)
	if n > 1 {
		// several pingers: all pings of the run are treated alike
		all = g.pick(pgAnswer, pgDelay, pgTwice, pgTwiceLate, pgNever, pgGarbage, pgStale, pgWrong)
	}
	for _, w := range ws {
		for i := g.rep(int(m)); i >= 0; i-- {
			pol := all
			if pol < 0 {
				pol = g.Int64N(nPg)
			}
			tmo := int64(0)
			if pol == pgNever || g.chance(1, 2) {
				tmo = 1 + g.between(0, g.pick(10, 2000, 200000, 5000000))
			}
			g.step("ping", g.pick(0, g.delay()), w, pol, tmo, g.delay(), g.Int64N(3))
		}
	}
	for i := g.rep(6); i > 0; i-- {
		g.step("beat", g.delay(), 20, g.Int64N(1<<40), g.pick(0, 9, 17, 300))
	}
	if g.chance(1, 4) { // many at once, of a peer that does not read for a while
		g.step("beats", g.delay(), 21, g.Int64N(1<<40), g.pick(9, 300, 5000), g.between(2, g.pick(10, 40, 150)), g.pick(0, g.brief()))
	}
	for i := 0; i < g.IntN(4); i++ {
		g.step([]string{"req", "msg"}[g.IntN(2)], g.delay(), 10+i, g.delay())
	}
	for i := 0; i < g.IntN(5); i++ {
		g.step("clock", g.delay(), 40, g.pick(-1, 1)*g.pick(1, 1000, 1e6, 5e9, 3600e9, 365*24*3600e9))
	}
	genStall(g)
	if g.chance(1, 5) {
		g.step([]string{"close", "rst", "peerclose", "peerfin"}[g.IntN(4)], g.delay()+g.delay(), 30)
	}
}

type cping struct {
	begin, end time.Duration
	beginSeq   int64
	endSeq     int64
	ctxAt      time.Duration
	pol, arg   int64
	done       bool
	err        error
	d          time.Duration
	// filled when the peer can attribute the heartbeat (single pinger)
	beat     string
	ansAt    time.Duration // when the right answer had been written; -1
	ansBegin int64         // event number when the peer began to write it; 0
	took     time.Duration // from receiving the request to answering it
}

func run04(h *H) {
	l := &link{h: h, server: h.Plan.p("server") == 1}
	var pings []*cping
	pingers := map[int]bool{}
	for i := range h.Plan.Steps {
		if h.Plan.Steps[i].Op == "ping" {
			pingers[h.Plan.Steps[i].Who] = true
		}
	}
	single := len(pingers) <= 1
	allPol := int64(-1)
	for i := range h.Plan.Steps {
		if s := &h.Plan.Steps[i]; s.Op == "ping" {
			allPol = s.n(0)
		}
	}
	var old []string
	answered := map[string]bool{} // payloads the peer has begun to answer
	l.start(func(c transport.Conn, m *transport.ByteArrayMessage) {
		if l.server && m.Headers.Action == "block" {
			h.Sleep(24 * time.Hour) // a callback of the server that takes for ever
		}
	}, func(p *RawPeer) {
		p.OnBeat = func(m *RMsg) {
			// by position: one pinger, so the latest begun ping is the one
			var q *cping
			var at time.Duration
			pol, arg := allPol, int64(0)
			if single {
				for _, x := range pings {
					if x.beat == "" && (q == nil || x.beginSeq < q.beginSeq) {
						q = x
					}
				}
				if q == nil {
					h.Fail("ping", "a heartbeat request was sent that no ping accounts for")
				}
				q.beat = string(m.Body)
				for _, x := range pings {
					if x != q && x.beat == q.beat && x.beat != "" {
						// allowed: a payload may repeat only if it cannot be confused; it can
						h.Fail("ping", "two heartbeat requests of a connection carry the same payload %x", m.Body)
					}
				}
				pol, arg = q.pol, q.arg
			}
			ans := func(b []byte) {
				answered[string(b)] = true
				p.Send(&RMsg{Actor: aTransport, HighPri: true, Action: "HeartbeatResponse", Body: b})
			}
			right := func() {
				if q != nil && q.ansBegin == 0 {
					q.ansBegin = h.Seq()
					q.took = h.Now() - at
				}
				ans(m.Body)
				if q != nil && q.ansAt < 0 {
					q.ansAt = h.Now()
				}
			}
			at = h.Now()
			prev := append([]string(nil), old...)
			old = append(old, string(m.Body))
			go func() {
				switch pol {
				case pgNever:
					return
				case pgDelay, pgTwiceLate:
					h.Sleep(us(arg))
				case pgGarbage:
					for _, b := range [][]byte{{}, {1, 2, 3}, object(func(e *enc) { e.str("x") }), m.Body[:len(m.Body)/2]} {
						ans(b)
					}
				case pgStale:
					for _, b := range prev[max(0, len(prev)-12):] {
						ans([]byte(b))
					}
				case pgWrong:
					ans(object(func(e *enc) { e.i64(1) }))
					ans(object(func(e *enc) { e.i64(-5) }))
				}
				right()
				switch pol {
				case pgTwice:
					ans(m.Body)
				case pgTwiceLate:
					h.Sleep(us(arg))
					ans(m.Body)
				}
			}()
		}
	})
	if !l.ready() {
		return
	}
	bound := h.Slack() + h.netMax() + h.tlsClose()
	for i := range h.Plan.Steps {
		if s := &h.Plan.Steps[i]; s.Op == "beats" {
			bound += us(s.n(3))
		}
	}
	type beat struct {
		payload string
		at      time.Duration
	}
	var beats []beat
	do := func(who, i int, s *Step) {
		switch s.Op {
		case "close":
			l.conn.Close()
		case "rst":
			l.raw.Reset()
		case "peerclose":
			l.peer.raw.Close()
		case "peerfin":
			l.peer.raw.CloseWrite()
		case "clock":
			runtime.SimWallStep(s.n(0))
			h.Hit("wall clock moved")
		case "req":
			ctx, cancel := context.WithTimeout(context.Background(), us(s.n(0)))
			l.conn.RequestReply(ctx, &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "q"}})
			cancel()
		case "msg":
			l.peer.Send(&RMsg{Actor: 5, Action: "block"})
		case "beat":
			b := make([]byte, s.n(1))
			for k := range b {
				b[k] = byte(s.n(0) >> (k % 5 * 8))
			}
			if len(b) > 8 {
				b[8] = byte(i)
			}
			if l.peer.Beat(b) == nil {
				beats = append(beats, beat{string(b), h.Now()})
			}
		case "beats":
			l.peer.NoRead = s.n(3) > 0
			t := h.Go("beats", func() {
				for k := int64(0); k < s.n(2); k++ {
					b := body(fmt.Sprintf("b%d.", k), i, max(9, int(s.n(1))))
					if l.peer.Beat(b) == nil {
						beats = append(beats, beat{string(b), h.Now()})
					}
				}
			})
			h.Sleep(us(s.n(3)))
			l.peer.NoRead = false
			h.Await(t, long)
		case "ping":
			q := &cping{begin: h.Now(), beginSeq: h.Seq(), ctxAt: -1, ansAt: -1, pol: s.n(0), arg: s.n(2)}
			pings = append(pings, q)
			ctx, cancel := context.Background(), context.CancelFunc(func() {})
			if s.n(1) > 0 {
				d := us(s.n(1) - 1)
				q.ctxAt = h.Now() + d
				if s.n(3) == 0 {
					ctx, cancel = context.WithCancel(ctx)
					c := cancel
					if d == 0 {
						cancel()
					} else {
						time.AfterFunc(d, func() { c() })
					}
				} else {
					ctx, cancel = context.WithTimeout(ctx, d)
				}
			}
			q.d, q.err = l.conn.Ping(ctx)
			q.end, q.endSeq, q.done = h.Now(), h.Seq(), true
			cancel()
			if q.err == nil {
				h.Count("pings", 1)
				if q.d < 0 || q.d > q.end-q.begin {
					h.Fail("duration", "a ping that took %v reported %v", q.end-q.begin, q.d)
				}
				if single {
					if q.ansBegin == 0 {
						h.Fail("unanswered", "a ping succeeded that the peer had not answered")
					}
					if q.d < q.took {
						h.Fail("duration", "a ping reported %v although the peer took %v to answer", q.d, q.took)
					}
				} else {
					ok := 0
					for _, x := range pings {
						if x.done && x.err == nil {
							ok++
						}
					}
					n := 0
					for _, b := range old {
						if answered[b] {
							n++
						}
					}
					if ok > n {
						h.Fail("unanswered", "%d pings succeeded, the peer has answered %d", ok, n)
					}
				}
			}
		}
	}
	overdue := func(q *cping, now time.Duration) {
		state := "is still waiting"
		if q.done {
			state = "ended"
		}
		if q.ctxAt >= 0 && now > max(q.ctxAt, q.begin)+bound {
			h.Fail("late", "a ping %s %v after its context was done", state, now-q.ctxAt)
		}
		if d := l.down(); d >= 0 && now > max(d, q.begin)+bound {
			h.Fail("late", "a ping %s %v after the connection went down", state, now-d)
		}
		if q.ansAt >= 0 && now > max(q.ansAt, q.begin)+bound && l.down() < 0 {
			h.Fail("late", "a ping %s %v after it was answered", state, now-q.ansAt)
		}
		if !single && allPol != pgNever && allPol != pgDelay && allPol != pgTwiceLate && l.down() < 0 && now > q.begin+2*bound {
			h.Fail("late", "a ping %s %v after it began, all are answered at once", state, now-q.begin)
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	deadline := h.Now() + 40*time.Hour
	for _, t := range ts {
		for !t.Ended && h.Now() < deadline {
			h.Await(t, 10*time.Second)
			for _, q := range pings {
				if !q.done {
					overdue(q, h.Now())
				}
			}
		}
		if !t.Ended {
			h.Fail("stuck", "%s does not end", t.Name)
		}
	}
	h.Sleep(time.Hour)
	gone := l.down() >= 0 || broken(h)
	for _, q := range pings {
		overdue(q, q.end)
		if q.err != nil && l.down() < 0 && (q.ctxAt < 0 || q.end < q.ctxAt) {
			h.Fail("failed", "a ping failed after %v although its context was not done and the connection is up: %v", q.end-q.begin, q.err)
		}
		if q.err != nil && single && q.ansAt >= 0 && q.ctxAt > q.ansAt+bound && q.ctxAt > q.begin+bound && l.down() < 0 {
			h.Fail("failed", "a ping failed although it was answered in time: %v", q.err)
		}
	}
	if gone {
		h.Hit("down")
		return
	}
	// the connection still works: one more ping, answered at once
	allPol = pgAnswer
	t := h.Go("last", func() { do(0, 0, &Step{Op: "ping", N: []int64{pgAnswer, 0}}) })
	if !h.Await(t, 3*bound) {
		h.Fail("spoiled", "the last ping was answered and does not end")
	}
	if q := pings[len(pings)-1]; q.err != nil {
		h.Fail("spoiled", "the last ping was answered and failed: %v", q.err)
	}
	if l.peer.Bad != "" {
		h.Fail("wire", "%s", l.peer.Bad)
	}
	// every heartbeat of the peer was answered with its payload
	have := map[string]int{}
	for _, m := range l.peer.Pongs {
		have[string(m.Body)]++
	}
	for _, b := range beats {
		have[b.payload]--
		if have[b.payload] < 0 {
			h.Fail("no-pong", "a heartbeat request with payload %x was not answered", b.payload)
		}
	}
	for p, n := range have {
		if n != 0 {
			h.Fail("pong", "payload %x was answered %d times too often", p, n)
		}
	}
}

func gen04pair(g *Gen) {
	genConf(g, 1, 3)
	wide(g)
	for _, w := range []int{0, 1, 10, 11} {
		for i := g.rep(6); i > 0; i-- {
			g.step("ping", g.delay(), w, 0)
		}
	}
	for i := 0; i < g.IntN(3); i++ {
		g.step("clock", g.delay(), 40, g.pick(-1, 1)*g.pick(1000, 5e9, 365*24*3600e9))
	}
}

// run04pair pings between a real client and a real server.
func run04pair(h *H) {
	p := &pair{h: h}
	none := func(transport.Conn, *transport.ByteArrayMessage) {}
	p.start(none, none)
	if !h.Await(p.up, long) || p.dialErr != nil || !h.Until(long, func() bool { return p.srvConn != nil }) {
		h.Fail("connect", "connecting failed: %v", p.dialErr)
	}
	bound := 2 * (h.Slack() + h.netMax())
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		if s.Op == "clock" {
			runtime.SimWallStep(s.n(0))
			return
		}
		var c transport.Conn = p.cli
		if who >= 10 {
			c = p.srvConn
		}
		t0 := h.Now()
		d, err := c.Ping(context.Background())
		e := h.Now() - t0
		if err != nil {
			h.Fail("failed", "a ping failed without any fault: %v", err)
		}
		if d < 0 || d > e {
			h.Fail("duration", "a ping that took %v reported %v", e, d)
		}
		if e > bound {
			h.Fail("late", "a ping took %v", e)
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
}
