package main

import (
	"context"
	"fmt"
	"runtime"
	"time"

	"github.com/tg123/phabrik/lease"
)

func init() {
	register("C17", &World{Name: "ping", Weight: 3, Gen: gen17, Run: func(h *H) { runLease(h) }})
	register("C17", &World{Name: "loop", Weight: 1, Gen: gen17loop, Run: run17loop})
	register("C18", &World{Name: "sessions", Weight: 1, Gen: gen18, Run: func(h *H) { runLease(h) }})
}

func leaseAddr(i int) string {
	if i == 3 {
		return "[fd00::3]:1023"
	}
	return fmt.Sprintf("10.0.%d.%d:1025", i, i)
}

func genLease(g *Gen) {
	if g.chance(1, 4) {
		g.set("tls", g.pick(1, 2))
	}
	g.set("tcp", g.pick(0, 1))
	if g.chance(1, 3) {
		g.set("skip", g.between(1, 4)) // of four requests, how many are not answered
	}
	g.set("lag", g.pick(0, 0, 1, 2, 3))
	g.set("twice", g.pick(0, 0, 1))
}

func gen17(g *Gen) {
	genLease(g)
	n := 1 + g.width(3, 60)
	g.set("peers", int64(n))
	for _, w := range g.workers(1 + g.IntN(5)) {
		for k := g.rep(5); k >= 0; k-- {
			// the limit in microseconds; 0: none, -1: already over
			g.step("ping", g.delay(), w, g.pick(0, 0, -1, 50, 1000, 20000, 1e6, 5e6))
		}
	}
	for k := g.IntN(3); k > 0; k-- {
		g.step("resp", g.delay(), 40+k, g.Int64N(int64(n)), g.Int64N(3), lmPingResponse, 0)
	}
	if g.chance(1, 4) {
		g.step("noread", g.delay(), 60, g.Int64N(int64(n)))
		if g.chance(1, 2) {
			g.step("read", g.between(1e6, 20e6), 60, g.Int64N(int64(n)))
		}
	}
	if g.chance(1, 4) {
		g.step("close", g.delay()+g.delay(), 61, g.Int64N(int64(n)))
	}
	if g.chance(1, 6) {
		g.step("closeagent", g.delay()+g.delay(), 62)
	}
	if g.chance(1, 5) { // a session's connection breaks
		g.fault(int(g.Int64N(2*int64(n))), g.IntN(2), []string{"rst", "fin", "werr"}[g.IntN(3)], g.between(0, g.pick(400, 2000)), 0)
	}
	for k := g.rep(3); k > 0; k-- {
		g.step("clock", g.delay(), 63, g.pick(-3600e6, -1e6, 1e6, 3600e6, -1, 1))
	}
}

func gen18(g *Gen) {
	genLease(g)
	n := 1 + g.width(3, 60)
	g.set("peers", int64(n))
	for w := 0; w < 1+g.IntN(3); w++ {
		for k := g.rep(4); k >= 0; k-- {
			g.step("ping", g.delay(), w, g.pick(0, 50, 1000, 20000, 1e6, 5e6))
		}
	}
	for w := 40; w < 40+g.IntN(4); w++ {
		for k := g.rep(6); k >= 0; k-- {
			// whose connection, which one, message type, how the endpoint is misnamed
			g.step("resp", g.delay(), w, g.Int64N(int64(n)+1), g.Int64N(3), g.pick(3, 3, 3, 3, 0, 1, 2, 4, 5, 6, 7, 8, -1, 1<<31-1), g.pick(0, 0, 0, 1, 2, 3, 4, 5))
		}
	}
	for w := 64; w < 64+g.IntN(3); w++ {
		for k := g.rep(3); k >= 0; k-- {
			if g.chance(1, 2) {
				g.step("again", g.delay(), w, g.Int64N(int64(n)), g.pick(0, 1, 2), g.pick(0, 0, g.delay()+1), g.pick(0, 0, 1))
			} else {
				g.step("close", g.delay(), w, g.Int64N(int64(n)))
			}
		}
	}
	if g.chance(1, 3) {
		g.step("flock", g.delay(), 70, int64(1+g.width(4, 150)), g.between(2, 12)) // peers, pings
	}
	for k := g.rep(4); k > 0; k-- {
		g.step("clock", g.delay(), 63, g.pick(-3600e6, -1e6, 1e6, 3600e6, -1, 1))
	}
}

var lags = []int64{0, 200, 30000, 2500000}

// establish makes a session current.
func (w *lworld) establish(p *lpeer) (*lsess, error) {
	x := &lsess{p: p, to: -1, closing: -1, from: w.h.Now()}
	var err error
	x.s, err = w.agent.Establish(p.addr)
	if at, ok := w.dialed[p.addr]; ok && at > x.from {
		x.from = at // it cannot have been open before
	}
	x.fromMax = w.h.Now()
	return x, err
}

// ping calls Ping and records what it does.
func (w *lworld) ping(x *lsess, limit int64) *lping {
	h := w.h
	ctx, cancel := context.Background(), func() {}
	c := &lping{p: x.p, s: x, limit: -1, written: -1, end: -1}
	switch {
	case limit < 0:
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		c.limit = h.Now()
	case limit > 0:
		ctx, cancel = context.WithTimeout(ctx, us(limit))
		c.limit = h.Now() + us(limit)
	}
	x.p.begun++
	c.start, c.startT = h.Now(), time.Now()
	w.calls = append(w.calls, c)
	c.task = h.Go("ping", func() {
		c.err = x.s.Ping(ctx)
		c.end = h.Now()
		cancel()
	})
	return c
}

// runLease plays sessions of one agent and checks pings and the routing of responses.
func runLease(h *H) {
	w := newLworld(h, h.Plan.p("tcp") == 1)
	w.serve()
	n := int(h.Plan.p("peers"))
	skip, lag, twice := int(h.Plan.p("skip")), us(lags[h.Plan.p("lag")]), h.Plan.p("twice") == 1
	var peers []*lpeer
	cur := map[*lpeer]*lsess{}
	var sess []*lsess
	agentClosing := time.Duration(-1)
	setup := func(i int) *lpeer {
		p := w.peer(leaseAddr(i + 1))
		p.onReq = func(r *lreq) {
			if h.Chance(skip, 4) {
				return
			}
			k := len(p.reqs)
			h.Go("answer", func() {
				if lag > 0 {
					h.Sleep(time.Duration(h.Rand(int(lag/1000)+1)) * time.Microsecond)
				}
				p.answer(k)
				if twice && h.Chance(1, 2) {
					p.answer(k + h.Rand(2))
				}
			})
		}
		peers = append(peers, p)
		return p
	}
	establish := func(p *lpeer, d lbad) *lsess {
		w.dialing[p.addr] = d
		x, err := w.establish(p)
		delete(w.dialing, p.addr)
		if agentClosing >= 0 {
			if err == nil && x.from > agentClosing+h.Slack() {
				h.Fail("closed", "a session is established although the agent is closed")
			}
			return nil
		}
		if d.refuse {
			if err == nil {
				h.Fail("establish", "a session is established without a connection")
			}
			h.Hit("establishing fails")
			return nil
		}
		if err != nil {
			h.Fail("establish", "establishing a session failed: %v", err)
		}
		if old := cur[p]; old != nil && old.to < 0 {
			old.to = x.from
		}
		cur[p] = x
		sess = append(sess, x)
		return x
	}
	for i := 0; i < n; i++ {
		p := setup(i)
		t := h.Go("establish", func() { establish(p, lbad{}) })
		if !h.Await(t, long) {
			h.Fail("establish", "establishing a session does not end")
		}
	}
	bound := h.Slack() + 2*h.netMax() + h.tlsClose() + time.Second
	busy := map[*lpeer]*mutex{}
	for _, p := range peers {
		busy[p] = newMutex()
	}
	foreign := w.peer("10.0.9.9:9")
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "ping":
			x := cur[peers[who%n]]
			if x == nil {
				return
			}
			c := w.ping(x, s.n(0))
			if c.limit >= 0 {
				if !h.Await(c.task, max(0, c.limit-h.Now())+bound) {
					h.Fail("stuck", "a ping does not return although its context has ended")
				}
				return
			}
			h.Await(c.task, us(8e6))
		case "resp":
			p := foreign
			if s.n(0) < int64(n) {
				p = peers[s.n(0)]
			}
			for int64(len(p.ins)) <= s.n(1) {
				in := w.connect(p.host)
				if in == nil {
					return
				}
				p.ins = append(p.ins, in)
			}
			hs, port := p.host, p.port
			switch s.n(3) {
			case 1:
				hs += "0"
			case 2:
				port++
			case 3:
				hs = ""
			case 4:
				port = 0
			case 5: // another's
				o := peers[h.Rand(n)]
				hs, port = o.host, o.port
			}
			w.message(p.ins[s.n(1)], int32(s.n(2)), p, hs, port, h.Rand(3))
		case "noread":
			peers[s.n(0)].noRead = true
			h.Hit("peer stops reading")
		case "read":
			peers[s.n(0)].noRead = false
		case "close", "again":
			p := peers[s.n(0)]
			busy[p].lock()
			defer busy[p].unlock()
			x := cur[p]
			d := lbad{us(s.n(2)), s.n(3) == 1}
			if s.Op == "again" && (s.n(1) == 0 || x == nil) {
				establish(p, d)
				h.Hit("established again")
				return
			}
			if s.Op == "again" && s.n(1) == 1 {
				// the new one first, then the old one is closed
				establish(p, d)
				h.Hit("established before close")
			}
			if x == nil || x.closing >= 0 {
				return
			}
			x.closing = h.Now()
			t := h.Go("close", func() {
				if s.D%2 == 0 {
					h.Go("close too", func() { x.s.Close() })
				}
				x.s.Close()
			})
			if !h.Await(t, bound) {
				h.Fail("stuck", "closing a session does not return")
			}
			if x.to < 0 {
				x.to = x.closing
			}
			if s.Op == "again" && s.n(1) == 2 {
				establish(p, d)
				h.Hit("established after close")
			} else if cur[p] == x {
				c := w.ping(x, 0)
				c.quick = true
				if !h.Await(c.task, bound) {
					h.Fail("stuck", "a ping on a closed session waits")
				}
			}
		case "closeagent":
			agentClosing = h.Now()
			t := h.Go("close", func() { w.agent.Close() })
			if !h.Await(t, bound) {
				h.Fail("stuck", "closing the agent does not return")
			}
			for _, x := range sess {
				if x.to < 0 {
					x.to = agentClosing
				}
			}
		case "clock":
			runtime.SimWallStep(s.n(0) * 1000)
		case "flock":
			var ts []*Task
			for k := int64(0); k < s.n(0); k++ {
				p := setup(100 + int(k))
				ts = append(ts, h.Go("flock", func() {
					x := establish(p, lbad{})
					if x == nil {
						return
					}
					for j := int64(0); j < s.n(1); j++ {
						w.ping(x, 2e6)
					}
				}))
			}
			if t := h.awaitAll(ts, long); t != nil {
				h.Fail("stuck", "establishing sessions does not end")
			}
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	h.Sleep(us(6e6) + bound)
	w.checkPings(agentClosing, bound)
	w.checkPongs(sess, agentClosing)
	if w.bad != "" && !broken(h) {
		h.Fail("wire", "%s", w.bad)
	}
	// every connection to the agent is greeted, once
	for _, x := range w.lins {
		if agentClosing >= 0 || x.done || x.raw.pair.rstAt >= 0 || len(x.raw.rd.hit)+len(x.raw.wr.hit) > 0 || x.from+bound+us(5e6) > h.Now() {
			continue
		}
		if x.got != 12 {
			h.Fail("greeting", "a connection made at %v got %d bytes by %v", x.from, x.got, h.Now())
		}
		h.Count("greeted", 1)
	}
	// still usable: a last ping on every session that is open and whole
	if agentClosing < 0 {
		for _, p := range peers {
			x := cur[p]
			if x == nil || x.to >= 0 || p.noRead || w.hurt(p) {
				continue
			}
			p.onReq = func(*lreq) { h.Go("answer", func() { p.answer(0) }) }
			if len(p.ins) > 0 && p.ins[0].done {
				p.ins = nil
			}
			c := w.ping(x, 0)
			back := h.Await(c.task, bound+4*h.netMax()+us(5e6))
			if w.hurt(p) { // only now
				continue
			}
			if !back {
				h.Fail("last", "a ping that is answered does not return")
			}
			if c.err != nil {
				h.Fail("last", "a ping that is answered fails: %v", c.err)
			}
			if l := x.s.LastPongTime(); l.Before(c.startT) && l.Sub(c.startT) < -h.Slack() {
				h.Fail("last-pong", "a successful ping leaves the last pong time at %v before it", c.startT.Sub(l))
			}
			h.Count("last pings", 1)
		}
	}
	// every ping ends when its session does
	if agentClosing < 0 {
		agentClosing = h.Now()
	}
	for _, x := range sess {
		if x.to < 0 {
			x.to = agentClosing
		}
	}
	t := h.Go("close", func() { w.agent.Close() })
	if !h.Await(t, bound) {
		h.Fail("stuck", "closing the agent does not return")
	}
	h.Sleep(bound)
	w.checkPings(agentClosing, bound)
	for _, c := range w.calls {
		if c.end < 0 {
			h.Fail("stuck", "a ping still waits after the agent was closed")
		}
	}
	h.Count("pings", int64(len(w.calls)))
	h.Count("responses", int64(len(w.resps)))
}

// hurt reports whether a connection between the agent and p was broken by a fault.
func (w *lworld) hurt(p *lpeer) bool {
	for _, c := range w.h.Net.conns {
		if (host(c.a.local) == p.host || host(c.a.remote) == p.host) && (len(c.a.rd.hit) > 0 || len(c.a.wr.hit) > 0 || c.rstAt >= 0) {
			return true
		}
	}
	return false
}

func (w *lworld) checkPings(agentClosing, bound time.Duration) {
	h := w.h
	for _, c := range w.calls {
		now := h.Now()
		end := c.end
		if end < 0 {
			end = now
		}
		// a response that may have completed it, one that must have
		may, must := false, time.Duration(-1)
		for _, r := range w.resps {
			if r.ep != c.p.addr || r.typ != lmPingResponse || r.sent > end && r.end >= 0 {
				continue
			}
			took, seq := r.took()
			if r.end < 0 || took < 0 {
				continue
			}
			if took >= c.start-h.Slack() && took <= end {
				may = true
			}
			current := !w.torn(r.in.raw.pair) && c.s.fromMax < took && (c.s.to < 0 || took+h.Slack() < c.s.to)
			if current && c.written >= 0 && seq > c.written && took+h.Slack() < end && (must < 0 || took < must) {
				must = took
			}
		}
		for _, e := range w.calls { // nothing can be written any more
			if e.s == c.s && e.end >= 0 && e.err != nil && e.err != context.DeadlineExceeded && e.err != context.Canceled && e.end+h.Slack() < c.start {
				h.Count("pings of a broken session", 1)
				if c.start+bound < end {
					h.Fail("stuck", "a ping waits from %v to %v although writing failed at %v with %v", c.start, end, e.end, e.err)
				}
				break
			}
		}
		if c.end >= 0 && c.err == nil {
			if !may {
				h.Fail("unanswered", "a ping of %s that began at %v succeeded at %v although no response to it came", c.p.addr, c.start, c.end)
			}
			h.Count("pings answered", 1)
			continue
		}
		if must >= 0 {
			if c.end < 0 {
				h.Fail("lost-pong", "a ping of %s waits although the response came at %v", c.p.addr, must)
			}
			if must+h.Slack() < c.end {
				h.Fail("lost-pong", "a ping of %s ended at %v with %v although the response came at %v", c.p.addr, c.end, c.err, must)
			}
		}
		if c.end < 0 {
			if c.limit >= 0 && c.limit+bound < now {
				h.Fail("stuck", "a ping waits although its context ended at %v", c.limit)
			}
			cl := agentClosing
			if c.s.closing >= 0 && (cl < 0 || c.s.closing < cl) {
				cl = c.s.closing
			}
			if cl >= 0 && cl+bound < now {
				h.Fail("stuck", "a ping waits although its session was closed at %v", cl)
			}
			continue
		}
		if c.limit >= 0 && c.end >= c.limit && (c.err == context.DeadlineExceeded || c.err == context.Canceled) {
			if c.end > c.limit+bound {
				h.Fail("stuck", "a ping ended at %v although its context ended at %v", c.end, c.limit)
			}
			continue
		}
		if c.s.closing >= 0 && c.end >= c.s.closing || agentClosing >= 0 && c.end >= agentClosing {
			continue
		}
		if w.hurt(c.p) {
			h.Hit("ping failed by a fault")
			continue
		}
		h.Fail("spurious", "a ping of %s failed at %v with %v, its context ends at %v", c.p.addr, c.end, c.err, c.limit)
	}
}

// checkPongs compares the last pong times with the responses that came.
// torn: TLS may have taken a message of the connection and ended before it came to it
func (w *lworld) torn(p *connPair) bool {
	return w.conf.TLS != nil && (p.rstAt >= 0 || len(p.a.rd.hit)+len(p.a.wr.hit) > 0)
}

func (w *lworld) checkPongs(sess []*lsess, agentClosing time.Duration) {
	h := w.h
	for _, x := range sess {
		l := x.s.LastPongTime()
		have := time.Duration(-1)
		if !l.IsZero() {
			have = l.Sub(w.t0)
		}
		known := false
		for _, r := range w.resps {
			took, _ := r.took()
			if r.typ != lmPingResponse || r.ep != x.p.addr || took < 0 {
				continue
			}
			if have >= 0 && took <= have+time.Millisecond && took+h.Slack() >= have {
				known = true
			}
			if w.torn(r.in.raw.pair) {
				continue
			}
			if took > x.fromMax && (x.to < 0 || took+h.Slack() < x.to) && took+h.Slack() < h.Now() && have < took {
				h.Fail("last-pong", "a response from %s came at %v, the session's last pong is at %v", x.p.addr, took, have)
			}
		}
		if have >= 0 && !known {
			h.Fail("last-pong", "the last pong of the session with %s is at %v, when no response from it came", x.p.addr, have)
		}
	}
}

func gen17loop(g *Gen) {
	genLease(g)
	wide(g)
	g.set("skip", g.pick(0, 2, 4))
	g.set("interval", g.pick(1000, 100e3, 1e6, 30e6))
	g.set("for", g.pick(0, 1000, 5e6, 100e6, 700e6))
	g.set("limit", g.pick(0, 1))
	if g.chance(1, 4) {
		g.step("noread", g.delay(), 60)
	}
	if g.chance(1, 4) {
		g.step("close", g.delay()+g.delay(), 61)
	}
	if g.chance(1, 4) {
		g.fault(0, 0, []string{"rst", "fin", "werr"}[g.IntN(3)], g.between(0, 5000), 0)
	}
}

// run17loop watches the ping loop.
func run17loop(h *H) {
	w := newLworld(h, h.Plan.p("tcp") == 1)
	w.serve()
	skip, lag := int(h.Plan.p("skip")), us(lags[h.Plan.p("lag")])
	p := w.peer(leaseAddr(1))
	p.onReq = func(r *lreq) {
		if !h.Chance(skip, 4) {
			h.Go("answer", func() { h.Sleep(lag); p.answer(0) })
		}
	}
	x, err := w.establish(p)
	if err != nil {
		h.Fail("establish", "establishing a session failed: %v", err)
	}
	iv, d := us(h.Plan.p("interval")), us(h.Plan.p("for"))
	if d > 400*iv {
		d = 400 * iv
	}
	ctx, cancel := context.WithCancel(context.Background())
	if h.Plan.p("limit") == 1 {
		ctx, cancel = context.WithTimeout(context.Background(), d)
	}
	defer cancel()
	start := h.Now()
	var lerr error
	loop := h.Go("loop", func() { lerr = lease.PingLoop(ctx, x.s, iv) })
	closing := time.Duration(-1)
	stopped := time.Duration(-1)
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "noread":
			p.noRead = true
			stopped = h.Now()
		case "close":
			closing = h.Now()
			x.s.Close()
		}
	})
	h.Sleep(d)
	over := h.Now()
	if loop.Ended && h.Plan.p("limit") == 0 {
		h.Fail("loop", "the ping loop ended with %v although its context has not", lerr)
	}
	cancel()
	if !h.Await(loop, h.Slack()+10*time.Millisecond) {
		h.Fail("loop", "the ping loop does not end with its context")
	}
	if lerr == nil || lerr != ctx.Err() {
		h.Fail("loop", "the ping loop returned %v instead of %v", lerr, ctx.Err())
	}
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	if w.bad != "" && !broken(h) {
		h.Fail("wire", "%s", w.bad)
	}
	// it pings at least once in two intervals
	last := start
	most := 2*iv + h.Slack() + 3*h.netMax() + 10*time.Millisecond
	most += time.Duration(h.Plan.Sched.Stalls) * iv // a ping stalled until its context ended is not written
	if w.conf.TLS != nil {
		most += 4 * h.netMax()
	}
	until := over
	for _, t := range []time.Duration{closing, stopped} {
		if t >= 0 && t < until {
			until = t
		}
	}
	if !w.hurt(p) {
		for _, r := range p.reqs {
			if r.at > until {
				break
			}
			if r.at-last > most {
				h.Fail("loop", "no ping between %v and %v, the interval is %v", last, r.at, iv)
			}
			last = r.at
		}
		if until-last > most {
			h.Fail("loop", "no ping between %v and %v, the interval is %v", last, until, iv)
		}
		if len(p.reqs) > 2 {
			h.Hit("several pings")
		}
	}
	h.Count("pings", int64(len(p.reqs)))
}
