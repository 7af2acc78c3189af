package main

import (
	"context"
	"fmt"
	"net"
	"time"

	"github.com/tg123/phabrik/transport"
)

func gen15(g *Gen) {
	genFed(g)
	n := 1 + g.width(4, 80)
	g.ids(n)
	g.set("seeds", int64(1+g.IntN(n)))
	if g.chance(3, 4) {
		wide(g)
	}
	for i := 0; i < n; i++ {
		g.step("node", 0, 0, int64(i), g.pick(stUp, stUp, stUp, stUp, stDown, stCut, stSlam))
	}
	ws := g.workers(1 + g.IntN(7))
	if len(ws) > 10 {
		wide(g)
	}
	for _, w := range ws {
		for i := g.rep(7); i >= 0; i-- {
			g.step([]string{"send", "send", "send", "route", "burst"}[g.IntN(5)], g.pick(0, 0, g.delay(), g.between(0, 60e6)), w, int64(g.IntN(n)), g.pick(20, 200, 2000), g.between(2, 6))
		}
	}
	if g.chance(2, 3) {
		for w := 30; w < 30+n; w++ {
			for i := g.rep(5); i > 0; i-- {
				switch g.IntN(4) {
				case 0:
					g.step("state", g.pick(0, g.delay(), g.between(0, 60e6)), w, int64(w-30), g.pick(stUp, stUp, stDown, stCut, stSlam, stRestart))
				default: // how: 0 close, 1 reset, 2 reject, 3 half close
					g.step("break", g.pick(0, g.delay(), g.between(0, 20e6)), w, int64(w-30), g.pick(0, 0, 1, 1, 2, 2, 3))
				}
			}
		}
	}
	if g.chance(1, 5) {
		g.fault(1+g.IntN(5), g.IntN(2), "rst", g.between(0, 3000), 0)
	}
	if g.chance(1, 3) {
		g.step("in", g.delay(), 60)
	}
	if g.chance(1, 3) {
		g.step("leasein", g.delay(), 61)
	}
	if smallNet(g) { // writing into a partition blocks
		for i := range g.P.Steps {
			if s := &g.P.Steps[i]; (s.Op == "node" || s.Op == "state") && s.n(1) == stCut {
				s.N[1] = stDown
			}
		}
	}
	g.set("early", g.pick(0, 0, 1)) // closed while the rest goes on
	g.set("closeat", g.pick(g.delay(), g.between(0, 60e6)))
	g.set("closers", g.pick(1, 1, 2, 3))
	g.set("slow", g.pick(0, 0, 0, g.delay()))
}

type fsend struct {
	name    string
	x       *fnode
	at, end time.Duration
	err     error
	got     int
	ended   bool
	route   bool
}

// broken is when the other side, or the network, ended a connection of the system's.
func (w *fworld) broken(p *connPair) time.Duration {
	at := time.Duration(-1)
	put := func(t time.Duration) {
		if at < 0 || t < at {
			at = t
		}
	}
	if p.rstAt >= 0 && (!p.a.closed || p.a.ClosedAt >= time.Duration(p.rstAt)) {
		put(time.Duration(p.rstAt))
	}
	if p.b.closed {
		put(p.b.ClosedAt)
	}
	if t, ok := w.ended[p]; ok { // half closed or rejected
		put(t)
	}
	return at
}

func run15(h *H) {
	w := newFworld(h)
	n := int(h.Plan.p("n"))
	var seeds []finfo
	for i := 0; i < n; i++ {
		x := w.stub(h.Plan.nodeInfo(i, 1, 3, 0))
		x.mute = true
		if i < int(h.Plan.p("seeds")) {
			seeds = append(seeds, x.info)
		}
	}
	for _, s := range h.Plan.Steps {
		if s.Op == "node" {
			w.list[s.n(0)].set(s.n(1))
		}
	}
	for _, x := range w.list {
		if x.hist == nil {
			x.set(stUp)
		}
	}
	bound := h.Slack() + 2*h.netMax()
	reach := 12*bound + h.tlsClose() + us(h.Plan.p("slow"))
	closing := time.Duration(-1)
	w.dialAt = func(addr string) {
		if h.Plan.p("dialer") == 0 {
			for _, d := range w.dials {
				if d.addr == addr && d.done < 0 {
					h.Fail("dials", "%s is dialled while it is being dialled", addr)
				}
			}
		}
		if closing >= 0 && h.Now() > closing+bound {
			h.Fail("closed", "the closed node dials %s", addr)
		}
		if h.Plan.p("slow") > 0 {
			h.Sleep(us(h.Plan.p("slow")))
		}
	}
	w.start(seeds)
	var infos []finfo
	for _, x := range w.list {
		infos = append(infos, x.info)
	}
	p := w.dialIn("10.5.0.1")
	if p == nil {
		h.Fail("setup", "cannot connect to the node")
	}
	w.send(p, &RMsg{Actor: aFederation, Action: "x"}, infos)
	if !h.Until(long, func() bool { return len(w.view()) == n }) {
		h.Fail("setup", "the node does not hear of the others")
	}
	calls := map[string]*fsend{}
	var list []*fsend
	for _, x := range w.list {
		x.onMsg = func(r *fmsg) {
			if c := calls[r.m.Action]; c != nil {
				c.got++
				if c.x != x {
					h.Fail("target", "a message to %v arrives at %v", c.x.info.id, x.info.id)
				}
			}
		}
	}
	var routes []*Task
	cnt := 0
	send := func(x *fnode, size int64, route bool) *fsend {
		cnt++
		c := &fsend{name: fmt.Sprintf("m%d", cnt), x: x, at: h.Now(), route: route}
		calls[c.name] = c
		list = append(list, c)
		m := &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: c.name}, Body: make([]byte, size)}
		if route {
			_, c.err = w.node.Route(context.Background(), goNode(x.info.id), m)
		} else {
			c.err = w.node.SendOneWay(goNode(x.info.id), m)
		}
		c.end, c.ended = h.Now(), true
		return c
	}
	var inbound []*RawPeer
	var raws []*simConn
	do := func(who, i int, s *Step) {
		switch s.Op {
		case "state":
			if closing >= 0 && s.n(1) == stCut {
				return // what is under way must come to an end
			}
			w.list[s.n(0)].set(s.n(1))
		case "break":
			x := w.list[s.n(0)]
			ps := x.ready()
			if len(ps) == 0 || x.st == stCut {
				return
			}
			p := ps[len(ps)-1]
			h.Hit(fmt.Sprintf("broken%d", s.n(1)))
			if _, ok := w.ended[p.raw.pair]; !ok {
				w.ended[p.raw.pair] = h.Now()
			}
			switch s.n(1) {
			case 0:
				p.raw.Close()
			case 1:
				p.raw.Reset()
			case 2:
				h.Go("reject", func() {
					p.Send(&RMsg{Actor: aSendTarget, Action: "ConnectionAuth", Err: 5, Body: object(func(e *enc) { e.str("no") })})
				})
			case 3:
				p.raw.CloseWrite()
			}
			x.hist = append(x.hist, fstate{h.Now(), x.st})
		case "send":
			send(w.list[s.n(0)], s.n(1), false)
		case "route":
			routes = append(routes, h.Go("route", func() { send(w.list[s.n(0)], s.n(1), true) }))
		case "burst":
			var ts []*Task
			for k := s.n(2); k > 0; k-- {
				ts = append(ts, h.Go("send", func() { send(w.list[s.n(0)], s.n(1), false) }))
			}
			for _, t := range ts {
				h.Await(t, long)
			}
		case "in":
			if p := w.dialIn("10.5.0.2"); p != nil {
				inbound = append(inbound, p)
			}
		case "leasein":
			if c, err := h.Net.Dial("10.5.0.3", w.me.lease); err == nil {
				raws = append(raws, c.(*simConn))
				c.Write(ltFrame(ltConnect, nil))
			}
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	early := h.Plan.p("early") == 1
	small := h.Net.prof.buf < 65536
	if early {
		h.Sleep(us(h.Plan.p("closeat")))
		h.Hit("closed while busy")
	} else {
		h.awaitAll(ts, 5*time.Minute)
		for _, x := range w.list { // a partition that does not end holds what is under way
			if x.st == stCut {
				x.set(stUp)
			}
		}
		if t := h.awaitAll(ts, long); t != nil {
			h.Fail("stuck", "%s does not end", t.Name)
		}
		h.Sleep(2 * reach)
		// everything is up again
		for _, x := range w.list {
			if x.st != stUp && x.st != stRestart {
				x.set(stUp)
			}
		}
		if len(h.Plan.Faults) == 0 {
			h.Sleep(bound + dialHang)
			for _, x := range w.list {
				c := &fsend{}
				t := h.Go("send", func() { c = send(x, 100, false) })
				if !h.Await(t, 3*reach+dialHang) && !small {
					h.Fail("stuck", "a message to %v, which can be reached again, is not sent", x.info.id)
				} else if small && !h.Await(t, long) {
					h.Fail("stuck", "a message to %v, which can be reached again, is not sent", x.info.id)
				}
				if c.err != nil {
					h.Fail("recover", "a message to %v, which can be reached again, is not sent: %v", x.info.id, c.err)
				}
				lim := bound
				if small {
					lim = long
				}
				if !h.Until(lim, func() bool { return c.got > 0 }) {
					h.Fail("recover", "a message to %v, which can be reached again, does not arrive", x.info.id)
				}
			}
			h.Hit("recovered")
		}
		// calls while nothing changed
		for _, c := range list {
			if !c.ended || c.route || len(h.Plan.Faults) > 0 {
				continue
			}
			st, since, until := int64(-1), -bound-1, h.Now()
			for k, s := range c.x.hist {
				if s.at > c.at {
					until = s.at
					break
				}
				st = s.st
				if k > 0 {
					since = s.at
				}
				if k > 0 && c.x.hist[k-1].st == stCut {
					since += dialHang
				}
			}
			if since > c.at-bound || until < c.end+bound {
				continue
			}
			if st == stCut || small && st != stDown {
				continue
			}
			switch {
			case (st == stUp || st == stRestart) && c.err != nil:
				h.Fail("send", "a message to %v, which could be reached since %v, is not sent at %v: %v", c.x.info.id, since, c.at, c.err)
			case (st == stUp || st == stRestart) && c.got != 1:
				h.Fail("send", "a message to %v, which could be reached since %v and until %v, sent at %v, arrives %d times", c.x.info.id, since, until, c.at, c.got)
			case st == stDown && c.err == nil:
				h.Fail("refused", "a message to %v, which could not be reached since %v, is sent at %v without an error", c.x.info.id, since, c.at)
			}
			h.Count("sends while nothing changed", 1)
		}
	}
	// a message is given up only after an attempt to connect, or with the connection
	for _, c := range list {
		if !c.ended || c.err == nil || h.Plan.p("dialer") != 0 {
			continue
		}
		tried := false
		for _, d := range w.dials {
			tried = tried || d.addr == c.x.info.addr && d.began <= c.end && (d.done < 0 || d.done >= c.at-h.Slack())
		}
		for _, p := range h.Net.conns {
			tried = tried || p.a.remote == c.x.info.addr && time.Duration(p.at) <= c.end && (!p.a.closed || p.a.ClosedAt >= c.at-h.Slack())
		}
		if !tried {
			h.Fail("not-dialled", "a message to %v is given up at %v with %v although there is no connection and none was tried since %v", c.x.info.id, c.end, c.err, c.at)
		}
		h.Count("failed sends", 1)
	}
	// one connection at a time
	reuse := func() {
		last := map[string]*connPair{}
		for _, p := range h.Net.conns {
			if host(p.a.local) != w.host || w.nodes[p.a.remote] == nil {
				continue
			}
			if q := last[p.a.remote]; q != nil {
				if at := w.broken(q); at < 0 || at > time.Duration(p.at) {
					h.Fail("dials", "the node opens a connection to %s at %v although it has one since %v", p.a.remote, time.Duration(p.at), time.Duration(q.at))
				}
				h.Count("connections after a broken one", 1)
			}
			if at := w.broken(p); p.a.closed && (at < 0 || at > p.a.ClosedAt) && (closing < 0 || p.a.ClosedAt < closing) {
				h.Fail("dropped", "the node closes its connection to %s", p.a.remote)
			}
			last[p.a.remote] = p
			h.Count("connections", 1)
		}
	}
	reuse()
	if w.bad != "" {
		h.Fail("message", "%s", w.bad)
	}
	if w.serve.Ended {
		h.Fail("serve", "serving ended before the node was closed: %v", w.serr)
	}
	closing = h.Now()
	nc := len(h.Net.conns) + 2
	w.closeNode(bound+time.Duration(nc)*h.tlsClose(), int(max(1, h.Plan.p("closers"))))
	closed := h.Now()
	for _, x := range w.list { // so that what is being dialled comes to an end
		if x.st == stCut {
			x.set(stUp)
		}
	}
	var errAfter error
	t := h.Go("late", func() { errAfter = send(w.list[0], 10, h.Chance(1, 2)).err })
	if !h.Await(t, bound) {
		h.Fail("stuck", "a message sent by a closed node waits")
	}
	if errAfter == nil {
		h.Fail("closed", "a closed node sends a message")
	}
	for _, a := range []string{w.me.addr, w.me.lease} {
		if h.Net.listeners[a] != nil {
			h.Fail("closed", "the closed node still listens at %s", a)
		}
	}
	for _, t := range routes {
		if !h.Await(t, bound+dialHang+reach) {
			h.Fail("waits", "a routed message still waits for its answer after the node was closed")
		}
	}
	// connections others opened are theirs to close
	for _, p := range h.Net.conns {
		if p.b.local == w.me.addr {
			p.a.Close()
		}
	}
	if !h.Until(bound+dialHang+reach, func() bool { return len(h.repoGoroutines()) == 0 }) {
		if early { // calls of the workload may still be to come
			h.awaitAll(ts, long)
		}
		h.Sleep(bound)
		if gs := h.repoGoroutines(); len(gs) > 0 {
			h.Fail("left", "%d goroutines are left %v after the node was closed, the first in %s", len(gs), h.Now()-closed, topRepoFrame(gs[0]))
		}
	}
	for _, p := range h.Net.conns {
		for _, c := range []*simConn{p.a, p.b} {
			hst := host(c.local)
			if !c.server && (hst == w.host || hst == "10.0.0.1") && !c.closed {
				h.Fail("open", "the closed node has not closed its connection between %s and %s", c.local, c.remote)
			}
		}
	}
	reuse()
	for _, c := range list {
		if c.ended && c.err == nil && c.at > closed {
			h.Fail("closed", "a closed node sends a message")
		}
	}
	h.Count("sends", int64(len(list)))
	_ = raws
	_ = net.ErrClosed
}
