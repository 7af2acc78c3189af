package main

import (
	"context"
	"fmt"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C02", &World{Name: "peer", Weight: 6, Gen: gen02, Run: func(h *H) { runReq(h, false) }})
	register("C02", &World{Name: "pair", Weight: 2, Gen: gen02pair, Run: run01pair})
	register("C02", &World{Name: "ids", Weight: 1, Gen: gen02ids, Run: run02ids})
	register("C03", &World{Name: "peer", Weight: 6, Gen: gen03, Run: func(h *H) { runReq(h, true) }})
}

// What the reference peer does with a request.
const (
	polReply = iota
	polDelay
	polTwice
	polNever
	polWrongFirst
	polTransportFirst
	polTwiceLate
	nPol
)

// Relation of unsolicited messages.
const (
	relNone = iota
	relUnknown
	relEnded
	relOpen
	relOpenTransport
	relTransport
	nRel
)

func genReqs(g *Gen, tasks []int, max int64) {
	for _, w := range tasks {
		n := 1 + int64(g.rep(int(max)))
		for i := int64(0); i < n; i++ {
			d := int64(0)
			if g.chance(1, 2) {
				d = g.delay()
			}
			if g.chance(1, 6) {
				g.step("send", d, w, g.Int64N(1<<40), sizeDist(g, true))
				continue
			}
			pol := g.Int64N(nPol)
			tmo := int64(0) // no deadline
			if pol == polNever || g.chance(1, 2) {
				tmo = 1 + g.between(0, g.pick(10, 2000, 200000, 5000000))
			}
			// shape, size, policy, timeout, delay of the reply, kind of context
			g.step("req", d, w, g.Int64N(1<<40), sizeDist(g, true), pol, tmo, g.delay(), g.Int64N(3))
		}
	}
}

func genRaws(g *Gen, n int64) {
	for i := int64(0); i < n; i++ {
		g.step("raw", g.delay(), 20+g.IntN(2), g.Int64N(1<<40), sizeDist(g, true), g.Int64N(nRel))
	}
}

func gen02(g *Gen) {
	g.set("server", g.pick(0, 1))
	genConf(g, 1, 5)
	wide(g)
	var ts []int
	ts = append(ts, g.workers(1+g.IntN(4))...)
	m := int64(6)
	if g.Thorough {
		m = 12
	}
	genReqs(g, ts, m)
	genRaws(g, int64(g.rep(11)))
	genStall(g)
	if g.chance(1, 8) {
		g.fault(0, g.IntN(2), []string{"rst", "fin"}[g.IntN(2)], g.between(0, 6000), 0)
	}
}

func gen03(g *Gen) {
	g.set("server", g.pick(0, 1))
	genConf(g, 1, 6)
	wide(g)
	var ts []int
	ts = append(ts, g.workers(1+g.IntN(4))...)
	m := int64(6)
	if g.Thorough {
		m = 12
	}
	genReqs(g, ts, m)
	genRaws(g, int64(g.rep(9)))
	genStall(g)
	if g.chance(1, 2) {
		op := []string{"close", "rst", "peerclose", "peerfin"}[g.IntN(4)]
		g.step(op, g.delay()+g.delay(), 30)
		if g.chance(1, 3) {
			g.step([]string{"close", "rst", "peerclose"}[g.IntN(3)], g.delay(), 31)
		}
	} else if g.chance(1, 6) {
		g.fault(0, g.IntN(2), "rst", g.between(0, 6000), 0)
	}
}

func gen02pair(g *Gen) {
	genConf(g, 1, 4)
	for _, w := range []int{0, 1, 10, 11} {
		for i := g.rep(6); i >= 0; i-- {
			g.step("req", g.delay(), w, g.Int64N(1<<40), sizeDist(g, true))
		}
	}
}

// creq is a request the system was asked to make.
type creq struct {
	name          string
	id            MsgID
	begin, end    time.Duration
	endSeq        int64
	ctxAt         time.Duration // when its context is done; -1: never
	done          bool
	err           error
	reply         *RMsg
	seen          bool // by the peer
	pol, arg, tmo int64
	firstWire     int
	firstSent     time.Duration // when the first reply had been written
	firstKey      string
}

// rmsg is a message the peer sent.
type rmsg struct {
	key       string
	rel       MsgID
	transport bool
	wire      int
	done      bool
	err       error
	sentSeq   int64
	sentAt    time.Duration
	asReply   []*creq
	inCb      int
	cbAt      time.Duration
	cbSeq     int64
	late      bool // sent when the connection was already going down
}

type reqWorld struct {
	h     *H
	l     *link
	reqs  []*creq
	byID  map[MsgID]*creq
	byKey map[string]*creq
	rs    map[string]*rmsg
	all   []*rmsg
	n     int
}

func (w *reqWorld) send(rel MsgID, tr bool, size int) {
	w.n++
	r := &rmsg{key: key(body("rep", w.n, 0)), rel: rel, transport: tr}
	w.rs[r.key] = r
	w.all = append(w.all, r)
	m := &RMsg{ID: w.l.peer.NewID(), Rel: rel, Actor: 5, Action: "R", Body: body("rep", w.n, size)}
	if tr {
		m.Actor = aTransport
		m.Action = []string{"", "Nonsense", "HeartbeatResponse"}[w.n%3]
	}
	b := m.encode(w.l.peer.cfg)
	p := w.l.peer
	p.wr.lock()
	p.wireN++
	r.wire = p.wireN
	if q := w.byID[rel]; q != nil && !tr && q.firstKey == "" {
		q.firstWire, q.firstKey = r.wire, r.key
	}
	_, r.err = p.c.Write(b)
	r.done, r.sentSeq, r.sentAt = true, w.h.Seq(), w.h.Now()
	if q := w.byID[rel]; q != nil && q.firstKey == r.key {
		q.firstSent = r.sentAt
	}
	p.wr.unlock()
}

func (w *reqWorld) onMsg(m *RMsg) {
	q := w.byKey[msgKey(m)]
	if q == nil {
		return
	}
	if q.seen {
		w.h.Fail("duplicate", "request %s was sent twice", q.name)
	}
	q.seen = true
	q.id = m.ID
	if w.byID[m.ID] != nil {
		w.h.Fail("id-reused", "two requests have the id %v", m.ID)
	}
	w.byID[m.ID] = q
	if !m.Expects {
		w.h.Fail("altered", "request %s does not say that it expects a reply", q.name)
	}
	go func() {
		if q.pol == polDelay || q.pol == polTwiceLate {
			w.h.Sleep(us(q.arg))
		}
		size := 12 + int(q.arg%400)
		switch q.pol {
		case polNever:
			return
		case polWrongFirst:
			rel := MsgID{GUID{9, 9, byte(w.n)}, uint32(w.n)}
			if w.n%2 == 0 {
				rel = MsgID{m.ID.G, m.ID.I + 1000}
			}
			w.send(rel, false, size)
		case polTransportFirst:
			w.send(m.ID, true, size)
		}
		w.send(m.ID, false, size)
		switch q.pol {
		case polTwice:
			w.send(m.ID, false, size)
		case polTwiceLate:
			w.h.Sleep(us(q.arg))
			w.send(m.ID, false, size)
		}
	}()
}

func (w *reqWorld) callback(c transport.Conn, m *transport.ByteArrayMessage) {
	r := fromBAM(m)
	x := w.rs[msgKey(r)]
	if x == nil {
		w.h.Fail("invented", "the callback got a message that was never sent: %v", r)
	}
	if x.transport || r.Actor == aTransport {
		w.h.Fail("internal", "the callback got a transport-internal message: %v", r)
	}
	if r.Rel != x.rel {
		w.h.Fail("altered", "the callback got %v, sent with relates-to %v", r, x.rel)
	}
	x.inCb++
	x.cbAt, x.cbSeq = w.h.Now(), w.h.Seq()
	if x.inCb > 1 || len(x.asReply) > 0 {
		w.h.Fail("duplicate", "message %s was given to the callback and consumed before", x.key)
	}
}

// runReq drives requests against the reference peer.  With timed, the bounds on
// time are checked too (C03); without, only who gets what (C02).
func runReq(h *H, timed bool) {
	w := &reqWorld{h: h, byID: map[MsgID]*creq{}, byKey: map[string]*creq{}, rs: map[string]*rmsg{}}
	l := &link{h: h, server: h.Plan.p("server") == 1}
	w.l = l
	l.start(w.callback, func(p *RawPeer) { p.OnMsg = w.onMsg })
	if !l.ready() {
		return
	}
	bound := h.Slack() + h.netMax() + h.tlsClose()
	do := func(who, i int, s *Step) {
		switch s.Op {
		case "close":
			l.conn.Close()
		case "rst":
			l.raw.Reset()
		case "peerclose":
			l.peer.raw.Close()
		case "peerfin":
			l.peer.raw.CloseWrite()
		case "send":
			l.conn.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "noise"}, Body: make([]byte, s.n(1))})
		case "raw":
			rel := MsgID{}
			tr := false
			switch s.n(2) {
			case relUnknown:
				rel = MsgID{GUID{7, byte(i)}, uint32(i + 1)}
			case relEnded:
				for _, q := range w.reqs {
					if q.done && q.seen {
						rel = q.id
						if h.Chance(1, 2) {
							break
						}
					}
				}
			case relOpen, relOpenTransport:
				for _, q := range w.reqs {
					if !q.done && q.seen {
						rel = q.id
						if h.Chance(1, 2) {
							break
						}
					}
				}
				tr = s.n(2) == relOpenTransport
			case relTransport:
				tr = true
			}
			w.send(rel, tr, int(s.n(1)))
		case "req":
			m := makeMsg(who, i, s.n(0), int(s.n(1)))
			if m.refuse {
				return
			}
			m.msg.Headers.RelatesTo = transport.MessageId{}
			q := &creq{name: m.key, pol: s.n(2), tmo: s.n(3), arg: s.n(4), ctxAt: -1, begin: h.Now()}
			w.reqs = append(w.reqs, q)
			w.byKey[m.key] = q
			ctx, cancel := context.Background(), context.CancelFunc(func() {})
			if q.tmo > 0 {
				d := us(q.tmo - 1)
				switch s.n(5) {
				case 0:
					ctx, cancel = context.WithTimeout(ctx, d)
					q.ctxAt = h.Now() + d
				case 1:
					ctx, cancel = context.WithCancel(ctx)
					if d == 0 {
						cancel()
					} else {
						c := cancel
						time.AfterFunc(d, func() { c() })
					}
					q.ctxAt = h.Now() + d
				default:
					ctx, cancel = context.WithDeadline(ctx, time.Now().Add(d))
					q.ctxAt = h.Now() + d
				}
			}
			r, err := l.conn.RequestReply(ctx, m.msg)
			q.end, q.endSeq = h.Now(), h.Seq()
			q.err, q.done = err, true
			cancel()
			if (r == nil) == (err == nil) {
				h.Fail("no-answer", "RequestReply returned %v and error %v", r, err)
			}
			if err == nil {
				q.reply = fromBAM(r)
				id := wireID(m.msg.Headers.Id)
				if q.reply.Rel != id {
					h.Fail("wrong-reply", "request %v got a message that relates to %v", id, q.reply.Rel)
				}
				x := w.rs[msgKey(q.reply)]
				if x == nil {
					h.Fail("invented", "a request got a reply that was never sent: %v", q.reply)
				}
				if x.transport {
					h.Fail("internal", "a request got a transport-internal message as its reply: %v", q.reply)
				}
				x.asReply = append(x.asReply, q)
				if x.inCb > 0 || len(x.asReply) > 1 {
					h.Fail("duplicate", "message %s was returned as a reply and consumed before", x.key)
				}
				h.Count("replies", 1)
			}
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	if !timed {
		// requests whose reply never comes have a deadline, so all tasks end
		if t := h.awaitAll(ts, long); t != nil && !broken(h) {
			h.Fail("stuck", "%s does not end", t.Name)
		}
	} else {
		deadline := h.Now() + long
		for _, t := range ts {
			for !t.Ended && h.Now() < deadline {
				h.Await(t, 10*time.Second)
				// nobody may be overdue
				for _, q := range w.reqs {
					if q.done {
						continue
					}
					w.overdue(q, h.Now(), bound)
				}
			}
			if !t.Ended {
				h.Fail("stuck", "%s does not end", t.Name)
			}
		}
	}
	h.Sleep(long)
	gone := broken(h) || l.down() >= 0
	if l.peer.Bad != "" && !gone {
		h.Fail("wire", "%s", l.peer.Bad)
	}
	if gone {
		h.Hit("down")
	}
	for _, q := range w.reqs {
		if timed {
			w.overdue(q, q.end, bound)
			if q.done && q.err != nil && q.ctxAt < 0 && l.down() < 0 && !broken(h) {
				h.Fail("request", "request %s failed although its context was not done and the connection is up: %v", q.name, q.err)
			}
			if q.done && q.err != nil && q.ctxAt >= 0 && q.end < q.ctxAt && !gone {
				h.Fail("request", "request %s failed before its context was done: %v", q.name, q.err)
			}
			d := l.down()
			if d >= 0 && q.begin > d+bound && (q.err == nil || q.end-q.begin > bound) {
				h.Fail("request", "a request made after the connection went down ended with %v after %v", q.err, q.end-q.begin)
			}
			if q.err != nil && q.ctxAt >= 0 {
				h.Hit("request cancelled")
			}
		}
		if q.err == nil && q.reply != nil && q.firstKey != "" {
			// the first message that relates to the request is its reply
			x := w.rs[msgKey(q.reply)]
			if x != nil && x.wire > q.firstWire {
				h.Fail("wrong-reply", "request %s got message %s although %s, which came before it, relates to it", q.name, x.key, q.firstKey)
			}
		}
	}
	for _, x := range w.all {
		n := x.inCb + len(x.asReply)
		if x.transport || !x.done || x.err != nil {
			continue
		}
		if n == 0 && !gone {
			q := w.byID[x.rel]
			if q != nil && q.err != nil && x.sentSeq < q.endSeq {
				h.Hit("reply crossed cancel")
				continue // its request took it and gave up at the same time
			}
			// x.sentSeq is taken after the write: the arrival may precede it
			if q != nil && q.err != nil && x.sentAt <= q.end {
				continue
			}
			if q != nil && q.err != nil && q.firstKey == x.key && x.sentAt <= q.end {
				continue
			}
			h.Fail("lost", "message %s, relating to %v, was neither returned nor given to the callback", x.key, x.rel)
		}
		if timed && x.inCb > 0 && x.cbAt > x.sentAt+bound {
			h.Fail("late", "message %s was delivered %v after it was sent", x.key, x.cbAt-x.sentAt)
		}
		if q := w.byID[x.rel]; q != nil && x.inCb > 0 && q.firstKey == x.key && q.err != nil && q.ctxAt >= 0 && q.end > x.cbAt+bound {
			h.Fail("misdelivered", "the reply %s went to the callback while request %s was waiting for it", x.key, q.name)
		}
	}
}

// overdue fails if request q should have ended before now.
func (w *reqWorld) overdue(q *creq, now, bound time.Duration) {
	h := w.h
	state := "is still waiting"
	if q.done {
		state = "ended"
	}
	if q.ctxAt >= 0 && now > max(q.begin, q.ctxAt)+bound {
		h.Fail("late", "request %s %s %v after its context was done", q.name, state, now-q.ctxAt)
	}
	if q.firstSent > 0 && now > max(q.begin, q.firstSent)+bound && w.l.down() < 0 && !broken(h) {
		h.Fail("late", "request %s %s %v after its reply was sent", q.name, state, now-q.firstSent)
	}
	if d := w.l.down(); d >= 0 && now > max(d, q.begin)+bound {
		h.Fail("late", "request %s %s %v after the connection went down", q.name, state, now-d)
	}
}

func gen02ids(g *Gen) {
	g.set("gens", g.between(1, 3))
	for w := 0; w < 2+g.IntN(4); w++ {
		for i := g.rep(6); i >= 0; i-- {
			g.step("next", 0, w, g.between(1, 8))
		}
		if g.many > 0 && g.chance(1, 4) {
			g.step("next", 0, w, g.pick(300, 5000, 70000))
		}
	}
}

func run02ids(h *H) {
	var gens []transport.MessageIdGenerator
	for i := int64(0); i < h.Plan.p("gens"); i++ {
		g, err := transport.NewMessageIdGenerator()
		if err != nil {
			h.Fail("ids", "%v", err)
		}
		gens = append(gens, g)
	}
	seen := map[transport.MessageId]string{}
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		for k := int64(0); k < s.n(0); k++ {
			id := gens[(who+i)%len(gens)].Next()
			if o := seen[id]; o != "" || id.IsEmpty() {
				h.Fail("id-reused", "id %v drawn by task %d was drawn before by %s, or is empty", id, who, o)
			}
			seen[id] = fmt.Sprint("task", who)
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
}
