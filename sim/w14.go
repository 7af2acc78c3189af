package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C14", &World{Name: "route", MaxSpin: 20e6, Weight: 1, Gen: gen14, Run: run14})
	register("C15", &World{Name: "conns", MaxSpin: 20e6, Weight: 1, Gen: gen15, Run: run15})
}

// How a routed message is answered.
const (
	rpSame   = iota // on the connection it came on
	rpBack          // on a connection of the node's own
	rpOther         // by another node
	rpTwice         // twice, the second time with another body
	rpOthers        // after answers to other messages
	rpError         // with an error code
	rpNone          // not at all
	rpLate          // after the caller has gone
	nRp
)

func gen14(g *Gen) {
	genFed(g)
	n := 1 + g.width(7, 60)
	g.ids(n + 2) // two are heard of later
	g.set("seeds", int64(1+g.IntN(min(2, n))))
	if g.chance(3, 4) {
		wide(g)
	}
	g.set("bare", g.pick(0, 0, 0, 1)) // only seeds are known at first
	g.set("self", g.pick(0, 0, 0, 1)) // somebody tells the node of itself
	ws := g.workers(1 + g.IntN(6))
	if len(ws) > 10 {
		wide(g)
	}
	for _, w := range ws {
		for i := g.rep(6); i >= 0; i-- {
			d := g.pick(0, 0, g.delay())
			near := g.pick(0, 0, 0, 1, -1, 2, 5, 99)
			j := int64(g.IntN(n+3)) - 1
			size := g.pick(0, 20, 300, 300, 20000)
			if len(ws) > 10 {
				size = min(size, 1000)
			}
			if g.chance(1, 3) {
				g.step("one", d, w, j, g.pick(0, 0, 0, 0, near), size, g.pick(0, 0, 1, 2))
				continue
			}
			limit := int64(0)
			mode := g.Int64N(nRp)
			if smallNet(g) { // writing blocks, which no context ends
				if mode >= rpNone {
					mode = rpSame
				}
			} else if mode == rpNone || mode == rpLate || g.chance(1, 6) {
				limit = g.pick(-1, g.delay()+1, g.between(1000, 5e6), g.between(1000, 5e6))
			}
			// delay of the answer, code
			g.step("route", d, w, j, near, size, g.pick(0, 0, 1, 2), mode, g.pick(0, 0, g.delay()), limit, g.pick(1, 7, -2147017627, -1))
		}
	}
	for k := g.IntN(4); k > 0; k-- {
		g.step("learn", g.delay(), 30+k, int64(g.IntN(n+2)), g.pick(1, 2, 3, 4))
	}
	for k := g.pick(0, 0, 1, 2); k > 0; k-- {
		g.step("move", g.delay(), 50, int64(g.IntN(n)), k)
	}
	if g.chance(1, 3) { // asks for its neighbourhood: a routed message to its own id
		limit, mode := int64(0), g.Int64N(nRp)
		if smallNet(g) {
			mode = rpSame
		} else if mode == rpNone || mode == rpLate || g.chance(1, 6) {
			limit = g.pick(-1, g.delay()+1, g.between(1000, 5e6))
		}
		g.step("join", g.delay(), 60, -1, 0, 0, 0, mode, g.pick(0, 0, g.delay()), limit, 1)
	}
	if !smallNet(g) && g.chance(1, 5) {
		g.step("kill", g.delay(), 40, int64(g.IntN(n)), g.pick(0, 1))
	}
}

type fcall struct {
	name      string
	route     bool
	join      bool
	id        NodeID
	mode      int64
	wait, lim time.Duration
	code      int64
	before    map[NodeID]finfo
	after     map[NodeID]finfo
	at        time.Duration
	size      int
	got       []*fmsg
	replied   []*fanswer // the answers, in the order they were written
	err       error
	reply     *transport.ByteArrayMessage
	ctxErr    error
	doneAt    time.Duration
	task      *Task
	killed    bool
	reused    bool
	msg       *transport.Message
}

// fanswer is an answer written to the system.
type fanswer struct {
	body []byte
	code int64
	end  int64
	conn *simConn
	at   time.Duration
}

func (a *fanswer) took() time.Duration {
	if a.end < 0 {
		return -1
	}
	at, _ := a.conn.wr.readTime(a.end)
	return at
}

// write sends a message and remembers when it was taken.
func (w *fworld) write(p *RawPeer, m *RMsg) *fanswer {
	p.raw.wr.logReads = true
	a := &fanswer{body: m.Body, code: m.Err, end: -1, conn: p.raw, at: w.h.Now()}
	if m.ID.empty() {
		m.ID = p.NewID()
	}
	b := m.encode(p.cfg)
	p.wr.lock()
	defer p.wr.unlock()
	if _, err := p.c.Write(b); err == nil {
		a.end = p.raw.wr.sent
	}
	return a
}

func run14(h *H) {
	w := newFworld(h)
	n := int(h.Plan.p("n")) - 2
	var seeds []finfo
	for i := 0; i < n+2; i++ {
		x := w.stub(h.Plan.nodeInfo(i, uint64(i+1), 3, 0))
		x.up()
		if i < int(h.Plan.p("seeds")) {
			seeds = append(seeds, x.info)
		}
	}
	w.start(seeds)
	bound := h.Slack() + 2*h.netMax()
	reach := 12*bound + h.tlsClose() // dialling and handshakes
	fs := []finfo{}
	if h.Plan.p("bare") == 0 {
		for i := 0; i < n; i++ {
			fs = append(fs, w.list[i].info)
		}
	}
	if h.Plan.p("self") == 1 {
		fs = append(fs, h.Plan.nodeInfo(-1, 1001, 3, 0))
	}
	if len(fs) > 0 {
		w.list[0].tell(&RMsg{Actor: aFederation, Action: "VotePing"}, fs)
		h.Sleep(reach)
		if h.Net.prof.buf < 65536 {
			h.Sleep(long)
		}
	}
	var seedsTold []*ftold
	for _, s := range seeds {
		seedsTold = append(seedsTold, &ftold{f: finfo{id: s.id, addr: s.addr}})
	}
	calls := map[string]*fcall{}
	var list []*fcall
	kills := []time.Duration{}
	respond := func(c *fcall, r *fmsg) {
		h.Sleep(c.wait)
		p := r.p
		if c.mode == rpBack || c.mode == rpOther {
			x := r.to
			if c.mode == rpOther {
				x = w.list[h.Rand(len(w.list))]
			}
			if p = x.tell(&RMsg{Actor: aFederation, Action: "hello"}, nil); p == nil {
				return
			}
			if h.Chance(1, 3) && len(x.ready()) > 0 {
				p = x.ready()[h.Rand(len(x.ready()))]
			}
		}
		m := &RMsg{Actor: r.m.Actor, Action: "answer", Rel: r.m.ID, Body: append([]byte("re "), r.m.Body...)}
		switch c.mode {
		case rpNone:
			return
		case rpOthers:
			for k := 1 + h.Rand(3); k > 0; k-- {
				o := *m
				o.Rel.I += uint32(1000 + h.Rand(1000))
				switch h.Rand(3) {
				case 0:
					o.Rel = MsgID{}
				case 1:
					o.Rel.G[3] ^= 1
					o.Rel.I = m.Rel.I
				}
				o.Body = []byte("not yours")
				w.write(p, &o)
			}
		case rpError:
			m.Err = c.code
		case rpLate:
			h.Until(long, func() bool { return c.task.Ended })
		}
		c.replied = append(c.replied, w.write(p, m))
		if c.mode == rpTwice {
			o := *m
			o.ID = MsgID{}
			o.Body = []byte("again")
			w.write(p, &o)
		}
	}
	listen := func(x *fnode) {
		x.onMsg = func(r *fmsg) {
			c := calls[r.m.Action]
			if c == nil {
				return
			}
			c.got = append(c.got, r)
			if len(r.m.Body) != c.size && !c.join {
				h.Fail("body", "a message of %d bytes arrives with %d", c.size, len(r.m.Body))
			}
			if c.route {
				h.Go("respond", func() { respond(c, r) })
			}
		}
	}
	for _, x := range w.list {
		listen(x)
	}
	// dist is how far a node is behind an id on the ring
	check := func(c *fcall) {
		what := fmt.Sprintf("the message %s to %v", c.name, c.id)
		if len(c.got) > 1 {
			h.Fail("twice", "%s arrives %d times", what, len(c.got))
		}
		_, knownBefore := c.before[c.id]
		_, knownAfter := c.after[c.id]
		self := c.id == w.me.id
		if !c.route {
			if c.err == nil && (!knownAfter || self) {
				h.Fail("unknown", "%s is sent although there is no such node", what)
			}
			if c.err != nil && knownBefore && !self && !c.killed {
				h.Fail("send", "%s fails: %v", what, c.err)
			}
			if c.err != nil && len(c.got) > 0 && !c.killed {
				h.Fail("send", "%s fails with %v and arrives", what, c.err)
			}
			if c.err == nil && len(c.got) == 0 && !c.killed {
				h.Fail("lost", "%s does not arrive", what)
			}
		}
		for _, r := range c.got {
			to := r.to.info
			if !c.route {
				if to.id != c.id {
					h.Fail("target", "%s arrives at %v", what, to.id)
				}
				if r.route != nil || r.ptop.actor != 0 || !r.ptop.exact || r.m.Expects != c.reused && r.m.Expects {
					h.Fail("headers", "%s arrives with %+v, routing %+v, expects reply %v", what, r.ptop, r.route, r.m.Expects)
				}
			} else {
				if _, ok := c.after[to.id]; !ok {
					h.Fail("target", "%s goes to %v, which was not known", what, to.id)
				}
				if b, ok := w.target(c.before, c.id); ok && b.id.sub(c.id).less(to.id.sub(c.id)) {
					h.Fail("target", "%s goes to %v, although %v is known, which follows it more closely", what, to.id, b.id)
				}
				if r.route == nil || r.ptop.actor != 2 || r.ptop.exact || !r.m.Expects {
					h.Fail("headers", "%s arrives with %+v, routing %+v, expects reply %v", what, r.ptop, r.route, r.m.Expects)
				}
				if q := r.route; q.from != w.me.id || q.fromInst != w.me.inst || q.id != r.m.ID || !q.expects || q.to != to.id && q.to != c.id {
					h.Fail("headers", "%s arrives with the routing header %+v, its id is %v", what, q, r.m.ID)
				}
			}
			// the instance is the one known at some time
			lo, hi := c.before[to.id].inst, c.after[to.id].inst
			at := false // the address is that of such an instance
			for _, t := range append(w.told, seedsTold...) {
				at = at || t.f.id == to.id && t.f.addr == to.addr && t.f.inst >= lo && t.f.inst <= hi
			}
			if !at {
				h.Fail("target", "%s arrives at %s, %v was known there with no instance from %d to %d", what, to.addr, to.id, lo, hi)
			}
			if r.ptop.to != to.id || r.ptop.toInst < lo || r.ptop.toInst > hi {
				h.Fail("headers", "%s at %v is for %v/%d, known was instance %d to %d", what, to.id, r.ptop.to, r.ptop.toInst, lo, hi)
			}
		}
		if !c.route {
			return
		}
		if c.join { // what it returns is not said
			if c.ctxErr == nil && !c.killed && c.err == nil && (len(c.got) != 1 || len(c.replied) == 0) {
				if _, ok := w.target(c.after, c.id); ok {
					h.Fail("reply", "joining ends although nobody has answered")
				}
			}
			h.Hit(fmt.Sprintf("joined%d", len(c.got)))
			return
		}
		if c.err == nil {
			if len(c.got) != 1 || len(c.replied) == 0 {
				h.Fail("reply", "%s was routed, but nobody has answered", what)
			}
			if want := append([]byte("re "), c.got[0].m.Body...); string(c.reply.Body) != string(want) || c.reply.Headers.Action != "answer" || wireID(c.reply.Headers.RelatesTo) != c.got[0].m.ID {
				h.Fail("reply", "the answer to %s is %q (%s), want %q", what, c.reply.Body[:min(40, len(c.reply.Body))], c.reply.Headers.Action, want[:min(40, len(want))])
			}
			if c.mode == rpError {
				h.Fail("errorcode", "the answer to %s has the error code %d and is no error", what, c.code)
			}
			h.Hit(fmt.Sprintf("answered%d", c.mode))
			return
		}
		if _, ok := w.target(c.after, c.id); !ok {
			return // nobody to send it to
		}
		took := time.Duration(-1)
		if len(c.replied) > 0 {
			took = c.replied[0].took()
		}
		switch {
		case c.killed:
		case c.mode == rpError && took >= 0 && c.ctxErr == nil:
			h.Hit("error code")
		case c.ctxErr == nil:
			h.Fail("error", "routing %s fails although its context is not done: %v", what, c.err)
		case !errors.Is(c.err, c.ctxErr):
			if c.mode != rpError || took < 0 {
				h.Fail("error", "routing %s fails with %v, its context with %v", what, c.err, c.ctxErr)
			}
		case took >= 0 && took+bound < c.at+c.lim:
			h.Fail("reply", "routing %s fails with %v although its answer came %v before", what, c.err, c.at+c.lim-took)
		default:
			h.Hit("ended by its context")
		}
	}
	var last *transport.Message // to be used again
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "learn":
			f := h.Plan.nodeInfo(int(s.n(0)), uint64(s.n(0)+1), 3, 0)
			f.inst += uint64(s.n(1))
			w.list[0].tell(&RMsg{Actor: aFederation, Action: "VotePing"}, []finfo{f})
			h.Hit("heard of a node meanwhile")
		case "move": // the node starts again elsewhere; somebody still answers where it was
			f := h.Plan.nodeInfo(int(s.n(0)), uint64(s.n(0)+1), 3, 0)
			f.inst += uint64(10 * s.n(1))
			f.addr = fmt.Sprintf("10.1.%d.%d:1020", 10+s.n(1), s.n(0)+1)
			if w.nodes[f.addr] != nil {
				return
			}
			x := w.stub(f)
			listen(x)
			x.up()
			x.tell(&RMsg{Actor: aFederation, Action: "VotePing"}, []finfo{f})
			h.Hit("a node moves")
		case "kill":
			kills = append(kills, h.Now())
			w.list[s.n(0)].down(s.n(1) == 1)
			w.list[s.n(0)].up()
		case "one", "route", "join":
			c := &fcall{name: fmt.Sprintf("m%d.%d", who, i), route: s.Op != "one", join: s.Op == "join", size: int(s.n(2)), mode: s.n(4), wait: us(s.n(5)), lim: us(s.n(6)), code: s.n(7)}
			c.id = w.me.id
			if s.n(0) >= 0 {
				c.id = h.Plan.id(int(s.n(0)))
			}
			if s.n(1) == 99 {
				c.id = NodeID{c.id.Hi ^ 1<<uint(h.Rand(64)), c.id.Lo ^ 1<<uint(h.Rand(64))}
			} else {
				c.id = c.id.add(s.n(1))
			}
			m := &transport.Message{}
			if s.n(3) > 0 && last != nil { // use the message of an earlier call again
				m, last = last, nil
				c.reused = true
				m.Headers.Id = transport.MessageId{}
			}
			m.Headers.Actor, m.Headers.Action, m.Body = transport.MessageActorTypeFederation, c.name, make([]byte, c.size)
			if c.reused {
				h.Hit("message used again")
			}
			c.msg = m
			if c.join {
				c.name = "NeighborhoodQueryRequest"
			}
			calls[c.name] = c
			list = append(list, c)
			c.before = w.view()
			c.at = h.Now()
			ctx, cancel := fctx(s.n(6))
			c.task = h.Go(s.Op, func() {
				if c.join {
					c.err = w.node.Join(ctx)
				} else if c.route {
					c.reply, c.err = w.node.Route(ctx, goNode(c.id), m)
				} else {
					c.err = w.node.SendOneWay(goNode(c.id), m)
				}
				c.ctxErr = ctx.Err()
				c.after = w.view()
				c.doneAt = h.Now()
				cancel()
			})
			limit := 3*reach + c.wait
			if h.Net.prof.buf < 65536 {
				limit = long
			}
			if c.mode == rpNone || c.mode == rpLate || c.lim != 0 {
				limit = max(0, c.lim) + bound // ended by the context, if not before
			}
			if !h.Await(c.task, limit+time.Millisecond) {
				if len(kills) > 0 && c.lim == 0 {
					cancel() // the answer may be lost
					c.killed = true
					if !h.Await(c.task, bound) {
						h.Fail("stuck", "routing %s to %v does not end with its context", c.name, c.id)
					}
				} else {
					h.Fail("stuck", "%s %s to %v does not end in %v", s.Op, c.name, c.id, limit)
				}
			}
			if s.n(3) > 0 && (!c.route || c.err == nil) {
				if h.Until(reach, func() bool { return len(c.got) > 0 }) {
					last = m
				}
			}
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	h.Sleep(reach + bound)
	if h.Net.prof.buf < 65536 {
		h.Sleep(long)
	}
	for _, c := range list {
		for _, k := range kills {
			c.killed = c.killed || k <= c.doneAt+reach
		}
		check(c)
	}
	for _, x := range w.list {
		for _, p := range x.peers {
			if p.Bad != "" {
				h.Fail("message", "%s", p.Bad)
			}
		}
	}
	if w.bad != "" {
		h.Fail("message", "%s", w.bad)
	}
	h.Count("calls", int64(len(list)))
	_ = context.Background
	_ = federation.NodePhaseRouting
}
