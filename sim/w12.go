package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C12", &World{Name: "view", Weight: 1, Gen: gen12, Run: run12, MaxSpin: 20_000_000})
}

// ids draws the ids of the system's node and of n stub nodes, near each other
// and near the ends of the ring.
func (g *Gen) ids(n int) {
	word := func() int64 {
		switch g.IntN(5) {
		case 0:
			return int64(g.Uint64())
		case 1:
			return g.pick(0, 1, 2)
		case 2:
			return -g.pick(1, 2, 3)
		case 3:
			return -1<<63 + g.pick(0, 1, -1)
		}
		return g.pick(1, 2, 3, 4, 5, 6, 7, 8)
	}
	g.set("n", int64(n))
	var used []NodeID
	for i := -1; i < n; i++ {
		var id NodeID
	again:
		id = NodeID{uint64(word()), uint64(word())}
		if len(used) > 0 && g.chance(1, 2) { // next to another
			id = used[g.IntN(len(used))].add(g.pick(-2, -1, 1, 2))
		}
		for _, u := range used {
			if u == id {
				goto again
			}
		}
		used = append(used, id)
		if i < 0 {
			g.set("idhi", int64(id.Hi))
			g.set("idlo", int64(id.Lo))
		} else {
			g.set(fmt.Sprintf("hi%d", i), int64(id.Hi))
			g.set(fmt.Sprintf("lo%d", i), int64(id.Lo))
		}
	}
}

func (p *Plan) id(i int) NodeID {
	return NodeID{uint64(p.p(fmt.Sprintf("hi%d", i))), uint64(p.p(fmt.Sprintf("lo%d", i)))}
}

// genFed draws how the system's node talks.
func genFed(g *Gen) {
	g.set("tls", g.pick(0, 0, 0, 0, 0, 1, 2, 3, 4))
	g.set("dialer", g.pick(0, 0, 1))
}

// nodeInfo is information about node i; v varies what the instance and phase do not say.
func (p *Plan) nodeInfo(i int, inst uint64, phase, v int64) finfo {
	f := finfo{id: p.id(i), inst: inst, phase: phase, addr: nodeAddr(i), lease: fmt.Sprintf("10.1.0.%d:1021", i+1), linst: int64(inst) + v}
	if i == -1 {
		f.id = NodeID{uint64(p.p("idhi")), uint64(p.p("idlo"))}
		f.addr = "10.0.0.1:1020"
	}
	if v > 0 {
		x := uint64(v)*0x9e3779b97f4a7c15 ^ inst
		f.tokBeg, f.tokEnd, f.tokVer = NodeID{x, x >> 7}, NodeID{^uint64(0), x >> 9}, x>>3
		f.e2e = x&1 == 1
		f.port = int32(x >> 40)
		f.uri = []string{"", "fd:/dc1/r1", "ü"}[v%3]
		f.ring = []string{"", "ring", "环"}[v/3%3]
	}
	if v == 7 {
		f.addr = strings.Repeat("long", 200)
	}
	if v == 8 { // too long to be passed on
		f.addr = strings.Repeat("long", 6500)
	}
	return f
}

func (g *Gen) inst() int64  { return g.pick(0, 1, 1, 2, 2, 3, 4, 1<<40, -1) }
func (g *Gen) phase() int64 { return g.pick(0, 1, 2, 3, 3, 4) }

func gen12(g *Gen) {
	genFed(g)
	n := 1 + g.width(6, 60)
	g.ids(n)
	g.set("seeds", int64(1+g.IntN(min(3, n))))
	if g.chance(2, 3) {
		wide(g)
	}
	inst := make([]int64, n+1) // a node that is told of in growing phases and instances, mostly
	phase := make([]int64, n+1)
	for w := 0; w < 1+g.IntN(5); w++ {
		for i := g.rep(7); i >= 0; i-- {
			// how: 0 own connection, 1 on a connection of the system's, 2 from elsewhere; times it is sent; what else the message is
			s := g.step("tell", g.pick(0, g.delay()), w, g.pick(0, 0, 1, 1, 2), g.pick(1, 1, 1, 2, 3), g.Int64N(5))
			for k := g.rep(5); k >= 0; k-- {
				j := g.IntN(n)
				if g.chance(1, 20) {
					j = -1
				}
				a, b := g.inst(), g.phase()
				if g.chance(1, 2) {
					if g.chance(1, 3) {
						inst[j+1], phase[j+1] = inst[j+1]+1, 0
					} else if phase[j+1] < 4 {
						phase[j+1]++
					}
					a, b = inst[j+1], phase[j+1]
				}
				v := g.pick(0, 0, 0, 1, 2, 3, 4, 5, 6)
				if g.chance(1, 40) {
					v = 7
				}
				s.N = append(s.N, int64(j), a, b, v)
			}
		}
	}
	for w := 50; w < 50+g.IntN(4); w++ {
		for i := g.rep(5); i >= 0; i-- {
			g.step("send", g.pick(0, g.delay()), w, g.Int64N(int64(n)), g.pick(0, 0, 0, 1))
		}
	}
	if g.chance(1, 2) {
		g.step("boot", g.delay(), 60, g.between(1000, 90e6))
	}
	if g.chance(1, 20) { // one that is too long
		g.step("tell", g.delay(), 40, g.pick(0, 1, 2), 1, g.Int64N(5), g.Int64N(int64(n)), 1<<41, g.phase(), 8)
	}
	if g.many == 0 && n < 7 && g.chance(1, 20) {
		// very many partners
		g.step("crowd", g.delay(), 61, g.pick(50, 200, 400, 700, 700, 1500))
		wide(g)
	}
	for k := g.IntN(3) - 1; k > 0; k-- {
		g.fault(g.IntN(6), g.IntN(2), "rst", g.between(0, 4000), 0)
	}
	for w := 70; w < 70+g.IntN(3); w++ {
		g.step("sample", g.delay(), w, g.between(5, 40), g.pick(0, 10, 1000, 200000))
	}
}

// viewGoesOn compares two views of which the second was taken later.
func (w *fworld) viewGoesOn(a, b map[NodeID]finfo, what string) {
	var ids []NodeID
	for id := range a {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].less(ids[j]) })
	for _, id := range ids {
		f, ok := b[id]
		if !ok {
			w.h.Fail("forgotten", "%s: the node knew %v and forgot it", what, a[id])
		}
		if a[id].newer(f) {
			w.h.Fail("backwards", "%s: the node knew %v and then %v", what, a[id], f)
		}
	}
}

// checkInfos checks what a message says of others; v was known before it was made.
func (w *fworld) checkInfos(x *fmsg, v map[NodeID]finfo) {
	h := w.h
	size := 0
	var ids []NodeID
	for id, f := range v {
		if f.inst > 0 && id != w.me.id {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].less(ids[j]) })
	got := map[NodeID]finfo{}
	for _, f := range x.infos {
		got[f.id] = f
		size += len(f.encode()) + 8
	}
	all := 0
	for _, f := range w.view() { // there may have been more by the time it was made
		all += len(f.encode()) + 8
	}
	for _, f := range x.infos {
		if !w.maySay[f] {
			h.Fail("invented", "a message says %+v, which nobody has said", f)
		}
	}
	if all > 30000 {
		h.Hit("more than fits")
	}
	for _, id := range ids {
		f, ok := got[id]
		most := w.most[id] // it may have been something newer, that does not fit
		if !ok && size+most < 40000 {
			h.Fail("incomplete", "a message does not say %v, which was known before it was sent", v[id])
		}
		if ok && v[id].newer(f) {
			h.Fail("stale", "a message says %v, but %v was known before it was sent", f, v[id])
		}
	}
}

func run12(h *H) {
	w := newFworld(h)
	n := int(h.Plan.p("n"))
	var seeds []finfo
	for i := 0; i < n; i++ {
		x := w.stub(h.Plan.nodeInfo(i, 1, 1, 0))
		x.mute = true
		x.up()
		if i < int(h.Plan.p("seeds")) {
			seeds = append(seeds, x.info)
		}
	}
	w.start(seeds)
	type call struct {
		view   map[NodeID]finfo
		routed bool // a routing node was surely heard of before
		seen   int
		ended  bool
		err    error
	}
	calls := map[string]*call{}
	booted := false
	routed := func() (sure bool, maybe bool) {
		for _, t := range w.routes {
			if at := t.took(); !sure && at >= 0 && at <= h.Now()-h.Slack() {
				sure = !w.newest[t.f.id].newer(t.f)
			}
		}
		return sure, len(w.routes) > 0
	}
	for _, x := range w.list {
		x.onMsg = func(r *fmsg) {
			if _, maybe := routed(); !maybe && r.own.phase != phBooting {
				h.Fail("phase", "the node says it is in phase %d although it has not heard of a routing node", r.own.phase)
			}
			c := calls[r.m.Action]
			if c == nil {
				c = &call{}
			} else if c.seen++; c.seen > 1 {
				h.Fail("twice", "a message arrives twice")
			}
			if c.routed && r.own.phase != phJoining {
				h.Fail("phase", "the node says it is in phase %d although it has heard of a routing node", r.own.phase)
			}
			w.checkInfos(r, c.view)
			if r.m.Expects && r.route != nil {
				fs := []finfo{h.Plan.nodeInfo(h.Rand(n), uint64(h.Rand(6)), int64(h.Rand(5)), int64(h.Rand(7)))}
				h.Go("reply", func() { w.send(r.p, &RMsg{Actor: r.m.Actor, Action: "reply", Rel: r.m.ID}, fs) })
			}
		}
	}
	pool := [][]finfo{}
	tell := func(who int, s *Step) {
		var fs []finfo
		seen := map[int64]bool{}
		for k := 3; k+3 < len(s.N); k += 4 {
			if seen[s.n(k)] && s.n(2) != 4 { // sometimes the same node twice in a message
				continue
			}
			seen[s.n(k)] = true
			fs = append(fs, h.Plan.nodeInfo(int(s.n(k)), uint64(s.n(k+1)), s.n(k+2), s.n(k+3)))
		}
		pool = append(pool, fs)
		for k := s.n(1); k > 0; k-- {
			m := &RMsg{Actor: aFederation, Action: []string{"VotePing", "VotePingReply", "something", "", "NeighborhoodQueryReply"}[s.n(2)]}
			if s.n(2) == 1 {
				m.Rel = MsgID{GUID{3}, uint32(h.Rand(5))}
			}
			if s.n(2) == 2 {
				m.Actor = actors[h.Rand(len(actors))]
				if m.Actor == aSendTarget || m.Actor == aTransport {
					m.Actor = 5
				}
				m.Body = make([]byte, h.Rand(3000))
			}
			x := w.list[who%n]
			switch {
			case s.n(0) == 1 && len(x.ready()) > 0:
				ps := x.ready()
				w.send(ps[h.Rand(len(ps))], m, fs)
				h.Hit("told on its own connection")
			case s.n(0) == 2:
				if p := w.dialIn("10.5.0.1"); p != nil {
					w.send(p, m, fs)
					if h.Chance(1, 3) {
						h.Sleep(h.netMax())
						p.Close()
					}
				}
			default:
				x.tell(m, fs)
			}
			if k > 1 && h.Chance(1, 2) { // something old in between
				fs = pool[h.Rand(len(pool))]
			}
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "tell":
			tell(who, s)
		case "crowd":
			for k := 0; k < int(s.n(0)); {
				var fs []finfo
				for ; k < int(s.n(0)) && len(fs) < 50; k++ {
					f := h.Plan.nodeInfo(0, 5, int64(k%4), int64(k%7))
					f.id = NodeID{0xc0ffee, uint64(k)}
					f.addr = fmt.Sprintf("10.6.%d.%d:9", k/250, k%250)
					fs = append(fs, f)
				}
				w.list[0].tell(&RMsg{Actor: aFederation, Action: "VotePingReply"}, fs)
				h.Sleep(time.Millisecond)
			}
			h.Sleep(h.Slack() + h.netMax())
			h.Hit("crowd")
		case "send":
			c := &call{view: w.view()}
			c.routed, _ = routed()
			if c.routed = c.routed || booted; c.routed {
				h.Hit("sent when a routing node was known")
			}
			name := fmt.Sprintf("m%d.%d", who, i)
			calls[name] = c
			m := &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: name}, Body: make([]byte, h.Rand(200))}
			if s.n(1) == 0 {
				c.err = w.node.SendOneWay(goNode(h.Plan.id(int(s.n(0)))), m)
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				defer cancel()
				_, c.err = w.node.Route(ctx, goNode(h.Plan.id(int(s.n(0)))), m)
			}
			c.ended = true
		case "boot":
			ctx, cancel := context.WithTimeout(context.Background(), us(s.n(0)))
			defer cancel()
			if w.node.Bootstrap(ctx) == nil {
				booted = true
			}
		case "sample":
			v := w.view()
			for k := s.n(0); k > 0; k-- {
				h.Sleep(us(s.n(1)))
				o := w.view()
				w.viewGoesOn(v, o, "while news come in")
				v = o
			}
		}
	})
	v0 := w.view()
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	h.Sleep(2*h.Slack() + 2*h.netMax())
	if w.bad != "" {
		h.Fail("message", "%s", w.bad)
	}
	w.viewGoesOn(v0, w.view(), "in all")
	w.checkView(seeds, "when all has arrived")
	// and what a message says now
	v := w.view()
	seen, sure := false, false
	for i := range w.list {
		f := v[h.Plan.id(i)]
		if f.addr != nodeAddr(i) {
			continue
		}
		c := &call{view: v}
		if sure, _ = routed(); sure {
			c.routed = true
		}
		calls["last"] = c
		m := &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: "last"}}
		err := w.node.SendOneWay(goNode(f.id), m)
		if len(h.Plan.Faults) > 0 {
			break
		}
		if err != nil {
			h.Fail("send", "a message to %v cannot be sent: %v", f, err)
		}
		if !h.Until(2*h.Slack()+2*h.netMax(), func() bool { return c.seen > 0 || w.bad != "" }) {
			h.Fail("send", "a message to %v does not arrive", f)
		}
		seen = true
		break
	}
	if seen {
		h.Hit("last message checked")
	}
	if sure {
		h.Hit("routing node heard of")
	}
	for _, x := range w.list {
		for _, p := range x.peers {
			if p.Bad != "" {
				h.Fail("message", "%s", p.Bad)
			}
		}
	}
	if w.bad != "" {
		h.Fail("message", "%s", w.bad)
	}
	h.Count("news", int64(len(w.told)))
	h.Count("messages", int64(len(w.all)))
	_ = federation.NodePhaseRouting
}
