package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
)

// C07 again: hostile peers of the parts that use the transport: both sides of a
// piper, the peers and seeds of a federation node, the gateway of a naming client.

func init() {
	register("C07", &World{Name: "piper", Weight: 2, Gen: gen07pipe, Run: run07pipe, AllocCap: 4 << 20})
	register("C07", &World{Name: "node", Weight: 2, Gen: gen07node, Run: run07node, AllocCap: 4 << 20})
	register("C07", &World{Name: "gateway", Weight: 2, Gen: gen07gw, Run: run07gw, AllocCap: 4 << 20, MaxSpin: 8e6})
}

const goodUp, evilUp = "10.0.5.1:1", "10.0.5.66:1"

func gen07pipe(g *Gen) {
	wide(g)
	c := genHostileConf(g)
	g.set("filter", g.pick(0, 1))
	g.set("utls", g.pick(0, 0, 0, 1, 2)) // what the hostile upstream is expected to speak
	n := 1 + g.IntN(3)
	for k := 0; k < n; k++ {
		w := 40 + k
		genHostile(g, w, 1, c)
		g.step("goes", 0, 140+k, g.pick(0, 0, 1, 2, 3)) // to the good upstream, a hostile one, an error, nobody
	}
	uc := c
	if g.P.p("utls") != 0 {
		uc = frameCfg{mask: 1}
	} else {
		uc = frameCfg{headCRC: true, bodyCRC: true}
	}
	m := g.IntN(3)
	for k := 0; k < m; k++ {
		g.step("victim", g.delay(), 70+k) // a proper client is sent to a hostile upstream
		genHostile(g, 60+k, 1, uc)
	}
	for k := 1 + g.IntN(4); k > 0; k-- {
		g.step("ask", g.delay(), 1)
	}
}

func run07pipe(h *H) {
	pc, cc := confs(h.Plan)
	ul := h.Net.Listen(goodUp)
	us, err := transport.Listen(ul, transport.ServerConfig{MessageCallback: echo})
	if err != nil {
		h.Fail("listen", "%v", err)
	}
	h.Go("upstream", func() { us.Serve() })
	utls, ucli := tlsPair(h.Plan.p("utls"), false)
	el := h.Net.Listen(evilUp)
	goes, victims := map[int]int64{}, 0
	for i := range h.Plan.Steps {
		if s := &h.Plan.Steps[i]; s.Op == "goes" {
			goes[s.Who-100] = s.n(0)
		}
	}
	over := false
	var got []*simConn // hostile upstream's ends
	h.Go("evil upstream", func() {
		for {
			c, err := el.Accept()
			if err != nil {
				return
			}
			if over {
				c.Close()
			}
			got = append(got, c.(*simConn))
		}
	})
	theirs := map[*simConn]bool{} // upstream connections of well-behaved clients
	find := func(hd *transport.MessageHeaders, c net.Conn) (net.Conn, transport.Config, error) {
		where := int64(0)
		var w int
		if _, err := fmt.Sscanf(host(c.RemoteAddr().String()), "10.0.1.%d", &w); err == nil {
			where = goes[w]
		}
		if _, err := fmt.Sscanf(host(c.RemoteAddr().String()), "10.0.2.%d", &w); err == nil {
			where = 1
		}
		switch where {
		case 1:
			u, err := h.Net.Dial("10.0.9.1", evilUp)
			return u, transport.Config{TLS: ucli}, err
		case 2:
			return nil, transport.Config{}, errors.New("no")
		case 3:
			u, err := h.Net.Dial("10.0.9.1", "10.0.5.9:9")
			return u, transport.Config{}, err
		}
		u, err := h.Net.Dial("10.0.9.1", goodUp)
		if err == nil && host(c.RemoteAddr().String()) == "10.0.0.77" {
			theirs[u.(*simConn)] = true
		}
		return u, transport.Config{}, err
	}
	var filter transport.MessageTransformer
	if h.Plan.p("filter") == 1 {
		filter = func(_, _ net.Conn, m *transport.ByteArrayMessage) *transport.Message {
			decodeAny(m.Body)
			return &transport.Message{Headers: m.Headers, Body: m.Body}
		}
	}
	pp, err := transport.NewPiper(h.Net.Listen(piperAt), transport.PiperConfig{Config: pc, Filter: filter, FindUpstream: find})
	if err != nil {
		h.Fail("new", "%v", err)
	}
	serve := h.Go("serve", func() { pp.Serve() })
	bound := 2*h.rtt() + 4*h.netMax()
	inn := &innocent{h: h}
	inn.dial(piperAt, cc, bound)
	evil := map[int]*hostile{}
	var mine []*simConn
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch {
		case s.Op == "goes":
		case s.Op == "ask":
			inn.ask("during the attack", bound, i)
		case s.Op == "victim":
			c, err := h.Net.Dial(fmt.Sprintf("10.0.2.%d", who), piperAt)
			if err != nil {
				return
			}
			victims++
			mine = append(mine, c.(*simConn))
			p := NewRaw(h, "victim", c.(*simConn), frameCfgOf(pc))
			t := h.Go("victim", func() {
				if cc.TLS != nil && p.Handshake(cc.TLS, false) != nil {
					return
				}
				p.Start()
				p.Send(&RMsg{Actor: 5, Action: "note", Body: []byte("to the hostile upstream")})
			})
			h.Await(t, time.Minute)
		default:
			x := evil[who]
			if x == nil {
				x = &hostile{h: h}
				evil[who] = x
			}
			if who >= 60 { // a hostile upstream: takes a connection that somebody got
				conf := utls
				x.step2(s, conf, frameCfgOf(transport.Config{TLS: conf}), func() *simConn {
					h.Until(time.Second, func() bool { return len(got) > 0 })
					if len(got) == 0 {
						return nil
					}
					c := got[0]
					got = got[1:]
					mine = append(mine, c)
					return c
				}, true)
				return
			}
			x.step(s, func() *simConn {
				c, err := h.Net.Dial(fmt.Sprintf("10.0.1.%d", who), piperAt)
				if err != nil {
					return nil
				}
				mine = append(mine, c.(*simConn))
				return c.(*simConn)
			}, false)
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	over = true
	for _, c := range append(mine, got...) {
		c.Close()
	}
	h.Sleep(2*(h.Slack()+h.netMax()+h.tlsClose()) + time.Second)
	for _, c := range h.Net.conns {
		sys := c.b // dialled by clients
		if host(c.a.local) == "10.0.9.1" {
			sys = c.a
		}
		if host(c.a.local) != "10.0.0.77" && !theirs[c.a] && !sys.closed {
			h.Fail("hang", "the piper holds a connection between %s and %s although the hostile parties are gone", c.a.local, c.a.remote)
		}
	}
	inn.ask("after the attack", bound, 98)
	last := &innocent{h: h}
	last.dial(piperAt, cc, bound)
	last.ask("a new client after the attack", bound, 99)
	if serve.Ended {
		h.Fail("serve", "Serve ended")
	}
}

func gen07node(g *Gen) {
	genHostileConf(g)
	genFed(g)
	wide(g)
	g.ids(3)
	c := frameCfg{headCRC: true, bodyCRC: g.chance(1, 2)}
	if g.P.p("tls") != 0 {
		c = frameCfg{mask: 1}
	}
	genHostile(g, 40, g.IntN(3), c)
	m := g.IntN(4)
	g.set("evilseeds", int64(m))
	for k := 0; k < m; k++ {
		genHostile(g, 60+k, 1+g.IntN(2), c)
	}
	g.step("boot", g.delay(), 2, g.pick(0, g.between(1, 100e6)))
	for k := 1 + g.IntN(4); k > 0; k-- {
		g.step("ask", g.delay(), 1, g.Int64N(2))
	}
	if g.chance(1, 2) { // what it is told of the global lease
		for k := 1 + g.IntN(3); k > 0; k-- {
			s := g.step("join", g.delay(), 4)
			s.Data = genGlobalLease(g)
			if g.chance(1, 4) {
				s.Data = junkObj(g, 0)
			} else if g.chance(3, 4) {
				s.Data = mutate(g, s.Data)
			}
		}
	}
	if m > 0 {
		for k := g.IntN(4); k > 0; k-- {
			g.step("use", g.delay(), 3, g.Int64N(int64(m)), g.Int64N(2))
		}
	}
}

func genGlobalLease(g *Gen) []byte {
	id := func() NodeID { return NodeID{g.Uint64(), g.Uint64()} }
	return object(func(e *enc) {
		if n := g.IntN(4); e.objs(n) {
			for ; n > 0; n-- {
				e.obj(func() {
					e.nodeid(id())
					e.i64(g.Int64())
					if n := g.IntN(4); e.objs(n) {
						for ; n > 0; n-- {
							e.obj(func() {
								e.obj(func() { e.nodeid(id()); e.nodeid(id()) })
								e.obj(func() { e.i64(1); e.i64(g.Int64()) })
							})
						}
					}
				})
			}
		}
		e.i64(g.Int64())
		e.i64(g.Int64())
	})
}

// run07node: a federation node among hostile nodes.
func run07node(h *H) {
	w := newFworld(h)
	good := w.stub(h.Plan.nodeInfo(0, 1, phRouting, 0))
	good.up()
	seeds := []finfo{good.info}
	m := int(h.Plan.p("evilseeds"))
	lis := map[int]chan *simConn{}
	for k := 0; k < m; k++ {
		f := finfo{id: h.Plan.id(1 + k%2), addr: fmt.Sprintf("10.1.1.%d:1020", k+1)}
		f.id.Hi ^= uint64(k+1) << 8
		if f.id == w.me.id || f.id == good.info.id {
			continue
		}
		seeds = append(seeds, f)
		ch := make(chan *simConn, 100)
		lis[k] = ch
		l := h.Net.Listen(f.addr)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				select {
				case ch <- c.(*simConn):
				default:
					c.Close()
				}
			}
		}()
	}
	w.start(seeds)
	bound := 2*h.rtt() + h.tlsClose()
	var lease []byte
	// the good node answers what it is asked
	good.onMsg = func(r *fmsg) {
		if r.m.Action == "NeighborhoodQueryRequest" {
			h.Hit("asked for the global lease")
			h.Go("answer", func() {
				w.send(r.p, &RMsg{Actor: aFederation, Action: "answer", Rel: r.m.ID, Body: lease}, []finfo{good.info})
			})
		}
		if r.m.Action == "ask" {
			h.Go("answer", func() {
				w.send(r.p, &RMsg{Actor: aFederation, Action: "answer", Rel: r.m.ID, Body: r.m.Body}, []finfo{good.info})
			})
		}
	}
	ask := func(what string, i int, route bool) {
		b := body("ask", i, 30)
		var err error
		var r *transport.ByteArrayMessage
		n := len(good.got)
		t := h.Go("ask", func() {
			m := &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: "ask"}, Body: b}
			if route {
				r, err = w.node.Route(context.Background(), goNode(good.info.id), m)
			} else {
				err = w.node.SendOneWay(goNode(good.info.id), m)
			}
		})
		if !h.Await(t, bound) {
			h.Fail("harmed", "%s: no exchange with a well-behaved node", what)
		}
		if err != nil {
			h.Fail("harmed", "%s: the exchange with a well-behaved node ends with %v", what, err)
		}
		if r != nil && string(r.Body) != string(b) {
			h.Fail("harmed", "%s: a well-behaved node's answer is wrong", what)
		}
		h.Sleep(bound)
		for _, r := range good.got[n:] {
			if string(r.m.Body) == string(b) {
				return
			}
		}
		h.Fail("harmed", "%s: the message has not reached the well-behaved node", what)
	}
	evil := map[int]*hostile{}
	var mine []*simConn
	var loose []*Task
	ctx, stop := context.WithCancel(context.Background())
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch s.Op {
		case "ask":
			ask("during the attack", i, s.n(0) == 1)
			return
		case "boot":
			c, cancel := ctx, func() {}
			if s.n(0) > 0 {
				c, cancel = context.WithTimeout(ctx, us(s.n(0)))
			}
			loose = append(loose, h.Go("boot", func() { w.node.Bootstrap(c); cancel() }))
			return
		case "join":
			lease = s.Data
			t := h.Go("join", func() { w.node.Join(ctx) })
			loose = append(loose, t)
			h.Await(t, bound)
			return
		case "use": // traffic towards a hostile node
			if k := int(s.n(0)); k+1 < len(seeds) {
				id := goNode(seeds[k+1].id)
				loose = append(loose, h.Go("use", func() {
					m := &transport.Message{Headers: transport.MessageHeaders{Actor: transport.MessageActorTypeFederation, Action: "use"}, Body: []byte("x")}
					if s.n(1) == 0 {
						w.node.Route(ctx, id, m)
					} else {
						w.node.SendOneWay(id, m)
					}
				}))
			}
			return
		}
		x := evil[who]
		if x == nil {
			x = &hostile{h: h}
			evil[who] = x
		}
		add := func(c *simConn) *simConn {
			mine = append(mine, c)
			return c
		}
		if who >= 60 {
			ch := lis[(who-60)%max(1, m)]
			x.step2(s, w.sc.TLS, frameCfgOf(w.sc), func() *simConn {
				select {
				case c := <-ch:
					return add(c)
				case <-time.After(70 * time.Second):
				}
				return nil
			}, true)
			return
		}
		x.step2(s, w.cc.TLS, frameCfgOf(w.sc), func() *simConn {
			c, err := h.Net.Dial("10.0.0.66", w.me.addr)
			if err != nil {
				return nil
			}
			return add(c.(*simConn))
		}, false)
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	for _, c := range mine {
		c.Close()
	}
	stop()
	// connections nobody has taken may hang in their handshake
	for k := 0; k < m; k++ {
		h.Go("refuse", func() {
			for c := range lis[k] {
				c.Close()
			}
		})
	}
	h.Sleep(2*(h.Slack()+h.netMax()+h.tlsClose()) + 2*time.Second)
	for _, t := range loose {
		if !t.Ended {
			h.Fail("hang", "a %s does not end although its context is done and the hostile nodes are gone", t.Name)
		}
	}
	for _, c := range mine {
		if !c.peer().closed {
			h.Fail("hang", "the node holds a connection of a hostile node that is gone")
		}
	}
	ask("after the attack", 98, false)
	ask("after the attack", 99, true)
	if p := w.dialIn("10.5.0.1"); p == nil {
		h.Fail("harmed", "the node's server does not accept any more")
	}
	if f, ok := w.view()[good.info.id]; !ok || f.addr != good.info.addr {
		h.Fail("harmed", "the node has lost the well-behaved node (%v)", f)
	}
	if w.serve.Ended {
		h.Fail("serve", "Serve ended: %v", w.serr)
	}
	if w.bad != "" {
		h.Fail("harmed", "%s", w.bad)
	}
	w.closeNode(long, 1)
}

func gen07gw(g *Gen) {
	wide(g)
	c := genHostileConf(g)
	n := 1 + g.IntN(3)
	genHostile(g, 40, n, c)
	for w := 40; w < 40+n; w++ {
		for k := 1 + g.IntN(4); k > 0; k-- {
			s := g.step("reply", g.pick(0, g.delay()), w, g.Int64N(4), g.Int64N(4))
			s.Data = genReply(g)
		}
		for k := 1 + g.IntN(4); k > 0; k-- {
			g.step([]string{"ping", "apps", "filter"}[g.IntN(3)], g.pick(0, g.delay()), w+100+200*g.IntN(2))
		}
	}
	// the order of a peer's steps is that of the plan: mix the answers with the rest
	g.P.Steps = mixSteps(g, g.P.Steps)
	for k := 1 + g.IntN(4); k > 0; k-- {
		g.step("ask", g.delay(), 1)
	}
}

// mixSteps moves every "reply" to a random place behind its peer's opening.
func mixSteps(g *Gen, ss []Step) []Step {
	var out []Step
	for _, s := range ss {
		if s.Op != "reply" {
			out = append(out, s)
			continue
		}
		var at []int
		open := false
		for i := range out {
			if out[i].Who == s.Who && out[i].Op == "open" {
				open = true
			}
			if open && out[i].Who == s.Who && out[i].Op != "open" {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			continue
		}
		k := at[g.IntN(len(at))]
		out = append(out[:k:k], append([]Step{s}, out[k:]...)...)
	}
	return out
}

// genReply is the body of an answer or a notification, damaged or not.
func genReply(g *Gen) []byte {
	b := object(func(e *enc) {
		switch g.IntN(4) {
		case 0:
			encGateway(e, naming.GatewayDescription{Address: "gw", NodeName: "n", NodeInstance: federation.NodeInstance{Id: federation.NodeID{Hi: 1}, InstanceId: 7}}, g.chance(1, 4))
		case 1:
			e.i64(int64(g.extreme()))
			if n := g.IntN(4); e.objs(n) {
				for i := 0; i < n; i++ {
					encApp(e, app("evil", g.IntN(30)), g.chance(1, 4))
				}
			}
		case 2:
			e.u64(g.extreme())
		case 3:
			e.i64(int64(g.extreme()))
		}
	})
	if g.chance(1, 3) {
		b = encNote(note(g.IntN(9), g.Int64N(1<<40), g.Int64N(1<<30)), g.chance(1, 4), g.pick(0, 0, 0, 1, 2, 3))
	}
	if g.chance(3, 4) {
		b = mutate(g, b)
	}
	if g.chance(1, 10) {
		b = evilBody(g)
	}
	return b
}

// run07gw: naming clients whose gateways are hostile.
func run07gw(h *H) {
	sc, cc := confs(h.Plan)
	l := h.Net.Listen(srvAddr)
	srv, _ := transport.Listen(l, transport.ServerConfig{Config: sc, MessageCallback: echo})
	h.Go("serve", func() { srv.Serve() })
	inn := &innocent{h: h}
	inn.dial(srvAddr, cc, h.rtt())
	type victim struct {
		n        *naming.NamingClient
		up, wait *Task
		evil     *hostile
		a, b     *simConn
		notes    int
	}
	vs := map[int]*victim{}
	for i := range h.Plan.Steps {
		w := h.Plan.Steps[i].Who
		if w < 40 || w >= 100 || vs[w] != nil {
			continue
		}
		v := &victim{evil: &hostile{h: h, listen: true}}
		v.a, v.b = h.Net.Pipe(fmt.Sprintf("10.0.0.1:%d", w), "10.0.0.66:1")
		v.up = h.Go("connect", func() {
			c, err := transport.Connect(v.a, transport.ClientConfig{Config: cc})
			if err != nil {
				return
			}
			if v.n, err = naming.NewNamingClient(c); err != nil {
				h.Fail("new", "%v", err)
			}
			v.n.OnServiceNotification = func(n *naming.ServiceNotification) {
				if n == nil {
					h.Fail("nil", "the handler is given no notification")
				}
				v.notes++
				for _, p := range n.Partitions { // as an application would
					if p != nil && p.ServiceTable != nil {
						_ = p.ServiceTable.ServiceName
					}
				}
				h.Hit("notified")
			}
			v.wait = h.Go("wait", func() { c.Wait() })
		})
		vs[w] = v
	}
	var calls []*Task
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		switch {
		case s.Op == "ask":
			inn.ask("during the attack", h.rtt(), i)
		case who >= 100:
			v := vs[who%100]
			if who%100 < 40 || v == nil {
				return
			}
			h.Until(10*time.Second, func() bool { return v.wait != nil })
			if v.wait == nil {
				return
			}
			calls = append(calls, h.Go(s.Op, func() {
				var err error
				switch s.Op {
				case "ping":
					var d *naming.GatewayDescription
					d, err = v.n.Ping(context.Background())
					if err == nil && d == nil {
						h.Fail("nil", "Ping returns neither a description nor an error")
					}
				case "apps":
					_, err = v.n.GetApplicationList(context.Background(), "a")
				case "filter":
					_, err = v.n.RegisterFilter(context.Background(), tagUri("f", 0), false, false)
				}
				if err == nil {
					h.Hit("call succeeds")
				}
			}))
		case s.Op == "reply":
			x := vs[who].evil
			if x.p == nil || x.c == nil {
				return
			}
			m := &RMsg{Actor: aNaming, Action: "ServiceNotificationRequest", Body: s.Data}
			if s.n(0) > 0 { // an answer to something it was asked
				h.Until(2*time.Second, func() bool { return len(x.asked) > 0 })
				if n := len(x.asked); n > 0 {
					r := x.asked[n-1]
					if s.n(0) > 1 {
						x.asked = x.asked[:n-1]
					}
					m.Rel, m.Action = r.ID, map[string]string{"PingRequest": "PingReply", "QueryRequest": "QueryReply"}[r.Action]
					if m.Action == "" || s.n(1) == 0 {
						m.Action = []string{"ClientOperationSuccess", "ClientOperationFailure", "RegisterServiceNotificationFilterReply", "NotificationClientConnectionReply"}[len(s.Data)%4]
					}
				}
			}
			h.Count("fault.hostile", 1)
			t := h.Go("reply", func() { x.p.Send(m) })
			h.Await(t, time.Minute)
		default:
			v := vs[who]
			v.evil.step(s, func() *simConn { return v.b }, true)
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	for _, v := range vs {
		v.b.Close()
	}
	h.Sleep(2*(h.Slack()+h.netMax()+h.tlsClose()) + time.Second)
	for _, v := range vs {
		if !v.up.Ended || v.wait != nil && !v.wait.Ended {
			h.Fail("hang", "connecting or the receive loop does not end after the gateway has gone")
		}
	}
	for _, c := range calls {
		if !c.Ended {
			h.Fail("hang", "a call (%s) does not end after the gateway has gone", c.Name)
		}
	}
	inn.ask("after the attack", h.rtt(), 99)
}
