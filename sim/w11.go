package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C11", &World{Name: "pipe", AllocCap: 1 << 30, Weight: 6, Gen: gen11, Run: run11})
	register("C11", &World{Name: "system", Weight: 2, Gen: gen11sys, Run: run11sys})
}

// Upstreams a client may ask for.
const (
	upPlain   = iota // defaults
	upBody           // body checksums both ways
	upNoCRC          // no checksums
	upTLS            // TLS
	upRefused        // nobody listens
	upError          // FindUpstream says no
	upNotTLS         // the piper expects TLS and the upstream does not speak it
	upWrong          // certificate nobody trusts
	upGone           // accepts and resets
	nUp
)

func upConf(k int64) (piper transport.Config, srv *tls.Config, peer frameCfg) {
	switch k {
	case upBody:
		return transport.Config{CheckFrameBodyCRC: true, GenerateFrameBodyCRC: true}, nil, frameCfg{headCRC: true, bodyCRC: true}
	case upNoCRC:
		return transport.Config{DisableCheckFrameHeaderCRC: true, DisableGenerateFrameHeaderCRC: true}, nil, frameCfg{}
	case upTLS, upNotTLS, upWrong:
		s, c := tlsPair(4, false)
		if k == upWrong {
			s.Certificates = []tls.Certificate{certs.rogue}
		}
		if k == upNotTLS {
			s = nil
		}
		return transport.Config{TLS: c}, s, frameCfg{mask: 1}
	}
	return transport.Config{}, nil, frameCfg{headCRC: true}
}

func gen11(g *Gen) {
	genConf(g, 1, 3)
	wide(g)
	g.set("filter", g.pick(0, 1, 2, 2))
	g.set("extra", g.pick(0, 1)) // peers send checksums nobody asked for
	pairs := 1 + g.width(4, 28)
	for w := 0; w < pairs; w++ {
		k := g.pick(upPlain, upPlain, upBody, upNoCRC, upTLS, upTLS, g.Int64N(nUp))
		g.step("dial", g.delay(), 10+w, k, g.pick(0, 0, g.brief()))
		for _, side := range []int{10, 40} {
			for i := g.rep(7); i > 0; i-- {
				if g.chance(1, 6) {
					g.step("beat", g.pick(0, g.delay()), side+w)
					continue
				}
				g.step("m", g.pick(0, 0, g.delay()), side+w, g.Int64N(1<<40), sizeDist(g, true))
				if g.chance(1, 2000) { // a big one
					g.P.Steps[len(g.P.Steps)-1].N[1] = g.pick(g.between(1<<20, 3<<20), g.between(16<<20, 18<<20))
				}
			}
		}
		if g.chance(1, 2) {
			s := g.step([]string{"close", "rst", "fin", "fin", "junk", "hurt"}[g.IntN(6)], g.pick(0, g.delay()), []int{10, 40}[g.IntN(2)]+w, g.Int64N(nHurt), g.Int64N(1<<30), g.between(1, 255))
			s.Data = genJunk(g)
			if g.chance(1, 2) { // what comes behind it is not for the other end
				g.step("m", 0, s.Who, g.Int64N(1<<40), 100)
			}
		}
	}
	for w := 70; w < 70+g.IntN(3); w++ {
		s := g.step("bad", g.delay(), w, g.pick(cliSilent, cliPartialSetup, cliNoReadSetup, cliGarbage, cliReset, cliPartialFrame, cliBadCert, cliGone), g.between(0, g.pick(20, 300, 3000)), g.delay(), g.between(1, 40))
		if s.n(0) == cliGarbage {
			s.Data = genEvil(g, frameCfg{headCRC: true, bodyCRC: true})
		}
		if s.n(0) != cliNoReadSetup && g.many > 0 {
			s.N = append(s.N, g.many) // a crowd of them
		}
	}
	for w := 80; w < 80+g.IntN(3); w++ {
		g.step("spoilt", g.delay(), w, g.Int64N(nHurt), g.Int64N(1<<30), g.between(1, 255))
	}
	for k := g.IntN(3); k > 0; k-- {
		g.fault(0, 2, []string{"accepttemp", "acceptabort"}[g.IntN(2)], 1+g.Int64N(5), 0)
	}
	if g.chance(1, 3) {
		g.fault(g.IntN(2*pairs), g.IntN(2), []string{"rst", "fin", "werr", "stall"}[g.IntN(4)], g.between(0, g.pick(300, 3000, 10000)), g.pick(0, 1, 1e6, 1e9))
	}
	if g.chance(1, 8) {
		g.fault(0, 2, "acceptperm", 2+g.Int64N(5), 0)
	}
}

const (
	hRoute  = 0x8051
	piperAt = srvAddr
)

// pipePair is one client with its upstream.
type pipePair struct {
	w        int
	up       int64
	cli, srv *RawPeer
	in, out  *simConn // the piper's ends
	ready    bool     // client side
	upReady  bool
	found    int    // calls to FindUpstream
	hurt     string // what was done to it
	hurtAt   time.Duration
	hurtBy   string
	dead     bool // the client side failed to set up
	filters  int
	cut      *RawPeer // whoever spoilt its stream
	cutAt    int      // what it had sent before
}

// what the filter makes of a message
func filterKind(h *H, action string, actor int64) int {
	if h.Plan.p("filter") != 2 || actor == aTransport {
		return 0
	}
	if len(action) < 12 {
		return 0
	}
	switch int(action[10]-'0') % 4 {
	case 1:
		return 1
	case 2:
		return 2
	}
	return 0
}

func reversed(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func run11(h *H) {
	pc, cc := confs(h.Plan)
	pairs := map[int]*pipePair{}
	for i := range h.Plan.Steps {
		if s := &h.Plan.Steps[i]; s.Op == "dial" {
			pairs[s.Who-10] = &pipePair{w: s.Who - 10, up: s.n(0)}
		}
	}
	l := h.Net.Listen(piperAt) // the listener that has the faults
	// upstreams
	for k := int64(0); k < nUp; k++ {
		if k == upRefused || k == upError {
			continue
		}
		_, stls, cfg := upConf(k)
		ul := h.Net.Listen(fmt.Sprintf("10.0.5.%d:1", k))
		h.Go("upstream", func() {
			for {
				c, err := ul.Accept()
				if err != nil {
					return
				}
				var w int
				fmt.Sscanf(host(c.RemoteAddr().String()), "10.0.9.%d", &w)
				x := pairs[w]
				if x == nil || x.srv != nil {
					h.Fail("upstream", "an upstream got a connection nobody asked for")
				}
				x.out = c.(*simConn).peer()
				p := NewRaw(h, fmt.Sprintf("up%d", w), c.(*simConn), cfg)
				p.keep, p.tag = true, w
				if h.Plan.p("extra") == 1 && stls == nil {
					p.want = &cfg
					p.cfg.headCRC, p.cfg.bodyCRC = true, true
				}
				x.srv = p
				h.Go("up", func() {
					if k == upGone {
						c.(*simConn).Reset()
						return
					}
					if stls != nil {
						if err := p.Handshake(stls, true); err != nil {
							c.Close()
							return
						}
					}
					p.Start()
					x.upReady = true
				})
			}
		})
	}
	filter := func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
		var w int
		out := true
		if _, err := fmt.Sscanf(src.RemoteAddr().String(), "10.0.0.%d:", &w); err != nil {
			out = false
			if _, err := fmt.Sscanf(dst.RemoteAddr().String(), "10.0.0.%d:", &w); err != nil {
				h.Fail("filter", "the filter is given connections %v and %v", src.RemoteAddr(), dst.RemoteAddr())
			}
		}
		x := pairs[w]
		if x == nil {
			return nil
		}
		other := dst
		if !out {
			other = src
		}
		if want := fmt.Sprintf("10.0.5.%d:1", x.up); other.RemoteAddr().String() != want {
			h.Fail("filter", "the filter is given the upstream %v, not %v", other.RemoteAddr(), want)
		}
		x.filters++
		switch filterKind(h, m.Headers.Action, int64(m.Headers.Actor)) {
		case 1:
			return nil
		case 2:
			r := &transport.Message{Headers: transport.MessageHeaders{Id: m.Headers.Id, Actor: 77, Action: "replaced", RelatesTo: m.Headers.RelatesTo}, Body: reversed(m.Body)}
			r.Headers.SetCustomHeader(transport.MessageHeaderIdType(hActivity), []byte("by the filter"))
			return r
		}
		return &transport.Message{Headers: m.Headers, Body: m.Body}
	}
	if h.Plan.p("filter") == 0 {
		filter = nil
	}
	find := func(hd *transport.MessageHeaders, c net.Conn) (net.Conn, transport.Config, error) {
		var w int
		if host(c.RemoteAddr().String()) == "10.0.8.1" {
			h.Fail("spoilt", "FindUpstream is given the headers of a frame that was altered")
		}
		cs := hd.GetCustomHeaders(transport.MessageHeaderIdType(hRoute))
		if len(cs) == 1 {
			if b, ok := cs[0].([]byte); ok && len(b) == 2 {
				w = int(b[0])
				x := pairs[w]
				if x == nil || int64(b[1]) != x.up {
					h.Fail("route", "the headers given to FindUpstream are not the client's")
				}
				if host(c.RemoteAddr().String()) != fmt.Sprintf("10.0.0.%d", w) {
					h.Fail("route", "FindUpstream is given the headers of client %d and the connection of %v", w, c.RemoteAddr())
				}
				if x.found++; x.found > 1 {
					h.Fail("route", "FindUpstream is called again for one client")
				}
				for i := range h.Plan.Steps {
					if s := &h.Plan.Steps[i]; s.Op == "dial" && s.Who == w+10 && s.n(1) > 0 {
						h.Sleep(us(s.n(1)))
					}
				}
				conf, _, _ := upConf(x.up)
				if x.up == upError {
					return nil, conf, errors.New("no")
				}
				u, err := h.Net.Dial(fmt.Sprintf("10.0.9.%d", w), fmt.Sprintf("10.0.5.%d:1", x.up))
				return u, conf, err
			}
		}
		for _, x := range pairs {
			if host(c.RemoteAddr().String()) == fmt.Sprintf("10.0.0.%d", x.w) && x.hurt == "" && h.Net.stats["fault.fin"]+h.Net.stats["fault.rst"] == 0 {
				h.Fail("route", "the headers given to FindUpstream are not those of the client's first message")
			}
		}
		return nil, transport.Config{}, errors.New("no route")
	}
	pp, err := transport.NewPiper(l, transport.PiperConfig{Config: pc, Filter: filter, FindUpstream: find})
	if err != nil {
		h.Fail("new", "NewPiper: %v", err)
	}
	var serveErr error
	failed := func() bool { return h.Net.stats["fault.acceptperm"] > 0 }
	serve := h.Go("serve", func() {
		if serveErr = pp.Serve(); failed() {
			l.Close() // those it has not accepted are let go
		}
	})
	bound := h.Slack() + 12*h.netMax() + 2*6*time.Second + us(3*1e6)

	reach := func(x *pipePair) bool { return x.up <= upTLS }
	setup := func(x *pipePair) {
		p := x.cli
		if cc.TLS != nil {
			if err := p.Handshake(cc.TLS, false); err != nil {
				x.dead = true
				p.raw.Close()
				return
			}
		}
		p.Start()
		x.ready = true
	}
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		if s.Op == "bad" {
			crowd08(h, s)
			return
		}
		if s.Op == "spoilt" { // a client whose first frame is altered on its way
			chk := int64(0)
			if !pc.DisableCheckFrameHeaderCRC {
				chk |= 1
			}
			if pc.CheckFrameBodyCRC {
				chk |= 2
			}
			m := makeMsg(who, i, 5, 60)
			m.exp.ID = MsgID{GUID{8}, uint32(who)}
			m.exp.Custom = append(m.exp.Custom, hdrTLV{hRoute, []byte{byte(who), upPlain}})
			b, ok, _ := hurt(m.exp.encode(frameCfg{headCRC: true, bodyCRC: true}), s.n(0), s.n(1), max(1, s.n(2)), chk)
			if ok || pc.TLS != nil || failed() {
				return
			}
			nc, err := h.Net.Dial("10.0.8.1", piperAt)
			if err != nil {
				return
			}
			c := nc.(*simConn)
			h.Hit(fmt.Sprintf("first%d", s.n(0)))
			t := h.Go("spoilt", func() { c.Write(b); c.CloseWrite() })
			h.Await(t, bound)
			h.Sleep(bound)
			if !c.peer().closed && !failed() {
				h.Fail("left-open", "the connection of a client whose first frame was altered stays open")
			}
			c.Close()
			return
		}
		side, w := 1, who-10
		if who >= 40 {
			side, w = 4, who-40
		}
		x := pairs[w]
		if x == nil {
			return
		}
		if s.Op == "dial" {
			if failed() {
				x.dead = true
				return
			}
			c, err := h.Net.Dial(fmt.Sprintf("10.0.0.%d", w), piperAt)
			if err != nil {
				x.dead = true
				if !failed() {
					h.Fail("accept", "the piper does not accept: %v", err)
				}
				return
			}
			cfg := frameCfg{headCRC: !pc.DisableCheckFrameHeaderCRC, bodyCRC: pc.CheckFrameBodyCRC}
			if h.Plan.p("extra") == 1 {
				cfg = frameCfg{headCRC: true, bodyCRC: true}
			}
			p := NewRaw(h, fmt.Sprintf("cli%d", w), c.(*simConn), cfg)
			want := frameCfgOf(pc)
			p.want = &want
			p.keep, p.tag = true, w
			p.more = []hdrTLV{{hRoute, []byte{byte(w), byte(x.up)}}}
			x.in = c.(*simConn).peer()
			x.cli = p
			t := h.Go("setup", func() { setup(x) })
			h.Await(t, 4*bound)
			return
		}
		p, name := x.cli, "client"
		if side == 4 {
			// until it is connected
			h.Until(8*bound, func() bool { return x.upReady || x.dead || x.cli != nil && x.cli.Ended })
			p, name = x.srv, "upstream"
			if !x.upReady {
				return
			}
		} else if !x.ready {
			return
		}
		switch s.Op {
		case "m":
			m := makeMsg(who, i, s.n(0), int(s.n(1)))
			if m.refuse || x.hurt == "fin" && x.hurtBy == name {
				return
			}
			m.exp.ID = MsgID{}
			p.Send(m.exp)
		case "beat":
			if x.hurt == "fin" && x.hurtBy == name {
				return
			}
			p.Beat(object(func(e *enc) { e.i64(int64(i)) }))
		default:
			if x.hurt != "" {
				return
			}
			do := func(f func()) { // the network may block writes
				x.hurt, x.hurtBy, x.hurtAt = s.Op, name, h.Now()
				t := h.Go(s.Op, f)
				h.Await(t, bound)
			}
			switch s.Op {
			case "close":
				do(func() { p.Close() })
			case "rst":
				do(func() { p.raw.Reset() })
			case "fin":
				do(func() { p.wr.lock(); x.cut, x.cutAt = p, len(p.Out); p.raw.CloseWrite(); p.wr.unlock() })
			case "junk":
				do(func() {
					p.wr.lock()
					x.cut, x.cutAt = p, len(p.Out)
					p.raw.Write(s.Data)
					p.raw.CloseWrite()
					p.wr.unlock()
				})
			case "hurt":
				conf := pc
				if side == 4 {
					conf, _, _ = upConf(x.up)
				}
				if conf.TLS != nil {
					return
				}
				chk := int64(0)
				if !conf.DisableCheckFrameHeaderCRC {
					chk |= 1
				}
				if conf.CheckFrameBodyCRC {
					chk |= 2
				}
				m := makeMsg(who, i, 5, 60)
				m.exp.ID = p.NewID()
				b, ok, _ := hurt(m.exp.encode(frameCfg{headCRC: true, bodyCRC: true}), s.n(0), s.n(1), s.n(2), chk)
				if ok {
					return // nobody is to notice
				}
				h.Hit(fmt.Sprintf("spoilt%d", s.n(0)))
				do(func() {
					p.wr.lock()
					x.cut, x.cutAt = p, len(p.Out)
					_, err := p.raw.Write(b)
					if err != nil || s.n(0) == hurtCut || s.n(0) == hurtCutRst {
						p.raw.CloseWrite() // what the network refused is never completed
					}
					p.wr.unlock()
				})
			}
		}
	})
	if t := h.awaitAll(ts, 10*long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	h.Sleep(2*bound + h.netMax()*20)

	expect := func(src *RawPeer) (o []*RMsg) {
		for i, m := range src.Out {
			if src == pairs[src.tag].cut && i >= pairs[src.tag].cutAt {
				break
			}
			c := *m
			switch filterKind(h, m.Action, m.Actor) {
			case 1:
				continue
			case 2:
				c = RMsg{ID: m.ID, Actor: 77, Action: "replaced", Rel: m.Rel, Body: reversed(m.Body), Custom: []hdrTLV{{hActivity, []byte("by the filter")}}}
			}
			o = append(o, &c)
		}
		return
	}
	for w := 0; w < 10; w++ {
		x := pairs[w]
		if x == nil || x.cli == nil {
			continue
		}
		disturbed, by := x.hurt != "", x.hurt
		fault := false
		for _, c := range []*simConn{x.in, x.out} {
			if c == nil {
				continue
			}
			for _, hf := range []*half{c.rd, c.wr} {
				for _, k := range hf.hit {
					fault = true
					if k != "stall" {
						disturbed, by = true, k
					}
				}
			}
		}
		if failed() && !x.upReady {
			continue // never accepted
		}
		// content, order
		for dir, e := range [][2]*RawPeer{{x.cli, x.srv}, {x.srv, x.cli}} {
			src, dst := e[0], e[1]
			if dst == nil {
				continue
			}
			name := fmt.Sprintf("pair %d, %s", w, []string{"to the upstream", "to the client"}[dir])
			junk := x.hurt == "junk" && x.cut == src && src != nil // it may be well-formed and then it is a message
			if dst.Bad != "" && !junk {
				h.Fail("wire", "%s: %s", name, dst.Bad)
			}
			var want []*RMsg
			own := map[MsgID]bool{}
			if src != nil {
				want = expect(src)
				for _, m := range src.Out {
					own[m.ID] = true
				}
			}
			if dir == 0 && !reach(x) {
				for _, m := range dst.In {
					if own[m.ID] {
						h.Fail("leaked", "%s: a message was forwarded to an upstream that was not verified", name)
					}
				}
				continue
			}
			k, inits := 0, 0
			for _, m := range dst.In {
				if !own[m.ID] && m.Actor == aTransport && m.Action == "" && inits == 0 {
					inits++
					continue
				}
				if k >= len(want) && junk {
					break
				}
				if k >= len(want) {
					h.Fail("invented", "%s: message %v was not sent", name, m)
				}
				if m.ID != want[k].ID {
					h.Fail("order", "%s: message %d has id %v, expected was %v", name, k, m.ID, want[k].ID)
				}
				if d := sameMsg(want[k], m, true); d != "" {
					h.Fail("altered", "%s: message %d arrived altered: %s", name, k, d)
				}
				k++
			}
			whole := reach(x) && !fault && x.ready && (!disturbed || x.hurt == "fin" && (x.hurtBy == "client") == (dir == 0))
			if dst.raw.pair.rstAt >= 0 || !x.upReady {
				whole = false // what arrives after the piper has closed resets the connection
			}
			if whole && k < len(want) {
				h.Fail("lost", "%s: %d of %d messages were forwarded", name, k, len(want))
			}
			if whole && len(want) > 0 {
				h.Count("forwarded", int64(k))
			}
		}
		ends := func(open string, want bool) {
			for name, c := range map[string]*simConn{"client": x.in, "upstream": x.out} {
				if c != nil && c.closed != want {
					h.Fail(open, "pair %d (upstream kind %d, %s by %s): closed is %v for the %s's connection", w, x.up, by, x.hurtBy, c.closed, name)
				}
			}
		}
		switch {
		case !reach(x) || disturbed:
			h.Hit("ended")
			ends("left-open", true)
		case !x.ready:
			h.Fail("setup", "pair %d: setting up the client's connection failed", w)
		default:
			h.Hit("undisturbed")
			ends("closed", false)
			if x.srv == nil {
				h.Fail("upstream", "pair %d: the upstream was not connected: %d, in closed %v, dead %v", w, x.found, x.in.closed, x.dead)
			}
		}
	}
	if serve.Ended && !failed() {
		h.Fail("serve", "Serve returned %v while its listener is open", serveErr)
	}
	if !failed() {
		l.Close()
	}
	if !h.Await(serve, bound) || serveErr == nil {
		h.Fail("serve", "Serve: returned %v, %v after the listener ended", serve.Ended, serveErr)
	}
	// everything ends with its clients
	for _, p := range h.Net.conns {
		for _, c := range []*simConn{p.a, p.b} {
			if hc := host(c.local); hc[:7] == "10.0.0." || hc[:7] == "10.0.1." || hc[:7] == "10.0.2." {
				c.Close()
			}
		}
	}
	h.Sleep(2 * bound)
	if gs := h.repoGoroutines(); len(gs) > 0 {
		h.Fail("leak", "with every client gone something of the piper still runs: %s", topRepoFrame(gs[0]))
	}
	for _, p := range h.Net.conns {
		for _, c := range []*simConn{p.a, p.b} {
			if (c.local == piperAt || host(c.local)[:7] == "10.0.9.") && !c.closed {
				h.Fail("left-open", "with every client gone the piper's connection %s-%s is open", c.local, c.remote)
			}
		}
	}
}

// The system's own client and server with the piper between them.
func gen11sys(g *Gen) {
	genConf(g, 1, 3)
	wide(g)
	g.set("filter", g.pick(0, 1))
	for w := 0; w < 1+g.IntN(3); w++ {
		g.step("dial", g.delay(), w, g.pick(upPlain, upBody, upNoCRC, upTLS))
		for k := g.rep(6); k >= 0; k-- {
			g.step([]string{"req", "ping", "send", "burst"}[g.IntN(4)], g.pick(0, g.delay()), w, g.pick(0, 30, 500, 20000))
		}
		g.step([]string{"close", "stay"}[g.IntN(2)], g.delay(), w)
	}
	for w := 50; w < 50+g.IntN(4); w++ {
		g.step("hang", g.pick(0, g.delay()), w, g.Int64N(nHang), g.between(1, 2000)*1e6)
	}
}

// Ways in which a pair of connections hangs.
const (
	hangFind   = iota // FindUpstream takes its time
	hangSilent        // the upstream says nothing and reads nothing
	hangTLS           // and is to speak TLS
	hangFilter        // the filter takes its time
	nHang
)

func run11sys(h *H) {
	pc, cc := confs(h.Plan)
	seen := map[string]int{}
	for k := int64(0); k <= upTLS; k++ {
		conf, stls, _ := upConf(k)
		conf.TLS = stls
		srv, _ := transport.Listen(h.Net.Listen(fmt.Sprintf("10.0.5.%d:1", k)), transport.ServerConfig{Config: conf, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
			seen[string(m.Body)]++
			echo(c, m)
		}})
		h.Go("server", func() { srv.Serve() })
	}
	kinds := map[int]int64{}
	hangs := map[int]*Step{}
	hl := h.Net.Listen("10.0.6.1:1")
	h.Go("silent", func() {
		for {
			if _, err := hl.Accept(); err != nil {
				return
			}
		}
	})
	var filter transport.MessageTransformer
	if h.Plan.p("filter") == 1 {
		filter = func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
			if w := clientOf(src, dst); hangs[w] != nil && hangs[w].n(0) == hangFilter {
				h.Sleep(us(hangs[w].n(1)))
			}
			return &transport.Message{Headers: m.Headers, Body: m.Body}
		}
	}
	l := h.Net.Listen(piperAt)
	pp, _ := transport.NewPiper(l, transport.PiperConfig{Config: pc, Filter: filter, FindUpstream: func(hd *transport.MessageHeaders, c net.Conn) (net.Conn, transport.Config, error) {
		var w int
		fmt.Sscanf(c.RemoteAddr().String(), "10.0.0.%d:", &w)
		if s := hangs[w]; s != nil {
			h.Hit(fmt.Sprintf("hang%d", s.n(0)))
			conf, at := transport.Config{}, "10.0.6.1:1"
			switch s.n(0) {
			case hangFind:
				h.Sleep(us(s.n(1)))
				return nil, conf, errors.New("gave up")
			case hangTLS:
				conf, _, _ = upConf(upTLS)
			case hangFilter:
				at = fmt.Sprintf("10.0.5.%d:1", upPlain)
			}
			u, err := h.Net.Dial(fmt.Sprintf("10.0.9.%d", w), at)
			return u, conf, err
		}
		conf, _, _ := upConf(kinds[w])
		u, err := h.Net.Dial(fmt.Sprintf("10.0.9.%d", w), fmt.Sprintf("10.0.5.%d:1", kinds[w]))
		return u, conf, err
	}})
	h.Go("serve", func() { pp.Serve() })
	bound := h.Slack() + 20*h.netMax() + 10*time.Second
	cli := map[int]*transport.Client{}
	ts := tasksOf(h, func(int) bool { return true }, func(w, i int, s *Step) {
		c := cli[w]
		if s.Op == "hang" {
			hangs[w] = s
			nc, err := h.Net.Dial(fmt.Sprintf("10.0.0.%d", w), piperAt)
			if err != nil {
				h.Fail("accept", "the piper does not accept: %v", err)
			}
			x, err := transport.Connect(nc, transport.ClientConfig{Config: cc})
			if err != nil {
				return
			}
			h.Go("wait", func() { x.Wait() })
			for j := 0; j < 3; j++ {
				h.Go("send", func() {
					x.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "note"}, Body: body("h", i, 20000)})
				})
			}
			return
		}
		if s.Op != "dial" && c == nil {
			return
		}
		ask := func(j int) *Task {
			b := body(fmt.Sprintf("r%d.%d", w, j), i, max(20, int(s.n(0))))
			return h.Go("ask", func() {
				r, err := c.RequestReply(context.Background(), &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "ask"}, Body: b})
				if err != nil {
					h.Fail("request", "a request through the piper failed: %v", err)
				}
				if string(r.Body) != string(b) {
					h.Fail("request", "a request through the piper got another answer")
				}
				if seen[string(b)] != 1 {
					h.Fail("request", "a request through the piper arrived %d times", seen[string(b)])
				}
			})
		}
		switch s.Op {
		case "dial":
			kinds[w] = s.n(0)
			nc, err := h.Net.Dial(fmt.Sprintf("10.0.0.%d", w), piperAt)
			if err != nil {
				h.Fail("accept", "the piper does not accept: %v", err)
			}
			t := h.Go("connect", func() {
				x, err := transport.Connect(nc, transport.ClientConfig{Config: cc})
				if err != nil {
					h.Fail("connect", "connecting through the piper: %v", err)
				}
				cli[w] = x
				h.Go("wait", func() {
					x.Wait()
					if kinds[w] >= 0 {
						h.Fail("broke", "a connection through the piper ended by itself")
					}
				})
			})
			if !h.Await(t, bound) {
				h.Fail("connect", "connecting through the piper does not end")
			}
		case "req":
			if !h.Await(ask(0), bound) {
				h.Fail("request", "a request through the piper is not answered")
			}
		case "burst":
			var ts []*Task
			for j := 0; j < 5; j++ {
				ts = append(ts, ask(j))
			}
			if h.awaitAll(ts, bound) != nil {
				h.Fail("request", "a request through the piper is not answered")
			}
		case "ping":
			t := h.Go("ping", func() {
				if _, err := c.Ping(context.Background()); err != nil {
					h.Fail("ping", "a ping through the piper failed: %v", err)
				}
			})
			if !h.Await(t, bound) {
				h.Fail("ping", "a ping through the piper is not answered")
			}
		case "send":
			b := body(fmt.Sprintf("s%d", w), i, max(20, int(s.n(0))))
			if err := c.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: "note"}, Body: b}); err != nil {
				h.Fail("send", "a send failed: %v", err)
			}
			if !h.Until(bound, func() bool { return seen[string(b)] > 0 }) {
				h.Fail("lost", "a message through the piper did not arrive")
			}
		case "close":
			kinds[w] = -1
			c.Close()
			h.Sleep(bound)
			for _, p := range h.Net.conns {
				if host(p.a.local) == fmt.Sprintf("10.0.0.%d", w) && !p.b.closed || host(p.a.local) == fmt.Sprintf("10.0.9.%d", w) && (!p.a.closed || !p.b.closed) {
					h.Fail("left-open", "a client closed and the connection %s-%s is open", p.a.local, p.a.remote)
				}
			}
		}
	})
	if t := h.awaitAll(ts, 10*long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
}

// clientOf tells whose messages the filter is given.
func clientOf(src, dst net.Conn) (w int) {
	for _, c := range []net.Conn{src, dst} {
		fmt.Sscanf(c.RemoteAddr().String(), "10.0.0.%d:", &w)
	}
	return
}
