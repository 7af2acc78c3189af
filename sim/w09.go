package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C09", &World{Name: "good", Weight: 3, Gen: gen09, Run: run09})
	register("C09", &World{Name: "bad", Weight: 4, Gen: gen09bad, Run: run09bad})
}

var tlsVersions = []uint16{0, 0, tls.VersionTLS12, tls.VersionTLS13}

// genTLS draws settings under which both sides have a version in common.
func genTLS(g *Gen) {
	for {
		for _, k := range []string{"smin", "smax", "cmin", "cmax"} {
			g.set(k, g.pick(0, 0, 2, 2, 3, 3))
		}
		lo := func(k string) uint16 { return max(tlsVersions[g.P.p(k)], tls.VersionTLS12) }
		hi := func(k string) uint16 {
			if v := tlsVersions[g.P.p(k)]; v != 0 {
				return v
			}
			return tls.VersionTLS13
		}
		eff := func(min, max string) (uint16, uint16) {
			a, b := lo(min), hi(max)
			if g.P.p(min) == 0 {
				a = tls.VersionTLS12
			}
			return a, b
		}
		a, b := eff("smin", "smax")
		c, d := eff("cmin", "cmax")
		if a <= b && c <= d && max(a, c) <= min(b, d) {
			break
		}
	}
	g.set("tls", 1)
	g.set("clientauth", g.pick(0, 0, 1, 2))
	g.set("noticket", g.pick(0, 0, 1))
	g.set("cache", g.pick(0, 1))
	g.set("pin", g.pick(0, 0, 0, 1, 2)) // how the client knows the server
	g.set("nohchk", g.pick(0, 1))
	g.set("bchk", g.pick(0, 1))
	g.set("bgen", g.pick(0, 1))
}

func tlsConfs(p *Plan) (sc, cc transport.Config) {
	c := transport.Config{DisableCheckFrameHeaderCRC: p.p("nohchk") == 1, CheckFrameBodyCRC: p.p("bchk") == 1, GenerateFrameBodyCRC: p.p("bgen") == 1}
	sc, cc = c, c
	s := &tls.Config{Certificates: []tls.Certificate{certs.server}, MinVersion: tlsVersions[p.p("smin")], MaxVersion: tlsVersions[p.p("smax")], CurvePreferences: []tls.CurveID{tls.X25519}}
	k := &tls.Config{RootCAs: certs.pool, ServerName: "sim.node", MinVersion: tlsVersions[p.p("cmin")], MaxVersion: tlsVersions[p.p("cmax")], CurvePreferences: []tls.CurveID{tls.X25519}}
	switch p.p("clientauth") {
	case 1:
		s.ClientAuth, s.ClientCAs = tls.RequireAndVerifyClientCert, certs.pool
		k.Certificates = []tls.Certificate{certs.client}
	case 2: // an application's own check
		s.ClientAuth = tls.RequireAnyClientCert
		s.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
			if len(raw) == 1 && bytes.Equal(raw[0], certs.client.Certificate[0]) {
				return nil
			}
			return errors.New("not this one")
		}
		k.Certificates = []tls.Certificate{certs.client}
	}
	pinned := func(b []byte) error {
		if bytes.Equal(b, certs.server.Certificate[0]) {
			return nil
		}
		return errors.New("not the one expected")
	}
	switch p.p("pin") {
	case 1: // by its certificate
		k.RootCAs, k.ServerName, k.InsecureSkipVerify = nil, "", true
		k.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error { return pinned(raw[0]) }
	case 2:
		k.RootCAs, k.InsecureSkipVerify = nil, true
		k.VerifyConnection = func(cs tls.ConnectionState) error { return pinned(cs.PeerCertificates[0].Raw) }
	case 3: // cannot be known: nobody is accepted
		k.ServerName = ""
	}
	s.SessionTicketsDisabled = p.p("noticket") == 1
	if p.p("cache") == 1 {
		k.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	}
	sc.TLS, cc.TLS = s, k
	return
}

const secret = "TOPSECRET"

// checkClear looks at everything one end put on the wire.
func checkClear(h *H, who string, b []byte) {
	w := make([]byte, 0, 2*len(secret))
	for _, c := range utf16.Encode([]rune(secret)) {
		w = binary.LittleEndian.AppendUint16(w, c)
	}
	if bytes.Contains(b, []byte(secret)) || bytes.Contains(b, w) {
		h.Fail("clear", "%s: message content is on the wire in clear", who)
	}
	// handshake frames, then TLS records, nothing else
	n, recs := 0, false
	for len(b) > 0 {
		if b[0] >= 20 && b[0] <= 23 && len(b) >= 3 && b[1] == 3 && b[2] >= 1 && b[2] <= 4 {
			recs = true
			if len(b) < 5 {
				return
			}
			k := 5 + int(binary.BigEndian.Uint16(b[3:]))
			if len(b) < k {
				return
			}
			b = b[k:]
			continue
		}
		if recs && b[0] >= 20 && b[0] <= 23 && len(b) < 3 {
			return // cut off
		}
		if recs {
			h.Fail("clear", "%s: something that is not TLS follows %d handshake frames and TLS records: %x", who, n, b[:min(len(b), 16)])
		}
		f, err := parseFrame(b)
		if err != nil {
			h.Fail("wire", "%s: handshake frame %d: %v", who, n, err)
		}
		if f == nil {
			return // cut off
		}
		m, err := decodeMsg(f)
		if err != nil {
			h.Fail("wire", "%s: handshake frame %d: %v", who, n, err)
		}
		if m.Actor != aSecurityContext {
			h.Fail("clear", "%s: frame %d in clear is for actor %d", who, n, m.Actor)
		}
		if f.mask != 1 {
			h.Fail("wire", "%s: handshake frame %d has security mask %d", who, n, f.mask)
		}
		if n == 0 && len(m.custom(hNegotiation)) != 1 {
			h.Fail("wire", "%s: the first handshake frame carries no security negotiation", who)
		}
		n++
		b = b[f.size:]
	}
}

func gen09(g *Gen) {
	genTLS(g)
	for w := 0; w < 1+g.IntN(3); w++ {
		for k := g.IntN(3); k >= 0; k-- {
			// role, messages each way, size
			g.step("conn", g.pick(0, g.delay()), w, g.Int64N(3), g.between(0, 4), g.pick(20, 300, 5000, 40000))
		}
	}
}

func run09(h *H) {
	sc, cc := tlsConfs(h.Plan)
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		addr := fmt.Sprintf("10.0.3.%d:1", i+1)
		got := map[string]int{}
		recv := func(side string) transport.MessageCallback {
			return func(c transport.Conn, m *transport.ByteArrayMessage) {
				got[side+string(m.Body[:12])]++
				if m.Headers.ExpectsReply {
					c.SendOneWay(&transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: secret, RelatesTo: m.Headers.Id}, Body: m.Body})
				}
			}
		}
		msg := func(side string, k int64) *transport.Message {
			b := make([]byte, max(40, s.n(2)))
			copy(b[12:], secret)
			copy(b, body(side, int(k), 12))
			m := &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: secret}, Body: b}
			m.Headers.SetCustomHeader(transport.MessageHeaderIdType(hActivity), []byte(secret))
			return m
		}
		raw := func(p *RawPeer, side string) {
			p.OnMsg = func(m *RMsg) {
				got[side+string(m.Body[:12])]++
				if m.Expects {
					go p.Reply(m, m.Body)
				}
			}
			p.Start()
			for k := int64(0); k < s.n(1); k++ {
				m := msg("p"+side, k)
				p.Send(&RMsg{Actor: 5, Action: secret, Body: m.Body.([]byte)})
			}
		}
		up := map[string]bool{}
		fail := func(side string, err error) {
			h.Fail("handshake", "%s: the handshake with a correct peer failed: %v", side, err)
		}
		var cli *transport.Client
		var wait *Task
		h.Count(fmt.Sprintf("role%d", s.n(0)), 1)
		if s.n(0) == 1 { // a reference server
			a, b := h.Net.Pipe("10.0.0.1:1", addr)
			p := NewRaw(h, "rawsrv", b, frameCfg{})
			h.Go("raw", func() {
				if err := p.Handshake(sc.TLS, true); err != nil {
					fail("reference server", err)
				}
				raw(p, "s")
				up["s"] = true
			})
			h.Go("connect", func() {
				c, err := transport.Connect(a, transport.ClientConfig{Config: cc, MessageCallback: recv("c")})
				if err != nil {
					fail("client", err)
				}
				cli = c
				wait = h.Go("wait", func() { c.Wait() })
				up["c"] = true
			})
		} else {
			l := h.Net.Listen(addr)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: sc, MessageCallback: recv("s")})
			h.Go("serve", func() { srv.Serve() })
			up["s"] = true
			if s.n(0) == 2 { // a reference client
				h.Go("raw", func() {
					c, _ := h.Net.Dial("10.0.0.1", addr)
					p := NewRaw(h, "rawcli", c.(*simConn), frameCfg{})
					if err := p.Handshake(cc.TLS, false); err != nil {
						fail("reference client", err)
					}
					raw(p, "c")
					up["c"] = true
				})
			} else {
				h.Go("connect", func() {
					nc, _ := h.Net.Dial("10.0.0.1", addr)
					c, err := transport.Connect(nc, transport.ClientConfig{Config: cc, MessageCallback: recv("c")})
					if err != nil {
						fail("client", err)
					}
					cli = c
					wait = h.Go("wait", func() { c.Wait() })
					up["c"] = true
				})
			}
		}
		if !h.Until(long, func() bool { return up["s"] && up["c"] }) {
			h.Fail("handshake", "the handshake with a correct peer does not end: %v", up)
		}
		want := map[string]int{}
		if s.n(0) != 0 {
			to, from := "c", "s" // to the system from the reference peer
			if s.n(0) == 2 {
				to, from = "s", "c"
			}
			for k := int64(0); k < s.n(1); k++ {
				want[to+string(body("p"+from, int(k), 12))] = 1
			}
		}
		if cli != nil {
			for k := int64(0); k < s.n(1); k++ {
				m := msg("c", k)
				want["s"+string(body("c", int(k), 12))] = 1
				if k%2 == 0 {
					if err := cli.SendOneWay(m); err != nil {
						h.Fail("send", "send failed: %v", err)
					}
					continue
				}
				t := h.Go("req", func() {
					r, err := cli.RequestReply(context.Background(), m)
					if err != nil || !bytes.Equal(r.Body, m.Body.([]byte)) {
						h.Fail("request", "a request over TLS failed: %v", err)
					}
				})
				if !h.Await(t, long) {
					h.Fail("request", "a request over TLS does not end")
				}
			}
		}
		if !h.Until(long, func() bool {
			for k := range want {
				if got[k] == 0 {
					return false
				}
			}
			return true
		}) {
			h.Fail("lost", "messages over TLS were lost: got %v, want %v", got, want)
		}
		if wait != nil && wait.Ended {
			h.Fail("broke", "the TLS connection ended by itself")
		}
		if cli != nil {
			cli.Close()
		}
	})
	if t := h.awaitAll(ts, 4*long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	for _, p := range h.Net.conns {
		checkClear(h, "dialling end", p.a.Sent())
		checkClear(h, "accepting end", p.b.Sent())
	}
}

// Ways in which a peer is not to be heard, besides those of spoil.
const (
	liePlain    = nBad + iota // speaks the protocol without TLS
	lieNoCert                 // completes its side without the certificate asked for
	lieSwitch                 // some of the handshake, then plain frames
	lieName                   // a certificate for another name
	lieOtherCA                // trusted by nobody, everything else in order
	lieOldCert                // expired
	lieWrongKey               // the right certificate, another key
	nLie
)

func gen09bad(g *Gen) {
	genTLS(g)
	g.set("server", g.pick(0, 1))
	if g.P.p("server") == 0 && g.chance(1, 6) {
		g.set("pin", 3)
	}
	for i := int64(0); i < g.between(1, 4); i++ {
		k := g.pick(badClose, badReset, badGarbage, badFault, liePlain, lieNoCert, lieSwitch, lieSwitch, lieName, lieOtherCA, lieOldCert, lieWrongKey)
		s := g.step("try", g.delay(), int(i), k, g.between(0, g.pick(20, 300, 3000)), g.delay())
		if k == badGarbage {
			s.Data = genJunk(g)
		}
		if k == badFault {
			g.fault(int(i), g.IntN(2), []string{"rst", "fin", "werr", "flip"}[g.IntN(4)], g.between(0, g.pick(100, 1000, 4000)), g.pick(0, 1, 128))
		}
	}
}

func genuine(h *H, sc, cc transport.Config, k int64, server bool) (*tls.Config, bool) {
	conf := cc.TLS.Clone()
	conf.InsecureSkipVerify = true
	conf.VerifyPeerCertificate, conf.VerifyConnection = nil, nil
	conf.ClientSessionCache = nil
	if server {
		conf = sc.TLS.Clone()
		conf.VerifyPeerCertificate = nil
		conf.ClientAuth = tls.NoClientCert
	}
	set := func(c tls.Certificate) { conf.Certificates = []tls.Certificate{c} }
	asked := server || h.Plan.p("clientauth") != 0
	switch k {
	case lieNoCert:
		if server {
			set(certs.other) // not the server's name
			return conf, false
		}
		conf.Certificates = nil
		return conf, !asked
	case lieName:
		if server {
			set(certs.other)
			return conf, false
		}
		set(certs.old)
		return conf, !asked
	case lieOtherCA:
		set(certs.rogue)
		return conf, !asked
	case lieOldCert:
		set(certs.old)
		return conf, !asked
	case lieWrongKey:
		c := certs.server
		if !server {
			c = certs.client
		}
		c.PrivateKey = certs.rogue.PrivateKey
		set(c)
		return conf, !asked
	}
	return conf, true
}

// lie plays the peer; ok is set if the system may accept it.
func lie(h *H, s *Step, c *simConn, server bool, sc, cc transport.Config, ok *bool, shaken *bool) {
	p := NewRaw(h, "liar", c, frameCfg{mask: 1})
	say := func() {
		for _, m := range []*RMsg{{Actor: 5, Action: "lie", Body: []byte("a lie, surely")}, {Actor: aTransport, Action: "HeartbeatRequest", Body: object(func(e *enc) { e.i64(77) })}, {Actor: 29, Action: "ConnectionAuth", Err: 5}} {
			if p.Send(m) != nil {
				return
			}
		}
	}
	drain := func() {
		b := make([]byte, 4096)
		for {
			if _, err := p.c.Read(b); err != nil {
				return
			}
		}
	}
	*ok = false
	// whatever the peer is doing, at some time it is gone
	time.AfterFunc(us(s.n(2))+10*time.Second+h.Slack()+10*h.netMax(), func() { c.Close() })
	switch k := s.n(0); k {
	case liePlain:
		p.SendInit()
		say()
		go drain()
	case lieSwitch:
		// carry on with the handshake up to some byte, then plain frames; another
		// end of a real handshake provides the bytes
		conf, _ := genuine(h, sc, cc, -1, server)
		q := &cutConn{Conn: c, left: s.n(1)}
		p.sec = &secureConn{Conn: q, guid: p.guid}
		var t *tls.Conn
		if server {
			conf.SessionTicketsDisabled = true
			t = tls.Server(p.sec, conf)
		} else {
			t = tls.Client(p.sec, conf)
		}
		t.Handshake()
		*shaken = q.left >= 0 // everything was said as a correct peer would, so the set-up may succeed
		say()
		go drain()
	case badClose, badReset, badGarbage:
		spoil(h, s, c, server)
	default:
		conf, acceptable := genuine(h, sc, cc, k, server)
		*ok = acceptable
		if k == badFault {
			*ok = true
		}
		if err := p.Handshake(conf, server); err == nil {
			p.Start()
			say()
		} else {
			c.Close()
		}
	}
	for !c.closed {
		h.Sleep(time.Second)
	}
}

// cutConn fails writes after some bytes without closing.
type cutConn struct {
	*simConn
	Conn *simConn
	left int64
}

func (c *cutConn) Read(b []byte) (int, error)         { return c.Conn.Read(b) }
func (c *cutConn) SetDeadline(t time.Time) error      { return nil }
func (c *cutConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *cutConn) Close() error                       { return nil }
func (c *cutConn) Write(b []byte) (int, error) {
	if int64(len(b)) > c.left {
		if c.left >= 0 {
			k := c.left
			c.left = -1
			// whole frames only, so that what follows is read as a frame
			_ = k
		}
		return 0, errors.New("no more")
	}
	c.left -= int64(len(b))
	return c.Conn.Write(b)
}

func run09bad(h *H) {
	sc, cc := tlsConfs(h.Plan)
	server := h.Plan.p("server") == 1
	heard := map[string]bool{}
	tryOne := func(who, i int, s *Step) {
		var ok, shaken bool
		var raw *simConn
		var cli *transport.Client
		var err error
		name := fmt.Sprint(i)
		// faults are placed by connection number
		bound := h.Slack() + 4*h.netMax() + h.tlsClose() + time.Second
		if server {
			addr := fmt.Sprintf("10.0.4.%d:1", i+1)
			l := h.Net.Listen(addr)
			srv, _ := transport.Listen(l, transport.ServerConfig{Config: sc, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) { heard[name] = true }})
			h.Go("serve", func() { srv.Serve() })
			c, derr := h.Net.Dial("10.0.0.1", addr)
			if derr != nil {
				h.Trouble("dial: %v", derr)
			}
			raw = c.(*simConn).peer()
			t := h.Go("liar", func() { lie(h, s, c.(*simConn), false, sc, cc, &ok, &shaken) })
			if !h.Await(t, long) {
				h.Fail("stuck", "the liar does not end")
			}
			h.Sleep(bound)
			if !raw.closed {
				h.Fail("half-open", "the server keeps the connection of an unverified peer that is gone")
			}
		} else {
			a, b := h.Net.Pipe("10.0.0.1:1", fmt.Sprintf("10.0.4.%d:1", i+1))
			raw = a
			t := h.Go("liar", func() { lie(h, s, b, true, sc, cc, &ok, &shaken) })
			up := h.Go("connect", func() {
				cli, err = transport.Connect(a, transport.ClientConfig{Config: cc, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) { heard[name] = true }})
				if err != nil {
					return
				}
				m := &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: secret}, Body: []byte(secret)}
				h.Go("send", func() { cli.SendOneWay(m) })
				cli.Wait()
			})
			if !h.Await(t, long) {
				h.Fail("stuck", "the liar does not end")
			}
			h.Sleep(bound)
			if !up.Ended {
				h.Fail("stuck", "the connection attempt does not end although the peer is gone")
			}
			if h.Plan.p("pin") == 3 {
				ok, shaken = false, false
			}
			if !ok && !shaken && err == nil {
				h.Fail("accepted", "a connection to an unverified peer was set up (%d)", s.n(0))
			}
			if !raw.closed {
				h.Fail("half-open", "the connection to an unverified peer is left open")
			}
		}
		if !ok {
			h.Hit("unverified")
			if heard[name] {
				h.Fail("heard", "a message of an unverified peer was delivered (%d)", s.n(0))
			}
			if p, e := lastPong(raw); e == nil && p {
				h.Fail("heard", "a heartbeat of an unverified peer was answered (%d)", s.n(0))
			}
		} else {
			h.Hit("acceptable")
			if s.n(0) != badFault && !heard[name] {
				h.Fail("refused", "an acceptable peer was not heard (%d)", s.n(0))
			}
		}
		checkClear(h, "system", raw.Sent())
	}
	// one after the other, so that fault positions are stable
	t := h.Go("tries", func() {
		for i := range h.Plan.Steps {
			h.Sleep(us(h.Plan.Steps[i].D))
			tryOne(0, i, &h.Plan.Steps[i])
		}
	})
	if !h.Await(t, 20*long) {
		h.Fail("stuck", "the attempts do not end")
	}
}

// lastPong reports whether a clear heartbeat answer was sent.
func lastPong(c *simConn) (bool, error) {
	fs, _, err := wireFrames(c.Sent())
	for _, f := range fs {
		if m, e := decodeMsg(f); e == nil && m.Action == "HeartbeatResponse" {
			return true, nil
		}
	}
	return false, err
}
