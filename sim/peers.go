package main

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"time"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
)

type NodeID struct{ Hi, Lo uint64 }

func wireGUID(g serialization.GUID) (o GUID) {
	binary.LittleEndian.PutUint32(o[0:], g.Data1)
	binary.LittleEndian.PutUint16(o[4:], g.Data2)
	binary.LittleEndian.PutUint16(o[6:], g.Data3)
	copy(o[8:], g.Data4[:])
	return
}

func goGUID(o GUID) (g serialization.GUID) {
	g.Data1 = binary.LittleEndian.Uint32(o[0:])
	g.Data2 = binary.LittleEndian.Uint16(o[4:])
	g.Data3 = binary.LittleEndian.Uint16(o[6:])
	copy(g.Data4[:], o[8:])
	return
}

func wireID(m transport.MessageId) MsgID { return MsgID{wireGUID(m.Id), m.Index} }
func goID(m MsgID) transport.MessageId {
	return transport.MessageId{Id: goGUID(m.G), Index: m.I}
}

// customIDs are the header ids scenarios use that the system has no activator for.
var customIDs = []uint16{hActivity, hTimeout, hProtocol, hClientIdentity, 0x8050, 0x8051, 0x8055, 0x0007, 0xffff}

// fromBAM converts a received message to the harness's representation.
func fromBAM(m *transport.ByteArrayMessage) *RMsg {
	r := &RMsg{ID: wireID(m.Headers.Id), Rel: wireID(m.Headers.RelatesTo), Actor: int64(m.Headers.Actor), Action: m.Headers.Action,
		Expects: m.Headers.ExpectsReply, HighPri: m.Headers.HighPriority, Idem: m.Headers.Idempotent,
		Err: int64(m.Headers.ErrorCode), HasFault: m.Headers.HasFaultBody, Retry: m.Headers.RetryCount,
		Body: append([]byte(nil), m.Body...)}
	for _, id := range customIDs {
		// the first of them is what GetFirstCustomHeader gives
		l := m.Headers.GetCustomHeaders(transport.MessageHeaderIdType(id))
		if c, ok := m.Headers.GetFirstCustomHeader(transport.MessageHeaderIdType(id)); ok != (len(l) > 0) || ok && !reflect.DeepEqual(c, l[0]) {
			r.Custom = append(r.Custom, hdrTLV{id, []byte(fmt.Sprintf("first of %v is %v, %v", l, c, ok))})
		}
		for _, c := range m.Headers.GetCustomHeaders(transport.MessageHeaderIdType(id)) {
			if b, ok := c.([]byte); ok {
				r.Custom = append(r.Custom, hdrTLV{id, append([]byte(nil), b...)})
			} else {
				r.Custom = append(r.Custom, hdrTLV{id, []byte(fmt.Sprintf("%T", c))})
			}
		}
	}
	return r
}

// tlsConfig returns server and client TLS settings for a mode:
// 1: TLS 1.2, 2: TLS 1.3, 3: TLS 1.2 with client certificates, 4: TLS 1.3 with them.
// cache adds a client session cache.
func tlsPair(mode int64, cache bool) (srv, cli *tls.Config) {
	if mode == 0 {
		return nil, nil
	}
	srv = &tls.Config{Certificates: []tls.Certificate{certs.server}, MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS12}
	cli = &tls.Config{RootCAs: certs.pool, ServerName: "sim.node", MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS12}
	if mode%2 == 0 {
		srv.MaxVersion, cli.MaxVersion = tls.VersionTLS13, tls.VersionTLS13
	}
	if mode >= 3 {
		srv.ClientAuth, srv.ClientCAs = tls.RequireAndVerifyClientCert, certs.pool
		cli.Certificates = []tls.Certificate{certs.client}
	}
	// no post-quantum key shares: they only cost time
	srv.CurvePreferences = []tls.CurveID{tls.X25519}
	cli.CurvePreferences = []tls.CurveID{tls.X25519}
	if cache {
		cli.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	}
	return
}

// mutex for harness code (sync.Mutex would do; this one is visible as a channel wait).
type mutex struct{ ch chan struct{} }

func newMutex() *mutex   { m := &mutex{make(chan struct{}, 1)}; m.ch <- struct{}{}; return m }
func (m *mutex) lock()   { <-m.ch }
func (m *mutex) unlock() { m.ch <- struct{}{} }

// secureConn is the reference implementation of Service Fabric's TLS framing:
// handshake records travel as bodies of messages for the security-context actor,
// afterwards the stream is plain TLS.
type secureConn struct {
	net.Conn
	in   []byte // unparsed frame bytes
	rbuf []byte
	done bool
	nego bool
	guid GUID
	more []hdrTLV // further headers of the first frame
	idx  uint32
	// Bad is set when a handshake frame was not well formed
	Bad   error
	Seen  int
	Sent  int
	Nego  bool            // peer sent the negotiation header in its first frame
	chunk func(n int) int // how many bytes of a write go into one frame
}

func (c *secureConn) Read(p []byte) (int, error) {
	for len(c.rbuf) == 0 {
		if c.done {
			if len(c.in) > 0 {
				n := copy(p, c.in)
				c.in = c.in[n:]
				return n, nil
			}
			return c.Conn.Read(p)
		}
		f, err := parseFrame(c.in)
		if err != nil {
			c.Bad = err
			return 0, err
		}
		if f == nil {
			b := make([]byte, 4096)
			n, err := c.Conn.Read(b)
			c.in = append(c.in, b[:n]...)
			if err != nil && n == 0 {
				return 0, err
			}
			continue
		}
		c.in = c.in[f.size:]
		m, err := decodeMsg(f)
		if err != nil {
			c.Bad = err
			return 0, err
		}
		if c.Seen == 0 {
			c.Nego = len(m.custom(hNegotiation)) > 0
		}
		c.Seen++
		c.rbuf = append(c.rbuf, f.body...)
	}
	n := copy(p, c.rbuf)
	c.rbuf = c.rbuf[n:]
	return n, nil
}

const aSecurityContext = int64(transport.MessageActorTypeSecurityContext)

func (c *secureConn) Write(p []byte) (int, error) {
	if c.done {
		return c.Conn.Write(p)
	}
	for n := 0; n < len(p); {
		k := len(p) - n
		if c.chunk != nil {
			k = max(1, min(k, c.chunk(k)))
		}
		c.idx++
		m := &RMsg{ID: MsgID{c.guid, c.idx}, Actor: aSecurityContext, Body: p[n : n+k]}
		if c.idx == 1 {
			m.Custom = []hdrTLV{{hNegotiation, object(func(e *enc) {
				e.bool(true)
				e.bool(true)
				e.obj(func() { e.str(""); e.u64(0); e.guid(GUID{}); e.bool(false); e.u32(0) })
				e.u64(0)
			})}}
			m.Custom = append(m.Custom, c.more...)
		}
		if _, err := c.Conn.Write(m.encode(frameCfg{mask: 1})); err != nil {
			return n, err
		}
		n += k
		c.Sent++
	}
	return len(p), nil
}

// RawPeer speaks the wire protocol without using the system under test.
type RawPeer struct {
	h       *H
	name    string
	raw     *simConn
	c       net.Conn
	sec     *secureConn
	cfg     frameCfg
	want    *frameCfg // what the system's frames must look like, if not cfg
	guid    GUID
	idx     uint32
	wr      *mutex
	in      []byte
	Init    *RMsg
	Got     []*RMsg // everything but transport messages
	Beats   []*RMsg // heartbeat requests
	Pongs   []*RMsg
	OnMsg   func(m *RMsg) // called on the reader
	OnBeat  func(m *RMsg) // instead of answering
	more    []hdrTLV      // further headers of the first frame
	keep    bool          // record every message in both directions; close when the connection breaks
	In, Out []*RMsg
	tag     int
	Err     error  // why reading ended
	Bad     string // protocol violation by the system under test
	Ended   bool
	done    chan struct{}
	NoRead  bool
	ReadGap time.Duration
	frames  int
	ids     map[MsgID]bool
	wireN   int // frames written so far
}

// NewRaw wraps a connection; call Start after Handshake.
func NewRaw(h *H, name string, c *simConn, cfg frameCfg) *RawPeer {
	p := &RawPeer{h: h, name: name, raw: c, c: c, cfg: cfg, wr: newMutex(), done: make(chan struct{})}
	for i := range p.guid {
		p.guid[i] = byte(len(h.Net.conns)*16 + i + 1)
	}
	copy(p.guid[:], name)
	return p
}

// Handshake runs the TLS handshake as server or client.
func (p *RawPeer) Handshake(conf *tls.Config, server bool) error {
	p.sec = &secureConn{Conn: p.raw, guid: p.guid, more: p.more}
	p.sec.chunk = func(n int) int {
		if p.h.Chance(1, 8) {
			return 1 + p.h.Rand(min(n, 300))
		}
		return n
	}
	var t *tls.Conn
	if server {
		// Go's server writes TLS 1.3 tickets within its handshake, where the framing has no place for them
		conf = conf.Clone()
		conf.SessionTicketsDisabled = true
		t = tls.Server(p.sec, conf)
	} else {
		t = tls.Client(p.sec, conf)
	}
	if err := t.Handshake(); err != nil {
		return err
	}
	p.sec.done = true
	p.c = t
	p.cfg = frameCfg{mask: 1}
	return nil
}

// Start sends the transport init message and begins to read.
func (p *RawPeer) Start() {
	p.SendInit()
	go p.readLoop()
}

func (p *RawPeer) NewID() MsgID { p.idx++; return MsgID{p.guid, p.idx} }

func (p *RawPeer) SendInit() error {
	return p.Send(&RMsg{Actor: aTransport, HighPri: true, Custom: p.more, Body: object(func(e *enc) {
		e.str("10.0.0.9:1")
		e.u64(7)
		e.guid(p.guid)
		e.bool(true)
		e.u32(1)
	})})
}

// Send writes one whole frame.
func (p *RawPeer) Send(m *RMsg) error {
	if m.ID.empty() {
		m.ID = p.NewID()
	}
	b := m.encode(p.cfg)
	if !p.keep {
		return p.SendBytes(b)
	}
	p.wr.lock()
	defer p.wr.unlock()
	p.wireN++
	p.Out = append(p.Out, m)
	_, err := p.c.Write(b)
	if err != nil && !p.raw.wr.fin {
		p.raw.Close()
	}
	return err
}

func (p *RawPeer) SendBytes(b []byte) error {
	p.wr.lock()
	defer p.wr.unlock()
	p.wireN++
	_, err := p.c.Write(b)
	return err
}

func (p *RawPeer) fail(f string, a ...any) {
	if p.Bad == "" {
		p.Bad = fmt.Sprintf(f, a...)
	}
}

func (p *RawPeer) readLoop() {
	buf := make([]byte, 16384)
	for {
		if p.ReadGap > 0 {
			time.Sleep(p.ReadGap)
		}
		for p.NoRead {
			time.Sleep(200 * time.Millisecond)
		}
		n, err := p.c.Read(buf)
		p.in = append(p.in, buf[:n]...)
		for {
			f, ferr := parseFrame(p.in)
			if ferr != nil {
				p.fail("%v", ferr)
				err = ferr
				break
			}
			if f == nil {
				break
			}
			p.in = p.in[f.size:]
			p.frame(f)
		}
		if err != nil {
			p.Err = err
			p.Ended = true
			if p.keep {
				p.raw.Close()
			}
			close(p.done)
			return
		}
	}
}

// checks on a frame from the system under test: want what it was configured to generate
func checkFrame(f *rawFrame, want frameCfg) string {
	if f.mask != want.mask {
		return fmt.Sprintf("security mask %d, want %d", f.mask, want.mask)
	}
	if want.headCRC && !f.headOK {
		return fmt.Sprintf("wrong header checksum %x", f.headCRC)
	}
	if want.bodyCRC && !f.bodyOK {
		return fmt.Sprintf("wrong body checksum %x", f.bodyCRC)
	}
	return ""
}

func (p *RawPeer) frame(f *rawFrame) {
	p.frames++
	want := p.cfg
	if p.want != nil {
		want = *p.want
	}
	if s := checkFrame(f, want); s != "" {
		p.fail("frame %d: %s", p.frames, s)
	}
	m, err := decodeMsg(f)
	if err != nil {
		p.fail("frame %d: %v", p.frames, err)
		return
	}
	if p.ids == nil {
		p.ids = map[MsgID]bool{}
	}
	if m.ID.empty() || p.ids[m.ID] {
		p.fail("frame %d: message id %v is empty or was used before on this connection", p.frames, m.ID)
	}
	p.ids[m.ID] = true
	if p.keep {
		p.In = append(p.In, m)
	}
	if m.Actor == aTransport {
		switch m.Action {
		case "":
			if p.Init == nil {
				p.Init = m
			}
		case "HeartbeatRequest":
			p.Beats = append(p.Beats, m)
			if p.OnBeat != nil {
				p.OnBeat(m)
			} else {
				p.Pong(m)
			}
		case "HeartbeatResponse":
			p.Pongs = append(p.Pongs, m)
		}
		return
	}
	p.Got = append(p.Got, m)
	if p.OnMsg != nil {
		p.OnMsg(m)
	}
}

// Pong answers a heartbeat from a goroutine of its own, as it may block.
func (p *RawPeer) Pong(m *RMsg) {
	go p.Send(&RMsg{Actor: aTransport, HighPri: true, Action: "HeartbeatResponse", Body: m.Body})
}

func (p *RawPeer) Beat(payload []byte) error {
	return p.Send(&RMsg{Actor: aTransport, HighPri: true, Action: "HeartbeatRequest", Body: payload})
}

func (p *RawPeer) Reply(m *RMsg, body []byte) error {
	return p.Send(&RMsg{Actor: m.Actor, Action: m.Action, Rel: m.ID, Body: body})
}

func (p *RawPeer) Close() { p.c.Close(); p.raw.Close() }

// eofLike reports whether an error is an ordinary end of a connection.
func eofLike(err error) bool {
	return errors.Is(err, io.EOF) || errors.Is(err, net.ErrClosed)
}

// frameCfgOf is what a transport configured by c writes.
func frameCfgOf(c transport.Config) frameCfg {
	if c.TLS != nil {
		return frameCfg{mask: 1}
	}
	return frameCfg{headCRC: !c.DisableGenerateFrameHeaderCRC, bodyCRC: c.GenerateFrameBodyCRC}
}

// wireFrames parses everything one end wrote in clear.
func wireFrames(b []byte) (fs []*rawFrame, rest []byte, err error) {
	for {
		f, e := parseFrame(b)
		if e != nil {
			return fs, b, e
		}
		if f == nil {
			return fs, b, nil
		}
		fs = append(fs, f)
		b = b[f.size:]
	}
}

func key(b []byte) string {
	if len(b) > 12 {
		b = b[:12]
	}
	return string(b)
}

// body makes a body of n bytes (at least 12) that starts with a unique key.
func body(tag string, i int, n int) []byte {
	k := fmt.Sprintf("%-5.5s%06d|", tag, i)
	if n < len(k) {
		n = len(k)
	}
	b := make([]byte, n)
	copy(b, k)
	x := uint32(i)*2654435761 + uint32(len(tag))
	for j := len(k); j < n; j++ {
		x = x*1664525 + 1013904223
		b[j] = byte(x >> 24)
	}
	return b
}

var _ = bytes.Equal
