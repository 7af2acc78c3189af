package main

import (
	"context"
	"fmt"
	"net"
	"sort"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
)

// finfo is what is said about a federation node, independently of the system's types.
type finfo struct {
	id     NodeID
	inst   uint64
	phase  int64
	addr   string
	tokBeg NodeID
	tokEnd NodeID
	tokVer uint64
	lease  string
	linst  int64
	e2e    bool
	uri    string // fault domain: scheme|authority|host|path|segment,segment
	port   int32
	ring   string
}

const (
	phBooting = iota
	phJoining
	phInserting
	phRouting
	phShutdown
)

func (n NodeID) String() string { return fmt.Sprintf("%016x%016x", n.Hi, n.Lo) }

func (n NodeID) less(o NodeID) bool { return n.Hi < o.Hi || n.Hi == o.Hi && n.Lo < o.Lo }

// sub is the distance on the ring from o to n.
func (n NodeID) sub(o NodeID) NodeID {
	d := NodeID{n.Hi - o.Hi, n.Lo - o.Lo}
	if n.Lo < o.Lo {
		d.Hi--
	}
	return d
}

func (n NodeID) add(k int64) NodeID {
	m := NodeID{n.Hi, n.Lo + uint64(k)}
	if k > 0 && m.Lo < n.Lo {
		m.Hi++
	}
	if k < 0 && m.Lo > n.Lo {
		m.Hi--
	}
	return m
}

func (f finfo) newer(o finfo) bool {
	return f.inst > o.inst || f.inst == o.inst && f.phase > o.phase
}

func (f finfo) String() string {
	return fmt.Sprintf("{%v/%d phase %d at %s}", f.id, f.inst, f.phase, f.addr)
}

func (f finfo) encode() []byte {
	return object(func(e *enc) {
		e.obj(func() { e.nodeid(f.id); e.u64(f.inst) })
		e.i64(f.phase)
		e.str(f.addr)
		e.obj(func() { e.nodeid(f.tokBeg); e.nodeid(f.tokEnd); e.u64(f.tokVer) })
		e.str(f.lease)
		e.i64(f.linst)
		e.bool(f.e2e)
		e.obj(func() {
			e.i64(0)
			e.str(f.uri)
			e.str("")
			e.i64(0)
			e.str("")
			e.i32(f.port)
			for i := 0; i < 3; i++ {
				e.str("")
			}
			if f.uri == "" {
				e.refs(0)
			} else {
				e.refs(2)
				e.str(f.uri)
				e.str("seg")
			}
		})
		e.str(f.ring)
		e.i32(0)
	})
}

func decodeInfo(b []byte) (f finfo, err error) {
	err = decodeObject(b, func(d *dec) {
		d.obj(func() { f.id = d.nodeid(); f.inst = d.u64() })
		f.phase = d.i64()
		f.addr = d.str()
		d.obj(func() { f.tokBeg = d.nodeid(); f.tokEnd = d.nodeid(); f.tokVer = d.u64() })
		f.lease = d.str()
		f.linst = d.i64()
		f.e2e = d.bool()
		d.obj(func() {
			d.i64()
			f.uri = d.str()
			d.str()
			d.i64()
			d.str()
			f.port = d.i32()
			for i := 0; i < 3; i++ {
				d.str()
			}
			if n := d.refs(); n > 0 {
				if n != 2 || d.str() != f.uri || d.str() != "seg" {
					d.fail("fault domain segments")
				}
			} else if f.uri != "" {
				d.fail("fault domain segments are missing")
			}
		})
		f.ring = d.str()
		d.i32()
	})
	return
}

type fPToP struct {
	from, to         NodeID
	fromInst, toInst uint64
	actor            int64
	exact            bool
}

func decodePToP(b []byte) (p fPToP, err error) {
	err = decodeObject(b, func(d *dec) {
		d.obj(func() { p.from = d.nodeid(); p.fromInst = d.u64() })
		d.obj(func() { p.to = d.nodeid(); p.toInst = d.u64() })
		p.actor = d.i64()
		d.str()
		d.str()
		p.exact = d.bool()
	})
	return
}

type fRouting struct {
	from, to         NodeID
	fromInst, toInst uint64
	id               MsgID
	exact, expects   bool
}

func decodeRouting(b []byte) (r fRouting, err error) {
	err = decodeObject(b, func(d *dec) {
		d.obj(func() { r.from = d.nodeid(); r.fromInst = d.u64() })
		d.obj(func() { r.to = d.nodeid(); r.toInst = d.u64() })
		r.id = MsgID{d.guid(), d.u32()}
		r.exact = d.bool()
		r.expects = d.bool()
		d.i64()
		d.i64()
		d.str()
		d.str()
	})
	return
}

func goNode(n NodeID) federation.NodeID { return federation.NodeID{Hi: n.Hi, Lo: n.Lo} }

func wireInfo(p federation.PartnerNodeInfo) finfo {
	f := finfo{id: NodeID{p.Instance.Id.Hi, p.Instance.Id.Lo}, inst: p.Instance.InstanceId, phase: int64(p.Phase), addr: p.Address,
		tokBeg: NodeID{p.Token.Range.Begin.Hi, p.Token.Range.Begin.Lo}, tokEnd: NodeID{p.Token.Range.End.Hi, p.Token.Range.End.Lo}, tokVer: p.Token.Version,
		lease: p.LeaseAgentAddress, linst: p.LeaseAgentInstanceId, e2e: p.EndToEnd, uri: p.NodeFaultDomainId.Scheme, port: p.NodeFaultDomainId.Port, ring: p.RingName}
	u := p.NodeFaultDomainId
	if u.Authority != "" || u.Host != "" || u.Path != "" || f.uri == "" && len(u.PathSegments) != 0 || f.uri != "" && fmt.Sprint(u.PathSegments) != fmt.Sprint([]string{f.uri, "seg"}) {
		f.ring += fmt.Sprintf(" (fault domain %v)", common.Uri(u))
	}
	return f
}

// fmsg is a message from the system as a stub node got it.
type fmsg struct {
	at    time.Duration
	seq   int64
	p     *RawPeer
	m     *RMsg
	to    *fnode
	ptop  fPToP
	own   finfo
	infos []finfo
	route *fRouting
}

// ftold is information sent to the system.
type ftold struct {
	f    finfo
	at   time.Duration // write begins
	p    *RawPeer
	end  int64 // raw offset of its last byte, -1: not written
	conn *simConn
}

// took is when the system took the last byte, or -1.
func (t *ftold) took() time.Duration {
	if t.end < 0 {
		return -1
	}
	at, _ := t.conn.wr.readTime(t.end)
	return at
}

// fnode is a stub node.
type fnode struct {
	w     *fworld
	info  finfo
	lis   *simListener
	peers []*RawPeer // connections the system opened
	back  *RawPeer   // the connection it has opened to the system
	backL *mutex
	got   []*fmsg
	pings []time.Duration
	// how it behaves
	silent  bool // accepts and never says a word
	slam    bool // accepts and closes
	mute    bool // does not answer
	knows   func() []finfo
	reply   func(x *fmsg) // instead of the usual answer to a vote ping
	onMsg   func(x *fmsg)
	stalled bool // accepts and does not read
	st      int64
	hist    []fstate
	viaOwn  bool // answers on a connection of its own
	twice   bool
}

// fdial is a dial of the system.
type fdial struct {
	addr       string
	began      time.Duration
	at, done   time.Duration
	conn       *simConn
	err        error
	handshaked bool
}

// fworld is one site node of the system among stub nodes.
type fworld struct {
	h      *H
	node   *federation.SiteNode
	srv    *transport.Server
	agent  *lease.Agent
	me     finfo
	nodes  map[string]*fnode // by address
	list   []*fnode
	told   []*ftold
	routes []*ftold         // those told that are about a routing node
	newest map[NodeID]finfo // of what was told
	maySay map[finfo]bool   // what was told
	most   map[NodeID]int   // and how long that may be
	all    []*fmsg
	dials  []*fdial
	serve  *Task
	serr   error
	sc, cc transport.Config
	dialAt func(addr string) // before each dial
	host   string
	bad    string
	ended  map[*connPair]time.Duration
}

func nodeAddr(i int) string { return fmt.Sprintf("10.1.0.%d:1020", i+1) }

// newFworld prepares the world; start makes the node once the seeds are known.
func newFworld(h *H) *fworld {
	w := &fworld{h: h, nodes: map[string]*fnode{}, ended: map[*connPair]time.Duration{}, host: "10.0.0.1"}
	w.me = finfo{id: NodeID{uint64(h.Plan.p("idhi")), uint64(h.Plan.p("idlo"))}, inst: 1000, addr: "10.0.0.1:1020", lease: "10.0.0.1:1021"}
	w.sc.TLS, w.cc.TLS = tlsPair(h.Plan.p("tls"), false)
	if h.Plan.p("dialer") == 1 {
		w.host = "10.9.9.9"
	}
	return w
}

func (w *fworld) start(seeds []finfo) {
	h := w.h
	var err error
	if w.srv, err = transport.Listen(h.Net.Listen(w.me.addr), transport.ServerConfig{Config: w.sc}); err != nil {
		h.Fail("setup", "%v", err)
	}
	conf := lease.AgentConfig{AppId: "sim"}
	conf.SetDefault()
	if w.agent, err = lease.NewAgent(conf, h.Net.Listen(w.me.lease), func(addr string) (net.Conn, error) { return h.Net.Dial("10.0.0.1", addr) }); err != nil {
		h.Fail("setup", "%v", err)
	}
	c := federation.SiteNodeConfig{TransportServer: w.srv, LeaseAgent: w.agent, Instance: federation.NodeInstance{Id: goNode(w.me.id), InstanceId: w.me.inst}}
	if h.Plan.p("dialer") == 1 {
		c.ClientTLS = w.cc.TLS
		h.Net.dialHook = func(from, addr string) error {
			if w.nodes[addr] == nil || host(from) != w.host {
				return nil
			}
			if w.dialAt != nil {
				w.dialAt(addr)
			}
			w.dials = append(w.dials, &fdial{addr: addr, at: h.Now(), done: -1})
			return nil
		}
	} else {
		c.ClientDialer = func(addr string) (*transport.Client, error) {
			began := h.Now()
			if w.dialAt != nil {
				w.dialAt(addr)
			}
			d := &fdial{addr: addr, began: began, at: h.Now(), done: -1}
			w.dials = append(w.dials, d)
			nc, err := h.Net.Dial(w.host, addr)
			var cl *transport.Client
			if err == nil {
				d.conn = nc.(*simConn)
				cl, err = transport.Connect(nc, transport.ClientConfig{Config: w.cc})
			}
			d.err, d.done, d.handshaked = err, h.Now(), err == nil
			if err != nil {
				return nil, err
			}
			return cl, nil
		}
	}
	for _, s := range seeds {
		c.SeedNodes = append(c.SeedNodes, federation.SeedNodeInfo{Id: goNode(s.id), Address: s.addr})
	}
	if w.node, err = federation.NewSiteNode(c); err != nil {
		h.Fail("setup", "making a node: %v", err)
	}
	for i := range c.SeedNodes { // the node must have its own copy
		c.SeedNodes[i].Address = "10.255.255.255:1"
	}
	w.serve = h.Go("serve", func() { w.serr = w.node.Serve() })
}

func (w *fworld) fail(f string, a ...any) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

// stub adds a stub node that is not yet up.
func (w *fworld) stub(f finfo) *fnode {
	x := &fnode{w: w, info: f, backL: newMutex()}
	w.nodes[f.addr] = x
	w.list = append(w.list, x)
	return x
}

// up makes the node listen.
func (x *fnode) up() {
	if x.lis != nil {
		return
	}
	lis := x.w.h.Net.Listen(x.info.addr)
	x.lis = lis
	go func() {
		for {
			c, err := lis.Accept()
			if err != nil {
				return
			}
			if x.lis != lis { // went down just after it had accepted
				c.(*simConn).Reset()
				continue
			}
			go x.serve(lis, c.(*simConn))
		}
	}()
}

// ready returns the connections the system opened that are set up and not known to be over.
func (x *fnode) ready() (ps []*RawPeer) {
	for _, p := range x.peers {
		if p.wireN > 0 && !p.Ended && !p.raw.Dead() {
			ps = append(ps, p)
		}
	}
	return
}

// down stops the node and, with cut, resets its connections.
func (x *fnode) down(cut bool) {
	if x.lis != nil {
		x.lis.Close()
		x.lis = nil
	}
	for _, p := range x.peers {
		if cut {
			p.raw.Reset()
		} else {
			p.raw.Close()
		}
	}
	x.peers = nil
	if x.back != nil {
		x.back.raw.Close()
		x.back = nil
	}
}

func (x *fnode) serve(lis *simListener, c *simConn) {
	w := x.w
	if x.lis != lis {
		c.Reset()
		return
	}
	c.wr.logReads = true
	if x.slam {
		c.Close()
		return
	}
	p := NewRaw(w.h, "node", c, frameCfgOf(w.sc))
	x.peers = append(x.peers, p)
	if x.silent && w.sc.TLS != nil {
		return
	}
	if w.sc.TLS != nil {
		if p.Handshake(w.sc.TLS, true) != nil {
			c.Close()
			return
		}
	}
	p.OnMsg = func(m *RMsg) { x.take(p, m) }
	if x.stalled {
		return
	}
	if x.silent {
		p.OnBeat = func(*RMsg) {}
		go p.readLoop()
	} else {
		p.Start()
	}
	<-p.done
	c.Close()
}

// take checks a message from the system and answers it.
func (x *fnode) take(p *RawPeer, m *RMsg) {
	w := x.w
	r := &fmsg{at: w.h.Now(), seq: w.h.Seq(), p: p, m: m, to: x}
	n := 0
	for _, b := range m.custom(hPartner) {
		f, err := decodeInfo(b)
		if err != nil {
			w.fail("a partner header cannot be decoded: %v", err)
			return
		}
		if f.id == w.me.id {
			r.own = f
			n++
			continue
		}
		for _, o := range r.infos {
			if o.id == f.id {
				w.fail("a message carries information about %v twice", f.id)
			}
		}
		r.infos = append(r.infos, f)
	}
	if n != 1 {
		w.fail("a message to %v carries %d headers about its sender", x.info.id, n)
	}
	o := r.own
	if o.inst != w.me.inst || o.addr != w.me.addr || o.lease != w.me.lease || o.phase < phBooting || o.phase > phJoining {
		w.fail("a message says of its sender: %v, lease agent %s", o, o.lease)
	}
	if b := m.custom(hPToP); len(b) != 1 {
		w.fail("a message carries %d point-to-point headers", len(b))
	} else if q, err := decodePToP(b[0]); err != nil {
		w.fail("the point-to-point header cannot be decoded: %v", err)
	} else {
		r.ptop = q
		if q.from != w.me.id || q.fromInst != w.me.inst {
			w.fail("a message is from %v/%d", q.from, q.fromInst)
		}
	}
	if b := m.custom(hRouting); len(b) > 0 {
		q, err := decodeRouting(b[0])
		if err != nil || len(b) > 1 {
			w.fail("%d routing headers, %v", len(b), err)
		}
		r.route = &q
	}
	x.got = append(x.got, r)
	w.all = append(w.all, r)
	if m.Action == "VotePing" {
		x.pings = append(x.pings, r.at)
		if m.Actor != aFederation || r.route != nil || r.ptop.actor != 0 || !r.ptop.exact {
			w.fail("a vote ping for actor %d, point-to-point actor %d", m.Actor, r.ptop.actor)
		}
		if r.ptop.to != x.info.id {
			w.fail("a vote ping for %v reaches %v", r.ptop.to, x.info.id)
		}
		if x.reply != nil {
			x.reply(r)
		} else if !x.mute && !x.silent {
			w.h.Go("answer", func() { x.answer(r) })
		}
	}
	if x.onMsg != nil {
		x.onMsg(r)
	}
}

// say is everything the node tells of: itself and whom it knows.
func (x *fnode) say() []finfo {
	fs := []finfo{x.info}
	if x.knows != nil {
		fs = append(fs, x.knows()...)
	}
	return fs
}

func (x *fnode) answer(r *fmsg) {
	m := &RMsg{Actor: aFederation, Action: "VotePingReply"}
	if x.viaOwn {
		x.tell(m, x.say())
		return
	}
	n := 1
	if x.twice {
		n = 2
	}
	for ; n > 0; n-- {
		m := *m
		x.w.send(r.p, &m, x.say())
	}
}

// send sends a message that carries information about nodes on a connection.
func (w *fworld) send(p *RawPeer, m *RMsg, fs []finfo) error {
	p.raw.wr.logReads = true
	var ts []*ftold
	size := 0
	for _, c := range m.Custom {
		size += len(c.Data)
	}
	for _, f := range fs {
		b := f.encode()
		if size += len(b) + 4; size > 60000 { // a frame's headers are at most 64 KB
			break
		}
		m.Custom = append(m.Custom, hdrTLV{hPartner, b})
		t := &ftold{f: f, at: w.h.Now(), p: p, end: -1, conn: p.raw}
		ts = append(ts, t)
		w.told = append(w.told, t)
		if f.phase == phRouting {
			w.routes = append(w.routes, t)
		}
		if w.newest == nil {
			w.newest, w.maySay, w.most = map[NodeID]finfo{}, map[finfo]bool{}, map[NodeID]int{}
		}
		if o, ok := w.newest[f.id]; !ok || f.newer(o) {
			w.newest[f.id] = f
		}
		w.maySay[f] = true
		w.most[f.id] = max(w.most[f.id], len(b))
	}
	if m.ID.empty() {
		m.ID = p.NewID()
	}
	b := m.encode(p.cfg)
	p.wr.lock()
	defer p.wr.unlock()
	n := p.raw.wr.sent
	_, err := p.c.Write(b)
	if err == nil && p.raw.wr.sent != n {
		for _, t := range ts {
			t.end = p.raw.wr.sent
		}
	}
	return err
}

// tell sends a message to the system's server, on the node's own connection.
func (x *fnode) tell(m *RMsg, fs []finfo) *RawPeer {
	x.backL.lock()
	defer x.backL.unlock()
	if x.back != nil && (x.back.Ended || x.back.raw.Dead()) {
		x.back = nil
	}
	if x.back == nil {
		x.back = x.w.dialIn(host(x.info.addr))
	}
	if x.back != nil {
		x.w.send(x.back, m, fs)
	}
	return x.back
}

// dialIn connects to the system's server.
func (w *fworld) dialIn(from string) *RawPeer {
	c, err := w.h.Net.Dial(from, w.me.addr)
	if err != nil {
		return nil
	}
	p := NewRaw(w.h, "back", c.(*simConn), frameCfgOf(w.sc))
	if w.cc.TLS != nil {
		giveUp := time.AfterFunc(10*time.Minute, func() { p.raw.Close() })
		err := p.Handshake(w.cc.TLS, false)
		giveUp.Stop()
		if err != nil {
			p.raw.Close()
			return nil
		}
	}
	p.OnMsg = func(m *RMsg) { w.fail("the system sends %v on a connection to its server", m) }
	p.Start()
	return p
}

// view is what the system knows about other nodes, by id.
func (w *fworld) view() map[NodeID]finfo {
	v := map[NodeID]finfo{}
	for _, p := range w.node.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true }) {
		f := wireInfo(p)
		if _, ok := v[f.id]; ok {
			w.h.Fail("view", "the node knows two things about %v", f.id)
		}
		v[f.id] = f
	}
	return v
}

// best returns the newest information about each node the system must have
// (taken before t) and may have (sent at all).
func (w *fworld) best(before time.Duration) (must map[NodeID]finfo, may map[NodeID][]finfo) {
	must, may = map[NodeID]finfo{}, map[NodeID][]finfo{}
	for _, t := range w.told {
		may[t.f.id] = append(may[t.f.id], t.f)
		if at := t.took(); at >= 0 && at <= before {
			if o, ok := must[t.f.id]; !ok || t.f.newer(o) {
				must[t.f.id] = t.f
			}
		}
	}
	return
}

// checkView compares the system's view with what it was told.
func (w *fworld) checkView(seeds []finfo, what string) {
	h := w.h
	v := w.view()
	must, may := w.best(h.Now() - h.Slack())
	for _, s := range seeds {
		f, ok := v[s.id]
		if !ok {
			h.Fail("seed", "%s: the seed node %v is not known", what, s.id)
		}
		if f.inst == 0 && f.phase == 0 && f.addr != s.addr {
			h.Fail("seed", "%s: the seed node %v is at %s", what, s.id, f.addr)
		}
		may[s.id] = append(may[s.id], finfo{id: s.id, addr: s.addr})
	}
	var ids []NodeID
	for id := range must {
		ids = append(ids, id)
	}
	for id := range v {
		if _, ok := must[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].less(ids[j]) })
	for _, id := range ids {
		f, ok := v[id]
		m, told := must[id]
		if told && !ok {
			h.Fail("unknown", "%s: the node was told of %v and does not know it", what, m)
		}
		if told && m.newer(f) {
			h.Fail("stale", "%s: the node was told %v and believes %v", what, m, f)
		}
		found := false
		for _, o := range may[id] {
			found = found || o == f
		}
		if !found {
			h.Fail("invented", "%s: the node believes %+v, which nobody said", what, f)
		}
	}
}

// target is where the system routes a message for id, given what it knows.
func (w *fworld) target(v map[NodeID]finfo, id NodeID) (finfo, bool) {
	var best finfo
	var bd NodeID
	ok := false
	for _, f := range v {
		if f.id == w.me.id {
			continue
		}
		if d := f.id.sub(id); !ok || d.less(bd) {
			best, bd, ok = f, d, true
		}
	}
	return best, ok
}

// liveConn returns a connection from the system to addr that is up as far as the system can know.
func (w *fworld) liveConn(addr string, accepted bool) *simConn {
	for _, c := range w.h.Net.conns {
		if c.a.remote == addr && host(c.a.local) == w.host && !c.a.closed && c.rstAt < 0 && !c.a.rd.fin && (c.b.accepted || !accepted) {
			return c.a
		}
	}
	return nil
}

// closeNode closes the node and checks that everything it has ends.
func (w *fworld) closeNode(limit time.Duration, n int) {
	h := w.h
	var ts []*Task
	for ; n > 0; n-- {
		ts = append(ts, h.Go("close", func() { w.node.Close() }))
	}
	if t := h.awaitAll(ts, limit); t != nil {
		h.Fail("stuck", "closing the node does not return")
	}
	if !h.Await(w.serve, limit) {
		h.Fail("stuck", "serving does not end after the node was closed")
	}
}

func fctx(limit int64) (context.Context, func()) {
	if limit <= 0 {
		ctx, cancel := context.WithCancel(context.Background())
		if limit < 0 {
			cancel()
		}
		return ctx, cancel
	}
	return context.WithTimeout(context.Background(), us(limit))
}
