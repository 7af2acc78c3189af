package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/transport"
)

// C20 and C21: naming clients, each on a connection to a stub gateway.  Calls
// of all kinds run at once; the gateway answers them properly, with failures,
// with something unusable, late, several times or not at all, and sends service
// notifications, good and bad ones.  The two properties differ in what the plan
// contains most and in what is judged.

func init() {
	register("C20", &World{MaxSpin: 8e6, Name: "notify", Weight: 1, Gen: func(g *Gen) { genNaming(g, true) }, Run: func(h *H) { runNaming(h, true) }})
	register("C21", &World{MaxSpin: 8e6, Name: "calls", Weight: 1, Gen: func(g *Gen) { genNaming(g, false) }, Run: func(h *H) { runNaming(h, false) }})
}

// How the gateway answers a request.
const (
	nrProper   = iota
	nrFailure  // ClientOperationFailure with a code
	nrFailJunk // ClientOperationFailure that cannot be decoded
	nrFault    // an error code in the headers
	nrNoBody
	nrCut    // the proper body cut short
	nrJunk   // fields of other types
	nrAction // another action
	nrSilent
	nrTwice
	nrFewer  // the proper object without its last fields
	nrCode   // GetApplicationList: an error code and no list
	nrNoList // GetApplicationList: no list and no error
	nrDrop   // the gateway closes the connection
	nrMore   // more fields than the client knows
	nrMode
)

// Kinds of notifications.
const (
	nkProper = iota
	nkMore   // fields of a newer version behind the known ones
	nkCut
	nkJunk
	nkNull  // no notification in it
	nkEmpty // no body
	nkType  // a field of another type
	nkOther // another action
	nkMode
)

func genNaming(g *Gen, notes bool) {
	genConf(g, 1, 4)
	wide(g)
	g.set("handler", g.pick(0, 0, 0, 1, 2, 3, 4)) // 0 quick 1 slow 2 stuck 3 calls the client 4 none
	if g.calm {
		g.set("plain", int64(g.IntN(2)))
	}
	two := g.chance(1, 4)
	nm := func() int64 {
		if g.chance(2, 3) {
			return nrProper
		}
		return g.Int64N(nrMode)
	}
	nc := g.IntN(4)
	if !notes {
		nc = 1 + g.IntN(6)
		if g.many > 0 && g.chance(1, 3) { // very many filters
			for i := g.pick(70, 140, 280); i > 0; i-- {
				g.step("filter", 0, 40, 0, -1, nrProper, nrProper, 0, 0, g.Int64N(4), g.Int64N(6))
			}
			if g.calm {
				return
			}
		}
	}
	for w := 0; w < nc; w++ {
		for i := g.rep(5); i >= 0; i-- {
			op := []string{"ping", "apps", "apps", "filter", "filter"}[g.IntN(5)]
			ctx := g.pick(-1, -1, -1, 0, 1, 1000, g.delay())
			think := g.pick(0, 0, 1000, g.delay())
			// client, ctx, mode, second mode, think, size, flags
			g.step(op, g.pick(0, 0, g.delay()), w, g.pick(0, int64(b2i(two))), ctx, nm(), nm(), think, g.pick(0, 1, 2, 20, 300), g.Int64N(4), g.Int64N(6))
		}
	}
	nn := g.IntN(3)
	if notes {
		nn = 1 + g.IntN(4)
	}
	for w := 20; w < 20+nn; w++ {
		for i := g.rep(6); i >= 0; i-- {
			k := int64(nkProper)
			if g.chance(1, 3) {
				k = g.Int64N(nkMode)
			}
			s := g.step("note", g.pick(0, 0, 0, g.delay()), w, g.pick(0, int64(b2i(two))), k, g.pick(1, 1, 2, 5, 20), g.Int64N(1<<40), g.Int64N(1<<30))
			if k == nkJunk {
				s.Data = junkObj(g, 0)
			}
		}
	}
	for k := g.rep(3); k > 0; k-- {
		g.step("stray", g.delay(), 30, 0, g.Int64N(4))
	}
	if !g.calm && g.chance(1, 5) {
		g.step("close", g.delay(), 31, 0, g.Int64N(2))
	}
	if !g.calm && g.chance(1, 4) {
		genBreak(g, 1, 1)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ncall is one call of a client and what came of it.
type ncall struct {
	op   string
	tag  string
	s    *Step
	ctx  context.Context
	from int64
	at   time.Duration
	end  int64
	t    *Task
	// results
	desc *naming.GatewayDescription
	apps []naming.ApplicationQueryResult
	id   uint64
	err  error
}

// nreq is a request the gateway received.
type nreq struct {
	m        *RMsg
	mode     int64
	seq, at  int64 // at: when the answer was about to be sent, 0 not yet
	answered int64 // likewise, the time
	desc     naming.GatewayDescription
	used     bool
	client   string
	// of a filter
	id    uint64
	name  common.Uri
	flags uint32
}

type nnote struct {
	kind  int64
	m     *RMsg
	want  *naming.ServiceNotification
	acks  int
	nacks int
	sent  bool
}

type nclient struct {
	*link
	h       *H
	no      int
	n       *naming.NamingClient
	modes   []int64
	calls   []*ncall
	reqs    []*nreq
	conns   map[string]bool // client ids of connection requests that were answered
	notes   []*nnote
	got     []*naming.ServiceNotification
	stuck   chan struct{}
	running int
	closed  bool // by the plan
}

// tagUri makes the URI that names a filter or an application, and shape varies what it looks like.
func tagUri(tag string, shape int64) common.Uri {
	u := common.Uri{Type: common.UriTypeAbsolute, Scheme: "fabric", Port: -1, Path: "/" + tag, PathSegments: []string{tag}}
	switch shape {
	case 1:
		u.PathSegments = append(u.PathSegments, "", "weiß", strings.Repeat("x", 300))
		u.Path = "/" + strings.Join(u.PathSegments, "/")
	case 2:
		u.Authority, u.HostType, u.Host, u.Port = "host:80", common.UriHostTypeRegName, "host", 80
	case 3:
		u.Query, u.Fragment, u.Type = "a=b", tag, common.UriTypeRootless
	case 4:
		u.HostType, u.Port, u.Type = common.UriHostTypeIPv6, math.MaxInt32, common.UriTypeAuthorityAbEmpty
	case 5:
		u = common.Uri{Path: tag}
	}
	return u
}

func encUri(e *enc, u common.Uri) {
	e.obj(func() {
		e.i64(int64(u.Type))
		e.str(u.Scheme)
		e.str(u.Authority)
		e.i64(int64(u.HostType))
		e.str(u.Host)
		e.i32(u.Port)
		e.str(u.Path)
		e.str(u.Query)
		e.str(u.Fragment)
		if e.refs(len(u.PathSegments)) {
			for _, s := range u.PathSegments {
				e.str(s)
			}
		}
	})
}

func decUri(d *dec) (u common.Uri) {
	d.obj(func() {
		u.Type = common.UriType(d.i64())
		u.Scheme = d.str()
		u.Authority = d.str()
		u.HostType = common.UriHostType(d.i64())
		u.Host = d.str()
		u.Port = d.i32()
		u.Path = d.str()
		u.Query = d.str()
		u.Fragment = d.str()
		for n := d.refs(); n > 0; n-- {
			u.PathSegments = append(u.PathSegments, d.str())
		}
	})
	return
}

// app is the i-th application of the answer to the query with that tag.
func app(tag string, i int) naming.ApplicationQueryResult {
	a := naming.ApplicationQueryResult{
		ApplicationName:        tagUri(fmt.Sprintf("%s-%d", tag, i), int64(i%6)),
		ApplicationTypeName:    []string{"type", "", "Ω"}[i%3],
		ApplicationTypeVersion: fmt.Sprint(i),
		ApplicationStatus:      []int64{1, 0, -1, math.MaxInt64, math.MinInt64}[i%5],
		HealthState:            int64(i) << 20,
	}
	for k := 0; k < i%4; k++ {
		if a.ApplicationParameters == nil {
			a.ApplicationParameters = map[string]string{}
		}
		a.ApplicationParameters[fmt.Sprintf("p%d", k)] = []string{tag, "", "v"}[k]
	}
	return a
}

func encApp(e *enc, a naming.ApplicationQueryResult, more bool) {
	e.obj(func() {
		encUri(e, a.ApplicationName)
		e.str(a.ApplicationTypeName)
		e.str(a.ApplicationTypeVersion)
		e.i64(a.ApplicationStatus)
		e.i64(a.HealthState)
		if e.objs(len(a.ApplicationParameters)) {
			for k := 0; k < len(a.ApplicationParameters); k++ {
				key := fmt.Sprintf("p%d", k)
				e.obj(func() { e.str(key); e.str(a.ApplicationParameters[key]) })
			}
		}
		if more {
			e.str("newer")
			e.i64(1)
		}
	})
}

func encGateway(e *enc, d naming.GatewayDescription, more bool) {
	e.obj(func() {
		e.str(d.Address)
		e.obj(func() {
			e.nodeid(NodeID{d.NodeInstance.Id.Hi, d.NodeInstance.Id.Lo})
			e.u64(d.NodeInstance.InstanceId)
		})
		e.str(d.NodeName)
		if more {
			e.guid(GUID{1})
			e.objs(0)
		}
	})
}

// note makes a notification from seeds.
func note(no int, a, b int64) *naming.ServiceNotification {
	n := &naming.ServiceNotification{}
	n.NotificationPageId.NotificationId = transport.ActivityId{Id: goGUID(GUID{1: byte(no), 2: byte(no >> 8), 3: 7, 9: byte(a)}), Index: uint32(a >> 3)}
	n.NotificationPageId.PageIndex = []uint64{0, 1, math.MaxUint64, uint64(a)}[a&3]
	n.Generation = naming.GenerationNumber{Generation: []int64{0, -1, a, math.MinInt64}[a>>2&3], Owner: federation.NodeID{Hi: uint64(b), Lo: uint64(a)}}
	if a>>4&1 == 1 {
		n.Versions = &naming.VersionRangeCollection{}
		for i := int64(0); i < a>>5&3; i++ {
			n.Versions.VersionRanges = append(n.Versions.VersionRanges, naming.VersionRange{StartVersion: i * b, EndVersion: i*b - 2})
		}
	}
	np := a >> 7 & 7
	if b&15 == 0 {
		np = 30
	}
	for i := int64(0); i < np; i++ {
		if (a>>10+i)%9 == 8 {
			n.Partitions = append(n.Partitions, nil)
			continue
		}
		p := &naming.ServiceTableEntryNotification{MatchedPrimaryOnly: (b>>i)&1 == 1}
		if (b>>2+i)%5 != 4 {
			t := &naming.ServiceTableEntry{ServiceName: fmt.Sprintf("fabric:/app/svc%d/%d", no, i), IsFound: (a>>i)&1 == 0}
			t.ConsistencyUnitId.GUID = goGUID(GUID{byte(i), byte(b), 15: byte(a)})
			t.ServiceReplicaSet = naming.ServiceReplicaSet{IsStateful: i&1 == 0, IsPrimaryLocationValid: i&2 == 0, LookupVersion: a*i - b, IsPrimaryAuxiliary: i&4 != 0}
			if t.ServiceReplicaSet.IsPrimaryLocationValid {
				t.ServiceReplicaSet.PrimaryLocation = "http://primary:80/"
			}
			for k := int64(0); k < (a>>12+i)%4; k++ {
				t.ServiceReplicaSet.ReplicaLocations = append(t.ServiceReplicaSet.ReplicaLocations, strings.Repeat("é", int(k)))
				if k > 1 {
					t.ServiceReplicaSet.AuxiliaryLocations = append(t.ServiceReplicaSet.AuxiliaryLocations, "aux")
				}
			}
			p.ServiceTable = t
		}
		n.Partitions = append(n.Partitions, p)
	}
	return n
}

func encNote(n *naming.ServiceNotification, more bool, odd int64) []byte {
	extra := func(e *enc) {
		if more {
			e.str("newer")
			e.obj(func() { e.u64(9) })
		}
	}
	strs := func(e *enc, l []string) {
		if e.refs(len(l)) {
			for _, s := range l {
				e.str(s)
			}
		}
	}
	return object(func(e *enc) {
		e.ptr(func() {
			e.obj(func() {
				e.obj(func() {
					e.obj(func() {
						if odd == 1 {
							e.str("not an id")
						} else {
							e.guid(wireGUID(n.NotificationPageId.NotificationId.Id))
						}
						e.u32(n.NotificationPageId.NotificationId.Index)
					})
					e.u64(n.NotificationPageId.PageIndex)
				})
				e.obj(func() {
					if odd == 2 {
						e.str("one")
					} else {
						e.i64(n.Generation.Generation)
					}
					e.nodeid(NodeID{n.Generation.Owner.Hi, n.Generation.Owner.Lo})
				})
				if n.Versions == nil {
					e.nilptr()
				} else {
					e.ptr(func() {
						e.obj(func() {
							if e.objs(len(n.Versions.VersionRanges)) {
								for _, v := range n.Versions.VersionRanges {
									e.obj(func() { e.i64(v.StartVersion); e.i64(v.EndVersion); extra(e) })
								}
							}
						})
					})
				}
				if odd == 3 {
					e.str("no list")
				} else if e.refs(len(n.Partitions)) {
					for _, p := range n.Partitions {
						if p == nil {
							e.nilptr()
							continue
						}
						e.ptr(func() {
							e.obj(func() {
								if t := p.ServiceTable; t == nil {
									e.nilptr()
								} else {
									e.ptr(func() {
										e.obj(func() {
											e.obj(func() { e.guid(wireGUID(t.ConsistencyUnitId.GUID)) })
											e.str(t.ServiceName)
											e.obj(func() {
												r := &t.ServiceReplicaSet
												e.bool(r.IsStateful)
												e.bool(r.IsPrimaryLocationValid)
												e.str(r.PrimaryLocation)
												strs(e, r.ReplicaLocations)
												e.i64(r.LookupVersion)
												e.bool(r.IsPrimaryAuxiliary)
												strs(e, r.AuxiliaryLocations)
												extra(e)
											})
											e.bool(t.IsFound)
											extra(e)
										})
									})
								}
								e.bool(p.MatchedPrimaryOnly)
								extra(e)
							})
						})
					}
				}
				extra(e)
			})
		})
		extra(e)
	})
}

func (x *nclient) fail(class, f string, a ...any) {
	x.h.Fail(class, "client %d: %s", x.no, fmt.Sprintf(f, a...))
}

// callOf finds the call a tag belongs to.
func (x *nclient) callOf(tag string) *ncall {
	for _, c := range x.calls {
		if c.tag == tag {
			return c
		}
	}
	return nil
}

// request handles what the client sent.
func (x *nclient) request(m *RMsg) {
	h := x.h
	if !m.Rel.empty() {
		for _, t := range x.notes {
			if t.m.ID == m.Rel {
				x.ack(t, m)
				return
			}
		}
		x.fail("ack", "%v relates to nothing", m)
	}
	r := &nreq{m: m, seq: h.Seq()}
	x.reqs = append(x.reqs, r)
	think := int64(0)
	any := func() {
		if h.Plan.p("plain") == 0 && h.Chance(1, 4) {
			r.mode = int64(h.Rand(nrMode))
		}
		think = []int64{0, 0, 1000, 200000}[h.Rand(4)]
	}
	if m.Actor != aNaming || !m.Expects {
		x.fail("request", "%v is not a request to the gateway", m)
	}
	var body []byte
	action := strings.TrimSuffix(m.Action, "Request") + "Reply"
	var err error
	more := func() bool { return r.mode == nrMore }
	switch m.Action {
	case "PingRequest":
		any()
		action = m.Action
		r.desc = naming.GatewayDescription{Address: fmt.Sprintf("10.9.%d.%d:1", x.no, len(x.reqs)), NodeName: []string{"N", "", "节点"}[len(x.reqs)%3]}
		r.desc.NodeInstance.Id = federation.NodeID{Hi: uint64(len(x.reqs)) << 60, Lo: math.MaxUint64}
		r.desc.NodeInstance.InstanceId = uint64(len(x.reqs))
		body = object(func(e *enc) { encGateway(e, r.desc, more()) })
		if r.mode == nrFewer {
			body = object(func(e *enc) { e.obj(func() { e.str(r.desc.Address) }) })
			r.desc = naming.GatewayDescription{Address: r.desc.Address}
		}
	case "QueryRequest":
		var query, key, filter string
		err = decodeObject(m.Body, func(d *dec) {
			d.obj(func() {
				for n := d.objs(); n > 0; n-- {
					d.obj(func() { d.obj(func() { key = d.str() }); filter = d.str() })
				}
			})
			query = d.str()
		})
		if err == nil && (query != "GetApplicationList" || key != "ApplicationName") {
			err = fmt.Errorf("query %q argument %q", query, key)
		}
		c := x.callOf(filter)
		if c == nil || c.op != "apps" {
			x.fail("request", "a query for %q which nobody asked for (%v)", filter, err)
		}
		r.mode, think = c.s.n(2), c.s.n(4)
		n := int(c.s.n(5))
		body = object(func(e *enc) {
			e.i32(2)
			if r.mode == nrNoList || r.mode == nrCode {
				e.nilptr()
			} else {
				e.ptr(func() {
					e.obj(func() {
						if e.objs(n) {
							for i := 0; i < n; i++ {
								encApp(e, app(filter, i), more())
							}
						}
						if more() {
							e.i32(4)
						}
					})
				})
			}
			if r.mode == nrFewer {
				return
			}
			e.i32(int32(map[bool]int{true: -2147017627, false: 0}[r.mode == nrCode]))
			if more() {
				e.str("newer")
			}
		})
	case "NotificationClientConnectionRequest":
		any()
		err = decodeObject(m.Body, func(d *dec) {
			r.client = d.str()
		})
		body = object(func(e *enc) {
			e.obj(func() { e.i64(1); e.nodeid(NodeID{1, 2}) })
			e.i64(9)
			encGateway(e, naming.GatewayDescription{Address: "gw"}, more())
		})
	case "RegisterServiceNotificationFilterRequest":
		some := false
		err = decodeObject(m.Body, func(d *dec) {
			r.client = d.str()
			if some = d.byte() == tPointer; some {
				d.obj(func() {
					r.id = d.u64()
					r.name = decUri(d)
					d.obj(func() { r.flags = d.u32() })
				})
			}
		})
		if err == nil && !some {
			err = errors.New("no filter")
		}
		var friendly string
		if l := m.custom(hClientIdentity); err == nil && len(l) == 1 {
			err = decodeObject(l[0], func(d *dec) { d.str(); friendly = d.str() })
		}
		if err == nil && friendly != r.client {
			err = fmt.Errorf("identity header names %q, the body %q", friendly, r.client)
		}
		tag := strings.SplitN(strings.TrimPrefix(r.name.Path, "/"), "/", 2)[0]
		c := x.callOf(tag)
		if c == nil || c.op != "filter" {
			x.fail("request", "registration of a filter %q which nobody asked for (%v)", tag, err)
		}
		r.mode, think = c.s.n(2), c.s.n(4)
		body = object(func(e *enc) { e.i64(0) })
	default:
		err = errors.New("unknown action")
	}
	if err != nil {
		x.fail("request", "cannot use the request %v: %v", m, err)
	}
	if (r.mode == nrCode || r.mode == nrNoList) && m.Action != "QueryRequest" {
		r.mode = nrProper // there is no such thing
	}
	h.Hit(fmt.Sprintf("%s %d", m.Action, r.mode))
	go x.answer(r, action, body, think)
}

func (x *nclient) answer(r *nreq, action string, body []byte, think int64) {
	h := x.h
	if think > 0 {
		h.Sleep(us(think))
	}
	a := &RMsg{Actor: aNaming, Action: action, Rel: r.m.ID, Body: body}
	switch r.mode {
	case nrFailure:
		a.Action, a.Body = "ClientOperationFailure", object(func(e *enc) { e.i64([]int64{-2147017661, 1, 0x80071bcd, 0}[r.seq%4]) })
	case nrFailJunk:
		a.Action, a.Body = "ClientOperationFailure", [][]byte{nil, object(func(e *enc) { e.str("no code") }), {1, 2, 3}}[r.seq%3]
	case nrFault:
		a.Err, a.HasFault = []int64{-2147017661, 1, 5}[r.seq%3], r.seq&1 == 0
	case nrNoBody:
		a.Body = nil
	case nrCut:
		a.Body = body[:int(r.seq*7)%len(body)]
	case nrJunk:
		a.Body = object(func(e *enc) { e.guid(GUID{5}); e.bool(true); e.str("x") })
	case nrAction:
		a.Action = []string{"", "Other", "ClientOperationFailureX"}[r.seq%3]
	case nrSilent:
		return
	case nrDrop:
		r.answered, r.at = h.Seq(), int64(h.Now())
		x.peer.Close()
		return
	}
	r.answered, r.at = h.Seq(), int64(h.Now())
	if r.client != "" && action == "NotificationClientConnectionReply" && a.Err == 0 && a.Action != "ClientOperationFailure" {
		x.conns[r.client] = true
	}
	x.peer.Send(a)
	if r.mode == nrTwice {
		x.peer.Send(&RMsg{Actor: aNaming, Action: action, Rel: r.m.ID, Body: body})
	}
}

func (x *nclient) ack(t *nnote, m *RMsg) {
	var code int64
	err := decodeObject(m.Body, func(d *dec) { code = d.i64() })
	if err != nil {
		x.fail("ack", "acknowledgement %v with body %x: %v", m, m.Body, err)
	}
	if m.Err != 0 || code != 0 {
		t.nacks++
		return
	}
	if m.Action != "ServiceNotificationReply" {
		x.fail("ack", "the acknowledgement's action is %q", m.Action)
	}
	t.acks++
}

// sendNote sends the notifications of a step.
func (x *nclient) sendNote(s *Step) {
	h := x.h
	kind := s.n(1)
	for k := int64(0); k < s.n(2); k++ {
		a, b := s.n(3)+k*0x9e37, s.n(4)+k*5
		t := &nnote{kind: kind, m: &RMsg{Actor: aNaming, Action: "ServiceNotificationRequest", Expects: true}}
		no := len(x.notes)
		if kind == nkProper && a%16 == 3 && no > 0 && x.notes[no-1].want != nil {
			t.want = x.notes[no-1].want // the same again
		} else {
			t.want = note(no, a, b)
			if kind == nkProper && a%16 > 11 && no > 0 && x.notes[no-1].want != nil { // its next page
				last := x.notes[no-1].want.NotificationPageId
				t.want.NotificationPageId.NotificationId, t.want.NotificationPageId.PageIndex = last.NotificationId, last.PageIndex+1
			}
		}
		switch kind {
		case nkProper:
			t.m.Body = encNote(t.want, false, 0)
		case nkMore:
			t.m.Body = encNote(t.want, true, 0)
		case nkCut:
			full := encNote(t.want, false, 0)
			t.m.Body = full[:int(uint64(a)%uint64(len(full)))]
		case nkJunk:
			t.m.Body = s.Data
		case nkNull:
			t.m.Body = object(func(e *enc) { e.nilptr() })
			if a&1 == 0 {
				t.m.Body = object(func(e *enc) {})
			}
		case nkType:
			t.m.Body = encNote(t.want, false, 1+a%3)
		case nkOther:
			t.m.Body = encNote(t.want, false, 0)
			t.m.Action = []string{"ServiceNotification", "servicenotificationrequest", "ServiceNotificationReply", ""}[a%4]
		}
		if kind > nkMore {
			t.want = nil
		}
		t.m.ID = x.peer.NewID()
		switch a % 11 {
		case 1:
			t.m.ID = MsgID{x.peer.guid, 1<<31 + uint32(no)}
		case 2:
			t.m.ID = MsgID{GUID{15: byte(no + 1), 14: byte(no >> 8), 1: 1}, 0}
		}
		x.notes = append(x.notes, t)
		h.Hit(fmt.Sprintf("note %d", kind))
		if x.peer.Send(t.m) == nil {
			t.sent = true
		}
	}
}

func (x *nclient) handler(n *naming.ServiceNotification) {
	h := x.h
	x.got = append(x.got, n)
	x.running++
	defer func() { x.running-- }()
	switch h.Plan.p("handler") {
	case 1:
		h.Sleep(time.Duration(1+h.Rand(20)) * time.Second)
	case 2:
		<-x.stuck
	case 3:
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		x.n.Ping(ctx)
		cancel()
	}
}

// call makes the call of a step and waits for it.
func (x *nclient) call(s *Step, who, i int) {
	h := x.h
	c := &ncall{op: s.Op, s: s, tag: fmt.Sprintf("t%d.%d", who, i), ctx: context.Background(), from: h.Seq(), at: h.Now()}
	stop := func() {}
	if d := s.n(1); d >= 0 {
		var cancel func()
		if s.n(6)&1 == 0 {
			c.ctx, cancel = context.WithTimeout(c.ctx, us(d))
		} else {
			c.ctx, cancel = context.WithCancel(c.ctx)
			if d == 0 {
				cancel()
			} else {
				tm := time.AfterFunc(us(d), cancel)
				stop = func() { tm.Stop() }
			}
		}
		defer cancel()
	}
	x.calls = append(x.calls, c)
	c.t = h.Go(c.op+" "+c.tag, func() {
		switch c.op {
		case "ping":
			c.desc, c.err = x.n.Ping(c.ctx)
		case "apps":
			c.apps, c.err = x.n.GetApplicationList(c.ctx, c.tag)
		case "filter":
			c.id, c.err = x.n.RegisterFilter(c.ctx, tagUri(c.tag, s.n(7)), s.n(6)&1 != 0, s.n(6)&2 != 0)
		}
		c.end = h.Seq()
		stop()
	})
	if c.ctx.Done() == nil {
		h.Await(c.t, 10*time.Minute/time.Duration(1+len(h.Plan.Steps)/20)) // judged in the end
		return
	}
	h.Await(c.t, us(s.n(1))+h.Slack())
}

// judge decides about a call that ended.
func (x *nclient) judge(c *ncall) {
	// what the gateway was asked and answered on behalf of this call
	proper := func(r *nreq, modes ...int64) bool {
		if r.answered == 0 || r.answered > c.end || r.seq < c.from {
			return false
		}
		for _, m := range modes {
			if r.mode == m {
				return true
			}
		}
		return false
	}
	if c.err != nil {
		return
	}
	switch c.op {
	case "ping":
		if c.desc == nil {
			x.fail("content", "a ping returned neither a description nor an error")
		}
		for _, r := range x.reqs {
			if r.m.Action == "PingRequest" && !r.used && proper(r, nrProper, nrTwice, nrFewer, nrMore) && *c.desc == r.desc {
				r.used = true
				return
			}
		}
		x.fail("content", "a ping returned %+v, which no gateway answered to it properly", *c.desc)
	case "apps":
		var r *nreq
		for _, q := range x.reqs {
			if q.m.Action == "QueryRequest" && x.callOfQuery(q) == c && proper(q, nrProper, nrTwice, nrMore, nrFewer, nrAction) {
				r = q
			}
		}
		if r == nil {
			x.fail("content", "a query returned %d applications although the gateway did not answer it properly", len(c.apps))
		}
		want := int(c.s.n(5))
		if len(c.apps) != want {
			x.fail("content", "a query returned %d applications instead of %d", len(c.apps), want)
		}
		for i := range c.apps {
			if a := app(c.tag, i); !reflect.DeepEqual(a, c.apps[i]) {
				x.fail("content", "application %d is %+v instead of %+v", i, c.apps[i], a)
			}
		}
	case "filter":
		for _, r := range x.reqs {
			if r.m.Action != "RegisterServiceNotificationFilterRequest" || r.id != c.id || !proper(r, nrProper, nrTwice, nrFewer, nrMore, nrNoBody, nrCut, nrJunk, nrAction) {
				continue
			}
			if w := tagUri(c.tag, c.s.n(7)); !reflect.DeepEqual(w, r.name) || int64(r.flags) != c.s.n(6) {
				x.fail("filter", "filter %d was registered as %+v flags %x instead of %+v flags %x", c.id, r.name, r.flags, w, c.s.n(6))
			}
			if !x.conns[r.client] {
				x.fail("filter", "filter %d was registered for %q, for which no connection was requested successfully", c.id, r.client)
			}
			return
		}
		x.fail("filter", "RegisterFilter returned %d although no such registration was answered", c.id)
	}
}

func (x *nclient) callOfQuery(q *nreq) *ncall {
	var filter string
	decodeObject(q.m.Body, func(d *dec) {
		d.obj(func() {
			for n := d.objs(); n > 0; n-- {
				d.obj(func() { d.obj(func() { d.str() }); filter = d.str() })
			}
		})
	})
	return x.callOf(filter)
}

// willEnd is the time by which a call must have ended, -1 if nothing makes it end yet.
func (x *nclient) willEnd(c *ncall) time.Duration {
	h := x.h
	end := time.Duration(-1)
	min := func(t time.Duration) {
		if end < 0 || t < end {
			end = t
		}
	}
	if d := c.s.n(1); d >= 0 {
		min(c.at + us(d))
	}
	if t := x.down(); t >= 0 {
		min(max(t, c.at) + h.tlsClose() + h.netMax())
	}
	return end
}

func runNaming(h *H, notes bool) {
	n := 1
	for i := range h.Plan.Steps {
		n = max(n, 1+int(h.Plan.Steps[i].n(0)))
	}
	var xs []*nclient
	for i := 0; i < min(n, 2); i++ {
		x := &nclient{link: &link{h: h}, h: h, no: i, conns: map[string]bool{}, stuck: make(chan struct{})}
		x.start(nil, func(p *RawPeer) { p.OnMsg = x.request })
		if !x.ready() {
			h.Hit("not up")
			return
		}
		var err error
		if x.n, err = naming.NewNamingClient(x.cli); err != nil {
			h.Fail("new", "NewNamingClient: %v", err)
		}
		if h.Plan.p("handler") != 4 {
			x.n.OnServiceNotification = x.handler
		}
		xs = append(xs, x)
	}
	ts := tasksOf(h, func(int) bool { return true }, func(who, i int, s *Step) {
		x := xs[s.n(0)%int64(len(xs))]
		switch s.Op {
		case "note":
			x.sendNote(s)
		case "stray": // answers nobody waits for
			m := &RMsg{Actor: aNaming, Action: "PingRequest", Body: object(func(e *enc) { encGateway(e, naming.GatewayDescription{Address: "stray"}, false) })}
			switch s.n(1) {
			case 0:
				m.Rel = MsgID{GUID{9}, 9}
			case 1:
				m.Action = "ClientOperationFailure"
			case 2:
				for _, r := range x.reqs {
					if r.at != 0 && r.mode != nrDrop {
						m.Rel = r.m.ID
					}
				}
			}
			x.peer.Send(m)
		case "close":
			x.closed = true
			if s.n(1) == 0 {
				x.cli.Close()
			} else {
				x.peer.Close()
			}
		default:
			x.call(s, who, i)
		}
	})
	t := h.awaitAll(ts, 2*long)
	if t != nil && broken(h) { // the gateway may be stuck in a write
		for _, x := range xs {
			x.peer.Close()
		}
		t = h.awaitAll(ts, long)
	}
	if t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	grace := h.Slack() + h.netMax() + h.tlsClose() + time.Second
	h.Sleep(2*grace + 20*time.Second)
	for _, x := range xs {
		if notes {
			x.checkNotes()
		} else {
			x.checkCalls(false)
		}
	}
	for _, x := range xs {
		close(x.stuck)
		if broken(h) || h.Chance(1, 2) {
			x.cli.Close()
		} else {
			x.peer.Close()
		}
	}
	h.Sleep(2*grace + 20*time.Second)
	if notes {
		return
	}
	ids := map[string]bool{}
	for _, x := range xs {
		x.checkCalls(true)
		mine := map[string]bool{}
		for _, r := range x.reqs {
			if r.client != "" || r.id != 0 {
				mine[r.client] = true
			}
		}
		if len(mine) > 1 {
			x.fail("client", "it calls itself by %d names", len(mine))
		}
		for k := range mine {
			if k == "" || ids[k] {
				x.fail("client", "its name %q is empty or that of another client", k)
			}
			ids[k] = true
		}
	}
}

func (x *nclient) checkCalls(over bool) {
	h := x.h
	filters := map[uint64]bool{}
	for _, r := range x.reqs {
		if r.m.Action != "RegisterServiceNotificationFilterRequest" {
			continue
		}
		if filters[r.id] {
			x.fail("filter", "filter id %d was used for two registrations", r.id)
		}
		filters[r.id] = true
	}
	for _, r := range x.reqs {
		r.used = false
	}
	for _, c := range x.calls {
		if !c.t.Ended {
			if over {
				x.fail("waits", "%s still waits after the connection has gone down", c.t.Name)
			}
			if t := x.willEnd(c); t >= 0 && t+h.Slack() < h.Now() {
				x.fail("waits", "%s still waits at %v, it should have ended at %v", c.t.Name, h.Now(), t)
			}
			if x.down() < 0 && !broken(h) && x.answeredAll(c) {
				x.fail("waits", "%s still waits although the gateway has answered", c.t.Name)
			}
			continue
		}
		if t := x.willEnd(c); t >= 0 && !over && t+h.Slack() < c.t.At {
			x.fail("late", "%s ended at %v, it should have ended at %v", c.t.Name, c.t.At, t)
		}
		if !over {
			h.Count(map[bool]string{true: "calls ok", false: "calls failed"}[c.err == nil], 1)
		}
		x.judge(c)
		if c.err != nil && c.ctx.Done() == nil && x.down() < 0 && !broken(h) && !over && x.allProper(c) {
			x.fail("error", "%s failed with %v although the gateway answered properly", c.t.Name, c.err)
		}
	}
}

// answeredAll reports that nothing the gateway was asked since the call began remains unanswered.
func (x *nclient) answeredAll(c *ncall) bool {
	for _, r := range x.reqs {
		if r.seq > c.from && r.answered == 0 {
			return false
		}
	}
	return true
}

// allProper reports that every answer that may be to this call is a good one.
func (x *nclient) allProper(c *ncall) bool {
	for _, r := range x.reqs {
		if r.seq < c.from || r.seq > c.end {
			continue
		}
		switch r.mode {
		case nrProper, nrMore, nrTwice:
			continue
		}
		if r.m.Action == "QueryRequest" && x.callOfQuery(r) != c {
			continue
		}
		if r.m.Action == "RegisterServiceNotificationFilterRequest" && !strings.Contains(r.name.Path, c.tag) {
			continue
		}
		return false
	}
	return true
}

func (x *nclient) checkNotes() {
	h := x.h
	whole := x.down() < 0 && !broken(h)
	left := append([]*naming.ServiceNotification(nil), x.got...)
	for i, t := range x.notes {
		if t.kind == nkJunk && (t.acks > 0 || h.Plan.p("handler") == 4) {
			// may happen to be decodable
			if t.acks > 1 {
				x.fail("ack", "notification %d (%v) was acknowledged %d times", i, t.m.ID, t.acks)
			}
			continue
		}
		if t.want == nil {
			if t.acks != 0 {
				x.fail("ack", "notification %d (kind %d, %v) is not usable and was acknowledged as a success", i, t.kind, t.m.ID)
			}
			continue
		}
		if t.nacks != 0 {
			x.fail("ack", "notification %d (%v) was acknowledged as a failure", i, t.m.ID)
		}
		if t.acks > 1 || t.acks == 0 && whole {
			x.fail("ack", "notification %d (%v) was acknowledged %d times", i, t.m.ID, t.acks)
		}
		h.Count("acknowledged", int64(t.acks))
		if h.Plan.p("handler") == 4 {
			continue
		}
		found := -1
		for k, g := range left {
			if g != nil && reflect.DeepEqual(g, t.want) {
				found = k
				break
			}
		}
		if found < 0 {
			if whole || t.acks > 0 && x.closedBy() {
				x.fail("delivery", "notification %d (%v) was not delivered: %+v of %d delivered", i, t.m.ID, t.want, len(x.got))
			}
			continue
		}
		left[found] = left[len(left)-1]
		left = left[:len(left)-1]
		h.Count("delivered", 1)
	}
	junk := 0
	for _, t := range x.notes {
		if t.kind == nkJunk {
			junk++
		}
	}
	for _, g := range left {
		if g == nil {
			x.fail("delivery", "an empty notification was delivered")
		}
	}
	if len(left) > junk {
		x.fail("delivery", "%d notifications delivered which were not sent that often, as %+v", len(left), left[0])
	}
}

// closedBy reports that the connection went down without losing what had been acknowledged.
func (x *nclient) closedBy() bool { return true }
