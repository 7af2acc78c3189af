package main

import (
	"fmt"
	"math/rand/v2"
	"time"

	"github.com/tg123/phabrik/transport"
)

// genConf draws a transport configuration both sides agree on.
func genConf(g *Gen, tlsNum, tlsDen int) {
	if g.chance(tlsNum, tlsDen) {
		g.set("tls", g.between(1, 4))
		g.set("cache", g.pick(0, 0, 1))
	}
	g.set("nohgen", g.pick(0, 0, 0, 1))
	if g.P.p("nohgen") == 1 {
		g.set("nohchk", 1)
	} else {
		g.set("nohchk", g.pick(0, 0, 0, 1))
	}
	g.set("bgen", g.pick(0, 1))
	if g.P.p("bgen") == 1 {
		g.set("bchk", g.pick(0, 1))
	}
}

// confs returns the configurations of the server and the client side of a plan.
func confs(p *Plan) (srv, cli transport.Config) {
	c := transport.Config{
		DisableGenerateFrameHeaderCRC: p.p("nohgen") == 1,
		DisableCheckFrameHeaderCRC:    p.p("nohchk") == 1,
		GenerateFrameBodyCRC:          p.p("bgen") == 1,
		CheckFrameBodyCRC:             p.p("bchk") == 1,
	}
	srv, cli = c, c
	srv.TLS, cli.TLS = tlsPair(p.p("tls"), p.p("cache") == 1)
	return
}

// sent is a message given to the system under test.
type sent struct {
	key    string
	who, i int
	msg    *transport.Message
	exp    *RMsg // without the id
	refuse bool  // cannot be represented
	begun  bool
	done   bool
	err    error
	got    []*RMsg
}

func (s *sent) expect() *RMsg {
	e := *s.exp
	if s.msg != nil {
		e.ID = wireID(s.msg.Headers.Id)
	}
	return &e
}

var actors = []int64{5, 2, 3, 0, 0x10000, 29, 56, -3, 1 << 40}

type structBody struct {
	Key  string
	N    uint64
	Neg  int32
	Flag bool
	List []string
}

// makeMsg builds message i of a task: st picks its shape, size the body's length.
func makeMsg(who, i int, st int64, size int) *sent {
	r := rand.New(rand.NewPCG(uint64(st), uint64(who)<<32|uint64(i)))
	s := &sent{who: who, i: i, key: key(body(fmt.Sprintf("t%d", who), i, 0))}
	m := &transport.Message{}
	e := &RMsg{}
	e.Actor = actors[r.IntN(len(actors))]
	e.Action = s.key
	switch r.IntN(4) {
	case 0:
		e.Action += "é\U0001F600日本"
	case 1:
		e.Action = "" // the key is in the body then
	}
	if r.IntN(3) == 0 {
		e.HighPri = r.IntN(2) == 0
		e.Idem = r.IntN(2) == 0
		e.Expects = r.IntN(2) == 0
		e.HasFault = r.IntN(2) == 0
		e.Err = []int64{0, 1, -1, -2147017627, 1 << 50}[r.IntN(5)]
		e.Retry = []int32{0, 1, 77, 1<<31 - 1}[r.IntN(4)]
	}
	if r.IntN(6) == 0 {
		e.Rel = MsgID{GUID{1, 2, 3, byte(r.IntN(256))}, uint32(1 + r.IntN(1000))}
	}
	switch {
	case r.IntN(5) == 0:
		b := &structBody{Key: s.key, N: r.Uint64() >> r.IntN(64), Neg: -int32(r.IntN(100000)), Flag: r.IntN(2) == 0}
		for k := r.IntN(4); k > 0; k-- {
			b.List = append(b.List, fmt.Sprint("item", k))
		}
		m.Body = b
		e.Body = object(func(e *enc) {
			e.str(b.Key)
			e.u64(b.N)
			e.i32(b.Neg)
			e.bool(b.Flag)
			if e.refs(len(b.List)) {
				for _, x := range b.List {
					e.str(x)
				}
			}
		})
		if e.Action == "" {
			e.Action = s.key
		}
	case size == 0:
		if e.Action == "" {
			e.Action = s.key
		}
		if r.IntN(2) == 0 {
			m.Body = []byte{}
		}
	default:
		b := body(fmt.Sprintf("t%d", who), i, size)
		m.Body = b
		e.Body = append([]byte(nil), b...)
	}
	// custom headers
	total := 400
	for k := r.IntN(4); k > 0; k-- {
		id := customIDs[r.IntN(len(customIDs))]
		n := []int{0, 1, 10, 200, 3000}[r.IntN(5)]
		if r.IntN(40) == 0 {
			n = []int{65535, 65536, 70000, 30000, 60000}[r.IntN(5)]
		}
		hb := make([]byte, n)
		for j := range hb {
			hb[j] = byte(r.Uint32())
		}
		var hv any = hb
		enc0 := hb
		if r.IntN(3) == 0 {
			v := &struct{ A, B uint64 }{r.Uint64(), uint64(i)}
			hv = v
			enc0 = object(func(e *enc) { e.u64(v.A); e.u64(v.B) })
		}
		ok := false
		if r.IntN(2) == 0 {
			ok = m.Headers.SetCustomHeader(transport.MessageHeaderIdType(id), hv)
		} else {
			ok = m.Headers.AppendCustomHeader(transport.MessageHeaderIdType(id), hv)
		}
		if ok {
			e.Custom = append(e.Custom, hdrTLV{id, enc0})
			total += 4 + len(enc0)
			if len(enc0) > 65535 {
				s.refuse = true
			}
		}
	}
	m.Headers.Actor = transport.MessageActorType(e.Actor)
	m.Headers.Action = e.Action
	m.Headers.HighPriority = e.HighPri
	m.Headers.Idempotent = e.Idem
	m.Headers.ExpectsReply = e.Expects
	m.Headers.HasFaultBody = e.HasFault
	m.Headers.ErrorCode = transport.FabricErrorCode(e.Err)
	m.Headers.RetryCount = e.Retry
	m.Headers.RelatesTo = goID(e.Rel)
	e.ID = MsgID{GUID{1}, 1}
	if len(e.encodeHeaders()) > 65535 {
		s.refuse = true
	}
	s.msg, s.exp = m, e
	return s
}

func msgKey(m *RMsg) string {
	if len(m.Action) >= 12 && m.Action[11] == '|' {
		return m.Action[:12]
	}
	if len(m.Body) >= 12 && m.Body[11] == '|' {
		return key(m.Body)
	}
	return ""
}

// history of what was sent in one direction and what arrived.
type history struct {
	h     *H
	name  string
	sent  map[string]*sent
	order []string // keys in order of delivery (sequential receivers)
	all   []*sent
}

func newHistory(h *H, name string) *history {
	return &history{h: h, name: name, sent: map[string]*sent{}}
}

func (y *history) add(s *sent) {
	y.sent[s.key] = s
	y.all = append(y.all, s)
}

// deliver records an arrival.
func (y *history) deliver(m *RMsg) *sent {
	k := msgKey(m)
	s := y.sent[k]
	if s == nil || !s.begun {
		y.h.Fail("invented", "%s: a message that was never sent was delivered: %v", y.name, m)
	}
	s.got = append(s.got, m)
	if len(s.got) > 1 {
		y.h.Fail("duplicate", "%s: message %s was delivered twice", y.name, k)
	}
	if s.refuse && s.done && s.err != nil {
		y.h.Fail("refused-but-sent", "%s: message %s was refused and yet delivered", y.name, k)
	}
	y.order = append(y.order, k)
	return s
}

// pending counts messages sent successfully and not yet delivered.
func (y *history) pending() int {
	n := 0
	for _, s := range y.all {
		if s.done && s.err == nil && len(s.got) == 0 {
			n++
		}
	}
	return n
}

// check compares contents.
func (y *history) check() {
	ids := map[MsgID]string{}
	for _, s := range y.all {
		if s.begun && s.msg != nil && s.done {
			id := wireID(s.msg.Headers.Id)
			if o := ids[id]; o != "" && !id.empty() {
				y.h.Fail("id-reused", "%s: messages %s and %s have the same id %v", y.name, o, s.key, id)
			}
			ids[id] = s.key
		}
		for _, m := range s.got {
			if d := sameMsg(s.expect(), m, true); d != "" {
				y.h.Fail("altered", "%s: message %s arrived altered: %s", y.name, s.key, d)
			}
		}
		if s.refuse && s.done && s.err == nil && len(s.got) == 0 {
			y.h.Fail("unrepresentable", "%s: message %s cannot be represented, was accepted and never arrived", y.name, s.key)
		}
	}
}

// inOrder checks that messages of one task arrive in the order they were sent.
func (y *history) inOrder(keys []string, where string) {
	last := map[int]int{}
	for _, k := range keys {
		s := y.sent[k]
		if s == nil {
			continue
		}
		if l, ok := last[s.who]; ok && s.i < l {
			y.h.Fail("order", "%s: %s: message %d of task %d came after message %d", y.name, where, s.i, s.who, l)
		}
		last[s.who] = s.i
	}
}

// tasksOf runs the plan's steps, one goroutine per Who, and returns them.
func tasksOf(h *H, want func(who int) bool, do func(who, i int, s *Step)) []*Task {
	var whos []int
	by := map[int][]int{}
	for i := range h.Plan.Steps {
		w := h.Plan.Steps[i].Who
		if !want(w) {
			continue
		}
		if by[w] == nil {
			whos = append(whos, w)
		}
		by[w] = append(by[w], i)
	}
	var ts []*Task
	for _, w := range whos {
		ts = append(ts, h.Go(fmt.Sprintf("task%d", w), func() {
			for _, i := range by[w] {
				s := &h.Plan.Steps[i]
				if s.D > 0 {
					time.Sleep(time.Duration(s.D) * time.Microsecond)
				}
				do(w, i, s)
			}
		}))
	}
	return ts
}

// awaitAll waits for tasks; false if one is still running at the end.
func (h *H) awaitAll(ts []*Task, d time.Duration) *Task {
	end := h.Now() + d
	for _, t := range ts {
		if !h.Await(t, max(0, end-h.Now())) {
			return t
		}
	}
	return nil
}

func sizeDist(g *Gen, small bool) int64 {
	switch g.IntN(12) {
	case 0:
		return 0
	case 1, 2, 3, 4, 5, 6:
		return g.between(12, 200)
	case 7, 8, 9:
		return g.between(200, 4000)
	default:
		if small {
			return g.between(1000, 6000)
		}
		if g.IntN(300) == 0 {
			return g.pick(g.between(1<<20, 3<<20), g.between(1<<20, 6<<20), g.between(1<<24, 1<<24+1000), g.between(16<<20, 34<<20))
		}
		if g.IntN(8) == 0 {
			return g.between(100000, 400000)
		}
		return g.between(4000, 70000)
	}
}

// smallNet reports whether the network of this plan is slow enough that big bodies would take for ever.
func smallNet(g *Gen) bool { return g.P.p("net.buf") < 65536 }
