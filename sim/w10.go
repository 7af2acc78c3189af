package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/tg123/phabrik/transport"
)

func init() {
	register("C10", &World{Name: "reject", Weight: 1, Gen: gen10, Run: run10})
}

const aSendTarget = int64(transport.MessageActorTypeTransportSendTarget)

var rejectTexts = []string{"", "no", "the certificate is not on the list", "zurückgewiesen 拒绝 \U0001F512", strings.Repeat("long ", 2000)}
var rejectCodes = []int64{1, 5, -1, -2147017627, 0x80071bd8, 1 << 50, -1 << 63}

// What peers say besides the rejection itself, none of which is one.
const (
	notSuccess   = iota // the answer of a successful authentication
	notActor            // another actor
	notAction           // another action
	notTransport        // a transport message that looks like one
	notReply            // a reply carrying an error code
	nNot
)

func gen10(g *Gen) {
	g.set("server", g.pick(0, 0, 1))
	genConf(g, 1, 4)
	wide(g)
	for w := 0; w < 1+g.IntN(4); w++ {
		for i := g.rep(6); i >= 0; i-- {
			g.step([]string{"send", "req", "reqrel", "ping", "hang", "hangping"}[g.IntN(6)], g.pick(0, g.delay()), w, g.pick(20, 300, 3000))
		}
	}
	for k := g.rep(4); k > 0; k-- {
		g.step("not", g.pick(0, g.delay()), 30, g.Int64N(nNot), g.Int64N(int64(len(rejectCodes))))
	}
	if !g.chance(1, 8) {
		for k := g.pick(1, 1, 2); k > 0; k-- {
			// code, text, body: 0 proper, 1 none, 2 junk, 3 the text and more; relates to: 0 nothing, 1 an outstanding request
			s := g.step("reject", g.pick(0, g.delay()), 30, g.Int64N(int64(len(rejectCodes))), g.Int64N(int64(len(rejectTexts))), g.pick(0, 0, 0, 1, 2, 3), g.pick(0, 1))
			if s.n(2) == 2 {
				s.Data = g.bytes(1 + g.IntN(40))
			}
		}
		if g.chance(1, 2) { // more right behind it
			g.step("tail", g.pick(0, g.delay()), 30, g.between(1, 4))
		}
	}
	if g.chance(1, 6) {
		g.step("close", g.delay(), 31)
	}
	for w := 40; w < 40+1+g.IntN(3); w++ { // after it
		for i := g.rep(3); i >= 0; i-- {
			g.step([]string{"send", "req", "ping"}[g.IntN(3)], g.pick(0, 0, g.delay()), w, g.pick(20, 3000))
		}
	}
}

func run10(h *H) {
	l := &link{h: h, server: h.Plan.p("server") == 1}
	seen := map[string]int{}
	tails := 0
	l.start(func(c transport.Conn, m *transport.ByteArrayMessage) {
		seen[m.Headers.Action]++
		if m.Headers.Action == "tail" {
			tails++
		}
	}, func(p *RawPeer) {
		p.OnMsg = func(m *RMsg) {
			if m.Action == "req" {
				go p.Reply(m, m.Body)
			}
			if m.Action == "reqrel" { // an answer that is an error of the callee's, not a rejection
				go p.Send(&RMsg{Actor: 5, Action: "reply", Rel: m.ID, Err: 7, Body: m.Body})
			}
		}
		p.OnBeat = func(m *RMsg) {
			if !h.Chance(1, 3) {
				p.Pong(m)
			}
		}
	})
	if !l.ready() {
		h.Fail("connect", "no connection comes about")
	}
	if !h.Until(long, func() bool { return l.peer.Init != nil }) {
		h.Fail("connect", "the peer never sees the connection set up")
	}
	bound := h.Slack() + h.netMax() + h.tlsClose()
	var first *Step
	rejected, closed := time.Duration(-1), time.Duration(-1)
	gone := func() bool { return rejected >= 0 || closed >= 0 }
	type open struct {
		*Task
		op string
	}
	var opens []*open
	do := func(ctx context.Context, op string, size int64) error {
		m := &transport.Message{Headers: transport.MessageHeaders{Actor: 5, Action: op}, Body: make([]byte, size)}
		switch op {
		case "send":
			return l.conn.SendOneWay(m)
		case "ping", "hangping":
			_, err := l.conn.Ping(ctx)
			return err
		}
		r, err := l.conn.RequestReply(ctx, m)
		if err == nil && len(r.Body) != int(size) {
			h.Fail("reply", "a request was answered with something else")
		}
		return err
	}
	closes := false
	for _, s := range h.Plan.Steps {
		closes = closes || s.Op == "close"
	}
	reason := func(op string, err error) {
		code, text := rejectCodes[first.n(0)], rejectTexts[first.n(1)]
		if !strings.Contains(err.Error(), fmt.Sprint(code)) && !strings.Contains(strings.ToLower(err.Error()), fmt.Sprintf("%x", uint64(code))) {
			h.Fail("reason", "the error %q of a %s does not carry the code %d of the rejection", err, op, code)
		}
		if (first.n(2) == 0 || first.n(2) == 3) && !strings.Contains(err.Error(), text) {
			h.Fail("reason", "the error %.200q of a %s does not carry the message %.100q of the rejection", err, op, text)
		}
		h.Count("refused", 1)
	}
	// a call right after one that failed because of the rejection
	again := func(op string, size int64) {
		err := do(context.Background(), op, size)
		if err == nil {
			h.Fail("success", "a %s on a rejected connection succeeded", op)
		}
		reason(op, err)
	}
	ts := tasksOf(h, func(w int) bool { return w < 40 }, func(who, i int, s *Step) {
		p := l.peer
		switch s.Op {
		case "hang", "hangping": // never answered
			if s.Op == "hangping" {
				s.Op = "ping"
			}
			o := &open{op: s.Op}
			o.Task = h.Go(s.Op, func() {
				if err := do(context.Background(), o.op, s.n(0)); err == nil && o.op == "hang" {
					h.Fail("success", "a request that was never answered succeeded")
				} else if err != nil && rejected >= 0 && !closes {
					again("send", s.n(0))
				}
			})
			opens = append(opens, o)
		case "send", "req", "reqrel":
			if gone() {
				return
			}
			var err error
			t := h.Go(s.Op, func() { err = do(context.Background(), s.Op, s.n(0)) })
			opens = append(opens, &open{t, s.Op})
			if !h.Await(t, 4*bound+time.Second) {
				if gone() {
					return // counted below
				}
				h.Fail("disturbed", "a %s on a connection that was not rejected does not end", s.Op)
			}
			if err != nil && !gone() {
				h.Fail("disturbed", "a %s on a connection that was not rejected failed: %v", s.Op, err)
			}
		case "ping":
			opens = append(opens, &open{h.Go("ping", func() { do(context.Background(), "ping", 0) }), "ping"})
		case "not":
			m := &RMsg{Actor: aSendTarget, Action: "ConnectionAuth", Err: rejectCodes[s.n(1)], Body: object(func(e *enc) { e.str("not a rejection") })}
			switch s.n(0) {
			case notSuccess:
				m.Err = 0
			case notActor:
				m.Actor = []int64{0, 5, 3, 28, 30, 1 << 40, -29}[h.Rand(7)]
			case notAction:
				m.Action = []string{"", "connectionauth", "ConnectionAuthX", "ConnectionAut"}[h.Rand(4)]
			case notTransport:
				m.Actor = aTransport
			case notReply:
				m.Actor, m.Action = 5, "notreply"
				m.Rel = MsgID{GUID{9}, 9}
			}
			h.Hit(fmt.Sprintf("not%d", s.n(0)))
			p.Send(m)
		case "reject":
			m := &RMsg{Actor: aSendTarget, Action: "ConnectionAuth", Err: rejectCodes[s.n(0)]}
			switch s.n(2) {
			case 0:
				m.Body = object(func(e *enc) { e.str(rejectTexts[s.n(1)]) })
			case 2:
				m.Body = s.Data
			case 3:
				m.Body = object(func(e *enc) { e.str(rejectTexts[s.n(1)]); e.u64(7); e.str("more") })
			}
			if s.n(3) == 1 {
				for _, g := range p.Got {
					if g.Action == "hang" {
						m.Rel = g.ID
					}
				}
			}
			if rejected < 0 {
				rejected, first = h.Now(), s
			}
			p.Send(m)
		case "tail":
			for k := int64(0); k < s.n(0); k++ {
				p.Send(&RMsg{Actor: 5, Action: "tail"})
				p.Beat(object(func(e *enc) { e.i64(k) }))
			}
		case "close":
			closed = h.Now()
			h.Go("close", func() { l.conn.Close() })
		}
	})
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	if !gone() {
		h.Sleep(4*bound + time.Second)
		if l.raw.closed || l.wait != nil && l.wait.Ended {
			h.Fail("disturbed", "the connection ended although nobody rejected it: %v", l.waitErr)
		}
		h.Hit("not rejected")
		var err error
		t := h.Go("probe", func() { err = do(context.Background(), "req", 30) })
		if !h.Await(t, 4*bound) || err != nil {
			h.Fail("disturbed", "after messages that are no rejection a request fails: %v", err)
		}
		return
	}
	if tails > 0 && closed < 0 {
		h.Fail("delivered", "messages behind the rejection were delivered")
	}
	if !h.Until(bound, func() bool { return l.raw.closed }) {
		h.Fail("open", "the rejected connection is still open after %v", bound)
	}
	if l.wait != nil && !h.Await(l.wait, bound) {
		h.Fail("wait", "the receive loop of a rejected connection does not end")
	}
	for _, o := range opens {
		if !h.Await(o.Task, bound) {
			h.Fail("waiting", "a %s still waits although the connection was rejected", o.op)
		}
	}
	h.Sleep(h.Slack())
	carry := closed < 0 // otherwise it may have been closed before the rejection was read
	if carry {
		h.Hit("rejected")
	}
	late := tasksOf(h, func(w int) bool { return w >= 40 }, func(who, i int, s *Step) {
		var err error
		ctx, cancel := context.WithCancel(context.Background())
		t := h.Go(s.Op, func() { err = do(ctx, s.Op, s.n(0)) })
		if !h.Await(t, bound) {
			h.Fail("waiting", "a %s on a rejected connection waits", s.Op)
		}
		cancel()
		if err == nil {
			h.Fail("success", "a %s on a rejected connection succeeded", s.Op)
		}
		if !carry {
			return
		}
		reason(s.Op, err)
	})
	if t := h.awaitAll(late, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	if carry && h.Chance(1, 2) {
		l.conn.Close() // the reason stays
		if err := do(context.Background(), "send", 20); err == nil || !strings.Contains(err.Error(), fmt.Sprint(rejectCodes[first.n(0)])) {
			h.Fail("reason", "after Close the error of a send is %v", err)
		}
	}
}
