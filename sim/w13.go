package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/tg123/phabrik/federation"
)

func init() {
	register("C13", &World{Name: "boot", MaxSpin: 20e6, Weight: 1, Gen: gen13, Run: run13})
	register("C16", &World{Name: "discover", MaxSpin: 20e6, Weight: 1, Gen: gen16, Run: run16})
}

// How a stub node behaves.
const (
	stUp      = iota // listens and answers
	stDown           // nobody listens
	stCut            // partitioned from the system
	stSilent         // accepts and never says a word
	stMute           // sets the connection up and does not answer
	stSlam           // accepts and closes
	stRestart        // resets its connections, goes on
	stStalled        // accepts and does not read
	nSt
)

// set changes the behaviour of a node.
func (x *fnode) set(st int64) {
	h := x.w.h
	host, was := host(x.info.addr), x.st
	x.hist = append(x.hist, fstate{h.Now(), st})
	x.st = st
	cut := func(on bool) {
		h.Net.Partition(x.w.host, host, on)
		if x.w.host != "10.0.0.1" {
			h.Net.Partition("10.0.0.1", host, on)
		}
	}
	if was == stCut && st != stCut {
		cut(false)
	}
	x.silent, x.mute, x.slam, x.stalled = false, false, false, false
	switch st {
	case stDown:
		x.down(h.Chance(1, 2))
		return
	case stCut:
		cut(true)
		return
	case stSilent:
		x.silent = true
	case stMute:
		x.mute = true
	case stSlam:
		x.down(h.Chance(1, 2))
		x.slam = true
	case stStalled:
		x.stalled = true
	case stRestart:
		x.down(true)
		x.info.inst++
	}
	x.up()
}

type fstate struct {
	at time.Duration
	st int64
}

const (
	pingGap  = 60 * time.Second
	dialHang = 22 * time.Second // of a dial into a partition
)

func gen13(g *Gen) {
	genFed(g)
	n := 1 + g.width(4, 40)
	g.ids(n + 2)
	g.set("seeds", int64(n))
	if g.chance(2, 3) {
		wide(g)
	}
	for i := 0; i < n+1; i++ {
		// state, phase, answers on its own connection, answers twice
		s := g.step("node", 0, 0, int64(i), g.pick(stUp, stUp, stDown, stDown, stCut, stSilent, stMute, stSlam, stStalled), g.pick(0, 0, 1, 2, 3, 4), g.pick(0, 0, 1), g.pick(0, 0, 0, 1))
		if g.chance(1, 4) { // knows the outsider
			s.N = append(s.N, 1)
		}
	}
	for w := 10; w < 10+n; w++ {
		for i := g.IntN(4); i > 0; i-- {
			if g.chance(1, 2) {
				g.step("state", g.between(0, 120e6), w, int64(w-10), g.pick(stUp, stUp, stUp, stDown, stCut, stSilent, stMute, stSlam, stRestart))
			} else {
				g.step("phase", g.pick(g.delay(), g.between(0, 120e6)), w, int64(w-10), g.phase())
			}
		}
	}
	for w := 30; w < 30+g.IntN(3); w++ { // others tell of somebody
		for i := g.IntN(3); i >= 0; i-- {
			g.step("tell", g.pick(0, g.delay(), g.between(0, 150e6)), w, g.pick(0, 1), int64(g.IntN(n+2)), g.pick(0, 1, 1, 2), g.phase())
		}
	}
	for w := 50; w < 51+g.IntN(2); w++ {
		for i := g.IntN(2); i >= 0; i-- {
			limit := int64(0)
			if g.chance(1, 3) {
				limit = g.pick(-1, g.delay()+1, g.between(1, 100e6), g.between(1, 100e6))
			}
			g.step("boot", g.pick(0, 0, g.delay(), g.between(0, 100e6)), w, limit)
		}
	}
	if g.chance(1, 5) {
		g.fault(g.IntN(4), g.IntN(2), "rst", g.between(0, 3000), 0)
	}
	g.set("after", g.between(0, 200e6))
}

// fping is an attempt to reach a node.
type fping struct {
	from, to time.Duration // to -1: still going on
}

// attempts lists the dials to and the pings got by a node.
func (x *fnode) attempts() (as []fping) {
	for _, d := range x.w.dials {
		if d.addr == x.info.addr {
			as = append(as, fping{d.at, d.done})
		}
	}
	for _, at := range x.pings {
		as = append(as, fping{at, at})
	}
	return
}

// heard tells whether a routing node has surely been heard of, since when, and
// whether it may have been.
func (w *fworld) heard() (sure time.Duration, maybe bool) {
	sure = -1
	for _, t := range w.routes {
		maybe = true
		at := t.took()
		if at < 0 {
			continue
		}
		if w.newest[t.f.id].newer(t.f) {
			at = -1
		}
		if at >= 0 && (sure < 0 || at < sure) {
			sure = at
		}
	}
	return
}

func run13(h *H) {
	w := newFworld(h)
	n := int(h.Plan.p("seeds"))
	var seeds []finfo
	for i := 0; i < n+1; i++ {
		x := w.stub(h.Plan.nodeInfo(i, 1, 0, 0))
		if i < n {
			seeds = append(seeds, x.info)
		}
	}
	bound := h.Slack() + 2*h.netMax()
	bt := bound + h.tlsClose()
	type boot struct {
		*Task
		at, limit time.Duration
		err       error
		ctx       context.Context
	}
	var boots []*boot
	outsider := func() finfo { return h.Plan.nodeInfo(n+1, 1, phRouting, 0) }
	for i := range h.Plan.Steps {
		if s := &h.Plan.Steps[i]; s.Op == "node" && int(s.n(0)) < len(w.list) {
			x := w.list[s.n(0)]
			x.info.phase = s.n(2)
			x.viaOwn, x.twice = s.n(3) == 1, s.n(4) == 1
			if s.n(5) == 1 {
				x.knows = func() []finfo { return []finfo{outsider()} }
			}
			x.set(s.n(1))
		}
	}
	for _, x := range w.list {
		if x.lis == nil && x.st == stUp && x.hist == nil {
			x.set(stUp)
		}
	}
	w.start(seeds)
	bootOne := func(limit int64) *boot {
		b := &boot{at: h.Now(), limit: us(limit)}
		var cancel func()
		b.ctx, cancel = fctx(limit)
		boots = append(boots, b)
		b.Task = h.Go("boot", func() {
			b.err = w.node.Bootstrap(b.ctx)
			_, maybe := w.heard()
			switch {
			case b.err == nil && !maybe:
				h.Fail("early", "Bootstrap succeeds although no node in the routing phase has been heard of")
			case b.err != nil && b.ctx.Err() == nil:
				h.Fail("error", "Bootstrap fails before its context is done: %v", b.err)
			case b.err != nil && !errors.Is(b.err, b.ctx.Err()):
				h.Fail("error", "Bootstrap fails with %v, its context with %v", b.err, b.ctx.Err())
			}
			if d, ok := b.ctx.Deadline(); ok && b.err != nil && time.Until(d) < -bound {
				h.Fail("late", "Bootstrap ends %v after its context", -time.Until(d))
			}
			cancel()
		})
		return b
	}
	// routing nodes that were heard of must end all boots
	prompt := func(what string) {
		sure, _ := w.heard()
		for _, b := range boots {
			if b.limit < 0 && h.Now() > b.at+bound && !b.Ended {
				h.Fail("late", "%s: Bootstrap waits although its context was done before", what)
			}
			if b.limit > 0 && h.Now() > b.at+b.limit+bound && !b.Ended {
				h.Fail("late", "%s: Bootstrap waits although its context is done", what)
			}
			if sure >= 0 && !b.Ended && h.Now() > max(sure, b.at)+bound+time.Second {
				h.Fail("waits", "%s: Bootstrap waits although a routing node was heard of %v ago", what, h.Now()-sure)
			}
		}
		if w.bad != "" {
			h.Fail("message", "%s", w.bad)
		}
	}
	do := func(who, i int, s *Step) {
		prompt("meanwhile")
		switch s.Op {
		case "state":
			w.list[s.n(0)].set(s.n(1))
		case "phase":
			x := w.list[s.n(0)]
			if s.n(1) < x.info.phase {
				x.info.inst++
			}
			x.info.phase = s.n(1)
		case "boot":
			b := bootOne(s.n(0))
			if h.Chance(1, 2) {
				h.Await(b.Task, us(h.Plan.p("after")))
			}
		case "tell":
			f := h.Plan.nodeInfo(int(s.n(1)), uint64(s.n(2)), s.n(3), 0)
			m := func() *RMsg { return &RMsg{Actor: aFederation, Action: "VotePingReply"} }
			if x := w.list[who%len(w.list)]; s.n(0) == 0 {
				if x.st == stUp {
					x.tell(m(), []finfo{f})
				}
			} else if p := w.dialIn("10.5.0.1"); p != nil {
				w.send(p, m(), []finfo{f})
			}
			h.Hit("told by others")
		}
	}
	if t := h.awaitAll(tasksOf(h, func(int) bool { return true }, do), long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	h.Sleep(us(h.Plan.p("after")))
	prompt("after the changes")
	// pings come at least once a minute while nothing is heard of
	gaps := func() {
		for _, x := range w.list[:n] {
			as := x.attempts()
			for _, b := range boots {
				end := h.Now()
				if b.Ended {
					end = b.At
				}
				if b.limit > 0 {
					end = min(end, b.at+b.limit)
				}
				for k, st := range x.hist {
					from, to := max(b.at, st.at), end
					if k+1 < len(x.hist) {
						to = min(to, x.hist[k+1].at)
					}
					stuck := false // an earlier attempt may still hang
					for _, o := range x.hist[:k+1] {
						stuck = stuck || o.st == stCut || o.st == stStalled || o.st == stSilent && w.sc.TLS != nil
					}
					if stuck || to < from {
						continue
					}
					for at := from; at+pingGap+bt < to; {
						next := time.Duration(-1)
						for _, a := range as {
							if a.from <= at && (a.to < 0 || a.to > at) { // under way
								if w.cc.TLS != nil || h.Plan.p("dialer") == 1 {
									continue // its end is not known
								}
								next = max(next, a.to)
							} else if a.from > at && (next < 0 || a.from < next) {
								next = a.from
							}
						}
						if next < 0 || next > at+pingGap+bt {
							h.Fail("silence", "no attempt to reach the seed %v between %v and %v while Bootstrap runs since %v (its state is %d since %v)", x.info.id, at, min(to, at+pingGap+bt), b.at, st.st, st.at)
						}
						h.Count("ping gaps checked", 1)
						at = max(next, at+1)
					}
				}
			}
		}
	}
	gaps()
	// once a seed answers and is in the routing phase
	sure, _ := w.heard()
	open := 0
	for _, b := range boots {
		if !b.Ended {
			open++
		}
	}
	if sure < 0 && open == 0 && h.Chance(1, 2) {
		bootOne(0)
		h.Sleep(us(h.Plan.p("after")) / 2)
		open++
	}
	var x *fnode
	for k := h.Rand(n); x == nil && k < 2*n; k++ {
		y := w.list[k%n]
		bad := len(h.Plan.Faults) > 0
		for _, o := range y.hist { // that never has a connection which will stay mute
			bad = bad || o.st == stStalled || o.st == stSilent
		}
		if !bad {
			x = y
		}
	}
	if x != nil && open > 0 {
		if x.info.phase != phRouting {
			x.info.inst++
			x.info.phase = phRouting
		}
		for _, t := range w.told { // nobody has told of a later one
			if t.f.id == x.info.id && (t.f.newer(x.info) || t.f.inst == x.info.inst) {
				x.info.inst = t.f.inst + 1
			}
		}
		if x.st != stUp {
			x.set(stUp)
		}
		h.Log("%v is up and routing", x.info)
		for _, b := range boots {
			if !b.Ended && !h.Await(b.Task, pingGap+dialHang+4*bt+time.Second) {
				h.Fail("stuck", "Bootstrap does not end although the seed %v answers and is in the routing phase", x.info.id)
			}
		}
		h.Hit("a routing seed came up")
	}
	sure, _ = w.heard()
	if sure >= 0 {
		h.Sleep(bound)
		prompt("in the end")
		b := bootOne(h.Plan.p("after"))
		if !h.Await(b.Task, bound+time.Second) {
			h.Fail("waits", "Bootstrap after a routing node was heard of waits")
		}
		if h.Plan.p("after") > 0 && us(h.Plan.p("after")) > bound && b.err != nil {
			h.Fail("error", "Bootstrap after a routing node was heard of: %v", b.err)
		}
		h.Hit("succeeds")
	}
	gaps()
	if w.bad != "" {
		h.Fail("message", "%s", w.bad)
	}
	h.Count("bootstraps", int64(len(boots)))
	h.Count("pings", int64(len(w.all)))
}

func gen16(g *Gen) {
	genFed(g)
	n := 1 + g.width(9, 40)
	g.ids(n + 3)
	g.set("seeds", int64(1+g.IntN(min(3, n))))
	if g.chance(3, 4) {
		wide(g)
	}
	if g.chance(1, 2) { // an easy network
		g.set("net.lat", g.pick(0, 0, 1))
		g.P.Sched.Stalls = 0
	}
	chain := n > 12 && g.chance(1, 2)
	drops := g.pick(0, 0, 1, 2, 3) // in all: there are six rounds without news
	if g.calm {
		drops = 0
	}
	for i := 0; i < n; i++ {
		d := g.pick(0, 0, 0, 1, 2)
		if d > drops {
			d = 0
		}
		drops -= d
		// state, phase, own connection, twice, pings it leaves unanswered first, delay of answers
		s := g.step("node", 0, 0, int64(i), g.pick(stUp, stUp, stUp, stUp, stUp, stDown, stCut, stSilent, stMute, stSlam), g.phase(), g.pick(0, 0, 0, 1), g.pick(0, 0, 0, 1), d, g.pick(0, 0, 0, g.between(0, 500e3)))
		if g.calm {
			s.N[1], s.N[6] = stUp, 0
		}
		if i+1 < n && (chain || g.chance(1, 2)) {
			s.N = append(s.N, int64(i+1))
		}
		for k := g.IntN(4); k > 0; k-- {
			j := int64(g.IntN(n + 3))
			if g.chance(1, 20) {
				j = -1
			}
			s.N = append(s.N, j)
		}
	}
	for k := g.IntN(3); k > 0; k-- { // told beforehand or meanwhile
		g.step("tell", g.pick(0, g.delay(), g.between(0, 5e6)), 20+k, int64(g.IntN(n+3)), g.pick(0, 1, 2), g.phase())
	}
	for k := g.IntN(3); k > 0; k-- {
		g.step("state", g.pick(g.between(0, 8e6), g.between(0, 3e6)), 10, int64(g.IntN(n)), g.pick(stUp, stUp, stDown, stRestart, stMute))
	}
	for w := 50; w < 51+g.IntN(2); w++ {
		limit := int64(0)
		if g.chance(1, 4) {
			limit = g.pick(-1, g.delay()+1, g.between(1, 12e6))
		}
		g.step("discover", g.pick(0, 0, g.delay()), w, limit)
	}
	if g.chance(1, 4) {
		g.step("boot", g.delay(), 60, g.between(1, 20e6))
	}
}

func run16(h *H) {
	w := newFworld(h)
	ns := int(h.Plan.p("seeds"))
	n := int(h.Plan.p("n")) - 3
	var seeds []finfo
	for i := 0; i < n; i++ {
		x := w.stub(h.Plan.nodeInfo(i, 1, 0, 0))
		if i < ns {
			seeds = append(seeds, x.info)
		}
	}
	bound := h.Slack() + 2*h.netMax()
	edges := map[int][]int{}
	drop := map[int]int64{}
	slow := map[int]time.Duration{}
	late := time.Duration(0)
	drops := int64(0) // pings left unanswered: rounds without news before the last node is found
	steady := map[int]bool{}
	for i := range h.Plan.Steps {
		s := &h.Plan.Steps[i]
		if s.Op != "node" || int(s.n(0)) >= len(w.list) {
			continue
		}
		i := int(s.n(0))
		x := w.list[i]
		x.info.phase = s.n(2)
		x.viaOwn, x.twice = s.n(3) == 1, s.n(4) == 1
		drop[i], slow[i] = s.n(5), us(s.n(6))
		late = max(late, slow[i])
		drops += drop[i]
		for _, j := range s.N[min(7, len(s.N)):] {
			edges[i] = append(edges[i], int(j))
		}
		x.knows = func() (fs []finfo) {
			for _, j := range edges[i] {
				if j >= 0 && j < n {
					fs = append(fs, w.list[j].info)
				} else {
					fs = append(fs, h.Plan.nodeInfo(j, 3, 1, 0))
				}
			}
			seen := map[NodeID]bool{x.info.id: true}
			k := 0
			for _, f := range fs {
				if !seen[f.id] {
					fs[k] = f
					k++
				}
				seen[f.id] = true
			}
			return fs[:k]
		}
		x.reply = func(r *fmsg) {
			if drop[i] > 0 {
				drop[i]--
				return
			}
			if !x.mute && !x.silent {
				h.Go("answer", func() {
					h.Sleep(slow[i])
					x.answer(r)
				})
			}
		}
		x.set(s.n(1))
		steady[i] = s.n(1) == stUp
	}
	for i, x := range w.list {
		if x.hist == nil {
			x.set(stUp)
			steady[i] = true
		}
	}
	for _, s := range h.Plan.Steps {
		if s.Op == "state" {
			steady[int(s.n(0))] = false
		}
	}
	w.start(seeds)
	type disc struct {
		*Task
		at, limit time.Duration
		got       []federation.PartnerNodeInfo
		err       error
		known     map[NodeID]finfo
		must      map[NodeID]finfo
		may       map[NodeID][]finfo
	}
	var discs []*disc
	discover := func(limit int64) *disc {
		d := &disc{at: h.Now(), limit: us(limit)}
		ctx, cancel := fctx(limit)
		discs = append(discs, d)
		d.Task = h.Go("discover", func() {
			d.got, d.err = w.node.Discover(ctx)
			if d.err != nil && ctx.Err() == nil {
				h.Fail("error", "Discover fails: %v", d.err)
			}
			if d.err != nil && !errors.Is(d.err, ctx.Err()) {
				h.Fail("error", "Discover fails with %v, its context with %v", d.err, ctx.Err())
			}
			if dl, ok := ctx.Deadline(); ok && d.err != nil && time.Until(dl) < -bound {
				h.Fail("late", "Discover ends %v after its context", -time.Until(dl))
			}
			d.must, d.may = w.best(h.Now() - h.Slack())
			cancel()
		})
		return d
	}
	do := func(who, i int, s *Step) {
		switch s.Op {
		case "discover":
			discover(s.n(0))
		case "tell":
			if p := w.dialIn("10.5.0.1"); p != nil {
				w.send(p, &RMsg{Actor: aFederation, Action: "x"}, []finfo{h.Plan.nodeInfo(int(s.n(0)), uint64(s.n(1)), s.n(2), 0)})
			}
		case "state":
			w.list[s.n(0)].set(s.n(1))
		case "boot":
			ctx, cancel := fctx(s.n(0))
			w.node.Bootstrap(ctx)
			cancel()
		}
	}
	ts := tasksOf(h, func(int) bool { return true }, do)
	if t := h.awaitAll(ts, long); t != nil {
		h.Fail("stuck", "%s does not end", t.Name)
	}
	if len(discs) == 0 {
		discover(0)
	}
	easy := h.Plan.Sched.Stalls == 0 && h.netMax()+late < 600*time.Millisecond
	for _, d := range discs {
		limit := 6*time.Second*time.Duration(8+3*n+8) + bound
		if d.limit > 0 {
			limit = min(limit, d.limit+bound)
		} else if d.limit < 0 {
			limit = bound
		}
		if !h.Await(d.Task, limit-(h.Now()-d.at)+time.Millisecond) {
			h.Fail("stuck", "Discover has run for %v", h.Now()-d.at)
		}
		if w.bad != "" {
			h.Fail("message", "%s", w.bad)
		}
		if d.err != nil {
			h.Hit("ended by its context")
			continue
		}
		got := map[NodeID]finfo{}
		for _, p := range d.got {
			f := wireInfo(p)
			if _, ok := got[f.id]; ok {
				h.Fail("twice", "Discover returns %v twice", f.id)
			}
			got[f.id] = f
		}
		for _, s := range seeds {
			if _, ok := got[s.id]; !ok {
				h.Fail("missing", "Discover does not return the seed %v", s.id)
			}
		}
		for _, f := range got {
			ok := false
			for _, s := range seeds {
				ok = ok || s.id == f.id && f == finfo{id: s.id, addr: s.addr}
			}
			for _, o := range d.may[f.id] {
				ok = ok || o == f
			}
			if !ok {
				h.Fail("invented", "Discover returns %+v, which nobody has said", f)
			}
		}
		for i := 0; i < n+3; i++ {
			m, ok := d.must[h.Plan.id(i)]
			f, has := got[h.Plan.id(i)]
			if ok && !has {
				h.Fail("missing", "Discover does not return %v, which it was told of", m)
			}
			if ok && m.newer(f) {
				h.Fail("stale", "Discover returns %v, but was told %v", f, m)
			}
		}
		// what nodes that answer tell of
		if easy {
			seen := map[int]bool{}
			var visit func(i int)
			visit = func(i int) {
				if seen[i] || i < 0 {
					return
				}
				seen[i] = true
				if _, ok := got[h.Plan.id(i)]; !ok {
					h.Fail("missing", "Discover does not return %v, which a node that answers tells of", h.Plan.id(i))
				}
				if i >= n || !steady[i] {
					return
				}
				h.Count("answering nodes reached", 1)
				for _, j := range edges[i] {
					visit(j)
				}
			}
			for i := range seeds {
				visit(i)
			}
			for i := range w.list { // all that can be reached are pinged in every round
				if !seen[i] || !steady[i] {
					continue
				}
				k := 0
				for _, at := range w.list[i].pings {
					if at >= d.at && at <= d.At {
						k++
					}
				}
				if int64(k) < 6-drops {
					h.Fail("pings", "Discover has pinged %v only %d times in %v", h.Plan.id(i), k, d.At-d.at)
				}
			}
			// and those that come up meanwhile
			for i, x := range w.list {
				from := max(d.at, x.hist[len(x.hist)-1].at)
				if x.st != stUp || steady[i] {
					continue
				}
				stuck := false
				for _, o := range x.hist {
					stuck = stuck || o.st == stCut || o.st == stSilent
				}
				heard := time.Duration(-1)
				if i < ns {
					heard = 0
				}
				for _, t := range w.told {
					if at := t.took(); t.f.id == x.info.id && at >= 0 && (heard < 0 || at < heard) {
						heard = at
					}
				}
				from = max(from, heard)
				round := time.Second
				for _, o := range w.list {
					for _, st := range o.hist {
						if st.st == stCut || st.st == stStalled || st.st == stSilent {
							round = 6 * time.Second
						}
					}
				}
				if heard < 0 || stuck || d.At < from+3*round+bound {
					continue
				}
				k := 0
				for _, at := range x.pings {
					if at >= from && at <= d.At {
						k++
					}
				}
				if k == 0 {
					h.Fail("pings", "Discover does not ping %v between %v and %v", x.info.id, from, d.At)
				}
				h.Hit("node that came up is pinged")
			}
			h.Hit("closure checked")
		}
	}
	if w.bad != "" {
		h.Fail("message", "%s", w.bad)
	}
	h.Count("discovers", int64(len(discs)))
	h.Count("pings", int64(len(w.all)))
	_ = fmt.Sprint
}
