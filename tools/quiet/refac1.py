import re
base='/tmp/mut/'
def edit(p,*rs):
    s=open(base+p).read()
    for a,b in rs:
        assert s.count(a)==1,(p,s.count(a),a)
        s=s.replace(a,b)
    open(base+p,'w').write(s)
open(base+'transport/requesttable.go','w').write('''package transport

import (
	"context"
	"errors"
	"sync"
)

// RequestTable keeps the requests that wait for a reply.
type RequestTable struct {
	mu      sync.Mutex
	waiting map[MessageId]*PendingRequest
	closed  bool
}

type PendingRequest struct {
	parent *RequestTable
	id     MessageId
	reply  *ByteArrayMessage
	done   chan struct{}
}

var errCancelled = errors.New("operation cancelled")

// take removes and returns the request waiting under id.
func (r *RequestTable) take(id MessageId) *PendingRequest {
	r.mu.Lock()
	defer r.mu.Unlock()
	p := r.waiting[id]
	delete(r.waiting, id)
	return p
}

func (r *PendingRequest) finish(reply *ByteArrayMessage) {
	r.reply = reply
	close(r.done)
}

func (r *PendingRequest) Close() error {
	r.parent.mu.Lock()
	mine := r.parent.waiting[r.id]
	if mine != nil {
		delete(r.parent.waiting, r.id)
	}
	r.parent.mu.Unlock()
	if mine != nil {
		mine.finish(nil)
	}
	return nil
}

func (r *PendingRequest) Wait(ctx context.Context) (reply *ByteArrayMessage, err error) {
	defer r.Close()
	select {
	case <-r.done:
		if reply = r.reply; reply == nil {
			err = errCancelled
		}
	case <-ctx.Done():
		err = ctx.Err()
	}
	return
}

func (r *RequestTable) Close() error {
	r.mu.Lock()
	all := r.waiting
	r.waiting = nil
	r.closed = true
	r.mu.Unlock()
	for _, p := range all {
		p.finish(nil)
	}
	return nil
}

func (r *RequestTable) Put(msg *Message) *PendingRequest {
	p := &PendingRequest{parent: r, id: msg.Headers.Id, done: make(chan struct{})}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closed {
		p.finish(nil)
		return p
	}
	if r.waiting == nil {
		r.waiting = make(map[MessageId]*PendingRequest)
	}
	r.waiting[p.id] = p
	return p
}

func (r *RequestTable) Feed(msg *ByteArrayMessage) bool {
	if msg.Headers.RelatesTo.IsEmpty() {
		return false
	}
	p := r.take(msg.Headers.RelatesTo)
	if p == nil {
		return false
	}
	p.finish(msg)
	return true
}
''')
edit('transport/conn.go',
('''	c.callbackLock.Lock()
	defer c.callbackLock.Unlock()
	c.messageCallback = cb
}''','''	c.callbackLock.Lock()
	c.messageCallback = cb
	c.callbackLock.Unlock()
}'''),
('''		if headers.Actor == MessageActorTypeTransport {
			go c.handleTransportMessage(msg)
			continue
		}

		// TODO support server side reject
		if headers.Actor == MessageActorTypeTransportSendTarget && headers.Action == "ConnectionAuth" {
			if headers.ErrorCode != FabricErrorCodeSuccess {
				var b struct {
					Message string
				}

				serialization.Unmarshal(body, &b) // ignore error
				c.setFatal(fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message))

				return c.Close()
			}
		}

		if !c.requestTable.Feed(msg) {
			if cb := c.callback(); cb != nil {
				cb(c, msg)
			}
		}
	}
}''','''		if c.rejects(msg) {
			return c.Close()
		}

		c.dispatch(msg)
	}
}

// rejects tells if msg is the peer's refusal of the connection
func (c *connection) rejects(msg *ByteArrayMessage) bool {
	h := &msg.Headers
	if h.Actor != MessageActorTypeTransportSendTarget || h.Action != "ConnectionAuth" || h.ErrorCode == FabricErrorCodeSuccess {
		return false
	}

	var b struct {
		Message string
	}

	_ = serialization.Unmarshal(msg.Body, &b)
	c.setFatal(fmt.Errorf("connection auth failure, error code [%v], msg [%v]", h.ErrorCode, b.Message))
	return true
}

func (c *connection) dispatch(msg *ByteArrayMessage) {
	switch {
	case msg.Headers.Actor == MessageActorTypeTransport:
		go c.handleTransportMessage(msg)
	case c.requestTable.Feed(msg):
	default:
		if cb := c.callback(); cb != nil {
			cb(c, msg)
		}
	}
}'''),
('''	case "HeartbeatRequest":

		resp := c.msgfac.newMessage()
		resp.Headers.Actor = MessageActorTypeTransport
		resp.Headers.HighPriority = true
		resp.Headers.Action = "HeartbeatResponse"
		resp.Body = msg.Body

		err := c.SendOneWay(resp)
		if err != nil {
			return err
		}
''','''	case "HeartbeatRequest":
		return c.SendOneWay(c.internal("HeartbeatResponse", msg.Body))
'''),
('''func (c *connection) handleTransportMessage(''','''func (c *connection) internal(action string, body interface{}) *Message {
	m := c.msgfac.newMessage()
	m.Headers.Action = action
	m.Headers.Actor = MessageActorTypeTransport
	m.Headers.HighPriority = true
	m.Body = body
	return m
}

func (c *connection) handleTransportMessage('''),
('''	msg := c.msgfac.newMessage()
	msg.Headers.Actor = MessageActorTypeTransport
	msg.Headers.HighPriority = true
	msg.Headers.Action = "HeartbeatRequest"
	msg.Body = &b

	err := c.SendOneWay(msg)
	if err != nil {
		return -1, err
	}
''','''	if err := c.SendOneWay(c.internal("HeartbeatRequest", &b)); err != nil {
		return -1, err
	}
'''),
('''		c.pinglock.Lock()
		if pong, ok := c.pings[b.HeartbeatTimeTick]; ok {
			delete(c.pings, b.HeartbeatTimeTick)
			close(pong)
		}
		c.pinglock.Unlock()
''','''		c.pinglock.Lock()
		pong := c.pings[b.HeartbeatTimeTick]
		delete(c.pings, b.HeartbeatTimeTick)
		c.pinglock.Unlock()
		if pong != nil {
			close(pong)
		}
'''),
)
edit('transport/frame.go',
('''	header := frameheader{}
	err := binary.Read(r, binary.LittleEndian, &header)
	if err != nil {
		return nil, nil, err
	}

	var b bytes.Buffer
	err = binary.Write(&b, binary.LittleEndian, &frameheader{
		FrameLength:          header.FrameLength,
		SecurityProviderMask: header.SecurityProviderMask,
		HeaderLength:         header.HeaderLength,
		FrameHeaderCRC:       0,
		FrameBodyCRC:         0,
	})
	if err != nil {
		return nil, nil, err
	}

	if config.CheckFrameHeaderCRC {
		if header.FrameHeaderCRC != crc8.Checksum(b.Bytes(), crc8.MakeTable(crc8.CRC8)) {
			return nil, nil, fmt.Errorf("frame header crc8 check fail")
		}
	}
''','''	raw := make([]byte, sizeOfFrameheader)
	if _, err := io.ReadFull(r, raw); err != nil {
		return nil, nil, err
	}

	header := frameheader{
		FrameLength:          binary.LittleEndian.Uint32(raw[0:]),
		SecurityProviderMask: raw[4],
		FrameHeaderCRC:       raw[5],
		HeaderLength:         binary.LittleEndian.Uint16(raw[6:]),
		FrameBodyCRC:         binary.LittleEndian.Uint32(raw[8:]),
	}

	if config.CheckFrameHeaderCRC {
		clean := append([]byte(nil), raw...)
		for _, i := range []int{5, 8, 9, 10, 11} {
			clean[i] = 0
		}
		if crc8.Checksum(clean, crc8table) != header.FrameHeaderCRC {
			return nil, nil, fmt.Errorf("frame header crc8 check fail")
		}
	}
'''),
('''	b.Reset()
	_, err = io.CopyN(&b, r, bodyLen)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return nil, nil, err
	}
''','''	var b bytes.Buffer
	n, err := b.ReadFrom(io.LimitReader(r, bodyLen))
	if err == nil && n < bodyLen {
		err = io.ErrUnexpectedEOF
	}
	if err != nil {
		return nil, nil, err
	}
'''),
('''	b.Reset()
	err = binary.Write(&b, binary.LittleEndian, tcpheader)
	if err != nil {
		return err
	}

	b.Write(msg)

	_, err = w.Write(b.Bytes())
	return err
''','''	out := make([]byte, sizeOfFrameheader, sizeOfFrameheader+len(msg))
	binary.LittleEndian.PutUint32(out[0:], tcpheader.FrameLength)
	out[4] = tcpheader.SecurityProviderMask
	out[5] = tcpheader.FrameHeaderCRC
	binary.LittleEndian.PutUint16(out[6:], tcpheader.HeaderLength)
	binary.LittleEndian.PutUint32(out[8:], tcpheader.FrameBodyCRC)
	out = append(out, msg...)

	_, err = w.Write(out)
	return err
'''))
edit('transport/server.go',('''	for {
		c, err := s.listener.Accept()
		if err != nil {
			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
				log.Printf("accepting error %v", err)
				continue
			}

			return err
		}

		go s.handle(c)
	}
''','''	return acceptAll(s.listener, func(c net.Conn) { s.handle(c) })
'''),('''func (s *Server) Close() error {''','''// acceptAll serves every connection in a goroutine of its own until the listener fails for good
func acceptAll(l net.Listener, serve func(net.Conn)) error {
	for {
		c, err := l.Accept()
		switch e := err.(type) {
		case nil:
			go serve(c)
		case net.Error:
			if !e.Temporary() {
				return err
			}
			log.Printf("accepting error %v", err)
		default:
			return err
		}
	}
}

func (s *Server) Close() error {'''))
edit('transport/piper.go',('''	for {
		c, err := p.listener.Accept()
		if err != nil {
			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
				log.Printf("accepting error %v", err)
				continue
			}

			return err
		}

		go func() {
			if err := p.handle(c); err != nil {
				log.Printf("pipe err %v", err)
			}
		}()
	}
''','''	return acceptAll(p.listener, func(c net.Conn) {
		if err := p.handle(c); err != nil {
			log.Printf("pipe err %v", err)
		}
	})
'''),('''		var newmsg *Message

		if p.config.Filter != nil {
			newmsg = p.config.Filter(src.conn, dst.conn, msg)

			if newmsg == nil {
				// drop message
				continue
			}
		}

		if newmsg == nil {
			newmsg = &Message{
				Headers: msg.Headers,
				Body:    msg.Body,
			}
		}

		if err''','''		newmsg := p.filtered(src, dst, msg)
		if newmsg == nil {
			continue
		}

		if err'''),('''func (p *Piper) copy(''','''func (p *Piper) filtered(src, dst *connection, msg *ByteArrayMessage) *Message {
	if f := p.config.Filter; f != nil {
		return f(src.conn, dst.conn, msg)
	}
	return &Message{Headers: msg.Headers, Body: msg.Body}
}

func (p *Piper) copy('''),('''	ch := make(chan error, 2)
	defer src.Close()
	defer dst.Close()

	go func() {
		ch <- p.copy(src, dst)
	}()

	go func() {
		ch <- p.copy(dst, src)
	}()

	return <-ch
''','''	defer dst.Close()
	defer src.Close()

	var first error
	var once sync.Once
	ended := make(chan struct{})
	for _, d := range [][2]*connection{{dst, src}, {src, dst}} {
		d := d
		go func() {
			err := p.copy(d[0], d[1])
			once.Do(func() {
				first = err
				close(ended)
			})
		}()
	}

	<-ended
	return first
'''),('''	"fmt"
	"log"
	"net"
''','''	"fmt"
	"log"
	"net"
	"sync"
'''))
edit('lease/frame.go',('''	err := binary.Write(w, binary.LittleEndian, &h)
	if err != nil {
		return err
	}

	err = binary.Write(w, binary.LittleEndian, message)
	if err != nil {
		return err
	}

	return nil
''','''	var b bytes.Buffer
	if err := binary.Write(&b, binary.LittleEndian, &h); err != nil {
		return err
	}
	b.Write(message)

	_, err := b.WriteTo(w)
	return err
'''))
edit('lease/agent.go',('''		s, ok := a.sessions.Load(m.MessageListenEndpoint)
		if !ok {
			continue
		}

		ls, ok := s.(*leaseSession)
		if ok {
			ls.onMessage(m)
		}
''','''		if s := a.session(m.MessageListenEndpoint); s != nil {
			s.onMessage(m)
		}
'''),('''func (a *Agent) isClosed() bool {''','''func (a *Agent) session(addr string) *leaseSession {
	v, _ := a.sessions.Load(addr)
	s, _ := v.(*leaseSession)
	return s
}

func (a *Agent) isClosed() bool {'''),('''		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-time.After(interval):
			// continue
		}
	}
}''','''		pause := time.NewTimer(interval)
		select {
		case <-pause.C:
			// continue
		case <-ctx.Done():
			pause.Stop()
			return ctx.Err()
		}
	}
}'''),('''		ctx0, _ := context.WithTimeout(ctx, interval)
		sess.Ping(ctx0) // TODO ignore error atm, introduce arbitrator later
''','''		func() {
			ctx0, cancel := context.WithTimeout(ctx, interval)
			defer cancel()
			sess.Ping(ctx0) // TODO ignore error atm, introduce arbitrator later
		}()
'''),('''	ch := s.pingCh
	s.pingCh = make(chan int)
	close(ch)
	s.pingLock.Unlock()
''','''	ch := s.pingCh
	s.pingCh = make(chan int)
	s.pingLock.Unlock()
	close(ch)
'''),('''	for {
		last := atomic.LoadInt64(&lastUniqId)
		if id <= last { // the clock is coarse and may go back
			id = last + 1
		}

		if atomic.CompareAndSwapInt64(&lastUniqId, last, id) {
			return id
		}
	}
''','''	uniqLock.Lock()
	defer uniqLock.Unlock()
	if id <= lastUniqId { // the clock is coarse and may go back
		id = lastUniqId + 1
	}
	lastUniqId = id
	return id
'''),('''var lastUniqId int64
''','''var (
	uniqLock   sync.Mutex
	lastUniqId int64
)
'''),('''	"sync/atomic"
''',''))
edit('federation/sitenode_parteners.go',('''	s.partenersRWLock.RLock()
	defer s.partenersRWLock.RUnlock()
	var lst []PartnerNodeInfo

	for _, p := range s.parteners {
		if filter(*p) {
			lst = append(lst, *p)
		}
	}

	return lst
''','''	lst := s.allPartners()
	n := 0
	for _, p := range lst {
		if filter(p) {
			lst[n] = p
			n++
		}
	}

	return lst[:n]
'''),('''func (s *SiteNode) closestPartnerNode(''','''// allPartners returns what is known, by id
func (s *SiteNode) allPartners() []PartnerNodeInfo {
	s.partenersRWLock.RLock()
	defer s.partenersRWLock.RUnlock()

	lst := make([]PartnerNodeInfo, 0, len(s.parteners))
	for _, p := range s.parteners {
		lst = append(lst, *p)
	}
	sort.Slice(lst, func(i, j int) bool {
		return uint128(lst[i].Instance.Id).cmp(uint128(lst[j].Instance.Id)) < 0
	})
	return lst
}

func (s *SiteNode) closestPartnerNode('''),('''import "github.com/tg123/phabrik/common"
''','''import (
	"sort"

	"github.com/tg123/phabrik/common"
)
'''))
edit('federation/sitenode_boot.go',('''		select {
		case <-changed:
			// continue
		case <-ctx.Done():
			return ctx.Err()
		case <-time.After(time.Second * 30): // TODO config
			// continue
		}
''','''		again := time.NewTimer(30 * time.Second) // TODO config
		select {
		case <-ctx.Done():
			again.Stop()
			return ctx.Err()
		case <-again.C:
		case <-changed:
			again.Stop()
		}
'''),('''			p, ok := discovered[partner.Instance.Id]

			if !ok || partner.newerThan(&p) {
				found = true
				discovered[partner.Instance.Id] = partner
			}
''','''			if p, ok := discovered[partner.Instance.Id]; ok && !partner.newerThan(&p) {
				continue
			}
			discovered[partner.Instance.Id] = partner
			found = true
'''),('''		if !found {
			round -= 1
		}

		if round < 0 {
			break
		}
	}

	parteners :=''','''		if found {
			continue
		}
		if round--; round < 0 {
			break
		}
	}

	parteners :='''))
edit('federation/sitenode_sender.go',('''	s.fillMessageId(msg)
	s.appendPartnerInfo(msg)

	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &PToPHeader{
		From:          s.instance,
		To:            t.Instance,
		Actor:         PToPActorDirect,
		ExactInstance: true,
	})

	return c.SendOneWay(msg)''','''	s.address(msg, t, PToPActorDirect, true)

	return c.SendOneWay(msg)'''),('''	s.fillMessageId(msg)
	s.appendPartnerInfo(msg)

	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &PToPHeader{
		From:          s.instance,
		To:            t.Instance,
		Actor:         PToPActorRouting,
		ExactInstance: false,
	})
''','''	s.address(msg, t, PToPActorRouting, false)
'''),('''func (s *SiteNode) SendOneWay(''','''func (s *SiteNode) address(msg *transport.Message, to *PartnerNodeInfo, actor PToPActor, exact bool) {
	s.appendPartnerInfo(msg)
	s.fillMessageId(msg)

	h := PToPHeader{From: s.instance, To: to.Instance}
	h.Actor, h.ExactInstance = actor, exact
	msg.Headers.SetCustomHeader(transport.MessageHeaderIdTypePToP, &h)
}

func (s *SiteNode) SendOneWay('''))
edit('naming/naming.go',('''		conn.SendOneWay(reply)

		if n.OnServiceNotification != nil {
			go n.OnServiceNotification(b.Notification)
		}
''','''		if handler := n.OnServiceNotification; handler != nil {
			defer func() { go handler(b.Notification) }()
		}

		conn.SendOneWay(reply)
'''),('''	{
		msg, err := NewNamingMessage("NotificationClientConnectionRequest")
		if err != nil {
			return 0, err
		}

		msg.Body = &NotificationClientConnectionRequestBody{
			ClientId:       n.clientId,
			ClientVersions: &VersionRangeCollection{},
		}

		_, err = n.requestReply(ctx, msg)
		if err != nil {
			return 0, err
		}
	}
''','''	if err := n.connectNotifications(ctx); err != nil {
		return 0, err
	}
'''),('''func (n *NamingClient) RegisterFilter(''','''func (n *NamingClient) connectNotifications(ctx context.Context) error {
	msg, err := NewNamingMessage("NotificationClientConnectionRequest")
	if err == nil {
		msg.Body = &NotificationClientConnectionRequestBody{
			ClientId:       n.clientId,
			ClientVersions: &VersionRangeCollection{},
		}
		_, err = n.requestReply(ctx, msg)
	}
	return err
}

func (n *NamingClient) RegisterFilter('''))
