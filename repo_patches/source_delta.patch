From 9ab4ab11fca852880818411324895f7a730d44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 01/32] fix: write a frame's header and body in one write so
 that concurrent sends do not interleave

---
 transport/frame.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..50dd83d 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -109,11 +109,15 @@ func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig)
 		tcpheader.FrameBodyCRC = crc32.Checksum(msg, crc32.IEEETable)
 	}
 
-	err = binary.Write(w, binary.LittleEndian, tcpheader)
+	// header and body go out in a single write, concurrent senders must not interleave
+	b.Reset()
+	err = binary.Write(&b, binary.LittleEndian, tcpheader)
 	if err != nil {
 		return err
 	}
 
-	_, err = w.Write(msg)
+	b.Write(msg)
+
+	_, err = w.Write(b.Bytes())
 	return err
 }
-- 
2.43.0


From ca7f6643f16ab74200bda0637be8589c9f6fbf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 02/32] fix: a reply to an abandoned request no longer blocks
 the receive loop for ever

---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..bbfe5f2 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block when nobody waits any more
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From 7978c0edb6b88a1f095c5f98aeafc7e90786a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 03/32] fix: match heartbeat responses to the ping they answer

Late, duplicate or unexpected responses blocked a goroutine for ever, spoiled
the next ping, and panicked on a closed channel after Close. Pings waited for
each other ignoring their context, and the round trip came from the wall clock.
---
 transport/conn.go | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..9a2779b 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -36,13 +36,15 @@ type connection struct {
 	conn            net.Conn
 	requestTable    RequestTable
 	pinglock        sync.Mutex
-	pingCh          chan int64
+	pings           map[int64]chan struct{} // waiting pings by their time tick
+	lastPingTick    int64
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
 	frameWCfg frameWriteConfig
 
 	closeOnce sync.Once
+	closeCh   chan struct{}
 	fatalerr  error
 }
 
@@ -53,8 +55,9 @@ func newConnection(config Config) (*connection, error) {
 	}
 
 	c := &connection{
-		msgfac: mf,
-		pingCh: make(chan int64),
+		msgfac:  mf,
+		pings:   make(map[int64]chan struct{}),
+		closeCh: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -132,7 +135,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closeCh)
 		c.requestTable.Close()
 	})
 
@@ -144,11 +147,25 @@ type heartbeat struct {
 }
 
 func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
-	c.pinglock.Lock()
-	defer c.pinglock.Unlock()
+	start := time.Now()
+	pong := make(chan struct{})
 
 	var b heartbeat
-	b.HeartbeatTimeTick = time.Now().UnixNano()
+	b.HeartbeatTimeTick = start.UnixNano()
+
+	c.pinglock.Lock()
+	if b.HeartbeatTimeTick <= c.lastPingTick { // ticks identify pings, the clock may stand still or go back
+		b.HeartbeatTimeTick = c.lastPingTick + 1
+	}
+	c.lastPingTick = b.HeartbeatTimeTick
+	c.pings[b.HeartbeatTimeTick] = pong
+	c.pinglock.Unlock()
+
+	defer func() {
+		c.pinglock.Lock()
+		delete(c.pings, b.HeartbeatTimeTick)
+		c.pinglock.Unlock()
+	}()
 
 	msg := c.msgfac.newMessage()
 	msg.Headers.Actor = MessageActorTypeTransport
@@ -164,11 +181,10 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 	select {
 	case <-ctx.Done():
 		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
-		}
-		return time.Since(time.Unix(0, t)), nil
+	case <-c.closeCh:
+		return -1, fmt.Errorf("connection closed")
+	case <-pong:
+		return time.Since(start), nil
 	}
 }
 
@@ -193,7 +209,12 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		c.pinglock.Lock()
+		if pong, ok := c.pings[b.HeartbeatTimeTick]; ok {
+			delete(c.pings, b.HeartbeatTimeTick)
+			close(pong)
+		}
+		c.pinglock.Unlock()
 	default:
 	}
 	return nil
-- 
2.43.0


From 92c434d48274568b267820ae5f45fdb6499cc645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 04/32] fix: reject frames with impossible lengths and do not
 allocate what a frame merely announces

---
 transport/frame.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index 50dd83d..be4a85d 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,13 +61,23 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
-	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
+	bodyLen := int64(header.FrameLength) - int64(sizeOfFrameheader)
+	if bodyLen < int64(header.HeaderLength) {
+		return nil, nil, fmt.Errorf("bad frame length %v, header length %v", header.FrameLength, header.HeaderLength)
+	}
 
-	_, err = io.ReadFull(r, body)
+	// the length comes from the peer, memory grows with what really arrives
+	b.Reset()
+	_, err = io.CopyN(&b, r, bodyLen)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return nil, nil, err
 	}
 
+	body := b.Bytes()
+
 	if config.CheckFrameBodyCRC {
 		if header.FrameBodyCRC != crc32.Checksum(body, crc32.IEEETable) {
 			return nil, nil, fmt.Errorf("frame body crc32 check fail")
-- 
2.43.0


From 44c9ae5e295db76801064e3adaf87d6115eede3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 05/32] fix: refuse message headers that do not fit their 16
 bit length instead of truncating it

---
 transport/message.go        | 5 +++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/transport/message.go b/transport/message.go
index 054c3df..eeaa2db 100644
--- a/transport/message.go
+++ b/transport/message.go
@@ -2,7 +2,9 @@ package transport
 
 import (
 	"bytes"
+	"fmt"
 	"io"
+	"math"
 	"sync/atomic"
 
 	"github.com/tg123/phabrik/serialization"
@@ -27,6 +29,9 @@ func (m *Message) marshal() (int, []byte, error) {
 	}
 
 	headerLen := buf.Len()
+	if headerLen > math.MaxUint16 {
+		return 0, nil, fmt.Errorf("message headers too large: %v bytes", headerLen)
+	}
 
 	if m.Body != nil {
 		b, ok := m.Body.([]byte)
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..53dbac8 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("message header %v too large: %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From d133eebc7c1f6888f4f05d960a682bac66a282f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 06/32] fix: AppendCustomHeader appends instead of dropping
 every header after the first

Federation messages carried only the sender's own partner information. Now
that all of it goes out, keep it within the 64KB the headers may have.
---
 federation/sitenode_sender.go | 13 ++++++++++++-
 transport/messageheaders.go   |  8 ++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 03ddcbe..e7bdda4 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -6,6 +6,7 @@ import (
 	"sync"
 
 	"github.com/tg123/phabrik/common"
+	"github.com/tg123/phabrik/serialization"
 	"github.com/tg123/phabrik/transport"
 )
 
@@ -91,6 +92,9 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 	return c, t, err
 }
 
+// message headers are limited to 64KB, leave room for the others
+const maxPartnerInfoSize = 48 * 1024
+
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 
 	// add self
@@ -103,12 +107,19 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 		},
 	})
 
+	size := 0
 	for _, p := range s.KnownPartnerNodes(func(pn PartnerNodeInfo) bool {
 		return pn.Instance.InstanceId > 0
 	}) {
-		msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
+		header, err := serialization.Marshal(&FederationPartnerNodeHeader{
 			PartnerNodeInfo: p,
 		})
+		if err != nil || size+len(header) > maxPartnerInfoSize {
+			continue
+		}
+
+		size += len(header)
+		msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, header)
 	}
 }
 
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 53dbac8..f455daa 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -107,12 +107,8 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 		h.customHeaders = make(map[MessageHeaderIdType][]interface{})
 	}
 
-	if _, ok := h.customHeaders[typ]; !ok {
-		h.customHeaders[typ] = append(h.customHeaders[typ], header...)
-		return true
-	}
-
-	return false
+	h.customHeaders[typ] = append(h.customHeaders[typ], header...)
+	return true
 }
 
 func (h *MessageHeaders) writeTo(w io.Writer) error {
-- 
2.43.0


From 266b8d41a7c917bc15a5ad329c7a5c42389b131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 07/32] fix: report write errors during the TLS handshake
 instead of ignoring them

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 59c5493cda19983aebd860aecd0d9d25470b32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 08/32] fix: close the network connection when setting up a
 connection fails

---
 transport/client.go | 1 +
 transport/piper.go  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/transport/client.go b/transport/client.go
index f7d9cc0..0d83aab 100644
--- a/transport/client.go
+++ b/transport/client.go
@@ -26,6 +26,7 @@ func DialTCP(addr string, config ClientConfig) (*Client, error) {
 func Connect(conn net.Conn, config ClientConfig) (*Client, error) {
 	c, err := tapClientConn(conn, config.Config)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
diff --git a/transport/piper.go b/transport/piper.go
index 5935cfa..7a90cf2 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -54,6 +54,8 @@ func (p *Piper) handle(conn net.Conn) error {
 		return err
 	}
 
+	defer rawu.Close()
+
 	u, err := tapClientConn(rawu, uc)
 	if err != nil {
 		return err
-- 
2.43.0


From 51376e318bacc31ee1b7ea77cb19fdd7d1e4acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 09/32] fix: no TLS 1.3 session tickets, they break the framing
 of the handshake

---
 transport/tls.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transport/tls.go b/transport/tls.go
index c5f34ea..34aa325 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -42,6 +42,13 @@ func createTlsClientConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config)
 }
 
 func createTlsServerConn(conn net.Conn, mf *messageFactory, tlsconf *tls.Config, initbuf []byte) (*tls.Conn, error) {
+	if tlsconf.MaxVersion == 0 || tlsconf.MaxVersion >= tls.VersionTLS13 {
+		// TLS 1.3 session tickets are written as part of the server's handshake, that is framed,
+		// when the client may already have completed its own and no longer expects frames
+		tlsconf = tlsconf.Clone()
+		tlsconf.SessionTicketsDisabled = true
+	}
+
 	return createTlsConn(conn, mf, tlsconf, tls.Server, initbuf)
 }
 
-- 
2.43.0


From 3bb2a552263eb03ad10d40d8109eb2dc9cc1ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 10/32] fix: a request made while the connection is being
 closed no longer waits for ever

---
 transport/requesttable.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bbfe5f2..fa7ba71 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -4,10 +4,12 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"sync/atomic"
 )
 
 type RequestTable struct {
-	table sync.Map
+	table  sync.Map
+	closed int32
 }
 
 type PendingRequest struct {
@@ -45,6 +47,8 @@ func (r *PendingRequest) Wait(ctx context.Context) (*ByteArrayMessage, error) {
 }
 
 func (r *RequestTable) Close() error {
+	atomic.StoreInt32(&r.closed, 1)
+
 	r.table.Range(func(key, value interface{}) bool {
 		value.(*PendingRequest).Close()
 		return true
@@ -62,6 +66,11 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block when nobody waits any more
 	}
 	r.table.Store(id, p)
+
+	if atomic.LoadInt32(&r.closed) != 0 { // Close may have missed it
+		p.Close()
+	}
+
 	return p
 }
 
-- 
2.43.0


From ffeac04c445623793da3aea6a1057506dcff38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 11/32] fix: the piper checks a connection's first frame as
 configured

---
 transport/piper.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transport/piper.go b/transport/piper.go
index 7a90cf2..cfe51e9 100644
--- a/transport/piper.go
+++ b/transport/piper.go
@@ -35,9 +35,10 @@ func NewPiper(l net.Listener, config PiperConfig) (*Piper, error) {
 func (p *Piper) handle(conn net.Conn) error {
 	defer conn.Close()
 
+	// frames of the TLS handshake carry no checksums
 	headers, body, err := nextMessageHeaderAndBodyFromFrame(conn, frameReadConfig{
-		CheckFrameHeaderCRC: true,
-		CheckFrameBodyCRC:   false,
+		CheckFrameHeaderCRC: p.config.TLS == nil && !p.config.DisableCheckFrameHeaderCRC,
+		CheckFrameBodyCRC:   p.config.TLS == nil && p.config.CheckFrameBodyCRC,
 	})
 
 	if err != nil {
-- 
2.43.0


From 1d464bb4c74d3ba14d4f224393608e8c661adf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 12/32] fix: do not read the fatal error of a connection while
 it is being written

---
 transport/conn.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 9a2779b..ef72d68 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -45,6 +45,8 @@ type connection struct {
 
 	closeOnce sync.Once
 	closeCh   chan struct{}
+
+	fatalLock sync.Mutex
 	fatalerr  error
 }
 
@@ -131,6 +133,18 @@ func (c *connection) SetMessageCallback(cb MessageCallback) {
 	c.messageCallback = cb
 }
 
+func (c *connection) setFatal(err error) {
+	c.fatalLock.Lock()
+	defer c.fatalLock.Unlock()
+	c.fatalerr = err
+}
+
+func (c *connection) fatal() error {
+	c.fatalLock.Lock()
+	defer c.fatalLock.Unlock()
+	return c.fatalerr
+}
+
 func (c *connection) Close() error {
 	err := c.conn.Close()
 
@@ -291,7 +305,7 @@ func (c *connection) Wait() error {
 				}
 
 				serialization.Unmarshal(body, &b) // ignore error
-				c.fatalerr = fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message)
+				c.setFatal(fmt.Errorf("connection auth failure, error code [%v], msg [%v]", headers.ErrorCode, b.Message))
 
 				return c.Close()
 			}
@@ -306,8 +320,8 @@ func (c *connection) Wait() error {
 }
 
 func (c *connection) SendOneWay(message *Message) error {
-	if c.fatalerr != nil {
-		return c.fatalerr
+	if err := c.fatal(); err != nil {
+		return err
 	}
 	c.msgfac.fillMessageId(message)
 	return c.writeMessageWithFrame(message)
-- 
2.43.0


From 3c65271c6ca57c379b2b659f3cd7fb1236a0b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 13/32] fix: decoding a char into an unsigned field, or the
 reverse, is an error and not a panic

---
 serialization/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..ffef650 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -173,10 +173,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
+		switch {
+		case meta == FabricSerializationTypeChar && rv.Kind() == reflect.Int8:
 			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
+		case meta == FabricSerializationTypeUChar && rv.Kind() == reflect.Uint8:
 			rv.SetUint(uint64(v))
 		default:
 			return fmt.Errorf("expect char/uchar got %v", meta)
-- 
2.43.0


From 72ef1268ffa1db0f4789d2928f9ee7fcd41b7c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 14/32] fix: decoding does not trust lengths and sizes in the
 data

Huge counts allocated or panicked before any data was read, and an object
whose size pointed backwards made the decoder read the same bytes again.
---
 serialization/unmarshal.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index ffef650..b551216 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -128,7 +128,17 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	pos, err := s.inner.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+
+	// when the object ended with fewer fields than expected its scope end has been read
+	if endpos < pos-1 {
+		return fmt.Errorf("object size too small")
+	}
+
+	_, err = s.inner.Seek(endpos, io.SeekStart)
 	if err != nil {
 		return err
 	}
@@ -232,6 +242,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return fmt.Errorf("string length %v exceeds data", len)
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -305,6 +319,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if len > s.inner.Len() { // an element takes at least one byte
+			return fmt.Errorf("array length %v exceeds data", len)
+		}
+
 		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
 
 		for i := 0; i < len; i++ {
-- 
2.43.0


From b6b3f18efd66095134fb9038e2d1d247421bae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 15/32] fix: the lease agent stops when it is closed instead of
 spinning

Wait retried every accept error for ever, also that of a closed listener;
Close left incoming connections running and raced with Establish.
---
 lease/agent.go | 57 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..135c5e4 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/tls"
 	"fmt"
+	"log"
 	"net"
 	"strconv"
 	"sync"
@@ -49,14 +50,14 @@ type Agent struct {
 	sessions      sync.Map
 	listener      net.Listener
 	dial          Dialer
+
+	lock     sync.Mutex
+	closed   bool
+	incoming map[net.Conn]struct{}
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
 
-func closedDialer(addr string) (net.Conn, error) {
-	return nil, errAgentClosed
-}
-
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
 }
@@ -75,6 +76,7 @@ func NewAgent(config AgentConfig, listener net.Listener, dial Dialer) (*Agent, e
 		dial:          dial,
 		listener:      listener,
 		LocalInstance: uniqId(),
+		incoming:      make(map[net.Conn]struct{}),
 	}
 	a.config = config
 
@@ -109,11 +111,23 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		localInstance: uniqId(),
 	}
 
+	if a.isClosed() {
+		return nil, errAgentClosed
+	}
+
 	err := s.reconnect()
 	if err != nil {
 		return nil, err
 	}
 
+	a.lock.Lock()
+	defer a.lock.Unlock()
+
+	if a.closed { // while dialing
+		s.conn.Close()
+		return nil, errAgentClosed
+	}
+
 	a.sessions.Store(addr, &s)
 
 	return &s, nil
@@ -130,15 +144,32 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
-			continue
+			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
+				log.Printf("accepting error %v", err)
+				continue
+			}
+
+			return err
 		}
 
 		go a.handleIncoming(c)
 	}
 }
 
+func (a *Agent) isClosed() bool {
+	a.lock.Lock()
+	defer a.lock.Unlock()
+	return a.closed
+}
+
 func (a *Agent) Close() error {
-	a.dial = closedDialer
+	a.lock.Lock()
+	a.closed = true
+	for conn := range a.incoming {
+		conn.Close()
+	}
+	a.lock.Unlock()
+
 	a.listener.Close()
 	a.sessions.Range(func(key, value interface{}) bool {
 		if s, ok := value.(Session); ok {
@@ -154,6 +185,20 @@ func (a *Agent) Close() error {
 func (a *Agent) handleIncoming(conn net.Conn) error {
 	defer conn.Close()
 
+	a.lock.Lock()
+	if a.closed {
+		a.lock.Unlock()
+		return errAgentClosed
+	}
+	a.incoming[conn] = struct{}{}
+	a.lock.Unlock()
+
+	defer func(conn net.Conn) {
+		a.lock.Lock()
+		defer a.lock.Unlock()
+		delete(a.incoming, conn)
+	}(conn)
+
 	if a.config.TLS != nil {
 		conn = tls.Server(conn, a.config.TLS)
 	}
-- 
2.43.0


From 691ed9adb8b09cc2b8724b2d3880ed379fb6d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:19 +0000
Subject: [PATCH 16/32] fix: check the sizes in lease messages and accept an
 endpoint at their end

A message whose endpoint list ends with the message, as the agent's own
do, was refused; sizes that overflow or are too small panicked.
---
 lease/serialize.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..cbff911 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,15 +124,15 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
+	if st >= uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
-	if ed >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
+	if ed > uint64(len(data)) {
+		return nil, fmt.Errorf("bad data end offset")
 	}
 
 	return data[st:ed], nil
@@ -170,6 +170,10 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofUint16+sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size")
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
-- 
2.43.0


From acdaa36c010a35c84d722fd0009bf59c69bce9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 17/32] fix: lease frames with impossible sizes neither panic
 nor allocate what they announce

Connect frames no longer recurse either, a peer could send them for ever.
---
 lease/frame.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..bce0841 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -24,27 +25,37 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+			continue
+		case ltFrametypeMessage:
+			bodyLen := int64(header.FrameSize) - int64(sizeOfLtFrameheader)
+			if bodyLen < 0 {
+				return nil, fmt.Errorf("bad frame size %v", header.FrameSize)
+			}
+
+			// the size comes from the peer, memory grows with what really arrives
+			var body bytes.Buffer
+			_, err = io.CopyN(&body, r, bodyLen)
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			if err != nil {
+				return nil, err
+			}
+
+			return body.Bytes(), nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From 1350a66574689b4f415e6ef8f361f9d75f54ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 18/32] fix: lease identifiers stay unique when the clock is
 coarse or goes back

---
 lease/agent.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 135c5e4..8068c0a 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -8,12 +8,26 @@ import (
 	"net"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
+var lastUniqId int64
+
 func uniqId() int64 {
 	// this id is a windows filetime, used in lease id
-	return time.Now().UnixNano()/100 + 116444736000000000
+	id := time.Now().UnixNano()/100 + 116444736000000000
+
+	for {
+		last := atomic.LoadInt64(&lastUniqId)
+		if id <= last { // the clock is coarse and may go back
+			id = last + 1
+		}
+
+		if atomic.CompareAndSwapInt64(&lastUniqId, last, id) {
+			return id
+		}
+	}
 }
 
 type LeaseAgentState int32
-- 
2.43.0


From 61aeae428591d30c71480f4928e6508be88010d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 19/32] fix: closing a lease session no longer removes the one
 that replaced it

---
 lease/agent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 8068c0a..492684f 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -300,7 +300,12 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
+	s.parent.lock.Lock()
+	if cur, ok := s.parent.sessions.Load(s.addr); ok && cur == s { // else established again
+		s.parent.sessions.Delete(s.addr)
+	}
+	s.parent.lock.Unlock()
+
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
-- 
2.43.0


From 0e5d1ff1b566d9585d863f0c9c2f064242a49c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 20/32] fix: a lease ping catches responses that arrive while
 it is written, ends with its context and session

---
 lease/agent.go | 63 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 492684f..05e7746 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -71,6 +71,7 @@ type Agent struct {
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
+var errSessionClosed = fmt.Errorf("session closed")
 
 func TcpDialer(addr string) (net.Conn, error) {
 	return net.Dial("tcp", addr)
@@ -122,6 +123,8 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		addr:          addr,
 		parent:        a,
 		pingCh:        make(chan int),
+		writeCh:       make(chan struct{}, 1),
+		closeCh:       make(chan struct{}),
 		localInstance: uniqId(),
 	}
 
@@ -286,6 +289,9 @@ type leaseSession struct {
 	connected bool
 	objLock   sync.Mutex
 
+	writeCh chan struct{} // full while a frame is being written
+	closeCh chan struct{}
+
 	pingCh   chan int
 	pingLock sync.RWMutex
 	lastpong time.Time
@@ -314,8 +320,8 @@ func (s *leaseSession) Close() error {
 	}
 
 	s.closed = true
+	close(s.closeCh) // unlock waiting pings
 	s.conn.Close()
-	s.boardcastPong() // unlock waiting pings
 
 	return nil
 }
@@ -329,7 +335,7 @@ func (s *leaseSession) reconnect() error {
 	}
 
 	if s.closed {
-		return fmt.Errorf("session closed")
+		return errSessionClosed
 	}
 
 	c, err := s.parent.dial(s.addr)
@@ -354,7 +360,12 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	if err := writeDataWithFrame(s.conn, data); err != nil {
+	// the response may come before the write returns
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
+	if err := s.write(ctx, data); err != nil {
 		if neterr, ok := err.(net.Error); ok {
 			if !neterr.Temporary() {
 				s.objLock.Lock()
@@ -371,19 +382,47 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
+	case <-s.closeCh:
+		return errSessionClosed
 	case <-ch:
 		return nil
 	}
 }
 
+// write sends a whole frame, it waits no longer than ctx for a peer that does not read
+func (s *leaseSession) write(ctx context.Context, data []byte) error {
+	select {
+	case s.writeCh <- struct{}{}:
+	case <-s.closeCh:
+		return errSessionClosed
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+
+	written := make(chan error, 1)
+
+	go func() {
+		err := writeDataWithFrame(s.conn, data)
+		<-s.writeCh
+		written <- err
+	}()
+
+	select {
+	case err := <-written:
+		return err
+	case <-s.closeCh:
+		return errSessionClosed
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (s *leaseSession) LastPongTime() time.Time {
+	s.pingLock.RLock()
+	defer s.pingLock.RUnlock()
 	return s.lastpong
 }
 
@@ -393,15 +432,15 @@ func (s *leaseSession) onMessage(m *Message) {
 	case LeaseMessageTypePingRequest:
 		// TODO
 	case LeaseMessageTypePingResponse:
-		s.lastpong = time.Now()
-		s.remoteInstance = m.RemoteLeaseAgentInstance
-		s.boardcastPong()
+		s.boardcastPong(m.RemoteLeaseAgentInstance)
 	default:
 	}
 }
 
-func (s *leaseSession) boardcastPong() {
+func (s *leaseSession) boardcastPong(remoteInstance int64) {
 	s.pingLock.Lock()
+	s.lastpong = time.Now()
+	s.remoteInstance = remoteInstance
 	ch := s.pingCh
 	s.pingCh = make(chan int)
 	close(ch)
@@ -413,6 +452,8 @@ func (s *leaseSession) createPingMessage() *Message {
 	message.Type = LeaseMessageTypePingRequest
 	message.Expiration = s.parent.config.LeaseDuration // TODO confirm config entry
 	message.LeaseInstance = s.localInstance
+	s.pingLock.RLock()
 	message.RemoteLeaseAgentInstance = s.remoteInstance
+	s.pingLock.RUnlock()
 	return &message
 }
-- 
2.43.0


From 1cc507a1909bcf2e71b368c24804ce8e8c1c86e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 21/32] fix: closing the lease agent also closes sessions that
 were established again

---
 lease/agent.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 05e7746..5722548 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -67,7 +67,8 @@ type Agent struct {
 
 	lock     sync.Mutex
 	closed   bool
-	incoming map[net.Conn]struct{}
+	incoming []net.Conn
+	open     []*leaseSession // also those no longer in sessions
 }
 
 var errAgentClosed = fmt.Errorf("agent closed")
@@ -91,7 +92,6 @@ func NewAgent(config AgentConfig, listener net.Listener, dial Dialer) (*Agent, e
 		dial:          dial,
 		listener:      listener,
 		LocalInstance: uniqId(),
-		incoming:      make(map[net.Conn]struct{}),
 	}
 	a.config = config
 
@@ -146,6 +146,7 @@ func (a *Agent) Establish(addr string) (Session, error) {
 	}
 
 	a.sessions.Store(addr, &s)
+	a.open = append(a.open, &s)
 
 	return &s, nil
 }
@@ -182,19 +183,16 @@ func (a *Agent) isClosed() bool {
 func (a *Agent) Close() error {
 	a.lock.Lock()
 	a.closed = true
-	for conn := range a.incoming {
+	for _, conn := range a.incoming {
 		conn.Close()
 	}
+	open := append([]*leaseSession(nil), a.open...)
 	a.lock.Unlock()
 
 	a.listener.Close()
-	a.sessions.Range(func(key, value interface{}) bool {
-		if s, ok := value.(Session); ok {
-			s.Close()
-		}
-
-		return true
-	})
+	for _, s := range open {
+		s.Close()
+	}
 
 	return nil
 }
@@ -207,13 +205,18 @@ func (a *Agent) handleIncoming(conn net.Conn) error {
 		a.lock.Unlock()
 		return errAgentClosed
 	}
-	a.incoming[conn] = struct{}{}
+	a.incoming = append(a.incoming, conn)
 	a.lock.Unlock()
 
 	defer func(conn net.Conn) {
 		a.lock.Lock()
 		defer a.lock.Unlock()
-		delete(a.incoming, conn)
+		for i, c := range a.incoming {
+			if c == conn {
+				a.incoming = append(a.incoming[:i], a.incoming[i+1:]...)
+				break
+			}
+		}
 	}(conn)
 
 	if a.config.TLS != nil {
@@ -310,6 +313,12 @@ func (s *leaseSession) Close() error {
 	if cur, ok := s.parent.sessions.Load(s.addr); ok && cur == s { // else established again
 		s.parent.sessions.Delete(s.addr)
 	}
+	for i, o := range s.parent.open {
+		if o == s {
+			s.parent.open = append(s.parent.open[:i], s.parent.open[i+1:]...)
+			break
+		}
+	}
 	s.parent.lock.Unlock()
 
 	s.objLock.Lock()
-- 
2.43.0


From 02c5825de5c1f195ca6794b46cfa6bb4e25064f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 22/32] fix: a partner's later phase is noticed, and concurrent
 news about one partner do not lose the newest

Information about the same instance in a later phase was dropped, so that a
node that had heard of a partner before it was routing never learned that it
is.  Two messages handled at once could both replace what was known before
either of them.
---
 federation/sitenode_parteners.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..4ae686e 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -14,16 +14,27 @@ type PartnerNodeInfo struct {
 	RingName             string
 }
 
+// newerThan tells if p is of a later instance of the node, or of a later phase of the same one.
+func (p *PartnerNodeInfo) newerThan(old *PartnerNodeInfo) bool {
+	if p.Instance.InstanceId != old.Instance.InstanceId {
+		return p.Instance.InstanceId > old.Instance.InstanceId
+	}
+
+	return p.Phase > old.Phase
+}
+
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
-
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
-		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	p := h.PartnerNodeInfo
+
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[p.Instance.Id]
+	update := !found || p.newerThan(old)
+	if update {
+		s.parteners[p.Instance.Id] = &p
+	}
+	s.partenersRWLock.Unlock()
+
+	if update {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From be184271394b647dad27cf9ae078abc8f53cb9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 23/32] fix: the closest partner node is the one found and not
 the last one looked at

The address of the loop variable was returned, and the predecessor of the id
was never chosen, not even when it is the only node.
---
 federation/sitenode_parteners.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 4ae686e..4677085 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -56,16 +56,14 @@ func (s *SiteNode) KnownPartnerNodes(filter func(PartnerNodeInfo) bool) []Partne
 func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bool) *PartnerNodeInfo {
 	// TODO optimize
 	var cur *PartnerNodeInfo
-	max := u128max
+	var min uint128
 
 	for _, p := range s.KnownPartnerNodes(filter) {
+		p := p
 		diff := uint128(p.Instance.Id).sub(uint128(id))
-		if diff == u128zero {
-			return &p
-		}
 
-		if diff.cmp(max) < 0 {
-			max = diff
+		if cur == nil || diff.cmp(min) < 0 {
+			min = diff
 			cur = &p
 		}
 	}
-- 
2.43.0


From 17f69b1fe258e08ebd7a9845371fad8809628609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:23 +0000
Subject: [PATCH 24/32] fix: bootstrap notices a routing node whenever it is
 heard of, and seeds do not wait for each other

A phase change while Bootstrap was not waiting went unnoticed, the phase was
read and written without the lock, and a seed whose dial hangs kept the next
seeds from being pinged and the context from being looked at.
---
 federation/sitenode.go        | 20 +++++++++----
 federation/sitenode_boot.go   | 55 ++++++++++++++++++++++++++++-------
 federation/sitenode_sender.go |  3 +-
 3 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 6421165..720c1e9 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -95,14 +95,22 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 	return &s, nil
 }
 
-func (s *SiteNode) changePhase(newPhase NodePhase) {
-	if s.phase == newPhase {
-		return
-	}
+// currentPhase returns the phase and a channel that is closed when it changes.
+func (s *SiteNode) currentPhase() (NodePhase, <-chan int) {
+	s.phaseLock.RLock()
+	defer s.phaseLock.RUnlock()
+
+	return s.phase, s.phaseChanged
+}
 
+func (s *SiteNode) changePhase(oldPhase, newPhase NodePhase) {
 	s.phaseLock.Lock()
 	defer s.phaseLock.Unlock()
 
+	if s.phase != oldPhase {
+		return
+	}
+
 	s.phase = newPhase
 	close(s.phaseChanged)
 	s.phaseChanged = make(chan int)
@@ -110,8 +118,8 @@ func (s *SiteNode) changePhase(newPhase NodePhase) {
 
 func (s *SiteNode) onPartnerChanged(p PartnerNodeInfo, isNew bool) {
 	// found at least 1 R node, start join
-	if p.Phase == NodePhaseRouting && s.phase == NodePhaseBooting {
-		s.changePhase(NodePhaseJoining)
+	if p.Phase == NodePhaseRouting {
+		s.changePhase(NodePhaseBooting, NodePhaseJoining)
 	}
 }
 
diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..89b282a 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,22 +10,21 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
+	p := newPinger(s)
 
 	for {
+		phase, changed := s.currentPhase()
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
-			if err := s.votePing(seed.Id); err != nil {
-				log.Printf("send vote ping to %v failed %v", seed.Address, err)
-			}
+			p.ping(seed.Id, seed.Address)
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-changed:
+			// continue
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
@@ -34,6 +33,42 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 	}
 }
 
+// pinger sends vote pings that do not wait for each other
+type pinger struct {
+	node *SiteNode
+	lock sync.Mutex
+	busy map[NodeID]bool
+}
+
+func newPinger(s *SiteNode) *pinger {
+	return &pinger{
+		node: s,
+		busy: make(map[NodeID]bool),
+	}
+}
+
+// ping sends a vote ping unless the last one to the node is still being sent
+func (p *pinger) ping(id NodeID, addr string) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+
+	if p.busy[id] {
+		return
+	}
+
+	p.busy[id] = true
+
+	go func() {
+		if err := p.node.votePing(id); err != nil {
+			log.Printf("send vote ping to %v failed %v", addr, err)
+		}
+
+		p.lock.Lock()
+		defer p.lock.Unlock()
+		delete(p.busy, id)
+	}()
+}
+
 func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 	discovered := make(map[NodeID]PartnerNodeInfo)
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index e7bdda4..8108dfd 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -96,6 +96,7 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 const maxPartnerInfoSize = 48 * 1024
 
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
+	phase, _ := s.currentPhase()
 
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
@@ -103,7 +104,7 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 			Instance:          s.instance,
 			Address:           s.transportServer.Addr().String(),
 			LeaseAgentAddress: s.leaseAgent.Addr().String(),
-			Phase:             s.phase,
+			Phase:             phase,
 		},
 	})
 
-- 
2.43.0


From 9005e6bdc8699f844c2c0f60cdbc33c0d5bf12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 25/32] fix: discover pings every node it knows, heeds its
 context and does not wait for unreachable nodes

The pings shared one loop variable, so that some nodes were pinged several
times and others not at all; a hanging dial stopped the discovery.
---
 federation/sitenode_boot.go | 58 ++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 89b282a..1e6a23d 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -38,12 +38,14 @@ type pinger struct {
 	node *SiteNode
 	lock sync.Mutex
 	busy map[NodeID]bool
+	sent chan int // capacity 1, filled when a ping has been sent or has failed
 }
 
 func newPinger(s *SiteNode) *pinger {
 	return &pinger{
 		node: s,
 		busy: make(map[NodeID]bool),
+		sent: make(chan int, 1),
 	}
 }
 
@@ -66,9 +68,39 @@ func (p *pinger) ping(id NodeID, addr string) {
 		p.lock.Lock()
 		defer p.lock.Unlock()
 		delete(p.busy, id)
+
+		select {
+		case p.sent <- 1:
+		default:
+		}
 	}()
 }
 
+// wait waits until all pings are sent, but no longer than max for those that hang
+func (p *pinger) wait(ctx context.Context, max time.Duration) error {
+	timeout := time.NewTimer(max)
+	defer timeout.Stop()
+
+	for {
+		p.lock.Lock()
+		n := len(p.busy)
+		p.lock.Unlock()
+
+		if n == 0 {
+			return nil
+		}
+
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-timeout.C:
+			return nil
+		case <-p.sent:
+			// continue
+		}
+	}
+}
+
 func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 
 	discovered := make(map[NodeID]PartnerNodeInfo)
@@ -83,23 +115,23 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 	}
 
 	round := 5
+	pinger := newPinger(s)
 
 	for {
-		var wg sync.WaitGroup
-		wg.Add(len(discovered))
-
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
-				defer wg.Done()
-				if err := s.votePing(p.Instance.Id); err != nil {
-					log.Printf("send vote ping to %v failed %v", p.Address, err)
-				}
-			}(&partner)
+			pinger.ping(partner.Instance.Id, partner.Address)
 		}
 
-		wg.Wait()
+		if err := pinger.wait(ctx, 5*time.Second); err != nil {
+			return nil, err
+		}
 
-		time.Sleep(1 * time.Second) // wait for voteping reply
+		// wait for voteping reply
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(1 * time.Second):
+		}
 
 		found := false
 		for _, partner := range s.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true }) {
@@ -108,9 +140,9 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 				continue
 			}
 
-			p := discovered[partner.Instance.Id]
+			p, ok := discovered[partner.Instance.Id]
 
-			if partner.Instance.InstanceId > p.Instance.InstanceId {
+			if !ok || partner.newerThan(&p) {
 				found = true
 				discovered[partner.Instance.Id] = partner
 			}
-- 
2.43.0


From 8953205d395b6a8a1f48e4574a8cc09c65934a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 26/32] fix: a message that is sent again carries headers for
 its new receiver, and one partner header about its sender

The headers of the first send stayed, the receiver in them included, and what
the node had been told about itself was added to its own information.
---
 federation/sitenode_sender.go | 7 ++++++-
 transport/messageheaders.go   | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 8108dfd..6246a75 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -98,6 +98,11 @@ const maxPartnerInfoSize = 48 * 1024
 func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 	phase, _ := s.currentPhase()
 
+	// what an earlier send of the message has added is not for this one
+	msg.Headers.RemoveCustomHeaders(transport.MessageHeaderIdTypeFederationPartnerNode)
+	msg.Headers.RemoveCustomHeaders(transport.MessageHeaderIdTypePToP)
+	msg.Headers.RemoveCustomHeaders(transport.MessageHeaderIdTypeRouting)
+
 	// add self
 	msg.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{
 		PartnerNodeInfo: PartnerNodeInfo{
@@ -110,7 +115,7 @@ func (s *SiteNode) appendPartnerInfo(msg *transport.Message) {
 
 	size := 0
 	for _, p := range s.KnownPartnerNodes(func(pn PartnerNodeInfo) bool {
-		return pn.Instance.InstanceId > 0
+		return pn.Instance.InstanceId > 0 && pn.Instance.Id != s.instance.Id
 	}) {
 		header, err := serialization.Marshal(&FederationPartnerNodeHeader{
 			PartnerNodeInfo: p,
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index f455daa..fb43680 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -111,6 +111,10 @@ func (h *MessageHeaders) AppendCustomHeader(typ MessageHeaderIdType, header ...i
 	return true
 }
 
+func (h *MessageHeaders) RemoveCustomHeaders(typ MessageHeaderIdType) {
+	delete(h.customHeaders, typ)
+}
+
 func (h *MessageHeaders) writeTo(w io.Writer) error {
 
 	if err := writeMessageHeader(w, MessageHeaderIdTypeMessageId, &h.Id); err != nil {
-- 
2.43.0


From 702e5b991239af92fcb30f54b2038d609df6d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 27/32] fix: connections to partners are shared, dialled again
 and closed without races

A failed dial left its error, or no connection at all and a panic, to callers
that came at the same time; the end of an old connection removed the one that
had replaced it; closing the node missed connections being dialled, and calls
waiting for a reply.
---
 federation/sitenode.go        |  24 +++++--
 federation/sitenode_sender.go | 116 ++++++++++++++++++++--------------
 2 files changed, 85 insertions(+), 55 deletions(-)

diff --git a/federation/sitenode.go b/federation/sitenode.go
index 720c1e9..a7f6c86 100644
--- a/federation/sitenode.go
+++ b/federation/sitenode.go
@@ -23,7 +23,10 @@ type SiteNode struct {
 	messageIdGenerator transport.MessageIdGenerator
 	requestTable       transport.RequestTable
 	clientDialer       Dialer
-	connPool           sync.Map
+
+	connPool map[string]*cachedConn
+	connLock sync.Mutex
+	closed   bool
 
 	parteners       map[NodeID]*PartnerNodeInfo
 	partenersRWLock sync.RWMutex
@@ -63,6 +66,7 @@ func NewSiteNode(config SiteNodeConfig) (*SiteNode, error) {
 		phaseChanged:       make(chan int),
 		parteners:          make(map[NodeID]*PartnerNodeInfo),
 		messageIdGenerator: msgfac,
+		connPool:           make(map[string]*cachedConn),
 	}
 
 	copy(s.seedNodes, config.SeedNodes)
@@ -163,13 +167,21 @@ func (s *SiteNode) Close() error {
 	s.transportServer.Close()
 	s.leaseAgent.Close()
 
-	s.connPool.Range(func(key, value interface{}) bool {
-		if c, ok := value.(*cachedConn); ok {
-			c.Close()
+	s.connLock.Lock()
+	s.closed = true
+	var conns []*transport.Client
+	for _, c := range s.connPool {
+		if c.conn != nil { // else still dialing, closed when done
+			conns = append(conns, c.conn)
 		}
+	}
+	s.connLock.Unlock()
+
+	for _, c := range conns {
+		c.Close()
+	}
 
-		return true
-	})
+	s.requestTable.Close() // ends the waiting calls
 
 	return nil
 }
diff --git a/federation/sitenode_sender.go b/federation/sitenode_sender.go
index 6246a75..7191ec4 100644
--- a/federation/sitenode_sender.go
+++ b/federation/sitenode_sender.go
@@ -3,7 +3,6 @@ package federation
 import (
 	"context"
 	"fmt"
-	"sync"
 
 	"github.com/tg123/phabrik/common"
 	"github.com/tg123/phabrik/serialization"
@@ -12,69 +11,88 @@ import (
 
 type Dialer func(addr string) (*transport.Client, error)
 
+var errNodeClosed = fmt.Errorf("node closed")
+
 type cachedConn struct {
-	parent  *SiteNode
-	partner *PartnerNodeInfo
-	conn    *transport.Client
-	init    sync.Once
-	close   sync.Once
-	lasterr error
+	parent *SiteNode
+	addr   string
+	ready  chan struct{} // closed when conn and err are set
+	conn   *transport.Client
+	err    error
 }
 
-func (c *cachedConn) Conn() *transport.Client {
-	if c.conn != nil {
-		return c.conn
-	}
+// open dials and keeps the connection in the pool until it ends
+func (c *cachedConn) open() {
+	conn, err := c.parent.clientDialer(c.addr)
 
-	c.init.Do(func() {
-		conn, err := c.parent.clientDialer(c.partner.Address)
+	if err == nil {
+		conn.SetMessageCallback(c.parent.onMessage)
+	}
 
-		if err != nil {
-			c.lasterr = err
-			c.Close()
-			return
-		}
+	s := c.parent
+	s.connLock.Lock()
+	if err == nil && s.closed {
+		err = errNodeClosed
+		defer conn.Close()
+	}
+	if err != nil {
+		s.forget(c) // dial again next time
+	} else {
+		c.conn = conn
+	}
+	c.err = err
+	close(c.ready)
+	s.connLock.Unlock()
 
-		conn.SetMessageCallback(c.parent.onMessage)
+	if err != nil {
+		return
+	}
 
-		go func() {
-			defer c.Close()
-			conn.Wait()
-		}()
+	conn.Wait()
+	conn.Close()
 
-		c.conn = conn
-	})
+	s.connLock.Lock()
+	s.forget(c)
+	s.connLock.Unlock()
+}
 
-	return c.conn // maybe nil and will recreate if err
+// forget removes c from the pool, connLock is held
+func (s *SiteNode) forget(c *cachedConn) {
+	if s.connPool[c.addr] == c { // else there is a newer one
+		delete(s.connPool, c.addr)
+	}
 }
 
-func (c *cachedConn) Close() error {
-	cc, ok := c.parent.connPool.LoadAndDelete(c.partner.Address)
-	if !ok {
-		return nil
+func (s *SiteNode) getConn(ctx context.Context, p *PartnerNodeInfo) (*transport.Client, error) {
+	s.connLock.Lock()
+
+	if s.closed {
+		s.connLock.Unlock()
+		return nil, errNodeClosed
 	}
 
-	cc.(*cachedConn).close.Do(func() {
-		tc := cc.(*cachedConn).conn
-		if tc != nil {
-			tc.Close()
+	c, ok := s.connPool[p.Address]
+	if !ok {
+		c = &cachedConn{
+			parent: s,
+			addr:   p.Address,
+			ready:  make(chan struct{}),
 		}
-	})
-
-	return nil
-}
+		s.connPool[p.Address] = c
+		go c.open()
+	}
 
-func (s *SiteNode) getConn(p *PartnerNodeInfo) (*transport.Client, error) {
-	c, _ := s.connPool.LoadOrStore(p.Address, &cachedConn{
-		parent:  s,
-		partner: p,
-	})
+	s.connLock.Unlock()
 
-	cc := c.(*cachedConn)
-	return cc.Conn(), cc.lasterr
+	select {
+	case <-c.ready:
+		return c.conn, c.err
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
 }
 
-func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
+func (s *SiteNode) connectToNode(ctx context.Context, id NodeID, match bool) (*transport.Client, *PartnerNodeInfo, error) {
 
 	t := s.closestPartnerNode(id, func(p PartnerNodeInfo) bool {
 		if p.Instance.Id == s.instance.Id {
@@ -88,7 +106,7 @@ func (s *SiteNode) connectToNode(id NodeID, match bool) (*transport.Client, *Par
 		return nil, nil, fmt.Errorf("%v not found", id)
 	}
 
-	c, err := s.getConn(t)
+	c, err := s.getConn(ctx, t)
 	return c, t, err
 }
 
@@ -136,7 +154,7 @@ func (s *SiteNode) fillMessageId(message *transport.Message) {
 }
 
 func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
-	c, t, err := s.connectToNode(id, true)
+	c, t, err := s.connectToNode(context.Background(), id, true)
 	if err != nil {
 		return err
 	}
@@ -155,7 +173,7 @@ func (s *SiteNode) SendOneWay(id NodeID, msg *transport.Message) error {
 }
 
 func (s *SiteNode) Route(ctx context.Context, id NodeID, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	c, t, err := s.connectToNode(id, false)
+	c, t, err := s.connectToNode(ctx, id, false)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 36cfe9f063263ff1bec622fe35d9636cc501d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 28/32] fix: naming calls end with their context

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a48055c24d208f1bda8d0f486b5c5b84d1b72a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 29/32] fix: naming calls report the failures a gateway answers
 with

---
 naming/naming.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..d3b6b8a 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -181,6 +181,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, err
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("%v failed, error code [%v]", msg.Headers.Action, reply.Headers.ErrorCode)
+	}
+
 	body := reply.Body
 	if reply.Headers.Action == "ClientOperationFailure" {
 		var b struct {
@@ -363,7 +367,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -384,5 +388,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no list")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From 8fd801a4633afc751761062a38164d2da9ed7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 30/32] fix: an unusable service notification is neither
 acknowledged nor delivered

---
 naming/naming.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index d3b6b8a..3a1ebe8 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -151,11 +151,18 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 		err := serialization.Unmarshal(bam.Body, &b)
 		if err != nil {
 			log.Printf("ServiceNotificationRequest unmarshal err %v", err)
+			return
+		}
+
+		if b.Notification == nil {
+			log.Printf("ServiceNotificationRequest without notification")
+			return
 		}
 
 		reply, err := NewNamingMessage("ServiceNotificationReply")
 		if err != nil {
 			log.Printf("ServiceNotificationRequest NewNamingMessage err %v", err)
+			return
 		}
 
 		reply.Headers.RelatesTo = bam.Headers.Id
-- 
2.43.0


From 539742f25032a4ac0eaa1eb1476a5acc542275a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 31/32] fix: connections synchronise SetMessageCallback with
 Wait

---
 transport/conn.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index ef72d68..53231f4 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -32,6 +32,7 @@ type Conn interface {
 }
 
 type connection struct {
+	callbackLock    sync.Mutex
 	messageCallback MessageCallback
 	conn            net.Conn
 	requestTable    RequestTable
@@ -130,9 +131,17 @@ func (c *connection) setTls() {
 }
 
 func (c *connection) SetMessageCallback(cb MessageCallback) {
+	c.callbackLock.Lock()
+	defer c.callbackLock.Unlock()
 	c.messageCallback = cb
 }
 
+func (c *connection) callback() MessageCallback {
+	c.callbackLock.Lock()
+	defer c.callbackLock.Unlock()
+	return c.messageCallback
+}
+
 func (c *connection) setFatal(err error) {
 	c.fatalLock.Lock()
 	defer c.fatalLock.Unlock()
@@ -312,8 +321,8 @@ func (c *connection) Wait() error {
 		}
 
 		if !c.requestTable.Feed(msg) {
-			if c.messageCallback != nil {
-				c.messageCallback(c, msg)
+			if cb := c.callback(); cb != nil {
+				cb(c, msg)
 			}
 		}
 	}
-- 
2.43.0


From 99895d39d1d4ca8e1f11a6a48c9b53229b9cb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 32/32] fix: servers synchronise SetMessageCallback with Serve

---
 transport/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/transport/server.go b/transport/server.go
index 35f7fea..e1b90ea 100644
--- a/transport/server.go
+++ b/transport/server.go
@@ -3,10 +3,12 @@ package transport
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type Server struct {
 	listener        net.Listener
+	callbackLock    sync.Mutex
 	messageCallback MessageCallback
 	config          ServerConfig
 }
@@ -38,8 +40,12 @@ func (s *Server) Addr() net.Addr {
 }
 
 func (s *Server) onMessage(conn Conn, msg *ByteArrayMessage) {
-	if s.messageCallback != nil {
-		go s.messageCallback(conn, msg)
+	s.callbackLock.Lock()
+	cb := s.messageCallback
+	s.callbackLock.Unlock()
+
+	if cb != nil {
+		go cb(conn, msg)
 	}
 }
 
@@ -57,6 +63,8 @@ func (s *Server) handle(conn net.Conn) error {
 }
 
 func (s *Server) SetMessageCallback(cb MessageCallback) {
+	s.callbackLock.Lock()
+	defer s.callbackLock.Unlock()
 	s.messageCallback = cb
 }
 
-- 
2.43.0

