From cce38b016fcf32b6113d3d3fde310f2c8cfd3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 01/22] fix: measure idle time with full resolution

activeTime was kept in whole seconds, so the measured idle interval was up to
a second too long and connections that were active were closed early.
---
 connection.go | 6 +++---
 server_std.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/connection.go b/connection.go
index e986a62..a4666b4 100644
--- a/connection.go
+++ b/connection.go
@@ -71,7 +71,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
+		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -86,7 +86,7 @@ func (c *Connection) UserBuffer() *[]byte {
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 		if intervals >= c.idleTime {
 			_ = c.Close()
 		} else {
@@ -171,7 +171,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().Unix())
+		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
 	if events&poller.EventErr != 0 {
diff --git a/server_std.go b/server_std.go
index 19679be..b4167dc 100644
--- a/server_std.go
+++ b/server_std.go
@@ -201,7 +201,7 @@ func NewConnection(
 	connection.connected.Set(true)
 
 	if connection.idleTime > 0 {
-		_ = connection.activeTime.Swap(time.Now().Unix())
+		_ = connection.activeTime.Swap(time.Now().UnixNano())
 		timer := connection.timingWheel.AfterFunc(connection.idleTime, connection.closeTimeoutConn())
 		connection.timer.Store(timer)
 	}
@@ -330,7 +330,7 @@ func (c *Connection) readLoop() {
 			buf = buf[:cap(buf)]
 
 			if c.idleTime > 0 {
-				_ = c.activeTime.Swap(time.Now().Unix())
+				_ = c.activeTime.Swap(time.Now().UnixNano())
 			}
 			c.inBufferLen.Swap(int64(c.inBuffer.Length()))
 		}
@@ -372,7 +372,7 @@ func (c *Connection) writeLoop() {
 			}
 
 			if c.idleTime > 0 {
-				_ = c.activeTime.Swap(time.Now().Unix())
+				_ = c.activeTime.Swap(time.Now().UnixNano())
 			}
 
 			c.outBufferLen.Swap(int64(c.outBuffer.Length()))
@@ -431,7 +431,7 @@ func (c *Connection) handlerProtocol(tmpBuffer *[]byte, buffer *ringbuffer.RingB
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
+		intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
 
 		if intervals >= c.idleTime {
 			_ = c.Close()
-- 
2.43.0


From 3e69613e1ee16f71f5340827c07db78e8991b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 02/22] fix: shut down the write side in the event loop

ShutdownWrite used the descriptor from any goroutine without looking whether
the connection was still open, so it could hit a descriptor that had been
closed and reused by another connection. Called from OnMessage it also shut
the socket before the reply was written: the websocket close reply was lost.
---
 connection.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index a4666b4..d79d739 100644
--- a/connection.go
+++ b/connection.go
@@ -155,7 +155,18 @@ func (c *Connection) Close() error {
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
 func (c *Connection) ShutdownWrite() error {
-	return unix.Shutdown(c.fd, unix.SHUT_WR)
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
+
+	c.loop.QueueInLoop(func() {
+		if c.connected.Get() {
+			if err := unix.Shutdown(c.fd, unix.SHUT_WR); err != nil {
+				log.Error("[ShutdownWrite]", err)
+			}
+		}
+	})
+	return nil
 }
 
 // ReadBufferLength read buffer 当前积压的数据长度
-- 
2.43.0


From 659bdc8db357ab43d3a567b611c2c15849eae0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 03/22] fix: keep WriteBufferLength current when sending from
 the loop queue

The length was published only after poller events, so a backlog built up by
Send was reported as 0 for as long as the peer did not read.
---
 connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection.go b/connection.go
index d79d739..2011452 100644
--- a/connection.go
+++ b/connection.go
@@ -334,6 +334,7 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 			_ = c.loop.EnableReadWrite(c.fd)
 		}
 	}
+	c.outBufferLen.Swap(int64(c.outBuffer.Length()))
 
 	return
 }
-- 
2.43.0


From 3dc02cd6605fd475e9804dd2e93084bde69fc152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 04/22] fix: close both listening descriptors when the listener
 is closed

---
 listener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/listener.go b/listener.go
index 20d78a4..d4c5517 100644
--- a/listener.go
+++ b/listener.go
@@ -97,6 +97,12 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 }
 
 func (l *listener) Close() error {
+	// file holds a duplicate of the listening descriptor, the address is
+	// released only when both are closed
+	if err := l.file.Close(); err != nil {
+		_ = l.listener.Close()
+		return err
+	}
 	return l.listener.Close()
 }
 
-- 
2.43.0


From 9c5f36bf80421e98291a72a747fe67c6a33a1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 05/22] fix: release the listening address when the server
 cannot be built

---
 listener.go | 7 +++++++
 server.go   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/listener.go b/listener.go
index d4c5517..3e52059 100644
--- a/listener.go
+++ b/listener.go
@@ -41,20 +41,26 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 
 	l, ok := ls.(*net.TCPListener)
 	if !ok {
+		_ = ls.Close()
 		return nil, errors.New("could not get file descriptor")
 	}
 
 	file, err := l.File()
 	if err != nil {
+		_ = ls.Close()
 		return nil, err
 	}
 	fd := int(file.Fd())
 	if err = unix.SetNonblock(fd, true); err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
 	loop, err := eventloop.New()
 	if err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
@@ -66,6 +72,7 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 		loop:     loop,
 	}
 	if err = loop.AddSocketAndEnableRead(fd, listener); err != nil {
+		_ = listener.Close()
 		return nil, err
 	}
 
diff --git a/server.go b/server.go
index ce117d2..e63b2f3 100644
--- a/server.go
+++ b/server.go
@@ -58,6 +58,7 @@ func NewServer(handler Handler, opts ...Option) (server *Server, err error) {
 			for j := 0; j < i; j++ {
 				_ = wloops[j].Stop()
 			}
+			_ = server.listener.Close()
 			return nil, err
 		}
 		wloops[i] = l
-- 
2.43.0


From 143c85b3f37e1b7638136ff6ceb129cd16b4d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 06/22] fix: run every close queued by Stop before the loop
 returns

---
 poller/epoll.go  | 7 ++++++-
 poller/kqueue.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index d233bd8..9ed3bd8 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -177,9 +177,14 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 		}
 
 		if wake {
+			// read running before the tasks are run: what was queued before
+			// Close must be run before returning
+			running := ep.running.Get()
 			handler(-1, 0)
 			wake = false
-			if !ep.running.Get() {
+			if !running {
+				// run the tasks queued by those that just ran
+				handler(-1, 0)
 				return
 			}
 		}
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 1a47e4c..c4136e1 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -193,9 +193,14 @@ func (p *Poller) Poll(handler func(fd int, event Event)) {
 		}
 
 		if wake {
+			// read running before the tasks are run: what was queued before
+			// Close must be run before returning
+			running := p.running.Get()
 			handler(-1, 0)
 			wake = false
-			if !p.running.Get() {
+			if !running {
+				// run the tasks queued by those that just ran
+				handler(-1, 0)
 				return
 			}
 		}
-- 
2.43.0


From a5df9f820d4fc914a4f1e5d0e43cd688035126aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 07/22] fix: let one of several concurrent Stop calls do the
 work

---
 poller/epoll.go  | 3 +--
 poller/kqueue.go | 3 +--
 server.go        | 4 +---
 server_std.go    | 6 ++----
 4 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index 9ed3bd8..4a50639 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -71,11 +71,10 @@ func (ep *Poller) wakeHandlerRead() {
 
 // Close 关闭 epoll
 func (ep *Poller) Close() (err error) {
-	if !ep.running.Get() {
+	if !ep.running.CompareAndSwap(true, false) {
 		return ErrClosed
 	}
 
-	ep.running.Set(false)
 	if err = ep.Wake(); err != nil {
 		return
 	}
diff --git a/poller/kqueue.go b/poller/kqueue.go
index c4136e1..fc7f546 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -53,11 +53,10 @@ func (p *Poller) Wake() error {
 
 // Close 关闭 kqueue
 func (p *Poller) Close() (err error) {
-	if !p.running.Get() {
+	if !p.running.CompareAndSwap(true, false) {
 		return ErrClosed
 	}
 
-	p.running.Set(false)
 	if err = p.Wake(); err != nil {
 		return
 	}
diff --git a/server.go b/server.go
index e63b2f3..03aa72d 100644
--- a/server.go
+++ b/server.go
@@ -108,9 +108,7 @@ func (s *Server) Start() {
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
-		s.running.Set(false)
-
+	if s.running.CompareAndSwap(true, false) {
 		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
diff --git a/server_std.go b/server_std.go
index b4167dc..1df55f9 100644
--- a/server_std.go
+++ b/server_std.go
@@ -114,9 +114,8 @@ func (s *Server) Start() {
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
+	if s.running.CompareAndSwap(true, false) {
 		close(s.dying)
-		s.running.Set(false)
 
 		s.timingWheel.Stop()
 		if err := s.listener.Close(); err != nil {
@@ -263,9 +262,8 @@ func (c *Connection) Send(data interface{}, opts ...ConnectionOption) error {
 
 // Close 关闭连接
 func (c *Connection) Close() error {
-	if c.connected.Get() {
+	if c.connected.CompareAndSwap(true, false) {
 		close(c.dying)
-		c.connected.Set(false)
 		c.callBack.OnClose(c)
 
 		if v := c.timer.Load(); v != nil {
-- 
2.43.0


From af32466343e3b38a376d4881f10459105c562da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 08/22] fix: do not accept Stop before every loop is polling

---
 server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server.go b/server.go
index 03aa72d..e7b81cf 100644
--- a/server.go
+++ b/server.go
@@ -5,6 +5,7 @@ package gev
 import (
 	"errors"
 	"runtime"
+	stdsync "sync"
 	"time"
 
 	"github.com/Allenxuxu/gev/eventloop"
@@ -96,12 +97,19 @@ func (s *Server) Start() {
 	sw := sync.WaitGroupWrapper{}
 	s.timingWheel.Start()
 
+	// a loop can be stopped only once it is polling, and it runs its tasks
+	// only from then on
+	ready := stdsync.WaitGroup{}
 	length := len(s.workLoops)
+	ready.Add(length + 1)
 	for i := 0; i < length; i++ {
+		s.workLoops[i].QueueInLoop(ready.Done)
 		sw.AddAndRun(s.workLoops[i].Run)
 	}
 
+	s.listener.loop.QueueInLoop(ready.Done)
 	sw.AddAndRun(s.listener.Run)
+	ready.Wait()
 	s.running.Set(true)
 	sw.Wait()
 }
-- 
2.43.0


From dacb7cd0fb494fa00cd3dc33b78762c88d58ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 09/22] fix: close a connection that cannot be registered with
 its loop

---
 eventloop/eventloop.go | 8 +++++---
 server.go              | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..ad82d92 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -81,8 +81,10 @@ func (l *EventLoop) DeleteFdInLoop(fd int) {
 	if err := l.poll.Del(fd); err != nil {
 		log.Error("[DeleteFdInLoop]", err)
 	}
-	delete(l.sockets, fd)
-	l.ConnCunt.Add(-1)
+	if _, ok := l.sockets[fd]; ok {
+		delete(l.sockets, fd)
+		l.ConnCunt.Add(-1)
+	}
 }
 
 // AddSocketAndEnableRead 增加 Socket 到事件循环中，并注册可读事件
@@ -121,9 +123,9 @@ func (l *EventLoop) Stop() error {
 			}
 		}
 		l.sockets = nil
+		_ = l.ConnCunt.Swap(0)
 	})
 
-	_ = l.ConnCunt.Swap(0)
 	return l.poll.Close()
 }
 
diff --git a/server.go b/server.go
index e7b81cf..f0b0c52 100644
--- a/server.go
+++ b/server.go
@@ -88,6 +88,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
+			_ = c.Close()
 		}
 	})
 }
-- 
2.43.0


From 08ba5758110f95d35cffca0506c7970cce6766d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 10/22] fix: start the idle timer of a connection in its loop

---
 server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index f0b0c52..01e8aad 100644
--- a/server.go
+++ b/server.go
@@ -82,9 +82,11 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
-
 	loop.QueueInLoop(func() {
+		// the idle timer starts here: it must not close the connection before
+		// OnConnect
+		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
-- 
2.43.0


From 3891b0da48285ace23b7c961e0b9b53f125d4819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 11/22] fix: wait for a complete websocket frame header

---
 plugins/websocket/ws/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..dc9c5a6 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -53,6 +53,14 @@ func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err err
 		return
 	}
 
+	// Wait for the rest of the header, and for the first byte of the payload
+	// if there is one: a virtual read up to the end marks the buffer as empty.
+	if n := in.Length() - 2; n < extra || (n == extra && length != 0) {
+		in.VirtualRevert()
+		err = ErrHeaderNotReady
+		return
+	}
+
 	if extra == 0 {
 		return
 	}
-- 
2.43.0


From 0f9305cfc60480e098ccfe51e05188e4388a7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 12/22] fix: close the connection on a malformed websocket
 frame header

---
 plugins/websocket/protocol.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 97eecb8..781173e 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -41,6 +41,8 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		if err != nil {
 			if err != ws.ErrHeaderNotReady {
 				log.Error(err)
+				buffer.VirtualRevert()
+				_ = c.Close()
 			}
 			return
 		}
-- 
2.43.0


From f295048b7e4099b85b6a05f4c00f64574bcf069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 13/22] fix: deliver empty protobuf frames and reject malformed
 ones

---
 plugins/protobuf/protocol.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..77e2c30 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -2,6 +2,7 @@ package protobuf
 
 import (
 	"github.com/Allenxuxu/gev"
+	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/gobwas/pool/pbytes"
 )
@@ -25,13 +26,21 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
+		if length < 2 {
+			malformed(c, buffer)
+			return
+		}
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
 
 			typeLen := int(buffer.PeekUint16())
 			buffer.Retrieve(2)
+			if typeLen > length-2 {
+				malformed(c, buffer)
+				return
+			}
 
 			typeByte := pbytes.GetLen(typeLen)
 			_, _ = buffer.Read(typeByte)
@@ -49,6 +58,13 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 	return
 }
 
+// malformed drops what a peer that does not follow the protocol sent, and closes its connection
+func malformed(c *gev.Connection, buffer *ringbuffer.RingBuffer) {
+	log.Error("protobuf: malformed frame")
+	buffer.RetrieveAll()
+	_ = c.Close()
+}
+
 // Packet ...
 func (p *Protocol) Packet(c *gev.Connection, data interface{}) []byte {
 	return data.([]byte)
-- 
2.43.0


From 10faa778da75e97eb4d53170c8f8c32a3d8079f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 14/22] fix: answer websocket requests rejected on the request
 line

---
 plugins/websocket/ws/ws.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..5db36ec 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -224,9 +224,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0


From 3c94a589e8df80f6894322acdd869b27ca0a527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 15/22] fix: find the end of a websocket request that wraps
 around the buffer

---
 plugins/websocket/ws/ws.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 5db36ec..687529c 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -175,20 +175,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			headerSeenSecKey
 	)
 
-	first, end := in.PeekAll()
 	var data []byte
-	if index := bytes.Index(first, []byte("\r\n\r\n")); index != -1 {
+	if index := bytes.Index(in.Bytes(), []byte("\r\n\r\n")); index != -1 {
 		data = make([]byte, index+4)
 		if _, err = in.Read(data); err != nil {
 			return
 		}
-	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
-			data = make([]byte, index+4)
-			if _, err = in.Read(data); err != nil {
-				return
-			}
-		}
 	}
 
 	lines := bytes.Split(data, []byte("\r\n"))
-- 
2.43.0


From e5e5a8882c6721a2406e9a5adbe7b8a9434a4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 16/22] fix: record kqueue interest when the change succeeded

---
 poller/kqueue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/poller/kqueue.go b/poller/kqueue.go
index fc7f546..1979956 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -84,7 +84,7 @@ func (p *Poller) Del(fd int) error {
 
 	kEvents := p.kEvents(v.(Event), EventNone, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
 		p.sockets.Delete(fd)
 	}
 	return err
@@ -100,7 +100,7 @@ func (p *Poller) EnableReadWrite(fd int) error {
 	newEvents := EventWrite | EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
@@ -116,7 +116,7 @@ func (p *Poller) EnableRead(fd int) error {
 	newEvents := EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
-- 
2.43.0


From 003d075354b049afeea4a4e2fddb1026516ad0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 17/22] fix: refuse a negative websocket payload length

---
 plugins/websocket/ws/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/websocket/ws/write.go b/plugins/websocket/ws/write.go
index 988876f..1072458 100644
--- a/plugins/websocket/ws/write.go
+++ b/plugins/websocket/ws/write.go
@@ -57,6 +57,9 @@ func WriteHeader(h *Header) ([]byte, error) {
 
 	var n int
 	switch {
+	case h.Length < 0:
+		return nil, ErrHeaderLengthUnexpected
+
 	case h.Length <= len7:
 		bts[1] = byte(h.Length)
 		n = 2
-- 
2.43.0


From 1d9f1912f46b8cf5c5b5d579c920fe756ac69969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 18/22] fix: Poller.Wake after Close wrote to a closed
 descriptor

QueueInLoop (Connection.Send, a second Stop) may run while or after another
goroutine stops the loop: Wake then wrote eight bytes to the event descriptor's
number, which may already belong to another file.
---
 poller/epoll.go  | 13 +++++++++++++
 poller/kqueue.go | 12 ++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/poller/epoll.go b/poller/epoll.go
index 4a50639..e07de82 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -4,6 +4,7 @@ package poller
 
 import (
 	"runtime"
+	"sync"
 
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
@@ -20,6 +21,9 @@ type Poller struct {
 	buf      []byte
 	running  atomic.Bool
 	waitDone chan struct{}
+
+	mu     sync.RWMutex // held while eventFd is written or closed
+	closed bool
 }
 
 // Create 创建Poller
@@ -58,6 +62,12 @@ var wakeBytes = []byte{1, 0, 0, 0, 0, 0, 0, 0}
 
 // Wake 唤醒 epoll
 func (ep *Poller) Wake() error {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+	if ep.closed {
+		return ErrClosed
+	}
+
 	_, err := unix.Write(ep.eventFd, wakeBytes)
 	return err
 }
@@ -80,6 +90,9 @@ func (ep *Poller) Close() (err error) {
 	}
 
 	<-ep.waitDone
+	ep.mu.Lock()
+	defer ep.mu.Unlock()
+	ep.closed = true
 	_ = unix.Close(ep.fd)
 	_ = unix.Close(ep.eventFd)
 	return
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 1979956..61b700a 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -18,6 +18,9 @@ type Poller struct {
 	running  atomic.Bool
 	waitDone chan struct{}
 	sockets  sync.Map // [fd]events
+
+	mu     sync.RWMutex // held while fd is used to wake or closed
+	closed bool
 }
 
 // Create 创建Poller
@@ -43,6 +46,12 @@ func Create() (*Poller, error) {
 
 // Wake 唤醒 kqueue
 func (p *Poller) Wake() error {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	if p.closed {
+		return ErrClosed
+	}
+
 	_, err := unix.Kevent(p.fd, []unix.Kevent_t{{
 		Ident:  0,
 		Filter: unix.EVFILT_USER,
@@ -62,6 +71,9 @@ func (p *Poller) Close() (err error) {
 	}
 
 	<-p.waitDone
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	p.closed = true
 	_ = unix.Close(p.fd)
 	return
 }
-- 
2.43.0


From f217ebdd7ce761b869f543ee5bed15f6e854aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 19/22] fix: answer a complete websocket request with a
 malformed request line

---
 plugins/websocket/ws/ws.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 687529c..57730fc 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -191,7 +191,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
+	if err != nil && data == nil {
+		// The request is not complete yet.
 		return
 	}
 
@@ -205,6 +206,8 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
+		// The request line is malformed.
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
-- 
2.43.0


From 5e0329d72d2f83a2c1b3775848d93c8c02aa2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 20/22] fix: accept websocket requests of clients that send
 other connection options

---
 plugins/websocket/ws/http.go | 17 +++++++++++++----
 plugins/websocket/ws/ws.go   |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 91d3a1e..8c22262 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -56,10 +56,9 @@ var (
 )
 
 var (
-	specHeaderValueUpgrade         = []byte("websocket")
-	specHeaderValueConnection      = []byte("Upgrade")
-	specHeaderValueConnectionLower = []byte("upgrade")
-	specHeaderValueSecVersion      = []byte("13")
+	specHeaderValueUpgrade    = []byte("websocket")
+	specHeaderValueConnection = []byte("Upgrade")
+	specHeaderValueSecVersion = []byte("13")
 )
 
 var (
@@ -137,6 +136,16 @@ func httpParseHeaderLine(line []byte) (k, v []byte, ok bool) {
 	return k, v, true
 }
 
+// btsHasToken reports whether the comma separated list contains the token,
+// without regard to case.
+func btsHasToken(list, token []byte) (has bool) {
+	httphead.ScanTokens(list, func(v []byte) bool {
+		has = bytes.EqualFold(v, token)
+		return !has
+	})
+	return has
+}
+
 func btsSelectProtocol(h []byte, check func([]byte) bool) (ret string, ok bool) {
 	var selected []byte
 	ok = httphead.ScanTokens(h, func(v []byte) bool {
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 57730fc..d235d39 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -247,12 +247,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.Equal(v, specHeaderValueUpgrade) {
+			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
 			headerSeen |= headerSeenConnection
-			if !bytes.Equal(v, specHeaderValueConnection) && !bytes.Equal(v, specHeaderValueConnectionLower) {
+			if !btsHasToken(v, specHeaderValueConnection) {
 				err = ErrHandshakeBadConnection
 			}
 		case headerSecVersionCanonical:
-- 
2.43.0


From a6d7f1eeb7c110fc06757f4a2d64a87d1f90e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 21/22] fix: refuse websocket requests whose HTTP version is
 not a number

---
 plugins/websocket/ws/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/websocket/ws/util.go b/plugins/websocket/ws/util.go
index 5892314..0aaf6f8 100644
--- a/plugins/websocket/ws/util.go
+++ b/plugins/websocket/ws/util.go
@@ -14,8 +14,11 @@ func asciiToInt(bts []byte) (ret int, err error) {
 	if n = len(bts); n < 1 {
 		return 0, fmt.Errorf("converting empty bytes to int")
 	}
+	if n > 9 {
+		return 0, fmt.Errorf("%s is too big", string(bts))
+	}
 	for i := 0; i < n; i++ {
-		if bts[i]&0xf0 != 0x30 {
+		if bts[i] < '0' || bts[i] > '9' {
 			return 0, fmt.Errorf("%s is not a numeric character", string(bts[i]))
 		}
 		ret += int(bts[i]&0xf) * pow(10, n-i-1)
-- 
2.43.0


From 1f171fcecc72bfecbfb50d3bf14b240c85b835b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:30 +0000
Subject: [PATCH 22/22] fix: do not start the idle timers of connections at the
 same time

Timers that several loops start at once each make the timing wheel allocate its
next level (300 KB), of which all but one are thrown away.
---
 server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 01e8aad..cab13b2 100644
--- a/server.go
+++ b/server.go
@@ -31,6 +31,7 @@ type Server struct {
 	timingWheel *timingwheel.TimingWheel
 	opts        *Options
 	running     atomic.Bool
+	setup       stdsync.Mutex
 }
 
 // NewServer 创建 Server
@@ -84,8 +85,11 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 
 	loop.QueueInLoop(func() {
 		// the idle timer starts here: it must not close the connection before
-		// OnConnect
+		// OnConnect. One at a time: timers that are started at once each make
+		// the timing wheel allocate its next level.
+		s.setup.Lock()
 		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+		s.setup.Unlock()
 
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
-- 
2.43.0

