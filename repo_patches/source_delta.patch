From b1e33eb5b47e2a34b5098910228e4c22003b874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 01/19] fix: give each request its own request-scoped map

copyContext aliased PerRequestContext to PerConnectionContext, so values (and the
cached router type and url pattern) of one request were seen by every other
request of the connection and misrouted later messages.
---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 3c656df..d5e045e 100644
--- a/context.go
+++ b/context.go
@@ -89,7 +89,7 @@ func copyContext(ctx Context) *Context {
 		Addr:       ctx.Addr,
 		//UDPSession:           ctx.UDPSession,
 		PerConnectionContext: ctx.PerConnectionContext,
-		PerRequestContext:    ctx.PerConnectionContext,
+		PerRequestContext:    &sync.Map{},
 		Packx:                ctx.Packx,
 		Stream:               ctx.Stream,
 		offset:               ctx.offset,
-- 
2.43.0


From cf2580091c939624affa20d10bd38096ffb7307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 02/19] fix: do not lose a message whose last bytes arrive
 together with EOF

io.Reader allows n > 0 with io.EOF (crypto/tls does it on an orderly close);
readUntil threw those bytes away.
---
 packx.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packx.go b/packx.go
index a94f46c..3ce5174 100644
--- a/packx.go
+++ b/packx.go
@@ -495,16 +495,17 @@ func readUntil(reader io.Reader, buf []byte) error {
 	var offset int
 	for {
 		n, e := reader.Read(buf[offset:])
+		// a reader may return the last bytes together with its error, they are valid
+		offset += n
+		if offset >= len(buf) {
+			break
+		}
 		if e != nil {
 			if e == io.EOF {
 				return e
 			}
 			return errorx.Wrap(e)
 		}
-		offset += n
-		if offset >= len(buf) {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From d34ab066f5d1688e8c9d4e1c15fe9edbe634c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:56 +0000
Subject: [PATCH 03/19] fix: report impossible length fields as errors instead
 of panicking

Negative or inconsistent length fields made the frame readers, HeaderBytesOf,
BodyBytesOf and UnpackWithMarshaller panic; in a handler goroutine, or for an udp
datagram, that ended the process.
---
 packx.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/packx.go b/packx.go
index 3ce5174..4e330b3 100644
--- a/packx.go
+++ b/packx.go
@@ -219,6 +219,9 @@ func HeaderBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 {
+		return nil, errors.New(fmt.Sprintf("bad header length %d", headerLen))
+	}
 	if len(stream) < 16+int(headerLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)))
 	}
@@ -260,6 +263,9 @@ func BodyBytesOf(stream []byte) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if headerLen < 0 || bodyLen < 0 {
+		return nil, errors.New(fmt.Sprintf("bad header length %d or body length %d", headerLen, bodyLen))
+	}
 	if len(stream) < 16+int(headerLen)+int(bodyLen) {
 		return nil, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16+int(headerLen)+int(bodyLen)))
 	}
@@ -360,8 +366,14 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 		marshaller = JsonMarshaller{}
 	}
 	var e error
+	if len(stream) < 16 {
+		return Message{}, errors.New(fmt.Sprintf("stream lenth should be bigger than %d", 16))
+	}
 	// 包长
 	length := binary.BigEndian.Uint32(stream[0:4])
+	if uint64(length) < 12 || uint64(len(stream)) < uint64(length)+4 {
+		return Message{}, errors.New(fmt.Sprintf("bad stream length %d, got %d bytes", length, len(stream)))
+	}
 	stream = stream[0 : length+4]
 	// messageID
 	messageID := binary.BigEndian.Uint32(stream[4:8])
@@ -369,6 +381,9 @@ func UnpackWithMarshaller(stream []byte, dest interface{}, marshaller Marshaller
 	headerLength := binary.BigEndian.Uint32(stream[8:12])
 	// body长度
 	bodyLength := binary.BigEndian.Uint32(stream[12:16])
+	if uint64(len(stream)) < 16+uint64(headerLength)+uint64(bodyLength) {
+		return Message{}, errors.New(fmt.Sprintf("bad header length %d or body length %d in a stream of %d bytes", headerLength, bodyLength, len(stream)))
+	}
 	// header
 	var header map[string]interface{}
 	if headerLength != 0 {
@@ -445,6 +460,9 @@ func UnpackToBlockFromReader(reader io.Reader) ([]byte, error) {
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("recv message with bad length (%d)", length)
+	}
 	var content = make([]byte, length, length)
 	if e := readUntil(reader, content); e != nil {
 		if e == io.EOF {
@@ -472,6 +490,9 @@ func UnpackToBlockFromReaderLimitMaxLengthOfByte(reader io.Reader, maxByTe int)
 	if e != nil {
 		return nil, e
 	}
+	if length < 0 {
+		return nil, errorx.NewFromStringf("recv message with bad length (%d)", length)
+	}
 
 	if length > int32(maxByTe) {
 		return nil, errorx.NewFromStringf("recv message beyond max byte length limit(%d), got (%d)", maxByTe, length)
-- 
2.43.0


From 1bd0b3cf1f5ef5f7d27138e436eb703572d4dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:56 +0000
Subject: [PATCH 04/19] fix: survive truncated and malformed pipelined batches

A batch cut short left nil contexts in the slice and crashed the process in
handlePipe, the announced count was allocated up front, a count below 1 panicked,
and after a read error inside a batch the reader went on in the middle of a frame.
Only blocks really received are handled now, and the connection is closed.
---
 tcpx.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index aa3e907..7015c1b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -582,22 +582,25 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 				if isPipe {
 					// fmt.Println("recv pipe", isPipe, restN)
-					ctxs := make([]*Context, restN+1)
-					ctxs[0] = tmpContext
+					// ctxs only grows with blocks really received, restN is just what the client announced
+					ctxs := []*Context{tmpContext}
 					for i := 1; i < restN+1; i++ {
 						ctx.Stream, e = ctx.Packx.FirstBlockOfLimitMaxByte(ctx.Conn, tcpx.maxByte)
 						if e != nil {
-							if e == io.EOF {
-								break
+							if e != io.EOF {
+								Logger.Println(e)
 							}
-							Logger.Println(e)
 							break
 						}
 						tmpContext := copyContext(*ctx)
-						ctxs[i] = tmpContext
+						ctxs = append(ctxs, tmpContext)
 					}
 
 					go handlePipe(ctxs, tcpx)
+					if e != nil {
+						// the stream has ended or can't be read on from here, conn will close
+						break
+					}
 				} else {
 					go handleMiddleware(tmpContext, tcpx)
 				}
@@ -1258,6 +1261,9 @@ func isPipe(block []byte) (bool, int, error) {
 		return false, 0, errorx.NewFromStringf("bad pipe args length, should format as 'enable:<length>' but got %s,\n %v", arr[1], err)
 	}
 	if arr[0] == "enable" {
+		if length < 1 {
+			return false, 0, errorx.NewFromStringf("bad pipe args length, should be at least 1 but got %d", length)
+		}
 		return true, length - 1, nil
 	}
 	return false, 0, nil
-- 
2.43.0


From 3897e15ba002be10eafd639359c7b88d895632a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:16 +0000
Subject: [PATCH 05/19] fix: a closing connection only removes its own
 registration from the pool

Offline (and so CloseConn) removed whatever connection was registered under the
name, also a newer one, and Online on a connection that was just being closed left
it in the pool for ever.
---
 client-pool.go | 22 ++++++++++++++++++++++
 context.go     | 15 ++++++++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 9fd3efd..8ec8f0b 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -1,6 +1,7 @@
 package tcpx
 
 import (
+	"errors"
 	"sync"
 )
 
@@ -48,6 +49,27 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// register ctx's connection as username, unless the connection has been closed
+func (cp *ClientPool) onlineConn(username string, ctx *Context) error {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if ctx.IsOffline() {
+		return errors.New("connection has been closed, can't online")
+	}
+	cp.Clients[username] = ctx
+	return nil
+}
+
+// remove username, unless it has been taken over by another connection.
+// userState is shared among all contexts of a connection.
+func (cp *ClientPool) offlineConn(username string, ctx *Context) {
+	cp.m.Lock()
+	defer cp.m.Unlock()
+	if current, ok := cp.Clients[username]; ok && current != nil && current.userState == ctx.userState {
+		delete(cp.Clients, username)
+	}
+}
+
 // Whether username found in pool.
 // Can't tell whether conn is close or not
 func (cp *ClientPool) isOnline(username string) bool {
diff --git a/context.go b/context.go
index d5e045e..a699837 100644
--- a/context.go
+++ b/context.go
@@ -136,8 +136,7 @@ func (ctx *Context) Online(username string) error {
 	if ctx.poolRef == nil {
 		return errors.New("ctx.poolRef is nil, did you call 'tcpX.WithBuiltInPool(true)' or 'tcpX.SetPool(pool *tcpx.ClientPool)' yet")
 	}
-	ctx.poolRef.Online(username, ctx)
-	return nil
+	return ctx.poolRef.onlineConn(username, ctx)
 }
 
 // Only used when tcpX instance's builtInPool is true,
@@ -168,7 +167,7 @@ func (ctx *Context) Offline() error {
 	if !ok {
 		return errors.New("offline username  empty, did you call c.Online(username string) yet")
 	}
-	ctx.poolRef.Offline(username)
+	ctx.poolRef.offlineConn(username, ctx)
 	return nil
 }
 
@@ -281,13 +280,15 @@ func (ctx *Context) CloseConn() error {
 				close(ctx.recvEnd)
 			})
 		}
+		// state turns offline before leaving the pool, so that a concurrent ctx.Online() can't stay behind in it
+		func() {
+			ctx.L.Lock()
+			defer ctx.L.Unlock()
+			*(ctx.userState) = CONTEXT_OFFLINE
+		}()
 		if ctx.poolRef != nil {
 			ctx.Offline()
 		}
-
-		ctx.L.Lock()
-		defer ctx.L.Unlock()
-		*(ctx.userState) = CONTEXT_OFFLINE
 	}()
 
 	switch ctx.ConnectionProtocolType() {
-- 
2.43.0


From 2a2e95c9affc6b7919c4afacdf3d320e59629277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 06/19] fix: heartbeat and auth signals never block their
 handlers

The channels have room for one signal and their reader ends with the connection or
the first auth result, so later signals blocked their handler goroutine for ever.
---
 context.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index a699837..72e4d7b 100644
--- a/context.go
+++ b/context.go
@@ -638,7 +638,11 @@ func (ctx *Context) HeartBeatChan() chan int {
 
 // RecvHeartBeat
 func (ctx *Context) RecvHeartBeat() {
-	ctx.HeartBeatChan() <- 1
+	select {
+	case ctx.HeartBeatChan() <- 1:
+	default:
+		// a heartbeat is already waiting to be seen
+	}
 }
 
 // Send to another conn index via username.
@@ -672,11 +676,19 @@ func (ctx *Context) AuthChan() <-chan int {
 
 func (ctx *Context) RecvAuthPass() {
 	const PASS = 1
-	ctx.recvAuth <- PASS
+	ctx.sendAuth(PASS)
 }
 func (ctx *Context) RecvAuthDeny() {
 	const DENY = -1
-	ctx.recvAuth <- DENY
+	ctx.sendAuth(DENY)
+}
+
+// the first signal decides, a repeated one must not block its handler
+func (ctx *Context) sendAuth(signal int) {
+	select {
+	case ctx.recvAuth <- signal:
+	default:
+	}
 }
 
 // Decode ctx.Stream.Header["Router-Type"], expected 'MESSAGE_ID', 'URL_PATTERN'
-- 
2.43.0


From afdad03af83937c5c8b8358b9cb72af34e7727ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 07/19] fix: heartbeat handler and watcher always share one
 channel

Both create it on first use; when they did so at the same time the first heartbeat
went to a channel nobody was waiting on.
---
 context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 72e4d7b..b557c22 100644
--- a/context.go
+++ b/context.go
@@ -622,8 +622,12 @@ func (ctx *Context) RawStream() ([]byte, error) {
 func (ctx *Context) HeartBeatChan() chan int {
 	channel, ok := ctx.GetCtxPerConn("tcpx-heart-beat-channel")
 	if !ok {
-		channel = make(chan int, 1)
-		ctx.setCtxPerConn("tcpx-heart-beat-channel", channel)
+		// might be called by the handler and the watching goroutine at the same time, they must get the same channel
+		var scope = ctx.PerConnectionContext
+		if ctx.ConnectionProtocolType() == "udp" {
+			scope = ctx.PerRequestContext
+		}
+		channel, _ = scope.LoadOrStore("tcpx-heart-beat-channel", make(chan int, 1))
 		return channel.(chan int)
 	} else {
 		tmp, ok := channel.(chan int)
-- 
2.43.0


From a0be795c460b3f7c950a39780251d25365395f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:18 +0000
Subject: [PATCH 08/19] fix: using a middleware again after UnUse takes effect

Use only updated the map of anchors, not the slice the chains are built from.
---
 tcpx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpx.go b/tcpx.go
index 7015c1b..3f10fd5 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -281,7 +281,7 @@ func (tcpx *TcpX) Use(mids ...interface{}) {
 		middlewareAnchor, ok := tcpx.Mux.MiddlewareAnchorMap[middlewareKey]
 		if ok {
 			middlewareAnchor.callUse(tcpx.Mux.CurrentAnchorIndex())
-			tcpx.Mux.MiddlewareAnchorMap[middlewareKey] = middlewareAnchor
+			tcpx.Mux.ReplaceMiddlewareAnchor(middlewareAnchor)
 		} else {
 			var middlewareAnchor MiddlewareAnchor
 			middlewareAnchor.Middleware = middleware
-- 
2.43.0


From c5249e72f0e1c482a6a9f97cd7d325b2ef797ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:19 +0000
Subject: [PATCH 09/19] fix: Any registers several handlers once, not twice

---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 3f10fd5..70a1666 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -347,9 +347,6 @@ func (tcpx *TcpX) Any(urlPattern string, handlers ...func(ctx *Context)) {
 	if len(handlers) <= 0 {
 		panic(errorx.NewFromStringf("handlers should more than 1 but got %d", len(handlers)))
 	}
-	if len(handlers) > 1 {
-		tcpx.Mux.urlMux.AddURLPatternHandler(urlPattern, handlers...)
-	}
 
 	//f := handlers[len(handlers)-1]
 	//if tcpx.Mux == nil {
-- 
2.43.0


From 58216adab980338ad2b6068b91b9463e4347b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:19 +0000
Subject: [PATCH 10/19] fix: message id 0 runs its middleware when heartbeat
 and auth are off

Their message ids default to 0, so a route with id 0 was taken for a heartbeat.
---
 tcpx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 70a1666..fe80c26 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -899,12 +899,12 @@ func handleMessageIDHandlers(ctx *Context, tcpx *TcpX) {
 		Logger.Println(fmt.Sprintf("messageID %d handler not found", messageID))
 		return
 	}
-	if messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
+	if tcpx.HeartBeatOn && messageID == tcpx.HeartBeatMessageID && !tcpx.ThroughMiddleware {
 		handler(ctx)
 		return
 	}
 
-	if messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
+	if tcpx.auth && messageID == tcpx.AuthMessageID && !tcpx.AuthThroughMiddleware {
 		handler(ctx)
 		return
 	}
-- 
2.43.0


From 4a78bd3f1f24d5955a6673d56f269ab6edad2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:20 +0000
Subject: [PATCH 11/19] fix: SetDeadline on the server takes effect

The unset (zero) read and write deadlines reset it on every connection.
---
 tcpx.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index fe80c26..fa4e0c5 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -167,6 +167,23 @@ func (tcpx *TcpX) SetWriteDeadline(t time.Time) {
 	tcpx.writeDeadLine = t
 }
 
+// Set the deadlines which are configured. A deadline not configured must not reset one that is.
+func (tcpx *TcpX) applyDeadlines(conn interface {
+	SetDeadline(t time.Time) error
+	SetReadDeadline(t time.Time) error
+	SetWriteDeadline(t time.Time) error
+}) {
+	if !tcpx.deadLine.IsZero() {
+		conn.SetDeadline(tcpx.deadLine)
+	}
+	if !tcpx.readDeadLine.IsZero() {
+		conn.SetReadDeadline(tcpx.readDeadLine)
+	}
+	if !tcpx.writeDeadLine.IsZero() {
+		conn.SetWriteDeadline(tcpx.writeDeadLine)
+	}
+}
+
 // Whether using signal-broadcast.
 // Used for these situations:
 // closeAllSignal - close all connection and remove them from the built-in pool
@@ -443,9 +460,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -521,9 +536,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		}
 
 		// SetDeadline
-		conn.SetDeadline(tcpx.deadLine)
-		conn.SetReadDeadline(tcpx.readDeadLine)
-		conn.SetWriteDeadline(tcpx.writeDeadLine)
+		tcpx.applyDeadlines(conn)
 
 		ctx := NewContext(conn, tcpx.Packx.Marshaller)
 
@@ -645,9 +658,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 
 	tcpx.openState()
 
-	conn.SetDeadline(tcpx.deadLine)
-	conn.SetReadDeadline(tcpx.readDeadLine)
-	conn.SetWriteDeadline(tcpx.writeDeadLine)
+	tcpx.applyDeadlines(conn)
 
 	// listen to incoming udp packets
 	go func(conn net.PacketConn, tcpx *TcpX) {
-- 
2.43.0


From a5d9c4aff727baa173333522b12b7013465308ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:21 +0000
Subject: [PATCH 12/19] fix: BeforeExit does not miss a signal

signal.Notify drops a signal when the channel has no room and nobody is receiving
yet, and the registration itself raced with the return of BeforeExit.
---
 tcpx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index fa4e0c5..512b633 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1128,14 +1128,15 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 
 // Before exist do ending jobs
 func (tcpx *TcpX) BeforeExit(f ...func()) {
+	// buffered, package signal does not wait for a receiver
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 	go func() {
 		defer func() {
 			if e := recover(); e != nil {
 				fmt.Println(fmt.Sprintf("panic from %v", e))
 			}
 		}()
-		ch := make(chan os.Signal)
-		signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGKILL, syscall.SIGQUIT)
 		fmt.Println("receive signal:", <-ch)
 		fmt.Println("prepare to stop server")
 		for _, handler := range f {
-- 
2.43.0


From 73f48c2d8f57bdd73bbd5747110a1a3442160550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:21 +0000
Subject: [PATCH 13/19] fix: do not start connection watchers for udp datagrams

All datagrams share one socket. Each datagram left its watching goroutines behind,
and with heartbeat on the socket was closed three intervals after the first one.
---
 tcpx.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 512b633..e64f22b 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -692,9 +692,6 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 			}
 			ctx := NewUDPContext(conn, addr, tcpx.Packx.Marshaller)
 
-			go broadcastSignalWatch(ctx, tcpx)
-
-			go heartBeatWatch(ctx, tcpx)
 			if tcpx.builtInPool {
 				ctx.poolRef = tcpx.pool
 			}
-- 
2.43.0


From 3f3a09c62ebd30c490b6628b71a1d3c566312fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 14/19] fix: a temporary accept error does not end the server

Running out of file descriptors for a moment stopped the service on that address.
---
 tcpx.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tcpx.go b/tcpx.go
index e64f22b..3e91097 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -29,6 +29,9 @@ const (
 	STATE_STOP    = 2
 
 	PIPED = "[tcpx-buffer-in-serial]"
+
+	// wait after a temporary accept error
+	acceptRetryInterval = 50 * time.Millisecond
 )
 
 // OnMessage and mux are opposite.
@@ -456,6 +459,11 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 		conn, err := listener.Accept()
 		if err != nil {
 			log.Println(fmt.Sprintf(err.Error()))
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// like too many open files, it will pass
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			break
 		}
 
@@ -532,6 +540,11 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 		conn, err := listener.Accept()
 		if err != nil {
 			log.Println(fmt.Sprintf(err.Error()))
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				// like too many open files, it will pass
+				time.Sleep(acceptRetryInterval)
+				continue
+			}
 			break
 		}
 
-- 
2.43.0


From 3a3beb84bb45b39bc40ff043b0c53bbbffa17128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:36 +0000
Subject: [PATCH 15/19] fix: an udp server ends when it is stopped

ListenAndServeUDP never returned after Stop, and when the server was started again
before the old read loop noticed, that loop spun on its closed socket for ever.
---
 tcpx.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 3e91097..966a73d 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -674,7 +674,9 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	tcpx.applyDeadlines(conn)
 
 	// listen to incoming udp packets
+	done := make(chan struct{})
 	go func(conn net.PacketConn, tcpx *TcpX) {
+		defer close(done)
 		defer func() {
 			if e := recover(); e != nil {
 				Logger.Println(fmt.Sprintf("recover from panic %v", e))
@@ -696,6 +698,10 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 					break
 				}
 				Logger.Println(e.Error())
+				if ne, ok := e.(net.Error); !ok || !ne.Temporary() {
+					// conn is closed, srv might already be running again on another one
+					break
+				}
 				continue
 				//conn.Close()
 				//conn, err = net.ListenPacket(network, addr)
@@ -727,9 +733,8 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 		}
 	}(conn, tcpx)
 
-	select {}
-
-	//return nil
+	<-done
+	return nil
 }
 
 func ReadAllUDP(conn net.PacketConn, maxBufferSize ...int) ([]byte, net.Addr, error) {
-- 
2.43.0


From c19b1b8ca371f15d1da10581958505f4f1defff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:37 +0000
Subject: [PATCH 16/19] fix: Stop closes the listeners of every network

Only 'tcp', 'kcp' and 'udp' were closed; tcp4, tcp6, unix, udp4, udp6 kept accepting.
---
 tcpx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 966a73d..7c4d25c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -1176,12 +1176,12 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	func() {
 		tcpx.pLock.Lock()
 		defer tcpx.pLock.Unlock()
-		for i, v := range tcpx.properties {
-			switch v.Network {
-			case "kcp", "tcp":
-				tcpx.properties[i].Listener.(net.Listener).Close()
-			case "udp":
-				tcpx.properties[i].Listener.(net.PacketConn).Close()
+		for i := range tcpx.properties {
+			switch listener := tcpx.properties[i].Listener.(type) {
+			case net.Listener:
+				listener.Close()
+			case net.PacketConn:
+				listener.Close()
 			}
 		}
 	}()
-- 
2.43.0


From afabf2e2298baa8992079ddfcee3f0973cf92c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:37 +0000
Subject: [PATCH 17/19] fix: of several concurrent Stop calls only one succeeds

Checking and setting the state were separate steps; two callers passing the check
closed the same signal twice.
---
 tcpx.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 7c4d25c..2478a5c 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -643,10 +643,15 @@ func (tcpx *TcpX) openState() {
 
 // set srv state stopped
 // tcp, udp, kcp will stop for circle and close listener/conn
-func (tcpx *TcpX) stopState() {
+// returns false if it has already been stopped
+func (tcpx *TcpX) stopState() bool {
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
+	if tcpx.state == STATE_STOP {
+		return false
+	}
 	tcpx.state = STATE_STOP
+	return true
 }
 func (tcpx *TcpX) State() int {
 	tcpx.pLock.RLock()
@@ -1166,12 +1171,10 @@ func (tcpx *TcpX) BeforeExit(f ...func()) {
 // listener, but also kill all connections(stops their net.Conn, stop all sub-routine, clear the pool)
 func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 	fmt.Println("graceful stop")
-	if tcpx.State() == STATE_STOP {
+	if !tcpx.stopState() {
 		return errors.New("already stopped")
 	}
 
-	tcpx.stopState()
-
 	// close all listener
 	func() {
 		tcpx.pLock.Lock()
-- 
2.43.0


From 15a864c964a0283ade8dc33f18fcb1877c2341ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:38 +0000
Subject: [PATCH 18/19] fix: stopping with close-all closes every connection,
 and only then

- without broadcast signal and pool no connection was closed at all;
- with the pool, closing deadlocked, as CloseConn needs the pool lock held around it;
- the closed signal was never replaced: after a restart every new connection was
  closed at once and the next Stop(true) panicked;
- with heartbeat on, Stop(false) and Restart(false) closed the connections they
  promise to keep.
---
 client-pool.go | 11 +++++++
 tcpx.go        | 81 ++++++++++++++++++++++++--------------------------
 2 files changed, 50 insertions(+), 42 deletions(-)

diff --git a/client-pool.go b/client-pool.go
index 8ec8f0b..1217886 100644
--- a/client-pool.go
+++ b/client-pool.go
@@ -49,6 +49,17 @@ func (cp *ClientPool) Offline(username string) {
 	}
 }
 
+// a copy of the registered clients
+func (cp *ClientPool) clients() map[string]*Context {
+	cp.m.RLock()
+	defer cp.m.RUnlock()
+	var clients = make(map[string]*Context, len(cp.Clients))
+	for k, v := range cp.Clients {
+		clients[k] = v
+	}
+	return clients
+}
+
 // register ctx's connection as username, unless the connection has been closed
 func (cp *ClientPool) onlineConn(username string, ctx *Context) error {
 	cp.m.Lock()
diff --git a/tcpx.go b/tcpx.go
index 2478a5c..977d745 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -87,7 +87,7 @@ type TcpX struct {
 
 	// external for broadcast
 	withSignals    bool
-	closeAllSignal chan int // used to close all connection's spying goroutines, srv instance controls it
+	closeAllSignal chan int // used to close all connections and their spying goroutines, srv instance controls it. Once closed, it's replaced by a new one
 
 	// external for handle any stream
 	// only support tcp/kcp
@@ -115,6 +115,8 @@ func NewTcpX(marshaller Marshaller) *TcpX {
 		properties: make([]*PropertyCache, 0, 10),
 		pLock:      &sync.RWMutex{},
 		state:      2,
+
+		closeAllSignal: make(chan int, 1),
 	}
 }
 
@@ -451,6 +453,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 
 	defer listener.Close()
 	tcpx.openState()
+	closeAll := tcpx.closeAllChan()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -480,8 +483,8 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 			tcpx.OnConnect(ctx)
 		}
 
-		go broadcastSignalWatch(ctx, tcpx)
-		go heartBeatWatch(ctx, tcpx)
+		go broadcastSignalWatch(ctx, closeAll)
+		go heartBeatWatch(ctx, tcpx, closeAll)
 
 		go func(ctx *Context, tcpx *TcpX) {
 			defer func() {
@@ -532,6 +535,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 
 	defer listener.Close()
 	tcpx.openState()
+	closeAll := tcpx.closeAllChan()
 	for {
 
 		if tcpx.State() == STATE_STOP {
@@ -561,15 +565,13 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 			tcpx.OnConnect(ctx)
 		}
 
-		if tcpx.withSignals {
-			go broadcastSignalWatch(ctx, tcpx)
-		}
+		go broadcastSignalWatch(ctx, closeAll)
 
 		if tcpx.HeartBeatOn {
-			go heartBeatWatch(ctx, tcpx)
+			go heartBeatWatch(ctx, tcpx, closeAll)
 		}
 		if tcpx.auth {
-			go authWatch(ctx, tcpx)
+			go authWatch(ctx, tcpx, closeAll)
 		}
 
 		go func(ctx *Context, tcpx *TcpX) {
@@ -1055,7 +1057,7 @@ func handleRaw(ctx *Context, tcpx *TcpX) {
 // - tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
 // - ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
 // - time out receiving interval heartbeat pack.
-func heartBeatWatch(ctx *Context, tcpx *TcpX) {
+func heartBeatWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 	if tcpx.HeartBeatOn == true {
 		go func() {
 			defer func() {
@@ -1068,10 +1070,6 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 			var times int
 		L:
 			for {
-				if tcpx.State() == STATE_STOP {
-					ctx.CloseConn()
-					break L
-				}
 				select {
 				case <-ctx.HeartBeatChan():
 					times = 0
@@ -1089,7 +1087,7 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 						return
 					}
 					continue L
-				case <-tcpx.closeAllSignal:
+				case <-closeAll:
 					ctx.CloseConn()
 					return
 				case <-ctx.recvEnd:
@@ -1101,25 +1099,21 @@ func heartBeatWatch(ctx *Context, tcpx *TcpX) {
 }
 
 // Each connection will have this goroutine, it bind relation with tcpx server.
-// tcpx.closeAllSignal: when tcpx srv calls `srv.Stop()`, closeAllSignal will be closed and stop this watching goroutine.
+// closeAll: when tcpx srv calls `srv.Stop(true)`, closeAllSignal will be closed and stop this watching goroutine.
 // ctx.recvEnd: when connection's context calls 'ctx.CloseConn()', recvEnd will be closed and stop this watching goroutine.
-func broadcastSignalWatch(ctx *Context, tcpx *TcpX) {
-	if tcpx.withSignals == true {
-		for {
-			select {
-			case <-tcpx.closeAllSignal:
-				ctx.CloseConn()
-				return
-			case <-ctx.recvEnd:
-				return
-			}
-		}
+func broadcastSignalWatch(ctx *Context, closeAll <-chan int) {
+	select {
+	case <-closeAll:
+		ctx.CloseConn()
+		return
+	case <-ctx.recvEnd:
+		return
 	}
 }
 
 // Each connection will start this as goroutine when tcpx.auth is true.
 // It will start a handler to wait for an auth signal.
-func authWatch(ctx *Context, tcpx *TcpX) {
+func authWatch(ctx *Context, tcpx *TcpX, closeAll <-chan int) {
 	if tcpx.auth {
 		select {
 		case <-time.After(tcpx.authDeadline):
@@ -1136,7 +1130,7 @@ func authWatch(ctx *Context, tcpx *TcpX) {
 				ctx.CloseConn()
 				return
 			}
-		case <-tcpx.closeAllSignal:
+		case <-closeAll:
 			ctx.CloseConn()
 			return
 		case <-ctx.recvEnd:
@@ -1197,26 +1191,29 @@ func (tcpx *TcpX) Stop(closeAllConnection bool) error {
 }
 
 func (tcpx *TcpX) closeAllConnection() {
-	if tcpx.withSignals == true {
+	// connections of the next start watch a new signal
+	func() {
+		tcpx.pLock.Lock()
+		defer tcpx.pLock.Unlock()
 		close(tcpx.closeAllSignal)
-	} else {
-		if tcpx.pool != nil {
-			oldPool := tcpx.pool
-			go func() {
-				oldPool.m.Lock()
-				defer oldPool.m.Unlock()
-
-				for k, _ := range oldPool.Clients {
-					oldPool.Clients[k].CloseConn()
-					delete(oldPool.Clients, k)
-				}
-			}()
+		tcpx.closeAllSignal = make(chan int, 1)
+	}()
 
-			tcpx.pool = NewClientPool()
+	if tcpx.pool != nil {
+		// ctx.CloseConn() leaves the pool itself, so it can't be called with the pool locked
+		for username, ctx := range tcpx.pool.clients() {
+			ctx.CloseConn()
+			tcpx.pool.offlineConn(username, ctx)
 		}
 	}
 }
 
+func (tcpx *TcpX) closeAllChan() <-chan int {
+	tcpx.pLock.RLock()
+	defer tcpx.pLock.RUnlock()
+	return tcpx.closeAllSignal
+}
+
 // Graceful start an existed tcpx srv, former server is stopped by tcpX.Stop()
 func (tcpx *TcpX) Start() error {
 	if tcpx.State() == STATE_RUNNING {
-- 
2.43.0


From 6e75eb8a93ad4e70d0c1dcb29b5f8df27ae5bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 19/19] fix: Start serves every former address again, in its
 own mode

The goroutines shared one loop variable, so only the last address came back; raw
servers came back as framed ones and udp servers lost their buffer size.
---
 tcpx.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/tcpx.go b/tcpx.go
index 977d745..9169af6 100644
--- a/tcpx.go
+++ b/tcpx.go
@@ -105,6 +105,9 @@ type PropertyCache struct {
 	// only when network is 'tcp','kcp', Listener can assert to net.Listener.
 	// when network is 'udp', it can assert to net.PackConn
 	Listener interface{}
+
+	// serve the address again in the same mode, used by Start
+	serve func() error
 }
 
 // new an tcpx srv instance
@@ -412,7 +415,7 @@ func (tcpx *TcpX) checkPrepare() {
 	}
 }
 
-func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
+func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}, serve func() error) {
 
 	tcpx.pLock.Lock()
 	defer tcpx.pLock.Unlock()
@@ -425,6 +428,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 	for i, v := range tcpx.properties {
 		if v.Network == network && v.Port == addr {
 			tcpx.properties[i].Listener = listener
+			tcpx.properties[i].serve = serve
 			return
 		}
 	}
@@ -432,6 +436,7 @@ func (tcpx *TcpX) fillProperty(network, addr string, listener interface{}) {
 		Network:  network,
 		Port:     addr,
 		Listener: listener,
+		serve:    serve,
 	}
 	tcpx.properties = append(tcpx.properties, prop)
 }
@@ -449,7 +454,7 @@ func (tcpx *TcpX) ListenAndServeRaw(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeRaw(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -531,7 +536,7 @@ func (tcpx *TcpX) ListenAndServeTCP(network, addr string) error {
 	if err != nil {
 		return err
 	}
-	tcpx.fillProperty(network, addr, listener)
+	tcpx.fillProperty(network, addr, listener, func() error { return tcpx.ListenAndServeTCP(network, addr) })
 
 	defer listener.Close()
 	tcpx.openState()
@@ -674,7 +679,7 @@ func (tcpx *TcpX) ListenAndServeUDP(network, addr string, maxBufferSize ...int)
 	}
 	defer conn.Close()
 
-	tcpx.fillProperty(network, addr, conn)
+	tcpx.fillProperty(network, addr, conn, func() error { return tcpx.ListenAndServeUDP(network, addr, maxBufferSize...) })
 
 	tcpx.openState()
 
@@ -1220,15 +1225,20 @@ func (tcpx *TcpX) Start() error {
 		return errors.New("already running")
 	}
 
-	for _, v := range tcpx.properties {
+	tcpx.pLock.RLock()
+	properties := append([]*PropertyCache{}, tcpx.properties...)
+	tcpx.pLock.RUnlock()
+
+	for i := range properties {
+		network, port, serve := properties[i].Network, properties[i].Port, properties[i].serve
 		go func() {
 			defer func() {
 				if e := recover(); e != nil {
 					Logger.Println(fmt.Sprintf("panic from '%v' \n %s", e, debug.Stack()))
 				}
 			}()
-			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", v.Network, v.Port))
-			e := tcpx.ListenAndServe(v.Network, v.Port)
+			fmt.Println(fmt.Sprintf("graceful restart %s server on %s", network, port))
+			e := serve()
 			if e != nil {
 				Logger.Println(fmt.Sprintf("%s \n %s", e.Error(), debug.Stack()))
 			}
-- 
2.43.0

