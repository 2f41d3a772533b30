From 6df1a1ecb4878abd2d9158f213251a41d4611e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 01/27] fix: accept UTF16 signals that carry only a name

---
 message/parseSignalUtf16.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..ee960f3 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -25,9 +25,14 @@ func (msg *Message) parseSignalUtf16() error {
 	// Read name length
 	nameLen := int(dat[1])
 
-	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
+	// Determine minimum required message length.
+	// There's at least a 2 byte header and a 2 byte payload expected
+	minMsgSize := MinLenSignalUtf16
 	payloadOffset := 2 + nameLen
+	if nameLen > 0 {
+		// ...unless a name is given, in which case the payload isn't required
+		minMsgSize = payloadOffset
+	}
 
 	// Check whether a name padding byte is to be expected
 	if nameLen%2 != 0 {
@@ -40,8 +45,7 @@ func (msg *Message) parseSignalUtf16() error {
 	// name length doesn't correspond to the actual name length
 	if msg.MsgBuffer.len < minMsgSize {
 		return fmt.Errorf(
-			"invalid signal message, too short for full name (%d) "+
-				"and the minimum payload (2)",
+			"invalid signal message, too short for full name (%d)",
 			nameLen,
 		)
 	}
-- 
2.43.0


From 729d2d26470d6b8454e7b72959f3fe696706b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 02/27] fix: decode UTF16 surrogate pairs when converting
 payloads to UTF8

---
 payload/payload.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..4de9a7a 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -21,13 +21,16 @@ func (pld *Payload) Utf8() ([]byte, error) {
 				"Cannot convert invalid UTF16 payload data to UTF8",
 			)
 		}
-		u16str := make([]uint16, 1)
+		// Decode the entire string at once because a single code point can span
+		// multiple code units (surrogate pairs)
+		u16str := make([]uint16, len(pld.Data)/2)
+		for i := range u16str {
+			u16str[i] = uint16(pld.Data[2*i]) + (uint16(pld.Data[2*i+1]) << 8)
+		}
 		utf8str := &bytes.Buffer{}
 		utf8buf := make([]byte, 4)
-		for i := 0; i < len(pld.Data); i += 2 {
-			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
-			rn := utf16.Decode(u16str)
-			rnSize := utf8.EncodeRune(utf8buf, rn[0])
+		for _, rn := range utf16.Decode(u16str) {
+			rnSize := utf8.EncodeRune(utf8buf, rn)
 			utf8str.Write(utf8buf[:rnSize])
 		}
 		return utf8str.Bytes(), nil
-- 
2.43.0


From 490c07a91e465271016437f9611eaa4e07b02c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 03/27] fix: don't accept truncated messages that exceed the
 message buffer

---
 message/buffer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..8f22ff3 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -32,9 +32,13 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	cursor := 0
 	for {
 		if cursor >= len(buf.buf) {
-			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			// Expect EOF on full buffer. Don't read into the buffer to not
+			// overwrite the data that was already read
+			readBytes, err := reader.Read(make([]byte, 1))
+			if readBytes < 1 && err == nil {
+				continue
+			}
+			if readBytes > 0 || err != io.EOF {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
-- 
2.43.0


From 5d0363e0dc5ddd6a22328cfcd1ce50f7e63222f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 04/27] fix: don't expose fields of the previous message when a
 message object is reused

---
 message/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/message/parse.go b/message/parse.go
index 11be7aa..2fc044f 100644
--- a/message/parse.go
+++ b/message/parse.go
@@ -13,6 +13,15 @@ func (msg *Message) parse() (parsedMsgType bool, err error) {
 	if msg.MsgBuffer.IsEmpty() {
 		return false, nil
 	}
+
+	// Reset the message to not expose any fields of a previous message
+	msg.MsgType = 0
+	msg.MsgIdentifier = [8]byte{}
+	msg.MsgIdentifierBytes = msg.MsgIdentifier[:]
+	msg.MsgName = nil
+	msg.MsgPayload = pld.Payload{}
+	msg.ServerConfiguration = ServerConfiguration{}
+
 	var payloadEncoding pld.Encoding
 	msgType := msg.MsgBuffer.buf[0:1][0]
 
-- 
2.43.0


From 49065f5d796ce7673771d496fa794e0d059f5490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 05/27] fix: don't panic when closing a message that doesn't
 belong to a pool

---
 message/message.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..60cb95c 100644
--- a/message/message.go
+++ b/message/message.go
@@ -309,6 +309,8 @@ func (msg *Message) Close() {
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
 
-	// Call closure callback
-	msg.onClose()
+	// Call closure callback (if any)
+	if msg.onClose != nil {
+		msg.onClose()
+	}
 }
-- 
2.43.0


From 26210a9e68ba48dc4c185634de45f26b622fb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 06/27] fix: resolve each pending request at most once

---
 requestManager/requestManager.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..16cd04a 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -50,12 +50,18 @@ func (manager *RequestManager) Create() *Request {
 	return newRequest
 }
 
-// deregister deregisters the given clients session from the list
-// of currently pending requests
-func (manager *RequestManager) deregister(identifier [8]byte) {
+// deregister removes the request associated with the given identifier from the
+// list of currently pending requests and returns it.
+// Returns false if there was no such pending request, therefore each request
+// can only ever be taken once
+func (manager *RequestManager) deregister(
+	identifier [8]byte,
+) (req *Request, exists bool) {
 	manager.lock.Lock()
+	req, exists = manager.pending[identifier]
 	delete(manager.pending, identifier)
 	manager.lock.Unlock()
+	return
 }
 
 // Fulfill fulfills the request associated with the given request identifier
@@ -63,15 +69,11 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
-
+	req, exists := manager.deregister(msg.MsgIdentifier)
 	if !exists {
 		return false
 	}
 
-	manager.deregister(msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
 	}
@@ -85,15 +87,11 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
-
+	req, exists := manager.deregister(identifier)
 	if !exists {
 		return false
 	}
 
-	manager.deregister(identifier)
 	req.Reply <- genericReply{
 		Error: err,
 	}
-- 
2.43.0


From 4db5ff11df065c8280f6754949b8a5ebd5ebb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 07/27] fix: don't crash when a request is refused on a lost
 connection during shutdown

---
 failMsg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..65951ff 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -109,6 +109,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
-- 
2.43.0


From bcd0bdf7327c89369197778eed642a31fc46170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 08/27] fix: ignore signals during shutdown and don't leak
 handler slots of refused messages

---
 registerHandler.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..f851f62 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -14,8 +14,6 @@ func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	failMsg := false
-
 	if !con.IsActive() {
 		return false
 	}
@@ -26,17 +24,22 @@ func (srv *server) registerHandler(
 	}
 
 	srv.opsLock.Lock()
-	if srv.shutdown {
-		// defer failure due to shutdown of either the server or the connection
-		failMsg = true
-	} else {
+	shutdown := srv.shutdown
+	if !shutdown {
 		srv.currentOps++
 	}
 	srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+	if shutdown {
+		// Release the handler slot
+		if con.options.ConcurrencyLimit > 1 {
+			con.handlerSlots.Release(1)
+		}
+
+		// Don't process the message, fail it if it expects a reply
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
-- 
2.43.0


From a246e47b5e4b9cf10536ca05c796dee39518c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 09/27] fix: refuse requests received on a connection that's
 being closed

---
 connection.go      | 11 ++++++++---
 registerHandler.go | 32 +++++++++++++++++++-------------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..6697a4e 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,16 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if the connection is being shut down
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
-	con.tasks++
+	isActive := con.isActive
+	if isActive {
+		con.tasks++
+	}
 	con.stateLock.Unlock()
+	return isActive
 }
 
 // deregisterTask decrements the number of currently executed tasks
diff --git a/registerHandler.go b/registerHandler.go
index f851f62..11d8268 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -9,40 +9,46 @@ import (
 // registerHandler increments the number of currently executed handlers for this
 // particular client and returns true if a handler was registered, otherwise
 // returns false. It blocks if the current number of max concurrent handlers was
-// reached until a handler slot is available
+// reached until a handler slot is available.
+// No handler is registered when either the server or the connection is being
+// shut down, in which case signals are ignored while requests are refused
 func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	if !con.IsActive() {
+	// refuse fails the message if it expects a reply, otherwise ignores it
+	refuse := func() bool {
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
 		return false
 	}
 
+	// Refuse the message immediately, don't wait for a handler slot
+	if !con.IsActive() || srv.isShuttingDown() {
+		return refuse()
+	}
+
 	// Acquire handler slot if the number of concurrent handlers is limited
 	if con.options.ConcurrencyLimit > 1 {
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
 	srv.opsLock.Lock()
-	shutdown := srv.shutdown
-	if !shutdown {
+	accepted := !srv.shutdown && con.registerTask()
+	if accepted {
 		srv.currentOps++
 	}
 	srv.opsLock.Unlock()
 
-	if shutdown {
-		// Release the handler slot
+	if !accepted {
+		// The server or the connection was shut down in the meantime,
+		// release the handler slot
 		if con.options.ConcurrencyLimit > 1 {
 			con.handlerSlots.Release(1)
 		}
-
-		// Don't process the message, fail it if it expects a reply
-		if msg.RequiresReply() {
-			srv.failMsgShutdown(con, msg)
-		}
-		return false
+		return refuse()
 	}
 
-	con.registerTask()
 	return true
 }
-- 
2.43.0


From 87a65795db996a5213665e8959bf55872cd9f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 10/27] fix: don't crash the server when the session closure
 hook panics

---
 newServer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/newServer.go b/newServer.go
index 53018ae..53da434 100644
--- a/newServer.go
+++ b/newServer.go
@@ -77,10 +77,11 @@ func NewServer(
 			if err := srv.sessionManager.OnSessionClosed(
 				sessionKey,
 			); err != nil {
-				srv.errorLog.Printf("session registry ")
+				srv.errorLog.Printf("session closure hook failed: %s", err)
 			}
 		},
 	)
+	srv.sessionRegistry.server = srv
 
 	// Initialize the transport layer
 	if err := transport.Initialize(
-- 
2.43.0


From aee8491d5da27274a21ac33e7e52bfdc37f575c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:11 +0000
Subject: [PATCH 11/27] fix: don't corrupt the session registry when session
 operations race

---
 connection.go           | 36 ++++++++++++++-------
 handleSessionClosure.go | 14 ++------
 sessionRegistry.go      | 72 ++++++++++++++++++++++++-----------------
 3 files changed, 69 insertions(+), 53 deletions(-)

diff --git a/connection.go b/connection.go
index 6697a4e..a0e0783 100644
--- a/connection.go
+++ b/connection.go
@@ -132,15 +132,35 @@ func (con *connection) setSession(newSess *Session) {
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
+	// Close connection first to not let any session be assigned to it after it
+	// was removed from the session registry
+	con.sock.Close()
+
 	// Deregister session from active sessions registry, but don't destroy it
+	con.sessionLock.Lock()
 	con.srv.sessionRegistry.deregister(con, false)
+	con.session = nil
+	con.sessionLock.Unlock()
+}
 
+// dropSession removes the session from the connection destroying it if this is
+// the last connection left. Returns false if there's no session to be removed
+func (con *connection) dropSession() bool {
 	con.sessionLock.Lock()
+	session := con.session
+	if session == nil {
+		con.sessionLock.Unlock()
+		return false
+	}
 	con.session = nil
+	connsLeft := con.srv.sessionRegistry.remove(con, session.Key)
 	con.sessionLock.Unlock()
 
-	// Close connection
-	con.sock.Close()
+	// Don't hold the lock while calling user-space hooks
+	if connsLeft == 0 {
+		con.srv.sessionRegistry.destroy(session.Key)
+	}
+	return true
 }
 
 // Info implements the Connection interface
@@ -285,17 +305,11 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
-	con.sessionLock.Lock()
-	if con.session == nil {
-		con.sessionLock.Unlock()
-		return nil
-	}
-
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	con.srv.sessionRegistry.deregister(con, true)
-	con.session = nil
-	con.sessionLock.Unlock()
+	if !con.dropSession() {
+		return nil
+	}
 
 	return con.notifySessionClosed()
 }
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..4169083 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -23,21 +23,11 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
-		// Send confirmation even though no session was closed
-		srv.fulfillMsg(con, msg, Payload{})
-		finalize()
-		return
-	}
-
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	srv.sessionRegistry.deregister(con, true)
-
-	// Reset the session on the connection
-	con.setSession(nil)
+	con.dropSession()
 
-	// Send confirmation
+	// Send confirmation even if no session was closed
 	srv.fulfillMsg(con, msg, Payload{})
 	finalize()
 }
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..c4967e4 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -74,41 +74,53 @@ func (asr *sessionRegistry) deregister(
 		return -1
 	}
 
+	sessionKey := conn.session.Key
+	connsLeft := asr.remove(conn, sessionKey)
+
+	// Destroy the session
+	if destroy && connsLeft == 0 {
+		asr.destroy(sessionKey)
+	}
+
+	return connsLeft
+}
+
+// remove removes a connection from the list of connections of the given session
+// and returns the number of connections left without destroying the session.
+// If the given connection is not in the register -1 is returned
+func (asr *sessionRegistry) remove(conn *connection, sessionKey string) int {
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
-		// If a single connection is left then remove or destroy the session
-		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
-			asr.lock.Unlock()
+	defer asr.lock.Unlock()
 
-			// Destroy the session
-			if destroy {
-				// Recover potential user-space hook panics
-				// to avoid panicking the server
-				defer func() {
-					if recvErr := recover(); recvErr != nil {
-						asr.server.errorLog.Printf(
-							"session closure hook panic: %v",
-							recvErr,
-						)
-					}
-				}()
-
-				asr.onSessionDestroy(conn.session.Key)
-			}
-
-			return 0
-		}
+	connSet := asr.registry[sessionKey]
+	if _, registered := connSet[conn]; !registered {
+		return -1
+	}
 
-		// Find and remove the client from the connections list
-		delete(connSet, conn)
-		connSetLen := len(connSet)
-		asr.lock.Unlock()
-		return connSetLen
+	// Find and remove the client from the connections list
+	delete(connSet, conn)
+
+	// Remove the session if there's no connections left
+	if len(connSet) < 1 {
+		delete(asr.registry, sessionKey)
 	}
 
-	asr.lock.Unlock()
-	return -1
+	return len(connSet)
+}
+
+// destroy executes the session manager hook OnSessionClosed
+func (asr *sessionRegistry) destroy(sessionKey string) {
+	// Recover potential user-space hook panics to avoid panicking the server
+	defer func() {
+		if recvErr := recover(); recvErr != nil {
+			asr.server.errorLog.Printf(
+				"session closure hook panic: %v",
+				recvErr,
+			)
+		}
+	}()
+
+	asr.onSessionDestroy(sessionKey)
 }
 
 // activeSessionsNum returns the number of currently active sessions
-- 
2.43.0


From 0ddd9f08f4c2ad54eb876d618334ea5b444381bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 12/27] fix: don't crash or leak sessions when restoring
 sessions concurrently or repeatedly

---
 connection.go           | 21 +++++++++++++++++----
 handleSessionRestore.go | 13 ++++++-------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/connection.go b/connection.go
index a0e0783..476322a 100644
--- a/connection.go
+++ b/connection.go
@@ -122,11 +122,24 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
+// restoreSession assigns the given session to this connection replacing the
+// currently assigned session (if any) without destroying it.
+// Returns an error and changes nothing if the given session already reached the
+// maximum number of concurrent connections
+func (con *connection) restoreSession(session *Session) error {
 	con.sessionLock.Lock()
-	con.session = newSess
-	con.sessionLock.Unlock()
+	defer con.sessionLock.Unlock()
+
+	previous := con.session
+	con.session = session
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = previous
+		return err
+	}
+	if previous != nil && previous.Key != session.Key {
+		con.srv.sessionRegistry.remove(con, previous.Key)
+	}
+	return nil
 }
 
 // unlink resets the connection and marks it as disconnected
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..7e31969 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -83,16 +82,16 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
+	if err := con.restoreSession(&Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	})
-	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+	}); err != nil {
+		// Another connection was faster
+		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		finalize()
+		return
 	}
 
 	srv.fulfillMsg(
-- 
2.43.0


From f88ca6607993b8c6002fb1f0c87fcc0d2d02a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:38 +0000
Subject: [PATCH 13/27] fix: fail session creation when the session can't be
 registered

---
 connection.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/connection.go b/connection.go
index 476322a..19f61cd 100644
--- a/connection.go
+++ b/connection.go
@@ -235,11 +235,26 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		}
 	}
 
+	if err := con.assignNewSession(attachment); err != nil {
+		return err
+	}
+
+	// Call session creation hook
+	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
+		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
+	}
+
+	return nil
+}
+
+// assignNewSession creates a new session and assigns it to this connection.
+// Nothing is changed if an error is returned
+func (con *connection) assignNewSession(attachment SessionInfo) error {
 	con.sessionLock.Lock()
+	defer con.sessionLock.Unlock()
 
 	// Abort if there's already another active session
 	if con.session != nil {
-		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
 			con.session.Key,
@@ -249,26 +264,23 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Register the session
+	con.session = &newSession
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = nil
+		return fmt.Errorf("Couldn't register the session: %s", err)
+	}
+
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
-		con.sessionLock.Unlock()
+		con.srv.sessionRegistry.deregister(con, false)
+		con.session = nil
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
 
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
-	con.sessionLock.Unlock()
-
-	// Call session creation hook
-	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
-		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From cf1434fd24c9e93dbe1423f7088f2163412c81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 14/27] fix: reply with an internal error when the actual reply
 can't be sent

---
 failMsg.go              | 29 +++++++++++++++++++++++++++++
 fulfillMsg.go           | 27 +++++++++++++++++++++++++++
 handleSessionRestore.go | 23 +++++++++++++++--------
 3 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/failMsg.go b/failMsg.go
index 65951ff..4717b98 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -4,6 +4,22 @@ import (
 	"github.com/qbeon/webwire-go/message"
 )
 
+// isErrReplyValid returns true if a reply carrying the given error can be
+// written and fits into the message buffer of the client, otherwise returns
+// false
+func (srv *server) isErrReplyValid(err ErrRequest) bool {
+	if len(err.Code) < 1 || len(err.Code) > 255 {
+		return false
+	}
+	for i := range []byte(err.Code) {
+		if err.Code[i] < 32 || err.Code[i] > 126 {
+			return false
+		}
+	}
+	msgLen := uint64(10) + uint64(len(err.Code)) + uint64(len(err.Message))
+	return msgLen <= uint64(srv.options.MessageBufferSize)
+}
+
 // failMsg fails the message returning an error reply
 func (srv *server) failMsg(
 	con *connection,
@@ -16,6 +32,19 @@ func (srv *server) failMsg(
 		return
 	}
 
+	// Always reply, even if the actual error can't be sent
+	var requestErr *ErrRequest
+	switch err := reqErr.(type) {
+	case ErrRequest:
+		requestErr = &err
+	case *ErrRequest:
+		requestErr = err
+	}
+	if requestErr != nil && !srv.isErrReplyValid(*requestErr) {
+		srv.errorLog.Printf("invalid request error: %+v", *requestErr)
+		reqErr = nil
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..b0a6caf 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -2,12 +2,39 @@ package webwire
 
 import "github.com/qbeon/webwire-go/message"
 
+// isReplyValid returns true if a reply carrying the given payload can be
+// written and fits into the message buffer of the client, otherwise returns
+// false
+func (srv *server) isReplyValid(payload Payload) bool {
+	msgLen := uint64(message.MinLenReply) + uint64(len(payload.Data))
+	if payload.Encoding == EncodingUtf16 {
+		if len(payload.Data)%2 != 0 {
+			return false
+		}
+		// Take header padding byte into account
+		msgLen++
+	}
+	return msgLen <= uint64(srv.options.MessageBufferSize)
+}
+
 // fulfillMsg fulfills the message sending the reply
 func (srv *server) fulfillMsg(
 	con *connection,
 	msg *message.Message,
 	replyPayload Payload,
 ) {
+	// Always reply, even if the actual reply can't be sent
+	if !srv.isReplyValid(replyPayload) {
+		srv.errorLog.Printf(
+			"invalid reply payload for connection %p (%s, %d bytes)",
+			con,
+			replyPayload.Encoding,
+			len(replyPayload.Data),
+		)
+		srv.failMsg(con, msg, nil)
+		return
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index 7e31969..ae7d9cc 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -76,6 +76,20 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	replyPayload := Payload{
+		Encoding: EncodingUtf8,
+		Data:     encodedSession,
+	}
+	if !srv.isReplyValid(replyPayload) {
+		srv.failMsg(con, msg, nil)
+		finalize()
+		srv.errorLog.Printf(
+			"encoded session object too big (%d bytes)",
+			len(encodedSession),
+		)
+		return
+	}
+
 	// Parse attached session info
 	var parsedSessInfo SessionInfo
 	if sessionInfo != nil && srv.sessionInfoParser != nil {
@@ -94,13 +108,6 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
-	srv.fulfillMsg(
-		con,
-		msg,
-		Payload{
-			Encoding: EncodingUtf8,
-			Data:     encodedSession,
-		},
-	)
+	srv.fulfillMsg(con, msg, replyPayload)
 	finalize()
 }
-- 
2.43.0


From d89c24f8a14401ff4b71616dc1de75dbc9af596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 15/27] fix: never strand memchan readers and writers or cross
 connections on closure

A failed or oversized write left the writer lock and the buffer lock
locked, closing a socket concurrently with reads and writes could panic
or block forever, a refused dial left the sockets connected and after a
reconnect the handlers of the previous connection wrote to and closed
the new one.
---
 transport/memchan/buffer.go          |   7 +-
 transport/memchan/connSocket.go      |  40 +++++
 transport/memchan/entangleSockets.go |   6 +-
 transport/memchan/link.go            | 107 +++++++++++
 transport/memchan/newSocket.go       |  23 +--
 transport/memchan/socket.go          | 256 ++++++++++-----------------
 transport/memchan/transport.go       |  53 +++---
 7 files changed, 271 insertions(+), 221 deletions(-)
 create mode 100644 transport/memchan/connSocket.go
 create mode 100644 transport/memchan/link.go

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..d7f73c7 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -1,7 +1,6 @@
 package memchan
 
 import (
-	"errors"
 	"sync"
 
 	wwr "github.com/qbeon/webwire-go"
@@ -51,12 +50,10 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 	return len(p), nil
 }
 
-// Close flushes the buffer to the reader
+// Close flushes the buffer to the reader. The onFlush callback is called even if
+// there's no data to be flushed to always release the buffer
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
-	if buf.len < 1 {
-		return errors.New("no data written")
-	}
 	err = buf.onFlush(buf.buf[:buf.len])
 	buf.reset()
 	buf.lock.Unlock()
diff --git a/transport/memchan/connSocket.go b/transport/memchan/connSocket.go
new file mode 100644
index 0000000..32bfe7a
--- /dev/null
+++ b/transport/memchan/connSocket.go
@@ -0,0 +1,40 @@
+package memchan
+
+import (
+	"io"
+	"time"
+
+	wwr "github.com/qbeon/webwire-go"
+	"github.com/qbeon/webwire-go/message"
+)
+
+// connSocket represents a server-side socket that's bound to one particular
+// connection, it remains closed when the entangled sockets are reconnected
+type connSocket struct {
+	*Socket
+	link *link
+}
+
+// GetWriter implements the transport.Socket interface
+func (sock *connSocket) GetWriter() (io.WriteCloser, error) {
+	return sock.getWriter(sock.link)
+}
+
+// Read implements the transport.Socket interface
+func (sock *connSocket) Read(
+	msg *message.Message,
+	deadline time.Time,
+) wwr.ErrSockRead {
+	return sock.read(sock.link, msg, deadline)
+}
+
+// IsConnected implements the transport.Socket interface
+func (sock *connSocket) IsConnected() bool {
+	return !sock.link.isClosed()
+}
+
+// Close implements the transport.Socket interface
+func (sock *connSocket) Close() error {
+	sock.closeLink(sock.link)
+	return nil
+}
diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..c9a15c1 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -18,7 +18,7 @@ func entangleSockets(server, client *Socket) {
 	client.remote = server
 
 	// Initialize shared status
-	status := statusDisconnected
-	server.status = &status
-	client.status = &status
+	status := &status{}
+	server.status = status
+	client.status = status
 }
diff --git a/transport/memchan/link.go b/transport/memchan/link.go
new file mode 100644
index 0000000..e941ccb
--- /dev/null
+++ b/transport/memchan/link.go
@@ -0,0 +1,107 @@
+package memchan
+
+import (
+	"sync"
+	"time"
+)
+
+// inbox represents one direction of a connection. Its channels are unbuffered,
+// a message that was passed to the reader is always confirmed by the latter
+type inbox struct {
+	reader     chan []byte
+	readerDone chan struct{}
+
+	// readLock serializes readers
+	readLock sync.Mutex
+
+	// readTimer enables reader timeout. It's started when the reader is applied
+	// a deadline and cleared when it finished reading
+	readTimer *time.Timer
+}
+
+// newInbox creates a new inbox instance
+func newInbox() *inbox {
+	// Setup a new inactive timer
+	readTimer := time.NewTimer(0)
+	<-readTimer.C
+
+	return &inbox{
+		reader:     make(chan []byte),
+		readerDone: make(chan struct{}),
+		readTimer:  readTimer,
+	}
+}
+
+// link represents a single connection between two entangled sockets
+type link struct {
+	// closed is closed together with the connection
+	closed chan struct{}
+
+	server *inbox
+	client *inbox
+}
+
+// isClosed returns true if the connection is closed, otherwise returns false.
+// A nil link is always considered closed
+func (lnk *link) isClosed() bool {
+	if lnk == nil {
+		return true
+	}
+	select {
+	case <-lnk.closed:
+		return true
+	default:
+		return false
+	}
+}
+
+// inbox returns the inbox of the given side of the connection
+func (lnk *link) inbox(sockType SocketType) *inbox {
+	if sockType == SocketServer {
+		return lnk.server
+	}
+	return lnk.client
+}
+
+// status represents the connection status shared by two entangled sockets
+type status struct {
+	lock sync.Mutex
+
+	// link references the current connection, it's nil when disconnected
+	link *link
+}
+
+// current returns the current connection or nil when disconnected
+func (st *status) current() *link {
+	st.lock.Lock()
+	defer st.lock.Unlock()
+	return st.link
+}
+
+// connect establishes a new connection and returns it or nil if there's already
+// a connection
+func (st *status) connect() *link {
+	st.lock.Lock()
+	defer st.lock.Unlock()
+	if st.link != nil {
+		return nil
+	}
+	st.link = &link{
+		closed: make(chan struct{}),
+		server: newInbox(),
+		client: newInbox(),
+	}
+	return st.link
+}
+
+// disconnect closes the given connection. Returns false if it's already closed
+func (st *status) disconnect(lnk *link) bool {
+	st.lock.Lock()
+	defer st.lock.Unlock()
+	if lnk == nil || st.link != lnk {
+		return false
+	}
+	st.link = nil
+	close(lnk.closed)
+	return true
+}
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..5b1ce52 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -2,25 +2,15 @@ package memchan
 
 import (
 	"sync"
-	"time"
 )
 
 // newSocket creates a new socket instance that must be entangled with another
 // socket before it can be used
 func newSocket(server *Transport, bufferSize uint32) *Socket {
-	// Setup a new inactive timer
-	readTimer := time.NewTimer(0)
-	<-readTimer.C
-
 	socket := &Socket{
 		sockType:   SocketUninitialized,
 		server:     server,
-		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
-		readTimer:  readTimer,
 		remote:     nil,
 		status:     nil,
 	}
@@ -37,22 +27,11 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 
 // newDisconnectedSocket creates a new disconnected socket instance
 func newDisconnectedSocket() *Socket {
-	// Setup a new inactive timer
-	readTimer := time.NewTimer(0)
-	<-readTimer.C
-
-	status := statusDisconnected
-
 	socket := &Socket{
 		sockType:   SocketClient,
-		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
-		readerErr:  make(chan error),
-		readTimer:  readTimer,
 		remote:     nil,
-		status:     &status,
+		status:     &status{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..d356b39 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -6,16 +6,12 @@ import (
 	"io"
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
 	"github.com/qbeon/webwire-go/message"
 )
 
-const statusConnected uint32 = 1
-const statusDisconnected uint32 = 2
-
 // SocketType represents the type of a socket
 type SocketType uint
 
@@ -30,8 +26,8 @@ const (
 	SocketClient
 )
 
-// Socket implements the transport.Socket interface using
-// the fasthttp/websocket library
+// Socket implements the transport.Socket interface using in-memory channels.
+// It always operates on the current connection of the entangled socket pair
 type Socket struct {
 	server *Transport
 
@@ -40,28 +36,19 @@ type Socket struct {
 	// remote references the remote socket
 	remote *Socket
 
-	// status represents the connection status
-	status *uint32
-
-	// readTimer enables reader timeout. It's started when the reader is applied
-	// a deadline and cleared when it finished reading
-	readTimer *time.Timer
-
-	// readLock serializes access to the Read method
-	readLock *sync.Mutex
+	// status represents the connection status shared by both sockets
+	status *status
 
 	// writerLock serializes access to the writer returned from GetWriter
 	writerLock *sync.Mutex
 
+	// writerLink references the connection the current writer was acquired for,
+	// it's nil if there's no current writer. It's protected by writerLock
+	writerLink *link
+
 	// outboundBuffer is used as the primary writer to the remote socket. It's
 	// onFlush callback must be connected to the sockets
 	outboundBuffer Buffer
-
-	// reader is the data receiving channel to the reader goroutine. It must be
-	// triggered as soon as any data is received
-	reader     chan []byte
-	readerErr  chan error
-	readerLock *sync.Mutex
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
@@ -69,19 +56,32 @@ type Socket struct {
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
-	if !sock.IsConnected() {
-		sock.writerLock.Unlock()
+	writerLink := sock.writerLink
+	if writerLink == nil {
+		return errors.New("writer already closed")
+	}
+	sock.writerLink = nil
+	defer sock.writerLock.Unlock()
+
+	if len(data) < 1 {
+		return errors.New("no data written")
+	}
+
+	if writerLink.isClosed() {
 		return errors.New("can't write to a closed socket")
 	}
 
-	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	// Pass the message to the remote reader
+	outbound := writerLink.inbox(sock.remote.sockType)
+	select {
+	case outbound.reader <- data:
+	case <-writerLink.closed:
+		return errors.New("socket closed")
+	}
 
 	// Wait for the remote reader to finish reading
-	err = <-sock.remote.readerErr
-
-	sock.writerLock.Unlock()
-	return
+	<-outbound.readerDone
+	return nil
 }
 
 // Dial implements the transport.Socket interface
@@ -102,27 +102,30 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
+	newLink := sock.status.connect()
+	if newLink == nil {
 		return errors.New("socket already connected")
 	}
 
-	sock.resetReader()
-	sock.remote.resetReader()
-
 	// Execute server callback
-	return sock.server.onConnect(sock, connOpts)
+	if err := sock.server.onConnect(sock, newLink, connOpts); err != nil {
+		sock.closeLink(newLink)
+		return err
+	}
+	return nil
 }
 
 // GetWriter implements the transport.Socket interface
 func (sock *Socket) GetWriter() (io.WriteCloser, error) {
+	return sock.getWriter(sock.status.current())
+}
+
+// getWriter returns the writer if the given connection is still open
+func (sock *Socket) getWriter(writerLink *link) (io.WriteCloser, error) {
 	sock.writerLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	if writerLink.isClosed() {
 		sock.writerLock.Unlock()
 		return nil, wwr.ErrDisconnected{
 			Cause: fmt.Errorf("can't write to a closed socket"),
@@ -131,128 +134,78 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 
 	// Don't immediately unlock the writer lock, let the writeCloser unlock it
 	// as soon as the reader finished reading
+	sock.writerLink = writerLink
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
-	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
-	sock.readerLock.Unlock()
-}
-
-// resetReader resets the socket reader
-func (sock *Socket) resetReader() {
-	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
-	sock.readerLock.Unlock()
-}
-
-func (sock *Socket) readWithoutDeadline() (
-	data []byte,
-	err wwr.ErrSockRead,
-) {
-	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
-
-	if data == nil {
-		// Socket closed
-		return nil, ErrSockRead{closed: true}
-	}
-
-	return data, nil
-}
-
-func (sock *Socket) readWithDeadline(deadline time.Time) (
-	data []byte,
-	err wwr.ErrSockRead,
-) {
-	sock.readTimer.Reset(time.Until(deadline))
-
-	// Await either a message, socket closure or deadline trigger
-	select {
-	case <-sock.readTimer.C:
-		// Deadline exceeded
-		err = ErrSockRead{err: errors.New("read deadline exceeded")}
-
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
-	}
-
-	sock.readTimer.Stop()
-
-	return
-}
-
 // Read implements the transport.Socket interface
 func (sock *Socket) Read(
 	msg *message.Message,
 	deadline time.Time,
-) (err wwr.ErrSockRead) {
-	// Set reader lock to ensure there's only one concurrent reader
-	sock.readLock.Lock()
+) wwr.ErrSockRead {
+	return sock.read(sock.status.current(), msg, deadline)
+}
 
+// read awaits the next message of the given connection
+func (sock *Socket) read(
+	readerLink *link,
+	msg *message.Message,
+	deadline time.Time,
+) wwr.ErrSockRead {
 	// Check connection status
-	if !sock.IsConnected() {
-		sock.readLock.Unlock()
+	if readerLink.isClosed() {
 		return ErrSockRead{closed: true}
 	}
+	inbound := readerLink.inbox(sock.sockType)
 
-	var data []byte
-	if deadline.IsZero() {
-		// No deadline
-		data, err = sock.readWithoutDeadline()
-	} else {
-		// Set deadline
-		data, err = sock.readWithDeadline(deadline)
+	// Set reader lock to ensure there's only one concurrent reader
+	inbound.readLock.Lock()
+	defer inbound.readLock.Unlock()
+
+	// Set deadline (if any)
+	var deadlineExceeded <-chan time.Time
+	if !deadline.IsZero() {
+		inbound.readTimer.Reset(time.Until(deadline))
+		deadlineExceeded = inbound.readTimer.C
+		defer func() {
+			if !inbound.readTimer.Stop() {
+				// Drain the timer channel if it wasn't drained already
+				select {
+				case <-inbound.readTimer.C:
+				default:
+				}
+			}
+		}()
 	}
 
-	if err != nil {
-		sock.Close()
-		sock.readLock.Unlock()
-		return err
+	// Await either a message, socket closure or deadline trigger
+	var data []byte
+	select {
+	case <-deadlineExceeded:
+		sock.closeLink(readerLink)
+		return ErrSockRead{err: errors.New("read deadline exceeded")}
+	case <-readerLink.closed:
+		return ErrSockRead{closed: true}
+	case data = <-inbound.reader:
 	}
 
 	// Try to read the socket into the message buffer and release the remote
-	// writer by sending nil to the sock.reader channel
+	// writer
 	typeParsed, parseErr := msg.ReadBytes(data)
+	inbound.readerDone <- struct{}{}
+
 	if parseErr != nil {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: parseErr}
 	}
 	if !typeParsed {
-		sock.readerErr <- nil
-		sock.readLock.Unlock()
 		return ErrSockRead{err: errors.New("no message type")}
 	}
-
-	sock.readerErr <- nil
-	sock.readLock.Unlock()
 	return nil
 }
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return atomic.LoadUint32(sock.status) == statusConnected
+	return !sock.status.current().isClosed()
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -266,39 +219,16 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
-		return nil
-	}
-
-	// Close remote reader and writer
-	sock.remote.closeReader()
-
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
+	sock.closeLink(sock.status.current())
+	return nil
+}
 
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
+// closeLink closes the given connection releasing all its readers and writers
+func (sock *Socket) closeLink(closedLink *link) {
+	if !sock.status.disconnect(closedLink) {
+		return
 	}
 
-	// Close the local reader
-	sock.closeReader()
-
 	// Execute server callback
-	if sock.sockType == SocketClient {
-		sock.server.onDisconnect(sock.remote)
-	} else {
-		sock.server.onDisconnect(sock)
-	}
-
-	return nil
+	sock.server.onDisconnect(closedLink)
 }
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..06ba629 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -2,7 +2,6 @@ package memchan
 
 import (
 	"errors"
-	"fmt"
 	"net/url"
 	"sync"
 	"sync/atomic"
@@ -25,7 +24,7 @@ type Transport struct {
 
 	bufferSize      uint32
 	readTimeout     time.Duration
-	connections     map[*Socket]*Socket
+	connections     map[*link]*Socket
 	connectionsLock *sync.Mutex
 	status          uint32
 	shutdown        chan struct{}
@@ -41,7 +40,7 @@ func (srv *Transport) Initialize(
 	srv.bufferSize = options.MessageBufferSize
 	srv.isShuttingdown = isShuttingdown
 	srv.onNewConnection = onNewConnection
-	srv.connections = make(map[*Socket]*Socket)
+	srv.connections = make(map[*link]*Socket)
 	srv.connectionsLock = &sync.Mutex{}
 	srv.shutdown = make(chan struct{})
 	srv.status = serverActive
@@ -66,24 +65,21 @@ func (srv *Transport) Serve() error {
 
 // Shutdown implements the Transport interface
 func (srv *Transport) Shutdown() error {
-	if atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
-		close(srv.shutdown)
-		srv.connectionsLock.Lock()
-		conns := make([]*Socket, len(srv.connections))
-		index := 0
-		for sock := range srv.connections {
-			conns[index] = sock
-			index++
-		}
+	srv.connectionsLock.Lock()
+	if !atomic.CompareAndSwapUint32(&srv.status, serverActive, serverClosed) {
 		srv.connectionsLock.Unlock()
+		return nil
+	}
+	close(srv.shutdown)
+	conns := make(map[*link]*Socket, len(srv.connections))
+	for lnk, sock := range srv.connections {
+		conns[lnk] = sock
+	}
+	srv.connectionsLock.Unlock()
 
-		// Close all connections
-		for _, sock := range conns {
-			if err := sock.Close(); err != nil {
-				srv.connectionsLock.Unlock()
-				return fmt.Errorf("couldn't close socket %p: %s", sock, err)
-			}
-		}
+	// Close all connections
+	for lnk, sock := range conns {
+		sock.closeLink(lnk)
 	}
 	return nil
 }
@@ -98,6 +94,7 @@ func (srv *Transport) Address() url.URL {
 // onConnect is called in Socket.Dial by a client-type socket on connection
 func (srv *Transport) onConnect(
 	clientSocket *Socket,
+	newLink *link,
 	connectionOptions wwr.ConnectionOptions,
 ) error {
 	// Reject incoming connections during server shutdown
@@ -105,29 +102,29 @@ func (srv *Transport) onConnect(
 		return errors.New("server is shutting down")
 	}
 
-	if atomic.LoadUint32(&srv.status) != serverActive {
-		return errors.New("server is closed")
-	}
-
 	if clientSocket.remote == nil || clientSocket.status == nil {
 		return errors.New("uninitialized socket")
 	}
 
 	srv.connectionsLock.Lock()
-	srv.connections[clientSocket.remote] = clientSocket
+	if atomic.LoadUint32(&srv.status) != serverActive {
+		srv.connectionsLock.Unlock()
+		return errors.New("server is closed")
+	}
+	srv.connections[newLink] = clientSocket
 	srv.connectionsLock.Unlock()
 
 	go srv.onNewConnection(
 		connectionOptions,
-		clientSocket.remote,
+		&connSocket{Socket: clientSocket.remote, link: newLink},
 	)
 
 	return nil
 }
 
-// onDisconnect is called in Socket.Close by a server-type socket on closure
-func (srv *Transport) onDisconnect(serverSocket *Socket) {
+// onDisconnect is called when a connection is closed
+func (srv *Transport) onDisconnect(closedLink *link) {
 	srv.connectionsLock.Lock()
-	delete(srv.connections, serverSocket)
+	delete(srv.connections, closedLink)
 	srv.connectionsLock.Unlock()
 }
-- 
2.43.0


From 025fd4490646fabfa36fa5cc496a7b24fa1c6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 16/27] fix: create an accessible session directory

---
 defaultSessionManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..c3323e7 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -69,7 +69,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
-- 
2.43.0


From 8850340f3bb64df2cd096fea78c0ea1cbb01f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 17/27] fix: don't let session keys escape the session
 directory

---
 defaultSessionManager.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index c3323e7..dceb720 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 )
 
@@ -90,9 +91,17 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 }
 
-// filePath generates an absolute session file path given the session key
-func (mng *DefaultSessionManager) filePath(sessionKey string) string {
-	return filepath.Join(mng.path, sessionKey+".wwrsess")
+// filePath generates an absolute session file path given the session key.
+// Returns an error if the key can't be used as a file name, never trust the key
+// because it's provided by the client
+func (mng *DefaultSessionManager) filePath(sessionKey string) (string, error) {
+	fileName := sessionKey + ".wwrsess"
+	if strings.ContainsAny(fileName, "/\\\x00") ||
+		filepath.Base(fileName) != fileName ||
+		len(fileName) > 255 {
+		return "", fmt.Errorf("invalid session key: %q", sessionKey)
+	}
+	return filepath.Join(mng.path, fileName), nil
 }
 
 // OnSessionCreated implements the session manager interface.
@@ -104,7 +113,11 @@ func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	path, err := mng.filePath(sess.Key)
+	if err != nil {
+		return err
+	}
+	return sessFile.Save(path)
 }
 
 // OnSessionLookup implements the session manager interface.
@@ -114,10 +127,14 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
-	path := mng.filePath(key)
+	path, err := mng.filePath(key)
+	if err != nil {
+		// There can't be any session identified by an invalid key
+		return nil, nil
+	}
 
 	// Lookup session file
-	_, err := os.Stat(path)
+	_, err = os.Stat(path)
 	if os.IsNotExist(err) {
 		return nil, nil
 	} else if err != nil {
@@ -142,7 +159,7 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 		LastLookup: time.Now().UTC(),
 		Info:       file.Info,
 	}
-	if err := newSessionFile.Save(mng.filePath(key)); err != nil {
+	if err := newSessionFile.Save(path); err != nil {
 		return nil, fmt.Errorf(
 			"Couldn't update last lookup field, failed writing file: %s",
 			err,
@@ -159,7 +176,11 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
-	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
+	path, err := mng.filePath(sessionKey)
+	if err == nil {
+		err = os.Remove(path)
+	}
+	if err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
 			err,
-- 
2.43.0


From daeac297e073cfde4cbaee91caa93cd406ca5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 18/27] fix: don't corrupt or resurrect session files on
 concurrent access or crashes

---
 defaultSessionManager.go | 45 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index dceb720..e018f50 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -35,16 +36,46 @@ func (sessf *sessionFile) Save(filePath string) error {
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	if err := writeFileAtomically(filePath, encoded, 0640); err != nil {
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
 	return nil
 }
 
+// writeFileAtomically writes a file such that at any point in time it has
+// either its old or its new contents
+func writeFileAtomically(
+	filePath string,
+	contents []byte,
+	mode os.FileMode,
+) error {
+	file, err := ioutil.TempFile(filepath.Dir(filePath), "tmp")
+	if err != nil {
+		return err
+	}
+	_, err = file.Write(contents)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Chmod(file.Name(), mode)
+	}
+	if err == nil {
+		err = os.Rename(file.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(file.Name())
+	}
+	return err
+}
+
 // DefaultSessionManager represents a default session manager implementation.
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+
+	// lock serializes access to the session files
+	lock sync.Mutex
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -107,7 +138,14 @@ func (mng *DefaultSessionManager) filePath(sessionKey string) (string, error) {
 // OnSessionCreated implements the session manager interface.
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	sess := conn.Session()
+	if sess == nil {
+		// The session was closed in the meantime
+		return nil
+	}
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
@@ -133,6 +171,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 		return nil, nil
 	}
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	// Lookup session file
 	_, err = os.Stat(path)
 	if os.IsNotExist(err) {
@@ -178,7 +219,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
 	path, err := mng.filePath(sessionKey)
 	if err == nil {
+		mng.lock.Lock()
 		err = os.Remove(path)
+		mng.lock.Unlock()
 	}
 	if err != nil {
 		return fmt.Errorf(
-- 
2.43.0


From 84d6481938f621406e6aa1580a2830422fc6509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 19/27] fix: don't restore sessions that are closed during
 their restoration

---
 connection.go           |  16 ++++--
 handleSessionRestore.go |   7 ++-
 sessionRegistry.go      | 108 ++++++++++++++++++++++++++++++++--------
 3 files changed, 104 insertions(+), 27 deletions(-)

diff --git a/connection.go b/connection.go
index 19f61cd..85f2f6b 100644
--- a/connection.go
+++ b/connection.go
@@ -125,19 +125,25 @@ func (con *connection) deregisterTask() {
 // restoreSession assigns the given session to this connection replacing the
 // currently assigned session (if any) without destroying it.
 // Returns an error and changes nothing if the given session already reached the
-// maximum number of concurrent connections
-func (con *connection) restoreSession(session *Session) error {
+// maximum number of concurrent connections or was closed in the meantime
+func (con *connection) restoreSession(
+	session *Session,
+	restoration *sessionRestoration,
+) error {
 	con.sessionLock.Lock()
 	defer con.sessionLock.Unlock()
 
 	previous := con.session
 	con.session = session
-	if err := con.srv.sessionRegistry.register(con); err != nil {
+	if err := con.srv.sessionRegistry.registerRestored(
+		con,
+		restoration,
+	); err != nil {
 		con.session = previous
 		return err
 	}
 	if previous != nil && previous.Key != session.Key {
-		con.srv.sessionRegistry.remove(con, previous.Key)
+		con.srv.sessionRegistry.remove(con, previous.Key, false)
 	}
 	return nil
 }
@@ -166,7 +172,7 @@ func (con *connection) dropSession() bool {
 		return false
 	}
 	con.session = nil
-	connsLeft := con.srv.sessionRegistry.remove(con, session.Key)
+	connsLeft := con.srv.sessionRegistry.remove(con, session.Key, true)
 	con.sessionLock.Unlock()
 
 	// Don't hold the lock while calling user-space hooks
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index ae7d9cc..cf724d1 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -35,6 +35,9 @@ func (srv *server) handleSessionRestore(
 		return
 	}
 
+	restoration := srv.sessionRegistry.beginRestoration(key)
+	defer srv.sessionRegistry.endRestoration(restoration)
+
 	// Call session manager lookup hook
 	result, err := srv.sessionManager.OnSessionLookup(key)
 
@@ -101,9 +104,9 @@ func (srv *server) handleSessionRestore(
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	}); err != nil {
+	}, restoration); err != nil {
 		// Another connection was faster
-		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		srv.failMsg(con, msg, err)
 		finalize()
 		return
 	}
diff --git a/sessionRegistry.go b/sessionRegistry.go
index c4967e4..a740c9f 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -1,7 +1,6 @@
 package webwire
 
 import (
-	"fmt"
 	"sync"
 )
 
@@ -13,6 +12,20 @@ type sessionRegistry struct {
 	maxConns         uint
 	registry         map[string]map[*connection]struct{}
 	onSessionDestroy func(sessionKey string)
+
+	// closing holds the number of pending destructions by session key
+	closing map[string]int
+
+	// restorations holds all pending session restorations
+	restorations map[*sessionRestoration]struct{}
+}
+
+// sessionRestoration represents a pending session restoration
+type sessionRestoration struct {
+	sessionKey string
+
+	// closed is true if the session was closed since the restoration began
+	closed bool
 }
 
 // newSessionRegistry returns a new instance of a session registry.
@@ -27,6 +40,8 @@ func newSessionRegistry(
 		maxConns:         maxConns,
 		registry:         make(map[string]map[*connection]struct{}),
 		onSessionDestroy: onSessionDestroy,
+		closing:          make(map[string]int),
+		restorations:     make(map[*sessionRestoration]struct{}),
 	}
 }
 
@@ -35,27 +50,24 @@ func newSessionRegistry(
 // the maximum number of concurrent connections
 func (asr *sessionRegistry) register(con *connection) error {
 	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	return asr.add(con)
+}
+
+// add is similar to register but requires the registry to be locked
+func (asr *sessionRegistry) add(con *connection) error {
 	if connSet, exists := asr.registry[con.session.Key]; exists {
 		// Ensure max connections isn't exceeded
 		if asr.maxConns > 0 && uint(len(connSet)+1) > asr.maxConns {
-			asr.lock.Unlock()
-			return fmt.Errorf(
-				"Max conns (%d) reached for session %s",
-				asr.maxConns,
-				con.session.Key,
-			)
+			return ErrMaxSessConnsReached{}
 		}
 		// Overwrite the current entry incrementing the number of connections
 		connSet[con] = struct{}{}
-		asr.registry[con.session.Key] = connSet
-		asr.lock.Unlock()
 		return nil
 	}
-	newList := map[*connection]struct{}{
+	asr.registry[con.session.Key] = map[*connection]struct{}{
 		con: {},
 	}
-	asr.registry[con.session.Key] = newList
-	asr.lock.Unlock()
 	return nil
 }
 
@@ -75,7 +87,7 @@ func (asr *sessionRegistry) deregister(
 	}
 
 	sessionKey := conn.session.Key
-	connsLeft := asr.remove(conn, sessionKey)
+	connsLeft := asr.remove(conn, sessionKey, destroy)
 
 	// Destroy the session
 	if destroy && connsLeft == 0 {
@@ -86,9 +98,14 @@ func (asr *sessionRegistry) deregister(
 }
 
 // remove removes a connection from the list of connections of the given session
-// and returns the number of connections left without destroying the session.
+// and returns the number of connections left. If destroy is set to true and 0 is
+// returned then the session must be destroyed by a subsequent call to destroy.
 // If the given connection is not in the register -1 is returned
-func (asr *sessionRegistry) remove(conn *connection, sessionKey string) int {
+func (asr *sessionRegistry) remove(
+	conn *connection,
+	sessionKey string,
+	destroy bool,
+) int {
 	asr.lock.Lock()
 	defer asr.lock.Unlock()
 
@@ -99,30 +116,81 @@ func (asr *sessionRegistry) remove(conn *connection, sessionKey string) int {
 
 	// Find and remove the client from the connections list
 	delete(connSet, conn)
+	if len(connSet) > 0 {
+		return len(connSet)
+	}
 
 	// Remove the session if there's no connections left
-	if len(connSet) < 1 {
-		delete(asr.registry, sessionKey)
+	delete(asr.registry, sessionKey)
+	if destroy {
+		// Fail pending restorations
+		asr.closing[sessionKey]++
+		for restoration := range asr.restorations {
+			if restoration.sessionKey == sessionKey {
+				restoration.closed = true
+			}
+		}
 	}
-
-	return len(connSet)
+	return 0
 }
 
 // destroy executes the session manager hook OnSessionClosed
 func (asr *sessionRegistry) destroy(sessionKey string) {
-	// Recover potential user-space hook panics to avoid panicking the server
 	defer func() {
+		// Recover potential user-space hook panics to avoid panicking the server
 		if recvErr := recover(); recvErr != nil {
 			asr.server.errorLog.Printf(
 				"session closure hook panic: %v",
 				recvErr,
 			)
 		}
+
+		asr.lock.Lock()
+		asr.closing[sessionKey]--
+		if asr.closing[sessionKey] < 1 {
+			delete(asr.closing, sessionKey)
+		}
+		asr.lock.Unlock()
 	}()
 
 	asr.onSessionDestroy(sessionKey)
 }
 
+// beginRestoration must be called before the session is looked up
+func (asr *sessionRegistry) beginRestoration(
+	sessionKey string,
+) *sessionRestoration {
+	asr.lock.Lock()
+	restoration := &sessionRestoration{
+		sessionKey: sessionKey,
+		closed:     asr.closing[sessionKey] > 0,
+	}
+	asr.restorations[restoration] = struct{}{}
+	asr.lock.Unlock()
+	return restoration
+}
+
+// endRestoration must be called when the restoration succeeded or failed
+func (asr *sessionRegistry) endRestoration(restoration *sessionRestoration) {
+	asr.lock.Lock()
+	delete(asr.restorations, restoration)
+	asr.lock.Unlock()
+}
+
+// registerRestored registers a new connection similar to register.
+// Returns ErrSessionNotFound if the session was closed while it was restored
+func (asr *sessionRegistry) registerRestored(
+	con *connection,
+	restoration *sessionRestoration,
+) error {
+	asr.lock.Lock()
+	defer asr.lock.Unlock()
+	if restoration.closed {
+		return ErrSessionNotFound{}
+	}
+	return asr.add(con)
+}
+
 // activeSessionsNum returns the number of currently active sessions
 func (asr *sessionRegistry) activeSessionsNum() int {
 	asr.lock.RLock()
-- 
2.43.0


From 64b16671b9de9ca18b53e7af25cb2ee9ff8a5bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 20/27] fix: don't close other sessions when closing a session
 by key

The connections of the session could have switched to another session
before they were asked to close theirs.
---
 connection.go           | 15 +++++++++++----
 handleSessionClosure.go |  2 +-
 server.go               |  7 ++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/connection.go b/connection.go
index 85f2f6b..1c25525 100644
--- a/connection.go
+++ b/connection.go
@@ -163,11 +163,12 @@ func (con *connection) unlink() {
 }
 
 // dropSession removes the session from the connection destroying it if this is
-// the last connection left. Returns false if there's no session to be removed
-func (con *connection) dropSession() bool {
+// the last connection left. If a session key is given then any other session is
+// left untouched. Returns false if there's no session to be removed
+func (con *connection) dropSession(sessionKey *string) bool {
 	con.sessionLock.Lock()
 	session := con.session
-	if session == nil {
+	if session == nil || (sessionKey != nil && session.Key != *sessionKey) {
 		con.sessionLock.Unlock()
 		return false
 	}
@@ -338,7 +339,13 @@ func (con *connection) CloseSession() error {
 
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	if !con.dropSession() {
+	return con.closeSession(nil)
+}
+
+// closeSession closes the session of this connection and notifies the client.
+// If a session key is given then any other session is left untouched
+func (con *connection) closeSession(sessionKey *string) error {
+	if !con.dropSession(sessionKey) {
 		return nil
 	}
 
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 4169083..79c7536 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -25,7 +25,7 @@ func (srv *server) handleSessionClosure(
 
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	con.dropSession()
+	con.dropSession(nil)
 
 	// Send confirmation even if no session was closed
 	srv.fulfillMsg(con, msg, Payload{})
diff --git a/server.go b/server.go
index 4cf3014..699a2bf 100644
--- a/server.go
+++ b/server.go
@@ -100,9 +100,10 @@ func (srv *server) CloseSession(sessionKey string) (
 	affectedConnections = make([]Connection, len(connections))
 	i := 0
 	errNum := 0
-	for _, connection := range connections {
-		affectedConnections[i] = connection
-		err := connection.CloseSession()
+	for _, con := range connections {
+		affectedConnections[i] = con
+		// The connection might have switched to another session meanwhile
+		err := con.(*connection).closeSession(&sessionKey)
 		if err != nil {
 			errors[i] = err
 			errNum++
-- 
2.43.0


From 03dfa0b27a5f76a11115971914f8d5b4af0981f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 21/27] fix: don't send session creation notifications
 exceeding the message buffer

The client can't receive them, the transport would fail on the client.
---
 connection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/connection.go b/connection.go
index 1c25525..ad3c2f7 100644
--- a/connection.go
+++ b/connection.go
@@ -311,6 +311,12 @@ func (con *connection) notifySessionCreated(newSession *Session) error {
 		return fmt.Errorf("Couldn't marshal session object: %s", err)
 	}
 
+	// Ensure the message won't exceed the buffer size
+	if uint64(len(encodedSessionInfo))+1 >
+		uint64(con.srv.options.MessageBufferSize) {
+		return ErrBufferOverflow{}
+	}
+
 	// Notify client about the session creation
 	writer, err := con.sock.GetWriter()
 	if err != nil {
-- 
2.43.0


From 0c58486a3635d4be47397dad078ee52fda7c7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 22/27] fix: don't keep closed connections in memory forever

---
 handleConnection.go | 9 ++++++++-
 newServer.go        | 2 +-
 server.go           | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/handleConnection.go b/handleConnection.go
index e84988f..624b642 100644
--- a/handleConnection.go
+++ b/handleConnection.go
@@ -53,9 +53,16 @@ func (srv *server) handleConnection(
 	)
 
 	srv.connectionsLock.Lock()
-	srv.connections = append(srv.connections, connection)
+	srv.connections[connection] = struct{}{}
 	srv.connectionsLock.Unlock()
 
+	// Don't keep closed connections alive
+	defer func() {
+		srv.connectionsLock.Lock()
+		delete(srv.connections, connection)
+		srv.connectionsLock.Unlock()
+	}()
+
 	// Call hook on successful connection
 	srv.impl.OnClientConnected(connectionOptions, connection)
 
diff --git a/newServer.go b/newServer.go
index 53da434..a475b12 100644
--- a/newServer.go
+++ b/newServer.go
@@ -63,7 +63,7 @@ func NewServer(
 		shutdownRdy:       make(chan bool),
 		currentOps:        0,
 		opsLock:           &sync.Mutex{},
-		connections:       make([]*connection, 0),
+		connections:       make(map[*connection]struct{}),
 		connectionsLock:   &sync.Mutex{},
 		sessionsEnabled:   sessionsEnabled,
 		messagePool:       message.NewSyncPool(opts.MessageBufferSize, 1024),
diff --git a/server.go b/server.go
index 699a2bf..1806c7d 100644
--- a/server.go
+++ b/server.go
@@ -25,7 +25,7 @@ type server struct {
 	currentOps        uint32
 	opsLock           *sync.Mutex
 	connectionsLock   *sync.Mutex
-	connections       []*connection
+	connections       map[*connection]struct{}
 	sessionsEnabled   bool
 	sessionRegistry   *sessionRegistry
 	messagePool       message.Pool
-- 
2.43.0


From db257fa9f934225c485ae231ff6f9ff596fe9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 23/27] fix: return the reply of a request that was resolved
 before its context was done

AwaitReply randomly discarded the reply of a request and returned the context
error instead when both were available, although Fulfill or Fail reported to
have resolved the request. Even when only the context was done the reply could
be taken from the list of pending requests but not be passed yet.
---
 requestManager/request.go        | 20 ++++++++++----
 requestManager/requestManager.go | 47 ++++++++++++++++----------------
 2 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/requestManager/request.go b/requestManager/request.go
index d513ec3..390dcd7 100644
--- a/requestManager/request.go
+++ b/requestManager/request.go
@@ -35,16 +35,24 @@ type Request struct {
 // a user-defined deadline was exceeded or the request was prematurely canceled.
 // The timer is started when AwaitReply is called.
 func (req *Request) AwaitReply(ctx context.Context) (webwire.Reply, error) {
+	var rp genericReply
+
 	// Block until either context canceled (including timeout) or reply received
 	select {
+	case rp = <-req.Reply:
 	case <-ctx.Done():
-		req.manager.deregister(req.Identifier)
-		return nil, webwire.TranslateContextError(ctx.Err())
+		req.manager.resolve(req.Identifier, nil)
 
-	case rp := <-req.Reply:
-		if rp.Error != nil {
-			return nil, rp.Error
+		// The request might have been resolved meanwhile
+		select {
+		case rp = <-req.Reply:
+		default:
+			return nil, webwire.TranslateContextError(ctx.Err())
 		}
-		return &reply{msg: rp.ReplyMsg}, nil
 	}
+
+	if rp.Error != nil {
+		return nil, rp.Error
+	}
+	return &reply{msg: rp.ReplyMsg}, nil
 }
diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index 16cd04a..ae563f2 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -50,18 +50,29 @@ func (manager *RequestManager) Create() *Request {
 	return newRequest
 }
 
-// deregister removes the request associated with the given identifier from the
-// list of currently pending requests and returns it.
+// resolve removes the request associated with the given identifier from the list
+// of currently pending requests and passes it the given reply, if any.
 // Returns false if there was no such pending request, therefore each request
-// can only ever be taken once
-func (manager *RequestManager) deregister(
+// can only ever be resolved once
+func (manager *RequestManager) resolve(
 	identifier [8]byte,
-) (req *Request, exists bool) {
+	reply *genericReply,
+) bool {
 	manager.lock.Lock()
-	req, exists = manager.pending[identifier]
+	defer manager.lock.Unlock()
+
+	req, exists := manager.pending[identifier]
+	if !exists {
+		return false
+	}
 	delete(manager.pending, identifier)
-	manager.lock.Unlock()
-	return
+
+	// Never blocks because the channel is buffered. The reply is passed before
+	// the lock is released for it to be available once the request is resolved
+	if reply != nil {
+		req.Reply <- *reply
+	}
+	return true
 }
 
 // Fulfill fulfills the request associated with the given request identifier
@@ -69,15 +80,9 @@ func (manager *RequestManager) deregister(
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	req, exists := manager.deregister(msg.MsgIdentifier)
-	if !exists {
-		return false
-	}
-
-	req.Reply <- genericReply{
+	return manager.resolve(msg.MsgIdentifier, &genericReply{
 		ReplyMsg: msg,
-	}
-	return true
+	})
 }
 
 // Fail fails the request associated with the given request identifier
@@ -87,15 +92,9 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	req, exists := manager.deregister(identifier)
-	if !exists {
-		return false
-	}
-
-	req.Reply <- genericReply{
+	return manager.resolve(identifier, &genericReply{
 		Error: err,
-	}
-	return true
+	})
 }
 
 // PendingRequests returns the number of currently pending requests
-- 
2.43.0


From 22a8bca810ca23cf671ef93e4788b493cf53dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 24/27] fix: copy session info containing maps with nil keys

deepCopy returned nil for a nil interface key, for which reflect.ValueOf
returns an invalid value causing SetMapIndex to panic
---
 genericSessionInfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index d2206e2..3767c9f 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -61,8 +61,8 @@ func copyRecursive(original, cpy reflect.Value) {
 			originalValue := original.MapIndex(key)
 			copyValue := reflect.New(originalValue.Type()).Elem()
 			copyRecursive(originalValue, copyValue)
-			copyKey := deepCopy(key.Interface())
-			cpy.SetMapIndex(reflect.ValueOf(copyKey), copyValue)
+			// Keys are comparable, hence there's no need to copy them deeply
+			cpy.SetMapIndex(key, copyValue)
 		}
 
 	default:
-- 
2.43.0


From 41f20bcb7741cd54d5293ad30f9bdd755777fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 25/27] fix: deeply copy session info held by arrays and
 structs

Copies of session info shared whatever slices and maps were held by arrays and
structs with their originals
---
 genericSessionInfo.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index 3767c9f..5b61267 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -65,6 +65,20 @@ func copyRecursive(original, cpy reflect.Value) {
 			cpy.SetMapIndex(key, copyValue)
 		}
 
+	case reflect.Array:
+		for i := 0; i < original.Len(); i++ {
+			copyRecursive(original.Index(i), cpy.Index(i))
+		}
+
+	case reflect.Struct:
+		// Unexported fields can't be copied individually
+		cpy.Set(original)
+		for i := 0; i < original.NumField(); i++ {
+			if field := cpy.Field(i); field.CanSet() {
+				copyRecursive(original.Field(i), field)
+			}
+		}
+
 	default:
 		cpy.Set(original)
 	}
-- 
2.43.0


From b5c8682eef1ace1b704ce617fbee79648b402a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 26/27] fix: don't register memchan connections closed while
 they were established

---
 transport/memchan/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index 06ba629..1eee082 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -111,6 +111,11 @@ func (srv *Transport) onConnect(
 		srv.connectionsLock.Unlock()
 		return errors.New("server is closed")
 	}
+	if newLink.isClosed() {
+		// The connection was closed while it was established
+		srv.connectionsLock.Unlock()
+		return errors.New("socket closed")
+	}
 	srv.connections[newLink] = clientSocket
 	srv.connectionsLock.Unlock()
 
-- 
2.43.0


From 4088ef3f929d61a8d8a16b09ad02c64734c790a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 27/27] fix: tell the client about its sessions in the order
 they change

A session closed notification could be sent after the client was already told
about a newer session, and a restoration could be confirmed after the restored
session was closed
---
 connection.go           | 14 +++++++++++++-
 handleSessionRestore.go |  5 +++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index ad3c2f7..039003f 100644
--- a/connection.go
+++ b/connection.go
@@ -125,10 +125,13 @@ func (con *connection) deregisterTask() {
 // restoreSession assigns the given session to this connection replacing the
 // currently assigned session (if any) without destroying it.
 // Returns an error and changes nothing if the given session already reached the
-// maximum number of concurrent connections or was closed in the meantime
+// maximum number of concurrent connections or was closed in the meantime.
+// Otherwise the given function is called to tell the client about its session
+// before it's told about any later change
 func (con *connection) restoreSession(
 	session *Session,
 	restoration *sessionRestoration,
+	confirm func(),
 ) error {
 	con.sessionLock.Lock()
 	defer con.sessionLock.Unlock()
@@ -145,6 +148,7 @@ func (con *connection) restoreSession(
 	if previous != nil && previous.Key != session.Key {
 		con.srv.sessionRegistry.remove(con, previous.Key, false)
 	}
+	confirm()
 	return nil
 }
 
@@ -355,6 +359,14 @@ func (con *connection) closeSession(sessionKey *string) error {
 		return nil
 	}
 
+	// Don't let the client be told about a later session before
+	con.sessionLock.RLock()
+	defer con.sessionLock.RUnlock()
+	if con.session != nil {
+		// The client was already told about another session that replaced the
+		// closed one
+		return nil
+	}
 	return con.notifySessionClosed()
 }
 
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index cf724d1..4c43188 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -104,13 +104,14 @@ func (srv *server) handleSessionRestore(
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	}, restoration); err != nil {
+	}, restoration, func() {
+		srv.fulfillMsg(con, msg, replyPayload)
+	}); err != nil {
 		// Another connection was faster
 		srv.failMsg(con, msg, err)
 		finalize()
 		return
 	}
 
-	srv.fulfillMsg(con, msg, replyPayload)
 	finalize()
 }
-- 
2.43.0

