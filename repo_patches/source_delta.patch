From 64172c72889d1323162afa30e6c4464f88c20787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 01/49] fix: send only one completion when a hub method panics

---
 loop.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index 3d413d0..ab0871f 100644
--- a/loop.go
+++ b/loop.go
@@ -215,11 +215,17 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		} else {
 			// hub method might take a long time
 			go func() {
-				result := func() []reflect.Value {
+				returned := false
+				result := func() (result []reflect.Value) {
 					defer l.recoverInvocationPanic(invocation)
-					return method.Call(in)
+					result = method.Call(in)
+					returned = true
+					return result
 				}()
-				l.returnInvocationResult(invocation, result)
+				// When the method panicked, recoverInvocationPanic has already sent the completion
+				if returned {
+					l.returnInvocationResult(invocation, result)
+				}
 			}()
 		}
 	}
-- 
2.43.0


From 1f8103dbada5fcec7caadf9b74b98aff2d47c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 02/49] fix: send no completion for rejected invocations
 without invocation id

---
 loop.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index ab0871f..acdfed8 100644
--- a/loop.go
+++ b/loop.go
@@ -201,16 +201,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.rejectInvocation(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.rejectInvocation(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
+			l.rejectInvocation(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
@@ -231,6 +231,13 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// rejectInvocation answers an invocation which can not be executed. Without invocation id, the caller expects no answer.
+func (l *loop) rejectInvocation(invocation invocationMessage, reason string) {
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, reason)
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From 73827541eed756220c7e94f869cc2a0c02771ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 03/49] Revert "fix: send only one completion when a hub method
 panics"

This reverts commit 64172c72889d1323162afa30e6c4464f88c20787.
---
 loop.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/loop.go b/loop.go
index acdfed8..72ac31f 100644
--- a/loop.go
+++ b/loop.go
@@ -215,17 +215,11 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		} else {
 			// hub method might take a long time
 			go func() {
-				returned := false
-				result := func() (result []reflect.Value) {
+				result := func() []reflect.Value {
 					defer l.recoverInvocationPanic(invocation)
-					result = method.Call(in)
-					returned = true
-					return result
+					return method.Call(in)
 				}()
-				// When the method panicked, recoverInvocationPanic has already sent the completion
-				if returned {
-					l.returnInvocationResult(invocation, result)
-				}
+				l.returnInvocationResult(invocation, result)
 			}()
 		}
 	}
-- 
2.43.0


From bebc312daaf3b17ddcadb19ab08230d53f03ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 04/49] fix: end all calls and streams when the message loop
 ends

---
 loop.go         |  4 +++-
 streamclient.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 72ac31f..dcd98dd 100644
--- a/loop.go
+++ b/loop.go
@@ -142,8 +142,10 @@ msgLoop:
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
+	// Abort before the cleanup. Calls which are registered after the cleanup can not be sent anymore
 	l.hubConn.Abort()
+	l.invokeClient.cancelAllInvokes()
+	l.streamClient.closeAllStreams()
 	return err
 }
 
diff --git a/streamclient.go b/streamclient.go
index 1ee7781..b19c996 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -65,6 +65,17 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	c.mx.Unlock()
 }
 
+// closeAllStreams closes all channels which are still waiting for stream items
+func (c *streamClient) closeAllStreams() {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	for id, upChan := range c.upstreamChannels {
+		upChan.Close()
+		delete(c.upstreamChannels, id)
+		delete(c.runningStreams, id)
+	}
+}
+
 func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-- 
2.43.0


From 5882ed5d277b2819c9e32dddc9b03bd1d68af2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 05/49] fix: deliver no additional empty result with the result
 of an invocation

---
 invokeclient.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..0708286 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -97,11 +97,6 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
 				close(done)
 			}()
 			select {
-- 
2.43.0


From c138f7e6317e3bb831453cc0e5081b4d0f5a35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 06/49] fix: remove and close a completed stream in one step

---
 streamclient.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index b19c996..ef87c32 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -61,6 +61,7 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 	if upChan, ok := c.upstreamChannels[invocationID]; ok {
 		upChan.Close()
 		delete(c.upstreamChannels, invocationID)
+		delete(c.runningStreams, invocationID)
 	}
 	c.mx.Unlock()
 }
@@ -128,7 +129,7 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
 	c.mx.Unlock()
 	if ok {
 		var err error
@@ -152,13 +153,9 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
-		channel.Close()
+		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
 		invokeClient.deleteInvocation(completion.InvocationID)
-		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
-		delete(c.runningStreams, completion.InvocationID)
-		c.mx.Unlock()
 		return err
 	}
 	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
-- 
2.43.0


From eace76dcbe1cf010d39c195428fcf7b417edf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 07/49] fix: do not count consumed stream cancels for the cap
 of pending cancels

---
 streamer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index faf8486..a470698 100644
--- a/streamer.go
+++ b/streamer.go
@@ -15,12 +15,13 @@ type streamer struct {
 
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	go func() {
+		// A cancel which came too late must not count for the cap any longer
+		defer s.takeCancel(invocationID)
 	loop:
 		for {
 			// Waits for channel, so might hang
 			if chanResult, ok := reflectedChannel.Recv(); ok {
-				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
+				if s.takeCancel(invocationID) {
 					_ = s.conn.Completion(invocationID, nil, "")
 					break loop
 				}
@@ -38,6 +39,15 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	}()
 }
 
+// takeCancel removes the cancel mark of a stream and reports if there was one
+func (s *streamer) takeCancel(invocationID string) bool {
+	_, loaded := s.cancels.LoadAndDelete(invocationID)
+	if loaded {
+		atomic.AddInt64(&s.cancelCount, -1)
+	}
+	return loaded
+}
+
 func (s *streamer) Stop(invocationID string) {
 	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
-- 
2.43.0


From 498ef2b3067c50811fc0a26c1f64a93d18e22ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 08/49] fix: never hand out the same invocation id twice to
 concurrent callers

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index dcd98dd..cdfb2d9 100644
--- a/loop.go
+++ b/loop.go
@@ -192,8 +192,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From 60eb62b8b2dc19cfc91109ed618ed34f82682095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 09/49] fix: set the error of an exceeded backoff before the
 client is closed

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 1baf2b7..31c0941 100644
--- a/client.go
+++ b/client.go
@@ -209,8 +209,8 @@ func (c *client) Start() {
 			nextBackoff := boff.NextBackOff()
 			// Check for exceeded backoff
 			if nextBackoff == backoff.Stop {
-				c.setState(ClientClosed)
 				c.setErr(errors.New("backoff exceeded"))
+				c.setState(ClientClosed)
 				return
 			}
 			select {
-- 
2.43.0


From 4f25b493a0ab1ca2550c652c0bf14332cd5a6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 10/49] fix: close the client when it is canceled while waiting
 to reconnect

---
 client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client.go b/client.go
index 31c0941..f6c3b72 100644
--- a/client.go
+++ b/client.go
@@ -216,6 +216,8 @@ func (c *client) Start() {
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
+				c.setErr(c.ctx.Err())
+				c.setState(ClientClosed)
 				return
 			}
 			c.setState(ClientConnecting)
-- 
2.43.0


From 425bdba125ef9d9eb0c24ac928cafe4a470dcc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 11/49] fix: never set the client connected after its loop has
 ended

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index f6c3b72..ffca2d1 100644
--- a/client.go
+++ b/client.go
@@ -247,12 +247,16 @@ func (c *client) run() error {
 	c.mx.Unlock()
 	// Broadcast when loop is connected
 	isLoopConnected := make(chan struct{}, 1)
+	isConnectedSet := make(chan struct{})
 	go func() {
+		defer close(isConnectedSet)
 		<-isLoopConnected
 		c.setState(ClientConnected)
 	}()
 	// Run the loop
 	err = loop.Run(isLoopConnected)
+	// Never set ClientConnected after the state which follows the end of the loop
+	<-isConnectedSet
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
-- 
2.43.0


From 2cfbd46c4a6c0a5e8e60570dd716cc3d148fd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 12/49] fix: reconnect with a new connection when the handshake
 has failed

---
 client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index ffca2d1..ed1999e 100644
--- a/client.go
+++ b/client.go
@@ -311,6 +311,8 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 		}
 		protocol, err := c.processHandshake()
 		if err != nil {
+			// Don't use this connection for the next attempt
+			c.conn = nil
 			return nil, err
 		}
 
@@ -606,11 +608,11 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
-	go func() {
+	go func(conn Connection) {
 		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
+		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
 		readJSONFramesChan <- []interface{}{rawHandshake, err}
-	}()
+	}(c.conn)
 	select {
 	case result := <-readJSONFramesChan:
 		if result[1] != nil {
-- 
2.43.0


From dc263355a281f9c2d7e2d417b870eb83e9a27319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 13/49] fix: hold no lock while a server sent event waits for
 its consumer, and release it on every path

---
 httpmux.go             | 20 ++++++++++++++------
 serversseconnection.go | 16 ++++------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 9d21116..b8d6fe8 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -157,14 +157,22 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 				_ = h.serveConnection(sseConn)
 			}()
 			// Loop for write jobs from the sseServerConnection
-			for buf := range jobChan {
-				n, err := writer.Write(buf)
-				if err == nil {
-					flusher.Flush()
+			for {
+				select {
+				case <-sseConn.Context().Done():
+					return
+				case buf := <-jobChan:
+					n, err := writer.Write(buf)
+					if err == nil {
+						flusher.Flush()
+					}
+					select {
+					case <-sseConn.Context().Done():
+						return
+					case jobResultChan <- RWJobResult{n: n, err: err}:
+					}
 				}
-				jobResultChan <- RWJobResult{n: n, err: err}
 			}
-			close(jobResultChan)
 		} else {
 			// connectionID in use
 			writer.WriteHeader(http.StatusConflict)
diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..ac4956c 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -27,12 +27,6 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 		jobResultChan:  make(chan RWJobResult, 1),
 	}
 	s.postReader, s.postWriter = io.Pipe()
-	go func() {
-		<-s.Context().Done()
-		s.mx.Lock()
-		close(s.jobChan)
-		s.mx.Unlock()
-	}()
 	return &s, s.jobChan, s.jobResultChan, nil
 }
 
@@ -81,14 +75,12 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	for _, line := range strings.Split(strings.TrimRight(string(p), "\n"), "\n") {
 		payload = payload + "data: " + line + "\n"
 	}
-	// prevent race with goroutine closing the jobChan
-	s.mx.Lock()
-	if s.Context().Err() == nil {
-		s.jobChan <- []byte(payload + "\n")
-	} else {
+	// jobChan is never closed, so there is no need to hold a lock while waiting for the reader of jobChan
+	select {
+	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
+	case s.jobChan <- []byte(payload + "\n"):
 	}
-	s.mx.Unlock()
 	select {
 	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
-- 
2.43.0


From 5e3d80e64d82cc0c8bdc44b69f17cceba1f8689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 14/49] fix: accept further posts after a failed post of a
 server sent events connection

---
 serversseconnection.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index ac4956c..b3c8078 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -45,14 +45,19 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 		_ = request.Body.Close()
 	}()
 	body, err := io.ReadAll(request.Body)
+	status := http.StatusOK
 	if err != nil {
-		return http.StatusBadRequest // 400
+		status = http.StatusBadRequest // 400
 	} else if _, err := s.postWriter.Write(body); err != nil {
-		return http.StatusInternalServerError // 500
+		status = http.StatusInternalServerError // 500
 	}
+	// A failed request should not block the following ones
 	s.mx.Lock()
 	s.postWriting = false
 	s.mx.Unlock()
+	if status != http.StatusOK {
+		return status
+	}
 	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
-- 
2.43.0


From 3d0ea5db108bf439d4f6252ed6e2e5c0c3730d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 15/49] fix: hold no lock while observers of the client state
 receive

---
 client.go | 59 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/client.go b/client.go
index ed1999e..10066f8 100644
--- a/client.go
+++ b/client.go
@@ -123,7 +123,6 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
 		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
 		format:           "json",
 		partyBase:        newPartyBase(ctx, info, dbg),
 		lastID:           -1,
@@ -155,7 +154,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -165,6 +164,13 @@ type client struct {
 	cancelFunc        context.CancelFunc
 }
 
+// stateObserver is a channel which gets all state changes until it is canceled
+type stateObserver struct {
+	ch   chan ClientState
+	done chan struct{}
+	wg   sync.WaitGroup
+}
+
 func (c *client) Start() {
 	c.setState(ClientConnecting)
 	boff := c.backoffFactory()
@@ -333,20 +339,18 @@ func (c *client) setState(state ClientState) {
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
+	// c.mx is not held while the observers receive, a slow observer should not block anybody else
+	for _, observer := range c.stateObservers {
+		observer.wg.Add(1)
+		go func(observer *stateObserver, state ClientState) {
+			defer observer.wg.Done()
 
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
+			select {
+			case observer.ch <- state:
+			case <-observer.done:
+			case <-c.ctx.Done():
 			}
-		}(ch, state)
+		}(observer, state)
 	}
 }
 
@@ -354,23 +358,34 @@ func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	observer := &stateObserver{ch: ch, done: make(chan struct{})}
+	c.stateObservers = append(c.stateObservers, observer)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(observer)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(observer *stateObserver) {
+	if !c.removeStateObserver(observer) {
+		return
+	}
+	// Close the channel when nobody sends to it anymore
+	close(observer.done)
+	observer.wg.Wait()
+	close(observer.ch)
+}
+
+func (c *client) removeStateObserver(observer *stateObserver) bool {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
-			break
+	for i, o := range c.stateObservers {
+		if o == observer {
+			c.stateObservers = append(c.stateObservers[:i], c.stateObservers[i+1:]...)
+			return true
 		}
 	}
+	return false
 }
 
 func (c *client) Err() error {
-- 
2.43.0


From ce437fd78cac50f7fee0624e7af336bf319ee184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 16/49] fix: hold no lock while the client connects and shakes
 hands

---
 client.go | 82 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/client.go b/client.go
index 10066f8..65e3c38 100644
--- a/client.go
+++ b/client.go
@@ -242,12 +242,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	conn, protocol, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, conn, protocol)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -269,9 +269,7 @@ func (c *client) run() error {
 	}
 
 	// Reset conn to allow reconnecting
-	c.mx.Lock()
-	c.conn = nil
-	c.mx.Unlock()
+	c.setConn(nil)
 
 	return err
 }
@@ -296,34 +294,40 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
-
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, err
-			}
-		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, error) {
+	// c.mx is not held while connecting and shaking hands, this takes the time the server needs
+	c.mx.RLock()
+	conn := c.conn
+	c.mx.RUnlock()
+	if conn == nil {
+		if c.connectionFactory == nil {
+			return nil, nil, ErrUnableToConnect
 		}
-		protocol, err := c.processHandshake()
+		var err error
+		conn, err = c.connectionFactory()
 		if err != nil {
-			// Don't use this connection for the next attempt
-			c.conn = nil
-			return nil, err
+			return nil, nil, err
 		}
+		c.setConn(conn)
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	protocol, err := c.processHandshake(conn)
+	if err != nil {
+		// Don't use this connection for the next attempt
+		c.setConn(nil)
+		return nil, nil, err
+	}
 
-		return protocol, nil
-	}()
+	return conn, protocol, nil
+}
+
+func (c *client) setConn(conn Connection) {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	c.conn = conn
 }
 
 func (c *client) State() ClientState {
@@ -594,21 +598,21 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
-	if err := c.sendHandshakeRequest(); err != nil {
+func (c *client) processHandshake(conn Connection) (hubProtocol, error) {
+	if err := c.sendHandshakeRequest(conn); err != nil {
 		return nil, err
 	}
-	return c.receiveHandshakeResponse()
+	return c.receiveHandshakeResponse(conn)
 }
 
-func (c *client) sendHandshakeRequest() error {
-	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+func (c *client) sendHandshakeRequest(conn Connection) error {
+	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
@@ -618,16 +622,16 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
-	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+func (c *client) receiveHandshakeResponse(conn Connection) (hubProtocol, error) {
+	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
 	readJSONFramesChan := make(chan []interface{}, 1)
-	go func(conn Connection) {
+	go func() {
 		var remainBuf bytes.Buffer
 		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
 		readJSONFramesChan <- []interface{}{rawHandshake, err}
-	}(c.conn)
+	}()
 	select {
 	case result := <-readJSONFramesChan:
 		if result[1] != nil {
-- 
2.43.0


From c638effe8f2deb9d5b3570066d3092f15275b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 17/49] fix: make each client call on one loop, also when the
 client reconnects meanwhile

---
 client.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 65e3c38..a468911 100644
--- a/client.go
+++ b/client.go
@@ -274,6 +274,13 @@ func (c *client) run() error {
 	return err
 }
 
+// currentLoop is the loop of the current connection. As each reconnect replaces it, callers should get it only once.
+func (c *client) currentLoop() *loop {
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop
+}
+
 func (c *client) shouldClientEnd() bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
@@ -287,7 +294,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if loop := c.currentLoop(); loop != nil && loop.closeMessage != nil && !loop.closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
@@ -459,11 +466,12 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -486,10 +494,11 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		loop := c.currentLoop()
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -512,7 +521,8 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -534,7 +544,8 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		loop := c.currentLoop()
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
-- 
2.43.0


From b7eee53062dff9bb0dedfde755352009ecac3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 18/49] fix: synchronise the reconnect permission of the server

---
 server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 7989887..f148c4f 100644
--- a/server.go
+++ b/server.go
@@ -11,6 +11,7 @@ import (
 	"reflect"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 
 	"github.com/go-kit/log"
 )
@@ -48,7 +49,7 @@ type server struct {
 	lifetimeManager         HubLifetimeManager
 	defaultHubClients       *defaultHubClients
 	groupManager            GroupManager
-	reconnectAllowed           bool
+	reconnectAllowed           atomic.Bool
 	transports                 []TransportType
 	negotiationConnectionLimit int
 }
@@ -63,9 +64,9 @@ func NewServer(ctx context.Context, options ...func(Party) error) (Server, error
 		connectionHubs:            make(map[string]HubInterface),
 		// Do NOT initialize defaultHubClients or groupManager yet
 		partyBase:                  newPartyBase(ctx, info, dbg),
-		reconnectAllowed:           true,
 		negotiationConnectionLimit: 1000,
 	}
+	server.reconnectAllowed.Store(true)
 	// apply any option including lifetime manager, logger, etc.
 	for _, option := range options {
 		if option != nil {
@@ -192,12 +193,12 @@ func (s *server) invocationTarget(conn HubConnection) interface{} {
 }
 
 func (s *server) allowReconnect() bool {
-	return s.reconnectAllowed
+	return s.reconnectAllowed.Load()
 }
 
 func (s *server) recoverHubLifeCyclePanic() {
 	if err := recover(); err != nil {
-		s.reconnectAllowed = false
+		s.reconnectAllowed.Store(false)
 		info, dbg := s.prefixLoggers("")
 		_ = info.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect")
 		_ = dbg.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect", "stack", string(debug.Stack()))
-- 
2.43.0


From dcdaf8a6cfc140211721619a1b7f61f1d6b01f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 19/49] fix: hold no lock while a hub closes its connection

---
 hub.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hub.go b/hub.go
index cc46e3e..a363c4e 100644
--- a/hub.go
+++ b/hub.go
@@ -82,6 +82,7 @@ func (h *Hub) OnDisconnected(string) {}
 
 func (h *Hub) Close(errorMessage string, allowReconnect bool) error {
 	h.cm.RLock()
-	defer h.cm.RUnlock()
-	return h.context.Close(errorMessage, allowReconnect)
+	hubContext := h.context
+	h.cm.RUnlock()
+	return hubContext.Close(errorMessage, allowReconnect)
 }
-- 
2.43.0


From e816020b5d344f219b1569ac28f8c9db158eff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 20/49] fix: let only one request use a negotiated connection

---
 httpmux.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index b8d6fe8..8ace1b4 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -131,7 +131,7 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	c, ok := h.connectionMap[connectionIDorToken]
 	h.mx.RUnlock()
 	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
+		if nc, ok := c.(*negotiateConnection); ok {
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
 			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 			if err != nil {
@@ -143,6 +143,11 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 				writer.WriteHeader(http.StatusInternalServerError)
 				return
 			}
+			if !h.claimConnection(connectionIDorToken, nc, sseConn) {
+				// another request was faster
+				writer.WriteHeader(http.StatusConflict)
+				return
+			}
 			// Connection is negotiated but not initiated
 			// We compose http and send it over sse
 			writer.Header().Set("Content-Type", "text/event-stream")
@@ -154,7 +159,7 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			writer.(http.Flusher).Flush()
 			go func() {
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
+				_ = h.serveConnection(connectionIDorToken, sseConn)
 			}()
 			// Loop for write jobs from the sseServerConnection
 			for {
@@ -211,10 +216,12 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 	c, ok := h.connectionMap[connectionMapKey]
 	h.mx.RUnlock()
 	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
+		nc, ok := c.(*negotiateConnection)
+		ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+		conn := newWebSocketConnection(ctx, c.ConnectionID(), websocketConn)
+		if ok && h.claimConnection(connectionMapKey, nc, conn) {
 			// Connection is negotiated but not initiated
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
+			err = h.serveConnection(connectionMapKey, conn)
 			if err != nil {
 				_ = websocketConn.Close(1005, err.Error())
 			}
@@ -307,13 +314,22 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
+// claimConnection replaces a negotiated connection by the connection which is initiated with it.
+// It returns false when another request already did this.
+func (h *httpMux) claimConnection(key string, nc *negotiateConnection, c Connection) bool {
 	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
-	h.mx.Unlock()
+	defer h.mx.Unlock()
+	if h.connectionMap[key] != nc {
+		return false
+	}
+	h.connectionMap[key] = c
+	return true
+}
+
+func (h *httpMux) serveConnection(key string, c Connection) error {
 	err := h.server.Serve(c)
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	delete(h.connectionMap, key)
 	h.mx.Unlock()
 	return err
 }
-- 
2.43.0


From 84ff64d3048c426b428888ddb24bcd4189440a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 21/49] fix: drain the stream of a failed PullStream

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index a468911..88e4287 100644
--- a/client.go
+++ b/client.go
@@ -531,6 +531,9 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 				}
 			}
 			close(irCh)
+			// Receive what is still to come, so nobody stays blocked on pullCh
+			for range pullCh {
+			}
 		}()
 	}()
 	return irCh
-- 
2.43.0


From 93620d62392a344a90dcef17aacde5665edc82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 22/49] fix: leave no goroutine behind when nobody receives the
 error of an invocation

---
 invokeclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invokeclient.go b/invokeclient.go
index 0708286..651136a 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -77,7 +77,7 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 	i.mx.Unlock()
 	if ok {
 		if completion.Error != "" {
-			done := make(chan struct{})
+			done := make(chan struct{}, 1)
 			go func() {
 				ir.errChan <- errors.New(completion.Error)
 				done <- struct{}{}
-- 
2.43.0


From 0c28e69a0456afc48552676955f635f06de8c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:19 +0000
Subject: [PATCH 23/49] fix: leave no goroutine behind when a stream item was
 received too late

---
 streamclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamclient.go b/streamclient.go
index ef87c32..3140917 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -94,7 +94,7 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 }
 
 func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
+	done := make(chan error, 1)
 	go func() {
 		defer func() {
 			if r := recover(); r != nil {
-- 
2.43.0


From 5356e7a9073d5905b4e581f486d1fb80b52063b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 24/49] fix: refuse invocations with too few arguments for the
 parameters that are no streams

---
 loop.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index cdfb2d9..f65a244 100644
--- a/loop.go
+++ b/loop.go
@@ -369,8 +369,12 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			arguments[i] = arg
 		} else {
 			// it is not, so do the normal thing
+			argIndex := i - chanCount
+			if argIndex >= len(invocation.Arguments) {
+				return arguments, fmt.Errorf("parameter mismatch calling method %v", invocation.Target)
+			}
 			arg := reflect.New(t)
-			if err := protocol.UnmarshalArgument(invocation.Arguments[i-chanCount], arg.Interface()); err != nil {
+			if err := protocol.UnmarshalArgument(invocation.Arguments[argIndex], arg.Interface()); err != nil {
 				return arguments, err
 			}
 			arguments[i] = arg.Elem()
-- 
2.43.0


From 298a94806cd2d91b396720781514d66fda469092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 25/49] fix: no message can crash the messagepack decoder by
 map keys or the size of a map

---
 messagepackhubprotocol.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..bc1653b 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -101,10 +101,6 @@ func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.B
 
 func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
 	decoder := msgpack.NewDecoder(buf)
-	// Default map decoding expects all maps to have string keys
-	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
-		return decoder.DecodeUntypedMap()
-	})
 	msgLen, err := decoder.DecodeArrayLen()
 	if err != nil {
 		return nil, err
@@ -116,7 +112,8 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	// Ignore Header for all messages, except ping message that has no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
 	if msgType != 6 {
-		_, err = decoder.DecodeMap()
+		// Only skip it. Decoding would allocate for as many entries as the message claims to have
+		err = decoder.Skip()
 		if err != nil {
 			return nil, err
 		}
@@ -249,18 +246,10 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-	rawID, err := decoder.DecodeInterface()
+	// It must be nil or string, nil is decoded as empty string
+	invocationID, err := decoder.DecodeString()
 	if err != nil {
-		return "", err
-	}
-	// nil is ok
-	if rawID == nil {
-		return "", nil
-	}
-	// Otherwise, it must be string
-	invocationID, ok := rawID.(string)
-	if !ok {
-		return "", fmt.Errorf("invalid InvocationID %#v", rawID)
+		return "", fmt.Errorf("invalid InvocationID: %w", err)
 	}
 	return invocationID, nil
 }
@@ -409,7 +398,13 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
+	// Decoding a map panics when the sender used a key which can not be used as map key
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid argument: %v", r)
+		}
+	}()
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
-- 
2.43.0


From 6728f18dc633304672cb1c9646b2e7fb8dd832f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 26/49] fix: hand messages of unknown type to the message loop
 also in the messagepack protocol

---
 messagepackhubprotocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index bc1653b..37540fa 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -242,7 +242,8 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		}
 		return closeMessage, nil
 	}
-	return msg, nil
+	// No specific type. The caller decides what to do with it
+	return hubMessage{Type: msgType}, nil
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-- 
2.43.0


From 34d586c790fdabc69f8d8e439024e453466af9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 27/49] fix: end reading text frames at the end of the input
 instead of spinning

---
 jsonhubprotocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..3a4844e 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -162,8 +162,8 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	// Try getting data until at least one frame is available
 	for {
 		n, err := reader.Read(p)
-		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
-		if err != nil && !errors.Is(err, io.EOF) {
+		// Some reader implementations return io.EOF additionally to the last data. Without data it is the end
+		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
 			return nil, err
 		}
 		if n > 0 {
-- 
2.43.0


From d4f39d80f86893bc5d48c87cd1f30f343bcb19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 28/49] fix: decode each text message independently of the one
 before

---
 jsonhubprotocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 3a4844e..f3f5d1a 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -70,9 +70,10 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 	if err != nil {
 		return nil, err
 	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		// Each frame has its own message. It must not take over values from the frame before
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-- 
2.43.0


From 3202557f479019b7debf326d943cb4d367e14852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 29/49] fix: limit the size of each received text frame, not of
 all frames received at once

---
 jsonhubprotocol.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index f3f5d1a..fb3be0b 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -162,25 +162,28 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 	_, _ = buf.ReadFrom(remainBuf)
 	// Try getting data until at least one frame is available
 	for {
+		frames, err := parseJSONFrames(buf)
+		if err != nil {
+			return nil, err
+		}
+		for _, frame := range frames {
+			if maxSize > 0 && len(frame) > maxSize {
+				return nil, fmt.Errorf("JSON frame exceeded maximum receive message size %d", maxSize)
+			}
+		}
+		if len(frames) > 0 {
+			_, _ = remainBuf.ReadFrom(buf)
+			return frames, nil
+		}
+		if maxSize > 0 && buf.Len() > maxSize {
+			return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+		}
 		n, err := reader.Read(p)
 		// Some reader implementations return io.EOF additionally to the last data. Without data it is the end
 		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
 			return nil, err
 		}
-		if n > 0 {
-			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
-			frames, err := parseJSONFrames(buf)
-			if err != nil {
-				return nil, err
-			}
-			if len(frames) > 0 {
-				_, _ = remainBuf.ReadFrom(buf)
-				return frames, nil
-			}
-		}
+		_, _ = buf.Write(p[:n])
 	}
 }
 
-- 
2.43.0


From 481950a4601d51ba9f619e869937611c5e981bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:10 +0000
Subject: [PATCH 30/49] fix: keep all received bytes of messagepack frames and
 deliver complete frames without waiting for more

---
 messagepackhubprotocol.go | 85 ++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 37540fa..6467950 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -33,68 +33,51 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 }
 
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	readBuf := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
-			return nil, err
+		// The bytes from the last iteration might already contain complete frames
+		frames, err := m.parseFrames(remainBuf)
+		if err != nil || len(frames) > 0 {
+			return frames, err
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		// Try getting data until at least one frame is available
+		n, err := reader.Read(readBuf)
+		// Some reader implementations return io.EOF additionally to the last data. Without data it is the end
+		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
-		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
-			return frames, nil
+		_, _ = remainBuf.Write(readBuf[:n])
+	}
+}
+
+// parseFrames takes all complete frames out of buf and leaves an incomplete one there
+func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		// Try to get the frame length
+		frameLenBuf := buf.Bytes()
+		if len(frameLenBuf) > binary.MaxVarintLen32 {
+			frameLenBuf = frameLenBuf[:binary.MaxVarintLen32]
 		}
-		if lenLen < 0 {
+		frameLen, lenLen := binary.Uvarint(frameLenBuf)
+		if lenLen < 0 || (lenLen == 0 && len(frameLenBuf) == binary.MaxVarintLen32) {
 			return nil, fmt.Errorf("messagepack frame length to large")
 		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
+		if lenLen == 0 {
+			// Not enough bytes to decode the Uvarint
+			return frames, nil
 		}
 		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
 			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
 		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				return frames, nil
-			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+		if uint64(buf.Len()-lenLen) < frameLen {
+			// Less than frameLen
+			return frames, nil
+		}
+		buf.Next(lenLen)
+		// Still wondering why this happens, but it happens!
+		if frameLen > 0 {
+			frames = append(frames, append([]byte{}, buf.Next(int(frameLen))...))
 		}
 	}
 }
-- 
2.43.0


From d1ea515ced0f797f90379421dc0faee628a80b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 31/49] fix: limit the size of the handshake and keep the bytes
 received after it

---
 client.go    | 34 +++++++++++-------------
 handshake.go | 73 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 server.go    | 35 ++++++++++++-------------
 3 files changed, 104 insertions(+), 38 deletions(-)
 create mode 100644 handshake.go

diff --git a/client.go b/client.go
index 88e4287..68bfb97 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -321,7 +320,7 @@ func (c *client) setupConnectionAndProtocol() (Connection, hubProtocol, error) {
 	if wsConn, ok := conn.(*webSocketConnection); ok {
 		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 	}
-	protocol, err := c.processHandshake(conn)
+	protocol, conn, err := c.processHandshake(conn)
 	if err != nil {
 		// Don't use this connection for the next attempt
 		c.setConn(nil)
@@ -612,9 +611,9 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake(conn Connection) (hubProtocol, error) {
+func (c *client) processHandshake(conn Connection) (hubProtocol, Connection, error) {
 	if err := c.sendHandshakeRequest(conn); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse(conn)
 }
@@ -636,31 +635,28 @@ func (c *client) sendHandshakeRequest(conn Connection) error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse(conn Connection) (hubProtocol, error) {
+func (c *client) receiveHandshakeResponse(conn Connection) (hubProtocol, Connection, error) {
 	info, dbg := c.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
+	handshakeChan := make(chan handshakeResult, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		handshakeChan <- readHandshake(conn, c.maximumReceiveMessageSize())
 	}()
 	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return nil, result[1].(error)
+	case result := <-handshakeChan:
+		if result.err != nil {
+			return nil, nil, result.err
 		}
-		rawHandshake := result[0].([][]byte)
 		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
+		if err := json.Unmarshal(result.rawHandshake, &response); err != nil {
 			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
+			_ = info.Log(evt, "handshake received", "msg", string(result.rawHandshake), "error", err)
+			return nil, nil, err
 		} else {
 			if response.Error != "" {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
+				return nil, nil, errors.New(response.Error)
 			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
@@ -674,9 +670,9 @@ func (c *client) receiveHandshakeResponse(conn Connection) (hubProtocol, error)
 				_, pDbg := c.loggers()
 				protocol.setDebugLogger(pDbg)
 			}
-			return protocol, nil
+			return protocol, result.conn, nil
 		}
 	case <-ctx.Done():
-		return nil, ctx.Err()
+		return nil, nil, ctx.Err()
 	}
 }
diff --git a/handshake.go b/handshake.go
new file mode 100644
index 0000000..01029d4
--- /dev/null
+++ b/handshake.go
@@ -0,0 +1,73 @@
+package signalr
+
+import (
+	"bytes"
+	"errors"
+	"fmt"
+	"io"
+)
+
+// handshakeResult is the result of readHandshake
+type handshakeResult struct {
+	rawHandshake []byte
+	conn         Connection
+	err          error
+}
+
+// readHandshake reads the handshake message, which is always a text frame, from conn. The bytes which were received
+// together with the handshake, but are not part of it, can be read from the Connection in the result.
+func readHandshake(conn Connection, maxSize uint) handshakeResult {
+	p := make([]byte, 1<<15)
+	received := &bytes.Buffer{}
+	for {
+		n, err := conn.Read(p)
+		// Some reader implementations return io.EOF additionally to the last data. Without data it is the end
+		if err != nil && (n == 0 || !errors.Is(err, io.EOF)) {
+			return handshakeResult{err: err}
+		}
+		_, _ = received.Write(p[:n])
+		size := bytes.IndexByte(received.Bytes(), 0x1e)
+		complete := size >= 0
+		if !complete {
+			size = received.Len()
+		}
+		if uint(size) > maxSize {
+			return handshakeResult{err: fmt.Errorf("handshake exceeded maximum receive message size %d", maxSize)}
+		}
+		if complete {
+			rawHandshake := append([]byte{}, received.Next(size)...)
+			// Skip the delimiter
+			received.Next(1)
+			if received.Len() > 0 {
+				conn = &receivedConnection{Connection: conn, received: received}
+			}
+			return handshakeResult{rawHandshake: rawHandshake, conn: conn}
+		}
+	}
+}
+
+// receivedConnection is a Connection with bytes which have been received but not been read
+type receivedConnection struct {
+	Connection
+	received *bytes.Buffer
+}
+
+func (r *receivedConnection) Read(p []byte) (n int, err error) {
+	if r.received.Len() > 0 {
+		return r.received.Read(p)
+	}
+	return r.Connection.Read(p)
+}
+
+func (r *receivedConnection) TransferMode() TransferMode {
+	if conn, ok := r.Connection.(ConnectionWithTransferMode); ok {
+		return conn.TransferMode()
+	}
+	return 0
+}
+
+func (r *receivedConnection) SetTransferMode(transferMode TransferMode) {
+	if conn, ok := r.Connection.(ConnectionWithTransferMode); ok {
+		conn.SetTransferMode(transferMode)
+	}
+}
diff --git a/server.go b/server.go
index f148c4f..3eff25f 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -128,14 +127,14 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, handshakedConn, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
 		return err
 	}
 
-	return newLoop(s, conn, protocol).Run(make(chan struct{}, 1))
+	return newLoop(s, handshakedConn, protocol).Run(make(chan struct{}, 1))
 }
 
 func (s *server) HubClients() HubClients {
@@ -247,35 +246,33 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
+func (s *server) processHandshake(conn Connection) (hubProtocol, Connection, error) {
+	if request, handshakedConn, err := s.receiveHandshakeRequest(conn); err != nil {
+		return nil, nil, err
 	} else {
-		return s.sendHandshakeResponse(conn, request)
+		protocol, err := s.sendHandshakeResponse(conn, request)
+		return protocol, handshakedConn, err
 	}
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, Connection, error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
+	handshakeChan := make(chan handshakeResult, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		handshakeChan <- readHandshake(conn, s.maximumReceiveMessageSize())
 	}()
 	request := handshakeRequest{}
 	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return request, result[1].(error)
+	case result := <-handshakeChan:
+		if result.err != nil {
+			return request, nil, result.err
 		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
+		_ = dbg.Log(evt, "handshake received", "msg", string(result.rawHandshake))
+		return request, result.conn, json.Unmarshal(result.rawHandshake, &request)
 	case <-ctx.Done():
-		return request, ctx.Err()
+		return request, nil, ctx.Err()
 	}
 }
 
-- 
2.43.0


From 1a17fe1f8a00d2d993a0f098d749ab96fa474244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 32/49] fix: lose no bytes of event stream lines and websocket
 messages that are read in several parts

---
 clientsseconnection.go | 38 +++++++++++++++++++++++---------------
 websocketconnection.go |  7 ++++++-
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..f02785b 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,6 +1,7 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
@@ -35,32 +36,39 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 		client: client,
 		reqURL: reqURL.String(),
 	}
-	c.sseReader, c.sseWriter = io.Pipe()
+	pipeReader, pipeWriter := io.Pipe()
+	c.sseReader, c.sseWriter = pipeReader, pipeWriter
 	go func() {
 		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
+		reader := bufio.NewReaderSize(body, 1<<15)
+		isData, isContinued := false, false
 	loop:
 		for {
-			n, err := body.Read(p)
+			// A long line is received in several parts
+			part, isPrefix, err := reader.ReadLine()
 			if err != nil {
+				// Nothing more will be received
+				_ = pipeWriter.CloseWithError(err)
 				break loop
 			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
-				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
+			json := string(part)
+			if !isContinued {
+				line := strings.TrimLeft(json, "\r\t ")
+				isData = strings.Index(line, "data:") == 0
+				json = strings.Replace(line, "data:", "", 1)
 				// Spec says: If it starts with Space, remove it
 				if len(json) > 0 && json[0] == ' ' {
 					json = json[1:]
 				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
-				}
+			}
+			isContinued = isPrefix
+			// Ignore everything but data
+			if !isData {
+				continue
+			}
+			_, err = c.sseWriter.Write([]byte(json))
+			if err != nil {
+				break loop
 			}
 		}
 	}()
diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..0d53668 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -22,6 +22,7 @@ type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
 	transferMode TransferMode
+	received     bytes.Reader // The part of the last received message which has not been read yet
 }
 
 func newWebSocketConnection(ctx context.Context, connectionID string, conn *websocket.Conn) *webSocketConnection {
@@ -56,11 +57,15 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
 		func() (int, error) {
+			if w.received.Len() > 0 {
+				return w.received.Read(p)
+			}
 			_, data, err := w.conn.Read(w.Context())
 			if err != nil {
 				return 0, err
 			}
-			return bytes.NewReader(data).Read(p)
+			w.received.Reset(data)
+			return w.received.Read(p)
 		},
 		func() {})
 	if err != nil {
-- 
2.43.0


From 0e8991d15c8b8c65efa0b79ffae10bd77e23f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:38 +0000
Subject: [PATCH 33/49] fix: encode the error of a refused handshake as json

---
 server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 3eff25f..cb8989a 100644
--- a/server.go
+++ b/server.go
@@ -297,8 +297,9 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				// The error contains what the client has sent, so it has to be encoded
+				errorHandshakeResponse, _ := json.Marshal(handshakeResponse{Error: err.Error()})
+				return conn.Write(append(errorHandshakeResponse, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From 2e28a6b7c0b0e68c1d70bd07d41df3774e54d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 34/49] fix: encode and decode messagepack close messages
 without a header, as specified

---
 messagepackhubprotocol.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 6467950..2c141a5 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -92,9 +92,9 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close messages that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	if msgType != 6 && msgType != 7 {
 		// Only skip it. Decoding would allocate for as many entries as the message claims to have
 		err = decoder.Skip()
 		if err != nil {
@@ -332,7 +332,11 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		// [7, Error, AllowReconnect]
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(7); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From 1893ccf3e0ff120631081c31b70c19d66f7f6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 35/49] fix: refuse to open a stream under an id that is in use

---
 streamclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamclient.go b/streamclient.go
index 3140917..ac5d91a 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -38,6 +38,10 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			// The stream registered before would never be closed, and not count as concurrent stream any more
+			return reflect.Value{}, true, fmt.Errorf("stream id %q is already in use", invocation.StreamIds[chanCount])
+		}
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
-- 
2.43.0


From 6a5d8774290e385d4626d5340d105567c745f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 36/49] fix: keep no connection in a group that ended while it
 was added

---
 hublifetimemanager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 7f3f4a2..7d12eb7 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -111,6 +111,10 @@ func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID st
 	if client, ok := d.clients.Load(connectionID); ok {
 		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
 		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		// The connection might have ended meanwhile, and OnDisconnected not have seen it in the group
+		if _, ok := d.clients.Load(connectionID); !ok {
+			gm.(*groupMap).remove(connectionID)
+		}
 	}
 }
 
-- 
2.43.0


From 6f9adb1bf4a7dab11d0fa1eef9e28c6549e03519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:30 +0000
Subject: [PATCH 37/49] fix: make one hub per connection only, and forget it
 when the connection has ended

---
 server.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index cb8989a..2cdb02a 100644
--- a/server.go
+++ b/server.go
@@ -151,21 +151,27 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
+	defer s.recoverHubLifeCyclePanic()
+	// Get the hub before the first invocation can ask for it, otherwise both would create one for the connection
+	hub := s.invocationTarget(hc).(HubInterface)
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
+		hub.OnConnected(hc.ConnectionID())
 	}()
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
+	s.lifetimeManager.OnDisconnected(hc)
+	// Clean up the connection hub
+	defer s.removeConnectionHub(hc.ConnectionID())
+
+	defer s.recoverHubLifeCyclePanic()
+	// Get the hub before the cleanup, otherwise it would be created again
+	hub := s.invocationTarget(hc).(HubInterface)
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
+		hub.OnDisconnected(hc.ConnectionID())
 	}()
-	s.lifetimeManager.OnDisconnected(hc)
-
-	// Clean up the connection hub
-	s.removeConnectionHub(hc.ConnectionID())
 }
 
 func (s *server) invocationTarget(conn HubConnection) interface{} {
-- 
2.43.0


From ee37f8e2d50cbba23fa6ad66bebedac9747062f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:51 +0000
Subject: [PATCH 38/49] fix: refuse intervals and timeouts that are not
 positive

---
 options.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/options.go b/options.go
index e02ed6d..8e1921a 100644
--- a/options.go
+++ b/options.go
@@ -15,6 +15,9 @@ import (
 // Default is 30 seconds.
 func TimeoutInterval(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported TimeoutInterval %v", timeout)
+		}
 		p.setTimeout(timeout)
 		return nil
 	}
@@ -27,6 +30,9 @@ func TimeoutInterval(timeout time.Duration) func(Party) error {
 // see https://github.com/dotnet/aspnetcore/blob/master/src/SignalR/docs/specs/HubProtocol.md
 func HandshakeTimeout(timeout time.Duration) func(Party) error {
 	return func(p Party) error {
+		if timeout <= 0 {
+			return fmt.Errorf("unsupported HandshakeTimeout %v", timeout)
+		}
 		p.setHandshakeTimeout(timeout)
 		return nil
 	}
@@ -39,6 +45,9 @@ func HandshakeTimeout(timeout time.Duration) func(Party) error {
 // Default is 15 seconds.
 func KeepAliveInterval(interval time.Duration) func(Party) error {
 	return func(p Party) error {
+		if interval <= 0 {
+			return fmt.Errorf("unsupported KeepAliveInterval %v", interval)
+		}
 		p.setKeepAliveInterval(interval)
 		return nil
 	}
-- 
2.43.0


From ba1539b8fe70e57f50429bdfbb1b82cc7d06bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:20 +0000
Subject: [PATCH 39/49] fix: keep the caller's options of HttpConnectionFactory
 as they are, and skip nil options

---
 clientoptions.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..477d34c 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,26 +42,26 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
-	for i, option := range options {
-		if err := option(conn); err != nil {
-			return nil, err
-		}
-		if conn.transports != nil {
-			// Remove the WithTransports option
-			options = append(options[:i], options[i+1:]...)
-			break
+	for _, option := range options {
+		if option != nil {
+			if err := option(conn); err != nil {
+				return nil, err
+			}
 		}
 	}
+	// The last WithTransports option wins. The options of the caller must not be changed, reconnects use them again
+	withTransport := func(transport TransportType) []func(*httpConnection) error {
+		return append(append([]func(*httpConnection) error{}, options...), WithTransports(transport))
+	}
 	// If no WithTransports was given, NewHTTPConnection fallbacks to both
-	if conn.transports == nil {
+	if len(conn.transports) == 0 {
 		conn.transports = []TransportType{TransportWebSockets, TransportServerSentEvents}
 	}
 
 	for _, transport := range conn.transports {
 		// If Websockets are allowed, we try to connect with these
 		if transport == TransportWebSockets {
-			wsOptions := append(options, WithTransports(TransportWebSockets))
-			conn, err := NewHTTPConnection(ctx, address, wsOptions...)
+			conn, err := NewHTTPConnection(ctx, address, withTransport(TransportWebSockets)...)
 			// If this is ok, return the conn
 			if err == nil {
 				return conn, err
@@ -72,8 +72,7 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If SSE is allowed, with fallback to try these
 		if transport == TransportServerSentEvents {
-			sseOptions := append(options, WithTransports(TransportServerSentEvents))
-			return NewHTTPConnection(ctx, address, sseOptions...)
+			return NewHTTPConnection(ctx, address, withTransport(TransportServerSentEvents)...)
 		}
 	}
 	// None of the transports worked
-- 
2.43.0


From 4e053d174c8d0aaf6c15b39274b7d86f9e34bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:03 +0000
Subject: [PATCH 40/49] fix: send SSE requests with the configured headers to
 the negotiated connection, and check the response

The POST requests of a client SSE connection had none of the configured headers and, with
negotiateVersion 1, the id of the connection instead of its token, which servers answer with 404.
A refused GET request was taken for a connection. The header map of the caller was changed.
---
 clientsseconnection.go | 21 ++++++++-------------
 httpconnection.go      | 32 ++++++++++++++++++--------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index f02785b..36c9c5a 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -7,34 +7,28 @@ import (
 	"fmt"
 	"io"
 	"net/http"
-	"net/url"
 	"strings"
 )
 
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	headers   func() http.Header
 	reqURL    string
 	sseReader io.Reader
 	sseWriter io.Writer
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
-	// Setup request
-	reqURL, err := url.Parse(address)
-	if err != nil {
-		return nil, err
-	}
-	q := reqURL.Query()
-	q.Set("id", connectionID)
-	reqURL.RawQuery = q.Encode()
+// newClientSSEConnection creates a connection which receives from body and sends with POST requests to reqURL
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) *clientSSEConnection {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
-		client: client,
-		reqURL: reqURL.String(),
+		client:  client,
+		headers: headers,
+		reqURL:  reqURL,
 	}
 	pipeReader, pipeWriter := io.Pipe()
 	c.sseReader, c.sseWriter = pipeReader, pipeWriter
@@ -72,7 +66,7 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 			}
 		}
 	}()
-	return &c, nil
+	return &c
 }
 
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
@@ -84,6 +78,7 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	req.Header = c.headers()
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..93e2d4b 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -106,9 +106,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		return nil, err
 	}
 
-	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
-	}
+	req.Header = httpConn.requestHeaders()
 
 	resp, err := httpConn.client.Do(req)
 	if err != nil {
@@ -174,11 +172,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			opts.HTTPClient = c
 		}
 
-		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
-		} else {
-			opts.HTTPHeader = http.Header{}
-		}
+		opts.HTTPHeader = httpConn.requestHeaders()
 
 		for _, cookie := range resp.Cookies() {
 			opts.HTTPHeader.Add("Cookie", cookie.String())
@@ -198,9 +192,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
-		}
+		req.Header = httpConn.requestHeaders()
 		req.Header.Set("Accept", "text/event-stream")
 
 		resp, err := httpConn.client.Do(req)
@@ -208,11 +200,13 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
-		if err != nil {
-			return nil, err
+		if resp.StatusCode != 200 {
+			closeResponseBody(resp.Body)
+			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
 		}
 
+		conn = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.requestHeaders)
+
 	default:
 		return nil, fmt.Errorf("transport not configured or unknown negotiation transports: %v", negotiateResponse.AvailableTransports)
 	}
@@ -220,6 +214,16 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	return conn, nil
 }
 
+// requestHeaders are the headers for the next request. They can be changed, they are not the ones of the caller.
+func (c *httpConnection) requestHeaders() http.Header {
+	if c.headers != nil {
+		if header := c.headers().Clone(); header != nil {
+			return header
+		}
+	}
+	return http.Header{}
+}
+
 // closeResponseBody reads a http response body to the end and closes it
 // See https://blog.cubieserver.de/2022/http-connection-reuse-in-go-clients/
 // The body needs to be fully read and closed, otherwise the connection will not be reused
-- 
2.43.0


From 9e31f29a9fe7a4bc07f4bfa8e54f4716bb7bedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:21 +0000
Subject: [PATCH 41/49] fix: do not let clients invoke the lifecycle methods of
 a hub

---
 loop.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index f65a244..8f2dc6f 100644
--- a/loop.go
+++ b/loop.go
@@ -393,7 +393,7 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 		name = strings.ToLower(name)
 		for i := 0; i < hubType.NumMethod(); i++ {
 			// Search in public methods
-			if m := hubType.Method(i); strings.ToLower(m.Name) == name {
+			if m := hubType.Method(i); strings.ToLower(m.Name) == name && !isLifecycleMethod(target, m.Name) {
 				return hubValue.Method(i), true
 			}
 		}
@@ -401,6 +401,18 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 	return reflect.Value{}, false
 }
 
+// isLifecycleMethod tells if name is a method of HubInterface. These are called by the server, not by its clients.
+func isLifecycleMethod(target interface{}, name string) bool {
+	if _, ok := target.(HubInterface); !ok {
+		return false
+	}
+	switch name {
+	case "Initialize", "OnConnected", "OnDisconnected":
+		return true
+	}
+	return false
+}
+
 func fmtMsg(message interface{}) string {
 	switch msg := message.(type) {
 	case invocationMessage:
-- 
2.43.0


From 2dd1d6bc7380f259eb5822ab0975d3fca5c30fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 42/49] fix: tell the caller of a client that a pending call
 ended with its context

---
 Invokeresult.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..aea3cd8 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -20,6 +20,8 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 		for !resultChanClosed || !errChanClosed {
 			select {
 			case <-ctx.Done():
+				// The end of the channel alone would look like a call without result
+				ch <- InvokeResult{Error: ctx.Err()}
 				break loop
 			case value, ok := <-resultChan:
 				if !ok {
-- 
2.43.0


From 41d8a9686bd0a0d4609e3a94ad1446fd85bd902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 43/49] fix: unblock POST requests and Read when a server sent
 events connection ends

---
 serversseconnection.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index b3c8078..f22c532 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -14,7 +14,7 @@ type serverSSEConnection struct {
 	ConnectionBase
 	mx            sync.Mutex
 	postWriting   bool
-	postWriter    io.Writer
+	postWriter    *io.PipeWriter
 	postReader    io.Reader
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
@@ -27,6 +27,11 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 		jobResultChan:  make(chan RWJobResult, 1),
 	}
 	s.postReader, s.postWriter = io.Pipe()
+	go func() {
+		// Nobody should wait for the other end of the pipe when the connection has ended
+		<-ctx.Done()
+		_ = s.postWriter.CloseWithError(ctx.Err())
+	}()
 	return &s, s.jobChan, s.jobResultChan, nil
 }
 
@@ -65,7 +70,7 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() { _ = s.postWriter.CloseWithError(s.Context().Err()) })
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
-- 
2.43.0


From d39e2c75f4b4d9ff5f7233a3978b7ce5ccd99598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:36 +0000
Subject: [PATCH 44/49] fix: end the server sent events response when its
 connection was served

---
 httpmux.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/httpmux.go b/httpmux.go
index 8ace1b4..075dee6 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -132,7 +132,7 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	h.mx.RUnlock()
 	if ok {
 		if nc, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+			ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
 			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 			if err != nil {
 				writer.WriteHeader(http.StatusInternalServerError)
@@ -158,6 +158,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
 			writer.(http.Flusher).Flush()
 			go func() {
+				// When the connection was served to its end, there is nothing to wait for
+				defer cancel()
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 				_ = h.serveConnection(connectionIDorToken, sseConn)
 			}()
-- 
2.43.0


From 5f150325f18e6af011f62dae59df93eea387e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:23 +0000
Subject: [PATCH 45/49] fix: redis: send messages to groups and all clients
 without invocation id

The clients answered them, and an answer to an unknown invocation ends the connection.
---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..84bcdf1 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -204,7 +204,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -240,7 +240,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 6cea724d7724aba297681b215b0ac6c22f6ee26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:23 +0000
Subject: [PATCH 46/49] fix: redis: deliver messages to the connections of the
 publishing instance

The instance skipped the messages it had published, and did not send them to its own connections otherwise.
---
 ext/redishublifetimemnager.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 84bcdf1..43fc13b 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -23,10 +23,9 @@ const (
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
 )
 
-// SECURITY NOTE: This implementation includes protection against infinite loops
-// by tracking the source instance ID and skipping self-messages.
-// Without this protection, Redis Pub/Sub would cause infinite message loops
-// where each instance processes its own published messages.
+// NOTE: Each instance handles the messages it has published itself like those of
+// the other instances: this is how its own connections get them. Handling a
+// message only sends to local connections and never publishes, so there is no loop.
 
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
@@ -35,7 +34,7 @@ type redisInvocation struct {
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
 	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID to prevent infinite loops
+	SourceInstance string        `json:"s,omitempty"` // Source instance ID (useful for debugging)
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
@@ -132,12 +131,6 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
-	if invocation.SourceInstance == r.instanceID {
-		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
-		return
-	}
-
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
 	for _, id := range invocation.ExcludedIDs {
-- 
2.43.0


From 004d95387c8fd12246d2a69c05c716be00a9e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:26 +0000
Subject: [PATCH 47/49] fix: redis: synchronise the local group cache

Concurrent group changes of one connection crashed the process with concurrent map writes.
---
 ext/redishublifetimemnager.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 43fc13b..8c25b10 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -47,6 +47,7 @@ type redisHubLifetimeManager struct {
 	instanceID       string // Unique ID for this server instance (can be useful for debugging)
 	ctx              context.Context
 	cancel           context.CancelFunc
+	groupsMx         sync.Mutex // Guards the sets in connectionGroups
 	// protocol         signalr.hubProtocol // Needed for serialization if args are complex (though JSON handles basic types)
 }
 
@@ -266,20 +267,31 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 
 	// Remove connection from all groups it belonged to in Redis
 	// Use the local cache to know which groups to remove it from
-	if groups, ok := r.connectionGroups.LoadAndDelete(connectionID); ok {
+	r.groupsMx.Lock()
+	groups, ok := r.connectionGroups.LoadAndDelete(connectionID)
+	r.groupsMx.Unlock()
+	if ok {
 		groupSet, castOK := groups.(map[string]struct{})
 		if !castOK {
 			level.Error(r.logger).Log("event", "invalid_group_cache_type", "connectionId", connectionID)
 			return // Cannot proceed if cache is corrupt
 		}
 
-		if len(groupSet) > 0 {
+		// AddToGroup may still change the set when it has failed
+		r.groupsMx.Lock()
+		groupNames := make([]string, 0, len(groupSet))
+		for groupName := range groupSet {
+			groupNames = append(groupNames, groupName)
+		}
+		r.groupsMx.Unlock()
+
+		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
 			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
-			for groupName := range groupSet {
+			for _, groupName := range groupNames {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
@@ -290,7 +302,7 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 				level.Error(r.logger).Log("event", "redis_srem_pipeline_failed", "connectionId", connectionID, "err", err)
 				// Log the error, but the connection is already considered disconnected locally.
 			} else if err == nil {
-				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet))
+				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupNames))
 			}
 		}
 	} else {
@@ -409,6 +421,7 @@ func (r *redisHubLifetimeManager) InvokeGroupExcept(groupName string, target str
 // AddToGroup adds the connection to the local cache and the Redis Set.
 func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID string) {
 	// Add to local cache first
+	r.groupsMx.Lock()
 	groupsRaw, loaded := r.connectionGroups.Load(connectionID)
 	if !loaded {
 		// This might happen if OnConnected hasn't finished or connection disconnected rapidly.
@@ -421,11 +434,13 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 
 	groupSet, castOK := groupsRaw.(map[string]struct{})
 	if !castOK {
+		r.groupsMx.Unlock()
 		level.Error(r.logger).Log("event", "invalid_group_cache_type_on_add", "connectionId", connectionID)
 		// Don't proceed with Redis if local cache is bad.
 		return
 	}
 	groupSet[groupName] = struct{}{} // Add to the local set
+	r.groupsMx.Unlock()
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -438,7 +453,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// For simplicity, we leave it in the local cache. If Redis fails,
 		// the connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
+		r.groupsMx.Lock()
 		delete(groupSet, groupName) // Rollback local add on Redis failure
+		r.groupsMx.Unlock()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
@@ -450,6 +467,7 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID string) {
 	// Remove from local cache
 	removedLocally := false
+	r.groupsMx.Lock()
 	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
 		groupSet, castOK := groupsRaw.(map[string]struct{})
 		if castOK {
@@ -465,6 +483,7 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 	} else {
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_remove", "connectionId", connectionID, "group", groupName)
 	}
+	r.groupsMx.Unlock()
 
 	// Remove connection ID from the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
-- 
2.43.0


From 0dea0f5df78e1e9ca3593014abe91cc87541105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:27 +0000
Subject: [PATCH 48/49] fix: redis: remove ended connections from their groups
 in any case

They stayed in the groups when the server had ended before them, or when they ended while they were added.
---
 ext/redishublifetimemnager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 8c25b10..20d068d 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -288,7 +288,8 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
-			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
+			// Timeout for Redis operation. The connections end also when the server, and with it r.ctx, has ended
+			ctx, cancel := context.WithTimeout(context.WithoutCancel(r.ctx), 5*time.Second)
 			defer cancel()
 
 			for _, groupName := range groupNames {
@@ -458,6 +459,10 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		r.groupsMx.Unlock()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
+		if _, connected := r.connectionGroups.Load(connectionID); !connected {
+			// The connection has ended meanwhile, and OnDisconnected may have been too early to remove it
+			r.redisClient.SRem(ctx, redisKey, connectionID)
+		}
 	}
 
 	// No need to publish a message for AddToGroup.
-- 
2.43.0


From fdf3b72b9159613b3594393b3fb5550669d13d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:27 +0000
Subject: [PATCH 49/49] fix: redis: clients and groups with empty names

A message to the client with an empty id was sent to all clients, one to the group with an empty name to none.
---
 ext/redishublifetimemnager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 20d068d..8fe10e5 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -170,7 +170,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+	if strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
 		groupName := invocation.GroupName // Group name is in the payload
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
@@ -348,6 +348,11 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
+	// Without ConnectionID, the message would go to all clients
+	if connectionID == "" {
+		return
+	}
+
 	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
-- 
2.43.0

