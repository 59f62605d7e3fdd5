#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the list of properties) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Every invocation with an id is answered by exactly one completion",
  "When a peer invokes a method with an invocation id on a live connection, it receives exactly one completion carrying that id: for a normal return, a panic, an unknown method, mismatching arguments, or a method that cannot be streamed. An invocation without an id is never answered by a completion.",
  ["inputs", "schedules"], "every invocation message (type, target, arguments, id present or absent) and every outcome of the hub method, on every path of the message loop",
  "Tests look for one expected completion per sampled call; they do not look for a second one, nor at calls without an id that fail.",
  ["loop.go"], [("dispatch and answer of invocations", "loop.go: handleInvocationMessage, returnInvocationResult, recoverInvocationPanic")],
  ["messages written to the connection"])

p("C02", "Stream items arrive in order, ended by one completion, and can be cancelled",
  "A stream sent by either side delivers every item of the source channel exactly once, in order, each under the stream's own id, followed by exactly one completion and nothing after it, as long as the connection lives. A cancel request for a running stream stops it with that completion, however many streams were cancelled on the connection before.",
  ["inputs", "schedules", "histories"], "every stream length, every interleaving of items, cancellation and connection end, every number of earlier streams on the connection",
  "Tests stream a few items on a fresh connection and cancel at most a few streams; order and exactly-once under every interleaving and long histories are not sampled.",
  ["streamer.go", "loop.go"], [("one goroutine per stream that receives, sends and completes", "streamer.go: Start"), ("cancel marks", "streamer.go: Stop")],
  ["messages written to the connection"])

p("C03", "Result channels of client calls are always closed, with an error on failure",
  "The channel returned by Invoke, Send, PullStream and PushStreams is closed exactly once on every path, nothing is sent to it afterwards, and when the call could not be made the channel carries that error before it is closed. The channel returned by WaitForState is closed too, and carries an error whenever the state was not reached.",
  ["schedules", "fault_sequences"], "every state of the client, every failure while sending, every order of answer and connection end",
  "Tests read results of successful calls; a channel left open on a rare failure path only shows as a hang.",
  ["client.go", "Invokeresult.go", "loop.go"], [("forwarding goroutines that close the result channel", "client.go: Invoke, Send, PullStream, PushStreams, WaitForState")],
  ["the channels returned by the Client interface"])

p("C04", "A call is registered before it is sent and unregistered when sending fails",
  "A client call can receive its answer no matter how fast the answer comes: the pending call is registered before its message is written to the connection. When writing the message fails, every registration made for that call is removed again.",
  ["schedules", "fault_sequences"], "every interleaving of the answer with the sender, and every failing write",
  "The window between registering and writing is microseconds; tests never see the other order.",
  ["client.go", "loop.go", "invokeclient.go", "streamclient.go"], [("newInvocation/newUpstreamChannel before Send*", "client.go, loop.go: PullStream, PushStreams")],
  ["results of the Client interface"])

p("C05", "The end of a connection ends every pending call and stream",
  "When a connection ends for any reason, every call still waiting for an answer gets an error and its channel is closed, and every channel fed by the peer's streams is closed, so neither callers nor hub methods wait forever. No call registered later on that dead connection is left waiting.",
  ["schedules", "crash_points", "fault_sequences"], "every reason for the loop to end, every set of pending calls and streams, every interleaving of a new call with the end",
  "Tests end connections with at most one pending call and do not inspect uploads into hub methods.",
  ["loop.go", "invokeclient.go", "streamclient.go"], [("cleanup after the message loop", "loop.go: Run"), ("cancelAllInvokes", "invokeclient.go")],
  ["channels handed to callers and hub methods"])

p("C06", "An answer reaches exactly the call it belongs to, once",
  "The result or error of a completion is delivered once to the call registered under the completion's own id, and that call is then forgotten; removing the registration and closing its channels happen together, so they are closed once. A completion or stream item for an id nobody waits for never touches another call and ends the connection with an error.",
  ["inputs", "schedules", "histories"], "every sequence of completions and stream items from the peer, including duplicates and unknown ids",
  "Tests answer each call once with a matching id.",
  ["invokeclient.go", "streamclient.go", "loop.go"], [("map lookup by id, delete+close under the mutex", "invokeclient.go: receiveCompletionItem, deleteInvocation; streamclient.go")],
  ["results of the Client interface"])

p("C07", "Connection lifecycle: connected first, disconnected exactly once, then closed",
  "On every connection the connected notification is given to the lifetime manager, and OnConnected of the hub is started, before any message is dispatched, and the disconnected notification comes exactly once after dispatch has ended, whatever ended it. A connection that ended with an error is sent a close message with that error, and its context is cancelled in every case.",
  ["schedules", "crash_points", "fault_sequences"], "every reason that ends the message loop",
  "Tests end connections in two or three ways and rarely check the callbacks' number and order.",
  ["loop.go", "server.go"], [("Run: onConnected ... onDisconnected, Close, Abort", "loop.go: Run"), ("hub lifecycle callbacks", "server.go: onConnected, onDisconnected")],
  ["HubInterface.OnConnected/OnDisconnected", "HubLifetimeManager"])

p("C08", "Ids of invocations and streams are unique per connection",
  "Every id handed out for a call or an uploaded stream on a connection differs from all others handed out on it, also when many goroutines call at the same time.",
  ["schedules"], "every interleaving of concurrent callers",
  "A duplicate needs two increments between one caller's increment and its read; tests do not call concurrently enough.",
  ["loop.go"], [("atomic counter", "loop.go: GetNewID")], ["invocation ids on the wire"])

p("C09", "A panic in user hub code never takes the process down",
  "A panic in a hub or receiver method called by the peer, in a connected or disconnected callback, or in a user supplied logger is recovered; it never ends the process.",
  ["inputs", "programs"], "every call of user supplied hub, receiver and logger code on every goroutine",
  "Tests panic in one hub method and one logger only.",
  ["loop.go", "server.go", "options.go"], [("deferred recover around reflective calls, lifecycle callbacks and logging", "loop.go: recoverInvocationPanic; server.go: recoverHubLifeCyclePanic; options.go: recoverLogger")],
  ["process survival"])

p("C10", "No message from the peer can crash the process",
  "Whatever bytes or well formed messages a peer sends, in handshake, text or binary protocol or negotiation, decoding and dispatching them never indexes or slices outside bounds, never asserts a wrong type, never uses an entry a map does not have, and never allocates as much memory as a length in the message merely claims; a panic of the decoder for binary arguments and of a send to a stream that has ended is recovered. Malformed content yields an error.",
  ["inputs"], "every byte sequence and every decoded message, including lengths, counts, ids and types that do not match the called method",
  "Tests send a handful of malformed messages.",
  ["loop.go", "streamclient.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "server.go", "client.go"], [("length checks before indexing", "loop.go: buildMethodArguments; streamclient.go: buildChannelArgument; protocol parsers")],
  ["process survival"])

p("C11", "Input beyond the receive size limit is refused on every path",
  "The configured maximum receive message size bounds what a peer can make a party buffer for one message: for text and binary frames after and for the text frame during the handshake, for websocket messages and for HTTP POST bodies. Exceeding it gives an error, and a message within the limit is never refused.",
  ["inputs", "configurations"], "every chunking and every length of input, every configured limit, every transport",
  "Tests send one oversized frame per protocol after the handshake.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "httpmux.go", "client.go", "server.go"], [("limit checks in the frame readers", "jsonhubprotocol.go: readJSONFrames; messagepackhubprotocol.go: readFrames"), ("SetReadLimit, MaxBytesReader", "httpmux.go, client.go")],
  ["memory held per connection", "errors ending the connection"])

p("C12", "Messages are encoded and decoded by the same wire grammar",
  "For both protocols every message that one side writes is read back by the other side with the same type, id, target, arguments, stream ids, item, result, error and reconnect flag: field by field, in the same order, with the same presence conditions and with message type numbers of the SignalR specification.",
  ["inputs", "programs"], "every message of every kind, with every combination of optional fields",
  "Tests round-trip a few messages against their own reader or writer.",
  ["hubprotocol.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go"], [("field tables", "hubprotocol.go struct tags; messagepackhubprotocol.go: WriteMessage/parseMessage; hubconnection.go: Send*")],
  ["bytes on the wire"])

p("C13", "Every message reaches the transport as one whole frame in one write",
  "Each message handed to a connection is written by exactly one write of one complete frame, with the record separator or length prefix it needs, so that concurrently written messages can not mix; an encoding error writes nothing.",
  ["schedules", "inputs"], "every message and every interleaving of concurrent senders",
  "Interleaving of partial writes needs concurrent senders on a slow transport.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go"], [("WriteMessage builds the frame, then one Write", "jsonhubprotocol.go, messagepackhubprotocol.go")],
  ["bytes on the wire"])

p("C14", "Received bytes are used exactly: only what was read, nothing lost",
  "Of a read buffer only the bytes actually read are ever interpreted, and bytes that follow a complete frame, or belong to an incomplete one, are kept for the next frame, in the text and the binary protocol, in the handshake and in the event stream of the HTTP transport. A complete frame that has been received is delivered without waiting for later bytes.",
  ["inputs", "schedules"], "every split of the byte stream into reads, including several frames per read and one frame over many reads",
  "Tests feed frames mostly one per read.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "clientsseconnection.go", "serversseconnection.go"], [("remain buffer between frames", "readJSONFrames, readFrames"), ("p[:n]", "hubconnection.go: Receive, clientsseconnection.go")],
  ["messages delivered to the message loop"])

p("C15", "Messages are decoded independently of each other",
  "What one received message decodes to never depends on an earlier message: optional fields missing in it have their default and are not taken over from its predecessor.",
  ["inputs", "histories"], "every sequence of messages in one read or over a connection",
  "Tests decode messages with all fields present, or one by one.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go"], [("a fresh decode target per frame", "jsonhubprotocol.go: ParseMessages, parseMessage")],
  ["messages delivered to the message loop"])

p("C16", "Errors of receiving, parsing, keepalive and unknown messages end the connection",
  "A read error, a malformed or unknown message, a failed keepalive write, or a stream item or completion with an id nobody waits for ends the connection with that error in both protocols; none of them is swallowed and none is turned into another message. A failed write of a message, other than the final close message, cancels the connection.",
  ["fault_sequences", "inputs"], "every error returned while reading, parsing, writing or handling a message",
  "Tests inject one or two kinds of errors.",
  ["loop.go", "hubconnection.go", "jsonhubprotocol.go", "messagepackhubprotocol.go"], [("errors are forwarded to the message loop which ends on them", "hubconnection.go: Receive, writeMessage; loop.go: Run")],
  ["connection context", "Run's result"])

p("C17", "Groups contain exactly the connected members that were added",
  "A message to a group is sent to every connection that was added and not removed and to no other; when a connection ends it is removed from all its groups and from the list of all connections, and a connection that is gone can not be added to a group.",
  ["histories", "schedules"], "every history of connect, disconnect, add and remove, with concurrent operations",
  "Tests add and remove sequentially with two clients.",
  ["hublifetimemanager.go"], [("clients and groups maps", "hublifetimemanager.go")], ["invocations sent to connections"])

p("C18", "Broadcasts reach every addressed client independently and unchanged",
  "A message to all clients, to one client or to a group is sent to each addressed connection exactly once, with the given target and arguments and without an invocation id, in a goroutine of its own per connection so that one slow connection delays neither the caller nor the others. Client proxies pass target, arguments, group and connection id through unchanged.",
  ["schedules", "inputs"], "every number of clients, every slow or failing client",
  "Tests have two fast clients.",
  ["hublifetimemanager.go", "clientproxy.go", "hubclients.go", "groupmanager.go", "hubcontext.go"], [("a goroutine per client", "hublifetimemanager.go: InvokeAll, InvokeClient, InvokeGroup")], ["invocations sent to connections"])

p("C19", "The Redis backplane delivers each message once to the right local clients",
  "Over the Redis backplane a message to all, to one client or to a group reaches every addressed and not excluded connection of every server instance, including the publishing one, once and without an invocation id, and handling a received message never publishes again. A message to a client without id reaches nobody, and a message that cannot be read does not end the receiver. Group membership is added and removed in Redis for exactly the given connection; the memberships its instance has given to a connection are removed when it ends, also when the server has ended before or it ends while it is added; and the local group cache is synchronised.",
  ["histories", "schedules", "configurations"], "every number of server instances, every interleaving of group changes, disconnects and messages",
  "The ext module has no tests at all.",
  ["ext/redishublifetimemnager.go"], [("publish and subscribe loop", "ext/redishublifetimemnager.go: handleRedisMessage, Invoke*"), ("local group cache", "ext/redishublifetimemnager.go: connectionGroups")], ["invocations sent to connections", "redis commands"])

p("C20", "A per-connection hub exists once per connection and is dropped at its end",
  "With a per-connection hub factory, all method invocations and lifecycle callbacks of a connection run on the one hub created for it, which is initialised before use, is never shared with another connection and is forgotten when the connection has ended.",
  ["schedules", "histories"], "every interleaving of invocations, connected and disconnected callbacks of one connection, and every history of connections",
  "Tests use one or two connections and sequential calls.",
  ["server.go"], [("map of hubs by connection id", "server.go: invocationTarget, removeConnectionHub")], ["hub instance seen by methods and callbacks"])

p("C21", "A negotiated connection id or token can be used for one connection only",
  "Of all requests presenting the same negotiated id or token at most one becomes a connection; the claim is atomic. Ids never negotiated and ids in use are refused, and the entry is removed when the connection ends.",
  ["schedules", "histories", "inputs"], "every interleaving of requests with the same id, for both negotiation versions and both transports",
  "Tests open each negotiated connection once.",
  ["httpmux.go"], [("map of negotiated and active connections", "httpmux.go: handleServerSentEvent, handleWebsocket, serveConnection")], ["HTTP responses", "calls of Serve"])

p("C22", "Pending negotiations never exceed their limit and expire",
  "The number of negotiated but unused connections never exceeds the configured limit, also under concurrent requests: checking the limit and adding the entry are one atomic step; beyond it the request is refused with status 429. Entries that are not used within the handshake timeout are removed, and only these.",
  ["schedules", "configurations"], "every number of concurrent negotiate requests and every limit",
  "Tests negotiate sequentially.",
  ["httpmux.go"], [("limit check and insert under one lock", "httpmux.go: negotiate"), ("reaper", "httpmux.go: reaperLoop")], ["HTTP responses"])

p("C23", "Every HTTP request is answered with exactly one status",
  "Every request to the mapped endpoint and to its negotiate endpoint gets exactly one status, or is taken over by a websocket upgrade, on every path; an error status is never followed by a success and no body is written before the status. A POST to a connection is answered with success only after its whole body was handed over to that connection.",
  ["inputs", "schedules"], "every method, header, query and connection state",
  "Tests send well formed requests.",
  ["httpmux.go", "serversseconnection.go"], [("handlers", "httpmux.go: ServeHTTP, negotiate")], ["HTTP responses"])

p("C24", "Every lock is released on every path",
  "Whatever path an operation takes, errors and early returns included, it releases each lock it acquired exactly once and never acquires one it already holds.",
  ["inputs", "fault_sequences", "crash_points"], "all paths of all functions that use a lock",
  "A lock leaked on an error path shows as a deadlock in a later operation that tests never make.",
  ["serversseconnection.go", "client.go", "invokeclient.go", "streamclient.go", "httpmux.go", "hub.go", "hublifetimemanager.go", "server.go", "connectionbase.go", "webtransportsconnection.go", "hubconnection.go"], [("sync.Mutex and sync.RWMutex", "all files listed")], ["later operations making progress"])

p("C25", "No lock is held while waiting for somebody else",
  "No operation holds a lock while it waits without a time limit: on a channel, on the network, for another goroutine, in a sleep or in user code other than loggers. Locks are always acquired in one order. So a slow or silent peer or observer cannot block operations of others.",
  ["schedules", "fault_sequences"], "all paths with a lock held, through all calls",
  "Needs a peer or observer that stops reading at the wrong moment.",
  ["client.go", "streamclient.go", "serversseconnection.go", "server.go", "httpmux.go", "hubconnection.go"], [("critical sections", "all files listed")], ["other operations making progress"])

p("C26", "Shared state is accessed under its lock",
  "State of a struct with a lock that changes after construction (pending calls, streams, client state and connection, negotiated connections, groups, write time stamps) is read and written only under that lock, or before it is shared; a variable accessed by atomic operations is accessed only by these.",
  ["schedules"], "every access to a guarded field on every path",
  "The race detector only sees interleavings that tests produce; the suite runs without it.",
  ["client.go", "invokeclient.go", "streamclient.go", "streamer.go", "httpmux.go", "server.go", "hubconnection.go", "serversseconnection.go", "hublifetimemanager.go", "connectionbase.go", "webtransportsconnection.go"], [("mutex per struct", "all files listed")], ["data races"])

p("C27", "A goroutine that may be abandoned never blocks forever on its result",
  "Where an operation starts a helper goroutine that delivers its result over a channel of that operation, the goroutine can deliver and end also when the operation has given up waiting (timeout, cancellation, error): it never stays blocked on a channel nobody reads any more. A forwarded stream of values is received to its end, also after an error value.",
  ["schedules", "fault_sequences"], "every operation with timeout or cancellation and every moment it gives up",
  "Leaked goroutines do not fail tests.",
  ["streamclient.go", "invokeclient.go", "connectionbase.go", "hubconnection.go", "client.go", "server.go"], [("buffered result channels", "all files listed")], ["goroutine count"])

p("C28", "Reads, writes and waits end when their context ends",
  "Every wait of the client, the server, the message loop and the connections for time to pass, for the peer or for another goroutine that depends on the peer (reading, writing, handshakes, handing over messages, waiting for a state or a result) ends when the context it belongs to is cancelled, or after a time limit, and is not entered again after the end of the context was seen. An operation that ends this way returns an error if it has an error result, and a channel of results or errors gets an error before it is closed for this reason. What unblocks a read or write does not block itself, and the response of a server sent events request ends when its connection was served to its end. Excepted are handing results to a caller who does not take them, writing the last close message, and the client's server sent events connection, which has no context that can end.",
  ["schedules", "fault_sequences"], "every blocking operation and every moment of cancellation",
  "Tests cancel at one or two moments; a wait that misses its context shows only when the cancellation comes exactly then.",
  ["connectionbase.go", "netconnection.go", "websocketconnection.go", "serversseconnection.go", "clientsseconnection.go", "hubconnection.go", "client.go", "loop.go", "streamer.go", "Invokeresult.go"], [("ReadWriteWithContext, select with Done", "all files listed")], ["termination after cancel"])

p("C29", "The client's state reflects its connection and ends in closed",
  "The client is connecting from the start of an attempt, connected only after the handshake succeeded and the loop runs, and closed on every way out of its connect loop, with its error set before observers can see the closed state; it reconnects only with a connection factory, never after a close that forbids it, and never reuses a connection of a failed or ended attempt. Backoff is reset only after a connection was established.",
  ["histories", "schedules", "fault_sequences"], "every history of failed and successful attempts, cancellation at any point",
  "Tests run a few reconnects.",
  ["client.go"], [("Start, run, shouldClientEnd", "client.go")], ["State, Err, ObserveStateChanged, WaitForState"])

p("C30", "No hub message is processed before a successful handshake in time",
  "A party dispatches messages only after the other side's handshake was read completely, parsed without error and accepted; an unsupported protocol or a handshake error is answered respectively returned as an error, and a handshake that does not finish within the handshake timeout fails.",
  ["inputs", "fault_sequences", "schedules"], "every handshake request and response, every delay",
  "Tests try a few handshakes.",
  ["server.go", "client.go"], [("processHandshake before the loop is created", "server.go: Serve; client.go: setupConnectionAndProtocol")], ["handshake response", "errors of Serve and Client"])

p("C31", "A silent peer is detected, and a silent party keeps its peer alive",
  "A connection on which nothing was received for the timeout interval ends with an error, every received message restarts that interval, and sending does not. A party that has sent nothing for the keepalive interval sends a ping, again and again.",
  ["schedules", "histories"], "every pattern of received and sent messages over time",
  "Tests wait for one timeout and one ping.",
  ["loop.go", "hubconnection.go"], [("timeout and keepalive tickers", "loop.go: Run"), ("last write stamp", "hubconnection.go")], ["pings on the wire", "end of the connection"])

p("C32", "Stack traces leave the process only when detailed errors are enabled",
  "A stack trace of this process is put into a message to the peer only when detailed errors have been enabled for the party; the default is disabled.",
  ["inputs", "configurations"], "every path on which an error text reaches the peer",
  "Tests compare two texts of one panic.",
  ["loop.go", "party.go", "server.go"], [("enableDetailedErrors guard", "loop.go: recoverInvocationPanic")], ["error texts on the wire"])

p("C33", "Origin checks of websocket requests are governed by configuration only",
  "A websocket upgrade is accepted with exactly the origin patterns and the verification setting configured on the server; nothing in the request can widen them, and by default verification is on with no extra origins.",
  ["configurations", "inputs"], "every request and every configuration",
  "Tests use default configuration from the same origin.",
  ["httpmux.go", "party.go", "serveroptions.go"], [("AcceptOptions", "httpmux.go: handleWebsocket")], ["HTTP responses to upgrade requests"])

p("C34", "Options take effect exactly, are validated, and their errors are reported",
  "Each option stores exactly the given value where the party reads it from and nowhere else, independent of what other options set; values that are not supported (sizes, capacities, intervals and timeouts that are not positive, unknown transports and formats), options used on the wrong party and options that exclude each other give an error, all other values give none; an option's error fails the constructor, nil options are skipped, constructors do not overwrite what an option has set, and an options list passed to a connection factory is neither modified nor lost.",
  ["configurations", "inputs"], "every option with every value on both parties",
  "Tests cover some options with one value each.",
  ["options.go", "serveroptions.go", "clientoptions.go", "party.go", "httpconnection.go"], [("option closures and setters", "all files listed")], ["NewServer, NewClient, NewHTTPConnection"])

p("C35", "The HTTP client sends configured headers and checks every response",
  "Every HTTP request made for a connection (the negotiation, the dial of a websocket, the SSE GET and every SSE POST) carries the configured headers, whose map is not changed, and goes through the configured client (the default client if there is none; a websocket dial uses a configured client if it is an *http.Client); the error of a request and every response to such a request other than success yield an error, every response body that is not handed on to the connection is closed, the requests address the given address with the token (negotiation version 1) or the id (version 0) the server has answered with, only a transport that is configured and offered is used, and the context ends the negotiation and the dial, but not the connection.",
  ["configurations", "fault_sequences"], "every transport, every negotiation version, every response status",
  "Tests look at headers of negotiate requests and successful responses.",
  ["httpconnection.go", "clientsseconnection.go"], [("NewHTTPConnection", "httpconnection.go"), ("SSE POST", "clientsseconnection.go: Write")], ["HTTP requests"])

p("C36", "Connection ids and tokens are unguessable",
  "Every connection id and connection token created for a connection is the encoding of at least 16 bytes from the cryptographic random source; id and token of one negotiation are independent, and the token is what a version 1 client must present.",
  ["inputs", "schedules"], "every generated id",
  "Randomness of ids cannot be seen from samples.",
  ["httpmux.go", "netconnection.go"], [("newConnectionID, getConnectionID", "httpmux.go, netconnection.go")], ["negotiate responses"])

p("C37", "Exactly the intended hub methods can be called by the peer",
  "An invocation calls the method of the hub or receiver whose name equals, ignoring case, the method name that is configured for the target as alternate name, or the target itself if there is none, and nothing else; it is refused as unknown only if there is no such method; the methods the server calls on its hubs (Initialize, OnConnected, OnDisconnected) cannot be called by a peer.",
  ["inputs", "programs"], "every target name and every hub type",
  "Tests call existing methods.",
  ["loop.go", "hub.go", "party.go"], [("getMethod", "loop.go"), ("alternate names", "party.go")], ["hub methods executed"])

p("C38", "Protocol name, transfer mode and wire format always agree",
  "The protocol a party uses is the one named in the handshake on both sides, a fresh instance per connection configured with the party's own limits, text for json and binary for messagepack; a websocket sends messages in the mode its protocol needs, and the formats offered in a negotiation are ones the transport supports.",
  ["configurations", "inputs"], "every format, protocol name and transport",
  "Tests use one or two combinations.",
  ["loop.go", "client.go", "server.go", "hubconnection.go", "httpmux.go", "websocketconnection.go", "clientoptions.go"], [("protocol selection and SetTransferMode", "server.go: protocolMap; client.go: receiveHandshakeResponse; hubconnection.go: newHubConnection")], ["handshake", "websocket message types"])

p("C39", "The number of concurrent upload streams never exceeds its limit",
  "With a limit on concurrent streams, a connection never has more open upload streams than the limit, however invocations are combined; checking and registering are one atomic step, a stream is never opened under the id of an open one, and a stream that ended no longer counts. Limit 0 means no limit.",
  ["schedules", "histories", "inputs"], "every history of stream invocations, completions and rejected invocations",
  "Tests open limit+1 streams once.",
  ["streamclient.go", "loop.go"], [("cap check in buildChannelArgument", "streamclient.go")], ["streams accepted"])

p("C40", "A close message ends the connection as the peer asked",
  "A received close message ends the message loop after the messages before it were handled; its error, if any, becomes the error of the connection, and its reconnect permission decides whether the client reconnects. A server's close message carries its own reconnect permission.",
  ["inputs", "histories"], "every close message at every point of a conversation",
  "Tests send one or two kinds of close messages.",
  ["loop.go", "client.go", "server.go", "hubconnection.go"], [("closeMessage handling", "loop.go: Run; client.go: shouldClientEnd")], ["client state", "close message on the wire"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
