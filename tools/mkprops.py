#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))

p("C01","Every completely received message is dispatched exactly once, unaltered",
 "For every sequence of well-formed messages a client writes on a TCP or TLS connection, and every way the network splits, merges or delays the bytes, the server dispatches each completely received message exactly once, with message id, header and body identical to what was packed. A message cut short by the end of the connection is never dispatched, nothing that was not sent is dispatched, and an orderly close loses no complete message even when it is announced together with the last bytes. The package's own frame readers give clients the same guarantee for the bytes a server sends.",
 ["inputs","schedules","fault_sequences"],"all message sequences (ids over the whole int32 range, header and body sizes from empty to hundreds of KB, all built-in marshallers), all segmentations and delays of the byte stream, all cut points, all interleavings of the connection readers and handlers",
 "The tests send a handful of small messages over loopback, where a frame practically always arrives in one piece, and hardly assert; they never cut a stream, never split a frame and never check for duplicates.",
 ["packx.go","tcpx.go","context.go","utils.go"],[("length-prefixed block reader","packx.go: UnpackToBlockFromReader, UnpackToBlockFromReaderLimitMaxLengthOfByte, readUntil"),("per-connection read loop, one request context per block","tcpx.go: ListenAndServeTCP, context.go: copyContext"),("unpack","packx.go: UnpackWithMarshaller")],
 [("Context.Stream","bytes of the request's block","context.go")],["handler invocations: c.Stream, c.Bind","FirstBlockOf/Recv/UnPackFromReader results"])

p("C02","Replies arrive as whole frames, exactly once, on the right connection",
 "Every reply or cross-connection send that reports success to a healthy connection is received by that connection's client, and by no other, exactly once and as one contiguous frame with the id, header and body given, however many handlers write concurrently and however the network segments the bytes. When a connection fails during writes, the client sees whole frames followed by at most one truncated frame at the very end of the stream. A reply addressed by URL carries the URL of the request it answers.",
 ["schedules","inputs","fault_sequences"],"all interleavings of concurrent handlers and senders on any number of connections, all reply kinds and sizes, all receive-window stalls and cut points",
 "Tests have one writer per connection and one reply; they cannot interleave writers or stall the receiver.",
 ["context.go","packx.go","message.go"],[("one Write call per frame","context.go: replyBuf"),("pack","packx.go: PackWithMarshaller"),("url of request","context.go: GetURLPattern, JSONURLPattern, ProtobufURLPattern")],
 None,["bytes read by the client end of each connection"])

p("C03","Request state and connection state never leak",
 "A value stored for a request is visible only within that request, a value stored for a connection is visible to every later request of that connection and to no other connection, and the message bytes a handler sees do not change while it runs, for any number of concurrent requests. Whether a message is routed by message id or by URL, and to which URL, depends on that message alone and not on earlier or concurrent messages of the connection.",
 ["schedules","histories"],"all interleavings of concurrent requests on one or several connections and all histories of earlier messages on the connection",
 "Tests send one kind of message per connection and read per-request values back on the same context only.",
 ["context.go","tcpx.go"],[("per-request context copy","context.go: copyContext"),("router type / url cache","context.go: RouterType, GetURLPattern")],
 [("PerRequestContext","request-scoped key/value map","context.go"),("PerConnectionContext","connection-scoped key/value map","context.go")],["Get/SetCtxPerRequest, Get/SetCtxPerConn, c.Stream, c.GetURLPattern inside handlers"])

p("C04","Each message runs exactly its configured middleware chain, in order",
 "For every configuration of global, anchor (Use/UnUse, possibly repeated) and per-route middleware, a message executes the global middleware, then the anchors in force where its route was registered (in the order of their first Use), then the route's own middleware, then its handler, each exactly once and in that order; Abort stops everything after it and Next runs the rest before returning. Heartbeat and auth messages skip the middleware only when that feature is on and so configured, a message-callback server runs all global and all anchor middleware before the callback, and a message without a route runs nothing. Concurrent messages never affect one another's chain.",
 ["configurations","schedules","inputs"],"all registration sequences of global/anchor/route middleware and handlers by id and by URL, with Abort/Next placed anywhere, under all interleavings of concurrent messages",
 "Tests exercise three fixed configurations with one message in flight; re-use after un-use, URL routes with middleware, id 0 and concurrent chains are never run.",
 ["mux.go","anchor.go","url-mux.go","tcpx.go","context.go"],[("chain assembly","tcpx.go: handleMessageIDHandlers, handleURLPatternHandlers, handleOnMessage"),("anchor ranges","anchor.go: Contains, callUse, callUnUse"),("chain execution","context.go: Next, Abort, Reset")],
 [("offset, handlers","position in and content of the request's chain","context.go")],["order of middleware and handler invocations per message"])

p("C05","Pipelined messages are handled one at a time, in order",
 "The messages of a pipelined batch are handled exactly once each, strictly in the order they were sent and with no two of the batch running at the same time, whatever the segmentation, the batch's length and the other traffic on the connection. A connection that ends in the middle of a batch causes only completely received members to be handled, in order. Messages before and after the batch on the same connection are handled as usual.",
 ["schedules","inputs","fault_sequences"],"all batch sizes and mixes with ordinary traffic, all cut points inside a batch, all interleavings",
 "No test sends a pipelined batch at all.",
 ["tcpx.go","utils.go"],[("batch collection","tcpx.go: ListenAndServeTCP pipe branch, isPipe"),("serial execution","tcpx.go: handlePipe"),("batch writer","utils.go: PipeJSON")],
 None,["start/end of handler invocations per batch member"])

p("C06","No client input can crash the server or disturb other clients",
 "Whatever bytes a client sends - impossible or inconsistent length fields, truncated or garbage frames, broken batch headers, on TCP or UDP, at any moment including right before disconnecting - the server process does not crash, keeps accepting, and serves every other client correctly. The offending input is never dispatched as something else: it is dropped or reported as an error when decoded, and at most its own connection is closed.",
 ["inputs","fault_sequences","schedules"],"all byte strings, in particular all mutations of the four length fields and of the routing/batch headers, on TCP and UDP, interleaved arbitrarily with well-behaved clients",
 "Tests only ever send well-formed frames.",
 ["packx.go","tcpx.go","context.go","pack-type.go"],[("length checks","packx.go: FirstBlockOfBytes, HeaderBytesOf, BodyBytesOf, UnpackWithMarshaller"),("panic containment of the read loop","tcpx.go: ListenAndServeTCP"),("batch header parsing","tcpx.go: isPipe")],
 None,["process liveness, probes by a healthy client, handler invocations"])

p("C07","Messages beyond the configured size limit are refused",
 "With a per-message byte limit set, a message on a connection (alone or inside a batch) whose declared length exceeds the limit is never dispatched and its connection is closed promptly, without waiting for or buffering the announced content. Every message whose declared length is at most the limit is dispatched normally, and messages completely received before the oversized one are still dispatched.",
 ["inputs","schedules","fault_sequences"],"all limits and declared lengths around and far beyond the limit, all positions in a stream or batch, with the announced content sent, partly sent or withheld",
 "No test sets a limit.",
 ["packx.go","tcpx.go"],[("limit check before allocation","packx.go: UnpackToBlockFromReaderLimitMaxLengthOfByte"),("limit wiring","tcpx.go: SetMaxBytePerMessage, ListenAndServeTCP")],
 [("maxByte","per-message limit","tcpx.go")],["handler invocations, close observed by the client, bytes the server consumed"])

p("C08","A connection's lifecycle is complete, ordered and leak-free",
 "For every accepted connection the connect callback runs exactly once before any of its messages is handled, and the close callback runs exactly once after the connection has ended, whichever way it ended: client close, reset, malformed input, heartbeat loss, auth failure, server stop or a handler closing it. After that the socket is closed, every context of the connection reports offline, and once its handlers have returned every goroutine the server started for the connection has terminated. Closing a connection from several places at once is harmless.",
 ["schedules","fault_sequences","histories"],"all ways and combinations of ways a connection can end, at every point of its life and in every interleaving",
 "Tests never observe a close callback's count, never race two closers and cannot see leaked goroutines.",
 ["tcpx.go","context.go"],[("deferred close and callbacks","tcpx.go: ListenAndServeTCP, ListenAndServeRaw"),("CloseConn and end-of-connection signal","context.go: CloseConn"),("watchers","tcpx.go: heartBeatWatch, broadcastSignalWatch, authWatch"),("signal senders","context.go: RecvHeartBeat, RecvAuthPass, RecvAuthDeny")],
 [("recvEnd","closed when the connection ends","context.go"),("userState","online/offline, shared by all contexts of the connection","context.go")],["callback invocations, socket state, goroutine census at quiescence"])

p("C09","Heartbeat closes dead connections and spares live ones",
 "With heartbeat on, a connection that goes three consecutive configured intervals without a heartbeat is closed by the server then - not before and not later - and the heartbeat-loss callback runs exactly once for it, before the close. A connection whose heartbeats keep arriving within every three intervals is never closed by the heartbeat, whatever else happens on it or on other connections. No heartbeat-loss callback runs for a connection that ended for another reason.",
 ["histories","schedules","fault_sequences"],"all arrival histories of heartbeats and other traffic, including beats coinciding with interval boundaries, delayed by partitions, rewritten handlers and middleware settings, on many connections at once",
 "The only test sends 8 regular heartbeats in real time and asserts nothing about loss, and takes 40 s.",
 ["tcpx.go","context.go"],[("watcher","tcpx.go: heartBeatWatch"),("signal","context.go: HeartBeatChan, RecvHeartBeat"),("configuration","tcpx.go: HeartBeatMode, HeartBeatModeDetail, RewriteHeartBeatHandler")],
 [("times","consecutive missed intervals","tcpx.go: heartBeatWatch")],["close time seen by the client, callback invocations, simulated clock"])

p("C10","Connections that do not authenticate in time are closed, others are not",
 "With auth on, a connection for which the server's auth handler has signalled neither pass nor deny by the deadline is closed at the deadline, and one whose first verdict is deny is closed at once. A connection that passed before the deadline is never closed by auth afterwards, no matter how often auth messages are repeated, and repeating them never blocks the handler. The outcome of one connection never affects another.",
 ["histories","schedules","fault_sequences"],"all timings of pass, deny, repeated and missing auth messages relative to the deadline, on many connections, in all interleavings",
 "No test uses auth.",
 ["tcpx.go","context.go"],[("watcher","tcpx.go: authWatch"),("signals","context.go: RecvAuthPass, RecvAuthDeny, AuthChan")],
 [("recvAuth","auth verdict channel","context.go")],["close time seen by the client, handler completion"])

p("C11","The user pool names exactly the live connection that last went online",
 "A user name resolves to the connection (using one name at a time) that most recently went online under it for as long as that connection is open and has not gone offline, and messages sent to the name reach exactly that connection. When a connection ends or goes offline, only its own registration disappears - never that of a newer connection using the same name - and a connection that has already ended can never be left registered. Sending to a name with no live connection reports an error.",
 ["schedules","histories","fault_sequences"],"all interleavings of going online, offline, reconnecting under the same name, disconnecting and sending, on any number of connections",
 "No test touches the pool; the failing histories need a reconnect or a disconnect racing a login.",
 ["client-pool.go","context.go","tcpx.go"],[("registration","context.go: Online, Offline, CloseConn; client-pool.go"),("lookup and send","context.go: SendToUsername")],
 [("Clients","name to context","client-pool.go")],["pool lookups, bytes received by clients, errors of sends"])

p("C12","Graceful stop: no new connections, and exactly the promised old ones end",
 "After Stop, called once all addresses are up, returns success the server accepts no new connection or datagram on any of its addresses. With close-all false every existing connection stays open and served, whatever features are on; with close-all true every connection accepted before or during the stop is closed within bounded time and disappears from the pool. Of any number of concurrent Stop calls exactly one succeeds per running period and the others report an error, and Stop never panics or deadlocks.",
 ["schedules","histories","configurations"],"all interleavings of Stop with accepts, logins, heartbeats, handlers and other Stops, for every combination of pool, broadcast, heartbeat, auth, TLS and network kind (tcp, tcp4, tcp6, unix)",
 "No test ever stops a server.",
 ["tcpx.go","client-pool.go"],[("stop","tcpx.go: Stop, stopState, closeAllConnection"),("broadcast","tcpx.go: broadcastSignalWatch"),("listener registry","tcpx.go: fillProperty")],
 [("state","running/stopped","tcpx.go"),("properties","listeners to close and restart","tcpx.go")],["dial results, connection state seen by clients, Stop results"])

p("C13","Restart brings back every address, repeatedly",
 "After a successful Restart (or Stop followed by Start) every address the server served before is served again within bounded time, in the same mode (framed, raw, UDP, TLS) and with the same handlers, and connections made to it afterwards work and stay open. Restart without close-all leaves existing connections open and served. This holds for any number of restart cycles, any number of addresses and any setting of the close-all flag. Start on a running server and Restart on a stopped one report an error and change nothing.",
 ["histories","schedules","configurations"],"all sequences of stop/start/restart cycles with any flags over servers with one or several addresses and modes, interleaved with client traffic",
 "No test restarts a server.",
 ["tcpx.go"],[("restart","tcpx.go: Start, Restart, fillProperty"),("close-all signal lifetime","tcpx.go: closeAllConnection")],
 [("properties","what to listen on again","tcpx.go")],["dial results and request/response probes after each restart"])

p("C14","Configured deadlines are enforced",
 "A general, read or write deadline set on the server before it starts applies to every connection it accepts: a connection is served normally before the read deadline and closed by the server at it, and a reply blocked by a client that does not read fails at the write deadline. A deadline set through a connection's context takes effect on that connection only. Setting only one kind of deadline never disables or overrides another; datagram servers are not meant here.",
 ["configurations","schedules","fault_sequences"],"all combinations of general/read/write deadlines on server and context, all traffic timings around them, with idle, slow and non-reading clients",
 "No test sets a deadline.",
 ["tcpx.go","context.go"],[("deadline wiring","tcpx.go: ListenAndServeTCP, ListenAndServeRaw"),("context deadlines","context.go: SetDeadline, SetReadDeadline, SetWriteDeadline")],
 [("deadLine, readDeadLine, writeDeadLine","server-wide deadlines","tcpx.go")],["close time seen by the client, reply results, simulated clock"])

p("C15","Stalled clients and transient accept errors never starve other clients",
 "Requests on healthy connections are answered, and new connections are accepted and served, within bounded time while other clients stall: not reading their replies, sending half a message, vanishing silently or being partitioned. Transient accept failures (descriptor exhaustion) do not end the server. Once faults stop, all connections that are still open make progress again.",
 ["fault_sequences","schedules"],"all placements of stalls, partitions, silent client deaths and accept failures relative to the traffic of healthy clients, including sends to stalled users through the pool",
 "Tests have no stalled peers and no failing system calls.",
 ["tcpx.go","context.go","client-pool.go"],[("goroutine per connection and per message","tcpx.go: ListenAndServeTCP"),("accept loop","tcpx.go: ListenAndServeTCP, ListenAndServeRaw")],
 None,["request/response latency in simulated time and steps"])

p("C16","UDP requests are handled once per datagram and answered to their sender",
 "Every datagram delivered to a UDP server whose first block is well-formed is handled exactly once with exactly that block's content, and replies go to the address that sent it, for any loss, duplication, reordering and concurrency; malformed or oversized datagrams are dropped, or reported as an error when decoded, without other effect. Serving datagrams leaves no goroutine behind and never closes the socket, whatever features are enabled. Stop ends the service and the serving call returns.",
 ["fault_sequences","inputs","schedules","configurations"],"all datagram sequences under loss, duplication, reordering and delay from several senders, with every combination of heartbeat, broadcast and pool settings",
 "One test sends one datagram.",
 ["tcpx.go","packx.go","context.go"],[("receive loop","tcpx.go: ListenAndServeUDP, ReadAllUDP"),("first block","packx.go: FirstBlockOfBytes"),("reply","context.go: replyBuf")],
 None,["handler invocations, datagrams received by each client, goroutine census"])

p("C17","Raw mode hands each connection's byte stream to the handler intact",
 "For each raw connection the global and anchor middleware (as registered by Use) and then the raw handler run exactly once, in that order, on a context of that connection only; the handler reads exactly the bytes the client sent, in order, and the client receives exactly the bytes the handler wrote. When the handler returns or the chain is aborted the connection is closed and the close callback runs once; other connections are unaffected.",
 ["inputs","schedules","fault_sequences"],"all byte streams, segmentations, stalls and cut points on concurrent raw connections",
 "One test sends one short line and asserts nothing.",
 ["tcpx.go","context.go"],[("raw serving","tcpx.go: ListenAndServeRaw, handleRaw"),("reader/writer binding","context.go: InitReaderAndWriter, copyContext")],
 None,["bytes read by handler and client, callback invocations"])

p("C18","Exit hooks run completely and in order before the process exits",
 "Once a termination signal arrives after BeforeExit has registered hooks, every hook runs exactly once, in registration order, and only then does the process exit with status 0. No signal that arrives after BeforeExit returned is lost, whatever the schedule, and further signals neither rerun nor cut short the hooks.",
 ["schedules","fault_sequences"],"all arrival times and repetitions of termination signals relative to the registering goroutine and the hooks, for any number of slow or fast hooks",
 "Tests register a hook but never deliver a signal.",
 ["tcpx.go"],[("signal wait and hook loop","tcpx.go: BeforeExit")],
 None,["hook invocations and exit event"])

p("C19","A client pool is an atomic map under concurrent use",
 "Any concurrent use of a client pool through its operations is equivalent to executing the operations one at a time in some order consistent with real time: a lookup returns the last context stored under the name and not since removed. No operation crashes, deadlocks or affects another name.",
 ["schedules","histories"],"all concurrent histories of set, get, delete, online and offline over a few names",
 "No test uses the pool, let alone concurrently.",
 ["client-pool.go"],[("lock around the map","client-pool.go")],
 [("Clients","name to context","client-pool.go")],["operation results, recorded invoke/return history"])

p("C20","Packing then unpacking restores the message for every marshaller",
 "For each built-in marshaller, unpacking what was packed yields the same message id, header and body, and the accessor functions for the parts of a packed block agree with the whole.",
 ["inputs"],"all messages and marshallers",
 "Tests sample a few values.",
 ["packx.go","marshaller.go","message.go","pack-type.go"],[("pack/unpack","packx.go")])
for x in P: print(json.dumps(x,ensure_ascii=False))
