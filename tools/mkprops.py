#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording has one source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))

NOT = "The 7 existing tests only round-trip the codecs; none of them "

p("C01", "Every request is answered exactly once, with an outcome that was offered",
  "A request given to a service is answered exactly once: its responder is called one time, no matter how handler answers, time-outs, cancellations, stops and connection failures race for it, and as soon as any one of those outcomes has happened. "
  "The response carries the request's own id and type and the code and body of one outcome that was really offered; later attempts to answer change nothing and disturb nobody. "
  "A resend hook that puts a failed request back and sends it again keeps the same guarantee for the final responder.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving of answering, expiring, cancelling, stopping and failing parties, over every kind of service (plain function, route, worker pool, stat wrapper, balancer, network client)",
  NOT + "sends a request at all, and a wrong interleaving needs two parties to act inside a window of a few instructions.",
  ["request.go", "response.go", "service.go", "parallel_service.go", "net/client/connection/connection.go"],
  ["request state machine New/Pending/InFly/Prepared/Performed changed by compare-and-swap or under the request lock",
   "chain of bookmarks unwound under the request lock before the responder is called",
   "RespondBytes needs InFly, RespondFail needs not-yet-performed"])

p("C02", "Request time-outs are never early, never lost and never late",
  "A request with a time limit (its own, its multi-request's, or its service's default) that is still unanswered when the limit has passed is answered with the time-out code: never before the limit has elapsed and within a bounded delay after it, wherever the request is then (queued, waiting for a worker, written to a connection or waiting for one). "
  "The only exception is a request a pool worker is already executing: its context is expired at that moment and the worker's own answer, or an internal error if it gives none, is what the caller gets. "
  "A request answered in time is never answered with time-out, and only the first limit set on a request counts.",
  ["schedules", "configurations", "histories"],
  "for every placement of the deadline relative to queueing, execution, network progress and answering; every number of simultaneously armed limits",
  NOT + "uses a deadline, and lateness bugs need the deadline to fall between two particular steps of the timer thread.",
  ["request.go", "custom_timer.go", "service.go", "wait_group.go", "parallel_service.go"],
  ["SetTimeout arms the shared timer heap once", "heap goroutine calls Expire -> RespondFail(RcTimeout)",
   "worker context turns the time-out into context expiry and puts the request back in flight"])

p("C03", "Timers fire exactly once, on time, unless stopped",
  "Every timer armed with a delay fires exactly once, not before the delay has really elapsed (even if the wall clock is stepped meanwhile) and within a bounded delay after it, for any number of timers armed and stopped concurrently, in any order and with any mix of delays. "
  "A timer whose stop call returned before its deadline never fires, and stopping a timer never affects another timer.",
  ["schedules", "histories", "configurations"],
  "for every history of concurrent arm/stop operations, every mix and number of delays, every interleaving with the timer threads, and wall-clock steps",
  NOT + "arms a timer; heap-order and lost-wakeup bugs need particular shapes of the heap or a particular preemption of the timer goroutine.",
  ["custom_timer.go", "epoch.go"],
  ["4-ary pairing-like heap with removal by index", "one goroutine per heap sleeping on a condition variable woken by AfterFunc or by a new top",
   "epoch arithmetic on the clock"])

p("C04", "Cancelling or expiring a context reaches everything created under it",
  "Once a context is cancelled or expired, every request, multi-request and child context ever created from it that is not finished is cancelled (requests and multi-requests are answered with the cancel code) and every one created later is cancelled at once; none is missed whatever the interleaving of creation, completion and cancellation. "
  "The first of cancel and expire decides the state seen through the context, the call does not wait for the cancelled work to acknowledge it, and work under other contexts is not affected. "
  "When the request being served by a pool worker is cancelled or times out, this happens to the context its handler was given.",
  ["schedules", "histories"],
  "for every interleaving of creating, finishing and cancelling work under a tree of contexts",
  NOT + "creates a context; a missed cancellation needs a creation to fall inside the cancelling call.",
  ["context.go", "request.go", "parallel_service.go"],
  ["canceler registry of a context (two inline slots plus a map) guarded by its mutex", "state word set once",
   "ReqContext bookmark turns a cancelled or expired request into a cancelled or expired context"])

p("C05", "Context child functions run once; WaitAll waits for exactly the live children",
  "A function started through a live context runs exactly once with its own child context, whose cancellation state follows the parent's; through a finished (cancelled or expired) context it is not run. "
  "WaitAll returns only when every child function, request and multi-request registered before the call has finished, and it does return once they have, also when the context is cancelled meanwhile or children finish concurrently.",
  ["schedules", "histories"],
  "for every interleaving of starting, finishing, cancelling and waiting, for any number of children, including children of the asynchronous kind finished by an explicit Done",
  NOT + "starts a child function or waits for one.",
  ["context.go"],
  ["Child registers the new context with its parent", "Done removes it", "condition variable signalled when the registry is empty"])

p("C06", "A multi-request collects exactly one response per request and then finishes",
  "Collecting a multi-request, as a list or as a stream, yields exactly one response for every request issued through it, carrying that request's id, and then finishes: the list call returns and the stream is closed exactly when all are in. "
  "If the multi-request times out or it or its context is cancelled, the requests still unanswered are answered with the time-out or cancel code and collection finishes promptly; answers that arrived before keep their content. "
  "A finished multi-request no longer holds its context back, and its responses can be matched to requests by id.",
  ["schedules", "histories", "configurations"],
  "for every interleaving of answers, issuing, collecting, time-outs and cancellations; zero, one or many requests; list and stream collection",
  NOT + "issues a multi-request; the switch from buffering to streaming races with every arriving answer.",
  ["wait_group.go", "generator.go", "context.go"],
  ["responses buffered under a mutex until the collecting mode is chosen", "counter of answered versus issued requests",
   "fail-all pass over outstanding requests on cancel or expiry"])

p("C07", "A worker pool runs at most N handlers, uses all N, and survives panics",
  "A worker pool of size N never has more than N handlers running at once, and whenever a request is waiting and fewer than N handlers run one is started, each request at most once. "
  "A request that was answered (time-out, cancel) while it could not yet have been given to a worker is never executed. "
  "A handler that panics, at any point, costs nothing but its own request, which is answered with the internal-error code: its slot is reused, the pool and later requests are unaffected.",
  ["schedules", "histories", "inputs"],
  "for every pool size, arrival pattern, handler duration, panic and cancellation pattern and interleaving",
  NOT + "runs a worker pool.",
  ["parallel_service.go", "request.go"],
  ["semaphore channel of N tokens taken before a handler starts and returned by a deferred call",
   "recover in the deferred call; ReqContext.Done answers with RcInternalError"])

p("C08", "Endpoint queues neither lose, duplicate nor reorder, however long they get",
  "Every request sent to a running endpoint reaches its serving loop exactly once unless it was answered first, and requests from one sender arrive in the order sent, whatever the number of concurrent senders and however far the backlog exceeds the size of the channel. "
  "Sending never blocks behind a slow consumer.",
  ["schedules", "histories", "configurations"],
  "for every number of senders, backlog length (below, at and far above the channel capacity and the row size of the overflow ring), cancellation pattern and interleaving",
  NOT + "sends through an endpoint queue, and the overflow path starts only beyond 16384 queued requests.",
  ["buffer.go", "service.go"],
  ["fast path straight to the channel when the ring is empty", "overflow ring of rows indexed by an atomic tail, drained by one goroutine",
   "bookmark in each slot frees it when the request is answered early"])

p("C09", "Stopping an endpoint returns, and answers everything it leaves behind",
  "Stopping a running endpoint (worker pool, user-written endpoint, balancer) returns promptly, in every state of the endpoint and its loop, and never makes a concurrent or later sender panic or block. "
  "Every request sent before, during or after the stop is answered exactly once: work in progress by its handler, everything not yet started with the shutdown code.",
  ["schedules", "histories"],
  "for every instant of the stop relative to sends, queueing, execution and to other stops of sibling endpoints, and every backlog length",
  NOT + "stops an endpoint.",
  ["service.go", "buffer.go", "parallel_service.go", "balancer.go"],
  ["exit channel read by the serving loop", "buffer closed by Stop and drained with the shutdown code"])

p("C10", "A balancer spreads its queue over its children without loss or duplication",
  "Every request sent to a balancer is taken by exactly one of its children and none is lost, children may be added before or at any time while it runs, and each child added is run exactly once and takes part in serving. "
  "As long as one child can take requests none waits for another, busy child, and stopping the balancer stops every child.",
  ["schedules", "histories"],
  "for every number of children, instant of adding a child relative to the balancer's start, mix of fast, slow and blocked children, and interleaving",
  NOT + "runs a balancer.",
  ["balancer.go", "service.go"],
  ["children share the balancer's request channel", "AddChild runs the child itself when the balancer already runs, else the loop does"])

p("C11", "A stat wrapper reports each request exactly once with its duration",
  "A service wrapped for statistics behaves to its callers exactly as the bare service, and for every request sent through the wrapper the statistics function is called exactly once, with that request and a duration equal to the time between the send and the answer. "
  "This holds for answers, time-outs, cancellations and shutdowns alike, and a request already answered before the send is neither forwarded nor reported.",
  ["schedules", "histories"],
  "for every outcome, nesting of wrappers and interleaving of sending with answering",
  NOT + "wraps a service.",
  ["stat.go", "request.go"],
  ["bookmark chained to the request before it is forwarded"])

p("C12", "Concurrent encoding and decoding behave as if done alone",
  "Encoding and decoding values from any number of goroutines, including the first uses of new types, gives each caller exactly the bytes or values (or error) it would get alone, never a crash. "
  "A body handed to a caller is never changed by any later encoding, decoding, request or received frame, also after an encoder panicked in the middle of a value.",
  ["schedules", "histories"],
  "for every interleaving of first uses, pooled encoder and decoder reuse, request generation and frame reading, and a panic at any point of an encoding",
  "The existing tests encode and decode single-threaded; registry publication and pooled-buffer reuse only matter when several goroutines interleave.",
  ["marshal/marshal.go", "marshal/writer_reflect.go", "marshal/reader_reflect.go", "generator.go", "sbox/result.go", "sbox/writer.go", "sbox/reader.go", "net/slice_reader.go"],
  ["copy-on-write type registries published after a type is complete", "pooled writers handing out capacity-limited slices of their buffer",
   "single-slot reader cache taken by compare-and-swap"])

p("N01", "Framing survives any segmentation of the byte stream",
  "For every return-code width, the frames parsed from a byte stream (requests, responses, pings: type, id, code, body) are exactly the frames written to it, whatever pieces the transport splits or joins the stream into and whatever sizes and order of frames. "
  "A stream that ends or fails anywhere inside a frame yields all frames before it, then an error and never a made-up frame; write errors and expired read or write limits surface as errors.",
  ["inputs", "schedules", "fault_sequences"],
  "for every sequence of frames and body sizes around the buffer sizes, every cut of the stream into reads and writes, truncation or failure at every offset, all three code widths",
  NOT + "reads or writes a frame; boundary bugs need a read to end at a particular offset of a frame.",
  ["net/header.go", "net/buf_writer.go", "net/slice_reader.go"],
  ["SliceReader hands out sub-slices of a read buffer and refills it", "BufWriter buffers 4096 bytes and passes large bodies through",
   "length field includes the return code"])

p("N02", "A client request gets the response the server sent for that very request",
  "A request sent through the network client reaches the server byte for byte as given, and if it is answered with a server response, that is the code and body the server sent for exactly this request, however responses are reordered, delayed, duplicated, or raced by time-outs and cancellations of other requests, and however many requests are outstanding. "
  "A request that was cancelled or timed out while outstanding, or a stray response, never causes another request to get a wrong, missing or second answer. "
  "Given a live connection, a server that answers and no time-out or cancel, the answer is delivered.",
  ["schedules", "inputs", "fault_sequences"],
  "for every response order, number of outstanding requests (beyond one id row of 256), body size, mix of cancellation and time-out, return-code width and network timing",
  NOT + "opens a connection.",
  ["net/client/connection/connection.go", "net/client/connection/request_holder.go", "net/client/server.go", "request.go"],
  ["per-connection ids mapped to requests in rows of 256", "bookmark ties an id slot to a request", "reader goroutine answers by id"])

p("N03", "The server executes exactly what clients send, once each",
  "Every complete request frame a client sends is given to the service exactly once, with the type, id and body that were sent, in the order sent on that connection, until the server is stopped or that client is lost; nothing that was not sent is executed and no frame of one connection is attributed to another. "
  "Pings are answered by the server itself with the same id and never given to the service.",
  ["schedules", "inputs", "fault_sequences"],
  "for every sequence and segmentation of frames on any number of connections, any interleaving with answers, disconnects and stops",
  NOT + "runs a server.",
  ["net/server/connection.go", "net/server/server.go", "net/header.go"],
  ["read loop of each connection builds one request per frame and sends it to the service"])

p("N04", "Losing a connection fails its outstanding requests promptly with an IO error",
  "When an established client connection breaks or is closed by the peer, in whatever way and at whatever moment, every request that was written to it and is still unanswered is answered with the IO-error code within a bounded time of the break becoming visible, without waiting for new traffic or time-outs. "
  "Responses received in full before the break are still delivered, requests not yet given to that connection are served by the other or later connections, and when no connection is left queued requests are failed rather than kept silently.",
  ["fault_sequences", "crash_points", "schedules"],
  "for every break (end of stream, reset, write failure, half close, protocol error) at every byte offset and instant, for every number of connections and outstanding requests",
  NOT + "breaks a connection.",
  ["net/client/connection/connection.go", "net/client/server.go"],
  ["control loop waits for both halves to close, then answers everything left in the id table"])

p("N05", "The client keeps the configured number of connections",
  "While it runs the network client converges to exactly the configured number of established connections: connections that fail or cannot be dialled are replaced within a bounded time once the server can be reached again, surplus ones are closed after the number was lowered, and it never settles on more or fewer. "
  "Raising and lowering the number while running has the same effect at any time, including while connections are being dialled or dying.",
  ["fault_sequences", "schedules", "histories"],
  "for every sequence of dial failures, breaks, server restarts and changes of the configured number",
  NOT + "opens a connection.",
  ["net/client/server.go", "net/client/connection/connection.go"],
  ["counters of dialling and established connections driven by connection events", "reconnect ticker"])

p("N06", "Stopping the network client drains gracefully and loses no request",
  "After Stop, requests already written to a live connection may still be answered by the server, the connections are then closed and the client leaves no connection behind, provided the server answers or closes; every other request, sent before or after the stop, is answered with the shutdown code (or an IO error if its connection failed). "
  "Stop itself returns promptly in every state: not yet connected, dialling, connected, idle, loaded, or losing connections, and soon after it no further connection is dialled.",
  ["schedules", "fault_sequences"],
  "for every instant of the stop relative to dialling, traffic, failures and other stops, any number of connections and outstanding requests",
  NOT + "stops a client.",
  ["net/client/server.go", "net/client/connection/connection.go", "service.go"],
  ["write side closed first, read side closed when the in-flight count reaches zero", "shutdown flag selects the code for left-overs"])

p("N07", "The server answers each request once, correctly labelled, on its connection",
  "Each request of a client that stays connected gets exactly one response frame on its own connection, with its id and type and the code and body the service answered; frames are never interleaved, duplicated or sent for requests not received. "
  "Codes internal to the process never reach the wire: they are replaced as configured by the code map, or else by the fatal code of the same number. "
  "Several requests outstanding on a connection may be answered in any order and from any number of goroutines.",
  ["schedules", "inputs", "configurations"],
  "for every order and concurrency of answers, number of outstanding requests and of responses queued above the output channel capacity, code map, return-code width and body size",
  NOT + "runs a server.",
  ["net/server/connection.go", "net/server/server.go", "net/header.go"],
  ["table of in-flight requests per connection removes on answer", "output channel of 128 plus overflow buffer drained by the writer loop"])

p("N08", "One slow, stuck or vanished client does not disturb the service or others",
  "A client that does not read its responses, stalls, or disappears at any moment never blocks a handler that answers it, the service, the accept loop or any other connection: requests of other clients keep being answered within a bounded time. "
  "Answering a request of a client that is gone is harmless.",
  ["fault_sequences", "schedules"],
  "for every point at which a client stops reading, stalls or disconnects, with any number of responses pending for it (beyond the output channel capacity), and any interleaving with answers",
  NOT + "runs a server.",
  ["net/server/connection.go"],
  ["Respond never waits for the writer: channel if there is room, otherwise overflow buffer"])

p("N09", "Requests of a client that is gone are cancelled",
  "When a client's connection is lost, the requests it has outstanding in the service are cancelled within a bounded time of the server noticing that it can no longer answer (a write to the connection fails): queued ones are not executed, and running handlers see their context cancelled. "
  "A client that only closed its sending half still gets all its answers, and then the connection is closed.",
  ["fault_sequences", "schedules"],
  "for every break at every instant relative to reading, queueing, execution and answering",
  NOT + "runs a server.",
  ["net/server/connection.go", "request.go", "context.go"],
  ["write loop end triggers cancellation of the in-flight table", "read loop end alone lets answers drain"])

p("N10", "A server stop is graceful and finishes",
  "After Stop the server accepts no new connections, executes no further requests beyond those whose bytes had already arrived, answers those it has taken and delivers the answers to clients that read them, then closes all connections and signals that it has finished. "
  "It does finish, within a bounded time of the last handler answering, in every state and whatever clients do (idle, loaded, closing, disconnected), and nothing it started is left running.",
  ["schedules", "fault_sequences"],
  "for every instant of the stop relative to accepting, reading, executing, answering and disconnecting, any number of connections",
  NOT + "stops a server.",
  ["net/server/server.go", "net/server/connection.go"],
  ["read halves closed on stop", "connection reports its end once to the control loop", "Running channel closed when the last is gone"])

p("N11", "No peer can crash a client or a server, or corrupt its other traffic",
  "Whatever bytes a peer sends (unknown, repeated or reserved ids, wrong or short lengths, unsolicited or duplicate responses, pings with any id, garbage, truncation) and whenever it closes, the process does not panic, hang or leak: at worst that connection ends and its requests fail. "
  "Requests on other connections, and later ones, are still answered correctly.",
  ["inputs", "fault_sequences", "schedules"],
  "for every byte stream and closing instant of a misbehaving peer, mixed with legal traffic",
  NOT + "opens a connection.",
  ["net/client/connection/request_holder.go", "net/client/connection/connection.go", "net/server/connection.go", "net/header.go", "net/slice_reader.go"],
  ["response ids looked up in the id table", "control loop of a connection closes its output channel once"])

p("N12", "Dead peers are detected within the configured limits, live ones never dropped",
  "With read, write and dial limits and a ping interval configured, a client connection whose peer has silently died is given up within the configured limits and its requests fail with an IO error, and a server drops a client that stays silent beyond its read limit (once what it has outstanding is answered and delivered) or accepts no data beyond its write limit. "
  "An idle but healthy connection whose peer answers pings is never dropped, and dialling and its handshake give up within the dial limit.",
  ["fault_sequences", "configurations", "schedules"],
  "for every configuration of limits with ping interval shorter than read limits, every instant at which the peer dies, stalls or recovers",
  NOT + "opens a connection.",
  ["net/client/connection/connection.go", "net/slice_reader.go", "net/buf_writer.go", "net/client/server.go", "net/client/config.go", "net/server/connection.go"],
  ["deadline set before each read and write", "ping ticker in the writer loop", "dial timeout"])

p("N13", "A client registry hands out one running client per address",
  "Any number of goroutines asking a registry for the same address get the same running client and exactly one is ever created per address until the registry is stopped; different addresses get different clients, each connecting to its own address. "
  "Stopping the registry stops every client it created, and asking again afterwards gives a new running one.",
  ["schedules", "histories"],
  "for every interleaving of concurrent first and later look-ups of the same and different addresses and of a stop",
  NOT + "opens a connection.",
  ["net/client/auto.go"],
  ["double-checked look-up in a copy-on-write map"])

p("P01", "Codec round trip and wire layout",
  "Decoding the encoding of a value gives the value back, and the bytes are those the protocol defines, for every supported type.",
  ["inputs"], "for every value of every supported type",
  "The existing tests cover samples of values only.", ["marshal/writer_reflect.go", "marshal/reader_reflect.go", "sbox/writer.go", "sbox/reader.go"],
  ["reflection-driven encoders and decoders"])
p("P02", "Decoding malformed bytes gives an error, not a crash",
  "Decoding any byte string into any supported destination returns a value or an error and does not panic.",
  ["inputs"], "for every byte string and destination type",
  "The existing tests decode well-formed bytes only.", ["marshal/reader.go", "marshal/reader_reflect.go", "sbox/result.go"],
  ["sticky error in the reader"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
