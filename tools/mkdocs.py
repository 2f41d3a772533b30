#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, the single source of both."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or []))


prop("C01", "Every legal message survives encoding and parsing byte for byte",
     "Every message that's legal according to the protocol (requests, signals and replies of all encodings, error and special replies, "
     "session and configuration messages) is written in exactly the documented binary format, header padding of UTF16 messages "
     "included, and has the length that was predicted for it. Parsing these bytes restores the type, identifier, name, payload, "
     "encoding and configuration exactly as they were written.",
     ["inputs"], "all legal messages: kinds, encodings, names of 0 to 255 bytes, payloads of any size, identifiers, configurations",
     "The tests write and parse a handful of fixed messages per type; name and payload lengths, paddings and encodings combine in far more ways.",
     ["message/writeMsgRequest.go", "message/writeMsgReply.go", "message/writeMsgSignal.go", "message/parse.go", "message/newAcceptConfMessage.go"],
     [("message writers", "message/writeMsg*.go"), ("message parser", "message/parse*.go"), ("length prediction", "message/calcMsgLen*.go")],
     "property-based round trip against an independently written encoder",
     "Random search with an independent reference encoder and decoder; boundary lengths favoured.")

prop("C02", "The parser accepts exactly the well-formed messages",
     "Given any sequence of bytes the parser either returns precisely the message the protocol defines for them or refuses them; it never "
     "crashes, reads beyond the message or accepts malformed input. The outcome depends on these bytes only, not on what was parsed before.",
     ["inputs", "histories"], "all byte strings up to the buffer size, parsed by fresh and reused message objects",
     "The tests try selected invalid messages; acceptance has to be right for every truncation, type byte, name length and alignment.",
     ["message/parse.go", "message/parseRequest.go", "message/parseRequestUtf16.go", "message/read.go", "message/buffer.go"],
     [("per-type parsers", "message/parse*.go"), ("minimum length constants", "message/message.go")],
     "differential fuzzing (structured mutation) of the parser against a reference decoder",
     "Random search; the reference decoder was written from the protocol documentation.")

prop("C03", "Pooled message objects never mix up, leak or share contents",
     "As long as a message obtained from a message pool isn't closed its contents stay what was read into it, whatever happens to other "
     "messages of the pool, and it isn't handed out a second time. A closed or newly handed out message, as well as one that refused its "
     "input, exposes nothing of a previous message.",
     ["histories"], "all histories of getting, reading, refusing and closing messages of a pool",
     "The tests use one message at a time; reuse of dirty buffers takes particular sequences of messages of different types.",
     ["message/syncPool.go", "message/message.go", "message/buffer.go"],
     [("reset on closure", "message/message.go Close"), ("pool", "message/syncPool.go")],
     "stateful property-based testing against a model of the pool",
     "Random histories on up to 6 messages; every open message is compared with its own frame after each step.")

prop("C04", "Reading a message doesn't depend on how the stream is split",
     "Reading a message from a stream yields the same result no matter how the stream delivers its bytes. A message that fits into the "
     "buffer is accepted, a longer one is always refused and never truncated. A failing stream yields an error and leaves an empty "
     "message object that can be used again.",
     ["inputs", "fault_sequences"], "all messages, buffer sizes, partitions into reads and points of failure of the stream",
     "The tests read from complete in-memory buffers only.",
     ["message/read.go", "message/buffer.go"],
     [("buffer filling", "message/buffer.go"), ("overflow detection", "message/read.go")],
     "property-based testing with generated chunkings and injected read faults, metamorphic oracle",
     "Random search over chunkings and fault positions.")

prop("C05", "Message writers report every fault and close the stream exactly once",
     "Writing a message closes the given writer exactly once, even if writing or closing fails, and returns an error in this case. "
     "Illegal messages (overlong or unprintable names, odd UTF16 payloads, empty requests, bad error codes, unknown kinds of replies) are "
     "refused without a single byte being written; nothing is written after a failed write.",
     ["inputs", "fault_sequences"], "all legal and illegal messages and all positions of a failing write or closure",
     "The tests never let a writer fail; an unclosed writer blocks its connection forever.",
     ["message/writeMsgRequest.go", "message/writeMsgReply.go", "message/writeMsgSignal.go", "message/writeMsgErrorReply.go",
      "message/writeMsgSpecialRequestReply.go"],
     [("closing the writer on each path", "message/writeMsg*.go")],
     "property-based fault injection into the writer",
     "Random search; every case injects a fault at a generated write or an illegal argument.")

prop("C06", "Payloads convert to UTF8 correctly",
     "Converting a payload to UTF8 returns binary and UTF8 payloads unchanged and the exact UTF8 form of every UTF16 payload, surrogate "
     "pairs included, with invalid parts replaced such that the result is valid. An odd number of UTF16 bytes is an error. "
     "The payload itself is never modified, and payloads, messages and replies agree.",
     ["inputs"], "all payloads of all encodings",
     "The tests convert a few ASCII strings; code points outside of the basic plane and lone surrogates aren't covered.",
     ["payload/payload.go", "message/message.go", "requestManager/reply.go"],
     [("UTF16 decoding", "payload/payload.go Utf8")],
     "differential property-based testing against an independent UTF16 decoder",
     "Random search over code units and code points, boundaries favoured.")

prop("C07", "The handshake precedes everything else and tells the effective configuration",
     "Creating a server either fails, leaving the transport untouched, or applies the documented defaults. The first message on any "
     "connection is the configuration the server effectively uses (protocol version, read timeout, message buffer size, "
     "sub-protocol), it's sent before the client is announced to the application, and no message of the client is handled before the "
     "announcement returned. A connection whose handshake fails is closed and never announced.",
     ["configurations", "fault_sequences"], "all server options, transport-provided options and faults during the handshake",
     "The tests use few configurations and never let the handshake fail.",
     ["newServer.go", "serverOptions.go", "handleConnection.go"],
     [("defaults and validation", "serverOptions.go Prepare"), ("handshake", "handleConnection.go writeConfMessage")],
     "property-based testing with fault injection through a harness-owned transport",
     "Random configurations and faults; the transport is a stand-in owned by the harness.")

prop("C08", "Every request is replied to exactly once with the outcome of its handler",
     "On an open connection every valid request receives exactly one reply carrying its identifier: the handler's payload in its encoding, "
     "the handler's request error with code and message, or the appropriate special reply. Other errors are reported as an internal error "
     "without disclosing their text and are logged. Signals and heartbeats are never replied to, and a reply that can't be sent as it is "
     "turns into an internal error reply.",
     ["inputs", "schedules"], "all mixes of messages, handler outcomes, payload sizes and completion orders on several connections",
     "The tests send one request at a time with few outcomes.",
     ["handleMessage.go", "handleRequest.go", "fulfillMsg.go", "failMsg.go"],
     [("reply of outcomes", "handleRequest.go"), ("failure replies", "failMsg.go"), ("success replies", "fulfillMsg.go")],
     "model-based testing with generated handler outcomes and completion orders",
     "Random search; the order in which handlers proceed is drawn by the harness.")

prop("C09", "Handlers are given every message exactly once and intact while they run",
     "Every valid request and signal is handed to its handler exactly once with its name, payload, encoding and identifier as they were "
     "sent and with the connection it was received on. These don't change as long as the handler runs, no matter which other messages are "
     "received, handled or replied to meanwhile.",
     ["inputs", "schedules"], "all streams of messages on several connections and all interleavings of their handlers",
     "The tests handle messages sequentially; recycling buffers too early shows only while handlers overlap.",
     ["handleMessage.go", "handleSignal.go", "handleRequest.go", "message/syncPool.go"],
     [("message life time", "handleMessage.go"), ("message pool", "message/syncPool.go")],
     "schedule-controlled property-based testing: parked handlers compare their message again when they resume",
     "Random search; the harness parks handlers and decides about their order.")

prop("C10", "The concurrency limit of a connection is fully used and never exceeded",
     "At no time does a connection run more handlers than its concurrency limit allows, counting requests as well as signals, and messages "
     "are handled as soon as the limit permits and begun in the order they were received. Neither heartbeats, refused messages nor other "
     "connections take up any of a connection's capacity.",
     ["schedules", "configurations"], "all limits (unlimited included), mixes of messages and orders in which handlers return",
     "The tests verify one limit with one mix of messages; a leaked handler slot shows after the limit was reached several times.",
     ["registerHandler.go", "deregisterHandler.go", "connection.go", "handleMessage.go"],
     [("handler slots", "registerHandler.go"), ("slot release", "deregisterHandler.go")],
     "model-based testing with a harness-owned schedule",
     "Random search; after each step the set of running handlers must be exactly the one the model predicts.")

prop("C11", "Idle connections are closed after the read timeout, never earlier",
     "A connection is closed, and the application told, once its client sent nothing for the read timeout; no connection is closed earlier. "
     "Every message received, heartbeats included, starts the timeout anew, whatever handlers are doing and however long they take.",
     ["schedules", "histories", "configurations"], "all timeouts and sequences of messages, pauses and handler durations",
     "Tests with real clocks can afford a few short pauses only and tolerate large deviations.",
     ["handleConnection.go", "transport/memchan/socket.go"],
     [("read deadline", "handleConnection.go"), ("deadline of memchan sockets", "transport/memchan/socket.go read")],
     "property-based testing in virtual time (testing/synctest)",
     "Random histories in virtual time over the memchan transport plus inspection of deadlines given to a harness-owned transport.")

prop("C12", "Malformed messages affect nothing but their own connection",
     "A malformed message closes the connection it was received on, is never handed to a handler, and its sender's later messages are neither "
     "handled nor replied to. Well-formed messages a server doesn't expect are ignored, and every other well-formed "
     "message is handled. Other connections keep being served as before.",
     ["inputs", "histories"], "all byte strings sent at any point of a connection's history over both a generic and the memchan transport",
     "The tests send selected garbage as the first message and don't look at other connections.",
     ["handleMessage.go", "handleConnection.go", "transport/memchan/socket.go"],
     [("dispatch by type", "handleMessage.go"), ("read errors", "handleConnection.go")],
     "fuzzing connection histories with mutated frames against a reference decoder",
     "Random search; a bystander connection is probed after each step.")

prop("C13", "Closing a connection lets its handlers finish and happens exactly once",
     "Once a connection is closed by the server no further message received on it is handled, not even those waiting for another handler to return: requests are refused and signals dropped. "
     "Handlers running at this time finish and their replies are sent before the socket is closed. The socket is closed, and the "
     "application told about the disconnection including its cause, exactly once, however often and concurrently the connection is closed or lost.",
     ["schedules", "histories"], "all orders of closing, losing and using a connection while handlers are running",
     "The tests close idle connections; a lost reply or a double notification takes handlers running during the closure.",
     ["connection.go", "handleConnection.go", "registerHandler.go", "deregisterHandler.go"],
     [("deferred closure", "connection.go Close and deregisterTask"), ("disconnection hook", "handleConnection.go")],
     "stateful schedule-controlled property-based testing against a model",
     "Random histories; running handlers are parked and released by the harness.")

prop("C14", "Shutting down lets handlers finish and refuses everything else",
     "Shutdown returns, and the transport is shut down, only when all handlers running at the time of the call have returned and replied, "
     "and it does return then, even if called several times concurrently. As soon as the shutdown began no further handler is begun: requests, session closures and restorations "
     "included, are refused with a shutdown reply, signals are dropped, heartbeats are still accepted, connections stay open and new ones are refused.",
     ["schedules", "histories"], "all orders of shutdowns, messages, closures and returning handlers on several connections",
     "The tests shut down with a single handler running.",
     ["server.go", "registerHandler.go", "deregisterHandler.go", "isShuttingDown.go", "handleSignal.go"],
     [("operation counter", "registerHandler.go, deregisterHandler.go"), ("shutdown", "server.go Shutdown")],
     "stateful schedule-controlled property-based testing against a model",
     "Random histories; the harness owns the transport and the handlers.")

prop("C15", "Session state, registry and notifications agree after every operation",
     "After any sequence of creating, restoring, closing (by client, connection or key) and losing sessions and connections, each connection "
     "has exactly the session this history implies, and the registry reports exactly the active sessions and their connections. A session survives "
     "its connections, is destroyed when closed on its last connection, and may be restored until then. Every operation's result, reply and "
     "notification to the client are the ones this state implies.",
     ["histories", "fault_sequences"], "all histories of session operations over several connections and sessions, with failing notifications",
     "The tests run short scripts of two or three operations.",
     ["sessionRegistry.go", "connection.go", "handleSessionRestore.go", "handleSessionClosure.go", "server.go"],
     [("session registry", "sessionRegistry.go"), ("session life cycle", "connection.go")],
     "stateful model-based testing",
     "Random histories compared with a reference model after each operation.")

prop("C16", "A session is destroyed at most once and only when closed on its last connection",
     "However session closures, restorations, connection losses and creations interleave: the session manager is told to destroy a session at most once, "
     "only if it was closed, and never while a connection goes on using it. Afterwards no connection has it and it can't be restored, "
     "otherwise it can. When everything is at rest the registry agrees with the connections and every request was replied to once.",
     ["schedules"], "all interleavings of concurrent session operations",
     "The tests perform session operations sequentially.",
     ["sessionRegistry.go", "connection.go", "handleSessionRestore.go", "server.go"],
     [("registry lock", "sessionRegistry.go"), ("restorations in progress", "sessionRegistry.go, handleSessionRestore.go")],
     "schedule-controlled property-based testing (hooks park the operations)",
     "Random interleavings at the hooks, the socket writers and the lookups; switches within critical sections happen by chance only.")

prop("C17", "A session is never used by more connections than allowed",
     "With a limit on the connections per session no interleaving of restorations makes more connections use a session than allowed. "
     "Restorations exceeding the limit are refused with the dedicated reply and change nothing, and no restoration is refused while the limit "
     "isn't reached; connections that are gone don't count.",
     ["schedules", "configurations"], "all limits and interleavings of restorations and losses of connections",
     "The tests restore sequentially.",
     ["sessionRegistry.go", "handleSessionRestore.go"],
     [("limit check and registration are atomic", "sessionRegistry.go")],
     "schedule-controlled property-based testing (restorations race in generated orders)",
     "Random interleavings at lookups and replies.")

prop("C18", "Creating a session succeeds completely or leaves no trace",
     "When creating a session succeeds the connection has it, the session manager was told and the client was notified exactly once with its true key and contents; when "
     "creation fails for whatever reason the connection has no session and the session isn't registered. Of concurrent attempts on a "
     "connection exactly one succeeds. Closed connections have no session, and the last thing a client was told about its session agrees with the server.",
     ["schedules", "fault_sequences"], "all interleavings and faults of session creations, closures and connection losses",
     "The tests create sessions one at a time on healthy connections.",
     ["connection.go", "sessionRegistry.go"],
     [("session creation", "connection.go CreateSession"), ("notifications", "connection.go notifySession*")],
     "schedule-controlled property-based testing with fault injection",
     "Random interleavings at hooks and socket writers.")

prop("C19", "A restored session is the stored one for both client and server",
     "Restoring a session gives the connection the stored key, creation time, last lookup and info fields, parsed by the configured parser, and replies with "
     "the same data to the client. A session that can't be delivered completely (it can't be encoded or exceeds the message buffer) is "
     "not restored: the client is told about an internal error, the connection keeps its previous session and nothing is registered.",
     ["inputs", "configurations"], "all storable sessions, keys and buffer sizes",
     "The tests restore one simple session.",
     ["handleSessionRestore.go", "sessionLookupResult.go", "genericSessionInfo.go", "sessionInfoToVarMap.go"],
     [("restoration", "handleSessionRestore.go"), ("info parser", "genericSessionInfo.go")],
     "property-based round trip through storage, server and wire",
     "Random sessions with nested info; times with zones and extreme values.")

prop("C20", "Failing session hooks are logged and don't affect anything else",
     "An error of the session creation, lookup or closure hook, or a panicking closure hook, is logged, never disclosed to a client and never stops the server. A failing "
     "creation hook leaves the created session active, a failing lookup fails the restoration with an internal error and assigns no session, whatever kind of error it "
     "is, and a failing closure hook leaves the closure effective. All connections keep being served and the "
     "registry stays exact.",
     ["fault_sequences", "histories"], "all histories of session operations with failures of the hooks",
     "The tests let a hook fail once, in a single operation.",
     ["sessionRegistry.go", "connection.go", "handleSessionRestore.go"],
     [("recovery of panicking hooks", "sessionRegistry.go"), ("error handling", "handleSessionRestore.go, connection.go")],
     "stateful property-based testing with injected hook failures",
     "Random histories.")

prop("C21", "The default session manager stores sessions faithfully and permanently",
     "With the default session manager a stored session is found with exactly its creation time and info until it's closed, by this or any "
     "later manager of the same directory, whatever the key consists of; others aren't found. Each lookup updates the time of the last lookup "
     "and returns the previous one. Closing a session removes everything that was stored for it. "
     "A session whose file was damaged is never taken for one that doesn't exist: looking it up is an error. "
     "Servers enable sessions and store them this way unless other options are given.",
     ["inputs", "histories"], "all keys, session infos and histories of storing, looking up, closing and restarting",
     "The tests store one session.",
     ["defaultSessionManager.go"],
     [("session files", "defaultSessionManager.go")],
     "stateful model-based testing including restarts",
     "Random histories in a scratch directory.")

prop("C22", "The default session manager touches nothing outside of its directory",
     "No session key, including those chosen by a client, makes the default session manager create, change, delete or disclose anything outside "
     "of its session directory.",
     ["inputs"], "all keys, including path separators, dots, absolute paths and overlong names",
     "The tests use generated keys only; a client may send any key.",
     ["defaultSessionManager.go", "handleSessionRestore.go"],
     [("mapping of keys to file names", "defaultSessionManager.go filePath")],
     "property-based fuzzing of keys with a snapshot oracle over a scratch tree",
     "Runs in a scratch directory with decoy files; keys never name real system paths except through the decoys.")

prop("C23", "Neither concurrency nor crashes lose, damage or resurrect stored sessions",
     "However concurrently stored sessions are looked up, stored and closed, a session never gets lost, damaged or found again after its closure "
     "succeeded. When the process is killed or the disk refuses to store at any point of an operation, the stored state is the one before or after the operation.",
     ["crash_points", "schedules"], "all interleavings of operations on the same sessions and all points of interruption",
     "The tests neither use sessions concurrently nor interrupt the process.",
     ["defaultSessionManager.go"],
     [("atomic replacement of files", "defaultSessionManager.go"), ("lock", "defaultSessionManager.go")],
     "property-based crash injection (killed child processes, exhausted file sizes) and racing operations",
     "Kill points are spread by generated delays and by a file size limit; the storage device itself isn't failed.")

prop("C24", "Session objects handed out are exact, independent copies",
     "Every session object or info value obtained from a connection carries exactly the session's data, and modifying it "
     "changes neither the session nor other copies. Copies keep the dynamic types of basic values, slices and maps at any depth.",
     ["inputs", "histories"], "all session infos made of basic values, slices and maps and all sequences of modifications",
     "The tests copy a few values and don't modify nested ones.",
     ["genericSessionInfo.go", "session.go", "connection.go"],
     [("deep copy", "genericSessionInfo.go deepCopy"), ("session clone", "session.go Clone")],
     "property-based testing with generated nested values and in-place destruction of copies",
     "Pointers, structs and arrays are out of scope (they are shared by design), so is the object a session was created with (the session may refer to it).")

prop("C25", "Generated session keys are unique, unpredictable and URL-safe",
     "Session keys generated by default never repeat, neither within nor across processes, consist of URL-safe characters and carry 48 random bytes "
     "each, independent of one another. A generator returning no key never results in a session without a key.",
     ["histories", "configurations"], "all keys of any number of concurrent servers and processes",
     "The tests look at one key.",
     ["session.go", "connection.go"],
     [("key generator", "session.go defaultSessionKeyGenerator")],
     "statistical property-based testing over many keys and processes",
     "Detects repetition, stuck or biased bits and process-dependent seeds; not a cryptographic test. The false alarm probability of the statistics is below 1e-12.")

prop("C26", "A pending request is resolved exactly once by whatever comes first",
     "A request created with the request manager is pending until exactly one reply, failure, timeout or cancellation resolves it, and the waiting caller returns exactly that "
     "outcome, of the error type documented for it. Later or concurrent attempts report that there's nothing to resolve and have no effect; unknown identifiers resolve nothing, and identifiers are never assigned twice.",
     ["schedules", "histories"], "all histories and interleavings of creating, awaiting, fulfilling, failing and cancelling requests",
     "The tests resolve each request once, sequentially.",
     ["requestManager/requestManager.go", "requestManager/request.go"],
     [("atomic deregistration", "requestManager/requestManager.go"), ("waiting", "requestManager/request.go AwaitReply")],
     "stateful model-based testing plus generated races with a linearisation oracle",
     "Random histories; races are repeated with generated yields.")

prop("C27", "The memchan transport delivers each message once, intact and in order",
     "Messages written to either side of a memchan connection, in any number of pieces, are each read exactly once and unchanged on the other side, in the order they were "
     "written by each writer. Concurrent writers never mix their messages. Messages exceeding the buffer are refused and leave no trace.",
     ["schedules", "inputs"], "all messages, partitions, numbers of concurrent writers and readers on both sides",
     "The tests write from one goroutine at a time.",
     ["transport/memchan/socket.go", "transport/memchan/buffer.go", "transport/memchan/connSocket.go"],
     [("writer lock", "transport/memchan/socket.go"), ("outbound buffer", "transport/memchan/buffer.go")],
     "property-based testing of concurrent writers and readers against a multiset model",
     "Random search; the schedule is left to the runtime, with generated yields.")

prop("C28", "Closing a memchan connection strands nobody and leaves nothing behind",
     "When a memchan connection ends for any reason both sides are disconnected and everybody reading from or writing to it returns; a write reports success if and only if its "
     "message was read. A pair of sockets may connect again, and neither former readers, writers nor sockets interfere with the new connection. Refusing servers, servers shutting "
     "down and connected sockets refuse to connect.",
     ["schedules", "histories"], "all histories of connecting, using and closing pairs of sockets from both sides, timeouts and shutdowns included",
     "The tests close idle connections.",
     ["transport/memchan/socket.go", "transport/memchan/link.go", "transport/memchan/transport.go"],
     [("connection status", "transport/memchan/link.go"), ("transport shutdown", "transport/memchan/transport.go")],
     "stateful model-based testing with concurrent operations",
     "Random histories; operations on both sides run concurrently.")

prop("C29", "Connections and sessions leave nothing behind once they're gone",
     "When a connection is closed and its handlers have returned, the server retains neither goroutines nor memory for it, however it ended; the same holds for the info "
     "of sessions that aren't used by any connection. Hence the resources of a server don't grow with the number of connections it has served.",
     ["histories"], "all histories of connections, handlers and sessions, repeated any number of times",
     "Leaks show in none of the results the tests look at.",
     ["handleConnection.go", "connection.go", "sessionRegistry.go", "transport/memchan/transport.go"],
     [("removal of closed connections", "handleConnection.go"), ("registry removal", "sessionRegistry.go")],
     "metamorphic stateful testing: repeating a history must not retain more objects (weak references) or goroutines",
     "Repeats random histories on the memchan transport and compares reachable objects and goroutines after garbage collections.")

prop("C30", "Messages sent by the server arrive intact or fail with an error",
     "A signal the server sends arrives exactly once, unchanged and in one piece, if sending it succeeds, however many other messages are sent concurrently. Illegal signals, signals "
     "exceeding the message buffer and signals to closed connections fail without sending anything. No message ever exceeds the message buffer size.",
     ["inputs", "schedules"], "all names, payloads, encodings and buffer sizes, and all interleavings of messages sent to several connections",
     "The tests send single small signals.",
     ["connection.go", "message/writeMsgSignal.go", "fulfillMsg.go"],
     [("signal validation", "connection.go Signal"), ("writer exclusivity", "socket.go GetWriter")],
     "schedule-controlled property-based testing with boundary sizes",
     "Random search; the harness parks writers and decides about their order.")

prop("C31", "Concurrent use of the API is free of data races, crashes and deadlocks",
     "All functions of servers, connections, session managers, request managers and message pools may be called concurrently, by handlers and any other goroutines, while clients "
     "connect, send, reconnect and disconnect. No such use causes a data race, a crash or a deadlock.",
     ["schedules", "programs"], "all programs made of concurrent API calls, handlers and clients",
     "The tests call the API from few goroutines and aren't run with the race detector.",
     ["connection.go", "sessionRegistry.go", "server.go", "requestManager/requestManager.go", "transport/memchan/socket.go"],
     [("locks", "connection.go stateLock and sessionLock"), ("registry lock", "sessionRegistry.go")],
     "generated concurrent programs executed under the Go race detector",
     "The race detector reports races of executed accesses only; programs are random and yield at generated points.")

prop("C32", "Connections and servers tell what they are",
     "Every hook and handler is given one and the same object for one connection, different ones for different connections. It tells the remote address and "
     "options of its socket, exactly the information passed by the transport (nil for all other keys), and an unchanging creation time between the "
     "beginning and the end of the establishment, also after the closure and whatever happens to other connections. It's active until it's closed or lost; "
     "its session accessors agree with each other and with the server's list of the session's connections. Messages sent on it reach its client only. "
     "The server tells the address of its transport.",
     ["inputs", "histories"], "all connection options and information keys, all histories of establishing, using and closing several connections",
     "The tests look at one connection with two pieces of information.",
     ["connection.go", "handleConnection.go", "server.go", "connectionOptions.go"],
     [("connection information", "connection.go newConnection, Info, Creation, RemoteAddr"), ("address", "server.go Address")],
     "stateful property-based testing against a model of all connections",
     "Random histories of up to 16 operations; every connection ever established is looked at after each one.")

prop("C33", "Hooks and handlers delay nobody else and may use the API",
     "While a hook of the application (connection, disconnection, request, signal, session creation, lookup and closure, session info "
     "parser) or several of them are blocked, everything that doesn't have to wait for them goes on: other connections are accepted, served, closed and "
     "use sessions; the server and all connections, the ones concerned included, can be queried, signalled on and closed. All hooks may call the API "
     "(except for Shutdown from a handler) without deadlock, and the session registry is consistent in the end.",
     ["schedules", "histories"], "all histories of operations with any of the hooks blocked or using the API on any connection",
     "The tests' hooks return at once; a lock held across a hook shows only if another call needs it at this time.",
     ["connection.go", "sessionRegistry.go", "handleConnection.go", "handleSessionRestore.go", "handleSessionClosure.go"],
     [("hooks are invoked without locks", "connection.go dropSession, sessionRegistry.go destroy"), ("restoration", "handleSessionRestore.go")],
     "stateful property-based testing with hooks parked by the harness, probing after each operation",
     "Session key generators and the methods of session info objects are called with locks held by design and are excluded.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            for x in p["files"]:
                assert os.path.exists("/repo/" + x), x
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a,
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "The checks need no hooks in /repo.", "source_commits": []},
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./run.py %s quick" % p["id"],
            "thorough_cmd": "./run.py %s thorough" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "Harness: gopath/src/wwcheck (Go, pgregory.net/rapid). 'run.py replay FILE' replays a violation.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
