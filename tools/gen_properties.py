#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Every message survives framing unchanged",
  "For every message whose encoded body is at most 1023 bytes, encoding yields one frame that starts and ends with 0x7e, contains no other 0x7e and has the JT/T 808 header, escaping and XOR checksum layout. Decoding that frame returns exactly the same message ID, serial number, terminal number (any of up to 12 digits, 0 included), property flags, sub-packet fields and body, whatever byte values occur in header, body or checksum. A frame already returned, and a message already decoded, are not altered by later encodings or decodings.",
  ["inputs"], "all header values and all bodies of 0..1023 bytes, including every placement of 0x7d/0x7e and every checksum value",
  "The repository tests call the body codecs of one hand-picked value per message type; none of them builds a frame, so escaping, checksum and header code is never executed by a test.",
  ["protocol/message.go", "protocol/header.go", "protocol/property.go", "protocol/helpers.go", "protocol/const.go"],
  [("escape on write, unescape on read", "protocol/message.go"), ("10-bit body length and flag bits", "protocol/property.go"), ("BCD terminal number", "protocol/helpers.go")],
  observe=["Message.Encode", "Message.Decode"])
p("C02", "Malformed frames are refused and never crash or mis-deliver",
  "Decoding returns without panicking for every byte string. It succeeds only for a string delimited by 0x7e with well-formed escapes, a matching XOR checksum and a complete header with a decimal terminal number; every other string is an error. A body is delivered only when the declared body length equals the actual one and the body decodes as the registered type for the message ID, and then it is the body that was on the wire.",
  ["inputs"], "all byte strings, in particular every truncation, insertion, deletion, substitution and re-delimiting of valid frames",
  "No test feeds a malformed frame to the decoder.",
  ["protocol/message.go", "protocol/header.go", "protocol/register.go"],
  [("delimiter, escape, checksum and length checks", "protocol/message.go"), ("type registry", "protocol/register.go")],
  observe=["Message.Decode"])
p("C03", "The byte stream is re-framed independently of segmentation",
  "For every sequence of frames and every way the transport cuts that byte sequence into reads, receiving delivers exactly the messages of the valid frames, each once, in order and unmodified, and messages delivered earlier keep their content. After a frame that is refused (or junk between frames) the following valid frames are still delivered. End of stream is reported as an error and never produces a message, and an unterminated run of more than 64 KiB is refused instead of being buffered.",
  ["inputs", "schedules"], "all frame sequences and all read segmentations, including cuts inside delimiters, escapes and at the internal read size",
  "The codec's receive path has no test at all; segmentation is chosen by the network.",
  ["protocol.go"], [("receive buffer and delimiter scan", "protocol.go")],
  state=[("bufferReceiving", "bytes read but not yet consumed", "protocol.go")],
  observe=["ProtocolCodec.Receive"])
p("C04", "Every message body survives encode and decode",
  "For every one of the supported message types and every representable value of its fields (integers of full range, coordinates in both hemispheres, times from 2000 to 2099, strings in any GB18030 text that fits the field, lists of every permitted length, optional groups present or absent), decoding the encoded body returns an equal value. Decoding is independent of what was encoded or decoded before, and repeating the encoding gives the same bytes.",
  ["inputs"], "all field values of all 65 message types, up to the 1023-byte body limit",
  "Each message type has one test with one value; some tests ignore the decoded result.",
  ["protocol/t808_*.go", "protocol/bufio.go", "protocol/helpers.go", "protocol/params.go", "protocol/bit.go"],
  [("per-type Encode/Decode pairs", "protocol/t808_*.go"), ("reader/writer primitives", "protocol/bufio.go")],
  observe=["Entity.Encode", "Entity.Decode"])
p("C05", "Every message body has its documented wire layout",
  "For every supported message type, the encoded body is the fields in their documented order: big-endian integers, BCD times and numbers, fixed-width fields zero-padded, GB18030 text, list counts and string lengths counted in items and encoded bytes, hemisphere and optional-group bits in the attribute field. Conversely, bytes in that layout decode to the values they denote. The type is registered under its own message ID.",
  ["inputs"], "all field values of all message types, against an independent layout table",
  "A round-trip test cannot see an error made symmetrically in encoder and decoder (swapped fields, endianness, wrong bit), and the tests contain no expected bytes.",
  ["protocol/t808_*.go", "protocol/register.go", "protocol/bufio.go", "protocol/helpers.go"],
  [("field order in Encode and Decode", "protocol/t808_*.go"), ("message ID table", "protocol/register.go")],
  observe=["Entity.Encode", "Entity.Decode", "Entity.MsgID"])
p("C06", "Truncated or inconsistent bodies are refused, never guessed",
  "For every supported message type, decoding returns without panicking for every byte string given as body. If the body ends before a field, list item or length-prefixed string that its layout or its own counts announce, or contains a date that does not exist, decoding fails; otherwise it yields exactly the values the layout assigns to those bytes. A compressed body whose compressed data is damaged is refused.",
  ["inputs"], "all byte strings as body of every message type, in particular every truncation and every count/length byte value",
  "Tests only decode what the matching encoder produced.",
  ["protocol/t808_*.go", "protocol/bufio.go", "protocol/helpers.go", "protocol/message.go"],
  [("length checks before every read", "protocol/bufio.go"), ("minimum body sizes", "protocol/t808_*.go")],
  observe=["Entity.Decode", "Message.Decode"])
p("C07", "Values that do not fit the wire are refused, not corrupted",
  "Encoding a message that the format cannot carry fails instead of producing a frame that means something else: a body longer than 1023 bytes (however long), a list with more items or a string with more bytes than its count or length field can express, a terminal number of more than 12 digits and an RSA key that is not 1024 bits are reported as errors. Everything up to those limits is accepted. Fixed-width text fields are cut to their width and every other field keeps its value.",
  ["inputs"], "all message values, in particular sizes around 255/256, 1023/1024 and 65535/65536",
  "No test encodes an oversized value.",
  ["protocol/message.go", "protocol/property.go", "protocol/header.go", "protocol/t808_*.go"],
  [("body size check", "protocol/property.go"), ("count and length fields", "protocol/t808_*.go")],
  observe=["Message.Encode"])
p("C08", "RSA-encrypted messages decrypt to the original or are refused",
  "For every message body, encoding with a 1024-bit public key marks the frame as encrypted, does not carry the body in clear, and decoding with the matching private key returns the same message, for every body that fits after encryption (0 to 602 bytes); larger ones fail to encode. Decoding an encrypted frame without a key, with another key or after bytes of its ciphertext were altered is an error and never yields a body. No public key makes encoding panic. A server with a private key passes messages encrypted for it to their handlers as if they had been sent in clear, and never passes on one that it cannot decrypt; a session returns the public key last set on it, and a server is only created with a 1024-bit key or none.",
  ["inputs", "configurations"], "all body lengths and contents, key/no key/wrong key, alterations of the ciphertext",
  "No test encrypts a message.",
  ["protocol/message.go", "protocol/helpers.go", "protocol.go", "session.go", "server.go"],
  [("OAEP in blocks of key size", "protocol/helpers.go"), ("encrypt flag in the header", "protocol/message.go")],
  observe=["Message.Encode", "Message.Decode", "ProtocolCodec.Send", "handler calls", "Session.GetPublicKey"])
p("C09", "Location extras and terminal parameters keep their values",
  "Every extra item of a location report is delivered with its ID and value, in order; items of unknown ID are skipped without disturbing the others, and an item whose length does not fit its type or the body makes the report refused. A decoded report re-encodes to the same items, also for extra and message types registered by the application. Terminal parameters return the value they were set to, for every typed accessor, before and after transmission.",
  ["inputs", "histories"], "all lists of known and unknown extras with all values and lengths; all parameter IDs and values",
  "One test builds one list of extras and ignores the decoded result; no test registers a type.",
  ["protocol/extra/*.go", "protocol/t808_0x0200.go", "protocol/params.go", "protocol/register.go"],
  [("extra registry and per-type decoding", "protocol/extra/register.go"), ("extras loop", "protocol/t808_0x0200.go"), ("typed accessors", "protocol/params.go")],
  observe=["T808_0x0200.Extras", "extra.Entity.Value", "Param.Get*"])
p("C10", "Outgoing serial numbers are never ambiguous",
  "On every session, under every interleaving of concurrent senders, each message sent gets a serial number between 1 and 65535 that no other of the 254 messages sent before or after it on that session carries, and the number returned to the sender is the one on the wire. Other sessions do not influence it.",
  ["schedules", "histories"], "all interleavings of concurrent sends, replies and requests; histories longer than the counter's cycle",
  "No test opens a session; the counter's compare-and-swap loop and its wrap-around never run.",
  ["session.go"], [("serial counter", "session.go")],
  state=[("next", "last serial number issued", "session.go")], observe=["Session.Send", "Session.Request", "Session.Reply", "bytes written"])
p("C11", "An answer reaches exactly the callback of its request",
  "When a terminal answers a request (any of the answer types that carry the request's serial number), the callback given with that request runs exactly once with that answer, however the answer's arrival interleaves with the requesting goroutine, unless a newer request of the same message type or with the same serial number replaced it. An answer never runs the callback of another request, a repeated or unsolicited answer runs none, and a panicking callback does not disturb the session. The answer is also dispatched to its message handler.",
  ["schedules", "histories"], "all interleavings of requests, answers and sends; all histories of up to a few outstanding requests, including serial wrap-around",
  "Nothing in the tests sends a request; the window between sending and registering the callback needs a particular interleaving.",
  ["session.go", "session_handler.go"], [("pending request table", "session.go"), ("answer serial extraction", "session.go")],
  state=[("requests", "callbacks waiting for an answer", "session.go")], observe=["Session.Request", "callback invocations"])
p("C12", "Received messages are dispatched once, in order, to their handler",
  "Each decodable message on a connection is passed exactly once, in arrival order, to the handler most recently added for its message ID, with the session of that connection; a message without a handler is passed to none. A message handed to a handler stays as it is, whatever is received afterwards. A message of unknown type or undecodable body is not dispatched and is answered exactly once with the general reply that echoes its serial number and ID and the result 'unsupported'. A panicking handler affects neither later messages nor other sessions, and a handler that blocks does not hold up other sessions.",
  ["histories", "schedules"], "all short message sequences on one and two connections, with handlers that return, panic, block or are replaced",
  "No test runs the server.",
  ["server.go", "session_handler.go"], [("receive loop", "session_handler.go"), ("handler table", "server.go")],
  state=[("messageHandlers", "message ID to handler", "server.go")], observe=["handler invocations", "replies on the wire"])
p("C13", "Each session is registered, then closed and forgotten exactly once",
  "From before the first message of a connection is dispatched until it closes, the session can be looked up by its ID; after it closed - by the peer, by a bad frame, by the application, by timeout, by a write error or by stopping the server, in any interleaving - the close handler has run exactly once for it, it can no longer be looked up (already while the close handler runs) and broadcasts no longer include it. Session IDs are unique, and a panicking close handler has no further effect. Sending on a closed session fails.",
  ["schedules", "histories"], "all interleavings of connect, message, close, write failure, broadcast and stop",
  "No test opens a connection; the window between registering a session and its close callback needs a particular interleaving.",
  ["server.go", "session_handler.go", "session.go"], [("session table", "server.go"), ("close callback", "session_handler.go")],
  state=[("sessions", "live sessions by ID", "server.go")], observe=["Server.GetSession", "Options.CloseHandler", "Server.Broadcast"])
p("C14", "Idle sessions are closed, active sessions are not",
  "A session on which no message arrives for the keepalive period is closed, at most one second before and two seconds after the period has passed since the last one; a non-positive keepalive option means 60 seconds. A session on which messages keep arriving at intervals at least a second shorter than the period - whether handled, unhandled, unsupported or parts of a multi-packet upload - is never closed for inactivity. Activity of one session does not extend another; handlers are assumed not to block for longer.",
  ["histories", "schedules", "configurations"], "all activity histories on a seconds grid for one and two sessions, and all interleavings of the expiry check with message arrival and close",
  "It depends on wall-clock time; no test waits for a timeout.",
  ["server.go", "timer.go", "session_handler.go"], [("expiry queue", "timer.go"), ("refresh on activity", "session_handler.go")],
  state=[("q/mapper", "deadlines by key", "timer.go")], observe=["connection close", "Options.CloseHandler"], hook="virtual clock (source instrumentation at check time)")
p("C15", "Sent messages reach the right terminal, whole and in order",
  "Messages sent on a session by one goroutine are written to that session's connection only, each as one complete frame, in sending order, carrying the terminal number of the latest message the session processed (a message with the number 0 leaves it as it was). Concurrent senders never mix the bytes of two frames. A broadcast sends the message once to every session open throughout the call, returns the number of sessions that accepted it, and is not held up by a terminal that does not read; such a terminal is disconnected with an error once its queue is full.",
  ["schedules", "histories"], "all interleavings of concurrent sends and broadcasts on two sessions, with readers that stall or fail",
  "No test sends a message through a session.",
  ["session.go", "server.go", "protocol.go"], [("send queue per session", "session.go"), ("snapshot of sessions", "server.go")],
  observe=["bytes written per connection", "Session.Send and Server.Broadcast results"])
p("C16", "Stored sub-packets merge to exactly the uploaded content",
  "For every order of storing, overwriting and merging sub-packets, an upload is reported complete exactly when each packet number from 1 to its total has been stored since its last merge, and merging then yields the latest content of packets 1 to total concatenated in numerical order - nothing missing, nothing extra and nothing left over from an earlier, longer or different upload, however many packets it has (up to 65535; no file descriptor per packet is needed). Uploads of different terminals, message IDs or tags do not influence each other. Asking about an upload of which nothing is stored answers 'not complete' instead of failing, also for an unprivileged process.",
  ["histories", "configurations"], "all short sequences of store/complete?/merge operations over several uploads with the same and different identities",
  "The only test stores three packets once, does not compare the merged content and leaves its files behind.",
  ["multipart.go"], [("part files named by message, tag and number", "multipart.go")],
  state=[("*.part and *.full files", "stored packets and merged content", "multipart.go")], observe=["MultipartFile.Write", "MultipartFile.IsFull", "MultipartFile.Merge"])
p("C17", "A multi-packet upload is delivered once, complete, in any order",
  "With automatic merging on, the packets of an upload may arrive in any order, repeated, interleaved with other messages and with other uploads of the same or another terminal: every packet is acknowledged with the general reply for its serial number, and exactly when the last missing packet has arrived the handler runs once with the full content in packet order. With merging off, or for a message without the sub-packet flag, each message is dispatched by itself with its own data.",
  ["histories", "configurations"], "all arrival orders with repetition of the packets of one or two uploads over one or two connections",
  "No test runs the server; retransmitted packets arriving after the last one are never tried.",
  ["session_handler.go", "multipart.go", "protocol/t808_0x0801.go"], [("packet branch of the receive loop", "session_handler.go"), ("part files", "multipart.go")],
  observe=["handler invocations and the data they read", "replies on the wire"])
p("C18", "A packet that could not be stored is never acknowledged or merged",
  "If storing a packet fails at any point (nothing written, partly written, directory missing or not usable, or any system call failing), the terminal is told 'failed' for it, the packet does not count as stored and none of its partial data appears in a merged upload; a later successful retransmission repairs the upload. If merging fails, no message is dispatched and the session keeps working.",
  ["fault_sequences"], "every failing packet of a short upload, every failing byte position, followed by every continuation (retransmit or not)",
  "No test injects a storage failure.",
  ["session_handler.go", "multipart.go"], [("error replies", "session_handler.go"), ("part writing", "multipart.go")],
  observe=["replies on the wire", "handler invocations", "MultipartFile.IsFull/Merge"])
p("C19", "Countdown timers fire once, on time, only while armed",
  "A key that was armed and neither re-armed nor removed fires its callback exactly once, no earlier than one second before the configured number of seconds has passed and at most two seconds after; re-arming or removing a key that is not yet due restarts or cancels its countdown, and removing an unknown key does nothing. Keys do not influence each other, a changed duration applies to later armings only (non-positive ones are ignored), and all of this holds when several goroutines arm, re-arm and remove concurrently.",
  ["histories", "schedules"], "all short sequences of arm/remove/set/advance over several keys, and all interleavings of concurrent arm, remove and expiry",
  "No test uses the timer.",
  ["timer.go"], [("expiration heap with index map", "timer.go")],
  state=[("q/mapper", "deadlines ordered and by key", "timer.go")], observe=["NewCountdownTimer callback"], hook="virtual clock (source instrumentation at check time)")
p("C20", "Starting and stopping the server is safe at any moment",
  "Stopping at any point relative to starting, connecting and messages in flight never panics or deadlocks; when a stop that found the server running has returned, the listener is closed, running ends, and every connection it had accepted gets closed and leaves no session behind (stopping from inside a close handler excepted). A second start while running is refused and leaves the running server alone; after a stop the server can be started again. Stopping a server that is not running does nothing.",
  ["schedules", "histories"], "all interleavings of run, stop, connect and messages with bounded deviations; sequences of start/stop",
  "No test starts the server.",
  ["server.go", "session_handler.go"], [("running listener reference", "server.go")],
  state=[("server", "the running listener", "server.go")], observe=["Server.Run", "Server.Stop", "connections"])
p("C21", "No input of one connection can crash or disturb the server",
  "Whatever bytes a connection sends - junk, damaged frames, truncated or absurd bodies of any message type, unexpected sub-packet numbers, answers nobody asked for, hostile public keys - and whenever it disconnects, the process does not panic, and other connections keep exchanging messages as if it were not there. The offending connection is either served or closed.",
  ["inputs", "schedules"], "all short byte strings over the critical alphabet, all single-byte alterations of valid traffic and all truncated bodies, on one connection next to a healthy one",
  "No test sends bytes to a server.",
  ["protocol.go", "session_handler.go", "session.go", "server.go", "protocol/*.go"], [("error handling of the receive loop", "session_handler.go"), ("recover around callbacks", "server.go")],
  observe=["process survival", "traffic of the healthy connection"])
p("C22", "The public API is free of data races",
  "Server and session methods (send, reply, request, broadcast, lookup, add handler, set and get key, close, stop) and countdown timers may be used from any goroutines at the same time: in no interleaving do two goroutines access the same memory of the library without synchronization, at least one writing.",
  ["schedules"], "all interleavings, up to the deviation bound, of concurrent API calls with traffic on two connections",
  "Tests are single-threaded, and a race detector run only sees the schedule that happened.",
  ["server.go", "session.go", "session_handler.go", "protocol.go", "timer.go"], [("mutexes and atomics", "server.go, session.go, timer.go, protocol.go")],
  observe=["happens-before race detection on every explored schedule"], hook="controlled scheduler (source instrumentation at check time)")
p("C23", "Flag accessors and bit helpers touch exactly their bit",
  "For every value of a flag word, reading a flag returns its documented bit and nothing else, and setting or clearing a flag changes that bit and no other. Location status: ACC 0, positioned 1, south 2, west 3. Area attribute: alarm on entering 3, on leaving 5, south 6, west 7. Route section attribute: time limit 0, speed limit 1, south 2, west 3. Vehicle control: lock 0. Message property: encrypted 10, sub-packet 13, body length in bits 0-9, and a length above 1023 is refused and leaves the property as it was. The exported bit helpers read and write the given bit of 8-, 16- and 32-bit words; a bit outside the word reads as false and setting it changes nothing.",
  ["inputs"], "all values of the 8- and 16-bit words, all halves of the 32-bit words, all flags, both settings, all bit positions 0..80",
  "Tests set one flag on a zero word, where a setter that clears or overwrites neighbours goes unnoticed; most accessors have no test.",
  ["protocol/bit.go", "protocol/property.go", "protocol/t808_0x0200.go", "protocol/t808_0x8600.go", "protocol/t808_0x8606.go", "protocol/t808_0x8500.go"],
  [("bit helpers", "protocol/bit.go"), ("flag words", "protocol/property.go, protocol/t808_0x0200.go, protocol/t808_0x8600.go, protocol/t808_0x8606.go, protocol/t808_0x8500.go")],
  observe=["the flag accessors", "Property.SetBodySize", "GetBit*/SetBit*"])
p("C24", "The reader returns what the writer wrote and never reads past the end",
  "Values written with the public writer in any order (bytes, 16- and 32-bit integers in network order, BCD times, raw bytes and GB18030 text with or without a fixed size, shorter ones zero-filled and longer ones cut) appear in exactly that order and layout, and the public reader returns the same values in the same order, with the remaining length correct after each. A read of more than is left is an error that consumes nothing, whatever was read before.",
  ["inputs", "histories"], "all sequences of writes and reads to a depth, on data of every small length",
  "Message types registered by applications are built on these; tests only use them through the message types.",
  ["protocol/bufio.go", "protocol/helpers.go"],
  [("reader and writer", "protocol/bufio.go")],
  observe=["Writer.Bytes", "Reader.Read*", "Reader.Len"])
p("C25", "The log level changes nothing but the log",
  "At every log level - trace, the default, to panic - the server, its sessions, timers, uploads and the codec do exactly the same: the same messages reach the handlers with all their data unread, the same bytes go out, the same connections stay open. Setting a level by one of the seven exported names takes effect; any other name is refused and leaves the level as it was.",
  ["configurations", "histories"], "all log levels, over the histories of the other server properties",
  "No test runs a server, let alone at two log levels; code guarded by a level is only executed at that level.",
  ["logger.go", "protocol.go", "server.go", "session.go", "session_handler.go"],
  [("log statements", "protocol.go, server.go, session.go, session_handler.go"), ("level", "logger.go")],
  observe=["as for C08 and C10-C21"], hook="controlled scheduler (source instrumentation at check time)")

p("C26", "A closed connection leaves nothing running or open",
  "Once a connection has closed, for whatever reason and in whatever state its session was (idle, messages waiting to be sent, requests open, an upload half received, half a frame received), and its handlers have returned, no goroutine works for it any more, no timer is armed for it and its network connection is closed. The number of goroutines, armed timers and open files does not grow with the connections served, the messages and requests exchanged, the uploads delivered or failed (whatever their handler does with the data), or the times the server was started and stopped.",
  ["schedules", "histories"], "all ways a connection can end, in every state of its session, under all schedules with bounded deviations; repeated start/stop, upload and message cycles",
  "A test that ends does not notice what it leaves behind; a server that runs for months does.",
  ["server.go", "session.go", "session_handler.go", "timer.go", "multipart.go"],
  [("writer goroutine", "session.go"), ("session close", "server.go"), ("keepalive timer", "timer.go"), ("merged reader", "session_handler.go")],
  observe=["goroutines", "armed timers", "open file descriptors", "connections"], hook="controlled scheduler (source instrumentation at check time)")

p("C27", "Stored packets survive a killed process intact and uploads resume",
  "If the process ends at any instant while packets of uploads are being stored or merged, then after a restart every packet that had been acknowledged (reported as stored) is still there with exactly its data, unless its upload was already complete and being merged; the packet being stored is there completely, or not at all (or as it was before, if it replaced one); nothing half-written counts as stored or appears in a merged upload, and other uploads are untouched. Sending the packets that were not acknowledged completes the upload with exactly its data; an upload interrupted while it was being merged is delivered right when it is sent again.",
  ["crash_points", "histories"], "all short histories of storing and merging, a crash before every system call that changes something and inside every write, one or two crashes, and then every continuation",
  "No test kills the process; only one of many instants leaves a half-written file behind.",
  ["multipart.go", "session_handler.go"], [("part files", "multipart.go"), ("reply after storing", "session_handler.go")],
  state=[("part files", "the packets of unfinished uploads on disk", "multipart.go")],
  observe=["MultipartFile.IsFull/Merge after a restart", "replies on the wire", "handler invocations of the restarted server"], hook="fault injection at system calls (build overlay of the standard library at check time)")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
