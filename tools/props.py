#!/usr/bin/env python3
# Source of properties.jsonl (kept in one place so that statements stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=" ".join(statement.split()),
      quantifier=dict(over=over,text=" ".join(text.split())),
      why_tests_cant=" ".join(why.split()),
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Variable-length integer codec is exact, inverse and total",
 """Encoding any 64-bit value yields its HAProxy variable-length form (1 to 10 bytes), and decoding those bytes, from a slice
 or from a byte reader, returns the same value having consumed exactly those bytes. Encoding into a buffer too small
 for the form fails with the insufficient-space error, and neither outcome writes outside the encoded bytes of the given buffer.
 Decoding arbitrary bytes never panics: it either fails with the unterminated-sequence error or returns the value HAProxy's decoder
 computes, reading no byte beyond the terminating one.""",
 ["inputs"],"all 2^64 values, all buffer lengths, all byte strings and byte readers",
 "The tests encode and decode the single value 0x1234; group boundaries (240, 2288, 264432, ...), 10-byte forms, short buffers and unterminated input are never tried.",
 ["pkg/encoding/varint.go"],[("PutVarint / Varint / ReadVarint","pkg/encoding/varint.go")],
 observe=["encoding.PutVarint","encoding.Varint","encoding.ReadVarint"])

p("C02","Decoding SPOP key/value data is safe on hostile bytes",
 """For every byte string and entry count, scanning key/value entries never panics and never yields name or value bytes outside the
 given buffer. Each successful step consumes a non-empty prefix of what is left, in order, and reports exactly the typed entry that
 prefix encodes; scanning stops after the announced number of entries, or at the end of the data if no count was announced.
 Truncated, over-long or unknown-typed data, including running out of bytes before the announced count, ends the scan with a non-nil error instead.""",
 ["inputs"],"all byte strings, all entry counts, any number of scan steps",
 "Tests only scan well-formed buffers produced by the library's own writer; a length prefix larger than the data, a missing type byte or a short address never occurs.",
 ["pkg/encoding/kvscanner.go","pkg/encoding/varint.go"],[("KVScanner.Next / Discard","pkg/encoding/kvscanner.go")],
 observe=["KVScanner.Next","KVScanner.Error","KVEntry accessors"])

p("C03","Key/value writer output is read back unchanged",
 """Every typed entry (null, bool, 32/64-bit integers of either sign, IPv4 or zone-less IPv6 address, string, binary) appended by the key/value writer is decoded by
 the scanner to the same name, type and value, and appending never alters bytes written before. When the buffer has not enough room the
 writer returns an error, never panics, never writes outside the buffer, and its finished output stays exactly what it was before the failed call.""",
 ["inputs"],"all names, values, buffer sizes and prior contents",
 "One test writes one string entry into a 16 KiB buffer and compares a golden string; sizes that cross a length-prefix boundary, other types and full buffers are not covered.",
 ["pkg/encoding/kvwriter.go","pkg/encoding/encoding.go","pkg/encoding/kvscanner.go"],
 [("KVWriter.Set*","pkg/encoding/kvwriter.go"),("PutBytes/PutAddr","pkg/encoding/encoding.go"),("KVScanner.Next","pkg/encoding/kvscanner.go")],
 observe=["KVWriter.Bytes","KVScanner.Next"])

p("C04","Every message of a NOTIFY is seen separately and completely",
 """For a NOTIFY payload holding any sequence of well-formed messages, the handler runs exactly once per message, in order, and sees exactly that
 message's name and its announced arguments, however many of them earlier handler calls chose to read.
 A malformed message list never exposes bytes outside the payload, and no ACK is sent for it.""",
 ["inputs","histories"],"all message lists, all argument counts, all handler read patterns",
 "Tests and the end-to-end configuration only ever send one message per NOTIFY, with exactly the announced arguments.",
 ["pkg/encoding/messagescanner.go","pkg/encoding/kvscanner.go","spop/protocol.go"],
 [("MessageScanner.Next","pkg/encoding/messagescanner.go"),("onNotify","spop/protocol.go")],
 observe=["MessageScanner.Next","handler invocations"])

p("C05","Set/unset-variable actions are encoded exactly as SPOP defines",
 """Each action call appends exactly the SPOP encoding of that one action (type, argument count, scope, name, typed value) after the existing
 output, for every scope, name, value (addresses without an IPv6 zone), starting buffer and offset, growing the buffer as needed without altering what was already written.
 A call that returns an error leaves the finished output unchanged, so no partial action can reach HAProxy.""",
 ["inputs","histories"],"all scopes, names, values, buffer capacities and call sequences",
 "One golden-string test sets one string variable into a large buffer; growth, other value types, long names and the error path are not exercised.",
 ["pkg/encoding/actionwriter.go","pkg/encoding/encoding.go"],[("ActionWriter.*","pkg/encoding/actionwriter.go")],
 observe=["ActionWriter.Bytes"])

p("C06","Frame reader consumes exactly one frame and enforces its limit",
 """Reading a frame consumes exactly the four length bytes plus the announced number of bytes, however the transport fragments them, and exposes
 exactly those payload bytes, with type, flags, stream id and frame id decoded from them. A length above the limit in force is rejected
 before any payload byte is read or stored. A truncated stream or a frame too short to hold its header gives an error and never a panic.""",
 ["inputs","configurations"],"all byte streams, fragmentations, limits and previous uses of the reused frame buffer",
 "Tests check the limit at three lengths with one all-zero frame; truncated headers, short frames and reused buffers are not covered.",
 ["spop/frame.go","pkg/buffer/slicebuf.go"],[("readFrom/decodeHeader","spop/frame.go"),("SliceBuffer","pkg/buffer/slicebuf.go")],
 observe=["bytes consumed from the connection","decoded frame"])

p("C07","Frames leave the agent whole, length-correct and within the limit",
 """Every frame the agent emits is handed to the connection in one write consisting of a four-byte big-endian length followed by exactly that many
 bytes: frame header then payload. An ACK larger than the negotiated maximum frame size, or whose construction failed, causes an error and
 not a single byte is written.""",
 ["inputs","schedules"],"all payloads, ids, negotiated limits and concurrent senders on one connection",
 "Tests read back one ACK at a time from one worker; concurrent writers and the over-limit path are not reachable from the suite.",
 ["spop/frame.go","spop/frames.go"],[("frame.writeTo","spop/frame.go"),("AckFrame.writeTo","spop/frames.go")],
 observe=["bytes written to the connection"])

p("C08","HELLO negotiation: gatekeeping, bounds and echo",
 """The first frame on a connection must be a HAPROXY-HELLO: anything else is an error, nothing is dispatched, and no reply is sent. A HELLO succeeds only if
 its last announced max-frame-size and every other announced one lie between 256 and 2^31-1, and then exactly one AGENT-HELLO is sent (stream and frame id 0, FIN) announcing version 2.0, that very size and
 no capabilities; a missing or out-of-range size is an error without AGENT-HELLO. From then on the announced size limits received and sent frames, and a healthcheck HELLO is answered and then ends the session.""",
 ["inputs","histories"],"all first frames and all HELLO payloads",
 "Tests call the hello handler with three offers; 64-bit offers that wrap, key order, healthcheck and non-HELLO first frames are untested.",
 ["spop/protocol.go","spop/frames.go"],[("onHAProxyHello","spop/protocol.go"),("Serve","spop/protocol.go"),("AgentHelloFrame.WriteTo","spop/frames.go")],
 state=[("maxFrameSize","negotiated size","spop/protocol.go"),("gotHello","handshake done","spop/protocol.go")],
 observe=["bytes written to the connection","Serve result"])

p("C09","Each processed NOTIFY is answered by exactly one matching ACK",
 """When every handler call for a NOTIFY returns normally and its messages are well-formed, exactly one ACK frame is written, carrying that NOTIFY's
 stream id and frame id, the FIN flag and exactly the actions its handlers wrote, in order. If a handler panics or a message is malformed no ACK is written for it.""",
 ["inputs","schedules"],"all ids, message lists and handler behaviours",
 "Tests look at one ACK's type and size, never at its ids, flags or actions relative to the NOTIFY that caused it.",
 ["spop/protocol.go","spop/frames.go","spop/frame.go"],[("onNotify","spop/protocol.go"),("AckFrame.writeTo","spop/frames.go")],
 observe=["bytes written to the connection"])

p("C10","Handler panics and bad frames are contained",
 """A panic raised while a frame is processed, by the user's handler or by the library itself, never escapes: it is turned into an error for that frame,
 the worker goes on to the next queued frame, and the frame's resources are returned exactly once. A panic on a connection's read path ends only that connection.""",
 ["inputs","schedules","fault_sequences"],"all handlers, all panic values, all frames",
 "One end-to-end test panics on every request and only checks that HAProxy still answers; worker survival and resource return are not observed.",
 ["spop/agent.go","spop/scheduler.go","spop/protocol.go"],[("wrapPanic","spop/agent.go"),("queueWorker","spop/scheduler.go"),("frameHandler","spop/protocol.go")],
 observe=["worker loop","handler invocations"])

p("C11","The work queue is a bounded FIFO: no loss, no duplication",
 """Under every interleaving of producers and consumers, queued frames come out in the order they went in, each exactly once, and the queue never holds more than its capacity:
 a put adds exactly one element at the back when there is room, a get removes exactly the front one when there is any. All queue state is accessed only under its lock, and every put
 wakes a waiting consumer and every get a waiting producer.""",
 ["schedules"],"all interleavings of any number of puts and gets, all capacities",
 "The suite drives the queue with real goroutines and mostly empty; wrap-around combined with blocking is reached only by chance.",
 ["spop/scheduler.go"],[("queue.Put/Get","spop/scheduler.go")],
 state=[("elems/head/tail/size","ring buffer","spop/scheduler.go")],observe=["queue.Get order"])

p("C12","Recycled objects carry nothing over and are returned once",
 """Every pooled object (scanners, entries, messages, writers, frames) obtained for a new use is indistinguishable from a fresh one: no name, value, error, offset, id or buffer position from an
 earlier use is visible. No object is touched after it was given back, or given back twice, by the library's own processing paths.""",
 ["histories","schedules"],"all histories of acquire/use/release, including uses that ended in errors",
 "Tests acquire and release but never reuse an object after a failed use; pool reuse is up to the runtime.",
 ["pkg/encoding/kvscanner.go","pkg/encoding/messagescanner.go","pkg/encoding/actionwriter.go","pkg/encoding/kvwriter.go","spop/frame.go"],
 [("Acquire*/Release*","pkg/encoding"),("acquireFrame/releaseFrame","spop/frame.go")],observe=["state after Acquire*"])

p("C13","Stick-table definitions survive encode and decode",
 """Encoding a stick-table definition whose data types are distinct known non-array types in ascending order, and decoding the result, gives back the same identifier, name, key type, key length, expiry and data types with their
 periods, consuming exactly the bytes produced, even when more bytes follow. Every rate counter carries its period parameters and no other non-array type does. If the buffer is too small encoding returns an error
 instead of a shortened definition.""",
 ["inputs"],"all definitions over HAProxy's non-array data types, all buffer sizes",
 "One definition with one data type is round-tripped.",
 ["peers/sticktable/sticktables.go","peers/sticktable/constants.go"],[("Definition.Marshal/Unmarshal","peers/sticktable/sticktables.go"),("DataType.IsDelay/New","peers/sticktable/constants.go")],
 observe=["Definition.Marshal","Definition.Unmarshal"])

p("C14","Stick-table keys, values and entry updates survive encode and decode",
 """For every supported key type and data type, encoding a value (addresses carry no IPv6 zone) and decoding the produced bytes, even when more bytes follow, returns the same value and consumes exactly those bytes; an entry update round-trips with its optional
 update id and expiry, its key and all its data, and encoding leaves the source untouched. If the buffer is too small or the key does not fit the table's key length, encoding returns an error instead
 of panicking or producing a shortened encoding.""",
 ["inputs"],"all keys, values, flag combinations, table definitions and buffer sizes",
 "Each type is round-tripped for one small value with an exact-size buffer; dictionary entries without value, long values, large ids and short buffers are not covered.",
 ["peers/sticktable/values.go","peers/sticktable/sticktables.go"],[("MapKey/MapData implementations","peers/sticktable/values.go"),("EntryUpdate.Marshal/Unmarshal","peers/sticktable/sticktables.go")],
 observe=["EntryUpdate.Marshal","EntryUpdate.Unmarshal"])

p("C15","Stick-table decoding is safe on hostile bytes",
 """Decoding a stick-table definition or an entry update from arbitrary bytes, for every key type and data-type set, never panics: it either reports an error or yields a
 result that lies entirely within the given bytes and says how many it used, never more than given. Memory reserved while decoding is bounded by the size of the input.""",
 ["inputs"],"all byte strings, all key types (including unknown ones), all key lengths and data type sets",
 "Only self-produced encodings are decoded; a truncated message or a lying length prefix never occurs in tests, though in production it would take the process down.",
 ["peers/sticktable/values.go","peers/sticktable/sticktables.go","peers/sticktable/constants.go"],[("Definition.Unmarshal/EntryUpdate.Unmarshal","peers/sticktable/sticktables.go"),("MapKey/MapData.Unmarshal","peers/sticktable/values.go")],
 observe=["Unmarshal results"])

p("C16","Peers messages are framed exactly and bounded",
 """Reading a peers message consumes exactly its two header bytes and, for types of 128 and above, its length prefix and announced payload, which is delivered complete and unaltered; other types consume nothing more.
 A stream that ends early, or an announced length above a fixed limit, gives an error, and no announced length can crash the process.""",
 ["inputs"],"all byte streams and fragmentations",
 "Tests exchange a handful of small valid messages.",
 ["peers/protocol.go","pkg/encoding/varint.go"],[("rawMessage.ReadFrom","peers/protocol.go")],observe=["rawMessage.ReadFrom"])

p("C17","Peers session delivers every update with the right table and id",
 """An entry update is decoded against the most recently received table definition and handed to the handler exactly once, with the update id it carries or, if it carries none, one more than the previous update's; its expiry is set exactly
 for the timed kinds. An update before any definition, an unknown class or type, an error message or an undecodable message ends the session with an error and no handler call; control messages,
 acknowledgements and switches never call the handler, and only a sync request is replied to, with sync-partial.""",
 ["inputs","histories"],"all message sequences and contents",
 "Tests deliver one or a few plain updates; incremental and timed kinds and all error paths are not covered.",
 ["peers/protocol.go"],[("messageHandler/OnMessage","peers/protocol.go")],
 state=[("lastTableDefinition","current table","peers/protocol.go"),("lastEntryUpdate","previous update","peers/protocol.go")],
 observe=["Handler.HandleUpdate","bytes written"])

p("C18","Peers writer emits whole messages with consecutive update ids",
 """Every message sent through a connection's writer, including the session's own replies and heartbeats, appears on the wire as one contiguous, correctly framed unit whatever other senders do concurrently: all writes, and the id counter,
 happen only under the shared lock. Successive entries are sent in order with ids 0, 1, 2, ... (mod 2^32; one is used up by an entry that cannot be encoded), the plain or timed kind matching the entry's expiry flag, and a payload that decodes to the given entry. A failed
 encoding sends no byte of that message, and the lock is free after every call.""",
 ["inputs","schedules"],"all entries, batches, and interleavings of concurrent senders",
 "Tests send from one goroutine and mostly check only that no error is returned.",
 ["peers/writer.go","peers/protocol.go"],[("Writer.Send*","peers/writer.go"),("lockedWrite","peers/protocol.go")],
 state=[("nextUpdateID","next id","peers/writer.go")],observe=["bytes written to the connection"])

p("C19","Struct unmarshalling is type-faithful and copies",
 """Filling one tagged struct field from a decoded entry stores exactly the entry's value when the wire type matches the field's type, and otherwise returns an error leaving the field alone;
 byte slices are copies that do not alias the receive buffer, pointer fields are set to a fresh value or, for a null entry, to nil. It never panics for any entry the scanner can produce.""",
 ["inputs"],"all entries, all supported and unsupported field types",
 "Tests fill a few fields with matching types and one mismatching pair out of all combinations.",
 ["pkg/encoding/kvunmarshal.go"],[("setValue/setFieldValue","pkg/encoding/kvunmarshal.go")],observe=["KVScanner.Unmarshal"])

p("C20","Disconnect and close end the session exactly once and correctly",
 """A HAPROXY-DISCONNECT with content cancels the session's context, as an error exactly when its status is none of normal, I/O or timeout; one without content, or with an unexpected or malformed entry, is reported as an error.
 Closing an active session sends exactly one AGENT-DISCONNECT frame (FIN, ids 0, status unknown with its message) and cancels the context; closing a cancelled session sends nothing.""",
 ["inputs","histories"],"all disconnect payloads, all session states",
 "No test sends a disconnect frame or inspects the agent's own.",
 ["spop/protocol.go","spop/frames.go","spop/error.go"],[("onHAProxyDisconnect/Close","spop/protocol.go"),("AgentDisconnectFrame.WriteTo","spop/frames.go")],
 observe=["bytes written to the connection","context state"])

p("C21","Buffer windows never overlap, lose or expose bytes",
 """The read/write buffer behaves as a byte queue: what is written appears in order in the unread window, reading removes exactly what it returns, the unread and free windows never overlap, reset empties it,
 and growing guarantees the requested room while preserving every written byte and both positions.""",
 ["histories","inputs"],"all sequences of valid operations, all sizes",
 "The buffer has no tests of its own.",
 ["pkg/buffer/slicebuf.go"],[("SliceBuffer","pkg/buffer/slicebuf.go")],observe=["ReadBytes/WriteBytes"])

p("C22","Peers handshake is parsed and emitted line-exact",
 """Serializing a handshake writes exactly three newline-terminated lines (protocol and version; remote peer; local peer, pid, relative pid), and on success the session replies with status 200 once, before any message is processed and after the handler saw the handshake.
 Reading the handshake consumes exactly its three lines, so that bytes sent right behind it are processed as messages.""",
 ["inputs","schedules"],"all identifiers and arrival patterns",
 "Test clients always wait for the status line before sending anything else.",
 ["peers/messages.go","peers/protocol.go"],[("Handshake.ReadFrom/WriteTo","peers/messages.go"),("peerHandshake","peers/protocol.go")],observe=["bytes exchanged"])

p("C23","Queued NOTIFY frames are eventually answered",
 """As long as handlers return and the peer reads, every NOTIFY that was accepted into the work queue is eventually processed.""",
 ["schedules"],"all fair schedules","Liveness over unbounded schedules is out of reach of sampled runs.",
 ["spop/scheduler.go"],[("queueWorker","spop/scheduler.go")],observe=["ACK frames"])

p("C24","Peers keepalive: heartbeats when idle, close when silent",
 """An idle peers session emits a heartbeat every three seconds, and a session that received nothing for five seconds is closed.""",
 ["schedules","histories"],"all timings","Real-time behaviour over unbounded runs; the tests last a few seconds.",
 ["peers/protocol.go"],[("heartbeat/lastMessage","peers/protocol.go")],observe=["bytes written","connection state"])

if __name__=="__main__":
    import os
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
