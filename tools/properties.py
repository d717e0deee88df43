#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Well-formed chunk streams decode to exactly the messages sent",
  "For every well-formed sequence of RTMP chunks - any mix of header types 0 to 3, message lengths (zero included), message types and chunk streams, with the chunks of different chunk streams interleaved in any way - the chunk reader delivers exactly the messages sent, each once, in the order in which their last chunk arrived. Each delivered message has its whole payload and a complete header (header type, chunk stream, length, type, message stream, timestamp or delta, extended timestamp), in which what a type 1, 2 or 3 header leaves out is taken from the preceding header on the same chunk stream. A message, once delivered, is not changed by anything received later.",
  ["inputs", "histories"],
  "all sequences of chunks of a well-formed chunk stream, for all interleavings of messages over chunk streams and all header compressions",
  "The tests decode four fixed byte strings, with type 0 headers and type 3 continuations only, and with the pass-through normalizer; header state is kept per chunk stream across messages, so the histories matter.",
  ["chunk/default_reader.go", "chunk/default_normalizer.go", "chunk/builder.go", "chunk/header.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "spec/binary.go", "spec/bytes.go"],
  [("receive loop reading one chunk at a time", "chunk/default_reader.go Recv"), ("per-chunk-stream message assembly", "chunk/builder.go"), ("filling omitted header fields", "chunk/default_normalizer.go Normalize")],
  [("builders", "partly received message per chunk stream", "chunk/default_reader.go"), ("headers, last", "previous headers", "chunk/default_normalizer.go")],
  ["chunk.Reader.Chunks()", "chunk.Reader.Errs()"])

p("C02", "Written messages are chunked so any peer recovers exactly that message",
  "Every message written by the chunk writer appears on the wire as its header followed by the payload cut into pieces of exactly the write size (the last may be shorter), each further piece preceded by a type 3 header of the same chunk stream that repeats the extended timestamp when the message has one. Nothing else is written, so an independent RTMP decoder using that chunk size recovers exactly the messages written, in order, for every chunk stream ID, header type and field values, payload length and write size, and whatever was written before; messages that came from a chunk reader can be written on like any others. The caller's message is left unchanged, and an error of the underlying writer is returned.",
  ["inputs", "histories"],
  "all messages (chunk stream IDs 2-65599, all header fields, payload lengths) and write sizes, and sequences of writes with size changes between them",
  "The tests write one 8-byte message on chunk stream 18 with write sizes 8 and 4; boundaries of the ID forms, exact multiples, long payloads, extended timestamps and sequences are not reached.",
  ["chunk/default_writer.go", "chunk/writer.go", "chunk/header.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "spec/binary.go"],
  [("split loop", "chunk/default_writer.go Write"), ("header encoding", "chunk/header.go Write")],
  [("writeSize", "largest payload of one chunk", "chunk/default_writer.go")],
  ["bytes given to the io.Writer behind chunk.NewWriter"])

p("C03", "Chunk headers survive encode and decode for every valid value",
  "Encoding a chunk header and decoding the bytes gives back the same header and consumes exactly the bytes written, for every chunk stream ID from 2 to 65599, every header type and every value of every field that the type carries, the 4-byte extended timestamp being present exactly when the 24-bit timestamp field is 0xffffff. The encoding of the chunk stream ID is the RTMP one (one byte for small IDs, two bytes up to 319, three bytes above). A header cut short anywhere is reported as an error, and so is a failure of the writer anywhere in it.",
  ["inputs"],
  "all chunk stream IDs x header types, all boundary values of every field, all truncation points",
  "The tests try three chunk stream IDs and one value per field; the ID space has three encodings with boundaries and every field its own width and byte order.",
  ["chunk/basic_header.go", "chunk/message_header.go", "chunk/header.go", "chunk/extended_timestamp.go", "spec/binary.go", "spec/bytes.go"],
  [("basic header forms", "chunk/basic_header.go"), ("message header formats", "chunk/message_header.go"), ("integer codecs", "spec/binary.go")],
  [], ["chunk.Header.Read", "chunk.Header.Write"])

p("C04", "Decoding does not depend on how the transport fragments the bytes",
  "The messages and errors delivered for a given byte stream are the same however the transport cuts it into reads: one byte at a time, in any pieces, with reads that return no bytes and no error, or with the last bytes returned together with end-of-file. The reader asks the transport for no byte beyond the chunk it is assembling before delivering a completed message.",
  ["inputs", "fault_sequences"],
  "all ways of splitting the byte stream into reads (up to the stated number of deviations from full reads, at every position)",
  "Tests read from an in-memory buffer which always returns all that is asked for; a TCP connection does not.",
  ["chunk/default_reader.go", "chunk/builder.go", "spec/bytes.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go"],
  [("full reads", "spec/bytes.go ReadByte, ReadBytes"), ("payload reads", "chunk/builder.go Read")],
  [], ["chunk.Reader.Chunks()", "Read calls on the transport"])

p("C05", "A chunk size announced by the peer governs exactly the chunks after it",
  "Once a Set Chunk Size message has been received completely, every following chunk - on all chunk streams, including the rest of messages already partly received - is read with the announced size, and no chunk before it is; the default is 128 bytes. The Set Chunk Size message itself is consumed by the reader and not delivered as a message, and disturbs no message in progress. A Set Chunk Size message too short to hold a size changes nothing and does not crash the receiver.",
  ["inputs", "histories"],
  "all sequences of data chunks and Set Chunk Size messages, at all positions between the chunks of interleaved messages, for sizes from 1 up to the maximum",
  "No test sends a Set Chunk Size message through the reader at all.",
  ["chunk/default_reader.go", "chunk/builder.go", "spec/math.go"],
  [("size update on type 1 messages", "chunk/default_reader.go updateChunkSize"), ("bytes to read per chunk", "chunk/default_reader.go Recv")],
  [("readSize", "current chunk size of the peer", "chunk/default_reader.go"), ("left", "bytes missing in a message", "chunk/builder.go")],
  ["chunk.Reader.Chunks()", "chunk.Reader.ReadSize()"])

p("C06", "A transport failure loses and invents no message",
  "If the transport fails or ends after any number of bytes, the messages delivered are exactly those whose last byte had arrived before the failure, complete and in order, and the failure is reported on the error channel. No partial, empty or made-up message is ever delivered because of it, and nothing panics.",
  ["fault_sequences", "inputs"],
  "every byte position of every explored chunk stream as the point of failure, with every way of reporting it (end-of-file, other error, with or without data)",
  "Tests use complete streams; one test fails a payload read at position 0.",
  ["chunk/default_reader.go", "chunk/builder.go", "chunk/parser.go", "spec/bytes.go", "chunk/basic_header.go", "chunk/message_header.go"],
  [("error exits of the receive loop", "chunk/default_reader.go Recv"), ("payload appended only when read in full", "chunk/builder.go Read")],
  [], ["chunk.Reader.Chunks()", "chunk.Reader.Errs()", "chunk.Parser.Errs()"])

p("C07", "No bytes a peer can send crash or wedge the receiving side",
  "Whatever bytes a peer sends - malformed headers, unknown types, truncated or contradictory messages, control messages with the wrong length - the chunk reader and the control and command handlers behind it never panic and never loop without consuming input. Each malformed control or command message results in an error to the application and leaves later messages unaffected.",
  ["inputs"],
  "all byte strings over an alphabet of significant values up to a length, and all control and command payloads up to a length",
  "The tests feed well-formed input, plus three malformed payloads.",
  ["chunk/default_reader.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/builder.go", "control/default_parser.go", "control/control_event.go", "control/stream.go", "cmd/data/data.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go"],
  [("length checks before use", "chunk/default_reader.go updateChunkSize; spec/bytes.go ReadBytes; cmd/data/data.go Read"), ("unknown types are errors", "control/default_parser.go Parse")],
  [], ["panics", "chunk.Parser.Errs()", "control.Stream.Errs()"])

p("C08", "Every received message reaches its own chunk stream once and in order",
  "Under every scheduling of the goroutines involved, each message decoded is handed to the consumer of its chunk stream - and of no other - exactly once and in the order received, whether the chunk stream was asked for alone or in a group, and whether before or after the message arrived. Every decoding error reaches the error channel exactly once. Asking again for one chunk stream gives the same stream; a group that includes a chunk stream already handed out is refused and takes nothing.",
  ["schedules", "histories"],
  "all interleavings of reader, router, consumers and callers asking for streams, over all assignments of messages to chunk streams, up to the stated bounds",
  "Tests use mocks, one schedule, and never route a message of more than one chunk stream.",
  ["chunk/parser.go", "chunk/stream.go", "chunk/multi_stream.go", "chunk/default_reader.go"],
  [("routing loop", "chunk/parser.go Recv"), ("stream table under a mutex", "chunk/parser.go Stream")],
  [("streams", "chunk stream ID to consumer channel", "chunk/parser.go")],
  ["chunk.Stream.In()", "chunk.Parser.Errs()"])

p("C09", "Merging chunk streams loses, repeats and reorders nothing",
  "A merged stream delivers every message of every stream appended to it exactly once, keeping the order of each source, under every scheduling and with streams appended at any time before the sources end. Waiting for it to close returns only when all sources have closed and all their messages have been taken; only then, and exactly once, does the merged stream end.",
  ["schedules"],
  "all interleavings of source producers, the forwarding goroutines, appenders, the consumer and the closer for up to 3 sources and 2-3 messages each",
  "The test merges two sources with one message each in one order, and its close test relies on 100 ms timeouts.",
  ["chunk/multi_stream.go"],
  [("one forwarding goroutine per source", "chunk/multi_stream.go Append"), ("wait group", "chunk/multi_stream.go AwaitClose")],
  [("wg", "sources still open", "chunk/multi_stream.go")],
  ["MultiStream.In()", "AwaitClose returning"])

p("C10", "Closing the receiving side always completes and ends every stream",
  "Closing the chunk reader or the chunk parser at any moment completes under every scheduling - provided the application goes on draining its streams and errors and a pending transport read returns - even when a message or an error is just about to be handed over. After that no receive goroutine is left, every chunk stream handed out (a group, once it has been waited for) and the error channel have ended, what had been delivered is intact, and the control and command handlers fed by those streams neither crash nor spin.",
  ["schedules", "crash_points"],
  "every point of the receive activity as the moment of closing, under all interleavings of reader, router, handlers, consumers and closer",
  "The test closes a parser over a mock reader which never has anything in hand; no test closes a real reader.",
  ["chunk/parser.go", "chunk/default_reader.go", "chunk/stream.go", "control/stream.go", "cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"],
  [("closer channels", "chunk/parser.go Close, Recv; chunk/default_reader.go Close, Recv")],
  [("closer", "rendezvous that stops the loop", "chunk/parser.go, chunk/default_reader.go")],
  ["Close returning", "channels closed", "live goroutines"])

p("C11", "Messages written concurrently never mix on the wire",
  "When several goroutines write messages through one chunk writer, each message's bytes reach the connection contiguously, as some order of whole messages, that order keeping each goroutine's own. Each message is cut with one single write size that was in force during its write, even while the size is being changed.",
  ["schedules"],
  "all interleavings of 2-3 writers and a size changer, down to every call on the connection and every lock operation",
  "All tests write from a single goroutine; a client shares one writer between its control, connection, stream and data handlers.",
  ["chunk/default_writer.go", "chunk/writer.go", "control/stream.go", "cmd/manager.go", "client/client.go"],
  [("one buffered write per message", "chunk/default_writer.go Write")],
  [("writeSize", "write size under a mutex", "chunk/default_writer.go")],
  ["sequence of Write calls on the connection"])

p("C12", "Sizes, counters and stream lookups are safe to use concurrently",
  "The read size, write size, per-message byte counters and stream lookups may be used from several goroutines while messages are being read or written: there is no data race, no update is lost, every read returns the latest value written before it, and all concurrent callers asking for the same chunk stream get the same stream.",
  ["schedules"],
  "all interleavings of 2-3 threads of 1-3 operations each on one shared object, with happens-before race detection on every field access",
  "All tests are single-threaded; lost updates and data races need particular interleavings.",
  ["chunk/default_reader.go", "chunk/default_writer.go", "chunk/builder.go", "chunk/parser.go", "chunk/default_normalizer.go"],
  [("mutex per field", "chunk/default_reader.go rmu, bmu; chunk/default_writer.go wmu; chunk/builder.go pmu, lmu; chunk/parser.go smu")],
  [("left", "bytes left", "chunk/builder.go"), ("readSize", "read size", "chunk/default_reader.go"), ("writeSize", "write size", "chunk/default_writer.go")],
  ["return values", "data races"])

p("C13", "Control messages encode and decode exactly",
  "Every control message - Set Chunk Size, Abort, Acknowledgement, User Control Event, Window Acknowledgement Size, Set Peer Bandwidth - becomes a message of its own type on chunk stream 2, message stream 0, with the exact RTMP payload, and decoding that message gives back an equal control message, for every field value. A Set Chunk Size above 0xffffff is announced and reported as 0xffffff. A payload too short for its type and an unknown type are errors, and successive messages decoded by one parser are independent of each other. When what a message is written to or read from fails, that error is returned.",
  ["inputs", "histories"],
  "all control types x boundary and single-bit values of all fields x payload lengths x all 256 type IDs, and all ordered pairs of messages through one parser",
  "Tests decode one random value per type (encoding is never asserted) and never decode two messages in a row.",
  ["control/control.go", "control/default_parser.go", "control/default_chunker.go", "control/control_set_chunk_size.go", "control/control_abort_message.go", "control/control_acknowledgement.go", "control/control_event.go", "control/control_window_ack_size.go", "control/control_set_peer_bandwidth.go", "spec/binary.go"],
  [("type table", "control/default_parser.go NewParser"), ("chunk header", "control/default_chunker.go Chunk")],
  [("controls", "type ID to Go type", "control/default_parser.go")],
  ["control.Parser.Parse", "control.Chunker.Chunk"])

p("C14", "The control stream loses, repeats and reorders no control message",
  "Under every scheduling, each control message received results in exactly one control message or one error for the application, in order of arrival; each control message the application sends is written exactly once, in the order sent, or reported as one error; and a failure of one leaves the others unaffected. Closing the stream completes while the application keeps draining it, ends its channels, and loses nothing that was accepted before.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of incoming messages (valid and invalid), outgoing messages (writable and failing), consumers and a close, up to the stated numbers",
  "Tests send a single message through mocks in one direction at a time, and one of them is flaky for lack of a schedule.",
  ["control/stream.go", "control/default_parser.go", "control/default_chunker.go", "chunk/default_writer.go"],
  [("single select loop", "control/stream.go Recv")],
  [("in, out, errs, closer", "unbuffered channels", "control/stream.go")],
  ["control.Stream.In()", "Errs()", "bytes written"])

p("C15", "The handshake answers, verifies and consumes exactly what RTMP prescribes",
  "The server sends its version byte only after reading a supported client version, sends its challenge and the echo of the client's challenge only after the client's whole challenge packet, and succeeds if and only if the client then echoes the server's challenge payload exactly; any other version, a wrong echo in any byte, or a read or write failure at any point makes it fail at once, with nothing further written or read. It reads exactly 3073 bytes, so bytes that follow the handshake are left for the chunk stream. All this holds however the transport fragments reads and wherever it fails.",
  ["inputs", "fault_sequences"],
  "all 256 versions, all positions of a corrupted echo byte, every byte position as failure point in both directions, and fragmentations of the reads up to the stated number of deviations",
  "Tests drive each step separately over in-memory buffers with one input; no test runs a whole handshake, and none fails in the middle.",
  ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
  [("sequence chain", "handshake/handshaker.go Handshake"), ("echo comparison", "handshake/server_ack_sequence.go Read")],
  [("C1, S1", "challenges", "handshake/client_ack_sequence.go")],
  ["bytes written", "bytes consumed", "returned error"])

p("C16", "Connections are independent of one another",
  "Whatever is done on one connection - handshaking, receiving, writing, sending control messages - concurrently with another connection gives on each of them the same result as if it were alone, under every scheduling and without data races. Each handshake uses a fresh server challenge, filled in full from the random source.",
  ["schedules", "histories"],
  "all interleavings (up to the stated preemption bound) of two connections going through the same operations with different data, and sequential histories of connections",
  "Every test uses a single connection; shared state between connections cannot show.",
  ["handshake/client_ack_sequence.go", "handshake/packet_ack.go", "handshake/handshaker.go", "chunk/default_reader.go", "chunk/default_writer.go", "chunk/default_normalizer.go", "chunk/builder.go", "control/default_parser.go", "control/default_chunker.go", "spec/binary.go", "spec/bytes.go"],
  [("state allocated per connection", "chunk.NewReader, NewNormalizer, NewWriter, NewParser; handshake.With; control.NewStream"), ("random challenge", "handshake/client_ack_sequence.go NewClientAckSequence")],
  [], ["results per connection"])

p("C17", "A client session hands over from handshake to messages without loss",
  "After a successful handshake a client delivers every message the peer sent on the control chunk stream to the control stream and every message on the connection, stream and data chunk streams to the command side, in order per chunk stream, even when those bytes arrive together with the last handshake bytes; messages on chunk streams it has no use for do not hold them up. If the handshake fails, the error is returned and no message is read. What the application sends on the different parts of the session reaches the peer as whole messages.",
  ["schedules", "inputs", "fault_sequences"],
  "all small sessions over the chunk streams in use, pipelined behind the handshake, all ways for it to be refused or cut off, and all interleavings of small sessions",
  "The only client test constructs a client.",
  ["client/client.go", "chunk/parser.go", "chunk/multi_stream.go", "control/stream.go", "cmd/manager.go", "handshake/handshaker.go"],
  [("wiring of streams", "client/client.go New"), ("receive loop started after the handshake", "client/client.go Handshake")],
  [], ["Client.Controls()", "Client.Net()", "Client.Conn"])

p("C18", "Command dispatch sends each message to its one right handler",
  "Every message arriving on the command side is passed, in order, to the handler it belongs to and to no other, judged by chunk stream, message stream and type: connection commands on chunk stream 3, or chunk stream 8 with message stream 0; stream commands (type 0x14) on chunk stream 4, or chunk stream 8 with message stream 1; audio, video and data (types 8, 9, 0x12) on chunk stream 4; any other message is dropped without blocking. A combined filter is open exactly when all (union) or any (any) of its parts are, and closed when it has none.",
  ["inputs", "schedules"],
  "all combinations of chunk stream, message stream and type (all 256 types), all gate expressions up to depth 2, and all interleavings of short dispatch sequences",
  "Tests check single gates on one matching and one mismatching value; the three predefined gates are never tested, nor their exclusivity.",
  ["cmd/gate.go", "cmd/manager.go"],
  [("predefined gates", "cmd/gate.go NetConnGate, NetStreamGate, DataStreamGate"), ("dispatch loop", "cmd/manager.go Dispatch")],
  [("channels", "gate to handler channel", "cmd/manager.go")],
  ["Manager.NetConn().In()", "NetStream().In()", "DataStream().Out()"])

p("C19", "Command handlers turn each message into one result, in order",
  "For the connection, stream and data handlers, under every scheduling: each message received yields exactly one decoded item or one error, in order of arrival, decoded into the command named in it with the fields the peer sent; each response, status or data item the application sends is written exactly once, in order, on the chunk stream and with the type it belongs to, or reported as one error. An error leaves later messages unaffected.",
  ["schedules", "inputs", "histories"],
  "all known commands and malformed variants, all sequences of up to 3 incoming and 2 outgoing items, under all interleavings of handler and application",
  "Tests pass a single item through mocked parsers in one schedule, and cannot be run where the AMF0 dependency is missing.",
  ["cmd/conn/net_conn.go", "cmd/conn/default_parser.go", "cmd/conn/default_chunker.go", "cmd/conn/marshallable.go", "cmd/conn/receivable.go", "cmd/stream/net_stream.go", "cmd/stream/default_parser.go", "cmd/stream/stream_commands.go", "cmd/stream/status.go", "cmd/data/stream.go", "cmd/data/default_parser.go"],
  [("select loops", "cmd/conn/net_conn.go Listen; cmd/stream/net_stream.go Listen; cmd/data/stream.go Recv"), ("command tables", "cmd/conn/default_parser.go; cmd/stream/default_parser.go; cmd/data/default_parser.go")],
  [], ["In()/Out()/Errs() of the handlers", "bytes written"])

p("C20", "Closing the command side stops dispatch and its handlers",
  "Closing the command manager, at any moment and under every scheduling, ends its dispatch loop and, when it manages its handlers, ends those too, provided the application goes on draining them and has stopped sending; the channels of the stream and data handlers end as well. Nothing panics, nothing is left running, and messages dispatched before the close have been passed on.",
  ["schedules"],
  "every moment of closing relative to 0-2 messages in flight, managed and unmanaged, under all interleavings (the larger cases up to a stated number of deviations from the default schedule)",
  "No test ever closes a manager or a handler.",
  ["cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"],
  [("closer rendezvous and deferred clean-up", "cmd/manager.go Dispatch")],
  [("closer", "stops the loop", "cmd/manager.go")],
  ["Close and Dispatch returning", "live goroutines"])

p("C21", "Audio and video frames keep their bytes and report their format",
  "Reading an audio or video message and marshalling it again gives a message with the same header and the same bytes, also once that is written and read again; control byte and payload are the first byte and the rest; codec, sample rate, sample size, channels and frame type are those the control byte encodes in RTMP/FLV. An empty message is refused, each message yields a fresh frame, and the frame's type ID is that of the message.",
  ["inputs", "histories"],
  "all 256 control bytes x payload lengths x both media types, all 256 type IDs, and all ordered pairs of frames through one parser",
  "Tests check 11 control bytes for audio, effectively none for video, and one payload.",
  ["cmd/data/audio.go", "cmd/data/video.go", "cmd/data/data.go", "cmd/data/default_parser.go"],
  [("bit fields", "cmd/data/audio.go, cmd/data/video.go"), ("factory per type", "cmd/data/default_parser.go")],
  [], ["data.Parser.Parse", "Data.Marshal", "Audio/Video accessors"])

p("C22", "Outgoing command messages are self-contained",
  "The message made from a response, status or data frame holds exactly that item's encoding, with a matching length, and is not changed by any message made before, after or concurrently with it. Making it does not change shared state.",
  ["histories", "schedules"],
  "all ordered sequences of up to 3 outgoing items of different sizes, and all interleavings of two goroutines making one each",
  "Tests make one message and compare it at once; sharing shows only when a second is made while the first is still in use.",
  ["cmd/stream/status.go", "cmd/conn/marshallable.go", "cmd/conn/default_chunker.go", "cmd/data/data_frame.go"],
  [("header prepended to body", "cmd/stream/status.go AsChunk")],
  [("OnStatusCommandHeader", "shared encoded header", "cmd/stream/status.go")],
  ["chunk.Chunk.Data of successive messages"])

p("C23", "The server hands out every accepted connection once and stops when closed",
  "Every connection the listener accepts is handed to the application as exactly one client, bound to that connection, in order of acceptance; every accept failure is reported exactly once and does not stop later connections from being served. After the server is closed no further connection is accepted, and the accept loop ends once what it had in hand has been taken.",
  ["schedules", "fault_sequences"],
  "all sequences of up to 4 accept outcomes (connection, transient failure, close) under all interleavings of accept loop, application and closer",
  "The test accepts one connection on a real port and never closes or fails.",
  ["server/server.go", "client/client.go", "rtmp.go"],
  [("accept loop", "server/server.go Accept")],
  [("clients, errs", "unbuffered channels", "server/server.go")],
  ["Server.Clients()", "Server.Errs()", "live goroutines"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
