#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) per property."""
import json, os, sys

PROPS = []

def P(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- MessagePack
P("C01", "Typed MessagePack values survive encode/decode and are standard MessagePack",
  "Any sequence of typed values (nil, booleans, integers of every width, floats, strings, byte arrays, timestamps, array and map headers, and their nillable forms) written with the MessagePack writer reads back through the matching typed readers as the same values in the same order, consuming exactly the bytes written. The bytes produced are standard MessagePack: an independent decoder reads the same values from them.",
  ["inputs"], "every sequence of typed writes, including every format boundary (lengths 0/31/32/255/256/65535/65536, integer width limits, NaN/Inf, pre-1970 and far-future times)",
  "msgpack/codec_test.go round-trips a handful of fixed values; the format boundaries and mixtures are never reached.",
  ["go/msgpack/encoder.go", "go/msgpack/decoder.go", "go/msgpack/data_reader.go", "go/msgpack/codec.go"],
  [("format selection", "go/msgpack/encoder.go Write*"), ("prefix dispatch", "go/msgpack/decoder.go Read*")],
  ["encoded bytes", "values returned by readers", "reader position"])
P("C02", "Predicted encoded size equals the number of bytes encoded",
  "For every value or sequence of values, the size computed in the sizing pass is exactly the number of bytes the encoder then writes, so one-shot serialisation returns exactly one complete encoding with no missing or trailing bytes and reports no error for supported values. Writing into a buffer that is too small, or serialising a value of an unsupported type, is reported as an error instead of silently producing a partial or corrupt encoding.",
  ["inputs"], "every sequence of writes, every dynamically typed value, every buffer shorter than the encoding",
  "The sizer has no test of its own; existing tests touch only small values where both passes agree.",
  ["go/msgpack/sizer.go", "go/msgpack/encoder.go", "go/msgpack/codec.go"],
  [("sizing pass", "go/msgpack/sizer.go"), ("buffer bounds", "go/msgpack/data_reader.go checkBufferSize"), ("two-pass serialisation", "go/msgpack/codec.go ToBytes, AnyToBytes")],
  ["length of the returned slice", "remaining bytes after decoding", "error values"])
P("C03", "Dynamically typed values round-trip through the any encoding",
  "Any value built from nil, booleans, numbers, strings, byte arrays, timestamps, typed and untyped lists, and maps nested to any depth up to ten thousand levels, written through the dynamic writer and read back through the dynamic reader, yields the same value up to integer width and container type. It consumes exactly the bytes written, and reading several such values back to back yields each of them.",
  ["inputs"], "every nesting of the supported dynamic types and sizes",
  "Tests call the dynamic writer on a few flat values only and never nest, nor use nil or timestamps.",
  ["go/msgpack/encoder.go", "go/msgpack/decoder.go", "go/msgpack/sizer.go"],
  [("dynamic writer", "go/msgpack/encoder.go WriteAny"), ("dynamic reader", "go/msgpack/decoder.go ReadAny")],
  ["value returned by the dynamic reader", "reader position"])
P("C04", "Integers decode to exactly their value or fail, whatever the wire width",
  "Reading an integer with a reader of any width and signedness yields exactly the encoded number when that number fits the requested type, whichever of MessagePack's integer formats carries it, and an error otherwise. A value is never truncated, wrapped or sign-changed.",
  ["inputs"], "every 64-bit number, in every integer format that can carry it, read through each of the eight integer readers and their nillable forms",
  "Tests read back only what the same library wrote with the same width; foreign encoders choose other formats.",
  ["go/msgpack/decoder.go", "go/msgpack/data_reader.go"],
  [("range checks", "go/msgpack/decoder.go ReadInt8..ReadUint64")],
  ["values and errors returned by the integer readers"])
P("C05", "Decoding untrusted bytes yields a value or an error, never a crash",
  "Feeding arbitrary, truncated or corrupted bytes to any sequence of MessagePack reads terminates with values or an error. It never panics, never reads outside the given buffer, and never allocates memory out of proportion to the input's size.",
  ["inputs"], "every byte string and every sequence of reader calls on it",
  "No test decodes malformed input; the space of malformed inputs is unbounded.",
  ["go/msgpack/decoder.go", "go/msgpack/data_reader.go"],
  [("buffer bounds check", "go/msgpack/data_reader.go checkBufferSize"), ("container pre-allocation", "go/msgpack/decoder.go ReadAny")],
  ["panics", "reader position", "bytes allocated"])
P("C06", "Skipping a MessagePack value consumes exactly that value",
  "Skipping any well-formed MessagePack value, of any format and nesting, consumes exactly the bytes of that value, so the value that follows reads correctly. Skipping a truncated or malformed value reports an error.",
  ["inputs"], "every well-formed value in every format family (including extension types), and every proper prefix of it",
  "Skip has no test; readers of structures with unknown fields depend on it for every format.",
  ["go/msgpack/decoder.go"],
  [("size table", "go/msgpack/decoder.go getSize"), ("recursion over containers", "go/msgpack/decoder.go Skip")],
  ["reader position after Skip", "error returned"])
P("C07", "Payload conversion helpers are inverse pairs and propagate errors",
  "Every conversion helper pair that turns a typed value into a payload and back (scalars, strings, byte arrays, timestamps, structured values, lists and maps, and nillable numeric conversions including absent ones) returns the original value for every input. When the bytes are malformed or a structured value fails to encode or decode, the helper returns an error and never a silently wrong value or a panic.",
  ["inputs"], "every value of every supported type, every corruption of its encoding",
  "The helpers have no tests at all.",
  ["go/transform/transform.go", "go/msgpack/convert/convert.go", "go/msgpack/codec.go", "go/payload/payload.go"],
  [("decode/encode transforms", "go/transform/transform.go"), ("nillable conversions", "go/msgpack/convert/convert.go")],
  ["returned value, payload and error"])

# ---------------------------------------------------------------- wire
P("W01", "Frames round-trip and follow the RSocket wire layout",
  "Encoding any frame the protocol engine can build and decoding the bytes yields an equal frame (type, 31-bit stream id, flags, initial demand, metadata, data, error code and message). The encoding is exactly as long as the frame's declared size and laid out as the RSocket specification prescribes, so an independent implementation agrees byte for byte.",
  ["inputs"], "every frame type, flag combination, stream id, demand and payload/metadata length",
  "Frame tests only cover fragmentation of one fixed payload; no test encodes and decodes a frame.",
  ["go/internal/frames/request_payload.go", "go/internal/frames/payload.go", "go/internal/frames/error.go", "go/internal/frames/request_n.go", "go/internal/frames/cancel.go", "go/internal/frames/frame_header.go", "go/internal/frames/util.go"],
  [("frame codecs", "go/internal/frames/*.go Encode/Decode/Size"), ("header bit layout", "go/internal/frames/frame_header.go")],
  ["encoded bytes", "decoded frame fields"])
P("W02", "Malformed frames are rejected with an error, never a crash",
  "Decoding any byte string as a frame, whether received from the network, from a guest module or from a host, either yields a frame whose fields lie within those bytes or reports an error. It never panics and never reads past the frame.",
  ["inputs"], "every byte string, in particular truncations and length-field corruptions of valid frames",
  "No test decodes a malformed frame.",
  ["go/internal/frames/util.go", "go/internal/frames/request_payload.go", "go/internal/frames/payload.go", "go/internal/frames/error.go", "go/internal/frames/request_n.go"],
  [("frame dispatch", "go/internal/frames/util.go FromBytes"), ("per-type decoding", "go/internal/frames/*.go Decode")],
  ["returned frame or error", "panics"])
P("W03", "Fragmenting a large frame loses, reorders and duplicates nothing",
  "A frame that exceeds a maximum frame size is split into frames none of which encodes to more than that maximum, and concatenating their metadata and data in order after an encode/decode of each reproduces the original exactly. Every fragment but the last is marked as followed by another, only the last carries the original completion mark, and the first keeps the request's type, stream and demand.",
  ["inputs"], "every combination of metadata length, data length, frame kind and maximum size large enough to hold a header",
  "Two tests split one fixed 1 MiB payload each at one maximum and never encode the fragments.",
  ["go/internal/frames/payload.go", "go/internal/frames/request_payload.go", "go/internal/frames/util.go"],
  [("fragment loop", "go/internal/frames/util.go splitPayloads"), ("first fragment", "go/internal/frames/request_payload.go Fragment")],
  ["encoded fragments"])
P("W04", "Stream ids are valid, side-specific and unique within a lap",
  "Every stream id a side allocates is a non-zero 31-bit number of that side's parity, and no id repeats until the whole id space of that side has been used, from any starting point and however many goroutines allocate concurrently. Wrapping around is reported, and never yields id zero or the other side's parity.",
  ["inputs", "schedules", "histories"], "every allocator state including the wrap-around points, every number of concurrent allocators",
  "Tests step the allocators from two chosen states, single-threaded.",
  ["go/internal/socket/stream_id.go"],
  [("id counters", "go/internal/socket/stream_id.go Next")],
  ["ids returned"])
P("W05", "TCP transport delivers frames intact under any byte chunking",
  "Frames written to the stream transport arrive at the peer complete, unchanged and in order however the byte stream is split into reads, up to the maximum frame size, and a received frame's contents stay unchanged while later frames are read. A truncated or over-long stream ends in an error and never in a fabricated frame.",
  ["inputs", "fault_sequences", "histories"], "every frame sequence, every partition of the byte stream into reads, every truncation point",
  "No test of the transport exists; real sockets deliver arbitrary partitions.",
  ["go/transport/rsocket/decoder.go", "go/transport/rsocket/tcp_conn.go", "go/internal/u24/u24.go"],
  [("length-prefixed framing", "go/transport/rsocket/decoder.go"), ("frame read/write", "go/transport/rsocket/tcp_conn.go"), ("24-bit length", "go/internal/u24/u24.go")],
  ["frames returned by the connection", "bytes written to the connection"])
P("W06", "Concurrent senders never interleave bytes of different frames",
  "When many goroutines send frames over one connection at the same time, the peer receives exactly the multiset of frames that were sent, each intact, with the frames of any one sender in the order it sent them.",
  ["schedules", "inputs"], "every number of senders, frame sizes and interleavings",
  "No transport test exists, and a race needs adversarial scheduling inside a write.",
  ["go/transport/rsocket/tcp_conn.go", "go/transport/rsocket/tcp_transport.go", "go/transport/rsocket/transport.go"],
  [("frame write", "go/transport/rsocket/tcp_conn.go Write"), ("send path", "go/transport/rsocket/transport.go Send")],
  ["byte stream seen by the peer"])
P("W07", "Operation tables round-trip and malformed ones are rejected",
  "A table of imported and exported operations, serialised by one side and parsed by the other, yields the same operations with the same index, kind, direction, namespace and name. Arbitrary or truncated bytes are answered with an error, without a crash or an allocation out of proportion to the input.",
  ["inputs"], "every table, every prefix and corruption of its serialisation",
  "The operation table codec has no test.",
  ["go/operations/operatons.go"],
  [("table codec", "go/operations/operatons.go ToBytes/FromBytes")],
  ["parsed table", "error"])
P("W08", "Module custom sections are found exactly, and bad modules are rejected",
  "Reading custom sections from a WebAssembly module returns exactly the requested named sections with their exact contents, whatever other sections surround them and wherever they lie in the file. Truncated or malformed modules end in an error, without a crash or an allocation out of proportion to the input.",
  ["inputs", "fault_sequences"], "every arrangement of sections, every requested name set, every truncation, every short-read behaviour of the reader",
  "The section reader has no test.",
  ["go/transport/wasmrs/customsections/customsections.go"],
  [("section walk", "go/transport/wasmrs/customsections/customsections.go")],
  ["returned sections", "error"])
P("W09", "Server connections come and go independently; stopping ends all of them",
  "Every connection that a TCP server accepts is served with a caller of its own, which reaches that client and no other, whatever becomes of the other connections: one that is closed, breaks off in the middle of a frame, sends garbage or is not read from takes no other with it, does not keep the server from accepting more, and is forgotten once it is over. Closing the server or cancelling its context, at any moment, even before it listens or while it accepts, ends listening and every connection, and so does a failing listener; closing a connection or cancelling its context ends it at both ends. A call made over a connection that is over fails. Whoever waits for the server to listen is told once whether it does.",
  ["histories", "schedules", "fault_sequences"], "every history of connections, calls, departures and server stops, and every interleaving of them",
  "No test starts a server; the races between accepting, serving and stopping need particular schedules.",
  ["go/transport/rsocket/tcp_transport.go", "go/transport/rsocket/transport.go"],
  [("accept loop and registry of connections", "go/transport/rsocket/tcp_transport.go Listen/Close/putTransport"), ("connection loop", "go/transport/rsocket/transport.go Start/Close")],
  ["end of Listen and Start", "closing of the listener and of both ends of each connection", "results of calls", "reachability of ended connections", "goroutines left"])

# ---------------------------------------------------------------- streams engine
P("S01", "Each request gets exactly its own response, exactly once",
  "Every request/response call made over a connection completes exactly once, with the payload (data and metadata) its own handler invocation returned or the error it reported, even when many calls are in flight in both directions and responses come back in any order. Calling an operation the peer does not export yields an error to that caller only. A handler, or the source of items it returns, that takes its time holds up no other call.",
  ["schedules", "inputs", "histories"], "every set of concurrent calls, payloads, handler outcomes and response orders",
  "No test exercises the protocol engine at all.",
  ["go/handler/handler.go", "go/handler/caller.go", "go/proxy/mono.go", "go/proxy/lookup.go"],
  [("request dispatch", "go/handler/handler.go HandleFrame"), ("call correlation", "go/proxy/mono.go, go/proxy/lookup.go")],
  ["callbacks at the caller", "handler invocations", "frames on the wire"])
P("S02", "Streams deliver every item once, in order, then one termination",
  "A caller subscribed to a remote stream observes exactly the items the remote handler produced, in the order produced, followed by exactly one termination: completion, or the handler's error. Streams active at the same time never see each other's items. None waits for another whose source takes its time.",
  ["schedules", "inputs", "histories"], "every item sequence, failure point, demand pattern and number of concurrent streams",
  "No test exercises the protocol engine at all.",
  ["go/handler/handler.go", "go/proxy/flux.go", "go/rx/flux/flux.go"],
  [("stream dispatch", "go/handler/handler.go"), ("caller side", "go/proxy/flux.go")],
  ["callbacks at the subscriber", "frames on the wire"])
P("S03", "Producers never outrun demand, and all demand is forwarded",
  "The demand a subscriber states, at subscription or later, reaches the remote producer in full, and a producer that produces on request never has more items delivered than have been requested in total. Any demand pattern that eventually asks for enough delivers the whole stream.",
  ["inputs", "histories", "schedules"], "every demand pattern over every stream length",
  "No test uses back-pressure.",
  ["go/proxy/flux.go", "go/handler/handler.go", "go/rx/flux/flux.go", "go/rx/flux/slice.go", "go/rx/flux/response.go"],
  [("demand frames", "go/proxy/flux.go Request, go/handler/handler.go"), ("demand accounting", "go/rx/flux/flux.go Request/Next")],
  ["initial demand and demand frames on the wire", "items delivered"])
P("S04", "Channels carry both directions completely and independently",
  "On a bidirectional channel the responder observes exactly the items the requester's input produced, in order and then its termination, and the requester observes exactly what the responder's output produced, in order and then its termination. Neither the completion of one direction nor an error of the input cuts off the other.",
  ["schedules", "inputs", "histories"], "every pair of item sequences, terminations and demand patterns in the two directions",
  "No test opens a channel.",
  ["go/handler/handler.go", "go/proxy/flux.go"],
  [("channel handling", "go/handler/handler.go handleRequestChannel"), ("input forwarding", "go/proxy/flux.go")],
  ["callbacks on both sides"])
P("S05", "No frame sequence from a peer can crash an endpoint or disturb other streams",
  "Whatever sequence of decodable frames a peer sends (unknown, finished or never-opened streams, wrong frame kinds for a stream, missing metadata, unknown operations, zero demand, repeated cancels or terminations), the endpoint never panics and keeps serving. Streams and calls the sequence does not address still complete with their correct results, and a call that cannot be served is answered with an error.",
  ["histories", "schedules", "inputs"], "every sequence of frames interleaved with well-behaved traffic",
  "No test feeds frames to the engine.",
  ["go/handler/handler.go", "go/proxy/flux.go", "go/proxy/mono.go", "go/transport/rsocket/transport.go"],
  [("frame dispatch", "go/handler/handler.go HandleFrame")],
  ["panics", "outcomes of unrelated calls"])
P("S06", "Nothing is delivered or kept after a stream has ended",
  "Once a stream or call has completed, failed or been cancelled, its subscriber sees no further item and no second termination, and the endpoint keeps no record of it. Cancelling a stream tells the peer, and the peer's producer is stopped and sends nothing further for that stream.",
  ["histories", "schedules", "inputs"], "every point at which a stream is ended and every frame that may still arrive or be produced afterwards",
  "No test ends a stream early or inspects what remains.",
  ["go/handler/handler.go", "go/proxy/flux.go", "go/proxy/mono.go", "go/proxy/lookup.go", "go/rx/flux/flux.go"],
  [("stream removal", "go/handler/handler.go removeStream"), ("closed flag", "go/rx/flux/flux.go subscriber")],
  ["subscriber callbacks after the end", "frames after cancel", "replies to frames for ended streams"])
P("S07", "The stream registry behaves like a map under any history",
  "After any history of adding, looking up and removing streams, a lookup finds exactly the streams added and not yet removed. It does so whichever elements are removed first, and under concurrent use.",
  ["histories", "schedules"], "every sequence of add/get/remove, sequential and concurrent",
  "The registry has no test.",
  ["go/proxy/lookup.go"],
  [("linked list", "go/proxy/lookup.go")],
  ["lookup results"])
P("S08", "The outbound queue is FIFO, unbounded and lossless",
  "Values put in the unbounded queue come out exactly once each and in the order put, whatever the interleaving of puts, takes and loads. After the queue is closed no value put afterwards is delivered and readers are released.",
  ["histories", "schedules"], "every interleaving of put, load, receive and close by any number of producers",
  "Tests cover a few fixed producer counts with one reader pattern and never close with items pending.",
  ["go/internal/buffer/unbounded.go"],
  [("backlog and channel hand-over", "go/internal/buffer/unbounded.go")],
  ["values received"])
P("S09", "Operation ids are stable and dispatch to the operation they name",
  "Registering imports and exports in any order gives each operation one id per interaction kind that never changes, importing the same operation again returns the same id, distinct operations get distinct ids, and the published table lists each operation at its id. Dispatching an id runs exactly the handler registered for it, and an unknown id is answered as not found.",
  ["histories", "inputs"], "every sequence of registrations and lookups over any names",
  "No test registers operations.",
  ["go/invoke/handlers.go", "go/handler/caller.go", "go/handler/handler.go"],
  [("registries", "go/invoke/handlers.go")],
  ["ids returned", "handlers run", "operation table"])
P("S10", "Fire-and-forget runs its handler once and answers nothing",
  "Every fire-and-forget request reaches the handler of the addressed operation exactly once with the data sent, without delaying or altering other traffic. No response frame is sent for one that the peer accepts, and nothing about it remains registered afterwards.",
  ["schedules", "inputs", "histories"], "every mix of fire-and-forget requests with other traffic",
  "No test sends one.",
  ["go/handler/handler.go", "go/handler/caller.go"],
  [("dispatch", "go/handler/handler.go handleFireAndForget")],
  ["handler invocations", "frames on the wire"])

P("S11", "A payload that cannot be sent fails its own call and nothing else",
  "When a request, an answer, a stream item in either direction or an error text is too large for the connection, the call or stream it belongs to ends with an error for whoever waits for it: exactly once, after the items sent before. The source of that direction is stopped, nothing of the call stays registered, nothing follows the error on the wire, a handler never runs for a request that was not sent, and all other calls complete as if nothing had happened.",
  ["inputs", "histories", "faults", "schedules"], "every part of every kind of call that may be too large, at every position, among any other calls",
  "No test sends anything that does not fit.",
  ["go/handler/handler.go", "go/handler/caller.go", "go/proxy/flux.go", "go/proxy/mono.go", "go/proxy/responder.go", "go/transport/rsocket/transport.go"],
  [("failed request", "go/proxy/flux.go Request, go/proxy/mono.go Subscribe"), ("failed item", "go/proxy/responder.go Respond, go/proxy/flux.go subscribeIn"), ("failed answer", "go/handler/handler.go handleRequestResponse")],
  ["what callers and handlers see", "frames on the wire", "reachability of the subscribers"])

P("S12", "The end of a connection ends every call over it with an error, no other call",
  "When a connection ends, closed by either side, cancelled, broken off, because of garbage or with its server, every call under way over it ends with an error at its caller: exactly once, after everything that had arrived for it, and never with a completion that did not arrive. A channel's handler is told the same of its input. The sources of outputs and inputs are stopped, even those whose handler only answers later, and nothing of the calls stays registered. Calls made afterwards fail at once. Calls over other connections are not affected.",
  ["histories", "schedules", "fault_sequences"], "every way in which a connection ends, at every moment of any mix of calls over it and over others",
  "No test ends a connection.",
  ["go/handler/handler.go", "go/transport/rsocket/transport.go", "go/proxy/flux.go", "go/proxy/mono.go", "go/proxy/responder.go", "go/proxy/lookup.go"],
  [("end of a connection", "go/transport/rsocket/transport.go Start"), ("end of its calls", "go/handler/handler.go Close"), ("registered streams", "go/proxy/lookup.go")],
  ["what callers and handlers see", "cancellation of sources", "reachability of the subscribers"])

# ---------------------------------------------------------------- reactive
P("R01", "A single-value publisher signals exactly one outcome to its subscriber",
  "For every single-value publisher, however built (constant, error, created from a source, processor, mapped), subscribing delivers exactly one of value or error followed by exactly one final notification of the matching kind, and blocking or reading the result afterwards returns that same outcome. Signals the source emits after the first outcome are ignored, and every registered completion callback runs exactly once.",
  ["histories", "inputs"], "every sequence of signals from the source, before, during and after subscription, and every composition of maps",
  "The reactive package has no tests.",
  ["go/rx/mono/mono.go", "go/rx/mono/mono_host.go", "go/rx/mono/processor.go"],
  [("closed flag", "go/rx/mono/mono.go subscriber")],
  ["subscriber callbacks", "result of blocking"])
P("R02", "A stream publisher obeys the item*, one-terminal protocol",
  "For every stream publisher, however built, a subscriber sees the source's items in order followed by at most one terminal signal (completion, error or cancellation), exactly one final notification of the matching kind, and nothing afterwards. Completion callbacks run exactly once, and blocking on the stream returns once it has terminated, with its error if any.",
  ["histories", "inputs"], "every sequence of source signals, requests and cancellations",
  "The reactive package has no tests.",
  ["go/rx/flux/flux.go", "go/rx/flux/flux_host.go", "go/rx/flux/processor.go", "go/rx/flux/slice.go", "go/rx/flux/response.go"],
  [("closed flag", "go/rx/flux/flux.go subscriber")],
  ["subscriber callbacks", "result of blocking"])
P("R03", "Mapping a publisher transforms each item once and preserves structure",
  "Mapping delivers, in order, exactly the transformed items of the underlying publisher and the same termination, and mapping twice equals mapping the composition. When the transformation fails for an item, the subscriber gets the earlier items, then that error as its only termination, and nothing after.",
  ["inputs", "histories"], "every item sequence, termination, position of a failing transformation, and nesting of maps",
  "The reactive package has no tests.",
  ["go/rx/flux/flux.go", "go/rx/mono/mono.go"],
  [("mapper", "go/rx/flux/flux.go mapper, go/rx/mono/mono.go mapper")],
  ["subscriber callbacks"])
P("R04", "Workflow steps run once each, in order, after what they await",
  "The steps of a workflow run in order, each exactly once, and a step starts only after everything its predecessor awaits has finished, whether those awaited results finish before, while or after they are registered. An error from a step, or an early end, stops the remaining steps, and the workflow's result is signalled exactly once.",
  ["schedules", "histories"], "every workflow of steps, every set of awaited results and every order in which they finish",
  "The workflow package has no tests.",
  ["go/rx/flow/flow.go", "go/rx/await/await.go"],
  [("step driver", "go/rx/flow/flow.go next/check")],
  ["order in which steps start", "result signalled"])

# ---------------------------------------------------------------- wasmRS host and guest
P("H01", "Host calls into a guest behave as if the guest were called directly",
  "For every exported guest operation of any interaction kind, a call from the host returns exactly what the guest's handler produces for that input (value, items in order, error), for any payload that fits the negotiated buffers and for any number of calls in flight. Data handed to one call is never altered by other traffic.",
  ["inputs", "schedules", "histories"], "every mix of calls, payload sizes and outcomes",
  "The wasm host and guest have no tests.",
  ["go/transport/wasmrs/host/instance.go", "go/transport/wasmrs/host/host.go", "go/transport/wasmrs/guest/guest.go", "go/transport/wasmrs/host/caller.go"],
  [("host frame pump", "go/transport/wasmrs/host/instance.go"), ("guest frame pump", "go/transport/wasmrs/guest/guest.go")],
  ["results seen by the host caller", "inputs seen by guest handlers"])
P("H02", "Guest calls to imported operations reach the right host handler",
  "A guest's call to an imported operation of any interaction kind reaches the host handler bound to that import, with the guest's payload, and the guest receives exactly that handler's result. An unbound import is answered with an error to that call only.",
  ["inputs", "schedules", "histories"], "every set of imports, calls and outcomes",
  "The wasm host and guest have no tests.",
  ["go/transport/wasmrs/guest/guest.go", "go/transport/wasmrs/guest/caller.go", "go/transport/wasmrs/host/instance.go"],
  [("import binding", "go/transport/wasmrs/host/instance.go Set*Handler")],
  ["handler invocations on the host", "results seen by the guest"])
P("H03", "Frames cross the guest/host memory boundary intact in any batching",
  "Any batch of frames one side places in a shared buffer is received by the other side as exactly those frames, in order and unaltered, whatever their number and sizes up to the buffer's capacity. Frames that do not fit, lengths that lie, and malformed frames are reported as errors and never corrupt neighbouring frames or crash the endpoint.",
  ["inputs", "fault_sequences", "histories"], "every batch of frames and every position/length the other side reports",
  "The wasm host and guest have no tests.",
  ["go/transport/wasmrs/host/instance.go", "go/transport/wasmrs/guest/guest.go"],
  [("host receive", "go/transport/wasmrs/host/instance.go"), ("guest receive", "go/transport/wasmrs/guest/guest.go Send")],
  ["frames seen by each side"])
P("H04", "Loading a module yields its announced operations or an error, never a crash",
  "Loading a WebAssembly module gives either an instance whose operation table is exactly the one the module announced, or an error: a module that keeps to the protocol is accepted, one that lacks an entry point, has entry points of other types, has no memory, traps or refuses while it is initialised, announces no buffers, announces buffers or a table outside its memory, or announces a malformed table is rejected. Whatever the module does, then or when it is called, the host process does not crash, and after a rejected module the host loads a correct one.",
  ["inputs", "faults"], "every module assembled from the protocol's steps, in order or not, with any addresses, tables and replies",
  "The wasm host has no tests; modules are untrusted input.",
  ["go/transport/wasmrs/host/host.go", "go/transport/wasmrs/host/instance.go", "go/operations/operatons.go"],
  [("instantiation", "go/transport/wasmrs/host/instance.go NewInstance"), ("announcements", "go/transport/wasmrs/host/instance.go setBuffers, opList")],
  ["result of loading", "operation table of the instance"])
P("H05", "A guest that fails or is closed ends the calls under way, and nothing hangs",
  "When a guest fails while it handles what the host sent, every call under way between the two ends: for callers on the host with an error, exactly once and after everything the guest had sent before, for handlers on the host by being cancelled, and their input with an error; the sources of outputs and inputs are stopped. The same holds when the instance is closed, after which every further call fails at once. A guest that failed but still answers can be called again. Calls that had completed are not affected, nothing of the calls stays registered, and closing twice changes nothing.",
  ["histories", "fault_sequences", "schedules"], "every moment of a guest's failure or an instance's end, among any calls in both directions",
  "No test has a guest fail or closes an instance with calls under way.",
  ["go/transport/wasmrs/host/instance.go", "go/proxy/lookup.go", "go/proxy/flux.go", "go/proxy/mono.go", "go/proxy/responder.go", "go/transport/wasmrs/host/queue.go"],
  [("failure of the guest", "go/transport/wasmrs/host/instance.go sendLoop/recvLoop"), ("end of the instance", "go/transport/wasmrs/host/instance.go Close"), ("end of the streams", "go/proxy/lookup.go End")],
  ["what callers and handlers on the host see", "cancellation of sources", "reachability of the subscribers"])

P("M01", "UUID parsing, formatting and generation are consistent and standard",
  "Formatting any UUID and parsing the text returns the same UUID, every accepted spelling of one UUID parses to the same value, malformed text is rejected with an error, and text, binary and MessagePack forms are inverse pairs. Generated UUIDs carry the version and variant bits of their kind and are distinct.",
  ["inputs", "histories"], "every 16-byte value, every accepted spelling, every corruption of one, and every number of generated UUIDs",
  "The module has no tests in the stable suite.",
  ["go/types/uuid/uuid.go", "go/types/uuid/marshal.go", "go/types/uuid/version4.go", "go/types/uuid/time.go", "go/types/uuid/util.go"],
  [("parser", "go/types/uuid/uuid.go Parse"), ("generator", "go/types/uuid/version4.go")],
  ["parsed values", "errors"])
P("M02", "Instance handles resolve only while the instance is live",
  "A handle returned for a stored instance resolves to exactly that instance until it is removed, and to nothing afterwards; handles that were never issued, and handles of other instances, never resolve to it. This holds under any history of puts, gets and removes from any number of goroutines.",
  ["histories", "schedules"], "every sequence of put/get/remove, sequential and concurrent",
  "The handle table has no test.",
  ["go/invoke/instances.go"],
  [("handle table", "go/invoke/instances.go")],
  ["results of Get and Remove"])
P("M03", "Port messages round-trip with their flags distinct",
  "Encoding any port message and decoding the bytes returns the same port name, data and both flags, each independently of the other. Malformed or truncated bytes are rejected with an error and never crash the decoder.",
  ["inputs"], "every port name, data and flag combination; every byte string",
  "The port message codec has no test.",
  ["go/invoke/portio.go"],
  [("port message codec", "go/invoke/portio.go")],
  ["decoded message", "error"])
P("M04", "The mesh links every import to the module that exports it",
  "Whatever the order in which modules are added to the mesh, once an exporter and an importer of the same operation and interaction kind are both present, the importer's calls reach exactly that exporter's operation and return its result. Operations nobody exports are reported as not linked until an exporter appears, and adding modules never redirects an import to a different operation. A call of an operation that nobody exports ends with an error, and once a module is loaded again, its new instance receives the calls that follow.",
  ["configurations", "histories"], "every set of modules with any imports and exports, in every order of linking",
  "The mesh has no test.",
  ["go/transport/wasmrs/mesh/mesh.go"],
  [("linking", "go/transport/wasmrs/mesh/mesh.go")],
  ["operation reached by each import", "results"])

# ---------------------------------------------------------------- Rust
P("X01", "Rust frames round-trip and match the RSocket layout the Go side uses",
  "In the Rust implementation, encoding any frame and decoding the bytes yields the same frame (type, stream id, demand, metadata, data, code and message, and the flags that its type has: follows on payload frames, completion on payload and channel frames), and the bytes are exactly those the RSocket layout prescribes, so the Rust and Go endpoints interoperate. The batch framing used to pack several frames into one buffer is likewise exactly inverted by its reader.",
  ["inputs"], "every frame kind, flag combination, stream id, demand and payload",
  "Rust tests decode a few hand-written byte strings; they are not part of the stable suite here.",
  ["rust/crates/wasmrs/src/frames", "rust/crates/wasmrs/src/util.rs"],
  [("frame codecs", "rust/crates/wasmrs/src/frames/*.rs"), ("buffer framing", "rust/crates/wasmrs/src/util.rs")],
  ["encoded bytes", "decoded frames"])
P("X02", "Rust decoding of untrusted frames and tables yields a value or an error",
  "In the Rust implementation, decoding arbitrary, truncated or corrupted bytes as a frame or as an operation table yields a value or an error. It never panics, never loops forever and never allocates out of proportion to the input.",
  ["inputs"], "every byte string, in particular truncations and field corruptions of valid encodings",
  "No Rust test decodes malformed input.",
  ["rust/crates/wasmrs/src/frames", "rust/crates/wasmrs/src/operations.rs"],
  [("frame decoding", "rust/crates/wasmrs/src/frames/mod.rs decode"), ("table decoding", "rust/crates/wasmrs/src/operations.rs")],
  ["result", "panics"])
P("X03", "Rust operation tables round-trip and index operations consistently",
  "In the Rust implementation, a table of imported and exported operations encodes and decodes to the same table, byte-compatible with the Go one, and looking up an operation by namespace, name and direction returns the index it was registered under, or nothing when it was not registered.",
  ["inputs", "histories"], "every sequence of registrations and lookups",
  "Rust tests encode one fixed table.",
  ["rust/crates/wasmrs/src/operations.rs"],
  [("table codec and lookup", "rust/crates/wasmrs/src/operations.rs")],
  ["encoded bytes", "lookup results"])
P("X04", "Rust reactive streams deliver every item once, in order, then terminate",
  "In the Rust implementation, a stream's receiver observes exactly the items and errors pushed by the sender, in order, then the end of the stream, and nothing pushed after completion; piped and mapped streams preserve this. A single-value publisher resolves exactly once with the value or error it was given.",
  ["histories", "schedules", "inputs"], "every sequence of pushes, completions, clones, receiver hand-overs and transformations",
  "Rust tests push a few fixed items.",
  ["rust/crates/wasmrs-rx/src/flux.rs", "rust/crates/wasmrs-rx/src/flux/receiver.rs", "rust/crates/wasmrs-rx/src/flux/ops/pipe.rs"],
  [("signal channel", "rust/crates/wasmrs-rx/src/flux.rs"), ("receiver", "rust/crates/wasmrs-rx/src/flux/receiver.rs")],
  ["items observed by the receiver"])
P("X05", "Rust sockets give every call its own result in all interaction models",
  "Between two Rust endpoints, every request/response, request/stream, request/channel and fire-and-forget call is answered exactly by its own handler invocation: single results once, stream items all, in order and then the end or the error, with any number of calls in flight in both directions. A caller that drops its stream stops the handler that sends it, and an endpoint ends each direction of a stream at most once and sends nothing on it afterwards. No sequence of well-formed frames from the peer makes an endpoint panic or disturbs other calls.",
  ["histories", "schedules", "inputs"], "every mix of concurrent calls, payloads, outcomes and stray frames",
  "Rust tests make one call of each kind.",
  ["rust/crates/wasmrs/src/socket.rs", "rust/crates/wasmrs/src/socket/responder.rs"],
  [("frame dispatch", "rust/crates/wasmrs/src/socket.rs process_once"), ("call registry", "rust/crates/wasmrs/src/socket.rs handlers")],
  ["results at callers", "frames emitted"])

P("X06", "Go and Rust endpoints interoperate in all interaction models",
  "Between a Go endpoint and a Rust one, whichever of them is the host, calls of all four interaction models in both directions behave as they do within one implementation: each is answered exactly by its own handler invocation with the request's data and metadata, stream items arrive all, in order and once, errors arrive with their message, completion arrives, cancellation by the caller stops the handler at the other end, and the input of a channel is never sent beyond the demand its receiver stated. Neither endpoint sends a frame the other does not decode.",
  ["histories", "schedules", "inputs"], "every mix of concurrent calls, payloads, demand policies, outcomes and schedules of frame delivery",
  "No test joins the two implementations.",
  ["rust/crates/wasmrs/src/socket.rs", "rust/crates/wasmrs/src/frames", "go/handler/handler.go", "go/proxy", "go/internal/frames"],
  [("Rust endpoint", "rust/crates/wasmrs/src/socket.rs"), ("Go endpoint", "go/handler/handler.go, go/proxy/*.go")],
  ["results at callers", "handler invocations", "frames exchanged"])

P("X07", "Guests built with the Rust guest library answer and call through its buffers",
  "For every sequence of frames that a host hands to a guest built with the Rust guest library, in whatever batches, each request reaches exactly the handler that is registered under its index and kind, with the operation index and data of the request; responses, stream items, completion and errors of handlers are sent on the request's stream, whole, once and in order; handlers of channels observe every item, with or without metadata, and the end or error of their input exactly once; requests for handlers that there are not are answered with an error. Calls a handler makes to the host behave likewise, and the input of its channels keeps to the host's demand. What the guest sends never exceeds the host's buffer: a call of which a frame does not fit ends with an error, and no other call is affected. The table of operations the guest tells lists exactly the handlers registered. Frames of unknown streams and malformed frames do no harm.",
  ["histories", "inputs"], "every set of handlers, both buffer sizes, every history and batching of frames, payload sizes around what fits",
  "The Rust guest library has no tests.",
  ["rust/crates/wasmrs-guest/src", "rust/crates/wasmrs-runtime/src/runtime/wasm", "rust/crates/wasmrs/src/socket.rs"],
  [("buffers, handlers, host calls", "rust/crates/wasmrs-guest/src/guest.rs"), ("dispatch to handlers", "rust/crates/wasmrs-guest/src/server.rs"), ("guest runtime", "rust/crates/wasmrs-runtime/src/runtime/wasm/mod.rs")],
  ["frames sent by the guest", "what handlers observe"])

# ---------------------------------------------------------------- code generation
P("G01", "Generated bindings agree with the interface definition",
  "For every valid interface definition, the code generator emits bindings that compile and whose serialisation and dispatch agree on both sides of a call. Type names, optionality and collection types in the definition map consistently to every emitted language.",
  ["programs"], "every valid interface definition",
  "The generator's tests compare one fixed definition with one expected output.",
  ["codegen/src/tinygo", "codegen/src/rust", "codegen/src/bus"],
  [("visitors", "codegen/src/tinygo/*.ts, codegen/src/rust/visitors/*.ts")],
  ["emitted source"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(out, "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS), "properties")
