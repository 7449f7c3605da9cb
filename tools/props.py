#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

FR = 'internal/frames/'
p('P01', 'Every frame survives encoding and decoding, in exactly the announced size',
  'Encoding any protocol frame whose fields are within the limits of the wire format and decoding the bytes again yields the same frame: type, stream ID, every flag, initial demand, version, durations, token, MIME types, metadata and data. The size announced for a frame is exactly the number of bytes its encoding occupies, and encoding writes nothing outside them. The bytes follow the RSocket layout, so an independent implementation reads the same fields from them and a frame it writes is read back alike.',
  ['inputs'], 'All frames of every type (setup, the four requests, request-n, cancel, payload, error) with any field values inside the limits of the wire format, including empty and boundary lengths.',
  'The suite round-trips one setup frame with default fields; flags, other frame types, boundary lengths and the size contract are combinations of inputs that a handful of cases cannot cover.',
  [FR+'setup.go', FR+'request_payload.go', FR+'payload.go', FR+'request_n.go', FR+'cancel.go', FR+'error.go', FR+'frame_header.go', 'internal/u24/u24.go'],
  [('Size/Encode/Decode of each frame type', FR), ('header packing of stream ID, type and flags', FR+'frame_header.go')])
p('P02', 'Decoding arbitrary bytes as a frame ends in a frame or an error',
  'For any byte sequence, however truncated or malformed, decoding it as any frame type returns either a frame or an error and never panics, loops or reads outside the sequence. A frame that decodes re-encodes to bytes that decode to the same frame.',
  ['inputs'], 'All byte sequences: every truncation of valid frames, random mutations, and random bytes under every header.',
  'The tests decode only one well-formed frame; the claim is about all malformed inputs a peer can send.',
  [FR+'frame_header.go', FR+'setup.go', FR+'request_payload.go', FR+'payload.go', FR+'error.go', FR+'request_n.go', FR+'util.go'],
  [('length checks of each Decode', FR), ('metadata splitting', FR+'util.go')])
p('P03', 'Fragmenting a frame loses nothing and respects the maximum frame size',
  'A request or payload larger than the maximum frame size is split so that concatenating the fragments\' metadata and data in order gives back exactly the original metadata and data, with all metadata before any data. Every fragment fits into the maximum frame size, all but the last are marked as followed by more and only the last carries the completion of the original, and the first fragment of a request keeps its type, stream and initial demand. A frame that fits is not split.',
  ['inputs'], 'All metadata and data lengths (in particular around multiples of the fragment size), all maximum frame sizes that leave room for the headers and one byte, all frame types that can be fragmented and all flags.',
  'Two tests use one pair of lengths and one frame size; the off-by-one cases lie at every boundary of lengths against frame size.',
  [FR+'request_payload.go', FR+'payload.go', FR+'util.go'],
  [('Fragment', FR+'request_payload.go'), ('splitPayloads', FR+'util.go')])
RS = 'transport/rsocket/'
p('P04', 'Frames are read from a byte stream intact, however it is chunked',
  'Reading frames from a connection yields exactly the frames that were written, in order and byte for byte, for every way the transport splits or merges the bytes, including a last frame that arrives together with the end of the stream. A stream that ends inside a frame yields the complete frames and then an error, never a partial frame. A frame that was handed out keeps its content while later frames are read.',
  ['inputs', 'schedules'], 'All sequences of frame lengths (a bare header up to the 24-bit maximum), all chunkings of the byte stream and all positions at which it ends.',
  'No test reads from a chunked or truncated stream; the failure needs a chunk boundary inside a length prefix, at a buffer edge, or reuse of the read buffer.',
  [RS+'decoder.go', RS+'tcp_conn.go', 'internal/u24/u24.go'],
  [('length-prefix splitter over a buffered reader', RS+'decoder.go'), ('24-bit lengths', 'internal/u24/u24.go')],
  observe=['bytes returned by the connection reader'])
p('P05', 'Frames of concurrent senders reach the wire whole',
  'When several requests write to one connection at the same time, the bytes on the wire are a sequence of complete length-prefixed frames: each frame appears exactly once, unmodified and uninterrupted by another, the frames of one sender keep their order, and there are no data races. A frame that is sent with a flush reaches the wire without waiting for another. A frame too large for the length prefix is refused with an error and leaves the connection usable.',
  ['schedules', 'inputs'], 'All interleavings of any number of senders on one connection, with frames of all sizes and with slow or partial writes underneath.',
  'Nothing in the suite sends concurrently; a torn frame needs two senders inside the write path at once.',
  [RS+'transport.go', RS+'tcp_conn.go'],
  [('send lock', RS+'transport.go'), ('length prefix and write', RS+'tcp_conn.go')], observe=['bytes received by the peer of the connection'])
p('P06', 'The unbounded queue delivers every element once and in order',
  'Every value put into the unbounded queue is received exactly once, values of one producer in the order they were put, for any interleaving of producers, the consumer and its acknowledgements, without blocking a producer and without data races. After disposal further values are refused, those accepted before are still delivered and then the channel is closed; disposing again is harmless.',
  ['schedules', 'histories'], 'All interleavings of any number of producers with one consumer, and of disposal with both.',
  'The existing test drives one fixed producer/consumer pattern; losses and reordering depend on the interleaving of put and load at the moment the backlog empties.',
  ['internal/buffer/unbounded.go'],
  [('backlog under a mutex plus a one-slot channel', 'internal/buffer/unbounded.go')])
p('P07', 'Stream IDs are unique, non-zero and carry the parity of their side',
  'The stream IDs a connection hands out are distinct over every window shorter than the whole ID space, fit into 31 bits, are never zero, and are odd on the client and even on the server, also after the counter wraps around. Client and server IDs never collide. This holds for concurrent callers, without data races, and a caller is told truthfully whether the space is used for the first time.',
  ['schedules', 'histories'], 'All counter positions including the wrap-around, and all interleavings of concurrent callers.',
  'The tests draw a few IDs from a fresh counter; the wrap-around lies 2^30 draws away and duplicates need concurrent callers.',
  ['internal/socket/stream_id.go', 'handler/handler.go'],
  [('atomic counters masked to 31 bits', 'internal/socket/stream_id.go')])
p('P08', 'The registry of active streams behaves like a map under concurrency',
  'Concurrent registrations, look-ups and removals of streams behave as if executed one at a time on a map from stream ID to stream: a registered stream is found until it is removed, a removed one never again, and other streams are unaffected. Removing all returns each registered stream exactly once. There are no data races.',
  ['schedules', 'histories'], 'All interleavings of registrations, look-ups and removals with any IDs, any number of active streams (few and many), in any order of removal.',
  'No test touches the registry; it changes representation with size and misbehaves only for particular removal orders or interleavings.',
  ['proxy/lookup.go'],
  [('slice/map registry under a lock', 'proxy/lookup.go')])
H = 'handler/handler.go'
T = [RS+'transport.go', RS+'tcp_transport.go', H, 'handler/caller.go', 'proxy/mono.go', 'proxy/flux.go', 'proxy/responder.go']
p('P09', 'Each request gets exactly one reply: its own',
  'Every request/response call ends exactly once, with the reply or error that the remote handler produced for exactly that request (payload and metadata unchanged, error text preserved), however many calls run at once, in whichever order replies are produced, and in both directions of a connection. A request for an operation that is not registered, or with malformed routing metadata, ends with an error at the caller and no handler runs. A handler runs at most once per request, with the payload the caller sent, and there are no data races.',
  ['schedules', 'inputs', 'histories'], 'All payloads that fit a frame, all numbers of concurrent calls, all orders and delays of replies, all mixes of results, errors and unknown operations.',
  'The test suite makes no call over a connection; mix-ups between streams need many calls in flight with replies out of order.',
  T, [('stream registry and per-stream dispatch', H), ('promise per call', 'proxy/mono.go')], observe=['caller callbacks', 'handler invocations'])
p('P10', 'A streamed response arrives complete, in order and ends once',
  'The elements of a request/stream call reach the caller in the order the handler emitted them, each exactly once and unmodified, followed by exactly one completion or error (with its text) and nothing after that, for any number of concurrent streams. An error ends the stream after all elements emitted before it.',
  ['schedules', 'inputs', 'histories'], 'All stream lengths including empty, all payloads that fit a frame, endings by completion or error, all numbers of concurrent streams and patterns of demand.',
  'No test streams over a connection; loss, duplication or a second terminal signal depend on timing between emission, demand and termination.',
  T + ['rx/flux/flux.go'], [('stream dispatch', H), ('demand-driven emission', 'rx/flux/flux.go')], observe=['caller callbacks'])
p('P11', 'A stream never exceeds the requested demand and never stalls below it',
  'At every moment the number of elements a handler has been asked for and a caller has received is at most the demand the caller has requested so far, in total across the wire, for streams and for both directions of channels. As long as demand is outstanding and the producer has elements, they are delivered, and an exhausted producer completes, whatever sizes and timing the demand arrives in.',
  ['schedules', 'inputs', 'histories'], 'All sequences of demand (single, batched, unbounded, overflowing), all timings of it relative to emission and stream set-up.',
  'The suite has no test of demand; over-delivery or a stall depends on demand arriving during set-up or emission.',
  ['rx/flux/flux.go', 'rx/flux/flux_host.go', 'proxy/flux.go', 'proxy/flux_host.go', 'proxy/responder.go', H],
  [('outstanding-demand counter', 'rx/flux/flux.go'), ('request-n frames', 'proxy/flux.go')], observe=['request-n and payload frames on the wire', 'caller callbacks'])
p('P12', 'Both directions of a channel are delivered and closed independently',
  'In a request/channel call every element of the caller\'s input reaches the handler and every element the handler emits reaches the caller, in order, exactly once and unmodified. Each direction ends exactly once with its own completion or error, and one direction completing leaves the other usable until it ends too. Once both have ended the stream is forgotten on both sides.',
  ['schedules', 'inputs', 'histories'], 'All lengths and interleavings of the two directions, all orders in which they end, by completion, error or cancel.',
  'No test opens a channel over a connection; half-close bugs need one direction to end before the other.',
  T, [('per-direction end tracking', 'proxy/responder.go'), ('channel set-up', H)], observe=['callbacks of both directions', 'wire frames'])
p('P13', 'Fire-and-forget messages are handled exactly once and answered never',
  'Every fire-and-forget message sent over a live connection runs its handler exactly once with the payload sent, and produces no frame in reply, whatever the handler does, including returning an error. Messages for unknown operations are dropped and other calls on the connection are unaffected.',
  ['schedules', 'inputs', 'histories'], 'All payloads and numbers of concurrent messages mixed with other calls; handlers that succeed, fail or have no registration.',
  'No test sends fire-and-forget messages; loss or a stray reply only shows when watching the wire.',
  [H, 'handler/caller.go'], [('fire-and-forget dispatch', H)], observe=['handler invocations', 'wire frames'])
p('P14', 'Cancelling a stream stops it and nothing else',
  'After a caller cancels a stream the producer is told to stop and stops being asked for elements, the caller receives nothing further, and the stream is forgotten on both sides. Frames that arrive late for a cancelled or finished stream are ignored. Other streams of the connection, and later calls on it, proceed as if it had never existed.',
  ['schedules', 'histories'], 'All moments of cancellation: before the first demand, during emission, concurrently with completion or error, repeated.',
  'No test cancels anything; the defects live in the race between cancel and emission or completion.',
  T + ['rx/flux/flux.go'], [('cancel frames and removal', H), ('subscription cancel', 'rx/flux/flux.go')], observe=['producer hooks', 'caller callbacks', 'wire frames'])
p('P15', 'A hostile peer cannot bring down the process or other connections',
  'Whatever frames a connected peer sends - malformed, truncated, for unknown or already used streams, with unknown types, hostile metadata or absurd demand - the receiving process neither crashes nor hangs, its other connections keep working, and new connections are accepted. A frame that cannot be decoded closes at most its own connection.',
  ['inputs', 'fault_sequences'], 'All sequences of frames and raw bytes a peer can send before and after set-up, on servers and on clients.',
  'No test sends a malformed frame to a live endpoint.',
  [RS+'transport.go', RS+'tcp_transport.go', RS+'tcp_conn.go', H, FR],
  [('decode errors end the read loop', RS+'transport.go'), ('unknown streams ignored', H)], observe=['process exit', 'replies on other connections'])
p('P16', 'Losing or closing a connection ends its requests and releases it',
  'When a connection is lost or closed, every request pending on it ends exactly once with an error, the handlers\' pending streams are cancelled, and later requests fail promptly instead of hanging. Its goroutines and file descriptors are released. Closing a server or cancelling its context stops accepting connections and ends the ones it has.',
  ['crash_points', 'fault_sequences', 'schedules'], 'All points at which either side can drop or close the connection (before set-up, mid-frame, with calls of every kind in flight), repeated many times.',
  'No test closes a connection with calls pending; leaks and hangs need a fault at a particular point.',
  [RS+'transport.go', RS+'tcp_transport.go', RS+'tcp_conn.go', H, 'proxy/lookup.go'],
  [('connection end closes the handler', RS+'transport.go'), ('closing all streams', H)], observe=['caller callbacks', 'goroutine and descriptor counts'])
p('P17', 'The RPC stack is free of data races under mixed concurrent load',
  'Any mix of concurrent calls of all interaction models in both directions over one or several connections, with cancellations, errors and connections opening and closing meanwhile, executes without data races and without panics. Everything the callers observed is consistent with each call\'s own outcome.',
  ['schedules', 'histories'], 'All interleavings of concurrent calls, cancellations and shutdowns on shared connections.',
  'The tests are single-threaded and are not run under a race detector.',
  T + ['rx/flux/flux.go', 'rx/mono/mono.go'], [('locks of handler, proxies and reactive types', H)], observe=['race detector reports', 'call outcomes'])
p('P18', 'A mono or flux signals one terminal outcome and nothing after it',
  'A subscriber of a mono sees exactly one of success or error, and a subscriber of a flux sees its elements followed by at most one completion or error and nothing after it, whatever the source signals and however signals, demand and cancellation race; transforms and processors keep this contract and pass on errors. Every registered final notification is delivered exactly once, also when the outcome was known before it was registered. Data races do not occur.',
  ['schedules', 'inputs', 'histories'], 'All sequences of source signals (including repeated terminals and elements after them), all combinators, all orders of subscription and completion, all interleavings.',
  'No test exercises the reactive types; double terminals need misbehaving or racing sources.',
  ['rx/mono/mono.go', 'rx/mono/processor.go', 'rx/flux/flux.go', 'rx/flux/processor.go', 'rx/rx.go', 'rx/flux/slice.go'],
  [('terminal state of a subscription', 'rx/flux/flux.go'), ('resolution of a mono', 'rx/mono/mono.go')], observe=['subscriber callbacks'])
p('P19', 'Blocking on a mono or flux returns its outcome',
  'Blocking on a mono returns the value it succeeds with or the error it fails with, and blocking on a flux returns all its elements in order or the error that ended it, whether the outcome is available before, during or after the call, and whichever goroutine produces it. The source runs once per block and no data races occur.',
  ['schedules', 'inputs'], 'All timings of the outcome relative to the call, immediate and asynchronous sources, mapped and processed ones, any element count.',
  'No test blocks on anything; missed wake-ups depend on timing.',
  ['rx/mono/mono.go', 'rx/mono/mono_host.go', 'rx/mono/processor.go', 'rx/flux/flux.go', 'rx/flux/flux_host.go', 'rx/flux/processor.go'],
  [('channel hand-over from callbacks to the blocked caller', 'rx/mono/mono_host.go')])
p('P20', 'A flux asks its source for exactly the requested demand',
  'The demand a flux forwards to its source equals what its subscribers requested, neither more nor less, through transforms and across nested demand from inside callbacks, and a cancelled or terminated flux asks for nothing more. Cancelling reaches the source exactly once. A source that answers demand element by element sees all of its elements delivered.',
  ['schedules', 'inputs', 'histories'], 'All sequences and nestings of demand and cancel, all transforms, all interleavings with emission.',
  'No test counts demand; errors need nested or concurrent requests.',
  ['rx/flux/flux.go', 'rx/flux/flux_host.go', 'rx/flux/slice.go'],
  [('forwarding of demand and cancel', 'rx/flux/flux.go')], observe=['source request hooks', 'subscriber callbacks'])
p('P21', 'The steps of a flow run once each, in order, after what they await',
  'A flow runs its steps in the order they were declared, each exactly once, and a step that awaits monos or fluxes runs only after all of them have completed, whatever order and goroutine they complete in. A failing step ends the flow with that error without running later steps, and a success, completion, error or end from a step ends it with that outcome. The flow yields at most one outcome, and there are no data races.',
  ['schedules', 'programs', 'histories'], 'All step programs (plain, awaiting one or several, already completed or not), all completion orders and interleavings, errors at every step.',
  'No test runs a flow; skipped or repeated steps depend on the order in which awaited values complete.',
  ['rx/flow/flow.go', 'rx/await/await.go', 'rx/mono/mono.go', 'rx/flux/flux.go'],
  [('step queue and awaited-group counter', 'rx/flow/flow.go')])
M = 'msgpack/'
p('P22', 'Serialized values are read back unchanged and sized exactly',
  'Every value the serializer accepts is read back equal through the matching read operation, and dynamically typed values (nested maps, lists, numbers, strings, binaries, booleans, nil, times) read back equal through the dynamic reader; nullable values keep their nil-ness. The sizer predicts exactly the number of bytes the encoder writes for the same sequence of writes. The bytes are valid MessagePack, so an independent reader sees the same values, and values are read the same in whichever valid width another encoder wrote them. Values that are not supported are reported as errors. Bytes that were produced stay as they are, whatever is serialized later or at the same time.',
  ['inputs', 'programs'], 'All values of every supported type, in particular the boundary of every encoding width, all nestings, and all sequences of writes.',
  'The tests check a few values per type; each width boundary and each sizer branch is a separate off-by-one opportunity.',
  [M+'encoder.go', M+'sizer.go', M+'decoder.go', M+'codec.go', M+'data_reader.go', M+'format.go', M+'utils.go'],
  [('format selection by value', M+'encoder.go'), ('same selection in the sizer', M+'sizer.go')])
p('P23', 'Decoding arbitrary bytes never panics, overreads or over-allocates',
  'For any byte sequence and any sequence of read operations the deserializer returns values or errors: it never panics or hangs, never returns data from outside the input, and its memory use is bounded by a multiple of the input, whatever lengths the input declares. Once the input is exhausted or malformed the error is reported.',
  ['inputs', 'programs'], 'All byte sequences (truncations and mutations of valid encodings, hostile declared lengths, deep nesting) and all sequences of read operations.',
  'The tests decode well-formed input only.',
  [M+'decoder.go', M+'data_reader.go', M+'codec.go', M+'unsafe.go'],
  [('bounds checks of the reader', M+'data_reader.go'), ('container limits', M+'decoder.go')])
p('P24', 'Skipping a value consumes exactly that value',
  'For every encoded value, skipping it advances past exactly the bytes that reading it consumes, so whatever follows is read correctly, for every type, width, nesting and for extension types. Skipping malformed or truncated input reports an error.',
  ['inputs'], 'All encodable values and all valid encodings a foreign encoder may choose, followed by arbitrary further values.',
  'The tests do not skip; one wrong length for one format byte desynchronises everything after it.',
  [M+'decoder.go'], [('per-format lengths of Skip', M+'decoder.go')])
p('P25', 'Typed payload transforms are inverses of each other and report errors',
  'Encoding a typed value as payload and decoding it with the transform of the same type yields the value, for every supported type including nullable and list forms, and decoding a payload of a different or damaged shape yields an error, never a panic or a wrong value silently truncated. A value that cannot be encoded yields an error, not a payload. Conversions between a type and a named type of the same kind preserve the value, nil-ness and errors. Results stay as they are, whatever is converted later or at the same time.',
  ['inputs'], 'All values of all supported types, all damaged payloads, all values, nil and errors given to a conversion.',
  'No test uses the transforms.',
  ['transform/transform.go', M+'convert/convert.go', M+'codec.go', 'payload/payload.go'],
  [('encode/decode pair per type', 'transform/transform.go'), ('conversion to named types', M+'convert/convert.go')])
p('P26', 'Operation tables survive the wire and imports resolve to the right operation',
  'An operation table encoded by one side is decoded to the same operations (index, kind, direction, namespace, name) by the other, and arbitrary bytes decode to a table or an error without a panic or unbounded allocation. Imports resolve by kind, namespace and name to exactly the peer\'s operation, and an import the peer does not offer fails with an error instead of calling something else.',
  ['inputs', 'programs'], 'All tables within the limits of the format, all byte sequences, all sets of imports and exports.',
  'No test covers the table format or import resolution.',
  ['operations/operatons.go', 'invoke/handlers.go', H, 'handler/caller.go'],
  [('table encoding', 'operations/operatons.go'), ('import resolution', H)])
p('P27', 'Each registered operation keeps its own index and handler',
  'Each registered operation appears in the exported table under its kind, namespace and name with the index that leads to exactly its handler for that kind, whatever else is registered, and indices nobody registered lead to no handler. Declaring an import yields its index in the table of imports: distinct imports of a kind get distinct indices, and one declared twice gets the same index. Port messages decode to what was encoded, and truncated ones to an error.',
  ['programs', 'inputs'], 'All sequences of registrations of imports and exports of all kinds, with colliding and similar names; all port messages and byte sequences.',
  'No test registers more than one operation.',
  ['invoke/handlers.go', 'invoke/portio.go', 'invoke/caller.go'],
  [('registration tables', 'invoke/handlers.go'), ('port message encoding', 'invoke/portio.go')])
p('P28', 'Instance handles resolve to their instance and to nothing else',
  'A handle obtained for an instance resolves to that instance until it is removed, distinct instances have distinct handles, and a handle that was removed, or that the table never gave out, resolves to nothing and never to another instance. Removing one leaves the others.',
  ['histories', 'inputs'], 'All sequences of additions, look-ups and removals, and all forged handle values.',
  'No test uses instance handles.',
  ['invoke/instances.go'], [('handle table', 'invoke/instances.go')])
p('P29', 'UUIDs round-trip, are valid version 4, and are unique under concurrency',
  'Every UUID formats and parses back to itself in every supported form (text, URN, braces, raw hex, binary, JSON), and text that is not a UUID is refused with an error. Generated random UUIDs carry version 4 and the RFC 4122 variant, all other bits come from the random source, and concurrent generation with or without the random pool yields no duplicates and no data races. Time and clock-sequence fields are extracted as RFC 4122 defines.',
  ['inputs', 'schedules'], 'All 128-bit values, all texts near a UUID, all interleavings of generation with pool switching.',
  'The UUID package has no tests here.',
  ['types/uuid/uuid.go', 'types/uuid/version4.go', 'types/uuid/marshal.go', 'types/uuid/time.go', 'types/uuid/util.go'],
  [('hex codec', 'types/uuid/uuid.go'), ('pooled random source', 'types/uuid/version4.go')])
p('P30', 'Custom sections of a module are found whatever surrounds them',
  'Reading the named custom sections of a WebAssembly module yields the exact content of each, regardless of their position, their size (also empty), repeated names, other sections around them and how the LEB128 lengths are written. Truncated or malformed modules, and absurd declared sizes, give an error without a panic or unbounded allocation.',
  ['inputs'], 'All modules: any order and sizes of sections, any section names; all truncations and mutations.',
  'No test reads custom sections.',
  ['transport/wasmrs/customsections/customsections.go'], [('section walker', 'transport/wasmrs/customsections/customsections.go')])
HO = 'transport/wasmrs/host/'
p('P31', 'A wasm guest cannot crash or hang its host, and closing it ends its requests',
  'Requests from the host to a wasm guest are delivered in order through the guest buffers and every one ends exactly once with the guest\'s reply, also when guest and host call each other at the same time. Whatever a guest does - truncated or malformed frames, bad buffer pointers, unknown streams, hostile operation indices, traps - the host process neither crashes nor hangs, and a trap or close ends every pending request with an error. A request that the guest makes on behalf of an active request of its host is handled in the context of that one, and never in that of another. Closing waits for the requests of the guest that are still being handled; later requests fail promptly, closing repeatedly is harmless, and there are no data races.',
  ['schedules', 'inputs', 'fault_sequences'], 'All guest behaviours, all interleavings of host requests, guest calls, traps and close.',
  'The tests need compiled guests and drive one well-behaved exchange.',
  [HO+'instance.go', HO+'host.go', HO+'caller.go', H, 'proxy/responder.go'],
  [('serialised access to the guest', HO+'instance.go'), ('bounds checks on guest memory', HO+'instance.go')], observe=['caller callbacks', 'frames offered to the guest'])
G = 'transport/wasmrs/guest/'
p('P32', 'The wasm guest runtime answers every request of its host once',
  'Inside a guest, every request frame the host delivers runs the registered handler once and is answered with exactly its result, elements or error, in order and within the demand of the host; requests the guest makes get exactly their own reply. Several frames in one buffer are handled one by one, frames for finished or unknown streams are ignored, and malformed ones do not stop later ones. A reply that does not fit the buffer ends its request with an error instead of corrupting the buffer.',
  ['inputs', 'programs', 'histories'], 'All sequences of host frames (well formed and hostile), all handlers, all payload sizes up to and above the buffer size.',
  'The guest code only builds for wasm and no test runs it.',
  [G+'guest.go', G+'caller.go', 'proxy/mono.go', 'proxy/flux.go', 'proxy/responder.go'],
  [('frame loop over the guest buffer', G+'guest.go')], observe=['frames the guest sends', 'handler invocations'])
p('P33', 'Linked modules call each other by name, before and after reloading',
  'In a mesh every import of a module is connected to the export with the same kind, namespace and name, whatever order modules are loaded in, and calls reach that module with payload and result unchanged, for all interaction kinds. Calling an operation nobody exports gives an error, and after a module is replaced, calls reach the replacement. Concurrent loads and calls are free of data races.',
  ['programs', 'schedules', 'histories'], 'All sets of modules with imports and exports, all load and reload orders, concurrent calls.',
  'No test links modules.',
  ['transport/wasmrs/mesh/mesh.go'], [('pending links by name', 'transport/wasmrs/mesh/mesh.go')], observe=['calls arriving at the destination module'])
p('P34', 'Converting between flux, mono and void keeps the outcome',
  'The mono of a flux ends exactly once, with the first element of the flux, with its error if it fails before one, or with an error if it completes without any. The void of a flux succeeds exactly when the flux completes and fails with its error. The flux of a mono gives the value and completes, or fails with the error of the mono. This holds for any chain of conversions and transforms, whether the source signals at once, later, from other goroutines or from the far end of a connection, and for subscribers, Block, Get and notifications alike.',
  ['programs', 'schedules'], 'All chains of conversions over all sources, all interleavings of signals, subscription and cancellation.',
  'No test uses the conversions.',
  ['transform/transform.go', 'rx/flux/flux.go', 'rx/mono/mono.go'], [('conversions', 'transform/transform.go')], observe=['signals of subscribers and notifications'])
p('P35', 'Peers with another implementation of the protocol get along with this one',
  'A client or server that implements the protocol on its own, and uses whatever encoding and order it allows (an element together with the completion of its stream, metadata present, empty or left out, channels requested as already complete, demand in any portions, IDs with gaps, any fields in the setup, operation tables in any order and with any indices), gets for every request exactly what the handler produced, and what it emits reaches the other end unchanged: every element once and in order within the demand, then the one end. Everything it is sent can be read by the rules of the protocol alone.',
  ['inputs', 'schedules', 'histories'], 'All exchanges of requests of all kinds in both directions with a conforming peer, all its encoding choices and packet boundaries.',
  'The tests never connect anything but the library to itself.',
  [H, 'proxy/responder.go', 'proxy/flux.go', 'proxy/mono.go', 'transport/rsocket/tcp_transport.go', 'internal/frames/payload.go', 'internal/frames/request_payload.go', 'internal/frames/setup.go', 'operations/operatons.go'],
  [('dispatch of frames', H)], observe=['frames on the wire', 'signals of subscribers'])
p('P36', 'What is called through components and generated code is what their handlers do',
  'A call through a generated client reaches the registered service of that name with exactly the arguments given, and its result or error comes back, for requests, streams and channels, between any two ends. A component computes its outputs from its inputs as documented: the word frequencies count every word that is not ignored, once and whatever its case, highest first, concat joins both strings with a space, the greeter greets the name. Each output ends exactly once: with its value, or with an error if the input fails or ends without one, and components compose in process and over connections. The records they exchange are read as they were written, in any form another writer may use, and never half read.',
  ['inputs', 'schedules', 'programs'], 'All inputs, input endings, transports and compositions, any number of calls at a time.',
  'The suite does not run the components or the generated code.',
  ['transport/wasmrs/example/wordfrequency/wordfrequency.go', 'transport/wasmrs/example/wordfrequency/generated.go', 'transport/wasmrs/example/concat/concat.go', 'transport/wasmrs/example/concat/generated.go', 'transport/wasmrs/example/greeter/greeter.go', 'transport/wasmrs/example/greeter/generated.go', 'transport/wasmrs/mesh/modules/customer/export.go', 'transport/wasmrs/mesh/modules/customer/types.go', 'example/greeter/greeter.go', 'invoke/handlers.go', 'transform/transform.go'],
  [('ports of channels', 'transport/wasmrs/example/wordfrequency/generated.go')], observe=['signals of outputs', 'arguments of services'])
p('P37', 'The command line tools do to modules and data what the library does',
  '`wasmrs invoke` prints, as one JSON value and nothing else, exactly what the operation replies to the MsgPack form of its JSON input, whatever the order in which the modules are given; if anything fails it prints nothing, reports the error and exits with a failure, and never hangs. `wasmrs-ops` lists the operations of a module in order and records them in the module once, leaving what the module does and its other sections unchanged, and leaves a complete or an unreadable module as it is. The example programs answer, count and greet as documented and end when their peer does.',
  ['inputs', 'programs'], 'All JSON inputs and MsgPack replies, module graphs, defective modules and inputs.',
  'No test runs the programs.',
  ['transport/wasmrs/cmd/wasmrs/commands/invoke.go', 'transport/wasmrs/cmd/wasmrs/main.go', 'transport/wasmrs/cmd/wasmrs-ops/main.go', 'transport/wasmrs/cmd/wordfrequncy/main.go', 'transport/wasmrs/cmd/flow/main.go', 'example/greeter/server/main.go', 'example/greeter/client/main.go', 'transport/wasmrs/mesh/mesh.go'],
  [('MsgPack to JSON', 'transport/wasmrs/cmd/wasmrs/commands/invoke.go')], observe=['output and exit status', 'the module file'])

p('P38', 'Guests and hosts built from this code do for each other what direct calls do',
  'A guest that is a program built with the guest runtime, behind the host, alone or linked to others by a mesh, does for its callers what its operations do when they are called directly: the same values, errors, metadata and order, streams no further ahead than asked for, cancellation that reaches the producer, fire-and-forget once per call; for calls from host to guest, guest to host and guest to guest, nested and in any number at once. A host serves the imports of its guests from what its process registers. When a guest dies, calls that await it end with an error and others are unaffected. The guest and host programs of the repository do for each other what they document.',
  ['inputs', 'schedules', 'programs', 'fault_sequences'], 'All operations of guests, call graphs between host and guests, numbers of calls at once, demands and cancellations, deaths of guests.',
  'Tests have no guest: the runtime of guests is compiled for WebAssembly only, and no test compiles it.',
  ['transport/wasmrs/guest/guest.go', 'transport/wasmrs/guest/caller.go', 'transport/wasmrs/host/instance.go', 'transport/wasmrs/host/host.go', 'transport/wasmrs/mesh/mesh.go', 'transport/wasmrs/mesh/modules', 'transport/wasmrs/cmd/guest/main.go', 'transport/wasmrs/cmd/host/main.go', 'transport/wasmrs/cmd/fbp'],
  [('guest to host and back', 'transport/wasmrs/guest/guest.go'), ('links', 'transport/wasmrs/mesh/mesh.go')], observe=['results of calls on either side', 'what guests write', 'output of host programs'])

p('P39', 'A host runs any number of modules and instances, each on its own',
  'A host compiles any number of modules and starts any number of instances of each, at any time and from any goroutine. Every call reaches the instance it is made of, with the memory and the operations of that instance alone, and what an instance calls is handled by what is set for that instance. An instance that traps, is closed, or fails to start - as a broken module does, with an error - leaves the others and the host as they were.',
  ['histories', 'schedules', 'programs', 'fault_sequences'], 'All histories of compiling, starting, calling, trapping and closing modules and instances on one host, from any number of goroutines.',
  'Tests start no instance of a host.',
  ['transport/wasmrs/host/host.go', 'transport/wasmrs/host/instance.go', 'transport/wasmrs/host/caller.go'],
  [('names of instances', 'transport/wasmrs/host/host.go'), ('which instance a guest calls from', 'transport/wasmrs/host/host.go')], observe=['replies, which carry the marks of the instances passed', 'counters in the memory of guests'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
