"""Source of properties.jsonl and MANIFEST.json (run to regenerate both)."""

import json
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]
PROPS = []


def prop(ident, title, statement, over, text, why, files, mech, observe,
         state=None, technique="", note="", hook=None):
    assert len(title) <= 80, (ident, len(title))
    PROPS.append(
        {
            "id": ident,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [f"runtimepy/{x}" for x in files],
                "mechanism": [
                    {"name": n, "where": f"runtimepy/{w}"} for n, w in mech
                ],
                "state": [
                    {"name": n, "meaning": m, "where": f"runtimepy/{w}"}
                    for n, m, w in (state or [])
                ],
                "observe_at": observe,
                "hook_needed": hook,
            },
            "_technique": technique,
            "_note": note,
        }
    )

prop(
    "C01",
    "Scalar and string values survive every binary encoding exactly",
    "For every scalar type and every value it can hold, encoding to bytes or "
    "to a stream in any byte order yields exactly the standard fixed-width "
    "representation, and decoding those bytes (from a buffer or a stream, "
    "into a new or an existing object) restores the same value and consumes "
    "exactly that many bytes. Length-prefixed strings round-trip every text "
    "the same way, with the reported size equal to the bytes written.",
    ["inputs", "programs"],
    "all scalar kinds x byte orders x representable values (including "
    "extremes, signed zero, NaN, infinities, subnormals), all unicode "
    "strings, all sequences of mixed reads and writes on one stream",
    "Tests encode a couple of values in the default order; widths, "
    "signedness and byte-order defects only show at boundary values or with "
    "non-default orders on back-to-back stream reads.",
    ["primitives/base.py", "primitives/types/base.py",
     "primitives/types/int.py", "primitives/types/float.py",
     "primitives/string.py", "primitives/byte_order.py"],
    [("encode/decode via fixed struct formats", "primitives/types/base.py"),
     ("per-call byte order override", "primitives/base.py"),
     ("length prefix then text", "primitives/string.py")],
    ["bytes/stream contents and values returned by the public primitive API"],
    technique="reference-model monitor over randomized encode/decode programs",
    note="Held on the generated values and stream programs; the oracle is an "
    "independent int.to_bytes/IEEE-754 encoder. Out-of-range values and "
    "half-precision overflow are out of scope.",
)

prop(
    "C02",
    "Change notifications fire exactly once per actual change, in order",
    "Whenever the stored value of an observable value changes, every "
    "registered listener is called exactly once, in registration order, with "
    "the previous and the new stored value; when an assignment leaves the "
    "stored value equal, no listener is called. One-shot listeners run for "
    "at most one change, removed listeners never run again, and every "
    "assignment records its timestamp (the given one, or the time source's "
    "current time) even when the value doesn't change.",
    ["programs", "histories", "inputs"],
    "all histories of assignments (direct, toggles, increments, scaled, "
    "binary updates, JSON) interleaved with registering and removing "
    "listeners, including from inside listeners",
    "Tests use one listener and one or two assignments; re-entrancy, "
    "narrowing assignments and removal during notification depend on the "
    "history.",
    ["primitives/base.py", "primitives/float.py", "primitives/bool.py",
     "primitives/int.py"],
    [("compare-then-notify on assignment", "primitives/base.py"),
     ("NaN suppression", "primitives/float.py")],
    ["listener invocations (old, new)", "last-updated timestamp and age"],
    state=[("callbacks", "registered listeners by identifier",
            "primitives/base.py")],
    technique="history monitor: listener log compared with a sequential model",
    note="Assumes listeners that don't raise. NaN is never delivered as a "
    "new value (documented behaviour).",
)

prop(
    "C03",
    "Scaled writes invert the scaling, round to nearest and saturate",
    "Reading a value in engineering units evaluates its scaling polynomial "
    "on the raw value; writing in engineering units stores the raw value "
    "that the linear scaling inverts to - for integers the nearest one, "
    "saturated at the type's minimum and maximum - so that an in-range write "
    "reads back within half a raw step. The same rule applies to finite "
    "numbers written through an environment, as text or by command, and such "
    "a write never exceeds or wraps around the raw range.",
    ["inputs", "configurations"],
    "all integer and floating-point kinds, scaling polynomials (linear with "
    "non-zero gain for writes) and finite target values including far "
    "outside the representable range",
    "Tests use one scaling and mid-range values; saturation, rounding and "
    "negative slopes only matter at other inputs.",
    ["primitives/scaling.py", "primitives/base.py",
     "primitives/types/bounds.py", "channel/environment/base.py"],
    [("polynomial apply / two-term invert", "primitives/scaling.py"),
     ("clamping to bounds", "primitives/types/bounds.py"),
     ("environment set in scaled units", "channel/environment/base.py")],
    ["raw and scaled value after each write"],
    technique="reference-model monitor with exact rational arithmetic",
    note="Oracle uses fractions; ties and float-precision boundaries accept "
    "either neighbour.",
)

prop(
    "C04",
    "Arrays and fragments lay members out contiguously and update only them",
    "An array of scalars encodes as the concatenation of its members in the "
    "array's byte order, its size is the sum of member sizes, and decoding "
    "restores every member and nothing else. A fragment covers exactly the "
    "members it was created for (by index or by byte range): reading it "
    "yields that slice of the whole encoding and writing it changes only "
    "those members. Arrays chained after one another encode in sequence.",
    ["inputs", "programs"],
    "all sequences of member kinds and repeat counts, fragment boundaries, "
    "byte orders, incremental growth and chains",
    "Tests build one small array; index/byte bookkeeping errors appear only "
    "with particular widths, repeats or overlapping fragments.",
    ["primitives/array/__init__.py", "channel/environment/array.py"],
    [("format string accumulation and byte/index maps",
      "primitives/array/__init__.py"),
     ("environment-driven array building", "channel/environment/array.py")],
    ["array bytes, member values, fragment bytes"],
    technique="reference-model monitor (independent layout computation)",
    note="Held on generated layouts.",
)

prop(
    "C05",
    "Chained serializable data encodes in order; copies are independent",
    "A chain of serializable elements writes its parts head to tail, its "
    "total length equals the bytes written, and reading that stream back "
    "restores every part including length-prefixed blobs. A copy of a chain "
    "(or of any element) has equal contents, and no later write to either "
    "one is visible in the other. Repeated samples captured for a datagram "
    "never exceed the configured size and decode to exactly the captured "
    "values, in order, none lost or repeated.",
    ["inputs", "programs"],
    "all chain shapes, prefix kinds, payloads, repeat counts, size limits "
    "and write/copy sequences",
    "Tests chain two fixed elements; aliasing between copies and capture "
    "boundary effects depend on sizes and order of operations.",
    ["primitives/serializable/base.py", "primitives/serializable/fixed.py",
     "primitives/serializable/prefixed.py",
     "primitives/serializable/framer.py", "primitives/array/__init__.py"],
    [("chain links and copying", "primitives/serializable/base.py"),
     ("length-prefixed chunk", "primitives/serializable/prefixed.py"),
     ("multi-sample framing", "primitives/serializable/framer.py")],
    ["stream bytes, lengths, decoded values"],
    technique="reference-model monitor over randomized chain programs",
    note="Held on generated chains.",
)

prop(
    "C06",
    "Bit fields are isolated: a write changes only that field's bits",
    "Within a group of bit fields, writing one field (by name, through its "
    "object, by flag set/clear/toggle or in raw or enum form) changes exactly "
    "the bits it was allocated and reads back the value written; fields "
    "never overlap each other or padding, and the raw word is the sum of all "
    "of them. Values that don't fit the field are refused or never disturb "
    "neighbouring bits, and saving and re-loading the definition reproduces "
    "names, positions, widths, descriptions, enum associations and field "
    "values (padding bits hold zero).",
    ["inputs", "programs", "configurations"],
    "all layouts (widths, explicit indices, padding, declaration order), all "
    "words and all write sequences",
    "Tests write a few fields in one layout; mask/shift defects show for "
    "particular widths, positions and neighbouring bit patterns.",
    ["primitives/field/__init__.py", "primitives/field/fields.py",
     "primitives/field/manager/__init__.py",
     "primitives/field/manager/base.py"],
    [("mask and shift", "primitives/field/__init__.py"),
     ("bit claiming", "primitives/field/fields.py"),
     ("name lookup across groups", "primitives/field/manager/base.py")],
    ["raw word and all field values after every write"],
    technique="reference-model monitor (bit-exact shadow word)",
    note="Held on generated layouts.",
)

prop(
    "C07",
    "Names and integer ids stay one-to-one in every registry and enum",
    "In every name registry, at all times, each name maps to exactly one "
    "integer and each integer to exactly one name, looking up either way "
    "agrees, and names keep registration order. A registration that would "
    "collide by name or by value, or that is malformed, is refused without "
    "changing anything; automatically assigned integers never collide with "
    "existing ones.",
    ["histories", "inputs"],
    "all sequences of registrations (automatic and explicit ids, duplicates, "
    "invalid names) on name registries, channel registries and integer and "
    "boolean enumerations, and their saved and re-loaded forms",
    "Tests register a few fresh names; mixes of automatic and explicit "
    "ids and failed registrations are histories they don't sample.",
    ["mapping.py", "registry/__init__.py", "registry/name.py",
     "registry/item.py", "registry/bool.py", "enum/__init__.py",
     "enum/registry.py"],
    [("two-way mapping with reverse table", "mapping.py"),
     ("identifier allocation", "registry/__init__.py"),
     ("enum member registration", "enum/__init__.py")],
    ["lookups by name and by id", "return values of registrations"],
    technique="invariant + reference-model monitor over registration histories",
    note="Held on generated histories.",
)

prop(
    "C08",
    "Protocol definitions copy and re-load without changing the wire format",
    "A message protocol encodes its declared parts (scalars, repeated "
    "scalars, bit fields, nested structures) in declaration order in its "
    "byte order, and its values are readable and writable by name. A copy "
    "has the same size, byte order, identifier and encoding for the same "
    "values, and so does a protocol re-built from its saved JSON (unless it "
    "has nested structures, which aren't saved). Values written to one "
    "instance never show up in another.",
    ["inputs", "programs", "configurations"],
    "all protocol shapes the builder accepts, all values, all copy/export "
    "sequences",
    "Tests round-trip one protocol; repeated fields, nested structures and "
    "enum-typed fields combine in ways they don't sample.",
    ["codec/protocol/base.py", "codec/protocol/json.py",
     "codec/protocol/__init__.py"],
    [("build list replay on copy", "codec/protocol/base.py"),
     ("JSON export/import", "codec/protocol/json.py")],
    ["encoded bytes, sizes, values by name"],
    technique="reference-model monitor over generated protocol definitions",
    note="Held on generated definitions.",
)

prop(
    "C09",
    "Custom types have consistent names, sizes and independent instances",
    "In a type system, a custom type's size is the sum of its declared "
    "members (including nested types, enums and bit fields), every declared "
    "type is found by its name - lookup within a namespace finds the type "
    "declared there; a lookup that allows part of a name finds the one type "
    "it stands for (the shortest of several), and is refused when that isn't "
    "clear - and each copy of a type's protocol is an independent "
    "instance that encodes members in declaration order. Declaring a type or "
    "enum name that already exists is refused and leaves the existing "
    "definition and the current namespace unchanged.",
    ["programs", "configurations"],
    "all declaration sequences of enums, bit fields, nested custom types and "
    "namespaces, byte orders, and instance programs",
    "Tests declare a handful of types; name resolution between namespaces "
    "and nesting order are combinatorial.",
    ["codec/system/__init__.py", "codec/protocol/base.py"],
    [("namespace-qualified lookup", "codec/system/__init__.py"),
     ("array and nested member resolution", "codec/system/__init__.py")],
    ["sizes, lookups, encoded bytes"],
    technique="reference-model monitor over generated type systems",
    note="Held on generated type systems.",
)

prop(
    "C10",
    "Channel reads and writes by name or id are typed and isolated",
    "In a channel environment, getting or setting a channel or bit field by "
    "name or by id addresses that item only: a set either stores the value "
    "(enum channels accept member names and read back as names) or raises "
    "and changes nothing. Reads, bulk value maps, name/id lookups and "
    "name searches agree with each other at all times, and a channel created "
    "under a namespace is found under its full name.",
    ["histories", "inputs", "configurations"],
    "all environments (types, enums, scaling, bit fields, namespaces) and "
    "all get/set/toggle/lookup histories including invalid ones",
    "Tests touch a fixed environment with valid values; wrong-type writes "
    "and cross-talk between similarly named items are not sampled.",
    ["channel/environment/base.py", "channel/environment/create.py",
     "channel/environment/__init__.py", "channel/registry.py",
     "channel/__init__.py", "mixins/environment.py"],
    [("typed set with enum resolution", "channel/environment/base.py"),
     ("channel creation and namespacing", "channel/environment/create.py")],
    ["values of all channels and fields after each operation"],
    technique="reference-model monitor over operation histories",
    note="Held on generated environments.",
)

prop(
    "C11",
    "Environments survive export and re-load unchanged",
    "Exporting a channel environment (in memory or to files) and loading it "
    "again yields the same channels and bit fields with the same names, ids, "
    "types, enum associations, descriptions, defaults, scaling, control and "
    "access attributes, and the same values for everything whose value was "
    "exported (NaN isn't, and channels whose scaling can't be inverted keep "
    "their defaults). Exporting the re-loaded environment gives the same "
    "result again.",
    ["inputs", "configurations"],
    "all environments buildable through the public API and all value "
    "assignments",
    "Tests load fixed files; attribute combinations are not sampled.",
    ["channel/environment/file.py", "channel/environment/base.py",
     "channel/registry.py", "channel/__init__.py", "enum/__init__.py",
     "primitives/field/manager/base.py", "registry/__init__.py"],
    [("per-registry JSON and value export", "channel/environment/file.py"),
     ("as-dict encodings", "channel/__init__.py")],
    ["exported documents, re-loaded environment queried via its API"],
    technique="metamorphic round-trip monitor over generated environments",
    note="Held on generated environments.",
)

prop(
    "C12",
    "Streamed channel events reproduce every change, however they're split",
    "While event streaming is active, every change of a streamed channel "
    "that isn't rate limited (changes to NaN aren't reported) is written exactly once, in order, with the "
    "channel's id, its update time and its encoded value, and nothing is "
    "written outside the streaming period or for channels not selected. A "
    "receiver fed the byte stream in chunks of any size recovers exactly "
    "those events in order, and after applying them its channels hold the "
    "sender's values.",
    ["histories", "inputs", "schedules"],
    "all change histories over all channel types, stream start/stop points, "
    "rate limits, and all ways of splitting the byte stream",
    "Tests parse whole streams; splits inside a header or between header "
    "and value and mixes of channels are not sampled.",
    ["channel/event/__init__.py", "channel/event/header.py",
     "channel/environment/telemetry.py", "channel/__init__.py"],
    [("change callback writes header and value",
      "channel/event/__init__.py"),
     ("incremental parsing", "channel/environment/telemetry.py")],
    ["bytes on the stream", "parsed events", "receiver's channel values"],
    technique="event-log monitor: recorded changes vs parsed stream",
    note="Held on generated histories and splits.",
)

prop(
    "C13",
    "Channel commands never raise and change state only when they succeed",
    "Any command line given to a channel command processor returns a success "
    "or failure result instead of raising. A successful set or toggle has "
    "exactly the requested effect on the named channel; a command that fails "
    "(unknown channel, bad value, malformed, or targeting a channel that "
    "isn't commandable without the force option) changes no channel and "
    "explains why. Registered hooks see each accepted command exactly once. "
    "The suggestion for a partial command names the shortest commandable "
    "channel that completes it.",
    ["inputs", "histories"],
    "all command strings, including hostile ones, over all environments",
    "Tests issue a few commands; arbitrary strings, enum and field targets "
    "and force combinations are not sampled.",
    ["channel/environment/command/__init__.py",
     "channel/environment/command/processor.py",
     "channel/environment/command/parser.py",
     "channel/environment/command/result.py"],
    [("parse, commandable check, execute",
      "channel/environment/command/processor.py")],
    ["command results, all channel values before and after"],
    technique="reference-model monitor with grammar-based command fuzzing",
    note="Held on generated command lines.",
)

prop(
    "C14",
    "Length-prefixed messages survive arbitrary fragmentation",
    "Messages framed with a length prefix arrive complete, unmodified, in "
    "order and exactly once no matter how the byte stream is cut into "
    "pieces, including empty messages, pieces that end inside the prefix and "
    "many messages in one piece. Bytes of an incomplete message are held "
    "until the rest arrives and are never delivered early.",
    ["inputs", "schedules"],
    "all message sequences and all segmentations, for the in-process "
    "processor and for stream connections (text, binary and JSON)",
    "Tests deliver whole messages or one fixed split.",
    ["message/__init__.py", "net/stream/base.py", "net/stream/__init__.py",
     "net/stream/string.py", "net/stream/json/__init__.py",
     "primitives/serializable/prefixed.py"],
    [("byte FIFO with pending message size", "message/__init__.py"),
     ("prefixed connection mixin", "net/stream/base.py")],
    ["messages handed to the application, per chunk"],
    technique="exactly-once/ordering monitor over randomized segmentations",
    note="Held on generated sequences.",
)

prop(
    "C15",
    "JSON requests get their own responses, under any concurrency",
    "Every JSON request awaited on a connection completes with the response "
    "that the peer produced for that very request, with any number of "
    "requests in flight, in both directions, with responses delayed, "
    "re-ordered or dropped. A missing response ends only that request with a "
    "timeout, handlers run exactly once per received message, and neither "
    "unknown keys, handler errors nor late or unsolicited responses disturb "
    "other requests.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of concurrent requests from both peers with delayed, "
    "re-ordered, duplicated and lost messages",
    "Tests send one request at a time from one side.",
    ["message/interface.py", "message/handlers.py", "message/types.py",
     "util.py", "net/stream/json/__init__.py", "net/udp/connection.py"],
    [("identifier echo", "message/interface.py"),
     ("waiting events by identifier", "message/interface.py"),
     ("handler dispatch", "message/handlers.py")],
    ["request/response pairs at the API boundary", "handler invocations"],
    state=[("ids_waiting", "requests in flight", "message/interface.py")],
    technique="history checker: unique tokens matched request to response "
    "under fault-injecting transports",
    note="Held on the schedules generated.",
)

prop(
    "C16",
    "HTTP messages are parsed identically under any segmentation",
    "An HTTP connection yields the same sequence of requests (or responses) "
    "- method, target, version, headers, body - however the bytes are split "
    "or pipelined, and a body is exactly as long as declared. Encoding a "
    "request or response and parsing it gives back the same parts. Servers "
    "answer every request once, in order, with a correct content length; a "
    "client's request gets its own response, also with concurrent or "
    "abandoned requests, and a request for JSON gives back the document that "
    "was served (and is refused for anything else).",
    ["inputs", "schedules"],
    "all well-formed request/response sequences with standard methods, "
    "statuses and content-length bodies (targets with queries and "
    "fragments, repeated and mixed-case headers, empty and binary bodies), "
    "all segmentations and all schedules of concurrent requests",
    "Tests issue whole requests over a socket.",
    ["net/http/state.py", "net/http/header.py", "net/http/request_target.py",
     "net/http/response.py", "net/http/common.py", "net/http/__init__.py",
     "net/http/version.py", "net/tcp/http/__init__.py"],
    [("incremental header scan", "net/http/state.py"),
     ("body accumulation and dispatch", "net/tcp/http/__init__.py")],
    ["parsed messages handed to handlers", "bytes written by the server"],
    technique="reference-model monitor with segmentation fuzzing",
    note="Held on generated messages; malformed traffic is only required "
    "not to corrupt other connections.",
)

prop(
    "C17",
    "The web server serves exactly the files and data it is configured to",
    "A GET of a path below a configured directory returns that "
    "file's exact bytes and type (first match wins; markdown sources are "
    "rendered), JSON paths return the "
    "addressed part of the live configuration or channel data, and POSTed "
    "channel commands have the same effect and result as local ones. "
    "Unknown paths are redirected to the not-found page (unknown "
    "JSON parts get an error that names them), no request reads a file outside "
    "the configured directories, and one request never affects the response "
    "to another.",
    ["inputs", "configurations"],
    "all request targets, including traversal and encoded forms, over all "
    "directory layouts and JSON shapes",
    "Tests fetch a few known paths.",
    ["net/server/__init__.py", "net/server/json.py", "net/server/html.py",
     "util.py"],
    [("search-path lookup", "net/server/__init__.py"),
     ("JSON path traversal", "net/server/json.py")],
    ["HTTP responses, channel values"],
    technique="reference-model monitor over live loopback requests",
    note="Held on generated requests; containment runs only against scratch "
    "trees with planted canary files.",
)

prop(
    "C18",
    "Connections deliver messages in order, and metrics add up",
    "Everything sent over a TCP connection reaches the peer's handler, in "
    "order and unmodified, and every WebSocket (or queue-based connection's) "
    "message is processed by the peer exactly once, with text messages in "
    "order and binary messages in order; this includes what a peer sent "
    "before it closed its end. Every received datagram is processed once "
    "with its true sender address, replies go to that address. Message and "
    "byte counters on each side equal what was actually sent (non-empty "
    "datagrams) and given to handlers, the metric channels show the same "
    "values, rates are consistent with them and a reset clears them.",
    ["schedules", "histories", "inputs"],
    "all send histories (text, binary, empty, large), both directions "
    "concurrently, all transports, slow readers",
    "Tests exchange a few messages one at a time.",
    ["net/connection.py", "net/tcp/connection.py", "net/tcp/protocol.py",
     "net/udp/connection.py", "net/udp/protocol.py", "net/udp/queue.py",
     "net/websocket/connection.py", "metrics/channel.py",
     "metrics/connection.py"],
    [("per-connection processing loop", "net/connection.py"),
     ("transport write and queueing", "net/tcp/connection.py")],
    ["messages at process callbacks", "metrics counters"],
    technique="ordering/exactly-once/conservation monitor over loopback "
    "traffic",
    note="Held on generated traffic over loopback.",
)

prop(
    "C19",
    "Connections end cleanly exactly once and wake every waiter",
    "A connection that's disabled, cancelled, closed by its peer or whose "
    "handler fails stops processing, runs its disabled hook exactly once per "
    "run, cancels the tasks it owns and leaves its enabled state false; "
    "initialization completes (successfully or not) exactly once and every "
    "waiter on it is released. When restart is allowed, a restarted "
    "connection processes messages again; otherwise it never does.",
    ["schedules", "fault_sequences", "histories"],
    "all points at which disable, cancel, stop-signal, peer close or handler "
    "failure may happen, on all connection kinds",
    "Tests stop connections at one quiet point.",
    ["net/connection.py", "net/backoff.py", "net/tcp/connection.py",
     "net/udp/connection.py", "net/websocket/connection.py"],
    [("process loop with cleanup", "net/connection.py"),
     ("disable and restart", "net/connection.py")],
    ["hook invocations, state transitions, live tasks"],
    technique="lifecycle trace monitor with fault injection at every await",
    note="Held on the injection points explored.",
)

prop(
    "C20",
    "The connection manager runs every connection and leaks none",
    "Every connection handed to a connection manager (unless it was disabled "
    "before) is initialized and processed, by one task at a time, until it "
    "ends; connections that ask for automatic restart are restarted until "
    "they or the manager stop, consecutive failed attempts being spaced by "
    "delays that double up to a maximum, and other connections never are. "
    "Neither failing hooks nor connections that can't be restarted affect "
    "the manager or other connections. When the stop signal is set the "
    "manager returns soon, and every connection it managed is disabled and "
    "no longer processing.",
    ["schedules", "fault_sequences", "histories"],
    "all arrival, failure, restart and stop orders of many connections",
    "Tests manage one or two well-behaved connections.",
    ["net/manager.py", "net/connection.py", "net/backoff.py"],
    [("queue servicing and task tracking", "net/manager.py"),
     ("restart with backoff", "net/backoff.py")],
    ["processing intervals per connection, manager return, task leaks"],
    technique="supervision trace monitor on logical time",
    note="Held on generated schedules.",
)

prop(
    "C21",
    "File transfers either deliver the exact file or report failure",
    "A TFTP read or write that reports success has produced a byte-identical "
    "file at the destination, for any file size (below 65536 blocks) and "
    "under any loss, duplication, delay or re-ordering of the transfer's "
    "packets; otherwise it reports failure, within a bounded time. With few "
    "losses and short delays it succeeds. A failed write leaves the server's "
    "file as it was; requests for missing files, paths outside of the root "
    "or paths that can't be opened are answered with an error, malformed "
    "messages never end the connection, and concurrent transfers don't "
    "affect each other.",
    ["fault_sequences", "inputs", "schedules"],
    "all file sizes (block boundaries included), all packet loss, "
    "duplication, re-ordering and delay patterns, concurrent transfers",
    "Tests transfer over a perfect loopback.",
    ["net/udp/tftp/__init__.py", "net/udp/tftp/base.py",
     "net/udp/tftp/endpoint.py", "net/udp/tftp/io.py",
     "net/udp/tftp/enums.py"],
    [("block/ack state and retransmission", "net/udp/tftp/endpoint.py"),
     ("client-side verification", "net/udp/tftp/__init__.py")],
    ["reported result, destination bytes, packets on the wire"],
    technique="end-to-end integrity monitor under a fault-injecting "
    "datagram layer on logical time",
    note="Held on the fault patterns generated.",
)

prop(
    "C22",
    "Applications run stage by stage and the outcome is reported truthfully",
    "An arbiter runs its configured initialization and application stages "
    "strictly in order, the applications of one stage concurrently, and "
    "starts a stage only after every application of the previous one "
    "succeeded; an application that raises ends its stage (the rest are "
    "cancelled and get to clean up). The overall result is success if and "
    "only if every application ran and succeeded, and each application's "
    "recorded result is its own. Applications only run once connections, "
    "servers, structures and tasks are ready, the stop signal or a failure "
    "before that ends the run, and however it ends, connections, servers "
    "and tasks are shut down and exit callbacks run before it does.",
    ["programs", "schedules", "fault_sequences"],
    "all stage shapes, all combinations of results and exceptions, stop "
    "signals at any time",
    "Tests run a couple of fixed stage lists.",
    ["net/arbiter/base.py", "net/arbiter/result.py", "net/arbiter/info.py"],
    [("stage loop and result collection", "net/arbiter/base.py"),
     ("exit-stack teardown", "net/arbiter/base.py")],
    ["application start/end events, results, return code, open resources"],
    technique="trace monitor over generated application stages",
    note="Held on generated stage programs.",
)

prop(
    "C23",
    "Arbiter configuration builds exactly what the files describe",
    "Loading configuration files into an arbiter creates exactly the named "
    "clients, servers, tasks, structures, processes and applications they "
    "describe, with each item's own arguments and configuration, later files "
    "merging into earlier ones the documented way. Declared ports resolve "
    "consistently everywhere they're referenced, and an item that names an "
    "unknown factory or duplicates a name is refused.",
    ["configurations", "inputs"],
    "all combinations of configuration documents and references between "
    "them",
    "Tests load fixed documents.",
    ["net/arbiter/config/__init__.py", "net/arbiter/config/util.py",
     "net/arbiter/config/codec.py", "net/arbiter/imports/__init__.py",
     "net/arbiter/imports/util.py", "net/arbiter/factory/connection.py",
     "net/arbiter/factory/task.py", "net/arbiter/base.py"],
    [("document merge and dispatch", "net/arbiter/config/__init__.py"),
     ("factory registration", "net/arbiter/factory/connection.py")],
    ["objects visible to an application, resolved ports, refusals"],
    technique="reference-model monitor over generated configurations",
    note="Held on generated documents.",
)

prop(
    "C24",
    "Periodic tasks dispatch one at a time and stop when told to",
    "A periodic task runs its iterations one at a time at its period (never "
    "faster than the period allows), and stops for good after an iteration "
    "reports failure, it is disabled, it is stopped or the stop signal is "
    "set - even when that happens during an iteration. While paused it runs "
    "no iterations and resumes afterwards, stopping waits until it ended, "
    "and the task's metrics count exactly the iterations run.",
    ["schedules", "histories"],
    "all interleavings of disable, stop, stop-signal, pause, re-period and "
    "restart with iterations of any duration and result",
    "Tests run one task and stop it between iterations.",
    ["task/basic/periodic.py", "task/basic/manager.py",
     "task/asynchronous.py", "metrics/task.py"],
    [("run loop with enabled flag", "task/basic/periodic.py"),
     ("manager start/stop", "task/basic/manager.py")],
    ["iteration start/end events, metrics, completion"],
    technique="trace monitor on logical time with injected control events",
    note="Held on generated schedules.",
)

prop(
    "C25",
    "Periodic struct telemetry is complete, ordered and fits the datagram",
    "Struct telemetry (a TimestampedStruct sent by a UdpStructTransceiver): "
    "each captured sample appears in exactly one datagram, in capture order, "
    "as exactly the values (bit fields included) captured, stamped with the "
    "sampling time and a sequence counter that advances by one per update "
    "(modulo 65536). A frame is sent exactly when it holds as many samples "
    "as fit the link's limit minus UDP overhead, or on a flush with samples "
    "pending; no datagram is larger than that. The receiver decodes every "
    "datagram that arrives to those samples in order, with their timestamps "
    "and source, whatever was dropped, duplicated or re-ordered before; a "
    "datagram that isn't a whole number of samples changes nothing and "
    "doesn't end the receiver. Serializable framers keep the same guarantee "
    "for any serializable, chains included.",
    ["inputs", "histories", "fault_sequences"],
    "all structure layouts, sampling rates, limits and loss patterns",
    "Tests send a few frames of one struct.",
    ["net/arbiter/struct/__init__.py", "net/arbiter/info.py",
     "primitives/serializable/framer.py", "telemetry/sample.py",
     "net/mtu.py", "struct/__init__.py"],
    [("timestamped structure and framer", "net/arbiter/struct/__init__.py")],
    ["decoded samples, datagram sizes, sequence numbers"],
    technique="event-log monitor: captured vs decoded samples",
    note="Held on generated histories.",
)

prop(
    "C26",
    "Subprocess output is delivered completely and the process is reaped",
    "For a managed subprocess, every byte it writes to standard output and "
    "error - from its first instant on - is delivered in order exactly once "
    "to the respective stream's queue (eventually followed by an empty "
    "message), independently of which queues were requested, and everything "
    "written to its input reaches it. Leaving the managed context - "
    "normally, by an exception or by cancellation - signals end-of-input, "
    "gives the process about two seconds to end itself, kills it otherwise, "
    "and always reaps it; exit status and run time are reported, and a "
    "program that can't be started raises an error.",
    ["schedules", "inputs", "fault_sequences"],
    "all output patterns, sizes, chunkings, exit times, exit codes and "
    "body failures",
    "Tests run one short-lived program.",
    ["subprocess/__init__.py", "subprocess/protocol.py"],
    [("protocol callbacks to queues", "subprocess/protocol.py"),
     ("shutdown on context exit", "subprocess/__init__.py")],
    ["queue contents vs the child's known output, process table"],
    technique="exactly-once byte monitor over real child processes",
    note="Held on the programs run.",
)

prop(
    "C27",
    "Peer programs mirror channels and answer commands across the pipe",
    "After start-up, host and peer program each hold the other's environment "
    "with the same channels; channel events streamed by the peer bring the "
    "host's view to the peer's values, showing every change in order once "
    "streaming has started. Commands sent to the peer's channels (awaited or "
    "queued) take effect there with the peer's result returned, requests in "
    "both directions get their own answers, and configurations are exchanged "
    "once. Text on the peer's stderr doesn't end message processing, when "
    "the host leaves - at any time - the peer ends after running its "
    "cleanup, and no task stays behind.",
    ["schedules", "inputs", "histories"],
    "all environments, change histories, chunkings of the pipe, concurrent "
    "requests from both sides, end-of-input at any time",
    "Tests run one sample program with fixed timing.",
    ["subprocess/interface.py", "subprocess/peer.py",
     "subprocess/program.py", "message/interface.py",
     "channel/environment/telemetry.py"],
    [("environment exchange", "subprocess/interface.py"),
     ("event stream on standard error", "subprocess/program.py")],
    ["host's mirrored values, command results, peer exit"],
    technique="end-to-end mirror monitor (in-memory pipes and real processes)",
    note="Held on generated histories.",
)

prop(
    "C28",
    "The web UI's data stream reflects channel state for each open tab",
    "A UI client receives, for each tab it has shown, the tab's channel "
    "values and every subsequent change as time-stamped points in order, "
    "none for hidden tabs, and nothing belonging to another client or tab. "
    "Controls operated in the UI have the same effect and result as the "
    "equivalent local command, and a client that disconnects leaves no "
    "listeners behind.",
    ["histories", "schedules"],
    "all show/hide/command/change histories with several clients",
    "Tests open one page with one client.",
    ["net/server/websocket/__init__.py", "net/server/websocket/state.py",
     "net/server/app/env/tab/message.py", "net/server/app/tab.py"],
    [("per-tab point collection", "net/server/websocket/state.py"),
     ("tab message handling", "net/server/app/env/tab/message.py")],
    ["messages sent to each client", "listeners left on channels"],
    technique="event-log monitor: channel changes vs UI messages",
    note="Held on generated histories.",
)

prop(
    "C29",
    "Waiting on a value succeeds exactly when the condition was met in time",
    "Waiting for a value to satisfy a condition returns success if it "
    "already holds or becomes true at any instant before the timeout - even "
    "if it's false again right after - and otherwise reports failure or "
    "timeout no earlier than the timeout. Sampling a value yields exactly "
    "its changes in order (with timestamps), at most the requested number, "
    "and ends by the timeout; neither leaves a listener behind, also when "
    "cancelled.",
    ["schedules", "histories", "inputs"],
    "all change histories relative to wait, timeout and cancellation times, "
    "all operators, scaled and unscaled values, concurrent waiters",
    "Tests change the value once while waiting.",
    ["primitives/evaluation.py", "primitives/int.py", "primitives/float.py",
     "primitives/bool.py", "channel/environment/sample.py"],
    [("callback evaluated per change", "primitives/evaluation.py"),
     ("sample queue", "primitives/evaluation.py")],
    ["results, completion time on logical clock, remaining listeners"],
    technique="temporal-logic monitor on logical time",
    note="Held on generated schedules.",
)

prop(
    "C30",
    "Telnet and device text protocols parse the same under any split",
    "A Telnet connection separates text, commands, options and control "
    "characters identically however the byte stream is divided into pieces "
    "(within a message or across messages, including inside commands and "
    "multi-byte characters), escaped bytes appear once in the text, every "
    "byte is accounted for exactly once and no byte sequence ends the "
    "connection. A command to an SCPI-style device returns that command's "
    "own reply, with concurrent commands serialized, replies that are late "
    "or unsolicited never attributed to a later command, and a missing reply "
    "ending only that command. The outlet states shown for an NP-05B power "
    "strip, and the results of commands to it, are those the device "
    "reported, however its output is divided, and lost or refused responses "
    "fail only their own command.",
    ["inputs", "schedules"],
    "all byte sequences of text, commands, options and escapes; all "
    "concurrent command schedules and reply delays",
    "Tests feed a few sequences.",
    ["net/tcp/telnet/__init__.py", "net/tcp/telnet/codes.py",
     "net/tcp/telnet/np_05b.py", "net/tcp/scpi/__init__.py"],
    [("command state machine", "net/tcp/telnet/__init__.py"),
     ("response parsing", "net/tcp/telnet/np_05b.py"),
     ("command lock and reply queue", "net/tcp/scpi/__init__.py")],
    ["text, commands and options delivered", "command replies",
     "outlet states and command results"],
    technique="reference-model monitor over generated byte streams",
    note="Held on generated streams.",
)

prop(
    "C31",
    "Log records reach remote peers once and asynchronous commands run once",
    "Lines appended to captured files are logged once each, in order, with "
    "the configured level and exact text however they're written (split "
    "lines and characters, blank lines), without what was there before. "
    "Log records captured for a peer, and messages staged for it, are logged "
    "by that peer exactly once, in order, with their level and text, and "
    "records that can't be formatted or messages that aren't valid affect "
    "nothing else. A commanded log level filters what's logged from then on. "
    "Commands queued for asynchronous handling run exactly once, one at a "
    "time, in the order accepted, those addressed to a remote environment "
    "don't run locally, and one that fails (or a connection task that does) "
    "doesn't prevent later ones from running for any part of an "
    "application.",
    ["histories", "schedules"],
    "all logging and command histories including failing handlers",
    "Tests log one record and queue one command.",
    ["mixins/logging.py", "mixins/async_command.py",
     "message/interface.py", "net/arbiter/housekeeping/__init__.py"],
    [("record queue", "mixins/logging.py"),
     ("command queue", "mixins/async_command.py")],
    ["records and commands observed by the receiver"],
    technique="exactly-once/ordering monitor",
    note="Held on generated histories.",
)

prop(
    "C32",
    "Simulated time and stepping advance deterministically",
    "Each step edge advances the stepped clock and polls every registered "
    "structure exactly the configured number of iterations, each iteration "
    "moving simulated time by exactly the configured increment. While "
    "simulated time is selected, timestamps of channel updates follow it and "
    "are reproducible; switching back, or the application ending, restores "
    "the real clock. Generated waveforms are a function of step count, "
    "amplitude and phase, sources scale every output by its own amplitude, "
    "and no parameter value ends the polling.",
    ["histories", "configurations"],
    "all toggle/count/time-source histories and configurations",
    "Tests toggle once or twice.",
    ["control/step.py", "control/source.py", "control/env/__init__.py",
     "mixins/trig.py", "task/trig/__init__.py"],
    [("toggle callback polls count times", "control/step.py"),
     ("trig dispatch", "mixins/trig.py")],
    ["poll counts, simulated time, channel timestamps"],
    technique="reference-model monitor over stepping histories",
    note="Held on generated histories.",
)

prop(
    "C33",
    "Command lines do what their arguments say and exit codes tell the result",
    "'arbiter' runs the applications of the given configurations (merged, from "
    "the directory selected with '-C') stage by stage and exits with zero "
    "exactly when all of them succeeded; '--init-only' sets the stop signal "
    "before they run, '--wait-for-stop' keeps a successful command running "
    "until it is interrupted, '--no-poller' turns connection-metric polling "
    "off, '--no-uvloop' selects the default event loop. 'server' serves the "
    "named connection factory (TCP, UDP, WebSocket, HTTP, with TLS when a "
    "certificate is given) at exactly the requested host and port, optionally "
    "with one loopback client; 'task' runs the named task at the requested "
    "rate; 'tftp' transfers exactly the named file and exits with zero exactly "
    "when it did; 'mtu' probes with the requested payload and protocol and "
    "reports what the kernel knows, leaving socket options as they were. An "
    "interrupt stops any running command in an orderly way whatever it is "
    "doing. Invalid command lines exit with a non-zero code and run nothing. "
    "The working directory of a caller is restored.",
    ["histories", "configurations"],
    "all command lines, configurations, application outcomes and interrupt "
    "times",
    "Tests run a few commands in-process and don't look at what they do.",
    ["entry.py", "app.py", "commands/arbiter.py", "commands/common.py",
     "commands/server.py", "commands/task.py", "commands/tftp.py",
     "commands/mtu.py", "net/mtu.py", "net/ssl.py"],
    [("arbiter command", "commands/arbiter.py"),
     ("server configuration", "commands/server.py"),
     ("mtu discovery", "net/mtu.py")],
    ["exit codes, application traces, served bytes, transferred files"],
    technique="process-level monitors over generated command lines",
    note="Held on generated command lines.",
)

prop(
    "C34",
    "The terminal interface shows every channel's current value",
    "On a terminal of any (not tiny) size, the terminal interface lists the "
    "environment's channels in sorted order, as many as there are lines for, "
    "each with its current value (numbers, booleans and enumeration members), "
    "after every update and without left-overs of earlier values. The header "
    "shows the terminal's width and height (also available as channels) and "
    "the last key that was pressed. Resizing the terminal to larger or smaller "
    "sizes redraws everything for the new size; neither the number of channels "
    "nor the length of values ends the interface. The 'tui' command runs the "
    "requested number of iterations (or until it's interrupted), exits with "
    "zero and restores the terminal.",
    ["histories", "configurations"],
    "all environments, value histories, key presses and terminal sizes",
    "Tests run a few iterations and don't look at the screen.",
    ["tui/channels/__init__.py", "tui/mixin.py", "tui/cursor.py",
     "tui/task.py", "commands/tui.py", "commands/common.py"],
    [("channel rows", "tui/channels/__init__.py"),
     ("resizing", "tui/mixin.py"),
     ("window size", "tui/cursor.py")],
    ["what a terminal emulator shows for the bytes written"],
    technique="terminal-emulating screen monitor",
    note="Held on generated histories.",
)

prop(
    "C35",
    "Commands and file requests sent to a peer act as they would locally there",
    "A command entered with the remote flag on a JSON connection is not run "
    "locally: it takes effect on the peer's environment (or the named one) "
    "exactly as if the command, its force flag and its values had been entered "
    "there - changes in the order the commands were entered, one command's "
    "refusal not affecting others - and the result is reported to the sender. "
    "A find-file request is answered with the path of the file that the "
    "peer's own lookup finds (package directory, search paths, working "
    "directory, then relative location; null if there is none) and, when "
    "asked for, with the file's decoded contents: inclusions resolved, "
    "overwritten or merged as requested, or a failure and no data for files "
    "that can't be decoded.",
    ["inputs", "configurations", "histories"],
    "all command sequences, environments, directory trees, include chains and request options",
    "Tests send three commands and look up two files.",
    ["message/handlers.py", "message/interface.py",
     "net/stream/json/__init__.py", "mixins/async_command.py",
     "channel/environment/command/processor.py"],
    [("remote command forwarding", "net/stream/json/__init__.py"),
     ("channel command requests", "message/handlers.py"),
     ("file requests", "message/handlers.py")],
    ["both environments' values and changes, logged results, answers to requests"],
    technique="twin-environment and file-tree monitors over real connections",
    note="Held on generated commands, trees and requests.",
)

prop(
    "C36",
    "What the browser shows, plots and sends agrees with the server",
    "A served application page, once connected, keeps each shown tab's "
    "channel table equal to the environment's current values (numbers to "
    "five decimals, enumeration names and booleans as they are; text logs "
    "complete and in order; values without an update for 500 ms marked "
    "stale), from the first frame after a tab is shown on. Operating a "
    "control - toggles, selections, inputs, sliders, defaults, custom "
    "commands, the command box - sends exactly the command it stands for. "
    "Plotted channels have one line each in the color of their button, with "
    "exactly the newest points (up to the displayed maximum) since they "
    "were plotted or cleared, on one shared time axis and scaled to fill the "
    "height. Filters show exactly the matching tabs and channels; frames "
    "are reported no faster than the configured period; and the page's "
    "address restores its tab, filters, plotted channels, theme, visibility "
    "and period, also in new windows, while unknown tabs or channels in "
    "links don't keep a page from working. Server queries are answered with "
    "their identifier and loopback data; messages may arrive several at a "
    "time.",
    ["inputs", "histories", "schedules"],
    "all environments, tab names, histories of changes and user actions, message groupings and links",
    "Tests don't run any JavaScript; they fetch pages and exchange single messages.",
    ["data/js/classes/TabInterface.js", "data/js/classes/ChannelTable.js",
     "data/js/classes/PlotManager.js", "data/js/classes/PlotDrawer.js",
     "data/js/classes/PointBuffer.js", "data/js/classes/JsonConnection.js",
     "data/js/worker.js", "data/js/classes/WindowHashManager.js",
     "net/server/app/env/tab/html.py"],
    [("tab interface", "data/js/classes/TabInterface.js"),
     ("plot drawing", "data/js/classes/PlotDrawer.js"),
     ("point storage", "data/js/classes/PointBuffer.js"),
     ("address state", "data/js/classes/WindowHashManager.js"),
     ("worker messaging", "data/js/worker.js")],
    ["page contents, drawn lines and sent messages after every frame and action"],
    technique="the served page's own scripts run in an instrumented mini browser (node) against real tabs; twin-environment, plot and address monitors",
    note="Held on generated environments, histories and links.",
)

prop(
    "C37",
    "A configured application can be reached and used as a whole",
    "An application described by configuration files (clients, servers, "
    "tasks, structures, peer processes and the included server) comes up "
    "with exactly the configured entities; every configured application "
    "path, prefix, landing page and redirect is served as configured, and "
    "application pages contain one tab per entity with one row per channel "
    "and the entity's own markdown. The served configuration lists the "
    "actual ports and all environments (also of a peer process' own "
    "application, for its own and its host's environment). Commands posted "
    "to any environment, at any process' server, or entered in a page, "
    "succeed and change the actual channel; pages loaded from any path "
    "connect to the actual websocket ports (and configured host name) and "
    "show the actual values. The number of connected user interfaces is "
    "counted correctly while they come and go.",
    ["inputs", "histories", "schedules"],
    "all configurations, ports, orders of clients connecting and leaving, and commands",
    "Tests run a few fixed configurations and mostly check exit codes.",
    ["net/server/app/__init__.py", "net/server/app/env/__init__.py",
     "net/arbiter/base.py", "net/html/arbiter.py", "net/server/__init__.py",
     "net/server/websocket/__init__.py", "subprocess/interface.py",
     "data/server_base.yaml"],
    [("environment registration", "net/arbiter/base.py"),
     ("tabs of all entities", "net/server/app/env/__init__.py"),
     ("server", "net/server/__init__.py"),
     ("application prefixes", "net/html/arbiter.py"),
     ("peer environments", "subprocess/interface.py")],
    ["HTTP responses, page contents, websocket messages and channel values of running applications"],
    technique="generated configurations run as whole applications on real sockets (and real peer processes), observed through HTTP, websockets and the served page's scripts, against the configuration and the in-process channels",
    note="Held on generated configurations and uses.",
)

prop(
    "C38",
    "Secured connections are private, verified and otherwise like any other",
    "A TCP or websocket client that's given authorities to trust (file, "
    "folder or data), or asked to use TLS, connects only to servers whose "
    "certificate those (or the system's) authorities signed for the host it "
    "asked for, also when it has a certificate of its own and after every "
    "restart; nothing sent by others reaches a secured server's handlers. "
    "Over such connections, in both directions, messages are delivered "
    "completely and in order, counted, and unreadable on the wire; if what's "
    "transmitted is changed or cut, a prefix of it is delivered and the "
    "connection ends. Configured servers (HTTP, messages) and clients can be "
    "secured by their arguments alone.",
    ["inputs", "histories", "schedules"],
    "all certificates, trust settings, host names, messages, restarts, splits and corruptions",
    "One test starts servers with a certificate; no test connects anything that has to verify it.",
    ["net/ssl.py", "net/tcp/create.py", "net/tcp/connection.py",
     "net/websocket/connection.py"],
    [("contexts", "net/ssl.py"),
     ("TCP servers, clients and restarts", "net/tcp/connection.py"),
     ("websocket servers and clients", "net/websocket/connection.py")],
    ["connection results, delivered messages, transmitted bytes"],
    technique="real connections through a relay that records, splits, changes and cuts, with generated certificates and trust; trust model, delivery and plaintext monitors",
    note="Held on generated certificates, trust and histories.",
)


def main():
    """Write properties.jsonl and MANIFEST.json."""

    with (HERE / "properties.jsonl").open("w") as out:
        for item in PROPS:
            out.write(
                json.dumps(
                    {k: v for k, v in item.items() if not k.startswith("_")}
                )
                + "\n"
            )

    checks, missing = [], []
    for item in PROPS:
        ident = item["id"]
        if (HERE / "checks" / f"{ident.lower()}.py").is_file():
            checks.append(
                {
                    "property": ident,
                    "quick_cmd": f"./run.sh {ident}",
                    "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {ident}",
                    "technique": item["_technique"],
                    "level": "exploration",
                    "level_note": item["_note"],
                }
            )
        else:
            missing.append(
                {"property": ident, "reason": NOT_APPLICABLE.get(
                    ident, "check not built yet")}
            )
    (HERE / "MANIFEST.json").write_text(
        json.dumps(
            {
                "version": 1,
                "setup_cmd": "bash setup.sh",
                "checks": checks,
                "not_applicable": missing,
                "notes": "Pure-Python asyncio code base: monitors observe "
                "the real code in-process; no hooks in /repo are needed.",
            },
            indent=1,
        )
        + "\n"
    )


NOT_APPLICABLE = {}

if __name__ == "__main__":
    main()
