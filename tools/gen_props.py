#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "StatsD packets mean exactly what the documented grammar says",
  "Every well-formed StatsD packet, given to the parser or sent to the UDP source, yields one telemetry point per line, in order, with that line's name and value (divided by its sample rate if it has one) and the documented meaning: counters add up and reset each flush, gauges set a value that persists across flushes, signed gauges adjust it, and timers and histograms become a histogram with the bounds of the first configured mask that matches the name, or else a quantile summary with the configured error bound. A packet with a malformed line (or one that is not UTF-8) is refused as a whole and contributes nothing, neither then nor together with a later packet. No packet stops the source from reading the next one.",
  ["inputs", "histories"], "all packets (valid, mutated and arbitrary bytes), all mask and bound configurations, all sequences of packets to one source",
  "The unit tests parse about twenty fixed packets with fresh state; they never feed a bad packet followed by a good one, never reach the socket loop and never combine masks.",
  ["src/protocols/statsd.rs", "src/source/statsd.rs"],
  [("line parser", "src/protocols/statsd.rs: parse_statsd"), ("datagram loop", "src/source/statsd.rs: handle_datagrams")],
  ["telemetry events on the source's output channel", "parser result"])

p("C02", "Graphite streams are read the same however TCP cuts them up",
  "Each line of a Graphite TCP stream that consists of whitespace-separated (name, value, timestamp) triples yields one absolute-value point per triple with exactly that name, value and timestamp, in stream order, independently of how the bytes were cut into segments and including a last line that is ended by the close of the connection. A malformed line contributes nothing and does not affect any other line of the stream. Every connection's points arrive, and a connection that the peer has closed is let go.",
  ["inputs", "schedules"], "all byte streams of valid and malformed lines (including non-UTF-8 bytes and multi-byte characters), all segmentations and pauses, several connections at once",
  "The tests call the line parser on whole strings; nothing drives the stream handler, so segment boundaries, partial lines, invalid bytes and connection close are untested.",
  ["src/protocols/graphite.rs", "src/source/graphite.rs", "src/source/tcp.rs"],
  [("line parser", "src/protocols/graphite.rs: parse_graphite"), ("stream handler", "src/source/graphite.rs: handle_stream")],
  ["telemetry events on the source's output channel", "thread count of the process"])

p("C03", "Native streams decode to the sent points and lines, however segmented",
  "For every sequence of length-prefixed native-protocol payloads on a connection, the native source emits exactly the encoded points (name, samples under their aggregation, persistence, metadata as tags, timestamp in whole seconds; a point without samples is skipped) and log lines, in payload order with points before lines, independently of how the bytes are segmented in time and size, and an empty payload is simply an empty payload. A payload that does not parse or whose announced length exceeds one mebibyte ends that connection after everything before it was emitted, and no connection affects another or keeps the source from shutting down.",
  ["inputs", "schedules", "fault_sequences"], "all payload sequences, all segmentations and pauses (down to single bytes, inside the length prefix too), truncation and corruption at every point, several connections",
  "No test drives the native source at all; the framing code is only compiled.",
  ["src/source/native.rs", "src/source/nonblocking.rs", "src/source/tcp.rs", "src/thread.rs"],
  [("length-prefixed framing", "src/source/nonblocking.rs: BufferedPayload"), ("payload decoding", "src/source/native.rs: handle_stream_payload")],
  ["events on the source's output channel"])

p("C04", "Cernan-to-cernan transport preserves every event, through reconnects",
  "Every telemetry point and log line delivered to the native sink is, after a flush, emitted by a native source at the other end of the connection with the same name, aggregation, persistence, timestamp (whole seconds), tags (the sink's own tags filling in those the event lacks) and samples, or path, text, time and tags for a log line; the points of a flush come in delivery order, and so do its lines, behind its points. A flush with nothing to send puts nothing on the wire, a flush larger than a payload may be is split, and data flushed while the peer was unreachable, or after it closed the connection in a way the sink can observe, is sent again until it is delivered. Nothing is transmitted before a flush and nothing is left behind by a shutdown.",
  ["inputs", "histories", "fault_sequences"], "all event sequences, flush patterns, peer restarts between and during flushes",
  "No test connects the native sink to anything.",
  ["src/sink/native.rs", "src/source/native.rs", "src/source/nonblocking.rs", "src/protocols/native.rs"],
  [("encoding and retry loop", "src/sink/native.rs: flush"), ("decoding", "src/source/native.rs: handle_stream_payload")],
  ["events on the receiving source's channel", "bytes on the wire"])

p("C05", "Avro publishing: intact, in order, acknowledged, and isolated",
  "Each well-formed Avro publication on a connection is emitted exactly once as a raw event with the publisher's ordering key, metadata and unmodified payload bytes, in order and independently of segmentation; a publication that asks for acknowledgement is answered with its own 8-byte identifier once and only after a sink has acknowledged it, and one that does not ask is never answered. A malformed publication (truncated header or metadata, not an Avro container, over-long) ends its own connection only: what came before it stays emitted, other connections keep working and the source still shuts down gracefully, announcing its shutdown downstream.",
  ["inputs", "schedules", "fault_sequences"], "all publication sequences with and without acknowledgement, all segmentations, all truncations and corruptions, several concurrent connections, all acknowledgement delays",
  "The tests parse two hand-made payloads and run one end-to-end happy path.",
  ["src/source/avro.rs", "src/source/nonblocking.rs", "src/source/tcp.rs", "src/metric/ackbag.rs", "src/thread.rs"],
  [("payload parsing", "src/source/avro.rs"), ("ack registry", "src/metric/ackbag.rs"), ("handler threads", "src/thread.rs")],
  ["raw events on the source's channel", "bytes answered to the publisher"])

p("C06", "Aggregation buckets agree with a naive model of the series",
  "For every history of additions and flush resets, the buckets hold exactly one aggregate per series and time bin: its sum, last set value, quantile summary or histogram is the one obtained by aggregating, in arrival order, all points of that series whose timestamps fall in that bin (a persistent point that opens a new bin starts from the value of the bin before it), so that nothing is lost, counted twice or put in another series or bin. A reset removes every series that is not persistent and carries each persistent one forward as its latest value. The reported numbers of series and bins always match the contents.",
  ["histories"], "all sequences of add and reset over several series, kinds, persistence flags, bin widths and out-of-order timestamps",
  "The quickcheck tests in the repository check counts and a sum for one kind at a time; resets combined with persistence, several kinds per name, tags and late bins are not modelled.",
  ["src/buckets.rs", "src/metric/telemetry.rs"],
  [("bucket add", "src/buckets.rs: add"), ("reset", "src/buckets.rs: reset"), ("aggregate update", "src/metric/telemetry.rs: AddAssign")],
  ["iteration over the buckets"],
  state=[("per-series bins", "sorted bins of one series", "src/buckets.rs")])

p("C07", "A series is its name plus its set of tags, nothing else",
  "Two points belong to the same series exactly when they have the same name and the same set of tag key/value pairs, whatever the order in which the tags were attached, how often they were overwritten, or how the tag maps were built. Overlaying a tag replaces its value, a default tag set only fills in keys the event does not carry, and iterating the tags with defaults yields each key exactly once with the winning value.",
  ["inputs", "histories"], "all sequences of tag insertions, overwrites, removals, merges and default overlays",
  "Existing tests build each tag map in one order; identity under different construction histories is not covered.",
  ["src/metric/telemetry.rs", "src/metric/logline.rs", "src/metric/mod.rs", "src/util.rs"],
  [("series hash", "src/metric/telemetry.rs: name_tag_hash, hash"), ("tag overlay", "src/metric/telemetry.rs, src/metric/logline.rs"), ("tag iteration", "src/metric/mod.rs: TagIter")],
  ["buckets grouping", "tags()"])

p("C08", "Sums, sets, summaries and histograms report what was inserted",
  "For every sequence of samples inserted into or merged into a point: the count is the number of samples, a sum is their sum, a set is the last of them, a summary answers every quantile with an inserted sample whose rank is within the configured error (to a rank or two while it holds few samples), and a histogram puts each sample into the first bin whose inclusive upper bound is not below it, so that bin counts add up to the count. Points survive being written to and read back from the on-disk queue unchanged.",
  ["inputs", "histories"], "all sample sequences, merge trees, kinds, error bounds and bin bounds",
  "The repository's tests use a handful of samples per kind.",
  ["src/metric/telemetry.rs", "src/metric/event.rs", "src/metric/logline.rs"],
  [("insert and merge", "src/metric/telemetry.rs"), ("queue serialisation", "serde derives in src/metric")],
  ["query, samples, count, sum, mean, set, bins"])

p("C09", "The delay filter keeps timely events, drops stale ones, alters none",
  "With a tolerance of T seconds the delay filter forwards, unchanged and in order, every telemetry point and log line whose timestamp differs from now, in the past or in the future, by less than T seconds, drops every one that differs by more, and lets every other event (raw events, flush pulses, shutdown) through. It does so for every representable timestamp.",
  ["inputs"], "all events and all timestamps including the extremes, all tolerances",
  "There is no test for the delay filter.",
  ["src/filter/delay_filter.rs"],
  [("age test", "src/filter/delay_filter.rs: process")], ["filter output"])

p("C10", "The flush-boundary filter only holds back, never loses or reorders",
  "Over every history of events and flush pulses, the flush-boundary filter emits each telemetry point and log line it received exactly once, unchanged and in arrival order among those of the same second; the events of one second are held together and come out, ahead of the pulse, with the first flush pulse by which more pulses than the configured tolerance have passed since the first of them came. Raw events pass at once and flush pulses pass in order. At shutdown everything still held is released before the shutdown is announced.",
  ["histories"], "all interleavings of telemetry, log lines, raw events, flush pulses and shutdown, all tolerances and timestamps",
  "One test module covers a few hand-written sequences of telemetry only.",
  ["src/filter/flush_boundary_filter.rs"],
  [("hold queue", "src/filter/flush_boundary_filter.rs: process")], ["filter output"])

p("C11", "JSON-encoded log lines are valid JSON that keeps the line's content",
  "For every log line the JSON-encoding filter emits exactly one raw event whose bytes are valid JSON with the path and tags of the line (its own tags before the filter's), its time as the same instant in ISO form and either the text as the message or, when the text is itself a JSON object and parsing is enabled, the object's members merged in at the top level, where they win over the line's fields, and these over its metadata. Other events pass through unchanged, and no line (any text, any representable time) stops the filter.",
  ["inputs"], "all log lines (arbitrary text, JSON text of every shape, tags, fields, times)",
  "Five tests with fixed lines.",
  ["src/filter/json_encode_filter.rs"],
  [("encoding", "src/filter/json_encode_filter.rs: process")], ["filter output"])

p("C12", "Lua filters see each event as it is and emit exactly what they push",
  "For every script built from the documented Lua API and every event, the programmable filter emits, in order, exactly the events that a straightforward interpretation of the script's calls gives: accessors report the event's own name, path, value, tags and fields, mutators change only what they name, cleared events do not come out, pushed ones do, and passed-through events are unmodified. An event whose entry point fails or is absent is replaced by one count of that failure (a flush pulse still passes at once), and no API argument, such as an index out of range or a missing or non-UTF-8 text, kills the filter.",
  ["programs", "inputs"], "generated scripts over the API crossed with generated telemetry, log lines and flush pulses",
  "Fifteen fixed scripts, each exercised on one event.",
  ["src/filter/programmable_filter.rs"],
  [("Lua API", "src/filter/programmable_filter.rs: payload module"), ("dispatch", "src/filter/programmable_filter.rs: process")], ["filter output"])

p("C13", "Every event reaches every downstream, in order, until all upstreams end",
  "Every event sent by a component arrives at each of its configured downstreams exactly once and in the order sent, also when queues spill to disk; what one downstream's full queue cannot take is dropped for that downstream only, and a Shutdown is never dropped. A filter or sink with several upstreams keeps processing what still-running upstreams send until every one of them has shut down, and tells its own downstreams so exactly then. A sink hands over everything it has received when it stops.",
  ["schedules", "histories", "configurations"], "all topologies of sources, filters and sinks, all interleavings of events and shutdowns from several upstreams, all queue sizes",
  "The tests never run a filter's or sink's main loop with more than one upstream.",
  ["src/util.rs", "src/filter/mod.rs", "src/sink/mod.rs", "src/bin/cernan.rs"],
  [("fan-out", "src/util.rs: send"), ("filter loop", "src/filter/mod.rs: run"), ("sink loop", "src/sink/mod.rs: consume")],
  ["deliveries to a recording sink", "shutdown events on output channels"])

p("C14", "Sinks flush on every interval, once per flush pulse, valve respected",
  "A sink is flushed exactly when a flush pulse newer than all it has seen falls on its flush interval, however many upstreams relay each pulse and in whatever order the relayed copies arrive; a repeated or older pulse never causes a second flush. While a sink refuses input it receives no events, and everything that queued up meanwhile is delivered in order once it accepts input again.",
  ["schedules", "histories"], "all interleavings of flush pulses relayed by several upstreams with events, all flush intervals, all patterns of refusal",
  "No test runs the sink loop.",
  ["src/sink/mod.rs", "src/source/flush.rs"],
  [("flush bookkeeping", "src/sink/mod.rs: consume"), ("valve", "src/sink/mod.rs: Valve")], ["flush and delivery calls of a recording sink"])

p("C15", "Wavefront output reports exactly the aggregated points, well formed",
  "Every line the Wavefront sink sends is a well-formed Wavefront line, names and tags that are not one word being quoted, and the lines of a flush are exactly those of the points delivered since the last one: one line per bin for sums and sets, one per configured percentile plus count and mean for summaries, and one per bin plus a count for histograms, with the bin's timestamp, aggregated value and tags (the sink's tags filling in). Points older than the configured age are not reported and nothing is sent twice except persistent gauges carried forward. Data flushed while the endpoint is away is sent once it is back.",
  ["histories", "inputs", "fault_sequences"], "all histories of deliveries and flushes over several series, kinds, timestamps, tags and configurations without padding, endpoint restarts",
  "The tests format a few fixed points.",
  ["src/sink/wavefront.rs", "src/buckets.rs"],
  [("formatting", "src/sink/wavefront.rs: format_stats"), ("delivery", "src/sink/wavefront.rs: flush")], ["bytes received by the endpoint"])

p("C16", "Wavefront padding adds only zeros, next to reports, and only if enabled",
  "With padding enabled for a kind, the sink's output for that kind consists of the unpadded output plus points whose statistics are all zero only: in each gap of a series, also one that spans flushes, directly after a report and directly before the next one, never on a timestamp that has a report, and never for a kind whose padding is off. Padding never changes, removes, repeats or reorders in time the reported points of a series.",
  ["histories", "configurations"], "all histories of deliveries with gaps inside a flush and across flushes, all padding settings",
  "Five tests over fixed gaps and one quickcheck on ordering.",
  ["src/sink/wavefront.rs"],
  [("padding iterator", "src/sink/wavefront.rs: Padding")], ["bytes received by the endpoint"])

p("C17", "A Prometheus scrape is valid exposition of what was delivered",
  "Every scrape, plain or gzip, is valid Prometheus exposition text in which each series appears once with a legal metric name and escaped label values, counters equal to the running total of all delivered sums, gauges to the last set value, histograms with cumulative bucket counts ending in +Inf, total sum and count over all deliveries, and summaries with quantiles over the configured window (left out while it is empty) and total sum and count. Series that differ in name or tags stay separate, one name has the kind it was first given, and series are dropped only after the configured idle age, from which on points that old (or that far ahead) are refused. A client that does not read its answers or does not finish its request keeps neither other scrapes nor the sink's shutdown waiting.",
  ["histories", "inputs"], "all histories of deliveries and scrapes over several series, kinds, names, tags and label values",
  "The tests format a few fixed aggregates and check counts.",
  ["src/sink/prometheus.rs", "src/http.rs"],
  [("aggregation", "src/sink/prometheus.rs: PrometheusAggr"), ("exposition", "src/sink/prometheus.rs: write_text"), ("name sanitising", "src/sink/prometheus.rs: sanitize")], ["HTTP response of the scrape endpoint"])

p("C18", "InfluxDB writes are valid line protocol with the delivered points",
  "Every body the InfluxDB sink posts is valid line protocol with names and tags escaped, and the bodies accepted by the server contain exactly the delivered points, in order and without aggregation: a sum or set as its value, a summary as its fixed quantiles, a histogram as its bins, each with the point's tags (the sink's filling in; empty ones left out) and its time in nanoseconds, values that are not finite excepted. A body the server failed to accept is sent again until it is accepted, without loss of points delivered meanwhile.",
  ["histories", "inputs", "fault_sequences"], "all histories of deliveries and flushes, all names and tags, all sequences of server answers",
  "The tests format one fixed set of points and never meet a server.",
  ["src/sink/influxdb.rs"],
  [("formatting", "src/sink/influxdb.rs: format_stats"), ("posting", "src/sink/influxdb.rs: flush")], ["HTTP requests seen by a server"])

p("C19", "Elasticsearch receives every log line until it is indexed",
  "Each log line delivered to the Elasticsearch sink is sent in a bulk request as one document with its path, text, tags (its own before the sink's), fields (before tags) and time, under a unique identifier and the configured index naming, and is retained and sent again with the same identifier until the server reports it indexed or it has failed more often than the configured limit of attempts; a line once settled is not sent again. Partial failures affect only the failed lines, and answers about unknown documents none. The sink refuses input exactly while its buffer is over its limit.",
  ["histories", "fault_sequences"], "all histories of deliveries and flushes, all sequences of per-item and whole-request failures",
  "The tests check the request body of fixed lines.",
  ["src/sink/elasticsearch.rs"],
  [("bulk body", "src/sink/elasticsearch.rs: bulk_body"), ("retry", "src/sink/elasticsearch.rs: flush")], ["HTTP requests seen by a server"])

p("C20", "Kafka publications are retried until settled and then acknowledged",
  "Every raw event delivered to the Kafka sink is published with its own bytes, a key that depends on its ordering key alone and its metadata as headers; after a retryable failure it is published again, unchanged, and after success or a permanent failure never again, and its publisher is acknowledged exactly when it is settled. The sink refuses further input exactly while the unsettled bytes are at or over its configured limit, and a flush leaves no event unaccounted for.",
  ["histories", "fault_sequences"], "all histories of deliveries and flushes, all assignments of success, retryable and permanent failure to each publication attempt",
  "Tests use a mock producer with one or two messages and one failure pattern each.",
  ["src/sink/kafka.rs", "src/metric/ackbag.rs"],
  [("publication", "src/sink/kafka.rs"), ("retry", "src/sink/kafka.rs: flush")], ["calls to the producer", "ack registry"],
  hook="constructor with a scripted producer")

p("C21", "A tailed file yields each of its lines exactly once, through rotation",
  "For every history of appends, pauses inside a line, rotations, truncations, deletions and re-creations of a watched file that leaves the reader time to notice each step, the file source emits exactly the complete lines written since it first saw the file (or its re-creation), each once, whole, in order, without its line terminator and with the file's path (as text, even if it is not UTF-8); empty lines are skipped and bytes that are not UTF-8 replaced. A line is emitted only after its terminator was written, and an unterminated rest is dropped when the file is rotated, truncated or deleted.",
  ["histories", "inputs"], "all operation histories on a watched file, all line contents including multi-byte text and very long lines",
  "A model-based quickcheck in the repository covers whole-line writes; partial writes, truncation and other contents are not generated.",
  ["src/source/file/file_watcher.rs", "src/source/file/file_server.rs"],
  [("watcher", "src/source/file/file_watcher.rs: read_line"), ("server", "src/source/file/file_server.rs: run")], ["log events on the source's channel"])

p("C22", "The configuration file means what it says",
  "For every valid configuration document, each enabled source, filter and sink is configured with exactly the values given for it and the documented defaults elsewhere, global tags and the global flush interval apply wherever no specific value is given, disabled components are absent, and forwards name their targets unchanged. The order of tables in the document does not matter.",
  ["configurations"], "generated configuration documents over every source, filter and sink and every option",
  "The tests parse one small document per component.",
  ["src/config.rs"],
  [("parser", "src/config.rs: parse_config_file")], ["parsed configuration"],
  hook="access to the string-level parser")

p("C23", "Console output shows each aggregate once per flush and log lines intact",
  "Each flush of the console sink prints, for exactly the points delivered since the previous flush, one line per series, bin and reported statistic under the heading of its kind, with the bin's time (summaries excepted), name and aggregated value. Each log line delivered is printed with its time, path, text and tags. Nothing delivered is left out and nothing is printed twice, except persistent gauges that are carried forward.",
  ["histories", "inputs"], "all histories of deliveries and flushes over kinds, names, values and timestamps",
  "The console sink has no output tests.",
  ["src/sink/console.rs", "src/buckets.rs"],
  [("printing", "src/sink/console.rs")], ["standard output"])

p("C24", "Cernan's own metrics count every event exactly once",
  "Self-telemetry reported from any number of threads is emitted by the internal source exactly once per reported point with its name, value, kind and tags, and each internal event counter is reported such that the reported amounts add up to the number of events counted until shutdown, none lost or counted twice, over any interleaving of counting and reporting. A level (the length of a buffer) is reported as the value last stored, and each event is counted under the name of what happened to it.",
  ["schedules"], "all interleavings of reporting threads, counter increments and reporting ticks",
  "Tests only check that the pieces exist.",
  ["src/source/internal.rs"],
  [("report queue", "src/source/internal.rs: report_full_telemetry"), ("counters", "src/source/internal.rs: run")], ["events on the internal source's channel"])

p("C25", "A running cernan delivers what it accepted, down to its last flush",
  "A cernan process started from a configuration file routes every event accepted by its sources through the configured filters to exactly the configured sinks, with tags and aggregation as configured, and when it is told to terminate it stops its sources, drains every queue, lets every sink make its final flush and exits, so that everything accepted before the signal is delivered.",
  ["configurations", "schedules", "fault_sequences"], "generated topologies and traffic, termination at arbitrary points of the traffic",
  "The binary is never run by a test.",
  ["src/bin/cernan.rs", "src/config.rs", "src/matrix.rs", "src/sink/mod.rs", "src/filter/mod.rs", "src/source/mod.rs"],
  [("wiring and shutdown", "src/bin/cernan.rs: main")], ["network output of the process", "exit status"])

p("C26", "No event accepted from the network or disk can kill a component",
  "Whatever value, name, tag, timestamp or payload a source accepts (NaN and infinite values, extreme timestamps, empty or control-character names, unusual tags, undecodable metadata), every filter and sink processes it without stopping: after it, a healthy event is still delivered.",
  ["inputs"], "all events a source can emit, including all special floating-point values and extreme timestamps, against every filter and sink",
  "Tests use ordinary values.",
  ["src/sink/wavefront.rs", "src/sink/prometheus.rs", "src/sink/influxdb.rs", "src/sink/elasticsearch.rs", "src/sink/console.rs", "src/sink/native.rs", "src/sink/kafka.rs", "src/filter/json_encode_filter.rs", "src/filter/delay_filter.rs", "src/metric/telemetry.rs", "src/buckets.rs"],
  [("event handling", "every deliver, flush and process function")], ["panics, and output after the event"])

p("C27", "A source ends within seconds of being told to, whatever its clients do",
  "A source that is told to shut down does so within seconds whatever its clients do (keep sending, send nothing, wait for an acknowledgement nobody gives, come and go), announces the shutdown downstream exactly once and after everything it forwarded, and what it had read before it was told to is still forwarded.",
  ["schedules", "inputs"], "every source, any number of clients in any state, shutdown at any moment",
  "Tests shut down idle sources only.",
  ["src/source/tcp.rs", "src/source/graphite.rs", "src/source/native.rs", "src/source/avro.rs", "src/source/statsd.rs", "src/source/file/file_server.rs", "src/source/internal.rs", "src/thread.rs"],
  [("shutdown of a listener and its streams", "src/source/tcp.rs: run"), ("busy streams", "src/thread.rs")], ["the source thread ends", "events on its channel"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
