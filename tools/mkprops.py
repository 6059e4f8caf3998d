#!/usr/bin/env python3
# Generates properties.jsonl (single source of the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Kafka span encoding is lossless",
 "For every span, encoding it with the binary codec succeeds and decoding the produced bytes yields a span equal in every field (a nil tag map reads back as an empty one). The decoder consumes exactly the bytes the encoder produced, so nothing before or after them matters.",
 ["inputs"],"every span: all int64 ids, timestamps, durations and timings, all strings, all tag maps",
 "the tests encode one fixed span and spans with non-negative random numbers and three fixed tag keys; extreme integers, long strings, empty and large tag maps are not reached",
 ["codec/binary.go","cache/cache.go"],
 [("zig-zag varint writer","codec/binary.go writeLong/encodeInt"),("varint reader","codec/binary.go readLong"),("string and map framing","codec/binary.go writeString/readString/writeMapString/readMapString"),("field order","codec/binary.go BinaryEncode/BinaryDecode")])
p("C02","Decoding arbitrary bytes is total and bounded",
 "For every byte string the binary decoder terminates without panicking and returns a span or an error. No single allocation it makes while decoding is larger than the number of input bytes still unread or a fixed 8 KiB.",
 ["inputs"],"every byte string offered as a kafka message value",
 "tests only decode well-formed encodings; truncated, overlong, negative-length and huge-length inputs are never tried",
 ["codec/binary.go"],
 [("length checks before allocation","codec/binary.go readString"),("block counts","codec/binary.go readMapString"),("varint termination","codec/binary.go readLong")])
p("C03","Ids convert exactly between number and hex text",
 "Every id is printed, and written as JSON, as exactly 16 lowercase hex digits that denote its 64-bit value. Parsing accepts precisely the texts of at most 16 hex digits of either case and returns the value they denote, everything else is an error; so parsing a printed id returns that id.",
 ["inputs"],"all 2^64 ids and all byte strings",
 "tests parse a handful of fixed ids inside JSON documents; most bit patterns, upper case, the sign bit and malformed texts are not reached",
 ["proxy/id.go"],[("hex parser","proxy/id.go ParseId"),("hex printer","proxy/id.go String, MarshalJSON"),("JSON reader","proxy/id.go UnmarshalJSON")])
p("C04","JSON string contents are decoded exactly",
 "For every JSON string literal the token delivered by the JSON reader is the text the literal denotes: plain bytes unchanged, the escapes \\\" \\\\ \\/ \\b \\f \\n \\r \\t as their characters, \\uXXXX as the UTF-8 encoding of that code point, with a surrogate pair denoting one supplementary character and a lone surrogate U+FFFD. A truncated or non-hexadecimal \\u escape is an error, and decoding never reads or writes outside the literal's own bytes.",
 ["inputs"],"every string literal content",
 "tests contain one literal each with an escaped quote, an escaped backslash and two basic \\u escapes",
 ["codec/hyperjson/string.go","codec/hyperjson/parser.go"],[("in place unescaping","codec/hyperjson/string.go decodeStringInPlace"),("unicode escapes","codec/hyperjson/string.go decodeUnicodeChar")])
p("C05","JSON tokens depend only on the document",
 "The sequence of tokens the JSON reader delivers is determined by the bytes of the document alone: how the underlying reader splits them into chunks, the size of the initial buffer and the length of a token never change, lose, duplicate or reorder a byte. In particular a string or number longer than the buffer is delivered whole.",
 ["inputs","schedules"],"every document, every way of chunking it into reads, every initial buffer size",
 "tests read one small document through readers that deliver it in one piece into a larger buffer",
 ["codec/hyperjson/parser.go"],[("buffer refill and compaction","codec/hyperjson/parser.go bufferMore"),("lookahead","codec/hyperjson/parser.go require"),("token scanning","codec/hyperjson/parser.go readString, readNumber, readN, skipWhitespace")],
 [("buffer/tail/head","window of the document currently buffered","codec/hyperjson/parser.go Parser")])
p("C06","JSON unsigned numbers decode exactly or fail",
 "A JSON number decoded into an unsigned 64-bit field is either the exact decimal value of the digits in the document or an error. Values that do not fit into 64 bits, signs, fractions and exponents are errors, never a silently different number.",
 ["inputs"],"every number token",
 "tests only decode a few 16 digit timestamps",
 ["codec/hyperjson/bind.go"],[("digit loop","codec/hyperjson/bind.go Uint64ValueDecoder")])
p("C07","Reading any JSON never crashes or hangs",
 "For every document, truncated or malformed ones included, the JSON reader never panics, indexes outside its buffer, recurses without a fixed bound or loops without consuming input. Each read either makes progress in the document or returns an error.",
 ["inputs","fault_sequences"],"every byte stream, every chunking, every read error position",
 "tests only read well-formed documents",
 ["codec/hyperjson/parser.go","codec/hyperjson/parser_skip.go","codec/hyperjson/parser_object.go","codec/hyperjson/parser_array.go","codec/hyperjson/bind.go"],
 [("end of input handling","codec/hyperjson/parser.go bufferMore"),("index guards","codec/hyperjson/parser.go skipWhitespace/current"),("nesting limit","codec/hyperjson/parser_skip.go")])
p("C08","JSON members bind to their own field, others are skipped",
 "While decoding an object every member is decoded by the decoder registered for exactly that member name into exactly that field, and every unknown member's value is skipped as one complete value. Arrays decode element i into position i, surplus elements of fixed-size arrays are skipped, and an empty object or array leaves nothing behind.",
 ["inputs"],"all member names, member orders, and nestings",
 "tests decode one document per format with the members in one order",
 ["codec/hyperjson/bind.go","codec/hyperjson/parser_skip.go","codec/json-v1.go","codec/json-v2.go","codec/json.go"],
 [("member dispatch","codec/hyperjson/bind.go MakeStructDecoder"),("element decoding","codec/hyperjson/bind.go MakeSliceDecoder, MakeArrayDecoder, MakeMapDecoder"),("skipping","codec/hyperjson/parser_skip.go"),("field tables","codec/json-v1.go, codec/json-v2.go")])
p("C09","Zipkin v1 spans convert faithfully",
 "Converting a v1 span keeps trace id, span id, parent id and name, sets a timing for each cs/cr/sr/ss annotation with a non-zero timestamp (microseconds times 1000), turns every binary annotation into a tag plus protocolVersion='json v1', and takes the service from the first annotation, then binary annotation, that names one. Timestamp and duration come from cs/cr when both are set, else from sr/ss when both are set, else from the span's own values, and a zero duration becomes 1ms.",
 ["inputs"],"all v1 spans with up to four annotations and any number of binary annotations",
 "one fixed document is converted in the tests",
 ["codec/json-v1.go","proxy/span.go","proxy/timestamp.go"],[("conversion","codec/json-v1.go ToSpan, fillInTimestamp"),("timings","proxy/span.go AddTiming")])
p("C10","Zipkin v2 spans convert faithfully",
 "Converting a v2 span keeps trace id, span id, parent id, name, local endpoint service name and every tag, adds protocolVersion='json v2', and converts timestamp and duration from microseconds to nanoseconds with a zero duration becoming 1ms. A client span (any letter case) gets cs=timestamp and cr=timestamp+duration, a server span sr and ss likewise, and any other kind gets no timings.",
 ["inputs"],"all v2 spans","one fixed document is converted in the tests",
 ["codec/json-v2.go"],[("conversion","codec/json-v2.go ToSpan")])
p("C11","Jaeger spans convert faithfully",
 "Converting a jaeger span keeps trace id, span id and operation name, takes the parent from the last CHILD_OF reference or the span's own id if there is none, and the service from the process the span refers to. String tags are kept (component renamed to lc, span.kind and internal.span.format dropped, other value types ignored) plus protocolVersion='jaeger', times are converted from microseconds with a zero duration becoming 1ms, and span.kind client/server sets cs/cr or sr/ss to start and end.",
 ["inputs"],"all jaeger spans, reference lists, tag lists and process tables","one fixed document is converted in the tests",
 ["codec/jaeger.go"],[("conversion","codec/jaeger.go ToSpan")])
p("C12","A decoded span never contains data of an earlier request",
 "Decode targets are reused between requests, but the spans produced for a document depend on that document only. Every field that the document does not mention is zero or empty, whatever was decoded into the same memory before, including after requests that failed half way.",
 ["histories","inputs"],"all sequences of earlier documents, including failing ones",
 "each test decodes a single document into fresh memory",
 ["codec/json-v1.go","codec/json-v2.go"],[("reset before decoding","codec/json-v1.go spanV1ValueDecoder, codec/json-v2.go spanV2ValueDecoder"),("pool","codec/json-v1.go poolSpansV1")])
p("C13","Ingestion is all-or-nothing and in order",
 "A request to a span endpoint is answered 202 exactly when its whole body was parsed, and then every parsed span was put on the intake channel exactly once in document order. Otherwise it is answered 400 and no span of it enters the system; a gzip content encoding is transparent and an invalid gzip body is answered 400.",
 ["inputs","fault_sequences"],"all bodies, parser outcomes and span counts",
 "no test exercises the handlers",
 ["handlers.go"],[("parse then forward","handlers.go parseSpansWithJSON"),("status codes","handlers.go handleSpans"),("decompression","handlers.go handleGzipRequestBody")])
p("C14","Interned strings equal their bytes and never alias reused memory",
 "Interning a byte slice or string returns a string with exactly the given content, whatever was cached before. The returned and the cached string never share memory with a buffer that the caller keeps and may overwrite later.",
 ["inputs","histories"],"all byte slices, all cache contents, all later writes to the caller's buffer",
 "the tests never intern through the public functions",
 ["cache/cache.go","codec/binary.go","codec/hyperjson/bind.go","codec/json.go"],[("lookup and copy","cache/cache.go lookupCache"),("callers choose copy or no-copy","codec/binary.go readString, codec/hyperjson/bind.go StringValueDecoder, codec/json.go anyValueDecoder")])
p("C15","The string cache stays consistent, bounded and LRU",
 "After any sequence of operations the cache's map and its usage list hold exactly the same entries, and the reported count and size are those of the entries. After an insertion the size is below the configured maximum plus one entry, and the entries removed to get there are exactly the least recently used ones.",
 ["histories"],"all sequences of get and set with a positive maximum size",
 "tests insert random short strings and compare two counters or look at the size at the end",
 ["cache/lru.go"],[("list surgery","cache/lru.go PushHead, DropTail"),("eviction","cache/lru.go ensureCacheSize"),("accounting","cache/lru.go Set, Size")],
 [("values/usage","map and recency list","cache/lru.go lruCache")])
p("C16","Kafka messages carry the span and are never overwritten",
 "The kafka message made for a span has the span's trace id as 8 byte little-endian key, the configured topic, and a value that decodes to the span. The bytes of a message are never touched by the encoding of any later span, whatever the sizes of the spans.",
 ["histories","inputs"],"all sequences of spans of all sizes encoded by the same encoder",
 "the test encodes 10000 small spans of similar size and never looks at keys",
 ["balance/encoder.go","balance/sender.go"],[("arena allocation","balance/encoder.go Encode"),("sending","balance/sender.go sendSpan")],
 [("buf/slices","unused rest of the arenas","balance/encoder.go encoder")])
p("C17","Consumed kafka messages are delivered once and marked after delivery",
 "Every message of a claim whose value decodes is handed to the callback exactly once, in order, with the decoded span. A message is marked as processed only after its span was handed over; a message that does not decode is skipped, neither delivered nor marked, without affecting the others.",
 ["histories","inputs"],"all message sequences, valid and invalid mixed",
 "no test covers the consumer",
 ["balance/receiver.go"],[("consume loop","balance/receiver.go ConsumeClaim")])
p("C18","Client and server halves of a shared span merge losslessly",
 "Merging two reports of one span keeps all tags of both and, when the server half is merged into a client half or the other way round, the server's service, name and conflicting tag values win when non-empty, whichever half arrives first. Valid timings of both halves are kept, an unknown parent is filled in, and id, trace, timestamp and duration of the first report are left alone.",
 ["inputs","schedules"],"all pairs of span reports and both arrival orders",
 "three tests merge one-tag spans; precedence of names and services, arrival order and timings are not covered",
 ["correct.go"],[("merge","correct.go mergeSpansInPlace"),("parent fill-in","correct.go AddSpan")])
p("C19","A trace holds each span id once and finds it",
 "After any sequence of added spans a trace contains exactly one span per added span id, its span count equals the number of spans it holds, and looking up an id returns that span, or nothing if it was never added. Adding a span changes no other span.",
 ["histories"],"all sequences of added spans, in every id order and count",
 "tests add at most four spans in ascending id order or random order",
 ["correct.go"],[("sorted insertion","correct.go SpanSlice.Append"),("binary search","correct.go SpanSlice.GetSpanRef"),("counting","correct.go tree.AddSpan")],
 [("spans/nodeCount","spans sorted by descending id and their number","correct.go tree")])
p("C20","Roots and children are computed exactly",
 "The roots of a trace are exactly its spans that are their own parent or whose parent is not part of the trace, and the children of an id exactly the spans with that parent that are not their own parent. If several roots share one missing parent, the injected substitute root spans all of them in time and becomes the only root of the trace.",
 ["inputs"],"all traces: forests, self-parents, orphans, cycles",
 "tests look at a two span trace with one root",
 ["correct.go","proxy/span.go"],[("root search","correct.go Roots"),("child search","correct.go ChildrenOf"),("substitute root","correct.go createFakeRoot, allTheSameParent; proxy/span.go NewRootSpan")])
p("C21","Clock skew correction centres the server in the client",
 "When all four timings of a span are known, its timestamp becomes client-sent plus the skew inherited from its ancestors and its duration the client's, and all its descendants are additionally shifted by the difference of the client's and the server's midpoints. Without all four timings a span is shifted by the inherited skew only, a non-root span dated before 2020 takes its parent's timestamp, and nothing but timestamps and durations changes.",
 ["inputs"],"all trees and timings within the range of valid timestamps",
 "one test uses fixed timings in a chain of three spans (and fails at the pinned commit because its timestamps lie before 2020)",
 ["correct.go"],[("correction","correct.go correctTreeTimings")])
p("C22","A trace is released once, complete, and only when due",
 "A tick releases a trace only if it has exactly one root after root substitution, is not too large and not too old, and has not been updated within the current buffer time; the released trace holds all spans collected for it, and it leaves the collection so it is never released again. A trace that is neither due, too large nor too old stays untouched, and a trace that is too large or too old is dropped.",
 ["histories","schedules"],"all collections of traces, all ages and sizes, all tick times",
 "no test covers the release of traces",
 ["correct.go"],[("tick","correct.go finishTraces"),("size check","correct.go finishTraces nodeCount")],
 [("traces","traces being collected by trace id","correct.go ErrorCorrectSpans")])
p("C23","Overload sheds the largest traces down to the limit",
 "When the number of in-flight spans exceeds the limit, whole traces are discarded, largest first, until fewer than the limit remain, and no trace is discarded that is smaller than one that is kept. Below the limit nothing is discarded, and the list of banned trace ids stays below 1024 entries after every tick.",
 ["inputs","histories"],"all collections of traces and limits",
 "no test covers load shedding",
 ["correct.go"],[("shedding","correct.go discardSuspiciousTraces"),("ban list trimming","correct.go finishTraces")])
p("C24","Every sink receives the same converted trace",
 "For every trace the converter is applied once to each span in order, spans for which it fails or returns a zero id or trace id are left out, and every sink receives exactly the remaining converted spans in their original order. A trace is offered to all sinks before the next one.",
 ["inputs","histories"],"all traces, all converter outcomes, any number of sinks",
 "no test covers the fan-out",
 ["main.go"],[("fan-out","main.go forwardSpansToChannels")])
p("C25","The span buffer shows the most recent spans in order",
 "The buffer holds exactly the last N spans received, N being its capacity, and shows those with a non-zero id in the order they were received. Reading it does not change it.",
 ["histories"],"all sequences of traces and all capacities above zero",
 "no test covers the buffer",
 ["buffer.go"],[("ring write","buffer.go ReadFrom"),("ring read","buffer.go ToSlice")],
 [("position","slot to be overwritten next","buffer.go SpansBuffer")])
p("C26","Datadog spans mirror the zipkin spans",
 "Each datadog span carries the span's ids, service (also as name), tags, start in nanoseconds and duration, with durations below one microsecond raised to one microsecond and an empty name replaced by '(resource empty)'. It is flagged as an error exactly when the span has an 'error' tag other than 'false' and '0'.",
 ["inputs"],"all spans",
 "the datadog package has no tests",
 ["datadog/converter.go","proxy/id.go","proxy/timestamp.go"],[("conversion","datadog/converter.go Sink")])
p("C27","Datadog batches contain every span once, grouped by trace",
 "Every span handed to the datadog sink is put into exactly one batch, in the group of its trace id and after the earlier spans of that group, and later spans never overwrite it. A batch is handed on when at least 1000 spans are collected or on a timer, never empty, and a new batch starts empty; submitting hands each group of a batch to the transport exactly once.",
 ["histories","schedules"],"all sequences of traces and timer ticks",
 "the datadog package has no tests",
 ["datadog/converter.go"],[("batching","datadog/converter.go Sink"),("submitting","datadog/converter.go submitTraces")])
p("C28","Only valid, unbanned spans are collected, under their own trace",
 "A received span is collected under its own trace id exactly when its trace id and span id are non-zero and its trace id is not banned, and it is ignored otherwise. Receiving a span never affects any other trace, and collection stops when the intake is closed.",
 ["histories"],"all sequences of spans and ticks",
 "no test runs the collection loop",
 ["correct.go"],[("intake","correct.go ErrorCorrectSpans")])
p("C29","Shared state is only touched under its lock",
 "The shared string cache and the span buffer are only read or written while their mutex is held, every operation releases the mutex it took on every path, and none takes it twice. So concurrent requests and readers never see them in an intermediate state.",
 ["schedules"],"all interleavings of callers, given the mutex semantics of the Go runtime",
 "the tests are single threaded",
 ["cache/cache.go","buffer.go"],[("cache lock","cache/cache.go lookupCache, RegisterCacheMetrics"),("buffer lock","buffer.go ReadFrom, ToSlice")])
p("C30","Timestamps convert between units exactly",
 "A timestamp made from microseconds denotes a thousand times as many nanoseconds, converting to milli- or microseconds truncates towards zero, adding a duration adds its nanoseconds, and a timestamp is valid exactly when it is positive. Converting to a time value and back to nanoseconds returns the same timestamp.",
 ["inputs"],"all timestamps representable without overflow",
 "tests only use a few fixed timestamps indirectly",
 ["proxy/timestamp.go","proxy/span.go"],[("conversions","proxy/timestamp.go")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P:
    assert len(d["title"])<=80,d["title"]
    n=d["statement"].count(". ")+1
    assert n<=3,(d["id"],n)
print(len(P))
