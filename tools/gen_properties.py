#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: the P list below)."""
import json, os

SDKT = "opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py"
SDKTE = "opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py"
SAMP = "opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py"
APIT = "opentelemetry-api/src/opentelemetry/trace/__init__.py"
APISPAN = "opentelemetry-api/src/opentelemetry/trace/span.py"
ATTR = "opentelemetry-api/src/opentelemetry/attributes/__init__.py"
CTX = "opentelemetry-api/src/opentelemetry/context/__init__.py"
TC = "opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py"
BAG = "opentelemetry-api/src/opentelemetry/baggage/__init__.py"
BAGP = "opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py"
B3 = "propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py"
JG = "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"
COMP = "opentelemetry-api/src/opentelemetry/propagators/composite.py"
PROP = "opentelemetry-api/src/opentelemetry/propagate/__init__.py"
MI = "opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/"
LI = "opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py"
LE = "opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py"
RES = "opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py"
CFG = "opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py"
OC = "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/"
OH = "exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/"
OG = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/"
PM = "exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/"
ZJ = "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/"
ZP = "exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/"
OCE = "exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/"
OTS = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
OCS = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/"

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": a,
    })


# ---------------------------------------------------------------- tracing
p("T01", "A span is the exact record of the calls made on it until it ends",
  "For every sequence of span operations (attributes, events, links, name, status, exceptions, end) the finished span shows exactly the effect of the calls made while it was recording, in call order, and no call made after the span ended changes anything in it. A status of OK is final and an UNSET status never replaces a set one, a description survives only with ERROR, and each processor sees one start and one end per recorded span.",
  ["histories"], "all sequences of public span calls, including repeated end, calls after end, explicit and implicit timestamps, exception exits",
  "Tests check single calls or fixed short scripts; the law quantifies over all interleavings of setters, status changes and end.",
  [SDKT, APISPAN, "opentelemetry-api/src/opentelemetry/trace/status.py"],
  [("recording guard in every mutator", SDKT + ": Span._lock / is_recording checks"), ("status precedence", SDKT + ": Span.set_status"), ("single end", SDKT + ": Span.end")],
  [("_end_time", "None while recording", SDKT)], ["exported ReadableSpan", "SpanProcessor.on_start/on_end"])
p("T02", "Span limits bound what is kept and the dropped counts account for the rest",
  "Under any combination of limits (attribute count, value length, events, links, per-event and per-link attributes) a span never holds more than the limits allow, keeps the most recently added items in order, and what was offered equals what was kept plus what is reported dropped. String values are cut to the configured length, and the effective limit is the explicit argument, else the specific environment variable, else the general one, else the documented default.",
  ["inputs", "configurations"], "all limit settings (arguments and environment) and all attribute/event/link sequences",
  "Tests try a handful of limits with uniform data; interaction of overwrite, eviction, truncation and environment precedence is a product space.",
  [SDKT, ATTR, "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py"],
  [("BoundedAttributes eviction", ATTR), ("BoundedList eviction", "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py"), ("SpanLimits precedence", SDKT + ": SpanLimits")],
  None, ["ReadableSpan.attributes/events/links and dropped_*"])
p("T03", "Every span has a valid identity and the right parent",
  "A started span has a non-zero 128-bit trace id and non-zero 64-bit span id; with a valid parent (explicit context, current span, or remote) it continues that trace id and trace state and records that parent, and otherwise it is the root of a fresh trace. Identifiers come from the configured generator, distinct spans get distinct span ids, recorded start and end times are ordered as the calls were made, and the span carries the instrumentation scope of its tracer and the resource of its provider.",
  ["histories", "inputs"], "all trees of spans built through explicit contexts, current-span nesting, remote parents and invalid parents",
  "Tests use a couple of parent/child pairs and cannot enumerate the shapes of nesting and the kinds of parent.",
  [SDKT, "opentelemetry-sdk/src/opentelemetry/sdk/trace/id_generator.py", APIT],
  [("parent resolution", SDKT + ": Tracer.start_span"), ("rejection of invalid ids", "opentelemetry-sdk/src/opentelemetry/sdk/trace/id_generator.py")],
  None, ["Span.get_span_context", "ReadableSpan.parent"])
p("T04", "Sampling decisions are consistent, deterministic and respected",
  "A ratio sampler decides from the trace id alone, keeps a superset of traces as its ratio grows, and keeps everything at 1 and nothing at 0; a parent-based sampler delegates exactly by (root, remote or local, sampled or not). A dropped span records nothing and reaches no processor, a record-only span is recorded with the sampled flag off, a sampled one has the flag on, and sampler-supplied attributes and trace state appear on the span.",
  ["inputs", "configurations"], "all trace ids, ratios, parent kinds, sampler compositions and environment sampler settings",
  "Tests check a few ids and ratios; the laws are over the whole 128-bit id space and sampler compositions.",
  [SAMP, SDKT],
  [("ratio bound on trace id", SAMP + ": TraceIdRatioBased"), ("delegation", SAMP + ": ParentBased"), ("decision to flags", SDKT + ": Tracer.start_span")],
  None, ["Sampler.should_sample", "span flags, processors"])
p("T05", "Making a span current is scoped and records how the scope was left",
  "Entering a span scope makes that span current for exactly the dynamic extent of the scope and restores the previous current span on every kind of exit, in every thread and task independently. Leaving by an exception propagates that same exception unchanged and, when so configured, records it as an event and sets an error status, and a scope that owns the span ends it exactly once.",
  ["histories", "schedules"], "all nestings of scopes, decorators, generators, threads and async tasks with normal, exception and early exits",
  "Tests cover one level with one exception; nesting with every combination of flags and exits is unbounded.",
  [APIT, SDKT, CTX, "opentelemetry-api/src/opentelemetry/util/_decorator.py"],
  [("use_span", APIT), ("start_as_current_span", SDKT), ("context tokens", CTX)],
  None, ["get_current_span", "recorded events and status"])
p("T06", "The batch span processor delivers each sampled span exactly once, in order",
  "For every schedule of ending spans, batch exports, flushes and shutdown, each sampled span handed to the batch processor is exported at most once, spans from one thread are exported in the order they ended, and no export call exceeds the maximum batch size or overlaps another; the batch given to it does not change afterwards. No more spans wait than the maximum queue size; a span is lost only when the queue was full, in which case the oldest waiting spans give way, or when it ended after shutdown; a failing exporter affects only its own batch, and every waiting span is exported by the schedule alone, without a flush.",
  ["schedules", "fault_sequences"], "all interleavings of producer threads, the export worker, flush and shutdown callers, and all exporter failures",
  "Tests run real threads under one accidental schedule with sleeps; losing or duplicating needs a specific interleaving.",
  [SDKTE], [("bounded deque with lock-free append", SDKTE + ": BatchSpanProcessor.on_end"), ("worker loop", SDKTE + ": BatchSpanProcessor.worker")],
  [("queue", "ended spans not yet exported", SDKTE)], ["SpanExporter.export calls"])
p("T07", "Flush and shutdown of span processors leave nothing behind",
  "When force-flush of a batch or simple processor, or of the tracer provider, reports success before any shutdown, every sampled span that ended before the call has been handed to the exporter. A flush whose budget suffices succeeds and one that cannot finish within its time budget reports failure once the budget is spent. Shutdown exports everything still waiting, shuts the exporter down, returns, and a batch processor exports nothing afterwards; no sequence of flush and shutdown calls hangs.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of span ends, flushes (with budgets) and shutdowns, with slow or failing exporters",
  "A test can only observe one schedule; the guarantee is for the worst-placed flush or shutdown.",
  [SDKTE, SDKT], [("flush request handshake", SDKTE + ": BatchSpanProcessor.force_flush"), ("drain at shutdown", SDKTE + ": BatchSpanProcessor.worker"), ("provider shutdown", SDKT + ": TracerProvider.shutdown")],
  None, ["SpanExporter.export/shutdown calls"])
p("T08", "Span processors are all notified, in registration order, independently of timing",
  "Each registered processor receives one start and one end for every recorded span, in registration order for the sequential composite, and the concurrent composite delivers to all before returning; a processor added later is told only of later starts and ends. Flushing the composite succeeds exactly when every processor's flush succeeds within the shared budget, and a failing exporter behind a simple processor never raises into application code nor leaks its export-time context.",
  ["histories", "fault_sequences"], "all processor lists, registration points, flush outcomes and exporter failures",
  "Tests use one or two mock processors with uniform outcomes.",
  [SDKT, SDKTE], [("SynchronousMultiSpanProcessor", SDKT), ("ConcurrentMultiSpanProcessor", SDKT), ("SimpleSpanProcessor", SDKTE)],
  None, ["processor callbacks"])
p("T09", "Attribute collections accept any input and expose only clean values",
  "Whatever keys and values are offered, an attribute collection never raises, keeps only non-empty string keys with values that are scalars or homogeneous sequences of scalars, keeps the last accepted value per key, and rejects or decodes everything else. Stored sequences are immutable copies that later changes to the caller's objects cannot affect, and an immutable collection cannot be modified at all.",
  ["inputs", "histories"], "all Python values and keys, nested, heterogeneous, byte strings with any encoding, and all mutation sequences",
  "The input space is all Python objects; tests list a few shapes.",
  [ATTR], [("_clean_attribute", ATTR), ("BoundedAttributes", ATTR)], None, ["mapping view of attributes"])
p("T10", "JSON forms of spans, metrics, logs and resources are faithful",
  "For every finished span, metrics batch, log record or resource the JSON form parses and carries exactly the recorded names, identifiers (fixed-width hex), kinds, statuses, timestamps, attributes, events, links, resource and point values. Console exporters write that form once per item in order.",
  ["inputs"], "all recordable telemetry items",
  "Tests compare a few literal strings; formatting must be right for every id, time and attribute value.",
  [SDKT, MI + "point.py", LI, RES, "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py", SDKTE],
  [("ReadableSpan.to_json", SDKT), ("MetricsData.to_json", MI + "point.py"), ("LogRecord.to_json", LI), ("ns_to_iso_str", "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py")],
  None, ["to_json()", "console exporter output"])

p("T11", "Concurrent calls on one span take effect one at a time",
  "When several threads set attributes, add events and links, record exceptions, rename, set statuses, read and end one span, the span exported, the span afterwards and every result are those of some order of the calls in which each takes effect as a whole and none is moved before a call that had returned when it began. In particular the span is exported once, nothing recorded before the end is lost, nothing after it appears, limits and dropped counts stay exact.",
  ["schedules"], "all interleavings of calls of several threads on one span with any limits",
  "Tests call a span from one thread; a lost update or a torn snapshot needs a switch inside a call.",
  [SDKT, ATTR, "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py"],
  [("Span mutators", SDKT + ": Span"), ("_check_span_ended", SDKT), ("BoundedAttributes", ATTR), ("BoundedList", "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py")],
  None, ["exported span", "is_recording", "span properties"])

# ---------------------------------------------------------------- context / propagation
p("C01", "Context is immutable and isolated per thread and task",
  "Setting a value never changes an existing context and the new context differs only in that key; attaching makes a context current only in the attaching thread or task, and detaching its token restores exactly what was current before. This holds for every nesting and for every interleaving of threads, async tasks and generators, and a misused token never raises.",
  ["schedules", "histories"], "all sequences of set, attach and detach across threads and tasks, including out-of-order and foreign tokens",
  "Tests use one or two levels; isolation is a claim about all interleavings.",
  [CTX, "opentelemetry-api/src/opentelemetry/context/contextvars_context.py", "opentelemetry-api/src/opentelemetry/context/context.py"],
  [("contextvars runtime", "opentelemetry-api/src/opentelemetry/context/contextvars_context.py"), ("copy on set", CTX + ": set_value")], None, ["get_current", "get_value"])
p("C02", "Trace state is an immutable ordered list that stays valid under all operations",
  "Trace state never holds more than 32 entries, only entries whose key and value fit the W3C grammar, no duplicates, and add, update and delete return new values (leaving the original intact) with the changed entry first and the others in order; an invalid operation leaves the contents as they were. Formatting to a header and parsing it back gives the same entries in the same order.",
  ["inputs", "histories"], "all key/value strings, sizes around 32 and all sequences of operations and headers",
  "Boundary combinations of size, grammar and order are combinatorial.",
  [APISPAN], [("TraceState", APISPAN)], None, ["TraceState mapping and to_header"])
p("C03", "W3C trace context survives the wire and malformed headers change nothing",
  "Injecting any valid span context and extracting it restores the same trace id, span id, flags and trace state, marked remote; an invalid context injects nothing. A traceparent that is not well-formed (wrong version, length, hex digits, all-zero ids) leaves the given context unchanged and never raises, and a bad tracestate never damages the ids.",
  ["inputs"], "all span contexts and all header strings, including near-valid mutations, duplicates and odd carriers",
  "The header language is infinite; tests list some bad strings.",
  [TC, APISPAN], [("TraceContextTextMapPropagator", TC), ("TraceState.from_header", APISPAN)], None, ["carrier after inject", "context after extract"])
p("C04", "Baggage is immutable and survives the wire within its limits",
  "Setting, removing and clearing baggage return new contexts that differ only in the named entry, never altering earlier contexts or exposing mutable storage. Any baggage of valid keys and string values injected as a W3C header is extracted with the same names and values; entries that are malformed or exceed the documented size and count limits are left out without affecting the rest, and no header makes extraction raise.",
  ["inputs", "histories"], "all key/value texts including separators, percent signs, Unicode and metadata, all arbitrary headers, all operation sequences",
  "Encoding round trips and limit edges need generated strings.",
  [BAG, BAGP, "opentelemetry-api/src/opentelemetry/util/re.py"], [("copy on write", BAG), ("quote/unquote and limits", BAGP)], None, ["get_all", "baggage header"])
p("C05", "B3 propagation round-trips and tolerates any header",
  "For both the single-header and multi-header B3 forms, injecting a valid span context and extracting it restores trace id, span id and sampling decision, marked remote, and debug and sampled flags read as sampled. Short 64-bit trace ids are accepted, the single header takes precedence, and headers that do not carry a valid identity leave the given context unchanged and never raise.",
  ["inputs"], "all span contexts, both forms, all header combinations and malformed values",
  "Tests list specific header values; the malformed space is infinite.",
  [B3], [("B3MultiFormat / B3SingleFormat", B3)], None, ["carrier", "extracted context"])
p("C06", "Jaeger propagation round-trips and tolerates any header",
  "Injecting a valid span context and baggage as Jaeger headers and extracting restores trace id, span id, sampling decision and every baggage entry, marked remote. A header without a valid identity leaves the current span of the given context unchanged, and no header content makes extraction raise.",
  ["inputs"], "all span contexts and baggage, all header strings",
  "Only a few literal headers are tested.",
  [JG], [("JaegerPropagator", JG)], None, ["carrier", "extracted context"])
p("C07", "Composite propagation equals applying its parts in order",
  "A composite injects what each member injects and extracts by passing the context through every member in order, and its field list covers every header any member may write. The process-wide propagator built from configuration contains exactly the named propagators in order, and carrier keys are found however the getter presents them.",
  ["inputs", "configurations"], "all lists of propagators, contexts, carriers and configured names",
  "Tests use mocks for two propagators.",
  [COMP, PROP, "opentelemetry-api/src/opentelemetry/propagators/textmap.py"], [("CompositePropagator", COMP), ("environment list", PROP)], None, ["carrier", "context", "fields"])
p("C08", "Header lists in configuration parse to exactly the well-formed pairs",
  "For any configured header string, parsing yields a mapping containing exactly the well-formed name=value pairs (names lower-cased, values percent-decoded, last wins), skipping malformed ones, and never raises. Formatting any mapping of valid names and values (without surrounding white space) and parsing it gives the mapping back.",
  ["inputs"], "all strings, strict and liberal modes",
  "The string space is infinite; tests list some.",
  ["opentelemetry-api/src/opentelemetry/util/re.py"], [("parse_env_headers", "opentelemetry-api/src/opentelemetry/util/re.py")], None, ["returned mapping"])

# ---------------------------------------------------------------- metrics
p("M01", "Sums conserve every measurement, in every temporality and for every reader",
  "For counters and up-down counters the cumulative value per attribute set equals the sum of all measurements recorded, and the delta values reported at successive collections add up to the same total, with no measurement counted twice or lost. This holds independently for every reader, whatever the collection times of the others, and negative increments to a counter change nothing.",
  ["histories"], "all sequences of measurements and collections over several instruments, attribute sets, temporalities and readers",
  "Tests run short fixed scripts with one reader.",
  [MI + "aggregation.py", MI + "_view_instrument_match.py", MI + "metric_reader_storage.py", MI + "measurement_consumer.py"],
  [("_SumAggregation", MI + "aggregation.py"), ("per reader storage", MI + "metric_reader_storage.py")], None, ["MetricReader collected data"])
p("M02", "Explicit-bucket histograms count every value in the right bucket",
  "In every reported histogram point the bucket counts sum to the count, each value recorded in the interval is counted in the bucket whose upper bound is the first one not below it, and sum, min and max are those of the recorded values. Bucket boundaries are the ones in force for that instrument (view, else instrument advice, else defaults), and deltas merge to the cumulative.",
  ["histories", "inputs", "configurations"], "all value sequences including boundary-equal, negative, huge values; all boundary lists; both temporalities",
  "Boundary equality and per-instrument boundary choice need generated data.",
  [MI + "aggregation.py", MI + "instrument.py", MI + "view.py"], [("_ExplicitBucketHistogramAggregation", MI + "aggregation.py"), ("boundary selection", MI + "aggregation.py: ExplicitBucketHistogramAggregation")], None, ["HistogramDataPoint"])
p("M03", "Exponential histograms place every value within its bucket's bounds",
  "In every reported exponential histogram point the zero count plus all bucket counts equals the count, each recorded value lies within the bounds that scale and bucket index define (up to floating-point rounding of the boundary), sum, min and max are exact, and neither side uses more buckets than the configured size. Successive deltas describe exactly the interval's values and the cumulative describes all of them, at the finest scale the size allows for the recorded range.",
  ["histories", "inputs"], "all sequences of finite values across magnitudes, signs and zero; all sizes and scales; collections at any point; both temporalities",
  "Rescaling and circular storage depend on the order and spread of values.",
  [MI + "aggregation.py", MI + "exponential_histogram/buckets.py", MI + "exponential_histogram/mapping/logarithm_mapping.py", MI + "exponential_histogram/mapping/exponent_mapping.py"],
  [("downscale and merge", MI + "aggregation.py"), ("circular buckets", MI + "exponential_histogram/buckets.py"), ("index mappings", MI + "exponential_histogram/mapping")], None, ["ExponentialHistogramDataPoint"])
p("M04", "Gauges report the latest value",
  "A synchronous or observable gauge reports, for each attribute set measured since the previous collection, exactly the last value recorded or observed, with integers and floats kept as given, and reports nothing for attribute sets never measured.",
  ["histories"], "all sequences of sets, observations and collections over attribute sets and readers",
  "Tests use one or two values.",
  [MI + "aggregation.py", MI + "instrument.py"], [("_LastValueAggregation", MI + "aggregation.py")], None, ["Gauge data points"])
p("M05", "Views select, rename, filter and re-aggregate exactly what they match",
  "Each instrument produces one stream per matching view with that view's name, description, attribute keys and aggregation, or the default stream when none matches, and nothing for a dropped one. Restricting attribute keys merges attribute sets without losing any measurement: the totals, counts and extremes of the merged points equal those of the unmerged ones.",
  ["configurations", "histories"], "all view lists (name patterns, type, unit, scope criteria, attribute filters, aggregations) and measurement sequences",
  "The product of criteria and instruments is large; tests take single criteria.",
  [MI + "view.py", MI + "_view_instrument_match.py", MI + "metric_reader_storage.py"], [("View matching", MI + "view.py"), ("attribute filtering", MI + "_view_instrument_match.py")], None, ["collected metrics"])
p("M06", "Observable instruments report what their callbacks observed, once per collection",
  "At every collection by a reader each callback is called once, what it yields is what is reported under cumulative temporality, and delta temporality reports the difference from that reader's previous observation, so deltas add up to the latest observation. A callback that raises or yields nothing affects only its own observations and never stops collection or other instruments.",
  ["histories", "fault_sequences"], "all callback behaviours (functions, generators, lists, exceptions, attribute sets appearing and disappearing) over collections by several readers",
  "Tests use well-behaved constant callbacks with a single reader.",
  [MI + "instrument.py", MI + "measurement_consumer.py", MI + "aggregation.py"], [("callback loop", MI + "instrument.py: _Asynchronous.callback"), ("delta conversion", MI + "aggregation.py")], None, ["callback invocations", "collected points"])
p("M07", "Exemplars are genuine measurements of the point they are attached to",
  "Every exemplar on a reported point carries a value, time and (when a sampled span was current) trace and span id of a measurement really recorded into that point during the interval, with exactly the attributes that the stream filtered out. The configured filter decides which measurements qualify, the number kept never exceeds the reservoir size, and for bucketed reservoirs each exemplar falls in its own bucket.",
  ["histories", "inputs"], "all measurement sequences, contexts, attribute filters, exemplar filters and reservoirs",
  "Sampling is random, so single runs prove little; the law is over all draws.",
  [MI + "exemplar/exemplar_reservoir.py", MI + "exemplar/exemplar_filter.py", MI + "_view_instrument_match.py"], [("reservoirs", MI + "exemplar/exemplar_reservoir.py"), ("filters", MI + "exemplar/exemplar_filter.py")], None, ["data point exemplars"])
p("M08", "Collection intervals are contiguous and ordered",
  "Every point's start time is not after its time; for one stream and reader, delta points cover contiguous, non-overlapping intervals and cumulative points keep one fixed start time while their time advances. Every point of one collection carries the same collection time.",
  ["histories"], "all sequences of measurements and collections over instrument kinds, temporalities and readers",
  "Tests check two collections of one stream.",
  [MI + "aggregation.py", MI + "_view_instrument_match.py", MI + "metric_reader_storage.py"], [("start/end bookkeeping", MI + "aggregation.py")], None, ["start_time_unix_nano", "time_unix_nano"])
p("M09", "Instrument and meter identity is by name, kind, unit and description",
  "Asking a meter again for the same instrument (names compared case-insensitively) yields an instrument feeding the same stream, names or units outside the documented grammar are refused, and asking a provider again for the same scope yields the same meter. Every collected metric carries the name, unit, description, scope and resource it was created with, however many instruments, meters and threads created them.",
  ["inputs", "histories", "schedules"], "all instrument/meter creation sequences and names, including concurrent creation",
  "Tests create a few instruments in sequence.",
  [MI + "__init__.py", "opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py", "opentelemetry-api/src/opentelemetry/metrics/_internal/instrument.py"], [("instrument registry", "opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py: Meter._register_instrument"), ("meter cache", MI + "__init__.py: MeterProvider.get_meter")], None, ["collected metrics"])
p("M10", "Periodic reader exports everything on time, through failures, until shutdown",
  "A periodic metric reader exports once per interval, never runs two exports at once, keeps running after a collection or export fails, and on flush or shutdown exports all measurements recorded before the call; a flush reports what the exporter's own flush reports. A shutdown passes on the time that is left, and afterwards the exporter has been shut down once, nothing further is exported, and the thread ends.",
  ["schedules", "fault_sequences"], "all interleavings of measurements, ticks, flushes and shutdown, with failing, slow or raising exporters and callbacks",
  "Tests rely on real sleeps and one schedule.",
  [MI + "export/__init__.py"], [("ticker thread", MI + "export/__init__.py: PeriodicExportingMetricReader"), ("export lock", MI + "export/__init__.py")], None, ["MetricExporter.export/shutdown calls"])
p("M11", "Concurrent measurements and collections lose and duplicate nothing",
  "For every interleaving of threads recording measurements, creating attribute sets and collecting, the final cumulative state equals that of some sequential order of the same measurements, and the deltas reported add up to it. No interleaving raises, deadlocks or produces an inconsistent point.",
  ["schedules"], "all interleavings of recording and collecting threads for every instrument kind and temporality",
  "Race outcomes depend on the schedule; tests run none or an accidental one.",
  [MI + "aggregation.py", MI + "_view_instrument_match.py", MI + "metric_reader_storage.py", MI + "measurement_consumer.py", MI + "__init__.py"], [("aggregation locks", MI + "aggregation.py"), ("storage locks", MI + "metric_reader_storage.py")], None, ["collected metrics"])
p("M12", "Metric readers and the meter provider shut down once and reach every reader",
  "Flushing or shutting down the meter provider calls every reader, reports failure if any fails while still reaching the others, and a second shutdown does nothing. A reader belongs to at most one provider, and after shutdown instruments stay usable without effect or error.",
  ["histories", "fault_sequences"], "all reader lists with any mix of outcomes, and all sequences of provider calls",
  "Tests use one failing mock.",
  [MI + "__init__.py", MI + "export/__init__.py"], [("MeterProvider.force_flush/shutdown", MI + "__init__.py")], None, ["reader calls"])

# ---------------------------------------------------------------- logs
p("L01", "Emitted log records reach every processor unchanged, within limits",
  "Every record emitted on a logger is delivered once to each registered processor in order, together with that logger's scope, with the fields exactly as given, attributes cleaned and bounded by the limits and dropped ones counted. Flush of the logger provider succeeds exactly when every processor's flush does within the budget, and events become log records with the event's name, payload, time and trace identity.",
  ["histories", "inputs"], "all records, limits, processor lists, scopes and events",
  "Tests use a few fixed records.",
  [LI, "opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py", "opentelemetry-api/src/opentelemetry/_events/__init__.py"], [("Logger.emit", LI), ("SynchronousMultiLogRecordProcessor", LI), ("EventLogger.emit", "opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py")], None, ["LogRecordProcessor.emit"])
p("L02", "Standard-library logging maps faithfully to log records",
  "Each standard logging call that reaches the handler produces one log record whose body, severity, timestamp, extra attributes, source location, exception details and current trace identity are those of the call, with severities ordered as the Python levels are. Logging never raises into the application and never re-enters itself because of the export.",
  ["inputs"], "all levels, messages, arguments, extras, exceptions and span contexts",
  "Tests log a few literals.",
  [LI, "opentelemetry-api/src/opentelemetry/_logs/severity/__init__.py"], [("LoggingHandler._translate", LI), ("std_to_otel", "opentelemetry-api/src/opentelemetry/_logs/severity/__init__.py")], None, ["emitted LogRecord"])
p("L03", "The batch log processor delivers each record exactly once and flushes fully",
  "For every schedule of emits, batch exports, flushes and shutdown, each emitted record is exported at most once, in order, in batches no larger than configured, never overlapping and not changed afterwards; no more than the maximum queue size wait, and records are lost only by overflow of the queue, oldest first, or when emitted after shutdown. A flush that reports success and a shutdown both leave no earlier record unexported, exporter failures affect only their batch, and no sequence hangs.",
  ["schedules", "fault_sequences"], "all interleavings of emitters, the worker, flushes and shutdowns with failing exporters",
  "One accidental schedule per test run.",
  [LE], [("BatchLogRecordProcessor", LE)], None, ["LogExporter.export/shutdown calls"])

# ---------------------------------------------------------------- resources, configuration, globals
p("R01", "Resources merge predictably and detection never breaks start-up",
  "Merging resources takes the updating resource's value for each key, is associative with the empty resource as identity, follows the schema-URL rule, never alters its operands, and equal resources are interchangeable. Creating a resource applies, from weakest to strongest, SDK defaults, detectors and environment, then explicit attributes, decodes the environment list pair by pair skipping malformed ones, always yields a service name, and survives failing or slow detectors.",
  ["inputs", "configurations", "fault_sequences"], "all attribute maps, schema URLs, environment strings and detector behaviours",
  "Tests check fixed pairs.",
  [RES], [("Resource.merge", RES), ("OTELResourceDetector", RES), ("get_aggregated_resources", RES)], None, ["Resource.attributes", "schema_url"])
p("R02", "Environment configuration builds exactly the pipeline it names",
  "Configuring the SDK from the environment installs for each signal exactly the exporters named, in order and wrapped in a batching pipeline, with the named sampler and argument, id generator, resource and protocol-specific exporter. An unknown name is reported as an error for exporters, falls back to the documented default for samplers and numeric settings, and disabling the SDK yields non-recording telemetry.",
  ["configurations"], "all combinations of the exporter, protocol, sampler, id generator, batch and disable settings, valid or not",
  "The configuration space is a product; tests check single settings.",
  [CFG, SAMP, SDKTE, LE], [("_initialize_components", CFG), ("sampler from env", SAMP), ("batch defaults from env", SDKTE)], None, ["installed providers and pipelines"])
p("R03", "Telemetry objects obtained before configuration work after it",
  "Tracers, meters, instruments, loggers and event loggers obtained from the global entry points before a provider is set do nothing until then and afterwards behave as if obtained from that provider with the same name, version, schema and attributes. A global provider can be set only once, under any number of racing callers, and every getter returns the one that won.",
  ["histories", "schedules"], "all orders of obtaining, using and setting for all signals, with racing setters and getters",
  "Tests exercise one order per signal.",
  [APIT, "opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py", "opentelemetry-api/src/opentelemetry/metrics/_internal/instrument.py", "opentelemetry-api/src/opentelemetry/_logs/_internal/__init__.py", "opentelemetry-api/src/opentelemetry/_events/__init__.py", "opentelemetry-api/src/opentelemetry/util/_once.py"],
  [("proxies", "opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py: _ProxyMeterProvider"), ("set once", "opentelemetry-api/src/opentelemetry/util/_once.py")], None, ["recorded telemetry", "global getters"])
p("R04", "The API without an SDK is inert and safe",
  "With no SDK installed, with the SDK disabled, or on no-op providers, every API call with any arguments of the documented types succeeds, records nothing, and keeps span context propagation working: a span started under a valid parent carries that parent's context unchanged and is not recording. Ending, status, attribute, event and instrument calls have no observable effect.",
  ["histories", "configurations"], "all sequences of API calls on no-op, proxy and disabled providers",
  "Tests call each no-op method once.",
  [APIT, APISPAN, "opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py", SDKT], [("NoOpTracer / NonRecordingSpan", APIT), ("NoOpMeter", "opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py"), ("OTEL_SDK_DISABLED", SDKT)], None, ["return values", "current span"])
p("R05", "The global error handler contains every error it guards",
  "An exception raised under the global error handler is swallowed after every registered handler that matches it has been given it exactly once, or the default handler logged it when none handled it; a handler that itself fails does not stop the others or leak its error. Code that raises nothing triggers no handler.",
  ["fault_sequences"], "all exception types and sets of registered handlers, succeeding or failing",
  "Tests use one handler and one exception.",
  ["opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py"], [("GlobalErrorHandler.__exit__", "opentelemetry-sdk/src/opentelemetry/sdk/error_handler/__init__.py")], None, ["handler invocations"])
p("R06", "Code that the SDK calls may use the API in turn",
  "Handlers of the SDK's own log messages, samplers, id generators, processors, exporters, observable callbacks and exemplar filters may themselves record spans, events, attributes, measurements and logs and create instruments, on the very objects they are called about, and may take a lock of the application that other threads hold while they record. No call then hangs, raises or recurses without end, and what is recorded comes out exactly once.",
  ["histories", "schedules", "fault_sequences"], "all nestings of API calls in code called by the SDK, in one or several threads",
  "Tests call the SDK from plain code; a lock held while user code runs shows only when that code calls back in.",
  [SDKT, SDKTE, MI + "measurement_consumer.py", LI, "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py"],
  [("Span lock", SDKT), ("collect", MI + "measurement_consumer.py"), ("SimpleLogRecordProcessor.emit", "opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py")], None, ["results", "exported telemetry"])

p("R07", "What was recorded before the process ends normally is exported",
  "When a program ends by reaching its end, sys.exit, an uncaught exception or an interrupt, with providers made to shut down at exit and none shut down before, every ended span, emitted log record and measurement of the main thread, of threads that outlive it and of exit functions registered later than the providers is exported exactly once before its exporter is shut down once - by simple and batch processors and periodic readers, behind sequential and concurrent composites. Nothing raises, hangs or changes the exit status.",
  ["histories", "configurations", "schedules"], "all pipelines and all ways to end a program, with recording up to and during the exit",
  "A test process cannot exit to see what happens; the exit sequence stops thread pools before it calls exit functions.",
  [SDKT, SDKTE, LI, MI + "export/__init__.py", "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py"],
  [("shutdown_on_exit", SDKT), ("worker", SDKTE), ("exit handler", LI), ("submit_or_run", "opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py")], None, ["exported telemetry", "exit status", "stderr"])
p("R08", "Providers keep working in forked children",
  "After a fork, whatever other threads of the parent are doing at that moment (exporting, flushing, collecting, running callbacks, recording, creating instruments), providers, loggers, meters and instruments made before it work in the child, in its children and in the parent: no call hangs or raises, each process exports exactly the spans and log records it recorded itself, once, what was queued at the fork is exported by the parent only, cumulative metrics go on from the values at the fork, flush and shutdown succeed, and trace and span ids of the processes differ.",
  ["schedules", "histories"], "all pipelines, all states of the other threads at the fork, children and grandchildren",
  "Tests fork with no other thread in the middle of something, and one generation only.",
  [SDKT, SDKTE, LI, "opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py", MI + "export/__init__.py", MI + "measurement_consumer.py", "opentelemetry-api/src/opentelemetry/util/_fork.py"],
  [("_at_fork_reinit", SDKTE), ("_at_fork_reinit", MI + "export/__init__.py"), ("fork_safe", "opentelemetry-api/src/opentelemetry/util/_fork.py")], None, ["exported telemetry of every process", "ids"])

p("R09", "In-memory exporters hold and console exporters write exactly what was exported",
  "For every history of exports, directly or by processors, and also by concurrent threads, the in-memory span and log exporters hold exactly the exported items in order since the last clear, what an earlier read returned does not change, and after shutdown exports are refused while what is held stays readable. The console exporters write the formatter's text for each item once, in order, to the stream they were given and flush it before they return success.",
  ["histories", "schedules"], "all export, read, clear and shutdown histories, formatters and streams",
  "Tests export a few spans and read them once.",
  ["opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py", "opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/in_memory_log_exporter.py", SDKTE, LE],
  [("InMemorySpanExporter", "opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py"), ("ConsoleSpanExporter", SDKTE), ("ConsoleLogExporter", LE)], None, ["stored items", "stream"])

# ---------------------------------------------------------------- exporters
p("E01", "OTLP encoding of spans is lossless",
  "Encoding any batch of finished spans and decoding it yields each span exactly once under its own resource and scope (with schema URLs and scope attributes), with identifiers, parent, trace state, name, kind, times, status, attributes with their types, events, links, dropped counts and remote-parent flag preserved, in order. An attribute that cannot be encoded is left out without affecting the rest of the batch.",
  ["inputs"], "all batches of spans over resources, scopes and attribute values",
  "Tests compare one hand-built batch.",
  [OC + "trace_encoder/__init__.py", OC + "__init__.py"], [("encode_spans", OC + "trace_encoder/__init__.py"), ("_encode_value", OC + "__init__.py")], None, ["ExportTraceServiceRequest"])
p("E02", "OTLP encoding of metrics is lossless",
  "Encoding any metrics batch and decoding it yields each point exactly once under its resource, scope and metric, with point type, temporality, monotonicity, times, integer or floating value, counts, bounds, scale, offsets, min, max, attributes and exemplars preserved. The exporter's temporality and aggregation preferences follow its configuration.",
  ["inputs", "configurations"], "all metrics batches of every point type and all preference settings",
  "Tests compare hand-built points.",
  [OC + "metrics_encoder/__init__.py"], [("encode_metrics", OC + "metrics_encoder/__init__.py")], None, ["ExportMetricsServiceRequest"])
p("E03", "OTLP encoding of logs is lossless",
  "Encoding any batch of log records and decoding it yields each record exactly once under its resource and scope, with times, severity, body of any documented type (nested maps and lists included), attributes, dropped count, trace identity and flags preserved; absent optional fields stay absent and never make the batch fail.",
  ["inputs"], "all batches of log records with every optional field present or absent",
  "Tests compare one hand-built batch with all fields set.",
  [OC + "_log_encoder/__init__.py", OC + "__init__.py"], [("encode_logs", OC + "_log_encoder/__init__.py")], None, ["ExportLogsServiceRequest"])
p("E04", "OTLP over HTTP sends the whole batch, retries only transient errors, and stops",
  "For every sequence of server responses the HTTP exporters send the complete encoded batch (under the configured compression, headers and endpoint) on each attempt, retry exactly on request-timeout and server-error statuses with doubling delays up to the limit, report success exactly when an attempt was accepted, and send nothing after shutdown. Endpoint, headers, timeout and compression come from the argument, else the signal's variable, else the general one, else the default.",
  ["fault_sequences", "configurations"], "all response sequences, all three signals, all configuration sources",
  "Tests check single responses with mocks.",
  [OH + "trace_exporter/__init__.py", OH + "metric_exporter/__init__.py", OH + "_log_exporter/__init__.py"], [("retry loop", OH + "trace_exporter/__init__.py"), ("settings precedence", OH + "trace_exporter/__init__.py")], None, ["HTTP requests seen by the server"])
p("E05", "OTLP over gRPC retries only transient errors, honours server delays, and stops",
  "For every sequence of server outcomes the gRPC exporters retry exactly on the documented transient codes, waiting the server-requested delay when one is given and otherwise doubling delays up to the limit, and report success exactly when an attempt was accepted. After shutdown nothing is sent and failure is reported, a shutdown during an export waits no longer than its budget and leaves the exporter usable-but-failing, and headers, timeout, compression and security follow the configuration order.",
  ["fault_sequences", "configurations", "schedules"], "all outcome sequences, retry hints, shutdown moments and configuration sources",
  "Tests check single codes with a local server.",
  [OG + "exporter.py", OG + "trace_exporter/__init__.py"], [("retry loop", OG + "exporter.py: OTLPExporterMixin._export"), ("shutdown lock", OG + "exporter.py")], None, ["RPCs seen by the stub"])
p("E06", "Splitting a metrics export keeps every point exactly once",
  "For every metrics batch and every maximum size, the split requests contain each data point exactly once, in order, under the same resource, scope and metric description, no request holds a metric, scope or resource without points, each holds at most the maximum and only the last may hold fewer, and the overall result is a failure exactly when one of them failed.",
  ["inputs"], "all nested batches and all sizes",
  "Tests cover a few shapes.",
  [OG + "metric_exporter/__init__.py"], [("_split_metrics_data", OG + "metric_exporter/__init__.py")], None, ["requests sent"])
p("E07", "A Prometheus scrape shows every current value, once, under legal names",
  "Every scrape renders to valid exposition text in which each current sum, gauge and histogram point appears exactly once with its value, under a legal metric name with unit suffix and legal labels carrying the attribute values; histogram buckets are cumulative and end in the total count. Scraping never fails because of other metrics, and repeated scrapes or flushes between scrapes do not duplicate or lose series.",
  ["inputs", "histories"], "all instruments, names, units, attributes, values, flush/scrape sequences",
  "Tests compare a few literal renderings.",
  [PM + "__init__.py", PM + "_mapping.py"], [("_CustomCollector", PM + "__init__.py"), ("name mapping", PM + "_mapping.py")], None, ["exposition text"])
p("E08", "Zipkin exports carry every span faithfully",
  "For every batch of spans the Zipkin JSON v1, v2 and protobuf payloads contain each span once with its identifiers, parent, name, kind, times rounded to microseconds, attributes, resource and status as tags, events as annotations, and the node's service name. Tag values are limited to the configured length with list values still valid, every setting of the length (including none) works, and the result reflects the server's answer.",
  ["inputs", "configurations"], "all span batches, encodings, tag lengths and server statuses",
  "Tests compare fixed spans.",
  [ZJ + "encoder/__init__.py", ZJ + "json/v1/__init__.py", ZJ + "json/v2/__init__.py", ZP + "v2/__init__.py", ZJ + "json/__init__.py"], [("Encoder", ZJ + "encoder/__init__.py"), ("JsonV1Encoder/JsonV2Encoder", ZJ + "json"), ("ProtobufEncoder", ZP + "v2/__init__.py")], None, ["HTTP payload"])
p("E09", "OpenCensus export carries every span faithfully",
  "For every batch of spans the OpenCensus collector request contains each span once with its ids, parent, kind, times to the nanosecond, status, trace state, attributes, events and links preserved, and the export result reflects whether the call failed.",
  ["inputs", "fault_sequences"], "all span batches and client failures",
  "Tests compare one fixed span.",
  [OCE + "trace_exporter/__init__.py", OCE + "util.py"], [("translate_to_collector", OCE + "trace_exporter/__init__.py")], None, ["collector request"])

# ---------------------------------------------------------------- shims
p("S01", "OpenTracing programs behave the same through the shim",
  "Every program of OpenTracing calls (start, activate, nested scopes, tags, logs, references, explicit parents, ignoring the active span, close with or without finish, inject and extract) produces OpenTelemetry spans with the corresponding parents, links, attributes, events, times and ends, and leaves the active span as the OpenTracing rules say. Injected contexts are extracted with the same identity.",
  ["programs", "histories"], "all OpenTracing call sequences",
  "Tests run one call pattern each.",
  [OTS], [("TracerShim", OTS), ("ScopeManagerShim", OTS)], None, ["finished OpenTelemetry spans", "active span"])
p("S02", "OpenCensus programs behave the same through the shim",
  "Every program of OpenCensus tracing calls (nested spans by scope or by start and end, attributes, annotations, message events, status, propagated parents) produces OpenTelemetry spans with the corresponding parents, attributes, events, times and status, mixed freely with OpenTelemetry spans, and leaves the current span as it was before.",
  ["programs", "histories"], "all OpenCensus call sequences, time zones and propagated contexts",
  "Tests run one call pattern each.",
  [OCS + "_shim_tracer.py", OCS + "_shim_span.py", OCS + "_patch.py"], [("ShimTracer", OCS + "_shim_tracer.py"), ("ShimSpan", OCS + "_shim_span.py")], None, ["finished OpenTelemetry spans", "current span"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    out = os.path.join(here, "..", "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
