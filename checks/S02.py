"""S02: OpenCensus programs run through the shim next to a model of spans and contexts, in every time zone."""
import datetime
import os
import threading
import time

from hypothesis import strategies as st
from opencensus.trace import execution_context, link as oc_link, span_context as oc_span_context, status as oc_status, time_event, trace_options, tracestate
from opencensus.trace.blank_span import BlankSpan
from opencensus.trace.samplers import AlwaysOffSampler
from opencensus.trace.span import SpanKind as OcSpanKind
from opencensus.trace.tracer import Tracer as OcTracer

from opentelemetry import context, trace
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult
from opentelemetry.shim.opencensus import install_shim, uninstall_shim
from opentelemetry.trace import SpanKind, StatusCode
from vlib.core import sub
from vlib.gen import attr_key, attributes, finite, frozen_map, i64, pick, small_key, span_ids, trace_ids, ts_key_simple, ts_value, utext, weighted
from vlib.spans import CODES, EXC, ctx_of, exc_type_name, span_ctx

RULE = ("random programs of OpenCensus calls (nested spans by with, by exceptions and by end_span, attributes, annotations, message events, statuses, links and kinds) on tracers with and without a propagated parent, mixed with "
        "OpenTelemetry scopes, remote parents and other threads, in several time zones, against a model. non-trivial: two spans nested and a span with a parent.")

ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "XXX-5:30", "YYY+11", "Pacific/Auckland"]
when = weighted((3, st.datetimes(datetime.datetime(1970, 1, 1), datetime.datetime(2100, 1, 1))), (1, pick(datetime.datetime(1970, 1, 1), datetime.datetime(2023, 3, 12, 2, 30), datetime.datetime(2023, 11, 5, 1, 30, 0, 1), datetime.datetime(2023, 1, 1, 0, 0, 0, 999999))))
size = weighted((1, st.none()), (1, st.integers(0, 10**6)), (1, st.integers(0, 99).map(str)))
msg = st.tuples(when, st.one_of(utext, st.integers(0, 99)), weighted((1, st.none()), (3, st.integers(0, 2))), size, size)
word = st.text("abcxyz_", min_size=1, max_size=4).filter(lambda k: k not in ("self", "description"))
annotation = st.tuples(utext, st.dictionaries(word, st.one_of(st.booleans(), i64, finite, utext), max_size=3))
code = weighted((2, st.just(0)), (3, st.integers(1, 16)))
tval = st.one_of(st.booleans(), i64, finite, utext)
names = weighted((4, utext), (1, pick("drop", "drop it")))
exc = st.tuples(pick(*sorted(set(EXC) - {"GeneratorExit"})), utext)
idx = st.integers(0, 20)
op = weighted(
    (7, st.tuples(st.just("start"), st.integers(0, 2), pick("start_span", "span", "child"), names)),
    (2, st.tuples(st.just("otel_scope"), names)),
    (1, st.tuples(st.just("remote_scope"), span_ctx)),
    (5, st.tuples(st.just("close"), pick("end_span", "with"), st.none())),
    (2, st.tuples(st.just("close"), st.just("with"), exc)),
    (2, st.tuples(st.just("attr"), idx, small_key, tval)),
    (1, st.tuples(st.just("attr_current"), st.integers(0, 2), small_key, tval)),
    (2, st.tuples(st.just("annotate"), idx, annotation)),
    (3, st.tuples(st.just("message"), idx, msg)),
    (2, st.tuples(st.just("status"), idx, code, weighted((1, st.none()), (2, utext)))),
    (1, st.tuples(st.just("finish"), idx)),
    (1, st.tuples(st.just("ignored"), idx)),
    (1, st.tuples(st.just("thread"), st.integers(0, 2), names)),
)
oc_entries = st.lists(st.tuples(ts_key_simple, ts_value), max_size=4, unique_by=lambda t: t[0])
# trace id, span id, options, trace state, from a header
prop = weighted((1, st.none()), (2, st.tuples(trace_ids, weighted((5, span_ids), (1, st.none())), st.booleans(), weighted((1, st.none()), (2, oc_entries)), st.booleans())))
TYPES = ["TYPE_UNSPECIFIED", "SENT", "RECEIVED"]


class ByName(Sampler):
    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        state = trace.get_current_span(parent_context).get_span_context().trace_state
        if name.startswith("drop"):
            return SamplingResult(Decision.DROP, None, state)
        return SamplingResult(Decision.RECORD_AND_SAMPLE, attributes, state)

    def get_description(self):
        return "by name"


def key(c):
    return (c.trace_id, c.span_id)


def full(c):
    return (c.trace_id, c.span_id, c.is_remote, bool(c.trace_flags.sampled), list(c.trace_state.items()))


class H:
    def __init__(self, span, otel, name, parent, start):
        self.span, self.otel, self.name, self.parent, self.start = span, otel, name, parent, start
        self.recorded = not name.startswith("drop")
        self.attrs, self.events, self.code, self.desc, self.end = {}, [], 0, None, None
        self.loose = False

    @property
    def live(self):
        return self.recorded and self.end is None

    def status(self, code, desc):
        if self.live and self.code != 1:
            self.code, self.desc = code, desc if code == 2 else None


class Run:
    def __init__(self, rec, props, late):
        self.rec = rec
        self.exporter = InMemorySpanExporter()
        tp = TracerProvider(sampler=ByName(), resource=Resource({}), shutdown_on_exit=False)
        tp.add_span_processor(SimpleSpanProcessor(self.exporter))
        if late:
            install_shim(tp)
        self.tracers, self.parents = [], []
        for p in props:
            if p is None:
                self.tracers.append(OcTracer(sampler=AlwaysOffSampler()))
                self.parents.append(None)
            else:
                sc = oc_span_context.SpanContext("%032x" % p[0], None if p[1] is None else "%016x" % p[1], trace_options.TraceOptions("1" if p[2] else "0"),
                                                 None if p[3] is None else tracestate.Tracestate(p[3]), p[4])
                self.tracers.append(OcTracer(span_context=sc, sampler=AlwaysOffSampler()))
                self.parents.append(None if p[1] is None else (p[0], p[1], p[4], p[2], [tuple(x) for x in p[3] or []]))
        if not late:
            install_shim(tp)
        self.otel = tp.get_tracer("program")
        self.handles, self.stack, self.ended = [], [], []  # stack: (kind, object, H or None, OTel span)
        self.with_parent = self.nested = 0

    def check_current(self, what, stack=None):
        rec = self.rec
        stack = self.stack if stack is None else stack
        got = trace.get_current_span()
        if stack:
            want = stack[-1][3]
            rec.check(got is want, "current OpenTelemetry span %s: %r, expected %r", what, got, want)
        else:
            rec.check(got is trace.INVALID_SPAN, "current OpenTelemetry span %s: %r, expected none", what, got)
        shims = [e[1] for e in stack if e[0] == "oc"]
        for t in self.tracers:
            cur = t.current_span()
            rec.check(cur is (shims[-1] if shims else None), "current OpenCensus span %s", what)
        rec.check(execution_context.get_current_span() is (shims[-1] if shims else None), "current span of the OpenCensus execution context %s", what)

    def start(self, ti, how, name, stack):
        rec = self.rec
        t = self.tracers[ti % len(self.tracers)]
        tp = self.parents[ti % len(self.tracers)]
        before = time.time_ns()
        if how == "child" and stack and stack[-1][0] == "oc":
            # a child of the current span, whichever tracer that came from
            s, tp = stack[-1][1].span(name), None
        elif how == "span":
            s = t.span(name)
        else:
            s = t.start_span(name)
        after = time.time_ns()
        otel = trace.get_current_span()
        sc = otel.get_span_context()
        rec.check(isinstance(s, BlankSpan), "type of an OpenCensus span")
        rec.check(sc.is_valid, "a span was not made current")
        rec.eq(s.span_id, sc.span_id, "span id")
        rec.eq(s.same_process_as_parent_span, True, "same process")
        known = {key(h.otel.get_span_context()) for h in self.handles}
        rec.check(key(sc) not in known, "identity of another span")
        if stack:
            parent = full(stack[-1][3].get_span_context())
        else:
            parent = tp
        if parent is not None:
            self.with_parent += 1
            rec.eq(sc.trace_id, parent[0], "trace of a child")
            rec.eq(list(sc.trace_state.items()), parent[4], "trace state of a child")
        else:
            rec.check(sc.trace_id not in {k[0] for k in known} | {p[0] for p in self.parents if p}, "a root span joins another trace")
        h = H(s, otel, name, parent, (before, after))
        rec.check(otel.is_recording() == h.recorded, "recording state of a new span")
        self.handles.append(h)
        stack.append(("oc", s, h, otel))
        self.nested = max(self.nested, len([e for e in stack if e[0] == "oc"]))
        return h

    def leave(self, h, e, before):
        if e is not None and h.live and not isinstance(e, Exception):
            # whether KeyboardInterrupt and the like are recorded is not specified
            h.loose = True
        if e is not None and h.live and isinstance(e, Exception):
            h.events.append(("exception", {"exception.type": exc_type_name(e), "exception.message": str(e)}, None))
            h.status(2, "%s: %s" % (type(e).__name__, e))
        self.finished(h, before)

    def finished(self, h, before):
        if h.live:
            h.end = (before, time.time_ns())
            self.ended.append(h)

    def close(self, mode, e, ti=0, stack=None):
        rec = self.rec
        stack = self.stack if stack is None else stack
        kind, obj, h, _otel = stack[-1]
        ex = None if e is None else EXC[e[0]](e[1])
        before = time.time_ns()
        if kind == "token":
            context.detach(obj)
            stack.pop()
            return
        if kind == "oc" and mode == "end_span":
            self.tracers[ti % len(self.tracers)].end_span()
            ex = None
        elif kind == "oc":
            try:
                with obj as entered:
                    rec.check(entered is obj, "a span entered is another one")
                    if ex is not None:
                        raise ex
            except BaseException as got:
                if got is not ex:
                    raise
            else:
                rec.check(ex is None, "the span swallowed %r", ex)
        else:
            try:
                obj.__exit__(*((None,) * 3 if ex is None else (type(ex), ex, ex.__traceback__)))
            except BaseException as got:
                if got is not ex:
                    raise
        stack.pop()
        self.leave(h, ex, before)

    def handle(self, i):
        hs = [h for h in self.handles if h.span is not None]
        return hs[i % len(hs)] if hs else None

    def do(self, o):
        rec = self.rec
        k = o[0]
        if k == "start":
            self.start(o[1], o[2], o[3], self.stack)
        elif k == "otel_scope":
            before = time.time_ns()
            cm = self.otel.start_as_current_span(o[1])
            parent = full(self.stack[-1][3].get_span_context()) if self.stack else None
            span = cm.__enter__()
            h = H(None, span, o[1], parent, (before, time.time_ns()))
            self.handles.append(h)
            self.stack.append(("otel", cm, h, span))
        elif k == "remote_scope":
            span = trace.NonRecordingSpan(ctx_of(o[1][:4] + (True,)))
            self.stack.append(("token", context.attach(trace.set_span_in_context(span)), None, span))
        elif k == "close":
            if self.stack:
                self.close(o[1], o[2], len(self.handles))
        elif k == "attr":
            h = self.handle(o[1])
            if h:
                h.span.add_attribute(o[2], o[3])
                if h.live:
                    h.attrs[o[2]] = o[3]
        elif k == "attr_current":
            hs = [e[2] for e in self.stack if e[0] == "oc"]
            if hs:
                self.tracers[o[1] % len(self.tracers)].add_attribute_to_current_span(o[2], o[3])
                if hs[-1].live:
                    hs[-1].attrs[o[2]] = o[3]
        elif k == "annotate":
            h = self.handle(o[1])
            if h:
                before = time.time_ns()
                h.span.add_annotation(o[2][0], **o[2][1])
                if h.live:
                    h.events.append((o[2][0], o[2][1], (before, time.time_ns())))
        elif k == "message":
            h = self.handle(o[1])
            if h:
                ts, mid, typ, big, small = o[2]
                m = time_event.MessageEvent(ts, mid, typ, big, small)
                h.span.add_message_event(m)
                if h.live:
                    attrs = {"message.event.type": TYPES[typ or 0]}
                    if big is not None:
                        attrs["message.event.size.uncompressed"] = big
                    if small is not None or big is not None:
                        attrs["message.event.size.compressed"] = small if small is not None else big
                    h.events.append((str(mid), attrs, (ts - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1) * 1000))
        elif k == "status":
            h = self.handle(o[1])
            if h:
                h.span.set_status(oc_status.Status(o[2], o[3]))
                h.status(1 if o[2] == 0 else 2, o[3])
        elif k == "finish":
            h = self.handle(o[1])
            if h:
                before = time.time_ns()
                h.span.finish()
                self.finished(h, before)
        elif k == "ignored":
            h = self.handle(o[1])
            if h:
                h.span.add_link(oc_link.Link("1", "1"))
                h.span.span_kind = OcSpanKind.CLIENT
        elif k == "thread":
            err = []

            def target():
                try:
                    stack = []
                    self.check_current("in a new thread", stack)
                    self.start(o[1], "start_span", o[2], stack)
                    self.check_current("in a thread", stack)
                    self.close("with" if o[1] else "end_span", None, o[1], stack)
                    self.check_current("at the end of a thread", stack)
                except BaseException as e:  # handed to the main thread
                    err.append(e)
            t = threading.Thread(target=target)
            t.start()
            t.join()
            if err:
                raise err[0]

    def verify(self):
        rec = self.rec
        got = self.exporter.get_finished_spans()
        rec.eq([key(s.context) for s in got], [key(h.otel.get_span_context()) for h in self.ended], "spans ended, in order")
        for s, h in zip(got, self.ended):
            rec.eq(s.name, h.name, "name")
            rec.eq(None if s.parent is None else full(s.parent), h.parent, "parent")
            rec.eq(dict(s.attributes), frozen_map(h.attrs), "attributes")
            rec.check(not s.links and s.kind is SpanKind.INTERNAL, "links or kind")
            rec.check(h.start[0] <= s.start_time <= h.start[1] and h.end[0] <= s.end_time <= h.end[1], "times")
            if h.loose:
                continue
            rec.eq(len(s.events), len(h.events), "number of events")
            for e, (n, a, t) in zip(s.events, h.events):
                rec.eq(e.name, n, "name of an event")
                attrs = dict(e.attributes)
                if t is None:
                    rec.eq({k: attrs.get(k) for k in a}, a, "attributes of an exception")
                    continue
                rec.eq(attrs, a, "attributes of an event")
                if isinstance(t, tuple):
                    rec.check(t[0] <= e.timestamp <= t[1], "time of an event")
                else:
                    rec.eq(e.timestamp, t, "time of a message event")
            rec.check(s.status.status_code is CODES[h.code], "status %r, expected %d", s.status.status_code, h.code)
            rec.eq(s.status.description or None, h.desc or None, "description of the status")
        for h in self.handles:
            rec.check(h.otel.is_recording() == h.live, "recording state of %r", h.name)


@sub("programs", st.tuples(pick(*ZONES), st.lists(prop, min_size=1, max_size=3), st.booleans(), st.lists(op, min_size=1, max_size=25)), quick=3000, thorough=60000, rule=RULE)
def programs(rec, case):
    zone, props, late, ops = case
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    token = context.attach(context.Context())
    execution_context.set_current_span(None)
    uninstall_shim()
    r = None
    try:
        r = Run(rec, props, late)
        for o in ops:
            r.do(o)
            r.check_current("after " + o[0])
        while r.stack:
            r.close("with", None)
            r.check_current("after closing")
        r.verify()
    finally:
        while r and r.stack:
            e = r.stack.pop()
            try:
                if e[0] == "token":
                    context.detach(e[1])
                else:
                    e[1].__exit__(None, None, None)
            except Exception:
                pass
        context.detach(token)
        execution_context.set_current_span(None)
        uninstall_shim()
        if old is None:
            os.environ.pop("TZ")
        else:
            os.environ["TZ"] = old
        time.tzset()
    rec.nontrivial(r.nested >= 2 and r.with_parent > 0)
    rec.label(*{o[0] for o in ops})
