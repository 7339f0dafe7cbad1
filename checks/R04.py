"""R04: the API without an SDK is inert and safe, and keeps propagating."""
import asyncio
import logging
import os

from hypothesis import strategies as st

from opentelemetry import _events as api_events
from opentelemetry import _logs as api_logs
from opentelemetry import context as api_context
from opentelemetry import metrics as api_metrics
from opentelemetry import trace
from opentelemetry._logs.severity import SeverityNumber
from opentelemetry.context import Context
from opentelemetry.metrics import Observation
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecordProcessor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.trace import Link, NonRecordingSpan, SpanKind, Status, StatusCode
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from vlib.core import sub
from vlib.gen import attributes, pick, times_ns, utext, weighted
from vlib.spans import any_ctx, ctx_of, link, link_of, span_ctx

RULE = ("histories of API calls (spans nested and with explicit contexts, their methods, exceptions, decorators, instruments, log records, events, flush and shutdown) on the default providers, the no-op providers and SDK providers with the SDK disabled, "
        "against a model of the current span context; processors, readers and callbacks must see nothing. non-trivial: a span was started under a valid parent.")
ASSUMPTIONS = ["arguments are of the documented types"]
LOGGING = True
logging.getLogger("opentelemetry").addHandler(logging.NullHandler())
logging.getLogger("opentelemetry").propagate = False

RES = Resource({})
HITS = []


class Proc(SpanProcessor):
    def on_start(self, span, parent_context=None):
        HITS.append("on_start")

    def on_end(self, span):
        HITS.append("on_end")


class LogProc(LogRecordProcessor):
    def emit(self, d):
        HITS.append("emit")

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=0):
        return True


class Boom(Exception):
    pass


def providers(kind):
    """(tracer provider, meter provider, logger provider, event logger provider, reader)"""
    if kind == "default":
        return trace.get_tracer_provider(), api_metrics.get_meter_provider(), api_logs.get_logger_provider(), api_events.get_event_logger_provider(), None
    if kind == "noop":
        return trace.NoOpTracerProvider(), api_metrics.NoOpMeterProvider(), api_logs.NoOpLoggerProvider(), api_events.NoOpEventLoggerProvider(), None
    os.environ["OTEL_SDK_DISABLED"] = kind
    try:
        tp = TracerProvider(resource=RES, shutdown_on_exit=False)
        reader = InMemoryMetricReader()
        mp = MeterProvider([reader], RES, shutdown_on_exit=False)
        lp = LoggerProvider(RES, shutdown_on_exit=False)
    finally:
        del os.environ["OTEL_SDK_DISABLED"]
    tp.add_span_processor(Proc())
    lp.add_log_record_processor(LogProc())
    return tp, mp, lp, EventLoggerProvider(lp), reader


def callback(options):
    HITS.append("callback")
    return [Observation(1)]


attrs = weighted((1, st.none()), (2, attributes))
ctx = weighted((3, st.none()), (1, st.just("empty")), (2, any_ctx))
start = st.fixed_dictionaries({"name": utext, "ctx": ctx, "kind": st.integers(0, 4), "attrs": attrs, "links": weighted((1, st.none()), (1, st.lists(link, max_size=2))), "time": weighted((2, st.none()), (1, times_ns)),
                               "rec": st.booleans(), "stat": st.booleans(), "end": st.booleans()})
inner_call = st.one_of(
    st.tuples(st.just("end"), weighted((1, st.none()), (1, times_ns))), st.tuples(st.just("attr"), utext, st.one_of(st.integers(), utext, st.lists(st.booleans(), max_size=2))), st.tuples(st.just("attrs"), attributes),
    st.tuples(st.just("event"), utext, attrs, weighted((1, st.none()), (1, times_ns))), st.tuples(st.just("name"), utext), st.tuples(st.just("status"), st.integers(0, 2), weighted((1, st.none()), (1, utext)), st.booleans()),
    st.tuples(st.just("exc"), utext, attrs), st.tuples(st.just("link"), any_ctx, attrs),
)
kinds = pick("counter", "up_down_counter", "histogram", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge")
amount = st.one_of(st.integers(), st.floats())
leaf = weighted(
    (3, st.tuples(st.just("start"), start)),
    (4, st.tuples(st.just("call"), st.integers(0, 5), inner_call)),
    (3, st.tuples(st.just("inst"), kinds, weighted((3, pick("c", "h")), (1, utext)), weighted((3, pick("", "ms")), (1, utext)), utext, st.lists(amount, max_size=3), attrs, weighted((2, st.none()), (1, st.just([1.0, 2.0]))))),
    (2, st.tuples(st.just("log"), weighted((1, st.none()), (2, utext)), attrs, weighted((1, st.none()), (1, times_ns)))),
    (2, st.tuples(st.just("event"), utext, attrs)),
    (1, st.tuples(st.just("std"), utext)),
    (1, st.tuples(st.just("flush"))),
    (1, st.tuples(st.just("shutdown"))),
    (1, st.tuples(st.just("inject"))),
)


def tree(children):
    block = st.lists(children, max_size=4)
    return weighted(
        (2, leaf),
        (3, st.tuples(st.just("with"), start, block, weighted((3, st.just("")), (1, st.just("raise"))))),
        (1, st.tuples(st.just("deco"), pick("plain", "async"), start, block)),
        (1, st.tuples(st.just("use"), st.integers(0, 5), st.booleans(), block, weighted((3, st.just("")), (1, st.just("raise"))))),
        (2, st.tuples(st.just("under"), any_ctx, block)),
    )


node = st.recursive(leaf, tree, max_leaves=12)
base = st.tuples(pick("default", "noop", "true", "TRUE", " True "), st.lists(node, min_size=1, max_size=6), st.tuples(pick("lib", ""), pick(None, "1"), pick(None, "s"), weighted((1, st.none()), (1, st.just({"a": 1})))))


class World:
    def __init__(self, rec, kind, scope):
        self.rec = rec
        HITS.clear()
        self.tp, self.mp, self.lp, self.ep, self.reader = providers(kind)
        name, version, schema, at = scope
        self.tracer = self.tp.get_tracer(name, version, schema, at)
        self.meter = self.mp.get_meter(name, version, schema, at)
        self.logger = self.lp.get_logger(name, version, schema, at)
        self.events = self.ep.get_event_logger(name, version, schema, at)
        self.disabled = kind not in ("default", "noop")
        self.spans = []
        self.busy = False

    # the span context that a new span has to carry
    def expect(self, c, cur):
        p = cur if c is None else trace.INVALID_SPAN_CONTEXT if c == "empty" else ctx_of(c)
        return p if p.is_valid else trace.INVALID_SPAN_CONTEXT

    def kw(self, s):
        c = None if s["ctx"] is None else Context() if s["ctx"] == "empty" else trace.set_span_in_context(NonRecordingSpan(ctx_of(s["ctx"])), Context())
        return dict(name=s["name"], context=c, kind=SpanKind(s["kind"]), attributes=s["attrs"], links=None if s["links"] is None else [link_of(x) for x in s["links"]], start_time=s["time"], record_exception=s["rec"],
                    set_status_on_exception=s["stat"])

    def verify(self, span, want, what):
        rec = self.rec
        got = span.get_span_context()
        rec.check(got == want and got.is_remote == want.is_remote and got.trace_state == want.trace_state, "%s: its context is %r, its parent's is %r", what, got, want)
        rec.check(not span.is_recording(), "%s is recording", what)
        self.busy = self.busy or want.is_valid

    def current(self, want):
        got = trace.get_current_span().get_span_context()
        self.rec.check(got == want and got.is_remote == want.is_remote, "the current span context is %r, expected %r", got, want)

    def call(self, span, c):
        before = span.get_span_context()
        if c[0] == "end":
            span.end(c[1])
        elif c[0] == "attr":
            span.set_attribute(c[1], c[2])
        elif c[0] == "attrs":
            span.set_attributes(c[1])
        elif c[0] == "event":
            span.add_event(c[1], c[2], c[3])
        elif c[0] == "name":
            span.update_name(c[1])
        elif c[0] == "status":
            code = list(StatusCode)[c[1]]
            span.set_status(code, c[2]) if c[3] else span.set_status(Status(code, c[2] if code is StatusCode.ERROR else None))
        elif c[0] == "exc":
            span.record_exception(ValueError(c[1]), c[2])
        elif c[0] == "link":
            span.add_link(ctx_of(c[1]), c[2])
        self.rec.check(span.get_span_context() == before and not span.is_recording(), "%s changed the span", c[0])

    def block(self, nodes, cur):
        for n in nodes:
            self.do(n, cur)
            self.current(cur)

    def do(self, n, cur):
        op = n[0]
        if op == "start":
            span = self.tracer.start_span(**self.kw(n[1]))
            self.verify(span, self.expect(n[1]["ctx"], cur), "span started")
            self.spans.append(span)
        elif op == "call":
            if self.spans:
                self.call(self.spans[n[1] % len(self.spans)], n[2])
        elif op == "with":
            want = self.expect(n[1]["ctx"], cur)
            boom = Boom()
            try:
                with self.tracer.start_as_current_span(end_on_exit=n[1]["end"], **self.kw(n[1])) as span:
                    self.verify(span, want, "span of a with block")
                    self.spans.append(span)
                    self.current(want)
                    self.block(n[2], want)
                    if n[3]:
                        raise boom
                self.rec.check(not n[3], "an exception was swallowed")
            except Boom as e:
                self.rec.check(e is boom, "another exception came out")
        elif op == "deco":
            want = self.expect(n[2]["ctx"], cur)
            dec = self.tracer.start_as_current_span(end_on_exit=n[2]["end"], **self.kw(n[2]))
            if n[1] == "async":
                @dec
                async def f(x):
                    self.current(want)
                    self.block(n[3], want)
                    return x + 1

                def g(x):
                    try:
                        f(x).send(None)
                    except StopIteration as e:
                        return e.value
            else:
                @dec
                def g(x):
                    self.current(want)
                    self.block(n[3], want)
                    return x + 1
            self.rec.eq((g(1), g(2)), (2, 3), "results of a decorated function")
        elif op == "use":
            if not self.spans:
                return
            span = self.spans[n[1] % len(self.spans)]
            want = span.get_span_context()
            boom = Boom()
            try:
                with trace.use_span(span, end_on_exit=n[2]) as s:
                    self.rec.check(s is span, "use_span gave another span")
                    self.block(n[3], want)
                    if n[4]:
                        raise boom
                self.rec.check(not n[4], "an exception was swallowed")
            except Boom as e:
                self.rec.check(e is boom, "another exception came out")
        elif op == "under":
            c = ctx_of(n[1])
            token = api_context.attach(trace.set_span_in_context(NonRecordingSpan(c)))
            self.block(n[2], c)
            api_context.detach(token)
        elif op == "inst":
            _, kind, name, unit, desc, amounts, at, adv = n
            kw = {"callbacks": [callback]} if kind.startswith("observable") else {"explicit_bucket_boundaries_advisory": adv} if kind == "histogram" else {}
            i = getattr(self.meter, "create_" + kind)(name, unit=unit, description=desc, **kw)
            for a in amounts:
                if kind in ("counter", "up_down_counter"):
                    i.add(a, at)
                elif kind == "histogram":
                    i.record(a, at)
                elif kind == "gauge":
                    i.set(a, at)
        elif op == "log":
            self.logger.emit(api_logs.LogRecord(timestamp=n[3], body=n[1], attributes=n[2], severity_number=SeverityNumber.INFO))
        elif op == "event":
            self.events.emit(api_events.Event(n[1], attributes=n[2]))
        elif op == "std":
            h = LoggingHandler(logger_provider=self.lp)
            h.emit(logging.LogRecord("n", 20, "f", 1, "%s", (n[1],), None))
            h.flush()
        elif op == "inject":
            carrier = {}
            TraceContextTextMapPropagator().inject(carrier)
            if cur.is_valid:
                want = "00-%032x-%016x-%02x" % (cur.trace_id, cur.span_id, cur.trace_flags)
                self.rec.eq(carrier.get("traceparent"), want, "injected")
            else:
                self.rec.eq(carrier, {}, "injected without a valid span")
        elif op in ("flush", "shutdown") and self.disabled:
            for p in (self.tp, self.mp, self.lp):
                (p.force_flush if op == "flush" else p.shutdown)()


@sub("calls", base, quick=3500, thorough=100000)
def run(rec, case):
    kind, nodes, scope = case
    w = World(rec, kind, scope)
    w.block(nodes, trace.INVALID_SPAN_CONTEXT)
    if w.reader is not None:
        data = w.reader.get_metrics_data()
        rec.check(data is None or not data.resource_metrics, "the disabled SDK produced metrics %s", data)
    rec.eq(HITS, [], "calls of processors and callbacks")
    rec.nontrivial(w.busy)
    rec.label(kind)


@sub("tasks", st.tuples(pick("default", "noop", "true"), st.lists(st.tuples(span_ctx, st.integers(0, 3)), min_size=2, max_size=4)), quick=300, thorough=5000, rule="concurrent tasks each keep their own parent. non-trivial: two tasks interleave")
def tasks(rec, case):
    kind, specs = case
    w = World(rec, kind, ("lib", None, None, None))

    async def one(c, steps):
        api_context.attach(trace.set_span_in_context(NonRecordingSpan(c)))
        for _ in range(steps):
            with w.tracer.start_as_current_span("s") as s:
                await asyncio.sleep(0)
                w.verify(s, c, "span in a task")
                w.current(c)
                await asyncio.sleep(0)
            w.current(c)

    async def main():
        await asyncio.gather(*(one(ctx_of(c), n) for c, n in specs))
    asyncio.run(main())
    rec.nontrivial(sum(n > 0 for _, n in specs) > 1)
