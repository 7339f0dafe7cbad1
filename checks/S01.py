"""S01: OpenTracing programs run through the shim next to a model of spans, scopes and references."""
import threading
import time
from fractions import Fraction

import opentracing
from hypothesis import strategies as st

from opentelemetry import baggage, context, trace
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.propagate import get_global_textmap, set_global_textmap
from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.propagators.jaeger import JaegerPropagator
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult
from opentelemetry.shim.opentracing_shim import SpanContextShim, create_tracer
from opentelemetry.trace import SpanContext, SpanKind, StatusCode
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from vlib.core import sub
from vlib.gen import attributes, finite, frozen_map, i64, pick, small_key, utext, weighted
from vlib.spans import EXC, ctx_of, exc_type_name, span_ctx

RULE = ("random programs of OpenTracing calls (start, start active, activate again, tags, logs, names, finish, scopes closed by call, by with and by exceptions) mixed with scopes of OpenTelemetry spans, "
        "remote parents, other threads and injected and extracted contexts, against a model. non-trivial: two scopes nested and a span with a parent.")

PROPAGATORS = {
    "w3c": lambda: CompositePropagator([TraceContextTextMapPropagator(), W3CBaggagePropagator()]),
    "w3c_rev": lambda: CompositePropagator([W3CBaggagePropagator(), TraceContextTextMapPropagator()]),
    "b3": B3SingleFormat, "b3multi": B3MultiFormat, "jaeger": JaegerPropagator,
    "all": lambda: CompositePropagator([W3CBaggagePropagator(), B3MultiFormat(), JaegerPropagator(), TraceContextTextMapPropagator()]),
}
FORMATS = [opentracing.Format.TEXT_MAP, opentracing.Format.HTTP_HEADERS]

secs = weighted((2, st.floats(0, 4e9)), (1, st.integers(0, 4 * 10**9)), (1, st.floats(1.6e9, 1.8e9)), (2, pick(0, 0.0, 1.0, 0.5, 1e-9, 1570484241.9501917)))
opt_secs = weighted((1, st.none()), (1, secs))
idx = st.integers(0, 20)
refs = st.lists(st.tuples(pick("child_of", "follows_from"), weighted((4, st.tuples(st.just("span"), idx)), (2, st.tuples(st.just("ctx"), idx)), (1, st.just(("none", 0))), (1, st.just(("invalid", 0))))), max_size=3)
parent = weighted((6, st.none()), (2, st.tuples(st.just("span"), idx)), (2, st.tuples(st.just("spanctx"), idx)), (1, st.tuples(st.just("ctx"), idx)))
names = weighted((4, utext), (1, pick("drop", "drop it")))
tagval = st.one_of(st.booleans(), i64, finite, utext)
tags = weighted((2, st.none()), (2, attributes))
kv = weighted((3, st.dictionaries(small_key, tagval, max_size=3)),
              (3, st.builds(lambda d, e: dict(d, event=e), st.dictionaries(small_key, tagval, max_size=2), weighted((4, utext), (1, tagval)))))
# parent kind, references, tags, start time, ignore the active span, explicit empty arguments
how = st.tuples(names, parent, weighted((3, st.just([])), (2, refs)), tags, opt_secs, weighted((3, st.just(False)), (1, st.just(True))))
exc = st.tuples(pick(*sorted(set(EXC) - {"GeneratorExit"})), utext)
op = weighted(
    (4, st.tuples(st.just("start"), how)),
    (6, st.tuples(st.just("start_active"), how, st.booleans())),
    (2, st.tuples(st.just("activate"), idx, st.booleans())),
    (2, st.tuples(st.just("otel_scope"), names)),
    (1, st.tuples(st.just("otel_start"), names)),
    (1, st.tuples(st.just("remote_scope"), span_ctx)),
    (1, st.tuples(st.just("empty_scope"))),
    (5, st.tuples(st.just("close"), pick("close", "with"), st.none())),
    (2, st.tuples(st.just("close"), st.just("with"), exc)),
    (1, st.tuples(st.just("close_active"))),
    (2, st.tuples(st.just("tag"), idx, small_key, tagval)),
    (2, st.tuples(st.just("log"), idx, kv, opt_secs)),
    (1, st.tuples(st.just("rename"), idx, utext)),
    (2, st.tuples(st.just("finish"), idx, opt_secs)),
    (1, st.tuples(st.just("with_span"), idx, weighted((1, st.none()), (1, exc)))),
    (2, st.tuples(st.just("baggage"), idx, st.lists(st.tuples(small_key, utext), min_size=1, max_size=3))),
    (2, st.tuples(st.just("carry"), idx, st.integers(0, 1))),
    (1, st.tuples(st.just("extract_empty"), st.integers(0, 1))),
    (1, st.tuples(st.just("thread"), how)),
)


class ByName(Sampler):
    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        if name.startswith("drop"):
            return SamplingResult(Decision.DROP)
        return SamplingResult(Decision.RECORD_AND_SAMPLE, attributes, trace_state)

    def get_description(self):
        return "by name"


class H:
    """A span of the program."""

    def __init__(self, shim, otel, name, parent, links, attrs, start):
        self.shim, self.otel, self.name, self.parent, self.links = shim, otel, name, parent, links
        self.attrs, self.start, self.end, self.events, self.status = frozen_map(attrs), start, None, [], None
        self.recorded = not name.startswith("drop")
        self.bag = {}

    @property
    def live(self):
        return self.recorded and self.end is None

    def exception(self, e):
        if self.live and isinstance(e, Exception):
            self.events.append(("exception", {"exception.type": exc_type_name(e), "exception.message": str(e)}, None))
            self.status = "%s: %s" % (type(e).__name__, e)


def key(c):
    return (c.trace_id, c.span_id)


class Run:
    def __init__(self, rec):
        self.rec = rec
        self.exporter = InMemorySpanExporter()
        tp = TracerProvider(sampler=ByName(), resource=Resource({}), shutdown_on_exit=False)
        tp.add_span_processor(SimpleSpanProcessor(self.exporter))
        self.shim = create_tracer(tp)
        self.otel = tp.get_tracer("program")
        self.handles = []
        self.extracted = []
        self.stack = []  # (kind, object, H or None, current OTel span, finish on close)
        self.ended = []
        self.nested = self.parents = 0

    # -- active span -------------------------------------------------------
    def current(self):
        return self.stack[-1][3] if self.stack else None

    def check_active(self, what, stack=None):
        rec = self.rec
        stack = self.stack if stack is None else stack
        cur = stack[-1][3] if stack else None
        got = trace.get_current_span()
        rec.check(got is (cur if cur is not None else trace.INVALID_SPAN), "current OpenTelemetry span %s: %r, expected %r", what, got, cur)
        active = self.shim.scope_manager.active
        span = self.shim.active_span
        if cur is None:
            rec.check(active is None and span is None, "a span is active %s: %r", what, active)
            return
        rec.check(active is not None and span is not None, "no span is active %s", what)
        rec.check(isinstance(active, opentracing.Scope) and isinstance(span, opentracing.Span), "type of the active scope %s", what)
        rec.check(span.unwrap() is cur and active.span.unwrap() is cur, "active span %s: %r, expected %r", what, span.unwrap(), cur)
        rec.eq(key(span.context.unwrap()), key(cur.get_span_context()), "context of the active span " + what)
        if stack[-1][0] == "shim":
            rec.check(active is stack[-1][1], "active scope %s is not the one that was opened", what)
        rec.check(trace.get_current_span() is cur, "reading the active span changes the context %s", what)

    # -- spans -------------------------------------------------------------
    def ref_ctx(self, r):
        if r[0] == "invalid":
            return SpanContextShim(SpanContext(0, 0, False))
        if r[0] == "span" and self.handles:
            return self.handles[r[1] % len(self.handles)].shim.context
        if r[0] == "ctx" and self.extracted:
            return self.extracted[r[1] % len(self.extracted)]
        return None

    def start(self, how, call, stack, **kw):
        """Start a span by `call`; returns what it returned and the handle."""
        rec = self.rec
        name, par, refs_, tags_, t, ignore = how
        args = dict(kw)
        wants = None
        if par is not None:
            if par[0] == "ctx":
                o = self.extracted[par[1] % len(self.extracted)] if self.extracted else None
                wants = o and o.unwrap()
            elif self.handles:
                h = self.handles[par[1] % len(self.handles)]
                o = h.shim if par[0] == "span" else h.shim.context
                wants = h.otel.get_span_context()
            else:
                o = None
            args["child_of"] = o
        rs = []
        for kind, r in refs_:
            rs.append(opentracing.Reference(getattr(opentracing.ReferenceType, kind.upper()), self.ref_ctx(r)))
        if rs:
            args["references"] = rs
        if tags_ is not None:
            args["tags"] = dict(tags_)
        if t is not None:
            args["start_time"] = t
        if ignore:
            args["ignore_active_span"] = True
        valid = [r for r in rs if r.referenced_context is not None and r.referenced_context.unwrap().is_valid]
        links = [key(r.referenced_context.unwrap()) for r in valid]
        before = time.time_ns()
        out = call(name, **args)
        after = time.time_ns()
        shim = out.span if isinstance(out, opentracing.Scope) else out
        otel = shim.unwrap()
        sc = otel.get_span_context()
        if wants is not None:
            allowed = [wants]
        elif valid:
            kids = [r for r in valid if r.type == opentracing.ReferenceType.CHILD_OF]
            allowed = [valid[0].referenced_context.unwrap()] + [r.referenced_context.unwrap() for r in kids[:1]]
        elif not ignore and stack and stack[-1][3] is not None:
            allowed = [stack[-1][3].get_span_context()]
        else:
            allowed = [None]
        rec.check(sc.is_valid, "invalid context of a new span")
        rec.check(isinstance(shim, opentracing.Span) and shim.tracer is self.shim, "the new span does not belong to the tracer")
        rec.eq(key(shim.context.unwrap()), key(sc), "context of the new span")
        known = {key(h.otel.get_span_context()) for h in self.handles}
        rec.check(key(sc) not in known, "identity of another span")
        traces = [a.trace_id for a in allowed if a is not None]
        if traces:
            rec.check(sc.trace_id in traces, "trace of the new span %r is %x, expected that of %r", name, sc.trace_id, allowed)
            self.parents += 1
        else:
            rec.check(sc.trace_id not in {k[0] for k in known} and (not stack or stack[-1][3] is None or sc.trace_id != stack[-1][3].get_span_context().trace_id), "a root span joins another trace")
        h = H(shim, otel, name, [None if a is None else key(a) for a in allowed], links, tags_, t if t is not None else (before, after))
        rec.check(otel.is_recording() == h.recorded, "recording state of a new span")
        self.handles.append(h)
        return out, h

    def finished(self, h, when):
        if h.live:
            h.end = when
            self.ended.append(h)

    def handle(self, i):
        return self.handles[i % len(self.handles)] if self.handles else None

    def of_otel(self, span, name, stack):
        cur = stack[-1][3] if stack else None
        h = H(None, span, name, [key(cur.get_span_context()) if cur is not None else None], [], {}, (0, time.time_ns()))
        # give it the face of an OpenTracing span: usable as a parent through its context
        h.shim = opentracing.Span(self.shim, SpanContextShim(span.get_span_context()))
        h.shim.unwrap = lambda: span
        self.handles.append(h)
        return h

    # -- operations --------------------------------------------------------
    def close(self, mode, e):
        rec = self.rec
        kind, obj, h, _cur, foc = self.stack[-1]
        ex = None if e is None else EXC[e[0]](e[1])
        if kind == "token":
            context.detach(obj)
            self.stack.pop()
            return
        if ex is not None and h is not None:
            h.exception(ex)
        before = time.time_ns()
        if kind == "shim" and mode == "close":
            obj.close()
        elif kind == "shim":
            try:
                with obj as entered:
                    rec.check(entered is obj, "a scope entered is another one")
                    if ex is not None:
                        raise ex
            except BaseException as got:
                if got is not ex:
                    raise
            else:
                rec.check(ex is None, "the scope swallowed %r", ex)
        else:
            try:
                obj.__exit__(*((None,) * 3 if ex is None else (type(ex), ex, ex.__traceback__)))
            except BaseException as got:
                if got is not ex:
                    raise
        self.stack.pop()
        if foc and h is not None:
            self.finished(h, (before, time.time_ns()))

    def do(self, o):
        rec = self.rec
        k = o[0]
        if k == "start":
            self.start(o[1], self.shim.start_span, self.stack)
        elif k == "start_active":
            kw = {} if o[2] and len(self.handles) % 2 else {"finish_on_close": o[2]}
            scope, h = self.start(o[1], self.shim.start_active_span, self.stack, **kw)
            self.stack.append(("shim", scope, h, h.otel, o[2]))
            self.nested = max(self.nested, len(self.stack))
        elif k == "activate":
            h = self.handle(o[1])
            if h:
                scope = self.shim.scope_manager.activate(h.shim, o[2])
                self.stack.append(("shim", scope, h, h.otel, o[2]))
        elif k == "otel_scope":
            cm = self.otel.start_as_current_span(o[1])
            span = cm.__enter__()
            h = self.of_otel(span, o[1], self.stack)
            self.stack.append(("otel", cm, h, span, True))
            self.nested = max(self.nested, len(self.stack))
        elif k == "otel_start":
            self.of_otel(self.otel.start_span(o[1]), o[1], self.stack)
        elif k == "remote_scope":
            span = trace.NonRecordingSpan(ctx_of(o[1][:4] + (True,)))
            self.stack.append(("token", context.attach(trace.set_span_in_context(span)), None, span, False))
        elif k == "empty_scope":
            self.stack.append(("token", context.attach(context.Context()), None, None, False))
        elif k == "close":
            if self.stack:
                self.close(o[1], o[2])
        elif k == "close_active":
            # closing the scope of a span that OpenTelemetry made current ends the span only
            if self.stack and self.stack[-1][0] == "otel":
                before = time.time_ns()
                self.shim.scope_manager.active.close()
                self.finished(self.stack[-1][2], (before, time.time_ns()))
        elif k == "tag":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                rec.check(h.shim.set_tag(o[2], o[3]) is h.shim, "set_tag does not return its span")
                if h.live:
                    h.attrs[o[2]] = o[3]
        elif k == "log":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                before = time.time_ns()
                out = h.shim.log_kv(dict(o[2])) if o[3] is None else h.shim.log_kv(dict(o[2]), o[3])
                rec.check(out is h.shim, "log_kv does not return its span")
                if h.live:
                    h.events.append((str(o[2].get("event", "log")), frozen_map(o[2]), o[3] if o[3] is not None else (before, time.time_ns())))
        elif k == "rename":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                rec.check(h.shim.set_operation_name(o[2]) is h.shim, "set_operation_name does not return its span")
                if h.live:
                    h.name = o[2]
        elif k == "finish":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                before = time.time_ns()
                if o[2] is None:
                    h.shim.finish()
                else:
                    h.shim.finish(o[2])
                self.finished(h, o[2] if o[2] is not None else (before, time.time_ns()))
        elif k == "with_span":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                ex = None if o[2] is None else EXC[o[2][0]](o[2][1])
                before = time.time_ns()
                try:
                    with h.shim as entered:
                        rec.check(entered is h.shim, "a span entered is another one")
                        self.check_active("in a span that is not activated")
                        if ex is not None:
                            raise ex
                except BaseException as got:
                    if got is not ex:
                        raise
                else:
                    rec.check(ex is None, "the span swallowed %r", ex)
                after = time.time_ns()
                if ex is not None and h.live:
                    h.attrs["error"] = True
                    h.events.append(("error", {"event": "error", "message": str(ex)}, (before, after)))
                self.finished(h, (before, after))
        elif k == "baggage":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                for bk, bv in o[2]:
                    h.shim.set_baggage_item(bk, bv)
                    h.bag[bk] = bv
        elif k == "carry":
            h = self.handle(o[1])
            if h and not type(h.shim) is opentracing.Span:
                want = h.otel.get_span_context()
                for give in (h.shim.context, h.shim):
                    carrier = {}
                    self.shim.inject(give, FORMATS[o[2]], carrier)
                    out = self.shim.extract(FORMATS[o[2]], dict(carrier))
                    got = out.unwrap()
                    rec.eq(key(got), key(want), "identity of an injected context")
                    rec.eq(got.trace_flags.sampled, want.trace_flags.sampled, "sampling of an injected context")
                    rec.check(got.is_remote, "an extracted context is not remote")
                self.extracted.append(out)
        elif k == "extract_empty":
            out = self.shim.extract(FORMATS[o[1]], {"unrelated": "header"})
            rec.check(out is None or not out.unwrap().is_valid, "a context comes out of an empty carrier: %r", out and out.unwrap())
        elif k == "thread":
            err = []

            def target():
                try:
                    self.check_active("in a new thread", [])
                    scope, h = self.start(o[1], self.shim.start_active_span, [])
                    self.check_active("in a thread", [("shim", scope, h, h.otel, True)])
                    before = time.time_ns()
                    scope.close()
                    self.finished(h, (before, time.time_ns()))
                    self.check_active("at the end of a thread", [])
                except BaseException as e:  # handed to the main thread
                    err.append(e)
            t = threading.Thread(target=target)
            t.start()
            t.join()
            if err:
                raise err[0]

    # -- the end -----------------------------------------------------------
    def time_ok(self, got, want, what):
        if isinstance(want, tuple):
            self.rec.check(want[0] <= got <= want[1], "%s: %r is not in %r", what, got, want)
        else:
            self.rec.check(type(got) is int and abs(got - Fraction(want) * 10**9) < 1.5 + abs(want) * 1e9 * 2**-51, "%s: %r ns for %r s", what, got, want)

    def verify(self):
        rec = self.rec
        got = self.exporter.get_finished_spans()
        rec.eq([key(s.context) for s in got], [key(h.otel.get_span_context()) for h in self.ended], "spans ended, in order")
        for s, h in zip(got, self.ended):
            rec.eq(s.name, h.name, "name")
            rec.check((key(s.parent) if s.parent is not None else None) in h.parent, "parent of %r: %r, expected %r", h.name, s.parent, h.parent)
            if s.parent is not None:
                rec.eq(s.parent.trace_id, s.context.trace_id, "trace of the parent")
            rec.eq([key(l.context) for l in s.links], h.links, "links")
            rec.eq(dict(s.attributes), h.attrs, "attributes")
            self.time_ok(s.start_time, h.start, "start time")
            self.time_ok(s.end_time, h.end, "end time")
            rec.check(s.kind is SpanKind.INTERNAL, "kind")
            rec.eq(len(s.events), len(h.events), "number of events")
            for e, (n, a, t) in zip(s.events, h.events):
                rec.check(type(e.name) is str, "name of an event is %r", e.name)
                rec.eq(e.name, n, "name of an event")
                attrs = dict(e.attributes)
                if t is None:
                    rec.eq({k: attrs.get(k) for k in a}, a, "attributes of an exception")
                else:
                    rec.eq(attrs, a, "attributes of an event")
                    self.time_ok(e.timestamp, t, "time of an event")
            rec.check(s.status.status_code is (StatusCode.ERROR if h.status is not None else StatusCode.UNSET), "status %r", s.status.status_code)
            rec.eq(s.status.description or None, h.status or None, "description of the status")
        for h in self.handles:
            rec.check(h.otel.is_recording() == h.live, "recording state of %r", h.name)
            for k, v in h.bag.items():
                rec.eq(h.shim.get_baggage_item(k), v, "baggage")


@sub("programs", st.tuples(pick(*sorted(PROPAGATORS)), st.lists(op, min_size=1, max_size=30)), quick=5000, thorough=60000, rule=RULE)
def programs(rec, case):
    prop, ops = case
    old = get_global_textmap()
    set_global_textmap(PROPAGATORS[prop]())
    token = context.attach(context.Context())
    r = Run(rec)
    try:
        for o in ops:
            r.do(o)
            r.check_active("after " + o[0])
        while r.stack:
            r.close("close", None)
            r.check_active("after closing")
        r.verify()
    finally:
        for e in reversed(r.stack):
            try:
                r.stack.pop()
                if e[0] == "token":
                    context.detach(e[1])
                else:
                    e[1].__exit__(None, None, None)
            except Exception:
                pass
        context.detach(token)
        set_global_textmap(old)
    rec.nontrivial(r.nested >= 2 and r.parents > 0)
    rec.label(*{o[0] for o in ops})


bad_format = weighted((2, st.just(opentracing.Format.BINARY)), (1, utext.filter(lambda t: t not in FORMATS)))


@sub("formats", st.tuples(pick(*sorted(PROPAGATORS)), span_ctx, bad_format, st.integers(0, 1), st.dictionaries(small_key, small_key, max_size=3), weighted((1, st.none()), (1, span_ctx))), quick=1500, thorough=40000,
     rule="any context injected and extracted with every propagator inside any active span, OpenTelemetry baggage of the caller goes along, unknown formats refused. non-trivial: baggage or an active span")
def formats(rec, case):
    prop, c, bad, f, bag, cur = case
    old = get_global_textmap()
    set_global_textmap(PROPAGATORS[prop]())
    base = context.Context()
    for k, v in bag.items():
        base = baggage.set_baggage(k, v, base)
    if cur is not None:
        base = trace.set_span_in_context(trace.NonRecordingSpan(ctx_of(cur)), base)
    token = context.attach(base)
    try:
        shim = create_tracer(TracerProvider(resource=Resource({}), shutdown_on_exit=False))
        want = ctx_of(c)
        carrier = {}
        shim.inject(SpanContextShim(want), FORMATS[f], carrier)
        rec.check(all(type(k) is str and type(v) is str for k, v in carrier.items()), "carrier %r", carrier)
        got = shim.extract(FORMATS[1 - f], carrier).unwrap()
        rec.eq(key(got), key(want), "identity")
        rec.eq(got.trace_flags.sampled, want.trace_flags.sampled, "sampling")
        rec.check(got.is_remote, "not remote")
        if prop.startswith("w3c"):
            rec.eq(list(got.trace_state.items()), list(want.trace_state.items()), "trace state")
            rec.eq(dict(baggage.get_all(W3CBaggagePropagator().extract(carrier, context.Context()))), bag, "baggage of the caller")
        none = {}
        shim.inject(SpanContextShim(trace.INVALID_SPAN_CONTEXT), FORMATS[f], none)
        back = shim.extract(FORMATS[f], none)
        rec.check(back is None or not back.unwrap().is_valid, "an invalid context becomes %r", back and back.unwrap())
        for call in (lambda: shim.inject(SpanContextShim(want), bad, {}), lambda: shim.extract(bad, carrier)):
            try:
                call()
            except opentracing.UnsupportedFormatException:
                pass
            else:
                rec.fail("format %r accepted" % (bad,))
        rec.check(context.get_current() == base, "the context changed")
    finally:
        context.detach(token)
        set_global_textmap(old)
    rec.nontrivial(bool(bag) or cur is not None)
