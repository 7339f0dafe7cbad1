"""T03: identity and parent of every span in randomly built trees."""
import random

from hypothesis import strategies as st

from opentelemetry import trace
from opentelemetry.context import Context, attach, detach, set_value
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.id_generator import IdGenerator, RandomIdGenerator
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON, DEFAULT_ON, TraceIdRatioBased
from vlib.core import sub
from vlib.gen import attributes, frozen_map, small_key, utext, pick, span_ids, trace_ids, weighted
from vlib.spans import ts_any
from vlib.spans import any_ctx, ctx_of, show_ctx, span_ctx

RULE = ("trees of spans over several tracers whose parents are explicit contexts, nested current spans, remote contexts, invalid contexts, dropped or already ended spans, with a scripted "
        "or the random id generator. non-trivial: at least one child of a live span and one root.")

parent = weighted(
    (4, st.tuples(st.just("current"))), (4, st.tuples(st.just("span"), st.integers(0, 9))), (3, st.tuples(st.just("ctx"), span_ctx)),
    (2, st.tuples(st.just("ctx"), any_ctx)), (1, st.tuples(st.just("empty"))), (1, st.tuples(st.just("junk"))),
    (1, st.tuples(st.just("ctxspan"), st.integers(0, 9))), (1, st.tuples(st.just("current+value"))),
)
op = weighted(
    (6, st.tuples(st.just("start"), parent, st.booleans(), st.integers(0, 3))),
    (3, st.tuples(st.just("enter"), st.integers(0, 9))), (2, st.tuples(st.just("exit"))), (2, st.tuples(st.just("end"), st.integers(0, 9))),
    (1, st.tuples(st.just("enter_remote"), any_ctx)),
)


class Scripted(IdGenerator):
    def __init__(self, tids, sids):
        self.t, self.s = list(tids), list(sids)
        self.used = []

    def generate_trace_id(self):
        v = self.t.pop(0) if self.t else random.getrandbits(120) + 1
        self.used.append(("t", v))
        return v

    def generate_span_id(self):
        v = self.s.pop(0) if self.s else random.getrandbits(60) + 1
        self.used.append(("s", v))
        return v


@sub("tree", st.tuples(weighted((1, st.none()), (3, st.tuples(st.lists(trace_ids, max_size=12), st.lists(span_ids, max_size=14, unique=True)))), st.lists(op, min_size=1, max_size=14)),
     quick=9000, thorough=400000)
def tree(rec, case):
    ids, ops = case
    gens = [Scripted(*ids) if ids else RandomIdGenerator() for _ in range(1)]
    gen = gens[0]
    tps = [TracerProvider(sampler=s, resource=Resource({}), shutdown_on_exit=False, id_generator=gen) for s in (ALWAYS_ON, ALWAYS_OFF, DEFAULT_ON, TraceIdRatioBased(0.5))]
    tracers = [tp.get_tracer("t%d" % i) for i, tp in enumerate(tps)]
    spans, stack = [], []        # stack of (token, span)
    roots = children = 0
    seen = set()
    for o in ops:
        cur = stack[-1][1] if stack else None
        if o[0] == "enter":
            if spans:
                s = spans[o[1] % len(spans)]
                stack.append((attach(trace.set_span_in_context(s)), s))
        elif o[0] == "enter_remote":
            s = trace.NonRecordingSpan(ctx_of(o[1]))
            stack.append((attach(trace.set_span_in_context(s)), s))
        elif o[0] == "exit":
            if stack:
                detach(stack.pop()[0])
        elif o[0] == "end":
            if spans:
                spans[o[1] % len(spans)].end()
        else:
            p, use_as_current, which = o[1], o[2], o[3]
            ctx, want = None, cur
            if p[0] == "span":
                want = spans[p[1] % len(spans)] if spans else None
                ctx = trace.set_span_in_context(want, Context()) if want is not None else Context()
            elif p[0] == "ctxspan":
                want = spans[p[1] % len(spans)] if spans else None
                ctx = set_value("x", 1, trace.set_span_in_context(want)) if want is not None else Context()
            elif p[0] == "ctx":
                want = trace.NonRecordingSpan(ctx_of(p[1]))
                ctx = trace.set_span_in_context(want, Context())
            elif p[0] == "empty":
                want, ctx = None, Context()
            elif p[0] == "junk":
                want, ctx = None, trace.set_span_in_context("not a span", Context())
            elif p[0] == "current+value":
                ctx = set_value("y", 2)
            n0 = len(gen.used) if ids else 0
            if use_as_current:
                with tracers[which].start_as_current_span("s", context=ctx, end_on_exit=False) as s:
                    rec.check(trace.get_current_span() is s, "not the current span inside its scope")
            else:
                s = tracers[which].start_span("s", context=ctx)
            now = trace.get_current_span()
            rec.check(now is cur if cur is not None else now is trace.INVALID_SPAN, "current span after starting another: %r, expected %r", now, cur)
            sc = s.get_span_context()
            rec.check(0 < sc.trace_id < 2**128 and 0 < sc.span_id < 2**64, "invalid identity %r", sc)
            rec.check(sc.is_valid and not sc.is_remote, "span context not valid/local: %r", sc)
            wsc = want.get_span_context() if want is not None else None
            cont = wsc is not None and wsc.trace_id != 0 and wsc.span_id != 0
            if ids:
                fresh = gen.used[n0:]
                sid = [v for k, v in fresh if k == "s"]
                rec.eq(sid, [sc.span_id], "span id not the one from the generator")
                rec.eq([v for k, v in fresh if k == "t"], [] if cont else [sc.trace_id], "trace ids taken from the generator")
            if cont:
                children += 1
                rec.eq(sc.trace_id, wsc.trace_id, "trace id of a child")
                rec.eq([tuple(x) for x in sc.trace_state.items()], [tuple(x) for x in wsc.trace_state.items()], "trace state of a child")
            else:
                roots += 1
                rec.eq(len(sc.trace_state), 0, "trace state of a root")
                if not ids:
                    rec.check(sc.trace_id not in [x.get_span_context().trace_id for x in spans], "a root does not start a fresh trace")
            if s.is_recording():
                if cont:
                    rec.check(s.parent is not None, "child without parent")
                    rec.eq(show_ctx(s.parent), show_ctx(wsc), "recorded parent")
                else:
                    rec.check(s.parent is None, "root with parent %r", s.parent)
            rec.check((sc.trace_id, sc.span_id) not in seen, "duplicate identity")
            seen.add((sc.trace_id, sc.span_id))
            if not ids:
                rec.check(sc.span_id not in [x.get_span_context().span_id for x in spans], "duplicate span id")
            spans.append(s)
    while stack:
        detach(stack.pop()[0])
    rec.nontrivial(roots and children)
    rec.label("random-ids" if not ids else "scripted-ids")


@sub("random_ids", st.tuples(st.lists(weighted((2, st.just(0)), (1, pick(1, 2**64 - 1, 2**63)), (1, st.integers(0, 2**64 - 1))), max_size=8), st.integers(0, 2**32)), quick=3000, thorough=60000,
     rule="the random generator when the random source yields zeros or extremes. non-trivial: a zero was offered")
def random_ids(rec, case):
    offered, seed = case
    src = list(offered)
    rng = random.Random(seed)
    real = random.getrandbits

    def bits(n):
        return src.pop(0) & ((1 << n) - 1) if src else rng.getrandbits(n)
    random.getrandbits = bits
    try:
        g = RandomIdGenerator()
        for _ in range(3):
            t, s = g.generate_trace_id(), g.generate_span_id()
            rec.check(isinstance(t, int) and 0 < t < 2**128, "trace id %r", t)
            rec.check(isinstance(s, int) and 0 < s < 2**64, "span id %r", s)
    finally:
        random.getrandbits = real
    rec.nontrivial(0 in offered)


@sub("times", st.tuples(st.lists(st.tuples(weighted((2, st.none()), (1, ts_any)), st.booleans()), min_size=1, max_size=4), st.booleans()), quick=1500, thorough=20000,
     rule="nested spans with and without explicit times. non-trivial: depth > 1")
def times(rec, case):
    calls, explicit_end = case
    starts = [x for x, _c in calls]
    tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
    t = tp.get_tracer("t")
    spans = []
    ctx = Context()
    for x, scoped in calls:
        if scoped:
            with t.start_as_current_span("s", context=ctx, start_time=x, end_on_exit=False) as s:
                pass
        else:
            s = t.start_span("s", context=ctx, start_time=x)
        ctx = trace.set_span_in_context(s, ctx)
        spans.append(s)
    for i, s in enumerate(reversed(spans)):
        s.end(end_time=10**18 + i) if explicit_end else s.end()
    prev = None
    for s, x in zip(spans, starts):
        if x is not None:
            rec.eq(s.start_time, x, "explicit start time")
        else:
            rec.check(prev is None or s.start_time >= prev, "start times out of call order")
            prev = s.start_time
            rec.check(explicit_end or s.end_time >= s.start_time, "end before start")
    ends = [s.end_time for s in reversed(spans)]
    rec.check(ends == sorted(ends), "end times out of call order")
    if explicit_end:
        rec.eq(ends, [10**18 + i for i in range(len(spans))], "explicit end times")
    rec.nontrivial(len(starts) > 1)


@sub("scopes", st.tuples(st.lists(st.tuples(small_key, weighted((1, st.none()), (1, st.just("")), (2, utext)), weighted((1, st.none()), (1, st.just("")), (2, utext)), weighted((1, st.none()), (2, attributes))),
                                  min_size=1, max_size=3), st.lists(st.integers(0, 2), min_size=1, max_size=4), attributes, st.booleans()), quick=1500, thorough=30000,
     rule="spans of several tracers of one provider with a resource. non-trivial: two tracers used")
def scopes(rec, case):
    decls, uses, res, nested = case
    resource = Resource(res)
    tp = TracerProvider(resource=resource, shutdown_on_exit=False)
    tracers = [tp.get_tracer(n, v, schema_url=u, attributes=a) for n, v, u, a in decls]
    ctx = Context()
    for i in uses:
        i %= len(decls)
        n, v, u, a = decls[i]
        s = tracers[i].start_span("s", context=ctx)
        if nested:
            ctx = trace.set_span_in_context(s, ctx)
        s.end()
        sc = s.instrumentation_scope
        rec.eq((sc.name, sc.version or "", sc.schema_url or ""), (n, v or "", u or ""), "scope of a span")
        rec.eq(frozen_map(sc.attributes), frozen_map(a), "scope attributes of a span")
        rec.eq(frozen_map(s.resource.attributes), frozen_map(res), "resource of a span")
    rec.nontrivial(len({i % len(decls) for i in uses}) > 1)
