"""T01: a span is the exact record of the calls made until it ends (model-based histories on two spans)."""
import time

from hypothesis import strategies as st

from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.trace import SpanKind, Status, StatusCode
from vlib.core import sub
from vlib.gen import pick, weighted
from vlib.spans import ts_any
from vlib.spans import EXC, SpanModel, call, compare, op, snapshot, start, start_kwargs
from vlib.gen import utext

RULE = ("histories of public span calls on two interleaved spans (setters, events, links, statuses, exceptions, `with span`, end with and without a time, repeated end, "
        "calls after end, mutation of the caller's arguments) against a reference model. non-trivial: calls take effect and calls after the end are tried.")

ends = weighted(
    (3, st.tuples(st.just("end"), weighted((1, st.none()), (1, ts_any)))),
    (2, st.tuples(st.just("with"), weighted((1, st.none()), (3, st.tuples(pick(*sorted(EXC)), utext))), st.lists(op, max_size=3))),
)
step = weighted((8, st.tuples(st.integers(0, 1), op)), (2, st.tuples(st.integers(0, 1), ends)), (1, st.tuples(st.integers(0, 1), st.just(("restart",)))))


class Probe(SpanProcessor):
    def __init__(self):
        self.log, self.seen = [], []

    def on_start(self, span, parent_context=None):
        self.log.append(("start", span.get_span_context().span_id))

    def on_end(self, span):
        self.log.append(("end", span.get_span_context().span_id))
        self.seen.append((span, snapshot(span)))


def scribble(o):
    """Change the mutable arguments of a call after it returned."""
    for x in o:
        if isinstance(x, dict):
            for v in x.values():
                if isinstance(v, list):
                    v.append("later")
            x["later"] = 1
        elif isinstance(x, list):
            x.append("later")


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    return x


def run_op(span, o, m):
    mine = clone(o)
    lo = time.time_ns()
    side = call(span, mine)
    hi = time.time_ns()
    scribble(mine)
    if m is not None:
        m.apply(o, side, (lo, hi))


@sub("history", st.tuples(st.tuples(start_kwargs, start_kwargs), st.lists(step, max_size=14), st.lists(op, max_size=5),
                          st.fixed_dictionaries({}, optional={"record_exception": st.booleans(), "set_status_on_exception": st.booleans()})),
     quick=9000, thorough=400000)
def history(rec, case):
    kws, steps, after, flags = case
    probes = [Probe(), Probe()]
    res = Resource({"r": 1})
    tp = TracerProvider(resource=res, shutdown_on_exit=False)
    for p in probes:
        tp.add_span_processor(p)
    tracer = tp.get_tracer("lib", "1.2", "http://schema")
    spans, models, windows = [], [], []
    for kw in kws:
        mine = clone(kw)
        lo = time.time_ns()
        spans.append(start(tracer, mine, **flags))
        windows.append((lo, time.time_ns()))
        scribble(tuple(mine.values()))
        models.append(SpanModel(kw))
    ended = [None, None]       # end time or window
    frozen = [None, None]
    n_eff = n_late = 0
    expect_log = [("start", s.get_span_context().span_id) for s in spans]

    def finish(i, t):
        nonlocal expect_log
        if ended[i] is None:
            ended[i] = t
            expect_log = expect_log + [("end", spans[i].get_span_context().span_id)]
            frozen[i] = snapshot(spans[i])

    for i, o in list(steps) + [(0, ("end", None)), (1, ("end", None))] + [(j, a) for a in after for j in (0, 1)]:
        s, live = spans[i], ended[i] is None
        m = models[i] if live else None
        n_eff += live
        n_late += not live
        if o[0] == "end":
            lo = time.time_ns()
            s.end() if o[1] is None else s.end(o[1])
            finish(i, (lo, time.time_ns()) if o[1] is None else o[1])
        elif o[0] == "restart":
            s.start()
        elif o[0] == "with":
            err = EXC[o[1][0]](o[1][1]) if o[1] else None
            lo = time.time_ns()
            try:
                with s as got:
                    rec.check(got is s, "`with span` gives another object")
                    for b in o[2]:
                        run_op(s, b, m)
                    if err is not None:
                        raise err
                rec.check(err is None, "the exception disappeared")
            except BaseException as x:
                if x is not err:
                    raise
            hi = time.time_ns()
            if live and err is not None:
                if flags.get("record_exception", True):
                    m.exception(err, None, None, True, (lo, hi), stack=False)
                if flags.get("set_status_on_exception", True):
                    m.status(2, "%s: %s" % (type(err).__name__, err))
            finish(i, (lo, hi))
        else:
            run_op(s, o, m)
        rec.check(s.is_recording() == (ended[i] is None), "is_recording is wrong after %r", o[0])
        for j in (0, 1):
            if ended[j] is None:
                compare(rec, spans[j], models[j], "span %d after %r" % (j, o[0]))
                rec.check(spans[j].end_time is None, "end time before the end")
            else:
                rec.eq(snapshot(spans[j]), frozen[j], "ended span %d changed by %r on span %d" % (j, o[0], i))
    for j in (0, 1):
        compare(rec, spans[j], models[j], "finished span %d" % j)
        for what, got, want in (("start", spans[j].start_time, kws[j].get("start_time", windows[j])), ("end", spans[j].end_time, ended[j])):
            if isinstance(want, tuple):
                rec.check(want[0] <= got <= want[1], "%s time %r outside the call %r", what, got, want)
            else:
                rec.eq(got, want, what + " time")
        sc = spans[j].instrumentation_scope
        rec.eq((sc.name, sc.version, sc.schema_url), ("lib", "1.2", "http://schema"), "instrumentation scope")
        rec.check(spans[j].resource is res or spans[j].resource == res, "resource")
    for p in probes:
        rec.eq(p.log, expect_log, "processor notifications")
        for ro, snap in p.seen:
            j = [s.get_span_context().span_id for s in spans].index(ro.get_span_context().span_id)
            compare(rec, ro, models[j], "exported span")
            rec.eq(snapshot(ro), snap, "exported span changed after on_end")
            rec.eq(snap, frozen[j], "exported span differs from the ended one")
    rec.nontrivial(n_eff >= 3 and n_late >= 2)
    rec.label("late" if n_late > 2 else "no-late")


@sub("status", st.lists(st.tuples(st.integers(0, 2), weighted((1, st.none()), (2, utext), (1, pick(5, b"x"))), st.booleans()), max_size=5), quick=3000, thorough=60000,
     rule="sequences of statuses. non-trivial: at least two set")
def status(rec, case):
    tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
    s = tp.get_tracer("t").start_span("s")
    code, desc = 0, None
    codes = [StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR]
    for c, d, as_status in case:
        st_ = Status(codes[c], d)
        rec.check(st_.status_code is codes[c], "Status code")
        rec.eq(st_.description or None, d if c == 2 and isinstance(d, str) and d else None, "Status description")
        rec.eq((st_.is_ok, st_.is_unset), (c != 2, c == 0), "is_ok, is_unset")
        s.set_status(st_) if as_status else s.set_status(codes[c], d)
        if code != 1 and c != 0:
            code, desc = c, (d if c == 2 and isinstance(d, str) and d else None)
        rec.check(s.status.status_code is codes[code], "status %r, expected %r", s.status.status_code, codes[code])
        rec.eq(s.status.description or None, desc, "description")
    rec.nontrivial(len([c for c in case if c[0]]) > 1)
