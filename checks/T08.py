"""T08: fan-out to span processors, composite flush, the simple span processor."""
from vlib import vsched
vsched.install()

from hypothesis import strategies as st  # noqa: E402

from opentelemetry import context as otel_context  # noqa: E402
from opentelemetry.context import Context, attach, detach, get_current, get_value, set_value  # noqa: E402
from opentelemetry.context import _SUPPRESS_INSTRUMENTATION_KEY as KEY  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SpanProcessor, SynchronousMultiSpanProcessor, TracerProvider  # noqa: E402
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, SpanExporter, SpanExportResult  # noqa: E402
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult  # noqa: E402
from vlib import fanout  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("histories of span starts/ends, registrations, flushes with budgets and a shutdown on a tracer provider with the sequential or concurrent composite (virtual clock, generated schedule), "
        "and of exports by the simple processor with failing exporters. non-trivial: at least two processors were notified, or an export failed.")
ASSUMPTIONS = ["processors do not raise from on_start/on_end; flushes of processors respect the budget they are given, or exceed it and succeed late"]


class Names(Sampler):
    """Decision by span name prefix."""

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        d = {"d": Decision.DROP, "r": Decision.RECORD_ONLY}.get(name[:1], Decision.RECORD_AND_SAMPLE)
        return SamplingResult(d, attributes, trace_state)

    def get_description(self):
        return "names"


class Probe(SpanProcessor):
    def __init__(self, i, flush, log, sim):
        self.i, self.flush, self.log, self.sim = i, flush, log, sim
        self.budgets = []

    def on_start(self, span, parent_context=None):
        self.log.append(("start", self.i, span.name, get_value("mark", parent_context) if parent_context is not None else None, span.is_recording()))

    def on_end(self, span):
        self.log.append(("end", self.i, span.name, span.end_time is not None, None))

    def force_flush(self, timeout_millis=30000):
        self.budgets.append((self.sim.now / 1e6, timeout_millis))
        self.log.append(("flush", self.i, None, None, None))
        return fanout.cooperative_flush(self.flush, timeout_millis)

    def shutdown(self):
        self.log.append(("shutdown", self.i, None, None, None))


step = weighted((3, st.tuples(st.just("add"), fanout.flush_proc)), (5, st.tuples(st.just("start"), pick("s", "s", "s", "r", "d"), st.booleans())), (4, st.tuples(st.just("end"), st.integers(0, 5))),
                (2, st.tuples(st.just("flush"), fanout.budget)))


def run(rec, case, concurrent):
    workers, initial, steps, schedule = case
    log, procs = [], []

    def scenario(sim):
        multi = ConcurrentMultiSpanProcessor(workers) if concurrent else SynchronousMultiSpanProcessor()
        tp = TracerProvider(resource=Resource({}), sampler=Names(), active_span_processor=multi, shutdown_on_exit=False)
        tr = tp.get_tracer("t")
        spans, n = [], 0

        def expect(entries, what):
            nonlocal log
            got = sorted(log) if concurrent else log
            rec.eq(got, entries, what)
            log[:] = []

        for o in [("add", f) for f in initial] + steps:
            if o[0] == "add":
                procs.append(Probe(len(procs), o[1], log, sim))
                tp.add_span_processor(procs[-1])
                expect([], "calls caused by a registration")
            elif o[0] == "start":
                name = "%s%d" % (o[1], n)
                n += 1
                ctx = set_value("mark", name, Context()) if o[2] else None
                s = tr.start_span(name, context=ctx)
                spans.append(s)
                expect([("start", p.i, name, name if o[2] else None, True) for p in procs] if o[1] != "d" else [], "calls at the start of %s" % name)
            elif o[0] == "end" and spans:
                s = spans[o[1] % len(spans)]
                live = s.is_recording()
                s.end()
                expect([("end", p.i, s.name, True, None) for p in procs] if live else [], "calls at an end of a span (first end: %s)" % live)
            elif o[0] == "flush":
                t0 = sim.now / 1e6
                for p in procs:
                    p.budgets = []
                got = tp.force_flush(o[1])
                took = sim.now / 1e6 - t0
                flushes = [p.flush for p in procs]
                for p in procs:
                    rec.check(len(p.budgets) <= 1, "processor %d flushed %d times", p.i, len(p.budgets))
                    for t, b in p.budgets:
                        used = 0 if concurrent else t - t0
                        rec.check(b <= o[1] - used, "processor %d was given %r ms when %r of %r were left", p.i, b, o[1] - used, o[1])
                called = [l[1] for l in log]
                if got:
                    rec.eq(sorted(called) if concurrent else called, list(range(len(procs))), "processors flushed by a successful flush")
                if concurrent:
                    want = fanout.parallel(flushes, o[1], workers)
                    rec.check(took <= o[1], "concurrent flush with budget %s took %s", o[1], took)
                else:
                    w = fanout.sequential(flushes, o[1])
                    want = w and w[0]
                    rec.eq(called, list(range(len(called))), "order of flushes")
                    if w is not None:
                        rec.check(len(called) >= w[1], "only %d processors flushed, expected at least %d", len(called), w[1])
                if want is not None:
                    rec.check(bool(got) is want, "flush with %s ms of %s gave %r", o[1], flushes, got)
                    rec.label("flush-%s" % want)
                if concurrent:
                    import time
                    time.sleep(10)        # let unfinished flushes of this round end
                log[:] = []
        tp.shutdown()
        expect([("shutdown", p.i, None, None, None) for p in procs], "calls at shutdown")
        return len(spans)
    n, sim = vsched.simulate(schedule, scenario, ticks=False, trace=concurrent)
    for name, e in sim.thread_errors:
        raise e
    rec.nontrivial(n and len(procs) >= 2)


@sub("sequential", st.tuples(st.just(1), st.lists(fanout.flush_proc, max_size=3), st.lists(step, max_size=12), st.just(("gaps", []))), quick=4000, thorough=200000)
def sequential(rec, case):
    run(rec, case, False)


@sub("concurrent", st.tuples(st.integers(1, 3), st.lists(fanout.flush_proc, max_size=3), st.lists(step, max_size=5), vsched.schedules), quick=900, thorough=40000)
def concurrent(rec, case):
    run(rec, case, True)


@sub("registration", st.tuples(st.booleans(), st.lists(st.integers(1, 2), min_size=2, max_size=3), vsched.schedules), quick=1200, thorough=60000,
     rule="processors registered from several threads at once. non-trivial: a thread was preempted")
def registration(rec, case):
    concurrent, counts, schedule = case
    log = []

    def scenario(sim):
        multi = ConcurrentMultiSpanProcessor() if concurrent else SynchronousMultiSpanProcessor()
        tp = TracerProvider(resource=Resource({}), active_span_processor=multi, shutdown_on_exit=False)
        probes = [[Probe((i, j), (0, True), log, sim) for j in range(c)] for i, c in enumerate(counts)]

        def adder(ps):
            for p in ps:
                tp.add_span_processor(p)
        ts = [sim.thread(lambda ps=ps: adder(ps)) for ps in probes[1:]]
        adder(probes[0])
        sim.join(*ts)
        tp.get_tracer("t").start_span("s")
        return [p.i for ps in probes for p in ps]
    ids, sim = vsched.simulate(schedule, scenario, ticks=False)
    got = [l[1] for l in log]
    rec.eq(sorted(got), ids, "processors notified")
    if not concurrent:
        rec.check(all(got.index((i, 0)) < got.index((i, 1)) for i, j in ids if j == 1), "registration order of one thread not kept: %s", got)
    rec.nontrivial(sim.preempts)


class Exp(SpanExporter):
    def __init__(self, outcomes):
        self.outcomes, self.seen, self.down = list(outcomes), [], 0

    def export(self, spans):
        self.seen.append(([s.name for s in spans], get_value(KEY), get_value("mark")))
        o = self.outcomes.pop(0) if self.outcomes else "ok"
        if o == "attach":
            attach(set_value("mark", "exporter"))
        if o == "fail":
            return SpanExportResult.FAILURE
        if o == "exc":
            raise ValueError("x")
        if o == "base":
            raise KeyboardInterrupt("x")
        return SpanExportResult.SUCCESS

    def shutdown(self):
        self.down += 1


@sub("simple", st.tuples(st.lists(st.lists(pick("ok", "ok", "exc", "fail", "base"), max_size=6), min_size=1, max_size=2), st.lists(st.tuples(pick("s", "s", "r", "d"), weighted((2, st.none()), (1, pick("a", "b"))), st.booleans()), max_size=8), st.booleans()),
     quick=4000, thorough=200000, rule="simple processors with failing exporters. non-trivial: an export failed and later ones happened")
def simple(rec, case):
    outs, ops, flush = case
    tp = TracerProvider(resource=Resource({}), sampler=Names(), shutdown_on_exit=False)
    exps = [Exp(o) for o in outs]
    for e in exps:
        tp.add_span_processor(SimpleSpanProcessor(e))
    tr = tp.get_tracer("t")
    want = [[] for _ in outs]
    done = [0 for _ in outs]
    for k, (kind, mark, as_current) in enumerate(ops):
        token = attach(set_value("mark", mark)) if mark else None
        before = get_current()
        name = "%s%d" % (kind, k)
        # what each exporter will see: a BaseException ends the fan-out of this span
        stop = False
        for i, o in enumerate(outs):
            if kind == "s" and not stop:
                want[i].append(([name], True, mark))
                stop = done[i] < len(o) and o[done[i]] == "base"
                done[i] += 1
        try:
            if as_current:
                with tr.start_as_current_span(name):
                    pass
            else:
                tr.start_span(name).end()
            rec.check(not stop, "an interrupting exception was swallowed")
        except KeyboardInterrupt:
            rec.check(stop, "unexpected interruption")
        rec.check(get_current() == before, "context changed by an export: %r instead of %r", dict(get_current()), dict(before))
        rec.check(get_value(KEY) is None, "the export-time context leaked")
        if token is not None:
            detach(token)
    if flush:
        rec.check(tp.force_flush() is True, "flush of simple processors failed")
    for i, e in enumerate(exps):
        rec.eq(e.seen, want[i], "exports of exporter %d" % i)
    tp.shutdown()
    rec.eq([e.down for e in exps], [1] * len(exps), "exporter shutdowns")
    rec.nontrivial(any(x in ("exc", "base", "fail") and n > j + 1 for o, n in zip(outs, done) for j, x in enumerate(o)))
