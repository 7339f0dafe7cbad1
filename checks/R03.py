"""R03: telemetry objects obtained before configuration work after it; a global provider is set once."""
from vlib import vsched
vsched.install()

import os  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry import _events as api_events  # noqa: E402
from opentelemetry import _logs as api_logs  # noqa: E402
from opentelemetry import metrics as api_metrics  # noqa: E402
from opentelemetry import trace as api_trace  # noqa: E402
from opentelemetry.metrics import Observation  # noqa: E402
from opentelemetry.sdk._events import EventLoggerProvider  # noqa: E402
from opentelemetry.sdk._logs import LoggerProvider, LogRecord, LogRecordProcessor  # noqa: E402
from opentelemetry.sdk.metrics import MeterProvider  # noqa: E402
from opentelemetry.sdk.metrics.export import InMemoryMetricReader  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider  # noqa: E402
from vlib import plugins  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.forked import forked  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("each case runs in a forked process with fresh globals: histories of obtaining, creating, using and setting over the four signals (explicitly or through the environment), compared with the same objects obtained directly from a twin provider; "
        "and threads that race to set and get under a deterministic scheduler. non-trivial: an object obtained before its provider was set was used after it.")
ASSUMPTIONS = ["telemetry recorded while set_*_provider is still running may be lost", "providers configured through the environment are loaded by the first getter"]

ENV = {"trace": ("OTEL_PYTHON_TRACER_PROVIDER", "vtp0"), "metrics": ("OTEL_PYTHON_METER_PROVIDER", "vmp0"), "logs": ("OTEL_PYTHON_LOGGER_PROVIDER", "vlp0"), "events": ("OTEL_PYTHON_EVENT_LOGGER_PROVIDER", "vep0")}
SIGNALS = sorted(ENV)
RES = Resource({})


def scope_of(s):
    return (s.name, s.version, s.schema_url, dict(s.attributes or {}))


class Spans(SpanProcessor):
    def __init__(self):
        self.got = []

    def on_end(self, span):
        self.got.append((span.name, dict(span.attributes), scope_of(span.instrumentation_scope)))


class Logs(LogRecordProcessor):
    def __init__(self):
        self.got = []

    def emit(self, d):
        self.got.append((d.log_record.body, dict(d.log_record.attributes or {}), scope_of(d.instrumentation_scope)))

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=0):
        return True


class Bench:
    """A real provider of a signal and what it records."""

    def __init__(self, sig):
        self.sig = sig
        if sig == "trace":
            self.keep = Spans()
            self.provider = TracerProvider(resource=RES, shutdown_on_exit=False)
            self.provider.add_span_processor(self.keep)
        elif sig == "metrics":
            self.keep = InMemoryMetricReader()
            self.provider = MeterProvider([self.keep], RES, shutdown_on_exit=False)
        else:
            self.keep = Logs()
            self.provider = LoggerProvider(resource=RES, shutdown_on_exit=False)
            self.provider.add_log_record_processor(self.keep)
            if sig == "events":
                self.provider = EventLoggerProvider(self.provider)

    def recorded(self):
        if self.sig != "metrics":
            return self.keep.got
        out = []
        data = self.keep.get_metrics_data()
        for rm in data.resource_metrics if data else ():
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    for p in m.data.data_points:
                        out.append((scope_of(sm.scope), m.name, m.unit, m.description, type(m.data).__name__, dict(p.attributes), getattr(p, "value", None),
                                    (p.count, p.sum, tuple(p.explicit_bounds)) if hasattr(p, "count") else None))
        return sorted(out, key=repr)


API = {
    "trace": (api_trace.get_tracer_provider, api_trace.set_tracer_provider),
    "metrics": (api_metrics.get_meter_provider, api_metrics.set_meter_provider),
    "logs": (api_logs.get_logger_provider, api_logs.set_logger_provider),
    "events": (api_events.get_event_logger_provider, api_events.set_event_logger_provider),
}


def by_function(sig, scope, provider=None):
    name, version, schema, attrs = scope
    if sig == "trace":
        return api_trace.get_tracer(name, version, provider, schema, attrs)
    if sig == "metrics":
        return api_metrics.get_meter(name, version or "", provider, schema, attrs)
    if sig == "logs":
        return api_logs.get_logger(name, version or "", provider, schema, attrs)
    return api_events.get_event_logger(name, version, schema, attrs, provider)


def by_provider(sig, provider, scope):
    name, version, schema, attrs = scope
    get = getattr(provider, {"trace": "get_tracer", "metrics": "get_meter", "logs": "get_logger", "events": "get_event_logger"}[sig])
    return get(name, version, schema, attrs)


KINDS = ["counter", "up_down_counter", "histogram", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge"]


def create(meter, spec):
    kind, name, unit, desc = spec
    kw = {}
    if kind.startswith("observable"):
        kw["callbacks"] = [lambda options, v=len(name + unit): [Observation(v, {"o": 1})]]
    if kind == "histogram" and name == "h":
        kw["explicit_bucket_boundaries_advisory"] = [1.0, 7.0]
    return getattr(meter, "create_" + kind)(name, unit=unit, description=desc, **kw)


def use(sig, obj, n, how):
    if sig == "trace":
        if how == 0:
            span = obj.start_span("s%d" % n, attributes={"n": n})
            span.end()
        else:
            with obj.start_as_current_span("s%d" % n, attributes={"n": n}) as span:
                pass
        return span
    if sig == "logs":
        obj.emit(LogRecord(body="b%d" % n, attributes={"n": n}, resource=RES))
    else:
        obj.emit(api_events.Event("e%d" % n, body="b%d" % n, attributes={"n": n}))


def measure(kind, inst, n):
    if kind in ("counter", "up_down_counter"):
        inst.add(n + 1, {"n": n % 3})
    elif kind == "histogram":
        inst.record(n, {"n": n % 3})
    elif kind == "gauge":
        inst.set(n, {"n": n % 3})


sig = pick(*SIGNALS)
scope = st.tuples(pick("lib", "lib2"), pick(None, "1", "2"), pick(None, "http://s"), weighted((2, st.none()), (2, pick({"k": "v"}, {"k": 2}))))
spec = st.tuples(st.sampled_from(KINDS), pick("i", "h", "j"), pick("", "ms"), pick("", "d"))


def op_of(signals):
    sig = pick(*signals)
    return weighted(
        (5, st.tuples(st.just("get"), sig, scope, pick("function", "getter", "held"))),
        (1, st.tuples(st.just("hold"), sig)),
        (5 if "metrics" in signals else 1, st.tuples(st.just("inst"), st.integers(0, 5), spec)),
        (1, st.tuples(st.just("bad"), st.integers(0, 5), pick("", "1x", "x y", "é"))),
        (7, st.tuples(st.just("use"), sig, st.integers(0, 9), pick(0, 1))),
        (4, st.tuples(st.just("set"), sig, pick(0, 1))),
    )


few = {(s,): st.lists(op_of([s]), min_size=3, max_size=16) for s in SIGNALS}
histories = st.tuples(weighted((1, st.just([])), (1, st.lists(sig, max_size=2, unique=True).map(sorted))), weighted((1, st.lists(op_of(SIGNALS), min_size=3, max_size=30)), *[(1, x) for x in few.values()]))


@sub("histories", histories, quick=2500, thorough=60000)
@forked
def run(rec, case):
    history(rec, case)


metric_op = weighted(
    (3, st.tuples(st.just("get"), st.just("metrics"), scope, pick("function", "getter", "held"))), (1, st.tuples(st.just("hold"), st.just("metrics"))),
    (6, st.tuples(st.just("inst"), st.integers(0, 2), spec)), (1, st.tuples(st.just("bad"), st.integers(0, 2), pick("", "1x"))),
    (9, st.tuples(st.just("use"), st.just("metrics"), st.integers(0, 9), st.just(0))), (1, st.tuples(st.just("set"), st.just("metrics"), pick(0, 1))),
)
metric_ops = st.tuples(st.just([]), st.builds(lambda first, a, b: [first] + a + [("set", "metrics", 0)] + b,
                                              st.tuples(st.just("get"), st.just("metrics"), scope, pick("function", "getter")), st.lists(metric_op, min_size=2, max_size=10), st.lists(metric_op, min_size=2, max_size=15)))


@sub("instruments", metric_ops, quick=1500, thorough=60000, rule="as histories, for meters and instruments")
@forked
def instruments(rec, case):
    history(rec, case)


def history(rec, case):
    env, ops = case
    for s in SIGNALS:
        os.environ.pop(ENV[s][0], None)
    benches = {s: [Bench(s), Bench(s)] for s in SIGNALS}
    twin = {s: Bench(s) for s in SIGNALS}
    for s in env:
        os.environ[ENV[s][0]] = ENV[s][1]
        plugins.SLOTS[ENV[s][1]] = (lambda s=s: benches[s][0].provider)
    winner, held, objs, insts, early = {}, {}, {s: [] for s in SIGNALS}, [], False

    def got(s):
        if s in env and s not in winner:
            winner[s] = benches[s][0]

    for n, o in enumerate(ops):
        if o[0] == "hold":
            got(o[1])
            held[o[1]] = API[o[1]][0]()
        elif o[0] == "get":
            _, s, sc, via = o
            if via != "held" or s not in held:
                got(s)
            if via == "function":
                x = by_function(s, sc) if n % 4 else by_function(s, sc, API[s][0]())
                # the version of a meter or logger is a text for these functions
                t = by_provider(s, twin[s].provider, (sc[0], sc[1] if s in ("trace", "events") else sc[1] or "", sc[2], sc[3]))
            else:
                x, t = by_provider(s, held[s] if via == "held" and s in held else API[s][0](), sc), by_provider(s, twin[s].provider, sc)
            objs[s].append((x, t, s not in winner))
        elif o[0] == "inst" and objs["metrics"]:
            m, t, before = objs["metrics"][o[1] % len(objs["metrics"])]
            insts.append((o[2][0], create(m, o[2]), create(t, o[2]), before or "metrics" not in winner))
        elif o[0] == "bad" and objs["metrics"] and "metrics" not in winner:
            m = objs["metrics"][o[1] % len(objs["metrics"])][0]
            m.create_counter(o[2]).add(1)
        elif o[0] == "use":
            _, s, i, how = o
            pool = insts if s == "metrics" else objs[s]
            if not pool:
                continue
            if s == "metrics":
                kind, x, t, before = pool[i % len(pool)]
                measure(kind, x, n)
            else:
                x, t, before = pool[i % len(pool)]
                span = use(s, x, n, how)
                if s == "trace":
                    rec.check(span.get_span_context().is_valid is (s in winner), "span of a tracer %s the provider was set: context %s", "after" if s in winner else "before", span.get_span_context())
            if s in winner:
                early = early or before
                if s == "metrics":
                    measure(kind, t, n)
                else:
                    use(s, t, n, how)
        elif o[0] == "set":
            _, s, k = o
            API[s][1](benches[s][k].provider)
            winner.setdefault(s, benches[s][k])
        for s in winner:
            rec.check(API[s][0]() is winner[s].provider, "the %s provider that was set first is not the one returned", s)
    for s in SIGNALS:
        for i, b in enumerate(benches[s]):
            if b is winner.get(s):
                rec.eq(b.recorded(), twin[s].recorded(), "telemetry of %s through the global provider" % s)
            else:
                rec.eq(b.recorded(), [], "telemetry of %s at a provider that is not the global one" % s)
    rec.nontrivial(early)
    rec.label(*["env-" + s for s in env], *["set-" + s for s in winner])


act = weighted(
    (3, st.tuples(st.just("set"), pick(0, 1, 2))), (3, st.tuples(st.just("get"), scope, pick("function", "getter"))), (1, st.tuples(st.just("getter"))),
    (3, st.tuples(st.just("inst"), spec)),
)
races = lambda sig, env: st.tuples(sig, env, st.lists(act, max_size=3), st.lists(st.lists(act, min_size=1, max_size=3), min_size=2, max_size=3), vsched.schedules)


short = st.lists(weighted((1, st.tuples(st.just("set"), pick(0, 1))), (2, st.tuples(st.just("get"), scope, pick("function", "getter"))), (3, st.tuples(st.just("inst"), spec))), min_size=1, max_size=3)
meter_races = st.builds(lambda a, b, c, d: ("metrics", False, a, [[("set", 0)], b] + c, d),
                        st.lists(st.tuples(st.just("get"), scope, pick("function", "getter")), max_size=2), short, st.lists(short, max_size=1), vsched.schedules)


@sub("meter_races", meter_races, quick=2000, thorough=80000, rule="meters and instruments are created while the provider is set. non-trivial: the creating thread was interrupted")
@forked
def meter_race(rec, case):
    racing(rec, case, "opentelemetry-api/")


@sub("races", races(sig, st.booleans()), quick=1500, thorough=60000, rule="setters and getters race under generated schedules; everything obtained works with the provider that won. non-trivial: two threads set or load a provider")
@forked
def race(rec, case):
    racing(rec, case)


def racing(rec, case, trace=True):
    s, env, first, scripts, schedule = case
    for v, _ in ENV.values():
        os.environ.pop(v, None)
    env = env and not any(a[0] == "set" for sc in [first] + scripts for a in sc)
    benches = [Bench(s) for _ in range(3)]
    loads = []
    if env:
        os.environ[ENV[s][0]] = ENV[s][1]

        def load():
            loads.append(benches[len(loads) % 3])
            return loads[-1].provider
        plugins.SLOTS[ENV[s][1]] = load
    objs, insts, seen, after_set = [], [], [], []
    get, set_ = API[s]

    def do(a, mine):
        if a[0] == "set":
            set_(benches[a[1]].provider)
            after_set.append(get())
        elif a[0] == "get":
            x = by_function(s, a[1]) if a[2] == "function" else by_provider(s, get(), a[1])
            objs.append((x, a[1], a[2]))
            mine.append((x, a[1], a[2]))
        elif a[0] == "getter":
            seen.append(get())
        elif a[0] == "inst" and s == "metrics" and mine:
            m, sc, via = mine[-1]
            insts.append((a[1], create(m, a[1]), sc, via))

    def scenario(sim):
        mine = []
        for a in first:
            do(a, mine)
        ts = []
        for i, script in enumerate(scripts):
            ts.append(sim.thread(lambda script=script: [do(a, m) for m in [list(mine)] for a in script], "t%d" % i))
        sim.join(*ts)
    _, sim = vsched.simulate(schedule, scenario, ticks=False, trace=trace)
    for _, e in sim.thread_errors:
        raise e
    final = get()
    won = [b for b in benches if b.provider is final]
    any_set = any(a[0] == "set" for sc in [first] + scripts for a in sc)
    if not any_set and not env:
        rec.check(not won, "a provider nobody set is global")
        return
    rec.check(len(won) == 1, "the global provider %r is none of those set", final)
    rec.check(all(p is final for p in after_set), "a thread that had set the provider, or tried to, saw another one than the one that won")
    rec.check(not env or all(p is final for p in seen), "getters returned different providers from the environment")
    set_(benches[2].provider)
    rec.check(get() is final, "the global provider was replaced")
    twin = Bench(s)
    for n, (x, sc, via) in enumerate(objs):
        if s != "metrics":
            use(s, x, n, n % 2)
            use(s, by_function(s, sc, twin.provider) if via == "function" else by_provider(s, twin.provider, sc), n, n % 2)
        else:
            t = by_function(s, sc, twin.provider) if via == "function" else by_provider(s, twin.provider, sc)
            x.create_counter("late%d" % n).add(1)
            t.create_counter("late%d" % n).add(1)
    for n, (sp, x, sc, via) in enumerate(insts):
        t = create(by_function(s, sc, twin.provider) if via == "function" else by_provider(s, twin.provider, sc), sp)
        measure(sp[0], x, n)
        measure(sp[0], t, n)
    for b in benches:
        if b is won[0]:
            rec.eq(b.recorded(), twin.recorded(), "telemetry of objects obtained while providers were being set")
        elif not env:
            rec.eq(b.recorded(), [], "telemetry at a provider that lost")
    rec.nontrivial(sim.preempts if insts else sum(any(a[0] == "set" or env and a[0] != "inst" for a in sc) for sc in scripts) >= 2)
    rec.label("env" if env else "set", "preempted" if sim.preempts else "sequential")
