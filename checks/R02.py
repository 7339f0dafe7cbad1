"""R02: configuration from the environment builds exactly the pipeline it names."""
from vlib import vsched
vsched.install()

import logging  # noqa: E402
import os  # noqa: E402
import sys  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

sys.path.insert(1, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "otlp_dist"))      # stand-ins for the OTLP exporters

from opentelemetry import _events as api_events  # noqa: E402
from opentelemetry import _logs as api_logs  # noqa: E402
from opentelemetry import metrics as api_metrics  # noqa: E402
from opentelemetry import trace as api_trace  # noqa: E402
from opentelemetry.context import Context  # noqa: E402
from opentelemetry.sdk._configuration import _OTelSDKConfigurator  # noqa: E402
from opentelemetry.sdk._logs import LogData, LogRecord  # noqa: E402
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult  # noqa: E402
from opentelemetry.sdk.metrics import MeterProvider  # noqa: E402
from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExporter, MetricExportResult, PeriodicExportingMetricReader  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import ReadableSpan, TracerProvider, sampling  # noqa: E402
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult  # noqa: E402
from opentelemetry.sdk.trace.id_generator import IdGenerator  # noqa: E402
from opentelemetry.sdk.util.instrumentation import InstrumentationScope  # noqa: E402
from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags  # noqa: E402
from vlib import plugins  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.forked import forked  # noqa: E402
from vlib.gen import ident, pick, weighted  # noqa: E402

RULE = ("settings from the environment and arguments: the configurator runs in a forked process with exporters, id generators, samplers and readers registered as real entry points, and the telemetry each receives is compared with a model of the settings; "
        "samplers and batch, schedule and timeout settings are measured on a virtual clock. non-trivial: two settings are in force, or one is invalid.")
ASSUMPTIONS = ["an exporter named twice is installed once", "unparsable numbers fall back to the default; out-of-range numbers are not generated for the batch settings"]
LOGGING = True
logging.getLogger().addHandler(logging.NullHandler())

SIGNALS = ["traces", "metrics", "logs"]


class Configurator(_OTelSDKConfigurator):
    pass


class Env:
    def __init__(self, **kw):
        self.kw = {k: v for k, v in kw.items() if v is not None}

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in os.environ if k.startswith("OTEL_") or k.startswith("_OTEL_")}
        for k in self.old:
            del os.environ[k]
        os.environ.update(self.kw)

    def __exit__(self, *a):
        for k in self.kw:
            os.environ.pop(k, None)
        os.environ.update(self.old)


# --- exporters -----------------------------------------------------------------
BUILT = []
LOG = []            # (signal, name, items, thread)


def exporter(signal, name, reader=False):
    if signal == "traces":
        class E(SpanExporter):
            def __init__(self):
                BUILT.append((signal, name))

            def export(self, spans):
                LOG.append((signal, name, [s for s in spans], threading.get_ident()))
                return SpanExportResult.SUCCESS
    elif signal == "logs":
        class E(LogExporter):
            def __init__(self):
                BUILT.append((signal, name))

            def export(self, batch):
                LOG.append((signal, name, list(batch), threading.get_ident()))
                return LogExportResult.SUCCESS

            def shutdown(self):
                pass
    elif reader:
        class E(InMemoryMetricReader):
            def __init__(self):
                super().__init__()
                BUILT.append((signal, name))
                READERS.append((name, self))
    else:
        class E(MetricExporter):
            def __init__(self):
                super().__init__()
                BUILT.append((signal, name))

            def export(self, data, timeout_millis=0, **kw):
                LOG.append((signal, name, [data], threading.get_ident()))
                return MetricExportResult.SUCCESS

            def force_flush(self, timeout_millis=0):
                return True

            def shutdown(self, timeout_millis=0, **kw):
                pass
    return E


READERS = []


class Ids(IdGenerator):
    def __init__(self):
        self.n = 0

    def generate_trace_id(self):
        self.n += 1
        return (self.n << 64) | self.n

    def generate_span_id(self):
        self.n += 1
        return self.n


class Odd(sampling.Sampler):
    def __init__(self, arg):
        self.arg = arg

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        return sampling.SamplingResult(sampling.Decision.RECORD_AND_SAMPLE if ("a" in name) == bool(self.arg and self.arg.strip() != "1") else sampling.Decision.DROP)

    def get_description(self):
        return "Odd{%s}" % self.arg


BUILTIN = {
    "always_on": lambda r: sampling.ALWAYS_ON, "always_off": lambda r: sampling.ALWAYS_OFF, "parentbased_always_on": lambda r: sampling.DEFAULT_ON, "parentbased_always_off": lambda r: sampling.DEFAULT_OFF,
    "traceidratio": lambda r: sampling.TraceIdRatioBased(r), "parentbased_traceidratio": lambda r: sampling.ParentBased(sampling.TraceIdRatioBased(r)),
}


def ratio(arg):
    try:
        r = float(arg)
    except (TypeError, ValueError):
        return 1.0
    return r if 0 <= r <= 1 else 1.0


def sampler_model(name, arg, configurator):
    if name is None or name == "":
        return sampling.DEFAULT_ON
    if configurator and name.strip() == "vsam0":
        return Odd(arg)
    clean = name.lower() if not configurator else name.strip() if name.strip() in BUILTIN else name.lower()
    return BUILTIN[clean](ratio(arg)) if clean in BUILTIN else sampling.DEFAULT_ON


sampler_name = weighted((2, st.none()), (6, st.sampled_from(sorted(BUILTIN))), (1, pick("ALWAYS_OFF", "TraceIdRatio", "ParentBased_TraceIdRatio", "nope", "")))
sampler_arg = weighted((1, st.none()), (3, pick("0", "1", "0.5", "0.25", "1e-3")), (1, pick("", "abc", "2", "-0.1", "nan", "inf", " 0.5 ", "1/2")), (1, st.floats(0, 1).map(str)))
trace_ids = st.integers(0, 2**64 - 1).map(lambda n: (0xABCDEF << 64) | (n or 1))


def parent(sampled, remote=True, tid=77):
    return api_trace.set_span_in_context(NonRecordingSpan(SpanContext(tid, 5, remote, TraceFlags(1 if sampled else 0))), Context())


class OneId(Ids):
    def __init__(self, ids):
        super().__init__()
        self.ids = list(ids)

    def generate_trace_id(self):
        return self.ids.pop(0)


@sub("sampler", st.tuples(sampler_name, sampler_arg, st.lists(trace_ids, min_size=1, max_size=6)), quick=3000, thorough=100000, rule="the sampler of a provider built under the environment, against the same sampler built directly")
def sampler(rec, case):
    name, arg, ids = case
    with Env(OTEL_TRACES_SAMPLER=name, OTEL_TRACES_SAMPLER_ARG=arg):
        tp = TracerProvider(id_generator=OneId(ids), resource=Resource({}), shutdown_on_exit=False)
    want = sampler_model(name, arg, False)
    rec.eq(tp.sampler.get_description(), want.get_description(), "sampler for %r with argument %r" % (name, arg))
    tr = tp.get_tracer("lib")
    for i in ids:
        s = tr.start_span("a", Context())
        rec.eq(s.is_recording(), want.should_sample(None, i, "a").decision.is_sampled(), "root span of trace %x with sampler %s" % (i, want.get_description()))
    for p in (True, False):
        for remote in (True, False):
            ctx = parent(p, remote, ids[0])
            rec.eq(tr.start_span("a", ctx).is_recording(), want.should_sample(ctx, ids[0], "a").decision.is_sampled(), "child of a sampled=%s parent with sampler %s" % (p, want.get_description()))
    rec.nontrivial(name and (arg is not None or name not in BUILTIN))


# --- the configurator ----------------------------------------------------------
good = pick("vexp0", "vexp1", "vexp2", "vexp0", "otlp", "otlp", "otlp", "otlp_proto_grpc", "otlp_proto_http")
names = weighted((2, st.none()), (1, pick("", "none", " None ")), (6, st.lists(good, min_size=1, max_size=3)), (1, st.lists(weighted((2, good), (1, pick("nope", "wrong"))), min_size=1, max_size=2)))
proto = weighted((3, st.none()), (4, pick("grpc", "http/protobuf", " grpc ", "http/protobuf ")), (1, pick("http/json", "")))
config = st.fixed_dictionaries({
    "names": st.tuples(names, names, names), "pad": st.booleans(), "arg_names": weighted((3, st.just(([], [], []))), (1, st.tuples(*[st.lists(pick("vexp1", "vexp2"), max_size=1) for _ in range(3)]))),
    "proto": proto, "protos": weighted((1, st.just((None, None, None))), (1, st.tuples(proto, proto, proto))), "reader": st.booleans(),
    "sampler": weighted((3, sampler_name), (1, pick("vsam0", " vsam0", "vbroken", "traceidratio ", " parentbased_traceidratio"))), "arg": sampler_arg, "arg_sampler": weighted((5, st.none()), (1, st.sampled_from(sorted(BUILTIN)))),
    "ids": weighted((2, st.none()), (1, pick("random", " random")), (2, pick("vids0", "vids0 ")), (1, pick("nope", "vbad"))),
    "resource": weighted((1, st.none()), (1, pick("a=1,b=x", "service.name=svc"))), "attributes": weighted((2, st.none()), (1, st.dictionaries(pick("b", "c"), ident, max_size=2))), "auto": weighted((2, st.none()), (1, st.just("1.2.3"))),
    "handler": pick(None, None, True, False), "handler_env": pick(None, None, "true", " TRUE", "false", ""), "disabled": weighted((8, st.none()), (1, pick("true", "True", " true ")), (1, pick("false", "", "1"))),
})


def resolve(name, signal, case):
    """The entry point for an exporter name, or None if that is an error."""
    p = case["protos"][SIGNALS.index(signal)] or case["proto"]
    if name == "otlp":
        return {"grpc": "grpc", "http/protobuf": "http"}.get(p.strip()) if p else "grpc"
    return {"otlp_proto_grpc": "grpc", "otlp_proto_http": "http"}.get(name, name if name.startswith("vexp") else None)


@sub("configure", config, quick=1200, thorough=30000, rule="the configurator in a fresh process. non-trivial: two exporters of a signal, or an invalid setting, or a sampler with an argument")
@forked
def configure(rec, case):
    if case["sampler"] and case["sampler"] != case["sampler"].strip() and case["arg"] in ("2", "-0.1", "nan", "inf"):
        case = dict(case, arg="0.5")       # padded names are understood by the configurator only, out-of-range ratios by its fallback only
    pad = (" %s ") if case["pad"] else "%s"
    env = {"OTEL_TRACES_SAMPLER": case["sampler"], "OTEL_TRACES_SAMPLER_ARG": case["arg"], "OTEL_PYTHON_ID_GENERATOR": case["ids"], "OTEL_RESOURCE_ATTRIBUTES": case["resource"],
           "_OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED": None, "OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED": case["handler_env"], "OTEL_SDK_DISABLED": case["disabled"], "OTEL_EXPORTER_OTLP_PROTOCOL": case["proto"]}
    want, bad = {}, False
    for i, s in enumerate(SIGNALS):
        ns = case["names"][i]
        env["OTEL_%s_EXPORTER" % s.upper()] = ns if ns is None or isinstance(ns, str) else ",".join(pad % n for n in ns)
        env["OTEL_EXPORTER_OTLP_%s_PROTOCOL" % s.upper()] = case["protos"][i]
        for k in ("vexp0", "vexp1", "vexp2", "grpc", "http"):
            plugins.SLOTS["%s_%s" % (s, k)] = exporter(s, k, reader=case["reader"] and k in ("vexp1", "http"))
        ns = list(case["arg_names"][i]) + (list(ns) if isinstance(ns, list) else [])
        eps = [resolve(n, s, case) for n in ns]
        bad = bad or None in eps
        want[s] = list(dict.fromkeys(eps))
    plugins.SLOTS["vsam0"] = Odd
    plugins.SLOTS["vids0"] = Ids
    BUILT.clear(), LOG.clear(), READERS.clear()
    kw = {}
    if any(case["arg_names"]):
        kw.update(zip(("trace_exporter_names", "metric_exporter_names", "log_exporter_names"), map(list, case["arg_names"])))
    if case["attributes"] is not None:
        kw["resource_attributes"] = dict(case["attributes"])
    if case["auto"]:
        kw["auto_instrumentation_version"] = case["auto"]
    if case["handler"] is not None:
        kw["setup_logging_handler"] = case["handler"]
    if case["arg_sampler"]:
        kw["sampler"] = BUILTIN[case["arg_sampler"]](0.5)
    with Env(**env):
        before = list(logging.getLogger().handlers)
        try:
            Configurator().configure(**kw)
            err = None
        except Exception as e:
            err = e
        if bad:
            rec.check(err is not None, "no error for exporters %s with protocols %s/%s", case["names"], case["protos"], case["proto"])
            rec.nontrivial()
            rec.label("exporter-error")
            return
        if case["ids"] in ("nope", "vbad"):
            rec.label("id-error")
            rec.check(err is not None, "no error for the id generator %r", case["ids"])
            return
        rec.check(err is None, "configuring raised %r", err)
        verify(rec, case, want, before)
    rec.nontrivial(any(len(w) > 1 for w in want.values()) or case["sampler"] and case["arg"] is not None)


def verify(rec, case, want, before):
    disabled = (case["disabled"] or "").strip().lower() == "true"
    for s in SIGNALS:
        rec.eq([n for x, n in BUILT if x == s], want[s], "exporters built for %s" % s)
    tr = api_trace.get_tracer("lib", "1")
    model = BUILTIN[case["arg_sampler"]](0.5) if case["arg_sampler"] else sampler_model(case["sampler"], case["arg"], True)
    me = threading.get_ident()
    spans = []
    for name, ctx in [("a", Context()), ("b", Context()), ("a", parent(True)), ("a", parent(False)), ("b", parent(True, False)), ("b", parent(False, False))]:
        s = tr.start_span(name, ctx)
        if disabled:
            rec.check(not s.is_recording(), "a span is recording with the SDK disabled")
            s.end()
            continue
        c = s.get_span_context()
        sampled = model.should_sample(ctx, c.trace_id, name).decision.is_sampled()
        rec.eq(s.is_recording(), sampled, "sampling of %r by %s" % (name, model.get_description()))
        if case["ids"] and "vids" in case["ids"]:
            rec.check(c.span_id < 100 and (c.trace_id == 77 or c.trace_id < 100 << 64), "identifiers %s do not come from the configured generator", c)
        else:
            rec.check(c.span_id > 100, "identifiers %s are not random", c)
        s.end()
        if sampled:
            spans.append(s)
    api_metrics.get_meter("lib", "1").create_counter("c").add(3, {"k": 1})
    api_logs.get_logger("lib", "1").emit(LogRecord(body="direct", resource=Resource({"own": 1})))
    api_events.get_event_logger("lib").emit(api_events.Event("ev", body="event"))
    logging.getLogger("app").warning("standard")
    rec.check(not [x for x in LOG if x[3] == me], "telemetry was exported by the recording thread itself")
    rec.check(api_trace.get_tracer_provider().force_flush() is not False and api_logs.get_logger_provider().force_flush() is not False, "flush failed")
    api_metrics.get_meter_provider().force_flush()
    handler = case["handler"] if case["handler"] is not None else (case["handler_env"] or "").strip().lower() == "true"
    added = [h for h in logging.getLogger().handlers if h not in before]
    rec.eq(len(added), 1 if handler else 0, "handlers installed on the root logger")
    got = {(s, n): [x for a, b, xs, _ in LOG if (a, b) == (s, n) for x in xs] for s in SIGNALS for n in want[s]}
    attrs = dict(case["attributes"] or {})
    if case["auto"]:
        attrs["telemetry.auto.version"] = case["auto"]
    exp = {"a": "1", "b": "x"} if case["resource"] == "a=1,b=x" else {"service.name": "svc"} if case["resource"] else {}
    exp.update(attrs)
    exp.setdefault("service.name", "unknown_service")

    def resource_ok(r, what):
        d = {k: v for k, v in r.attributes.items() if not k.startswith("telemetry.sdk.")}
        rec.eq(d, exp, "resource of %s" % what)
    for n in want["traces"]:
        xs = got["traces", n]
        rec.eq([(x.name, x.context.span_id) for x in xs], [(x.name, x.context.span_id) for x in spans], "spans at exporter %s" % n)
        for x in xs:
            resource_ok(x.resource, "spans")
    for n in want["logs"]:
        bodies = [x.log_record.body for x in got["logs", n] if x.instrumentation_scope.name in ("lib", "app")]
        rec.eq(bodies, [] if disabled else ["direct", "event"] + (["standard"] if handler else []), "log records at exporter %s" % n)
        for x in got["logs", n]:
            if x.log_record.body in ("event", "standard"):
                resource_ok(x.log_record.resource, "logs")
    for n in want["metrics"]:
        xs = got["metrics", n] or [d for m, r in READERS if m == n for d in [r.get_metrics_data()] if d]
        pts = [(sm.scope.name, m.name, dict(p.attributes), p.value) for d in xs for rm in d.resource_metrics for sm in rm.scope_metrics for m in sm.metrics for p in m.data.data_points]
        rec.eq(pts, [] if disabled else [("lib", "c", {"k": 1}, 3)], "points at exporter %s" % n)
        for d in xs:
            for rm in d.resource_metrics:
                resource_ok(rm.resource, "metrics")
    for s in ("traces", "logs"):
        first = list(dict.fromkeys(b for a, b, xs, _ in LOG if a == s and xs))
        rec.eq(first, [n for n in want[s] if n in first], "order of the exporters of %s" % s)


# --- numeric settings on a virtual clock -----------------------------------------
def setting(low, high, fractions=False):
    """(argument, environment)"""
    good = st.integers(low, high)
    texts = good.map(str)
    if fractions:
        texts = weighted((2, texts), (1, good.map(lambda n: "%d.5" % n)), (1, good.map(lambda n: "%de0" % n)))
    return st.tuples(weighted((2, st.none()), (1, good)), weighted((1, st.none()), (3, texts), (1, good.map(lambda n: " %d " % n)), (1, pick("", "abc", "1.5.2", "1e", "None"))))


def value(s, default, number=int):
    arg, env = s
    if arg is not None:
        return arg
    try:
        return number(env)
    except (TypeError, ValueError):
        return default


class Slow:
    """Exports to nowhere, on the virtual clock."""

    def __init__(self, sim):
        self.sim, self.calls, self.ms = sim, [], 0

    def export(self, batch):
        self.calls.append((self.sim.now, list(batch)))
        if self.ms:
            time.sleep(self.ms / 1000)

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=0):
        return True


def make_span(n):
    return ReadableSpan("s%d" % n, SpanContext(1, n + 1, False, TraceFlags(1)), resource=Resource({}))


def make_log(n):
    return LogData(LogRecord(body=n, resource=Resource({})), InstrumentationScope("lib"))


SPANS = [make_span(n) for n in range(2100)]
LOGS = [make_log(n) for n in range(2100)]
WHICH = {"BSP": (BatchSpanProcessor, "on_end", SPANS), "BLRP": (BatchLogRecordProcessor, "emit", LOGS)}
NONE = (None, None)


@sub("batch", st.tuples(pick("BSP", "BLRP"), setting(1, 12), setting(1, 12), setting(1, 20000), setting(1, 100000)), quick=2500, thorough=60000, examples=[("BSP", NONE, NONE, NONE, NONE), ("BLRP", NONE, NONE, NONE, NONE)],
     rule="queue size, batch size, delay and export timeout of the batch processors, measured. non-trivial: two of them come from the environment")
def batch(rec, case):
    kind, q_, b_, d_, t_ = case
    cls, put, items = WHICH[kind]
    q, b, d, t = value(q_, 2048), value(b_, 512), value(d_, 5000), value(t_, 30000)
    out = {}
    env = Env(**{"OTEL_%s_%s" % (kind, k): v[1] for k, v in (("MAX_QUEUE_SIZE", q_), ("MAX_EXPORT_BATCH_SIZE", b_), ("SCHEDULE_DELAY", d_), ("EXPORT_TIMEOUT", t_))})
    kw = {k: v[0] for k, v in (("max_queue_size", q_), ("max_export_batch_size", b_), ("schedule_delay_millis", d_), ("export_timeout_millis", t_)) if v[0] is not None}

    def scenario(sim):
        e = Slow(sim)
        with env:
            p = cls(e, **kw)
        add = getattr(p, put)
        t0 = sim.now
        add(items[0])
        time.sleep(d * 3 / 1000)
        out["first"] = [(x[0] - t0, len(x[1])) for x in e.calls]
        e.calls.clear()
        # more than fits, before the worker gets to run
        for x in items[1:q + 4]:
            add(x)
        t1 = sim.now
        time.sleep(d * 3 / 1000)
        out["burst"] = [(x[0] - t1, x[1]) for x in e.calls]
        e.calls.clear()
        # an export that takes longer than the export timeout
        e.ms = t * 3
        add(items[0])
        t2 = sim.now
        out["flush"] = p.force_flush(), (sim.now - t2) / 1e6
        e.ms = 0
        p.shutdown()

    if b > q:
        try:
            vsched.simulate(("gaps", [(10**9, 0)]), scenario, trace=False, ticks=False)
        except ValueError:
            return
        rec.fail("a batch size of %d was accepted with a queue size of %d" % (b, q))
    vsched.simulate(("gaps", [(10**9, 0)]), scenario, trace=False, ticks=False)
    rec.eq([n for _, n in out["first"]], [1], "exports of one item")
    dt = out["first"][0][0] / 1e6
    rec.check(dt <= d + 1 and (b == 1 or dt >= d / 2), "exported after %s ms with a delay of %d ms", dt, d)
    burst = [x for _, xs in out["burst"] for x in xs]
    n = q + 3
    rec.eq(len(burst), q, "items kept of %d with a queue size of %d" % (n, q))
    rec.check(burst == items[n - q + 1:n + 1], "the items kept are not the last ones")
    rec.check(all(len(xs) <= b for _, xs in out["burst"]), "batches of %s with a limit of %d", [len(xs) for _, xs in out["burst"]], b)
    rec.check(len(out["burst"][0][1]) == b, "first batch of %d with a limit of %d and %d waiting", len(out["burst"][0][1]), b, q)
    ok, took = out["flush"]
    rec.check(ok is False and t - 1 <= took <= t + 1, "flush of an export that takes %d ms returned %s after %s ms with an export timeout of %d ms", t * 3, ok, took, t)
    rec.nontrivial(sum(a is None and v is not None for a, v in (q_, b_, d_, t_)) > 1)
    rec.label(kind)


@sub("reader", st.tuples(setting(1, 100000, True), setting(1, 100000, True)), quick=1500, thorough=40000, examples=[(NONE, NONE)], rule="interval and timeout of the periodic reader, measured. non-trivial: one of them comes from the environment")
def reader(rec, case):
    i_, t_ = case
    interval, timeout = value(i_, 60000, float), value(t_, 30000, float)
    calls, timeouts, given = [], [], []

    class E(MetricExporter):
        def export(self, data, timeout_millis=0, **kw):
            calls.append((self.sim.now - self.t0) / 1e6)
            timeouts.append(timeout_millis)
            return MetricExportResult.SUCCESS

        def force_flush(self, timeout_millis=0):
            return True

        def shutdown(self, timeout_millis=0, **kw):
            pass

    def scenario(sim):
        e = E()
        e.sim, e.t0 = sim, sim.now
        with Env(OTEL_METRIC_EXPORT_INTERVAL=i_[1], OTEL_METRIC_EXPORT_TIMEOUT=t_[1]):
            r = PeriodicExportingMetricReader(e, export_interval_millis=i_[0], export_timeout_millis=t_[0])
        mp = MeterProvider([r], Resource({}), shutdown_on_exit=False)
        mp.get_meter("m").create_observable_gauge("g", callbacks=[lambda o: given.append(o.timeout_millis) or []])
        mp.get_meter("m").create_counter("c").add(1)
        time.sleep(interval * 3.5 / 1000)
        n = len(calls)
        mp.shutdown()
        return n
    n, sim = vsched.simulate(("gaps", [(10**9, 0)]), scenario, trace=False, ticks=False)
    rec.eq(n, 3, "exports in 3.5 intervals of %s ms" % interval)
    rec.check(all(abs(c - interval * (k + 1)) <= 1 for k, c in enumerate(calls[:3])), "exports at %s ms with an interval of %s ms", calls, interval)
    rec.check(all(abs(x - timeout) <= 1 for x in timeouts[:3]), "export timeouts %s where %s ms is configured", timeouts, timeout)
    rec.check(all(0 < x <= timeout + 0.01 for x in given[:3]), "callback timeouts %s where %s ms is configured for the collection", given, timeout)
    rec.nontrivial(i_[0] is None and i_[1] or t_[0] is None and t_[1])
