"""R06: code that the SDK calls may use the API itself, on the very objects it is called about."""
from vlib import vsched
vsched.install()

import logging  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry import trace as trace_api  # noqa: E402
from opentelemetry._logs import SeverityNumber  # noqa: E402
from opentelemetry.metrics import Observation  # noqa: E402
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord, LogRecordProcessor  # noqa: E402
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor  # noqa: E402
from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, ExemplarFilter, MeterProvider, ObservableGauge  # noqa: E402
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, View  # noqa: E402
from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExporter, MetricExportResult, PeriodicExportingMetricReader  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import RandomIdGenerator, SpanLimits, SpanProcessor, TracerProvider  # noqa: E402
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult  # noqa: E402
from opentelemetry.sdk.trace.sampling import Decision, Sampler, SamplingResult  # noqa: E402
from opentelemetry.trace import Status, StatusCode  # noqa: E402
from vlib import fakegrpc  # noqa: E402
from opentelemetry.exporter.otlp.proto.grpc._log_exporter import OTLPLogExporter  # noqa: E402
from opentelemetry.exporter.otlp.proto.grpc.trace_exporter import OTLPSpanExporter  # noqa: E402
from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.forked import forked  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("one or two threads use the three signals; handlers of the SDK's own log messages, samplers, id generators, processors, exporters, observable callbacks and exemplar filters use them too, on the same spans, meters and loggers, "
        "two levels deep; no call may hang or raise, and what was recorded must come out once. non-trivial: code called by the SDK called back into it at two kinds of places.")
ASSUMPTIONS = ["the called-back code bounds its own recursion", "called-back code does not flush or shut down, and nothing is collected, flushed or shut down under a lock of the application that called-back code takes", "custom exemplar reservoirs and span processors do not use the API", "threads switch only between byte-code instructions"]

HOOKS = ["log", "start", "end", "sampler", "ids", "callback", "export", "record", "filter"]
MAX = 1000
which = st.integers(0, 3)
inner = weighted(
    (4, st.tuples(st.just("event"), which)), (4, st.tuples(st.just("attr"), which, pick("ok", "bad", "key", "mixed"))), (3, st.tuples(st.just("status"), which, st.booleans())), (3, st.tuples(st.just("end"), which)),
    (2, st.tuples(st.just("name"), which)), (1, st.tuples(st.just("link"), which)), (1, st.tuples(st.just("exc"), which)), (2, st.tuples(st.just("start"), pick("t", "u", ""))), (1, st.tuples(st.just("child"), which)),
    (3, st.tuples(st.just("count"), pick(1, 2, -1))), (1, st.tuples(st.just("hist"), pick(1.0, -1.0, float("nan")))), (3, st.tuples(st.just("log"), pick("ok", "bad", "mixed"))), (3, st.tuples(st.just("create"), pick("counter", "histogram", "gauge", "observable", "advisory"), pick("a", "A", "total", "obs"), pick("", "s"))),
    (1, st.tuples(st.just("meter"), pick("m", "n", ""))), (1, st.tuples(st.just("std"), pick("warning", "error"))),
    (3, st.tuples(st.just("get"), st.sampled_from(["t", "l", "m"]), pick("", "", "t", "n", None))),
)
outer = weighted((8, inner), (2, st.tuples(st.just("collect"))), (1, st.tuples(st.just("flush"), st.sampled_from(["t", "l", "m"]))))
common = {
    "spans": st.sampled_from(["none", "simple", "failing", "batch"]), "logs": st.sampled_from(["none", "simple", "failing", "batch", "bridge", "bridge-failing"]), "metrics": st.sampled_from(["none", "periodic", "failing"]), "views": st.booleans(),
    "inner": st.dictionaries(st.sampled_from(HOOKS), st.lists(inner, min_size=1, max_size=4), min_size=1, max_size=4),
    "depth": st.integers(1, 2), "schedule": vsched.schedules,
}
case_s = st.fixed_dictionaries(dict(common, threads=weighted((3, st.lists(st.lists(outer, min_size=1, max_size=8), min_size=1, max_size=1)), (2, st.lists(st.lists(outer, min_size=1, max_size=5), min_size=2, max_size=2)))))
busy = weighted((2, inner), (2, st.tuples(st.just("create"), pick("counter", "histogram", "gauge", "observable"), pick("a", "total"), st.just(""))), (1, st.tuples(st.just("collect"))))
locked_s = st.fixed_dictionaries(dict(
    common, inner=st.dictionaries(st.sampled_from(HOOKS), st.lists(inner, max_size=2), max_size=2), lock=st.lists(st.sampled_from(HOOKS), min_size=1, max_size=3, unique=True),
    threads=st.lists(st.lists(weighted((3, st.tuples(st.just("held"), busy.filter(lambda o: o[0] != "collect"))), (2, outer), (2, busy)), min_size=1, max_size=4), min_size=2, max_size=3)))


class World:
    def __init__(self, case):
        self.case, self.depth, self.left, self.turn, self.used = case, {}, 14, 0, set()
        self.lock, self.takes = threading.RLock() if "lock" in case else None, set(case.get("lock", ()))
        self.waited, self.holder = set(), None
        self.spans, self.ended, self.logged, self.seen, self.want, self.added, self.errors, self.failed = [], [], [], [], [], 0, [], False

    def take(self, kind):
        if not self.lock.acquire(False):
            self.waited |= {kind, self.holder}
            self.lock.acquire()
        outer, self.holder = self.holder, kind
        return outer

    def hook(self, kind):
        if kind in self.takes:
            outer = self.take(kind)
            try:
                self.inside(kind)
            finally:
                self.holder = outer
                self.lock.release()
        else:
            self.inside(kind)

    def inside(self, kind):
        ops = self.case["inner"].get(kind)
        me = vsched._ident()
        d = self.depth.get(me, 0)
        if not ops or self.left <= 0 or d >= self.case["depth"]:
            return
        self.left -= 1
        self.turn += 1
        self.used.add(kind)
        self.depth[me] = d + 1
        try:
            self.do(ops[self.turn % len(ops)])
        finally:
            self.depth[me] = d

    def do(self, o):
        try:
            self.act(o)
        except Exception as e:  # reported at the end: some of the callers contain exceptions
            self.errors.append("%s: %r" % (o, e))

    def act(self, o):
        k = o[0]
        if k == "held":
            outer = self.take("call")
            try:
                return self.act(o[1])
            finally:
                self.holder = outer
                self.lock.release()
        if k in ("event", "attr", "status", "end", "name", "link", "exc", "child"):
            if not self.spans:
                return
            s = self.spans[o[1] % len(self.spans)]
        if k == "event":
            n = len(self.want)
            self.want.append(None)
            s.add_event("e%d" % n)
            if s.is_recording():
                self.want[n] = s
        elif k == "exc":
            s.record_exception(ValueError("x"), {"k": object()})
        elif k == "attr":
            s.set_attributes({"ok": {"k": 1}, "bad": {"k": object()}, "key": {"": 1}, "mixed": {"j": [1, "a"], "k": 2}}[o[2]])
        elif k == "status":
            if o[2]:
                s.set_status(Status(StatusCode.ERROR, "d"), "ignored")
            else:
                s.set_status(StatusCode.ERROR)
        elif k == "end":
            s.end()
        elif k == "name":
            s.update_name("x")
        elif k == "link":
            s.add_link(s.get_span_context(), {"k": object()})
        elif k == "start":
            s = self.tp.get_tracer(o[1]).start_span("s")
            if s.is_recording():
                self.spans.append(s)
        elif k == "child":
            with trace_api.use_span(s):
                c = self.tracer.start_span("c", attributes={"k": object()})
                self.spans.append(c)
        elif k == "count":
            if o[1] > 0:
                self.added += o[1]
            self.total.add(o[1], {"k": [1, "a"]} if o[1] == 2 else None)
        elif k == "hist":
            self.hist.record(o[1])
        elif k == "log":
            self.logged.append(1)
            self.logger.emit(LogRecord(timestamp=1, resource=Resource({}), body="b", severity_number=SeverityNumber.INFO, attributes={"ok": {"k": 1}, "bad": {"k": object()}, "mixed": {"k": [1, "a"]}}[o[1]]))
        elif k == "create":
            m = self.mp.get_meter("m")
            if o[1] == "advisory":
                m.create_histogram(o[2], explicit_bucket_boundaries_advisory=[1.0, 2.0] if o[3] else None)
            elif o[1] == "observable":
                m.create_observable_gauge(o[2], [self.callback], o[3])
            else:
                i = getattr(m, "create_" + o[1])(o[2], o[3])
                getattr(i, {"counter": "add", "histogram": "record", "gauge": "set"}[o[1]])(1)
        elif k == "meter":
            self.mp.get_meter(o[1]).create_counter("a")
        elif k == "get":
            {"t": self.tp.get_tracer, "l": self.lp.get_logger, "m": self.mp.get_meter}[o[1]](o[2])
        elif k == "std":
            getattr(logging.getLogger("opentelemetry.user"), o[1])("hello %s", "you")
        elif k == "collect":
            self.reader.collect()
        elif k == "flush":
            {"t": self.tp, "l": self.lp, "m": self.mp}[o[1]].force_flush(1000)

    def callback(self, options):
        self.hook("callback")
        if self.turn % 2:
            raise ValueError("callback")
        return [Observation(1)]


def build(w):
    case = w.case

    class Ids(RandomIdGenerator):
        def generate_span_id(self):
            w.hook("ids")
            return super().generate_span_id()

    class MySampler(Sampler):
        def should_sample(self, *a, **kw):
            w.hook("sampler")
            return SamplingResult(Decision.RECORD_AND_SAMPLE, {"s": 1})

        def get_description(self):
            return "mine"

    class Probe(SpanProcessor):
        def on_start(self, span, parent_context=None):
            w.hook("start")

        def on_end(self, span):
            w.ended.append((span.context.span_id, [e.name for e in span.events]))
            w.hook("end")

    class LogProbe(LogRecordProcessor):
        def emit(self, log_data):
            if log_data.log_record.body == "b":
                w.seen.append(1)
            w.hook("record")

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            return True

    def exporting(fail, ok, failure):
        def export(self, batch, *a, **kw):
            w.hook("export")
            if fail:
                w.failed = True
                raise ValueError("export")
            return ok
        return export

    def exporter(base, fail, ok, failure, **kw):
        body = {"export": exporting(fail, ok, failure), "shutdown": lambda self, *a, **k: None, "force_flush": lambda self, *a, **k: True}
        return type("Exporter", (base,), body)(**kw)

    class Filter(ExemplarFilter):
        def should_sample(self, *a, **kw):
            w.hook("filter")
            return True

    w.tp = TracerProvider(sampler=MySampler(), resource=Resource({}), shutdown_on_exit=False, id_generator=Ids(), span_limits=SpanLimits(max_events=MAX, max_links=MAX, max_span_attributes=MAX))
    w.tp.add_span_processor(Probe())
    kind = case["spans"]
    if kind != "none":
        e = exporter(SpanExporter, kind == "failing", SpanExportResult.SUCCESS, SpanExportResult.FAILURE)
        w.tp.add_span_processor(BatchSpanProcessor(e, 2, 100, 1) if kind == "batch" else SimpleSpanProcessor(e))
    w.lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
    w.lp.add_log_record_processor(LogProbe())
    kind = case["logs"]
    if kind != "none":
        e = exporter(LogExporter, "failing" in kind, LogExportResult.SUCCESS, LogExportResult.FAILURE)
        w.lp.add_log_record_processor(BatchLogRecordProcessor(e, 100, 1, 1000, 2) if kind == "batch" else SimpleLogRecordProcessor(e))
    w.reader = InMemoryMetricReader()
    readers = [w.reader]
    kind = case["metrics"]
    if kind != "none":
        readers.append(PeriodicExportingMetricReader(exporter(MetricExporter, kind == "failing", MetricExportResult.SUCCESS, MetricExportResult.FAILURE), 50))
    views = [View(instrument_name="a", meter_name="m", name="one"), View(instrument_name="total", meter_name="m", name="one"), View(instrument_type=ObservableGauge, meter_name="m", aggregation=ExplicitBucketHistogramAggregation())] if case["views"] else []
    w.mp = MeterProvider(readers, views=views, resource=Resource({}), shutdown_on_exit=False, exemplar_filter=Filter() if "filter" in case["inner"] else AlwaysOnExemplarFilter())
    w.tracer, w.logger = w.tp.get_tracer("t"), w.lp.get_logger("l")
    m = w.mp.get_meter("main")
    w.total, w.hist = m.create_counter("total"), m.create_histogram("hist")
    m.create_observable_gauge("obs", [w.callback])


class Handler(logging.Handler):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def createLock(self):
        self.lock = None

    def emit(self, record):
        record.getMessage()
        self.w.hook("log")


@sub("reentry", case_s, quick=2500, thorough=120000)
def reentry(rec, case):
    history(rec, case)


@sub("own-lock", locked_s, quick=1500, thorough=60000,
     rule="as reentry with two or three threads, and one lock of the application's own which some of the called-back code takes (as a handler of the standard logging does) and which some of the calls are made under. non-trivial: a thread had to wait for that lock, and it or the holder was code called by the SDK")
def own_lock(rec, case):
    history(rec, case)


def history(rec, case):
    w = World(case)
    log = logging.getLogger("opentelemetry")
    saved = log.level, log.propagate, list(log.handlers)

    def scenario(sim):
        build(w)
        w.spans.append(w.tracer.start_span("root"))
        log.handlers[:] = [Handler(w)]
        if case["logs"].startswith("bridge"):
            bridge = LoggingHandler(logger_provider=w.lp)
            bridge.lock = w.lock
            log.addHandler(bridge)
        sim.join(*[sim.thread(lambda ops=ops: [w.do(o) for o in ops], "user%d" % i) for i, ops in enumerate(case["threads"])])
        w.case = dict(case, inner={})
        while any(w.depth.values()):
            time.sleep(0.001)
        for s in list(w.spans):
            s.end()
        w.tp.shutdown()
        w.lp.shutdown()
        data = w.reader.get_metrics_data()
        w.mp.shutdown()
        return data

    log.setLevel(logging.DEBUG)
    log.propagate = False
    logging.Logger.manager.disable, level = 0, logging.Logger.manager.disable
    try:
        data, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    finally:
        logging.Logger.manager.disable = level
        log.level, log.propagate = saved[:2]
        log.handlers[:] = saved[2]
        log.manager._clear_cache()
    for _n, e in sim.thread_errors:
        raise e
    rec.eq(w.errors, [], "calls that raised")
    ends = {}
    for i, events in w.ended:
        rec.check(i not in ends, "a span was exported twice")
        ends[i] = events
    rec.eq(len(w.ended), len(w.spans), "spans that were given to the processors")
    for n, s in enumerate(w.want):
        if s is not None:
            rec.eq(ends[s.get_span_context().span_id].count("e%d" % n), 1, "event e%d in the exported span" % n)
    rec.eq(len(w.seen), len(w.logged), "log records that reached the processor")
    got = 0
    for rm in (data.resource_metrics if data else []):
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                if sm.scope.name == "main" and m.name == "total":
                    got += sum(p.value for p in m.data.data_points)
    rec.eq(got, w.added, "sum of the counter")
    rec.nontrivial(w.waited - {"call", None} if "lock" in case else len(w.used) >= 2)
    rec.label(*["from " + k for k in w.used], "two threads" if len(case["threads"]) > 1 else "one thread")


remote = st.fixed_dictionaries({
    "script": st.lists(st.tuples(weighted((3, pick("UNAVAILABLE", "DEADLINE_EXCEEDED")), (2, pick("INVALID_ARGUMENT", "UNKNOWN")), (1, st.just("OK"))), weighted((3, st.none()), (1, pick(0, 10**9)))), min_size=1, max_size=6),
    "ops": st.lists(pick("span", "log", "warn"), min_size=1, max_size=4), "inner": st.lists(pick("span", "log", "flush", "bad span"), min_size=1, max_size=3), "bridge": st.booleans()})


@sub("own-exporter", remote, quick=250, thorough=12000,
     rule="the gRPC exporters of spans and logs behind simple processors, with failing calls; a handler of their messages ends spans and emits logs that go to the same exporters (which may drop what comes from their own messages), and the bridge for standard logging may be attached. non-trivial: the handler was called during an export")
def own_exporter(rec, case):
    out = {"errors": [], "inside": 0, "left": 5, "names": 0, "logs": 0, "depth": {}, "top": []}
    log = logging.getLogger("opentelemetry")
    saved = log.level, log.propagate, list(log.handlers)

    def act(o, nested=False):
        try:
            if o == "span":
                n = out["names"]
                out["names"] += 1
                if not nested:
                    out["top"].append("s%d" % n)
                out["tp"].get_tracer("t").start_span("s%d" % n).end()
            elif o == "bad span":
                s = out["tp"].get_tracer("t").start_span("bad")
                s.set_attribute("k", object())
                s.update_name("s%d" % out["names"])
                out["names"] += 1
                s.end()
            elif o == "log":
                n = out["logs"]
                out["logs"] += 1
                out["lp"].get_logger("l").emit(LogRecord(timestamp=1, resource=Resource({}), body="b%d" % n, severity_number=SeverityNumber.INFO, attributes={}))
            elif o == "flush":
                out["tp"].force_flush(1000)
            else:
                logging.getLogger("opentelemetry.user").warning("hello")
        except Exception as e:
            out["errors"].append("%s: %r" % (o, e))

    class Own(Handler):
        def emit(self, record):
            me = vsched._ident()
            if out["left"] <= 0 or out["depth"].get(me):
                return
            out["left"] -= 1
            out["inside"] += "exporting" in record.getMessage() or "Failed" in record.getMessage()
            out["depth"][me] = 1
            try:
                act(case["inner"][out["left"] % len(case["inner"])], True)
            finally:
                out["depth"][me] = 0

    def scenario(sim):
        with fakegrpc.Server(sim) as server:
            out["server"] = server
            server.script = list(case["script"])
            out["tp"] = tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
            tp.add_span_processor(SimpleSpanProcessor(OTLPSpanExporter(insecure=True)))
            out["lp"] = lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
            lp.add_log_record_processor(SimpleLogRecordProcessor(OTLPLogExporter(insecure=True)))
            log.handlers[:] = [Own(None)]
            if case["bridge"]:
                log.addHandler(LoggingHandler(logger_provider=lp))
                log.handlers[-1].lock = None
            for o in case["ops"]:
                act(o)
            log.handlers[:] = []
            tp.shutdown()
            lp.shutdown()

    log.setLevel(logging.DEBUG)
    log.propagate = False
    logging.Logger.manager.disable, level = 0, logging.Logger.manager.disable
    try:
        _, sim = vsched.simulate(("gaps", []), scenario, trace=False)
    finally:
        logging.Logger.manager.disable = level
        log.level, log.propagate = saved[:2]
        log.handlers[:] = saved[2]
        log.manager._clear_cache()
    for _n, e in sim.thread_errors:
        raise e
    rec.eq(out["errors"], [], "calls that raised")
    tried, done = {}, {}
    for c in out["server"].seen:
        if "TraceService" in c["method"]:
            for rs in ExportTraceServiceRequest.FromString(c["body"]).resource_spans:
                for ss in rs.scope_spans:
                    for x in ss.spans:
                        tried[x.name] = tried.get(x.name, 0) + 1
                        done[x.name] = done.get(x.name, 0) + (c["code"] == "OK")
    rec.check(set(out["top"]) <= set(tried), "spans %s never sent: the server saw %s", out["top"], tried)
    rec.check(set(tried) <= {"s%d" % i for i in range(out["names"])}, "spans never ended: %s", tried)
    rec.check(all(v <= 1 for v in done.values()), "spans delivered more than once: %s", done)
    rec.nontrivial(out["inside"])
    rec.label("inside an export" if out["inside"] else "outside", "bridge" if case["bridge"] else "no bridge")


@sub("crossing", st.fixed_dictionaries({
    "threads": st.lists(st.lists(st.tuples(st.booleans(), pick("span", "log", "bad span")), min_size=1, max_size=3), min_size=2, max_size=3), "lock": st.booleans(), "inner": pick(None, "span", "log", "other"), "left": st.integers(1, 3),
    "script": st.lists(st.tuples(pick("UNAVAILABLE", "INVALID_ARGUMENT", "UNKNOWN", "OK"), st.just(None)), min_size=1, max_size=5), "schedule": vsched.schedules}), quick=250, thorough=12000,
     rule="two or three threads export spans and log records through gRPC exporters whose calls fail, some under a lock of the application; the handler of the messages about that takes that lock or exports something too, possibly through the other exporter. non-trivial: the handler was called by two threads, or inside an export while another thread held the lock")
def crossing(rec, case):
    log = logging.getLogger("opentelemetry")
    saved = log.level, log.propagate, list(log.handlers)
    out, busy, called, lock = {"errors": [], "left": case["left"], "waited": False}, {}, set(), threading.RLock()

    def act(o):
        try:
            if o == "log":
                out["lp"].get_logger("l").emit(LogRecord(timestamp=1, resource=Resource({}), body="b", severity_number=SeverityNumber.INFO, attributes={}))
            else:
                out["tp"].get_tracer("t").start_span("s", attributes={"k": object()} if o == "bad span" else None).end()
        except Exception as e:
            out["errors"].append("%s: %r" % (o, e))

    class Own(Handler):
        def emit(self, record):
            me = vsched._ident()
            if me not in busy:
                return
            called.add(me)
            if case["lock"]:
                if not lock.acquire(False):
                    out["waited"] = True
                    lock.acquire()
            try:
                if case["inner"] and out["left"]:
                    out["left"] -= 1
                    mine = busy.pop(me)
                    act({"other": "span" if mine == "log" else "log"}.get(case["inner"], case["inner"]))
                    busy[me] = mine
            finally:
                if case["lock"]:
                    lock.release()

    def scenario(sim):
        with fakegrpc.Server(sim) as server:
            out["server"] = server
            server.script = list(case["script"])
            out["tp"] = tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
            tp.add_span_processor(SimpleSpanProcessor(OTLPSpanExporter(insecure=True)))
            out["lp"] = lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
            lp.add_log_record_processor(SimpleLogRecordProcessor(OTLPLogExporter(insecure=True)))
            log.handlers[:] = [Own(None)]

            def user(ops):
                for held, o in ops:
                    busy[vsched._ident()] = o
                    if held and case["lock"]:
                        with lock:
                            act(o)
                    else:
                        act(o)
            sim.join(*[sim.thread(lambda ops=ops: user(ops), "user%d" % n) for n, ops in enumerate(case["threads"])])
            log.handlers[:] = []
            tp.shutdown()
            lp.shutdown()

    log.setLevel(logging.DEBUG)
    log.propagate = False
    logging.Logger.manager.disable, level = 0, logging.Logger.manager.disable
    try:
        vsched.simulate(case["schedule"], scenario, ticks=False, generators=False)
    finally:
        logging.Logger.manager.disable = level
        log.level, log.propagate = saved[:2]
        log.handlers[:] = saved[2]
        log.manager._clear_cache()
    rec.eq(out["errors"], [], "calls that raised")
    rec.nontrivial(len(called) >= 2 or out["waited"])


proxied = weighted((4, st.tuples(st.just("create"), pick("histogram", "counter", "up_down_counter", "histogram", "gauge", "observable_gauge", "observable_counter"), pick("b", "a", "A"), pick("s", "", "x"))), (2, st.tuples(st.just("meter"), pick("m", "n", ""))), (1, st.tuples(st.just("tracer"), pick("m", ""))),
                   (1, st.tuples(st.just("logger"), pick("m", ""))), (2, st.tuples(st.just("use"))))


@sub("proxies", st.fixed_dictionaries({
    "before": st.lists(proxied, max_size=3), "threads": st.lists(st.lists(st.tuples(st.booleans(), weighted((3, proxied), (1, st.tuples(st.just("set"))))), min_size=1, max_size=4), min_size=1, max_size=2),
    "inner": st.lists(proxied, max_size=2), "lock": st.booleans(), "schedule": vsched.schedules}), quick=200, thorough=10000,
     rule="each case in a forked process: meters, instruments and tracers obtained from the global entry points before and while one thread sets the providers; a handler of the SDK's messages uses the same meters or takes a lock of the application which some of the calls are made under. non-trivial: the handler was called inside a call")
@forked
def proxies(rec, case):
    out = proxied_history(case)
    rec.eq(out["errors"], [], "calls that raised")
    rec.check(out["lost"] is None, "%s", out["lost"])
    rec.nontrivial(out["called"])


def proxied_history(case):
    from opentelemetry import _logs, metrics
    logging.disable(logging.NOTSET)
    log = logging.getLogger("opentelemetry")
    out = {"errors": [], "called": 0, "lost": None}
    lock, busy, left = threading.RLock(), {}, [6]
    provider = metrics.get_meter_provider()
    meter = provider.get_meter("m")
    mine = metrics.get_meter("mine").create_counter("c")
    instruments = [meter.create_counter("a"), meter.create_histogram("b")]
    reader = InMemoryMetricReader()

    def act(o):
        try:
            if o[0] == "create":
                kw = {"callbacks": [lambda options: [Observation(1)]]} if o[1].startswith("obs") else {}
                if o[1] == "histogram":
                    kw = {"explicit_bucket_boundaries_advisory": {"": None, "s": [1.0, 2.0], "x": "x"}[o[3]]}
                i = getattr(meter, "create_" + o[1])(o[2], unit="", **kw)
                if "callbacks" not in kw:
                    instruments.append(i)
            elif o[0] == "meter":
                instruments.append(provider.get_meter(o[1]).create_counter("x"))
            elif o[0] == "tracer":
                trace_api.get_tracer(o[1]).start_span("s", attributes={"k": object()}).end()
            elif o[0] == "logger":
                _logs.get_logger(o[1]).emit(LogRecord(timestamp=1, resource=Resource({}), body="b", attributes={"k": object()}))
            elif o[0] == "set":
                metrics.set_meter_provider(out["mp"])
                trace_api.set_tracer_provider(out["tp"])
            else:
                for i in list(instruments):
                    getattr(i, {True: "add", False: "record"}[hasattr(i, "add")], getattr(i, "set", None))(1)
        except Exception as e:
            out["errors"].append("%s: %r" % (o, e))

    def perform(held, o):
        busy[vsched._ident()] = 0
        if held and case["lock"]:
            with lock:
                act(o)
        else:
            act(o)
        busy.pop(vsched._ident())

    class Own(Handler):
        def emit(self, record):
            me = vsched._ident()
            if me not in busy or busy[me]:
                return
            out["called"] += 1
            if case["lock"]:
                lock.acquire()
            try:
                if case["inner"] and left[0]:
                    left[0] -= 1
                    busy[me] = 1
                    act(case["inner"][left[0] % len(case["inner"])])
                    busy[me] = 0
            finally:
                if case["lock"]:
                    lock.release()

    def scenario(sim):
        out["mp"] = MeterProvider([reader], resource=Resource({}), shutdown_on_exit=False)
        out["tp"] = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        log.handlers[:] = [Own(None)]
        for o in case["before"]:
            perform(False, o)
        sim.join(*[sim.thread(lambda ops=ops: [perform(*o) for o in ops], "user%d" % n) for n, ops in enumerate(case["threads"])])
        perform(False, ("set",))
        log.handlers[:] = []
        mine.add(5)
        data = reader.get_metrics_data()
        if not [m for rm in (data.resource_metrics if data else []) for sm in rm.scope_metrics if sm.scope.name == "mine" for m in sm.metrics]:
            out["lost"] = "a counter created before its provider was set records nothing after"

    log.setLevel(logging.DEBUG)
    log.propagate = False
    vsched.simulate(case["schedule"], scenario, ticks=False, generators=False)
    return out
