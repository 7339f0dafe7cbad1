"""R07: what was recorded before the process ended normally is exported."""
import atexit
import logging
import os
import subprocess
import sys
import tempfile
import textwrap
import threading
import time

from hypothesis import strategies as st

from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import MetricExporter, MetricExportResult, PeriodicExportingMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SynchronousMultiSpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult
from vlib.core import sub
from vlib.forked import forked
from vlib.gen import pick, weighted

RULE = ("pipelines of all three signals with simple and batch processors and periodic readers, behind sequential and concurrent composites; the main thread, a thread that outlives it and exit functions record; then the exit "
        "sequence of the interpreter runs (threads are joined, exit functions called) and everything must have been exported once, before the exporter was shut down once. non-trivial: something was still queued when the main thread ended, or was recorded afterwards.")
ASSUMPTIONS = ["the process is not killed and exporters return", "exit functions registered before a provider was made run after its shutdown and are promised nothing", "queues are not overrun"]

kinds = st.lists(st.tuples(pick("simple", "batch", "batch"), pick(1, 2, 5, 512), pick(0, 0, 1)), min_size=1, max_size=3)
ops = st.lists(weighted((4, st.just("span")), (1, st.just("open")), (3, st.just("log")), (2, st.just("std")), (3, st.just("count"))), max_size=6)
composite = weighted((3, st.just(0)), (3, st.integers(1, 3)))
case_s = st.fixed_dictionaries({
    "spans": kinds, "logs": kinds, "readers": st.lists(pick(10, 60000, 60000), min_size=1, max_size=2), "span_composite": composite, "log_composite": composite,
    "main": ops, "thread": st.none() | ops, "before": st.none() | ops, "after": st.none() | ops, "early": st.lists(st.sampled_from(["t", "l", "m"]), max_size=1), "handler": st.booleans(), "registered": weighted((6, st.just(True)), (1, st.just(False))),
})


class Sink:
    """Records what one exporter was given."""

    def __init__(self, base, result, delay, names):
        me = self
        self.items, self.batches, self.shutdowns, self.late = [], 0, 0, 0

        class Exporter(base):
            def export(self, batch, *a, **kw):
                me.batches += 1
                me.late += me.shutdowns
                if delay:
                    time.sleep(delay / 1000)
                me.items += names(batch)
                return result.SUCCESS

            def shutdown(self, *a, **kw):
                me.shutdowns += 1

            def force_flush(self, *a, **kw):
                return True
        self.exporter = Exporter()


def points(data):
    return [{m.name: sum(p.value for p in m.data.data_points) for rm in data.resource_metrics for sm in rm.scope_metrics for m in sm.metrics}]


@sub("exit", case_s, quick=900, thorough=60000)
@forked
def at_exit(rec, case):
    unraised = []
    sys.unraisablehook = lambda u: unraised.append("%r in %r" % (u.exc_value, u.object))
    threading.excepthook = lambda a: unraised.append("%r in %s" % (a.exc_value, a.thread.name))
    atexit._clear()
    atexit.register(logging.shutdown)
    counts = {"span": 0, "log": 0, "std": 0, "count": 0}
    made, errors, state = [], [], {"ended": False, "after": 0}
    on = case["registered"]
    std = logging.getLogger("verif.r07")
    std.propagate = False
    std.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    logging.getLogger("opentelemetry").addHandler(logging.NullHandler())
    logging.getLogger("opentelemetry").propagate = False

    def do(o, counted=True):
        try:
            if o == "span":
                counts["span"] += counted
                tracer.start_span("s%d" % counts["span"]).end()
            elif o == "open":
                made.append(tracer.start_span("open"))
            elif o == "log":
                counts["log"] += counted
                logger.emit(LogRecord(timestamp=1, body="l%d" % counts["log"], resource=Resource({})))
            elif o == "std":
                if case["handler"]:
                    counts["std"] += counted
                std.info("x%d", counts["std"])
            else:
                counts["count"] += counted
                counter.add(1)
        except BaseException as e:  # noqa
            errors.append("%s: %r" % (o, e))
        if state["ended"]:
            state["after"] += 1

    if case["before"] is not None:
        atexit.register(lambda: [do(o, False) for o in case["before"]])
    n = case["span_composite"]
    tp = TracerProvider(resource=Resource({}), shutdown_on_exit=on, active_span_processor=ConcurrentMultiSpanProcessor(n) if n else SynchronousMultiSpanProcessor())
    n = case["log_composite"]
    lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=on, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(n) if n else SynchronousMultiLogRecordProcessor())
    spans, logs, metrics = [], [], []
    for kind, size, delay in case["spans"]:
        s = Sink(SpanExporter, SpanExportResult, delay, lambda b: [x.name for x in b])
        spans.append(s)
        tp.add_span_processor(SimpleSpanProcessor(s.exporter) if kind == "simple" else BatchSpanProcessor(s.exporter, max_export_batch_size=size, schedule_delay_millis=60000))
    for kind, size, delay in case["logs"]:
        s = Sink(LogExporter, LogExportResult, delay, lambda b: [x.log_record.body for x in b])
        logs.append(s)
        lp.add_log_record_processor(SimpleLogRecordProcessor(s.exporter) if kind == "simple" else BatchLogRecordProcessor(s.exporter, max_export_batch_size=size, schedule_delay_millis=60000))
    for interval in case["readers"]:
        metrics.append(Sink(MetricExporter, MetricExportResult, 0, points))
    mp = MeterProvider([PeriodicExportingMetricReader(s.exporter, i) for s, i in zip(metrics, case["readers"])], resource=Resource({}), shutdown_on_exit=on)
    tracer, logger, counter = tp.get_tracer("t"), lp.get_logger("l"), mp.get_meter("m").create_counter("c")
    if case["handler"]:
        std.addHandler(LoggingHandler(logger_provider=lp))
    go = threading.Event()
    if case["after"] is not None:
        atexit.register(lambda: [do(o) for o in case["after"]])

    def outlive():
        go.wait()
        time.sleep(0.01)
        for o in case["thread"]:
            do(o)
    if case["thread"] is not None:
        threading.Thread(target=outlive, name="outlives").start()
    for o in case["main"]:
        do(o)
    closed = set(case["early"])
    for e in closed:
        {"t": tp, "l": lp, "m": mp}[e].shutdown()
    want = dict(counts) if closed else counts
    waiting = sum(len(x.items) < counts["span"] for x in spans) + sum(len(x.items) < counts["log"] + counts["std"] for x in logs)
    # from here on what Py_Finalize does
    state["ended"] = True
    go.set()
    threading._shutdown()
    atexit._run_exitfuncs()
    rec.eq(errors, [], "calls that raised")
    rec.eq(unraised, [], "exceptions in threads and exit functions")
    w = want if "t" in closed else counts
    for x, (kind, *_r) in zip(spans, case["spans"]):
        if on or "t" in closed or kind == "simple":
            rec.check("open" not in x.items, "a span that was not ended was exported")
            if "t" not in closed and on and case["before"] is None:
                rec.eq(sorted(set(x.items)), sorted("s%d" % (i + 1) for i in range(w["span"])), "spans exported by a %s processor" % kind)
            rec.check(set(x.items) >= {"s%d" % (i + 1) for i in range(w["span"])}, "a %s processor exported only %s of %d spans", kind, x.items, w["span"])
            if case["before"] is None:
                rec.eq(len(set(x.items)), len(x.items), "spans exported twice")
        if on or "t" in closed:
            rec.eq((x.shutdowns, x.late * (case["before"] is None and not closed)), (1, 0), "shutdowns of the span exporter and exports after it")
    w = want if "l" in closed else counts
    for x, (kind, *_r) in zip(logs, case["logs"]):
        if on or "l" in closed or kind == "simple":
            need = {"l%d" % (i + 1) for i in range(w["log"])} | {"x%d" % (i + 1) for i in range(w["std"])}
            rec.check(set(x.items) >= need, "a %s processor exported only %s of %s", kind, x.items, sorted(need))
            if case["before"] is None:
                rec.eq(len(set(x.items)), len(x.items), "log records exported twice")
        if on or "l" in closed:
            rec.eq((x.shutdowns, x.late * (case["before"] is None and not closed)), (1, 0), "shutdowns of the log exporter and exports after it")
    w = want if "m" in closed else counts
    for x in metrics:
        if on or "m" in closed:
            got = [i["c"] for i in x.items if "c" in i]
            rec.eq(got[-1] if got else 0, w["count"], "last exported value of the counter")
            rec.eq((x.shutdowns, x.late * (case["before"] is None and not closed)), (1, 0), "shutdowns of the metric exporter and exports after it")
    rec.nontrivial((waiting or state["after"]) and sum(counts.values()))
    rec.label("queued" if waiting else "nothing queued", "recorded late" if state["after"] else "nothing late", "concurrent" if case["span_composite"] or case["log_composite"] else "sequential")


PROGRAM = r'''
import sys, threading, json
case = json.loads(sys.argv[1])
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, ConsoleLogExporter
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import ConsoleMetricExporter, PeriodicExportingMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SynchronousMultiSpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, ConsoleSpanExporter
from opentelemetry import _logs, metrics, trace
import logging

def build():
    tp = TracerProvider(resource=Resource({}), active_span_processor=(ConcurrentMultiSpanProcessor if case["concurrent"] else SynchronousMultiSpanProcessor)())
    tp.add_span_processor(BatchSpanProcessor(ConsoleSpanExporter(formatter=lambda s: "S " + s.name + "\n"), schedule_delay_millis=60000))
    lp = LoggerProvider(resource=Resource({}), multi_log_record_processor=(ConcurrentMultiLogRecordProcessor if case["concurrent"] else SynchronousMultiLogRecordProcessor)())
    lp.add_log_record_processor(BatchLogRecordProcessor(ConsoleLogExporter(formatter=lambda r: "L " + r.body + "\n"), schedule_delay_millis=60000))
    mp = MeterProvider([PeriodicExportingMetricReader(ConsoleMetricExporter(formatter=lambda d: "M %d\n" % sum(p.value for r in d.resource_metrics for s in r.scope_metrics for m in s.metrics for p in m.data.data_points)), 60000)], resource=Resource({}))
    if case["global"]:
        trace.set_tracer_provider(tp)
        _logs.set_logger_provider(lp)
        metrics.set_meter_provider(mp)
    logging.getLogger("app").addHandler(LoggingHandler(logger_provider=lp))
    logging.getLogger("app").setLevel(logging.INFO)
    logging.getLogger("app").propagate = False
    return tp.get_tracer("t"), mp.get_meter("m").create_counter("c")

tracer, counter = build()

def work(who, n):
    for i in range(n):
        with tracer.start_as_current_span("%s%d" % (who, i)):
            counter.add(1)
            logging.getLogger("app").info("%s%d" % (who, i))

if case["thread"] is not None:
    def late():
        threading.main_thread().join()
        work("t", case["thread"])
    threading.Thread(target=late).start()
work("m", case["main"])
if case["end"] == "exit":
    sys.exit(case["code"])
if case["end"] == "raise":
    with tracer.start_as_current_span("failing"):
        raise ValueError("the end")
if case["end"] == "interrupt":
    raise KeyboardInterrupt
'''


@sub("interpreter", st.fixed_dictionaries({"concurrent": st.booleans(), "global": st.booleans(), "thread": st.none() | st.integers(0, 2), "main": st.integers(0, 3), "end": pick("fall", "exit", "exit", "raise", "interrupt"), "code": pick(0, 3, None, "text")}),
     quick=40, thorough=1500, rule="a program of its own that ends by reaching its end, sys.exit, an exception or an interrupt. non-trivial: something was recorded")
def interpreter(rec, case):
    import json
    with tempfile.TemporaryDirectory(prefix="verif-r07-") as d:
        p = subprocess.run([sys.executable, "-B", "-c", textwrap.dedent(PROGRAM), json.dumps(case)], capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=300, cwd=d,
                           env={k: v for k, v in os.environ.items() if not k.startswith("OTEL_")})
    names = ["m%d" % i for i in range(case["main"])] + ["t%d" % i for i in range(case["thread"] or 0)]
    lines = p.stdout.split("\n")
    code = {"fall": 0, "raise": 1, "interrupt": -2}.get(case["end"], {None: 0, "text": 1}.get(case["code"], case["code"]))
    rec.eq(p.returncode, code, "exit status, with %r on stderr" % p.stderr[-300:])
    rec.eq(sorted(x[2:] for x in lines if x[:1] == "S"), sorted(names + ["failing"] * (case["end"] == "raise")), "spans exported")
    rec.eq(sorted(x[2:] for x in lines if x[:1] == "L"), sorted(names), "log records exported")
    values = [int(x[2:]) for x in lines if x[:1] == "M"]
    rec.eq(values[-1] if values else 0, len(names), "last value of the counter exported")
    rec.eq(p.stderr.count("Traceback"), int(case["end"] in ("raise", "interrupt")), "tracebacks in %r" % p.stderr[-600:])
    rec.check("Exception ignored" not in p.stderr and "Error in" not in p.stderr, "stderr has %r", p.stderr[-600:])
    rec.nontrivial(names)
    rec.label(case["end"], "concurrent" if case["concurrent"] else "sequential")
