"""R09: in-memory exporters hold what was exported, console exporters write it."""
from vlib import vsched
vsched.install()

import os  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.sdk._logs import LogData, LoggerProvider, LogRecord  # noqa: E402
from opentelemetry.sdk._logs.export import ConsoleLogExporter, InMemoryLogExporter, LogExportResult, SimpleLogRecordProcessor  # noqa: E402
from opentelemetry.sdk.metrics import MeterProvider  # noqa: E402
from opentelemetry.sdk.metrics.export import ConsoleMetricExporter, InMemoryMetricReader, MetricExportResult  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import TracerProvider  # noqa: E402
from opentelemetry.sdk.trace.export import ConsoleSpanExporter, SimpleSpanProcessor, SpanExportResult  # noqa: E402
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter  # noqa: E402
from opentelemetry.sdk.util.instrumentation import InstrumentationScope  # noqa: E402
from vlib import linear  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

TECHNIQUE = "model-based testing of histories against a list; linearizability of concurrent histories under a deterministic scheduler (hypothesis)"
RULE = ("histories of exports (directly and by simple processors), reads, clears, changes to what a read returned, flushes and shutdown of the in-memory span and log exporters, also by concurrent threads; the stored items must be exactly those of "
        "a list. Console exporters with generated formatters and streams must write each item's text once, in order, and flush. non-trivial: something was cleared and something exported after it; calls of threads overlap; several items were written.")
ASSUMPTIONS = ["an export that overlaps a shutdown may take effect after it"]

NAMES = ["a", "b", "", "a", "\u00e9"]
batch = st.lists(st.integers(0, 4), max_size=4)
op = weighted((5, st.tuples(st.just("export"), batch, pick("list", "tuple"))), (3, st.tuples(st.just("end"), st.integers(0, 4))), (2, st.tuples(st.just("get"))), (2, st.tuples(st.just("clear"))),
              (1, st.tuples(st.just("change"))), (1, st.tuples(st.just("flush"))), (1, st.tuples(st.just("shutdown"))))
signal = pick("span", "log")
case_s = st.fixed_dictionaries({"signal": signal, "ops": st.lists(op, max_size=20)})


class Spans:
    ok, failed = SpanExportResult.SUCCESS, SpanExportResult.FAILURE

    def __init__(self):
        self.exporter = InMemorySpanExporter()
        self.provider = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        self.tracer = self.provider.get_tracer("t")
        self.get, self.n = self.exporter.get_finished_spans, 0

    def connect(self):
        self.provider.add_span_processor(SimpleSpanProcessor(self.exporter))

    def make(self, name):
        s = TracerProvider(resource=Resource({}), shutdown_on_exit=False).get_tracer("t").start_span(name)
        s.end()
        return s

    def end(self, name):
        self.n += 1
        s = self.tracer.start_span(name, attributes={"n": self.n})
        s.end()
        return (name, self.n)

    def key(self, item, made):
        return made.get(id(item)) or (item.name, item.attributes.get("n"))

    def flush(self):
        return self.exporter.force_flush()


class Logs:
    ok, failed = LogExportResult.SUCCESS, LogExportResult.FAILURE

    def __init__(self):
        self.exporter = InMemoryLogExporter()
        self.provider = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
        self.logger = self.provider.get_logger("t")
        self.get, self.n = self.exporter.get_finished_logs, 0

    def connect(self):
        self.provider.add_log_record_processor(SimpleLogRecordProcessor(self.exporter))

    def make(self, name):
        return LogData(LogRecord(body=name, timestamp=1, resource=Resource({})), InstrumentationScope("t"))

    def end(self, name):
        self.n += 1
        self.logger.emit(LogRecord(body=name, timestamp=1, attributes={"n": self.n}, resource=Resource({})))
        return (name, self.n)

    def key(self, item, made):
        return made.get(id(item)) or (item.log_record.body, item.log_record.attributes.get("n"))

    def flush(self):
        return True


def setup(case):
    return Spans() if case["signal"] == "span" else Logs()


@sub("history", case_s, quick=1500, thorough=60000)
def history(rec, case):
    """Items that are equal but distinct count separately; what a read returned is the reader's own."""
    t = setup(case)
    t.connect()
    made, keep, want, reads = {}, [], [], []
    stopped = cleared = after = False
    for o in case["ops"]:
        if o[0] == "export":
            items = [t.make(NAMES[i]) for i in o[1]]
            keys = []
            for x in items:
                keep.append(x)
                made[id(x)] = ("made", len(made))
                keys.append(made[id(x)])
            given = items if o[2] == "list" else tuple(items)
            got = t.exporter.export(given)
            rec.check(got is (t.failed if stopped else t.ok), "export %s returned %r", "after shutdown" if stopped else "", got)
            if not stopped:
                want += keys
                after = after or cleared and bool(keys)
            if o[2] == "list":
                given.clear()
        elif o[0] == "end":
            k = t.end(NAMES[o[1]])
            if not stopped:
                want.append(k)
        elif o[0] == "clear":
            cleared = cleared or bool(want)
            t.exporter.clear()
            want = []
        elif o[0] == "change":
            got = t.get()
            try:
                got.clear()
            except AttributeError:
                pass
        elif o[0] == "flush":
            rec.check(t.flush(), "force_flush failed")
        elif o[0] == "shutdown":
            t.exporter.shutdown()
            stopped = True
        got = t.get()
        rec.eq([t.key(x, made) for x in got], want, "stored items after %s" % (o,))
        reads.append((got, list(want)))
    for got, at in reads:
        rec.eq([t.key(x, made) for x in got], at, "an earlier read, afterwards")
    rec.nontrivial(after)
    rec.label(case["signal"], "stopped" if stopped else "running")


cop = weighted((5, st.tuples(st.just("export"), st.integers(0, 3))), (3, st.tuples(st.just("get"))), (2, st.tuples(st.just("clear"))), (1, st.tuples(st.just("shutdown"))))
conc_s = st.fixed_dictionaries({"signal": signal, "threads": st.lists(st.lists(cop, min_size=1, max_size=4), min_size=2, max_size=3), "schedule": vsched.schedules})


@sub("concurrent", conc_s, quick=1200, thorough=60000)
def concurrent(rec, case):
    """Some order of the calls explains every result."""
    t = setup(case)
    items = {}
    n = 0
    for i, ops in enumerate(case["threads"]):
        for j, o in enumerate(ops):
            if o[0] == "export":
                items[i, j] = [t.make(str(n + k)) for k in range(o[1])]
                n += o[1]
    names = (lambda x: x.name) if case["signal"] == "span" else (lambda x: x.log_record.body)
    calls = linear.Calls()
    final = []

    def scenario(sim):
        def do(o, i, j):
            c = calls.begin(o + ((tuple(names(x) for x in items[i, j]),) if o[0] == "export" else ()), i)
            if o[0] == "export":
                c.end(t.exporter.export(items[i, j]) is t.ok)
            elif o[0] == "get":
                c.end(tuple(names(x) for x in t.get()))
            elif o[0] == "clear":
                t.exporter.clear()
                c.end()
            else:
                t.exporter.shutdown()
                c.end()
        sim.join(*[sim.thread(lambda ops=ops, i=i: [do(o, i, j) for j, o in enumerate(ops)], "user%d" % i) for i, ops in enumerate(case["threads"])])
        final.append(tuple(names(x) for x in t.get()))

    _, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    for _n, e in sim.thread_errors:
        raise e
    stops = [c for c in calls.all if c.op[0] == "shutdown"]
    late = {c.n for c in calls.all if c.op[0] == "export" and not any(s.t1 < c.t0 for s in stops)}

    def step(state, o, n, result):
        held, stopped = state
        if o[0] == "export":
            if result:
                return (held + o[2], stopped) if not stopped or n in late else None
            return state if stopped else None
        if o[0] == "get":
            return state if result == held else None
        return ((), stopped) if o[0] == "clear" else (held, True)

    rec.check(linear.explain(calls.all, ((), False), step, lambda s: s[0] == final[0]), "no order of the calls %s leads to %s", calls, final[0])
    rec.nontrivial(calls.overlap())
    rec.label(case["signal"])


class Out:
    def __init__(self):
        self.text, self.flushed = "", ""

    def write(self, s):
        self.text += s
        return len(s)

    def flush(self):
        self.flushed = self.text


cons_s = st.fixed_dictionaries({
    "signal": pick("span", "log", "metric"), "batches": st.lists(batch, max_size=4), "formatter": pick("default", "name", "empty", "unicode"), "container": pick("list", "tuple"), "end": st.booleans(),
})


@sub("console", cons_s, quick=400, thorough=10000)
def console(rec, case):
    """Each item's text once, in order, in the stream given, which is flushed by the time export returns."""
    out = Out()
    kind = case["signal"]
    shown = []
    kw = {} if case["formatter"] == "default" else {"formatter": lambda x: shown.append(x) or {"name": "<%d>\n" % id(x), "empty": "", "unicode": "\u00e9\u2028\x00"}[case["formatter"]]}
    cls, ok = {"span": (ConsoleSpanExporter, SpanExportResult.SUCCESS), "log": (ConsoleLogExporter, LogExportResult.SUCCESS), "metric": (ConsoleMetricExporter, MetricExportResult.SUCCESS)}[kind]
    e = cls(out=out, **kw)
    given, want = [], ""
    for b in case["batches"]:
        if kind == "metric":
            r = InMemoryMetricReader()
            c = MeterProvider([r], resource=Resource({}), shutdown_on_exit=False).get_meter("m").create_counter("c")
            for i in b:
                c.add(i)
            md = r.get_metrics_data()
            if md is None:
                continue
            got = e.export(md)
            items = [md]
        else:
            t = Spans() if kind == "span" else Logs()
            items = [t.make(NAMES[i]) for i in b]
            got = e.export(list(items) if case["container"] == "list" else tuple(items))
        rec.check(got is ok, "export returned %r", got)
        given += items
        if case["formatter"] == "default":
            want += "".join((x.log_record if kind == "log" else x).to_json() + os.linesep for x in items)
        else:
            want += "".join({"name": "<%d>\n" % id(x if kind != "log" else x.log_record), "empty": "", "unicode": "\u00e9\u2028\x00"}[case["formatter"]] for x in items)
        rec.eq(out.flushed, want, "text flushed to the stream")
    if case["end"]:
        e.shutdown()
        rec.eq(out.text, want, "text after shutdown")
    if kw:
        rec.check(len(shown) == len(given) and all(a is (b if kind != "log" else b.log_record) for a, b in zip(shown, given)), "the formatter was given other items than were exported")
    rec.nontrivial(len(given) > 1)
    rec.label(kind)
