"""R08: providers keep working in forked children."""
import faulthandler
import gc
import http.server
import json
import logging
import math
import os
import pickle
import select
import signal
import sys
import threading
import time

from hypothesis import strategies as st

from opentelemetry import trace
from opentelemetry.metrics import Observation
from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter
from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter
from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter
from opentelemetry.exporter.zipkin.json import ZipkinExporter
from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest
from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
from opentelemetry.sdk._logs import LogData, LoggerProvider, LoggingHandler, LogRecord
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import (Gauge, InMemoryMetricReader, Metric, MetricExporter, MetricExportResult, MetricsData, NumberDataPoint,
                                              PeriodicExportingMetricReader, ResourceMetrics, ScopeMetrics)
from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ConcurrentMultiSpanProcessor, SynchronousMultiSpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from vlib import core
from vlib.core import sub
from vlib.forked import forked, read_stacks
from vlib.gen import pick, weighted

RULE = ("pipelines of all three signals are built and used, then the process forks, possibly while other threads of it export, flush, run callbacks or record; child (and grandchild) and parent go on recording, flush and shut down. "
        "Each must export what it recorded itself, once. non-trivial: the child records something, and at the fork something is queued, a thread is busy or a pool or worker thread exists.")
ASSUMPTIONS = ["threads of the parent are stopped at the start of exports and callbacks or wherever the interpreter switched away from them, not at every bytecode", "the standard library's own locks survive a fork (logging's do)", "queues are not overrun"]


def idle(pid):
    """(CPU time, is a thread running) of a process."""
    total, running = 0, False
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                x = f.read().rsplit(")", 1)[1].split()
            running = running or x[0] in "RD"
            total += int(x[11]) + int(x[12])
    except OSError:
        running = True
    return total, running


class Child:
    """Forks; the child calls report(body) to run the body and send its result."""

    def __init__(self):
        self.r, self.w = os.pipe()
        self.stacks = os.fdopen(os.memfd_create("stacks"), "w+b", 0)
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r)
            faulthandler.register(signal.SIGUSR1, file=self.stacks)
        else:
            os.close(self.w)

    def report(self, body):
        """In the child: the rest of its life."""
        try:
            try:
                res = body()
            except BaseException as e:  # noqa
                kind, msg = core.classify(e)
                res = {"failed": "%s: %s" % (kind, msg)}
            with os.fdopen(self.w, "wb") as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)

    def result(self, quiet=6.0):
        """The result, or where it hangs if all its threads have been asleep for long."""
        data, since, last = b"", core.monotonic(), None
        while True:
            if select.select([self.r], [], [], 0.05)[0]:
                b = os.read(self.r, 1 << 16)
                if not b:
                    break
                data += b
                continue
            cpu, running = idle(self.pid)
            now = core.monotonic()
            if running or cpu != last:
                last, since = cpu, now
            elif now - since > quiet:
                os.kill(self.pid, signal.SIGUSR1)
                core.real_sleep(0.5)
                os.kill(self.pid, signal.SIGKILL)
                data = b""
                break
        os.close(self.r)
        os.waitpid(self.pid, 0)
        if data:
            return pickle.loads(data)
        return {"failed": "a call hangs: " + read_stacks(self.stacks)}


class Sink:
    """Records what one exporter of this process was given."""

    def __init__(self, base, result, read, gate):
        me = self
        self.items, self.shutdowns = [], 0

        class Exporter(base):
            def export(self, batch, *a, **kw):
                gate()
                me.items += read(batch)
                return result.SUCCESS

            def shutdown(self, *a, **kw):
                me.shutdowns += 1

            def force_flush(self, *a, **kw):
                return True
        self.exporter = Exporter()


def total(data):
    out = {}
    for rm in data.resource_metrics:
        for sm in rm.scope_metrics:
            for m in sm.metrics:
                for p in m.data.data_points:
                    out[m.name] = out.get(m.name, 0) + (p.count if hasattr(p, "count") else p.value)
    return out


class Pipeline:
    def __init__(self, case):
        self.case, self.names = case, {"span": [], "log": [], "std": []}
        self.started, self.finished, self.hooks = 0, 0, {}
        self.errors, self.open_gate, self.gates, self.inside = [], threading.Event(), {}, threading.Semaphore(0)
        n = case["span_composite"]
        self.tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False, active_span_processor=ConcurrentMultiSpanProcessor(n) if n else SynchronousMultiSpanProcessor())
        n = case["log_composite"]
        self.lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(n) if n else SynchronousMultiLogRecordProcessor())
        self.spans, self.logs, self.readers = [], [], []
        for kind, size in case["spans"]:
            s = Sink(SpanExporter, SpanExportResult, lambda b: [x.name for x in b], lambda: self.gate("span_export"))
            self.spans.append(s)
            self.tp.add_span_processor(SimpleSpanProcessor(s.exporter) if kind == "simple" else BatchSpanProcessor(s.exporter, max_export_batch_size=size, schedule_delay_millis=3600000, max_queue_size=1 << 16, export_timeout_millis=3600000))
        for kind, size in case["logs"]:
            s = Sink(LogExporter, LogExportResult, lambda b: [x.log_record.body for x in b], lambda: self.gate("log_export"))
            self.logs.append(s)
            self.lp.add_log_record_processor(SimpleLogRecordProcessor(s.exporter) if kind == "simple" else BatchLogRecordProcessor(s.exporter, max_export_batch_size=size, schedule_delay_millis=3600000, max_queue_size=1 << 16, export_timeout_millis=3600000))
        readers = []
        for kind in case["readers"]:
            if kind == "memory":
                readers.append(InMemoryMetricReader())
                self.readers.append((readers[-1], None))
            else:
                s = Sink(MetricExporter, MetricExportResult, lambda d: [total(d)], lambda: self.gate("metric_export"))
                readers.append(PeriodicExportingMetricReader(s.exporter, 3600000 if kind == "periodic" else math.inf))
                self.readers.append((readers[-1], s))
        self.mp = MeterProvider(readers, resource=Resource({}), shutdown_on_exit=False, views=[View(instrument_name="e", aggregation=ExponentialBucketHistogramAggregation())])
        m = self.mp.get_meter("m")
        self.tracer, self.logger = self.tp.get_tracer("t"), self.lp.get_logger("l")
        self.instruments = [m.create_counter("c"), m.create_up_down_counter("u"), m.create_histogram("h"), m.create_histogram("e"), m.create_gauge("g")]
        m.create_observable_counter("o", [self.observe])
        self.std = logging.getLogger("verif.r08")
        self.std.propagate = False
        self.std.setLevel(logging.INFO)
        self.handler = LoggingHandler(logger_provider=self.lp)
        self.std.addHandler(self.handler)

    def gate(self, site):
        if site in self.hooks and threading.current_thread() is threading.main_thread():
            self.hooks.pop(site)()
        if self.gates.pop(site, None):
            self.inside.release()
            self.open_gate.wait()

    def observe(self, options):
        self.gate("callback")
        return [Observation(7)]

    def do(self, o, name, ids=None):
        try:
            if o == "span":
                with self.tracer.start_as_current_span(name) as s:
                    s.set_attribute("k", 1)
                    s.add_event("e")
                if ids is not None:
                    ids.append((s.get_span_context().trace_id, s.get_span_context().span_id))
                self.names["span"].append(name)
            elif o == "log":
                self.logger.emit(LogRecord(timestamp=1, body=name, resource=Resource({})))
                self.names["log"].append(name)
            elif o == "std":
                self.std.info(name)
                self.names["std"].append(name)
            elif o == "count":
                self.started += 1
                for i in self.instruments:
                    (getattr(i, "add", None) or getattr(i, "record", None) or i.set)(1, {"k": self.started % 3})
                self.finished += 1
            elif o == "new":
                self.tp.get_tracer(name)
                self.lp.get_logger(name)
                x = self.mp.get_meter(name)
                x.create_counter("n").add(1)
                x.create_observable_gauge("n2", [lambda o: [Observation(1)]])
        except BaseException as e:  # noqa
            self.errors.append("%s: %r" % (o, e))

    def mark(self):
        """In a new child: forget what the parent recorded and exported."""
        self.names = {"span": [], "log": [], "std": []}
        self.errors, self.gates = [], {}
        for s in self.spans + self.logs + [x for _r, x in self.readers if x]:
            s.items, s.shutdowns = [], 0

    def finish(self, flush):
        """Flushes and shuts down; returns what this process exported."""
        flushed = []
        values = []
        if flush:
            flushed = [self.tp.force_flush(), self.lp.force_flush(), self.mp.force_flush()]
            values = [x.items[-1] if x.items else None for _r, x in self.readers if x]
        values += [total(r.get_metrics_data()) for r, x in self.readers if not x]
        self.tp.shutdown()
        self.lp.shutdown()
        self.mp.shutdown()
        values += [x.items[-1] if x.items else None for _r, x in self.readers if x]
        return {"spans": [x.items for x in self.spans], "logs": [x.items for x in self.logs], "values": values, "flushed": flushed, "shutdowns": [x.shutdowns for x in self.spans + self.logs + [x for _r, x in self.readers if x]],
                "names": self.names, "errors": self.errors, "started": self.started, "finished": self.finished}


kinds = st.lists(st.tuples(pick("simple", "batch", "batch"), pick(1, 2, 5, 512)), max_size=2)
op = weighted((4, st.just("span")), (2, st.just("log")), (2, st.just("std")), (3, st.just("count")), (1, st.just("new")))
ops = st.lists(op, max_size=5)
composite = weighted((2, st.just(0)), (1, st.integers(1, 3)))
held = st.sets(st.sampled_from(["span_export", "log_export", "metric_export", "callback"]), max_size=2).map(lambda s: sorted(s - ({"callback"} if "metric_export" in s else set())))
child = st.fixed_dictionaries({"ops": ops, "flush": st.booleans(), "grand": st.none() | st.fixed_dictionaries({"ops": ops, "flush": st.booleans()}), "first": ops})
case_s = st.fixed_dictionaries({
    "spans": kinds, "logs": kinds, "readers": st.lists(pick("memory", "periodic", "periodic", "infinite"), min_size=1, max_size=2), "span_composite": composite, "log_composite": composite,
    "before": ops, "held": held, "busy": st.lists(op, max_size=2), "children": st.lists(child, min_size=1, max_size=2), "after": ops, "flush": st.booleans(), "gone": pick(False, False, True), "where": pick("main", "main", "main", "callback", "metric_export", "span_export", "log_export"),
})


def judge(rec, who, r, inherited):
    rec.check("failed" not in r, "%s: %s", who, r.get("failed"))
    rec.eq(r["errors"], [], "calls that raised in the " + who)
    for x in r["spans"]:
        if who == "child":
            x = [n for n in x if n != "forking"]  # forked while it was being exported
        rec.eq(sorted(x), sorted(r["names"]["span"]), "spans exported by the " + who)
    for x in r["logs"]:
        if who == "child":
            x = [n for n in x if n != "forking"]
        rec.eq(sorted(x), sorted(r["names"]["log"] + r["names"]["std"]), "log records exported by the " + who)
    rec.check(all(x is not False and x is not None for x in r["flushed"]), "force_flush in the %s returned %s", who, r["flushed"])
    rec.eq(r["shutdowns"], [1] * len(r["shutdowns"]), "exporters shut down by the " + who)
    for v in r["values"]:
        rec.check(v is not None, "the %s exported no metrics", who)
        rec.eq(v.get("o"), 7, "the observation exported by the " + who)
        for n in "cuhe":
            got = v.get(n, 0)
            rec.check(r["finished"] - inherited <= got <= r["started"], "the %s exported %s = %s, %s to %s were recorded", who, n, got, r["finished"], r["started"])


@sub("fork", case_s, quick=600, thorough=40000)
@forked
def fork(rec, case):
    old_interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    logging.disable(logging.NOTSET)
    logging.getLogger("opentelemetry").addHandler(logging.NullHandler())
    logging.getLogger("opentelemetry").propagate = False
    p = Pipeline(case)
    ids, stop = [], threading.Event()
    for i, o in enumerate(case["before"]):
        p.do(o, "p%d" % i, ids)
    if case["gone"]:  # things that are collected before the fork
        q = Pipeline(case)
        q.std.removeHandler(q.handler)
        q.finish(False)
        del q
        gc.collect()
    helpers = []

    def helper(f):
        t = threading.Thread(target=f, daemon=True)
        helpers.append(t)
        t.start()

    for site in case["held"]:
        use = {"span_export": p.spans, "log_export": p.logs, "metric_export": [x for _r, x in p.readers if x], "callback": p.readers}[site]
        if not use:
            continue
        p.gates[site] = 1
        if site == "span_export":
            helper(lambda: (p.do("span", "held"), p.tp.force_flush()))
        elif site == "log_export":
            helper(lambda: (p.do("log", "held"), p.lp.force_flush()))
        elif "metric_export" == site or "callback" == site:
            helper(lambda: (p.do("count", ""), [r.force_flush() if x else r.get_metrics_data() for r, x in p.readers]))
        p.inside.acquire()
    for i, o in enumerate(case["busy"]):
        def work(i=i, o=o):
            k = 0
            while not stop.is_set() and k < 3000:
                p.do(o, "b%d.%d" % (i, k))
                k += 1
                if o == "new":
                    time.sleep(0.0002)
        helper(work)
    if case["busy"]:
        time.sleep(0.003)

    def in_child(spec, who):
        early = p.errors
        p.mark()
        p.errors += early
        mine = []
        for i, o in enumerate(spec["first"] if "first" in spec else ()):
            p.do(o, "%s.f%d" % (who, i), mine)
        g = None
        if spec.get("grand"):
            g = Child()
            if g.pid == 0:
                g.report(lambda: in_child(spec["grand"], who + ".g"))
        for i, o in enumerate(spec["ops"]):
            p.do(o, "%s.%d" % (who, i), mine)
        r = p.finish(spec["flush"])
        r["ids"] = mine
        if g:
            r["grand"] = g.result(4.0)
        return r

    kids, role = [], []

    def split():
        for i, k in enumerate(case["children"]):
            if not role:
                c = Child()
                if c.pid == 0:
                    role.append((c, k, "k%d" % i))
                else:
                    kids.append(c)

    where = case["where"]
    if case["held"]:
        where = "main"  # the main thread would wait for the others
    if where == "callback" or where == "metric_export":
        p.hooks[where] = split
        try:
            for r, x in p.readers:
                r.force_flush() if x else r.get_metrics_data()
        except BaseException as e:  # noqa
            p.errors.append("collection with a fork inside: %r" % e)
    elif where == "span_export":
        p.hooks[where] = split
        p.do("span", "forking")
    elif where == "log_export":
        p.hooks[where] = split
        p.do("log", "forking")
    p.hooks = {}
    if not kids and not role:
        where = "main"
        split()
    sys.setswitchinterval(old_interval)
    if role:
        c, k, who = role[0]
        role[0][0].report(lambda: in_child(k, who))
    for i, o in enumerate(case["after"]):
        if not case["held"]:
            p.do(o, "a%d" % i, ids)
    results = [k.result(7.0) for k in kids]
    stop.set()
    p.open_gate.set()
    for t in helpers:
        t.join()
    me = p.finish(case["flush"])
    judge(rec, "parent", me, 0)
    everyone = list(ids)
    for r in results:
        judge(rec, "child", r, len(case["busy"]) + 2 * len(case["held"]))
        everyone += r["ids"]
        if "grand" in r:
            judge(rec, "grandchild", r["grand"], len(case["busy"]) + 2 * len(case["held"]))
            everyone += r["grand"]["ids"]
    rec.eq(len(set(s for _t, s in everyone)), len(everyone), "distinct span ids in all the processes")
    rec.eq(len(set(t for t, _s in everyone)), len(everyone), "distinct trace ids in all the processes")
    rec.nontrivial(any(k["ops"] for k in case["children"]) and (case["before"] or case["held"] or case["busy"]))
    rec.label(where, "held" if case["held"] else "busy" if case["busy"] else "quiet", "grandchild" if any(k["grand"] for k in case["children"]) else "children only")


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    got, delay, sent = [], 0, 1

    def do_POST(self):
        body = self.rfile.read(int(self.headers["Content-Length"]))
        self.got.append((self.path, body))
        time.sleep(self.delay)
        self.send_response(200)
        self.send_header("Content-Length", "2")
        self.end_headers()
        self.wfile.write(b"{}")

    def send_error(self, code, message=None, explain=None):
        self.got.append(("error", str(message).encode()))
        super().send_error(code, message, explain)

    def log_message(self, *a):
        pass


def serve(server, stop):
    server.daemon_threads = True
    threading.Thread(target=server.serve_forever, daemon=True).start()
    os.read(stop, 1)
    return list(Handler.got)


def exporters(port):
    """[(exporter, data of a name, names in a request body, path)]"""
    scope = InstrumentationScope("s")
    resource = Resource({"service.name": "x"})
    tracer = TracerProvider(resource=resource, shutdown_on_exit=False).get_tracer("t")

    def span(name, size):
        s = tracer.start_span(name, attributes={"k": "v" * size})
        s.end()
        return [s]

    def log(name, size):
        return [LogData(LogRecord(timestamp=1, body=name, resource=resource, attributes={"k": "v" * size}), scope)]

    def metric(name, size):
        m = Metric(name, "d" * size, "1", Gauge([NumberDataPoint({}, 1, 2, 3)]))
        return MetricsData([ResourceMetrics(resource, [ScopeMetrics(scope, [m], "")], "")])
    url = "http://127.0.0.1:%d/" % port
    return {
        "/trace": (OTLPSpanExporter(endpoint=url + "trace", timeout=30), span, lambda b: [s.name for r in ExportTraceServiceRequest.FromString(b).resource_spans for x in r.scope_spans for s in x.spans]),
        "/log": (OTLPLogExporter(endpoint=url + "log", timeout=30), log, lambda b: [s.body.string_value for r in ExportLogsServiceRequest.FromString(b).resource_logs for x in r.scope_logs for s in x.log_records]),
        "/metric": (OTLPMetricExporter(endpoint=url + "metric", timeout=30), metric, lambda b: [s.name for r in ExportMetricsServiceRequest.FromString(b).resource_metrics for x in r.scope_metrics for s in x.metrics]),
        "/zipkin": (ZipkinExporter(endpoint=url + "zipkin", timeout=30), span, lambda b: [s["name"] for s in json.loads(b)]),
    }


messages = st.lists(st.tuples(st.sampled_from(["/trace", "/log", "/metric", "/zipkin"]), pick(0, 10, 200000)), max_size=6)
case_h = st.fixed_dictionaries({"before": messages, "children": st.lists(st.tuples(messages, st.none() | messages, messages), min_size=1, max_size=3), "after": messages, "delay": pick(0, 0.001, 0.005)})


@sub("connections", case_h, quick=60, thorough=4000, rule="exporters over HTTP used before a fork and then by parent, children and grandchildren at once against one local server. non-trivial: one exporter was used before and by two processes after it.")
@forked
def connections(rec, case):
    logging.getLogger("opentelemetry").addHandler(logging.NullHandler())
    logging.getLogger("opentelemetry").propagate = False
    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    server.request_queue_size = 64
    stop, go = os.pipe()
    Handler.delay = case["delay"]
    s = Child()
    if s.pid == 0:
        s.report(lambda: serve(server, stop))
    server.socket.close()
    try:
        made = exporters(server.server_address[1])
        sent = []

        def send(who, msgs):
            out = []
            for i, (path, size) in enumerate(msgs):
                name = "%s.%d" % (who, i)
                r = made[path][0].export(made[path][1](name, size))
                out.append((path, name, r.name))
            return out

        def live(who, spec):
            out = send(who + "a", spec[0])
            g = None
            if spec[1] is not None:
                g = Child()
                if g.pid == 0:
                    g.report(lambda: send(who + "g", spec[1]))
            out += send(who + "b", spec[2])
            return out + (g.result(40) if g else [])
        sent += send("p", case["before"])
        kids = []
        for i, k in enumerate(case["children"]):
            c = Child()
            if c.pid == 0:
                c.report(lambda: live("k%d" % i, k))
            kids.append(c)
        sent += send("q", case["after"])
        for c in kids:
            r = c.result(45)
            rec.check(isinstance(r, list) and "failed" not in r, "the child: %s", r)
            sent += r
        os.write(go, b"x")
        got = s.result()
        rec.check(isinstance(got, list), "the server: %s", got)
    except BaseException:
        os.kill(s.pid, signal.SIGKILL)
        raise
    rec.eq([x for x in sent if x[2] != "SUCCESS"], [], "exports that failed")
    rec.eq([b for p, b in got if p not in made], [], "requests the server did not understand")
    seen = []
    for path, body in got:
        try:
            seen += [(path, n) for n in made[path][2](body)]
        except Exception as e:  # noqa
            rec.fail("a request to %s cannot be read: %r" % (path, e))
    rec.eq(sorted(seen), sorted(x[:2] for x in sent), "what the server got")
    used = {p for p, _s in case["before"]}
    after = [{p for p, _s in m} for m in [case["after"]] + [k[0] + (k[1] or []) + k[2] for k in case["children"]]]
    rec.nontrivial(any(sum(p in a for a in after) >= 2 for p in used))
