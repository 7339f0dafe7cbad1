"""E04: the OTLP/HTTP exporters: complete batches, retries of transient errors, settings, shutdown."""
from vlib import vsched
vsched.install()

import gzip  # noqa: E402
import os  # noqa: E402
import zlib  # noqa: E402

import requests  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from opentelemetry.exporter.otlp.proto.http import Compression  # noqa: E402
from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter  # noqa: E402
from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter  # noqa: E402
from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter  # noqa: E402
from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest  # noqa: E402
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest  # noqa: E402
from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest  # noqa: E402
from vlib import otlp, telemetry as tm  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402
from checks.E02 import clean  # noqa: E402

RULE = ("the three exporters with generated batches against a stand-in for the HTTP transport: histories of exports with generated sequences of statuses and connection errors, flushes and shutdowns on a virtual "
        "clock; shutdowns by another thread during the retries; and generated combinations of arguments and environment variables. non-trivial: an export was retried, refused, or done after a shutdown, or a "
        "setting had two sources.")
TECHNIQUE = "property-based testing: stateful histories with injected server faults on a virtual clock, generated schedules, reference model of retries and settings (Hypothesis)"
ASSUMPTIONS = ["statuses are 2xx or errors (no redirects); a connection error may be raised or reported as a failure; empty variables and settings the argument leaves empty are not generated",
               "an attempt that already started when shutdown is called may complete"]

EXPORTERS = {"traces": OTLPSpanExporter, "metrics": OTLPMetricExporter, "logs": OTLPLogExporter}
REQUESTS = {"traces": ExportTraceServiceRequest, "metrics": ExportMetricsServiceRequest, "logs": ExportLogsServiceRequest}
payload = weighted((1, st.tuples(st.just("traces"), tm.span_batch(3))), (1, st.tuples(st.just("metrics"), tm.metrics_data)), (1, st.tuples(st.just("logs"), tm.log_batch)))


def build(signal, data):
    """The batch, what its request must hold, and the reader of requests."""
    if signal == "metrics":
        batch = tm.build_metrics(clean(data))
        return batch, otlp.x_metrics(batch), otlp.metrics
    res, sc = tm.dedupe(data[0], data[1])
    if signal == "traces":
        batch = tm.build_spans((res, sc, *data[2:]))
        return batch, otlp.x_spans(batch), otlp.spans
    batch = [d for d, _i, _j in tm.build_logs((res, sc, *data[2:]))]
    return batch, otlp.x_logs(batch), otlp.logs


class Server:
    """Stands in for the transport of every requests session."""

    def __init__(self, sim=None):
        self.sim, self.script, self.seen, self.took = sim, [], [], 0

    def __enter__(self):
        server = self
        self.real = requests.adapters.HTTPAdapter.send

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return server.answer(request, timeout, verify, cert)
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self.real

    def answer(self, request, timeout, verify, cert):
        status = self.script.pop(0) if self.script else 200
        self.seen.append({"at": self.sim.now if self.sim else 0, "status": status, "url": request.url, "headers": dict(request.headers), "body": request.body or b"", "timeout": timeout, "verify": verify, "cert": cert,
                          "method": request.method})
        if self.took:
            vsched.time.sleep(self.took)
        if status == "down":
            raise requests.exceptions.ConnectionError("refused")
        r = requests.Response()
        r.status_code, r.reason, r._content, r.request, r.url = status, "because", b"text", request, request.url
        return r


def body_of(seen):
    enc = {k.lower(): v for k, v in seen["headers"].items()}.get("content-encoding")
    raw = seen["body"]
    return gzip.decompress(raw) if enc == "gzip" else zlib.decompress(raw) if enc == "deflate" else raw if enc in (None, "none", "identity") else b"encoding " + enc.encode()


def check_body(rec, signal, want, read, seen):
    rec.eq(seen["method"], "POST", "method")
    rec.eq({k.lower(): v for k, v in seen["headers"].items()}.get("content-type"), "application/x-protobuf", "content type")
    try:
        req = REQUESTS[signal].FromString(body_of(seen))
    except Exception as e:
        rec.fail(f"the body sent is no {signal} request under its content encoding: {type(e).__name__} {e}")
    otlp.compare(rec, read(req), want, "request")


transient = st.one_of(st.integers(500, 599), st.just(408), st.just(503))
status = weighted((5, transient), (2, st.integers(200, 299)), (2, pick(400, 401, 403, 404, 405, 407, 409, 410, 413, 422, 429, 429, 429)), (1, st.integers(400, 499)), (1, pick(499, 500, 599)), (1, st.just("down")))
statuses = weighted((2, st.lists(status, min_size=1, max_size=4)), (1, pick([], [429], [407], [404])), (2, st.lists(transient, max_size=7)), (1, st.tuples(st.lists(transient, min_size=1, max_size=6), status).map(lambda t: [*t[0], t[1]])))
op = weighted((6, st.tuples(st.just("export"), statuses)), (1, st.tuples(st.just("flush"))), (1, st.tuples(st.just("shutdown"))))
compressions = weighted((2, st.none()), (1, st.sampled_from(["NoCompression", "Gzip", "Deflate"])))


def is_transient(s):
    return s != "down" and (s == 408 or 500 <= s <= 599)


def expected_attempts(script):
    """Statuses seen by the attempts of one export, and the result if it is decided."""
    seen = []
    for s in [*script, 200]:
        seen.append(s)
        if s == "down":
            return seen, None
        if not is_transient(s):
            return seen, 200 <= s < 300
        if len(seen) == 6:
            return seen, False


@sub("responses", st.tuples(payload, compressions, st.lists(op, min_size=1, max_size=4)), quick=500, thorough=30000)
def responses(rec, case):
    (signal, data), comp, ops = case
    batch, want, read = build(signal, data)

    def scenario(sim):
        with Server(sim) as server:
            exp = EXPORTERS[signal](compression=None if comp is None else Compression[comp])
            down = False
            for o in ops:
                if o[0] == "flush":
                    rec.check(exp.force_flush(), "a flush of an exporter that keeps nothing failed")
                    continue
                if o[0] == "shutdown":
                    exp.shutdown()
                    down = True
                    continue
                server.script, server.seen = list(o[1]), []
                try:
                    ok = exp.export(batch)
                    rec.check(ok.name in ("SUCCESS", "FAILURE"), f"result {ok}")
                    ok = ok.name == "SUCCESS"
                except requests.exceptions.ConnectionError:
                    ok = None
                got = [s["status"] for s in server.seen]
                if down:
                    rec.eq(got, [], "attempts after shutdown")
                    rec.eq(ok, False, "result of an export after shutdown")
                    rec.nontrivial()
                    rec.label("after shutdown")
                    continue
                attempts, result = expected_attempts(o[1])
                if result is None:      # connection error: how it is handled is not claimed
                    rec.eq(got[:len(attempts)], attempts, "attempts up to the connection error")
                    rec.check(not ok or got[-1] != "down" and 200 <= got[-1] < 300, f"success reported after {got}")
                    rec.label("connection error")
                    attempts = got
                else:
                    rec.eq(got, attempts, f"attempts made of {o[1]}")
                    rec.eq(ok, result, f"export succeeded, after {got}")
                for i, s in enumerate(server.seen):
                    check_body(rec, signal, want, read, s)
                    if i:
                        rec.eq((s["at"] - server.seen[i - 1]["at"]) / 1e9, float(2 ** (i - 1)), f"seconds waited before attempt {i + 1}")
                rec.nontrivial(len(got) > 1 or result is False)
                rec.label(f"{min(len(got), 7)} attempts")
    vsched.simulate(("gaps", []), scenario, trace=False)


race = st.fixed_dictionaries({"signal": st.sampled_from(sorted(EXPORTERS)), "statuses": st.lists(transient, min_size=1, max_size=7), "took": pick(0, 0.5, 3), "when": pick(0, 0.2, 0.9, 1, 1.5, 4, 20, 70), "schedule": vsched.schedules})


@sub("shutdown while retrying", race, quick=200, thorough=10000)
def shutdown_race(rec, case):
    batch, want, read = build(case["signal"], {"metrics": []}.get(case["signal"], ([({}, "")], [("s", None, None, {})], [], (128,) * 5)[:3 if case["signal"] == "logs" else 4]))

    def scenario(sim):
        with Server(sim) as server:
            server.script, server.took = list(case["statuses"]), case["took"]
            exp = EXPORTERS[case["signal"]]()
            out = {}

            def run():
                out["ok"] = exp.export(batch).name
            t = sim.thread(run, "export")
            vsched.time.sleep(case["when"])
            exp.shutdown()
            n, now = len(server.seen), sim.now
            sim.join(t)
            late = [s for s in server.seen if s["at"] > now]
            rec.check(not late, f"{len(late)} attempts started after shutdown returned, the first {(late or [{'at': 0}])[0]['at'] - now} ns later")
            rec.check("ok" in out, "export did not return")
            rec.eq(out["ok"], "SUCCESS" if server.seen and not is_transient(server.seen[-1]["status"]) else "FAILURE", "result")
            m = len(server.seen)
            rec.eq(exp.export(batch).name, "FAILURE", "result of an export after shutdown")
            rec.eq(len(server.seen), m, "attempts after shutdown")
            rec.nontrivial(0 < n < 1 + len(case["statuses"]))
            if now < sim.now:
                rec.label("shutdown during the export")
    vsched.simulate(case["schedule"], scenario, trace="exporter/")


# ------------------------------------------------------------------ settings
SETTINGS = ["ENDPOINT", "HEADERS", "TIMEOUT", "COMPRESSION", "CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE"]
token = pick("a", "b", "Bearer x1", "v-2", "z%20y", "k=v")
header_map = st.dictionaries(pick("api-key", "authorization", "x-a", "b"), token, min_size=1, max_size=3)
mine = weighted((2, st.none()), (1, st.tuples(pick("content-type", "Content-Type", "content-encoding", "Content-Encoding"), pick("text/plain", "application/json", "br", "gzip", "deflate"))))   # a header the protocol fixes
values = {
    "ENDPOINT": pick("http://one:4318", "http://one:4318/", "https://two/base", "https://two/base/", "http://three/v1/traces", "http://h/v1/metrics/"),
    "HEADERS": header_map, "TIMEOUT": st.integers(1, 60), "COMPRESSION": pick("gzip", "deflate", "none", "GZIP", " Gzip ", "None"),
    "CERTIFICATE": pick("/c/1.pem", "/c/2.pem"), "CLIENT_KEY": pick("/k/1.key", "/k/2.key"), "CLIENT_CERTIFICATE": pick("/cc/1.pem", "/cc/2.pem"),
}
source = {k: st.tuples(*[weighted((2, st.none()), (2, v)) for _ in range(4)]) for k, v in values.items()}
def one_of_size(signal, size):
    """A batch of one item with a text of the given size."""
    from opentelemetry.sdk._logs import LogData, LogRecord
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import TracerProvider
    from opentelemetry.sdk.util.instrumentation import InstrumentationScope
    text, res = ("wxyz" * (size // 4 + 1))[:size], Resource({"r": "x"})
    if signal == "metrics":
        reader = InMemoryMetricReader()
        MeterProvider([reader], res, shutdown_on_exit=False).get_meter("m").create_counter("c", description=text).add(1)
        batch = reader.get_metrics_data()
        return batch, otlp.x_metrics(batch), otlp.metrics
    if signal == "logs":
        batch = [LogData(LogRecord(body=text, observed_timestamp=1, resource=res), InstrumentationScope("lib"))]
        return batch, otlp.x_logs(batch), otlp.logs
    span = TracerProvider(resource=res, shutdown_on_exit=False).get_tracer("t").start_span("s", attributes={"k": text})
    span.end()
    return [span], otlp.x_spans([span]), otlp.spans


settings_case = st.fixed_dictionaries({"signal": st.sampled_from(sorted(EXPORTERS)), "size": pick(0, 50, 50, 50, 70000, 300000), "session": st.booleans(), "mine": mine, **source})
ARGS = {"ENDPOINT": "endpoint", "HEADERS": "headers", "TIMEOUT": "timeout", "COMPRESSION": "compression", "CERTIFICATE": "certificate_file", "CLIENT_KEY": "client_key_file", "CLIENT_CERTIFICATE": "client_certificate_file"}


def in_env(name, v):
    return ",".join(f"{k}={x}" for k, x in v.items()) if name == "HEADERS" else str(v)


def sent(name, v, where):
    from urllib.parse import unquote
    if name == "HEADERS":
        return v if where == "arg" else {k: unquote(x).strip() for k, x in v.items()}
    return v


@sub("settings", settings_case, quick=700, thorough=20000)
def settings(rec, case):
    """Each setting: (argument, variable of the signal, general variable, variable of another signal)."""
    signal = case["signal"]
    other = {"traces": "METRICS", "metrics": "LOGS", "logs": "TRACES"}[signal]
    args, env, chosen = {}, {}, {}
    for n in SETTINGS:
        a, s, g, o = case[n]
        for name, v in ((f"OTEL_EXPORTER_OTLP_{signal.upper()}_{n}", s), (f"OTEL_EXPORTER_OTLP_{n}", g), (f"OTEL_EXPORTER_OTLP_{other}_{n}", o)):
            if v is not None:
                env[name] = in_env(n, v)
        if a is not None:
            args[ARGS[n]] = a if n != "COMPRESSION" else {"gzip": Compression.Gzip, "deflate": Compression.Deflate, "none": Compression.NoCompression}[a.strip().lower()]
        chosen[n] = next(((sent(n, v, w), w) for v, w in ((a, "arg"), (s, "signal"), (g, "general")) if v is not None), (None, "default"))
        rec.nontrivial(sum(v is not None for v in case[n][:3]) > 1)
    if case["mine"] and case["HEADERS"][0] is not None:
        args["headers"] = {case["mine"][0]: case["mine"][1], **case["HEADERS"][0]}
        rec.label("a header of the user that the protocol fixes")
        if case["mine"][0].lower() == "content-encoding":
            compressed = (chosen["COMPRESSION"][0] or "none").strip().lower() != "none"
            if not compressed:      # the user's own affair then
                args["headers"].pop(case["mine"][0])
    if case["session"]:
        args["session"] = requests.Session()
        args["session"].headers["x-mine"] = "kept"
    batch, want, read = one_of_size(signal, case["size"])
    stale = [k for k in os.environ if k.startswith("OTEL_EXPORTER_OTLP") or k in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE")]
    saved = {k: os.environ.pop(k) for k in stale}
    try:
        os.environ.update(env)
        exp = EXPORTERS[signal](**args)
        for k in env:
            os.environ.pop(k, None)
        with Server() as server:
            rec.eq(exp.export(batch).name, "SUCCESS", "result")
    finally:
        for k in env:
            os.environ.pop(k, None)
        os.environ.update(saved)
    rec.eq(len(server.seen), 1, "attempts")
    s = server.seen[0]
    check_body(rec, signal, want, read, s)
    url, where = chosen["ENDPOINT"]
    if where in ("general", "default"):
        url = (url or "http://localhost:4318").rstrip("/") + "/v1/" + signal
    rec.eq(s["url"], requests.Request("POST", url).prepare().url, "endpoint")
    headers = {k.lower(): v for k, v in s["headers"].items()}
    for k in ("api-key", "authorization", "x-a", "b"):
        rec.eq(headers.get(k), (chosen["HEADERS"][0] or {}).get(k), f"header {k}")
    rec.eq(headers.get("x-mine"), "kept" if case["session"] else None, "header of the given session")
    rec.check("OTel" in headers.get("user-agent", ""), f"user agent {headers.get('user-agent')}")
    comp = (chosen["COMPRESSION"][0] or "none").strip().lower()
    rec.eq(headers.get("content-encoding", "none"), comp, "content encoding")
    rec.eq(s["timeout"], chosen["TIMEOUT"][0] or 10, "timeout")
    rec.eq(s["verify"], chosen["CERTIFICATE"][0] or True, "certificate to verify with")
    cert, key = chosen["CLIENT_CERTIFICATE"][0], chosen["CLIENT_KEY"][0]
    rec.eq(s["cert"], (cert, key) if cert and key else cert, "client certificate")
    rec.label(*[f"{n.lower()} from {w}" for n, (_v, w) in chosen.items()])
