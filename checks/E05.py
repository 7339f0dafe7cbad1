"""E05: the OTLP/gRPC exporters: complete batches, retries of transient errors with server delays, settings, shutdown."""
from vlib import vsched
vsched.install()

import os  # noqa: E402
import tempfile  # noqa: E402

import grpc  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from vlib import fakegrpc  # noqa: E402
from opentelemetry.exporter.otlp.proto.grpc._log_exporter import OTLPLogExporter  # noqa: E402
from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter  # noqa: E402
from opentelemetry.exporter.otlp.proto.grpc.trace_exporter import OTLPSpanExporter  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402
from vlib import otlp  # noqa: E402
from checks.E04 import REQUESTS, build, payload  # noqa: E402

RULE = ("the three exporters with generated batches against a stand-in for the gRPC channel: histories of exports with generated sequences of status codes and requested delays, flushes and shutdowns on a virtual "
        "clock; one or two shutdowns by other threads at generated moments of concurrent exports under generated schedules; generated combinations of arguments and environment variables; and a real server on the "
        "loopback. non-trivial: an export was retried, refused, done after or during a shutdown, or a setting had two sources.")
TECHNIQUE = "property-based testing: stateful histories with injected server faults on a virtual clock, generated schedules, reference model of retries and settings (Hypothesis)"
ASSUMPTIONS = ["empty variables and settings the argument leaves empty are not generated", "an export whose channel is closed under it by a shutdown that ran out of its budget may also raise",
               "files of certificates are read as they are; their contents are not verified here"]

EXPORTERS = {"traces": OTLPSpanExporter, "metrics": OTLPMetricExporter, "logs": OTLPLogExporter}
SERVICE = {"traces": "/opentelemetry.proto.collector.trace.v1.TraceService/Export", "metrics": "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
           "logs": "/opentelemetry.proto.collector.logs.v1.LogsService/Export"}
TRANSIENT = ["CANCELLED", "DEADLINE_EXCEEDED", "RESOURCE_EXHAUSTED", "ABORTED", "OUT_OF_RANGE", "UNAVAILABLE", "DATA_LOSS"]
FATAL = ["UNKNOWN", "INVALID_ARGUMENT", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "FAILED_PRECONDITION", "UNIMPLEMENTED", "INTERNAL", "UNAUTHENTICATED"]
delay = weighted((3, st.none()), (1, st.just(0)), (1, pick(1, 10**9, 2_500_000_000, 100 * 10**9)), (1, st.integers(0, 10**12)))
transient = st.tuples(st.sampled_from(TRANSIENT), delay)
outcome = weighted((6, transient), (2, st.tuples(st.sampled_from(FATAL), delay)), (1, st.just(("OK", None))))
outcomes = weighted((2, st.lists(outcome, max_size=4)), (2, st.lists(transient, max_size=7)), (1, st.tuples(st.lists(transient, min_size=1, max_size=6), outcome).map(lambda t: [*t[0], t[1]])))
op = weighted((6, st.tuples(st.just("export"), outcomes)), (1, st.tuples(st.just("flush"))), (1, st.tuples(st.just("shutdown"))))


def expected_attempts(script):
    seen = []
    for s in [*script, ("OK", None)]:
        seen.append(s)
        if s[0] not in TRANSIENT:
            return seen, s[0] == "OK"
        if len(seen) == 6:
            return seen, False


def check_call(rec, signal, want, read, s):
    rec.eq(s["method"], SERVICE[signal], "method called")
    otlp.compare(rec, read(REQUESTS[signal].FromString(s["body"])), want, "request")


@sub("outcomes", st.tuples(payload, st.lists(op, min_size=1, max_size=4)), quick=500, thorough=30000)
def outcomes_(rec, case):
    (signal, data), ops = case
    batch, want, read = build(signal, data)

    def scenario(sim):
        with fakegrpc.Server(sim) as server:
            exp = EXPORTERS[signal](insecure=True)
            down = False
            for o in ops:
                if o[0] == "flush":
                    rec.check(exp.force_flush(), "a flush of an exporter that keeps nothing failed")
                    continue
                if o[0] == "shutdown":
                    exp.shutdown()
                    rec.check(all(c.closed for c in server.channels), "shutdown left the channel open")
                    down = True
                    continue
                server.script, server.seen = list(o[1]), []
                ok = exp.export(batch).name
                got = [(s["code"], s["delay"]) for s in server.seen]
                if down:
                    rec.eq(got, [], "calls after shutdown")
                    rec.eq(ok, "FAILURE", "result of an export after shutdown")
                    rec.nontrivial()
                    rec.label("after shutdown")
                    continue
                attempts, result = expected_attempts(o[1])
                rec.eq(got, attempts, f"attempts made of {o[1]}")
                rec.eq(ok, "SUCCESS" if result else "FAILURE", f"result after {got}")
                for i, s in enumerate(server.seen):
                    check_call(rec, signal, want, read, s)
                    if i:
                        prev = server.seen[i - 1]
                        wait = prev["delay"] if prev["delay"] is not None else 2 ** (i - 1) * 10**9
                        rec.check(abs(s["at"] - prev["at"] - wait) <= 2000, f"waited {(s['at'] - prev['at']) / 1e9} s before attempt {i + 1}, expected {wait / 1e9}")
                rec.nontrivial(len(got) > 1 or not result)
                rec.label(f"{min(len(got), 7)} attempts", *(["server delay"] if any(d is not None for _c, d in got) else []))
            rec.eq(len(server.channels), 1, "channels opened")
    vsched.simulate(("gaps", []), scenario, trace=False)


race = st.fixed_dictionaries({
    "signal": st.sampled_from(sorted(EXPORTERS)), "outcomes": weighted((3, st.lists(transient, max_size=8)), (1, st.lists(outcome, max_size=8))), "took": pick(0, 0.5, 3), "exports": st.integers(1, 2),
    "shutdowns": st.lists(st.tuples(pick(0, 0, 0.2, 0.9, 1, 1.5, 4, 20, 70), weighted((2, st.none()), (3, pick(1, 100, 500, 2000, 10000)))), min_size=1, max_size=2), "schedule": vsched.schedules})


@sub("shutdown during exports", race, quick=400, thorough=20000)
def shutdown_race(rec, case):
    signal = case["signal"]
    batch, want, read = build(signal, {"metrics": []}.get(signal, ([({}, "")], [("s", None, None, {})], [], (128,) * 5)[:3 if signal == "logs" else 4]))

    def scenario(sim):
        with fakegrpc.Server(sim) as server:
            server.script, server.took = list(case["outcomes"]), case["took"]
            exp = EXPORTERS[signal](insecure=True)
            out, downs = {}, []

            def export(name):
                try:
                    out[name] = exp.export(batch).name
                except ValueError as e:
                    out[name] = "closed" if "closed channel" in str(e) else f"raised {e!r}"

            def down(when, budget):
                fakegrpc.time.sleep(when)
                d = {"start": sim.now, "budget": 30000 if budget is None or signal == "traces" else budget}
                exp.shutdown(**{} if budget is None or signal == "traces" else {"timeout_millis": budget})
                d["end"] = sim.now
                downs.append(d)
            ts = [sim.thread(lambda n=n: export(n), n) for n in ["e%d" % i for i in range(case["exports"])]]
            ds = [sim.thread(lambda s=s: down(*s), "shutdown") for s in case["shutdowns"]]
            sim.join(*ds)
            sim.join(*ts)
            rec.check(len(downs) == len(ds) and len(out) == len(ts), f"a thread raised: shutdowns {downs}, exports {out}, {sim.thread_errors[:1]}")
            for d in downs:
                rec.check(d["end"] - d["start"] <= d["budget"] * 10**6 + 2000, f"shutdown took {(d['end'] - d['start']) / 1e9} s of its budget of {d['budget']} ms")
            first = min(downs, key=lambda d: d["start"])      # a second shutdown may return at once
            full = max(downs, key=lambda d: d["end"] - d["start"])
            timed_out = any(d["end"] - d["start"] >= d["budget"] * 10**6 for d in downs)
            last = max(d["end"] for d in downs) if len(downs) > 1 else full["end"]
            if not timed_out:
                end = min(d["end"] for d in downs)
                cut = [s for s in server.seen if s["at"] < end and (s["done"] is None or s["done"] > end)]
                rec.check(not cut, f"a shutdown returned before its time, with {len(cut)} calls unfinished")
            late = [s for s in server.seen if s["at"] > last]
            rec.check(not late, f"{len(late)} calls started after every shutdown had returned")
            rec.check(all(c.closed for c in server.channels), "shutdown left the channel open")
            for n in out:
                mine = [s for s in server.seen if s["who"] == n]
                ok = bool(mine) and mine[-1]["code"] == "OK"
                allowed = ["SUCCESS"] if ok else ["FAILURE"] + (["closed"] if timed_out else [])
                rec.check(out[n] in allowed, f"export ended with {out[n]} after {[s['code'] for s in mine]}; shutdowns {downs}")
            m = len(server.seen)
            rec.eq(exp.export(batch).name, "FAILURE", "result of an export after shutdown")
            rec.eq(len(server.seen), m, "calls after shutdown")
            rec.nontrivial(any(s["done"] is None or s["done"] >= first["start"] for s in server.seen) or any(v != "SUCCESS" for v in out.values()))
            rec.label("timed out" if timed_out else "waited" if full["end"] > full["start"] else "immediate")
    vsched.simulate(case["schedule"], scenario, trace="exporter/", ticks=False)       # a tick would let time pass for a thread that could run


# ------------------------------------------------------------------ settings
token = pick("a", "b", "Bearer x1", "v-2", "z%20y", "k=v", " p  q ")
header_map = st.dictionaries(pick("api-key", "authorization", "x-a", "b"), token, min_size=1, max_size=3)
values = {
    "ENDPOINT": pick("http://one:4317", "https://two:4317", "three:4317", "http://four:1/path", "https://five", "six", "http://[::1]:4317", "https://[fe80::1]:8/x", "[::1]:4317"),
    "HEADERS": header_map, "TIMEOUT": st.integers(1, 60), "COMPRESSION": pick("gzip", "deflate", "none", "GZIP", " Gzip "), "INSECURE": pick("true", "false", "True", "FALSE"),
    "CERTIFICATE": pick("c1", "c2", "missing"), "CLIENT_KEY": pick("k1", "k2"), "CLIENT_CERTIFICATE": pick("cc1", "cc2"),
}
source = {k: st.tuples(*[weighted((2, st.none()), (2, v)) for _ in range(4)]) for k, v in values.items()}
settings_case = st.fixed_dictionaries({"signal": st.sampled_from(sorted(EXPORTERS)), "credentials": st.booleans(), "headers_as": pick("dict", "tuples", "text"), **source})
COMP = {"gzip": grpc.Compression.Gzip, "deflate": grpc.Compression.Deflate, "none": grpc.Compression.NoCompression}
FILES = {}


def cert_file(name):
    if name not in FILES:
        d = FILES.setdefault("dir", tempfile.TemporaryDirectory(prefix="verif-e05-"))
        FILES[name] = os.path.join(d.name, name)
        if name != "missing":
            with open(FILES[name], "w") as f:
                f.write(f"contents of {name}")
    return FILES[name]


def decoded(v, where, how):
    from urllib.parse import unquote
    return {k: unquote(x).strip() for k, x in v.items()} if where != "arg" or how == "text" else v


@sub("settings", settings_case, quick=700, thorough=20000)
def settings(rec, case):
    """Each setting: (argument, variable of the signal, general variable, variable of another signal)."""
    signal = case["signal"]
    other = {"traces": "METRICS", "metrics": "LOGS", "logs": "TRACES"}[signal]
    args, env, chosen = {}, {}, {}
    for n in values:
        a, s, g, o = case[n]
        if n in ("CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE"):
            a = None

        def text(v):
            return ",".join(f"{k}={x}" for k, x in v.items()) if n == "HEADERS" else cert_file(v) if n in ("CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE") else str(v)
        for name, v in ((f"OTEL_EXPORTER_OTLP_{signal.upper()}_{n}", s), (f"OTEL_EXPORTER_OTLP_{n}", g), (f"OTEL_EXPORTER_OTLP_{other}_{n}", o)):
            if v is not None:
                env[name] = text(v)
        if a is not None:
            args[n.lower()] = (COMP[a.strip().lower()] if n == "COMPRESSION" else a.lower() == "true" if n == "INSECURE" else a if n != "HEADERS" or case["headers_as"] == "dict" else
                               text(a) if case["headers_as"] == "text" else list(a.items()))
        chosen[n] = next(((v, w) for v, w in ((a, "arg"), (s, "signal"), (g, "general")) if v is not None), (None, "default"))
        rec.nontrivial(sum(v is not None for v in case[n][:3]) > 1)
    mine = None
    if case["credentials"]:
        mine = args["credentials"] = fakegrpc.REAL["ssl_channel_credentials"](b"mine")
    stale = [k for k in os.environ if k.startswith("OTEL_EXPORTER_OTLP")]
    saved = {k: os.environ.pop(k) for k in stale}
    batch, want, read = build(signal, [] if signal == "metrics" else ([({"r": "x" * 50}, "")], [("s", None, None, {})], [], (128,) * 5)[:3 if signal == "logs" else 4])
    with fakegrpc.Server() as server:
        try:
            os.environ.update(env)
            exp = EXPORTERS[signal](**args)
        finally:
            for k in env:
                os.environ.pop(k, None)
            os.environ.update(saved)
        rec.eq(exp.export(batch).name, "SUCCESS", "result")
    rec.eq(len(server.seen), 1, "calls")
    s = server.seen[0]
    check_call(rec, signal, want, read, s)
    ch = s["channel"]
    endpoint = chosen["ENDPOINT"][0] or "http://localhost:4317"
    scheme, _, rest = endpoint.rpartition("://")
    rec.eq(ch.target, rest.split("/")[0], "target of the channel")
    insecure = chosen["INSECURE"][0]
    insecure = False if scheme == "https" else insecure.lower() == "true" if insecure is not None else scheme == "http"
    rec.eq(ch.credentials is None, insecure, "insecure channel")
    if not insecure:
        if mine is not None:
            rec.check(ch.credentials is mine, "the given credentials are not used")
        else:
            made = [files for c, files in server.credentials if c is ch.credentials]
            rec.eq(len(made), 1, "credentials made for the channel")
            level = 1 if case["CERTIFICATE"][1] is not None else 2 if case["CERTIFICATE"][2] is not None else None
            names = [case[n][level] for n in ("CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE")] if level else [None] * 3
            rec.eq(made[0], tuple(None if x in (None, "missing") else f"contents of {x}".encode() for x in names), "root certificates, private key and certificate chain")
    got = dict(s["metadata"])
    h, where = chosen["HEADERS"]
    for k in ("api-key", "authorization", "x-a", "b"):
        rec.eq(got.get(k), decoded(h or {}, where, case["headers_as"]).get(k), f"header {k}")
    rec.check("OTel" in got.get("user-agent", ""), f"user agent {got.get('user-agent')}")
    rec.check(ch.compression == COMP[(chosen["COMPRESSION"][0] or "none").strip().lower()], f"compression {ch.compression}, expected {chosen['COMPRESSION']}")
    rec.eq(s["timeout"], chosen["TIMEOUT"][0] or 10, "timeout")
    rec.label(*[f"{n.lower()} from {w}" for n, (_v, w) in chosen.items()])


# ------------------------------------------------------------------ a real server
class Loopback(grpc.GenericRpcHandler):
    def __init__(self):
        self.script, self.seen = [], []

    def service(self, details):
        method = details.method

        def handle(body, context):
            code, ns = self.script.pop(0) if self.script else ("OK", None)
            self.seen.append({"method": method, "body": body, "code": code, "metadata": dict(context.invocation_metadata())})
            if code != "OK":
                from google.rpc.error_details_pb2 import RetryInfo
                info = RetryInfo()
                info.retry_delay.FromNanoseconds(ns or 0)
                context.set_trailing_metadata((("google.rpc.retryinfo-bin", info.SerializeToString()),))
                context.abort(grpc.StatusCode[code], "because")
            return b""
        return grpc.unary_unary_rpc_method_handler(handle)


REAL_SERVER = {}
quick_outcome = weighted((3, st.tuples(st.sampled_from(TRANSIENT), pick(0, 1, 1000))), (1, st.tuples(st.sampled_from(FATAL), st.just(0))))


@sub("real server", st.tuples(payload, st.sampled_from([None, "gzip", "deflate"]), st.lists(quick_outcome, max_size=7)), quick=60, thorough=1500)
def real_server(rec, case):
    from concurrent import futures
    (signal, data), comp, script = case
    if not REAL_SERVER:
        h = REAL_SERVER["handler"] = Loopback()
        srv = REAL_SERVER["server"] = grpc.server(futures.ThreadPoolExecutor(2), handlers=(h,), options=[("grpc.so_reuseport", 0)])
        REAL_SERVER["port"] = srv.add_insecure_port("127.0.0.1:0")
        srv.start()
    h = REAL_SERVER["handler"]
    h.script, h.seen = list(script), []
    batch, want, read = build(signal, data)
    exp = EXPORTERS[signal](endpoint=f"http://127.0.0.1:{REAL_SERVER['port']}", headers={"x-a": "1"}, compression=COMP[comp or "none"])
    ok = exp.export(batch).name
    exp.shutdown()
    attempts, result = expected_attempts(script)
    rec.eq([s["code"] for s in h.seen], [c for c, _d in attempts], "calls answered by the server")
    rec.eq(ok, "SUCCESS" if result else "FAILURE", "result")
    for s in h.seen:
        check_call(rec, signal, want, read, s)
        rec.eq(s["metadata"].get("x-a"), "1", "header")
    rec.eq(exp.export(batch).name, "FAILURE", "result after shutdown")
    rec.nontrivial(len(h.seen) > 1 or not result)
