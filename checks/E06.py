"""E06: a metrics export split by a maximum size sends every point exactly once, in order."""
from vlib import vsched
vsched.install()

from hypothesis import strategies as st  # noqa: E402

from vlib import fakegrpc  # noqa: E402
from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter  # noqa: E402
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest  # noqa: E402
from vlib import otlp, telemetry as tm  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402
from checks.E02 import clean  # noqa: E402

RULE = ("metric batches with any nesting of resources, scopes, metrics and points (empty ones included), maximum sizes from 1, and servers that accept, refuse or first delay each request. non-trivial: more than one "
        "request was sent, or one was refused.")
TECHNIQUE = "property-based testing: invariants and order-preserving concatenation over the decoded requests (Hypothesis)"
ASSUMPTIONS = ["each resource of a batch occurs once and each scope once in it"]

small = st.tuples(st.dictionaries(pick("a", "b"), st.integers(0, 9), max_size=1), st.just(5), st.integers(1, 99), st.integers(0, 999), st.just([]))
small_data = st.one_of(st.tuples(st.just("sum"), st.lists(small, max_size=6), st.integers(1, 2), st.booleans()), st.tuples(st.just("gauge"), st.lists(small, max_size=6)),
                       st.tuples(st.just("hist"), st.lists(tm.hist_point(), max_size=4), tm.temporality), st.tuples(st.just("exp"), st.lists(tm.exp_point, max_size=4), tm.temporality))
small_metric = st.tuples(pick("m", "n", "é"), pick(None, "", "about"), pick("", "1", "ms"), weighted((4, small_data), (1, tm.data)))
small_metrics = st.lists(st.tuples(tm.resource, st.lists(st.tuples(tm.scope, st.lists(small_metric, max_size=4)), max_size=3)), min_size=1, max_size=3)
answer = weighted((6, st.just("OK")), (1, st.just("UNKNOWN")), (1, st.just("INTERNAL")), (1, st.just("retry")))


def flatten(groups_in_order):
    out = []
    for key, metrics in groups_in_order:
        for m in metrics:
            head = {k: v for k, v in m.items() if k != "points"}
            out += [(key, head, p) for p in m.get("points", ())]
    return out


def in_order(req):
    out = []
    for rg in req.resource_metrics:
        for sg in rg.scope_metrics:
            out.append(((otlp.resource_of(rg), otlp.scope_of(sg)), [otlp.metric(m) for m in sg.metrics]))
    return out


@sub("split", st.tuples(small_metrics, weighted((6, st.integers(1, 6)), (1, st.integers(7, 60)), (1, st.none())), st.lists(answer, max_size=8)), quick=1200, thorough=60000)
def split(rec, case):
    data, size, answers = case
    batch = tm.build_metrics(clean(data))
    want = flatten(otlp.x_metrics(batch).items())

    def scenario(sim):
        with fakegrpc.Server(sim) as server:
            exp = OTLPMetricExporter(insecure=True, max_export_batch_size=size)
            server.script = [x for a in answers for x in ([("UNAVAILABLE", None), ("OK", None)] if a == "retry" else [(a, None)])]
            ok = exp.export(batch).name
        rec.eq(flatten(otlp.x_metrics(batch).items()), want, "the batch itself, after the export")
        final = [s for i, s in enumerate(server.seen) if s["code"] != "UNAVAILABLE"]
        for i, s in enumerate(server.seen):
            if s["code"] == "UNAVAILABLE":
                rec.check(i + 1 < len(server.seen) and server.seen[i + 1]["body"] == s["body"], "a request was not repeated as it was")
        sent = [flatten(in_order(ExportMetricsServiceRequest.FromString(s["body"]))) for s in final]
        limit = size if size is not None else len(want)
        for i, points in enumerate(sent):
            rec.check(len(points) <= limit, f"request {i} of {len(sent)} holds {len(points)} points of at most {limit}")
            rec.check(len(points) == limit or i == len(sent) - 1, f"request {i} of {len(sent)}, not the last, holds {len(points)} points of {limit}")
            if size is not None:
                rec.check(points, f"request {i} of {len(sent)} holds no point")
                for rg in ExportMetricsServiceRequest.FromString(final[i]["body"]).resource_metrics:
                    rec.check(len(rg.scope_metrics), f"request {i} of {len(sent)} holds a resource without metrics")
                    for sg in rg.scope_metrics:
                        rec.check(len(sg.metrics), f"request {i} of {len(sent)} holds a scope without metrics")
                        rec.check(all(otlp.metric(m).get("points") for m in sg.metrics), f"request {i} of {len(sent)} holds a metric without points: {sg.metrics}")
        got = [p for points in sent for p in points]
        rec.eq(len(got), len(want), f"points sent of {len(want)}")
        for i, (g, w) in enumerate(zip(got, want)):
            rec.eq(g[0], w[0], f"resource and scope of point {i}")
            rec.eq(g[1], w[1], f"metric of point {i}")
            rec.eq(g[2], w[2], f"point {i}")
        rec.eq(ok, "SUCCESS" if all(s["code"] == "OK" for s in final) else "FAILURE", f"result after {[s['code'] for s in server.seen]}")
        rec.nontrivial(len(sent) > 1 or ok != "SUCCESS")
        rec.label(f"{min(len(sent), 5)} requests", ok)
    vsched.simulate(("gaps", []), scenario, trace=False)
