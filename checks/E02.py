"""E02: metrics encoded to OTLP and decoded again are the metrics that were encoded; exporter preferences."""
import math
import os

from hypothesis import strategies as st

from opentelemetry import metrics as api
from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter as GrpcExporter
from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter as HttpExporter
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest
from opentelemetry.sdk import metrics as sdk
from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, MeterProvider
from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader, MetricExportResult, PeriodicExportingMetricReader
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation, SumAggregation, View
from opentelemetry.sdk.resources import Resource
from opentelemetry.trace import NonRecordingSpan, set_span_in_context
from opentelemetry.context import Context
from vlib import otlp, telemetry as tm
from vlib.core import sub
from vlib.gen import finite, i64, pick, scalar_attributes, utext, weighted
from vlib.spans import ctx_of, span_ctx

RULE = ("metrics of every point type with generated values (integers to 2^63-1, infinities, NaN), times, bounds, buckets, exemplars, scopes and resources, built directly and produced by the SDK from generated "
        "measurements; and exporters configured by arguments and environment whose collected temporalities and aggregations are observed. non-trivial: two groups, an exemplar, a histogram or two points.")
TECHNIQUE = "property-based testing: round trip through the serialised request against an independent reader, reference table for the preferences (Hypothesis)"
ASSUMPTIONS = ["each resource of a batch occurs once and each scope once in it (as the SDK makes them); gauges carry no start time; a metric without points and the offset of empty buckets are not claimed"]


def encode(rec, data):
    req = encode_metrics(data)
    req = ExportMetricsServiceRequest.FromString(req.SerializeToString())
    got, want = otlp.metrics(req), otlp.x_metrics(data)
    otlp.compare(rec, got, want, "decoded")
    rec.check(len(got[1]) == len(set(got[1])), f"a scope encoded twice under a resource: {got[1]}")
    ms = [m for g in want.values() for m in g]
    points = [p for m in ms for p in m.get("points", ())]
    rec.nontrivial(len(want) > 1 or len(points) > 1 or any(p["exemplars"] for p in points) or any("histogram" in m.get("kind", "") for m in ms))
    rec.label(*sorted({m["kind"] for m in ms if "kind" in m}), *(["exemplars"] if any(p["exemplars"] for p in points) else []))


def clean(case):
    """Every resource once, every scope once under it; a gauge has no start time."""
    kept = tm.distinct([r for r, _ in case], Resource, otlp.x_resource)
    out = []
    for r, scopes in case:
        if r not in kept or any(r == x for x, _ in out):
            continue
        ks = tm.distinct([s for s, _ in scopes], tm.InstrumentationScope, otlp.x_scope)
        ss = []
        for s, ms in scopes:
            if s in ks and not any(s == x for x, _ in ss):
                ss.append((s, [(n, d, u, ("gauge", [(p[0], None, *p[2:]) for p in x[1]]) if x[0] == "gauge" else x) for n, d, u, x in ms]))
        out.append((r, ss))
    return out


@sub("built points", tm.metrics_data, quick=900, thorough=60000)
def built(rec, case):
    encode(rec, tm.build_metrics(clean(case)))


# ------------------------------------------------------------------ metrics made by the SDK
KINDS = ["counter", "updown", "histogram", "gauge", "obs counter", "obs updown", "obs gauge"]
CLASSES = {"counter": sdk.Counter, "updown": sdk.UpDownCounter, "histogram": sdk.Histogram, "obs counter": sdk.ObservableCounter, "obs updown": sdk.ObservableUpDownCounter, "obs gauge": sdk.ObservableGauge}
AGGS = {"explicit": lambda: ExplicitBucketHistogramAggregation((1, 5.5, 10)), "no bounds": lambda: ExplicitBucketHistogramAggregation(()), "unrecorded": lambda: ExplicitBucketHistogramAggregation(record_min_max=False),
        "exponential": lambda: ExponentialBucketHistogramAggregation(max_size=8), "sum": SumAggregation, "last": LastValueAggregation}
value = weighted((3, st.integers(-1000, 1000)), (3, st.floats(-1e6, 1e6)), (1, i64), (1, pick(0, 0.0, 1e-9)))
measurement = st.tuples(value, scalar_attributes, weighted((2, st.none()), (1, span_ctx)))
instrument = st.tuples(st.sampled_from(KINDS), tm.opt_text, pick("", "1", "ms", "{call}"), weighted((3, st.none()), (2, st.sampled_from(sorted(AGGS)))), st.lists(measurement, min_size=1, max_size=4))
produced_case = st.tuples(tm.resource, st.lists(tm.scope, min_size=1, max_size=2), st.lists(st.tuples(st.integers(0, 1), instrument), max_size=4), st.booleans())


@sub("metrics made by the SDK", produced_case, quick=250, thorough=20000)
def produced(rec, case):
    (attrs, schema), scopes, instruments, delta = case
    scopes = tm.distinct(scopes, tm.InstrumentationScope, otlp.x_scope)
    reader = InMemoryMetricReader({c: AggregationTemporality.DELTA for c in CLASSES.values()} if delta else None)
    views = [View(instrument_name=f"i{k}", aggregation=AGGS[ins[3]]()) for k, (_at, ins) in enumerate(instruments) if ins[3] and not (ins[0].startswith("obs") and ins[3] not in ("sum", "last"))]
    mp = MeterProvider([reader], Resource(attrs, schema), AlwaysOnExemplarFilter(), shutdown_on_exit=False, views=views)
    meters = [mp.get_meter(*s[:3], s[3]) for s in scopes]
    for k, (at, (kind, desc, unit, _agg, ms)) in enumerate(instruments):
        m, args = meters[at % len(meters)], (f"i{k}",)
        kw = {"unit": unit, "description": desc or ""}
        if kind.startswith("obs"):
            create = {"obs counter": m.create_observable_counter, "obs updown": m.create_observable_up_down_counter, "obs gauge": m.create_observable_gauge}[kind]
            create(*args, callbacks=[lambda _o, ms=ms: [api.Observation(v, a) for v, a, _c in ms]], **kw)
            continue
        i = {"counter": m.create_counter, "updown": m.create_up_down_counter, "histogram": m.create_histogram, "gauge": m.create_gauge}[kind](*args, **kw)
        for v, a, c in ms:
            ctx = set_span_in_context(NonRecordingSpan(ctx_of(c)), Context()) if c else Context()
            getattr(i, {"gauge": "set", "histogram": "record"}.get(kind, "add"))(abs(v) if kind in ("counter", "histogram") and v != -(2**63) else 1 if kind == "counter" and v < 0 else v, a, ctx)
    data = reader.get_metrics_data()
    if data is None:
        return
    if any(abs(x) >= 2**63 for rm in data.resource_metrics for sm in rm.scope_metrics for mt in sm.metrics for p in mt.data.data_points for x in [getattr(p, "value", 0)] if isinstance(x, int)):
        rec.label("sum beyond 64 bits")
        return
    encode(rec, data)


# ------------------------------------------------------------------ preferences
T = AggregationTemporality
ALL = ["counter", "updown", "histogram", "obs counter", "obs updown"]
DELTA_OF = {"DELTA": {"counter", "histogram", "obs counter"}, "LOWMEMORY": {"counter", "histogram"}}
arg_temps = weighted((2, st.none()), (2, st.dictionaries(st.sampled_from(ALL), pick("DELTA", "CUMULATIVE"), max_size=4)))
preference = st.fixed_dictionaries({
    "exporter": pick("http", "http", "http", "grpc"),
    "temporality": weighted((1, st.none()), (5, pick("CUMULATIVE", "DELTA", "LOWMEMORY", "delta", "Cumulative", "lowMemory", " DELTA ", "lowmemory ")), (1, pick("", "no", "DELTA,LOWMEMORY", "DELTA2"))),
    "aggregation": weighted((1, st.none()), (4, pick("explicit_bucket_histogram", "base2_exponential_bucket_histogram")), (1, pick("", "no", "base3"))),
    "temporalities": arg_temps, "aggregations": weighted((3, st.none()), (2, st.dictionaries(pick("histogram", "counter", "updown"), pick("explicit", "exponential", "sum"), max_size=2))),
})


class Trap:
    """Mixed into an exporter: keeps what it is given instead of sending it."""

    def export(self, metrics_data, timeout_millis=10000, **kwargs):
        self.got.append(metrics_data)
        return MetricExportResult.SUCCESS


class Http(Trap, HttpExporter):
    pass


class Grpc(Trap, GrpcExporter):
    pass


ENV = {"temporality": "OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE", "aggregation": "OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION"}


@sub("preferences", preference, quick=250, thorough=8000)
def preferences(rec, case):
    old = {k: os.environ.pop(k, None) for k in ENV.values()}
    try:
        for f, k in ENV.items():
            if case[f] is not None:
                os.environ[k] = case[f]
        temps = None if case["temporalities"] is None else {CLASSES[k]: T[v] for k, v in case["temporalities"].items()}
        aggs = None if case["aggregations"] is None else {CLASSES[k]: AGGS[v]() for k, v in case["aggregations"].items()}
        kw = {"preferred_temporality": temps, "preferred_aggregation": aggs}
        exp = Http(**kw) if case["exporter"] == "http" else Grpc(insecure=True, endpoint="localhost:1", **kw)
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    exp.got = []
    reader = PeriodicExportingMetricReader(exp, export_interval_millis=math.inf)
    mp = MeterProvider([reader], Resource({}), shutdown_on_exit=False)
    m = mp.get_meter("m")
    rounds = [0]

    def observe(_options):
        return [api.Observation(10 * rounds[0])]
    sync = {"counter": m.create_counter("counter"), "updown": m.create_up_down_counter("updown"), "histogram": m.create_histogram("histogram")}
    m.create_observable_counter("obs counter".replace(" ", "_"), [observe])
    m.create_observable_up_down_counter("obs_updown", [observe])
    for rounds[0] in (1, 2):
        sync["counter"].add(3)
        sync["updown"].add(3)
        sync["histogram"].record(3)
        reader.collect()
    mp.shutdown()
    rec.check(len(exp.got) >= 2, f"{len(exp.got)} exports of two collections")
    env = (case["temporality"] or "").strip().upper()
    got = {x.name.replace("_", " "): x for rm in exp.got[1].resource_metrics for sm in rm.scope_metrics for x in sm.metrics}
    rec.eq(sorted(got), sorted(ALL), "instruments collected")
    for k in ALL:
        want_t = (case["temporalities"] or {}).get(k) or ("DELTA" if k in DELTA_OF.get(env, ()) else "CUMULATIVE")
        want_a = (case["aggregations"] or {}).get(k) or ("sum" if k != "histogram" else "exponential" if case["aggregation"] == "base2_exponential_bucket_histogram" else "explicit")
        d = got[k].data
        rec.eq(type(d).__name__, {"sum": "Sum", "explicit": "Histogram", "exponential": "ExponentialHistogram"}[want_a], f"aggregation of {k}")
        rec.eq(d.aggregation_temporality.name, want_t, f"temporality of {k}")
        p = d.data_points[0]
        step = 10 if k.startswith("obs") else 3
        rec.eq(p.value if want_a == "sum" else p.sum, step if want_t == "DELTA" else 2 * step, f"second value of {k}")
    rec.nontrivial(bool(env or case["temporalities"] or case["aggregation"] or case["aggregations"]))
    rec.label(env or "no preference", case["exporter"])
