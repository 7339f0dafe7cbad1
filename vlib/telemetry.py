"""Generated telemetry (plain data) and builders of SDK objects from it: span batches, metric batches, log batches."""
from hypothesis import strategies as st

from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.trace import NonRecordingSpan, Status
from vlib.gen import attributes, finite, i64, ident, pick, scalar_attributes, span_ids, times_ns, trace_ids, ts_entries, utext, weighted
from vlib.spans import CODES, any_ctx, attrs_opt, ctx_of, link, link_of, KINDS

name = weighted((3, pick("op", "GET /", "lib", "é")), (1, utext))
opt_text = weighted((1, st.none()), (1, st.just("")), (3, utext))
resource = st.tuples(attributes, weighted((2, st.just("")), (1, pick("http://s/1", "http://s/2"))))
scope = st.tuples(weighted((6, ident), (2, utext.filter(bool)), (1, st.just(""))), opt_text, opt_text, weighted((2, st.just({})), (1, scalar_attributes)))


def pool(one, n=3):
    """Up to n entries, some of which differ from an earlier one in one field only."""
    def mix(t):
        first, changes = t
        out = list(first)
        for i, f, other in changes:
            e = list(out[i % len(out)])
            e[f % len(e)] = other[f % len(e)]
            out.append(tuple(e))
        return out[:n]
    return st.tuples(st.lists(one, min_size=1, max_size=n), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), one), max_size=2)).map(mix)


flt = weighted((4, finite), (1, pick(0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"))))
number = st.one_of(i64, flt)

# ------------------------------------------------------------------ spans
event = st.tuples(name, attrs_opt, times_ns)
status = weighted((2, st.tuples(st.just(0), st.none())), (1, st.tuples(st.just(1), st.none())), (3, st.tuples(st.just(2), weighted((1, st.none()), (2, utext)))))
duration = weighted((3, st.integers(0, 10**10)), (1, pick(0, 1, 999, 1000, 10**9)))
parent = weighted((1, st.none()), (2, st.tuples(span_ids, ts_entries, st.booleans())))


def span_spec(attrs=attributes):
    return st.fixed_dictionaries({
        "at": st.tuples(st.integers(0, 2), st.integers(0, 2)), "name": name, "trace_id": trace_ids, "span_id": span_ids, "parent": parent, "kind": st.integers(0, 4), "attributes": attrs,
        "events": st.lists(event, max_size=3), "links": st.lists(link, max_size=3), "status": status, "start": times_ns, "duration": duration})


def limits():
    small = weighted((5, st.just(128)), (1, st.integers(0, 2)))
    return st.tuples(small, small, small, small, small)


def span_batch(max_size=5, attrs=attributes):
    return st.tuples(pool(resource), pool(scope), st.lists(span_spec(attrs), min_size=0, max_size=max_size), limits())


class _Ids(IdGenerator):
    next = None

    def generate_trace_id(self):
        return self.next[0]

    def generate_span_id(self):
        return self.next[1]


class _Keep(SpanProcessor):
    def __init__(self):
        self.got = []

    def on_end(self, span):
        self.got.append(span)


def build_spans(batch):
    """Finished SDK spans, in batch order."""
    resources, scopes, specs, (a, e, l, ea, la) = batch
    ids = _Ids()
    keep = _Keep()
    providers = []
    for attrs, schema in resources:
        tp = TracerProvider(resource=Resource(attrs, schema), id_generator=ids, shutdown_on_exit=False,
                            span_limits=SpanLimits(max_span_attributes=a, max_events=e, max_links=l, max_event_attributes=ea, max_link_attributes=la))
        tp.add_span_processor(keep)
        providers.append([tp.get_tracer(n, v, s, at) for n, v, s, at in scopes])
    for sp in specs:
        tracers = providers[sp["at"][0] % len(providers)]
        tr = tracers[sp["at"][1] % len(tracers)]
        ids.next = (sp["trace_id"], sp["span_id"])
        ctx = Context()
        if sp["parent"]:
            pid, ts, remote = sp["parent"]
            ctx = trace.set_span_in_context(NonRecordingSpan(ctx_of((sp["trace_id"], pid, 1, ts, remote))), ctx)
        s = tr.start_span(sp["name"], context=ctx, kind=KINDS[sp["kind"]], attributes=sp["attributes"], links=[link_of(x) for x in sp["links"]], start_time=sp["start"])
        for n, at, t in sp["events"]:
            s.add_event(n, at, timestamp=t)
        code, desc = sp["status"]
        if code:
            s.set_status(Status(CODES[code], desc))
        s.end(sp["start"] + sp["duration"])
    return keep.got


# ------------------------------------------------------------------ metrics (point objects built directly)
unit = weighted((3, pick("", "1", "ms", "By", "{call}")), (1, utext))
count = weighted((4, st.integers(0, 1000)), (1, st.integers(0, 2**63 - 1)))
exemplar = st.tuples(scalar_attributes, number, times_ns, weighted((1, st.none()), (2, st.tuples(span_ids, trace_ids))))
exemplars = weighted((3, st.just([])), (2, st.lists(exemplar, max_size=3)))
number_point = st.tuples(attributes, weighted((1, st.none()), (4, times_ns)), times_ns, number, exemplars)


@st.composite
def hist_point(draw):
    bounds = sorted(set(draw(st.lists(finite, max_size=4))))
    counts = draw(st.lists(count, min_size=len(bounds) + 1, max_size=len(bounds) + 1))
    return (draw(attributes), draw(times_ns), draw(times_ns), draw(count), draw(number), counts, bounds, draw(number), draw(number), draw(exemplars))


buckets = st.tuples(st.integers(-(2**31), 2**31 - 1), st.lists(count, max_size=5))
exp_point = st.tuples(attributes, times_ns, times_ns, count, number, st.integers(-10, 20), count, buckets, buckets, st.integers(0, 1), number, number, exemplars)
temporality = st.integers(1, 2)
data = weighted(
    (2, st.tuples(st.just("sum"), st.lists(number_point, max_size=4), temporality, st.booleans())),
    (2, st.tuples(st.just("gauge"), st.lists(number_point, max_size=4))),
    (2, st.tuples(st.just("hist"), st.lists(hist_point(), max_size=4), temporality)),
    (2, st.tuples(st.just("exp"), st.lists(exp_point, max_size=4), temporality)),
)
metric = st.tuples(weighted((3, ident), (1, utext)), opt_text, weighted((4, unit), (1, st.none())), data)
metrics_data = st.lists(st.tuples(resource, st.lists(st.tuples(scope, st.lists(metric, max_size=3)), max_size=3)), max_size=3)


def build_metrics(case):
    from opentelemetry.sdk.metrics._internal.exemplar import Exemplar
    from opentelemetry.sdk.metrics.export import (AggregationTemporality, ExponentialHistogram, ExponentialHistogramDataPoint, Gauge, Histogram, HistogramDataPoint, Metric, MetricsData,
                                                  NumberDataPoint, ResourceMetrics, ScopeMetrics, Sum)
    from opentelemetry.sdk.metrics._internal.point import Buckets

    def ex(es):
        return [Exemplar(a, v, t, *(ids or (None, None))) for a, v, t, ids in es]

    def num(p):
        return NumberDataPoint(attributes=p[0], start_time_unix_nano=p[1], time_unix_nano=p[2], value=p[3], exemplars=ex(p[4]))

    def hist(p):
        return HistogramDataPoint(attributes=p[0], start_time_unix_nano=p[1], time_unix_nano=p[2], count=p[3], sum=p[4], bucket_counts=p[5], explicit_bounds=p[6], min=p[7], max=p[8], exemplars=ex(p[9]))

    def exp(p):
        return ExponentialHistogramDataPoint(attributes=p[0], start_time_unix_nano=p[1], time_unix_nano=p[2], count=p[3], sum=p[4], scale=p[5], zero_count=p[6], positive=Buckets(*p[7]),
                                             negative=Buckets(*p[8]), flags=p[9], min=p[10], max=p[11], exemplars=ex(p[12]))

    def dat(d):
        if d[0] == "sum":
            return Sum([num(p) for p in d[1]], AggregationTemporality(d[2]), d[3])
        if d[0] == "gauge":
            return Gauge([num(p) for p in d[1]])
        if d[0] == "hist":
            return Histogram([hist(p) for p in d[1]], AggregationTemporality(d[2]))
        return ExponentialHistogram([exp(p) for p in d[1]], AggregationTemporality(d[2]))

    return MetricsData([
        ResourceMetrics(Resource(*r), [ScopeMetrics(InstrumentationScope(*s), [Metric(n, d, u, dat(x)) for n, d, u, x in ms], s[2] or "") for s, ms in sms], r[1])
        for r, sms in case])


# ------------------------------------------------------------------ logs
any_scalar = weighted((1, st.none()), (1, st.booleans()), (2, i64), (2, finite), (3, utext), (1, st.binary(max_size=6)))


def any_value(no_none=False):
    base = any_scalar if not no_none else any_scalar.filter(lambda x: x is not None)
    return st.recursive(base, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(utext, c, max_size=3)), max_leaves=6)


body = weighted((3, utext), (3, any_value()))
SEVERITIES = list(range(25))
log_record = st.fixed_dictionaries({
    "at": st.tuples(st.integers(0, 2), st.integers(0, 2)),
    "timestamp": weighted((1, st.none()), (4, times_ns)), "observed": weighted((1, st.none()), (4, times_ns)),
    "trace_id": weighted((1, st.none()), (1, st.just(0)), (4, trace_ids)), "span_id": weighted((1, st.none()), (1, st.just(0)), (4, span_ids)), "flags": weighted((1, st.none()), (4, pick(0, 1, 1, 2, 3, 0x81, 0xFF))),
    "severity_text": opt_text, "severity": weighted((1, st.none()), (4, st.sampled_from(SEVERITIES))), "body": body, "attributes": attrs_opt,
    "limits": weighted((3, st.none()), (1, st.tuples(st.integers(0, 3), weighted((1, st.none()), (1, st.integers(0, 4)))))),
})
log_batch = st.tuples(pool(resource), pool(scope), st.lists(log_record, max_size=5))


def build_record(r, res):
    from opentelemetry._logs import SeverityNumber
    from opentelemetry.sdk._logs import LogLimits, LogRecord
    kw = {}
    if r["limits"] is not None:
        kw["limits"] = LogLimits(max_attributes=r["limits"][0], max_attribute_length=LogLimits.UNSET if r["limits"][1] is None else r["limits"][1])
    return LogRecord(timestamp=r["timestamp"], observed_timestamp=r["observed"], trace_id=r["trace_id"], span_id=r["span_id"],
                     trace_flags=None if r["flags"] is None else trace.TraceFlags(r["flags"]), severity_text=r["severity_text"],
                     severity_number=None if r["severity"] is None else SeverityNumber(r["severity"]), body=r["body"], attributes=r["attributes"], resource=res, **kw)


def build_logs(batch):
    """LogData objects with their (spec, resource index, scope index)."""
    from opentelemetry.sdk._logs import LogData
    resources, scopes, recs = batch
    rs = [Resource(*r) for r in resources]
    ss = [InstrumentationScope(*s) for s in scopes]
    out = []
    for r in recs:
        i, j = r["at"][0] % len(rs), r["at"][1] % len(ss)
        out.append((LogData(build_record(r, rs[i]), ss[j]), i, j))
    return out


def kept_attributes(attrs, limit, length):
    """What bounded attributes keep of an all-clean mapping: newest `limit`, values cut to `length`; and how many were dropped."""
    def cut(v):
        if length is None:
            return v
        if isinstance(v, str):
            return v[:length]
        if isinstance(v, tuple):
            return tuple(cut(x) for x in v)
        return v
    items = [(k, cut(tuple(v) if isinstance(v, (list, tuple)) else v)) for k, v in (attrs or {}).items()]
    kept = items if limit is None else items[len(items) - min(len(items), limit):]
    return dict(kept), len(items) - len(kept)


def fields(o):
    """What equality of resources and scopes is about."""
    return getattr(o, "name", None), getattr(o, "version", None), o.schema_url, dict(o.attributes)


def distinct(pool, make, key):
    """The entries of a pool whose objects differ both in their fields, compared as Python does, and in what can be encoded of them."""
    out, seen, keys = [], [], set()
    for x in pool:
        o = make(*x)
        if key(o) in keys or any(fields(o) == fields(p) for p in seen):
            continue
        out.append(x)
        seen.append(o)
        keys.add(key(o))
    return out


def dedupe(resources, scopes):
    from vlib.otlp import x_resource, x_scope
    return distinct(resources, Resource, x_resource), distinct(scopes, InstrumentationScope, x_scope)
