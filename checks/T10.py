"""T10: JSON forms and console exporters."""
import datetime
import io
import json
import warnings
from dataclasses import replace

from hypothesis import strategies as st

from opentelemetry.sdk._logs.export import ConsoleLogExporter, LogExportResult
from opentelemetry.sdk.metrics.export import ConsoleMetricExporter, MetricExportResult
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace.export import ConsoleSpanExporter, SpanExportResult
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from vlib.core import sub
from vlib.gen import pick
from vlib.spans import show_ctx
from vlib import telemetry as tm

RULE = ("finished spans, metrics data of every point kind, log records with optional fields absent, resources and scopes, through to_json and the console exporters; the parsed JSON is compared field by field "
        "with the object's public view. non-trivial: the item has attributes and nested content.")
ASSUMPTIONS = ["ISO times have microsecond resolution (two microseconds of slack for floating rounding)"]
warnings.simplefilter("ignore")


def plain(v):
    """JSON image of an attribute value or log body."""
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def amap(m):
    return {k: plain(v) for k, v in (m or {}).items()}


def iso(rec, text, ns, what):
    if ns is None or ns == 0 and text is None:  # 0 stands for an unknown time
        rec.check(text is None, "%s: %r for an absent time", what, text)
        return
    rec.check(isinstance(text, str) and text.endswith("Z") and "T" in text, "%s: %r is not an ISO time in UTC", what, text)
    t = datetime.datetime.strptime(text, "%Y-%m-%dT%H:%M:%S.%fZ") - datetime.datetime(1970, 1, 1)
    got = (t.days * 86400 + t.seconds) * 10**9 + t.microseconds * 1000
    rec.check(abs(got - ns) <= 2000, "%s: %s is off by %d ns from %d", what, text, got - ns, ns)


def hexid(v, n):
    return "0x" + ("%x" % v).rjust(n, "0")


def ctx_json(rec, j, c, what):
    tid, sid, _f, ts, _r = show_ctx(c)
    rec.eq(j["trace_id"], hexid(tid, 32), what + " trace id")
    rec.eq(j["span_id"], hexid(sid, 16), what + " span id")
    rec.check(isinstance(j["trace_state"], str) and (ts or j["trace_state"] == "[]"), "%s trace state %r for %r", what, j["trace_state"], ts)
    pos = 0
    for k, v in ts:
        if "'" in v or '"' in v or "\\" in v:
            continue
        at = j["trace_state"].find(k, pos)
        rec.check(at >= 0 and v in j["trace_state"][at:], "%s trace state %r lacks %s=%s", what, j["trace_state"], k, v)
        pos = at + len(k)


def resource_json(rec, j, r, what):
    rec.eq(j, {"attributes": amap(r.attributes), "schema_url": r.schema_url}, what)


def scope_json(rec, j, s, what):
    j = dict(j, attributes=j["attributes"] or {})
    rec.eq(j, {"name": s.name, "version": s.version, "schema_url": s.schema_url, "attributes": amap(s.attributes)}, what)


def span_json(rec, j, s):
    rec.eq(sorted(j), sorted(["name", "context", "kind", "parent_id", "start_time", "end_time", "status", "attributes", "events", "links", "resource"]), "keys")
    rec.eq(j["name"], s.name, "name")
    ctx_json(rec, j["context"], s.get_span_context(), "span")
    rec.eq(j["kind"], "SpanKind." + s.kind.name, "kind")
    rec.eq(j["parent_id"], s.parent and hexid(s.parent.span_id, 16), "parent")
    iso(rec, j["start_time"], s.start_time, "start")
    iso(rec, j["end_time"], s.end_time, "end")
    want = {"status_code": s.status.status_code.name}
    if s.status.description:
        want["description"] = s.status.description
    rec.eq(j["status"], want, "status")
    rec.eq(j["attributes"], amap(s.attributes), "attributes")
    rec.eq(list(j["attributes"]), list(s.attributes), "attribute order")
    rec.eq([(e["name"], e["attributes"] or {}) for e in j["events"]], [(e.name, amap(e.attributes)) for e in s.events], "events")
    for a, e in zip(j["events"], s.events):
        iso(rec, a["timestamp"], e.timestamp, "event time")
    rec.eq([l["attributes"] or {} for l in j["links"]], [amap(l.attributes) for l in s.links], "link attributes")
    for a, l in zip(j["links"], s.links):
        ctx_json(rec, a["context"], l.context, "link")
    resource_json(rec, j["resource"], s.resource, "resource")


def docs(text):
    """The concatenated JSON documents in text."""
    d, out = json.JSONDecoder(), []
    i = 0
    while True:
        while i < len(text) and text[i] in "\r\n":
            i += 1
        if i >= len(text):
            return out
        v, i = d.raw_decode(text, i)
        out.append(v)


indents = pick(4, None, 0, 2)


@sub("spans", st.tuples(tm.span_batch(4), indents), quick=2500, thorough=150000)
def spans(rec, case):
    batch, indent = case
    ss = tm.build_spans(batch)
    out = io.StringIO()
    rec.check(ConsoleSpanExporter(out=out).export(ss) is SpanExportResult.SUCCESS, "console export failed")
    ds = docs(out.getvalue())
    rec.eq(len(ds), len(ss), "documents printed")
    for s, d in zip(ss, ds):
        t = s.to_json(indent=indent)
        rec.check(indent is not None or "\n" not in t, "indent=None gave several lines")
        j = json.loads(t)
        span_json(rec, j, s)
        rec.eq(d, j, "console form")
        rec.nontrivial(s.attributes and (s.events or s.links))


def point_json(rec, j, p, kind):
    want = {"attributes": amap(p.attributes), "start_time_unix_nano": p.start_time_unix_nano, "time_unix_nano": p.time_unix_nano,
            "exemplars": [{"filtered_attributes": amap(e.filtered_attributes), "value": e.value, "time_unix_nano": e.time_unix_nano, "span_id": e.span_id, "trace_id": e.trace_id} for e in p.exemplars]}
    if kind in ("sum", "gauge"):
        want["value"] = p.value
    else:
        want.update(count=p.count, sum=p.sum, min=p.min, max=p.max)
        if kind == "hist":
            want.update(bucket_counts=list(p.bucket_counts), explicit_bounds=list(p.explicit_bounds))
        else:
            want.update(scale=p.scale, zero_count=p.zero_count, flags=p.flags, positive={"offset": p.positive.offset, "bucket_counts": list(p.positive.bucket_counts)},
                        negative={"offset": p.negative.offset, "bucket_counts": list(p.negative.bucket_counts)})
    rec.eq(j, want, kind + " point")


@sub("metrics", st.tuples(tm.metrics_data, indents, pick(None, None, "", "other")), quick=1800, thorough=100000)
def metrics(rec, case):
    data, indent, schema = case
    md = tm.build_metrics(data)
    if schema is not None:
        md = replace(md, resource_metrics=[replace(rm, schema_url=schema, scope_metrics=[replace(sm, schema_url=schema + "2") for sm in rm.scope_metrics]) for rm in md.resource_metrics])
    j = json.loads(md.to_json(indent=indent))
    out = io.StringIO()
    rec.check(ConsoleMetricExporter(out=out).export(md) is MetricExportResult.SUCCESS, "console export failed")
    rec.eq(docs(out.getvalue()), [j], "console form")
    rec.eq(list(j), ["resource_metrics"], "top level")
    rec.eq(len(j["resource_metrics"]), len(md.resource_metrics), "resources")
    n = 0
    for rj, rm in zip(j["resource_metrics"], md.resource_metrics):
        rec.eq(sorted(rj), ["resource", "schema_url", "scope_metrics"], "keys")
        resource_json(rec, rj["resource"], rm.resource, "resource")
        rec.eq(rj["schema_url"], rm.schema_url, "resource schema")
        rec.eq(len(rj["scope_metrics"]), len(rm.scope_metrics), "scopes")
        for sj, sm in zip(rj["scope_metrics"], rm.scope_metrics):
            rec.eq(sorted(sj), ["metrics", "schema_url", "scope"], "keys")
            scope_json(rec, sj["scope"], sm.scope, "scope")
            rec.eq(sj["schema_url"], sm.schema_url, "scope schema")
            rec.eq(len(sj["metrics"]), len(sm.metrics), "metrics")
            for mj, m in zip(sj["metrics"], sm.metrics):
                rec.eq((mj["name"], mj["description"], mj["unit"]), (m.name, m.description or "", m.unit or ""), "metric")
                kind = {"Sum": "sum", "Gauge": "gauge", "Histogram": "hist", "ExponentialHistogram": "exp"}[type(m.data).__name__]
                dj = mj["data"]
                keys = ["data_points"] + ["aggregation_temporality"] * (kind != "gauge") + ["is_monotonic"] * (kind == "sum")
                rec.eq(sorted(dj), sorted(keys), "keys of " + kind)
                if kind != "gauge":
                    rec.eq(dj["aggregation_temporality"], int(m.data.aggregation_temporality), "temporality")
                if kind == "sum":
                    rec.eq(dj["is_monotonic"], m.data.is_monotonic, "monotonic")
                rec.eq(len(dj["data_points"]), len(m.data.data_points), "points")
                for pj, p in zip(dj["data_points"], m.data.data_points):
                    point_json(rec, pj, p, kind)
                    n += 1
    rec.nontrivial(n >= 2)


def has_bytes(v):
    if isinstance(v, bytes):
        return True
    return any(map(has_bytes, v.values())) if isinstance(v, dict) else isinstance(v, (list, tuple)) and any(map(has_bytes, v))


def no_bytes(v):
    if isinstance(v, bytes):
        return "*"
    if isinstance(v, dict):
        return {k: no_bytes(x) for k, x in v.items()}
    return [no_bytes(x) for x in v] if isinstance(v, (list, tuple)) else v


def mask(j, v):
    """The parsed body with the images of byte strings masked."""
    if isinstance(v, bytes):
        return "*" if isinstance(j, str) else j
    if isinstance(v, dict) and isinstance(j, dict):
        return {k: mask(x, v.get(k)) for k, x in j.items()}
    if isinstance(v, (list, tuple)) and isinstance(j, list) and len(j) == len(v):
        return [mask(a, b) for a, b in zip(j, v)]
    return j


@sub("logs", st.tuples(tm.log_batch, indents), quick=2500, thorough=150000)
def logs(rec, case):
    batch, indent = case
    data = tm.build_logs(batch)
    out = io.StringIO()
    rec.check(ConsoleLogExporter(out=out).export([d for d, _, _ in data]) is LogExportResult.SUCCESS, "console export failed")
    ds = docs(out.getvalue())
    rec.eq(len(ds), len(data), "documents printed")
    for (d, i, _), spec, printed in zip(data, batch[2], ds):
        r = d.log_record
        j = json.loads(r.to_json(indent=indent))
        rec.eq(printed, j, "console form")
        rec.eq(mask(j.pop("body"), spec["body"]), no_bytes(plain(spec["body"])), "body")
        lim = spec["limits"] or (None, None)
        kept, dropped = tm.kept_attributes(spec["attributes"], *lim)
        iso(rec, j.pop("timestamp"), spec["timestamp"], "timestamp")
        iso(rec, j.pop("observed_timestamp"), r.observed_timestamp if spec["observed"] is None else spec["observed"], "observed timestamp")
        resource_json(rec, j.pop("resource"), r.resource, "resource")
        rec.eq(j.pop("attributes") or {}, amap(kept), "attributes")
        rec.eq(j, {"severity_number": spec["severity"], "severity_text": spec["severity_text"], "dropped_attributes": dropped, "trace_flags": spec["flags"],
                   "trace_id": "" if spec["trace_id"] is None else hexid(spec["trace_id"], 32), "span_id": "" if spec["span_id"] is None else hexid(spec["span_id"], 16)}, "record")
        rec.nontrivial(kept and spec["body"])
        rec.label("bytes" if has_bytes(spec["body"]) else "")


@sub("resource", st.tuples(tm.resource, tm.scope, indents), quick=1500, thorough=60000)
def resource(rec, case):
    (attrs, schema), s, indent = case
    r = Resource(attrs, schema)
    rec.eq(json.loads(r.to_json(indent=indent)), {"attributes": amap(attrs), "schema_url": schema}, "resource")
    sc = InstrumentationScope(*s)
    scope_json(rec, json.loads(sc.to_json(indent=indent)), sc, "scope")
    rec.eq((sc.name, sc.version, sc.schema_url, amap(sc.attributes)), (s[0], s[1], s[2] or "", amap(s[3])), "scope")
    rec.nontrivial(attrs and s[3])
