"""Independent reading of OTLP protobuf messages: decoded plain data, and the plain data expected of SDK objects."""
import collections

AGG = {1: "delta", 2: "cumulative"}


def flt(x):
    x = float(x)
    return ("f", "nan" if x != x else x.hex())


def num(x):
    return flt(x) if isinstance(x, float) else ("i", x)


# ---------------------------------------------------------------- decoding
def any_value(v):
    which = v.WhichOneof("value")
    if which is None:
        return ("none",)
    x = getattr(v, which)
    if which == "array_value":
        return ("array", tuple(any_value(e) for e in x.values))
    if which == "kvlist_value":
        return ("map", key_values(x.values))
    if which == "double_value":
        return flt(x)
    return ({"bool_value": "b", "string_value": "s", "int_value": "i", "bytes_value": "y"}[which], x)


def key_values(kvs):
    out = {}
    for kv in kvs:
        assert kv.key not in out, f"key {kv.key!r} encoded twice"
        out[kv.key] = any_value(kv.value)
    return out


def scope_of(group):
    s = group.scope
    return (s.name, s.version, group.schema_url, freeze(key_values(s.attributes)))


def resource_of(group):
    return (freeze(key_values(group.resource.attributes)), group.schema_url)


def freeze(x):
    if isinstance(x, dict):
        return ("map", frozenset((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (tuple, list)):
        return tuple(freeze(e) for e in x)
    return x


def _groups(resource_groups, scope_field, item_field, read):
    """{(resource, scope): [items]}, and the list of (resource, scope) keys that occur (to see any listed twice)."""
    out, keys = {}, []
    for rg in resource_groups:
        r = resource_of(rg)
        for sg in getattr(rg, scope_field):
            key = (r, scope_of(sg))
            keys.append(key)
            out.setdefault(key, []).extend(read(x) for x in getattr(sg, item_field))
    return out, keys


def ident(b):
    """An identifier in hex; an all-zero one is an absent one."""
    return b.hex() if any(b) else ""


def span(s):
    return {
        "trace_id": ident(s.trace_id), "span_id": ident(s.span_id), "trace_state": s.trace_state, "parent": ident(s.parent_span_id), "name": s.name, "kind": s.kind, "start": s.start_time_unix_nano,
        "end": s.end_time_unix_nano, "attributes": key_values(s.attributes), "dropped": (s.dropped_attributes_count, s.dropped_events_count, s.dropped_links_count), "flags": s.flags & 0x300,
        "events": [(e.time_unix_nano, e.name, key_values(e.attributes), e.dropped_attributes_count) for e in s.events],
        "links": [(ident(k.trace_id), ident(k.span_id), k.trace_state, key_values(k.attributes), k.dropped_attributes_count, k.flags & 0x300) for k in s.links],
        "status": (s.status.code, s.status.message)}


def spans(req):
    return _groups(req.resource_spans, "scope_spans", "spans", span)


def log(r):
    return {"time": r.time_unix_nano, "observed": r.observed_time_unix_nano, "severity": (r.severity_number, r.severity_text), "body": any_value(r.body) if r.HasField("body") else ("none",),
            "attributes": key_values(r.attributes), "dropped": r.dropped_attributes_count, "flags": r.flags, "trace_id": ident(r.trace_id), "span_id": ident(r.span_id)}


def logs(req):
    return _groups(req.resource_logs, "scope_logs", "log_records", log)


def _value(p):
    which = p.WhichOneof("value")
    return None if which is None else flt(p.as_double) if which == "as_double" else ("i", p.as_int)


def _exemplars(es):
    return [(key_values(e.filtered_attributes), _value(e), e.time_unix_nano, ident(e.span_id), ident(e.trace_id)) for e in es]


def _opt(p, field):
    return flt(getattr(p, field)) if p.HasField(field) else None


def _buckets(b):
    return (b.offset if b.bucket_counts else None, list(b.bucket_counts))


def metric(m):
    kind = m.WhichOneof("data")
    out = {"name": m.name, "description": m.description, "unit": m.unit}
    if kind is None:
        return out
    d = getattr(m, kind)
    points = []
    for p in d.data_points:
        one = {"attributes": key_values(p.attributes), "start": p.start_time_unix_nano, "time": p.time_unix_nano, "exemplars": _exemplars(p.exemplars)}
        if kind in ("sum", "gauge"):
            one["value"] = _value(p)
        else:
            one.update(count=p.count, sum=_opt(p, "sum"), min=_opt(p, "min"), max=_opt(p, "max"))
            if kind == "histogram":
                one.update(buckets=list(p.bucket_counts), bounds=[flt(b) for b in p.explicit_bounds])
            else:
                one.update(scale=p.scale, zero=p.zero_count, positive=_buckets(p.positive), negative=_buckets(p.negative))
        points.append(one)
    if not points:
        return out
    out.update(kind=kind, points=points)
    if kind != "gauge":
        out["temporality"] = AGG.get(d.aggregation_temporality)
    if kind == "sum":
        out["monotonic"] = d.is_monotonic
    return out


def metrics(req):
    return _groups(req.resource_metrics, "scope_metrics", "metrics", metric)


# ---------------------------------------------------------------- expected
class Unencodable(Exception):
    pass


def x_value(v, allow_none=False):
    if v is None:
        if allow_none:
            return ("none",)
        raise Unencodable
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, str):
        try:
            v.encode()
        except UnicodeEncodeError:
            raise Unencodable from None
        return ("s", str(v))
    if isinstance(v, int):
        if not -(2**63) <= v < 2**63:
            raise Unencodable
        return ("i", v)
    if isinstance(v, float):
        return flt(v)
    if isinstance(v, bytes):
        return ("y", v)
    if isinstance(v, (list, tuple)):
        return ("array", tuple(x_value(e, allow_none) for e in v))
    return ("map", {str(k): x_value(e, allow_none) for k, e in v.items()})


def x_attributes(attrs):
    out = {}
    for k, v in (attrs or {}).items():
        try:
            k.encode()
            out[k] = x_value(v)
        except (Unencodable, UnicodeEncodeError):
            pass
    return out


def x_scope(s):
    return ("", "", "", freeze({})) if s is None else (s.name or "", s.version or "", s.schema_url or "", freeze(x_attributes(s.attributes)))


def x_resource(r):
    return (freeze(x_attributes(r.attributes)), r.schema_url or "")


def x_tid(i, size=16):
    return "" if not i else i.to_bytes(size, "big").hex()


def x_state(ts):
    return "" if ts is None else ",".join(f"{k}={v}" for k, v in ts.items())


def _remote(ctx):
    return 0x100 | (0x200 if ctx is not None and ctx.is_remote else 0)


def x_span(s):
    c, p = s.get_span_context(), s.parent
    return {
        "trace_id": x_tid(c.trace_id), "span_id": x_tid(c.span_id, 8), "trace_state": x_state(c.trace_state), "parent": x_tid(p.span_id, 8) if p is not None else "", "name": s.name,
        "kind": {"INTERNAL": 1, "SERVER": 2, "CLIENT": 3, "PRODUCER": 4, "CONSUMER": 5}[s.kind.name], "start": s.start_time, "end": s.end_time, "attributes": x_attributes(s.attributes),
        "dropped": (s.dropped_attributes, s.dropped_events, s.dropped_links), "flags": _remote(p),
        "events": [(e.timestamp, e.name, x_attributes(e.attributes), e.dropped_attributes) for e in s.events],
        "links": [(x_tid(k.context.trace_id), x_tid(k.context.span_id, 8), x_state(k.context.trace_state), x_attributes(k.attributes), k.dropped_attributes, _remote(k.context)) for k in s.links],
        "status": ({"UNSET": 0, "OK": 1, "ERROR": 2}[s.status.status_code.name], s.status.description or "")}


def x_spans(batch):
    out = collections.OrderedDict()
    for s in batch:
        out.setdefault((x_resource(s.resource), x_scope(s.instrumentation_scope)), []).append(x_span(s))
    return out


def x_log(r):
    return {"time": r.timestamp or 0, "observed": r.observed_timestamp or 0, "severity": (r.severity_number.value if r.severity_number is not None else 0, r.severity_text or ""),
            "body": x_value(r.body, True), "attributes": x_attributes(r.attributes), "dropped": r.dropped_attributes, "flags": int(r.trace_flags or 0), "trace_id": x_tid(r.trace_id),
            "span_id": x_tid(r.span_id, 8)}


def x_logs(batch):
    out = collections.OrderedDict()
    for d in batch:
        out.setdefault((x_resource(d.log_record.resource), x_scope(d.instrumentation_scope)), []).append(x_log(d.log_record))
    return out


def x_exemplars(es):
    return [(x_attributes(e.filtered_attributes), num(e.value), e.time_unix_nano, x_tid(e.span_id, 8), x_tid(e.trace_id)) for e in es]


def x_metric(m):
    d = m.data
    kind = {"Sum": "sum", "Gauge": "gauge", "Histogram": "histogram", "ExponentialHistogram": "exponential_histogram"}[type(d).__name__]
    out = {"name": m.name, "description": m.description or "", "unit": m.unit or ""}
    points = []
    for p in d.data_points:
        one = {"attributes": x_attributes(p.attributes), "start": p.start_time_unix_nano or 0, "time": p.time_unix_nano, "exemplars": x_exemplars(p.exemplars)}
        if kind in ("sum", "gauge"):
            one["value"] = num(p.value)
        else:
            one.update(count=p.count, sum=flt(p.sum), min=flt(p.min), max=flt(p.max))
            if kind == "histogram":
                one.update(buckets=list(p.bucket_counts), bounds=[flt(b) for b in p.explicit_bounds])
            else:
                one.update(scale=p.scale, zero=p.zero_count, **{w: (b.offset if b.bucket_counts else None, list(b.bucket_counts)) for w, b in (("positive", p.positive), ("negative", p.negative))})
        points.append(one)
    if not points:
        return out
    out.update(kind=kind, points=points)
    if kind != "gauge":
        out["temporality"] = d.aggregation_temporality.name.lower()
    if kind == "sum":
        out["monotonic"] = d.is_monotonic
    return out


def x_metrics(data):
    out = collections.OrderedDict()
    for rm in data.resource_metrics:
        for sm in rm.scope_metrics:
            out.setdefault((x_resource(rm.resource), x_scope(sm.scope)), []).extend(x_metric(m) for m in sm.metrics)
    return out


def compare(rec, got, want, what):
    """got: decoded (groups, keys); want: {(resource, scope): items}."""
    groups, keys = got
    groups = {k: v for k, v in groups.items() if v or k in want}
    for k, items in want.items():
        if not items and k not in groups:
            continue
        rec.check(k in groups, f"{what}: nothing under the resource and scope {k}; there are {list(groups)}")
        rec.eq(len(groups[k]), len(items), f"{what}: number of items under {k}")
        for i, (g, w) in enumerate(zip(groups[k], items)):
            for f in w:
                rec.eq(g.get(f), w[f], f"{what}: {f} of item {i}")
            rec.eq(sorted(g), sorted(w), f"{what}: fields of item {i}")
    extra = [k for k in groups if k not in want]
    rec.check(not extra, f"{what}: items under a resource and scope they do not belong to: {extra}")
