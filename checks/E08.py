"""E08: Zipkin exports carry every span faithfully."""
import json
import os

import requests
from hypothesis import strategies as st

from opentelemetry.exporter.zipkin.encoder import Protocol
from opentelemetry.exporter.zipkin.json import ZipkinExporter as JsonExporter
from opentelemetry.exporter.zipkin.proto.http import ZipkinExporter as ProtoExporter
from opentelemetry.exporter.zipkin.proto.http.v2.gen.zipkin_pb2 import ListOfSpans
from vlib import telemetry as tm
from vlib.core import sub
from vlib.gen import attr_key, attr_value, finite, i64, pick, utext, weighted

RULE = ("batches of finished spans made by the SDK (several resources and scopes, events, dropped counts, every status and kind) exported in the three encodings under every kind of tag length against a stand-in for the "
        "HTTP transport, whose requests are decoded independently and compared with the spans; statuses of the server, settings and shutdowns. non-trivial: a value is cut, an event or a dropped count is there, or the server refuses.")
TECHNIQUE = "property-based testing: differential decoding of the payloads against the spans, with injected server faults (Hypothesis)"
ASSUMPTIONS = ["text is valid Unicode, and service names are text", "a resource attribute or a tag of the exporter may replace a span attribute of the same name", "statuses other than 200 and 202 below 400 are not claimed",
               "a connection error may be raised or reported as a failure", "no list survives a limit of one character", "only the values of attributes are cut for certain; cutting others to the length is allowed in v1"]

KINDS = ["INTERNAL", "SERVER", "CLIENT", "PRODUCER", "CONSUMER"]
ENCODINGS = ["v1", "v2", "proto"]
ID_TAGS = {"otel.library.name", "otel.library.version", "otel.scope.name", "otel.scope.version", "otel.status_code", "error", "otel.dropped_attributes_count", "otel.dropped_events_count", "otel.dropped_links_count"}


class Server:
    def __init__(self):
        self.status, self.seen = 202, []

    def __enter__(self):
        self.real = requests.adapters.HTTPAdapter.send

        def send(adapter, request, stream=False, timeout=None, **kw):
            self.seen.append({"url": request.url, "headers": {k.lower(): v for k, v in request.headers.items()}, "body": request.body or b"", "timeout": timeout, "method": request.method})
            if self.status == "down":
                raise requests.exceptions.ConnectionError("refused")
            r = requests.Response()
            r.status_code, r.reason, r._content, r.request, r.url = self.status, "because", b"text", request, request.url
            return r
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self.real


def usec(ns):
    return ns // 1000 + (1 if ns % 1000 >= 500 else 0)


# --- decoding ---------------------------------------------------------------------------------
def endpoint_json(e):
    return {"name": e["serviceName"], "ipv4": e.get("ipv4"), "ipv6": e.get("ipv6"), "port": e.get("port")}


def decode_json(rec, body, version):
    out = []
    for s in json.loads(body):
        d = {"trace_id": s["traceId"], "id": s["id"], "parent": s.get("parentId"), "name": s["name"], "timestamp": s["timestamp"], "duration": s["duration"], "endpoints": []}
        d["annotations"] = [(a["timestamp"], a["value"]) for a in s.get("annotations", [])]
        if version == "v1":
            d["endpoints"] += [endpoint_json(a["endpoint"]) for a in s.get("annotations", []) + s.get("binaryAnnotations", [])]
            names = [b["key"] for b in s.get("binaryAnnotations", [])]
            rec.check(len(set(names)) == len(names), "tags %s repeat", names)
            d["tags"] = {b["key"]: b["value"] for b in s.get("binaryAnnotations", [])}
        else:
            d["kind"] = s.get("kind")
            d["endpoints"].append(endpoint_json(s["localEndpoint"]))
            d["tags"] = s.get("tags", {})
        for k in ("timestamp", "duration"):
            rec.check(type(d[k]) is int, "%s %r is no integer", k, d[k])
        for k, v in d["tags"].items():
            rec.check(type(v) is str, "tag %s has the value %r", k, v)
        out.append(d)
    return out


def decode_proto(rec, body):
    import ipaddress
    out = []
    for s in ListOfSpans.FromString(body).spans:
        e = s.local_endpoint
        out.append({"trace_id": s.trace_id.hex(), "id": s.id.hex(), "parent": s.parent_id.hex() or None, "name": s.name, "timestamp": s.timestamp, "duration": s.duration,
                    "kind": None if s.kind == 0 else type(s).Kind.Name(s.kind),
                    "endpoints": [{"name": e.service_name, "ipv4": str(ipaddress.ip_address(e.ipv4)) if e.ipv4 else None, "ipv6": str(ipaddress.ip_address(e.ipv6)) if e.ipv6 else None, "port": e.port or None}],
                    "annotations": [(a.timestamp, a.value) for a in s.annotations], "tags": dict(s.tags)})
    return out


# --- what must arrive -----------------------------------------------------------------------------
def plain(v):
    if isinstance(v, bool):
        return str(v).lower()
    return str(v)


def tag_fits(got, v, limit):
    """Whether a tag is the attribute value, cut to the limit."""
    if isinstance(v, (tuple, list)):
        if got is None:
            return limit == 1
        try:
            items = json.loads(got)
        except ValueError:
            return False
        want = [None if x is None else plain(x) for x in v]
        if not isinstance(items, list) or any(x is not None and type(x) is not str for x in items):
            return False
        if limit is None:
            return items == want
        longer = json.dumps(want[:len(items) + 1], separators=(",", ":"))
        return len(got) <= limit and items == want[:len(items)] and (items == want or len(longer) > limit)
    return got == (plain(v) if limit is None else plain(v)[:limit])


def check_spans(rec, spans, got, encoding, limit, service, node):
    rec.eq(len(got), len(spans), "spans in the payload")
    for s, g in zip(spans, got):
        c = s.context
        what = "span %s: " % g["id"]
        rec.eq(g["trace_id"], "%032x" % c.trace_id, what + "trace id")
        rec.eq(g["id"], "%016x" % c.span_id, what + "id")
        rec.eq(g["parent"], None if s.parent is None else "%016x" % s.parent.span_id, what + "parent")
        rec.eq(g["name"], s.name, what + "name")
        rec.eq(g["timestamp"], usec(s.start_time), what + "timestamp")
        rec.eq(g["duration"], usec(s.end_time - s.start_time), what + "duration")
        if encoding != "v1":
            rec.eq(g["kind"], None if s.kind.name == "INTERNAL" else s.kind.name, what + "kind")
        for e in g["endpoints"]:
            if service is not None:
                rec.eq(e["name"], service, what + "service name")
            rec.eq({k: v for k, v in e.items() if k != "name"}, node, what + "endpoint")
        tags = dict(g["tags"])
        want = {}
        for k, v in [*s.attributes.items(), *s.resource.attributes.items()]:
            want.setdefault(k, []).append(v)
        own = {"otel.scope.name": s.instrumentation_scope.name, "otel.scope.version": s.instrumentation_scope.version or "", "otel.library.name": s.instrumentation_scope.name, "otel.library.version": s.instrumentation_scope.version or ""}
        if s.status.status_code.name != "UNSET":
            own["otel.status_code"] = s.status.status_code.name
        if s.status.status_code.name == "ERROR":
            own["error"] = s.status.description or ""
        for n in ("attributes", "events", "links"):
            if getattr(s, "dropped_" + n):
                own["otel.dropped_%s_count" % n] = str(getattr(s, "dropped_" + n))
        for k, v in own.items():
            x = tags.pop(k, None)
            rec.check(x == v or encoding == "v1" and limit is not None and x == v[:limit] or not v and x is None and k.endswith(".version"), "%stag %s is %r, expected %r", what, k, x, v)
            want.pop(k, None)
        for k, vs in want.items():
            x = tags.pop(k, None)
            rec.check(any(tag_fits(x, v, limit) for v in vs), "%stag %r is %r for the value %r (limit %s)", what, k, x, vs, limit)
        rec.eq(tags, {}, what + "more tags")
        rec.eq(len(g["annotations"]), len(s.events), what + "annotations")
        for (t, text), e in zip(g["annotations"], s.events):
            rec.eq(t, usec(e.timestamp), what + "time of the annotation")
            attrs = {k: list(v) if isinstance(v, tuple) else v[:limit] if isinstance(v, str) else v for k, v in e.attributes.items()}
            rec.check(repr_of(json.loads(text)) == repr_of({e.name: attrs}), "%sannotation %s of the event %s %s", what, text, e.name, attrs)


def repr_of(v):
    if isinstance(v, dict):
        return {k: repr_of(x) for k, x in v.items()}
    if isinstance(v, list):
        return [repr_of(x) for x in v]
    return (type(v).__name__, repr(v))


def exporter_of(encoding, **kw):
    if encoding == "proto":
        return ProtoExporter(**kw)
    return JsonExporter(version=Protocol.V1 if encoding == "v1" else Protocol.V2, **kw)


def decode(rec, encoding, seen):
    rec.eq(seen["method"], "POST", "method")
    rec.eq(seen["headers"].get("content-type"), "application/x-protobuf" if encoding == "proto" else "application/json", "content type")
    return decode_proto(rec, seen["body"]) if encoding == "proto" else decode_json(rec, seen["body"], encoding)


# --- spans ------------------------------------------------------------------------------------------
rich = st.text("ab\"\\\n\x00é€😀/", max_size=8)
rich_list = st.lists(rich, max_size=6)
values = weighted((3, attr_value), (1, rich), (2, rich_list), (1, st.lists(utext, max_size=8)), (1, st.lists(i64, max_size=12)), (1, st.text("v", min_size=100, max_size=140)), (1, st.lists(st.one_of(finite, st.just(float("nan"))), max_size=6)),
                  (1, st.lists(st.booleans(), max_size=30)), (1, st.lists(weighted((2, rich), (1, st.none())), max_size=6)))
attrs = st.dictionaries(weighted((6, attr_key), (1, st.sampled_from(sorted(ID_TAGS)))), values, max_size=4)
limits = weighted((3, st.none()), (2, st.integers(1, 12)), (2, st.integers(13, 60)), (1, pick(0, -1, 1, 2, 3, 127, 128, 129)))
services = weighted((1, st.none()), (3, weighted((3, pick("shop", "a b", "é")), (1, utext.filter(bool)))))


def batch(max_size):
    return tm.span_batch(max_size, attrs)


def with_service(case, service):
    resources, scopes, specs, lims = case
    resources = [({**{k: v for k, v in a.items() if k != "service.name"}, **({} if service is None else {"service.name": service})}, u) for a, u in resources]
    return resources, scopes, specs, lims


@sub("payload", st.tuples(st.sampled_from(ENCODINGS), batch(4), limits, services, st.fixed_dictionaries({"ipv4": weighted((2, st.none()), (1, pick("10.0.0.1", "255.1.2.3"))), "ipv6": weighted((2, st.none()), (1, pick("::1", "2001:db8::c001"))),
                                                                                                      "port": weighted((2, st.none()), (1, pick(1, 80, 65535)))})), quick=1500, thorough=80000)
def payload(rec, case):
    encoding, data, limit, service, node = case
    spans = tm.build_spans(with_service(data, service))
    with Server() as server:
        exp = exporter_of(encoding, max_tag_value_length=limit, local_node_ipv4=node["ipv4"], local_node_ipv6=node["ipv6"], local_node_port=node["port"])
        rec.eq(exp.export(spans).name, "SUCCESS", "result")
        rec.eq(len(server.seen), 1, "requests")
        check_spans(rec, spans, decode(rec, encoding, server.seen[0]), encoding, limit if limit and limit > 0 else None, service if spans else None, node)
    cut = limit and limit > 0 and any(len(str(v)) > limit for s in spans for v in s.attributes.values())
    rec.nontrivial(cut or any(s.events or s.dropped_attributes or s.dropped_events for s in spans))
    rec.label(encoding, "limit" if limit and limit > 0 else "no limit", *(["cut"] if cut else []))


# --- the server and the exporter's life -------------------------------------------------------------------
op = weighted((5, st.tuples(st.just("export"), batch(2), services, weighted((2, pick(200, 202)), (2, pick(400, 401, 403, 404, 405, 408, 413, 429, 500, 502, 503, 504)), (1, st.integers(400, 599)), (1, st.just("down"))))), (1, st.tuples(st.just("shutdown"))), (1, st.tuples(st.just("flush"))))


@sub("life", st.tuples(st.sampled_from(ENCODINGS), st.lists(op, min_size=1, max_size=5)), quick=500, thorough=20000,
     rule="exports with every answer of the server, flushes and shutdowns. non-trivial: a refusal or an export after shutdown")
def life(rec, case):
    encoding, ops = case
    down = False
    with Server() as server:
        exp = exporter_of(encoding)
        for o in ops:
            if o[0] == "flush":
                rec.check(exp.force_flush(), "a flush of an exporter that keeps nothing failed")
            elif o[0] == "shutdown":
                exp.shutdown()
                down = True
            else:
                _, data, service, server.status = o
                spans = tm.build_spans(with_service(data, service))
                server.seen = []
                try:
                    result = exp.export(spans).name
                except requests.exceptions.RequestException:
                    rec.check(server.status == "down" and not down, "export raised")
                    result = "FAILURE"
                rec.eq(result, "FAILURE" if down or server.status not in (200, 202) else "SUCCESS", "result of an export answered by %s, %s shutdown" % (server.status, "after" if down else "before"))
                rec.eq(len(server.seen), 0 if down else 1, "requests")
                if not down:
                    check_spans(rec, spans, decode(rec, encoding, server.seen[0]), encoding, None, service if spans else None, {"ipv4": None, "ipv6": None, "port": None})
                rec.nontrivial(result == "FAILURE")
                rec.label(result, "down" if down else "up")


# --- settings --------------------------------------------------------------------------------------------------
urls = pick("http://one:9411/api/v2/spans", "https://two/x", "http://three:1/")
settings = st.fixed_dictionaries({"encoding": st.sampled_from(ENCODINGS), "endpoint": weighted((1, st.none()), (1, urls)), "env_endpoint": weighted((1, st.none()), (1, urls)), "timeout": weighted((1, st.none()), (1, st.integers(1, 60))),
                                  "env_timeout": weighted((1, st.none()), (1, st.integers(1, 60))), "session": st.booleans()})


@sub("settings", settings, quick=300, thorough=3000, rule="arguments before variables before defaults. non-trivial: two sources for one setting")
def configured(rec, case):
    env = {"OTEL_EXPORTER_ZIPKIN_ENDPOINT": case["env_endpoint"], "OTEL_EXPORTER_ZIPKIN_TIMEOUT": case["env_timeout"]}
    env = {k: str(v) for k, v in env.items() if v is not None}
    os.environ.update(env)
    try:
        kw = {k: case[k] for k in ("endpoint", "timeout") if case[k] is not None}
        if case["session"]:
            kw["session"] = requests.Session()
            kw["session"].headers["x-mine"] = "1"
        with Server() as server:
            exp = exporter_of(case["encoding"], **kw)
            exp.export([])
    finally:
        for k in env:
            del os.environ[k]
    s = server.seen[0]
    rec.eq(s["url"], case["endpoint"] or case["env_endpoint"] or "http://localhost:9411/api/v2/spans", "address")
    rec.eq(float(s["timeout"]), float(case["timeout"] or case["env_timeout"] or 10), "timeout")
    rec.eq(s["headers"].get("x-mine"), "1" if case["session"] else None, "header of the session")
    rec.eq(decode(rec, case["encoding"], s), [], "spans")
    rec.nontrivial(case["endpoint"] and case["env_endpoint"] or case["timeout"] and case["env_timeout"])
