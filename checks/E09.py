"""E09: OpenCensus export carries every span faithfully."""
from concurrent import futures

import grpc
from hypothesis import strategies as st
from opencensus.proto.agent.trace.v1 import trace_service_pb2, trace_service_pb2_grpc
from opencensus.proto.trace.v1 import trace_pb2

from opentelemetry.exporter.opencensus.trace_exporter import OpenCensusSpanExporter
from vlib import telemetry as tm
from vlib.core import sub
from vlib.gen import pick, utext, weighted

RULE = ("batches of finished spans made by the SDK (several resources and scopes, events, links to parents and others, trace states, every status and kind) exported through a stand-in for the collector's client that fails "
        "at the call, during the stream or not at all, and through a real loopback server; every request is serialised, parsed again and compared with the spans. non-trivial: an event, a link, a trace state or a failure.")
TECHNIQUE = "property-based testing: round trip through the serialised request against the spans, with injected client faults (Hypothesis)"
ASSUMPTIONS = ["text is valid Unicode, integers fit 64 bits, service names are text", "the code of a status is the number of the OpenTelemetry status, as the existing tests demand; kinds OpenCensus does not have are unspecified",
               "lists are exported as their text"]

services = weighted((1, st.none()), (3, weighted((3, pick("shop", "a b", "é")), (1, utext.filter(bool)))))
KIND = {"SERVER": trace_pb2.Span.SERVER, "CLIENT": trace_pb2.Span.CLIENT}


class RpcError(grpc.RpcError):
    def code(self):
        return grpc.StatusCode.UNAVAILABLE


class Client:
    """Stand-in for the stub: behaves like a stream and may fail anywhere."""

    def __init__(self):
        self.fault, self.seen = None, []

    def Export(self, requests, *a, **kw):
        if self.fault == "call":
            raise RpcError()
        return self.stream(requests)

    def stream(self, requests):
        if self.fault == "start":
            raise RpcError()
        for r in requests:
            self.seen.append(trace_service_pb2.ExportTraceServiceRequest.FromString(r.SerializeToString()))
            yield trace_service_pb2.ExportTraceServiceResponse()
        if self.fault == "end":
            raise RpcError()


def attributes(got):
    out = {}
    for k, v in got.attribute_map.items():
        which = v.WhichOneof("value")
        out[k] = (which, v.string_value.value if which == "string_value" else getattr(v, which))
    return out


def x_attributes(attrs):
    names = {bool: "bool_value", int: "int_value", float: "double_value", str: "string_value"}
    return {k: (names.get(type(v), "string_value"), v if type(v) in names else str(v)) for k, v in (attrs or {}).items()}


def same(a):
    return {k: (w, repr(v)) for k, (w, v) in a.items()}


def ns(t):
    return t.seconds * 10**9 + t.nanos


def check_spans(rec, spans, got):
    rec.eq(len(got), len(spans), "spans in the request")
    for s, g in zip(spans, got):
        what = "span %s: " % g.span_id.hex()
        rec.eq(g.trace_id, s.context.trace_id.to_bytes(16, "big"), what + "trace id")
        rec.eq(g.span_id, s.context.span_id.to_bytes(8, "big"), what + "id")
        rec.eq(int.from_bytes(g.parent_span_id, "big"), s.parent.span_id if s.parent else 0, what + "parent")
        rec.eq(g.name.value, s.name, what + "name")
        rec.eq(g.kind, KIND.get(s.kind.name, 0), what + "kind")
        rec.eq(ns(g.start_time), s.start_time, what + "start")
        rec.eq(ns(g.end_time), s.end_time, what + "end")
        rec.eq((g.status.code, g.status.message), (s.status.status_code.value, s.status.description or ""), what + "status")
        rec.eq([(e.key, e.value) for e in g.tracestate.entries], list(s.context.trace_state.items()), what + "trace state")
        rec.eq(same(attributes(g.attributes)), same(x_attributes(s.attributes)), what + "attributes")
        rec.eq(len(g.time_events.time_event), len(s.events), what + "events")
        for e, w in zip(g.time_events.time_event, s.events):
            rec.eq((ns(e.time), e.annotation.description.value), (w.timestamp, w.name), what + "event")
            rec.eq(same(attributes(e.annotation.attributes)), same(x_attributes(w.attributes)), what + "event attributes")
        rec.eq(len(g.links.link), len(s.links), what + "links")
        for k, w in zip(g.links.link, s.links):
            rec.eq((k.trace_id, k.span_id), (w.context.trace_id.to_bytes(16, "big"), w.context.span_id.to_bytes(8, "big")), what + "link")
            rec.eq(same(attributes(k.attributes)), same(x_attributes(w.attributes)), what + "link attributes")
            up = s.parent is not None and (w.context.trace_id, w.context.span_id) == (s.parent.trace_id, s.parent.span_id)
            rec.eq(k.type, trace_pb2.Span.Link.PARENT_LINKED_SPAN if up else trace_pb2.Span.Link.TYPE_UNSPECIFIED, what + "type of the link")


def prepare(case, service, up):
    """Spans of one service; some of their links are made to point to the parent or to half of its identity."""
    resources, scopes, specs, lims = case
    resources = [({**{k: v for k, v in a.items() if k != "service.name"}, **({} if service is None else {"service.name": service})}, u) for a, u in resources]
    out = []
    for i, sp in enumerate(specs):
        sp = dict(sp, links=[list(k) for k in sp["links"]])
        for j, k in enumerate(sp["links"]):
            how = up[(i + j) % len(up)]
            if how and sp["parent"]:
                c = list(k[0])
                c[0] = sp["trace_id"] if how != "span" else c[0]
                c[1] = sp["parent"][0] if how != "trace" else c[1]
                k[0] = tuple(c)
        out.append(sp)
    return tm.build_spans((resources, scopes, out, lims))


ups = st.lists(pick(None, "parent", "parent", "span", "trace"), min_size=1, max_size=4)
op = st.tuples(tm.span_batch(4), services, ups, weighted((3, st.none()), (1, pick("call", "start", "end"))))


@sub("exports", st.tuples(st.lists(op, min_size=1, max_size=3), weighted((1, st.none()), (1, pick("h1", "é")))), quick=2500, thorough=80000)
def exports(rec, case):
    ops, host = case
    client = Client()
    exp = OpenCensusSpanExporter(client=client, host_name=host)
    for data, service, up, client.fault in ops:
        spans = prepare(data, service, up)
        client.seen = []
        rec.eq(exp.export(spans).name, "FAILURE" if client.fault else "SUCCESS", "result with a client that fails at %s" % client.fault)
        rec.nontrivial(client.fault or any(s.events or s.links or s.context.trace_state for s in spans))
        rec.label("fails" if client.fault else "works")
        rec.check(exp.force_flush(), "a flush of an exporter that keeps nothing failed")
        if client.fault in ("call", "start"):
            continue
        rec.check(len(client.seen) == 1 or not spans, "%d requests" % len(client.seen))
        check_spans(rec, spans, [s for r in client.seen for s in r.spans])
        for r in client.seen:
            if service is not None and spans:
                rec.eq(r.node.service_info.name, service, "service name of the node")
            if host is not None:
                rec.eq(r.node.identifier.host_name, host, "host name of the node")


class Collector(trace_service_pb2_grpc.TraceServiceServicer):
    def __init__(self):
        self.seen, self.fail = [], False

    def Export(self, requests, context):
        for r in requests:
            self.seen.append(r)
            yield trace_service_pb2.ExportTraceServiceResponse()
        if self.fail:
            context.abort(grpc.StatusCode.UNAVAILABLE, "because")


REAL = {}


@sub("real server", st.tuples(tm.span_batch(3), services, ups, st.booleans()), quick=40, thorough=800, rule="the same through gRPC and a loopback server. non-trivial: the batch has spans")
def real(rec, case):
    data, service, up, fail = case
    if not REAL:
        server = grpc.server(futures.ThreadPoolExecutor(2))
        REAL["collector"] = Collector()
        trace_service_pb2_grpc.add_TraceServiceServicer_to_server(REAL["collector"], server)
        port = server.add_insecure_port("127.0.0.1:0")
        server.start()
        REAL["server"], REAL["exporter"] = server, OpenCensusSpanExporter(endpoint="127.0.0.1:%d" % port)
    c = REAL["collector"]
    c.seen, c.fail = [], fail
    spans = prepare(data, service, up)
    rec.eq(REAL["exporter"].export(spans).name, "FAILURE" if fail else "SUCCESS", "result")
    check_spans(rec, spans, [s for r in c.seen for s in r.spans])
    rec.nontrivial(spans)
