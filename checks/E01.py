"""E01: spans encoded to OTLP and decoded again are the spans that were encoded."""
from hypothesis import strategies as st

from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import Event, ReadableSpan
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.trace import Link, Status
from vlib import otlp, telemetry as tm
from vlib.core import sub
from vlib.gen import attr_key, attributes, attr_value, pick, weighted
from vlib.spans import CODES, KINDS, ctx_of, span_ctx

RULE = ("batches of finished spans over several resources and scopes (equal ones built separately included), made by the SDK under small limits or directly, with parents, trace states, events, links, every "
        "status and kind, attribute values of every type and some that protobuf cannot hold; the decoded bytes are compared with the public properties of the spans. non-trivial: a batch with two groups, "
        "an event, a link, a dropped count, a remote parent or an attribute left out.")
TECHNIQUE = "property-based testing: round trip through the serialised request against an independent reader (Hypothesis)"
ASSUMPTIONS = ["names, descriptions and schema URLs are valid Unicode; resources and scopes that compare equal in Python (1 and True) are one group; the order of the groups is not claimed"]

# values no OTLP attribute can hold, next to clean ones
odd = weighted((4, attr_value), (1, st.integers(2**63, 2**70)), (1, st.integers(-(2**70), -(2**63) - 1)), (1, pick("\ud800", "a\udcffb")), (1, st.tuples(st.just(1), st.just(2**64))),
               (1, st.tuples(st.just("ok"), st.just("\ud83d"))))
odd_attributes = weighted((2, attributes), (1, st.dictionaries(attr_key, odd, max_size=4)))


def encode(rec, spans):
    req = encode_spans(spans)
    req = ExportTraceServiceRequest.FromString(req.SerializeToString())
    otlp.compare(rec, otlp.spans(req), otlp.x_spans(spans), "decoded")
    groups = otlp.x_spans(spans)
    rec.check(len(otlp.spans(req)[1]) == len(groups), f"{len(otlp.spans(req)[1])} groups encoded of {len(groups)}")
    gaps = [s for s in spans if any(len(otlp.x_attributes(a)) < len(a or {}) for a in [s.attributes, s.resource.attributes, *(e.attributes for e in s.events), *(k.attributes for k in s.links)])]
    many = len(groups) > 1
    rec.nontrivial(many or bool(gaps) or any(s.events or s.links or s.dropped_attributes or s.dropped_events or s.dropped_links or (s.parent and s.parent.is_remote) for s in spans))
    rec.label("groups" if many else "one group", *(["left out"] if gaps else []))
    if any(s.dropped_attributes or s.dropped_events or s.dropped_links for s in spans):
        rec.label("dropped")


@sub("sdk spans", tm.span_batch(6), quick=500, thorough=40000)
def sdk_spans(rec, case):
    resources, scopes, specs, lims = case
    resources, scopes = tm.dedupe(resources, scopes)
    encode(rec, tm.build_spans((resources, scopes, specs, lims)))


@sub("attributes that cannot be encoded", tm.span_batch(4, odd_attributes), quick=250, thorough=20000)
def unencodable(rec, case):
    resources, scopes, specs, lims = case
    resources, scopes = tm.dedupe(resources, scopes)
    encode(rec, tm.build_spans((resources, scopes, specs, lims)))


event = st.tuples(tm.name, odd_attributes, tm.times_ns)
link = st.tuples(span_ctx, odd_attributes)
direct_span = st.tuples(st.integers(0, 3), st.integers(0, 3), tm.name, span_ctx, weighted((1, st.none()), (2, span_ctx)), odd_attributes, st.lists(event, max_size=2), st.lists(link, max_size=2),
                        st.integers(0, 4), tm.status, tm.times_ns, tm.duration)
pools = st.tuples(st.lists(st.tuples(odd_attributes, pick("", "", "http://s/1", "http://s/2")), min_size=1, max_size=3),
                  st.lists(weighted((1, st.none()), (4, st.tuples(pick("a", "b", "é", ""), pick(None, "", "1"), pick(None, "", "http://s/1"), weighted((2, st.just({})), (2, odd_attributes))))), min_size=1, max_size=4))


def read_only(spec, resources, scopes):
    """A span built directly; equal resources and scopes are separate objects."""
    i, j, name, ctx, parent, attrs, events, links, kind, (code, desc), start, dur = spec
    sc = scopes[j % len(scopes)]
    return ReadableSpan(name, ctx_of(ctx), ctx_of(parent) if parent else None, Resource(*resources[i % len(resources)]), attrs, [Event(n, a, t) for n, a, t in events],
                        [Link(ctx_of(c), a) for c, a in links], KINDS[kind], None, Status(CODES[code], desc if code == 2 else None), start, start + dur, None if sc is None else InstrumentationScope(*sc))


@sub("spans built directly", st.tuples(pools, st.lists(direct_span, max_size=5)), quick=400, thorough=30000)
def direct(rec, case):
    (resources, scopes), specs = case
    named = [s for s in scopes if s is not None and otlp.x_scope(InstrumentationScope(*s)) != otlp.x_scope(None)]
    resources, named = tm.dedupe(resources, named)
    scopes = named + ([None] if len(named) < len(scopes) or not named else [])
    spans = [read_only(s, resources, scopes) for s in specs]
    encode(rec, spans)
    rec.nontrivial(len(spans) > 1)
