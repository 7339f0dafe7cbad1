"""E03: log records encoded to OTLP and decoded again are the records that were encoded."""
import logging

from hypothesis import strategies as st

from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest
from opentelemetry.sdk._logs import LogData, LoggerProvider, LoggingHandler, LogRecordProcessor
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from vlib import otlp, telemetry as tm
from vlib.core import sub
from vlib.gen import attr_key, finite, i64, pick, utext, weighted

LOGGING = True
RULE = ("batches of log records over several resources and scopes, every optional field present or absent, bodies of any nesting of maps, lists, null, bytes and scalars, limits that drop attributes, records made "
        "by the standard-library logging handler; the decoded bytes are compared with the public fields of the records. non-trivial: two groups, a nested body, an absent field, a dropped attribute or an "
        "attribute left out.")
TECHNIQUE = "property-based testing: round trip through the serialised request against an independent reader (Hypothesis)"
ASSUMPTIONS = ["bodies and severity texts hold what OTLP can hold (valid Unicode, 64-bit integers); absent and zero trace ids, span ids, times and severities are the same in OTLP"]

NAMES = ["groups", "nested", "absent", "dropped", "left out"]


def encode(rec, batch):
    req = encode_logs(batch)
    req = ExportLogsServiceRequest.FromString(req.SerializeToString())
    got, want = otlp.logs(req), otlp.x_logs(batch)
    otlp.compare(rec, got, want, "decoded")
    rec.check(len(got[1]) == len(want), f"{len(got[1])} groups encoded of {len(want)}")
    records = [d.log_record for d in batch]
    facts = [len(want) > 1, any(isinstance(r.body, (dict, list, tuple)) for r in records),
             any(x is None for r in records for x in (r.timestamp, r.observed_timestamp, r.trace_id, r.span_id, r.trace_flags, r.severity_number, r.severity_text, r.body)),
             any(r.dropped_attributes for r in records), any(len(otlp.x_attributes(r.attributes)) < len(r.attributes or {}) for r in records)]
    rec.nontrivial(any(facts))
    rec.label(*[n for n, f in zip(NAMES, facts) if f])


@sub("records", tm.log_batch, quick=800, thorough=50000)
def records(rec, case):
    resources, scopes, recs = case
    resources, scopes = tm.dedupe(resources, scopes)
    encode(rec, [d for d, _i, _j in tm.build_logs((resources, scopes, recs))])


odd = weighted((3, st.one_of(i64, utext, finite, st.booleans())), (1, st.integers(2**63, 2**70)), (1, st.integers(-(2**70), -(2**63) - 1)), (1, pick("\ud800", "a\udcffb")), (1, st.tuples(st.just(1), st.just(2**64))))


@st.composite
def odd_batch(draw):
    resources, scopes, recs = draw(tm.log_batch)
    where = st.dictionaries(attr_key, odd, max_size=3)
    return ([(draw(where), s) for _a, s in resources], [(n, v, s, draw(where)) for n, v, s, _a in scopes], [dict(r, attributes=draw(where)) for r in recs])


@sub("attributes that cannot be encoded", odd_batch(), quick=300, thorough=20000)
def unencodable(rec, case):
    resources, scopes, recs = case
    resources, scopes = tm.dedupe(resources, scopes)
    encode(rec, [d for d, _i, _j in tm.build_logs((resources, scopes, recs))])


@sub("separate equal resources and scopes", tm.log_batch, quick=300, thorough=20000)
def separate(rec, case):
    """Every record has its own resource and scope object; equal ones end up in one group; a scope may be missing."""
    resources, scopes, recs = case
    resources, scopes = tm.dedupe(resources, scopes)
    scopes = [s for s in scopes if otlp.x_scope(InstrumentationScope(*s)) != otlp.x_scope(None)]
    batch = []
    for r in recs:
        res = Resource(*resources[r["at"][0] % len(resources)])
        k = r["at"][1] % (len(scopes) + 1)
        batch.append(LogData(tm.build_record(r, res), InstrumentationScope(*scopes[k]) if k < len(scopes) else None))
    encode(rec, batch)
    rec.nontrivial(len(batch) > 1)


class Keep(LogRecordProcessor):
    def __init__(self):
        self.got = []

    def emit(self, log_data):
        self.got.append(log_data)

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=30000):
        return True


OBJECTS = {"error": ValueError("went wrong"), "set": {1}, "object": object(), "type": int, "complex": 1j}
message = weighted((3, utext.filter(lambda s: "%" not in s)), (2, tm.any_value(True)), (1, st.sampled_from(sorted(OBJECTS)).map(lambda k: {"object": k})))
entry = st.tuples(pick("one", "two.three", "é"), st.integers(1, 60), message, st.dictionaries(pick("user", "k1", "é", "http.method"), st.one_of(i64, utext, st.booleans(), finite), max_size=2), st.booleans())


@sub("logging handler", st.tuples(tm.resource, st.lists(entry, max_size=4)), quick=200, thorough=15000)
def handler(rec, case):
    (attrs, schema), entries = case
    lp = LoggerProvider(resource=Resource(attrs, schema), shutdown_on_exit=False)
    keep = Keep()
    lp.add_log_record_processor(keep)
    h = LoggingHandler(level=0, logger_provider=lp)
    for name, level, msg, extra, exc in entries:
        lg = logging.Logger(name)
        lg.addHandler(h)
        try:
            raise ValueError("boom")
        except ValueError:
            lg.log(level, OBJECTS[msg["object"]] if isinstance(msg, dict) and msg.get("object") in list(OBJECTS) else msg, extra=extra, exc_info=exc)
    rec.eq(len(keep.got), len(entries), "records captured")
    encode(rec, keep.got)
