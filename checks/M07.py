"""M07: exemplars."""
from vlib.metrics import (ASYNC, ATTRS, CLOCK, InMemoryMetricReader, KINDS, Observation, SYNC, Stream, akey, attr_sets, attrs_of, create, flatten, metric_for, plain, poison, provider, record, sdk, temporalities, temporality, vw)
from hypothesis import strategies as st
import random

from opentelemetry import context as context_api
from opentelemetry import trace as trace_api

from vlib.core import sub
from vlib.gen import pick, span_ids, trace_ids, weighted

RULE = ("histories of measurements on every kind of instrument under every aggregation, view keys, reservoir (default, fixed size, aligned) and filter, in contexts current or passed along with a sampled span, an unsampled span, "
        "an invalid or no span; every exemplar of every collected point must be one measurement of that point and interval (matched by its time), with its value, its trace identity and exactly the filtered-out attributes, within "
        "the reservoir's size and its own bucket, and points with qualifying measurements have some. non-trivial: at least two exemplars of one stream with filtered attributes or trace ids after an earlier collection.")
ASSUMPTIONS = ["for measurements under a valid but unsampled span the ids may be given or absent", "the choice among measurements is random and not judged, except that a bucket with a qualifying measurement keeps one and that a fixed-size reservoir does not drop one while at least two places are free"]

ctx_s = st.tuples(weighted((2, st.just("none")), (1, st.just("empty")), (3, st.just("sampled")), (2, st.just("unsampled")), (1, st.just("invalid"))), trace_ids, span_ids, pick("current", "passed", "both"))
case_s = st.fixed_dictionaries({
    "kind": pick(*KINDS), "filter": weighted((3, st.just("on")), (3, st.just("trace")), (1, st.just("default")), (1, st.just("off"))),
    "agg": weighted((2, st.none()), (2, st.just(("hist", [0, 3, 10], True))), (1, st.just(("hist", [], True))), (1, st.just(("hist", None, True))), (2, st.tuples(st.just("exp"), pick(2, 3, 5, 40), st.just(20))), (1, st.just(("last",)))),
    "reservoir": weighted((3, st.none()), (1, pick(1, 2, 3, 10)), (1, st.just("plain"))),
    "keys": weighted((1, st.none()), (3, st.sets(pick("a", "b", "c", "l", "f"), max_size=2).map(sorted))),
    "temps": st.lists(temporality, min_size=1, max_size=2), "ambient": st.booleans(), "seed": st.integers(0, 2**32),
    "ops": st.lists(weighted((6, st.tuples(st.just("rec"), st.integers(-1, 12), attr_sets, ctx_s)), (1, st.tuples(st.just("collect"), st.integers(0, 1)))), max_size=25),
})


def span_context(c):
    if c[0] == "invalid":
        return trace_api.INVALID_SPAN_CONTEXT
    return trace_api.SpanContext(c[1], c[2], False, trace_api.TraceFlags(1 if c[0] == "sampled" else 0))


@sub("history", case_s, quick=2500)
def history(rec, case):
    CLOCK.reset()
    random.seed(case["seed"])
    kind, agg = case["kind"], case["agg"]
    if kind in ASYNC and agg and agg[0] in ("hist", "exp"):
        agg = None
    eff = agg or {"histogram": ("hist", None, True), "gauge": ("last",), "ogauge": ("last",)}.get(kind, ("sum",))
    size = {"sum": 1, "last": 1, "hist": None, "exp": None}[eff[0]]
    bounds = None
    factory = None
    res = case["reservoir"]
    if res is not None:
        n = 1 if res == "plain" else res
        if res == "plain":
            def factory(t):
                return sdk.SimpleFixedSizeExemplarReservoir
            size = min(20, eff[1]) if eff[0] == "exp" else 1
        else:
            def factory(t):
                return lambda **kw: sdk.SimpleFixedSizeExemplarReservoir(size=n)
            size = n
    elif eff[0] == "hist":
        bounds = eff[1] if eff[1] is not None else [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0]
        size = len(bounds) + 1
    elif eff[0] == "exp":
        size = min(20, eff[1])
    build = {"hist": lambda: vw.ExplicitBucketHistogramAggregation(agg[1]), "exp": lambda: vw.ExponentialBucketHistogramAggregation(agg[1], agg[2]), "last": lambda: vw.LastValueAggregation()}
    view = vw.View(instrument_name="n", attribute_keys=None if case["keys"] is None else set(case["keys"]), aggregation=build[agg[0]]() if agg else None, exemplar_reservoir_factory=factory)
    flt = {"on": sdk.AlwaysOnExemplarFilter(), "off": sdk.AlwaysOffExemplarFilter(), "trace": sdk.TraceBasedExemplarFilter(), "default": None}[case["filter"]]
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["temps"]]
    mp = provider(readers, [view], exemplar_filter=flt)
    queue = []
    log = [[] for _ in readers]     # per reader: measurements since its last collection

    def enter(c):
        """-> (context to pass or None, token, identity)"""
        passed, token = None, None
        ident = None
        cx = context_api.Context()
        if c[0] not in ("none", "empty"):
            cx = trace_api.set_span_in_context(trace_api.NonRecordingSpan(span_context(c)), cx)
            ident = span_context(c)
        if c[0] == "empty":
            token = context_api.attach(trace_api.set_span_in_context(trace_api.NonRecordingSpan(trace_api.SpanContext(0x77, 0x88, False, trace_api.TraceFlags(1)))))
            passed = cx
        elif c[3] == "current":
            token = context_api.attach(cx)
        else:
            if c[3] == "both":
                token = context_api.attach(trace_api.set_span_in_context(trace_api.NonRecordingSpan(trace_api.SpanContext(0x77, 0x88, False, trace_api.TraceFlags(1)))))
            passed = cx
            if c[0] == "none":
                if c[3] == "both":
                    passed = cx     # an explicit empty context
                else:
                    passed = None
        return passed, token, ident

    def leave(token):
        if token is not None:
            context_api.detach(token)

    def qualifies(ident):
        return case["filter"] == "on" or case["filter"] in ("trace", "default") and ident is not None and ident.is_valid and ident.trace_flags.sampled

    def callback(options):
        for v, a, c in queue:
            if c[0] == "empty":
                passed, ident = context_api.Context(), None
            elif c[0] == "none":
                passed, ident = None, ambient
            else:
                passed, token, ident = enter(c[:3] + ("passed",))
                leave(token)
            t0 = CLOCK.now
            yield Observation(v, attrs_of(a), passed)
            log[current[0]].append((t0, CLOCK.now, v, a, ident))
        queue.clear()

    current = [0]
    # the span that is current while callbacks are called
    ambient = trace_api.SpanContext(0x99, 0xAA, False, trace_api.TraceFlags(1)) if case["ambient"] else None
    ins = create(mp.get_meter("m"), kind, "n", callbacks=[callback])
    collected = rich = False

    def collect(r):
        nonlocal collected, rich
        current[0] = r
        token = context_api.attach(trace_api.set_span_in_context(trace_api.NonRecordingSpan(ambient))) if ambient else None
        flat = flatten(rec, readers[r].get_metrics_data())
        leave(token)
        m = metric_for(rec, flat, "n")
        recent, log[r] = log[r], []
        used = set()
        for p in (m.data.data_points if m else []):
            pk = akey(p.attributes)
            keys = case["keys"]
            mine = [e for e in recent if akey(plain(attrs_of(e[3])) if keys is None else {k: v for k, v in plain(attrs_of(e[3])).items() if k in keys}) == pk]
            what = "reader %d point %s" % (r, plain(p.attributes))
            ex = list(p.exemplars)
            rec.check(len(ex) <= size, "%s: %d exemplars, reservoir of %d", what, len(ex), size)
            good = [e for e in mine if qualifies(e[4])]
            rec.check(ex or not good, "%s: no exemplar of %d qualifying measurements", what, len(good))
            if bounds is None:
                rec.check(len(ex) >= min(len(good), size - 1), "%s: %d exemplars of %d qualifying measurements in a reservoir of %d", what, len(ex), len(good), size)
            slots = []
            for x in ex:
                hit = [e for e in mine if e[0] < x.time_unix_nano <= e[1]]
                rec.check(hit, "%s: exemplar %s was not measured into this point in this interval: %s", what, x, mine)
                e = hit[0]
                rec.check(e in good, "%s: exemplar %s of a measurement the filter %s excludes", what, x, case["filter"])
                rec.check(e[0] not in used, "%s: two exemplars of one measurement %s", what, x)
                used.add(e[0])
                rec.check(x.value == e[2] and type(x.value) is type(e[2]), "%s: exemplar %s of measurement %s", what, x, e[2])
                dropped = {k: v for k, v in plain(attrs_of(e[3])).items() if k not in p.attributes}
                rec.eq(plain(x.filtered_attributes), dropped, what + " exemplar attributes")
                ident = e[4]
                if ident is not None and ident.is_valid and ident.trace_flags.sampled:
                    rec.eq((x.trace_id, x.span_id), (ident.trace_id, ident.span_id), what + " exemplar trace identity")
                    if collected and dropped:
                        rich = True
                elif ident is not None and ident.is_valid:
                    rec.check((x.trace_id, x.span_id) in ((ident.trace_id, ident.span_id), (None, None)), "%s exemplar identity %s", what, x)
                else:
                    rec.check(not x.trace_id and not x.span_id, "%s: exemplar %s carries a trace identity although no span was current", what, x)
                if bounds is not None:
                    slots.append(next((i for i, b in enumerate(bounds) if x.value <= b), len(bounds)))
            if bounds is not None:
                rec.check(len(slots) == len(set(slots)), "%s: two exemplars in one bucket: %s", what, ex)
                want = {next((i for i, b in enumerate(bounds) if e[2] <= b), len(bounds)) for e in good}
                rec.eq(set(slots), want, what + " buckets with exemplars")
        collected = True

    for op in case["ops"]:
        if op[0] == "rec":
            _, v, a, c = op
            if kind in ASYNC:
                queue.append((v, a, c))
                continue
            passed, token, ident = enter(c)
            t0 = CLOCK.now
            attrs = attrs_of(a)
            try:
                record(kind, ins, v, attrs, passed)
            finally:
                leave(token)
            if v >= 0 or kind not in ("counter", "histogram"):
                for l in log:
                    l.append((t0, CLOCK.now, v, a, ident))
            if attrs is not None:
                attrs.clear()
                attrs["poison"] = 1
        else:
            collect(op[1] % len(readers))
    for r in range(len(readers)):
        collect(r)
        collect(r)
    rec.label(eff[0], case["filter"], "reservoir %s" % res)
    rec.nontrivial(rich)
