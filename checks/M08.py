"""M08: collection intervals."""
from vlib.metrics import (ASYNC, CLASS, CLOCK, InMemoryMetricReader, KINDS, Observation, SYNC, Stream, akey, attr_sets, attrs_of, create, default_agg, flatten, metric_for, provider, record, temporalities, temporality, vw)
from hypothesis import strategies as st

from vlib.core import sub
from vlib.gen import pick, weighted

RULE = ("histories of measurements on one instrument of every kind and of collections by one to three readers under a controlled clock with arbitrary steps (none to days); the intervals of each stream are followed over the "
        "collections. non-trivial: a stream was reported at least three times by one reader, with a collection in between that did not report it or another reader's.")
ASSUMPTIONS = ["the clock does not go backwards", "gauges have no start time", "single-threaded: concurrent first measurements are judged in M11"]

tick = weighted((3, st.just(0)), (3, st.integers(1, 10**6)), (1, st.integers(0, 10**14)))
case_s = st.fixed_dictionaries({
    "insts": st.lists(st.tuples(pick(*KINDS), pick(None, None, "exp", "hist", "sum")), min_size=1, max_size=3), "step": pick(0, 1, 1, 7), "readers": st.lists(temporality, min_size=1, max_size=3),
    "ops": st.lists(st.tuples(weighted((5, st.tuples(st.just("rec"), st.integers(0, 2), st.integers(0, 9), weighted((6, pick(2, 3)), (1, attr_sets)))), (3, st.tuples(st.just("collect"), weighted((2, st.just(0)), (1, st.integers(0, 2)))))), tick), min_size=3, max_size=35),
})


@sub("intervals", case_s, quick=2500)
def intervals(rec, case):
    CLOCK.reset(case["step"])
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["readers"]]
    agg = {"exp": vw.ExponentialBucketHistogramAggregation(), "hist": vw.ExplicitBucketHistogramAggregation(), "sum": vw.SumAggregation()}
    views = [vw.View(instrument_name="i%d" % i, aggregation=agg[a]) for i, (k, a) in enumerate(case["insts"]) if a and k not in ASYNC]
    mp = provider(readers, views)
    meter = mp.get_meter("m")
    queue = {}
    insts = []
    for i, (kind, _a) in enumerate(case["insts"]):
        queue[i] = []

        def callback(options, q=queue[i]):
            out = [Observation(v, attrs_of(a)) for v, a in q]
            return out

        insts.append(create(meter, kind, "i%d" % i, callbacks=[callback]))
    created = CLOCK.now
    streams = {}        # (reader, instrument, attributes) -> list of (start, time)
    first = {}          # (instrument, attributes) -> clock after the first measurement
    last = {}           # reader -> bracket of its previous collection
    skipped = set()
    rich = False

    def collect(r):
        nonlocal rich
        lo = CLOCK.now
        flat = flatten(rec, readers[r].get_metrics_data())
        hi = CLOCK.now
        times = {p.time_unix_nano for _r, _s, m in flat for p in m.data.data_points}
        rec.check(len(times) <= 1, "points of one collection have different times %s", sorted(times))
        seen = set()
        for _r, _s, m in flat:
            i = int(m.name[1:])
            kind, a = case["insts"][i]
            temp = getattr(m.data, "aggregation_temporality", None)
            for p in m.data.data_points:
                k = (r, i, akey(p.attributes))
                seen.add(k)
                hist = streams.setdefault(k, [])
                start, t = p.start_time_unix_nano, p.time_unix_nano
                what = "reader %d %s %s" % (r, kind, dict(k[2]))
                rec.check(lo <= t <= hi, "%s: time %d outside its collection %d..%d", what, t, lo, hi)
                if hist:
                    rec.check(t >= hist[-1][1], "%s: time went back from %d to %d", what, hist[-1][1], t)
                if temp is None:
                    rec.check(not start, "%s: a gauge point starts at %s", what, start)
                else:
                    rec.check(start is not None and start <= t, "%s: starts at %s, after its time %d", what, start, t)
                    begin = first[i, k[2]] if kind in SYNC else t
                    if not hist:
                        rec.check(created <= start, "%s: starts at %d, before the provider was created at %d", what, start, created)
                    if temp == 2:
                        rec.check(not hist or start == hist[0][0], "%s: cumulative start moved from %s to %s", what, hist and hist[0][0], start)
                        rec.check(not start > begin, "%s: cumulative starts at %d, after the first measurement at %d", what, start, begin)
                    elif hist:
                        rec.check(start >= hist[-1][1], "%s: delta interval starts at %d, before the end of the previous one at %d", what, start, hist[-1][1])
                        if kind in ASYNC:
                            rec.check(start == hist[-1][1], "%s: delta interval starts at %d, the previous one ended at %d", what, start, hist[-1][1])
                        else:
                            plo, phi = last[r]
                            rec.check(plo <= start <= phi, "%s: delta interval starts at %d, the previous collection was at %d..%d", what, start, plo, phi)
                    else:
                        rec.check(not start > begin, "%s: delta starts at %d, after the first measurement at %d", what, start, begin)
                hist.append((start, t))
                if len(hist) >= 3 and k in skipped:
                    rich = True
        for k in streams:
            if k not in seen:
                skipped.add(k)
        last[r] = (lo, hi)

    for op, dt in case["ops"]:
        CLOCK.tick(dt)
        if op[0] == "rec":
            _, i, v, a = op
            i %= len(insts)
            kind = case["insts"][i][0]
            if kind in ASYNC:
                if len(queue[i]) > 1:
                    queue[i].clear()
                queue[i].append((v, a))
            else:
                record(kind, insts[i], v, attrs_of(a))
                first.setdefault((i, akey(attrs_of(a))), CLOCK.now)
        else:
            collect(op[1] % len(readers))
    for r in range(len(readers)):
        CLOCK.tick(1)
        collect(r)
    rec.nontrivial(rich)
