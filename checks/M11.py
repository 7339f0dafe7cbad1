"""M11: concurrent measurements and collections."""
from vlib import vsched

vsched.install()
from vlib.metrics import (CLOCK, InMemoryMetricReader, Observation, create, flatten, metric_for, provider, record, sdk, temporalities, vw)  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from vlib import concmake  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("one instrument (sum, explicit or exponential histogram, gauge), two or three threads measuring in several attribute sets while one or two threads collect from up to two readers, under a deterministic scheduler that may "
        "switch at every byte-code instruction of the code under test; no measurement may be lost or duplicated, cumulative totals never go back, and every single point must be consistent: buckets, count, sum, min, max and "
        "exemplars agree. non-trivial: at least two threads measured the same attribute set and at least three switches happened inside the code under test.")
ASSUMPTIONS = ["one reader is collected by one thread at a time or by two; both must be consistent", "gauges: every reported value is one that was set, the last collection reports the last of some order"]

op = st.tuples(pick(0, 0, 1), st.integers(0, 3))      # attribute set, value index
case_s = st.fixed_dictionaries({
    "kind": weighted((3, st.just("counter")), (1, st.just("updown")), (4, st.just("hist")), (3, st.just("exp")), (2, st.just("gauge"))),
    "readers": st.lists(pick("ccccccc", "ddddddd"), min_size=1, max_size=2), "filter": pick("on", "on", "off"),
    "threads": st.lists(st.lists(op, min_size=1, max_size=4), min_size=1, max_size=3),
    "collectors": st.lists(st.lists(st.integers(0, 1), min_size=1, max_size=3), min_size=1, max_size=2),
    "warm": st.lists(op, max_size=2), "schedule": vsched.schedules,
})
VALUES = [1, 10, 100, 1000]


@sub("measure", case_s, quick=2500, thorough=60000)
def measure(rec, case):
    CLOCK.reset()
    kind = case["kind"]
    views = [vw.View(instrument_name="n", attribute_keys={"k"}, aggregation={"hist": vw.ExplicitBucketHistogramAggregation([1, 10, 100]), "exp": vw.ExponentialBucketHistogramAggregation(160, 0)}.get(kind))]
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["readers"]]
    inst_kind = {"hist": "histogram", "exp": "histogram"}.get(kind, kind)
    ids = {}
    order = {}
    seen = [[] for _ in readers]
    where = {"1": 0}

    def scenario(sim):
        mp = provider(readers, views, exemplar_filter=sdk.AlwaysOnExemplarFilter() if case["filter"] == "on" else sdk.AlwaysOffExemplarFilter())
        ins = create(mp.get_meter("m"), inst_kind, "n")

        def do(k, v):
            i = len(ids)
            ids[i] = (k, VALUES[v])
            order.setdefault(k, []).append(VALUES[v])
            record(inst_kind, ins, VALUES[v], {"k": k, "id": i})

        def collect(r):
            flat = flatten(rec, readers[r].get_metrics_data())
            m = metric_for(rec, flat, "n")
            seen[r].append(list(m.data.data_points) if m else [])

        for k, v in case["warm"]:
            do(k, v)
        ts = [sim.thread(lambda ops=ops: [do(k, v) for k, v in ops], "measure%d" % i) for i, ops in enumerate(case["threads"])]
        ts += [sim.thread(lambda rs=rs: [collect(r % len(readers)) for r in rs], "collect%d" % i) for i, rs in enumerate(case["collectors"])]
        sim.join(*ts)
        for r in range(len(readers)):
            collect(r)
            collect(r)
        return ins

    _, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    for r, t in enumerate(case["readers"]):
        delta = t[0] == "d"
        total = {}
        for pts in seen[r]:
            rec.check(len({p.attributes["k"] for p in pts}) == len(pts), "reader %d: two points of one attribute set: %s", r, pts)
            for p in pts:
                k = p.attributes["k"]
                what = "reader %d (%s) point %s" % (r, t[0], p)
                rec.check(p.attributes.keys() == {"k"}, "%s: attributes", what)
                rec.check(p.start_time_unix_nano is None or p.start_time_unix_nano <= p.time_unix_nano, "%s: starts after its time", what)
                used = set()
                for x in p.exemplars:
                    i = (x.filtered_attributes or {}).get("id")
                    rec.check(i in ids and ids[i] == (k, x.value), "%s: exemplar %s mixes measurements; measured %s", what, x, ids.get(i))
                    rec.check(i not in used, "%s: exemplar twice", what)
                    used.add(i)
                if kind == "gauge":
                    rec.check(p.value in order[k], "%s: never set", what)
                    continue
                if kind in ("counter", "updown"):
                    cur = {"value": p.value}
                else:
                    if kind == "hist":
                        counts = list(p.bucket_counts)
                    else:
                        at = {p.positive.offset + i: c for i, c in enumerate(p.positive.bucket_counts) if c}
                        rec.eq(p.scale if at else 0, 0, what + " scale")
                        counts = [at.pop(i, 0) for i in (-1, 3, 6, 9)]
                        rec.check(not at, "%s: counts in buckets %s where nothing was measured", what, at)
                    cur = {"c%d" % i: c for i, c in enumerate(counts)}
                    rec.eq(p.count, sum(counts), what + ": count")
                    rec.eq(p.sum, sum(c * v for c, v in zip(counts, VALUES)), what + ": sum")
                    if sum(counts):
                        hit = [v for c, v in zip(counts, VALUES) if c]
                        rec.check(p.min == hit[0] and p.max == hit[-1], "%s: min or max disagree with the buckets", what)
                old = total.get(k)
                if old and not delta and len(case["collectors"]) == 1:
                    rec.check(all(cur[n] >= old[n] for n in cur), "%s: cumulative went back from %s", what, old)
                if old and delta:
                    cur = {n: cur[n] + old[n] for n in cur}
                elif old and not delta:
                    cur = {n: max(cur[n], old[n]) for n in cur}
                total[k] = cur
        if kind == "gauge":
            continue
        for k, vs in order.items():
            want = {"value": sum(vs)} if kind in ("counter", "updown") else {"c%d" % i: vs.count(v) for i, v in enumerate(VALUES)}
            rec.eq(total.get(k), want, "reader %d (%s): %s for %s in the end, measured %s" % (r, t, "deltas add up" if delta else "cumulative", k, vs))
        rec.check(set(total) == set(order), "reader %d: points for %s", r, set(total))
    rec.label(kind)
    rec.nontrivial(sim.preempts >= 3 and len([1 for ops in case["threads"] if any(k == 0 for k, _ in ops)]) > 1)


sub("create", concmake.make_s, quick=1000, thorough=25000, rule=concmake.RULE)(concmake.create_)


watch_s = st.fixed_dictionaries({
    "kind": pick("ocounter", "oupdown", "ogauge"), "readers": st.lists(pick("ccccccc", "ddddddd"), min_size=1, max_size=2), "collectors": st.lists(st.lists(st.integers(0, 1), min_size=1, max_size=2), min_size=2, max_size=3),
    "instruments": st.integers(1, 2), "late": st.booleans(), "schedule": vsched.schedules,
})


@sub("observe", watch_s, quick=700, thorough=20000, rule="observable instruments collected by several threads at once while another thread creates more: each collection reports one observation; non-trivial: two threads collected the same reader and three switches happened")
def observe(rec, case):
    CLOCK.reset()
    kind = case["kind"]
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["readers"]]
    seen = [[] for _ in readers]
    inside = [0]

    def scenario(sim):
        mp = provider(readers)
        meter = mp.get_meter("m")

        def cb(options):
            inside[0] += 1
            yield Observation(7, {"a": 1})
            inside[0] -= 1
            yield Observation(5, {"b": 1})

        for i in range(case["instruments"]):
            create(meter, kind, "o%d" % i, callbacks=[cb])

        def collect(r):
            seen[r].append(flatten(rec, readers[r].get_metrics_data()))
        ts = [sim.thread(lambda rs=rs: [collect(r % len(readers)) for r in rs], "collect%d" % i) for i, rs in enumerate(case["collectors"])]
        if case["late"]:
            ts.append(sim.thread(lambda: create(meter, kind, "late", callbacks=[cb]), "create"))
        sim.join(*ts)
        for r in range(len(readers)):
            collect(r)
    _, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    names = {"o%d" % i for i in range(case["instruments"])} | ({"late"} if case["late"] else set())
    for r, t in enumerate(case["readers"]):
        total = {}
        for flat in seen[r]:
            for _r, _s, m in flat:
                for p in m.data.data_points:
                    k = (m.name, *p.attributes)
                    if t[0] == "c" or kind == "ogauge":
                        rec.eq(p.value, 7 if k[1] == "a" else 5, "reader %d (%s): %s, always observed as" % (r, t[0], k))
                        total[k] = p.value
                    else:
                        total[k] = total.get(k, 0) + p.value
        rec.eq(total, {(n, a): v for n in names for a, v in (("a", 7), ("b", 5))}, "reader %d (%s): reported in the end" % (r, t[0]))
    used = [r % len(readers) for rs in case["collectors"] for r in rs[:1]]
    rec.nontrivial(sim.preempts >= 3 and len(set(used)) < len(used))
