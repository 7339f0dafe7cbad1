"""M05: views."""
import copy
import fnmatch

from vlib.metrics import (ASYNC, CLASS, CLOCK, InMemoryMetricReader, KINDS, Observation, Stream, SYNC, attr_sets, attrs_of, create, default_agg, flatten, poison, provider, record, temporalities, temporality, vw)
from vlib import metrics as vm
from hypothesis import strategies as st

from vlib.core import Violation, sub
from vlib.gen import pick, weighted

RULE = ("meters (name, version, schema url), instruments of every kind and lists of views (criteria by type, base type, wildcard name and unit, meter name, version, schema url; renaming, description, attribute keys, every "
        "aggregation, drop), readers with a preferred aggregation per kind, then measurements, observations and collections: the reported metrics must be exactly the streams the reference matching and the reference "
        "aggregation give. non-trivial: some instrument matched a view that changes its stream while another was left to the default.")
ASSUMPTIONS = [
    "instrument name patterns are lower case, as instrument names are",
    "histogram aggregations are not applied to observable instruments (refused for explicit buckets, without points for exponential ones)",
    "names of streams that would coincide are avoided only for explicitly renamed streams; streams are compared as a multiset",
]

TYPES = {"Instrument": lambda k: True, "Counter": lambda k: k == "counter", "UpDownCounter": lambda k: k == "updown", "Histogram": lambda k: k == "histogram", "_Gauge": lambda k: k == "gauge",
         "ObservableCounter": lambda k: k == "ocounter", "ObservableUpDownCounter": lambda k: k == "oupdown", "ObservableGauge": lambda k: k == "ogauge", "Synchronous": lambda k: k in SYNC, "Asynchronous": lambda k: k in ASYNC}
import opentelemetry.metrics as api_metrics  # noqa: E402
from opentelemetry.metrics import _internal as _api_int  # noqa: E402,F401


def type_of(name):
    return getattr(api_metrics, name, None) or vm.CLASS.get({"_Gauge": "gauge"}.get(name))


agg = weighted(
    (3, st.none()), (1, st.just(("default",))), (1, st.just(("drop",))), (1, st.just(("sum",))), (1, st.just(("last",))),
    (2, st.tuples(st.just("hist"), weighted((1, st.none()), (3, st.lists(st.integers(-5, 30), max_size=4, unique=True).map(sorted))), st.booleans())),
    (1, st.tuples(st.just("exp"), st.integers(2, 20), st.integers(-2, 20))),
)
name_pat = pick("*", "req*", "Lat", "REQ", "Req*", "req", "req.*", "req?a", "r*b", "lat", "lat*", "??t", "[rl]*", "nothing", "reqa", "req.b")
inst_name = pick("req", "reqa", "req.b", "lat", "Lat", "REQ", "latB")
view_s = st.fixed_dictionaries({
    "type": weighted((4, st.none()), (3, pick(*[t for t in TYPES]))),
    "iname": weighted((1, st.none()), (3, name_pat)),
    "unit": weighted((5, st.none()), (1, pick("*", "s", "m?", "ms", "", "[ms]*", "S", "by", "B*"))),
    "mname": weighted((5, st.none()), (1, pick("m1", "m2", "m*"))),
    "mver": weighted((6, st.none()), (1, pick("1.0", "2.0", "1*", "*"))),
    "murl": weighted((6, st.none()), (1, pick("u1", "u2", "", "u*"))),
    "name": weighted((2, st.none()), (1, pick("renamed", "Other", "req"))),
    "desc": weighted((2, st.none()), (1, pick("d-view", ""))),
    "keys": weighted((2, st.none()), (1, st.sets(pick("a", "b", "c", "l", "zz"), max_size=3).map(sorted))),
    "agg": agg,
})
meter_s = st.tuples(pick("m1", "m2", "m10"), pick(None, "1.0", "2.0", "1.0.1"), pick(None, "u1", "u2", "u12"))
inst_s = st.fixed_dictionaries({"meter": st.integers(0, 1), "kind": pick(*KINDS), "name": inst_name, "unit": pick("", "s", "ms", "m", "By"), "desc": pick("", "d"), "adv": weighted((3, st.none()), (1, pick([1, 2, 10], [0.5, 4], [])))})
prefer_s = st.dictionaries(pick("counter", "histogram", "updown", "gauge", "ocounter", "ogauge"), agg.filter(lambda a: a is not None), max_size=2)
case_s = st.fixed_dictionaries({
    "meters": st.lists(meter_s, min_size=1, max_size=2, unique=True),
    "insts": st.lists(inst_s, min_size=1, max_size=4, unique_by=lambda i: (i["meter"] % 2, i["name"].lower())),
    "views": st.lists(view_s, max_size=4),
    "readers": st.lists(st.tuples(temporality, prefer_s), min_size=1, max_size=2),
    "ops": st.lists(weighted(
        (6, st.tuples(st.just("rec"), st.integers(0, 3), weighted((3, st.integers(0, 20)), (1, st.integers(-20, 30)), (1, st.integers(0, 99).map(lambda n: n / 4))), attr_sets)),
        (1, st.tuples(st.just("collect"), st.integers(0, 1))),
    ), max_size=25),
})


def build_agg(a):
    if a is None:
        return None
    n = a[0]
    return {"default": lambda: vw.DefaultAggregation(), "drop": lambda: vw.DropAggregation(), "sum": lambda: vw.SumAggregation(), "last": lambda: vw.LastValueAggregation(),
            "hist": lambda: vw.ExplicitBucketHistogramAggregation(a[1], a[2]), "exp": lambda: vw.ExponentialBucketHistogramAggregation(a[1], a[2])}[n]()


def criteria(v):
    return [v["type"], v["iname"], v["unit"], v["mname"], v["mver"], v["murl"]]


def matches(v, inst, meter):
    if v["type"] is not None and not TYPES[v["type"]](inst["kind"]):
        return False
    if v["iname"] is not None and not fnmatch.fnmatchcase(inst["name"].lower(), v["iname"].lower()):
        return False
    if v["unit"] is not None and not fnmatch.fnmatchcase(inst["unit"], v["unit"]):
        return False
    return all(w is None or w == g for w, g in ((v["mname"], meter[0]), (v["mver"], meter[1]), (v["murl"], meter[2] or "")))


@sub("streams", case_s, quick=9000)
def streams(rec, case):
    CLOCK.reset()
    views, specs = [], []
    for v in case["views"]:
        kw = dict(instrument_type=type_of(v["type"]) if v["type"] else None, instrument_name=v["iname"], instrument_unit=v["unit"], meter_name=v["mname"], meter_version=v["mver"], meter_schema_url=v["murl"],
                  name=v["name"], description=v["desc"], attribute_keys=None if v["keys"] is None else set(v["keys"]), aggregation=build_agg(v["agg"]))
        bad = all(c is None for c in criteria(v)) or v["name"] is not None and v["iname"] is not None and set(v["iname"]) & set("*?")
        try:
            view = vw.View(**kw)
        except Exception as e:
            rec.check(bad, "a valid view %s is refused: %r", v, e)
            continue
        rec.check(not bad, "a view %s is accepted (without criteria, or renaming what a wildcard matches)", v)
        views.append(view)
        specs.append(v)
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t), preferred_aggregation={CLASS[k]: build_agg(a) for k, a in p.items()}) for t, p in case["readers"]]
    mp = provider(readers, views)
    meters = [mp.get_meter(n, v, u) for n, v, u in case["meters"]]
    pending = {}
    insts = []
    for i, d in enumerate(case["insts"]):
        m = d["meter"] % len(meters)
        if any(m == o["m"] and o["name"].lower() == d["name"].lower() for o in insts):
            continue
        d = dict(d, m=m)
        slot = pending.setdefault(len(insts), [])

        def callback(options, slot=slot):
            out = [Observation(v, attrs_of(a)) for v, a in slot]
            slot.clear()
            return out

        d["obj"] = create(meters[m], d["kind"], d["name"], d["unit"], d["desc"], [callback], d["adv"] if d["kind"] == "histogram" else None)
        insts.append(d)
    changed = untouched = False
    models = []
    for t, prefer in case["readers"]:
        out = []
        for d in insts:
            got = []
            meter = case["meters"][d["m"]]
            base = default_agg(d["kind"])
            if d["kind"] in prefer and prefer[d["kind"]][0] != "default":
                base = prefer[d["kind"]]
            temp = t[KINDS.index(d["kind"])]
            for v in specs:
                if not matches(v, d, meter):
                    continue
                a = base if v["agg"] in (None, ("default",)) else v["agg"]
                if v["agg"] is not None and v["agg"][0] == "hist" and d["kind"] in ASYNC:
                    continue        # refused: semantic error
                got.append((v["name"] or d["name"].lower(), v["desc"] or d["desc"], Stream(d["kind"], a, temp, None if v["keys"] is None else set(v["keys"]), d["adv"] if d["kind"] == "histogram" else None)))
                changed = changed or bool(v["name"] or v["desc"] or v["keys"] is not None or v["agg"])
            if not got:
                got.append((d["name"].lower(), d["desc"], Stream(d["kind"], base, temp, None, d["adv"] if d["kind"] == "histogram" else None)))
                untouched = True
            for _n, _d, s in got:
                if s.agg[0] in ("hist", "exp") and s.asynchronous:
                    s.agg = ("nothing",)
            out.append(got)
        models.append(out)

    def collect(r):
        observed = {i: list(slot) for i, slot in pending.items()}
        for i, slot in observed.items():
            for v, a in slot:
                for _n, _d, s in models[r][i]:
                    s.record(v, attrs_of(a))
        flat = flatten(rec, readers[r].get_metrics_data())
        expect = []
        for i, d in enumerate(insts):
            for name, desc, s in models[r][i]:
                if s.agg[0] == "nothing":
                    s.expected()
                    continue
                expect.append((i, d, name, desc, s))
        left = [(s, m) for _r, s, m in flat]
        groups = {}
        for i, d, name, desc, s in expect:
            n, ver, url = case["meters"][d["m"]]
            groups.setdefault((n, ver, url or "", name, desc, d["unit"]), []).append((i, d, name, s))
        for ident, streams in groups.items():
            probe = [e for e in left if (e[0].name, e[0].version, e[0].schema_url or "", e[1].name, e[1].description, e[1].unit) == ident]
            pair(rec, r, streams, probe, left)
        rec.check(not left, "reader %d: also reported %s", r, [(e[0].name, e[1].name, e[1].description, e[1].unit) for e in left])

    def pair(rec, r, streams, probe, left):
        """Streams of one identity may come in any order."""
        due = []
        for i, d, name, s in streams:
            what = "reader %d instrument %d (%s %s) stream %s %s" % (r, i, d["kind"], d["name"], name, s.agg)
            has = bool(s.interval) if s.asynchronous or s.agg[0] == "last" or s.temp == "d" else bool(s.total)
            if s.agg[0] == "drop" or not has:
                s.check(rec, None, what)
                continue
            due.append((s, what))
        rec.check(len(probe) >= len(due), "%s: not among %s", [w for _, w in due], [(e[0].name, e[1].name, e[1].description, e[1].unit, type(e[1].data).__name__) for e in left])
        order = list(range(len(due)))
        if len(due) > 1:
            fits = {}

            def fit(k, j):
                if (k, j) not in fits:
                    try:
                        copy.deepcopy(due[k][0]).check(rec, probe[j][1], due[k][1])
                        fits[k, j] = True
                    except Violation:
                        fits[k, j] = False
                return fits[k, j]

            def assign(k, free):
                if k == len(due):
                    return []
                for j in free:
                    if fit(k, j):
                        rest = assign(k + 1, [x for x in free if x != j])
                        if rest is not None:
                            return [j] + rest
                return None

            order = assign(0, list(range(len(probe)))) or order
        for (s, what), j in zip(due, order):
            s.check(rec, probe[j][1], what)
            left.remove(probe[j])

    for op in case["ops"]:
        if op[0] == "rec":
            _, i, v, a = op
            i %= len(insts)
            d = insts[i]
            if d["kind"] in ASYNC:
                pending[i].append((v, a))
                continue
            if d["kind"] in ("counter", "histogram") and v < 0:
                continue
            for m in models:
                for _n, _d, s in m[i]:
                    s.record(v, attrs_of(a))
            attrs = attrs_of(a)
            record(d["kind"], d["obj"], v, attrs)
            poison(attrs)
        else:
            collect(op[1] % len(readers))
    for r in range(len(readers)):
        collect(r)
        collect(r)
    rec.nontrivial(changed and untouched and len(case["ops"]) > 2)


merge_s = st.fixed_dictionaries({
    "kind": pick("counter", "updown", "histogram"), "keys": st.sets(pick("a", "b", "c", "l", "f"), max_size=3).map(sorted), "agg": pick(None, ("hist", [0, 5, 10], True), ("exp", 4, 20)),
    "temp": pick("c", "d"),
    "ops": st.lists(weighted((6, st.tuples(st.just("rec"), st.integers(-3, 40), attr_sets)), (1, st.just(("collect",)))), min_size=1, max_size=20),
})


@sub("merge", merge_s, quick=1000, rule="metamorphic: the same measurements with and without attribute filtering, merged afterwards; non-trivial: at least two attribute sets merged into one point")
def merge(rec, case):
    CLOCK.reset()
    kind = case["kind"]
    rs = []
    for keys in (None, set(case["keys"])):
        r = InMemoryMetricReader(preferred_temporality=temporalities(case["temp"] * 7))
        mp = provider([r], [vw.View(instrument_name="n", attribute_keys=keys, aggregation=build_agg(case["agg"]))])
        rs.append((r, create(mp.get_meter("m"), kind, "n")))
    keep = set(case["keys"])

    def points(r):
        return [p for _r, _s, m in flatten(rec, r.get_metrics_data()) for p in m.data.data_points]

    def summary(ps):
        out = {}
        for p in ps:
            k = vm.akey({a: b for a, b in p.attributes.items() if a in keep})
            o = out.setdefault(k, {})
            if hasattr(p, "value"):
                o["value"] = o.get("value", 0) + p.value
                continue
            o["count"] = o.get("count", 0) + p.count
            o["sum"] = o.get("sum", 0) + p.sum
            o["min"] = min(o.get("min", p.min), p.min)
            o["max"] = max(o.get("max", p.max), p.max)
            if hasattr(p, "explicit_bounds"):
                o["buckets"] = [x + y for x, y in zip(o.get("buckets", [0] * len(p.bucket_counts)), p.bucket_counts)]
            else:
                o["zero"] = o.get("zero", 0) + p.zero_count
                o["positive"] = o.get("positive", 0) + sum(p.positive.bucket_counts)
                o["negative"] = o.get("negative", 0) + sum(p.negative.bucket_counts)
        return out

    merged = False

    def collect():
        nonlocal merged
        full, few = points(rs[0][0]), points(rs[1][0])
        a, b = summary(full), summary(few)
        rec.check(len(few) == len(b), "filtered stream has two points of one attribute set: %s", [p.attributes for p in few])
        rec.check(a == b, "merging %s by keys %s gives %s, the filtered stream reports %s", [(p.attributes) for p in full], sorted(keep), a, b)
        merged = merged or len(full) > len(few)

    for op in case["ops"]:
        if op[0] == "rec":
            if kind == "updown" or op[1] >= 0:
                for _r, i in rs:
                    record(kind, i, op[1], attrs_of(op[2]))
        else:
            collect()
    collect()
    rec.nontrivial(merged)
