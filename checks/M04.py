"""M04: gauges."""
from vlib.metrics import (ATTRS, CLOCK, InMemoryMetricReader, KINDS, Observation, Stream, attr_sets, attrs_of, create, flatten, metric_for, poison, provider, record, temporalities, temporality, vw)
from hypothesis import strategies as st
import math

from vlib.core import sub
from vlib.gen import pick, weighted

RULE = ("histories of set() on gauges and of observations by gauge callbacks (integers, floats, infinities, NaN, negative zero; attribute sets that coincide, lists, mutated afterwards) interleaved with collections by one to "
        "three readers of any temporality; each reader must get exactly the last value per attribute set since its previous collection. non-trivial: a value was replaced before being collected and an attribute set was "
        "left out of a later collection.")

value = weighted((4, st.integers(-50, 50)), (3, st.floats()), (1, pick(0, 0.0, -0.0, 1, 1.0, True, 2**70, -(2**63), math.inf, -math.inf, math.nan)))
case_s = st.fixed_dictionaries({
    "readers": st.lists(temporality, min_size=1, max_size=3),
    "kind": weighted((2, st.just("gauge")), (1, st.just("ogauge")), (1, pick("counter", "updown"))),
    "ops": st.lists(weighted((4, st.tuples(st.just("set"), value, attr_sets)), (1, st.tuples(st.just("collect"), st.integers(0, 2)))), max_size=30),
})


def exact(rec, metric, want, what):
    got = {}
    for p in (metric.data.data_points if metric else []):
        k = frozenset((a, tuple(b) if isinstance(b, list) else b) for a, b in p.attributes.items())
        rec.check(k not in got, "%s: two points for %s", what, p.attributes)
        got[k] = p.value
    rec.check(got.keys() == want.keys(), "%s: points for %s, expected for %s", what, [dict(k) for k in got], [dict(k) for k in want])
    for k, v in want.items():
        g = got[k]
        ok = type(g) is type(v) and (g == v or g != g and v != v) and math.copysign(1, g) == math.copysign(1, v) if not isinstance(v, float) or v == v else g != g
        rec.check(ok, "%s %s: value %r, last measured %r", what, dict(k), g, v)


@sub("history", case_s, quick=3000)
def history(rec, case):
    """Also a last-value view on a counter: the latest increment."""
    CLOCK.reset()
    kind = case["kind"]
    n = len(case["readers"])
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["readers"]]
    views = [] if kind in ("gauge", "ogauge") else [vw.View(instrument_name="*", aggregation=vw.LastValueAggregation())]
    mp = provider(readers, views)
    pending = []

    def callback(options):
        out = [Observation(v, attrs_of(a)) for v, a in pending]
        pending.clear()
        return out

    ins = create(mp.get_meter("m"), kind, "g", callbacks=[callback])
    model = [{} for _ in readers]
    replaced = left = False
    seen = set()

    def collect(r):
        nonlocal left
        if kind == "ogauge":
            for v, a in pending:
                model[r][frozenset((attrs_of(a) or {}).items() if not any(isinstance(x, list) for x in (ATTRS[a] or {}).values()) else [(k, tuple(x) if isinstance(x, list) else x) for k, x in ATTRS[a].items()])] = v
        flat = flatten(rec, readers[r].get_metrics_data())
        m = metric_for(rec, flat, "g")
        rec.check(m is None or type(m.data).__name__ == "Gauge", "reported as %s", m and type(m.data).__name__)
        exact(rec, m, model[r], "reader %d" % r)
        left = left or bool(seen - set(model[r]))
        model[r] = {}

    for op in case["ops"]:
        if op[0] == "set":
            _, v, a = op
            if kind == "counter" and not v >= 0:
                continue
            k = frozenset((x, tuple(y) if isinstance(y, list) else y) for x, y in (ATTRS[a] or {}).items())
            if kind == "ogauge":
                replaced = replaced or any(a == b for _x, b in pending)
                pending.append((v, a))
            else:
                replaced = replaced or any(k in m for m in model)
                for m in model:
                    m[k] = v
                attrs = attrs_of(a)
                record(kind, ins, v, attrs)
                poison(attrs)
            seen.add(k)
        else:
            collect(op[1] % n)
    for r in range(n):
        collect(r)
        collect(r)
    rec.nontrivial(replaced and left)
