"""M02: explicit-bucket histograms."""
import math

from vlib.metrics import drive, dyadic, ops_of, temporality, vw
from hypothesis import strategies as st

from vlib.core import sub
from vlib.gen import pick, weighted

RULE = ("histories of measurements (on, next to and between the boundaries, zero, negative, huge, infinite) on instruments aggregated to explicit buckets by default, by advice, by view or by a reader's preference, with "
        "boundaries from empty to many, collected by one to three readers of either temporality; every reported point is compared with a recount of the values. non-trivial: a collection happened between "
        "measurements and some value equalled a boundary or was outside all of them.")
ASSUMPTIONS = ["NaN measurements are not generated: no bucket is specified for them", "min and max are only compared when the aggregation records them"]

bound = weighted((3, st.integers(-5, 20)), (2, st.integers(-20, 80).map(lambda n: n / 4)), (1, dyadic), (1, st.floats(allow_nan=False, allow_infinity=False, width=32)))
bounds = weighted(
    (1, st.none()), (1, st.just([])), (5, st.lists(bound, min_size=1, max_size=8, unique_by=float).map(lambda b: sorted(b))),
    (1, st.lists(st.integers(-3, 6), min_size=1, max_size=6, unique=True).map(sorted)),
    (1, st.tuples(st.integers(100, 260), pick(1, 4)).map(lambda t: [i / t[1] for i in range(t[0])])),
)
value = weighted(
    (4, st.integers(-5, 20)), (1, st.integers(0, 300)), (2, st.integers(-20, 80).map(lambda n: n / 4)), (1, dyadic), (2, pick(0, 0.0, -0.0, 5, 5.0, 5.0000001, 10, 25, 10000, 10000.0, 10000.5, 7500)),
    (1, st.floats(allow_nan=False, allow_infinity=False)), (1, st.tuples(st.just("near"), st.integers(0, 20), pick(-1, 0, 1))), (1, st.tuples(st.just("bound"), st.integers(0, 7), pick(-1, 0, 0, 1))), (1, pick(math.inf, 1e308)),
)
case_s = st.fixed_dictionaries({
    "kind": weighted((6, st.just("histogram")), (1, pick("counter", "updown", "gauge"))),
    "advisory": bounds, "by": pick("default", "view", "view", "view-default", "prefer"), "bounds": bounds, "minmax": weighted((3, st.just(True)), (1, st.just(False))),
    "temps": st.lists(temporality, min_size=1, max_size=3), "tuple": st.booleans(),
    "ops": ops_of(value),
})


@sub("history", case_s, quick=3500)
def history(rec, case):
    kind, by = case["kind"], case["by"]
    advisory = case["advisory"] if kind == "histogram" else None
    if kind != "histogram" and by in ("default", "view-default"):
        by = "view"
    views, prefer = [], None
    if by == "default":
        spec, mm = None, True
    elif by == "view-default":
        spec, mm = None, True
        views = [vw.View(instrument_name="n")]
    else:
        spec, mm = case["bounds"], case["minmax"]
        given = tuple(spec) if spec is not None and case["tuple"] else spec
        a = vw.ExplicitBucketHistogramAggregation(given, mm)
        if by == "view":
            views = [vw.View(instrument_name="n", aggregation=a)]
        else:
            prefer = a
    eff = spec if spec is not None else advisory

    def concrete(v):
        if not isinstance(v, tuple):
            return v
        b = float(v[1]) if v[0] == "near" or not eff else float(eff[v[1] % len(eff)])
        return b if v[2] == 0 else math.nextafter(b, math.inf * v[2])

    ops = [("rec", concrete(o[1]), o[2]) if o[0] == "rec" else o for o in case["ops"]]
    accepts = (lambda v: v >= 0) if kind in ("histogram", "counter") else (lambda v: True)
    model, mid = drive(rec, kind, case["temps"], ops, ("hist", spec, mm), views, prefer, advisory, accepts=accepts)
    rec.label(by, kind)
    vals = [v for m in model for vs in m.total.values() for v in vs]
    b = model[0].bounds
    rec.nontrivial(mid and len(vals) > 2 and any(v in b or (b and (v > b[-1] or v <= b[0])) for v in vals))
