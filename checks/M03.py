"""M03: exponential histograms."""
import math

from vlib.metrics import dyadic, drive, exp_values, near_values, ops_of, temporality, vw
from hypothesis import strategies as st

from vlib.core import sub
from vlib.gen import pick, weighted

RULE = ("histories of measurements (all magnitudes from the smallest subnormal to the largest double, powers of two and their neighbours, clusters, zeros, and negatives through an up-down counter) on instruments aggregated "
        "to exponential buckets with 2 to 500 buckets and any maximum scale, collected by one to three readers of either temporality; each point's buckets are recounted with exact base-2 arithmetic from the values "
        "recorded. non-trivial: values of at least two magnitudes were recorded and a collection happened between measurements.")
ASSUMPTIONS = [
    "a value within 1e-11 (relative) of a bucket boundary may fall on either side of it, unless it is a power of two",
    "a delta point may keep a coarser scale that an earlier interval needed",
    "values below the smallest normal double may be counted in that one's bucket",
]

sizes = weighted((4, st.integers(2, 10)), (2, st.just(160)), (1, st.integers(2, 500)))
scales = weighted((3, st.just(20)), (2, st.integers(-10, 20)))
temps = st.lists(temporality, min_size=1, max_size=3)


def run(rec, case, ops):
    kind = case["kind"]
    a = vw.ExponentialBucketHistogramAggregation(max_size=case["size"], max_scale=case["scale"])
    views, prefer = ([vw.View(instrument_name="n", aggregation=a)], None) if case["view"] else ([], a)
    accepts = (lambda v: v >= 0) if kind in ("histogram", "counter") else (lambda v: True)
    model, mid = drive(rec, kind, case["temps"], ops, ("exp", case["size"], case["scale"]), views, prefer, accepts=accepts)
    vals = [v for m in model for vs in m.total.values() for v in vs if v]
    rec.label("negative" if any(v < 0 for v in vals) else "positive", kind)
    rec.nontrivial(mid and len({math.frexp(v)[1] for v in vals}) > 1)


base = {"kind": weighted((3, st.just("histogram")), (1, st.just("updown")), (1, st.just("gauge"))), "size": sizes, "scale": scales, "view": st.booleans(), "temps": temps}
wide = st.fixed_dictionaries(dict(base, ops=ops_of(exp_values(True))))
close = st.fixed_dictionaries(dict(base, ops=ops_of(weighted((4, near_values), (1, exp_values(True))))))
signs = st.fixed_dictionaries({
    "kind": st.just("updown"), "size": st.integers(2, 6), "scale": pick(20, 3, 0), "view": st.just(True), "temps": st.lists(temporality, min_size=1, max_size=2),
    "ops": st.lists(weighted((4, st.tuples(st.just("rec"), pick(-8, -3.0, -1, 0, 0.0, 1, 2, 5.5, 1024, -1e-3), pick(1, 2))), (2, st.tuples(st.just("collect"), st.integers(0, 1)))), max_size=14),
})


@sub("wide", wide, quick=1800)
def wide_(rec, case):
    run(rec, case, case["ops"])


@sub("close", close, quick=1200)
def close_(rec, case):
    run(rec, case, case["ops"])


@sub("signs", signs, quick=1500, rule="short histories mixing signs, zeros and collections with very few buckets")
def signs_(rec, case):
    run(rec, case, case["ops"])
