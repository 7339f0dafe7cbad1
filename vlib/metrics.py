"""Metric histories: a controlled clock, instruments, readers, and the reference
model of the streams they feed.  Import before anything of opentelemetry."""
import fractions
import math
import sys
import time

from hypothesis import strategies as st

from vlib.gen import pick, weighted


class Clock:
    """time.time_ns under control: advances by `step` per reading and by tick()."""

    EPOCH = 1_700_000_000_000_000_000

    def __init__(self):
        self.reset()

    def reset(self, step=1):
        self.now = self.EPOCH
        self.step = step

    def __call__(self):
        self.now += self.step
        return self.now

    def tick(self, ns):
        self.now += ns


CLOCK = Clock()
if not hasattr(time.time_ns, "tell"):
    assert not [m for m in sys.modules if m.startswith("opentelemetry")]
    time.time_ns = CLOCK

from opentelemetry.metrics import CallbackOptions, Observation  # noqa: E402
from opentelemetry.sdk import metrics as sdk  # noqa: E402
from opentelemetry.sdk.metrics import view as vw  # noqa: E402
from opentelemetry.sdk.metrics.export import (  # noqa: E402
    AggregationTemporality, ExponentialHistogram, Gauge, Histogram, InMemoryMetricReader, Sum,
)
from opentelemetry.sdk.resources import Resource  # noqa: E402

SYNC = ["counter", "updown", "histogram", "gauge"]
ASYNC = ["ocounter", "oupdown", "ogauge"]
KINDS = SYNC + ASYNC
CLASS = {
    "counter": sdk.Counter, "updown": sdk.UpDownCounter, "histogram": sdk.Histogram, "gauge": sdk._Gauge,
    "ocounter": sdk.ObservableCounter, "oupdown": sdk.ObservableUpDownCounter, "ogauge": sdk.ObservableGauge,
}
DEFAULT_BOUNDS = (0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0)

# --- strategies (plain data) --------------------------------------------------
ATTRS = [
    None, {}, {"a": 1}, {"a": 2}, {"a": "1"}, {"b": "x", "a": 1}, {"a": 1, "b": "x"}, {"a": 1, "b": "y"}, {"b": "x"}, {"c": True}, {"c": False},
    {"l": ["x", "y"]}, {"l": ("x", "y")}, {"l": ["z"], "a": 1}, {"f": 1.5}, {"é": ""}, {"a": 1, "b": "x", "c": True, "f": -2.5}, {"a": "", "b": 0},
]
attr_sets = weighted((3, pick(2, 3, 5, 6, 7)), (1, st.integers(0, len(ATTRS) - 1)))
small_int = st.integers(0, 20)
dyadic = st.integers(-(2**40), 2**40).map(lambda n: n / 1024)
signed = weighted((3, st.integers(-20, 20)), (2, dyadic), (1, st.integers(-(2**40), 2**40)), (1, st.integers(-(2**62), 2**62)))
temporality = weighted((1, st.just("ddddddd")), (1, st.just("ccccccc")), (1, st.text("cd", min_size=7, max_size=7)))


def attrs_of(i):
    """A fresh attribute dict (or None)."""
    a = ATTRS[i] if isinstance(i, int) else i
    return None if a is None else {k: list(v) if isinstance(v, list) else v for k, v in a.items()}


def poison(a):
    """What a caller may do to its own dictionary afterwards."""
    if a is not None:
        for v in a.values():
            if isinstance(v, list):
                v.append("poison")
        a.clear()
        a["poison"] = 1


def plain(attrs):
    return {k: tuple(v) if isinstance(v, (list, tuple)) else v for k, v in (attrs or {}).items()}


def akey(attrs):
    return frozenset(plain(attrs).items())


# --- the system under test ------------------------------------------------------
def temporalities(t):
    return {CLASS[k]: AggregationTemporality.DELTA if c == "d" else AggregationTemporality.CUMULATIVE for k, c in zip(KINDS, t)}


def create(meter, kind, name, unit="", description="", callbacks=None, advisory=None):
    if kind == "counter":
        return meter.create_counter(name, unit, description)
    if kind == "updown":
        return meter.create_up_down_counter(name, unit, description)
    if kind == "histogram":
        return meter.create_histogram(name, unit, description, explicit_bucket_boundaries_advisory=advisory)
    if kind == "gauge":
        return meter.create_gauge(name, unit, description)
    f = {"ocounter": meter.create_observable_counter, "oupdown": meter.create_observable_up_down_counter, "ogauge": meter.create_observable_gauge}[kind]
    return f(name, callbacks or [], unit, description)


def record(kind, inst, value, attrs, context=None):
    f = {"counter": "add", "updown": "add", "histogram": "record", "gauge": "set"}[kind]
    if context is None:
        getattr(inst, f)(value, attrs)
    else:
        getattr(inst, f)(value, attrs, context)


def provider(readers, views=(), resource=None, **kw):
    return sdk.MeterProvider(list(readers), resource=resource or Resource({}), shutdown_on_exit=False, views=list(views), **kw)


def flatten(rec, data):
    """MetricsData -> list of (resource, scope, metric); the structure is checked on the way."""
    out = []
    if data is None:
        return out
    seen_r = []
    for rm in data.resource_metrics:
        rec.check(rm.resource not in seen_r, "resource %s reported twice in one collection", rm.resource)
        seen_r.append(rm.resource)
        seen_s = []
        for sm in rm.scope_metrics:
            rec.check(sm.scope not in seen_s, "scope %s reported twice in one collection", sm.scope)
            seen_s.append(sm.scope)
            rec.eq(sm.schema_url, sm.scope.schema_url, "schema url of the scope")
            for m in sm.metrics:
                out.append((rm.resource, sm.scope, m))
    return out


def metric_for(rec, flat, name, scope=None):
    got = [m for _r, s, m in flat if m.name == name and (scope is None or s.name == scope)]
    rec.check(len(got) <= 1, "metric %s reported %d times", name, len(got))
    return got[0] if got else None


# --- the model ---------------------------------------------------------------------
MONOTONIC = ("counter", "ocounter")


def default_agg(kind, advisory=None):
    if kind in ("counter", "updown", "ocounter", "oupdown"):
        return ("sum",)
    if kind == "histogram":
        return ("hist", None, True)
    return ("last",)


class Stream:
    """Expected points of one instrument under one view for one reader."""

    def __init__(self, kind, agg, temp, keys=None, advisory=None):
        self.kind, self.agg, self.temp = kind, agg, temp
        self.keys = keys
        self.asynchronous = kind in ASYNC
        self.interval = {}
        self.total = {}
        self.prev = {}
        self.attrs = {}
        if agg[0] == "hist":
            self.bounds = tuple(agg[1] if agg[1] is not None else advisory if advisory is not None else DEFAULT_BOUNDS)
            self.minmax = agg[2]

    def filtered(self, attrs):
        a = plain(attrs)
        return a if self.keys is None else {k: v for k, v in a.items() if k in self.keys}

    def record(self, value, attrs):
        if self.agg[0] == "drop":
            return
        a = self.filtered(attrs)
        k = akey(a)
        self.attrs.setdefault(k, a)
        self.interval.setdefault(k, []).append(value)
        self.total.setdefault(k, []).append(value)

    def expected(self):
        """Values behind each point that must be reported now: {key: (values, all values so far)}; starts a new interval."""
        iv, self.interval = self.interval, {}
        if self.agg[0] == "drop":
            return {}
        if self.agg[0] == "last" or self.asynchronous:
            return {k: (v, self.total[k]) for k, v in iv.items()}
        if self.temp == "d":
            return {k: (v, self.total[k]) for k, v in iv.items()}
        return {k: (list(v), self.total[k]) for k, v in self.total.items()}

    def check(self, rec, metric, what):
        want = self.expected()
        if metric is None:
            rec.check(not want, "%s: nothing reported, expected points for %s", what, [self.attrs[k] for k in want])
            return {}
        cls = {"sum": Sum, "last": Gauge, "hist": Histogram, "exp": ExponentialHistogram}[self.agg[0]]
        rec.check(isinstance(metric.data, cls), "%s: reported as %s, expected %s", what, type(metric.data).__name__, cls.__name__)
        if cls is not Gauge:
            rec.eq(int(metric.data.aggregation_temporality), 1 if self.temp == "d" else 2, what + " temporality")
        if cls is Sum:
            rec.eq(metric.data.is_monotonic, self.kind in MONOTONIC, what + " monotonic")
        got = {}
        for p in metric.data.data_points:
            k = akey(p.attributes)
            rec.check(k not in got, "%s: two points for %s", what, p.attributes)
            got[k] = p
        rec.check(got.keys() == want.keys(), "%s: points for %s, expected %s", what, [plain(p.attributes) for p in got.values()], [self.attrs[k] for k in want])
        for k, p in got.items():
            vals, allv = want[k]
            w = "%s %s" % (what, self.attrs[k])
            rec.eq(plain(p.attributes), {x: plain({x: y})[x] for x, y in self.attrs[k].items()}, w + " attributes")
            getattr(self, "check_" + self.agg[0])(rec, p, vals, allv, k, w)
        return got

    def check_sum(self, rec, p, vals, allv, k, w):
        if self.asynchronous:
            cur = vals
            parts = list(cur)
            if self.temp == "d":
                parts += [-v for v in self.prev.get(k, [])]
                self.prev[k] = cur
            check_total(rec, p.value, parts, w + " value")
        else:
            check_total(rec, p.value, vals, w + " value")

    def check_last(self, rec, p, vals, allv, k, w):
        rec.eq(p.value, vals[-1], w + " value")

    def check_hist(self, rec, p, vals, allv, k, w):
        counts = [0] * (len(self.bounds) + 1)
        for v in vals:
            counts[next((i for i, b in enumerate(self.bounds) if v <= b), len(self.bounds))] += 1
        rec.eq(tuple(p.explicit_bounds), self.bounds, w + " bounds")
        rec.eq(list(p.bucket_counts), counts, w + " bucket counts of %s" % (vals,))
        rec.eq(p.count, len(vals), w + " count")
        check_total(rec, p.sum, vals, w + " sum")
        if self.minmax:
            rec.check(p.min == min(vals) and p.max == max(vals), "%s: min %r max %r of %s", w, p.min, p.max, vals)

    def check_exp(self, rec, p, vals, allv, k, w):
        check_exp(rec, p, vals, allv, self.agg[1], self.agg[2], w)


def check_total(rec, got, parts, what):
    """got is the sum of parts (exactly where floats can be exact)."""
    if all(isinstance(v, int) for v in parts):
        rec.eq(got, sum(parts), what)
        return
    rec.check(isinstance(got, float), "%s: %r is not a float although floats were recorded", what, got)
    if any(isinstance(v, float) and math.isinf(v) for v in parts):
        if len({v for v in parts if isinstance(v, float) and math.isinf(v)}) == 1:
            rec.eq(got, [v for v in parts if isinstance(v, float) and math.isinf(v)][0], what)
        return
    exact = sum((fractions.Fraction(v) for v in parts), fractions.Fraction(0))
    mag = sum(abs(fractions.Fraction(v)) for v in parts)
    if mag < 2**42 and all((fractions.Fraction(v) * 1024).denominator == 1 for v in parts):
        rec.check(fractions.Fraction(got) == exact, "%s: got %r, expected %r from %s", what, got, float(exact), parts)
    elif mag >= 2**1023:
        pass    # may overflow in one order of additions and not in another
    else:
        rec.check(abs(fractions.Fraction(got) - exact) <= mag * fractions.Fraction(1, 10**12), "%s: got %r, expected about %r from %s", what, got, float(exact), parts)


# --- exponential histograms ------------------------------------------------------------
MIN_NORMAL = sys.float_info.min
SLACK = 1e-11


def exp_index(v, scale, rounded=True):
    """(lowest, highest) acceptable bucket index of |v| at `scale`: bucket i holds (base**i, base**(i+1)].
    Exact, except that with `rounded` a value within 1e-11 (relative) of a boundary that is not its own value may be on either side."""
    v = abs(v)
    if v <= MIN_NORMAL:
        # implementations may treat subnormal numbers as the smallest normal one
        lo = (-1075 << scale) - 1 if scale >= 0 else -1075 >> -scale
        hi = (-1022 << scale) - 1 if scale >= 0 else -1023 >> -scale
        return (hi, hi) if v == MIN_NORMAL else (lo, hi)
    m, e = math.frexp(float(v))
    if m == 0.5 and v == float(v):
        i = ((e - 1) << scale) - 1 if scale > 0 else (e - 2) >> -scale
        return i, i
    if scale <= 0:
        step = 1 << -scale
        i = (e - 1) >> -scale
        if rounded and m > 1 - SLACK and e % step == 0:
            return i, i + 1
        if rounded and m < 0.5 + SLACK and (e - 1) % step == 0:
            return i - 1, i
        return i, i
    # log2(m) is exact to about 1e-16, the integral part is exact
    f = (math.log2(m) + 1) * 2.0**scale
    tol = max(SLACK * 1.5 * 2.0**scale, 1e-9)
    i = math.ceil(f) - 1 + ((e - 1) << scale)
    if rounded and abs(f - round(f)) <= tol:
        near = round(f) + ((e - 1) << scale)
        return near - 1, near
    return i, i


def finest(values, max_size, max_scale, optimistic):
    s = max_scale
    for side in ([v for v in values if v > 0], [-v for v in values if v < 0]):
        if not side:
            continue
        lo, hi = min(side), max(side)
        while s > -10:
            a, b = exp_index(lo, s, max_scale > 0), exp_index(hi, s, max_scale > 0)
            need = (b[0] - a[1] if optimistic else b[1] - a[0]) + 1
            if need <= max_size:
                break
            s -= 1
    return s


def check_exp(rec, p, vals, allv, max_size, max_scale, w):
    zeros = sum(1 for v in vals if v == 0)
    rec.eq(p.count, len(vals), w + " count")
    rec.eq(p.zero_count, zeros, w + " zero count")
    check_total(rec, p.sum, vals, w + " sum")
    rec.check(p.min == min(vals) and p.max == max(vals), "%s: min %r max %r of %s", w, p.min, p.max, vals)
    for name, b, side in (("positive", p.positive, [v for v in vals if v > 0]), ("negative", p.negative, [v for v in vals if v < 0])):
        counts = list(b.bucket_counts)
        rec.check(len(counts) <= max_size, "%s: %d %s buckets, at most %d configured", w, len(counts), name, max_size)
        rec.eq(sum(counts), len(side), "%s: %s counts %s" % (w, name, counts[:20]))
        sure, maybe = {}, []
        for v in side:
            lo, hi = exp_index(v, p.scale, max_scale > 0)
            if lo == hi:
                sure[lo] = sure.get(lo, 0) + 1
            else:
                maybe.append((lo, hi))
        for i in set(sure) | {b.offset + j for j, c in enumerate(counts) if c}:
            c = counts[i - b.offset] if 0 <= i - b.offset < len(counts) else 0
            low = sure.get(i, 0)
            high = low + sum(1 for lo, hi in maybe if lo <= i <= hi)
            rec.check(low <= c <= high, "%s: %s bucket %d at scale %d counts %d, expected %d%s of %s", w, name, i, p.scale, c, low, "" if low == high else ".." + str(high), side)
    nz = [v for v in vals if v != 0]
    if nz:
        lo = finest([v for v in allv if v != 0], max_size, max_scale, False)
        hi = finest(nz, max_size, max_scale, True)
        rec.check(lo <= p.scale <= hi, "%s: scale %d, finest possible %d..%d for %s", w, p.scale, lo, hi, vals)


# --- values for histograms --------------------------------------------------------------------
def exp_values(negative=False):
    pos = weighted(
        (3, st.floats(min_value=5e-324, max_value=sys.float_info.max)),
        (2, st.floats(min_value=0.01, max_value=1e6)),
        (2, st.integers(-1073, 1023).map(lambda e: math.ldexp(1.0, e))),
        (2, st.integers(1, 5000)),
        (1, st.tuples(st.integers(-30, 30), pick(-1, 1)).map(lambda t: math.nextafter(2.0 ** t[0], math.inf * t[1]))),
        (1, st.integers(0, 2**80)),
        (1, pick(0, 0.0, 1, 1.0, sys.float_info.max, MIN_NORMAL, 5e-324)),
    )
    if not negative:
        return pos
    return st.tuples(pos, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


near_values = st.tuples(pick(1.0, 1000.0, 0.001, 7), st.floats(1.0, 1.01)).map(lambda t: t[0] * t[1])


def ops_of(value, readers=2, max_size=25):
    """Histories of measurements (value, attribute set) and collections."""
    return st.lists(weighted(
        (5, st.tuples(st.just("rec"), value, attr_sets)),
        (1, st.tuples(st.just("collect"), st.integers(0, readers))),
    ), max_size=max_size)


def drive(rec, kind, temps, ops, agg, views=(), prefer=None, advisory=None, keys=None, unit="", name="n", out="n", accepts=lambda v: True):
    """Run one instrument's history against the model; returns (streams, collections in the middle)."""
    CLOCK.reset()
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t), **({"preferred_aggregation": {CLASS[kind]: prefer}} if prefer else {})) for t in temps]
    mp = provider(readers, views)
    ins = create(mp.get_meter("m"), kind, name, unit, advisory=advisory)
    model = [Stream(kind, agg, t[KINDS.index(kind)], keys, advisory) for t in temps]
    mid = []

    def collect(r):
        flat = flatten(rec, readers[r].get_metrics_data())
        model[r].check(rec, metric_for(rec, flat, out), "reader %d (%s)" % (r, model[r].temp))
        rec.check(len(flat) <= 1, "reader %d: %d metrics from one instrument", r, len(flat))

    for op in ops:
        if op[0] == "rec":
            if accepts(op[1]):
                for m in model:
                    m.record(op[1], attrs_of(op[2]))
            attrs = attrs_of(op[2])
            record(kind, ins, op[1], attrs)
            poison(attrs)
        else:
            mid.append(op[1] % len(readers))
            collect(mid[-1])
    for r in range(len(readers)):
        collect(r)
        collect(r)
    return model, mid
