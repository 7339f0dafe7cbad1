"""E07: a Prometheus scrape shows every current value, once, under legal names."""
from vlib import vsched

vsched.install()
from vlib.metrics import ASYNC, CLOCK, DEFAULT_BOUNDS, KINDS, SYNC, Observation, Resource, create, provider, record  # noqa: E402

import json  # noqa: E402
import re  # noqa: E402

import prometheus_client  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from prometheus_client import REGISTRY, generate_latest  # noqa: E402
from prometheus_client.openmetrics import exposition as openmetrics  # noqa: E402

from opentelemetry.exporter.prometheus import PrometheusMetricReader  # noqa: E402
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import i64, pick, utext, weighted  # noqa: E402

RULE = ("instruments of every kind with generated names, units, attributes, boundaries and values, scraped in both text formats by an independent reader of the format between flushes and measurements, and compared with a "
        "model of the current values; scrapes and flushes by several threads under generated schedules. non-trivial: a series is scraped more than once, or a name, unit or label had to be changed to be legal.")
TECHNIQUE = "property-based testing: stateful histories of measurements, flushes and scrapes against a reference model, generated schedules (Hypothesis)"
ASSUMPTIONS = ["instruments of a case have different names, and attribute sets different labels, once made legal (otherwise their series cannot be told apart)",
               "attribute keys are not empty, and histograms have no attribute le", "a synchronous gauge needs to show its value only in the first scrape after it was set",
               "a metric whose points have different label sets may repeat its header, as the existing tests demand",
               "numbers fit a double", "a histogram with negative boundaries may leave out its count and sum, as the client library does"]

for c in ("PROCESS_COLLECTOR", "PLATFORM_COLLECTOR", "GC_COLLECTOR"):
    REGISTRY.unregister(getattr(prometheus_client, c))

NAME = re.compile(r"[a-zA-Z_:][a-zA-Z0-9_:]*\Z")
LABEL = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*\Z")
SAMPLE = re.compile(r"([^ {]+)(?:\{(.*)\})? ([^ ]+)\Z", re.S)
PAIR = re.compile(r'([^=,]+)="((?:[^"\\\n]|\\[\\n"])*)"(,|\Z)')
ESC = re.compile(r"\\(.)")


def parse(rec, data, om=False):
    """Text of a scrape -> ([(name, labels, value)], {family: (type, help)})."""
    text = data.decode("utf-8")
    rec.check(text == "" or text.endswith("\n"), "the last line of the scrape does not end")
    samples, families = [], {}
    family = kind = None
    lines = text.split("\n")[:-1]
    if om:
        rec.eq(lines.pop() if lines else None, "# EOF", "end of the scrape")
    for line in lines:
        m = re.match(r"# (HELP|TYPE|UNIT) ([^ ]+) ?(.*)\Z", line, re.S)
        if m:
            what, name, rest = m.groups()
            rec.check(NAME.match(name), "illegal metric name %r", name)
            if what == "TYPE":
                family, kind = name, rest
                rec.check(rest in ("counter", "gauge", "histogram", "info"), "type %r of %s", rest, name)
                old = families.setdefault(name, [kind, None])
                rec.eq(kind, old[0] or kind, "type of %s" % name)
                old[0] = kind
            elif what == "UNIT":
                rec.check(name.endswith("_" + rest) and rest, "unit %r of %s", rest, name)
            else:
                families.setdefault(name, [None, None])[1] = ESC.sub(lambda e: {"n": "\n"}.get(e.group(1), e.group(1)), rest)
            continue
        m = SAMPLE.match(line)
        rec.check(m, "line %r is no sample", line)
        name, labels, value = m.groups()
        rec.check(NAME.match(name), "illegal series name %r", name)
        got, pos = {}, 0
        labels = labels or ""
        while pos < len(labels):
            p = PAIR.match(labels, pos)
            rec.check(p, "illegal labels %r", labels[pos:])
            rec.check(LABEL.match(p.group(1)), "illegal label name %r", p.group(1))
            rec.check(p.group(1) not in got, "label %s twice in %r", p.group(1), line)
            got[p.group(1)] = ESC.sub(lambda e: {"n": "\n"}.get(e.group(1), e.group(1)), p.group(2))
            pos = p.end()
        suffixes = {"histogram": ("_bucket", "_count", "_sum"), "gauge": ("",), "counter": ("_total",) if om else ("",), "info": ("_info",)}[kind]
        rec.check(name in [family + s for s in suffixes], "series %s under the header of %s %s", name, kind, family)
        samples.append((name, got, {"+Inf": float("inf"), "-Inf": float("-inf")}.get(value) if "Inf" in value else float(value)))
    return samples, families


def skey(name, labels):
    return name.lower(), frozenset((k, float(v)) if k == "le" and not v.strip().startswith('"') else (k, v) for k, v in labels.items())


# --- names, units and labels as they must appear --------------------------------------
def legal(s, also=""):
    """Every run of characters that are not letters or digits becomes one underscore."""
    out = ""
    for c in s:
        if c.isascii() and c.isalnum() or c in also and also:
            out += c
        elif not out.endswith("_"):
            out += "_"
    return out


def metric_name(name):
    return legal("_" + name[1:] if name[0].isdigit() else name, ":")


def label_name(key):
    return legal("_" + key[1:] if key[0].isdigit() else key)


def text_of(v):
    return v if isinstance(v, str) else json.dumps(list(v) if isinstance(v, tuple) else v)


def labels_of(attrs):
    out = {}
    for k in sorted(attrs):
        out.setdefault(label_name(k), []).append(text_of(attrs[k]))
    return {k: ";".join(v) for k, v in out.items()}


UNITS = {"": "", "1": "", "d": "days", "h": "hours", "min": "minutes", "s": "seconds", "ms": "milliseconds", "us": "microseconds", "ns": "nanoseconds", "By": "bytes", "KiBy": "kibibytes", "MiBy": "mebibytes", "GiBy": "gibibytes",
         "TiBy": "tibibytes", "KBy": "kilobytes", "MBy": "megabytes", "GBy": "gigabytes", "TBy": "terabytes", "m": "meters", "V": "volts", "A": "amperes", "J": "joules", "W": "watts", "g": "grams", "Cel": "celsius", "Hz": "hertz",
         "%": "percent", "{request}": "", "{}": "", "By{x y}": "bytes", "widgets": "widgets", "kg.m": "kg_m", "°": "", "a b": "a_b", "_x_": "x"}
PER = {"s": "second", "m": "minute", "h": "hour", "d": "day", "w": "week", "mo": "month", "y": "year", "foo": "foo"}
UNITS.update({f"{u}/{p}": f"{UNITS[u]}_per_{PER[p]}" if UNITS[u] else f"per_{PER[p]}" for u in ("By", "m", "s", "{request}", "widgets", "ms") for p in PER})
UNITS.update({"m/a b": "meters_per_a_b", "a b/s": "a_b_per_second", "a/b/c": "a_per_b_c", "{x}/a.b": "per_a_b", "m/{x}": "m"})
UNITS = {u: w for u, w in UNITS.items() if u.isascii()}


def series_name(kind, name, unit):
    base, suffix = metric_name(name).lower(), UNITS[unit]       # case is not claimed
    if kind in ("counter", "ocounter") and base.endswith("_total"):
        base = base[:-6]
    if suffix and not base.endswith("_" + suffix):
        base += "_" + suffix
    return base + "_total" if kind in ("counter", "ocounter") else base


# --- histories -------------------------------------------------------------------------------
ATTRS = [{}, {"a": 1}, {"a": 2}, {"a": "x", "b": "y"}, {"b": "x", "a": "y"}, {"http.method": "GET"}, {"http.method": "GET", "http.route": "/"}, {"l": ["x", "é"]}, {"c": True}, {"f": 1.5}, {"1st": "\"q\" \\ \n"}, {"a:b": ""},
         {"x.y": "1", "x_y": "2"}, {"x.y": "2", "x_y": "1"}, {"x-y": "3", "z": "1"}, {"b": 2, "a.b": "ü€", "a_b": 7}]
names = st.tuples(st.sampled_from(["req", "http.server", "A-b", "total", "jobs_total", "x/y", "s", "a_seconds", "q__q"]), st.integers(0, 9)).map(lambda t: t[0])
bounds = weighted((3, st.none()), (2, st.lists(st.integers(-5, 30).map(lambda n: n / 2), max_size=4, unique=True).map(sorted)), (1, pick([], [0], [1, 2.5], [0.1, 1e16, 1e20], [0.1234567, 1234567, 1234567.25], [2, 123456789.5])))
instrument = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "unit": st.sampled_from(sorted(UNITS)), "desc": weighted((3, pick("", "d")), (1, utext), (1, pick("a\nb\\", '"|%'))), "bounds": bounds, "rename": weighted((4, st.none()), (1, pick("1a", "9", "new name", "é", "a:b", "_x", "a__b", "New.name", "10_x"))), "exp": weighted((5, st.just(False)), (1, st.just(True)))})
value = weighted((3, st.integers(0, 9)), (2, st.integers(0, 200).map(lambda n: n / 8)), (1, st.integers(0, 2**60)), (1, st.integers(-9, -1)))
op = weighted((6, st.tuples(st.just("rec"), st.integers(0, 5), st.integers(0, len(ATTRS) - 1), value)), (3, st.tuples(st.just("scrape"))), (1, st.tuples(st.just("om"))), (1, st.tuples(st.just("flush"))), (1, st.tuples(st.just("collect"))))
resources = st.dictionaries(weighted((3, pick("service.name", "service_name", "host", "1x")), (1, utext.filter(lambda s: s and label_name(s) != ""))), weighted((2, utext), (1, i64), (1, st.booleans())), max_size=4)
case_s = st.fixed_dictionaries({"instruments": st.lists(st.tuples(names, instrument), min_size=1, max_size=4), "resource": resources, "target": weighted((3, st.just(True)), (1, st.just(False))), "ops": st.lists(op, min_size=2, max_size=16)})


def unregister_all():
    for c in list(getattr(REGISTRY, "_collector_to_names", {})):
        REGISTRY.unregister(c)


class World:
    def __init__(self, instruments, resource, target=True):
        CLOCK.reset()
        unregister_all()
        self.target = labels_of(resource) if target else None
        self.reader = PrometheusMetricReader() if target else PrometheusMetricReader(disable_target_info=True)
        self.ins, views, taken = [], [], {"target_info", "target"}
        for i, (name, d) in enumerate(instruments):
            new = d["rename"]
            base = series_name(d["kind"], new or name, d["unit"])
            while base in taken or base.removesuffix("_total") in taken or any(name == i["name"] for i in self.ins):
                name += "x" + str(i)
                new = new and new + "x" + str(i)
                base = series_name(d["kind"], new or name, d["unit"])
            taken |= {base, base.removesuffix("_total")}
            if d["exp"] and d["kind"] not in ASYNC:
                views.append(View(instrument_name=name, name=new, aggregation=ExponentialBucketHistogramAggregation()))
            elif d["bounds"] is not None and d["kind"] == "histogram":
                views.append(View(instrument_name=name, name=new, aggregation=ExplicitBucketHistogramAggregation(d["bounds"])))
            elif new:
                views.append(View(instrument_name=name, name=new))
            self.ins.append({"name": name, "series": base, "exp": d["exp"] and d["kind"] not in ASYNC, "kind": d["kind"], "desc": d["desc"], "unit": d["unit"], "values": {},
                             "bounds": [float(b) for b in (DEFAULT_BOUNDS if d["bounds"] is None else d["bounds"])], "fresh": set()})
        self.mp = provider([self.reader], views, Resource(dict(resource)))
        meter = self.mp.get_meter("m")
        for i in self.ins:
            i["handle"] = create(meter, i["kind"], i["name"], i["unit"], i["desc"], [lambda o, i=i: [Observation(v, dict(ATTRS[a])) for a, v in i["values"].items()]])

    def rec(self, i, a, v):
        i = self.ins[i % len(self.ins)]
        k = i["kind"]
        if k in ("counter", "ocounter", "histogram"):
            v = abs(v)
        old = i["values"].get(a)
        if k in ("counter", "updown"):
            i["values"][a] = v if old is None else old + v
        elif k == "histogram":
            i["values"].setdefault(a, []).append(v)
        elif k == "ocounter":
            i["values"][a] = v if old is None else old + v
        else:
            i["values"][a] = v
        i["fresh"].add(a)
        if k in SYNC:
            record(k, i["handle"], v, dict(ATTRS[a]))

    def has_data(self):
        return any(i["values"] for i in self.ins if i["kind"] != "gauge") or any(i["fresh"] for i in self.ins)

    def expected(self):
        """({key: value} that must appear, keys that may be missing)."""
        want, optional = {}, set()
        for i in self.ins:
            if i["exp"]:
                continue
            for a, v in i["values"].items():
                labels = labels_of(ATTRS[a])
                if i["kind"] != "histogram":
                    want[skey(i["series"], labels)] = float(v)
                    if i["kind"] == "gauge" and a not in i["fresh"]:
                        optional.add(skey(i["series"], labels))
                    continue
                counts = [sum(1 for x in v if x <= b) for b in i["bounds"]] + [len(v)]
                for b, n in zip([*i["bounds"], float("inf")], counts):
                    want[skey(i["series"] + "_bucket", {**labels, "le": repr(b)})] = float(n)
                for suffix, x in (("_count", len(v)), ("_sum", sum(v))):
                    want[skey(i["series"] + suffix, labels)] = float(x)
                    if i["bounds"] and i["bounds"][0] < 0:
                        optional.add(skey(i["series"] + suffix, labels))
        return want, optional

    def compare(self, rec, samples, what):
        want, optional = self.expected()
        got, infos, loose = {}, [], {i["series"].lower() + s for i in self.ins if i["exp"] for s in ("", "_total", "_bucket", "_sum", "_count")}
        for name, labels, v in samples:
            if name == "target_info":
                infos.append((labels, v))
                continue
            k = skey(name, labels)
            if name.lower() in loose and name.lower() not in {w[0] for w in want}:
                continue
            rec.check(k not in got, "%s: series %s %s appears twice", what, name, labels)
            rec.check(k in want, "%s: unexpected series %s %s", what, name, labels)
            got[k] = v
        for k, v in want.items():
            if k not in got:
                rec.check(k in optional, "%s: series %s %s is missing", what, k[0], dict(k[1]))
                continue
            rec.eq(got[k], v, "%s: value of %s %s" % (what, k[0], dict(k[1])))
        if self.target is None:
            rec.eq(infos, [], what + ": target info")
        elif want.keys() - optional:
            rec.eq(infos, [(self.target, 1.0)], what + ": target info")
        else:
            rec.check(len(infos) <= 1, "%s: target info %d times", what, len(infos))

    def types(self, rec, families):
        for i in self.ins:
            families = {n.lower(): f for n, f in families.items()}
            if i["exp"] or i["series"] not in families:
                continue
            rec.eq(families[i["series"]], [{"counter": "counter", "ocounter": "counter", "histogram": "histogram"}.get(i["kind"], "gauge"), i["desc"]], "type and help of %s" % i["series"])

    def scraped(self):
        for i in self.ins:
            i["fresh"].clear()


@sub("history", case_s, quick=5000, thorough=200000)
def history(rec, case):
    w = World(case["instruments"], case["resource"], case["target"])
    scrapes = 0
    try:
        for o in case["ops"]:
            if o[0] == "rec":
                w.rec(*o[1:])
            elif o[0] == "flush":
                rec.check(w.mp.force_flush() is not False, "force_flush failed")
            elif o[0] == "collect":
                w.reader.collect()
            else:
                om = o[0] == "om"
                samples, families = parse(rec, (openmetrics.generate_latest if om else generate_latest)(REGISTRY), om)
                w.compare(rec, samples, "scrape %d" % scrapes)
                if not om:
                    w.types(rec, families)
                w.scraped()
                scrapes += 1
                rec.nontrivial(samples and (scrapes > 1 or any(i["series"] != i["name"] for i in w.ins)))
                rec.label("scrape with target info" if w.target is not None else "without")
        samples, _ = parse(rec, generate_latest(REGISTRY))
        w.compare(rec, samples, "last scrape")
        w.mp.shutdown()
        rec.eq(parse(rec, generate_latest(REGISTRY))[0], [], "series after shutdown")
        for o in case["ops"]:
            rec.label(o[0])
    finally:
        unregister_all()


# --- arbitrary labels ---------------------------------------------------------------------------
keys = weighted((2, pick("a", "a.b", "a_b", "A-b", "a b", "é", "_", "__", "9", "9a", "a9", "A")), (2, st.text("ab._-19:é", min_size=1, max_size=4)), (1, utext.filter(bool)))
lvalues = weighted((3, utext), (2, st.text("\\n\"\n;,=}{", max_size=5)), (1, i64), (1, st.booleans()), (1, st.floats(allow_nan=False)), (1, st.lists(utext, max_size=3)), (1, st.lists(st.booleans(), max_size=2)), (1, st.lists(i64, max_size=3)))
lattrs = st.dictionaries(keys, lvalues, max_size=4)


@sub("labels", st.tuples(st.sampled_from(KINDS), st.lists(lattrs, min_size=1, max_size=4), st.dictionaries(keys, weighted((2, utext), (1, i64)), max_size=3)), quick=3000, thorough=120000,
     rule="any attributes of points and resources. non-trivial: two keys become one label, or a key or value had to change")
def labels(rec, case):
    kind, sets, resource = case
    CLOCK.reset()
    unregister_all()
    try:
        want, points = {}, []
        for a in sets:
            lab = labels_of(a)
            if kind == "histogram" and "le" in lab or skey("x", {k + "_": v for k, v in lab.items()}) in want:
                continue
            want[skey("x", {k + "_": v for k, v in lab.items()})] = lab
            points.append((a, len(points) + 1))
            rec.nontrivial(len(lab) < len(a) or any(a.get(k) != v for k, v in lab.items()))
            rec.label("colliding keys" if len(lab) < len(a) else "distinct keys")
        reader = PrometheusMetricReader()
        mp = provider([reader], (), Resource(dict(resource)))
        ins = create(mp.get_meter("m"), kind, "m", "", "", [lambda o: [Observation(v, dict(a)) for a, v in points]])
        if kind in SYNC:
            for a, v in points:
                record(kind, ins, v, dict(a))
        samples, _ = parse(rec, generate_latest(REGISTRY))
        got = sorted((sorted(lab.items()), v) for n, lab, v in samples if n in ("m", "m_total", "m_sum"))
        rec.eq(got, sorted((sorted(labels_of(a).items()), float(v)) for a, v in points), "labels and values of %s" % kind)
        if points:
            rec.eq([lab for n, lab, v in samples if n == "target_info"], [labels_of(resource)], "target info")
    finally:
        unregister_all()


# --- text that cannot be encoded -------------------------------------------------------------------
broken = st.tuples(utext, pick("\ud800", "\udcff", "\udfff"), utext).map("".join)


@sub("unencodable", st.tuples(st.sampled_from(KINDS), st.dictionaries(keys, st.one_of(broken, lvalues), min_size=1, max_size=3), keys, broken, weighted((2, st.none()), (1, broken)), st.booleans()), quick=600, thorough=20000,
     rule="one series or the resource has text that UTF-8 cannot hold; it and the others must still be scraped. non-trivial: all")
def unencodable(rec, case):
    kind, attrs, key, text, res, om = case
    CLOCK.reset()
    unregister_all()
    try:
        attrs = {**attrs, key: text}
        if kind == "histogram":
            attrs.pop("le", None)
        reader = PrometheusMetricReader()
        mp = provider([reader], (), Resource({} if res is None else {"r": res}))
        meter = mp.get_meter("m")
        other = create(meter, "counter", "other")
        other.add(5, {"a": "b"})
        ins = create(meter, kind, "m", "", "", [lambda o: [Observation(3, dict(attrs))]])
        if kind in SYNC:
            record(kind, ins, 3, dict(attrs))
        samples, _ = parse(rec, (openmetrics if om else prometheus_client).generate_latest(REGISTRY), om)
        rec.eq([(lab, v) for n, lab, v in samples if n == "other_total"], [({"a": "b"}, 5.0)], "the other series")
        got = [(lab, v) for n, lab, v in samples if n in ("m", "m_total", "m_sum")]
        rec.eq([v for _l, v in got], [3.0], "the series with the text")
        rec.eq(sorted(got[0][0]), sorted(labels_of(attrs)), "its labels")
        plain = {label_name(k) for k in attrs} - {label_name(k) for k, v in attrs.items() if any("\ud800" <= c <= "\udfff" for c in (v if isinstance(v, str) else ""))}
        rec.eq({k: got[0][0][k] for k in plain}, {k: labels_of(attrs)[k] for k in plain}, "its other labels")
        rec.nontrivial()
    finally:
        unregister_all()


# --- several scrapes at once -------------------------------------------------------------------------
@sub("together", st.tuples(st.lists(st.tuples(names, instrument), min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 9)), min_size=1, max_size=5), st.lists(pick("scrape", "scrape", "flush"), min_size=2, max_size=3),
                           vsched.schedules, st.booleans(), st.booleans()), quick=800, thorough=30000,
     rule="scrapes and flushes by several threads at once: each scrape is complete and without repetitions. non-trivial: two scrapes overlap")
def together(rec, case):
    instruments, recs, threads, schedule, om, narrow = case
    instruments = [(n, {**d, "kind": "ogauge" if d["kind"] == "gauge" else d["kind"]}) for n, d in instruments]

    def scenario(sim):
        w = World(instruments, {"r": "x"})
        for i, a, v in recs:
            w.rec(i, a, v)
        out = []

        def scraper():
            out.append((openmetrics if om else prometheus_client).generate_latest(REGISTRY))

        ts = [sim.thread(scraper if t == "scrape" else w.mp.force_flush, "t%d" % i) for i, t in enumerate(threads)]
        for t in ts:
            sim.join(t)
        for i, data in enumerate(out):
            w.compare(rec, parse(rec, data, om)[0], "scrape %d of %d" % (i, len(out)))
        rec.eq(len(out), threads.count("scrape"), "scrapes")
        w.compare(rec, parse(rec, generate_latest(REGISTRY))[0], "scrape afterwards")
        w.mp.shutdown()

    try:
        _, sim = vsched.simulate(schedule, scenario, trace="exporter/opentelemetry-exporter-prometheus" if narrow else True, ticks=False)
        for _name, e in sim.thread_errors:
            raise e
        rec.nontrivial(threads.count("scrape") > 1)
        rec.label("%d scrapes" % threads.count("scrape"))
    finally:
        unregister_all()
