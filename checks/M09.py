"""M09: instruments and meters are identified by name, kind, unit and description; metrics carry what they were created with."""
from vlib import vsched

vsched.install()
from vlib.metrics import CLOCK, InMemoryMetricReader, KINDS, SYNC, Observation, Resource, create, flatten, provider, record, temporalities  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from vlib import concmake  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, scalar_attributes, utext, weighted  # noqa: E402

RULE = ("meters and instruments asked for in any order and number, by valid and invalid names and units, measured through every handle, and the whole collection of every reader compared with a model of the streams. "
        "non-trivial: an instrument is asked for twice, and something else differs from it in one property only.")
ASSUMPTIONS = ["schema url None equals the empty one, unit and description None equal empty ones", "names are reported in any letter case", "concurrent creation runs under the deterministic scheduler"]

FIRST = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
REST = FIRST + "0123456789-_./"


def valid_name(n):
    return 1 <= len(n) <= 255 and n[0] in FIRST and all(c in REST for c in n)


def valid_unit(u):
    return u is None or len(u) <= 63 and all(ord(c) < 128 for c in u)


good_name = st.tuples(st.sampled_from(FIRST), st.text(REST, max_size=6)).map("".join)
long_name = st.tuples(st.sampled_from(FIRST), pick(252, 253, 254, 255, 256), st.sampled_from(REST)).map(lambda t: t[0] + t[2] * t[1])
odd_name = st.tuples(good_name, st.integers(0, 7), weighted((2, st.sampled_from(" \t\n:,;@#%&*()[]{}+=~?!$^|\\\"'`<>\x00")), (1, st.characters(codec="utf-8", min_codepoint=128)), (1, pick("K", "ſ", "é", "٣", "_", "0")))).map(lambda t: t[0][:t[1]] + t[2] + t[0][t[1]:])
names = weighted((3, good_name), (1, long_name), (3, odd_name), (1, pick("", "_a", "1a", "-", "a", "A"))).map(str.strip)       # padding is not claimed
units = weighted((2, pick(None, "", "1", "ms", "By/s", "{requests}")), (1, st.text(st.characters(max_codepoint=127), max_size=5)), (1, st.text("ab{}é\x7f\x80", max_size=3)), (1, pick("u" * 63, "u" * 64, "u" * 62 + "\n", "µs", "\x00", "\x7f", "\x80")))


@sub("grammar", st.tuples(st.sampled_from(KINDS), st.lists(st.tuples(names, units, weighted((2, pick("", "d")), (1, utext), (1, st.none()))), min_size=1, max_size=4)), quick=8000, thorough=300000,
     rule="names and units in and out of the grammar; refused ones leave nothing behind, accepted ones are reported as given. non-trivial: one refused and one accepted")
def grammar(rec, case):
    kind, specs = case
    CLOCK.reset()
    reader = InMemoryMetricReader(preferred_temporality=temporalities("c" * 7))
    meter = provider([reader]).get_meter("m")
    want = {}
    refused = 0
    for name, unit, desc in specs:
        ok = valid_name(name) and valid_unit(unit)
        try:
            ins = create(meter, kind, name, unit, desc, [lambda o: [Observation(3)]])
        except Exception as e:
            rec.check(not ok, "instrument %r with unit %r refused: %r", name, unit, e)
            refused += 1
            continue
        rec.check(ok, "instrument %r with unit %r was created", name, unit)
        if kind in SYNC:
            record(kind, ins, 3, {})
        want.setdefault((name.lower(), unit or "", desc or ""), name)
    got = sorted((m.name.lower(), m.unit, m.description) for _r, _s, m in flatten(rec, reader.get_metrics_data()))
    rec.eq(got, sorted(want), "metrics after creating %s" % (specs,))
    rec.nontrivial(refused and want)


SCOPES = [("m", None, None, None), ("m", "", None, None), ("m", "1.0", None, None), ("m", "1.0", "http://s/1", None), ("m", "1.0", "http://s/2", None), ("m", None, "http://s/1", None), ("m", None, "", None), ("M", None, None, None), ("m.x", None, None, None),
          ("m", None, None, {"k": 1}), ("m", None, None, {"k": 2}), ("m", None, None, {"k": 1, "j": "x"}), ("m", "1.0", "http://s/1", {"k": 1}), ("m", None, None, {"l": ["a", "b"]})]
scope_i = weighted((3, st.integers(0, 2)), (2, st.integers(0, len(SCOPES) - 1)))
ident = st.tuples(weighted((3, st.sampled_from(KINDS)), (3, pick("counter", "histogram"))), pick("n", "N", "n", "o", "n.o", "n_o", "O"), pick("", "", "ms", "MS", "None", ",", "s"), pick("", "", "d", "D", "None", ",d"))
op = weighted(
    (5, st.tuples(st.just("make"), scope_i, ident, st.booleans())),
    (4, st.tuples(st.just("rec"), st.integers(0, 30), st.integers(1, 9))),
    (1, st.tuples(st.just("collect"), st.integers(0, 1))),
    (1, st.tuples(st.just("meter"), scope_i)),
)
case_s = st.fixed_dictionaries({"ops": st.lists(op, min_size=2, max_size=16), "resource": scalar_attributes, "schema": pick("", "http://r"), "readers": st.integers(1, 2), "advisory": st.booleans()})


def scope_key(i):
    n, v, s, a = SCOPES[i]
    return n, v, s or "", tuple(sorted((k, tuple(x) if isinstance(x, list) else x) for k, x in (a or {}).items()))


@sub("identity", case_s, quick=5000, thorough=150000)
def identity(rec, case):
    CLOCK.reset()
    readers = [InMemoryMetricReader(preferred_temporality=temporalities("c" * 7)) for _ in range(case["readers"])]
    resource = Resource(dict(case["resource"]), case["schema"])
    mp = provider(readers, resource=resource)
    meters, handles, streams = {}, [], {}
    repeated = close = False

    def meter_of(i):
        n, v, s, a = [x if x is None or isinstance(x, dict) else "".join(list(x)) for x in SCOPES[i]]      # equal, not the same objects
        a = None if a is None else {k: list(x) if isinstance(x, list) else x for k, x in a.items()}
        m = mp.get_meter(n, v, s, a)
        if a:
            a.clear()
        old = meters.setdefault(scope_key(i), m)
        rec.check(old is m, "a second meter for the scope %s", SCOPES[i])
        rec.check(all(x is not m for k, x in meters.items() if k != scope_key(i)), "scope %s was given the meter of another scope", SCOPES[i])
        return m

    def collect(r):
        got = []
        for res, sc, m in flatten(rec, readers[r].get_metrics_data()):
            rec.check(res == resource and dict(res.attributes) == dict(resource.attributes) and res.schema_url == resource.schema_url, "metric %s with resource %s", m.name, res)
            pts = list(m.data.data_points)
            rec.check(len(pts) == 1, "%d points of %s in one attribute set", len(pts), m.name)
            kind = type(m.data).__name__ + ("+" if getattr(m.data, "is_monotonic", False) else "")
            got.append(((sc.name, sc.version, sc.schema_url, tuple(sorted((k, v) for k, v in sc.attributes.items()))), m.name.lower(), m.unit, m.description, kind, pts[0].sum if hasattr(pts[0], "sum") else pts[0].value))
        want = []
        for (sk, kind, _low, unit, desc), s in streams.items():
            if kind in SYNC and s[1] is None:
                continue
            shape = {"counter": "Sum+", "ocounter": "Sum+", "updown": "Sum", "oupdown": "Sum", "histogram": "Histogram"}.get(kind, "Gauge")
            want.append((sk, _low, unit, desc, shape, s[1] if kind in SYNC else s[2]))
            if kind == "gauge":
                gauges[r].add((sk, kind, _low, unit, desc))
        key = repr
        want_sure = [w for w, k in zip(want, [k for k, s in streams.items() if not (k[1] in SYNC and s[1] is None)]) if k[1] != "gauge" or k in fresh[r]]
        fresh[r].clear()
        rec.eq(sorted([g for g in got], key=key), sorted(want_sure, key=key), "metrics of reader %d" % r)

    gauges = [set() for _ in readers]
    fresh = [set() for _ in readers]        # gauges set since the last collection
    n = 0
    for o in case["ops"]:
        if o[0] == "meter":
            meter_of(o[1])
        elif o[0] == "make":
            _, i, (kind, name, unit, desc), none = o
            m = meter_of(i)
            n += 1
            key = (scope_key(i), kind, name.lower(), unit, desc)
            value = streams[key][2] if key in streams else n
            kw = {"advisory": [1.0, 100.0]} if case["advisory"] and kind == "histogram" and key not in streams else {}
            ins = create(m, kind, name, None if none and not unit else unit, None if none and not desc else desc, [lambda o, v=value: [Observation(v)]], **kw)
            repeated = repeated or key in streams
            close = close or any(sum(a != b for a, b in zip(k, key)) == 1 for k in streams)
            streams.setdefault(key, [name, None, value])
            if kind in SYNC:
                handles.append((key, ins))
        elif o[0] == "rec" and handles:
            key, ins = handles[o[1] % len(handles)]
            record(key[1], ins, o[2], {})
            s = streams[key]
            s[1] = o[2] if key[1] == "gauge" else (s[1] or 0) + o[2]
            if key[1] == "gauge":
                for f in fresh:
                    f.add(key)
        elif o[0] == "collect":
            collect(o[1] % len(readers))
    for r in range(len(readers)):
        collect(r)
    rec.nontrivial(repeated and close)


sub("threads", concmake.make_s, quick=1000, thorough=25000, rule=concmake.RULE)(concmake.create_)
