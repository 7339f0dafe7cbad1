"""M06: observable instruments."""
from vlib.metrics import (ASYNC, CLOCK, CallbackOptions, InMemoryMetricReader, KINDS, Observation, Stream, attr_sets, attrs_of, create, default_agg, flatten, metric_for, provider, record, temporalities, temporality, vw)
from hypothesis import strategies as st

from vlib.core import sub
from vlib.gen import pick, weighted

RULE = ("one to four observable instruments with one to three callbacks each (functions returning lists, tuples or iterators, generator functions that reuse their attributes, generator objects resumed with the options) whose "
        "scripts observe, observe nothing, raise before, between or after observations, return no iterable, take long; collections by one to three readers; every collection must call each callback exactly once and report what "
        "was observed then, with deltas against that reader's previous report. non-trivial: at least two readers or temporalities, a failing callback and a later collection that succeeded.")
ASSUMPTIONS = ["observations made by a generator function before it raises count", "a collection that times out may leave later callbacks uncalled but reports nothing and leaves nothing behind"]

value = weighted((4, st.integers(0, 50)), (1, st.integers(-2000, 2000).map(lambda n: n / 8)), (1, st.integers(-(2**62), 2**62)))
obs = st.lists(st.tuples(value, attr_sets), max_size=4)
step = st.fixed_dictionaries({"obs": obs, "end": weighted((6, st.just("ok")), (1, st.just("raise")), (1, st.just("raise-first")), (1, st.just("none")), (1, st.just("garbage"))), "slow": weighted((20, st.just(0)), (1, pick(3, 11)))})
cb = st.fixed_dictionaries({"form": pick("list", "tuple", "iter", "genfunc", "genobj", "genobj-end"), "steps": st.lists(step, min_size=1, max_size=4)})
case_s = st.fixed_dictionaries({
    "insts": st.lists(st.tuples(pick(*ASYNC), st.lists(cb, max_size=3)), min_size=1, max_size=4),
    "readers": st.lists(temporality, min_size=1, max_size=3),
    "collects": st.lists(weighted((6, st.integers(0, 2)), (1, st.tuples(st.just("sync"), st.integers(0, 9)))), min_size=1, max_size=8),
})


class Boom(Exception):
    pass


@sub("history", case_s, quick=2500)
def history(rec, case):
    CLOCK.reset()
    calls = {}
    heard = {}      # instrument -> observations of the running collection
    raised = [0]

    def make(i, j, spec):
        calls[i, j] = 0
        state = {"done": False}

        def plan(options):
            rec.check(isinstance(options, CallbackOptions), "callback got %r instead of CallbackOptions", options)
            n = calls[i, j]
            calls[i, j] = n + 1
            s = spec["steps"][n % len(spec["steps"])]
            if s["slow"]:
                CLOCK.tick(s["slow"] * 10**9)
            if s["end"] != "ok":
                raised[0] += 1
            return s

        def hear(v, a):
            heard.setdefault(i, []).append((v, a))

        form = spec["form"]

        if form in ("list", "tuple", "iter"):
            def f(options):
                s = plan(options)
                if s["end"] in ("raise", "raise-first"):
                    raise Boom()
                if s["end"] == "none":
                    return None
                if s["end"] == "garbage":
                    return 7
                for v, a in s["obs"]:
                    hear(v, a)
                out = [Observation(v, attrs_of(a)) for v, a in s["obs"]]
                return {"list": list, "tuple": tuple, "iter": iter}[form](out)
            return f

        if form == "genfunc":
            def f(options):
                s = plan(options)
                if s["end"] == "raise-first":
                    raise Boom()
                d = {}
                for v, a in s["obs"]:
                    new = attrs_of(a)
                    if new is not None:
                        d.clear()
                        d.update(new)
                        new = d
                    hear(v, a)
                    yield Observation(v, new)
                if s["end"] == "raise":
                    raise Boom()
                if s["end"] == "garbage":
                    yield None
            return f

        def gen():
            options = yield
            while True:
                s = plan(options)
                if s["end"] in ("raise", "raise-first"):
                    state["done"] = True
                    raise Boom()
                if s["end"] == "none" and form == "genobj-end":
                    state["done"] = True
                    return
                if s["end"] == "none":
                    out = None
                else:
                    for v, a in s["obs"]:
                        hear(v, a)
                    out = [Observation(v, attrs_of(a)) for v, a in s["obs"]]
                options = yield out
        g = gen()
        state["gen"] = True
        dead[i, j] = state
        return g

    dead = {}
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["readers"]]
    mp = provider(readers)
    meter = mp.get_meter("m")
    sync = meter.create_counter("sync")
    for i, (kind, cbs) in enumerate(case["insts"]):
        create(meter, kind, "o%d" % i, callbacks=[make(i, j, s) for j, s in enumerate(cbs)])
    models = [[Stream(k, default_agg(k), t[KINDS.index(k)]) for k, _ in case["insts"]] for t in case["readers"]]
    smodels = [Stream("counter", ("sum",), t[0]) for t in case["readers"]]
    failed = after = False
    order = [(i, j) for i, (_k, cbs) in enumerate(case["insts"]) for j in range(len(cbs))]
    for c in case["collects"]:
        if isinstance(c, tuple):
            sync.add(c[1], {"s": 1})
            for s in smodels:
                s.record(c[1], {"s": 1})
            continue
        r = c % len(readers)
        before = dict(calls)
        was_dead = {k: s["done"] for k, s in dead.items()}
        heard.clear()
        raised[0] = 0
        start = CLOCK.now
        try:
            data = readers[r].get_metrics_data()
        except Exception as e:
            rec.check(CLOCK.now - start >= 10 * 10**9, "collection failed with %r although callbacks took %.3f s", e, (CLOCK.now - start) / 1e9)
            for k in order:
                rec.check(calls[k] - before[k] <= 1, "callback %s called %d times in one collection", k, calls[k] - before[k])
            rec.label("timeout")
            failed = True
            continue
        for k in order:
            n = calls[k] - before[k]
            rec.check(n == (0 if was_dead.get(k) else 1), "callback %s called %d times in one collection", k, n)
        flat = flatten(rec, data)
        for i, s in enumerate(models[r]):
            for v, a in heard.get(i, ()):
                s.record(v, attrs_of(a))
            s.check(rec, metric_for(rec, flat, "o%d" % i), "reader %d instrument %d %s (%s)" % (r, i, s.kind, s.temp))
        smodels[r].check(rec, metric_for(rec, flat, "sync"), "reader %d sync counter" % r)
        rec.check(len(flat) <= len(case["insts"]) + 1, "%d metrics", len(flat))
        after = after or failed
        failed = failed or bool(raised[0])
    rec.nontrivial(after and len(case["readers"]) > 1)


act = weighted((2, st.tuples(st.just("add"), st.integers(0, 5))), (2, st.tuples(st.just("create"), pick("counter", "histogram", "gauge", "ocounter", "ogauge"), st.integers(0, 3))), (1, st.just(("meter",))))
reent_s = st.fixed_dictionaries({"kind": pick(*ASYNC), "acts": st.lists(st.lists(act, max_size=3), min_size=1, max_size=4), "form": pick("list", "genfunc"), "readers": st.integers(1, 2), "collects": st.lists(st.integers(0, 1), min_size=1, max_size=5)})


@sub("reentrant", reent_s, quick=800, rule="callbacks that record on other instruments, create instruments and obtain meters; non-trivial: one created an observable instrument that was collected later")
def reentrant(rec, case):
    CLOCK.reset()
    readers = [InMemoryMetricReader(preferred_temporality=temporalities("c" * 7)) for _ in range(case["readers"])]
    mp = provider(readers)
    meter = mp.get_meter("m")
    total = {"n": 0, "calls": 0}
    inner = {}
    counter = meter.create_counter("c")

    def body():
        acts = case["acts"][total["calls"] % len(case["acts"])]
        total["calls"] += 1
        for a in acts:
            if a[0] == "add":
                counter.add(a[1])
                total["n"] += a[1]
            elif a[0] == "meter":
                rec.check(mp.get_meter("m") is meter, "another meter for the same scope")
            else:
                name = "x%s%d" % (a[1], a[2])

                def cb(options, name=name):
                    inner[name] = inner.get(name, 0) + 1
                    return [Observation(5)]

                if name in inner or a[1] not in ASYNC:
                    create(meter, a[1], name, callbacks=[cb])
                else:
                    inner[name] = 0
                    create(meter, a[1], name, callbacks=[cb])
        return [Observation(total["calls"])]

    def genfunc(options):
        yield from body()

    create(meter, case["kind"], "o", callbacks=[genfunc if case["form"] == "genfunc" else lambda options: body()])
    late = False
    for r in case["collects"]:
        before = dict(inner)
        n = total["calls"]
        flat = flatten(rec, readers[r % len(readers)].get_metrics_data())
        rec.eq(total["calls"], n + 1, "calls of the callback in one collection")
        for name, k in inner.items():
            rec.check(k - before.get(name, 0) == 1 if name in before else k <= 1, "callback of %s called %d times in a collection", name, k - before.get(name, 0))
            late = late or name in before
            if k > before.get(name, 0):
                m = metric_for(rec, flat, name)
                rec.check(m is not None and [p.value for p in m.data.data_points] == [5], "observable %s reported as %s", name, m)
        m = metric_for(rec, flat, "o")
        rec.check(m is not None and [p.value for p in m.data.data_points] == [total["calls"]], "observed %s, reported %s", total["calls"], m)
    readers[0].get_metrics_data()   # increments made during a collection are all there at the latest at the next
    flat = flatten(rec, readers[0].get_metrics_data())
    want = total["n"]
    m = metric_for(rec, flat, "c")
    got = m.data.data_points[0].value if m else 0
    rec.eq(got, want, "counter incremented by callbacks")
    rec.nontrivial(late)
