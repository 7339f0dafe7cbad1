"""M12: the meter provider flushes and shuts down every reader, once."""
from vlib import vsched

vsched.install()
from vlib.metrics import CLOCK, InMemoryMetricReader, KINDS, SYNC, Observation, create, flatten, provider, record, temporalities

import logging  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.sdk.metrics.export import MetricReader  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("a provider with up to four readers that succeed, raise or take long, under any sequence of flush, shutdown, collection, measurement and instrument creation before and after, against a model of the calls each reader must get. "
        "non-trivial: a reader fails while another one succeeds, or something is done after shutdown.")
ASSUMPTIONS = ["a reader that raises is reported by an exception that names its class, one that returns False by False", "readers raise subclasses of Exception"]


class Boom(Exception):
    pass


OUTCOMES = ["ok", "ok", "ok", "raise", "value", "timeout", "key", "slow", "false"]
EXC = {"raise": Boom("boom"), "value": ValueError("v"), "timeout": TimeoutError(), "key": KeyError("k")}


def reader_class(i):
    class R(MetricReader):
        def __init__(self, flush, stop):
            super().__init__(preferred_temporality=temporalities("c" * 7))
            self.outcome = {"flush": flush, "shutdown": stop}
            self.calls = []
            self.data = []

        def _do(self, what, timeout):
            self.calls.append((what, timeout, CLOCK.now))
            how = self.outcome[what]
            if how in EXC:
                raise EXC[how]
            if how == "false":
                return False
            if how == "slow":
                CLOCK.tick(6_000_000_000)

        def force_flush(self, timeout_millis=10_000):
            if self._do("flush", timeout_millis) is False:
                return False
            return super().force_flush(timeout_millis)

        def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kw):
            self.data.append(metrics_data)

        def shutdown(self, timeout_millis=30_000, **kw):
            self._do("shutdown", timeout_millis)
    R.__name__ = R.__qualname__ = "Reader%dx" % i
    return R


op = weighted(
    (3, st.tuples(st.just("flush"), pick(None, None, 20_000, 13_000, 7_000, 1_000))),
    (1, st.tuples(st.just("shutdown"), pick(None, None, 20_000, 13_000, 7_000))),
    (2, st.tuples(st.just("rec"), st.integers(0, 20), st.integers(1, 9))),
    (2, st.tuples(st.just("make"), st.sampled_from(KINDS))),
)
case_s = st.tuples(st.lists(st.tuples(st.sampled_from(OUTCOMES), st.sampled_from(OUTCOMES)), min_size=0, max_size=4), st.lists(op, min_size=1, max_size=10))


@sub("provider", case_s, quick=8000, thorough=250000)
def run(rec, case):
    outcomes, ops = case
    CLOCK.reset()
    readers = [reader_class(i)(*o) for i, o in enumerate(outcomes)]
    mp = provider(readers)
    meter = mp.get_meter("m")
    down = False
    handles, totals = [], {}
    mixed = after = False
    seen = []
    for o in ops:
        if o[0] == "make":
            name = "i%d" % len(seen)
            seen.append(name)
            m = mp.get_meter("m") if down else meter
            handles.append((o[1], name, create(m, o[1], name, callbacks=[lambda o: [Observation(1)]]), down))
            after = after or down
            continue
        if o[0] == "rec":
            if handles:
                kind, name, ins, late = handles[o[1] % len(handles)]
                if kind in SYNC:
                    record(kind, ins, o[2], {})
                    if not down:
                        totals.setdefault(name, []).append(o[2])
            after = after or down
            continue
        if o[0] == "flush" and down:
            after = True
            try:
                mp.force_flush(**({} if o[1] is None else {"timeout_millis": o[1]}))
            except Exception:
                pass        # the readers decide
            for r in readers:
                rec.check(not [c for c in r.calls if c[0] == "shutdown"][1:], "reader shut down again by a flush")
            continue
        budget = o[1] if o[1] is not None else 10_000 if o[0] == "flush" else 30_000
        start = CLOCK.now
        before = [len(r.calls) for r in readers]
        try:
            ret = getattr(mp, "force_flush" if o[0] == "flush" else "shutdown")(**({} if o[1] is None else {"timeout_millis": o[1]}))
            err = None
        except Exception as e:
            err = e
        if o[0] == "shutdown" and down:
            rec.check(err is None, "second shutdown raised %r", err)
            rec.check([len(r.calls) for r in readers] == before, "second shutdown called the readers again")
            after = True
            continue
        failing, refusing = [], []
        spent = 0
        for r, n in zip(readers, before):
            calls = r.calls[n:]
            how = r.outcome[o[0]]
            if spent > budget:
                failing.append(r)       # out of time: not necessarily called
                rec.check(len(calls) <= 1, "reader called %d times by one %s", len(calls), o[0])
                continue
            rec.eq([c[0] for c in calls], [o[0]], "calls of %s by one %s" % (type(r).__name__, o[0]))
            left = budget - (calls[0][2] - start) / 1e6
            rec.check(0 < calls[0][1] <= left + 0.001 and calls[0][1] >= left - 0.01, "%s was given %s ms to %s of the %s ms that are left", type(r).__name__, calls[0][1], o[0], left)
            if how in EXC:
                failing.append(r)
            elif how == "false" and o[0] == "flush":
                refusing.append(r)
            elif how == "slow":
                spent += 6000
        if failing:
            rec.check(err is not None, "%s reported success though %s failed", o[0], [type(r).__name__ for r in failing])
            for r in failing:
                if r.outcome[o[0]] in EXC or r.calls[-1:] and r.calls[-1][0] != o[0]:
                    rec.check(type(r).__name__ in str(err), "%s: error %r does not name the failing %s", o[0], err, type(r).__name__)
            for r in readers:
                if r not in failing:
                    rec.check(type(r).__name__ not in str(err), "%s: error %r names %s, which did not fail", o[0], err, type(r).__name__)
        else:
            rec.check(err is None, "%s raised %r though no reader failed", o[0], err)
            if o[0] == "flush":
                rec.check(bool(ret) == (not refusing), "flush returned %r where the readers %s returned False", ret, [type(r).__name__ for r in refusing])
        mixed = mixed or 0 < len(failing) < len(readers)
        if o[0] == "flush":
            for r in readers:
                if r not in failing + refusing:
                    vals = {m.name: (getattr(m.data.data_points[0], "sum", None) or getattr(m.data.data_points[0], "value", None)) for d in r.data[-1:] if d for _r, _s, m in flatten(rec, d)}
                    for kind, name, _i, late in handles:
                        if kind in ("counter", "updown", "histogram") and name in totals:
                            rec.eq(vals.get(name), sum(totals[name]), "flushed value of %s" % name)
        else:
            down = True
    rec.nontrivial(mixed or after)
    rec.label("shut down" if down else "open")


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


own_s = st.tuples(st.integers(1, 3), st.lists(st.lists(st.integers(0, 2), max_size=3), min_size=1, max_size=4), st.lists(st.booleans(), min_size=4, max_size=4))


@sub("ownership", own_s, quick=2000, thorough=50000, rule="providers that are given readers which may belong to another provider, or twice; non-trivial: one was refused")
def ownership(rec, case):
    n, lists, stop = case
    readers = [InMemoryMetricReader(preferred_temporality=temporalities("c" * 7)) for _ in range(n)]
    owner = {}
    refused = False
    mps = []
    for i, l in enumerate(lists):
        ids = [x % n for x in l]
        mp, err = attempt(lambda: provider([readers[x] for x in ids]))
        bad = len(set(ids)) < len(ids) or any(owner.get(x) is not None for x in ids)
        rec.check((err is not None) == bad, "readers %s of which %s have a provider: %r", ids, sorted(owner), err)
        if bad:
            refused = True
            for x in ids:
                owner.setdefault(x, "?")        # a refused list: its readers may or may not be taken
                if owner[x] == "?":
                    return rec.nontrivial()
            continue
        for x in ids:
            owner[x] = mp
        mps.append((mp, ids))
        mp.get_meter("m").create_counter("c%d" % i).add(i + 1)
        if stop[i % 4]:
            mp.shutdown()
    for x, r in enumerate(readers):
        if owner.get(x) is None:
            continue
        got = [(m.name, m.data.data_points[0].value) for _r, _s, m in flatten(rec, r.get_metrics_data())]
        i = [j for j, l in enumerate(lists) if owner[x] is not None and any(owner[x] is mp and x in ids for mp, ids in mps) and x in [y % n for y in l]][0]
        rec.eq(got, [("c%d" % i, i + 1)], "metrics of a reader given to provider %d" % i)
    rec.nontrivial(refused)


@sub("after", st.tuples(st.lists(st.tuples(st.sampled_from(KINDS), pick("n", "o", "bad name", "é")), max_size=5), st.integers(1, 3), st.booleans()), quick=1500, thorough=30000,
     rule="meters and instruments obtained and used after the shutdown: no error, and no reader is given anything for them. non-trivial: two of them")
def after_(rec, case):
    specs, n, early = case
    CLOCK.reset()
    readers = [InMemoryMetricReader(preferred_temporality=temporalities("c" * 7)) for _ in range(n)]
    mp = provider(readers)
    called = []
    if early:
        mp.get_meter("early", "1")
    mp.shutdown()
    for i, (kind, name) in enumerate(specs):
        m = mp.get_meter("m%d" % i, "1", "http://s", {"k": 1})
        try:
            ins = create(m, kind, name, callbacks=[lambda o: called.append(1) or [Observation(1)]])
        except Exception as e:
            rec.fail("creating %s %r after shutdown raised %r" % (kind, name, e))
        if kind in SYNC:
            record(kind, ins, 1, {"a": 1})
    for r in readers:
        rec.check(not flatten(rec, r.get_metrics_data()), "a reader reports metrics of instruments made after shutdown")
    rec.check(not called, "callbacks of instruments made after shutdown were called")
    rec.nontrivial(len(specs) > 1)


@sub("race", st.tuples(st.integers(1, 3), st.lists(pick("shutdown", "shutdown", "flush", "make"), min_size=2, max_size=4), vsched.schedules), quick=800, thorough=20000,
     rule="threads that shut down, flush and create instruments at once: each reader is shut down at most once. non-trivial: two shutdowns and three switches")
def race(rec, case):
    n, what, schedule = case
    CLOCK.reset()
    readers = [reader_class(i)("ok", "ok") for i in range(n)]

    def scenario(sim):
        mp = provider(readers)

        def work(w):
            if w == "shutdown":
                mp.shutdown()
            elif w == "flush":
                mp.force_flush()
            else:
                mp.get_meter("m").create_counter("c").add(1)
        sim.join(*[sim.thread(lambda w=w: work(w), "%s%d" % (w, i)) for i, w in enumerate(what)])

    _, sim = vsched.simulate(schedule, scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    for r in readers:
        rec.eq(len([c for c in r.calls if c[0] == "shutdown"]), 1 if "shutdown" in what else 0, "shutdowns of a reader")
        rec.eq(len([c for c in r.calls if c[0] == "flush"]), what.count("flush"), "flushes of a reader")
    rec.nontrivial(what.count("shutdown") > 1 and sim.preempts >= 3)
