"""M10: the periodic reader exports everything, on time, one export at a time, through failures, until shutdown."""
from vlib import vsched
vsched.install()

import math  # noqa: E402
import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.context import get_current  # noqa: E402
from opentelemetry.metrics import Observation  # noqa: E402
from opentelemetry.sdk.metrics import Counter, MeterProvider  # noqa: E402
from opentelemetry.sdk.metrics.export import AggregationTemporality, MetricExporter, MetricExportResult, PeriodicExportingMetricReader  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("a periodic reader with an exporter and callbacks that succeed, fail, raise or are slow, and threads that measure, flush and shut down, under a deterministic scheduler with a virtual clock; every measurement is identifiable. "
        "non-trivial: a failure or slow export, or two threads with switches between them.")
ASSUMPTIONS = ["callbacks and exporters raise subclasses of Exception", "the total duration of all generated exports and callbacks is below the shutdown budget"]
MS = 1_000_000


class Exporter(MetricExporter):
    """Remembers what it is given, on the virtual clock."""

    def __init__(self, sim, temp, behaviours, flush=True):
        super().__init__(preferred_temporality={Counter: AggregationTemporality.DELTA if temp == "d" else AggregationTemporality.CUMULATIVE})
        self.sim, self.behaviours, self.temp = sim, list(behaviours), temp
        self.seq = 0
        self.flush = flush
        self.budgets = []
        self.exports, self.shutdowns, self.problems, self.flushes = [], [], [], []
        self.open = False

    def tick(self):
        self.seq += 1
        return self.seq

    def export(self, metrics_data, timeout_millis=10_000, **kwargs):
        e = {"start": self.tick(), "t0": self.sim.now, "timeout": timeout_millis, "end": None, "points": {}, "thread": self.sim.cur.name}
        if self.open:
            self.problems.append("an export was called while another one is running")
        if self.shutdowns:
            self.problems.append("an export was called after the shutdown of the exporter")
        self.open = True
        self.exports.append(e)
        try:
            for rm in metrics_data.resource_metrics:
                for sm in rm.scope_metrics:
                    for m in sm.metrics:
                        if m.name == "c":
                            for p in m.data.data_points:
                                e["points"][p.attributes["n"]] = p.value
            how, ms = self.behaviours.pop(0) if self.behaviours else ("ok", 0)
            if ms:
                time.sleep(ms / 1000)
            if how == "raise":
                raise (ValueError, OSError, KeyError, RuntimeError, TimeoutError)[len(self.exports) % 5]("export failed")
            return MetricExportResult.FAILURE if how == "fail" else MetricExportResult.SUCCESS
        finally:
            self.open = False
            e["end"], e["t1"] = self.tick(), self.sim.now

    def force_flush(self, timeout_millis=10_000):
        self.flushes.append(self.tick())
        return self.flush

    def shutdown(self, timeout_millis=None, **kwargs):
        self.budgets.append((timeout_millis, self.sim.now))
        self.shutdowns.append(self.tick())


class Odd(str):
    """An attribute value the SDK cannot use."""

    def __new__(cls, log):
        self = str.__new__(cls, "odd")
        self.error = (KeyError, OSError, ZeroDivisionError)[len(log) // 3 % 3]
        return self

    def __hash__(self):
        raise self.error("no hash")

    __eq__ = str.__eq__


def callbacks(sim, behaviours, log):
    left = list(behaviours)

    def first(options):
        how, ms = left.pop(0) if left else ("ok", 0)
        log.append({"t0": sim.now, "how": how, "ms": ms, "thread": sim.cur.name})
        if ms:
            time.sleep(ms / 1000)
        if how == "raise":
            raise ValueError("callback failed")
        if how == "late":
            yield Observation(1)
            raise KeyError("callback failed")
        if how == "bad":
            if len(log) % 3 == 0:
                yield Observation(1, {"k": Odd(log)})
            yield Observation("not a number")
        if how == "none":
            yield None
        yield Observation(1)

    return [first]


behaviour = st.tuples(weighted((5, st.just("ok")), (2, st.just("raise")), (1, st.just("fail"))), weighted((4, st.just(0)), (2, st.integers(1, 30)), (1, st.integers(100, 1500))))
reaction = st.tuples(weighted((6, st.just("ok")), (1, pick("raise", "late", "none")), (1, st.just("bad"))), weighted((5, st.just(0)), (1, st.integers(1, 40)), (1, st.integers(100, 800))))
op = weighted((6, st.tuples(st.just("rec"), st.integers(1, 3))), (2, st.tuples(st.just("sleep"), pick(0.1, 0.5, 1, 1, 2.5))), (3, st.tuples(st.just("flush"), pick(None, None, 10_000, 30_000))), (1, st.tuples(st.just("shutdown"))))
collecting = weighted((3, op), (2, st.tuples(st.just("collect"))))
script = st.lists(op, min_size=1, max_size=6)
case_s = st.fixed_dictionaries({
    "interval": weighted((3, pick(5, 20, 100, 1000, 5000)), (1, st.just(math.inf))), "timeout": weighted((4, st.just(30_000)), (1, pick(10, 100))), "temp": pick("c", "d"),
    "exports": st.lists(behaviour, max_size=5), "reactions": st.lists(reaction, max_size=5), "scripts": weighted((4, st.lists(script, min_size=1, max_size=3)), (1, st.lists(st.lists(collecting, min_size=1, max_size=4), min_size=2, max_size=3))), "schedule": vsched.schedules, "linger": pick(0, 1, 3), "via": pick("provider", "reader"),
    "flush": pick(True, True, False), "budget": pick(None, 40_000, 90_000),
})


@sub("history", case_s, quick=3000, thorough=80000)
def history(rec, case):
    log = []
    out = {}
    unit = min(case["interval"], 1000) / 1000

    def scenario(sim):
        ex = out["ex"] = Exporter(sim, case["temp"], case["exports"], case["flush"])
        reader = PeriodicExportingMetricReader(ex, export_interval_millis=case["interval"], export_timeout_millis=case["timeout"])
        mp = MeterProvider([reader], Resource({}), shutdown_on_exit=False)
        meter = mp.get_meter("m")
        c = meter.create_counter("c")
        meter.create_observable_counter("o1", callbacks(sim, case["reactions"], log))
        meter.create_observable_counter("o2", [lambda o: [Observation(1)]])
        target = mp if case["via"] == "provider" else reader
        out["recs"], out["flush"], out["stop"] = recs, flushes, stops = [], [], []

        def do(ops):
            for o in ops:
                if o[0] == "rec":
                    for _ in range(o[1]):
                        r = {"n": len(recs), "start": ex.tick()}
                        recs.append(r)
                        c.add(r["n"] + 1, {"n": r["n"]})
                        r["end"] = ex.tick()
                elif o[0] == "sleep":
                    time.sleep(o[1] * unit)
                elif o[0] == "flush":
                    ctx = get_current()
                    f = {"start": ex.tick(), "t0": sim.now, "calls": len(log), "after": bool(stops), "err": None}
                    flushes.append(f)
                    try:
                        f["ret"] = target.force_flush(**({} if o[1] is None else {"timeout_millis": o[1]}))
                    except Exception as e:
                        f["err"] = e
                    f["end"], f["t1"] = ex.tick(), sim.now
                    f["stopped"] = bool(stops)
                    f["budget"] = o[1] or 10_000
                    rec.check(get_current() == ctx, "flush changed the current context")
                elif o[0] == "collect":
                    try:
                        reader.collect()
                    except Exception:
                        pass
                else:
                    stop()

        def stop():
            s = {"start": ex.tick(), "t0": sim.now, "calls": len(log)}
            stops.append(s)
            target.shutdown(**({} if case["budget"] is None else {"timeout_millis": case["budget"]}))
            s["end"], s["t1"] = ex.tick(), sim.now
        mine = len(sim.threads)
        ts = [sim.thread(lambda ops=ops: do(ops), "user%d" % i) for i, ops in enumerate(case["scripts"][1:])]
        do(case["scripts"][0])
        sim.join(*ts)
        stop()
        time.sleep(case["linger"] * unit)
        out["alive"] = [t.name for t in sim.threads[1:mine] if not t.done]

    _, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    for name, e in sim.thread_errors:
        if not name.startswith("user"):
            rec.fail("the thread of the reader died: %r" % (e,))
        raise e
    ex, recs, flushes, stops = out["ex"], out["recs"], out["flush"], out["stop"]
    for p in ex.problems:
        rec.fail(p)
    rec.eq(len(ex.shutdowns), 1, "shutdowns of the exporter")
    rec.check(not out["alive"], "threads %s still run after shutdown", out["alive"])
    first = stops[0]
    given, at = ex.budgets[0]
    left = [(case["budget"] or 30_000) - (at - s["t0"]) / MS for s in stops if s["t0"] <= at]
    rec.check(isinstance(given, (int, float)) and any(x - 1000 <= given <= x + 1 for x in left), "the exporter was given %r ms to shut down, of the %s ms that were left", given, left)
    for e in ex.exports:
        rec.check(e["start"] < max(s["end"] for s in stops), "an export was made after shutdown had returned")
        for n, v in e["points"].items():
            # while a measurement is under way, its stream may already show nothing
            rec.check(v in (0, n + 1), "measurement %d of %d was exported as %r", n, n + 1, v)
    # each measurement in the exports
    seen = {}
    for e in ex.exports:
        for n in [n for n, v in e["points"].items() if v]:
            seen.setdefault(n, []).append(e)
    if case["temp"] == "d":
        for n, es in seen.items():
            rec.check(len(es) == 1, "measurement %d was exported %d times", n, len(es))
    direct = any(o[0] == "collect" for s in case["scripts"] for o in s)     # a direct collection may still hold what a flush no longer finds
    for f in flushes:
        if f["after"] or direct:
            continue
        wrong = [x for x in log[f["calls"]:] if x["t0"] <= f["t1"] and (x["how"] == "bad" or x["ms"])]
        if f["err"] is not None:
            rec.check(wrong or f["stopped"] or f["t1"] - f["t0"] >= f["budget"] * MS, "flush raised %r though nothing failed", f["err"])
            continue
        if f["stopped"]:
            continue
        rec.check(bool(f["ret"]) == case["flush"], "flush returned %r, and that of the exporter %r", f.get("ret"), case["flush"])
        rec.check([x for x in ex.flushes if f["start"] < x < f["end"]], "the exporter was not flushed")
        for r in recs:
            if r.get("end", math.inf) < f["start"]:
                rec.check([e for e in seen.get(r["n"], ()) if e["end"] < f["end"]], "measurement %d, made before a flush, was not exported when the flush had returned", r["n"])
                if case["temp"] == "c":
                    rec.check([e for e in seen[r["n"]] if e["end"] > f["start"]], "a flush exported nothing")
    # shutdown exports what was measured before it; its own collection may fail
    bad = [x for x in log if x["t0"] + x["ms"] * MS >= first["t0"] and (x["how"] == "bad" or x["ms"] >= case["timeout"])]
    if not bad and not direct:
        for r in recs:
            if r["end"] < first["start"]:
                rec.check(seen.get(r["n"]), "measurement %d, made before shutdown, was never exported", r["n"])
    rec.label("inf" if case["interval"] == math.inf else "tick", case["via"])
    rec.nontrivial(any(b != ("ok", 0) for b in case["exports"] + case["reactions"]) or len(case["scripts"]) > 1 and sim.preempts >= 3)


tick_s = st.fixed_dictionaries({
    "interval": st.integers(1, 5000), "timeout": weighted((3, st.just(30_000)), (2, st.integers(1, 1000))), "temp": pick("c", "d"), "exports": st.lists(behaviour, max_size=6), "reactions": st.lists(reaction, max_size=6), "n": st.integers(1, 8),
    "flushes": st.lists(st.integers(0, 999), max_size=3),
})


@sub("ticks", tick_s, quick=3000, thorough=80000, rule="one thread that sleeps and flushes while the reader ticks: collections happen once per interval whatever fails. non-trivial: something fails or is slow")
def ticks(rec, case):
    interval = case["interval"]
    log = []

    def scenario(sim):
        ex = Exporter(sim, case["temp"], case["exports"])
        reader = PeriodicExportingMetricReader(ex, export_interval_millis=interval, export_timeout_millis=case["timeout"])
        t0 = sim.now
        mp = MeterProvider([reader], Resource({}), shutdown_on_exit=False)
        meter = mp.get_meter("m")
        c = meter.create_counter("c")
        meter.create_observable_counter("o1", callbacks(sim, case["reactions"], log))
        meter.create_observable_counter("o2", [lambda o: [Observation(1)]])
        left = sorted(case["flushes"])
        slow = sum(ms for _h, ms in case["exports"] + case["reactions"])
        total = (case["n"] + 0.5) * interval + slow
        c.add(1, {"n": 0})
        for f in left:
            time.sleep(max(0, t0 + total * f / 1000 * MS - sim.now) / 1e9)
            try:
                mp.force_flush()
            except Exception:
                pass
        time.sleep(max(0, t0 + total * MS - sim.now) / 1e9)
        marks = sim.now
        n = len(log)
        mp.shutdown()
        return t0, marks, n, ex

    (t0, end, n, ex), sim = vsched.simulate(("gaps", [(10**9, 0)]), scenario, trace=False, ticks=False)
    for name, e in sim.thread_errors:
        rec.fail("%s died: %r" % (name, e))
    mine = [x for x in log[:n] if x["thread"] != "main"]
    # busy time: while callbacks or exports run, the reader may be late
    busy = [(x["t0"], x["t0"] + x["ms"] * MS) for x in log] + [(e["t0"], e["t1"]) for e in ex.exports]
    busy.sort()

    def over(a, b):
        t, cur = 0, a
        for s, e in busy:
            s, e = max(s, cur), min(e, b)
            if e > s:
                t += e - s
                cur = e
        return t
    marks = [t0] + [x["t0"] for x in mine] + [end]
    for a, b in zip(marks, marks[1:]):
        gap, b0 = b - a, over(a, b)
        rec.check(gap <= interval * MS * (2 if b0 else 1) + b0 + MS, "no collection for %s ms, of which %s ms were spent in callbacks and exports, with an interval of %s ms", gap / MS, b0 / MS, interval)
    for a, b in zip(marks[1:-1], marks[2:-1]):
        rec.check(b - a >= interval * MS - over(t0, b) - MS, "collections %s ms apart with an interval of %s ms", (b - a) / MS, interval)
    quick = [e for e in ex.exports if e["thread"] != "main"]
    if not any(h == "bad" for h, _ in case["reactions"]) and not any(ms >= case["timeout"] for _, ms in case["reactions"]):
        rec.check(len(quick) >= len(mine), "%d exports of %d collections by the reader", len(quick), len(mine))
    rec.nontrivial(any(b != ("ok", 0) for b in case["exports"] + case["reactions"]))
    rec.label("%d collections" % min(3, len(mine)))
