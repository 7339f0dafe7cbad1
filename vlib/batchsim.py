"""Simulated histories of a batch processor (spans or log records) and their oracles."""
import time

from hypothesis import strategies as st

from vlib import vsched
from vlib.core import Violation
from vlib.gen import pick, weighted

# exporter behaviour per export call: (kind, duration in ms)
behaviour = st.tuples(weighted((6, st.just("ok")), (2, st.just("raise")), (1, st.just("fail")), (1, st.just("emit"))), weighted((4, st.just(0)), (2, st.integers(1, 30)), (1, st.integers(100, 3000))))


@st.composite
def config(draw):
    q = draw(st.integers(1, 6))
    return (q, draw(st.integers(1, q)), draw(pick(5, 50, 1000, 5000)))


def op(flush, shutdown):
    table = [(8, st.tuples(st.just("put"), st.integers(1, 4))), (1, st.tuples(st.just("unsampled"))), (2, st.tuples(st.just("sleep"), pick(1, 5, 50, 1000)))]
    if flush:
        table.append((3, st.tuples(st.just("flush"), weighted((3, pick(30000, None)), (2, pick(1, 20, 200, 2000))))))
    if shutdown:
        table.append((1, st.tuples(st.just("shutdown"))))
    return weighted(*table)


def case_strategy(flush, shutdown):
    one = st.lists(op(flush, shutdown), max_size=5)
    scripts = weighted((1, st.lists(one, min_size=1, max_size=3)), (2, st.lists(st.lists(op(flush, shutdown), min_size=2, max_size=5), min_size=2, max_size=3)))
    return st.tuples(config(), st.lists(behaviour, max_size=6), scripts, vsched.schedules, st.booleans())


def overtaken():
    """A slow exporter, a flush while something is exported and more waits, then a shutdown from another thread."""
    ms = pick(1, 5, 50, 200, 1000)
    nap = st.tuples(st.just("sleep"), ms)
    puts = st.lists(weighted((3, st.tuples(st.just("put"), st.integers(1, 4))), (1, nap)), min_size=1, max_size=4)
    slow = st.tuples(weighted((6, st.just("ok")), (1, st.just("raise")), (1, st.just("fail"))), pick(10, 60, 300, 1500))
    flush = st.tuples(puts, nap, st.lists(st.tuples(st.just("flush"), pick(30000, None, 2000)), min_size=1, max_size=2)).map(lambda t: [*t[0], t[1], *t[2]])
    stop = st.tuples(st.lists(nap, min_size=1, max_size=2), puts).map(lambda t: [*t[0], *t[1][:1], ("sleep", 1), ("shutdown",)])
    return st.tuples(config(), st.lists(slow, min_size=2, max_size=6), st.tuples(flush, stop).map(list), vsched.schedules, st.just(False))


class Item:
    __slots__ = ("n", "sampled", "thread", "start", "ret", "exports", "obj")

    def __init__(self, n, sampled, thread):
        self.n, self.sampled, self.thread = n, sampled, thread
        self.start = self.ret = None
        self.exports = []        # export records


class Export:
    def __init__(self, start, items):
        self.start, self.items, self.end = start, items, None


class History:
    """Everything observable, stamped with a global sequence number."""

    def __init__(self, sim, make_item):
        self.sim, self.make_item = sim, make_item
        self.seq = 0
        self.items, self.exports, self.flushes, self.shutdowns = [], [], [], []
        self.exp_shutdown = []
        self.problems = []
        self.batches = []        # (what an export was given, a copy)
        self.by_key = {}
        self.open = None

    def tick(self):
        self.seq += 1
        return self.seq

    def put(self, proc, sampled, thread):
        it = Item(len(self.items), sampled, thread)
        self.items.append(it)
        it.obj, key = self.make_item(it.n, sampled)
        self.by_key[key] = it
        it.start = self.tick()
        proc.put(it.obj)
        it.ret = self.tick()

    def flush(self, proc, ms):
        f = {"start": self.tick(), "t0": self.sim.now, "ms": ms, "done": False, "after": bool(self.shutdowns)}
        self.flushes.append(f)
        f["ret"] = proc.flush(ms)
        f["end"], f["t1"], f["done"] = self.tick(), self.sim.now, True

    def shutdown(self, proc):
        s = {"start": self.tick(), "end": None, "t0": self.sim.now}
        self.shutdowns.append(s)
        proc.shutdown()
        s["end"] = self.tick()


class Recorder:
    """The exporter body shared by the span and log adapters."""

    def __init__(self, h, behaviours, key_of, emit):
        self.h, self.behaviours, self.key_of, self.emit = h, list(behaviours), key_of, emit

    def export(self, batch):
        h = self.h
        e = Export(h.tick(), [])
        if h.open is not None:
            h.problems.append("export called while another export is running")
        h.open = e
        h.exports.append(e)
        try:
            h.batches.append((batch, list(batch)))
            for x in list(batch):
                it = h.by_key.get(self.key_of(x)) if x is not None else None
                if it is None:
                    h.problems.append("exported something that was never handed in: %r" % (x,))
                    continue
                it.exports.append(e)
                e.items.append(it)
            kind, ms = self.behaviours.pop(0) if self.behaviours else ("ok", 0)
            if ms:
                time.sleep(ms / 1000)
            if kind == "emit":
                self.emit()
            if kind == "raise":
                raise (ValueError, RuntimeError, OSError, KeyError)[len(self.h.exports) % 4]("exporter failed")
            return kind != "fail"
        finally:
            e.end = h.tick()
            h.open = None

    def shutdown(self):
        self.h.exp_shutdown.append(self.h.tick())


def play(case, make_proc, make_item, key_of, final):
    """Run the scenario.  final: 'settle' (wait, no flush), 'shutdown'."""
    (q, b, delay), behaviours, scripts, schedule, ticks = case
    out = {}

    def scenario(sim):
        h = History(sim, make_item)
        holder = {}
        r = Recorder(h, behaviours, key_of, lambda: h.put(holder["p"], True, "exporter"))
        p = holder["p"] = make_proc(r, q, b, delay)
        out["h"] = h

        def actor(i, script):
            for o in script:
                if o[0] == "put":
                    for _ in range(o[1]):
                        h.put(p, True, i)
                elif o[0] == "unsampled":
                    h.put(p, False, i)
                elif o[0] == "sleep":
                    time.sleep(o[1] / 1000)
                elif o[0] == "flush":
                    h.flush(p, o[1])
                elif o[0] == "shutdown":
                    h.shutdown(p)
        ts = [sim.thread(lambda i=i, s=s: actor(i, s), "actor%d" % i) for i, s in enumerate(scripts[1:], 1)]
        actor(0, scripts[0])
        sim.join(*ts)
        if final == "settle" and not h.shutdowns:
            n = len(h.items) + 6
            time.sleep((n * (delay + 1) + sum(m for _, m in behaviours) * 2 + 1) / 1000)
            out["settled"] = True
        else:
            h.shutdown(p)
            out["settled"] = False
            n = len(h.exports)
            h.put(p, True, "late")
            h.flush(p, 1000)
            time.sleep(20)
            out["late"] = len(h.exports) - n
        return h
    h, sim = vsched.simulate(schedule, scenario, ticks=ticks and final != "settle")
    for name, e in sim.thread_errors:
        raise e
    return h, sim, out


def lost_ok(h, x, q):
    """May x never have been exported because the queue was full?"""
    for y in h.items:
        if not y.sampled or y.start is None:
            continue
        y_ret = y.ret if y.ret is not None else h.seq
        if y_ret < x.start:
            continue
        n = 0
        for z in h.items:
            if not z.sampled or z.start is None or z.start > y_ret:
                continue
            z_ret = z.ret if z.ret is not None else h.seq
            if z_ret < x.start:
                continue
            if z.exports and z.exports[0].start < y.start:
                continue
            n += 1
        if n >= q + 1:
            return True
    return False


def check_delivery(rec, h, case, out):
    """At most once, order, batch bounds, losses accounted for."""
    (q, b, delay) = case[0]
    rec.check(not h.problems, "%s", h.problems[:3])
    for given, then in h.batches:
        now = list(given)
        rec.check(len(now) == len(then) and all(a is b for a, b in zip(now, then)), "a batch of %d that was handed to the exporter became %r", len(then), now)
    for e in h.exports:
        rec.check(len(e.items) <= b, "export of %d items with a maximum batch of %d", len(e.items), b)
    first_shutdown = h.shutdowns[0]["start"] if h.shutdowns else None
    lost = 0
    for x in h.items:
        if not x.sampled:
            rec.check(not x.exports, "unsampled item %d exported", x.n)
            continue
        rec.check(len(x.exports) <= 1, "item %d exported %d times", x.n, len(x.exports))
        if not x.exports:
            lost += 1
            if first_shutdown is not None and (x.ret is None or x.ret > first_shutdown):
                continue        # ended during or after shutdown
            rec.check(lost_ok(h, x, q), "item %d (thread %s) never exported although the queue (size %d) cannot have been full; exports %s",
                      x.n, x.thread, q, [[i.n for i in e.items] for e in h.exports])
    # what arrived during one export waits in the queue, which is bounded
    for e in h.exports:
        waited = [x for x in h.items if x.exports and x.start > e.start and x.ret is not None and e.end is not None and x.ret < e.end]
        rec.check(len(waited) <= q, "%d items arrived during one export and were all exported later, with a maximum queue size of %d", len(waited), q)
    # order per producing thread
    pos = {}
    k = 0
    for e in h.exports:
        for it in e.items:
            pos[it.n] = k
            k += 1
    last = {}
    for x in h.items:
        if x.n in pos:
            if x.thread in last:
                rec.check(pos[x.n] > pos[last[x.thread]], "thread %s: item %d exported before earlier item %d", x.thread, x.n, last[x.thread])
            last[x.thread] = x.n
    return lost


def check_flush_shutdown(rec, h, case, out, ticks_used):
    (q, b, delay) = case[0]
    first_shutdown = h.shutdowns[0]["start"] if h.shutdowns else None
    for f in h.flushes:
        rec.check(f["done"], "flush did not return")
        ms = f["ms"] if f["ms"] is not None else 30000
        took = (f["t1"] - f["t0"]) / 1e6
        if not ticks_used:
            rec.check(took <= ms + 1, "flush with a budget of %d ms took %.1f ms", ms, took)
            work = sum(m for _, m in case[1])
            rec.check(f["ret"] or ms <= work + 1, "flush failed after %.1f ms of a budget of %d ms although all exports together take %d ms", took, ms, work)
        overtaken = first_shutdown is not None and f["end"] > first_shutdown
        # a flush that was waiting when the shutdown came: without clock ticks, time only passes while every thread waits
        waiting = overtaken and not ticks_used and f["t0"] < h.shutdowns[0]["t0"]
        if overtaken and not (waiting and f["ret"]):
            continue
        if not f["ret"]:
            rec.check(took >= ms - 1e-3, "flush failed after %.1f of %d ms", took, ms)
            continue
        for x in h.items:
            if not x.sampled or x.ret is None or x.ret > f["start"]:
                continue
            if x.exports:
                e = x.exports[0]
                rec.check(e.end is not None and e.end < f["end"], "flush reported success before item %d (ended earlier) was exported", x.n)
            else:
                rec.check(lost_ok(h, x, q), "flush reported success but item %d was never exported", x.n)
    if h.shutdowns:
        rec.check(all(s["end"] is not None for s in h.shutdowns), "shutdown did not return")
        rec.check(1 <= len(h.exp_shutdown) <= len(h.shutdowns), "exporter shut down %d times by %d shutdown calls", len(h.exp_shutdown), len(h.shutdowns))
        done = min(s["end"] for s in h.shutdowns)
        for x in h.items:
            if x.sampled and x.ret is not None and x.ret < first_shutdown:
                if x.exports:
                    rec.check(x.exports[0].end < done, "item %d exported after shutdown returned", x.n)
                    rec.check(x.exports[0].end < h.exp_shutdown[0], "item %d exported after the exporter was shut down", x.n)
                else:
                    rec.check(lost_ok(h, x, q), "item %d was waiting at shutdown and never exported", x.n)
        for e in h.exports:
            rec.check(e.start < done, "export of %s after shutdown returned", [i.n for i in e.items])
            rec.check(e.start < h.exp_shutdown[0], "export of %s after the exporter was shut down", [i.n for i in e.items])
