"""C01: context immutability, attach/detach, isolation between threads, tasks, generators and context copies."""
from vlib import vsched
vsched.install()

import asyncio  # noqa: E402
import contextvars  # noqa: E402
import logging  # noqa: E402
import threading  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.context import Context, attach, create_key, detach, get_current, get_value, set_value  # noqa: E402
from vlib.core import HarnessError, sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

logging.getLogger("opentelemetry").setLevel(100)
RULE = ("scripts of set_value/attach/detach (in order, out of order, repeated, with tokens of other units) over interleaved units (threads, tasks, context copies, generators), judged by a model per unit. "
        "non-trivial: two units had different attached contexts at once.")

key = pick("a", "b", "c", "key é")
value = pick(1, 2, "x", None, True)
op = weighted(
    (4, st.tuples(st.just("set"), weighted((2, st.none()), (2, st.integers(0, 9))), key, value)),
    (6, st.tuples(st.just("attach"), st.integers(0, 9))),
    (4, st.tuples(st.just("detach"), st.integers(0, 2))),          # own token, counted from the newest
    (1, st.tuples(st.just("again"), st.integers(0, 9))),           # any own token, possibly used
    (1, st.tuples(st.just("foreign"), st.integers(0, 3), st.integers(0, 5))),
    (1, st.tuples(st.just("bad"), pick(None, "token", 7))),
    (1, st.tuples(st.just("with"), st.integers(0, 9))),
    (1, st.tuples(st.just("write"), key)),
)


class Model:
    """One execution unit: what is current, and the tokens it made."""

    def __init__(self, current):
        self.cur = current
        self.tokens = []     # [token, saved model, used]


class World:
    """Contexts shared by all units: (context, its model)."""

    def __init__(self):
        self.ctxs = [(Context(), {}), (Context({"a": 0}), {"a": 0})]
        self.foreign = {}    # unit -> Model


def step(rec, w, m, o, me):
    """Perform o in the current unit and compare with the model."""
    k = o[0]
    if k == "set":
        if o[1] is None:
            base_m = m.cur
            got = set_value(o[2], o[3])
        else:
            base, base_m = w.ctxs[o[1] % len(w.ctxs)]
            got = set_value(o[2], o[3], base)
        want = dict(base_m)
        want[o[2]] = o[3]
        rec.eq(dict(got), want, "set_value")
        rec.eq(get_value(o[2], got), o[3], "get_value in the new context")
        if len(w.ctxs) < 12:
            w.ctxs.append((got, want))
    elif k == "attach":
        c, cm = w.ctxs[o[1] % len(w.ctxs)]
        before = m.cur
        t = attach(c)
        m.tokens.append([t, before, False])
        m.cur = cm
    elif k in ("detach", "again"):
        live = [t for t in m.tokens if not t[2]] if k == "detach" else m.tokens
        if live:
            t = live[-1 - o[1] % len(live)]
            detach(t[0])
            if not t[2]:
                t[2] = True
                m.cur = t[1]
    elif k == "foreign":
        others = [u for u in w.foreign if u != me]
        if others:
            ts = w.foreign[others[o[1] % len(others)]].tokens
            if ts:
                detach(ts[o[2] % len(ts)][0])
    elif k == "bad":
        detach(o[1])
    elif k == "with":
        c, cm = w.ctxs[o[1] % len(w.ctxs)]
        before, before_ctx = m.cur, get_current()
        t = attach(c)
        rec.eq(dict(get_current()), cm, "current inside")
        detach(t)
        rec.check(get_current() is before_ctx or get_current() == before_ctx, "context not restored")
        m.cur = before
    elif k == "write":
        try:
            get_current()[o[1]] = "changed"
        except Exception:  # noqa
            pass
    look(rec, m, o)


def look(rec, m, o):
    rec.eq(dict(get_current()), m.cur, "current context after %r" % (o,))
    for k in ("a", "b", "zz"):
        rec.eq(get_value(k), m.cur.get(k), "get_value(%r)" % k)
        for c, cm in LOOKED:
            rec.eq(get_value(k, c), cm.get(k), "get_value(%r) of an explicit context while another is current" % k)


LOOKED = [(Context(), {}), (Context({"b": 5}), {"b": 5})]


class ThreadUnit:
    """A real thread stepped by hand-off."""

    def __init__(self):
        self.go, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.fn, self.exc = None, None
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.go.acquire()
            if self.fn is None:
                return
            try:
                self.fn()
            except BaseException as e:
                self.exc = e
            self.done.release()

    def run(self, fn):
        self.fn, self.exc = fn, None
        self.go.release()
        if not self.done.acquire(timeout=120):
            raise HarnessError("unit thread stuck")
        if self.exc is not None:
            raise self.exc

    def close(self):
        self.fn = None
        self.go.release()
        self.t.join(60)


class CopyUnit:
    def __init__(self):
        self.ctx = contextvars.copy_context()

    def run(self, fn):
        self.ctx.run(fn)

    def close(self):
        pass


class GenUnit:
    """A generator: runs in whatever context its caller has."""

    def __init__(self):
        self.g = self.body()
        next(self.g)

    @staticmethod
    def body():
        while True:
            fn = yield
            fn()

    def run(self, fn):
        self.g.send(fn)

    def close(self):
        self.g.close()


KINDS = {"thread": ThreadUnit, "copy": CopyUnit, "gen": GenUnit}


@sub("units", st.tuples(st.lists(weighted((1, st.just("thread")), (2, st.just("copy")), (1, st.just("gen"))), max_size=3), st.lists(st.tuples(st.integers(0, 3), op), min_size=2, max_size=25)), quick=5000, thorough=250000)
def units(rec, case):
    kinds, steps = case
    w = World()
    main = Model({})
    w.foreign[0] = main
    us = []
    started = {}
    diff = False
    try:
        for n, (i, o) in enumerate(steps):
            i = i % (len(kinds) + 1)
            if i == 0:
                step(rec, w, main, o, 0)
            else:
                kind = kinds[i - 1]
                if i not in started:
                    u = KINDS[kind]()
                    us.append(u)
                    m = main if kind == "gen" else Model(main.cur if kind == "copy" else {})
                    started[i] = (u, m)
                    if kind != "gen":
                        w.foreign[i] = m
                u, m = started[i]
                u.run(lambda: step(rec, w, m, o, 0 if kind == "gen" else i))
            look(rec, main, ("other unit", i, o))
            cur = [repr(x.cur) for x in w.foreign.values()]
            diff = diff or len(set(cur)) > 1
            for c, cm in w.ctxs:
                rec.eq(dict(c), cm, "an existing context was changed by %r" % (o,))
        for i, (u, m) in started.items():
            u.run(lambda: look(rec, m, "the end"))
    finally:
        for u in us:
            u.close()
    rec.nontrivial(diff)


@sub("threads", st.tuples(st.lists(st.lists(op.filter(lambda o: o[0] not in ("foreign",)), min_size=2, max_size=6), min_size=2, max_size=3), vsched.schedules), quick=2500, thorough=120000,
     rule="threads preempted inside the calls. non-trivial: a preemption happened")
def threads(rec, case):
    scripts, schedule = case
    w = World()

    def scenario(sim):
        def body(s):
            m = Model({})
            for o in s:
                step(rec, w, m, o, 0)
        ts = [sim.thread(lambda s=s: body(s), "t%d" % i) for i, s in enumerate(scripts[1:])]
        body(scripts[0])
        sim.join(*ts)
    _, sim = vsched.simulate(schedule, scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    for c, cm in w.ctxs:
        rec.eq(dict(c), cm, "an existing context was changed")
    rec.nontrivial(sim.preempts)


tree = st.recursive(st.tuples(st.just("ops"), st.lists(op, max_size=4)),
                    lambda c: st.one_of(st.tuples(st.just("spawn"), st.lists(c, min_size=1, max_size=3)), st.tuples(st.just("seq"), st.lists(c, min_size=1, max_size=3)),
                                        st.tuples(st.just("to_thread"), c)), max_leaves=6)


@sub("tasks", st.tuples(st.lists(op, max_size=4), tree), quick=1200, thorough=60000, rule="asyncio task trees. non-trivial: tasks ran interleaved")
def tasks(rec, case):
    first, t = case
    w = World()
    n = [0]

    async def run(m, t):
        if t[0] == "ops":
            for o in t[1]:
                step(rec, w, m, o, 0)
                await asyncio.sleep(0)
                look(rec, m, "a switch")
        elif t[0] == "seq":
            for c in t[1]:
                await run(m, c)
                look(rec, m, "a sub-coroutine")
        elif t[0] == "spawn":
            n[0] += len(t[1]) > 1
            await asyncio.gather(*[asyncio.ensure_future(run(Model(m.cur), c)) for c in t[1]])
            look(rec, m, "joining tasks")
        else:
            inner = Model(m.cur)

            def sync(c):
                if c[0] == "ops":
                    for o in c[1]:
                        step(rec, w, inner, o, 0)
                elif c[0] == "to_thread":
                    sync(c[1])
                else:
                    for x in c[1]:
                        sync(x)
            await asyncio.to_thread(sync, t[1])
            look(rec, m, "a call in a worker thread")

    async def main():
        m = Model({})
        for o in first:
            step(rec, w, m, o, 0)
        await run(m, t)
    asyncio.run(main())
    for c, cm in w.ctxs:
        rec.eq(dict(c), cm, "an existing context was changed")
    rec.nontrivial(n[0])


@sub("keys", st.lists(key, min_size=2, max_size=6), quick=300, thorough=3000, rule="create_key gives unique keys that start with the name")
def keys(rec, case):
    ks = [create_key(k) for k in case]
    rec.eq(len(set(ks)), len(ks), "distinct keys")
    c = Context()
    for i, k in enumerate(ks):
        c = set_value(k, i, c)
    rec.eq([get_value(k, c) for k in ks], list(range(len(ks))), "values by key")
    rec.nontrivial(len(set(case)) < len(case))
