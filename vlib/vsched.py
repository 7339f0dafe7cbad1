"""Deterministic thread scheduler with a virtual clock.

install() must run before the code under test is imported.  It replaces the
lock, thread, clock and sleep primitives of the standard library by hybrids:
outside a simulation they are the real thing; on a thread that belongs to the
active simulation they are cooperative.  Exactly one simulated thread runs at a
time; a switch can happen at every byte-code instruction of the code under test
(sys.settrace) and at every lock, sleep and thread operation, where the schedule
(plain data drawn by the generator) says so.  Time advances only when nothing can
run, or when the schedule lets a timer fire early (`tick`).
"""
import _thread
import atexit
import os
import queue
import sys
import threading
import time
import traceback

from hypothesis import strategies as st

from vlib.core import REPO, Violation
from vlib.gen import weighted

_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_real_time = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "sleep")}
_RealThread = threading.Thread
ACTIVE = None
EPOCH = 1_700_000_000_000_000_000
MAX_STEPS = 400_000


class SimAbort(BaseException):
    """Ends a simulated thread after the scenario is over."""


def _sim():
    """The active simulation if the calling thread belongs to it."""
    s = ACTIVE
    if s is not None and _ident() in s.by_ident:
        return s
    return None


class HybridLock:
    __slots__ = ("_l", "__weakref__")

    def __init__(self):
        self._l = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        s = _sim()
        if s is None:
            return self._l.acquire(blocking, timeout)
        s.point()
        if self._l.acquire(False):
            return True
        if not blocking or (timeout is not None and timeout >= 0 and timeout <= 0):
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while True:
            s.block(self._free, deadline)
            if self._l.acquire(False):
                return True
            if deadline is not None and s.now >= deadline:
                return False

    def _free(self):
        return not self._l.locked()

    def release(self):
        self._l.release()
        s = _sim()
        if s is not None:
            s.point()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire
    acquire_lock = acquire
    release_lock = release

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _alloc()


class HybridThread(_RealThread):
    _sim_t = None

    def start(self):
        s = _sim()
        if s is None:
            return super().start()
        if self._sim_t is not None:
            raise RuntimeError("threads can only be started once")
        self._sim_t = s.spawn(self.run, self.name)
        s.point()

    def join(self, timeout=None):
        t = self._sim_t
        if t is None:
            return super().join(timeout)
        s = _sim()
        if s is None or t.sim is not s:
            return None
        if t is s.cur:
            raise RuntimeError("cannot join current thread")
        deadline = None if timeout is None else s.now + int(max(timeout, 0) * 1e9)
        s.point()
        while not t.done:
            s.block(lambda: t.done, deadline)
            if deadline is not None and s.now >= deadline:
                break
        return None

    def is_alive(self):
        t = self._sim_t
        if t is None:
            return super().is_alive()
        s = _sim()
        if s is not None:
            s.point()
        return not t.done

    @property
    def ident(self):
        t = self._sim_t
        return t.ident if t is not None else self._ident


def _mk_clock(name, per_second):
    real = _real_time[name]
    base = {"time": EPOCH, "time_ns": EPOCH}.get(name, 5_000_000_000)
    if name.endswith("_ns"):
        def clock():
            s = ACTIVE
            if s is not None and _ident() in s.by_ident:
                return base + s.tell()
            return real()
    else:
        def clock():
            s = ACTIVE
            if s is not None and _ident() in s.by_ident:
                return (base + s.tell()) / 1e9
            return real()
    clock.__name__ = name
    return clock


def _sleep(secs):
    s = _sim()
    if s is None:
        return _real_time["sleep"](secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    s.sleeps.append(secs)
    deadline = s.now + int(secs * 1e9)
    s.point()
    while s.now < deadline:
        s.block(None, deadline)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    bad = [m for m in sys.modules if m.startswith("opentelemetry")]
    assert not bad, "install() must come before the code under test: %s" % bad[:3]
    threading.Lock = HybridLock
    threading._allocate_lock = HybridLock
    threading.RLock = threading._PyRLock
    threading.Thread = HybridThread
    for n in _real_time:
        if n == "sleep":
            time.sleep = _sleep
        else:
            setattr(time, n, _mk_clock(n, 0))
    threading._time = time.monotonic
    if hasattr(queue, "_PySimpleQueue"):
        queue.SimpleQueue = queue._PySimpleQueue
    queue.time = time.monotonic
    os.register_at_fork = lambda **kw: None
    atexit.register = lambda f, *a, **k: f


class SimT:
    def __init__(self, sim, tid, name):
        self.sim, self.tid, self.name = sim, tid, name
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.cond = None          # None: runnable; callable or False: blocked
        self.blocked = False
        self.deadline = None
        self.ident = None
        self.exc = None


def untrace(frame):
    """An exception from a trace function ends the tracing of its thread, and CPython 3.12 crashes
    on instruction events of frames that still ask for them then."""
    while frame is not None:
        frame.f_trace_opcodes = False
        frame.f_trace = None
        frame = frame.f_back


class Sim:
    def __init__(self, schedule, trace=True, ticks=True, clock_step=0, generators=True):
        self.generators = generators       # False: no switches inside generators (CPython 3.12 can crash on nested ones that are traced)
        """schedule: ('gaps', [(gap, choice), ...]) or ('random', seed, percent)."""
        self.now = 0
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.preempts = 0
        self.sleeps = []
        self.aborting = False
        self.deadlock = None
        self.trace = trace
        self.where = REPO if not isinstance(trace, str) else REPO + "/" + trace       # preempt only in this part of the code
        self.ticks = ticks
        self.clock_step = clock_step
        self.thread_errors = []
        self.suspended = []
        self.local = self._make_local()
        self.decider = self._decider(schedule)
        self.countdown, self.choice = next(self.decider)

    @staticmethod
    def _decider(schedule):
        if schedule[0] == "gaps":
            for gap, choice in schedule[1]:
                yield max(1, gap), choice
        else:
            import random
            rng = random.Random(schedule[1])
            for _ in range(3000):
                yield 1 + int(rng.expovariate(1.0 / max(1, schedule[2]))), rng.randrange(970)
        n = 0
        while True:      # afterwards: fair but rare switching
            n += 1
            yield 4000, n

    # -- clock
    def tell(self):
        self.now += self.clock_step
        return self.now

    # -- scheduling
    def runnable(self, t):
        if t.done:
            return False
        if not t.blocked:
            return True
        if t.deadline is not None and self.now >= t.deadline:
            return True
        return bool(t.cond and t.cond())

    def point(self):
        """A place where the schedule may switch."""
        if self.aborting:
            if not self.cur.tid == 0:
                raise SimAbort()
            return
        self.countdown -= 1
        if self.countdown <= 0:
            self._decide()

    def _decide(self):
        choice = self.choice
        self.countdown, self.choice = next(self.decider)
        self.steps += self.countdown
        if self.steps > MAX_STEPS:
            self._give_up("no end after %d steps" % self.steps)
        me = self.cur
        if self.ticks and choice % 97 == 96:       # let the earliest timer fire although others can run
            self._advance()
        others = [t for t in self.threads if t is not me and self.runnable(t)]
        if not others:
            return
        self.preempts += 1
        self._switch(others[(choice // 97 if self.ticks and choice % 97 == 96 else choice) % len(others)])

    def block(self, cond, deadline):
        """Block the current thread until cond() or the deadline."""
        me = self.cur
        if self.aborting:
            if me.tid != 0:
                raise SimAbort()
            raise Violation("blocked after the end of the scenario: %s" % (self.deadlock or ""), key=None)
        me.blocked, me.cond, me.deadline = True, cond, deadline
        self._next(me)
        me.blocked, me.cond, me.deadline = False, None, None
        if self.aborting:
            if me.tid != 0:
                raise SimAbort()
            if self.deadlock:
                raise Violation(self.deadlock)

    def _advance(self):
        due = [t.deadline for t in self.threads if not t.done and t.blocked and t.deadline is not None]
        if not due:
            return False
        self.now = max(self.now, min(due))
        return True

    def _next(self, me):
        """Give the token to some runnable thread (possibly me)."""
        while True:
            ready = [t for t in self.threads if self.runnable(t)]
            if ready:
                break
            if not self._advance():
                self._give_up("deadlock")
                return
        later = [t for t in ready if t.tid > me.tid]
        self._switch((later or ready)[0])

    def _give_up(self, what):
        stacks = []
        frames = sys._current_frames()
        for t in self.threads:
            fr = frames.get(t.ident)
            if t.done or fr is None:
                continue
            names = ["%s:%d %s" % (os.path.relpath(x.filename, REPO) if x.filename.startswith(REPO) else os.path.basename(x.filename), x.lineno, x.name)
                     for x in traceback.extract_stack(fr) if x.filename.startswith(REPO) or "/checks/" in x.filename]
            stacks.append("%s blocked at [%s]" % (t.name, " <- ".join(reversed(names[-4:]))))
        self.deadlock = "%s: %s" % (what, "; ".join(stacks))
        self.aborting = True
        main = self.threads[0]
        if self.cur is not main:
            self._switch(main)
            raise SimAbort()
        raise Violation(self.deadlock)

    def _switch(self, t):
        me = self.cur
        if t is me:
            return
        self.switches += 1
        self.cur = t
        t.gate.release()
        me.gate.acquire()
        if self.aborting:
            if me.tid != 0:
                raise SimAbort()
            if self.deadlock:
                raise Violation(self.deadlock)

    # -- threads
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.where):
            if not self.generators and frame.f_code.co_flags & 0x2A0:
                return None
            frame.f_trace_opcodes = True
            if frame.f_code.co_flags & 0x2A0:       # generators and coroutines may outlive the tracing
                self.suspended.append(frame)
            frame.f_trace_lines = False
            return self.local
        return None

    def _make_local(self):
        sim = self

        def local(frame, event, arg):
            if event == "opcode":
                sim.countdown -= 1
                if sim.countdown <= 0 or sim.aborting:
                    try:
                        sim.point()
                    except BaseException:
                        untrace(frame)
                        raise
            return local
        return local

    def spawn(self, fn, name):
        t = SimT(self, len(self.threads), name)
        self.threads.append(t)
        started = _alloc()
        started.acquire()

        def boot():
            t.ident = _ident()
            self.by_ident[t.ident] = t
            started.release()
            t.gate.acquire()
            try:
                if not self.aborting:
                    if self.trace:
                        sys.settrace(self._tracer)
                    fn()
            except SimAbort:
                pass
            except BaseException as e:
                t.exc = e
                self.thread_errors.append((t.name, e))
            finally:
                sys.settrace(None)
                t.done = True
                del self.by_ident[t.ident]
                self._leave(t)

        _thread.start_new_thread(boot, ())
        started.acquire()
        return t

    def _leave(self, t):
        """Thread t is finished and holds the token: pass it on."""
        if self.aborting:
            nxt = self.threads[0]
        else:
            while True:
                ready = [x for x in self.threads if self.runnable(x)]
                if ready:
                    nxt = ready[0]
                    break
                if not self._advance():
                    frames = sys._current_frames()
                    self.deadlock = "deadlock: " + "; ".join(
                        "%s blocked at %s" % (x.name, ["%s:%d" % (os.path.basename(y.filename), y.lineno) for y in traceback.extract_stack(frames[x.ident]) if y.filename.startswith(REPO)][-3:])
                        for x in self.threads if not x.done and x.ident in frames)
                    self.aborting = True
                    nxt = self.threads[0]
                    break
        self.cur = nxt
        nxt.gate.release()

    def thread(self, fn, name="T"):
        """Start a simulated thread running fn()."""
        return self.spawn(fn, name)

    def join(self, *ts):
        for t in ts:
            while not t.done:
                self.block(lambda: t.done, None)

    def run(self, fn):
        """Run fn() as simulated thread 0 in the calling thread."""
        global ACTIVE
        assert ACTIVE is None
        main = SimT(self, 0, "main")
        main.ident = _ident()
        self.threads.append(main)
        self.by_ident[main.ident] = main
        self.cur = main
        ACTIVE = self
        try:
            if self.trace:
                sys.settrace(self._tracer)
            try:
                out = fn()
                if self.deadlock:          # the code under test swallowed the report
                    raise Violation(self.deadlock)
                return out
            finally:
                sys.settrace(None)
                self._kill_rest()
        finally:
            for f in self.suspended:
                f.f_trace_opcodes = False
            self.suspended.clear()
            sys.settrace(None)
            ACTIVE = None

    def _kill_rest(self):
        self.aborting = True
        self.deadlock = None
        for t in self.threads[1:]:
            for _ in range(50):
                if t.done:
                    break
                main = self.threads[0]
                self.cur = t
                t.gate.release()
                main.gate.acquire()


gap = st.one_of(st.integers(1, 8), st.integers(1, 60), st.integers(1, 400), st.integers(1, 1500))
choice = weighted((12, st.integers(0, 8)), (1, st.sampled_from([96, 193])))
_gap = st.tuples(gap, choice)
schedules = weighted(
    (1, st.tuples(st.just("gaps"), st.lists(_gap, max_size=6))),
    (2, st.tuples(st.just("gaps"), st.lists(_gap, min_size=4, max_size=14))),
    (2, st.tuples(st.just("random"), st.integers(0, 2**32 - 1), st.sampled_from([3, 8, 20, 60, 200]))),
)


def simulate(schedule, fn, **kw):
    """Run fn(sim); returns (result, sim)."""
    s = Sim(schedule, **kw)
    return s.run(lambda: fn(s)), s
