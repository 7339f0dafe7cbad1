"""T05: span scopes - random programs of nested scopes, threads and tasks interpreted next to a model of the current span."""
import contextvars
import threading

from hypothesis import strategies as st

from opentelemetry import baggage, trace
from opentelemetry.context import attach, detach
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.trace import NonRecordingSpan, Status, StatusCode
from vlib.core import Violation, sub
from vlib.gen import pick, utext, weighted
from vlib.spans import CODES, EXC, ctx_of, exc_type_name, span_ctx

RULE = ("programs of nested scopes (start_as_current_span, use_span, decorators on plain and async functions, scopes held by generators, non-recording spans), raises of every kind, try blocks, "
        "threads, manual ends and statuses; and interleaved coroutines, each in its own context. non-trivial: at least two scopes nested and an exception leaves one, or two tasks interleave.")

HOW = ["start_as_current", "use_new", "use_old", "decorator", "generator", "nonrecording", "async_decorator", "decorated_twice"]
flagset = st.tuples(st.booleans(), st.booleans(), st.booleans())
leaf = weighted(
    (3, st.tuples(st.just("raise"), pick(*sorted(EXC)), utext)), (2, st.tuples(st.just("check"))), (1, st.tuples(st.just("status"), st.integers(0, 2))), (1, st.tuples(st.just("end"))),
)


def block(b):
    return st.lists(weighted(
        (3, leaf), (4, st.tuples(st.just("scope"), pick(*HOW), flagset, b)), (1, st.tuples(st.just("try"), b)), (1, st.tuples(st.just("thread"), b)),
    ), max_size=4)


program = st.recursive(st.lists(leaf, max_size=2), block, max_leaves=20)


class Ends(SpanProcessor):
    def __init__(self):
        self.n = {}

    def on_end(self, span):
        k = span.get_span_context().span_id
        self.n[k] = self.n.get(k, 0) + 1


class M:
    """Model of one recording span."""

    def __init__(self, span):
        self.span, self.ended, self.code, self.desc, self.events = span, False, 0, None, []

    def status(self, code, desc=None):
        if not self.ended and self.code != 1 and code != 0:
            self.code, self.desc = code, desc if code == 2 else None


class Run:
    def __init__(self, rec):
        self.rec = rec
        self.ends = Ends()
        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        tp.add_span_processor(self.ends)
        self.tracer = tp.get_tracer("t")
        self.models = {}
        self.order = []
        self.scopes = self.deep = 0
        self.excs = 0

    def model(self, span):
        i = id(span)
        if i not in self.models and span.is_recording() and not isinstance(span, NonRecordingSpan):
            self.models[i] = M(span)
            self.order.append(span)
        return self.models.get(i)

    def current(self, want, what):
        got = trace.get_current_span()
        self.rec.check(got is (want if want is not None else trace.INVALID_SPAN), "current span %s: %r, expected %r", what, got, want)

    def left_by(self, span, exc, flags):
        """The scope of `span` was left by exception `exc` (or None)."""
        rexc, sstat, end = flags
        m = self.models.get(id(span))
        if exc is not None and isinstance(exc, Exception) and m is not None and not m.ended:
            self.excs += 1
            if rexc:
                m.events.append((exc_type_name(exc), str(exc)))
            if sstat:
                m.status(2, "%s: %s" % (type(exc).__name__, exc))
        if end and m is not None:
            m.ended = True

    def verify(self, what):
        for s in self.order:
            m = self.models[id(s)]
            sid = s.get_span_context().span_id
            self.rec.eq(self.ends.n.get(sid, 0), 1 if m.ended else 0, "number of ends " + what)
            self.rec.check(s.is_recording() == (not m.ended), "recording state %s", what)
            self.rec.eq([(e.name, e.attributes.get("exception.type"), e.attributes.get("exception.message")) for e in s.events],
                        [("exception", t, x) for t, x in m.events], "exception events " + what)
            self.rec.check(s.status.status_code is CODES[m.code], "status %s: %r, expected %d", what, s.status.status_code, m.code)
            self.rec.eq(s.status.description or None, m.desc, "status description " + what)

    def block(self, body, cur, depth):
        for o in body:
            k = o[0]
            if k == "check":
                self.verify("in the middle")
            elif k == "raise":
                e = EXC[o[1]](o[2])
                self.raised = e
                raise e
            elif k == "status":
                if cur is not None:
                    trace.get_current_span().set_status(CODES[o[1]])
                    if id(cur) in self.models:
                        self.models[id(cur)].status(o[1])
            elif k == "end":
                if cur is not None:
                    trace.get_current_span().end()
                    if id(cur) in self.models:
                        self.models[id(cur)].ended = True
            elif k == "try":
                try:
                    self.block(o[1], cur, depth)
                except Violation:
                    raise
                except BaseException as e:
                    self.same_exc(e)
            elif k == "thread":
                out = []

                def target():
                    try:
                        self.current(None, "in a new thread")
                        self.block(o[1], None, depth)
                        self.current(None, "at the end of a thread")
                    except BaseException as e:
                        out.append(e)
                t = threading.Thread(target=target)
                t.start()
                t.join()
                if out:
                    if isinstance(out[0], Violation):
                        raise out[0]
                    self.same_exc(out[0])
            elif k == "scope":
                self.scope(o, cur, depth)
            self.current(cur, "after %s" % (o[:2],))

    def same_exc(self, e):
        if e is not self.raised:
            # anything else: let the classifier decide (product exception or ours)
            raise e

    def scope(self, o, cur, depth):
        _, how, flags, body = o
        rexc, sstat, end = flags
        self.scopes += 1
        self.deep = max(self.deep, depth + 1)
        exc = None
        span = None
        kw = dict(record_exception=rexc, set_status_on_exception=sstat, end_on_exit=end)
        run = self

        def inside(s):
            nonlocal span
            span = s
            m = run.model(s)
            run.current(s, "inside its scope")
            if cur is not None and how not in ("use_old",) and m is not None and m.span is s and how != "nonrecording":
                run.rec.check(s.parent is None and not cur.get_span_context().is_valid or s.parent is not None, "parent")
            run.rec.eq(baggage.get_baggage("outer"), run.outer.get(threading.get_ident()), "baggage inside a scope")
            run.block(body, s, depth + 1)
            run.current(s, "at the end of its scope")
            return 42
        try:
            if how == "start_as_current":
                with self.tracer.start_as_current_span("s", **kw) as s:
                    inside(s)
            elif how in ("use_new", "use_old", "nonrecording"):
                if how == "use_new":
                    s0 = self.tracer.start_span("s")
                elif how == "use_old" and self.order:
                    s0 = self.order[depth % len(self.order)]
                else:
                    s0 = NonRecordingSpan(ctx_of((5, 6, 1, [], False)))
                span = s0
                with trace.use_span(s0, **kw) as s:
                    self.rec.check(s is s0, "use_span yields another object")
                    inside(s)
            elif how == "decorator":
                @self.tracer.start_as_current_span("s", **kw)
                def f(a, b=2):
                    """doc"""
                    return inside(trace.get_current_span()), a, b
                self.rec.eq((f.__name__, f.__doc__), ("f", "doc"), "decorated function's name and doc")
                self.rec.eq(f(1, b=3), (42, 1, 3), "result of a decorated function")
            elif how == "decorated_twice":      # each call gets its own span
                @self.tracer.start_as_current_span("s", **kw)
                def f(n):
                    s = trace.get_current_span()
                    self.model(s)
                    seen.append(s)
                    return inside(s) if n else None
                seen = []
                f(0)
                self.left_by(seen[0], None, flags)
                f(1)
                self.rec.check(seen[0] is not seen[1], "second call of a decorated function reuses the span")
            elif how == "generator":
                def g():
                    with self.tracer.start_as_current_span("s", **kw) as s:
                        yield s
                gen = g()
                s = next(gen)
                try:
                    inside(s)
                except BaseException as e:
                    exc = e
                finally:
                    gen.close()
                self.left_by(s, None, flags)
                if exc is not None:
                    raise exc
                return
            elif how == "async_decorator":
                @self.tracer.start_as_current_span("s", **kw)
                async def af(a):
                    s = trace.get_current_span()
                    r = inside(s)
                    await Switch()
                    self.current(s, "after an await")
                    self.rec.check(not end or not self.ends.n.get(s.get_span_context().span_id) or self.models[id(s)].ended, "span ended before the coroutine finished")
                    return r, a
                co = af(7)
                self.current(cur, "after creating the coroutine")
                co.send(None)
                try:
                    co.send(None)
                    self.rec.fail("the decorated coroutine did not finish")
                except StopIteration as fin:
                    self.rec.eq(fin.value, (42, 7), "result of a decorated coroutine")
        except Violation:
            raise
        except BaseException as e:
            if how == "async_decorator" and isinstance(e, RuntimeError) and isinstance(e.__cause__, StopIteration):
                self.raised = e        # Python itself converts a StopIteration leaving a coroutine
            self.same_exc(e)
            if how == "generator":
                raise
            self.left_by(span, e, flags)
            self.current(cur, "after leaving a scope by %s" % type(e).__name__)
            raise
        self.left_by(span, None, flags)


class Switch:
    def __await__(self):
        yield


@sub("program", st.tuples(program, st.booleans()), quick=16000, thorough=400000)
def prog(rec, case):
    body, outer = case
    r = Run(rec)
    r.outer = {}
    r.raised = None
    if outer:
        r.outer[threading.get_ident()] = "v"
        tok = attach(baggage.set_baggage("outer", "v"))
    try:
        r.block(body, None, 0)
    except Violation:
        raise
    except BaseException as e:
        r.same_exc(e)
    r.current(None, "at the end")
    rec.eq(baggage.get_baggage("outer"), "v" if outer else None, "surrounding context at the end")
    if outer:
        detach(tok)
        rec.eq(baggage.get_baggage("outer"), None, "context after detach")
    r.verify("at the end")
    rec.nontrivial(r.deep >= 2 and r.excs)
    rec.label("depth-%d" % min(r.deep, 5))


# --- interleaved coroutines ---------------------------------------------------
async def task(run, script, cur):
    """script: list of ('switch',) / ('scope', how, flags, script) / ('raise',)"""
    for o in script:
        if o[0] == "switch":
            await Switch()
            run.switches += 1
        elif o[0] == "raise":
            raise ValueError("boom")
        elif o[0] == "scope":
            rexc, sstat, end = o[2]
            kw = dict(record_exception=rexc, set_status_on_exception=sstat, end_on_exit=end)
            err = None
            try:
                if o[1] == "with":
                    with run.tracer.start_as_current_span("s", **kw) as s:
                        run.model(s)
                        par = s.parent
                        await task(run, o[3], s)
                        run.current(s, "at the end of a task's scope")
                else:
                    @run.tracer.start_as_current_span("s", **kw)
                    async def f():
                        nonlocal s, par
                        s = trace.get_current_span()
                        run.model(s)
                        par = s.parent
                        await task(run, o[3], s)
                        run.current(s, "at the end of a task's decorated function")
                    s = par = None
                    await f()
            except ValueError as e:
                err = e
            run.rec.eq(par and par.span_id, cur and cur.get_span_context().span_id, "parent of a task's span")
            run.left_by(s, err, o[2])
        run.current(cur, "in a task after %s" % (o[:2],))


script = st.recursive(st.lists(weighted((3, st.just(("switch",))), (1, st.just(("raise",)))), max_size=3),
                      lambda b: st.lists(weighted((2, st.just(("switch",))), (3, st.tuples(st.just("scope"), pick("with", "async"), flagset, b))), max_size=3), max_leaves=6)


@sub("tasks", st.tuples(st.lists(script, min_size=2, max_size=4), st.lists(st.integers(0, 3), max_size=20)), quick=8000, thorough=200000)
def tasks(rec, case):
    scripts, schedule = case
    r = Run(rec)
    r.outer, r.switches = {}, 0
    live = {}
    for i, s in enumerate(scripts):
        live[i] = (contextvars.copy_context(), task(r, s, None))
    hops, last, steps = 0, None, list(schedule)
    while live:
        pickd = steps.pop(0) if steps else min(live)
        i = sorted(live)[pickd % len(live)]
        ctx, co = live[i]
        try:
            ctx.run(co.send, None)
        except StopIteration:
            del live[i]
        except ValueError as e:
            if str(e) != "boom":
                raise
            del live[i]
        hops += last is not None and last != i
        last = i
        r.current(None, "in the main context")
    r.verify("after all tasks")
    rec.nontrivial(hops >= 2 and len(r.order) >= 2)
