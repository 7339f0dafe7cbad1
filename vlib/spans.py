"""Span scripts: plain-data descriptions of API calls on a span, a driver and a model."""
import traceback

from hypothesis import strategies as st

from opentelemetry import trace
from opentelemetry.trace import Link, SpanContext, SpanKind, Status, StatusCode, TraceFlags, TraceState
from vlib.gen import attributes, flags, pick, small_key, span_ids, times_ns, trace_ids, ts_entries, utext, weighted, frozen_map

KINDS = list(SpanKind)
CODES = [StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR]

# (trace_id, span_id, flags, tracestate entries, remote)
span_ctx = st.tuples(trace_ids, span_ids, flags, weighted((2, st.just([])), (1, ts_entries)), st.booleans())
any_ctx = weighted((5, span_ctx), (1, st.tuples(pick(0, 5), pick(0, 7), flags, weighted((2, st.just([])), (1, ts_entries)), st.booleans())))
attrs_opt = weighted((1, st.none()), (3, attributes))
link = st.tuples(any_ctx, attrs_opt)
name = utext


def ctx_of(c):
    return SpanContext(c[0], c[1], c[4], TraceFlags(c[2]), TraceState(c[3]))


def link_of(l):
    return Link(ctx_of(l[0]), l[1])


def link_ok(l):
    (tid, sid, _f, ts, _r), attrs = l
    return (tid != 0 and sid != 0) or bool(attrs) or bool(ts)


class Custom(Exception):
    pass


class Outer:
    class Inner(ValueError):
        pass


class Base(BaseException):
    pass


class Main(ValueError):
    """an exception defined in the program's main module"""


Main.__module__ = "__main__"
EXC = {"Main": Main, "ValueError": ValueError, "KeyError": KeyError, "Custom": Custom, "Inner": Outer.Inner, "Base": Base, "OSError": OSError, "StopIteration": StopIteration,
       "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "Warning": UserWarning, "GeneratorExit": GeneratorExit}


def make_exc(e):
    """(class name, message, raised?)"""
    x = EXC[e[0]](e[1])
    if e[2]:
        try:
            raise x
        except BaseException as y:
            return y
    return x


def exc_type_name(x):
    t = type(x)
    return t.__qualname__ if t.__module__ == "builtins" else t.__module__ + "." + t.__qualname__


exc = st.tuples(pick("Main", "ValueError", "KeyError", "Custom", "Inner", "Base", "OSError", "StopIteration"), utext, st.booleans())

exc_attrs = weighted((3, attrs_opt), (1, st.dictionaries(pick("exception.type", "exception.message", "exception.stacktrace", "exception.escaped", "k"), utext, max_size=3)))

status_arg = weighted(
    (3, st.tuples(st.just("code"), st.integers(0, 2), weighted((1, st.none()), (2, utext)))),
    (3, st.tuples(st.just("status"), st.integers(0, 2), weighted((1, st.none()), (2, utext)), weighted((3, st.none()), (1, utext)))),
)
ts_any = weighted((9, times_ns), (1, st.just(0)))
ts_opt = weighted((1, st.none()), (2, ts_any))

op = weighted(
    (5, st.tuples(st.just("attrs"), attributes)),
    (4, st.tuples(st.just("attr"), small_key, pick(1, 2, "x", True, 1.5, ["a"], (1, 2)))),
    (5, st.tuples(st.just("event"), name, attrs_opt, ts_opt)),
    (4, st.tuples(st.just("link"), any_ctx, attrs_opt)),
    (3, st.tuples(st.just("name"), name)),
    (6, st.tuples(st.just("set_status"), status_arg)),
    (3, st.tuples(st.just("exc"), exc, exc_attrs, ts_opt, st.booleans())),
)

start_kwargs = st.fixed_dictionaries(
    {"name": name},
    optional={"kind": st.integers(0, 4), "attributes": attrs_opt, "links": st.lists(link, max_size=3), "start_time": ts_any},
)


def start(tracer, kw, context=None, **extra):
    kw = dict(kw)
    if "kind" in kw:
        kw["kind"] = KINDS[kw["kind"]]
    if "links" in kw:
        kw["links"] = [link_of(l) for l in kw["links"]]
    return tracer.start_span(context=context, **kw, **extra)


def call(span, o):
    """Perform one op on the span.  Returns side data for the model (a
    (lo, hi) clock window is added by the caller)."""
    k = o[0]
    if k == "attrs":
        span.set_attributes(o[1])
    elif k == "attr":
        span.set_attribute(o[1], o[2])
    elif k == "event":
        if o[3] is None:
            span.add_event(o[1], o[2])
        else:
            span.add_event(o[1], attributes=o[2], timestamp=o[3])
    elif k == "link":
        span.add_link(ctx_of(o[1]), o[2])
    elif k == "name":
        span.update_name(o[1])
    elif k == "set_status":
        a = o[1]
        if a[0] == "code":
            if a[2] is None:
                span.set_status(CODES[a[1]])
            else:
                span.set_status(CODES[a[1]], a[2])
        else:
            s = Status(CODES[a[1]], a[2])
            if a[3] is None:
                span.set_status(s)
            else:
                span.set_status(s, a[3])
    elif k == "exc":
        x = make_exc(o[1])
        span.record_exception(x, attributes=o[2], timestamp=o[3], escaped=o[4])
        return x
    else:
        raise AssertionError(k)
    return None


class SpanModel:
    """What the span must show (no limits)."""

    def __init__(self, kw):
        self.name = kw["name"]
        self.kind = KINDS[kw.get("kind", 0)]
        self.attrs = {}
        for k, v in frozen_map(kw.get("attributes")).items():
            self._put(k, v)
        self.links = [self._link(l) for l in kw.get("links", ()) if link_ok(l)]
        self.events = []      # (name, attrs, ts or (lo, hi))
        self.code, self.desc = 0, None

    def _put(self, k, v):
        self.attrs.pop(k, None)
        self.attrs[k] = v

    @staticmethod
    def _link(l):
        c = l[0]
        return ((c[0], c[1], c[2], list(map(tuple, c[3])), c[4]), frozen_map(l[1]))

    def status(self, code, desc):
        if self.code == 1 or code == 0:
            return
        self.code = code
        self.desc = desc if code == 2 and desc else None

    def apply(self, o, side, window):
        k = o[0]
        if k == "attrs":
            for a, v in frozen_map(o[1]).items():
                self._put(a, v)
        elif k == "attr":
            self._put(o[1], frozen_map({o[1]: o[2]})[o[1]])
        elif k == "event":
            self.events.append((o[1], frozen_map(o[2]), window if o[3] is None else o[3]))
        elif k == "link":
            if link_ok((o[1], o[2])):
                self.links.append(self._link((o[1], o[2])))
        elif k == "name":
            self.name = o[1]
        elif k == "set_status":
            self.status(o[1][1], o[1][2])
        elif k == "exc":
            self.exception(side, o[2], o[3], o[4], window)

    def exception(self, x, attrs, ts, escaped, window, stack=True):
        a = {"exception.type": exc_type_name(x), "exception.message": str(x),
             "exception.stacktrace": "".join(traceback.format_exception(type(x), x, x.__traceback__)) if stack else ANY,
             "exception.escaped": str(bool(escaped))}
        a.update(frozen_map(attrs))
        self.events.append(("exception", a, window if ts is None else ts))


class _Any:
    def __eq__(self, other):
        return True

    def __repr__(self):
        return "<any>"


ANY = _Any()


def show_ctx(c):
    return (c.trace_id, c.span_id, int(c.trace_flags), [tuple(x) for x in c.trace_state.items()], c.is_remote)


def snapshot(s):
    """Everything a readable span shows, as plain comparable data."""
    return {
        "name": s.name, "kind": s.kind, "attributes": list(s.attributes.items()), "start": s.start_time, "end": s.end_time,
        "status": (s.status.status_code, s.status.description),
        "events": [(e.name, list(e.attributes.items()), e.timestamp) for e in s.events],
        "links": [(show_ctx(l.context), list(l.attributes.items())) for l in s.links],
        "context": show_ctx(s.get_span_context()), "parent": s.parent and show_ctx(s.parent),
        "resource": s.resource, "scope": s.instrumentation_scope,
        "dropped": (s.dropped_attributes, s.dropped_events, s.dropped_links),
    }


def compare(rec, s, m, what):
    """Span s must be exactly the model m."""
    rec.eq(s.name, m.name, what + ": name")
    rec.check(s.kind is m.kind, "%s: kind %r, expected %r", what, s.kind, m.kind)
    rec.eq(list(s.attributes.items()), list(m.attrs.items()), what + ": attributes")
    rec.eq(len(s.events), len(m.events), what + ": number of events")
    for i, (e, (n, a, t)) in enumerate(zip(s.events, m.events)):
        rec.eq(e.name, n, "%s: event %d name" % (what, i))
        rec.eq(dict(e.attributes or {}), a, "%s: event %d attributes" % (what, i))
        if isinstance(t, tuple):
            rec.check(t[0] <= e.timestamp <= t[1], "%s: event %d time %r outside the call %r", what, i, e.timestamp, t)
        else:
            rec.eq(e.timestamp, t, "%s: event %d time" % (what, i))
    rec.eq([(show_ctx(l.context), dict(l.attributes or {})) for l in s.links], m.links, what + ": links")
    rec.check(s.status.status_code is CODES[m.code], "%s: status %r, expected %r", what, s.status.status_code, CODES[m.code])
    rec.eq(s.status.description or None, m.desc, what + ": status description")
    rec.eq((s.dropped_attributes, s.dropped_events, s.dropped_links), (0, 0, 0), what + ": dropped counts")
