"""T02: span limits - model of eviction, truncation, dropped counts and of the precedence of settings."""
import os

from hypothesis import strategies as st

from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanLimits, TracerProvider
from opentelemetry.sdk.util import BoundedList
from opentelemetry.trace import Link, SpanContext
from vlib.bounded import BMap, akey, amap, cut, val
from vlib.core import sub
from vlib.gen import pick, utext, weighted
from vlib.spans import exc_type_name, make_exc, exc

RULE = ("limit settings (each argument absent, None, UNSET or a number; each environment variable absent, empty or a number) and sequences of attribute, event, link and "
        "exception calls against a model of bounded collections. non-trivial: something was dropped or cut.")

NAMES = ["max_attributes", "max_events", "max_links", "max_span_attributes", "max_event_attributes", "max_link_attributes", "max_attribute_length", "max_span_attribute_length"]
ENV = {
    "max_attributes": "OTEL_ATTRIBUTE_COUNT_LIMIT", "max_events": "OTEL_SPAN_EVENT_COUNT_LIMIT", "max_links": "OTEL_SPAN_LINK_COUNT_LIMIT",
    "max_span_attributes": "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "max_event_attributes": "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT",
    "max_link_attributes": "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT", "max_attribute_length": "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT",
    "max_span_attribute_length": "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT",
}
count = weighted((6, st.integers(0, 4)), (1, pick(127, 128, 129, 1000)))
length = weighted((6, st.integers(0, 6)), (1, st.integers(7, 40)))


def opt(n):
    v = length if "length" in n else count
    return weighted((2, v), (1, st.just(-1)), (1, st.none()))


def env_opt(n):
    v = length if "length" in n else count
    return weighted((3, v.map(str)), (1, v.map(lambda x: "  %d " % x)), (1, pick("", "  ")))


settings = st.tuples(st.fixed_dictionaries({}, optional={n: opt(n) for n in NAMES}), st.fixed_dictionaries({}, optional={n: env_opt(n) for n in NAMES}), st.booleans())

UNLIMITED = None


def effective(args, env):
    """The documented precedence -> dict of numbers or None (no limit)."""

    def explicit(n):
        """(set?, value)"""
        a = args.get(n)
        if a == -1:
            return True, None
        if a is not None:
            return True, a
        if n in env:
            t = env[n].strip()
            return True, (None if t == "" else int(t))
        return False, None

    out = {}
    _, general = explicit("max_attributes")      # UNSET/empty: not set, the model default applies
    out["max_attributes"] = 128 if general is None else general
    for n in ("max_span_attributes", "max_event_attributes", "max_link_attributes"):
        is_set, v = explicit(n)
        out[n] = v if is_set else out["max_attributes"]
    for n in ("max_events", "max_links"):
        is_set, v = explicit(n)
        out[n] = v if is_set else 128
    out["max_attribute_length"] = explicit("max_attribute_length")[1]
    is_set, v = explicit("max_span_attribute_length")
    out["max_span_attribute_length"] = v if is_set else out["max_attribute_length"]
    return out


class with_env:
    def __init__(self, env):
        self.env = {ENV[k]: v for k, v in env.items()}

    def __enter__(self):
        os.environ.update(self.env)

    def __exit__(self, *a):
        for k in self.env:
            os.environ.pop(k, None)


class BList:
    def __init__(self, maxlen):
        self.maxlen, self.l, self.dropped = maxlen, [], 0

    def add(self, x):
        self.l.append(x)
        if self.maxlen is not None and len(self.l) > self.maxlen:
            self.l.pop(0)
            self.dropped += 1


op = weighted(
    (4, st.tuples(st.just("attr"), akey, val)), (3, st.tuples(st.just("attrs"), amap)), (4, st.tuples(st.just("event"), amap)),
    (4, st.tuples(st.just("link"), amap)), (2, st.tuples(st.just("exc"), exc, amap)),
    (1, st.tuples(pick("many_attrs", "many_events", "many_links", "wide_event", "wide_link"), st.integers(126, 131))),
)


@sub("limits", st.tuples(settings, amap, st.lists(amap, max_size=6), st.lists(op, max_size=10)), quick=12000, thorough=500000)
def limits(rec, case):
    (args, env, twice), attrs, links, ops = case
    eff = effective(args, env)
    with with_env(env):
        if args:
            lim = SpanLimits(**args)
            for n in NAMES:
                rec.eq(getattr(lim, n), eff[n], "effective " + n)
            tp = TracerProvider(span_limits=lim, resource=Resource({}), shutdown_on_exit=False)
        else:
            tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
    tracer = tp.get_tracer("t")
    real_links = [Link(SpanContext(1, i + 1, False), a) for i, a in enumerate(links)]
    if twice:       # another span started from the same arguments must not matter
        tracer.start_span("other", attributes=attrs, links=real_links).end()
    s = tracer.start_span("s", attributes=attrs, links=real_links)
    A = BMap(eff["max_span_attributes"], eff["max_span_attribute_length"]).fill(attrs)
    E, L = BList(eff["max_events"]), BList(eff["max_links"])
    ev = lambda a: BMap(eff["max_event_attributes"], eff["max_attribute_length"]).fill(a)
    lk = lambda a: BMap(eff["max_link_attributes"], eff["max_attribute_length"]).fill(a)
    for i, a in enumerate(links):
        L.add((i + 1, lk(a)))
    nev, nlk = 0, len(links)
    for o in ops:
        k = o[0]
        if k == "attr":
            s.set_attribute(o[1], o[2])
            A.put(o[1], o[2])
        elif k == "attrs":
            s.set_attributes(o[1])
            A.fill(o[1])
        elif k == "many_attrs":
            d = {"k%d" % i: i for i in range(o[1])}
            s.set_attributes(d)
            A.fill(d)
        elif k in ("event", "many_events", "wide_event"):
            for a in ([o[1]] if k == "event" else [{}] * o[1] if k == "many_events" else [{"k%d" % i: i for i in range(o[1])}]):
                s.add_event("e%d" % nev, a)
                E.add(("e%d" % nev, ev(a)))
                nev += 1
        elif k in ("link", "many_links", "wide_link"):
            for a in ([o[1]] if k == "link" else [{}] * o[1] if k == "many_links" else [{"k%d" % i: i for i in range(o[1])}]):
                nlk += 1
                s.add_link(SpanContext(1, nlk, False), a)
                L.add((nlk, lk(a)))
        elif k == "exc":
            x = make_exc(o[1])
            s.record_exception(x, attributes=o[2])
            import traceback
            d = {"exception.type": exc_type_name(x), "exception.message": str(x),
                 "exception.stacktrace": "".join(traceback.format_exception(type(x), x, x.__traceback__)), "exception.escaped": "False"}
            d.update(o[2])
            E.add(("exception", ev(d)))
            nev += 1
    s.end()
    rec.eq(list(s.attributes.items()), list(A.d.items()), "kept attributes")
    rec.eq(s.dropped_attributes, A.dropped, "dropped attributes")
    rec.eq([e.name for e in s.events], [n for n, _ in E.l], "kept events")
    rec.eq(s.dropped_events, E.dropped, "dropped events")
    rec.eq([l.context.span_id for l in s.links], [n for n, _ in L.l], "kept links")
    rec.eq(s.dropped_links, L.dropped, "dropped links")
    for got, (n, m) in list(zip(s.events, E.l)) + list(zip(s.links, L.l)):
        rec.eq(list(got.attributes.items()), list(m.d.items()), "attributes of %s" % n)
        rec.eq(got.dropped_attributes, m.dropped, "dropped attributes of %s" % n)
    for i, a in enumerate(links):
        rec.eq(dict(real_links[i].attributes), a, "the caller's link after starting a span")
    dropped = A.dropped + E.dropped + L.dropped + sum(m.dropped for _, m in E.l + L.l)
    rec.nontrivial(dropped or A.cut or any(m.cut for _, m in E.l + L.l))
    rec.label("dropped" if dropped else "all-kept", "env" if env else "no-env")


@sub("invalid", st.tuples(st.sampled_from(NAMES), st.booleans(), weighted((1, st.integers(-50, -2)), (1, pick("abc", "1.5", "-1", "-7", "1 2", "0x10", "none", "1e3")))), quick=600, thorough=5000,
     rule="malformed settings are rejected. non-trivial: all")
def invalid(rec, case):
    n, via_env, v = case
    rec.nontrivial()
    try:
        if via_env:
            with with_env({n: str(v)}):
                SpanLimits()
        elif isinstance(v, int):
            SpanLimits(**{n: v})
        else:
            return
    except ValueError:
        return
    rec.fail("%s=%r (%s) was accepted" % (n, v, "environment" if via_env else "argument"))


entries = st.lists(st.integers(0, 9), max_size=6)


@sub("lists", st.tuples(st.none() | st.integers(0, 5), entries, st.lists(st.one_of(st.integers(0, 9), entries), max_size=6)), quick=1500, thorough=60000,
     rule="the public BoundedList against the last items of everything appended. non-trivial: something was dropped")
def lists(rec, case):
    maxlen, first, more = case
    b = BoundedList.from_seq(maxlen, first)
    everything = list(first)
    for x in more:
        if isinstance(x, list):
            b.extend(x)
            everything += x
        else:
            b.append(x)
            everything.append(x)
        n = len(everything) if maxlen is None else min(maxlen, len(everything))
        want = everything[len(everything) - n:]
        rec.eq(list(b), want, "items after %r" % (x,))
        rec.eq(([b[i] for i in range(n)], len(b)), (want, n), "indexed items and length after %r" % (x,))
        rec.eq(b.dropped, len(everything) - n, "dropped after %r" % (x,))
    rec.nontrivial(b.dropped > 0)
