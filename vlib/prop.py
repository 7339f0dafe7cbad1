"""Helpers for propagator checks."""
from opentelemetry import baggage, trace
from opentelemetry.context import Context, set_value
from opentelemetry.propagators.textmap import Getter, Setter


def span_ctx(tid, sid, flags=0, ts=(), remote=False):
    return trace.SpanContext(tid, sid, remote, trace.TraceFlags(flags), trace.TraceState(list(ts)))


def make_ctx(span=None, bag=None, extra=None):
    ctx = Context()
    for k, v in (extra or {}).items():
        ctx = set_value(k, v, ctx)
    if bag is not None:
        for k, v in bag.items():
            ctx = baggage.set_baggage(k, v, ctx)
    if span is not None:
        ctx = trace.set_span_in_context(trace.NonRecordingSpan(span_ctx(*span)), ctx)
    return ctx


def describe(sc):
    return (sc.trace_id, sc.span_id, int(sc.trace_flags), list(sc.trace_state.items()))


def view(ctx):
    """What a context shows: span identity, baggage, plain values k0..k3."""
    return (describe(trace.get_current_span(ctx).get_span_context()),
            trace.get_current_span(ctx).get_span_context().is_remote,
            dict(baggage.get_all(ctx)),
            [ctx.get("x%d" % i) for i in range(3)])


class PairSetter(Setter):
    """Carrier = list of (key, value)."""

    def set(self, carrier, key, value):
        carrier.append((key, value))


class PairGetter(Getter):
    """Carrier = list of (key, value), several values per key."""

    def get(self, carrier, key):
        vals = [v for k, v in carrier if k == key]
        return vals or None

    def keys(self, carrier):
        return list(dict.fromkeys(k for k, _ in carrier))


def is_hex(s, n):
    return len(s) == n and all(c in "0123456789abcdef" for c in s)
