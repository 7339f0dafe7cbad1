"""C07 composite propagator and process-wide configuration of propagators."""
import importlib
import os

from hypothesis import strategies as st

from opentelemetry import propagate, trace
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.context import Context, attach, detach, set_value
from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.propagators.jaeger import JaegerPropagator
from opentelemetry.propagators.textmap import TextMapPropagator, default_getter, default_setter
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from vlib.core import sub
from vlib.gen import flags, pick, span_ids, trace_ids, ts_entries, weighted
from vlib.prop import PairGetter, PairSetter, make_ctx, view

RULE = ("member lists drawn (also with the same propagator object more than once) from all shipped propagators and order-recording ones, with dict / list-valued / pair carriers and custom getters; "
        "OTEL_PROPAGATORS values as name lists. oracle: applying the members one by one. non-trivial: >=2 members.")


class Tag(TextMapPropagator):
    """Writes its own field and appends its name to context entry 'x0'."""

    def __init__(self, n):
        self.n = n

    def extract(self, carrier, context=None, getter=default_getter):
        if context is None:
            context = Context()
        got = getter.get(carrier, "tag%d" % self.n) or []
        return set_value("x0", (context.get("x0") or "") + "%d%s;" % (self.n, list(got)), context)

    def inject(self, carrier, context=None, setter=default_setter):
        setter.set(carrier, "tag%d" % self.n, "t%d" % self.n)
        setter.set(carrier, "shared", "t%d" % self.n)

    @property
    def fields(self):
        return {"tag%d" % self.n, "shared"}


def members(names):
    mk = {"tracecontext": TraceContextTextMapPropagator, "baggage": W3CBaggagePropagator, "b3": B3SingleFormat,
          "b3multi": B3MultiFormat, "jaeger": JaegerPropagator}
    return [mk[n]() if n in mk else Tag(int(n[3:])) for n in names]


def bits(nested, made=None):
    """made: propagators to use again under the same name, or None for new ones."""
    out = []
    for n in nested:
        if isinstance(n, list):
            out.append(CompositePropagator(bits(n, made)))
        else:
            out.append(members([n])[0] if made is None else made.setdefault(n, members([n])[0]))
    return out


def flat(nested):
    out = []
    for n in nested:
        out += flat(n) if isinstance(n, list) else [n]
    return out


REAL = ["tracecontext", "baggage", "b3", "b3multi", "jaeger"]
name = weighted((3, st.sampled_from(REAL)), (1, pick("tag1", "tag2", "tag3")))
few = st.sampled_from([("tracecontext", "b3"), ("b3", "jaeger"), ("tag1", "tag2"), ("b3multi", "tracecontext"), ("baggage", "jaeger")])
mlist = weighted((2, st.lists(weighted((6, name), (1, st.lists(name, max_size=3))), max_size=6)), (1, few.flatmap(lambda two: st.lists(st.sampled_from(two), min_size=2, max_size=4))))
ident = st.tuples(trace_ids, span_ids, flags, ts_entries)
ctxs = st.tuples(st.none() | ident, st.dictionaries(pick("a", "b", "c d"), pick("v", "w x", ""), max_size=3))
KEYS = ["traceparent", "tracestate", "baggage", "b3", "x-b3-traceid", "x-b3-spanid", "x-b3-sampled", "uber-trace-id", "uberctx-a", "tag1", "tag2"]
noise = st.dictionaries(st.sampled_from(KEYS), st.one_of(st.text(max_size=4), pick("0", "00-" + "1" * 32 + "-" + "2" * 16 + "-01", "1" * 32, "2" * 16, "a=b", "1:2:0:1")), max_size=3)


@sub("composite", st.tuples(mlist, ctxs, ctxs, st.lists(name, max_size=4), noise, pick("dict", "lists", "pairs"), st.booleans(), st.booleans()), quick=8000, thorough=250000,
     examples=[(["tracecontext", "baggage"], ((1, 2, 1, []), {"a": "v"}), (None, {}), ["tracecontext", "baggage"], {}, "dict", True, False)])
def composite(rec, case):
    nested, (span, bag), (bspan, bbag), writers, nz, form, use_global, reuse = case
    comp, parts = CompositePropagator(bits(nested, {} if reuse else None)), members(flat(nested))
    ctx = make_ctx(span, bag)
    carrier, expected = [], []
    old = propagate.get_global_textmap()
    if use_global:
        propagate.set_global_textmap(comp)
    try:
        if use_global:
            rec.check(propagate.get_global_textmap() is comp, "set_global_textmap")
            propagate.inject(carrier, ctx, PairSetter())
            t = attach(ctx)
            c2 = []
            propagate.inject(c2, setter=PairSetter())
            detach(t)
            rec.eq(c2, carrier, "inject of the current context")
        else:
            comp.inject(carrier, ctx, PairSetter())
        for p in parts:
            p.inject(expected, ctx, PairSetter())
        rec.eq(carrier, expected, "written by the composite %r" % (nested,))
        written = {k for k, _ in carrier if not k.startswith("uberctx-")}
        want_fields = set().union(*[set(p.fields) for p in parts]) if parts else set()
        rec.eq(set(comp.fields), want_fields, "fields")
        rec.check(written <= set(comp.fields), "wrote %r outside fields %r", written, comp.fields)
        d = {}
        comp.inject(d, ctx)
        rec.eq(d, dict(expected), "dict carrier (later members override)")
        # extraction
        c = {}
        for p in members(writers):
            p.inject(c, ctx)
        c.update(nz)
        gk = {}
        if form == "lists":
            c = {k: [v] for k, v in c.items()}
        elif form == "pairs":
            c, gk = list(c.items()), {"getter": PairGetter()}
        base = make_ctx(bspan, bbag)
        before = view(base)
        out = propagate.extract(c, base, **gk) if use_global else comp.extract(c, base, **gk)
        want = base
        for p in parts:
            want = p.extract(c, want, **gk)
        rec.eq(view(base), before, "extract changed the given context")
        rec.eq(view(out), view(want), "extracted by %r from %r" % (nested, c))
        rec.eq(sorted(map(str, out)), sorted(map(str, want)), "context keys")
    finally:
        propagate.set_global_textmap(old)
    rec.nontrivial(len(parts) >= 2)
    rec.label("n=%d" % min(len(parts), 4))
    if reuse and len(set(flat(nested))) < len(parts):
        rec.label("same propagator twice")


spaced = st.tuples(pick("", " ", "\t"), st.sampled_from(REAL), pick("", " "))


@sub("configured", st.tuples(st.none() | st.lists(spaced, min_size=1, max_size=5), weighted((6, st.none()), (1, pick("nope", "", "TraceContext")))), quick=400, thorough=8000,
     examples=[(None, None)], rule="OTEL_PROPAGATORS name lists (spaces, repeats, unknown names); the module is re-imported with the variable set")
def configured(rec, case):
    spec, unknown = case
    names = ["tracecontext", "baggage"] if spec is None else [n for _, n, _ in spec]
    old_env = os.environ.pop("OTEL_PROPAGATORS", None)
    if spec is not None or unknown is not None:
        parts = [a + n + b for a, n, b in spec or []]
        if unknown is not None:
            parts.append(unknown)
        os.environ["OTEL_PROPAGATORS"] = ",".join(parts)
    try:
        try:
            importlib.reload(propagate)
        except ValueError:
            rec.check(unknown is not None, "known propagators %r refused", names)
            rec.label("unknown-refused")
            return
        rec.check(unknown is None, "unknown propagator %r accepted silently", unknown)
        g = propagate.get_global_textmap()
        ctx = make_ctx((0xABC, 0xDEF, 1, [("k", "v")]), {"a": "1"})
        got, want = [], []
        propagate.inject(got, ctx, PairSetter())
        for p in members(names):
            p.inject(want, ctx, PairSetter())
        rec.eq(got, want, "global propagator for %r" % (names,))
        rec.eq(set(g.fields), set().union(*[set(p.fields) for p in members(names)]), "fields")
        # conflicting identities: the later one must win
        c = {"traceparent": "00-%032x-%016x-01" % (1, 1), "b3": "%032x-%016x-1" % (2, 2), "uber-trace-id": "3:3:0:1", "baggage": "q=1", "uberctx-j": "2"}
        w = Context()
        for p in members(names):
            w = p.extract(c, w)
        rec.eq(view(propagate.extract(c, Context())), view(w), "extract with %r" % (names,))
        rec.nontrivial(spec is not None)
    finally:
        if old_env is None:
            os.environ.pop("OTEL_PROPAGATORS", None)
        else:
            os.environ["OTEL_PROPAGATORS"] = old_env
        importlib.reload(propagate)
