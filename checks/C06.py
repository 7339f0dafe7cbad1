"""C06 Jaeger propagation."""
from urllib.parse import quote

from hypothesis import strategies as st

from opentelemetry import baggage, trace
from opentelemetry.context import attach, detach
from opentelemetry.propagators.jaeger import JaegerPropagator
from opentelemetry.sdk.trace import TracerProvider
from vlib.core import sub
from vlib.gen import flags, pick, span_ids, trace_ids, utext, weighted
from vlib.prop import PairGetter, PairSetter, make_ctx, view

RULE = ("round trips of span contexts and baggage (keys containing the prefix, values needing escapes); arbitrary uber-trace-id and uberctx-* headers. "
        "non-trivial: valid identity with baggage / header present.")
P = JaegerPropagator()
tid_any = weighted((6, trace_ids), (1, pick(0, 2**128, -1)))
sid_any = weighted((6, span_ids), (1, pick(0, 2**64, -1)))
key = weighted((3, pick("a", "b", "k1")), (1, pick("uberctx-", "uberctx-x", "auberctx-b", "uberctx-uberctx-", "x-uber", "A b")), (1, utext.filter(bool)))
val = weighted((2, utext), (2, pick("", " x ", "a b", "100%", "%41", "a/b", "a,b;c=d", "é", "\t", "+")))
bags = st.dictionaries(key, val, max_size=4)
mixed = st.dictionaries(key, weighted((4, val), (1, st.integers(-9, 99)), (1, st.booleans()), (1, pick(1.5, -0.25))), max_size=4)
base = st.tuples(st.none() | st.tuples(trace_ids, span_ids, flags), st.dictionaries(pick("b1", "a"), pick("v", "w"), max_size=2),
                 st.dictionaries(pick("x0", "x1", "x2"), pick(1, 2), max_size=2))


@sub("roundtrip", st.tuples(tid_any, sid_any, flags, weighted((3, bags), (1, mixed)), pick("dict", "pairs", "lists", "current", "sdk", "sdk-remote", "root"), base), quick=8000, thorough=250000,
     examples=[(1, 2, 1, {"uberctx-x": " v "}, "dict", (None, {}, {}))])
def roundtrip(rec, case):
    tid, sid, fl, bag, how, (bspan, bbag, extra) = case
    ctx = make_ctx((tid, sid, fl, (), how == "sdk-remote"), bag)
    parent = 0
    if how == "root" and 0 < tid < 2**128 and 0 < sid < 2**64:
        ctx = make_ctx(None, bag)
    if how in ("sdk", "sdk-remote", "root") and 0 < tid < 2**128 and 0 < sid < 2**64:
        tp = TracerProvider()
        span = tp.get_tracer("t").start_span("s", context=ctx)
        sc = span.get_span_context()
        if span.is_recording() and how != "root":
            parent = sid
        ctx = trace.set_span_in_context(span, ctx)
        tid, sid, fl = sc.trace_id, sc.span_id, int(sc.trace_flags)
    carrier, kw, gk = ([], {"setter": PairSetter()}, {"getter": PairGetter()}) if how == "pairs" else ({}, {}, {})
    if how == "current":
        t = attach(ctx)
        P.inject(carrier)
        detach(t)
    else:
        P.inject(carrier, context=ctx, **kw)
    hdrs = dict(carrier)
    if not (0 < tid < 2**128 and 0 < sid < 2**64):
        rec.eq(hdrs, {}, "invalid span context was injected")
        rec.label("invalid")
        return
    h = hdrs.get("uber-trace-id", "")
    p = h.split(":")
    rec.check(len(p) == 4, "uber-trace-id %r", h)
    rec.eq((int(p[0], 16), int(p[1], 16), int(p[2], 16)), (tid, sid, parent), "ids in %r" % h)
    rec.eq(int(p[3], 16) & 1, fl & 1, "sampled flag in %r" % h)
    rec.eq({k: v for k, v in hdrs.items() if k != "uber-trace-id"}, {"uberctx-" + k: quote(str(v)) for k, v in bag.items()}, "baggage headers")
    if how == "lists":
        carrier = {k: [v] for k, v in carrier.items()}
    b = make_ctx(bspan, bbag, extra)
    before = view(b)
    out = P.extract(carrier, b, **gk)
    rec.eq(view(b), before, "extract changed the given context")
    rec.eq(view(out), ((tid, sid, fl & 1, []), True, {**before[2], **{k: str(v) for k, v in bag.items()}}, before[3]), "extracted context")
    rec.nontrivial(bool(bag))
    rec.label("baggage" if bag else "no-baggage", how)


hx = lambda w: st.one_of(st.integers(0, 2 ** (4 * w) - 1).map(lambda i: "%x" % i), st.integers(1, 2 ** (4 * w) - 1).map(lambda i: ("%%0%dx" % w) % i))
bad = weighted((2, pick("", "0", "-1", "-0", "0x", "g", "1" * 33, "f" * 40, "-" + "1" * 32, " ", "é", "\u0661", "xyz", "0" * 16, "0" * 32)), (1, st.text(max_size=5)))
uber = weighted(
    (14, st.builds(lambda a, b, c, d: ":".join([a, b, c, d]), weighted((9, hx(32)), (1, bad)), weighted((9, hx(16)), (1, bad)),
                  weighted((3, pick("0", "00", "0000000000000000")), (1, hx(16)), (1, bad)), weighted((4, pick("0", "1", "00", "01", "03", "2", "ff")), (1, bad)))),
    (1, st.text(max_size=12)), (1, st.lists(hx(4), max_size=6).map(":".join)), (1, pick("", ":::", "1:1:0", "1:1:0:1:1", "1%3A2%3A0%3A1")),
)
raw = weighted((3, utext), (1, pick("%", "%zz", "a%20b", " v ", "")))
ctxhdr = st.dictionaries(key, raw, max_size=3)


def num(s):
    try:
        return int(s, 16)
    except ValueError:
        return None


def strict(s, n):
    return 1 <= len(s) <= n and all(c in "0123456789abcdefABCDEF" for c in s)


def parse(h):
    """None: no valid identity; 'lenient': the documentation does not say; else ids, sampled."""
    p = h.split(":")
    if len(p) != 4:
        return None
    t, s, f = num(p[0]), num(p[1]), num(p[3])
    if not t or not s or f is None or not 0 < t < 2**128 or not 0 < s < 2**64:
        return None
    if not (strict(p[0], 32) and strict(p[1], 16) and strict(p[3], 2)) or (p[2] and not strict(p[2], 16)):
        return "lenient"
    return t, s, f & 1


@sub("headers", st.tuples(st.none() | uber, ctxhdr, base, pick("str", "list", "pairs", "empty-list"), st.booleans()), quick=10000, thorough=400000,
     examples=[("-1:1:0:1", {}, ((3, 4, 1), {}, {}), "str", False), ("f" * 40 + ":1:0:1", {}, ((3, 4, 1), {}, {}), "str", False),
               ("1:1:0:1", {"x": "v"}, (None, {}, {}), "empty-list", False)],
     rule="arbitrary uber-trace-id / uberctx headers against an independent parser")
def headers(rec, case):
    h, ch, (bspan, bbag, extra), form, other = case
    carrier, gk = {}, {}
    if h is not None:
        carrier["uber-trace-id"] = h
    for k, v in ch.items():
        carrier["uberctx-" + k] = v
    if other:
        carrier["x-uberctx-no"] = "1"
    empties = set()
    if form == "list":
        carrier = {k: [v, "zz"] for k, v in carrier.items()}
    elif form == "pairs":
        carrier, gk = list(carrier.items()), {"getter": PairGetter()}
    elif form == "empty-list":
        empties = set(ch)
        carrier = {k: ([] if k.startswith("uberctx-") else v) for k, v in carrier.items()}
    ctx = make_ctx(bspan, bbag, extra)
    before = view(ctx)
    out = P.extract(carrier, ctx, **gk)
    rec.eq(view(ctx), before, "extract changed the given context")
    v = view(out)
    rec.eq(v[3], before[3], "plain values")
    want = parse(h) if h else None
    sc = trace.get_current_span(out).get_span_context()
    if want is None:
        rec.eq(v[:2], before[:2], "header %r without a valid identity changed the current span" % h)
        rec.label("refused")
    elif want == "lenient":
        rec.check(sc.is_valid or v[:2] == before[:2], "header %r produced an invalid span context %r", h, v[0])
        rec.label("lenient")
    else:
        rec.eq(v[0], (want[0], want[1], want[2], []), "identity from %r" % h)
        rec.check(v[1] is True, "not remote")
        rec.label("accepted")
    if not ch:
        rec.eq(v[2], before[2], "baggage without baggage headers")
    elif want not in (None, "lenient"):
        from urllib.parse import unquote
        exp = dict(before[2])
        for k, x in ch.items():
            if k not in empties:
                exp[k] = unquote(x)
        rec.eq({k: x.strip() for k, x in v[2].items()}, {k: x.strip() for k, x in exp.items()}, "baggage from %r" % ch)
    rec.nontrivial(bool(h))
