"""C05 B3 propagation, single and multi header."""
from hypothesis import strategies as st

from opentelemetry.context import attach, detach
from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat
from vlib.core import sub
from vlib.gen import flags, pick, span_ids, trace_ids, weighted
from vlib.prop import PairGetter, PairSetter, make_ctx, view

RULE = ("round trips of span contexts through both forms with dict, pair-list and list-valued carriers; carriers combining single and multi "
        "headers with valid, near-valid and arbitrary values. non-trivial: valid identity injected / at least one header present.")
MULTI, SINGLE = B3MultiFormat(), B3SingleFormat()
tid_any = weighted((6, trace_ids), (1, pick(0, 2**128, -1)))
sid_any = weighted((6, span_ids), (1, pick(0, 2**64, -1)))
base = st.tuples(st.none() | st.tuples(trace_ids, span_ids, flags),
                 st.dictionaries(pick("b1", "b2"), pick("v", "w"), max_size=2),
                 st.dictionaries(pick("x0", "x1", "x2"), pick(1, 2), max_size=2))


@sub("roundtrip", st.tuples(tid_any, sid_any, flags, st.booleans(), st.booleans(), pick("dict", "pairs", "lists", "current"), base),
     quick=8000, thorough=250000)
def roundtrip(rec, case):
    tid, sid, fl, inj_single, ext_single, how, (bspan, bag, extra) = case
    ctx = make_ctx((tid, sid, fl), {"q": "1"})
    inj, ext = (SINGLE if inj_single else MULTI), (SINGLE if ext_single else MULTI)
    carrier, kw, gk = ([], {"setter": PairSetter()}, {"getter": PairGetter()}) if how == "pairs" else ({}, {}, {})
    if how == "current":
        t = attach(ctx)
        inj.inject(carrier)
        detach(t)
    else:
        inj.inject(carrier, context=ctx, **kw)
    hdrs = dict(carrier)
    if not (0 < tid < 2**128 and 0 < sid < 2**64):
        rec.eq(hdrs, {}, "invalid span context was injected")
        rec.label("invalid")
        return
    rec.nontrivial()
    t, s, f = "%032x" % tid, "%016x" % sid, "1" if fl & 1 else "0"
    want = {"b3": "%s-%s-%s" % (t, s, f)} if inj_single else {"x-b3-traceid": t, "x-b3-spanid": s, "x-b3-sampled": f}
    rec.eq(hdrs, want, "injected headers")
    rec.check(set(hdrs) <= set(inj.fields), "wrote %r, announced %r", set(hdrs), inj.fields)
    if how == "lists":
        carrier = {k: [v] for k, v in carrier.items()}
    b = make_ctx(bspan, bag, extra)
    before = view(b)
    out = ext.extract(carrier, b, **gk)
    rec.eq(view(b), before, "extract changed the given context")
    rec.eq(view(out), ((tid, sid, fl & 1, []), True, before[2], before[3]), "extracted context")
    rec.eq(view(ext.extract(carrier, **gk))[:2], ((tid, sid, fl & 1, []), True), "extracted into the root context")


H = "0123456789abcdefABCDEF"
hex16 = st.one_of(span_ids.map(lambda i: "%016x" % i), span_ids.map(lambda i: "%016X" % i))
hex32 = st.one_of(trace_ids.map(lambda i: "%032x" % i), trace_ids.map(lambda i: "%032X" % i))
bad_id = st.one_of(
    st.text(H, max_size=40), pick("0" * 16, "0" * 32, "", "0", "g" * 16, "g" * 32, "1" * 15, "1" * 17, "1" * 31, "1" * 33, "0x" + "1" * 14, " " + "1" * 15,
                                  "1" * 15 + "\n", "1" * 16 + "\n", "-" + "1" * 15, "1_1" + "1" * 13, "\u0661" * 16, "\uff11" * 32, "+" + "1" * 15, "1" * 16 + " "),
    st.text(max_size=5))
tid_h = weighted((4, hex32), (3, hex16), (2, bad_id))
sid_h = weighted((6, hex16), (2, bad_id))
samp = weighted((6, pick("0", "1", "d", "true", "True", "false", "False")), (1, pick("", "2", "x", "D", "TRUE", " 1", "yes")), (1, st.text(max_size=3)))
single = weighted(
    (4, st.builds(lambda a, b, c: "-".join([a, b, c]), tid_h, sid_h, samp)),
    (3, st.builds(lambda a, b: "-".join([a, b]), tid_h, sid_h)),
    (2, st.builds(lambda a, b, c, d: "-".join([a, b, c, d]), tid_h, sid_h, samp, weighted((2, hex16), (1, st.text(max_size=3))))),
    (1, st.builds(lambda a, b, c: "-".join([a, b, c, "1" * 16, "x"]), hex32, hex16, samp)),
    (1, samp), (1, st.text(max_size=10)), (1, pick("", "-", "--", "---", "----", "0-1-2-3-4-5-6-7")),
)
carrier_s = st.fixed_dictionaries({}, optional={
    "b3": single, "x-b3-traceid": tid_h, "x-b3-spanid": sid_h, "x-b3-sampled": samp, "x-b3-flags": weighted((2, pick("0", "1")), (1, st.text(max_size=2)))})
multi_full = st.fixed_dictionaries({"x-b3-traceid": tid_h, "x-b3-spanid": sid_h}, optional={
    "x-b3-sampled": samp, "x-b3-flags": weighted((3, pick("0", "1")), (1, st.text(max_size=2))), "b3": single})


def idok(s, lens):
    return len(s) in lens and all(c in H for c in s) and int(s, 16) != 0


def parse(c):
    """-> None | (tid, sid, sampled or None when the text does not settle it)"""
    one = c.get("b3")
    if one:
        p = one.split("-")
        if not 2 <= len(p) <= 4:
            return None
        tid, sid = p[:2]
        samp = p[2] if len(p) > 2 else "1"
        fl = None
    else:
        tid, sid = c.get("x-b3-traceid") or "", c.get("x-b3-spanid") or ""
        samp = c.get("x-b3-sampled") or "0"
        fl = c.get("x-b3-flags")
    if not idok(tid, (16, 32)) or not idok(sid, (16,)):
        return None
    if fl == "1" or samp in ("1", "d", "true", "True"):
        s = 1
    elif samp in ("0", "false", "False"):
        s = 0
    else:
        s = None if samp.strip().lower() in ("1", "d", "true", "yes") else 0
    return int(tid, 16), int(sid, 16), s


@sub("headers", st.tuples(weighted((2, carrier_s), (3, multi_full)), base, st.booleans(), pick("str", "list", "pairs", "extra")), quick=12000, thorough=400000,
     examples=[({"x-b3-traceid": "0" * 32, "x-b3-spanid": "1" * 16}, ((3, 4, 1), {}, {}), True, "str"),
               ({"b3": "\u0661" * 16 + "-" + "1" * 16}, ((3, 4, 1), {}, {}), True, "str")],
     rule="arbitrary header combinations against an independent parser of the documented B3 forms")
def headers(rec, case):
    c, (bspan, bag, extra), ext_single, form = case
    want = parse(c)
    carrier, gk = dict(c), {}
    if form == "list":
        carrier = {k: [v, "zzz"] for k, v in c.items()}
    elif form == "pairs":
        carrier, gk = list(c.items()), {"getter": PairGetter()}
    elif form == "extra":
        carrier["content-type"] = "x"
        carrier["b3x"] = "y"
    ctx = make_ctx(bspan, bag, extra)
    before = view(ctx)
    out = (SINGLE if ext_single else MULTI).extract(carrier, ctx, **gk)
    rec.eq(view(ctx), before, "extract changed the given context")
    v = view(out)
    if want is None:
        rec.eq(v, before, "headers without a valid identity changed the context: %r" % c)
        rec.eq(dict(out), dict(ctx), "context")
        rec.label("refused")
    else:
        rec.eq(v[0][:2], want[:2], "ids from %r" % c)
        rec.check(v[1] is True, "not remote")
        if want[2] is not None:
            rec.eq(v[0][2], want[2], "sampled flag from %r" % c)
        rec.eq(v[2:], before[2:], "rest of the context")
        rec.label("single" if c.get("b3") else "multi")
    rec.nontrivial(bool(c))
