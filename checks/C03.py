"""C03 W3C trace context propagation."""
from hypothesis import strategies as st

from opentelemetry import trace
from opentelemetry.context import attach, detach
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from vlib.core import sub
from vlib.gen import flags, pick, span_ids, trace_ids, ts_entries, ts_key, ts_value, weighted
from vlib.prop import PairGetter, PairSetter, describe, is_hex, make_ctx, span_ctx, view

RULE = ("round trips over span contexts (ids incl. boundaries, all flags, trace states up to 32 entries) and three carrier kinds; "
        "headers built as valid ones and mutated. non-trivial: valid identity injected / header differs from a valid one in one place.")
P = TraceContextTextMapPropagator()
big_ts = st.integers(30, 32).map(lambda n: [("k%d" % i, "v%d" % i) for i in range(n)])
tid_any = weighted((6, trace_ids), (1, pick(0, 2**128, -1, 2**128 + 5)))
sid_any = weighted((6, span_ids), (1, pick(0, 2**64, -1)))
sctx = st.tuples(tid_any, sid_any, flags, weighted((6, ts_entries), (1, big_ts)), st.booleans())
base = st.tuples(st.none() | st.tuples(trace_ids, span_ids, flags, ts_entries),
                 st.dictionaries(pick("b1", "b2"), pick("v", "w"), max_size=2),
                 st.dictionaries(pick("x0", "x1", "x2"), pick(1, 2), max_size=2))


@sub("roundtrip", st.tuples(sctx, base, pick("dict", "pairs", "current", "listdict")), quick=9000, thorough=300000)
def roundtrip(rec, case):
    (tid, sid, fl, ts, remote), (bspan, bag, extra), how = case
    ctx = make_ctx((tid, sid, fl, ts, remote), bag)
    before = view(ctx)
    if how == "pairs":
        carrier, getter, kw = [], PairGetter(), {"setter": PairSetter()}
    else:
        carrier, getter, kw = {}, None, {}
    if how == "current":
        tok = attach(ctx)
        P.inject(carrier)
        detach(tok)
    else:
        P.inject(carrier, context=ctx, **kw)
    rec.eq(view(ctx), before, "inject changed the context")
    valid = 0 < tid < 2**128 and 0 < sid < 2**64
    hdrs = dict(carrier)
    if not valid:
        rec.check(not carrier, "invalid span context was injected: %r", hdrs)
        rec.label("invalid")
        return
    rec.nontrivial()
    rec.eq(hdrs.get("traceparent"), "00-%s-%s-%s" % (format(tid, "032x"), format(sid, "016x"), format(fl, "02x")), "traceparent")
    rec.check(set(hdrs) <= set(P.fields), "wrote fields %r not announced in %r", set(hdrs), set(P.fields))
    if ts:
        rec.eq(hdrs.get("tracestate"), ",".join("%s=%s" % e for e in ts), "tracestate")
    else:
        rec.check(not hdrs.get("tracestate"), "tracestate header for an empty state: %r", hdrs)
    if how == "listdict":
        carrier = {k: [v] for k, v in carrier.items()}
        carrier["other"] = ["z"]
    base_ctx = make_ctx(bspan, bag, extra)
    b_before = view(base_ctx)
    out = P.extract(carrier, base_ctx, getter) if getter else P.extract(carrier, base_ctx)
    rec.eq(view(base_ctx), b_before, "extract changed the given context")
    rec.eq(view(out), ((tid, sid, fl, list(ts)), True, b_before[2], b_before[3]), "extracted context")
    sc = trace.get_current_span(out).get_span_context()
    rec.check(sc.is_valid and sc.is_remote, "extracted context not valid/remote")
    fresh = P.extract(carrier, getter=getter) if getter else P.extract(carrier)
    rec.eq(describe(trace.get_current_span(fresh).get_span_context()), (tid, sid, fl, list(ts)), "extracted into the root context")
    # ids restored then injected again give the same header
    again = {}
    P.inject(again, context=out)
    rec.eq(again, hdrs, "re-injected headers")


HEX = "0123456789abcdef"
mutation = st.one_of(
    st.just(("none",)), st.just(("none",)), st.tuples(st.just("version"), st.sampled_from(["00", "01", "fe"])),
    st.tuples(st.just("replace"), st.integers(0, 60), st.sampled_from(list("0f9agABF-_ \t\n.") + ["\u0661", "\uff11", "\x00", "é", ""])),
    st.tuples(st.just("insert"), st.integers(0, 60), st.sampled_from(list("0fgA- \t\n") + ["\u0663"])),
    st.tuples(st.just("version"), st.sampled_from(["00", "01", "cc", "fe", "ff", "0", "000", "0g", "FF", "-0", ""])),
    st.tuples(st.just("tail"), st.sampled_from(["-", "-01", "-extra", "x", " ", "\t ", "\n", "-é", " -", "0", "-\n", "-a-b", "--", "-01-02-03", "-a-"])),
    st.tuples(st.just("future"), st.sampled_from(["01", "02", "cc", "fe"]), st.text("-a01", max_size=8)),
    st.tuples(st.just("head"), st.sampled_from([" ", "\t", "  ", "\n", "0", "x"])),
    st.tuples(st.just("trace"), st.sampled_from(["0" * 32, "f" * 31, "f" * 33, "F" * 32, "", "0x" + "1" * 30, " " + "1" * 31, "1_" * 16])),
    st.tuples(st.just("span"), st.sampled_from(["0" * 16, "f" * 15, "f" * 17, "F" * 16, "", "0x" + "1" * 14, "+" + "1" * 15])),
    st.tuples(st.just("flags"), st.sampled_from(["0", "000", "", "0G", "FF", "ff", "-1", " 1"])),
    st.tuples(st.just("upper")), st.tuples(st.just("dup")), st.tuples(st.just("garbage"), st.text(max_size=20)),
)
good_tsv = ts_entries.map(lambda l: [",".join("%s=%s" % t for t in l)])
tsv = st.one_of(
    st.none(), st.just([]), st.just([""]),
    st.lists(st.text(max_size=10), max_size=2),
    pick(["=,=,"], ["a=b,a=c"], ["A=b"], ["a=1", "b=2"], ["\x00"], ["a=1,,b=2"]),
)
header_case = st.tuples(st.tuples(trace_ids, span_ids, flags), st.lists(weighted((1, st.just(("none",))), (1, mutation)), min_size=1, max_size=2), weighted((1, good_tsv), (1, tsv)), base, pick("str", "list", "tuple"))


def mutate(h, m):
    k = m[0]
    if k in ("none",):
        return h
    if k == "replace":
        i = m[1] % max(1, len(h))
        return h[:i] + m[2] + h[i + 1:]
    if k == "insert":
        i = m[1] % (len(h) + 1)
        return h[:i] + m[2] + h[i:]
    if k in ("version", "trace", "span", "flags"):
        p = h.split("-")
        i = {"version": 0, "trace": 1, "span": 2, "flags": 3}[k]
        if i < len(p):
            p[i] = m[1]
        return "-".join(p)
    if k == "future":
        return m[1] + h[2:] + "-" + m[2]
    if k == "tail":
        return h + m[1]
    if k == "head":
        return m[1] + h
    if k == "upper":
        return h.upper()
    if k == "dup":
        return h + "," + h
    return m[1]


def parse(h):
    """The documented grammar: [ows] ver-trace-span-flags [-anything if ver != 00] [ows]."""
    h = h.strip(" \t")
    p = h.split("-", 4)
    if len(p) < 4 or not (is_hex(p[0], 2) and is_hex(p[1], 32) and is_hex(p[2], 16) and is_hex(p[3], 2)):
        return None
    if p[0] == "ff" or (p[0] == "00" and len(p) > 4):
        return None
    if int(p[1], 16) == 0 or int(p[2], 16) == 0:
        return None
    if len(p) > 4 and "\n" in p[4]:
        return "either"
    return int(p[1], 16), int(p[2], 16), int(p[3], 16)


@sub("headers", header_case, quick=12000, thorough=400000,
     examples=[((1, 1, 1), [("tail", "\n")], None, (None, {}, {}), "str")],
     rule="mutated traceparent/tracestate strings against an independent parser of the documented grammar")
def headers(rec, case):
    (tid, sid, fl), muts, tsh, (bspan, bag, extra), form = case
    h = "00-%032x-%016x-%02x" % (tid, sid, fl)
    for m in muts:
        h = mutate(h, m)
    want = parse(h)
    carrier = {"traceparent": h if form == "str" else [h] if form == "list" else (h,)}
    if tsh is not None:
        carrier["tracestate"] = tsh if form != "str" or len(tsh) != 1 else tsh[0]
    ctx = make_ctx(bspan, bag, extra)
    before = view(ctx)
    out = P.extract(carrier, ctx)
    rec.eq(view(ctx), before, "extract changed the given context")
    v = view(out)
    if want == "either":
        return
    if want is None:
        rec.eq(v, before, "malformed traceparent %r changed the context" % h)
        rec.eq(dict(out), dict(ctx), "context after malformed traceparent %r" % h)
        rec.label("refused")
    else:
        rec.eq(v[0][:3], want, "ids/flags from %r" % h)
        rec.check(v[1] is True, "not remote")
        rec.eq(v[2:], before[2:], "other context entries")
        rec.label("accepted")
        good = tsh and len(tsh) == 1 and simple_ts(tsh[0])
        if good:
            rec.eq(v[0][3], good, "trace state from %r" % (tsh,))
            rec.label("with-tracestate")
        elif not tsh:
            rec.eq(v[0][3], [], "trace state from %r" % (tsh,))
    rec.nontrivial(muts != [("none",)])


def simple_ts(h):
    from collections import OrderedDict
    if not h or h != h.strip() or ", " in h or " ," in h:
        return None
    out = OrderedDict()
    for m in h.split(","):
        k, eq, v = m.partition("=")
        if not eq or not v or "=" in v or k in out or not k or not (k[0].isascii() and k[0].islower()):
            return None
        if not all(c in "abcdefghijklmnopqrstuvwxyz0123456789_-*/" for c in k) or not all(0x20 <= ord(c) < 0x7f for c in v):
            return None
        out[k] = v
    return list(out.items())
