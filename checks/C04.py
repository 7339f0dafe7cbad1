"""C04 baggage: immutability (model = dict per context) and the W3C baggage header."""
from urllib.parse import quote_plus, unquote_plus

from hypothesis import strategies as st

from opentelemetry import baggage
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.context import Context, attach, detach
from vlib.core import sub
from vlib.gen import ident, pick, utext, weighted
from vlib.prop import PairGetter, PairSetter, make_ctx, view

RULE = ("operation histories over a growing set of contexts; round trips of baggage whose header fits the documented limits "
        "(8192 bytes, 4096 per entry, 180 entries); headers assembled from well-formed and malformed entries around those limits. "
        "non-trivial: >=2 operations / >=1 entry with a character that needs escaping / >=1 malformed entry next to a good one.")
P = W3CBaggagePropagator()
TOKEN = "!#$%&'*+-.^_`|~" + "0123456789abcxyzABCXYZ"
key = weighted((3, pick("a", "b", "c", "userId")), (2, st.text(TOKEN, min_size=1, max_size=8)), (1, utext.filter(lambda s: s.strip() != "")))
hard = st.lists(st.sampled_from(list(" ,;=%+\"\\/\t\n:@é€😀\x00\x7f&#?") + ["%41", "%zz", "ab", "1"]), max_size=8).map("".join)
val = weighted((2, hard), (2, utext), (1, pick("", "v", "1", " x ", "a b", "a;b=c", "50%", "%2C")))
anyval = st.one_of(val, st.integers(-5, 5), st.booleans(), st.lists(st.integers(0, 3), max_size=2), st.none())
op = st.one_of(
    st.tuples(st.just("set"), st.integers(0, 20), key, anyval),
    st.tuples(st.just("set"), st.integers(0, 20), key, anyval),
    st.tuples(st.just("remove"), st.integers(0, 20), key),
    st.tuples(st.just("clear"), st.integers(0, 20)),
    st.tuples(st.just("set_current"), st.integers(0, 20), key, anyval),
    st.tuples(st.just("get_mutate"), st.integers(0, 20)),
)


@sub("operations", st.lists(op, max_size=14), quick=7000, thorough=200000)
def operations(rec, case):
    ctxs = [(Context(), {})]
    for o in case:
        ctx, m = ctxs[o[1] % len(ctxs)]
        if o[0] == "set":
            new, m2 = baggage.set_baggage(o[2], o[3], ctx), {**m, o[2]: o[3]}
        elif o[0] == "remove":
            new, m2 = baggage.remove_baggage(o[2], ctx), {k: v for k, v in m.items() if k != o[2]}
        elif o[0] == "clear":
            new, m2 = baggage.clear(ctx), {}
        elif o[0] == "set_current":
            t = attach(ctx)
            try:
                rec.eq(dict(baggage.get_all()), m, "get_all() of the current context")
                new, m2 = baggage.set_baggage(o[2], o[3]), {**m, o[2]: o[3]}
                rec.eq(baggage.get_baggage(o[2]), m.get(o[2]), "set_baggage changed the current context")
                rec.eq(dict(baggage.get_all(baggage.remove_baggage(o[2]))), {k: v for k, v in m.items() if k != o[2]}, "remove_baggage on current")
                rec.eq(dict(baggage.get_all(baggage.clear())), {}, "clear on current")
            finally:
                detach(t)
        else:
            d = baggage.get_all(ctx)
            try:
                d["__hack"] = 1
                rec.fail("get_all exposes a mutable mapping")
            except TypeError:
                pass
            continue
        rec.check(new is not ctx, "%s returned the same context", o[0])
        ctxs.append((new, m2))
        rec.eq(dict(baggage.get_all(new)), m2, "after %r" % (o,))
    for i, (c, m) in enumerate(ctxs):
        rec.eq(dict(baggage.get_all(c)), m, "context %d at the end" % i)
        rec.eq(list(baggage.get_all(c)), list(dict(m)), "order in context %d" % i)
        for k, v in m.items():
            rec.eq(baggage.get_baggage(k, c), v, "get_baggage(%r)" % k)
        rec.eq(baggage.get_baggage("absent-key!", c), m.get("absent-key!"), "absent key")
    rec.nontrivial(len(ctxs) >= 3)


bags = st.dictionaries(key.filter(lambda s: s == s.strip()), val, max_size=8)
many = st.builds(lambda n, v: {"k%d" % i: v for i in range(n)}, st.integers(170, 180), utext.map(lambda s: s[:3]))


@sub("roundtrip", st.tuples(weighted((12, bags), (1, many)), bags, pick("dict", "pairs", "current")), quick=7000, thorough=250000,
     examples=[({"a": " x "}, {}, "dict")])
def roundtrip(rec, case):
    bag, base_bag, how = case
    ctx = make_ctx((1, 1), bag)
    header_len = len(",".join(quote_plus(k) + "=" + quote_plus(v) for k, v in bag.items()))
    carrier, kw, gk = ({}, {}, {}) if how != "pairs" else ([], {"setter": PairSetter()}, {"getter": PairGetter()})
    if how == "current":
        t = attach(ctx)
        P.inject(carrier)
        detach(t)
    else:
        P.inject(carrier, context=ctx, **kw)
    hdrs = dict(carrier)
    if not bag:
        rec.eq(hdrs, {}, "header injected for no baggage")
        return
    rec.check(set(hdrs) <= set(P.fields), "wrote %r, announced %r", set(hdrs), P.fields)
    h = hdrs["baggage"]
    rec.check(all(0x20 < ord(c) < 0x7F for c in h), "header is not plain printable ASCII: %r", h)
    if header_len > 8192:
        rec.label("too-long")
        return
    base = make_ctx((7, 8), base_bag, {"x0": 1})
    b = view(base)
    out = P.extract(carrier, base, **gk)
    rec.eq(view(base), b, "extract changed the given context")
    rec.eq(view(out), (b[0], b[1], {**base_bag, **bag}, b[3]), "extracted baggage (header %r)" % h)
    rec.nontrivial(quote_plus("".join(bag) + "".join(bag.values())) != "".join(bag) + "".join(bag.values()))
    rec.label("n>=170" if len(bag) >= 170 else "small")


# headers: pieces with an independent verdict ------------------------------------
KEYCH = "!#$%&'*+-.^_`|~0123456789abcdefABCDEF"
VALCH = "".join(chr(c) for c in range(0x21, 0x7F) if chr(c) not in '",;\\')
tok = st.text(KEYCH, min_size=1, max_size=5)
rawval = st.text(VALCH, max_size=6)
piece = weighted(
    (6, st.tuples(tok, rawval).map(lambda t: ("good", t[0], t[1]))),
    (2, st.tuples(tok, utext).map(lambda t: ("good", t[0], quote_plus(t[1])))),
    (1, st.tuples(tok, rawval, tok, rawval).map(lambda t: ("prop", t[0], t[1], ";%s=%s" % (t[2], t[3])))),
    (1, st.tuples(tok, rawval, tok).map(lambda t: ("prop", t[0], t[1], ";" + t[2]))),
    (1, st.text(KEYCH, max_size=5).map(lambda s: ("bad", s.replace("=", "")))),
    (1, st.tuples(tok, pick('"', "\\", " x", "é", "\x01")).map(lambda t: ("bad", t[0] + "=" + t[1] + "z"))),
    (1, st.tuples(pick("a b", "(", "a/b", "", "é", "a:b", "a<"), rawval).map(lambda t: ("bad", t[0] + "=" + t[1]))),
    (1, st.just(("bad", ""))),
    (1, st.integers(4080, 4110).map(lambda n: ("long", n))),
)
pieces = st.tuples(st.lists(piece, max_size=6), weighted((8, st.just(0)), (2, st.integers(150, 185)), (1, st.integers(400, 500))), st.booleans(),
                   st.lists(pick(",", " ,", ", ", "\t,\t"), min_size=6, max_size=6),
                   weighted((8, st.none()), (2, st.integers(8188, 8196)), (1, pick(8191, 8192, 8193))))


@sub("headers", pieces, quick=6000, thorough=200000,
     rule="well-formed members among malformed/oversized ones; the good ones must come out, others be left out")
def headers(rec, case):
    ps, filler, fill_first, seps, exact = case
    ents = []
    for p in ps:
        if p[0] == "good":
            ents.append((p[1] + "=" + p[2], (unquote_plus(p[1]), unquote_plus(p[2]))))
        elif p[0] == "prop":
            ents.append((p[1] + "=" + p[2] + p[3], "prop"))
        elif p[0] == "bad":
            ents.append((p[1], None))
        else:
            ents.append(("L=" + "v" * (p[1] - 2), ("L", "v" * (p[1] - 2)) if p[1] <= 4096 else None))
    fill = [("f%d=%d" % (i, i), ("f%d" % i, "%d" % i)) for i in range(filler)]
    ents = fill + ents if fill_first else ents + fill
    h = ""
    for i, e in enumerate(ents):
        h += (seps[i % 6] if i else "") + e[0]
    for i in range(3):  # fill up to exactly that many bytes
        room = (exact or 0) - len(h) - 1
        if room >= 6:
            n = min(room, 4000) if room <= 4000 or room - 4000 > 20 else 3000
            ents.append(("p%d=" % i + "w" * (n - 3), ("p%d" % i, "w" * (n - 3))))
            h += "," + ents[-1][0]
    if exact:
        rec.label("exactly 8192" if len(h) == 8192 else "near 8192")
    base = make_ctx((7, 8), {"base": "1"})
    out = P.extract({"baggage": [h]}, base)
    got = dict(baggage.get_all(out))
    rec.eq(dict(baggage.get_all(base)), {"base": "1"}, "base context changed")
    if len(h) > 8192:
        rec.eq(got, {"base": "1"}, "header of %d bytes" % len(h))
        rec.label("too-long")
        return
    taken, want, fuzzy = 0, {"base": "1"}, set()
    for text, pair in ents:
        if pair is None or taken == 180:
            continue
        taken += 1
        if pair == "prop":  # value with metadata: the plain value, possibly followed by the metadata
            k, v = text.split("=", 1)
            want[unquote_plus(k)] = (unquote_plus(v.split(";")[0]), unquote_plus(v))
            fuzzy.add(unquote_plus(k))
        else:
            want[pair[0]] = pair[1]
            fuzzy.discard(pair[0])
    rec.eq(list(got), list(want), "names from %r" % h[:300])
    for k in want:
        if k in fuzzy:
            rec.check(got[k] in want[k], "value of %r from %r: %r", k, h[:300], got[k])
        else:
            rec.eq(got[k], want[k], "value of %r from %r" % (k, h[:300]))
    if filler >= 150:
        rec.label("many")
    rec.nontrivial(any(p[0] in ("bad", "long", "prop") for p in ps) and any(p[0] == "good" for p in ps))


@sub("arbitrary", st.tuples(st.one_of(st.none(), st.text(max_size=40), st.lists(st.text(max_size=20), max_size=3),
                                      st.text(st.sampled_from(list("ab=,;% \t\"+\\")), max_size=30))), quick=4000, thorough=150000,
     rule="arbitrary header text: extraction never raises, keeps the given context and yields strings")
def arbitrary(rec, case):
    base = make_ctx((7, 8), {"base": "1"}, {"x1": 2})
    before = view(base)
    out = P.extract({"baggage": case[0]} if case[0] is not None else {}, base)
    rec.eq(view(base), before, "base changed")
    v = view(out)
    rec.eq((v[0], v[1], v[3]), (before[0], before[1], before[3]), "other entries")
    for k, x in v[2].items():
        rec.check(isinstance(k, str) and isinstance(x, str), "non-text baggage %r=%r", k, x)
    rec.nontrivial(bool(case[0]))
