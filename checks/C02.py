"""C02 trace state: model = ordered list of (key, value), grammar written out by hand."""
from hypothesis import strategies as st

from opentelemetry.trace import TraceState
from vlib.core import sub
from vlib.gen import pick, ts_entries, ts_key, ts_value, weighted

RULE = ("cases: initial entry lists (sizes up to 36, valid, near-valid and invalid entries) followed by add/update/delete "
        "operations; raw header lists. non-trivial: at least one operation changed the state or the header held >=2 members.")

LC = set("abcdefghijklmnopqrstuvwxyz")
DG = set("0123456789")
KCH = LC | DG | set("_-*/")
VCH = {chr(c) for c in range(0x20, 0x7F)} - set(",=")


def key_ok(k):
    if not isinstance(k, str) or not k:
        return False
    if "@" not in k:
        return k[0] in LC and len(k) <= 256 and set(k) <= KCH
    t, _, s = k.partition("@")
    return (bool(t) and bool(s) and t[0] in LC | DG and set(t) <= KCH and len(t) <= 241
            and s[0] in LC and set(s) <= KCH and len(s) <= 14)


def value_ok(v):
    return isinstance(v, str) and 1 <= len(v) <= 256 and set(v) <= VCH and v[-1] != " "


def construct(entries):
    if len(entries) > 32:
        return []
    out = []
    for k, v in entries:
        if key_ok(k) and value_ok(v) and k not in [x for x, _ in out]:
            out.append((k, v))
    return out


def rep(c, n):
    return c * n


odd_key = st.one_of(
    st.text(max_size=4), pick("", "A", "a b", "1", "1a", "a@", "@a", "a@b@c", "a=b", "a,b", "aé", "a\n", "0@b", "a@1", "_a", "a.b"),
    st.integers(254, 258).map(lambda n: "a" * n),
    st.tuples(st.integers(239, 243), st.integers(12, 16)).map(lambda t: "1" * t[0] + "@" + "z" * t[1]),
    pick(None, 1, b"a"),
)
odd_value = st.one_of(
    st.text(max_size=4), pick("", " ", "a ", "a,b", "a=b", "a\t", "\x7f", "~", " a", "é", "a\n"),
    st.integers(254, 258).map(lambda n: "v" * n), pick(None, 1, b"v"),
)
few_key = pick("a", "b", "c", "k1", "z9/x", "1t@sys")
any_key = weighted((6, few_key), (3, ts_key), (2, odd_key))
any_value = weighted((6, ts_value), (2, odd_value))
entry = st.tuples(any_key, any_value)
many = st.builds(
    lambda n, extra, pos: [("k%d" % i, "v%d" % i) for i in range(n)][: max(0, pos)] + extra + [("k%d" % i, "v%d" % i) for i in range(max(0, pos), n)],
    st.integers(28, 33), st.lists(entry, max_size=2), st.integers(0, 33),
)
op = st.one_of(
    st.tuples(st.just("add"), any_key, any_value),
    st.tuples(st.just("update"), any_key, any_value),
    st.tuples(st.just("delete"), any_key),
    st.tuples(st.just("update_nth"), st.integers(0, 31), any_value),
    st.tuples(st.just("delete_nth"), st.integers(0, 31)),
    st.tuples(st.just("add_new"), st.integers(0, 9)),
    st.tuples(st.just("update_new"), st.integers(0, 9)),
    st.tuples(st.just("reparse")),
)
histories = st.tuples(weighted((2, st.lists(entry, max_size=5)), (1, ts_entries), (2, many)), st.lists(op, max_size=12))


def hashable(k):
    return isinstance(k, (str, int, bytes, type(None)))


def look(rec, ts, model, what):
    got = list(ts.items())
    rec.eq(got, model, what + ": entries")
    rec.eq(list(ts), [k for k, _ in model], what + ": iteration")
    rec.eq(len(ts), len(model), what + ": len")
    rec.eq(list(ts.values()), [v for _, v in model], what + ": values()")
    rec.eq(list(ts.keys()), [k for k, _ in model], what + ": keys()")
    rec.check(len(got) <= 32, what + ": more than 32 entries")
    for k, v in got:
        rec.check(key_ok(k) and value_ok(v), "%s: ill-formed entry %r=%r", what, k, v)
        rec.check(k in ts and ts[k] == v, "%s: lookup of %r", what, k)


@sub("operations", histories, quick=9000, thorough=300000,
     rule="model-based add/update/delete/reparse histories, all earlier values re-inspected at the end",
     examples=[
         ([("k%d" % i, "v") for i in range(32)], [("update", "zz", "v")]),
         ([("k%d" % i, "v") for i in range(32)], [("add", "zz", "v"), ("update_nth", 31, "w")]),
     ])
def operations(rec, case):
    entries, ops = case
    given = list(entries)
    ts, model = TraceState(given), construct(entries)
    rec.eq(given, list(entries), "constructor changed its argument")
    look(rec, ts, model, "constructed")
    past = [(ts, model)]
    for o in ops:
        name = o[0]
        if name in ("update_nth", "delete_nth"):
            if not model:
                continue
            k = model[o[1] % len(model)][0]
            o = (name[:6], k) + tuple(o[2:])
        elif name in ("add_new", "update_new"):
            o = (name[:-4], "new%d" % o[1], "w%d" % o[1])
        name = o[0]
        keys = [k for k, _ in model]
        if name == "add":
            new = ts.add(o[1], o[2])
            if key_ok(o[1]) and value_ok(o[2]) and o[1] not in keys and len(model) < 32:
                model2 = [(o[1], o[2])] + model
            else:
                model2 = model
        elif name == "update":
            new = ts.update(o[1], o[2])
            if key_ok(o[1]) and value_ok(o[2]) and (o[1] in keys or len(model) < 32):
                model2 = [(o[1], o[2])] + [e for e in model if e[0] != o[1]]
            else:
                model2 = model
        elif name == "delete":
            new = ts.delete(o[1])
            model2 = [e for e in model if e[0] != o[1]]
        else:
            new = TraceState.from_header([ts.to_header()])
            model2 = model
        look(rec, new, model2, "after %r" % (o,))
        if model2 != model:
            rec.nontrivial()
            rec.label(name + "-changed")
            rec.check(new is not ts, "%r changed the state in place", o)
        elif name != "reparse":
            rec.label(name + "-refused")
        ts, model = new, model2
        past.append((ts, model))
    for i, (t, m) in enumerate(past):
        look(rec, t, m, "state %d re-inspected at the end" % i)
    if len(model) >= 31:
        rec.label("near-full")


good = st.tuples(weighted((1, few_key), (2, ts_key)), ts_value).map(lambda t: "%s=%s" % t)
member = weighted(
    (4, st.tuples(any_key, any_value).map(lambda t: "%s=%s" % t)),
    (12, good),
    (1, pick("", " ", "a", "=", "a==b", "a=b=c", "=b", "a=")),
)
hdr = st.lists(st.tuples(pick("", "", " ", "\t", "  "), member, pick("", "", " ", "\t ")), max_size=5)
good_hdr = st.lists(st.tuples(pick("", ""), good, pick("", "")), max_size=4)
big_hdr = st.integers(30, 34).map(lambda n: [("", "k%d=v" % i, "") for i in range(n)])


def parse_model(headers):
    """None where the documentation does not settle the result."""
    pairs = []
    for h in headers:
        for m in h.split(","):
            m = m.strip(" \t") if m is not None else m
            if not m:
                continue
            k, eq, v = m.partition("=")
            if not eq or not key_ok(k) or not value_ok(v) or k in [x for x, _ in pairs]:
                return []
            pairs.append((k, v))
    return pairs if len(pairs) <= 32 else []


@sub("headers", st.lists(weighted((4, hdr), (4, good_hdr), (1, big_hdr)), max_size=3), quick=6000, thorough=200000,
     rule="header lists; valid ones parse to exactly their members, ill-formed ones to nothing; always a valid state that survives format+parse")
def headers(rec, case):
    hs = [",".join(a + m + b for a, m, b in h) for h in case]
    given = list(hs)
    ts = TraceState.from_header(given)
    rec.eq(given, hs, "from_header changed its argument")
    want = parse_model(hs)
    got = list(ts.items())
    # white space around the outermost members is not documented either way
    plain = all(not h or (h == h.strip(" \t")) for h in hs)
    if plain or not want:
        if not (not plain and not want):
            rec.eq(got, want, "from_header(%r)" % (hs,))
    else:
        rec.check(got in (want, []), "from_header(%r): got %r", hs, got)
    look(rec, ts, got, "parsed")
    back = TraceState.from_header([ts.to_header()])
    rec.eq(list(back.items()), got, "format then parse")
    rec.nontrivial(sum(len(h) for h in case) >= 2)
    rec.label("parsed-some" if got else "parsed-none")
