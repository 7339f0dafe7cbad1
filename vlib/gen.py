"""Shared hypothesis strategies (plain data only)."""
from hypothesis import strategies as st

BIG = 2**63 - 1


@st.composite
def _weighted(draw, table):
    return draw(table[draw(st.integers(0, len(table) - 1))])


def weighted(*pairs):
    """one_of with weights: (weight, strategy)...  (st.one_of flattens and
    de-duplicates its branches, so repeating a branch there has no effect)."""
    table = []
    for w, s in pairs:
        table += [s] * w
    return _weighted(tuple(table))


def pick(*vals):
    return st.sampled_from(vals)


utext = st.text(st.characters(codec="utf-8"), max_size=12)
ascii_text = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=12)
ident = st.text("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-", min_size=1, max_size=10)
small_key = pick("a", "b", "c", "d", "e", "k1", "k2", "http.method", "k_1", "é")

trace_ids = weighted(
    (4, st.integers(1, 2**128 - 1)),
    (2, st.integers(1, 2**64 - 1)),
    (1, st.integers(1, 300)),
    (1, pick(1, 2**128 - 1, 2**127, 2**64, 2**64 - 1, 0x0AF7651916CD43DD8448EB211C80319C)),
)
span_ids = weighted(
    (4, st.integers(1, 2**64 - 1)),
    (1, st.integers(1, 300)),
    (1, pick(1, 2**64 - 1, 2**63, 0x00F067AA0BA902B7)),
)
flags = weighted((3, pick(0, 1)), (1, st.integers(0, 255)))

# --- W3C tracestate ---------------------------------------------------------
_LC = "abcdefghijklmnopqrstuvwxyz"
_KC = _LC + "0123456789_-*/"
ts_key_simple = st.builds(lambda a, b: a + b, st.sampled_from(_LC), st.text(_KC, max_size=6))
ts_key_tenant = st.builds(
    lambda a, b, c, d: a + b + "@" + c + d,
    st.sampled_from(_LC + "0123456789"), st.text(_KC, max_size=5),
    st.sampled_from(_LC), st.text(_KC, max_size=4),
)
ts_key = weighted((3, ts_key_simple), (1, ts_key_tenant))
# printable ASCII without ',' and '=' ; no trailing space; not empty
_VC = "".join(chr(c) for c in range(0x20, 0x7F) if chr(c) not in ",=")
_VCN = _VC.replace(" ", "")
ts_value = weighted(
    (3, st.builds(lambda a, b: a + b, st.text(_VC, max_size=6), st.sampled_from(_VCN))),
    (1, st.text("abcxyz019", min_size=1, max_size=5)),
)
ts_entries = st.lists(st.tuples(ts_key, ts_value), max_size=6, unique_by=lambda t: t[0])

# --- attributes --------------------------------------------------------------
finite = st.floats(allow_nan=False, allow_infinity=False)
i64 = weighted((3, st.integers(-100, 100)), (1, st.integers(-(2**63), 2**63 - 1)), (1, pick(0, 1, -1, 2**63 - 1, -(2**63), 2**53)))
scalar = st.one_of(st.booleans(), i64, finite, utext)
scalar_seq = st.one_of(
    st.lists(st.booleans(), max_size=4), st.lists(i64, max_size=4),
    st.lists(finite, max_size=4), st.lists(utext, max_size=4),
)
attr_value = weighted((3, scalar), (1, scalar_seq), (1, scalar_seq.map(tuple)))
attr_key = weighted((3, small_key), (1, utext.filter(bool)))
attributes = weighted((15, st.dictionaries(attr_key, attr_value, max_size=5)), (1, st.dictionaries(weighted((1, attr_key), (3, st.integers(0, 60).map("k{}".format))), attr_value, min_size=8, max_size=20)))
scalar_attributes = st.dictionaries(attr_key, scalar, max_size=4)

times_ns = weighted(
    (3, st.integers(1, 2**62)),
    (1, st.integers(1, 10**6)),
    (1, pick(1, 0, 999, 1000, 1001, 1699999999123456789)),
)


def frozen(v):
    """What a clean attribute value becomes once stored."""
    return tuple(v) if isinstance(v, (list, tuple)) else v


def frozen_map(d):
    return {k: frozen(v) for k, v in (d or {}).items()}
