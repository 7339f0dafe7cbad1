"""C08 header lists in configuration (OTEL_EXPORTER_OTLP_HEADERS syntax)."""
from urllib.parse import quote, unquote

from hypothesis import strategies as st

from opentelemetry.util.re import parse_env_headers
from vlib.core import sub
from vlib.gen import pick, utext, weighted

RULE = ("strings assembled from well-formed, nearly well-formed and arbitrary list members with all separators; mappings formatted then parsed. "
        "non-trivial: a well-formed member next to a malformed one, or a value that needs escaping.")
TOKEN = "!#$%&'*+-.^_`|~0123456789abcdefxyzABCDEFXYZ"
NAMECH = set("!#$%&'*+-.^_`|~") | set("0123456789") | set(map(chr, range(65, 91))) | set(map(chr, range(97, 123)))
VALCH = {chr(c) for c in range(0x21, 0x7F)} - set('",;\\')


def model(s, liberal):
    """Independent reading of the documented grammar."""
    out = {}
    for raw in s.split(","):
        m = raw.strip()
        if not m:
            continue
        n, eq, v = m.partition("=")
        n, v = n.strip(" \t"), v.strip(" \t")
        if not eq or not n or not set(n) <= NAMECH:
            continue
        if set(v) <= VALCH:
            out[unquote(n).strip().lower()] = unquote(v).strip()
        elif liberal and set(v) <= VALCH | {" "}:
            out[n.strip().lower()] = v.strip()
    return out


name = st.text(TOKEN, min_size=1, max_size=6)
value = weighted((3, st.text("".join(sorted(VALCH)), max_size=6)), (2, utext.map(lambda s: quote(s, safe=""))), (1, pick("a b", "a  b", "Bearer x=y", "a %20b", "Basic %3D", "%41 %zz", "%20a%20", "%zz", "%e9", "a=b=c")))
bad = st.one_of(pick("", "=", "a", "=v", "a b=c", "a=b;c", 'a="b"', "a=\\", "é=1", "a=é", "a=b\x01", "a\n=b", "a=b\nc=d", "a =b", "a= b", " ", "\t", "a(=1", "a:b=1"), st.text(max_size=8))
memb = weighted((4, st.tuples(name, value).map("=".join)), (1, st.tuples(name, pick(" ", "\t", ""), pick("=", "="), pick(" ", ""), value, pick("", " ", "\n")).map("".join)), (2, bad))
listing = st.lists(st.tuples(memb, pick(",", ", ", " ,", ",,", "\t,\t", " , ")), max_size=6)


@sub("lists", st.tuples(st.one_of(listing.map(lambda l: "".join(a + b for a, b in l)), listing.map(lambda l: ",".join(a for a, _ in l))), st.booleans()),
     quick=14000, thorough=500000)
def lists(rec, case):
    s, liberal = case
    got = dict(parse_env_headers(s, liberal=liberal))
    want = model(s, liberal)
    rec.eq(got, want, "parse_env_headers(%r, liberal=%s)" % (s, liberal))
    rec.eq(dict(parse_env_headers(s, liberal)), got, "parsing twice")
    if not liberal:
        lib = parse_env_headers(s, liberal=True)
        for k in got:
            rec.check(k in lib, "the liberal mode loses %r", k)
    n = len([m for m in s.split(",") if m.strip()])
    rec.nontrivial(0 < len(want) < n)
    rec.label("liberal" if liberal else "strict", "some" if want else "none")


@sub("roundtrip", st.tuples(st.dictionaries(st.text("!#$&'*+-.^_`|~0123456789abcxyz", min_size=1, max_size=6), utext.map(str.strip), max_size=6),
                            pick(",", ", ", " ,\t"), st.booleans(), st.booleans()),
     quick=8000, thorough=250000, rule="mapping of lower-case token names to any (trimmed) text, percent-encoded, joined, parsed back")
def roundtrip(rec, case):
    m, sep, liberal, upper = case
    s = sep.join("%s=%s" % (k.upper() if upper else k, quote(v, safe="")) for k, v in m.items())
    rec.eq(dict(parse_env_headers(s, liberal=liberal)), m, "parse of %r" % s)
    rec.eq(list(parse_env_headers(s, liberal=liberal)), list(m), "order")
    rec.nontrivial(any(quote(v, safe="") != v for v in m.values()))


@sub("arbitrary", st.tuples(st.text(max_size=30), st.booleans()), quick=4000, thorough=150000)
def arbitrary(rec, case):
    got = parse_env_headers(case[0], liberal=case[1])
    rec.eq(dict(got), model(case[0], case[1]), "parse_env_headers(%r, %s)" % case)
    for k, v in got.items():
        rec.check(isinstance(k, str) and isinstance(v, str), "not text")
    rec.nontrivial("=" in case[0])
