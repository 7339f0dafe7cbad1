"""T09 attribute collections: model of the documented cleaning rules over arbitrary Python values."""
import enum

from hypothesis import strategies as st

from opentelemetry.attributes import BoundedAttributes
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from vlib.core import sub
from vlib.gen import finite, i64, pick, utext, weighted

RULE = ("operation sequences (set, delete, update, mutate the caller's object) with arbitrary keys and values (scalars, bytes in any encoding, "
        "homogeneous and mixed sequences, nested containers, exotic types) on bounded/unbounded, mutable/immutable collections and on span, event, link and "
        "resource attributes. non-trivial: at least one accepted and one rejected or decoded value.")


class E(enum.IntEnum):
    ONE = 1


class S(str):
    pass


def build(v):
    """Case data -> (value offered, caller-side mutable object or None)."""
    tag = v[0]
    if tag == "plain":
        return v[1]
    if tag == "list":
        return [build(x) for x in v[1]]
    if tag == "tuple":
        return tuple(build(x) for x in v[1])
    if tag == "gen":
        return (x for x in [build(x) for x in v[1]])
    if tag == "object":
        return object()
    if tag == "enum":
        return E.ONE
    if tag == "strsub":
        return S(v[1])
    if tag == "range":
        return range(v[1])
    if tag == "bytearray":
        return bytearray(v[1])
    if tag == "dict":
        return {k: build(x) for k, x in v[1]}
    if tag == "set":
        return set(v[1])
    if tag == "complex":
        return complex(1, v[1])
    raise AssertionError(tag)


REJECT = object()
SCALARS = (bool, str, bytes, int, float)


def clean_scalar(x, lim):
    """-> cleaned, or REJECT"""
    if isinstance(x, bytes):
        try:
            x = bytes(x).decode("utf-8")
        except UnicodeDecodeError:
            return None
    if lim is not None and isinstance(x, str):
        x = x[:lim]
    return x


def clean(v, lim):
    """The documented rule.  Returns REJECT or the stored value."""
    if isinstance(v, SCALARS):
        r = clean_scalar(v, lim)
        return REJECT if r is None else r
    if isinstance(v, (list, tuple, range, bytearray)):
        out, typ = [], None
        for e in v:
            if e is None:
                out.append(None)
                continue
            if isinstance(e, bytes):
                e = clean_scalar(e, lim)
                if e is None:
                    out.append(None)
                    continue
            if type(e) not in SCALARS:
                return REJECT
            if typ is None:
                typ = type(e)
            elif type(e) is not typ:
                return REJECT
            out.append(clean_scalar(e, lim))
        return tuple(out)
    return REJECT


binary = st.one_of(st.binary(max_size=6), utext.map(lambda s: s.encode("utf8")), pick(b"\xff", b"\xc3\x28", b"ok", b"\xe2\x82"))
surr = pick("\ud800", "a\udfffb")
plain = weighted((6, st.one_of(st.booleans(), i64, finite, utext)), (1, st.one_of(st.integers(-(2**70), 2**70), st.floats(), surr)), (2, binary), (1, st.none()))
P = lambda s: st.tuples(st.just("plain"), s)
elem = weighted((6, P(plain)), (1, st.tuples(st.just("enum"))), (1, st.tuples(st.just("object"))))  # (a str subclass in a sequence is left unspecified)
homog = st.one_of(*[st.lists(P(s), max_size=5) for s in (st.booleans(), i64, finite, utext, binary, utext | st.none(), i64 | st.none(), st.none(), binary | utext)])
seq = weighted((3, homog), (2, st.lists(elem, max_size=4)))
leaf = weighted(
    (6, P(plain)), (4, st.tuples(st.just("list"), seq)), (2, st.tuples(st.just("tuple"), seq)),
    (1, st.tuples(st.just("gen"), seq)), (1, st.tuples(st.just("object"))), (1, st.tuples(st.just("enum"))), (1, st.tuples(st.just("strsub"), utext)),
    (1, st.tuples(st.just("range"), st.integers(0, 4))), (1, st.tuples(st.just("bytearray"), st.binary(max_size=3))),
    (1, st.tuples(st.just("dict"), st.lists(st.tuples(pick("a", "b"), P(plain)), max_size=2))), (1, st.tuples(st.just("set"), st.lists(st.integers(0, 3), max_size=3))),
    (1, st.tuples(st.just("complex"), st.integers(0, 2))),
    (1, st.tuples(st.just("list"), st.lists(st.tuples(st.just("list"), homog), max_size=2))),
)
key = weighted((8, pick("a", "b", "c", "d")), (2, utext), (1, st.one_of(st.just(""), st.integers(0, 3), st.none(), st.binary(max_size=2), st.booleans(), st.tuples(st.just(1)))))
op = weighted(
    (8, st.tuples(st.just("set"), key, leaf)), (1, st.tuples(st.just("del"), key)), (1, st.tuples(st.just("update"), st.lists(st.tuples(key, leaf), max_size=3))),
    (1, st.tuples(st.just("pop"), key)), (1, st.tuples(st.just("copy"))), (1, st.tuples(st.just("setdefault"), key, leaf)),
)


def key_ok(k):
    return isinstance(k, str) and k != ""


class Model:
    def __init__(self, maxlen, lim):
        self.d, self.maxlen, self.lim, self.dropped = {}, maxlen, lim, 0
        self.accepted = self.rejected = 0

    def set(self, k, v):
        if self.maxlen == 0:
            self.dropped += 1
            return
        c = clean(v, self.lim) if key_ok(k) else REJECT
        if c is REJECT:
            self.rejected += 1
            return
        self.accepted += 1
        if k in self.d:
            del self.d[k]
        elif self.maxlen is not None and len(self.d) == self.maxlen:
            del self.d[next(iter(self.d))]
            self.dropped += 1
        self.d[k] = c


def scribble(v):
    """Change every mutable object the caller still holds."""
    if isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribble")
        v[0] = 12345
    elif isinstance(v, bytearray):
        v.extend(b"zz")
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v["scribble"] = 1


def look(rec, ba, model, what):
    rec.eq(list(ba.items()), list(model.items()), what)
    rec.eq(len(ba), len(model), what + ": len")
    rec.eq(list(ba), list(model), what + ": keys")
    for k, v in ba.items():
        rec.check(key_ok(k), "%s: bad key %r", what, k)
        rec.check(isinstance(v, (bool, str, int, float, tuple)), "%s: value of type %s under %r", what, type(v), k)
        rec.check(k in ba, "%s: membership", what)


@sub("collection", st.tuples(weighted((3, st.none()), (2, st.integers(0, 4))), weighted((3, st.none()), (2, st.integers(0, 5))), st.lists(st.tuples(key, leaf), max_size=4),
                             st.booleans(), st.lists(op, max_size=8)), quick=14000, thorough=500000)
def collection(rec, case):
    maxlen, lim, init, immutable, ops = case
    m = Model(maxlen, lim)
    caller = {k: build(v) for k, v in init}
    shadow = {k: build(v) for k, v in init}
    for k, v in shadow.items():
        m.set(k, v)
    ba = BoundedAttributes(maxlen, caller, immutable=immutable, max_value_len=lim)
    for v in caller.values():
        scribble(v)
    caller["late"] = 1
    look(rec, ba, m.d, "after construction (and changing the caller's objects)")
    held = []
    for o in ops:
        if immutable:
            before = dict(ba.items())
            try:
                if o[0] in ("set", "setdefault"):
                    ba[o[1]] = build(o[2])
                elif o[0] == "del":
                    del ba[o[1]]
                elif o[0] == "update":
                    if not o[1]:
                        continue
                    ba.update({k: build(v) for k, v in o[1]})
                elif o[0] == "pop":
                    if o[1] not in before:
                        continue
                    ba.pop(o[1])
                elif o[0] == "copy":
                    ba.copy()["x"] = 1
                    look(rec, ba, m.d, "after changing a copy")
                    continue
                rec.fail("immutable collection accepted %r" % (o,))
            except TypeError:
                pass
            look(rec, ba, m.d, "immutable collection after %r" % (o,))
            continue
        if o[0] == "set":
            v = build(o[2])
            ba[o[1]] = v
            m.set(o[1], build(o[2]))
            held.append(v)
        elif o[0] == "setdefault":
            if o[1] in m.d:
                rec.eq(ba.setdefault(o[1], build(o[2])), m.d[o[1]], "setdefault of a present key")
            continue
        elif o[0] == "del":
            if o[1] in m.d:
                del ba[o[1]]
                del m.d[o[1]]
            else:
                try:
                    del ba[o[1]]
                    rec.fail("deleting an absent key succeeded")
                except KeyError:
                    pass
        elif o[0] == "update":
            d = {k: build(v) for k, v in o[1]}
            ba.update(d)
            for k, v in {k: build(v) for k, v in o[1]}.items():
                m.set(k, v)
            held += list(d.values())
        elif o[0] == "pop":
            rec.eq(ba.pop(o[1], "none"), m.d.pop(o[1], "none"), "pop")
        elif o[0] == "copy":
            ba.copy()["x"] = 1
        for h in held:
            scribble(h)
        held = []
        look(rec, ba, m.d, "after %r (and changing the caller's object)" % (o,))
    rec.eq(ba.dropped, m.dropped, "dropped")
    rec.nontrivial(m.accepted and m.rejected)
    rec.label("immutable" if immutable else "mutable")


@sub("on_spans", st.tuples(st.lists(st.tuples(key, leaf), max_size=6), pick("start", "set_attribute", "set_attributes", "event", "link", "start_link", "resource", "merge")),
     quick=5000, thorough=150000, rule="the same values through the public API (span, event, link, resource attributes): never raises, exposes only clean values, immune to later changes")
def on_spans(rec, case):
    items, where = case
    offered = {k: build(v) for k, v in items}
    m = Model(None, None)
    for k, v in {k: build(v) for k, v in items}.items():
        m.set(k, v)
    if where in ("resource", "merge"):
        if where == "resource":
            r = Resource(offered)
            base = {}
        else:
            r = Resource({"z": 1}).merge(Resource(offered))
            base = {"z": 1}
        for v in offered.values():
            scribble(v)
        rec.eq(dict(r.attributes), {**base, **m.d}, "resource attributes")
        try:
            r.attributes["x"] = 1
            rec.fail("resource attributes can be modified")
        except TypeError:
            pass
        rec.nontrivial(m.accepted and m.rejected)
        return
    from opentelemetry import trace
    exp = InMemorySpanExporter()
    tp = TracerProvider(shutdown_on_exit=False)
    tp.add_span_processor(SimpleSpanProcessor(exp))
    t = tp.get_tracer("t")
    other = trace.SpanContext(1, 2, False)
    if where == "start":
        s = t.start_span("s", attributes=offered)
    elif where == "start_link":
        s = t.start_span("s", links=[trace.Link(other, offered)])
    else:
        s = t.start_span("s")
    if where == "set_attributes":
        s.set_attributes(offered)
    elif where == "set_attribute":
        for k, v in offered.items():
            s.set_attribute(k, v)
    elif where == "event":
        s.add_event("e", offered)
    elif where == "link":
        s.add_link(other, offered)
    for v in offered.values():
        scribble(v)
    s.end()
    (span,) = exp.get_finished_spans()
    if where == "event":
        got = span.events[0].attributes
    elif where in ("link", "start_link"):
        got = span.links[0].attributes
    else:
        got = span.attributes
    rec.eq(dict(got), m.d, "attributes via %s" % where)
    if where in ("event", "link", "start_link"):
        try:
            got["x"] = 1
            rec.fail("%s attributes can be modified" % where)
        except TypeError:
            pass
    rec.nontrivial(m.accepted and m.rejected)
    rec.label(where)
