"""Model of bounded attribute maps and strategies of attribute values that limits cut."""
from hypothesis import strategies as st

from vlib.gen import finite, i64, pick, utext, weighted


def cut(v, lim):
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return v if lim is None else v[:lim]
    if isinstance(v, (list, tuple)):
        return tuple(cut(x, lim) for x in v)
    return v


class BMap:
    def __init__(self, maxlen, lim):
        self.maxlen, self.lim, self.d, self.dropped, self.cut = maxlen, lim, {}, 0, False

    def put(self, k, v):
        c = cut(v, self.lim)
        self.cut = self.cut or c != cut(v, None)
        if self.maxlen == 0:
            self.dropped += 1
            return
        if k in self.d:
            del self.d[k]
        elif self.maxlen is not None and len(self.d) == self.maxlen:
            del self.d[next(iter(self.d))]
            self.dropped += 1
        self.d[k] = c

    def fill(self, d):
        for k, v in (d or {}).items():
            self.put(k, v)
        return self


ltext = weighted((3, st.text("abé€😀", max_size=10)), (1, utext))
val = weighted((3, ltext), (2, st.one_of(st.booleans(), i64, finite)), (1, st.lists(ltext, max_size=3)), (1, st.lists(i64, max_size=3)), (1, ltext.map(lambda s: s.encode())))
akey = pick("a", "b", "c", "d", "e", "f")
amap = st.dictionaries(akey, val, max_size=6)
