"""T11: calls made on one span by several threads take effect in some order, each as a whole."""
from vlib import vsched
vsched.install()

import json  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import SpanLimits, SpanProcessor, TracerProvider  # noqa: E402
from opentelemetry.trace import SpanContext, Status, StatusCode  # noqa: E402
from vlib import linear  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("two or three threads that set attributes, add events and links, rename, set statuses, read and end one span with limits, under a deterministic scheduler that may switch at every byte-code instruction of the code under test; "
        "the results, the exported span and the final span must be explained by some order of the calls that respects which call returned before another began. non-trivial: calls of two threads overlap.")
ASSUMPTIONS = ["threads switch only between byte-code instructions", "readers may see attributes that are set together appear one by one"]

CODES = [StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR]
key = pick("a", "b", "c")
op = weighted(
    (4, st.tuples(st.just("attr"), key)), (3, st.tuples(st.just("attrs"), st.lists(key, min_size=2, max_size=3, unique=True).map(tuple))), (4, st.tuples(st.just("event"))), (1, st.tuples(st.just("exc"))), (3, st.tuples(st.just("link"))),
    (2, st.tuples(st.just("name"))), (4, st.tuples(st.just("status"), st.integers(0, 2), st.booleans())), (4, st.tuples(st.just("end"))), (1, st.tuples(st.just("recording"))), (1, st.tuples(st.just("events"))),
)
read = weighted((5, op), (4, st.tuples(st.just("get"), key)), (2, st.tuples(st.just("json"))), (3, st.tuples(st.just("attr"), key)))
limit = weighted((3, st.none()), (2, st.integers(1, 3)), (1, st.just(0)))


def singly(threads):
    """Readers see attributes that are set together appear one by one."""
    return [[("attr", o[1][0]) if o[0] == "attrs" else o for o in ops] for ops in threads]


case_s = st.fixed_dictionaries({
    "limits": st.tuples(limit, limit, limit), "before": st.lists(op.filter(lambda o: o[0] != "end"), max_size=3),
    "threads": weighted((3, st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=3)), (2, st.lists(st.lists(read, min_size=1, max_size=4), min_size=2, max_size=3).map(singly))), "schedule": vsched.schedules,
})


def bounded(seq, item, n):
    """(kept, dropped) with item added."""
    kept, dropped = seq
    kept = kept + (item,)
    over = 0 if n is None else max(0, len(kept) - n)
    return kept[over:], dropped + over


class Model:
    """State: (name, attributes, events, links, status, end or None)."""

    def __init__(self, limits):
        self.na, self.ne, self.nl = limits
        self.start = ("span", ((), 0), ((), 0), ((), 0), (0, None), None)

    def put(self, attrs, k, v):
        kept, dropped = attrs
        if self.na == 0:
            return kept, dropped + 1
        if any(x[0] == k for x in kept):
            return tuple(x for x in kept if x[0] != k) + ((k, v),), dropped
        return bounded(attrs, (k, v), self.na)

    def step(self, state, o, n, result):
        """The state after call n, or None when the call cannot have returned `result` here."""
        name, attrs, events, links, status, end = state
        if o[0] == "recording":
            return state if result == (end is None) else None
        if o[0] == "events":
            return state if result == events[0] else None
        if o[0] == "get":
            return state if result == dict(attrs[0]).get(o[1], "none") else None
        if o[0] == "json":
            return state if result == attrs[0] else None
        if end is not None:
            return state
        if o[0] == "attr":
            attrs = self.put(attrs, o[1], n)
        elif o[0] == "attrs":
            for k in o[1]:
                attrs = self.put(attrs, k, n)
        elif o[0] == "event":
            events = bounded(events, "e%d" % n, self.ne)
        elif o[0] == "exc":
            events = bounded(events, "exception", self.ne)
        elif o[0] == "link":
            links = bounded(links, n + 1, self.nl)
        elif o[0] == "name":
            name = "n%d" % n
        elif o[0] == "status":
            if status[0] != 1 and o[1] != 0:
                status = (o[1], "d%d" % n if o[1] == 2 else None)
        elif o[0] == "end":
            end = 10**18 + n
        return name, attrs, events, links, status, end


def show(s):
    return (s.name, (tuple(s.attributes.items()), s.dropped_attributes), (tuple(e.name for e in s.events), s.dropped_events), (tuple(k.context.span_id for k in s.links), s.dropped_links),
            (CODES.index(s.status.status_code), s.status.description or None), s.end_time)


class Probe(SpanProcessor):
    def __init__(self):
        self.ended = []

    def on_end(self, span):
        self.ended.append((span, show(span)))


def perform(s, o, n):
    if o[0] == "attr":
        s.set_attribute(o[1], n)
    elif o[0] == "attrs":
        s.set_attributes({k: n for k in o[1]})
    elif o[0] == "event":
        s.add_event("e%d" % n, {"n": n}, 1)
    elif o[0] == "exc":
        s.record_exception(ValueError(str(n)))
    elif o[0] == "link":
        s.add_link(SpanContext(1, n + 1, False))
    elif o[0] == "name":
        s.update_name("n%d" % n)
    elif o[0] == "status":
        if o[2]:
            s.set_status(Status(CODES[o[1]], "d%d" % n if o[1] == 2 else None))
        else:
            s.set_status(CODES[o[1]], "d%d" % n if o[1] == 2 else None)
    elif o[0] == "end":
        s.end(10**18 + n)
    elif o[0] == "recording":
        return s.is_recording()
    elif o[0] == "get":
        return s.attributes.get(o[1], "none")
    elif o[0] == "json":
        return tuple(json.loads(s.to_json())["attributes"].items())
    elif o[0] == "events":
        return tuple(e.name for e in s.events)
    return None


@sub("history", case_s, quick=3000, thorough=150000)
def history(rec, case):
    na, ne, nl = case["limits"]
    probe = Probe()
    calls = linear.Calls()
    out = {}

    def scenario(sim):
        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False, span_limits=SpanLimits(max_span_attributes=na if na is not None else 100, max_events=ne if ne is not None else 100, max_links=nl if nl is not None else 100))
        tp.add_span_processor(probe)
        s = out["span"] = tp.get_tracer("t").start_span("span")

        def do(o, who):
            c = calls.begin(o, who)
            c.end(perform(s, o, c.n))
        for o in case["before"]:
            do(o, 0)
        sim.join(*[sim.thread(lambda ops=ops, i=i: [do(o, i) for o in ops], "user%d" % i) for i, ops in enumerate(case["threads"], 1)])
        do(("end",), 0)

    _, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    for _n, e in sim.thread_errors:
        raise e
    s = out["span"]
    rec.eq(len(probe.ended), 1, "spans given to the processor")
    final = show(s)
    rec.eq(show(probe.ended[0][0]), probe.ended[0][1], "the exported span changed after on_end")
    rec.eq(final, probe.ended[0][1], "the span after its end, and the exported one")
    m = Model(case["limits"])
    rec.check(linear.explain(calls.all, m.start, m.step, lambda state: state == final), "no order of the calls %s leads to the span %s", calls, final)
    rec.nontrivial(calls.overlap())
    rec.label("overlap" if calls.overlap() else "sequential", "limits" if case["limits"] != (None, None, None) else "no limits")
