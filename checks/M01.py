"""M01: sums."""
from vlib.metrics import CLOCK, KINDS, SYNC, Stream, attr_sets, attrs_of, create, default_agg, flatten, metric_for, poison, provider, record, signed, temporalities, temporality
from vlib.metrics import InMemoryMetricReader, Observation
from hypothesis import strategies as st

from vlib.core import sub
from vlib.gen import pick, weighted

RULE = ("histories of add() on counters and up-down counters (integers, exact floats, negative and huge values, attribute sets that coincide, lists, mutated by the caller afterwards) interleaved with collections by one "
        "to three readers with their own temporality, against a model that keeps every measurement. non-trivial: at least two readers or temporalities collected and an attribute set was measured again after a collection.")
ASSUMPTIONS = ["attribute sets are compared with Python equality, so one that differs from another only by True for 1 is the same set"]

inst = st.tuples(pick("counter", "updown"), pick("n1", "n2", "N3"))
case_s = st.fixed_dictionaries({
    "readers": st.lists(temporality, min_size=1, max_size=3),
    "insts": st.lists(inst, min_size=1, max_size=3, unique_by=lambda t: t[1]),
    "ops": st.lists(weighted(
        (4, st.tuples(st.just("add"), st.integers(0, 2), signed, attr_sets)),
        (1, st.tuples(st.just("collect"), st.integers(0, 2))),
    ), max_size=30),
})


@sub("history", case_s, quick=3000)
def history(rec, case):
    CLOCK.reset()
    readers = [InMemoryMetricReader(preferred_temporality=temporalities(t)) for t in case["readers"]]
    mp = provider(readers)
    meter = mp.get_meter("m")
    insts = [(k, n, create(meter, k, n)) for k, n in case["insts"]]
    model = [[Stream(k, default_agg(k), t[KINDS.index(k)]) for k, _n, _i in insts] for t in case["readers"]]
    seen, again = set(), False

    def collect(r):
        flat = flatten(rec, readers[r].get_metrics_data())
        for (k, n, _i), s in zip(insts, model[r]):
            s.check(rec, metric_for(rec, flat, n.lower()), "reader %d %s %s (%s)" % (r, k, n, s.temp))
        rec.check(len(flat) <= len(insts), "reader %d: %d metrics from %d instruments", r, len(flat), len(insts))

    collected = set()
    for op in case["ops"]:
        if op[0] == "add":
            _, i, v, a = op
            i %= len(insts)
            k, _n, ins = insts[i]
            if k == "counter" and v < 0:
                rec.label("negative")
            else:
                for m in model:
                    m[i].record(v, attrs_of(a))
                again = again or ((i, a) in seen and bool(collected))
                seen.add((i, a))
            attrs = attrs_of(a)
            record(k, ins, v, attrs)
            poison(attrs)
        else:
            r = op[1] % len(readers)
            collect(r)
            collected.add(r)
    for r in range(len(readers)):
        collect(r)
        collect(r)
    rec.nontrivial(again and (len(set(case["readers"])) > 1 or len(collected) > 1))
