"""Threads that ask for meters and instruments at once (shared by M09 and M11).  Import after vsched.install()."""
from vlib import vsched
from vlib.metrics import CLOCK, InMemoryMetricReader, Observation, create, flatten, provider, record, temporalities

from hypothesis import strategies as st

from vlib.gen import pick

RULE = "threads that ask for the same or other meters and instruments at once, measure with what they get, while another collects; non-trivial: two threads asked for the same instrument and three switches happened"

make_s = st.fixed_dictionaries({
    "kind": pick("counter", "updown", "histogram", "gauge", "ocounter", "oupdown", "ogauge"), "threads": st.lists(st.lists(st.tuples(pick("n", "N", "o"), pick("m", "m", "p")), min_size=1, max_size=2), min_size=2, max_size=3),
    "collect": st.integers(0, 2), "schedule": vsched.schedules,
})


def create_(rec, case):
    CLOCK.reset()
    kind = case["kind"]
    reader = InMemoryMetricReader(preferred_temporality=temporalities("c" * 7))
    done = []

    def scenario(sim):
        mp = provider([reader])

        def work(ops):
            for n, m in ops:
                meter = mp.get_meter(m)
                i = create(meter, kind, n, "u", "d", [lambda o: [Observation(1)]])
                if kind in ("counter", "updown", "histogram", "gauge"):
                    record(kind, i, 1, {})
                done.append((m, n.lower(), meter, i))

        def collect():
            for _ in range(case["collect"]):
                reader.get_metrics_data()
        ts = [sim.thread(lambda ops=ops: work(ops), "make%d" % i) for i, ops in enumerate(case["threads"])] + [sim.thread(collect, "collect")]
        sim.join(*ts)
        if kind == "gauge":
            for _m, _n, _meter, i in done:
                i.set(1, {})
        return flatten(rec, reader.get_metrics_data())

    flat, sim = vsched.simulate(case["schedule"], scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    want = {}
    for m, n, meter, i in done:
        want[m, n] = want.get((m, n), 0) + 1
        rec.check(all(x[2] is meter for x in done if x[0] == m), "two meters for one scope %s", m)
    got = {}
    for _r, s, m in flat:
        rec.check((s.name, m.name) not in got, "metric %s of %s reported twice", m.name, s.name)
        rec.eq((m.unit, m.description), ("u", "d"), "unit and description")
        p, = m.data.data_points
        got[s.name, m.name] = p.count if kind == "histogram" else p.value
    if kind in ("ocounter", "oupdown", "ogauge", "gauge"):
        want = {k: 1 for k in want}
    rec.eq(got, want, "metrics after %s asked for the instruments at once" % [d[:2] for d in done])
    asked = [{(m, n.lower()) for n, m in ops} for ops in case["threads"]]
    rec.nontrivial(sim.preempts >= 3 and any(a & b for i, a in enumerate(asked) for b in asked[i + 1:]))
