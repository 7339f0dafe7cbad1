"""T07: force-flush and shutdown of span processors under generated schedules."""
from vlib import vsched
vsched.install()

import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import TracerProvider  # noqa: E402
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SimpleSpanProcessor, SpanExporter, SpanExportResult  # noqa: E402
from vlib import batchsim, spanbatch  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("producer/flush/shutdown scripts on 1-3 threads, slow or failing exporters, queue settings and a byte-code level schedule on a virtual clock; the processor directly, behind the "
        "composite, and a tracer provider with several processors. non-trivial: a flush or shutdown had something to export.")
ASSUMPTIONS = ["threads switch only between byte-code instructions; exporter failures are Exceptions"]


def judge(rec, case, make):
    h, sim, out = batchsim.play(case, make, spanbatch.make_item, spanbatch.key_of, "shutdown")
    rec.check(not h.problems, "%s", h.problems[:3])
    batchsim.check_flush_shutdown(rec, h, case, out, case[4])
    rec.eq(out["late"], 0, "exports caused by spans ended after shutdown")
    ok = [f for f in h.flushes if f["ret"]]
    busy = any(e.end > f["start"] and e.start < f["end"] for f in h.flushes for e in h.exports) or any(e.end > h.shutdowns[0]["start"] for e in h.exports)
    rec.nontrivial(busy)
    rec.label("flush-ok" if ok else "", "flush-failed" if len(ok) < len(h.flushes) else "", "busy" if busy else "idle")


@sub("batch", batchsim.case_strategy(True, True), quick=6000, thorough=400000)
def batch(rec, case):
    judge(rec, case, spanbatch.Direct)


@sub("composite", batchsim.case_strategy(True, False), quick=2500, thorough=150000, rule="behind the sequential composite")
def composite(rec, case):
    judge(rec, case, spanbatch.Composite)


@sub("overtaken", batchsim.overtaken(), quick=1200, thorough=100000, rule="a flush that is still waiting when the shutdown comes: when it reports success, its spans were exported")
def overtaken(rec, case):
    judge(rec, case, spanbatch.Direct)


class Exp(SpanExporter):
    def __init__(self, log, i, ms, fail):
        self.log, self.i, self.ms, self.fail = log, i, ms, fail

    def export(self, spans):
        if self.ms:
            time.sleep(self.ms / 1000)
        self.log.append(("export", self.i, [s.name for s in spans]))
        if self.fail:
            raise ValueError("no")
        return SpanExportResult.SUCCESS

    def shutdown(self):
        self.log.append(("shutdown", self.i))


@sub("provider", st.tuples(st.lists(st.tuples(pick("simple", "batch", "batch"), pick(0, 0, 3, 400), st.booleans()), min_size=1, max_size=3),
                           st.lists(weighted((4, st.tuples(st.just("span"))), (2, st.tuples(st.just("flush"), pick(30000, 5000, 100))), (1, st.tuples(st.just("sleep"), pick(10, 6000)))), max_size=8),
                           vsched.schedules),
     quick=1500, thorough=80000, rule="TracerProvider.force_flush and shutdown over several processors. non-trivial: a batch processor is involved and spans were ended")
def provider(rec, case):
    procs, ops, schedule = case
    log = []

    def scenario(sim):
        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
        for i, (kind, ms, fail) in enumerate(procs):
            e = Exp(log, i, ms, fail)
            tp.add_span_processor(SimpleSpanProcessor(e) if kind == "simple" else BatchSpanProcessor(e, schedule_delay_millis=5000, max_export_batch_size=3, max_queue_size=100))
        tr = tp.get_tracer("t")
        n = 0
        for o in ops:
            if o[0] == "span":
                tr.start_span("s%d" % n).end()
                n += 1
            elif o[0] == "sleep":
                time.sleep(o[1] / 1000)
            else:
                t0 = sim.now
                r = tp.force_flush(o[1])
                took = (sim.now - t0) / 1e6
                want = ["s%d" % k for k in range(n)]
                for i in range(len(procs)):
                    got = [x for k, j, names in [l for l in log if l[0] == "export"] if j == i for x in names]
                    if r:
                        rec.eq(got, want, "provider flush reported success; exported by processor %d" % i)
                    else:
                        rec.eq(got, want[:len(got)], "exported by processor %d" % i)
                if not r:
                    slow = sum(ms * (n + 1) for _, ms, _ in procs)
                    rec.check(took >= o[1] - 1 or slow >= o[1], "provider flush failed after %.1f of %d ms", took, o[1])
        tp.shutdown()
        return n
    n, sim = vsched.simulate(schedule, scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    for i in range(len(procs)):
        mine = [l for l in log if l[1] == i]
        rec.eq([x for l in mine if l[0] == "export" for x in l[2]], ["s%d" % k for k in range(n)], "exported by processor %d at the end" % i)
        rec.eq([l[0] for l in mine].count("shutdown"), 1, "shutdowns of exporter %d" % i)
        rec.eq(mine[-1][0], "shutdown", "last call on exporter %d" % i)
    rec.nontrivial(n and any(k == "batch" for k, _, _ in procs))
