"""L03: batch log record processor under generated schedules."""
from vlib import vsched
vsched.install()

import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.sdk._logs import LoggerProvider, LogRecord  # noqa: E402
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor  # noqa: E402
from vlib import batchsim, logbatch  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import pick, weighted  # noqa: E402

RULE = ("emit/flush/shutdown scripts on 1-3 threads, exporter behaviours (slow, raising, failing, re-entrant), queue/batch/delay settings and a byte-code level schedule on a virtual clock; the processor directly, "
        "behind the composite, and a logger provider with several processors. non-trivial: a batch was exported while another thread was still emitting, records were lost to a full queue, or a flush or shutdown had something to export.")
ASSUMPTIONS = ["threads switch only between byte-code instructions; exporter failures are Exceptions"]


def strategy(flush, shutdown):
    # log records are never unsampled
    def fix(case):
        return (case[0], case[1], [[("put", 1) if o[0] == "unsampled" else o for o in s] for s in case[2]], case[3], case[4])
    return batchsim.case_strategy(flush, shutdown).map(fix)


def delivery(rec, case, final):
    h, sim, out = batchsim.play(case, logbatch.Direct, logbatch.make_item, logbatch.key_of, final)
    lost = batchsim.check_delivery(rec, h, case, out)
    puts = [x.ret for x in h.items if x.ret]
    rec.nontrivial(len(h.exports) >= 2 and (lost or any(e.start < max(puts, default=0) for e in h.exports)))
    rec.label("lost" if lost else "no-loss", "preempted" if sim.preempts else "sequential", "exports-%d" % min(5, len(h.exports)))


@sub("settle", strategy(False, False), quick=3000, thorough=200000, rule="everything is delivered by the schedule alone, without flush or shutdown")
def settle(rec, case):
    delivery(rec, case, "settle")


@sub("mixed", strategy(True, True), quick=3000, thorough=200000, rule="delivery with concurrent flushes and shutdown")
def mixed(rec, case):
    delivery(rec, case, "shutdown")


def flushing(rec, case, make):
    h, sim, out = batchsim.play(case, make, logbatch.make_item, logbatch.key_of, "shutdown")
    rec.check(not h.problems, "%s", h.problems[:3])
    batchsim.check_flush_shutdown(rec, h, case, out, case[4])
    rec.eq(out["late"], 0, "exports caused by records emitted after shutdown")
    ok = [f for f in h.flushes if f["ret"]]
    busy = any(e.end > f["start"] and e.start < f["end"] for f in h.flushes for e in h.exports) or any(e.end > h.shutdowns[0]["start"] for e in h.exports)
    rec.nontrivial(busy)
    rec.label("flush-ok" if ok else "", "flush-failed" if len(ok) < len(h.flushes) else "", "busy" if busy else "idle")


@sub("flush", strategy(True, True), quick=4000, thorough=300000, rule="flush and shutdown. non-trivial: a flush or shutdown had something to export")
def flush(rec, case):
    flushing(rec, case, logbatch.Direct)


@sub("composite", strategy(True, False), quick=1500, thorough=100000, rule="behind the sequential composite. non-trivial: a flush or shutdown had something to export")
def composite(rec, case):
    flushing(rec, case, logbatch.Composite)


@sub("overtaken", batchsim.overtaken(), quick=1200, thorough=100000, rule="a flush that is still waiting when the shutdown comes: when it reports success, its records were exported. non-trivial: a flush or shutdown had something to export")
def overtaken(rec, case):
    flushing(rec, case, logbatch.Direct)


class Exp(LogExporter):
    def __init__(self, log, i, ms, fail):
        self.log, self.i, self.ms, self.fail = log, i, ms, fail

    def export(self, batch):
        if self.ms:
            time.sleep(self.ms / 1000)
        self.log.append(("export", self.i, [d.log_record.body for d in batch]))
        if self.fail:
            raise ValueError("no")
        return LogExportResult.SUCCESS

    def shutdown(self):
        self.log.append(("shutdown", self.i))


@sub("provider", st.tuples(st.lists(st.tuples(pick("simple", "batch", "batch"), pick(0, 0, 3, 400), st.booleans()), min_size=1, max_size=3),
                           st.lists(weighted((4, st.tuples(st.just("log"))), (2, st.tuples(st.just("flush"), pick(30000, 5000, 100))), (1, st.tuples(st.just("sleep"), pick(10, 6000)))), max_size=8),
                           vsched.schedules),
     quick=1200, thorough=60000, rule="LoggerProvider.force_flush and shutdown over several processors. non-trivial: a batch processor is involved and records were emitted")
def provider(rec, case):
    procs, ops, schedule = case
    log = []

    def scenario(sim):
        lp = LoggerProvider(resource=logbatch.RES, shutdown_on_exit=False)
        for i, (kind, ms, fail) in enumerate(procs):
            e = Exp(log, i, ms, fail)
            lp.add_log_record_processor(SimpleLogRecordProcessor(e) if kind == "simple" else BatchLogRecordProcessor(e, schedule_delay_millis=5000, max_export_batch_size=3, max_queue_size=100))
        lg = lp.get_logger("t")
        n = 0
        for o in ops:
            if o[0] == "log":
                lg.emit(LogRecord(observed_timestamp=1, body=n, resource=logbatch.RES))
                n += 1
            elif o[0] == "sleep":
                time.sleep(o[1] / 1000)
            else:
                t0 = sim.now
                r = lp.force_flush(o[1])
                took = (sim.now - t0) / 1e6
                want = list(range(n))
                for i in range(len(procs)):
                    got = [x for l in log if l[0] == "export" and l[1] == i for x in l[2]]
                    if r:
                        rec.eq(got, want, "provider flush reported success; exported by processor %d" % i)
                    else:
                        rec.eq(got, want[:len(got)], "exported by processor %d" % i)
                if not r:
                    slow = sum(ms * (n + 1) for _, ms, _ in procs)
                    rec.check(took >= o[1] - 1 or slow >= o[1], "provider flush failed after %.1f of %d ms", took, o[1])
        lp.shutdown()
        return n
    n, sim = vsched.simulate(schedule, scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    for i in range(len(procs)):
        mine = [l for l in log if l[1] == i]
        rec.eq([x for l in mine if l[0] == "export" for x in l[2]], list(range(n)), "exported by processor %d at the end" % i)
        rec.eq([l[0] for l in mine].count("shutdown"), 1, "shutdowns of exporter %d" % i)
        rec.eq(mine[-1][0], "shutdown", "last call on exporter %d" % i)
    rec.nontrivial(n and any(k == "batch" for k, _, _ in procs))
