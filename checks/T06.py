"""T06: batch span processor under generated schedules (deterministic scheduler, virtual clock)."""
from vlib import vsched
vsched.install()

from vlib import batchsim, spanbatch  # noqa: E402
from vlib.core import sub  # noqa: E402

RULE = ("producer scripts (1-3 threads), exporter behaviours (slow, raising, failing, re-entrant), queue/batch/delay settings and a schedule that can switch threads at every byte-code "
        "instruction; virtual clock. non-trivial: a batch was exported while another thread was still producing, or items were lost to a full queue.")
ASSUMPTIONS = ["threads switch only between byte-code instructions; exporter failures are Exceptions"]


def judge(rec, case, final):
    h, sim, out = batchsim.play(case, spanbatch.Direct, spanbatch.make_item, spanbatch.key_of, final)
    lost = batchsim.check_delivery(rec, h, case, out)
    puts = [x.ret for x in h.items if x.sampled and x.ret]
    rec.nontrivial(len(h.exports) >= 2 and (lost or any(e.start < max(puts, default=0) for e in h.exports)))
    rec.label("lost" if lost else "no-loss", "preempted" if sim.preempts else "sequential", "exports-%d" % min(5, len(h.exports)))


@sub("settle", batchsim.case_strategy(False, False), quick=5000, thorough=300000, rule="everything is delivered by the schedule alone, without flush or shutdown")
def settle(rec, case):
    judge(rec, case, "settle")


@sub("mixed", batchsim.case_strategy(True, True), quick=5000, thorough=300000, rule="with concurrent flushes and shutdown")
def mixed(rec, case):
    judge(rec, case, "shutdown")
