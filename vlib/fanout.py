"""Models shared by the composite span and log processors."""
import time

from hypothesis import strategies as st

from vlib.gen import pick, weighted

# what a processor's flush does: (duration ms, outcome; "over": succeeds, without regard for its budget)
flush_proc = st.tuples(pick(0, 0, 1, 7, 50, 400), weighted((6, st.just(True)), (1, st.just(False)), (1, st.just("over"))))
budget = pick(30000, 1000, 300, 57, 9, 2)


def cooperative_flush(proc, ms):
    """A flush that uses at most its budget (unless "over")."""
    d, ok = proc
    if ok == "over":
        time.sleep(d / 1000)
        return True
    fits = d <= ms
    time.sleep(min(d, max(ms, 0)) / 1000)
    return ok and fits


def sequential(procs, ms):
    """(result, number of processors that must have been called) or None when a deadline is hit exactly, or missed by the last processor only."""
    now = 0
    for i, (d, ok) in enumerate(procs):
        if d and now + d == ms or now == ms:
            return None
        if ok == "over" and now + d > ms > now:
            return (False, i + 1) if i + 1 < len(procs) else None
        if now > ms or d > ms - now:
            return False, i
        now += d
        if not ok:
            return False, i + 1
    return True, len(procs)


def parallel(procs, ms, workers):
    free = [0] * workers
    res = True
    for d, ok in procs:
        k = free.index(min(free))
        free[k] += d if ok == "over" else min(d, ms)
        if free[k] == ms:
            return None
        if free[k] > ms or not ok or d > ms:
            res = False
    return res
