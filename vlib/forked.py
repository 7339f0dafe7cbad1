"""Run the body of a case in a forked child, so that process-wide state (global providers, environment, atexit) starts fresh for every case."""
import faulthandler
import functools
import os
import pickle
import select
import signal
import sys

from vlib import core

HANG = 60.0


def forked(body):
    @functools.wraps(body)
    def run(rec, case):
        r, w = os.pipe()
        stacks = os.fdopen(os.memfd_create("stacks"), "w+b", 0)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                faulthandler.register(signal.SIGUSR1, file=stacks)
                res = child(body, rec, case)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        deadline = core.monotonic() + HANG
        hung = False
        try:
            while True:
                left = deadline - core.monotonic()
                if left <= 0:
                    hung = True
                    break
                if select.select([r], [], [], min(left, 1.0))[0]:
                    b = os.read(r, 1 << 16)
                    if not b:
                        break
                    data += b
        finally:
            os.close(r)
            if hung:
                os.kill(pid, signal.SIGUSR1)
                core.real_sleep(0.5)
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        if not hung:
            stacks.close()
        if hung:
            raise core.Violation("no progress for %ds: a call hangs: %s" % (HANG, read_stacks(stacks)))
        if not data:
            raise core.HarnessError("the child process ended without a result")
        outcome, state = pickle.loads(data)
        rec.labels, rec.is_nontrivial, rec.known = state
        if outcome is None:
            return
        kind, msg, key = outcome
        if kind == "violation":
            raise core.Violation(msg, key)
        raise core.HarnessError(msg)
    return run


def read_stacks(f):
    f.seek(0)
    lines = [x.strip().replace('File "' + core.REPO + "/", '"') for x in f.read().decode().split("\n")]
    return " ".join(x for x in lines if x)[:4000]


def child(body, rec, case):
    outcome = None
    try:
        body(rec, case)
    except core.Violation as e:
        outcome = ("violation", str(e), e.key)
    except Exception as e:  # noqa
        kind, msg = core.classify(e)
        outcome = (kind, msg, None)
    except BaseException as e:  # noqa
        outcome = ("harness", "%s: %s" % (type(e).__name__, e), None)
    sys.stdout = sys.stderr = None
    return outcome, (rec.labels, rec.is_nontrivial, rec.known)
