"""R05: the global error handler contains every error it guards."""
import logging

from hypothesis import strategies as st

from opentelemetry.sdk.error_handler import ErrorHandler, GlobalErrorHandler
from vlib import plugins
from vlib.core import sub
from vlib.gen import pick, utext, weighted

RULE = ("sets of handlers registered as real entry points (matching or not, failing in the constructor, in the handling or at import) and errors raised under the global handler, against a model of who must be given the error. "
        "non-trivial: an error was raised and at least one handler matched it or failed.")
ASSUMPTIONS = ["errors and handler failures are Exceptions", "a handler matches the errors of the classes it inherits from and of their parents, as documented"]


LOGGING = True
logging.getLogger().addHandler(logging.NullHandler())


class Odd(ValueError):
    pass


ERRORS = {"value": ValueError, "odd": Odd, "zero": ZeroDivisionError, "arith": ArithmeticError, "key": KeyError, "lookup": LookupError, "any": Exception, "os": OSError}
CALLS = []


def make(i, bases, how):
    def __init__(self):
        if how == "init":
            raise RuntimeError("handler %d cannot be built" % i)

    def _handle(self, error, *args, **kwargs):
        CALLS.append((i, error))
        if how == "fail":
            raise RuntimeError("handler %d failed" % i)
        if how == "same":
            raise error
        return {"ok": None, "true": True, "false": False}.get(how)

    return type("Handler%d" % i, (ErrorHandler, *(ERRORS[b] for b in bases)), {"__init__": __init__, "_handle": _handle, "__module__": __name__})


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append(record)


bases = st.lists(pick("value", "zero", "key", "os", "odd", "lookup"), max_size=2, unique=True).map(sorted).filter(lambda b: b not in (["odd", "value"], ["key", "lookup"], ["os", "value"], ["odd", "os"], ["key", "os"], ["os", "zero"], ["lookup", "os"]))
handler = st.tuples(bases, pick("ok", "ok", "true", "false", "fail", "same", "init", "import"))
use = st.tuples(weighted((1, st.none()), (6, st.sampled_from(sorted(ERRORS)))), utext)


@sub("guard", st.tuples(st.lists(handler, max_size=5), st.lists(use, min_size=1, max_size=3)), quick=2000, thorough=40000)
def guard(rec, case):
    handlers, uses = case
    CALLS.clear()
    classes = []
    for i, (b, how) in enumerate(handlers):
        c = make(i, b, how)
        classes.append(c)
        plugins.SLOTS["h%d" % i] = ImportError("no handler %d" % i) if how == "import" else c
    catch = Catch()
    log = logging.getLogger("opentelemetry")
    log.addHandler(catch)
    busy = False
    try:
        for kind, text in uses:
            CALLS.clear()
            catch.got.clear()
            done = False
            x = None if kind is None else ERRORS[kind](text) if text else ERRORS[kind]()
            try:
                with GlobalErrorHandler():
                    if x is not None:
                        raise x
                    done = True
            except Exception as e:
                rec.fail("%r left the guarded block, raised there was %r" % (e, x))
            rec.check(done is (x is None), "the block was left early")
            if x is None:
                rec.check(not CALLS and not catch.got, "a block without error called %s, logged %s", CALLS, catch.got)
                continue
            match = [i for i, (c, (b, how)) in enumerate(zip(classes, handlers)) if how != "import" and issubclass(c, type(x))]
            called = [i for i in match if handlers[i][1] != "init"]
            rec.eq(sorted(i for i, _ in CALLS), called, "handlers called for %r" % x)
            rec.check(all(e is x for _, e in CALLS), "handlers were given %s instead of %r", [e for _, e in CALLS], x)
            handled = [i for i in called if handlers[i][1] not in ("fail", "same")]
            by_default = [r for r in catch.got if r.exc_info and r.exc_info[1] is x]
            again = sum(handlers[i][1] == "same" for i in called)       # a handler's own failure may be logged
            rec.eq(len(by_default), again if handled else 1 + again, "records of the default handler when %s handled %r" % (handled or "nobody", x))
            busy = busy or match or any(h[1] == "import" for h in handlers)
    finally:
        log.removeHandler(catch)
        for i in range(len(handlers)):
            plugins.SLOTS.pop("h%d" % i, None)
    rec.nontrivial(busy)
