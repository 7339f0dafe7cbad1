"""L02: standard-library logging through the logging handler."""
from vlib import vsched
vsched.install()

import decimal  # noqa: E402
import io  # noqa: E402
import logging  # noqa: E402
import pathlib  # noqa: E402
import sys  # noqa: E402
import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry import trace  # noqa: E402
from opentelemetry._logs import SeverityNumber, std_to_otel  # noqa: E402
from opentelemetry.context import Context, attach, detach, get_current  # noqa: E402
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecordProcessor  # noqa: E402
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult, SimpleLogRecordProcessor  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.trace import NonRecordingSpan, TraceFlags  # noqa: E402
from vlib.bounded import BMap, val  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import ident, pick, utext, weighted  # noqa: E402
from vlib.spans import ctx_of, span_ctx  # noqa: E402

RULE = ("standard logging calls with generated messages, arguments, levels, extra attributes, exceptions and current spans through the handler against the standard library's own record of the call, "
        "and histories of calls while exporters fail or log themselves. non-trivial: a call with arguments, extras or an exception reached the handler, or an export logged.")
ASSUMPTIONS = ["the message of an exception with one textual argument is that argument; with several arguments any text is accepted"]
LOGGING = True
logging.getLogger().addHandler(logging.NullHandler())


class Stubborn:
    def __str__(self):
        raise RuntimeError("no text")
    __repr__ = __str__


class Thing:
    def __str__(self):
        return "a thing"


OBJECTS = {"error": ValueError("went wrong"), "set": {1}, "path": pathlib.PurePosixPath("/x/%s"), "thing": Thing(), "type": int, "decimal": decimal.Decimal("1.50"), "complex": 1j}


class Template:
    def __str__(self):
        return "<%s is %d>"
    __repr__ = __str__


def err(kind, text, raised):
    if kind == "none":
        return None
    x = {"value": ValueError, "key": KeyError, "os": OSError}.get(kind, ValueError)(text) if kind != "noargs" else RuntimeError()
    if kind == "two":
        x = OSError(2, text)
    if raised:
        try:
            raise x
        except Exception as e:
            return e
    return x


text = weighted((3, pick("hello", "50% off", "%s", "a\nb", "")), (2, utext))
message = weighted(
    (4, st.tuples(st.just("text"), text)),
    (3, st.tuples(st.just("args"), pick("%s", "a %s b", "%r!"), st.tuples(weighted((3, utext), (1, st.integers()), (1, st.none()))))),
    (2, st.tuples(st.just("args"), pick("%s-%d", "%5s|%04d"), st.tuples(utext, st.integers(-5, 99)))),
    (1, st.tuples(st.just("args"), pick("%(a)s", "%(a)s-%(b)s"), st.tuples(st.fixed_dictionaries({"a": utext, "b": st.integers()})))),
    (2, st.tuples(st.just("object"), weighted((1, st.integers()), (1, st.none()), (1, st.floats(allow_nan=False)), (1, st.booleans()), (2, st.dictionaries(utext, st.one_of(utext, st.integers(), st.lists(utext, max_size=2)), max_size=3)), (1, st.lists(utext, max_size=3))))),
    (1, st.tuples(st.just("object-args"), pick(5, None, ["%s"], {"k": "%s-%d"}, Template()), st.tuples(utext, st.integers(-5, 9))).map(lambda m: (m[0], m[1], m[2][:str(m[1]).count("%") or 2]))),
    (2, st.sampled_from(sorted(OBJECTS)).map(lambda k: ("any", k))),
    (1, st.tuples(st.just("broken"), pick("%d", "%s %s", "%", "%(x)s"), st.tuples(utext))),
    (1, st.tuples(st.just("stubborn"))),
)
extra_val = weighted((5, val), (1, st.none()), (1, pick({"x": 1}, ["a", 1], [None, "z"])))
call = st.fixed_dictionaries({
    "level": weighted((4, pick(10, 20, 30, 40, 50)), (1, st.integers(1, 70))), "message": message, "extra": weighted((1, st.none()), (3, st.dictionaries(pick("a", "b", "http.method", "user", "é", "code.lineno", "_x"), extra_val, max_size=3))),
    "exc": st.tuples(pick("none", "none", "value", "key", "os", "two", "noargs"), utext, st.booleans()), "exc_how": pick("object", "true"), "stack": pick(False, False, True),
    "span": weighted((1, st.none()), (3, span_ctx)),
})


class Keep(LogRecordProcessor):
    def __init__(self):
        self.got = []

    def emit(self, log_data):
        self.got.append(log_data)

    def force_flush(self, timeout_millis=30000):
        return True

    def shutdown(self):
        pass


class Tee(logging.Handler):
    """The standard library's own view of the calls."""

    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record)


def perform(logger, c):
    m = c["message"]
    x = err(*c["exc"])
    kw = {"extra": c["extra"], "stack_info": c["stack"]}
    args = (OBJECTS[m[1]],) if m[0] == "any" else (m[1],) if m[0] in ("text", "object") else (m[1], *m[2]) if m[0] != "stubborn" else ("%s", Stubborn())
    if x is not None and c["exc_how"] == "true":
        try:
            raise x
        except Exception:
            logger.log(c["level"], *args, exc_info=True, **kw); line = sys._getframe().f_lineno  # noqa: E702
    else:
        logger.log(c["level"], *args, exc_info=x, **kw); line = sys._getframe().f_lineno  # noqa: E702
    return x, line


class Silence:
    def __enter__(self):
        self.err, sys.stderr = sys.stderr, io.StringIO()

    def __exit__(self, *a):
        sys.stderr = self.err


@sub("calls", st.fixed_dictionaries({"name": weighted((3, ident), (1, st.just("root"))), "handler_level": pick(0, 0, 0, 20, 35), "logger_level": pick(1, 1, 10, 30), "format": pick(None, None, "%(levelname)s:%(name)s:%(message)s"),
                                     "calls": st.lists(call, min_size=1, max_size=4), "names": weighted((4, st.just({})), (1, st.dictionaries(pick(10, 20, 30, 30, 35, 40, 45), pick("CAUTION", "WARNING", "trace", "", "WARN", "é"), max_size=2)))}), quick=5000, thorough=200000)
def calls(rec, case):
    for n, name in case["names"].items():
        logging.addLevelName(n, name)
    try:
        run_calls(rec, case)
    finally:
        for n in case["names"]:
            logging.addLevelName(n, {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR"}.get(n, "Level %d" % n))


def run_calls(rec, case):
    manager = logging.Manager(logging.RootLogger(logging.WARNING))
    logger = manager.root if case["name"] == "root" else manager.getLogger(case["name"])
    logger.setLevel(case["logger_level"])
    res = Resource({"r": 1})
    lp = LoggerProvider(resource=res, shutdown_on_exit=False)
    keep, tee = Keep(), Tee()
    lp.add_log_record_processor(keep)
    h = LoggingHandler(level=case["handler_level"], logger_provider=lp)
    tee.setLevel(case["handler_level"])
    if case["format"]:
        h.setFormatter(logging.Formatter(case["format"]))
    logger.addHandler(tee)
    logger.addHandler(h)
    rich = False
    for c in case["calls"]:
        keep.got.clear()
        tee.got.clear()
        token = attach(trace.set_span_in_context(NonRecordingSpan(ctx_of(c["span"])), Context())) if c["span"] else None
        before = get_current()
        t0 = time.time_ns()
        try:
            with Silence():
                exc, line = perform(logger, c)
        except Exception as e:
            rec.fail("the logging call %s raised %s into the application" % (c["message"], type(e).__name__))
        t1 = time.time_ns()
        rec.check(get_current() == before, "the current context was changed by a logging call")
        if token:
            detach(token)
        m = c["message"]
        if c["level"] < max(case["logger_level"], case["handler_level"]):
            rec.eq(len(keep.got), 0, "records of a call below the level")
            continue
        r, = tee.got
        bad = m[0] in ("broken", "stubborn") or m[0] == "object-args" and "%" not in str(m[1])
        rec.check(len(keep.got) == 1 or bad and not keep.got, "%d records for one logging call", len(keep.got))
        if bad:
            continue
        d = keep.got[0]
        x = d.log_record
        if case["format"]:
            want = logging.Formatter(case["format"]).format(r)
        elif m[0] == "text":
            want = m[1]
        elif m[0] == "object":
            want = m[1]
        elif m[0] == "any":  # no log body can hold the object itself
            want = str(OBJECTS[m[1]])
        else:
            want = str(m[1]) % (m[2] if not isinstance(m[2][0], dict) else m[2][0])
        rec.eq(x.body, want, "body of %s" % (m,))
        std = {10: "DEBUG", 20: "INFO", 30: "WARN", 40: "ERROR", 50: "FATAL"}
        if c["level"] in std:
            rec.eq(x.severity_number, SeverityNumber[std[c["level"]]], "severity")
        rec.eq(x.severity_number, std_to_otel(c["level"]), "severity")
        rec.eq(x.severity_text, {"WARNING": "WARN"}.get(r.levelname, r.levelname), "severity text")
        rec.check(abs(x.timestamp - int(r.created * 1e9)) <= 1000, "timestamp %d, the call was at %r", x.timestamp, r.created)
        rec.check(t0 <= x.observed_timestamp <= t1, "observed timestamp %r is not the time of the call", x.observed_timestamp)
        cur = (c["span"][0], c["span"][1], TraceFlags(c["span"][2])) if c["span"] else (0, 0, TraceFlags(0))
        rec.eq((x.trace_id, x.span_id, x.trace_flags), cur, "trace identity")
        rec.check(x.resource == res, "resource %s", x.resource)
        rec.eq(d.instrumentation_scope.name, case["name"], "scope")
        got = dict(x.attributes)
        rec.eq((got.pop("code.filepath", None), got.pop("code.function", None), got.pop("code.lineno", None)), (__file__, "perform", line), "source location")
        want = {k: v for k, v in (c["extra"] or {}).items() if v is not None and not isinstance(v, dict) and v != ["a", 1] and not k.startswith("code.")}
        if exc is not None:
            rec.eq(got.pop("exception.type", None), type(exc).__name__, "exception type")
            msg = got.pop("exception.message", None)
            if len(exc.args) == 1:
                rec.eq(msg, exc.args[0], "exception message")
            trace_text = got.pop("exception.stacktrace", None)
            if c["exc_how"] == "true" or exc.__traceback__:
                rec.check(trace_text is not None and "Traceback (most recent call last)" in trace_text and trace_text.rstrip("\n").endswith(str(exc).rstrip("\n")) and type(exc).__name__ in trace_text, "stacktrace %r of %r", trace_text, exc)
        rec.eq(got, {k: v if v != [None, "z"] else (None, "z") for k, v in BMap(None, None).fill(want).d.items()}, "attributes from extra")
        rich = rich or c["extra"] or exc is not None or m[0] == "args"
    rec.nontrivial(rich)


@sub("severity", st.tuples(weighted((4, st.integers(-2, 75)), (1, st.integers(-10**6, 10**6))), weighted((4, st.integers(-2, 75)), (1, st.integers(-10**6, 10**6)))), quick=3000, thorough=30000,
     rule="pairs of Python levels keep their order and standard bands. non-trivial: the levels differ")
def severity(rec, case):
    a, b = sorted(case)
    x, y = std_to_otel(a), std_to_otel(b)
    rec.check(x.value <= y.value, "level %d is %s and level %d is %s", a, x, b, y)
    for lev, s in ((a, x), (b, y)):
        if 10 <= lev < 60:
            lo = {1: 5, 2: 9, 3: 13, 4: 17, 5: 21}[lev // 10]
            rec.check(lo <= s.value <= lo + 3 and (s.value == lo or lev % 10), "level %d is %s", lev, s)
        elif lev >= 60:
            rec.check(s.value >= 21, "level %d is %s", lev, s)
        else:
            rec.check(s.value < 5, "level %d is %s", lev, s)
    rec.nontrivial(a != b)


class Noisy(LogExporter):
    def __init__(self, name, outcomes, where):
        self.name, self.outcomes, self.where = name, list(outcomes), where
        self.seen, self.depth, self.deep, self.calls = [], 0, 0, 0
        self.down = 0

    def export(self, batch):
        self.calls += 1
        if self.calls > 400:
            raise SystemExit("endless exports")
        self.depth += 1
        self.deep = max(self.deep, self.depth)
        try:
            self.seen += [d.log_record.body for d in batch]
            o = self.outcomes[(self.calls - 1) % len(self.outcomes)] if self.outcomes else "ok"
            if "log" in o:
                self.where.warning("exporter %s logs", self.name)
            if "exc" in o:
                raise ValueError("export failed")
            return LogExportResult.FAILURE if "fail" in o else LogExportResult.SUCCESS
        finally:
            self.depth -= 1

    def shutdown(self):
        self.down += 1


@sub("reentry", st.tuples(st.lists(st.tuples(pick("simple", "simple", "batch"), st.lists(pick("ok", "log", "exc", "log-exc", "fail"), max_size=3)), min_size=1, max_size=2),
                          st.lists(weighted((4, st.just("log")), (1, st.just("flush")), (1, st.just("sleep"))), min_size=1, max_size=6), pick("root", "root", "app"), vsched.schedules),
     quick=1200, thorough=40000, rule="the handler on the root logger while exporters fail or log. non-trivial: an export logged or failed")
def reentry(rec, case):
    procs, ops, place, schedule = case
    root = logging.getLogger()
    app = logging.getLogger("vapp")
    where = logging.getLogger("vapp.exporter")
    app.setLevel(10)
    exps = []
    old = root.level

    def scenario(sim):
        lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
        for i, (kind, outcomes) in enumerate(procs):
            e = Noisy(i, outcomes, where)
            exps.append(e)
            lp.add_log_record_processor(SimpleLogRecordProcessor(e) if kind == "simple" else BatchLogRecordProcessor(e, schedule_delay_millis=1000, max_export_batch_size=50, max_queue_size=1000))
        h = LoggingHandler(logger_provider=lp)
        at = root if place == "root" else app
        at.addHandler(h)
        n = 0
        try:
            for o in ops:
                if o == "log":
                    app.info("m%d", n)
                    n += 1
                elif o == "flush":
                    h.flush()
                    for e in exps:
                        rec.eq([s for s in e.seen if s.startswith("m")], ["m%d" % i for i in range(n)], "exported after a flush")
                else:
                    time.sleep(3)
            lp.shutdown()
        finally:
            at.removeHandler(h)
        return n
    try:
        with Silence():
            n, sim = vsched.simulate(schedule, scenario, ticks=False)
    except RecursionError:
        rec.fail("logging recursed into itself through the export")
    finally:
        for h in list(root.handlers) + list(app.handlers):
            if isinstance(h, LoggingHandler):
                (root if h in root.handlers else app).removeHandler(h)
        root.setLevel(old)
    for name, e in sim.thread_errors:
        raise e
    for e, (kind, _) in zip(exps, procs):
        rec.eq([s for s in e.seen if s.startswith("m")], ["m%d" % i for i in range(n)], "exported by the %s processor" % kind)
        rec.check(e.deep <= 1, "an export was started inside an export of the same exporter, %d deep", e.deep)
        rec.check(e.calls <= 60, "%d exports for %d logging calls", e.calls, n)
        rec.eq(e.down, 1, "shutdowns")
    rec.nontrivial(n and any("log" in o or "exc" in o for _, os in procs for o in os))
