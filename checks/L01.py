"""L01: emitted log records reach every processor unchanged, within limits; events; composite flush; simple log processor."""
from vlib import vsched
vsched.install()

import copy  # noqa: E402
import os  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry import trace  # noqa: E402
from opentelemetry._events import Event  # noqa: E402
from opentelemetry._logs import SeverityNumber  # noqa: E402
from opentelemetry.context import Context, attach, detach, get_current, get_value, set_value  # noqa: E402
from opentelemetry.context import _SUPPRESS_INSTRUMENTATION_KEY as KEY  # noqa: E402
from opentelemetry.sdk._events import EventLoggerProvider  # noqa: E402
from opentelemetry.sdk._logs import LogData, LoggerProvider, LogLimits, LogRecord, LogRecordProcessor  # noqa: E402
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor  # noqa: E402
from opentelemetry.sdk._logs.export import LogExporter, LogExportResult, SimpleLogRecordProcessor  # noqa: E402
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.trace import NonRecordingSpan, TraceFlags  # noqa: E402
from vlib import fanout, telemetry as tm  # noqa: E402
from vlib.bounded import BMap, akey, amap, val  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import flags, pick, span_ids, times_ns, trace_ids, weighted  # noqa: E402
from vlib.spans import ctx_of, show_ctx, span_ctx  # noqa: E402

RULE = ("log records with every optional field present or absent, limits from arguments and environment, several loggers and processors with flushes under budgets (sequential and concurrent composite, virtual clock), "
        "events inside and outside spans, and the simple processor with failing exporters. non-trivial: a record was delivered to two processors, an attribute was dropped or cut, or an export failed.")
ASSUMPTIONS = ["processors do not raise; flushes of processors respect the budget they are given, or exceed it and succeed late", "a record carries the resource it was created with; events and the logging handler use the provider's"]
warnings.simplefilter("ignore")


class Keep(LogRecordProcessor):
    def __init__(self, flush=True):
        self.got, self.flush, self.down, self.budgets = [], flush, 0, []

    def emit(self, log_data):
        self.got.append(log_data)

    def force_flush(self, timeout_millis=30000):
        self.budgets.append(timeout_millis)
        return self.flush

    def shutdown(self):
        self.down += 1


LIMIT_ENV = {"max_attributes": "OTEL_ATTRIBUTE_COUNT_LIMIT", "max_attribute_length": "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT"}
number = st.integers(0, 5)
limit_args = weighted((2, st.none()), (5, st.fixed_dictionaries({}, optional={n: weighted((3, number), (1, st.just(-1)), (1, st.none())) for n in LIMIT_ENV})))
limit_env = st.fixed_dictionaries({}, optional={n: weighted((3, number.map(str)), (1, pick("", " ")), (1, number.map(" {} ".format))) for n in LIMIT_ENV})


def effective(args, env):
    out = {}
    for n in LIMIT_ENV:
        v = args.get(n)
        if v is None and n in env:
            v = int(env[n]) if env[n].strip() else None
        out[n] = None if v == -1 else v
    return (128 if out["max_attributes"] is None else out["max_attributes"]), out["max_attribute_length"]


field_s = st.tuples(limit_args, limit_env, tm.log_record, amap, st.lists(st.tuples(akey, val), max_size=3), tm.resource, tm.scope)


@sub("fields", field_s, quick=8000, thorough=300000, rule="one record against a model of its fields and bounded attributes. non-trivial: an attribute was dropped or cut, or an optional field is absent")
def fields(rec, case):
    args, env, r, attrs, later, res, (name, version, schema, sattrs) = case
    names = {LIMIT_ENV[k]: v for k, v in env.items()}
    resource = Resource(*res)
    os.environ.update(names)
    try:
        kw = {} if args is None else {"limits": LogLimits(**args)}
        given = copy.deepcopy(attrs) or None
        flags_ = None if r["flags"] is None else TraceFlags(r["flags"])
        sev = None if r["severity"] is None else SeverityNumber(r["severity"])
        t0 = time.time_ns()
        record = LogRecord(timestamp=r["timestamp"], observed_timestamp=r["observed"], trace_id=r["trace_id"], span_id=r["span_id"], trace_flags=flags_, severity_text=r["severity_text"], severity_number=sev,
                           body=r["body"], resource=resource, attributes=given, **kw)
        t1 = time.time_ns()
    finally:
        for k in names:
            os.environ.pop(k, None)
    m = BMap(*(effective(args, env) if args is not None else (128, None)))
    m.fill(attrs)
    if given:
        rec.eq(given, attrs, "the caller's attributes")
        for v in given.values():
            if isinstance(v, list):
                v.append("late")
        given["late"] = 1
    for k, v in later:
        record.attributes[k] = v
        m.put(k, v)
    lp = LoggerProvider(resource=resource, shutdown_on_exit=False)
    procs = [Keep(), Keep()]
    for p in procs:
        lp.add_log_record_processor(p)
    lp.get_logger(name, version, schema, sattrs).emit(record)
    for p in procs:
        rec.eq(len(p.got), 1, "deliveries")
        d, = p.got
        x = d.log_record
        rec.eq(x.timestamp, r["timestamp"], "timestamp")
        if r["observed"] is None:
            rec.check(t0 <= x.observed_timestamp <= t1, "observed timestamp %r, expected the time of creation", x.observed_timestamp)
        else:
            rec.eq(x.observed_timestamp, r["observed"], "observed timestamp")
        rec.eq((x.trace_id, x.span_id, x.trace_flags), (r["trace_id"], r["span_id"], flags_), "trace identity")
        rec.eq((x.severity_text, x.severity_number), (r["severity_text"], sev), "severity")
        rec.eq(x.body, r["body"], "body")
        rec.eq(list((x.attributes or {}).items()), list(m.d.items()), "attributes")
        rec.eq(x.dropped_attributes, m.dropped, "dropped attributes")
        rec.check(x.resource == resource and dict(x.resource.attributes) == dict(resource.attributes), "resource %s", x.resource)
        s = d.instrumentation_scope
        rec.eq((s.name, s.version or "", s.schema_url or "", dict(s.attributes or {})), (name, version or "", schema or "", {k: v for k, v in sattrs.items()}), "scope")
    rec.nontrivial(m.dropped or m.cut or None in (r["timestamp"], r["trace_id"], sev))


@sub("limits", st.tuples(pick(*LIMIT_ENV), st.booleans(), weighted((1, st.integers(-9, -2)), (1, pick("abc", "-1", "1.5", "0x1", "1 2")))), quick=200, thorough=2000, rule="malformed settings are refused. non-trivial: all")
def limits(rec, case):
    n, via_env, v = case
    rec.nontrivial()
    if not via_env and not isinstance(v, int):
        return
    try:
        if via_env:
            os.environ[LIMIT_ENV[n]] = str(v)
            LogLimits()
        else:
            LogLimits(**{n: v})
    except ValueError:
        return
    finally:
        os.environ.pop(LIMIT_ENV[n], None)
    rec.fail("%s=%r (%s) was accepted" % (n, v, "environment" if via_env else "argument"))


class Probe(LogRecordProcessor):
    def __init__(self, i, flush, log, sim):
        self.i, self.flush, self.log, self.sim = i, flush, log, sim
        self.budgets = []

    def emit(self, log_data):
        s = log_data.instrumentation_scope
        self.log.append(("emit", self.i, log_data.log_record.body, (s.name, s.version, s.schema_url or None, tuple((s.attributes or {}).items()))))

    def force_flush(self, timeout_millis=30000):
        self.budgets.append((self.sim.now / 1e6, timeout_millis))
        self.log.append(("flush", self.i, 0, ()))
        return fanout.cooperative_flush(self.flush, timeout_millis)

    def shutdown(self):
        self.log.append(("shutdown", self.i, 0, ()))


scope_id = st.tuples(pick("a", "a", "b"), pick(None, "1"), pick(None, "http://s"), pick(None, None, {"k": 1}, {"k": "v"}))
step = weighted((3, st.tuples(st.just("add"), fanout.flush_proc)), (6, st.tuples(st.just("emit"), scope_id)), (2, st.tuples(st.just("flush"), fanout.budget)))


def run(rec, case, concurrent):
    workers, initial, steps, schedule = case
    log, procs = [], []

    def scenario(sim):
        multi = ConcurrentMultiLogRecordProcessor(workers) if concurrent else SynchronousMultiLogRecordProcessor()
        lp = LoggerProvider(resource=Resource({}), multi_log_record_processor=multi, shutdown_on_exit=False)
        loggers, n = {}, 0

        def expect(entries, what):
            rec.eq(sorted(log, key=repr) if concurrent else log, sorted(entries, key=repr) if concurrent else entries, what)
            log[:] = []

        for o in [("add", f) for f in initial] + steps:
            if o[0] == "add":
                procs.append(Probe(len(procs), o[1], log, sim))
                lp.add_log_record_processor(procs[-1])
                expect([], "calls caused by a registration")
            elif o[0] == "emit":
                a, v, s, at = o[1]
                key = (a, v, s, tuple((at or {}).items()))
                lg = loggers.get(key)
                if lg is None or n % 3 == 0:
                    lg = loggers[key] = lp.get_logger(a, v, s, at) if at is not None else lp.get_logger(a, v, s)
                n += 1
                lg.emit(LogRecord(observed_timestamp=1, body=n, resource=lp.resource))
                expect([("emit", p.i, n, key) for p in procs], "calls caused by emitting")
            else:
                t0 = sim.now / 1e6
                for p in procs:
                    p.budgets = []
                got = lp.force_flush(o[1])
                took = sim.now / 1e6 - t0
                flushes = [p.flush for p in procs]
                for p in procs:
                    rec.check(len(p.budgets) <= 1, "processor %d flushed %d times", p.i, len(p.budgets))
                    for t, b in p.budgets:
                        used = 0 if concurrent else t - t0
                        rec.check(b <= o[1] - used, "processor %d was given %r ms when %r of %r were left", p.i, b, o[1] - used, o[1])
                called = [l[1] for l in log]
                if got:
                    rec.eq(sorted(called) if concurrent else called, list(range(len(procs))), "processors flushed by a successful flush")
                if concurrent:
                    want = fanout.parallel(flushes, o[1], workers)
                    rec.check(took <= o[1], "concurrent flush with budget %s took %s", o[1], took)
                else:
                    w = fanout.sequential(flushes, o[1])
                    want = w and w[0]
                    rec.eq(called, list(range(len(called))), "order of flushes")
                    if w is not None:
                        rec.check(len(called) >= w[1], "only %d processors flushed, expected at least %d", len(called), w[1])
                if want is not None:
                    rec.check(bool(got) is want, "flush with %s ms of %s gave %r", o[1], flushes, got)
                    rec.label("flush-%s" % want)
                if concurrent:
                    time.sleep(10)
                log[:] = []
        lp.shutdown()
        expect([("shutdown", p.i, 0, ()) for p in procs], "calls at shutdown")
        return n
    n, sim = vsched.simulate(schedule, scenario, ticks=False, trace=concurrent)
    for name, e in sim.thread_errors:
        raise e
    rec.nontrivial(n and len(procs) >= 2)


@sub("sequential", st.tuples(st.just(1), st.lists(fanout.flush_proc, max_size=3), st.lists(step, max_size=12), st.just(("gaps", []))), quick=4000, thorough=200000)
def sequential(rec, case):
    run(rec, case, False)


@sub("concurrent", st.tuples(st.integers(1, 3), st.lists(fanout.flush_proc, max_size=3), st.lists(step, max_size=5), vsched.schedules), quick=700, thorough=30000)
def concurrent(rec, case):
    run(rec, case, True)


@sub("registration", st.tuples(st.booleans(), st.lists(st.integers(1, 2), min_size=2, max_size=3), vsched.schedules), quick=900, thorough=40000, rule="processors registered from several threads at once. non-trivial: a thread was preempted")
def registration(rec, case):
    concurrent, counts, schedule = case
    log = []

    def scenario(sim):
        lp = LoggerProvider(resource=Resource({}), multi_log_record_processor=ConcurrentMultiLogRecordProcessor() if concurrent else None, shutdown_on_exit=False)
        probes = [[Probe((i, j), (0, True), log, sim) for j in range(c)] for i, c in enumerate(counts)]
        got = []

        def adder(ps):
            for p in ps:
                lp.add_log_record_processor(p)
            got.append(lp.get_logger("x"))
        ts = [sim.thread(lambda ps=ps: adder(ps)) for ps in probes[1:]]
        adder(probes[0])
        sim.join(*ts)
        for lg in got:
            log[:] = []
            lg.emit(LogRecord(observed_timestamp=1, body=1, resource=lp.resource))
            seen = [l[1] for l in log]
            rec.eq(sorted(seen), [p.i for ps in probes for p in ps], "processors notified")
            if not concurrent:
                rec.check(all(seen.index((i, 0)) < seen.index((i, 1)) for i, j in seen if j == 1), "registration order of one thread not kept: %s", seen)
    _, sim = vsched.simulate(schedule, scenario, ticks=False)
    for name, e in sim.thread_errors:
        raise e
    rec.nontrivial(sim.preempts)


event_s = st.fixed_dictionaries({
    "name": tm.name, "attributes": weighted((1, st.none()), (3, amap)), "body": tm.body, "timestamp": weighted((1, st.none()), (2, times_ns)), "severity": weighted((1, st.none()), (2, st.sampled_from(tm.SEVERITIES))),
    "ids": weighted((1, st.none()), (1, st.tuples(trace_ids, span_ids, weighted((3, flags), (1, st.none()))))), "current": weighted((1, st.none()), (3, span_ctx)),
})


@sub("events", st.tuples(tm.resource, tm.scope, st.lists(event_s, min_size=1, max_size=3), st.booleans(), st.booleans()), quick=3000, thorough=100000,
     rule="events emitted in and outside of spans. non-trivial: an event relied on the current span or overrode it")
def events(rec, case):
    res, (name, version, schema, sattrs), evs, flush, own = case
    resource = Resource(*res)
    lp = LoggerProvider(resource=resource, shutdown_on_exit=False)
    keep = Keep(flush)
    lp.add_log_record_processor(keep)
    ep = EventLoggerProvider(lp)
    lg = ep.get_event_logger(name, version, schema, sattrs)
    for e in evs:
        ids = e["ids"] or (None, None, None)
        keep.got.clear()
        token = attach(trace.set_span_in_context(NonRecordingSpan(ctx_of(e["current"])), Context())) if e["current"] else None
        t0 = time.time_ns()
        try:
            lg.emit(Event(e["name"], timestamp=e["timestamp"], trace_id=ids[0], span_id=ids[1], trace_flags=None if ids[2] is None else TraceFlags(ids[2]), body=e["body"],
                          severity_number=None if e["severity"] is None else SeverityNumber(e["severity"]), attributes=e["attributes"]))
        finally:
            if token:
                detach(token)
        t1 = time.time_ns()
        rec.eq(len(keep.got), 1, "records for one event")
        d = keep.got[0]
        x = d.log_record
        rec.eq(dict(x.attributes), dict(BMap(None, None).fill(e["attributes"]).d, **{"event.name": e["name"]}), "attributes")
        rec.eq(x.body, e["body"], "payload")
        if e["timestamp"] is None or e["timestamp"] == 0 != x.timestamp:  # 0 stands for an unknown time
            rec.check(t0 <= x.timestamp <= t1, "timestamp %r, expected the time of the call", x.timestamp)
        else:
            rec.eq(x.timestamp, e["timestamp"], "timestamp")
        rec.check(t0 <= x.observed_timestamp <= t1, "observed timestamp %r", x.observed_timestamp)
        cur = (*e["current"][:2], TraceFlags(e["current"][2])) if e["current"] else (0, 0, TraceFlags(0))
        if e["ids"] is None:
            rec.eq((x.trace_id, x.span_id, x.trace_flags), cur, "trace identity, from the current span")
        else:
            rec.eq((x.trace_id, x.span_id), ids[:2], "trace identity given with the event")
            if ids[2] is not None:
                rec.eq(x.trace_flags, TraceFlags(ids[2]), "trace flags given with the event")
        rec.eq(x.severity_number, SeverityNumber.INFO if e["severity"] is None else SeverityNumber(e["severity"]), "severity")
        rec.check(x.resource == resource, "resource %s instead of the provider's", x.resource)
        s = d.instrumentation_scope
        rec.eq((s.name, s.version or "", s.schema_url or "", dict(s.attributes or {})), (name, version or "", schema or "", dict(sattrs)), "scope")
    rec.check(ep.force_flush(123) is flush, "flush of the event logger provider, the processor gives %s", flush)
    rec.check(len(keep.budgets) == 1 and 0 < keep.budgets[0] <= 123, "budgets given to the processor: %s", keep.budgets)
    ep.shutdown()
    rec.eq(keep.down, 1, "shutdowns")
    rec.nontrivial(any(e["current"] for e in evs))


class Exp(LogExporter):
    def __init__(self, outcomes):
        self.outcomes, self.seen, self.down = list(outcomes), [], 0

    def export(self, batch):
        self.seen.append(([d.log_record.body for d in batch], get_value(KEY), get_value("mark")))
        o = self.outcomes.pop(0) if self.outcomes else "ok"
        if o == "fail":
            return LogExportResult.FAILURE
        if o == "exc":
            raise ValueError("x")
        if o == "base":
            raise KeyboardInterrupt("x")
        return LogExportResult.SUCCESS

    def shutdown(self):
        self.down += 1


@sub("simple", st.tuples(st.lists(st.lists(pick("ok", "ok", "exc", "fail", "base"), max_size=6), min_size=1, max_size=2), st.lists(weighted((2, st.none()), (1, pick("a", "b"))), max_size=8), st.booleans(), st.lists(pick(None, "a"), max_size=2)),
     quick=3000, thorough=150000, rule="simple processors with failing exporters. non-trivial: an export failed and later ones happened")
def simple(rec, case):
    outs, ops, flush, late = case
    lp = LoggerProvider(resource=Resource({}), shutdown_on_exit=False)
    exps = [Exp(o) for o in outs]
    for e in exps:
        lp.add_log_record_processor(SimpleLogRecordProcessor(e))
    lg = lp.get_logger("t")
    want = [[] for _ in outs]
    done = [0 for _ in outs]
    for k, mark in enumerate(ops):
        token = attach(set_value("mark", mark)) if mark else None
        before = get_current()
        stop = False
        for i, o in enumerate(outs):
            if not stop:
                want[i].append(([k], True, mark))
                stop = done[i] < len(o) and o[done[i]] == "base"
                done[i] += 1
        try:
            lg.emit(LogRecord(observed_timestamp=1, body=k, resource=lp.resource))
            rec.check(not stop, "an interrupting exception was swallowed")
        except KeyboardInterrupt:
            rec.check(stop, "unexpected interruption")
        rec.check(get_current() == before, "context changed by an export: %r instead of %r", dict(get_current()), dict(before))
        if token is not None:
            detach(token)
    if flush:
        rec.check(lp.force_flush() is True, "flush of simple processors failed")
    for i, e in enumerate(exps):
        rec.eq(e.seen, want[i], "exports of exporter %d" % i)
    lp.shutdown()
    rec.eq([e.down for e in exps], [1] * len(exps), "exporter shutdowns")
    for _ in late:
        lg.emit(LogRecord(observed_timestamp=1, body=99, resource=lp.resource))
    rec.eq([len(e.seen) for e in exps], [len(w) for w in want], "exports after shutdown")
    rec.nontrivial(any(x in ("exc", "base", "fail") and n > j + 1 for o, n in zip(outs, done) for j, x in enumerate(o)))
