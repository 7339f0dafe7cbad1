"""T04: sampling laws over the id space, sampler compositions and environment settings."""
import os

from hypothesis import strategies as st

from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.sdk.trace.sampling import (
    ALWAYS_OFF, ALWAYS_ON, DEFAULT_OFF, DEFAULT_ON, Decision, ParentBased, ParentBasedTraceIdRatio, Sampler, SamplingResult, TraceIdRatioBased,
)
from opentelemetry.trace import SpanKind
from vlib.core import sub
from vlib.gen import attributes, flags, frozen_map, pick, span_ids, trace_ids, ts_entries, utext, weighted
from vlib.spans import ctx_of, link, link_of, span_ctx

RULE = "per sub-check: ratios and trace ids near and far from the bound; delegation tables; spans started through a provider; environment settings."
M64 = 2**64
DEC = [Decision.DROP, Decision.RECORD_ONLY, Decision.RECORD_AND_SAMPLE]

ratio = weighted((3, st.floats(0, 1)), (2, pick(0.0, 1.0, 0.5, 0.25, 1e-3, 1 / 3, 5e-324, 2.0**-64, 1 - 2.0**-53, 2.0**-60)), (1, st.integers(0, 1)))
# low 64 bits at a chosen fraction of the space plus a small offset
frac_id = st.tuples(st.integers(0, M64 - 1), st.one_of(st.floats(0, 1), ratio), st.integers(-3, 3)).map(lambda t: (t[0] << 64) | min(M64 - 1, max(0, int(t[1] * M64) + t[2])))
tid = weighted((2, trace_ids), (3, frac_id), (1, pick(M64 - 1, M64, M64 - 2, (7 << 64) | (M64 - 1), 5 << 64))).map(lambda t: t or 1)
# also span contexts which are not valid: no parent
env_ctx = weighted((2, st.none()), (5, span_ctx), (1, st.tuples(st.just(0), st.just(0), flags, st.just([]), st.booleans())),
                   (2, st.tuples(pick((5, 0), (0, 7), (2**128, 7), (5, 2**64), (M64, 0)), span_ctx).map(lambda t: t[0] + t[1][2:])))


def valid_parent(par):
    return par is not None and 0 < par[0] < 2**128 and 0 < par[1] < 2**64


def pctx(c):
    return Context() if c is None else trace.set_span_in_context(trace.NonRecordingSpan(ctx_of(c)), Context())


@sub("ratio", st.tuples(st.lists(ratio, min_size=1, max_size=4), st.lists(tid, min_size=1, max_size=6), env_ctx, utext, st.integers(0, 4), attributes, st.integers(0, M64 - 1)), quick=7000, thorough=400000,
     rule="non-trivial: both decisions occur")
def ratio_(rec, case):
    rates, ids, par, name, kind, attrs, high = case
    table = {}
    for r in sorted(set(map(float, rates))):
        a, b = TraceIdRatioBased(r), TraceIdRatioBased(r)
        kept = set()
        for t in ids:
            res = a.should_sample(pctx(par), t, name, list(SpanKind)[kind], attrs, None)
            other = b.should_sample(Context(), t, "x")
            again = a.should_sample(pctx(par), t, name, list(SpanKind)[kind], attrs, None)
            rec.check(res.decision is other.decision is again.decision, "ratio %r: decision for %x depends on more than the trace id", r, t)
            low = TraceIdRatioBased(r).should_sample(Context(), (t % M64) | (high << 64), "n").decision
            rec.check(low is res.decision, "ratio %r: decision depends on the high half of the trace id %x", r, t)
            rec.check(res.decision in (Decision.DROP, Decision.RECORD_AND_SAMPLE), "decision %r", res.decision)
            if res.decision is Decision.RECORD_AND_SAMPLE:
                kept.add(t)
                rec.eq(dict(res.attributes), attrs, "attributes of a sampled result")
            x = t % M64
            if r == 1:
                rec.check(t in kept, "ratio 1 drops %x", t)
            elif r == 0:
                rec.check(t not in kept, "ratio 0 keeps %x", t)
            elif abs(x / M64 - r) > 1e-9:
                rec.check((t in kept) == (x / M64 < r), "ratio %r: %x is %s", r, t, "kept" if t in kept else "dropped")
            if valid_parent(par):
                rec.check(res.trace_state is not None, "no trace state from the parent")
                rec.eq(list(res.trace_state.items()), list(map(tuple, par[3])), "trace state of the result")
            else:
                rec.check(not res.trace_state, "trace state without a parent")
        table[r] = kept
    rs = sorted(table)
    for lo, hi in zip(rs, rs[1:]):
        rec.check(table[lo] <= table[hi], "ratio %r keeps traces that %r drops: %s", lo, hi, [hex(t) for t in table[lo] - table[hi]])
    rec.nontrivial(any(0 < len(k) < len(set(ids)) for k in table.values()) or len({frozenset(k) for k in table.values()}) > 1)


@sub("bad_ratio", st.floats().filter(lambda x: not 0 <= x <= 1), quick=200, thorough=2000, rule="ratios outside [0,1] are rejected. non-trivial: all")
def bad_ratio(rec, r):
    rec.nontrivial()
    for cls in (TraceIdRatioBased, ParentBasedTraceIdRatio):
        try:
            cls(r)
        except ValueError:
            continue
        rec.fail("%s accepted ratio %r" % (cls.__name__, r))


class Stub(Sampler):
    def __init__(self, tag, log, result=None):
        self.tag, self.log, self.result = tag, log, result or SamplingResult(Decision.RECORD_ONLY, {"by": tag})

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        self.log.append((self.tag, parent_context, trace_id, name, kind, attributes, links))
        return self.result

    def get_description(self):
        return self.tag


@sub("delegation", st.tuples(env_ctx, tid, utext, st.integers(0, 4), st.one_of(st.none(), attributes), st.booleans(), st.booleans()), quick=4000, thorough=100000,
     rule="five recording delegates; parent given explicitly or as the current span. non-trivial: a valid parent")
def delegation(rec, case):
    par, t, name, kind, attrs, nested, implicit = case
    log = []
    tags = ["root", "remote_parent_sampled", "remote_parent_not_sampled", "local_parent_sampled", "local_parent_not_sampled"]
    stubs = {k: Stub(k, log) for k in tags}
    s = ParentBased(**stubs)
    if nested:
        s = ParentBased(s, s, s, s, s)
    ctx = pctx(par)
    links = [link_of(((1, 2, 0, [], False), None))]
    if implicit:
        from opentelemetry.context import attach, detach
        tok = attach(ctx)
        try:
            res = s.should_sample(None, t, name, list(SpanKind)[kind], attrs, links)
        finally:
            detach(tok)
    else:
        res = s.should_sample(ctx, t, name, list(SpanKind)[kind], attrs, links)
    valid = valid_parent(par)
    want = "root" if not valid else "%s_parent_%s" % ("remote" if par[4] else "local", "sampled" if par[2] & 1 else "not_sampled")
    rec.eq([e[0] for e in log], [want], "delegate called")
    rec.check(log[0][1] is (None if implicit else ctx), "context not passed on")
    rec.eq(log[0][2:4], (t, name), "trace id, name")
    rec.check(log[0][4] is list(SpanKind)[kind] and log[0][5] is attrs and log[0][6] is links, "kind, attributes or links not passed on")
    rec.check(res is stubs[want].result, "result is not the delegate's")
    # defaults and ready-made compositions
    root_on, root_off = DEFAULT_ON.should_sample(ctx, t, name).decision, DEFAULT_OFF.should_sample(ctx, t, name).decision
    if valid:
        d = Decision.RECORD_AND_SAMPLE if par[2] & 1 else Decision.DROP
        rec.check(root_on is d and root_off is d, "parent-based default ignores its parent: %r %r", root_on, root_off)
        for r in (0.0, 0.5, 1.0):
            rec.check(ParentBasedTraceIdRatio(r).should_sample(ctx, t, name).decision is d, "ratio %r ignores its parent", r)
    else:
        rec.check(root_on is Decision.RECORD_AND_SAMPLE and root_off is Decision.DROP, "root decision of the defaults")
        for r in (0.0, 0.5, 1.0):
            rec.check(ParentBasedTraceIdRatio(r).should_sample(ctx, t, name).decision is TraceIdRatioBased(r).should_sample(ctx, t, name).decision, "root ratio %r", r)
    rec.check(ALWAYS_ON.should_sample(ctx, t, name).decision is Decision.RECORD_AND_SAMPLE, "ALWAYS_ON")
    rec.check(ALWAYS_OFF.should_sample(ctx, t, name).decision is Decision.DROP, "ALWAYS_OFF")
    rec.nontrivial(valid)
    rec.label(want)


class Probe(SpanProcessor):
    def __init__(self):
        self.log = []

    def on_start(self, span, parent_context=None):
        self.log.append(("start", span))

    def on_end(self, span):
        self.log.append(("end", span))


class Ids(IdGenerator):
    def __init__(self, ids):
        self.ids, self.n = list(ids), 0

    def generate_trace_id(self):
        return self.ids.pop(0) if self.ids else 77

    def generate_span_id(self):
        self.n += 1
        return self.n


sampler_spec = st.recursive(
    st.one_of(
        st.tuples(st.just("stub"), st.integers(0, 2), st.one_of(st.none(), attributes), st.one_of(st.none(), ts_entries)),
        st.tuples(pick("on", "off")), st.tuples(st.just("ratio"), ratio)),
    lambda s: st.tuples(st.just("parent"), s, s, s, s, s), max_leaves=6)


def build(spec):
    if spec[0] == "stub":
        return Stub("s", [], SamplingResult(DEC[spec[1]], None if spec[2] is None else dict(spec[2]), None if spec[3] is None else trace.TraceState(spec[3])))
    if spec[0] == "on":
        return ALWAYS_ON
    if spec[0] == "off":
        return ALWAYS_OFF
    if spec[0] == "ratio":
        return TraceIdRatioBased(spec[1])
    return ParentBased(*map(build, spec[1:]))


def expect(spec, par, t, attrs):
    """-> (decision index, attributes or None=don't care, trace state entries)"""
    valid = valid_parent(par)
    pts = list(map(tuple, par[3])) if valid else []
    if spec[0] == "stub":
        return spec[1], spec[2] or {}, list(map(tuple, spec[3] or []))
    if spec[0] in ("on", "off"):
        return (2 if spec[0] == "on" else 0), attrs or {}, pts
    if spec[0] == "ratio":
        d = TraceIdRatioBased(spec[1]).should_sample(Context(), t, "n").decision   # its own laws are checked above
        return DEC.index(d), attrs or {}, pts
    if not valid:
        i = 1
    elif par[4]:
        i = 2 if par[2] & 1 else 3
    else:
        i = 4 if par[2] & 1 else 5
    return expect(spec[i], par, t, attrs)


@sub("spans", st.tuples(sampler_spec, env_ctx, tid, st.one_of(st.none(), attributes), st.booleans(), attributes), quick=7000, thorough=300000,
     rule="spans started through a provider with a generated sampler composition. non-trivial: the sampler is not simply always-on")
def spans(rec, case):
    spec, par, t, attrs, as_current, more = case
    exp, probe = InMemorySpanExporter(), Probe()
    tp = TracerProvider(sampler=build(spec), resource=Resource({}), shutdown_on_exit=False, id_generator=Ids([t]))
    tp.add_span_processor(probe)
    tp.add_span_processor(SimpleSpanProcessor(exp))
    tr = tp.get_tracer("t")
    ctx = pctx(par)
    if as_current:
        with tr.start_as_current_span("s", context=ctx, attributes=attrs, end_on_exit=False) as s:
            rec.check(trace.get_current_span() is s, "span not current (decision must not matter)")
    else:
        s = tr.start_span("s", context=ctx, attributes=attrs)
    valid = valid_parent(par)
    d, want_attrs, want_ts = expect(spec, par, par[0] if valid else t, attrs)
    sc = s.get_span_context()
    rec.eq(sc.trace_id, par[0] if valid else t, "trace id")
    rec.check(sc.is_valid and sc.span_id != (par[1] if valid and par[1] != 1 else 0), "span id %r", sc.span_id)
    rec.eq(int(sc.trace_flags), 1 if d == 2 else 0, "trace flags of decision %d" % d)
    rec.eq([tuple(x) for x in sc.trace_state.items()], want_ts, "trace state")
    rec.check(s.is_recording() == (d != 0), "is_recording %r for decision %d", s.is_recording(), d)
    s.set_attributes(more)
    s.add_event("e")
    s.update_name("n2")
    s.set_status(trace.StatusCode.OK)
    s.record_exception(ValueError("x"))
    s.end()
    if d == 0:
        rec.eq(probe.log, [], "a dropped span reached a processor")
    else:
        rec.eq([k for k, _ in probe.log], ["start", "end"], "processor calls")
        out = probe.log[1][1]
        rec.eq({k: v for k, v in out.attributes.items()}, {**frozen_map(want_attrs), **frozen_map(more)}, "attributes of the span")
        rec.eq(out.name, "n2", "name")
    rec.eq(len(exp.get_finished_spans()), 1 if d == 2 else 0, "spans exported by a simple processor for decision %d" % d)
    if spec[0] == "stub" and spec[2] is not None:
        rec.eq(dict(tp.sampler.result.attributes), dict(spec[2]), "the sampler's own attributes after recording")
    rec.nontrivial(spec[0] != "on")
    rec.label("decision-%d" % d)


ENVS = ["always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio"]
arg = weighted((3, ratio.map(repr)), (2, pick("", "abc", "0.25", "1.5", "-1", "nan", "inf", " 0.5 ", "1e-3", "0", "1")))


@sub("environment", st.tuples(weighted((6, pick(*ENVS)), (1, pick("nope", "always-on", "ratio")), (1, st.none())), st.integers(0, 2), st.one_of(st.none(), arg), env_ctx, st.lists(tid, min_size=1, max_size=4)),
     quick=4000, thorough=100000, rule="sampler from the environment equals the one built by hand. non-trivial: the variable is set")
def environment(rec, case):
    name, case_mode, a, par, ids = case
    env = {}
    if name is not None:
        env["OTEL_TRACES_SAMPLER"] = [str, str.upper, str.title][case_mode](name)
    if a is not None:
        env["OTEL_TRACES_SAMPLER_ARG"] = a
    os.environ.update(env)
    try:
        tp = TracerProvider(resource=Resource({}), shutdown_on_exit=False)
    finally:
        for k in env:
            os.environ.pop(k)
    try:
        r = float(a)
        if not 0 <= r <= 1:
            r = 1.0
    except (TypeError, ValueError):
        r = 1.0
    key = name if name in ENVS else "parentbased_always_on"
    want = {"always_on": ALWAYS_ON, "always_off": ALWAYS_OFF, "parentbased_always_on": DEFAULT_ON, "parentbased_always_off": DEFAULT_OFF,
            "traceidratio": TraceIdRatioBased(r), "parentbased_traceidratio": ParentBased(TraceIdRatioBased(r))}[key]
    for t in ids:
        got = tp.sampler.should_sample(pctx(par), t, "n").decision
        rec.check(got is want.should_sample(pctx(par), t, "n").decision, "sampler from %r: %r for %x", env, got, t)
    rec.nontrivial(name is not None)
    rec.label(key)
