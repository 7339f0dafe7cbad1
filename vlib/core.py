"""Core of the property checks: sub-check registry, recorder, case runner."""
import ast
import collections
import contextvars
import hashlib
import json
import os
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

monotonic = _time.monotonic
real_sleep = _time.sleep


class Violation(Exception):
    """The property is broken on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The machinery itself went wrong (never reported as a violation)."""


class Sub:
    def __init__(self, name, body, strategy, quick, thorough, examples, cases, rule):
        self.name = name
        self.body = body
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.examples = examples
        self.cases = cases
        self.rule = rule


SUBS = []


def sub(name, strategy=None, quick=1000, thorough=None, examples=(), cases=None, rule=""):
    """Register a sub-check: body(rec, case).  `strategy` is a hypothesis
    strategy of plain-data cases; `cases` a function tier -> iterable that
    enumerates them instead."""

    def deco(body):
        SUBS.append(
            Sub(name, body, strategy, quick, thorough or quick * 20, list(examples), cases, rule)
        )
        return body

    return deco


_KNOWN = None


def known_keys(prop):
    global _KNOWN
    if _KNOWN is None:
        path = os.path.join(VERIF, "known_findings.json")
        with open(path) as f:
            _KNOWN = json.load(f)
    return {f["key"]: f["what"] for f in _KNOWN.get("findings", ()) if f["property"] == prop}


class Rec:
    """Per-case recorder."""

    def __init__(self, prop, replay=False):
        self.prop = prop
        self.labels = []
        self.is_nontrivial = False
        self.known = []
        self.replay = replay

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(names)

    def fail(self, msg, key=None):
        if key is not None and key in known_keys(self.prop):
            self.known.append(key)
            return
        raise Violation(msg, key)

    def check(self, cond, msg, *args, key=None):
        if not cond:
            self.fail(msg % args if args else msg, key)

    def eq(self, got, want, what, key=None):
        if not same(got, want):
            self.fail("%s: got %s, expected %s" % (what, short(got), short(want)), key)


def same(a, b):
    """Equality that also distinguishes int/float/bool and knows NaN."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return type(a) is type(b) and a == b
    return a == b


def short(v, n=600):
    r = repr(v)
    return r if len(r) <= n else r[: n - 20] + "...<%d chars>" % len(r)


# --- plain data <-> text ----------------------------------------------------
class _Eval(ast.NodeVisitor):
    pass


def parse_case(text):
    """Evaluate the repr of a plain-data case (literals, inf, nan, set())."""

    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Tuple):
            return tuple(map(ev, n.elts))
        if isinstance(n, ast.List):
            return list(map(ev, n.elts))
        if isinstance(n, ast.Set):
            return set(map(ev, n.elts))
        if isinstance(n, ast.Dict):
            return {ev(k): ev(v) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.Name) and n.id in ("inf", "nan"):
            return float(n.id)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.UAdd):
            return ev(n.operand)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return ev(n.left) + ev(n.right)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = {"set": set, "frozenset": frozenset, "bytearray": bytearray, "float": float}[n.func.id]
            return f(*map(ev, n.args))
        raise ValueError("not plain data: " + ast.dump(n)[:200])

    return ev(ast.parse(text, mode="eval"))


# --- failure classification -------------------------------------------------
def classify(exc):
    """'violation' or 'harness', and a message."""
    if isinstance(exc, Violation):
        return "violation", str(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    last_repo = max((i for i, f in enumerate(frames) if f.filename.startswith(REPO + "/")), default=-1)
    last_verif = max((i for i, f in enumerate(frames) if f.filename.startswith(VERIF + "/") and "/.deps/" not in f.filename), default=-1)
    where = ""
    if last_repo >= 0:
        f = frames[last_repo]
        where = " at %s:%s in %s" % (os.path.relpath(f.filename, REPO), f.lineno, f.name)
    msg = "%s: %s" % (type(exc).__name__, short(str(exc), 500))
    if isinstance(exc, (HarnessError, MemoryError, ImportError, KeyboardInterrupt)):
        return "harness", msg + "\n" + "".join(traceback.format_exception(exc))
    if last_repo > last_verif:
        return "violation", "the code under test raised " + msg + where
    if isinstance(exc, OSError):
        return "harness", msg + "\n" + "".join(traceback.format_exception(exc))
    # the oracle could not digest what the product returned (wrong shape)
    f = frames[-1]
    return "violation", "result of unexpected shape: %s (oracle %s:%s)" % (
        msg, os.path.basename(f.filename), f.lineno)


class ShardState:
    def __init__(self, prop):
        self.prop = prop
        self.evals = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.known = collections.Counter()
        self.per_sub = {}
        self.failure = None       # dict
        self.current = None       # (sub, case, t0)
        self.budget_hit = False


def run_case(state, s, case, replay=False):
    """Run one case; raises on failure. Returns Rec."""
    rec = Rec(state.prop, replay)
    state.current = (s.name, case, monotonic())
    try:
        contextvars.Context().run(s.body, rec, case)
    finally:
        state.current = None
    for k in rec.known:
        state.known[k] += 1
    return rec


def account(state, s, case, rec):
    state.evals += 1
    ps = state.per_sub.setdefault(s.name, [0, 0])
    ps[0] += 1
    for l in rec.labels:
        state.labels[s.name + ":" + l] += 1
    if rec.is_nontrivial:
        text = repr(case)
        h = hashlib.blake2b((s.name + "|" + text).encode("utf8", "surrogatepass"), digest_size=8).digest()
        if h not in state.hashes:
            state.hashes.add(h)
            ps[1] += 1
            n = ps[1]
            if n in (1, 20, 200) and len(text) < 4000:
                state.samples.append((s.name, text[:1500]))


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=6).digest(), "big")
