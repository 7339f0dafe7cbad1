"""R01: resources merge predictably and detection never breaks start-up."""
from vlib import vsched
vsched.install()

import os  # noqa: E402
import time  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from opentelemetry.sdk.resources import OsResourceDetector, OTELResourceDetector, ProcessResourceDetector, Resource, ResourceDetector, get_aggregated_resources  # noqa: E402
from vlib import plugins  # noqa: E402
from vlib.bounded import BMap  # noqa: E402
from vlib.core import sub  # noqa: E402
from vlib.gen import attr_value, pick, scalar, utext, weighted  # noqa: E402

RULE = ("resources with shared keys, typed look-alike values and schema URLs merged and compared; environments, registered detectors (good, failing, slow) and explicit attributes against a model of precedence. "
        "non-trivial: operands share a key, or at least two sources set the same key or one failed.")
ASSUMPTIONS = ["associativity is stated for operands whose schema URLs do not conflict; in a conflict the first operand is returned, as documented", "detectors return resources or raise Exceptions"]

key = pick("a", "b", "c", "service.name", "é")
alike = pick(1, True, 1.0, 0, False, 0.0, "1", "", (1,), [1], (True,), ("1",), 2**60)
value = weighted((3, alike), (2, attr_value))
resource = st.tuples(st.dictionaries(key, value, max_size=4), pick("", "", "http://s/1", "http://s/2"))


def typed(v):
    return (type(v).__name__, v) if not isinstance(v, (list, tuple)) else ("seq", tuple(typed(x) for x in v))


def view(r):
    return {k: typed(v) for k, v in r.attributes.items()}, r.schema_url


def expect(a, b):
    """Merge of two (attributes, schema) pairs, or None on a conflict."""
    if a[1] and b[1] and a[1] != b[1]:
        return None
    return {**a[0], **b[0]}, a[1] or b[1]


@sub("merge", st.tuples(resource, resource, resource), quick=6000, thorough=200000)
def merge(rec, case):
    rs = [Resource(*x) for x in case]
    before = [view(r) for r in rs]
    a, b, c = rs
    want = expect(case[0], case[1])
    m = a.merge(b)
    if want is None:
        rec.eq(view(m), before[0], "merge of conflicting schemas is the first operand")
    else:
        rec.eq(view(m), view(Resource(*want)), "merge of %s and %s" % (a.attributes, b.attributes))
        rec.eq(m.schema_url, want[1], "schema of the merge")
        rec.check(m == Resource(*want), "the merge is not equal to the resource with the same content")
    full = want and expect(want, case[2])
    right = expect(case[1], case[2])
    if full and right:
        rec.eq(view(m.merge(c)), view(a.merge(b.merge(c))), "associativity")
    for r in rs:
        rec.eq(view(r.merge(Resource.get_empty())), view(r), "empty resource on the right")
        rec.eq(view(Resource.get_empty().merge(r)), view(r), "empty resource on the left")
        rec.eq(view(r.merge(r)), view(r), "merge with itself")
    rec.eq([view(r) for r in rs], before, "operands after merging")
    rec.check(dict(Resource.get_empty().attributes) == {} and Resource.get_empty().schema_url == "", "the empty resource was changed")
    for x in (m, a):
        try:
            x.attributes["late"] = 1
        except Exception:
            continue
        rec.fail("attributes of a resource can be changed")
    rec.nontrivial(set(case[0][0]) & set(case[1][0]) and want is not None)


@sub("equality", st.tuples(resource, resource, st.booleans(), st.randoms(use_true_random=False).map(lambda r: r.randint(0, 10**6))), quick=6000, thorough=200000,
     rule="equal resources are interchangeable. non-trivial: same keys and loosely equal values")
def equality(rec, case):
    x, y, copy, seed = case
    if copy:
        items = list(x[0].items())
        seed and items.reverse()
        y = ({k: (list(v) if isinstance(v, tuple) and seed % 2 else v) for k, v in items}, x[1])
    elif seed % 2:
        y = ({k: v for (k, _), v in zip(x[0].items(), list(y[0].values()) + [1, True, 1.0, "1"])}, x[1])
    a, b = Resource(*x), Resource(*y)
    rec.check(a == a and a == Resource(*x) and hash(a) == hash(Resource(*x)), "a resource is not equal to one made the same way")
    if copy:
        rec.check(a == b and not a != b, "resources with the same content are not equal")
    rec.check((a == b) == (b == a) and (a == b) != (a != b), "equality is not symmetric")
    if a == b:
        rec.check(hash(a) == hash(b), "equal resources %s and %s have different hashes", dict(a.attributes), dict(b.attributes))
        rec.check(len({a, b}) == 1 and {a: 1}.get(b) == 1, "equal resources are different keys")
        rec.eq(view(a)[1], view(b)[1], "schemas of equal resources")
        rec.check(view(a) == view(b), "resources %s and %s are equal although the types of their values differ", dict(a.attributes), dict(b.attributes))
    else:
        rec.check(view(a) != view(b), "resources with the same content are not equal")
    rec.check((a == object()) is False and (a == None) is False, "equal to something else")  # noqa: E711
    rec.nontrivial(set(x[0]) == set(y[0]) and x[0])


# ------------------------------------------------------------------ environment
pct = weighted((4, st.text("abcXYZ019._- ", min_size=0, max_size=6)), (2, pick("%20", "a%2Cb", "%3D", "a=b", "%E2%82%AC", "%zz", "%", "x%41", "é", "100%", "%C3", "+", "a b")), (1, utext.map(lambda s: s.replace(",", "").replace("\0", ""))))
env_key = weighted((5, pick("a", "b", "c", "service.name", " b ", "k.x")), (1, pick("", " ", "é")))
item = weighted((6, st.tuples(env_key, pct).map(lambda t: t[0] + "=" + t[1])), (1, pick("", "novalue", "=", "==", " ", "a", "b=")))
env_list = st.lists(item, max_size=5).map(",".join)


def unquote(s):
    out, raw, i = [], b"", 0
    hexd = "0123456789abcdefABCDEF"
    while i < len(s):
        if s[i] == "%" and len(s) > i + 2 and s[i + 1] in hexd and s[i + 2] in hexd:
            raw += bytes([int(s[i + 1:i + 3], 16)])
            i += 3
            continue
        if raw:
            out.append(raw.decode("utf-8", "replace"))
            raw = b""
        out.append(s[i])
        i += 1
    if raw:
        out.append(raw.decode("utf-8", "replace"))
    return "".join(out)


def env_model(text, service):
    d = {}
    for it in (text or "").split(","):
        k, eq, v = it.partition("=")
        if eq and k.strip():
            d[k.strip()] = unquote(v.strip())
    if service:
        d["service.name"] = service
    return d


class Env:
    def __init__(self, **kw):
        self.kw = {k: v for k, v in kw.items() if v is not None}

    def __enter__(self):
        for k in ("OTEL_RESOURCE_ATTRIBUTES", "OTEL_SERVICE_NAME", "OTEL_EXPERIMENTAL_RESOURCE_DETECTORS"):
            os.environ.pop(k, None)
        os.environ.update(self.kw)

    def __exit__(self, *a):
        for k in self.kw:
            os.environ.pop(k, None)


def encodable(s):
    return s is None or "\0" not in s


@sub("environment", st.tuples(weighted((1, st.none()), (6, env_list)), weighted((2, st.none()), (1, st.just("")), (2, utext))), quick=5000, thorough=200000, rule="the environment list decoded pair by pair. non-trivial: two pairs are well-formed, or one is not")
def environment(rec, case):
    text, service = case
    if not (encodable(text) and encodable(service)):
        return
    with Env(OTEL_RESOURCE_ATTRIBUTES=text, OTEL_SERVICE_NAME=service):
        r = OTELResourceDetector().detect()
    rec.eq(dict(r.attributes), env_model(text, service), "resource from %r and %r" % (text, service))
    rec.eq(r.schema_url, "", "schema")
    rec.nontrivial(text and ("," in text or "=" not in text))


class Det(ResourceDetector):
    def __init__(self, what, raise_on_error=False, schema=None):
        super().__init__(raise_on_error)
        self.what = what
        self.schema = schema

    def detect(self):
        kind, res, secs = self.what
        if secs:
            time.sleep(secs)
        if kind == "fail":
            raise ValueError("no")
        if kind == "os":
            raise OSError("no")
        if kind == "timeout":
            raise TimeoutError("no")
        return Resource(res, self.schema)


det_attrs = st.dictionaries(pick("a", "b", "c", "service.name", "process.executable.name"), pick(1, "x", "y", True, ""), max_size=3).map(
    lambda d: {k: "exe%s" % v if k == "process.executable.name" and not isinstance(v, str) else v for k, v in d.items()})  # a string by its definition
det = st.tuples(pick("ok", "ok", "ok", "fail", "os", "timeout"), det_attrs, st.just(0))
created = st.fixed_dictionaries({
    "text": weighted((1, st.none()), (3, env_list)), "service": weighted((3, st.none()), (1, pick("", "svc"))),
    "detectors": st.lists(weighted((4, st.tuples(pick("vdet0", "vdet1", "vdet2", "vdet3"), det)), (1, st.tuples(pick("missing", "vbroken"), det))), max_size=4, unique_by=lambda t: t[0]),
    "pad": st.booleans(), "otel": weighted((2, st.none()), (2, st.just(9)), (2, st.integers(0, 3))), "again": st.booleans(), "attributes": weighted((1, st.none()), (4, st.dictionaries(key, scalar, max_size=3))), "schema": pick(None, "", "http://s/1"),
    "det_schemas": weighted((3, st.just([None])), (2, st.lists(pick(None, "http://s/1", "http://s/2"), min_size=1, max_size=3))),
})


@sub("create", created, quick=1500, thorough=15000, rule="Resource.create with registered detectors, environment and explicit attributes. non-trivial: two sources set the same key, or a detector failed")
def create(rec, case):
    if not (encodable(case["text"]) and encodable(case["service"])):
        return
    names = [n for n, _ in case["detectors"]]
    schema_of = {n: case["det_schemas"][i % len(case["det_schemas"])] for i, (n, _) in enumerate(case["detectors"])}
    for n, d in case["detectors"]:
        if n.startswith("vdet"):
            plugins.SLOTS[n] = (lambda d=d, n=n: Det(d, schema=schema_of[n]))
    at = len(names)
    if case["otel"] is not None:
        at = min(case["otel"], len(names))
        names.insert(at, "otel")
    if case["again"]:
        names += names[:2]
    sep = " , " if case["pad"] else ","
    explicit = dict(case["attributes"] or {})
    try:
        with Env(OTEL_RESOURCE_ATTRIBUTES=case["text"], OTEL_SERVICE_NAME=case["service"], OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=sep.join(names) if names or case["pad"] else None):
            r = Resource.create(None if case["attributes"] is None else explicit, case["schema"])
    except Exception as e:
        rec.fail("creating a resource with detectors %s raised %r" % (case["detectors"], e))
    finally:
        for n in names:
            plugins.SLOTS.pop(n, None)
    rec.eq(explicit, case["attributes"] or {}, "the caller's attributes")
    want = {"telemetry.sdk.language": "python", "telemetry.sdk.name": "opentelemetry"}
    seen = set(want)
    clash = False
    schema = ""
    # detectors in the order they are first listed, the environment last unless listed, then the arguments; conflicting schemas leave the earlier ones
    sources = [(d[1] if n.startswith("vdet") and d[0] == "ok" else {}, (schema_of[n] if n.startswith("vdet") and d[0] == "ok" else "") or "") for n, d in case["detectors"]]
    sources.insert(at, (env_model(case["text"], case["service"]), ""))
    for src, url in sources + [(BMap(None, None).fill(case["attributes"]).d, case["schema"] or "")]:
        if schema and url and schema != url:
            clash = True
            continue
        schema = schema or url
        clash = clash or bool(set(src) & seen)
        seen |= set(src)
        want.update(src)
    if not want.get("service.name"):
        exe = want.get("process.executable.name")
        want["service.name"] = "unknown_service" + (":%s" % exe if exe else "")
    got = dict(r.attributes)
    version = got.pop("telemetry.sdk.version", None)
    want.pop("telemetry.sdk.version", None)
    rec.check(isinstance(version, str) and version, "SDK version %r", version)
    rec.eq({k: typed(v) for k, v in got.items()}, {k: typed(v) for k, v in want.items()}, "created resource")
    rec.eq(r.schema_url, schema, "schema")
    rec.nontrivial(clash or any(d[0] != "ok" or not n.startswith("vdet") for n, d in case["detectors"]))


host_s = st.fixed_dictionaries({
    "argv": st.lists(weighted((2, pick("prog", "-c", "", "/usr/bin/prog", "a b")), (1, utext)), max_size=4), "exe": pick("/usr/bin/python3", "/opt/a b/python", "python", "", "/x/", "C:\\py.exe"),
    "system": pick("Linux", "Darwin", "Windows", "SunOS", "FreeBSD", ""), "release": utext, "version": utext, "host": utext, "machine": pick("x86_64", "arm64", ""),
    "names": st.permutations(["process", "os", "host"]).flatmap(lambda p: st.integers(0, 3).map(lambda n: p[:n])), "service": weighted((2, st.none()), (1, st.just("svc"))),
})


@sub("machine", host_s, quick=600, thorough=10000, rule="the detectors of process, operating system and host against what the interpreter says of them, alone and by the environment. non-trivial: several detectors, or a system other than Linux")
def machine(rec, case):
    import platform
    import socket
    import sys
    from unittest import mock

    system, release, version = case["system"].lower(), case["release"], case["version"]
    want = {
        "process": None if not case["argv"] else {
            "process.runtime.description": sys.version, "process.runtime.name": sys.implementation.name, "process.runtime.version": "%d.%d.%d" % sys.version_info[:3], "process.pid": os.getpid(),
            "process.executable.name": case["exe"], "process.executable.path": os.path.dirname(case["exe"]), "process.command": case["argv"][0], "process.command_line": " ".join(case["argv"]),
            "process.command_args": tuple(case["argv"]), "process.parent_pid": os.getppid()},
        "os": {"os.type": "solaris" if system == "sunos" else system, "os.version": version if system in ("windows", "sunos") else release},
        "host": {"host.name": case["host"], "host.arch": case["machine"]},
    }
    with mock.patch.object(sys, "argv", list(case["argv"])), mock.patch.object(sys, "executable", case["exe"]), mock.patch.object(platform, "system", lambda: case["system"]), \
            mock.patch.object(platform, "release", lambda: release), mock.patch.object(platform, "version", lambda: version), mock.patch.object(platform, "machine", lambda: case["machine"]), \
            mock.patch.object(socket, "gethostname", lambda: case["host"]), Env(OTEL_RESOURCE_ATTRIBUTES=None, OTEL_SERVICE_NAME=case["service"], OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=",".join(case["names"])):
        singly = {}
        for n, d in (("process", ProcessResourceDetector()), ("os", OsResourceDetector())):
            if want[n] is not None:
                singly[n] = dict(d.detect().attributes)
        try:
            r = Resource.create()
        except Exception as e:
            rec.fail("creating a resource with the detectors %s raised %r" % (case["names"], e))
    all_want = {}
    for n in case["names"]:
        all_want.update(want[n] or {})
    all_want["service.name"] = case["service"] or "unknown_service" + (":" + all_want["process.executable.name"] if all_want.get("process.executable.name") else "")
    got = {k: v for k, v in r.attributes.items() if not k.startswith("telemetry.sdk.")}
    got.pop("process.owner", None)
    rec.eq({k: typed(v) for k, v in got.items()}, {k: typed(v) for k, v in all_want.items()}, "created resource")
    for n, attrs in singly.items():
        attrs.pop("process.owner", None)
        rec.eq({k: typed(v) for k, v in attrs.items()}, {k: typed(v) for k, v in want[n].items()}, "detected " + n)
    rec.nontrivial(len(case["names"]) > 1 or case["system"] != "Linux")


slow = st.tuples(pick("ok", "ok", "ok", "fail", "os", "timeout"), det_attrs, pick(0, 0, 0, 0, 1, 4, 7, 30, 100000))


@sub("aggregate", st.tuples(st.lists(slow, max_size=6), weighted((1, st.none()), (3, det_attrs)), pick(5, 5, 2, 10), st.booleans(), vsched.schedules), quick=900, thorough=30000,
     rule="detectors run in parallel under a deterministic scheduler, some slow. non-trivial: one is slow or fails and another succeeds")
def aggregate(rec, case):
    detectors, initial, timeout, strict, schedule = case
    ds = [Det(d, raise_on_error=strict and i == len(detectors) - 1) for i, d in enumerate(detectors)]

    def scenario(sim):
        t0 = sim.now
        base = Resource(initial) if initial is not None else Resource({})
        try:
            r = get_aggregated_resources(ds, base, timeout)
        except Exception as e:
            r = e
        took = (sim.now - t0) / 1e9
        return base, r, took
    with Env():
        (base, r, took), sim = vsched.simulate(schedule, scenario, ticks=False, trace=len(detectors) < 4)
    rec.check(took <= timeout * max(1, len(ds)) + 0.01, "detection took %s s with a limit of %s s for each of %d detectors", took, timeout, len(ds))
    last_bad = ds and strict and (detectors[-1][0] != "ok" or detectors[-1][2] > timeout)
    if isinstance(r, Exception):
        rec.check(last_bad or strict and any(d[2] >= 1 for d in detectors), "detection failed with %r", r)
        return
    rec.check(not (last_bad and detectors[-1][0] != "ok" and detectors[-1][2] == 0), "a failing strict detector was ignored")
    # whatever surely finished is there; whatever surely timed out is not; later detectors win
    quick_ = all(d[2] == 0 for d in detectors)
    want = dict(initial or {})
    for k, res, secs in detectors:
        if k == "ok" and secs < timeout:
            want.update(res)
    few = len([d for d in detectors if d[2]]) < 4
    if quick_ or few and all(d[2] < timeout or d[2] >= 100000 for d in detectors):
        rec.eq(view(r), view(Resource(want)), "aggregate of %s over %s" % (detectors, initial))
    else:
        allowed = [initial or {}] + [d[1] for d in detectors if d[0] == "ok"]
        for k, v in r.attributes.items():
            rec.check(any(k in a and typed(a[k]) == typed(v) for a in allowed), "%s=%r comes from nowhere", k, v)
    rec.eq(view(base), view(Resource(initial or {})), "the initial resource")
    rec.nontrivial(len(detectors) > 1 and any(d[0] == "ok" for d in detectors) and any(d[0] != "ok" or d[2] for d in detectors))
