"""automut.py: generate small mutations of the anchored sources and see which the checks miss.

    automut.py list [FILE-SUBSTRING]            count mutants per file
    automut.py run N SEED OUT [FILE-SUBSTRING]  sample N mutants per file; append results to OUT (JSON lines)

Works on private copies of /repo mounted over /repo in a user namespace; /repo itself is never touched."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed

API, SDK, EXP, PROP, SHIM = ("opentelemetry-api/src/opentelemetry/", "opentelemetry-sdk/src/opentelemetry/sdk/", "exporter/opentelemetry-exporter-",
                             "propagator/opentelemetry-propagator-", "shim/opentelemetry-")
MI = SDK + "metrics/_internal/"
OT = EXP + "otlp-proto-"
FILES = {
    API + "context/__init__.py": "C01 T05", API + "context/contextvars_context.py": "C01", API + "context/context.py": "C01",
    API + "trace/span.py": "C02 T03 R04 T01", API + "trace/__init__.py": "T05 R03 R04 T03", API + "trace/propagation/__init__.py": "T03 R04",
    API + "trace/status.py": "T01", API + "trace/propagation/tracecontext.py": "C03",
    API + "baggage/__init__.py": "C04", API + "baggage/propagation/__init__.py": "C04", API + "propagate/__init__.py": "C07", API + "propagators/composite.py": "C07",
    API + "propagators/textmap.py": "C03 C05 C07", API + "attributes/__init__.py": "T09 T02", API + "util/re.py": "C08", API + "util/_once.py": "R03",
    API + "util/_decorator.py": "T05", API + "util/_providers.py": "R02 R03", API + "util/_importlib_metadata.py": "R02",
    API + "metrics/_internal/__init__.py": "R03 R04", API + "metrics/_internal/instrument.py": "R03 R04 M09", API + "_logs/_internal/__init__.py": "R03 R04", API + "_events/__init__.py": "R03 R04 L01",
    SDK + "trace/__init__.py": "T01 T02 T03 T08 T07 T05 T04 T10", SDK + "trace/export/__init__.py": "T06 T07 R02 T10", SDK + "trace/sampling.py": "T04", SDK + "trace/id_generator.py": "T03",
    SDK + "trace/export/in_memory_span_exporter.py": "T06 T07",
    SDK + "util/__init__.py": "T02", SDK + "util/instrumentation.py": "T10 M09 E01", SDK + "resources/__init__.py": "R01", SDK + "error_handler/__init__.py": "R05",
    SDK + "_configuration/__init__.py": "R02", SDK + "_logs/_internal/__init__.py": "L01 L02 T10", SDK + "_logs/_internal/export/__init__.py": "L03 L01", SDK + "_events/__init__.py": "L01",
    MI + "__init__.py": "M09 M12 M06", MI + "aggregation.py": "M01 M02 M03 M04 M07 M08", MI + "_view_instrument_match.py": "M05 M01 M07 M08 M11", MI + "measurement_consumer.py": "M01 M06 M11 M12 M10",
    MI + "metric_reader_storage.py": "M05 M01 M09 M11", MI + "instrument.py": "M06 M09", MI + "view.py": "M05", MI + "export/__init__.py": "M10 M12 M01 R02", MI + "point.py": "T10",
    MI + "exemplar/exemplar_reservoir.py": "M07", MI + "exemplar/exemplar_filter.py": "M07", MI + "exemplar/exemplar.py": "M07",
    MI + "exponential_histogram/buckets.py": "M03", MI + "exponential_histogram/mapping/exponent_mapping.py": "M03", MI + "exponential_histogram/mapping/logarithm_mapping.py": "M03", MI + "exponential_histogram/mapping/ieee_754.py": "M03",
    OT + "common/src/opentelemetry/exporter/otlp/proto/common/_internal/__init__.py": "E01 E02 E03",
    OT + "common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py": "E01",
    OT + "common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py": "E02 E04",
    OT + "common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py": "E03",
    OT + "http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py": "E04", OT + "http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py": "E04 E06",
    OT + "http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py": "E04",
    OT + "grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py": "E05", OT + "grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py": "E05",
    OT + "grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py": "E05 E06", OT + "grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py": "E05",
    EXP + "prometheus/src/opentelemetry/exporter/prometheus/__init__.py": "E07", EXP + "prometheus/src/opentelemetry/exporter/prometheus/_mapping.py": "E07",
    EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py": "E08", EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py": "E08",
    EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py": "E08", EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/json/v2/__init__.py": "E08", EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/node_endpoint.py": "E08",
    EXP + "zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py": "E08", EXP + "zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py": "E08",
    EXP + "opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py": "E09", EXP + "opencensus/src/opentelemetry/exporter/opencensus/util.py": "E09",
    PROP + "b3/src/opentelemetry/propagators/b3/__init__.py": "C05", PROP + "jaeger/src/opentelemetry/propagators/jaeger/__init__.py": "C06",
    SHIM + "opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py": "S01", SHIM + "opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py": "S01",
    SHIM + "opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py": "S02", SHIM + "opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py": "S02", SHIM + "opencensus-shim/src/opentelemetry/shim/opencensus/_patch.py": "S02",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&"}
SKIP_FN = ("__repr__", "__str__")
LOG = ("_logger", "logger", "_log", "warnings", "logging")


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = [l.encode() for l in src.splitlines(keepends=True)]
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l))
        self.b = src.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, what, n.lineno, ".".join(self.fn)))

    def visit_FunctionDef(self, n):
        if n.name in SKIP_FN or any("abstract" in self.seg(d) or "overload" in self.seg(d) for d in n.decorator_list):
            return
        self.fn.append(n.name)
        self.body(n.body)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def is_log(self, s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.seg(s.value.func).split(".")[0] in LOG

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or self.is_log(s):
                continue
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)):
                self.add(s, "pass", "drop statement")
            elif isinstance(s, (ast.Break, ast.Continue)):
                self.add(s, "pass", "drop jump")
            elif isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                self.add(s, "return None", "return None")
            elif isinstance(s, ast.Return) and s.value is None:
                self.add(s, "pass", "drop return")
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                self.add(s, "pass", "drop assignment")
            elif isinstance(s, ast.With):
                for it in s.items:
                    if "lock" in self.seg(it.context_expr).lower():
                        self.add(it.context_expr, "__import__('contextlib').nullcontext()", "no lock")

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(n, ast.stmt):
                self.body(v)
        if isinstance(n, ast.ExceptHandler):
            self.body(n.body)
        super().generic_visit(n)

    def visit_Expr(self, n):
        if self.is_log(n) or isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import

    def visit_If(self, n):
        if "TYPE_CHECKING" in self.seg(n.test):
            return
        self.add(n.test, "not (%s)" % self.seg(n.test), "negate")
        self.add(n.test, "True", "if True")
        self.add(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.seg(n.body), "then")
        self.add(n, self.seg(n.orelse), "else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, "%s %s %s" % (self.seg(n.left), CMP[type(n.ops[0])], self.seg(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + op.join("(%s)" % self.seg(v) for v in n.values) + ")", "and/or")
        for i in range(len(n.values)):
            rest = [self.seg(v) for j, v in enumerate(n.values) if j != i]
            keep = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + keep.join("(%s)" % r for r in rest) + ")", "drop operand")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "(%s) %s (%s)" % (self.seg(n.left), BIN[type(n.op)], self.seg(n.right)), "arithmetic")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, self.seg(n.operand), "drop not")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "flip")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "+1")
            if v:
                self.add(n, str(v - 1), "-1")
        elif isinstance(v, float):
            self.add(n, repr(v * 2 + 1), "float")
        elif isinstance(v, str) and self.fn and v and len(v) < 30:
            self.add(n, repr(v + "x"), "string")

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f.split(".")[0] in LOG or f.endswith("Error") or f.endswith("Exception"):
            return
        for k in n.keywords:
            if k.arg:
                a, b = self.span(k)
                # remove the keyword and one comma
                e = b
                while e < len(self.b) and self.b[e:e + 1] in b" \n\t":
                    e += 1
                if self.b[e:e + 1] == b",":
                    self.out.append((a, e + 1, "", "drop keyword " + k.arg, k.value.lineno, ".".join(self.fn)))
        if f in ("min", "max"):
            self.add(n.func, "max" if f == "min" else "min", "min/max")
        if f in ("list", "tuple", "dict", "set", "sorted", "copy", "deepcopy", "str", "int", "float", "abs", "reversed", "bool") and len(n.args) == 1 and not n.keywords:
            self.add(n, "(%s)" % self.seg(n.args[0]), "drop call " + f)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "lower", "upper", "strip", "rstrip", "lstrip", "encode") and not n.args:
            self.add(n, self.seg(n.func.value), "drop ." + n.func.attr)
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords and f not in ("isinstance", "getattr", "hasattr"):
            a, b = self.seg(n.args[0]), self.seg(n.args[1])
            self.add(n, "%s(%s, %s)" % (f, b, a), "swap arguments")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            self.add(n, self.seg(n.value), "drop slice")
        self.generic_visit(n)

    def visit_Try(self, n):
        for h in n.handlers:
            if h.type is not None:
                self.add(h.type, "ZeroDivisionError", "except nothing")
        self.generic_visit(n)

    def visit_arguments(self, n):
        pass


def mutants(root, path):
    src = open(os.path.join(root, path)).read()
    g = Gen(src)
    tree = ast.parse(src)
    g.body([s for s in tree.body if isinstance(s, (ast.If, ast.With, ast.Try))])
    for s in tree.body:
        g.visit(s)
    ok = []
    for m in sorted(set(g.out)):
        new = (g.b[: m[0]] + m[2].encode() + g.b[m[1]:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        ok.append((m, new))
    return src, ok


def tests_of(path):
    pkg = path.split("/src/")[0]
    d = [pkg + "/tests"]
    if "opentelemetry-api" in path:
        d.append("opentelemetry-sdk/tests")
    if "zipkin-json/src/opentelemetry/exporter/zipkin/encoder" in path:
        d.append("exporter/opentelemetry-exporter-zipkin-proto-http/tests")
    return d


def py_of(path):
    return "/opt/venv-pb3/bin/python" if "opencensus" in path or "zipkin-proto" in path else "/opt/venv-pb5/bin/python"


def main():
    mode = sys.argv[1]
    if mode == "list":
        tot = 0
        for f in FILES:
            if len(sys.argv) > 2 and sys.argv[2] not in f:
                continue
            n = len(mutants("/repo", f)[1])
            tot += n
            print(n, f, FILES[f])
        print(tot)
        return
    n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    want = sys.argv[5] if len(sys.argv) > 5 else ""
    base = "/tmp/w/am%d" % os.getpid()
    os.makedirs(base)
    workers = int(os.environ.get("WORKERS", "4"))
    jobs = os.environ.get("JOBS", "2")
    verif = base + "/verif"
    subprocess.run(["git", "clone", "-q", "/verif", verif], check=True)
    copies = []
    for i in range(workers):
        d = "%s/r%d" % (base, i)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        v = "%s/v%d" % (base, i)
        subprocess.run(["cp", "-a", verif, v], check=True)
        copies.append((d, v))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["a"], r["b"], r["new"]))
    todo = []
    rnd = random.Random(seed)
    for f in FILES:
        if want not in f:
            continue
        src, ms = mutants("/repo", f)
        ms = [x for x in ms if (f, x[0][0], x[0][1], x[0][2]) not in done]
        rnd.shuffle(ms)
        todo += [(f, m, new, src) for m, new in ms[:n]]
    rnd.shuffle(todo)
    sys.stderr.write("%d mutants\n" % len(todo))
    fo = open(out, "a")

    def sh(c, cmd, timeout):
        d, v = c
        p = subprocess.Popen(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo; mount --bind %s /verif; cd /verif; exec nice %s" % (d, v, cmd)],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return -9, "timeout"

    def one(job):
        f, m, new, src = job
        c = copies.pop()
        try:
            p = os.path.join(c[0], f)
            open(p, "w").write(new)
            res, why = "missed", ""
            for i in FILES[f].split():
                rc, o = sh(c, "./check %s --jobs %s" % (i, jobs), 600)
                if rc == 1:
                    res, why = "caught " + i, ([l for l in o.splitlines() if l.startswith(i + "/")] or [""])[0][:150]
                    break
                if rc != 0:
                    res, why = "error %s %s" % (i, rc), o[-300:]
                    break
            if res == "missed":
                rc, o = sh(c, "bash -c 'cd /repo && timeout 280 %s -B -m pytest -x -q -p no:cacheprovider %s'" % (py_of(f), " ".join(tests_of(f))), 300)
                res = "missed" if rc == 0 else "tests"
            open(p, "w").write(src)
            return dict(file=f, a=m[0], b=m[1], old=src.encode()[m[0]:m[1]].decode(), new=m[2], what=m[3], line=m[4], fn=m[5], res=res, why=why)
        finally:
            copies.append(c)

    try:
        with ThreadPoolExecutor(workers) as ex:
            for r in as_completed([ex.submit(one, t) for t in todo]):
                r = r.result()
                fo.write(json.dumps(r) + "\n")
                fo.flush()
    finally:
        shutil.rmtree(base)


main()
