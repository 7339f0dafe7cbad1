"""seedtest.py [-c] [ids..]: verify planted bugs on private copies of /repo (demo, stable tests, check).  -c: check only."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
only_check = "-c" in args
ids = [a for a in args if a != "-c"] or sorted(os.listdir("/verif/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


BASE = "621fd92"


def removed(diff):
    out, f = {}, None
    for l in open(diff):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("-") and not l.startswith("---"): out.setdefault(f, []).append(l[1:].rstrip("\n"))
    return out


def ns(copy, rep, cmd):
    return subprocess.run(["unshare", "-Urmn", "bash", "-c", "ip link set lo up 2>/dev/null; mount --bind %s /repo; mount --bind %s /opt/vp/reports; cd /repo; %s" % (copy, rep, cmd)], capture_output=True, text=True)


def one(i):
    src = "/verif/seeded/" + i
    prop = json.load(open(src + "/meta.json"))["property"]
    w = "/tmp/w/seed_%s_%d" % (i, os.getpid())
    os.makedirs(w + "/rep")
    os.makedirs(w + "/demo")
    out = [i, prop]
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/r"], check=True)
        for f in os.listdir(src):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(src + "/" + f, w + "/demo/")
        demo = "bash %s/demo/demo.sh" % w
        if not only_check:
            r = ns(w + "/r", w + "/rep", demo)
            out.append("clean-demo=%d" % r.returncode)
            if r.returncode: out.append(r.stdout[-300:] + r.stderr[-500:])
        r = subprocess.run(["git", "-C", w + "/r", "apply", src + "/patch.diff"], capture_output=True, text=True)
        if r.returncode: return " ".join(out) + " PATCH FAILS " + r.stderr
        for f, lines in removed(src + "/patch.diff").items():
            base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], capture_output=True, text=True).stdout.splitlines()
            if any(x not in base for x in lines): out.append("REMOVES LINES OF MY OWN: %s" % [x for x in lines if x not in base][:2])
        if not only_check:
            r = ns(w + "/r", w + "/rep", demo)
            out.append("bug-demo=%d" % r.returncode)
            r = ns(w + "/r", w + "/rep", "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json" % w)
            try:
                res = json.load(open(w + "/out.json"))
                failed = sorted(stable - set(res.get("passed", res)))
                out.append("broken-tests=%d %s" % (len(failed), failed[:3]))
            except Exception as e:
                out.append("TESTS? %r %s" % (e, r.stdout[-300:] + r.stderr[-300:]))
        t = time.time()
        if os.path.exists("/verif/checks/%s.py" % prop):
            r = ns(w + "/r", w + "/rep", "cd /verif; VERIF_SEED=1 exec ./check %s" % prop)
            msg = [l for l in r.stdout.splitlines() if l.startswith(prop + "/")]
            out.append("%s %.0fs %s" % ({1: "CAUGHT", 0: "MISSED"}.get(r.returncode, "ERROR " + r.stderr[-200:]), time.time() - t, (msg or [""])[0][:160]))
        else:
            out.append("no check")
    finally:
        shutil.rmtree(w)
    return " ".join(out)


with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
