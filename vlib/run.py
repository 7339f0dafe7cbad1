"""Runner: run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--scale X] [--only SUB]
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check."""
import argparse
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path.insert(0, VERIF)
sys.path.append(os.path.join(VERIF, ".deps"))
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402

LIMITS = {
    #            stop generating after, shrink for at most, hang limit per case
    "quick": (240.0, 25.0, 120.0),
    "thorough": (660.0, 60.0, 180.0),
}


def load(prop):
    path = os.path.join(VERIF, "checks", prop + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod


def failure(state, s, case, kind, msg):
    return {"sub": s.name, "case": repr(case), "kind": kind, "message": msg}


def make_body(state, s, found, t_start, gen_limit, shrink_limit):
    def body(case):
        now = core.monotonic()
        if found["t"] is None and now - t_start > gen_limit:
            state.budget_hit = True
            return
        if found["t"] is not None and now - found["t"] > shrink_limit:
            return
        try:
            rec = core.run_case(state, s, case)
        except Exception as e:  # noqa
            kind, msg = core.classify(e)
            f = failure(state, s, case, kind, msg)
            if found["t"] is None:
                found["t"] = now
                found["first"] = f
            best = found["best"]
            if best is None or (best["kind"] == f["kind"] and len(f["case"]) <= len(best["case"])):
                found["best"] = f
            if kind == "harness":
                found["t"] = -1e9  # do not bother shrinking
            raise
        if found["t"] is None:
            core.account(state, s, case, rec)

    return body


def run_shard(prop, tier, seed, shard, nshards, scale, only, out):
    import logging
    import warnings

    warnings.simplefilter("ignore")
    mod = load(prop)
    if not getattr(mod, "LOGGING", False):
        logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    gen_limit, shrink_limit, hang_limit = LIMITS[tier]
    state = core.ShardState(prop)
    t_start = core.monotonic()

    def write(extra=None):
        res = {
            "evals": state.evals, "hashes": [h.hex() for h in state.hashes],
            "labels": state.labels, "samples": state.samples, "known": state.known,
            "per_sub": state.per_sub, "failure": state.failure, "budget_hit": state.budget_hit,
            "wall": core.monotonic() - t_start,
        }
        res.update(extra or {})
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    def watchdog():
        while True:
            core.real_sleep(1.0)
            cur = state.current
            if cur and core.monotonic() - cur[2] > hang_limit:
                stacks = []
                in_repo = False
                for ident, fr in sys._current_frames().items():
                    if ident == threading.get_ident():
                        continue
                    st = traceback.extract_stack(fr)
                    in_repo = in_repo or any(x.filename.startswith(core.REPO + "/") for x in st)
                    stacks.append(" <- ".join("%s:%s" % (os.path.basename(x.filename), x.lineno) for x in reversed(st[-8:])))
                if state.failure is None:
                    state.failure = {
                        "sub": cur[0], "case": repr(cur[1]),
                        "kind": "violation" if in_repo else "harness",
                        "message": "no progress for %ds: the call hangs; stacks: %s" % (hang_limit, " || ".join(stacks)[:1500]),
                    }
                write()
                os._exit(0)

    threading.Thread(target=watchdog, daemon=True).start()

    for s in core.SUBS:
        if only and s.name not in only:
            continue
        if state.failure:
            break
        # explicit regression cases
        if shard == 0:
            for case in s.examples:
                try:
                    core.account(state, s, case, core.run_case(state, s, case))
                except Exception as e:  # noqa
                    kind, msg = core.classify(e)
                    state.failure = failure(state, s, case, kind, msg)
                    break
        if state.failure:
            break
        if s.cases is not None:
            for i, case in enumerate(s.cases(tier)):
                if i % nshards != shard:
                    continue
                if core.monotonic() - t_start > gen_limit:
                    state.budget_hit = True
                    break
                try:
                    core.account(state, s, case, core.run_case(state, s, case))
                except Exception as e:  # noqa
                    kind, msg = core.classify(e)
                    state.failure = failure(state, s, case, kind, msg)
                    break
        if s.strategy is None or state.failure:
            continue
        total = s.quick if tier == "quick" else s.thorough
        total = max(1, int(total * scale))
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            continue
        found = {"first": None, "best": None, "t": None}
        body = make_body(state, s, found, t_start, gen_limit, shrink_limit)
        test = hypothesis.given(s.strategy)(body)
        test = settings(
            max_examples=n, deadline=None, database=None, derandomize=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink), print_blob=False,
            report_multiple_bugs=False,
        )(test)
        test = hypothesis.seed(core.derive_seed(seed, prop, s.name, shard, tier))(test)
        try:
            test()
        except BaseException as e:  # noqa
            if found["best"] is not None:
                state.failure = found["best"]
            else:
                kind, msg = "harness", "".join(traceback.format_exception(e))[-3000:]
                state.failure = {"sub": s.name, "case": "None", "kind": kind, "message": msg}
    write()
    sys.stdout.flush()
    os._exit(0)


def replay(prop, path):
    import logging
    import warnings

    warnings.simplefilter("ignore")
    mod = load(prop)
    if not getattr(mod, "LOGGING", False):
        logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    with open(path) as f:
        r = json.load(f)
    s = next(s for s in core.SUBS if s.name == r["sub"])
    state = core.ShardState(prop)
    case = core.parse_case(r["case"])
    print("replaying %s/%s: %s" % (prop, s.name, core.short(case, 2000)))
    try:
        rec = core.run_case(state, s, case, replay=True)
    except Exception as e:  # noqa
        kind, msg = core.classify(e)
        traceback.print_exc()
        if kind == "violation":
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("harness error: " + msg)
        return 2
    print("held (labels %s, known %s)" % (rec.labels, rec.known))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or 8))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", action="append")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--shard")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.tier not in LIMITS:
        a.tier = "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = core.derive_seed(a.seed)
    if a.replay:
        sys.stdout.flush()
        rc = replay(a.prop, a.replay)
        sys.stdout.flush()
        os._exit(rc)
    if a.shard:
        i, n = map(int, a.shard.split("/"))
        run_shard(a.prop, a.tier, seed, i, n, a.scale, a.only, a.out)
        return
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    procs = []
    for i in range(a.jobs):
        out = os.path.join(tmp, "s%d.json" % i)
        cmd = [sys.executable, os.path.join(HERE, "run.py"), a.prop, "--tier", a.tier,
               "--seed", str(seed), "--scale", str(a.scale), "--shard", "%d/%d" % (i, a.jobs), "--out", out]
        for o in a.only or ():
            cmd += ["--only", o]
        log = open(os.path.join(tmp, "s%d.log" % i), "w+")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=tmp, env=dict(os.environ, TMPDIR=tmp)), out, log))
    hard = LIMITS[a.tier][0] + LIMITS[a.tier][1] + LIMITS[a.tier][2] + 120
    results, errors = [], []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1.0, hard - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("shard killed after %ds" % hard)
        log.seek(0)
        text = log.read()
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            if os.environ.get("VERIF_VERBOSE") and text:
                sys.stderr.write(text[-4000:])
        else:
            errors.append("shard left no result (exit %s): %s" % (p.returncode, text[-3000:]))
    subprocess.run(["rm", "-rf", tmp], check=False)

    hashes, labels, samples, known, per_sub = set(), {}, [], {}, {}
    failures = []
    evals = 0
    budget = False
    for r in results:
        evals += r["evals"]
        hashes.update(r["hashes"])
        budget = budget or r["budget_hit"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for k, v in r["per_sub"].items():
            e = per_sub.setdefault(k, [0, 0])
            e[0] += v[0]
            e[1] += v[1]
        samples += r["samples"]
        if r["failure"]:
            if r["failure"]["kind"] == "violation":
                failures.append(r["failure"])
            else:
                errors.append("harness error in %s: %s" % (r["failure"]["sub"], r["failure"]["message"]) + " case=" + r["failure"]["case"][:1500])
    samples.sort(key=lambda x: len(x[1]))
    picked, seen = [], {}
    for sname, text in samples:
        if seen.get(sname, 0) < 2 and len(text) > 10:
            seen[sname] = seen.get(sname, 0) + 1
            picked.append({"sub": sname, "case": text})
    mod_doc, rule, level, assumptions = "", "", "exploration", []
    try:
        mod = load(a.prop)
        rule = getattr(mod, "RULE", "")
        level = getattr(mod, "LEVEL", "exploration")
        assumptions = getattr(mod, "ASSUMPTIONS", [])
        rule += " " + " ".join("[%s] %s" % (s.name, s.rule) for s in core.SUBS if s.rule)
    except Exception:  # noqa
        errors.append("cannot load check: " + traceback.format_exc()[-2000:])
    kk = core.known_keys(a.prop)
    best = {}
    for f in failures:
        b = best.get(f["sub"])
        if b is None or len(f["case"]) < len(b["case"]):
            best[f["sub"]] = f
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule.strip() or "see DESIGN.md",
            "samples": picked[:12] or [{"sub": "-", "case": "none"}],
            "per_sub": {k: {"evaluations": v[0], "distinct_nontrivial_summed": v[1]} for k, v in sorted(per_sub.items())},
            "labels": dict(sorted(labels.items())),
            "known_findings_hit": known, "stopped_early_by_time_budget": budget,
        },
        "violations": len(best), "wall_s": round(time.monotonic() - t0, 2),
        "assumptions": assumptions,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", a.prop + ".json")
    with open(ep + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(ep + ".tmp", ep)
    for key, what in kk.items():
        print("KNOWN-FINDING: property=%s %s (hit %d times in this run)" % (a.prop, what, known.get(key, 0)))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s" % (
        a.prop, a.tier, seed, evals, len(hashes), time.monotonic() - t0, " (time budget hit)" if budget else ""))
    if best:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for name, f in best.items():
            rp = os.path.join(VERIF, "replays", "%s-%s.json" % (a.prop, name.replace(" ", "-")))
            f = dict(f, property=a.prop, seed=seed, tier=a.tier)
            with open(rp, "w") as fh:
                json.dump(f, fh, indent=1)
            print("%s/%s: %s" % (a.prop, name, f["message"]))
            print("  case: " + f["case"][:2000])
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        for e in sorted(set(errors))[:1]:
            print("also: " + e[-600:])
        return 1
    if errors:
        for e in sorted(set(errors))[:2]:
            print("ERROR " + (e if len(e) < 2000 else e[:300] + " ... " + e[-1500:]))
        return 2
    if evals == 0:
        print("ERROR nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
