"""Drives the workers of one property check; minimises; writes evidence and replays."""
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

from . import common, procs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = min(8, os.cpu_count() or 1)
QUICK_CAP = {"default": 90}
THOROUGH_CAP = 3600


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: property=%s " % prop):
                    out.append(json.loads(l.split(" ", 2)[2]))
    except FileNotFoundError:
        pass
    return out


def spawn(prop, scratch, wid, seed, tier, hashseed="0"):
    env = dict(os.environ)
    return subprocess.Popen(
        [procs.PY, os.path.join(VERIF, "sim", "worker.py"), prop, scratch, str(wid), str(seed), tier, hashseed],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1, env=env, cwd=scratch,
    )


def prime(scratch):
    """compile treeno once into the scratch cache, so that stale .pyc files never matter"""
    env = procs.base_env(scratch)
    env["PYTHONDONTWRITEBYTECODE"] = ""
    env["PYTHONPATH"] = VERIF
    r = subprocess.run(
        [procs.PY, "-c", "import sys; sys.path.insert(0, %r); from sim import boot; boot.boot()" % VERIF],
        env=env, cwd=scratch, capture_output=True, text=True, timeout=300,
    )
    return r


def search(prop, tier, seed, cap=None, nworkers=None, max_batches=None, hashseed="0", quiet=False):
    t0 = time.monotonic()
    M = importlib.import_module("sim.p" + prop[1:])
    cap = cap or (getattr(M, "CAP", QUICK_CAP["default"]) if tier == "quick" else float(os.environ.get("SIM_CAP", THOROUGH_CAP)))
    max_batches = max_batches or (getattr(M, "QUICK_BATCHES", 10**6) if tier == "quick" else 10**9)
    nworkers = nworkers or NCPU
    scratch = tempfile.mkdtemp(prefix="sim_%s_" % prop)
    results, errors = {}, []
    ws = []
    try:
        pr = prime(scratch)
        if pr.returncode:
            return {"results": {}, "errors": ["treeno cannot be imported: " + pr.stderr[-2000:]], "wall": 0, "scratch": None}
        ws = [spawn(prop, scratch, i, seed, tier, hashseed) for i in range(nworkers)]
        nextb = 0
        pending = {}
        stop = False
        limit = t0 + cap
        hard = t0 + cap + 400
        fds = {w.stdout.fileno(): w for w in ws}
        for w in ws:
            if nextb < max_batches:
                w.stdin.write(json.dumps({"batch": nextb}) + "\n")
                w.stdin.flush()
                pending[w] = nextb
                nextb += 1
        while pending:
            r, _, _ = select.select([w.stdout for w in pending], [], [], 5)
            if time.monotonic() > hard:
                errors.append("batches still running at the hard limit: %s" % sorted(pending.values()))
                break
            for f in r:
                w = fds[f.fileno()]
                line = f.readline()
                b = pending.pop(w)
                if not line:
                    errors.append("worker died in batch %d" % b)
                    continue
                out = json.loads(line)
                results[b] = out
                if out["violations"] or out["errors"]:
                    stop = True
                if not stop and time.monotonic() < limit and nextb < max_batches:
                    w.stdin.write(json.dumps({"batch": nextb}) + "\n")
                    w.stdin.flush()
                    pending[w] = nextb
                    nextb += 1
        for o in results.values():
            errors += o["errors"]
    finally:
        for w in ws:
            try:
                w.stdin.close()
            except Exception:
                pass
        for w in ws:
            try:
                w.wait(15)
            except Exception:
                w.kill()
                w.wait()
    return {"results": results, "errors": errors, "wall": time.monotonic() - t0, "scratch": scratch, "module": M}


def merge(results):
    n, distinct, samples = {}, set(), []
    for b in sorted(results):
        s = results[b]["stats"]
        for k, v in s["n"].items():
            n[k] = n.get(k, 0) + v
        distinct.update(s["distinct"])
        if len(samples) < 3:
            samples += s["samples"]
    return n, distinct, samples[:3]


def run_check(prop, tier, seed):
    out = search(prop, tier, seed)
    M = importlib.import_module("sim.p" + prop[1:])
    scratch = out["scratch"]
    try:
        n, distinct, samples = merge(out["results"])
        viol = [v for b in sorted(out["results"]) for v in out["results"][b]["violations"]]
        replay = None
        if viol:
            R = procs.Runner(scratch, "min")
            R.tier = tier
            try:
                confirmed = None
                for v in viol:
                    st = common.Stats()
                    d = M.judge(v["case"], R, st)
                    if d is None:
                        continue
                    confirmed = (v, d)
                    break
                if confirmed is None:
                    out["errors"].append("violation does not reproduce: %s" % json.dumps(viol[0])[:1500])
                else:
                    v, d = confirmed
                    tmin = time.monotonic()

                    def failing(c):
                        if time.monotonic() - tmin > (60 if tier == "quick" else 600):
                            return False
                        try:
                            x = M.judge(c, R, common.Stats())
                        except Exception:
                            return False
                        return x is not None and x["class"] == d["class"]

                    case, tries = common.minimise(v["case"], M.paths, failing, 120, getattr(M, "shrink_more", None))
                    d = M.judge(case, R, common.Stats()) or d
                    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                    replay = os.path.join(VERIF, "replays", "%s_%s_%d_%d.json" % (prop, seed, v["batch"], v["index"]))
                    with open(replay, "w") as f:
                        json.dump(
                            {"property": prop, "seed": seed, "batch": v["batch"], "index": v["index"],
                             "case": case, "detail": d, "minimise_tries": tries}, f, indent=1)
                    print("seed=%s batch=%d case=%d class=%s" % (seed, v["batch"], v["index"], d["class"]))
                    print(d["text"][:1500])
                    for l in (d.get("log") or [])[:12]:
                        print("  ", str(l)[:300])
            finally:
                R.close()
        wall = out["wall"]
        evidence(M, prop, tier, seed, n, distinct, samples, wall, 1 if replay else 0, out)
        if replay:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        if out["errors"]:
            print("HARNESS ERROR:", *[e[-3000:] for e in out["errors"][:3]], sep="\n", file=sys.stderr)
            return 2
        print("%s: %d cases, %d processes, %d distinct, %.0f s: held on everything explored" % (
            prop, n.get("cases", 0), sum(r["procs"] for r in out["results"].values()), len(distinct), wall))
        return 0
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)


def evidence(M, prop, tier, seed, n, distinct, samples, wall, nviol, out):
    runs = sum(r["procs"] for r in out["results"].values())
    faults = {k.split(":", 1)[1]: v for k, v in sorted(n.items()) if k.startswith("fault:")}
    other = {k: v for k, v in sorted(n.items()) if not k.startswith("fault:")}
    cov = {
        "evaluations": n.get("runs", 0),
        "distinct_nontrivial": len(distinct),
        "rule": M.RULE,
        "samples": [json.loads(json.dumps(s)) for s in samples],
        "simulated_processes": runs,
        "runs_per_hour": int(n.get("runs", 0) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": int(n.get("cases", 0) / max(wall, 1e-9) * 3600),
        "batches": len(out["results"]),
        "simulated_steps": n.get("steps", 0),
        "simulated_time": getattr(M, "SIM_TIME", "logical steps (monitored function entries, lines or bytecodes); treeno has no timers of its own"),
        "faults_injected": faults,
        "counters": other,
        "real_components": getattr(M, "REAL", "treeno and its parser, attrs, antlr4: real code from /repo's working tree in forked processes"),
        "stub_components": getattr(M, "STUB", "thread scheduling, locks, sleep and clocks: simulator"),
        "harness_errors": len(out["errors"]),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(
            {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
             "assumptions": getattr(M, "ASSUME", []), "wall_s": round(wall, 1), "violations": nviol},
            f, indent=1)
