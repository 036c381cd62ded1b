"""Execute one run specification inside a simulated process."""
import gc
import json
import sys

from . import desc, kernel, ops


def short(out, full):
    if full or out[0] != "ok":
        return out
    c = desc.canon(out[1])
    if len(c) <= 40:
        return out
    return ["ok", "#" + desc.digest(out[1])]


class RL:
    """run an operation with a nearby recursion limit"""

    @staticmethod
    def run(client, k, op):
        d = 0
        f = sys._getframe()
        while f is not None:
            d += 1
            f = f.f_back
        old = sys.getrecursionlimit()
        try:
            sys.setrecursionlimit(d + k)
            try:
                out = client.run(op)
            finally:
                sys.setrecursionlimit(old)
        except RecursionError:
            out = ["err", "RecursionError"]
        return out


def run_op(client, op):
    if op[0] == "rlimit":
        return RL.run(client, op[1], op[2])
    return client.run(op)


def execute(spec):
    full = spec.get("full", False)
    shared = {}
    res = {"phases": []}
    for ph in spec["phases"]:
        if "ops" in ph:
            c = ops.Client(shared)
            outs = [short(run_op(c, o), full) for o in ph["ops"]]
            res["phases"].append({"out": outs})
            continue
        res["phases"].append(simulate(ph, shared, full))
        if res["phases"][-1].get("verdict"):
            break
    return res


def simulate(ph, shared, full):
    progs = ph["threads"]
    K = kernel.Kernel(
        gran=ph.get("gran", "line"),
        scope=ph.get("scope", "treeno"),
        budget=ph.get("budget", 2_000_000),
        profile=ph.get("profile", 0),
    )
    outs = [[] for _ in progs]
    opsteps = [[] for _ in progs]
    nested = []
    clients = []
    opacts = ph.get("opacts")
    watch = ph.get("watch") or []
    watched = [(r, shared[r]) for r in watch if r in shared]
    ref = {r: desc.canon(desc.describe(v)) for r, v in watched}
    obs = {"n": 0, "bad": []}

    def body(i):
        c = ops.Client(dict(shared))
        clients.append(c)

        def f():
            t = K.threads[i]
            for j, o in enumerate(progs[i]):
                opsteps[i].append(t.n)
                if opacts is not None:  # plan given per operation, relative to its start
                    t.acts = [[t.n + a[0], a[1], a[2]] for a in opacts[i][j]]
                    t.ai = 0
                    K._arm(t)
                outs[i].append(short(run_op(c, o), full))

        return f

    def on_nest(t, k):
        c = ops.Client(dict(shared))
        nested.append([k, [short(run_op(c, o), full) for o in ph["nests"][k]]])

    def on_obs(t, arg, where):
        obs["n"] += 1
        for r, v in watched:
            if desc.canon(desc.describe(v)) != ref[r]:
                if len(obs["bad"]) < 60:
                    obs["bad"].append([r, t.tid, t.n, where])

    K.on_nest, K.on_obs = on_nest, on_obs
    if ph.get("obs_all"):
        K.obs_all = {int(k): v for k, v in ph["obs_all"].items()}
    verdict = K.go([body(i) for i in range(len(progs))], ph.get("acts", []), ph.get("first", 0))
    out = {
        "out": outs,
        "steps": [t.n for t in K.threads[: len(progs)]],
        "opsteps": opsteps,
        "log": K.log[-20000:],
        "nfired": len(K.log),
        "fired": [x[2] for x in K.log][:20000],
        "faults": K.faults,
    }
    if nested:
        out["nested"] = nested
    if watched:
        for r, v in watched:
            if desc.canon(desc.describe(v)) != ref[r]:
                obs["bad"].append([r, -1, -1, "after"])
        out["obs"] = obs
    if verdict:
        out["verdict"] = verdict
    if K.profile:
        names = [None] * len(K.locs)
        for (code, x), i in K.locs.items():
            names[i] = "%s:%s" % (code.co_qualname, x)
        out["profile"] = {"locs": names, "trace": [K.trace[i] for i in range(len(progs))],
                          "hot": sorted(K.hot.items()), "edges": K.edges[:50]}
    for c in clients:
        for k, v in c.regs.items():
            if k not in shared or shared[k] is not v:
                shared[k] = v
    return out
