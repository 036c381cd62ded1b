"""C01: overlapping calls."""
import json

from . import corpus
from .common import Prog, Stats  # noqa: F401

RULE = (
    "a case is 2-4 client programs, each run as a simulated thread, under a generated switch "
    "list (preemption points stratified over the code locations of each thread's own profile) "
    "plus nested calls; non-trivial = at least one switch or nested call landed inside an "
    "unfinished treeno call; distinct = different sequence of (thread, step, location) switches"
)
BATCH = 12


def switch_points(rng, R, pre, prog, gran, scope, mode, d, first=None):
    """up to d (or one burst of) steps of the program alone at which to do something"""
    if first is None:
        first = 0.2 if mode == "warm" else 0.5
    p = R.profile(pre, prog, gran, scope, mode, again=rng.random() < first)
    if p is None or not p["steps"]:
        return []
    for _, _, held, wanted in p["edges"]:
        R.batch.setdefault("edges", {}).setdefault((held, wanted), {"pre": pre, "prog": prog, "gran": gran, "scope": scope, "mode": mode})
    out = []
    tr = p["trace"]
    by = {}
    for i, l in enumerate(tr):
        by.setdefault(l, []).append(i + 1)
    locs = list(by)
    hot1 = [l for l, t in p["hot"] if t == 1 and l in by]
    hot2 = [l for l, t in p["hot"] if t == 2 and l in by]
    once = [l for l in p["once"] if l in by]
    near = 2 if gran == "line" else 6
    burst = d > 1 and rng.random() < 0.3
    for _ in range(d):
        if burst and out and rng.random() < 0.8:
            out.append(out[-1] + rng.randint(1, 2 * near))
            continue
        u = rng.random()
        if once and rng.random() < max(first, 0.5):
            # done once in a process (tables filled on first use, ...)
            out.append(rng.choice(by[rng.choice(once)]) + rng.choice([0, 0, 1]))
        elif u < 0.4 and hot1:
            out.append(rng.choice(by[rng.choice(hot1)]) + rng.randint(0, near))
        elif u < 0.52 and hot2:
            out.append(rng.choice(by[rng.choice(hot2)]) + rng.randint(0, near))
        elif p["steps"] > len(tr) and u < 0.6:
            out.append(rng.randint(1, p["steps"]))
        elif locs and u < 0.85:
            out.append(rng.choice(by[rng.choice(locs)]))
        elif locs:
            out.append(rng.randint(1, len(tr)))
    return sorted(set(out))


def together(rng, R, pre, threads, gran, scope, mode):
    """stop the threads, one after the other, at one and the same place"""
    ps = [R.profile(pre, t, gran, scope, mode) for t in threads]
    if not all(p and p["steps"] for p in ps):
        return []
    at = []
    for p in ps:
        by = {}
        for i, l in enumerate(p["trace"]):
            by.setdefault(p["locs"][l], []).append(i + 1)
        at.append(by)
    common = sorted(set(at[0]).intersection(*at[1:]))
    if not common:
        return []
    hot = {p["locs"][l]: t for p in ps for l, t in p["hot"]}
    h1 = [l for l in common if hot.get(l) == 1]
    h2 = [l for l in common if hot.get(l) == 2]
    u = rng.random()
    l = rng.choice(h1 if h1 and u < 0.55 else h2 if h2 and u < 0.65 else common)
    o = rng.choice([0, 0, 0, 1, 2, 4])
    return [[i, rng.choice(by[l]) + o, "sw", (i + 1) % len(at)] for i, by in enumerate(at)]


def touched(R, pre, prog, gran, scope, mode, watch):
    """steps of the program alone at which a watched object is not as it was"""
    key = "T" + json.dumps([mode, gran, scope, pre, prog, watch])
    r = R.memo.get(key)
    if r is None:
        x = R.run({"phases": [{"ops": pre}, {"threads": [prog], "gran": gran, "scope": scope, "watch": watch, "obs_all": {"0": 1}, "budget": 1_500_000}]}, mode)
        r = R.memo[key] = [b[2] for b in x["phases"][1].get("obs", {}).get("bad", []) if b[1] == 0] if len(x["phases"]) > 1 else []
    return r


def crossed(rng, R):
    """two programs seen in this batch that take the same two locks in opposite orders:
    stop each between them"""
    e = R.batch.get("edges", {})
    if not e:
        return None
    if not hasattr(R, "recon"):
        # locks are nested: see which of the calls of a fixed list nest which
        R.recon = {}
        seen, R.batch = R.batch, {"edges": R.recon}
        for t in corpus.QUERIES + corpus.RESOLVABLE[::3]:
            prog = [["parse", "query", t, "q"], ["resolve", "q", corpus.SCHEMAS[1], None], ["equals", "q", "q"], ["str", "q"], ["draw", "q"]]
            for o in [prog[:1], prog]:
                switch_points(rng.__class__(0), R, [], o, "instr", "treeno", "fresh", 0)
        R.batch = seen
    e = {**R.recon, **e}
    c = [(a, b) for a, b in sorted(e) if a < b and (b, a) in e]
    if not c or rng.random() < 0.3:
        return None
    a, b = rng.choice(c)
    x, y = e[(a, b)], e[(b, a)]
    pre = x["pre"] if x["pre"] == y["pre"] else x["pre"] + y["pre"]
    acts = []
    for i, (z, k) in enumerate(((x, (a, b)), (y, (b, a)))):
        p = R.profile(pre, z["prog"], x["gran"], x["scope"], x["mode"])
        steps = [s for _, s, h, w in p["edges"] if (h, w) == k] if p else []
        if not steps:
            return None
        acts.append([i, rng.choice(steps), "sw", 1 - i])
    return {"mode": x["mode"], "gran": x["gran"], "scope": x["scope"], "pre": pre, "threads": [x["prog"], y["prog"]],
            "nests": [], "acts": acts, "first": 0}


WITHS = [t for t in corpus.RESOLVABLE if t.startswith("WITH")]


def alike(rng, R):
    """first calls of a kind from several threads: stopped where something is done for the
    first time, or all of them about to fail"""
    mode = rng.choice(["fresh", "fresh", "fresh", "cold"])
    failing = rng.random() < 0.35
    akin = rng.random() < 0.35
    u = rng.random()
    fam = rng.choice(corpus.FAMILIES)
    look = [rng.choice(["print", "print", "str", "equals", "resolve", "desc", "draw", "visit"]) for _ in range(rng.choice([1, 1, 2]))]
    threads = []
    for i in range(rng.choice([2, 2, 3])):
        p = Prog(rng, "t%d_" % i)
        if threads and akin:
            # the same calls, on texts with a detail or two changed
            prog = json.loads(json.dumps(threads[0]))
            for o in prog:
                for _ in range(rng.choice([1, 2, 3])):
                    if o[0] == "parse":
                        o[2] = corpus.near(rng, o[2])
                    elif o[0] == "solve":
                        o[1] = corpus.near(rng, o[1])
            threads.append(prog)
            continue
        if failing:
            k, t = ("query", p.gen.broken(rng.choice([0, 1, 2]))) if u < 0.5 else rng.choice(corpus.INVALID)
        elif u < 0.35:
            k, t = "expression", p.gen.nested(rng.choice([2, 3, 4]))
        elif u < 0.5:
            k, t = "query", corpus.Scoped(rng).query(rng.choice([1, 2]))[0]
        elif u < 0.72 and not failing:
            o = p.solve()
            if rng.random() < 0.6:
                o[1] = rng.choice(WITHS)
            threads.append([o])
            continue
        elif u < 0.76:
            k, t = rng.choice(fam)
        else:
            k, t = corpus.pick_text(rng, p.gen, 0.05)
        if rng.random() < 0.12 and not failing:
            prog = [p.compose() or p.make(0)]
        else:
            prog = [["parse", k, t, p.reg(k)]]
        n, k = p.regs[-1] if p.regs else (None, None)
        for v in look if n and not failing and k not in ("options",) else []:
            if v == "print":
                prog.append(["print", n, rng.choice(["DEFAULT", "PRETTY"]), 4])
            elif v == "equals":
                prog.append(["equals", n, n])
            elif v == "resolve" and k == "query":
                prog.append(["resolve", n, corpus.SCHEMAS[1], None])
            else:
                prog.append([v if v != "resolve" else "str", n])
        threads.append(prog)
    gran = rng.choice(["line", "instr", "instr"])
    acts = []
    if rng.random() < 0.5:
        acts = together(rng, R, [], threads, gran, "treeno", mode)
    for i in [] if acts else [0] if rng.random() < 0.6 else range(len(threads)):
        for s in switch_points(rng, R, [], threads[i], gran, "treeno", mode, rng.choice([1, 1, 2]), first=0.0 if failing else 0.9):
            acts.append([i, s, "sw", rng.choice([x for x in range(len(threads)) if x != i])])
    return {"mode": mode, "gran": gran, "scope": "treeno", "pre": [], "threads": threads, "nests": [], "acts": acts, "first": 0}


def gen(rng, R):
    c = crossed(rng, R)
    if c:
        return c
    if rng.random() < 0.26:
        return alike(rng, R)
    k = rng.choice([2, 2, 2, 3, 4])
    mode = rng.choice(["cold", "fresh", "fresh", "fresh", "warm"])
    u = rng.random()
    gran, scope = (
        ("start", "treeno") if u < 0.15 else ("line", "treeno") if u < 0.5 else
        ("instr", "treeno") if u < 0.85 else ("line", "gen") if u < 0.95 else
        ("start", "antlr")
    )
    shared = rng.random() < 0.4
    pre, pr = [], Prog(rng, "s")
    style = rng.random() < 0.16  # printing with options they share
    if style:
        shared = True
        for _ in range(rng.choice([2, 2, 3])):
            t = pr.gen.wide() if rng.random() < 0.5 else rng.choice(corpus.RESOLVABLE) if rng.random() < 0.5 else pr.text(0, ("query",))[1]
            if rng.random() < 0.4:
                t = corpus.wrapped(rng, t)
            pre.append(["parse", "query", t, pr.reg("query")])
        pre.append(pr.options())
    elif shared:
        for _ in range(rng.randint(1, 2)):
            pre.append(pr.make(0.02))
        if rng.random() < 0.6:
            pre.append(pr.options())
    same = rng.random() < 0.3
    threads = []
    fam = rng.choice(corpus.FAMILIES) if rng.random() < 0.3 else None
    proto = None
    for i in range(k):
        p = Prog(rng, "t%d_" % i)
        if fam:
            p.family = fam
        prog = []
        if same and proto is not None and rng.random() < 0.7:
            threads.append(proto)
            continue
        for _ in range(rng.choice([1, 1, 2, 3])):
            v = rng.random()
            o = None
            if style:
                o = ["printopt", pr.pick("query"), pr.pick("options")]
            elif shared and v < 0.6:
                o = p.read(pr.regs)
            elif v < 0.25 and p.regs:
                o = p.read()
            elif v < 0.35:
                o = p.resolve()
            elif v < 0.42:
                o = p.antlr()
            elif v < 0.48:
                o = p.compose()
            elif v < 0.55:
                o = p.solve()
            if o is None:
                o = p.make(0.1)
            prog.append(o)
        threads.append(prog)
        proto = prog
    d = rng.choice([1, 1, 2, 3, 6, 15]) if not style else rng.choice([2, 4, 8])
    acts = []
    nests = []
    if style:
        # does a print touch what the prints share, if only for a moment?
        for i, prog in enumerate(threads):
            for s in touched(R, pre, prog, gran, scope, mode, [pr.pick("options")])[:1]:
                acts.append([i, s, "sw", rng.choice([x for x in range(k) if x != i])])
    meet = not style and rng.random() < 0.2
    if meet:
        acts = together(rng, R, pre, threads, gran, scope, mode)
    for i, prog in enumerate([] if meet else threads):
        for s in switch_points(rng, R, pre, prog, gran, scope, mode, d):
            j = rng.choice([x for x in range(k) if x != i])
            acts.append([i, s, "sw", j])
    if rng.random() < 0.25:
        p = Prog(rng, "n")
        if fam:
            p.family = fam
        prog = []
        o = p.read(pr.regs) if shared and rng.random() < 0.6 else None
        prog.append(o or p.make(0.1))
        if rng.random() < 0.5:
            prog.append(p.read() or p.antlr())
        nests.append(prog)
        i = rng.randrange(k)
        for s in switch_points(rng, R, pre, threads[i], gran, scope, mode, 1):
            acts.append([i, s, "nest", 0])
    return {
        "mode": mode, "gran": gran, "scope": scope, "pre": pre, "threads": threads,
        "nests": nests, "acts": acts, "first": rng.randrange(k),
    }


def spec(case):
    return {
        "phases": [
            {"ops": case["pre"]},
            {
                "threads": case["threads"], "acts": case["acts"], "nests": case["nests"],
                "gran": case["gran"], "scope": case["scope"], "first": case["first"],
                "budget": 8_000_000 if case["scope"] == "antlr" else 1_500_000,
            },
        ]
    }


def judge(case, R, st):
    x = R.run(spec(case), case["mode"])
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "overlapping calls never finish"}
    if x.get("crash"):
        return {"class": "crash", "text": "process died: " + x["crash"]}
    ph = x["phases"][1]
    st.add("steps", sum(ph["steps"]))
    for f in ph["fired"]:
        st.add("fault:" + f.split()[0])
    if any(f.startswith(("switch", "nest")) for f in ph["fired"]):
        st.seen([l for l in ph["log"]])
    v = ph.get("verdict")
    if v:
        return {"class": v[0], "text": "calls do not finish: %s" % (v,), "log": ph["log"][-20:]}
    for i, prog in enumerate(case["threads"]):
        want = R.alone(case["pre"] + prog)[len(case["pre"]):]
        for j, (w, g) in enumerate(zip(want, ph["out"][i])):
            if w != g:
                return {
                    "class": "result", "text": "thread %d op %s returned %s, alone %s" % (i, prog[j], g, w),
                    "log": ph["log"][-20:],
                }
    for k, outs in ph.get("nested", []):
        want = R.alone(case["pre"] + case["nests"][k])[len(case["pre"]):]
        if want != outs:
            return {
                "class": "result", "text": "nested %s returned %s, alone %s" % (case["nests"][k], outs, want),
                "log": ph["log"][-20:],
            }
    return None


def paths(case):
    yield ("acts",)
    for i in range(len(case["threads"])):
        yield ("threads", i)
    yield ("nests",)
    yield ("pre",)
