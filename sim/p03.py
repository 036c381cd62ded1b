"""C03: aborted calls leave no partial effect."""
from . import corpus
from .common import NOT_TREES, Prog
from .p01 import switch_points

RULE = (
    "a case aborts 1-3 library calls by an exception raised at a chosen instant (function entry, "
    "line or bytecode; MemoryError, KeyboardInterrupt, application exception, nearby recursion "
    "limit) in a cold or warm process, then retries them and makes further calls, all compared "
    "with a process in which the aborted calls were never made; non-trivial = a fault fired; "
    "distinct = different (fault kind, location, later calls)"
)
BATCH = 14
KINDS = ["MemoryError", "KeyboardInterrupt", "Aborted", "TimeoutError", "RecursionError"]


def gen(rng, R):
    p = Prog(rng, "r")
    mode = rng.choice(["cold", "cold", "fresh", "fresh", "warm"])
    same = rng.random() < 0.6  # everything in the thread that was interrupted
    pre = []
    focus = rng.choice(["equals", "equals", "print", "compose", "solve", None, None, None, None])
    work = []  # queries that are only ever resolved: resolving is meant to change them
    if focus == "solve":
        for _ in range(rng.choice([1, 1, 2])):
            o = p.solve()
            pre.append(["parse", "query", o[1], p.reg("query")])
            work.append(["resolve", p.regs.pop()[0], o[2], None])
        if rng.random() < 0.6:
            pre.append(p.make(0.02))
    elif rng.random() < 0.7:
        if rng.random() < 0.3:
            # near-duplicates: comparisons of trees that differ deep down, if at all
            p.family = rng.choice(corpus.FAMILIES)
        for _ in range(rng.randint(1, 3)):
            pre.append(p.make(0.02))
        if pre[-1][-1] and rng.random() < 0.4 and "$" not in str(pre[-1]):
            pre.append(p.near(pre[-1]))
        if rng.random() < 0.3:
            pre.append(p.options())
    reads = list(p.regs)
    faults = []
    post = []
    u = rng.random()
    gran, scope = (
        ("start", "treeno") if u < 0.25 else ("line", "treeno") if u < 0.65 else
        ("instr", "treeno") if u < 0.8 else ("start", "gen") if u < 0.9 else ("start", "antlr")
    )
    q = Prog(rng, "f")
    q.family = p.family
    q.regs = list(p.regs)
    often = rng.random() < (0.35 if focus == "solve" else 0.18)  # the same call cut short again and again
    o = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        if o is not None and rng.random() < 0.3:
            pass  # the same call, cut short somewhere else
        else:
            v = rng.random()
            o = None
            t = [n for n, k in reads if k not in NOT_TREES]
            if focus == "equals" and v < 0.8 and t:
                a, b = rng.choice(t), rng.choice(t)
                if len(t) > 1 and rng.random() < 0.6:
                    a, b = rng.sample(t[-2:], 2)
                o = ["equals" if v < 0.6 else "assert_equals", a, b]
            elif focus == "print" and v < 0.8 and t:
                o = ["print", rng.choice(t), rng.choice(["DEFAULT", "PRETTY", "PRETTY"]), 4]
            elif reads and (v < 0.12 or focus == "compose"):
                o = q.compose()
            elif reads and v < (0.2 if focus == "solve" else 0.5):
                o = p.read(reads)
            elif focus != "solve" and v < 0.55:
                o = q.antlr()
            elif v < (0.85 if focus == "solve" else 0.63):
                o = q.solve()
                if work and rng.random() < 0.75:
                    o = rng.choice(work)
            elif reads and v < 0.67:
                e = [n for n, k in reads if k == "expression"]
                if e:
                    o = ["fields", rng.choice(e), corpus.schema(rng), None]
            if o is None:
                o = q.make(0.05)
        if rng.random() < 0.15:
            k = rng.choice([12, 20, 30, 45, 60, 90, 130, 200, 300])
            faults.append({"op": o, "rlimit": k})
            post.append(o)
            continue
        s = switch_points(rng, R, pre, [o], gran, scope, mode, 1)
        if not s:
            continue
        faults.append({"op": o, "step": s[0], "exc": rng.choice(KINDS)})
        if often and gran != "instr" and scope == "treeno":
            faults[-1]["times"] = rng.choice([8, 20, 45, 70, 110, 160])
        post.append(o)
    for n, k in reads:
        post.append(["desc", n])
        x = p.read(reads)
        if x:
            post.append(x)
    z = Prog(rng, "z")
    z.family = q.family
    for _ in range(rng.randint(1, 3)):
        post.append(z.make(0.15))
        x = z.read()
        if x and rng.random() < 0.6:
            post.append(x)
        if rng.random() < 0.3:
            x = z.resolve() or z.solve()
            if x:
                post.append(x)
        if any(f["op"][0] == "solve" for f in faults) and rng.random() < 0.6:
            post.append(z.solve())
    return {"mode": mode, "gran": gran, "scope": scope, "pre": pre, "faults": faults, "post": post, "same": same}


def struck(ph):
    """the operations of a one-thread phase in which a fault fired"""
    at = [e[1] for e in ph["log"] if e[2].startswith("raise")]
    b = ph["opsteps"][0] + [1 << 60]
    return {j for j in range(len(b) - 1) if any(b[j] < n <= b[j + 1] for n in at)}


def judge(case, R, st):
    phases = [{"ops": case["pre"]}]
    nf = len(case["faults"])
    same = case.get("same")
    if same:
        prog, plan, extra, extrap = [], [], [], []
        for f in case["faults"]:
            if "rlimit" in f:
                prog.append(["rlimit", f["rlimit"], f["op"]])
                plan.append([])
            else:
                prog.append(f["op"])
                plan.append([[f["step"], "raise", f["exc"]]])
                extra += [f["op"]] * (f.get("times", 1) - 1)
                extrap += [plan[-1]] * (f.get("times", 1) - 1)
        phases.append({
            "threads": [prog + extra + case["post"]], "gran": case["gran"], "scope": case["scope"],
            "opacts": [plan + extrap + [[]] * len(case["post"])], "budget": 20_000_000,
        })
    else:
        for f in case["faults"]:
            if "rlimit" in f:
                phases.append({"ops": [["rlimit", f["rlimit"], f["op"]]]})
            else:
                phases.append(
                    {
                        "threads": [[f["op"]] * f.get("times", 1)], "gran": case["gran"], "scope": case["scope"],
                        "opacts": [[[[f["step"], "raise", f["exc"]]]] * f.get("times", 1)], "budget": 20_000_000,
                    }
                )
        phases.append({"ops": case["post"]})
    x = R.run({"phases": phases}, case["mode"])
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "a call hangs after an aborted call"}
    if x.get("crash"):
        return {"class": "crash", "text": x["crash"]}
    npre = len(case["pre"])
    fired = []
    logs = []
    for ph in x["phases"][1:]:
        if ph.get("verdict"):
            return {"class": ph["verdict"][0], "text": str(ph["verdict"]), "log": ph["log"]}
        if "steps" in ph:
            st.add("steps", sum(ph["steps"]))
            for k, n in ph["faults"].items():
                st.add("fault:" + k, n)
                fired.append(ph["log"])
            logs.append(ph["log"])
    # the calls that were cut short, or were meant to be: (operation, outcome, did a fault fire in it)
    tried = []
    if same:
        st.add("same-thread")
        outs = x["phases"][1]["out"][0]
        hit = struck(x["phases"][1])
        for j in range(nf + len(extra)):
            o = (prog + extra)[j]
            tried.append((o, outs[j], j in hit or o[0] == "rlimit"))
        got = outs[nf + len(extra):]
    else:
        for f, ph in zip(case["faults"], x["phases"][1:]):
            if "rlimit" in f:
                tried.append((["rlimit", f["rlimit"], f["op"]], ph["out"][0], True))
                continue
            hit = struck(ph)
            for j, out in enumerate(ph["out"][0]):
                tried.append((f["op"], out, j in hit))
        got = x["phases"][-1]["out"]
    before = list(case["pre"])
    for o, out, hit in tried:
        if o[0] == "rlimit":
            if out[0] == "err" and out[1] == "RecursionError":
                st.add("fault:rlimit")
                fired.append(o)
            o = o[2]
        if out[0] == "ok" or not hit:
            want = R.alone(before + [o])[-1]
            if want != out:
                return {
                    "class": "wrong-result" if hit else "after",
                    "text": "%s call %s gave %s; right answer %s" % ("interrupted" if hit else "repeated", o, out, want),
                    "log": logs,
                }
            if out[0] == "ok" and o not in before:
                before.append(o)
    if fired:
        st.seen(fired, case["post"])
    want = R.alone(case["pre"] + case["post"])[npre:]
    for o, g, w in zip(case["post"], got, want):
        st.add("calls")
        if g != w:
            return {
                "class": "after",
                "text": "after the aborted call(s), %s gave %s instead of %s" % (o, g, w),
                "log": logs,
            }
    return None


def paths(case):
    yield ("faults",)
    yield ("post",)
    yield ("pre",)
