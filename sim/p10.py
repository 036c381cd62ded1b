"""C10: function lookup does not depend on which modules were imported, or when."""
import json

from . import corpus, ops
from .p01 import switch_points

RULE = (
    "a case is a life of a process in which nothing of treeno is imported yet: seeded imports of parts of the "
    "library in any order, definitions of application functions, imports aborted at a chosen line and retried, "
    "imports and first calls from several threads under a generated switch list, then calls that parse, print, "
    "compare and resolve built-in and application functions, each compared with a process that imported "
    "everything first; non-trivial = at least one import, fault or switch before the checked calls; distinct = "
    "different histories"
)
BATCH = 8
QUICK_BATCHES = 100000
STUB = "thread scheduling, the import system's locks, sleep and clocks: simulator"
KINDS = ["MemoryError", "KeyboardInterrupt", "Aborted", "RecursionError"]
MODULES = [m for m in ops.ALL_MODULES]
CUSTOM = ["MYFN", "APP_HASH", "GEO2", "SUMX", "XABS", "SUM_ALL", "NORMALISE"]
ARGS = ["x", "x, y", "x, y, z", "", "1.5", "'a'", "x, 1", "'a', 'b'", "DATE '2020-01-01'"]
CLASSES = [("DATE_TRUNC", "FD:DateTrunc", 2), ("SUM", "FA:Sum", 1), ("NULLIF", "FN:NullIf", 2), ("CONCAT", "FC:Concatenate", 2),
           ("COUNT", "FA:Count", 1), ("LENGTH", "FT:Length", 1), ("POWER", "FM:Power", 2), ("DATE", "FD:Date", 1), ("CHR", "FT:Chr", 1)]


def names(R):
    if not hasattr(R, "fn_names"):
        R.fn_names = R.run({"phases": [{"ops": [["names"]]}], "full": True}, "fresh")["phases"][0]["out"][0][1]
    return R.fn_names


def call_text(rng, R, custom):
    u = rng.random()
    if custom and u < 0.25:
        return "%s(%s)" % (rng.choice(custom), rng.choice(["x", "1", "SUM(x)"]))
    if u < 0.5:
        t = rng.choice([t for t in corpus.EXPRS if "(" in t])
        return t
    if u < 0.55:
        return "%s(x)" % rng.choice(["NOSUCHFN", "MYFN2", "ABSX"])
    return "%s(%s)" % (rng.choice(names(R)), rng.choice(ARGS))


def checks(rng, R, custom, n, pfx="k"):
    out = []
    for i in range(n):
        r = "%s%d" % (pfx, i)
        u = rng.random()
        if u < 0.12:
            name, path, k = rng.choice(CLASSES)
            a = ["x", "y"][:k]
            out += [["parse", "expression", "%s(%s)" % (name, ", ".join(a)), r],
                    ["build", ["c", path, [["c", "E:Field", [v]] for v in a]], r + "b"],
                    ["equals", r, r + "b"], ["str", r + "b"]]
            continue
        t = call_text(rng, R, custom)
        if u < 0.35:
            out += [["parse", "query", "SELECT %s FROM a" % t if rng.random() < 0.6 else "SELECT %s" % t, r],
                    ["resolve", r, corpus.schema(rng), None]]
        else:
            out.append(["parse", "expression", t, r])
        out.append(rng.choice([["print", r, "PRETTY", 4], ["str", r], ["print", r, "DEFAULT", 4], ["draw", r], ["visit", r]]))
    return out


def definition(rng, n):
    """an application function; its class may be called like, or derive from, a built-in one"""
    return ["define", n, rng.choice(["x", "x", "agg", "FD:Date", "FT:Length", "FA:Sum", "FN:Try"]),
            rng.choice([None, None, "Length", "Date", "Sum", "Count", "Try", "Lower", "Power"])]


def gen(rng, R):
    names(R)
    steps = []
    custom = []
    free = list(CUSTOM)
    rng.shuffle(free)
    pre = []  # what has happened before, for profiles
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        u = rng.random()
        if u < 0.4:
            s = {"ops": [["import", rng.choice(MODULES)] for _ in range(rng.choice([1, 1, 2, 4]))]}
        elif u < 0.5 and free:
            n = free.pop()
            custom.append(n)
            ops_ = [definition(rng, n)]
            t = "%s(%s)" % (n, rng.choice(["x", "1"]))
            use = [rng.choice([["parse", "expression", t, None], ["parse", "query", "SELECT %s FROM a" % t, None]]) for _ in range(2)]
            if rng.random() < 0.5:
                ops_ = use[:1] + ops_  # asked for before it exists
            if rng.random() < 0.5:
                ops_ = ops_ + use[1:]
            s = {"ops": ops_}
        elif u < 0.6:
            s = {"ops": checks(rng, R, custom, rng.randint(1, 2), "p%d_" % len(steps))}
        elif u < 0.8:
            o = ["import", rng.choice(MODULES)]
            if rng.random() < 0.3:
                o = checks(rng, R, [], 1, "q%d_" % len(steps))[0]
            at = points(rng, R, o, 1)
            if not at:
                continue
            s = {"op": o, "step": at[0], "exc": rng.choice(KINDS)}
        else:
            k = rng.choice([2, 2, 3])
            th, acts = [], []
            for i in range(k):
                p = [["import", rng.choice(MODULES)] for _ in range(rng.choice([0, 1, 1, 2]))]
                cs = []
                if free and rng.random() < 0.25:
                    n = free.pop()
                    p.insert(rng.randrange(len(p) + 1), definition(rng, n))
                    cs = [n]
                if rng.random() < 0.6 or not p:
                    p += checks(rng, R, cs, 1, "t%d_%d_" % (len(steps), i))
                th.append(p)
            for i in range(k):
                for at in points(rng, R, rng.choice(th[i]), rng.choice([1, 2, 3, 8])):
                    acts.append([i, at, "sw", rng.choice([x for x in range(k) if x != i])])
            s = {"threads": th, "acts": acts, "first": rng.randrange(k)}
        steps.append(s)
        if "ops" in s:
            pre = pre + s["ops"]
        elif "threads" in s:
            for p in s["threads"]:
                pre = pre + p
                custom += [o[1] for o in p if o[0] == "define"]
    final = checks(rng, R, custom, rng.randint(4, 10))
    if rng.random() < 0.8:
        final += [["import", "treeno.builder.convert"], ["names"]]
    return {"steps": steps, "final": final}


def points(rng, R, o, n):
    """steps of an import (or first call) in a process where nothing is imported"""
    m = o[1] if o[0] == "import" else "treeno.builder.convert" if o[0] == "parse" else "treeno.functions.base"
    out = []
    for _ in range(n):
        if rng.random() < 0.5:
            out += switch_points(rng, R, [], [["import", m]], "line", "treeno", "bare", 1)
        else:
            p = R.profile([], [["import", m]], "line", "treeno", "bare")
            # later modules' lines come late: skew towards the end or the very beginning
            out.append(max(1, int((p["steps"] if p else 1000) * rng.random() ** rng.choice([0.3, 1, 3]))))
    return sorted(set(out))


def defines(p):
    return [o for o in p if o[0] == "define"]


def judge(case, R, st):
    phases = []
    for s in case["steps"]:
        if "ops" in s:
            phases.append({"ops": s["ops"]})
        elif "threads" in s:
            phases.append({"threads": s["threads"], "acts": s["acts"], "first": s.get("first", 0) % max(1, len(s["threads"])),
                           "gran": "line", "scope": "treeno", "budget": 3_000_000})
        else:
            phases.append({"threads": [[s["op"]]], "acts": [[0, s["step"], "raise", s["exc"]]], "gran": "line", "scope": "treeno",
                           "budget": 3_000_000})
    phases.append({"ops": case["final"]})
    x = R.run({"phases": phases}, "bare", 120)
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "imports or calls never finish"}
    if x.get("crash"):
        return {"class": "crash", "text": x["crash"]}
    st.seen(case["steps"])
    before = []  # the definitions so far
    log = []
    for s, ph in zip(case["steps"] + [{"ops": case["final"]}], x["phases"]):
        if ph.get("verdict"):
            return {"class": ph["verdict"][0], "text": "imports or calls do not finish: %s" % (ph["verdict"],), "log": ph["log"][-20:]}
        if "ops" in s:
            runs = [(s["ops"], ph["out"])]
        elif "threads" in s:
            runs = list(zip(s["threads"], ph["out"]))
            st.add("steps", sum(ph["steps"]))
            for f in ph["fired"]:
                st.add("fault:" + f.split()[0])
            log.append(ph["log"][-12:])
        else:
            st.add("steps", sum(ph["steps"]))
            for k, n in ph["faults"].items():
                st.add("fault:aborted-import-" + k, n)
            log.append(ph["log"])
            o = ph["out"][0][0]
            if o[0] == "ok" and s["op"][0] != "import":
                w = R.alone(before + [s["op"]])[-1]
                if w != o:
                    return {"class": "differs", "text": "%s, interrupted, returned %s instead of %s" % (s["op"], o, w), "log": log}
            elif o[0] == "err" and not ph["faults"]:
                w = R.alone(before + [s["op"]])[-1] if s["op"][0] != "import" else ["ok", None]
                if w != o:
                    return {"class": "differs", "text": "%s raised %s instead of %s" % (s["op"], o, w), "log": log}
            continue
        new = []
        for prog, outs in runs:
            if not prog:
                continue
            b = before + [o for o in prog if o[0] != "import"]
            want = R.alone(b)[len(before):] if b else []
            want = iter(want)
            for o, g in zip(prog, outs):
                w = ["ok", None] if o[0] == "import" else next(want)
                st.add("calls")
                if w != g:
                    return {"class": "import" if o[0] == "import" else "differs",
                            "text": "%s gave %s instead of %s" % (o, g, w), "log": log}
            new += defines(prog)
        before = before + new
    return None


def paths(case):
    yield ("steps",)
    yield ("final",)
    for i, s in enumerate(case["steps"]):
        if "ops" in s:
            yield ("steps", i, "ops")
        elif "threads" in s:
            yield ("steps", i, "acts")
            for j in range(len(s["threads"])):
                yield ("steps", i, "threads", j)
