"""C04: reading never changes the operand, not even momentarily."""
from . import corpus
from .common import Prog
from .p01 import switch_points
from .p03 import KINDS

RULE = (
    "a case makes trees and print options, then runs 1-3 reading operations on them while the "
    "simulator describes every operand at (nearly) every line or bytecode step of treeno code, and "
    "again after the operation returned, raised or was aborted by an injected exception; "
    "non-trivial = at least one observation fell inside the operation; distinct = different "
    "(operands, operation, fault point)"
)
BATCH = 10


def gen(rng, R):
    p = Prog(rng, "r")
    mode = rng.choice(["cold", "fresh", "fresh", "warm"])
    pre = []
    for _ in range(rng.randint(1, 2)):
        pre.append(p.make(0))
    lam = None
    if rng.random() < 0.12:
        v = rng.choice(["x", "y"])
        pre.append(["parse", "expression", corpus.Gen(rng, names=["x", "y"]).expr(rng.choice([1, 2, 3])), p.reg("expression")])
        lam = ["build", ["c", "E:Lambda.from_generic_expr", [["l", ["c", "E:Lambda.Variable", [v]]], ["$", p.regs[-1][0]]]], None]
    if rng.random() < 0.5:
        pre.append(p.options())
    for n, k in list(p.regs):
        if k == "query" and rng.random() < 0.25:
            pre.append(p.resolve(n))
    sch = aim = None
    if rng.random() < 0.2:
        rec = corpus.schema(rng)
        pre.append(["build", rec, p.reg("schema")])
        sch = p.regs[-1][0]
        if rec[0] == "schema" and rec[1] and rng.random() < 0.7:
            g = corpus.Gen(rng, names=sorted({f[0] for f in rec[1]}))
            g.tabs = sorted({f[1] for f in rec[1] if isinstance(f[1], str)}) or ["a"]
            t = g.expr(rng.choice([0, 1, 2, 3]))
            if rng.random() < 0.6:
                f = rng.choice(rec[1])
                t = rng.choice(["%s.%s", "%s.%s + 1", "SUM(%s.%s)", "(%s.%s, x)"]) % (f[1], f[0])
            pre.append(["parse", "expression", t, p.reg("expression")])
            aim = p.regs[-1][0]
    box = []
    if rng.random() < 0.3:
        # lists and mappings of the caller's
        for _ in range(rng.choice([1, 1, 2])):
            o = p.container()
            if o:
                pre.append(o)
                box.append(p.regs[-1][1])
    typed = rng.random() < 0.12
    if typed:
        # types of the caller's, to be combined
        for _ in range(rng.choice([2, 2, 3])):
            pre.append(["build", corpus.rand_type(rng) if rng.random() < 0.6 else ["c", rng.choice(["D:varchar", "D:char"]), [], {"max_chars": rng.choice(corpus.harvest.ints())}], p.reg("type")])
    watch = [n for n, _ in p.regs]
    base = list(p.regs)
    prog = [lam] if lam else []
    for k in box:
        o = p.passing(k)
        prog.append(o)
        if rng.random() < 0.5:
            prog.append(p.look(o[2], p.regs[-1][1]))
    for _ in range(rng.choice([2, 4, 8]) if typed else 0):
        ts = [["$", n] for n, k in base if k == "type"][-3:]
        f = rng.choice(["C:common_supertype"] * 4 + ["C:get_arithmetic_type", "C:common_same_type", "C:promote_integral_to_decimal", "C:promote_varchar_to_char"])
        n = 1 if "promote" in f else 2
        prog.append(["build", ["c", f, [rng.choice(ts) for _ in range(n)]], None])
    for _ in range(rng.choice([1, 1, 2])):
        v = rng.random()
        o = None
        if aim and v < 0.5:
            v = 0.4
        if v < 0.12:
            o = p.transform()
        elif v < 0.3:
            o = p.compose()
        elif v < 0.42:
            n = aim or p.pick("expression")
            if n:
                o = ["fields", n, ["$", sch] if sch else corpus.schema(rng), None]
        if o is None:
            o = p.read(base)
        if o:
            prog.append(o)
    gran = rng.choice(["line", "line", "instr"])
    acts = []
    if rng.random() < 0.35 and prog:
        for s in switch_points(rng, R, pre, prog, gran, "treeno", mode, 1):
            acts.append([0, s, "raise", rng.choice(KINDS)])
    return {"mode": mode, "gran": gran, "pre": pre, "prog": prog, "acts": acts, "watch": watch,
            "stride": 1 if gran == "line" else rng.choice([1, 2, 3, 5])}


def judge(case, R, st):
    x = R.run(
        {
            "phases": [
                {"ops": case["pre"]},
                {
                    "threads": [case["prog"]], "gran": case["gran"], "acts": case["acts"],
                    "watch": case["watch"], "obs_all": {"0": case["stride"]}, "budget": 400000,
                },
                {"ops": [["desc", w] for w in case["watch"]]},
            ]
        },
        case["mode"],
        timeout=120,
    )
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "reading hangs"}
    if x.get("crash"):
        return {"class": "crash", "text": x["crash"]}
    ph = x["phases"][1]
    if ph.get("verdict"):
        return {"class": ph["verdict"][0], "text": str(ph["verdict"])}
    st.add("steps", sum(ph["steps"]))
    for k, n in ph["faults"].items():
        st.add("fault:" + k, n)
    obs = ph.get("obs", {"n": 0, "bad": []})
    st.add("observations", obs["n"])
    if obs["n"]:
        st.seen(case["pre"], case["prog"], ph["log"])
    if obs["bad"]:
        b = obs["bad"][0]
        return {
            "class": "changed",
            "text": "operand %s changed at step %s (%s) of %s" % (b[0], b[2], b[3], case["prog"]),
            "log": ph["log"],
        }
    return None


def paths(case):
    yield ("acts",)
    yield ("prog",)
    yield ("pre",)
