"""C02: histories.  Also the judge of C05 (sharing)."""
from . import corpus, ops
from .common import KINDS_OF_TREES, NOT_TREES, Prog

RULE = (
    "a case is a history of 10-40 library calls of one client (successful, failing, editing, "
    "dropping, collecting, registering functions, clock jumps); every call is compared with its "
    "backward slice executed in a fresh process; non-trivial = the slice is shorter than the "
    "history before it; distinct = different (history, call) pairs"
)
BATCH = 4


def edited(rng, p, prog):
    """print, edit in place, print the same way again"""
    o = p.compose(rng.choice(KINDS_OF_TREES + ["window", "group", "type"])) if rng.random() < 0.6 else p.make(0)
    if not o[-1]:
        return
    prog.append(o)
    n, k = p.regs[-1]
    look = [p.look(n, k) for _ in range(rng.choice([1, 1, 2]))]
    prog += look
    for _ in range(rng.choice([1, 2, 3, 5])):
        prog.append(["edit", n, rng.randrange(60), rng.randrange(6)])
        prog += look


def remade(rng, p, prog):
    """make, look, drop, make something similar where the first one was"""
    o = p.make(0)
    for _ in range(rng.choice([3, 5, 8, 12])):
        if not o[-1]:
            return
        prog.append(o)
        n, k = p.regs.pop()
        prog.append(p.look(n, k))
        if rng.random() < 0.3:
            prog.append(["equals", n, n] if k not in NOT_TREES else ["desc", n])
        prog.append(["drop", n])
        if rng.random() < 0.3:
            prog.append(["gc"])
        o = p.near(o, k) if o[0] == "parse" or "$" not in str(o) else p.make(0)


def members(rng, p, prog):
    """texts that differ only a little, one after the other"""
    f = list(rng.choice(corpus.FAMILIES))
    if rng.random() < 0.3:
        k, t = corpus.pick_text(rng, p.gen, 0)
        f = [[k, t]] + [[k, corpus.near(rng, t)] for _ in range(5)]
    rng.shuffle(f)
    for k, t in f:
        prog.append(["parse", k, t, p.reg(k)])
        n = p.regs[-1][0]
        prog.append(rng.choice([["print", n, "DEFAULT", 4], ["print", n, "DEFAULT", 4], ["print", n, "PRETTY", 4], ["str", n], ["draw", n]]))


def repeated(rng, p, prog):
    """the same call, or calls of one kind, very often"""
    u = rng.random()
    if u < 0.35:
        # as many different ones
        from .p11 import EXTRA
        from .soak_exec import fill

        k, t = rng.choice(EXTRA) if rng.random() < 0.4 else rng.choice([x for x in EXTRA if "NOSUCH" in x[1] or x[0] == "type"])
        i = rng.randrange(10**6)
        prog += [["parse", k, fill(t, i + n), None] for n in range(rng.choice([15, 45, 70, 110]))]
        return
    if u < 0.45:
        os = [["solve", rng.choice(corpus.UNRESOLVABLE), corpus.schema(rng)] for _ in range(rng.choice([1, 3]))]
        prog += [list(rng.choice(os)) for _ in range(rng.choice([15, 45, 110]))]
        prog += [p.solve() for _ in range(3)]
        return
    if u < 0.66:
        os = [["parse"] + list(rng.choice(corpus.INVALID)) + [None]]
    elif u < 0.8:
        os = [["parse"] + list(rng.choice(rng.choice(corpus.FAMILIES))) + [None] for _ in range(3)]
    else:
        os = [["parse", "query", rng.choice(corpus.QUERIES), None]]
    prog += [list(rng.choice(os)) for _ in range(rng.choice([15, 45, 70, 110]))]
    if os[0][1] == "query" and u < 0.66:
        prog.append(["parse", "query", rng.choice(corpus.QUERIES), p.reg("query")])


NAMED = ["Length", "Sum", "Lower", "Date", "Count", "Max", "Concatenate", "Power", "AppFn", "AppFn", None, None]
KINDS = ["x", "agg", "FA:Sum", "FT:Length", "FD:Date", "FA:Count", "FM:Power", "FN:Try", "FC:Concatenate"]
TEXTS = ["%s(x)", "%s(x) + 1", "%s(SUM(y))", "%s(x) FILTER (WHERE y > 1)", "%s(x) OVER (PARTITION BY y)", "%s(x ORDER BY y)", "%s(x, y)",
         "%s(DISTINCT x)", "%s(x) FILTER (WHERE y > 1) OVER (ORDER BY z)", "%s(x ORDER BY y DESC) IGNORE NULLS", "%s()", "%s(x, y, z)"]


def definition(rng, n):
    """the class of an application function may be called like a built-in one, or like
    another one of the application"""
    return ["define", n, rng.choice(KINDS[:2] if rng.random() < 0.5 else KINDS), rng.choice(NAMED) if rng.random() < 0.7 else None]


def defined(rng, p, prog):
    """functions that are unknown, defined, and defined again"""
    n = "APP_%d" % rng.randrange(3)
    t = rng.choice(TEXTS[:3]) % n
    d1, d2 = definition(rng, n), definition(rng, n)
    ops = [["parse", "expression", t, None], d1, ["parse", "expression", t, None],
           ["parse", "query", "SELECT %s FROM a" % t, None], d2, ["parse", "expression", t, None]]
    ops = ops[rng.randrange(2): rng.randint(3, 6)]
    if rng.random() < 0.6:
        # what the classes of that name are asked for, in any order
        names = [n] + [x.upper() for x in ([d1[3], d2[3]] + [rng.choice(NAMED)]) if x and x != "AppFn"]
        if rng.random() < 0.5:
            m = "APP_%d" % rng.randrange(3)
            names.append(m)
            ops.insert(rng.randrange(len(ops) + 1), ["define", m, rng.choice(KINDS), d1[3]])
        for _ in range(rng.choice([2, 3, 4, 6])):
            o = ["parse", "expression", rng.choice(TEXTS) % rng.choice(names), None]
            ops.insert(rng.randrange(len(ops) + 1), o)
            if rng.random() < 0.7:
                ops.append(["parse", "expression", rng.choice(TEXTS) % rng.choice(names), None])
    prog += ops


def gen(rng, R):
    p = Prog(rng, "r")
    n = rng.choice([8, 12, 20, 30])
    prog = []
    texts = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        u = rng.random()
        (edited if u < 0.38 else remade if u < 0.68 else members if u < 0.78 else defined if u < 0.89 else repeated)(rng, p, prog)
    n += len(prog)
    while len(prog) < n:
        u = rng.random()
        o = None
        if u < 0.30:
            o = p.make(0.15)
        elif u < 0.38 and texts:
            o = list(rng.choice(texts))  # the same call again
            if o[0] in ("parse", "build") and len(o) > 2 and o[-1]:
                o[-1] = p.reg("query" if o[1] == "query" else o[1] if o[0] == "parse" else "expression")
        elif u < 0.58:
            o = p.read()
        elif u < 0.6:
            o = p.solve()
        elif u < 0.66:
            o = p.resolve(keep=rng.random() < 0.2)
        elif u < 0.70:
            o = p.antlr()
        elif u < 0.76:
            o = p.compose()
        elif u < 0.86 and p.regs:
            # edit (or drop) one register, then look at everything like it again
            nme, k = rng.choice(p.regs)
            if rng.random() < 0.7:
                o = ["edit", nme, rng.randrange(60), rng.randrange(6)] if rng.random() < 0.75 else ["scramble", nme]
            else:
                o = ["drop", nme]
                p.regs = [x for x in p.regs if x[0] != nme]
                prog.append(o)
                o = p.make(0)
        elif u < 0.89:
            o = ["gc"]
        elif u < 0.92:
            o = definition(rng, "APP_%d" % rng.randrange(3))
        elif u < 0.94:
            o = ["parse", "expression", "APP_%d(x)" % rng.randrange(3), p.reg("expression")]
        elif u < 0.96:
            o = ["clock", rng.choice([1.0, 3600.0, -5.0, 1e7])]
        else:
            o = p.options()
        if o is None:
            continue
        if o[0] in ("parse", "build", "antlr") and (o[0] != "build" or "$" not in str(o)):
            texts.append(o)
        prog.append(o)
    return {"mode": rng.choice(["cold", "fresh", "warm"]), "prog": prog}


def judge(case, R, st):
    prog = case["prog"]
    x = R.run({"phases": [{"ops": prog}]}, case["mode"])
    st.add("runs")
    if x.get("hang"):
        return {"class": "hang", "text": "history never finishes"}
    if x.get("crash"):
        return {"class": "crash", "text": x["crash"]}
    outs = x["phases"][0]["out"]
    for i, o in enumerate(prog):
        st.add("op:" + o[0])
        if o[0] in ("drop", "gc", "define", "clock"):
            if outs[i][0] == "err" and (o[0] != "define" or R.alone([o])[-1] != outs[i]):
                return {"class": "result", "text": "op %d %s failed: %s" % (i, o, outs[i])}
            continue
        sl = ops.backward_slice(prog, i)
        if len(sl) < i + 1:
            st.seen(prog[: i + 1])
        want = R.alone([prog[j] for j in sl])[-1]
        st.add("calls")
        if "missing" in (want[0], outs[i][0]):
            continue  # an operand that was dropped: nothing of treeno was called
        if want != outs[i]:
            return {
                "class": "result",
                "text": "op %d %s gave %s after this history, %s in a fresh process" % (i, o, outs[i], want),
                "at": i,
            }
    return None


def paths(case):
    yield ("prog",)
