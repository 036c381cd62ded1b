"""C11: calls leave nothing behind."""
import json
import re

from . import corpus
from .common import Prog

RULE = (
    "a case repeats a generated sequence of calls (valid, rejected and aborted ones) hundreds of times in one "
    "simulated process, every time with names, texts and numbers never used before, drops the results, and measures "
    "allocated memory blocks after collection and every interpreter setting; growth must stop once caches bounded by "
    "2000 entries had time to fill; non-trivial = every case; distinct = different call sequences"
)
BATCH = 2
QUICK_BATCHES = 100000
STUB = "clocks and locks: simulator; aborts and recursion limits: injected at chosen steps"
ASSUME = ["a table bounded by about 2000 entries does not count as growing", "a constant number of retained objects does not count as growing"]
RATE = 0.3
MORE = 2600

_NAME = re.compile(r"\b[a-z]\b(?!')")
EXTRA = [
    ("expression", "NOSUCH_\x01(x)"), ("type", "NOSUCH_\x01"), ("type", "NOSUCH_\x01(3)"), ("expression", "CAST(x AS NOSUCH_\x01)"),
    ("expression", "'lit_\x01'"), ("expression", "\x02"), ("expression", "\x02.5"), ("expression", "-\x02.25"), ("expression", "x_\x01 + \x02"),
    ("query", "SELECT x_\x01 FROM a_\x01 WHERE y = 'v_\x01'"), ("query", "WITH q_\x01 AS (SELECT 1 AS c_\x01) SELECT c_\x01 FROM q_\x01"),
    ("query", "SELECT t_\x01.* FROM t_\x01"), ("query", "SELECT FROM x_\x01"), ("query", "SELECT x_\x01 FROM"), ("expression", "x_\x01 +"),
    ("type", "ROW(f_\x01 BIGINT)"), ("type", "DECIMAL(\x02)"), ("type", "VARCHAR(\x02)"), ("type", "TIMESTAMP(\x02)"),
    ("expression", "INTERVAL '\x02' DAY"), ("expression", "TIMESTAMP '2020-01-01 00:00:00.\x02'"), ("expression", "DATE 'x_\x01'"),
    ("expression", '"Quoted \x01 name"'), ("query", "SELECT 1 AS \"c \x01\" FROM \"s_\x01\".\"t_\x01\""),
    ("expression", "x_\x01 ? y"), ("expression", "'unterminated_\x01"), ("expression", "X'\x02'"), ("expression", "U&'\x01'"),
    ("query", "SELECT a_\x01.x FROM a_\x01 JOIN b_\x01 ON a_\x01.x = b_\x01.x"),
    ("query", "SELECT x FROM a AS q_\x01 (c_\x01, d_\x01) ORDER BY c_\x01 LIMIT 5"),
    ("query", "SELECT SUM(x_\x01) OVER w_\x01 FROM a WINDOW w_\x01 AS (PARTITION BY y)"),
    ("query", "VALUES (1, 'a_\x01'), (\x02, 'b')"), ("expression", "(v_\x01) -> v_\x01 + 1"),
]


def vary(t):
    """the text with its names made different in every repetition"""
    return _NAME.sub(lambda m: m.group(0) + "_\x01", t)


def deep(r):
    """a recipe with its names made different"""
    if isinstance(r, list):
        return [deep(x) if k or not isinstance(x, str) else x for k, x in enumerate(r)]
    if isinstance(r, dict):
        return {k: deep(v) for k, v in r.items()}
    if isinstance(r, str) and len(r) <= 2 and r.isalpha() and r.islower():
        return r + "_\x01"
    return r


def gen(rng, R):
    p = Prog(rng, "r")
    tpl = []
    for _ in range(rng.randint(1, 4)):
        u = rng.random()
        if u < 0.35:
            k, t = rng.choice(EXTRA)
            o = ["parse", k, t, p.reg(k)]
        elif u < 0.42:
            k, t = rng.choice(EXTRA)
            o = ["antlr", k, t]
        else:
            o = p.make(0.2) if u < 0.92 else ["parse", "query", p.gen.broken(2), p.reg("query")]
            if o[0] == "parse":
                o = o[:2] + [vary(o[2])] + o[3:]
            elif rng.random() < 0.6:
                o = [o[0], recipe(o[1]), o[2]]
        v = rng.random()
        if v < 0.15:
            o = ["abort", rng.randrange(1000), rng.choice(["line", "line", "start", "instr"]), rng.choice(["MemoryError", "KeyboardInterrupt", "Aborted"]),
                 rng.choice([50, 300, 1000]), rng.choice([1, 7, 13]), o]
        elif v < 0.22:
            o = ["rlimit", rng.choice([20, 40, 70, 110, 160]), o]
        tpl.append(o)
        if 0.06 < u < 0.14:
            x = p.solve()
            x[1] = vary(x[1]) if rng.random() < 0.5 else x[1]
            if rng.random() < 0.3:
                x = ["abort", rng.randrange(1000), rng.choice(["line", "start", "instr"]), rng.choice(["MemoryError", "KeyboardInterrupt", "Aborted"]),
                     rng.choice([50, 300, 1000]), rng.choice([1, 7, 13]), x]
            tpl.append(x)
        if u < 0.06:
            t = rng.choice(corpus.UNRESOLVABLE)
            q = p.reg("query")
            tpl += [["parse", "query", vary(t) if rng.random() < 0.3 else t, q], ["resolve", q, rng.choice([corpus.SCHEMAS[3], corpus.SCHEMAS[3], corpus.schema(rng)]), None]]
        for _ in range(rng.choice([0, 1, 1, 2])):
            v = rng.random()
            x = p.resolve(keep=rng.random() < 0.5) if v < 0.25 else p.compose() if v < 0.4 else p.read()
            if x:
                if rng.random() < 0.1:
                    x = ["abort", rng.randrange(1000), rng.choice(["line", "start", "instr"]), rng.choice(["MemoryError", "KeyboardInterrupt", "Aborted"]),
                         rng.choice([30, 100]), rng.choice([1, 7, 13]), x]
                tpl.append(x)
        if rng.random() < 0.15 and p.regs:
            tpl.append(["edit", p.regs[-1][0], rng.randrange(100), rng.randrange(6)])
    return {"template": tpl, "warm": 80, "n": 60}


def recipe(r):
    if not isinstance(r, list) or not r:
        return r
    if r[0] in ("c", "o", "m", "g"):
        return [r[0], r[1]] + [deep_arg(x) for x in r[2:]]
    return deep_arg(r)


def deep_arg(x):
    if isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in ("c", "o", "u", "m", "g", "e", "$", "l", "t", "s", "d", "dec", "f", "schema"):
            if x[0] in ("e", "$", "dec", "f", "m", "g"):
                return x
            if x[0] == "schema":
                return x
            if x[0] == "c":
                return x[:2] + [deep_arg(y) for y in x[2:]]
            return [x[0]] + [deep_arg(y) for y in x[1:]]
        return [deep_arg(y) for y in x]
    if isinstance(x, dict):
        return {k: deep_arg(v) for k, v in x.items()}
    if isinstance(x, str) and len(x) <= 2 and x.isalpha() and x.islower():
        return x + "_\x01"
    return x


def judge(case, R, st):
    spec = {"kind": "soak", "template": case["template"], "warm": case["warm"], "n": case["n"], "rate": RATE, "more": MORE}
    x = R.run(spec, "fresh", 300)
    st.add("runs")
    if x.get("hang") or x.get("crash"):
        return {"class": "hang", "text": "repeated calls never finish: %s" % x}
    for k, v in x["stats"].items():
        st.add("fault:aborted-calls" if k == "aborted" else k, v)
    st.add("repetitions", x["iterations"])
    st.seen(case["template"])
    if x["bad"]:
        b = x["bad"][0]
        return {"class": "setting " + b[0], "text": "after %d repetitions the process's %s changed from %s to %s" % (b[3], b[0], b[1], b[2])}
    if "more" in x:
        st.add("escalated")
        if all(d > case["n"] * RATE for d in x["more"]):
            return {"class": "growth", "text": "every %d further repetitions leave %s more memory blocks behind after %d different inputs; kinds of objects: %s" % (
                case["n"], x["more"], x["iterations"], x.get("types"))}
    return None


def paths(case):
    yield ("template",)
