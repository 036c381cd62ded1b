"""C05: separately built trees share nothing mutable."""
from . import p02
from .common import Prog
from .p02 import judge, paths  # noqa: F401

RULE = (
    "a case builds trees for two clients (same text, same recipe or near-duplicates), edits one "
    "client's trees in place (every mutable part, or single edits) and then describes, prints, "
    "compares and resolves the other client's trees and repeats the original calls; every call is "
    "compared with its backward slice in a fresh process; distinct = different (history, call)"
)
BATCH = 6


def rename(rec, m):
    if isinstance(rec, list):
        if len(rec) == 2 and rec[0] == "$":
            return ["$", m.get(rec[1], rec[1])]
        return [rename(x, m) for x in rec]
    if isinstance(rec, dict):
        return {k: rename(v, m) for k, v in rec.items()}
    return rec


def gen(rng, R):
    p = Prog(rng, "a")
    prog = []
    mk = []
    for _ in range(rng.randint(1, 3)):
        o = p.make(0)
        mk.append(o)
        prog.append(o)
        if o[0] == "parse" and o[1] == "query" and rng.random() < 0.5:
            r = p.resolve(o[3])
            prog.append(r)
    q = Prog(rng, "b")
    same = {}
    for o in mk:
        if rng.random() < 0.7:
            kind = dict(p.regs).get(o[-1], "expression")
            o2 = rename(o[:-1], same)
            o2.append(q.reg(kind))
            same[o[-1]] = o2[-1]
            prog.append(o2)
            if kind == "query" and rng.random() < 0.3:
                prog.append(q.resolve(o2[-1]))
        else:
            prog.append(q.make(0))
    if rng.random() < 0.5:
        prog.append(q.options())
    if rng.random() < 0.5:
        prog.append(p.options())
    tail = []
    for n, k in p.regs:
        if rng.random() < 0.3:
            tail.append(p.read([(n, k)]) or ["desc", n])
    prog += tail
    for n, k in p.regs:
        u = rng.random()
        if u < 0.65:
            prog.append(["scramble", n])
        else:
            for _ in range(rng.randint(1, 4)):
                prog.append(["edit", n, rng.randrange(200), rng.randrange(6)])
    for n, k in q.regs:
        prog.append(["desc", n])
        for _ in range(rng.randint(0, 2)):
            o = q.read([(n, k)])
            if o:
                prog.append(o)
        if k == "query" and rng.random() < 0.4:
            prog.append(q.resolve(n))
    r = Prog(rng, "c")
    same = {}
    for o in mk:
        o2 = rename(o[:-1], same)
        o2.append(r.reg(dict(p.regs).get(o[-1], "expression")))
        same[o[-1]] = o2[-1]
        prog.append(o2)
        x = r.read([r.regs[-1]])
        if x:
            prog.append(x)
    prog.append(r.make(0))
    return {"mode": rng.choice(["cold", "fresh", "warm"]), "prog": prog}
