"""Shared by the property modules: statistics, program generation, minimisation."""
import hashlib
import json

from . import corpus, ops


NOT_TREES = tuple(corpus.CONTAINERS) + ("options",)
KINDS_OF_TREES = ["expression", "expression", "expression", "query", "query", "relation", "type", "window", "group", "order"]


class Stats:
    def __init__(self):
        self.n = {}
        self.distinct = set()
        self.samples = []

    def add(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def seen(self, *parts):
        h = hashlib.sha1(json.dumps(parts, default=str).encode()).hexdigest()[:14]
        self.distinct.add(h)

    def sample(self, case):
        if len(self.samples) < 2:
            self.samples.append(case)

    def dump(self):
        return {"n": self.n, "distinct": sorted(self.distinct), "samples": self.samples}


def err_only(o):
    """outcome with the error text removed"""
    return o[:2] if o[0] == "err" else o


class Prog:
    """Generates operations over registers."""

    def __init__(self, rng, prefix=""):
        self.r = rng
        self.prefix = prefix
        self.n = 0
        self.regs = []  # (name, kind)
        self.gen = corpus.Gen(rng)
        self.family = rng.choice(corpus.FAMILIES) if rng.random() < 0.5 else None

    def reg(self, kind):
        self.n += 1
        name = "%s%d" % (self.prefix, self.n)
        self.regs.append((name, kind))
        return name

    def text(self, invalid=0.08, kinds=None):
        for _ in range(50):
            if self.family and self.r.random() < 0.35:
                k, s = self.r.choice(self.family)
            elif self.r.random() < 0.15:
                k, s = "query", self.r.choice(corpus.RESOLVABLE if self.r.random() < 0.85 else corpus.UNRESOLVABLE)
            else:
                k, s = corpus.pick_text(self.r, self.gen, invalid)
            if kinds is None or k in kinds:
                if k == "query" and self.r.random() < 0.06 and len(s) < 400:
                    s = corpus.wrapped(self.r, s)
                return k, s
        return "expression", "x + 1"

    def make(self, invalid=0.08, kinds=None):
        """an operation that makes a tree"""
        if not kinds and self.r.random() < 0.12:
            return self.compose(self.r.choice(KINDS_OF_TREES))
        if self.r.random() < 0.7 or (kinds and "query" in kinds):
            k, s = self.text(invalid, kinds)
            return ["parse", k, s, self.reg(k)]
        if self.r.random() < invalid:
            return ["build", self.r.choice(corpus.BAD_RECIPES), None]
        rec = self.r.choice(corpus.RECIPES)
        if self.r.random() < 0.08:
            rec = corpus.rand_type(self.r)
        kind = "expression"
        if rec[0] == "c":
            a = rec[1]
            if a.startswith(("W:", "O:", "G:")):
                kind = {"W": "window", "O": "order", "G": "group"}[a[0]]
            elif a.startswith("D:") or a.startswith("I:") or a.startswith("C:"):
                kind = "type"
            elif a.startswith("R:") and ("Query" in a):
                kind = "query"
            elif a.startswith("R:Schema"):
                kind = "schema"
            elif a.startswith("R:"):
                kind = "relation"
        return ["build", rec, self.reg(kind)]

    def options(self):
        name = self.reg("options")
        o = self.r.choice(corpus.OPTS)
        if self.r.random() < 0.2:
            o = ["c", "B:PrintOptions", [], {"mode": ["e", "B:PrintMode", self.r.choice(["PRETTY", "PRETTY", "DEFAULT"])],
                                             "spaces": self.r.choice([0, 1, 3, 16, 40, 78, 79, 80, 81, 100, 200])}]
        return ["build", o, name]

    def solve(self):
        """a query parsed and resolved in one go"""
        r = self.r
        u = r.random()
        t = r.choice(corpus.RESOLVABLE) if u < 0.4 else corpus.Scoped(r).query(r.choice([1, 2]))[0] if u < 0.75 else r.choice(corpus.UNRESOLVABLE)
        return ["solve", t, corpus.SCHEMAS[1] if r.random() < 0.5 else corpus.schema(r)]

    def pick(self, *kinds):
        c = [n for n, k in self.regs if (not kinds or k in kinds) and (kinds or k not in NOT_TREES)]
        return self.r.choice(c) if c else None

    def read(self, regs=None):
        """a read-only operation on existing registers"""
        r = self.r
        regs = regs if regs is not None else [(n, k) for n, k in self.regs]
        trees = [(n, k) for n, k in regs if k not in NOT_TREES]
        opts = [n for n, k in regs if k == "options"]
        if not trees:
            return None
        n, k = r.choice(trees)
        u = r.random()
        if u < 0.3:
            return ["print", n, r.choice(["DEFAULT", "PRETTY"]), r.choice([2, 4, 4, 8])]
        if u < 0.4 and opts:
            return ["printopt", n, r.choice(opts)]
        if u < 0.5:
            return ["str", n]
        if u < 0.7:
            m = r.choice(trees)[0]
            return [r.choice(["equals", "equals", "assert_equals"]), n, m]
        if u < 0.8:
            return ["visit", n]
        if u < 0.9:
            return ["draw", n]
        return ["desc", n]

    def resolve(self, n=None, keep=False):
        n = n or self.pick("query")
        if n is None:
            return None
        sch = corpus.schema(self.r)
        return ["resolve", n, sch, self.reg("schema") if keep else None]

    def antlr(self):
        k, s = self.text(0.1)
        return ["antlr", k, s]

    def hole(self, kind, depth=0):
        """an operand of the wanted kind: mostly an existing register"""
        r = self.r
        if kind == "V":
            if r.random() < 0.5:
                return r.choice(corpus.PYVALUES)
            kind = "E"
        k = corpus.HOLE[kind]
        c = [n for n, kk in self.regs if kk == k or (k == "relation" and kk == "query" and r.random() < 0.4)]
        if c and r.random() < 0.8:
            return ["$", r.choice(c)]
        if k == "list" and r.random() < 0.6:
            return ["l"] + [self.hole("V", depth + 1) for _ in range(r.randint(1, 3))]
        if k == "params" and r.random() < 0.5:
            t = [n for n, kk in self.regs if kk == "type"]
            if t:
                return ["g", ["$", r.choice(t)], "parameters"]
        if k in ("window", "order", "group") and depth < 2 and r.random() < 0.6:
            return self.fill(r.choice([t for kk, t in corpus.TEMPLATES if kk == k]), depth + 1)
        return r.choice(corpus.BASE[k])

    def fill(self, t, depth=0):
        if isinstance(t, list):
            if len(t) == 2 and t[0] == "?":
                return self.hole(t[1], depth)
            return [self.fill(x, depth) for x in t]
        if isinstance(t, dict):
            return {k: self.fill(v, depth) for k, v in t.items()}
        return t

    def near(self, o, kind=None):
        """a call like `o`, with one detail changed"""
        r = self.r
        if o[0] == "parse":
            t = o[2]
            for _ in range(r.choice([1, 1, 2])):
                t = corpus.near(r, t)
            return ["parse", o[1], t, self.reg(o[1])]
        rec = json.loads(json.dumps(o[1]))
        leaves = []

        def walk(x):
            for k, v in enumerate(x) if isinstance(x, list) else x.items():
                if isinstance(v, (list, dict)):
                    walk(v)
                elif isinstance(x, dict) or k > 0 and not (x[0] in ("c", "m", "g", "e", "o", "u", "$", "dec", "f") and k <= 2):
                    leaves.append((x, k))

        walk(rec)
        if leaves:
            x, k = r.choice(leaves)
            v = x[k]
            if isinstance(v, bool):
                x[k] = not v
            elif isinstance(v, int):
                x[k] = v + r.choice([1, 2])
            elif isinstance(v, str):
                x[k] = r.choice([v + "2", v.upper()])
        kinds = [kind] if kind else [k for n, k in self.regs if n == o[2]]
        return ["build", rec, self.reg(kinds[0] if kinds else "expression")]

    def transform(self):
        t = self.r.choice(corpus.TRANSFORMS)
        k = {"C": "type", "R": "query"}.get(t[1][0], "expression")
        return ["build", self.fill(t), self.reg(k)]

    def look(self, n, k):
        """a call that shows all of a register"""
        r = self.r
        if k in NOT_TREES:
            return ["desc", n]
        return r.choice([["print", n, "DEFAULT", 4], ["print", n, "PRETTY", 4], ["str", n], ["desc", n], ["draw", n]])

    def container(self):
        """a list or mapping of its own, to be passed to a constructor"""
        k = self.r.choice(corpus.CONTAINERS)
        rec = self.hole("L") if k == "list" else self.r.choice(corpus.BASE[k])
        return ["build", rec, self.reg(k)] if rec[0] in ("l", "d", "schema") else None

    def passing(self, kind):
        """build a new node out of a container of that kind"""
        h = [h for h, k in corpus.HOLE.items() if k == kind][0]
        k, t = self.r.choice([t for t in corpus.TEMPLATES if "['?', '%s']" % h in str(t[1])])
        return ["build", self.fill(t), self.reg(k)]

    def compose(self, kind=None):
        """build a new node from existing trees"""
        r = self.r
        if kind is None and r.random() < 0.08:
            k = r.choice(["list", "list", "params"])
            rec = self.hole("L") if k == "list" else r.choice(corpus.PARAMS)
            if rec[0] == "l":
                return ["build", rec, self.reg("list")]
            if rec[0] == "d":
                return ["build", rec, self.reg("params")]
        have = {k for _, k in self.regs}
        c = corpus.TEMPLATES
        if kind is not None:
            c = [t for t in c if t[0] == kind]
        elif have:
            # prefer templates that use what there is
            want = {h for h, k in corpus.HOLE.items() if k in have}
            for _ in range(6):
                k, t = r.choice(c)
                s = str(t)
                if any("['?', '%s']" % h in s for h in want) or ("E" in want and "['?', 'V']" in s):
                    break
            return ["build", self.fill(t), self.reg(k)]
        k, t = r.choice(c)
        return ["build", self.fill(t), self.reg(k)]


def shrink_list(lst):
    """smaller versions of a list, biggest cuts first"""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            if size < n or n == 1 or True:
                yield lst[:i] + lst[i + size:]
        size //= 2


def minimise(case, paths, failing, limit=120, more=None):
    """Greedy delta-debugging over the list-valued parts of a case.  `paths` is a list
    of key tuples; `failing(case)` says whether the same violation remains."""
    tries = 0

    def get(c, p):
        for k in p:
            c = c[k]
        return c

    def put(c, p, v):
        c = json.loads(json.dumps(c))
        d = c
        for k in p[:-1]:
            d = d[k]
        d[p[-1]] = v
        return c

    progress = True
    while progress and tries < limit:
        progress = False
        for p in paths(case):
            try:
                lst = get(case, p)
            except (KeyError, IndexError):
                continue
            if not isinstance(lst, list) or not lst:
                continue
            again = True
            while again and tries < limit:
                again = False
                for cand in shrink_list(get(case, p)):
                    tries += 1
                    c2 = put(case, p, cand)
                    if failing(c2):
                        case = c2
                        again = progress = True
                        break
                    if tries >= limit:
                        break
        again = more is not None
        while again and tries < limit:
            again = False
            for c2 in more(case):
                tries += 1
                if failing(c2):
                    case = c2
                    again = progress = True
                    break
                if tries >= limit:
                    break
    return case, tries
