"""The operation language of simulated clients, executed against treeno.

A program is a list of operations (JSON lists); registers are named strings.  Importing
this module does not import treeno; everything is looked up in sys.modules on use."""
import enum
import gc
import importlib
import io
import json
import operator
import re
import sys
from decimal import Decimal

from . import desc

ALIAS = {
    "E": "treeno.expression",
    "R": "treeno.relation",
    "W": "treeno.window",
    "G": "treeno.groupby",
    "O": "treeno.orderby",
    "B": "treeno.base",
    "D": "treeno.datatypes.builder",
    "T": "treeno.datatypes.types",
    "C": "treeno.datatypes.conversions",
    "I": "treeno.datatypes.inference",
    "V": "treeno.datatypes.resolve",
    "P": "treeno.printer",
    "X": "treeno.builder.convert",
    "A": "treeno.grammar.parse",
    "FA": "treeno.functions.aggregate",
    "FB": "treeno.functions.base",
    "FC": "treeno.functions.common",
    "FN": "treeno.functions.conditional",
    "FD": "treeno.functions.datetime",
    "FM": "treeno.functions.math",
    "FS": "treeno.functions.session",
    "FT": "treeno.functions.string",
    "U": "treeno.util",
    "CLI": "treeno.cli",
}
ALL_MODULES = sorted(set(ALIAS.values()) | {"treeno.visitor"})

_OPS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul,
    "/": operator.truediv, "%": operator.mod, "**": operator.pow,
    "==": operator.eq, "!=": operator.ne, "<": operator.lt,
    "<=": operator.le, ">": operator.gt, ">=": operator.ge,
    "&": operator.and_, "|": operator.or_,
}
_UN = {"~": operator.invert, "neg": operator.neg, "pos": operator.pos}


def mod(alias):
    # (not sys.modules: another thread may be half-way through importing it)
    return importlib.import_module(ALIAS.get(alias, alias))


def look(path):
    alias, _, qual = path.partition(":")
    o = mod(alias)
    for part in qual.split("."):
        # interned: the interpreter's attribute cache keeps each name object it sees
        o = getattr(o, sys.intern(part))
    return o


class Missing(Exception):
    """operand register not available (its creation failed): harness-level, not treeno"""


class Collect:
    """A client-side visitor (duck-typed, as the library's own contract requires)."""

    def __init__(self):
        self.seen = []

    def visit(self, node):
        if isinstance(node, (list, tuple)):
            for n in node:
                self.visit(n)
            return
        self.seen.append(type(node).__qualname__)
        node.visit(self)


class Client:
    def __init__(self, regs=None):
        self.regs = {} if regs is None else regs

    # -- recipe evaluation -------------------------------------------------
    def ev(self, r):
        if not isinstance(r, list):
            return r
        k = r[0]
        if k == "$":
            try:
                return self.regs[r[1]]
            except KeyError:
                raise Missing(r[1])
        if k == "c":
            args = [self.ev(a) for a in (r[2] if len(r) > 2 else [])]
            kw = {n: self.ev(v) for n, v in (r[3] if len(r) > 3 else {}).items()}
            return look(r[1])(*args, **kw)
        if k == "o":
            a, b = self.ev(r[2]), self.ev(r[3])
            return _OPS[r[1]](a, b)
        if k == "u":
            return _UN[r[1]](self.ev(r[2]))
        if k == "m":
            o = self.ev(r[1])
            return getattr(o, sys.intern(r[2]))(*[self.ev(a) for a in r[3:]])
        if k == "g":
            return getattr(self.ev(r[1]), sys.intern(r[2]))
        if k == "e":
            return getattr(look(r[1]), sys.intern(r[2]))
        if k == "l":
            return [self.ev(a) for a in r[1:]]
        if k == "t":
            return tuple(self.ev(a) for a in r[1:])
        if k == "s":
            return set(self.ev(a) for a in r[1:])
        if k == "d":
            return {self.ev(a): self.ev(b) for a, b in r[1:]}
        if k == "dec":
            return Decimal(r[1])
        if k == "f":
            return float(r[1])
        if k == "schema":
            S, F, T = look("R:Schema"), look("R:SchemaField"), look("R:Table")
            tabs = {}
            fields = []
            for name, table, dtype in r[1]:
                if table not in tabs:
                    tabs[table] = T(name=table)
                fields.append(F(name, tabs[table], self.ev(dtype)))
            return S(fields=fields, relation_ids=set(r[2]))
        raise ValueError("bad recipe %r" % (r,))

    def reg(self, n):
        try:
            return self.regs[n]
        except KeyError:
            raise Missing(n)

    # -- operations ---------------------------------------------------------
    def apply(self, op):
        k = op[0]
        if k == "parse":
            v = look("X:%s_from_sql" % op[1])(op[2])
            if op[3]:
                self.regs[op[3]] = v
            return desc.describe(v)
        if k == "build":
            v = self.ev(op[1])
            if op[2]:
                self.regs[op[2]] = v
            return desc.describe(v)
        if k == "print":
            node = self.reg(op[1])
            opts = look("B:PrintOptions")(
                mode=getattr(look("B:PrintMode"), sys.intern(op[2])), spaces=op[3]
            )
            return node.sql(opts)
        if k == "printopt":
            node, opts = self.reg(op[1]), self.reg(op[2])
            return node.sql(opts)
        if k == "str":
            return str(self.reg(op[1]))
        if k == "equals":
            a, b = self.reg(op[1]), self.reg(op[2])
            return a.equals(b)
        if k == "resolve":
            node = self.reg(op[1])
            sch = self.ev(op[2])
            s = node.resolve(sch)
            if len(op) > 3 and op[3]:
                self.regs[op[3]] = s
            return describe_schema(s)
        if k == "solve":
            # parse and resolve, keeping nothing
            return describe_schema(look("X:query_from_sql")(op[1]).resolve(self.ev(op[2])))
        if k == "fields":
            node = self.reg(op[1])
            v = look("V:resolve_fields")(node, self.ev(op[2]))
            if op[3]:
                self.regs[op[3]] = v
            return desc.describe(v)
        if k == "draw":
            node = self.reg(op[1])
            t = look("CLI:treeify")(node)
            sio = io.StringIO()
            t.pretty_print(stream=sio)
            return sio.getvalue()
        if k == "antlr":
            ast = look("A:AST")(op[2])
            n = {"query": ast.query, "expression": ast.expression, "type": ast.type}[op[1]]()
            return look("A:tree")(ast, n)
        if k == "visit":
            c = Collect()
            c.visit(self.reg(op[1]))
            return c.seen
        if k == "assert_equals":
            self.reg(op[1]).assert_equals(self.reg(op[2]))
            return None
        if k == "edit":
            return edit(self.reg(op[1]), op[2], op[3])
        if k == "scramble":
            return scramble(self.reg(op[1]))
        if k == "drop":
            self.regs.pop(op[1], None)
            return None
        if k == "gc":
            gc.collect()
            return None
        if k == "clock":
            from . import seams

            seams.Clock.now += op[1]
            return None
        if k == "define":
            define(op[1], op[2] if len(op) > 2 else "x", op[3] if len(op) > 3 else None)
            return None
        if k == "names":
            return sorted(look("FB:NAMES_TO_FUNCTIONS"))
        if k == "desc":
            return desc.describe(self.reg(op[1]))
        if k == "import":
            importlib.import_module(op[1])
            return None
        raise ValueError("bad op %r" % (op,))

    def run(self, op):
        """-> outcome: ["ok", description] | ["err", type, message] | ["missing", reg]"""
        try:
            return ["ok", self.apply(op)]
        except Missing as e:
            return ["missing", str(e)]
        except BaseException as e:
            d = desc.err_desc(e)
            e.__traceback__ = None
            return d


def describe_schema(s):
    if type(s).__name__ != "Schema":
        return desc.describe(s)
    out = []
    for f in s.fields:
        src = f.source
        ident = None
        try:
            ident = object.__getattribute__(src, "__dict__").get("alias") or object.__getattribute__(
                src, "__dict__"
            ).get("name")
        except AttributeError:
            pass
        out.append([f.name, type(src).__qualname__, ident, desc.describe(f.data_type)])
    return ["schema", out, sorted(str(x) for x in s.relation_ids)]


_CUSTOM = {}


def define(name, flavour, cls_name=None):
    """An application-defined function class (like docs of treeno.functions)."""
    import attr

    E = mod("E")
    FB = mod("FB")
    base = look(flavour) if ":" in flavour else FB.UnaryFunction if flavour != "agg" else mod("FA").UnaryAggregateFunction

    def post(self):
        self.data_type = mod("D").bigint()

    cls = type(base)(
        cls_name or "App" + name.title().replace("_", ""),
        (base,),
        {"FN_NAME": name, "__attrs_post_init__": post, "__module__": "app"},
    )
    cls = E.value_attr(cls)
    _CUSTOM[name] = cls
    return cls


# -- in-place edits -----------------------------------------------------------
def sites(root):
    """Every in-place edit a client could make, in a deterministic order."""
    out = []
    for n in desc.nodes(root):
        if isinstance(n, list):
            out.append((n, "list", None))
        elif isinstance(n, dict):
            out.append((n, "dict", None))
        elif isinstance(n, set):
            out.append((n, "set", None))
        elif desc.is_node(n):
            for k, v in desc.public_items(n):
                if isinstance(v, (str, bool, int, float, Decimal, enum.Enum)) or v is None:
                    out.append((n, "attr", k))
    return out


def edit_site(site, how):
    c, kind, k = site
    if kind == "list":
        if how % 3 == 0:
            c.append(c[0] if c else "zz")
        elif how % 3 == 1:
            c.reverse()
        else:
            if c:
                c.pop()
        return ["list", len(c)]
    if kind == "dict":
        if how % 2 and c:
            c.pop(next(reversed(c)))
        elif c:
            kk = next(iter(c))
            v = c[kk]
            c[kk] = v + 1 if isinstance(v, int) and not isinstance(v, bool) else v
            c["zz%d" % (how % 5)] = v
        else:
            c["zz"] = 7
        return ["dict", len(c)]
    if kind == "set":
        c.add("zz%d" % (how % 3))
        return ["set", len(c)]
    v = getattr(c, k)
    if isinstance(v, bool):
        nv = not v
    elif isinstance(v, int):
        nv = v + 1 + how % 3
    elif isinstance(v, str):
        nv = v + "_%d" % (how % 3)
    elif isinstance(v, enum.Enum):
        nv = other_member(v, how)
    elif isinstance(v, (float, Decimal)):
        nv = v + 1 + how % 3
    else:
        return ["attr", k, "none"]
    setattr(c, k, nv)
    return ["attr", k, desc.describe(nv)]


def other_member(v, how=0):
    m = [x for x in type(v) if x is not v]
    return m[how % len(m)] if m else v


def edit(root, n, how):
    ss = sites(root)
    if not ss:
        return None
    return edit_site(ss[n % len(ss)], how)


def scramble(root):
    """Edit every mutable part of the tree in place."""
    n = 0
    for c, kind, k in sites(root):
        if kind == "list":
            c.append("scrambled")
        elif kind == "dict":
            for kk in list(c):
                if isinstance(c[kk], int) and not isinstance(c[kk], bool):
                    c[kk] += 100
            c["scrambled"] = 1
        elif kind == "set":
            c.add("scrambled")
        else:
            v = getattr(c, k)
            if isinstance(v, bool):
                setattr(c, k, not v)
            elif isinstance(v, int):
                setattr(c, k, v + 100)
            elif isinstance(v, str):
                setattr(c, k, v + "_scrambled")
            elif isinstance(v, enum.Enum):
                setattr(c, k, other_member(v))
            elif isinstance(v, (float, Decimal)):
                setattr(c, k, v + 100)
            elif v is None and k in ("alias", "name", "table", "offset", "limit"):
                setattr(c, k, "scrambled")
        n += 1
    return n


# -- data flow -----------------------------------------------------------------
def _recipe_regs(r, out):
    if isinstance(r, list):
        if len(r) == 2 and r[0] == "$":
            out.add(r[1])
        else:
            for x in r:
                _recipe_regs(x, out)
    elif isinstance(r, dict):
        for x in r.values():
            _recipe_regs(x, out)


_WORD = re.compile(r"[A-Za-z_0-9]+")


def flow(op):
    """(reads, creates, mutates) register sets of an operation."""
    k = op[0]
    reads, creates, mut = set(), set(), set()
    if k == "parse":
        if op[3]:
            creates.add(op[3])
        for w in set(_WORD.findall(op[2].upper())):
            reads.add("fn:" + w)
    elif k == "solve":
        _recipe_regs(op[2], reads)
        for w in set(_WORD.findall(op[1].upper())):
            reads.add("fn:" + w)
    elif k == "build":
        _recipe_regs(op[1], reads)
        if op[2]:
            creates.add(op[2])
    elif k in ("print", "str", "draw", "visit", "desc"):
        reads.add(op[1])
    elif k in ("printopt", "equals", "assert_equals"):
        reads |= {op[1], op[2]}
    elif k == "resolve":
        reads.add(op[1])
        mut.add(op[1])
        _recipe_regs(op[2], reads)
        if len(op) > 3 and op[3]:
            creates.add(op[3])
    elif k == "fields":
        reads.add(op[1])
        _recipe_regs(op[2], reads)
        if op[3]:
            creates.add(op[3])
    elif k in ("edit", "scramble"):
        reads.add(op[1])
        mut.add(op[1])
    elif k == "drop":
        creates.add(op[1])
    elif k == "define":
        creates.add("fn:" + op[1])
    elif k == "names":
        reads.add("fn:*")
    return reads, creates, mut


def backward_slice(prog, i):
    """Indices of the operations that op i's operands were made of (program order),
    including i.  Objects built from other registers alias them, so an edit of a
    source counts for everything made from it and vice versa."""
    n = len(prog)
    # alias classes: a version of a register is created by op j; versions are linked
    # when one was built from the other (sharing is legitimate there).
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    cur = {}  # reg -> op index that created the current version
    members = []  # per op: (set of versions read, mutated flag)
    for j in range(i + 1):
        reads, creates, mut = flow(prog[j])
        rv = {cur[r] for r in reads if r in cur}
        if "fn:*" in reads:
            rv |= {v for r, v in cur.items() if r.startswith("fn:")}
        members.append((rv, bool(mut)))
        if creates and prog[j][0] in ("build", "fields", "resolve"):
            for v in rv:
                if not isinstance(v, int):
                    continue
                parent[find(v)] = find(j)
        if mut:
            for v in rv:  # resolve may store parts of the schema in the tree
                parent[find(v)] = find(j)
        for c in creates:
            cur[c] = j
    need = {i}
    changed = True
    while changed:
        changed = False
        classes = {find(v) for j in need for v in members[j][0]}
        for j in range(i):
            if j in need:
                continue
            rv, m = members[j]
            reads, creates, mut = flow(prog[j])
            wanted = (
                (creates and any(j in members[q][0] for q in need))
                or (creates and find(j) in classes)
                or (m and any(find(v) in classes for v in rv))
            )
            if prog[j][0] in ("drop", "gc"):
                wanted = False
            if wanted:
                need.add(j)
                changed = True
    return sorted(need)


def prog_key(prog):
    return json.dumps(prog, separators=(",", ":"))
