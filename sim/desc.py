"""Canonical descriptions of values, computed without running any treeno code."""
import enum
import functools
import hashlib
import json
import re
import types
from decimal import Decimal

_ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")
_SCALARS = (bool, int, float, str, bytes)


def _is_schema(v):
    return type(v).__name__ == "Schema" and hasattr(type(v), "__attrs_attrs__")


def public_items(o):
    """(name, value) of everything a client can see on an attrs-style node:
    declared fields and plain public instance attributes.  Private attributes are
    an implementation's business, except remembered schemas (documented state)."""
    out = []
    seen = set()
    d = getattr(o, "__dict__", {})
    cls = type(o)
    for a in getattr(cls, "__attrs_attrs__", ()):
        seen.add(a.name)
        try:
            v = object.__getattribute__(o, a.name)
        except AttributeError:
            continue
        if a.name.startswith("_") and not _is_schema(v):
            continue
        out.append((a.name, v))
    for k in list(d):
        if k in seen or k.startswith("_"):
            continue
        c = None
        for base in cls.__mro__:
            if k in base.__dict__:
                c = base.__dict__[k]
                break
        if isinstance(c, functools.cached_property):
            continue
        out.append((k, d[k]))
    return out


def is_node(o):
    return hasattr(type(o), "__attrs_attrs__") and not isinstance(o, type)


def describe(o, stack=None, depth=0):
    if o is None:
        return None
    t = type(o)
    if t in (bool, int, str):
        return o if t is not int or abs(o) < 2**53 else ["int", str(o)]
    if t is float:
        return ["float", repr(o)]
    if isinstance(o, enum.Enum):
        return ["enum", t.__qualname__, o.name]
    if isinstance(o, Decimal):
        return ["dec", str(o.as_tuple())]
    if isinstance(o, _SCALARS):
        return [t.__qualname__, repr(o)]
    if isinstance(o, type):
        return ["class", o.__module__ + "." + o.__qualname__]
    if stack is None:
        stack = {}
    if id(o) in stack:
        return ["cycle", depth - stack[id(o)]]
    stack[id(o)] = depth
    try:
        if isinstance(o, (list, tuple)):
            return [t.__name__] + [describe(x, stack, depth + 1) for x in list(o)]
        if isinstance(o, (set, frozenset)):
            return [t.__name__] + sorted(
                (describe(x, stack, depth + 1) for x in list(o)),
                key=lambda v: json.dumps(v, sort_keys=True),
            )
        if isinstance(o, dict):
            return ["dict"] + [
                [describe(k, stack, depth + 1), describe(v, stack, depth + 1)]
                for k, v in list(o.items())
            ]
        if is_node(o):
            return [
                "node",
                t.__module__.rsplit(".", 1)[-1] + "." + t.__qualname__,
            ] + [[k, describe(v, stack, depth + 1)] for k, v in public_items(o)]
        if isinstance(o, BaseException):
            return err_desc(o)
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType)):
            return ["fn", getattr(o, "__qualname__", "?")]
        # nltk trees are list subclasses; anything else is opaque
        return ["obj", t.__module__ + "." + t.__qualname__]
    finally:
        del stack[id(o)]


def err_desc(e, with_msg=True):
    t = type(e)
    name = t.__qualname__
    if isinstance(e, (RecursionError, MemoryError)) or not with_msg:
        return ["err", name]
    try:
        m = str(e)
    except BaseException as e2:  # a broken __str__ is part of the behaviour
        m = "<str failed: %s>" % type(e2).__name__
    return ["err", name, _ADDR.sub("0x", m)[:2000]]


def canon(d):
    return json.dumps(d, separators=(",", ":"), ensure_ascii=True)


def digest(d):
    return hashlib.sha1(canon(d).encode()).hexdigest()[:20]


def nodes(o, seen=None, out=None):
    """All mutable things reachable from o through public state (pre-order)."""
    if seen is None:
        seen, out = set(), []
    if o is None or isinstance(o, _SCALARS + (Decimal, enum.Enum, type)):
        return out
    if id(o) in seen:
        return out
    seen.add(id(o))
    if isinstance(o, (list, tuple, set, frozenset)):
        out.append(o)
        for x in list(o):
            nodes(x, seen, out)
    elif isinstance(o, dict):
        out.append(o)
        for x in list(o.values()):
            nodes(x, seen, out)
    elif is_node(o):
        out.append(o)
        for _, v in public_items(o):
            nodes(v, seen, out)
    return out
