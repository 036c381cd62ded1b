"""Numbers and words that the code under test mentions, read from its source: boundary
values for generated inputs.  Nothing is judged by them."""
import ast
import os
import re

REPO = os.environ.get("SIM_REPO", "/repo")
_INTS, _WORDS = None, None


def _load():
    global _INTS, _WORDS
    ints, words = {2**15, 2**16, 2**31, 2**63}, set()
    for base, dirs, files in os.walk(os.path.join(REPO, "treeno")):
        dirs[:] = sorted(d for d in dirs if d not in ("gen", "__pycache__"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(base, f)) as fh:
                    t = ast.parse(fh.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for n in ast.walk(t):
                v = getattr(n, "value", None) if isinstance(n, ast.Constant) else None
                if type(v) is int and 3 < abs(v) < 10**30:
                    ints.add(abs(v))
                elif type(v) is str and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{1,20}", v):
                    words.add(v)
    _INTS = sorted({m for n in ints for m in (n - 1, n, n + 1)})
    _WORDS = sorted(words)


def ints():
    if _INTS is None:
        _load()
    return _INTS


def words():
    if _WORDS is None:
        _load()
    return _WORDS
