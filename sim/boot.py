"""Bring up a simulated process: third-party code, seams, then treeno from /repo."""
import os
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
SCRATCH = os.environ.get("SIM_SCRATCH", "")


def third_party():
    import decimal, random, threading, time, functools, contextvars, weakref  # noqa: F401
    import concurrent.futures, queue, asyncio, inspect, logging, copy, pprint  # noqa: F401
    import attr, antlr4, typer, click  # noqa: F401
    import antlr4.error.ErrorListener, antlr4.error.Errors  # noqa: F401
    import nltk.tree  # noqa: F401


def paths():
    if SCRATCH:
        sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def treeno_modules():
    import importlib

    from . import ops

    for m in ops.ALL_MODULES:
        importlib.import_module(m)


def boot(import_treeno=True):
    third_party()
    from . import seams

    seams.install()
    paths()
    if import_treeno:
        treeno_modules()


ANTLR_WARM = [
    ("singleStatement", "WITH q AS (SELECT 1 AS x, 'a' y) SELECT a.x + 1, SUM(z) FILTER (WHERE x > 1) OVER (PARTITION BY y ORDER BY z DESC NULLS FIRST), CAST(x AS DECIMAL(10,2)), CASE WHEN x THEN 1 ELSE 2 END, COUNT(*) FROM a JOIN b ON a.x = b.x LEFT JOIN c USING (id) WHERE x IN (1, 2) AND NOT y LIKE 'a%' OR z IS NULL GROUP BY x, ROLLUP (y) HAVING COUNT(*) > 1 ORDER BY x LIMIT 5"),
    ("singleStatement", "SELECT * FROM (SELECT 1 AS x) AS q (y) CROSS JOIN UNNEST(ARRAY[1,2]) AS u (v) UNION ALL VALUES (1, 'a'), (2, 'b')"),
    ("singleStatement", "SELECT x FROM a TABLESAMPLE BERNOULLI (10) WHERE x BETWEEN 1 AND 10 AND (y IS DISTINCT FROM z)"),
    ("standaloneExpression", "(x, y) -> x || 'b' = 1.5E0 + -2 * m['k'] AND TIMESTAMP '2020-01-01' > CURRENT_TIMESTAMP(3) OR x IN (SELECT 1)"),
    ("standaloneType", "ROW(BIGINT,ARRAY(MAP(VARCHAR(3),TIMESTAMP(3) WITH TIME ZONE)))"),
]


def antlr_warm():
    """Exercise the generated parser directly (no treeno code), so that only the parser
    engine's prediction caches are warm."""
    import antlr4
    from treeno.grammar.gen.SqlBaseLexer import SqlBaseLexer
    from treeno.grammar.gen.SqlBaseParser import SqlBaseParser

    import random

    from . import corpus

    def go(rule, text):
        lx = SqlBaseLexer(antlr4.InputStream(text))
        lx.removeErrorListeners()
        p = SqlBaseParser(antlr4.CommonTokenStream(lx))
        p.removeErrorListeners()
        getattr(p, rule)()

    for rule, text in ANTLR_WARM:
        go(rule, text)
    for t in corpus.QUERIES + corpus.RESOLVABLE:
        go("singleStatement", t)
    for t in corpus.EXPRS:
        go("standaloneExpression", t)
    for t in corpus.TYPES:
        go("standaloneType", t)
    g = corpus.Gen(random.Random(3))
    for _ in range(40):
        go("singleStatement", g.query(2))


WARM_PRELUDE = [
    ["parse", "query", ANTLR_WARM[0][1], "w0"],
    ["print", "w0", "PRETTY", 4],
    ["resolve", "w0", ["c", "R:Schema.empty_schema"]],
    ["draw", "w0"],
    ["parse", "query", ANTLR_WARM[1][1], "w1"],
    ["str", "w1"],
    ["equals", "w0", "w1"],
    ["parse", "expression", "NOSUCHFN(1)", None],
    ["parse", "expression", "SUM(x) + 1.5", "w2"],
    ["visit", "w2"],
    ["parse", "type", "DECIMAL(10,2)", "w3"],
    ["print", "w3", "DEFAULT", 4],
]
