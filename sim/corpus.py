"""SQL texts, builder recipes and schemas used by the simulated clients."""
import random
import re

from . import harvest

# ---- fixed pool: at least one text for every construct the library supports ----
EXPRS = """
1
-1
0
2147483648
-2147483649
1.0
-1.50
0.10
.5
1E0
1e10
-2.5E-3
123456789012345678901234567890.1234
-0.1234567890123456789012345678901234
-99999999999999999999999999999999.5
0.0000001
TRUE
FALSE
NULL
'1'
''
'a'
'hello world'
'  spaced  '
U&'\\0041bc'
x
"X"
"quoted name"
a.x
"a"."x"
x + y
x - y
x * y
x / y
x % y
+x
-x
-(-x)
x + y * z
(x + y) * z
x * (y + z) - a / (b % c)
1 + 2 * 3
1.5 + 2
1 + 1E0
x = 1
x <> 1
x < 1
x <= 1
x > 1
x >= 1
x AND y
x OR y
NOT x
NOT (x AND y)
(x OR y) AND (z OR w)
x AND y OR z AND NOT w
x IS NULL
x IS NOT NULL
x IS DISTINCT FROM y
x IS NOT DISTINCT FROM y
x BETWEEN 1 AND 10
x NOT BETWEEN y AND z + 1
x IN (1, 2, 3)
x NOT IN ('a', 'b')
x IN (SELECT y FROM t)
x NOT IN (SELECT 1)
x LIKE 'a%'
x NOT LIKE 'a_b'
x LIKE 'a!%' ESCAPE '!'
x || y
'a' || 'b' || 'c'
ARRAY[1, 2] || ARRAY[3]
CHAR 'a' || 'bc'
CASE WHEN x THEN 1 END
CASE WHEN x > 1 THEN 'a' WHEN x > 2 THEN 'b' ELSE 'c' END
CASE x WHEN 1 THEN 2 ELSE 3 END
CAST(x AS BIGINT)
CAST(1 AS DECIMAL(10,2))
CAST(1 AS DECIMAL(10,3))
CAST(x AS DECIMAL)
TRY_CAST(x AS VARCHAR(5))
TRY_CAST(x AS VARCHAR)
CAST(x AS TIMESTAMP(3) WITH TIME ZONE)
CAST(x AS TIMESTAMP)
CAST(x AS TIME(6))
CAST(x AS ROW(BIGINT,VARCHAR))
CAST(x AS ARRAY(INTEGER))
CAST(x AS MAP(VARCHAR,DOUBLE))
CAST(x AS INTERVAL DAY TO SECOND)
CAST(x AS DOUBLE PRECISION)
ARRAY[1, 2, 3]
ARRAY['a']
ARRAY[ARRAY[1], ARRAY[2]]
x[1]
ARRAY[1,2][1]
(1, 'a', x)
ROW(1, 2)
DECIMAL '1.25'
DECIMAL '-0.00000001'
TIMESTAMP '2020-01-01 00:00:00.123'
TIME '01:02:03.4'
DATE '2020-01-01'
CHAR 'abc'
JSON '1'
DOUBLE PRECISION '1.5'
INTERVAL '1' DAY
INTERVAL '-3' MONTH
INTERVAL -'3' YEAR
INTERVAL +'2' HOUR
INTERVAL '1-2' YEAR TO MONTH
CURRENT_DATE
CURRENT_TIME
CURRENT_TIME(3)
CURRENT_TIMESTAMP
CURRENT_TIMESTAMP(6)
LOCALTIME
LOCALTIMESTAMP(0)
CURRENT_USER
CURRENT_CATALOG
CURRENT_SCHEMA
CURRENT_PATH
NOW()
NORMALIZE(x)
NORMALIZE(x, NFD)
TIMESTAMP '2020-01-01' - DATE '2019-01-01'
SUM(x)
SUM(x) FILTER (WHERE y > 1)
SUM(x) OVER (PARTITION BY y ORDER BY z DESC NULLS FIRST)
SUM(x) OVER w
SUM(x) OVER (w ROWS BETWEEN 5 PRECEDING AND CURRENT ROW)
AVG(x) OVER (RANGE BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING)
MAX(x) OVER (GROUPS BETWEEN 1 PRECEDING AND 2 FOLLOWING)
MIN(x) OVER (ROWS UNBOUNDED PRECEDING)
COUNT(x)
COUNT(*)
COUNT(t.*)
ARRAY_AGG(x ORDER BY y, z DESC)
ARRAY_AGG(x) IGNORE NULLS OVER (ORDER BY y)
LISTAGG(x) WITHIN GROUP (ORDER BY y)
LISTAGG(x, ',') WITHIN GROUP (ORDER BY y DESC)
LISTAGG(x, ',' ON OVERFLOW TRUNCATE '...' WITH COUNT) WITHIN GROUP (ORDER BY y)
LISTAGG(x, ';' ON OVERFLOW TRUNCATE WITHOUT COUNT) WITHIN GROUP (ORDER BY y)
LISTAGG(x ON OVERFLOW ERROR) WITHIN GROUP (ORDER BY y)
MAX(x)
MAX(x, 3)
MIN(x)
MIN(x, 3)
MAX_BY(x, y)
MAX_BY(x, y, 3)
MIN_BY(x, y)
APPROX_DISTINCT(x)
APPROX_DISTINCT(x, 0.1)
APPROX_MOST_FREQUENT(3, x, 10)
APPROX_PERCENTILE(x, 0.5)
APPROX_PERCENTILE(x, y, 0.5)
NUMERIC_HISTOGRAM(10, x)
NUMERIC_HISTOGRAM(10, x, y)
QDIGEST_AGG(x)
QDIGEST_AGG(x, 1)
TDIGEST_AGG(x)
TDIGEST_AGG(x, 1)
MAP_AGG(x, y)
MULTIMAP_AGG(x, y)
HISTOGRAM(x)
MERGE(x)
CORR(x, y)
CHECKSUM(x)
BOOL_AND(x > 1)
IF(x, 1)
IF(x, 1, 2)
COALESCE(x, 1)
COALESCE(NULL, 1, 2)
NULLIF(x, 1)
TRY(x / y)
POWER(x, 2)
CONCAT(x, 'a')
CONCAT('a', 'b')
CHR(65)
CODEPOINT('a')
LENGTH('abc')
LOWER(x)
LPAD(x, 5, '0')
RPAD(x, 5, '0')
LTRIM(x)
RTRIM(x)
REPLACE(x, 'a')
REPLACE(x, 'a', 'b')
REVERSE(x)
SOUNDEX(x)
TO_UTF8('abc')
FROM_UTF8(x)
FROM_UTF8(x, '?')
LUHN_CHECK('79927398713')
HAMMING_DISTANCE('a', 'b')
LEVENSHTEIN_DISTANCE('a', 'b')
DATE(x)
DATE_TRUNC('day', x)
DATE_ADD('day', 1, x)
DATE_DIFF('day', x, y)
AT_TIMEZONE(x, 'UTC')
WITH_TIMEZONE(x, 'UTC')
FROM_UNIXTIME(x, 'UTC')
FROM_UNIXTIME(x, 1, 2)
FROM_UNIXTIME_NANOS(x)
FROM_ISO8601_DATE(x)
FROM_ISO8601_TIMESTAMP(x)
FROM_ISO8601_TIMESTAMP_NANOS(x)
TO_ISO8601(x)
TO_UNIXTIME(x)
TO_MILLISECONDS(x)
PARSE_DURATION('1s')
HUMAN_READABLE_SECONDS(3)
LAST_DAY_OF_MONTH(x)
x -> 1
(SELECT 1)
(SELECT x FROM t WHERE y = 1)
MAX((SELECT 1))
a.x + b.x * LENGTH(a.y || b.y)
SUM(x * CAST(y AS DECIMAL(12,4))) / COUNT(*) FILTER (WHERE z IS NOT NULL)
""".strip().splitlines()

TYPES = """
BOOLEAN
INTEGER
TINYINT
SMALLINT
BIGINT
REAL
DOUBLE
DOUBLE PRECISION
DECIMAL
DECIMAL(10)
DECIMAL(10,2)
DECIMAL(10,3)
DECIMAL(38,0)
VARCHAR
VARCHAR(5)
VARCHAR(6)
CHAR
CHAR(3)
VARBINARY
JSON
DATE
TIME
TIME(3)
TIME WITH TIME ZONE
TIMESTAMP
TIMESTAMP(3)
TIMESTAMP(6) WITH TIME ZONE
TIMESTAMP WITH TIME ZONE
INTERVAL YEAR TO MONTH
INTERVAL DAY TO SECOND
IPADDRESS
UUID
HYPERLOGLOG
P4HYPERLOGLOG
QDIGEST(BIGINT)
TDIGEST
ARRAY(BIGINT)
ARRAY(ARRAY(VARCHAR(3)))
ARRAY(DECIMAL(10,2))
MAP(VARCHAR,BIGINT)
MAP(BIGINT,ARRAY(DOUBLE))
ROW(BIGINT,VARCHAR)
ROW(ROW(INTEGER),ARRAY(INTEGER))
bigint
varchar(5)
UNKNOWN
""".strip().splitlines()

QUERIES = """
SELECT 1 FROM a JOIN b USING (x, y, z, w, id)
SELECT a.x, b.y, c.z FROM a JOIN b USING (x, y, z) LEFT JOIN c USING (p, q, r, s)
WITH p AS (SELECT 1 AS x), q AS (SELECT 2 AS y), r AS (SELECT 'c' AS z), s AS (SELECT 1.5 AS w) SELECT p.x, q.y, r.z, s.w FROM p CROSS JOIN q CROSS JOIN r CROSS JOIN s
SELECT SUM(x) OVER w1, AVG(x) OVER w2, MAX(x) OVER w3, MIN(x) OVER w4 FROM a WINDOW w1 AS (ORDER BY z), w2 AS (PARTITION BY y), w3 AS (PARTITION BY x, y, z), w4 AS (ORDER BY x DESC, y, z NULLS FIRST)
SELECT x, y, z, w FROM a GROUP BY GROUPING SETS ((x, y), (z), (), (w, x, y, z)), CUBE (x, y, z), ROLLUP (w, z), x
SELECT p.m, p.n, p.o, p.k FROM (SELECT 1, 'a', 2.5, TRUE) AS p (m, n, o, k) ORDER BY 4, 3 DESC, 2 NULLS FIRST, 1
VALUES (1, 'a', 2.5, TRUE), (2, 'b', 3.5, FALSE), (3, 'c', 4.5, NULL)
SELECT 1, 'a', TRUE UNION SELECT 2, 'b', FALSE UNION ALL SELECT 3, 'c', TRUE EXCEPT SELECT 4, 'd', NULL
SELECT 1
SELECT 1, 'a', 1.5, NULL, TRUE
SELECT 1 AS foo, 2 bar
SELECT *
SELECT * FROM t
SELECT t.* FROM t
SELECT t.* AS (p, q) FROM t
SELECT x FROM a
SELECT x, y AS why FROM a
SELECT DISTINCT x FROM a
SELECT ALL x FROM a
SELECT a.x, a.y + 1 FROM a
SELECT x FROM c.s.t
SELECT x FROM s.t
SELECT x FROM a WHERE y > 1
SELECT x FROM a WHERE y > 1 AND z LIKE 'b%' OR w IS NULL
SELECT x, COUNT(*) FROM a GROUP BY x
SELECT x, COUNT(*) FROM a GROUP BY x HAVING COUNT(*) > 1
SELECT x, y, SUM(z) FROM a GROUP BY ROLLUP (x, y)
SELECT x, y, SUM(z) FROM a GROUP BY CUBE (x, y)
SELECT x, y, SUM(z) FROM a GROUP BY GROUPING SETS ((x), (x, y), ())
SELECT x FROM a GROUP BY DISTINCT x, y
SELECT x FROM a ORDER BY x
SELECT x FROM a ORDER BY x DESC NULLS FIRST, y ASC NULLS LAST
SELECT x FROM a LIMIT 5
SELECT x FROM a LIMIT ALL
SELECT x FROM a OFFSET 3 LIMIT 5
SELECT x FROM a ORDER BY 1 OFFSET 2 ROWS LIMIT 7
SELECT SUM(x) OVER w FROM a WINDOW w AS (PARTITION BY y ORDER BY z)
SELECT SUM(x) OVER w, AVG(x) OVER v FROM a WINDOW w AS (ORDER BY z), v AS (PARTITION BY y)
SELECT 1 UNION SELECT 2
SELECT 1 UNION ALL SELECT 2
SELECT 1 INTERSECT SELECT 2
SELECT 1 EXCEPT SELECT 2
SELECT x FROM a UNION SELECT x FROM b
SELECT 1, 'a' UNION ALL SELECT 2, 'b'
(SELECT 1) UNION (SELECT 2 EXCEPT SELECT 3)
VALUES 1, 2, 3
VALUES (1, 'a'), (2, 'b')
VALUES 1, 2.2
TABLE t
TABLE s.t
SELECT x FROM (SELECT 1 AS x)
SELECT x FROM (SELECT 1 AS x, 'a' AS y) q
SELECT q.x, q.y FROM (SELECT 1, 'a') AS q (x, y)
SELECT x FROM a JOIN b ON a.id = b.id
SELECT a.x, b.y FROM a LEFT JOIN b ON a.id = b.id AND a.z > 1
SELECT a.x FROM a RIGHT OUTER JOIN b USING (id)
SELECT a.x FROM a FULL JOIN b USING (id, x)
SELECT a.x FROM a CROSS JOIN b
SELECT a.x FROM a NATURAL JOIN b
SELECT a.x FROM a INNER JOIN b ON a.x = b.x CROSS JOIN c
SELECT x FROM (a JOIN b ON TRUE) TABLESAMPLE BERNOULLI (10)
SELECT x FROM a TABLESAMPLE SYSTEM (99)
SELECT v FROM UNNEST(ARRAY[1,2,3]) AS u (v)
SELECT u.v, u.n FROM UNNEST(ARRAY['a','b']) WITH ORDINALITY AS u (v, n)
SELECT a.x, u.v FROM a CROSS JOIN UNNEST(a.arr) AS u (v)
SELECT a.x FROM a CROSS JOIN LATERAL (SELECT a.x + 1)
WITH q AS (SELECT 1 AS x) SELECT x FROM q
WITH q (x, y) AS (SELECT 1, 'a'), r AS (SELECT x, y FROM q) SELECT r.x, r.y FROM r
WITH a AS (SELECT 1 AS x) SELECT a.x, b.x FROM a JOIN b ON a.x = b.x
WITH a AS (SELECT 1 AS id, 2.5 AS x), b AS (SELECT 1 AS id, 'z' AS y) SELECT a.x, b.y, a.x + a.id FROM a JOIN b ON a.id = b.id WHERE a.x > 1 ORDER BY b.y
SELECT CASE WHEN x > 1 THEN 'big' ELSE 'small' END AS size, CAST(y AS DECIMAL(10,2)) FROM a
SELECT COALESCE(x, 0), POWER(y, 2), CURRENT_DATE FROM a
SELECT x IN (SELECT y FROM b) FROM a
SELECT (1, 2), ROW('a'), ARRAY[x, y], m['k'] FROM a
SELECT x FROM a WHERE x BETWEEN 1 AND 2 AND y NOT IN (1, 2) AND z IS DISTINCT FROM w
SELECT long_column_name_number_one, long_column_name_number_two, long_column_name_number_three, long_column_name_number_four FROM some_long_table_name
SELECT x AS "Quoted Alias", 'lit  eral' FROM "My Table"
select 1
Select x From a Where y = 'Case'
""".strip().splitlines()

INVALID = [
    ["query", "SELEC 1"],
    ["query", "SELECT FROM"],
    ["query", "SELECT 1 FROM a, b"],
    ["query", "SELECT NOSUCHFN(1)"],
    ["query", "SELECT ? FROM a"],
    ["query", "WITH RECURSIVE q AS (SELECT 1) SELECT 1"],
    ["query", "SELECT a.b.c.d FROM t"],
    ["query", "SELECT x FROM `t`"],
    ["query", "SELECT 1x"],
    ["query", ""],
    ["query", "SELECT LENGTH(1, 2, 3)"],
    ["query", "SELECT CAST(1 AS NOSUCHTYPE)"],
    ["query", "SELECT 1 INTERSECT ALL SELECT 2"],
    ["query", "SELECT x FROM a LIMIT 5 OFFSET 3"],
    ["query", "SELECT LENGTH(x) OVER (ORDER BY y) FROM a"],
    ["query", "SELECT 1 UNION SELECT 'a'"],
    ["query", "SELECT 1 UNION SELECT 1.5"],
    ["query", "VALUES (1, 'a'), ('b', 2)"],
    ["expression", "1 +"],
    ["expression", "(1"],
    ["expression", "x = ALL (SELECT 1)"],
    ["expression", "EXISTS (SELECT 1)"],
    ["expression", "x LIKE"],
    ["expression", "CASE END"],
    ["expression", "?"],
    ["expression", "NOSUCHFN(x)"],
    ["expression", "AnotherMissing(x, y)"],
    ["expression", "SUM(x, y, z)"],
    ["expression", "DECIMAL 'abc'"],
    ["expression", "EXTRACT(YEAR FROM x)"],
    ["expression", "x AT TIME ZONE 'UTC'"],
    ["expression", "x[1]::BIGINT"],
    ["expression", "POSITION('a' IN x)"],
    ["expression", "GROUPING(x, y)"],
    ["expression", "SUBSTRING(x FROM 1 FOR 2)"],
    ["expression", "TRIM(BOTH 'a' FROM x)"],
    ["expression", "COUNT(DISTINCT x)"],
    ["expression", "LISTAGG(x, ',') FILTER (WHERE y) WITHIN GROUP (ORDER BY y)"],
    ["expression", "COALESCE(x)"],
    ["expression", "(x, x) -> x"],
    ["expression", "INTERVAL '1' DAY TO YEAR"],
    ["expression", "LENGTH(x) FILTER (WHERE y)"],
    ["expression", "LENGTH(x ORDER BY y)"],
    ["expression", "X'zz'"],
    ["expression", "U&'abc'"],
    ["expression", "x = ANY (SELECT 1)"],
    ["query", "SELECT x FROM a FETCH FIRST 5 ROWS ONLY"],
    ["query", "SELECT x FROM a JOIN b USING (x) WHERE"],
    ["query", "SELECT x FROM a MATCH_RECOGNIZE (PATTERN (A) DEFINE A AS TRUE)"],
    ["query", "SELECT x FROM a FOR VERSION AS OF 1"],
    ["query", "SELECT SUM(x) OVER (ORDER BY y RANGE BETWEEN 1 PRECEDING) FROM a"],
    ["query", "SELECT x FROM a TABLESAMPLE BERNOULLI ('x')"],
    ["query", "SELECT x FROM a WHERE EXISTS (SELECT 1) AND NOSUCHFN(y)"],
    ["type", "NOSUCHTYPE"],
    ["type", "FOO(1)"],
    ["type", "BIGINT(3)"],
    ["type", "DECIMAL(99)"],
    ["type", "ARRAY<BIGINT>"],
    ["type", "ROW(a BIGINT)"],
    ["type", "TIMESTAMP(13)"],
    ["type", "INTERVAL DAY TO MINUTE"],
    ["type", "MAP(BIGINT)"],
]

# ---- near-duplicate families: any lossy key (case, spacing, ==-equality) confuses them
FAMILIES = [
    [["expression", s] for s in ("1", "TRUE", "1.0", "1E0", "'1'", "+1", "01", "1.00")],
    [["expression", s] for s in ("0", "FALSE", "0.0", "0E0", "-0", "''", "'0'", "NULL")],
    [["expression", s] for s in ("x", "X", '"x"', '"X"', "'x'", "x.x", "X.x")],
    [["expression", s] for s in ("x + 1", "x+1", "X + 1", "x + 1.0", "x + TRUE", "x + '1'", "x - 1")],
    [["expression", s] for s in ("'a b'", "'a  b'", "'A b'", "'a\tb'", "'a b '", "' a b'")],
    [["expression", s] for s in ("sum(x)", "SUM(x)", "Sum(X)", "SUM('x')", "SUM(x) FILTER (WHERE x)", "MAX(x)")],
    [["expression", s] for s in ("x = 1 AND y = 2", "x = 1 OR y = 2", "(x = 1) AND (y = 2)", "x = (1 AND y) = 2", "NOT x = 1 AND y = 2")],
    [["expression", s] for s in ("CAST(x AS DECIMAL(10,2))", "CAST(x AS DECIMAL(10,3))", "TRY_CAST(x AS DECIMAL(10,2))", "CAST(x AS DECIMAL(2,10))", "CAST(x AS DECIMAL(10))")],
    [["expression", s] for s in ("DECIMAL '1.0'", "DECIMAL '1.00'", "DECIMAL '1'", "CHAR '1.0'", "decimal '1.0'")],
    [["expression", s] for s in ("x -> x + 1", "y -> x + 1", "(x, y) -> x + y", "(y, x) -> x + y", "(x, y) -> x + z")],
    [["expression", s] for s in ("CASE WHEN x THEN 1 END", "CASE x WHEN x THEN 1 END", "CASE WHEN x THEN 1 ELSE 1 END", "CASE WHEN x THEN 1.0 END")],
    [["type", s] for s in ("DECIMAL(10,2)", "DECIMAL(10,3)", "DECIMAL(10)", "DECIMAL", "decimal(10,2)", "DECIMAL(2,2)")],
    [["type", s] for s in ("VARCHAR(5)", "VARCHAR(6)", "VARCHAR", "CHAR(5)", "CHAR", "varchar")],
    [["type", s] for s in ("TIMESTAMP(3)", "TIMESTAMP(6)", "TIMESTAMP", "TIMESTAMP(3) WITH TIME ZONE", "TIME(3)", "TIME")],
    [["type", s] for s in ("ARRAY(BIGINT)", "ARRAY(INTEGER)", "ARRAY(ARRAY(BIGINT))", "QDIGEST(BIGINT)", "MAP(BIGINT,BIGINT)", "ROW(BIGINT)")],
    [["query", s] for s in ("SELECT x FROM t", "SELECT X FROM t", "SELECT x FROM T", 'SELECT "x" FROM "t"', "SELECT 'x' FROM t", "SELECT  x  FROM  t")],
    [["query", s] for s in ("SELECT 1", "SELECT 1.0", "SELECT TRUE", "SELECT '1'", "SELECT 1E0", "VALUES 1", "SELECT DISTINCT 1")],
    [["query", s] for s in ("SELECT x FROM a LIMIT 1", "SELECT x FROM a LIMIT 2", "SELECT x FROM a OFFSET 1", "SELECT x FROM a OFFSET 1 LIMIT 1", "SELECT x FROM a LIMIT ALL")],
    [["query", s] for s in ("SELECT x FROM a JOIN b USING (x)", "SELECT x FROM a JOIN b USING (y)", "SELECT x FROM a JOIN b ON a.x = b.x", "SELECT x FROM b JOIN a USING (x)", "SELECT x FROM a LEFT JOIN b USING (x)")],
    [["query", s] for s in ("WITH q AS (SELECT 1 AS x) SELECT x FROM q", "WITH q AS (SELECT 'a' AS x) SELECT x FROM q", "WITH q AS (SELECT 1 AS y) SELECT x FROM q", "SELECT x FROM q")],
    [["query", s] for s in ("SELECT x FROM a UNION SELECT x FROM b", "SELECT x FROM a UNION ALL SELECT x FROM b", "SELECT x FROM a EXCEPT SELECT x FROM b", "SELECT x FROM b UNION SELECT x FROM a")],
    [["query", s] for s in ("SELECT SUM(x) OVER w FROM a WINDOW w AS (ORDER BY y)", "SELECT SUM(x) OVER w FROM a WINDOW w AS (ORDER BY y DESC)", "SELECT SUM(x) OVER (ORDER BY y) FROM a", "SELECT SUM(x) OVER w FROM a WINDOW w AS (PARTITION BY y)")],
    [["expression", s] for s in ('a.b', '"a.b"', '"a"."b"', 'a.b.c', '"a.b".c', 'a."b.c"', '"a.b.c"', '"a""b"')],
    [["query", s] for s in ("SELECT x FROM a.b", 'SELECT x FROM "a.b"', 'SELECT x FROM a.b.c', 'SELECT x FROM "a.b".c', 'SELECT x FROM a."b.c"', 'SELECT a.b FROM c', 'SELECT "a.b" FROM c')],
]

# texts containing each other, with one spelling of a name and different context
RESOLVABLE = """
SELECT x FROM a
SELECT x, y FROM a
SELECT a.x, a.y FROM a
SELECT * FROM a
SELECT a.* FROM a
SELECT x + 1 AS z, y FROM a
SELECT x + y, y || 'b', COALESCE(x, 0) FROM a
SELECT a.x, b.w FROM a JOIN b ON a.x = b.w
SELECT a.x, b.w, c.v FROM a JOIN b ON a.x = b.w CROSS JOIN c
SELECT p.x, q.w FROM a AS p JOIN b AS q ON p.x = q.w
SELECT p.m, p.n FROM a AS p (m, n)
SELECT q.x FROM (SELECT x, y FROM a) AS q
SELECT x FROM (SELECT x, y FROM a)
SELECT x, w FROM (SELECT x FROM a UNION SELECT w FROM b) CROSS JOIN (SELECT w FROM b)
SELECT * FROM (TABLE a)
SELECT * FROM (VALUES (1, 'a'), (2, 'b'))
SELECT u.v FROM a CROSS JOIN UNNEST(ARRAY[1,2]) AS u (v)
SELECT u.v FROM UNNEST(ARRAY['p','q']) AS u (v)
SELECT a.x, l.k FROM a CROSS JOIN LATERAL (SELECT b.w AS k FROM b) AS l
WITH q AS (SELECT 1 AS x, 'z' AS y) SELECT x, y FROM q
WITH q AS (SELECT x FROM a) SELECT q.x FROM q
WITH q AS (SELECT 1 AS x), r AS (SELECT x + 1 AS y FROM q) SELECT r.y, q.x FROM q JOIN r ON q.x = r.y
WITH a AS (SELECT 'shadow' AS x) SELECT x FROM a
WITH a AS (TABLE b) SELECT w FROM b
WITH a AS (TABLE s) SELECT y FROM u
WITH b AS (SELECT * FROM nowhere) SELECT x, w FROM a JOIN b ON TRUE
WITH a AS (VALUES 1, 2) SELECT x FROM a
WITH a AS (SELECT 1 AS x), a AS (SELECT 'b' AS x) SELECT x FROM a
WITH c AS (SELECT v FROM c) SELECT c.v, a.x FROM a CROSS JOIN c
SELECT x FROM (WITH a AS (SELECT 2.5 AS x) SELECT x FROM a) AS q
SELECT a.x FROM a JOIN (WITH a AS (SELECT 'q' AS x) SELECT x FROM a) AS b ON a.x = b.x
SELECT x FROM a UNION SELECT w FROM b
SELECT x FROM a TABLESAMPLE BERNOULLI (10)
SELECT CAST(x AS VARCHAR), SUM(y) OVER (ORDER BY x) FROM a
SELECT CASE WHEN x > 1 THEN y ELSE 'n' END FROM a WHERE x IN (1, 2)
TABLE a
SELECT b.w FROM c.s.b
SELECT x, w FROM a JOIN b USING (id) WHERE v = 1
SELECT MAX(x), COUNT(*) FROM a GROUP BY y
SELECT nosuch FROM a
SELECT * FROM a JOIN b ON a.x = b.w CROSS JOIN c
SELECT * FROM (SELECT 1 AS x) AS p CROSS JOIN (SELECT 'a' AS y) AS q CROSS JOIN (SELECT 2.5 AS z) AS r
SELECT q.*, p.* FROM (SELECT 1 AS x, TRUE AS w) AS p CROSS JOIN (SELECT 'a' AS y) AS q
WITH p AS (SELECT 1 AS x), q AS (SELECT 'a' AS y), r AS (SELECT 2.5 AS z) SELECT * FROM p CROSS JOIN q CROSS JOIN r
SELECT x FROM a JOIN b ON TRUE JOIN c ON TRUE
SELECT 1, x FROM nowhere
""".strip().splitlines()

BIGINT, VARCHAR, DOUBLE = ["c", "D:bigint"], ["c", "D:varchar", [], {"max_chars": 7}], ["c", "D:double"]
DEC = ["c", "D:decimal", [], {"precision": 12, "scale": 3}]
ARR = ["c", "D:array", [], {"dtype": BIGINT}]
SCHEMAS = [
    ["c", "R:Schema.empty_schema"],
    ["schema", [["x", "a", BIGINT], ["y", "a", VARCHAR], ["w", "b", BIGINT], ["v", "c", DOUBLE]], ["a", "b", "c"]],
    ["schema", [["x", "a", DEC], ["y", "a", ARR], ["w", "b", VARCHAR], ["v", "b", BIGINT]], ["a", "b", "c"]],
    ["schema", [["x", "a", DOUBLE], ["x", "b", BIGINT], ["id", "a", BIGINT], ["id", "b", BIGINT]], ["a", "b"]],
    ["schema", [], ["a"]],
    ["schema", [], ["a", "b", "q"]],
    ["schema", [["x", "a", BIGINT], ["y", "a", VARCHAR]], ["a", "b", "c", "nowhere"]],
    ["schema", [["k1", "b", BIGINT], ["k2", "a", VARCHAR], ["x", "a", BIGINT], ["k3", "c", DEC], ["w", "b", BIGINT], ["y", "a", VARCHAR], ["v", "c", DOUBLE],
                ["k4", "b", ARR], ["k5", "a", BIGINT], ["k6", "c", VARCHAR]], ["a", "b", "c"]],
]


def schema(rng):
    """a schema a query may be resolved in"""
    if rng.random() < 0.75:
        return rng.choice(SCHEMAS)
    tabs = rng.sample(TABS, rng.choice([1, 2, 3, 4]))
    names = ["x", "y", "w", "v", "id", "k1", "k2", "k3"]
    types = [BIGINT, VARCHAR, DEC, ARR, DOUBLE]
    fs = [[rng.choice(names), rng.choice(tabs), rng.choice(types)] for _ in range(rng.choice([0, 1, 3, 6, 9, 10, 12, 14]))]
    return ["schema", fs, sorted(set(tabs + (["a", "b", "c"] if rng.random() < 0.6 else [])))]


LIT = ["c", "E:wrap_literal", [1]]


def F(name, table=None):
    return ["c", "E:Field", [name] + ([table] if table else [])]


# ---- builder recipes (node classes, operators, builders, default arguments) ----
OPTS = [
    ["c", "B:PrintOptions"],
    ["c", "B:PrintOptions", [], {"mode": ["e", "B:PrintMode", "PRETTY"]}],
    ["c", "B:PrintOptions", [], {"mode": ["e", "B:PrintMode", "PRETTY"], "spaces": 2}],
    ["c", "B:PrintOptions", [], {"mode": ["e", "B:PrintMode", "PRETTY"], "spaces": 8}],
    ["c", "B:PrintOptions", [], {"spaces": 70}],
]
RECIPES = [
    F("x"),
    F("x", "a"),
    ["c", "E:Star"],
    ["c", "E:Star", ["a"]],
    LIT,
    ["c", "E:wrap_literal", ["a"]],
    ["c", "E:wrap_literal", [True]],
    ["c", "E:wrap_literal", [["dec", "1.0"]]],
    ["c", "E:wrap_literal", [["dec", "1.00"]]],
    ["c", "E:wrap_literal", [["dec", "-0.000000012"]]],
    ["c", "E:wrap_literal", [["f", "1.0"]]],
    ["c", "E:wrap_literal", [4294967296]],
    ["o", "+", F("x"), 1],
    ["o", "-", F("x"), ["dec", "1.5"]],
    ["o", "*", ["o", "+", F("x"), 1], ["o", "/", F("y"), 2]],
    ["o", "**", F("x"), 2],
    ["o", "%", F("x"), 2],
    ["o", "&", ["o", ">", F("x"), 1], ["o", "<=", F("y"), 2]],
    ["o", "|", ["o", "==", F("x"), "a"], ["o", "!=", F("y"), "b"]],
    ["u", "~", ["o", "==", F("x"), 1]],
    ["u", "neg", F("x")],
    ["u", "pos", F("x")],
    ["c", "E:AliasedValue", [["o", "+", F("x"), 1], "z"]],
    ["c", "E:AliasedStar", [["c", "E:Star", ["a"]], ["l", "p", "q"]]],
    ["c", "E:Array", [["l", 1, 2, 3]]],
    ["c", "E:Array.from_values", [1, 2]],
    ["c", "E:InList", [F("x"), ["l", 1, 2]]],
    ["c", "E:Between", [F("x"), 1, 2]],
    ["c", "E:Like", [F("x"), ["c", "E:wrap_literal", ["a%"]]]],
    ["c", "E:IsNull", [F("x")]],
    ["c", "E:DistinctFrom", [F("x"), F("y")]],
    ["c", "E:Cast", [F("x")], {"data_type": ["c", "D:bigint"]}],
    ["c", "E:TryCast", [F("x")], {"data_type": ["c", "D:decimal", [], {"precision": 10, "scale": 2}]}],
    ["c", "E:Subscript", [F("x"), 1]],
    ["c", "E:RowConstructor", [["l", LIT, ["c", "E:wrap_literal", ["b"]]]]],
    ["c", "E:TypeConstructor", ["1.5", "decimal"]],
    ["c", "E:Interval", ["'1'", "DAY"]],
    ["c", "E:Case", [["l", ["c", "E:When", [["o", ">", F("x"), 1], "big"]]], ["c", "E:Else", ["small"]]]],
    ["c", "E:Lambda.from_generic_expr", [["l", ["c", "E:Lambda.Variable", ["x"]]], ["o", "+", F("x"), F("y")]]],
    ["c", "E:InQuery", [F("x"), ["c", "R:SelectQuery", [["l", LIT]]]]],
    ["c", "FA:Sum", [F("x")]],
    ["c", "FA:Sum", [F("x")], {"window": ["c", "W:Window"]}],
    ["c", "FA:Sum", [F("x")], {"window": ["c", "W:Window", [], {"partitions": ["l", F("y")], "orderby": ["l", ["c", "O:OrderTerm", [F("z")]]]}]}],
    ["c", "FA:ArrayAgg", [F("x")], {"orderby": ["l", ["c", "O:OrderTerm", [F("z"), ["e", "O:OrderType", "DESC"]]]], "filter_": ["o", ">", F("x"), 1]}],
    ["c", "FA:ListAgg", [F("x")], {"separator": ",", "orderby": ["l", ["c", "O:OrderTerm", [F("y")]]]}],
    ["c", "FA:Count", [["c", "E:Star"]]],
    ["c", "FA:MaxBy", [F("x"), F("y")]],
    ["c", "FC:Concatenate", [["l", "a", F("x")]]],
    ["c", "FN:Coalesce", [["l", F("x"), 1, 2]]],
    ["c", "FN:If", [["o", ">", F("x"), 1], 1, 2]],
    ["c", "FN:NullIf", [F("x"), 1]],
    ["c", "FD:CurrentTimestamp"],
    ["c", "FD:CurrentTime", [3]],
    ["c", "FD:DateTrunc", ["day", F("x")]],
    ["c", "FM:Power", [F("x"), 2]],
    ["c", "FT:LPad", [F("x"), 3, "0"]],
    ["c", "W:Window"],
    ["c", "W:Window", [], {"parent_window": "w", "orderby": ["l", ["c", "O:OrderTerm", [F("x")]]]}],
    ["c", "O:OrderTerm", [F("x")]],
    ["c", "G:GroupBy", [["l", ["c", "G:GroupingSet", [["l", F("x")]]]]]],
    ["c", "G:GroupBy", [["l", ["c", "G:Cube", [["l", F("x"), F("y")]]], ["c", "G:Rollup", [["l", F("z")]]]]]],
    ["c", "R:Table", ["a"]],
    ["c", "R:Table", ["a", "s", "c"]],
    ["c", "R:TableQuery", [["c", "R:Table", ["a"]]]],
    ["c", "R:SelectQuery", [["l", LIT]]],
    ["c", "R:SelectQuery", [["l", F("x")], ["c", "R:Table", ["a"]]]],
    ["c", "R:SelectQuery", [["l", F("x"), ["c", "E:AliasedValue", [F("y"), "z"]]], ["c", "R:Table", ["a"]]], {"where": ["o", ">", F("x"), 1], "limit": 3, "orderby": ["l", ["c", "O:OrderTerm", [F("x")]]]}],
    ["c", "R:SelectQuery", [["l", F("x")]], {"from_": ["c", "R:Join", [["c", "R:Table", ["a"]], ["c", "R:Table", ["b"]], ["c", "R:JoinConfig", [["e", "R:JoinType", "INNER"]], {"criteria": ["c", "R:JoinUsingCriteria", [["l", "x"]]]}]]]}],
    ["c", "R:SelectQuery", [["l", F("v", "u")], ["c", "R:AliasedRelation", [["c", "R:Unnest", [["l", ["c", "E:Array", [["l", 1, 2]]]]]], "u", ["l", "v"]]]]],
    ["c", "R:UnionQuery", [["c", "R:SelectQuery", [["l", LIT]]], ["c", "R:SelectQuery", [["l", LIT]]]]],
    ["c", "R:ValuesQuery", [["l", LIT, ["c", "E:wrap_literal", [2]]]]],
    ["c", "R:AliasedRelation", [["c", "R:Table", ["a"]], "p"]],
    ["c", "R:Lateral", [["c", "R:SelectQuery", [["l", LIT]]]]],
    ["c", "R:TableSample", [["c", "R:Table", ["a"]], ["e", "R:SampleType", "SYSTEM"], LIT]],
    ["c", "R:Schema.empty_schema"],
    ["c", "D:bigint"],
    ["c", "D:decimal"],
    ["c", "D:decimal", [], {"precision": 10, "scale": 2}],
    ["c", "D:varchar"],
    ["c", "D:varchar", [], {"max_chars": 3}],
    ["c", "D:char"],
    ["c", "D:timestamp"],
    ["c", "D:timestamp", [], {"precision": 3, "timezone": True}],
    ["c", "D:time", [], {"precision": 3}],
    ["c", "D:array", [], {"dtype": ["c", "D:bigint"]}],
    ["c", "D:map_", [], {"from_dtype": ["c", "D:varchar"], "to_dtype": ["c", "D:bigint"]}],
    ["c", "D:row", [], {"dtypes": ["l", ["c", "D:bigint"], ["c", "D:varchar"]]}],
    ["c", "D:unknown"],
    ["c", "D:interval", [], {"from_interval": "DAY", "to_interval": "SECOND"}],
    ["c", "I:infer_type", [1]],
    ["c", "I:infer_type", [True]],
    ["c", "I:infer_type", ["abc"]],
    ["c", "I:infer_type", [["dec", "10.25"]]],
    ["c", "I:infer_type", [["f", "1.0"]]],
    ["c", "C:common_supertype", [["c", "D:bigint"], ["c", "D:double"]]],
    ["c", "C:common_supertype", [["c", "D:decimal", [], {"precision": 10, "scale": 2}], ["c", "D:integer"]]],
    ["c", "C:common_supertype", [["c", "D:varchar", [], {"max_chars": 3}], ["c", "D:char", [], {"max_chars": 5}]]],
    ["c", "C:get_arithmetic_type", [["c", "D:decimal", [], {"precision": 10, "scale": 2}], ["c", "D:decimal", [], {"precision": 12, "scale": 4}]]],
    ["c", "C:get_arithmetic_type", [["c", "D:integer"], ["c", "D:bigint"]]],
]
BAD_RECIPES = [
    ["c", "E:wrap_literal", [None]],
    ["c", "E:Array", [["l"]]],
    ["c", "D:decimal", [], {"precision": 99}],
    ["c", "T:DataType", ["nosuch"]],
    ["c", "T:DataType", ["bigint"], {"parameters": ["d", ["precision", 1]]}],
    ["c", "D:array"],
    ["c", "R:SelectQuery", [["l"]]],
    ["c", "R:Table", ["a"], {"catalog": "c"}],
    ["c", "C:common_supertype", [["c", "D:bigint"], ["c", "D:varchar"]]],
    ["c", "I:infer_type", [None]],
    ["c", "R:IntersectQuery", [["c", "R:SelectQuery", [["l", LIT]]], ["c", "R:SelectQuery", [["l", LIT]]]], {"set_quantifier": ["e", "B:SetQuantifier", "ALL"]}],
]


# ---- seeded generator ---------------------------------------------------------
NAMES = ["x", "y", "z", "w", "id", "X", "val"]
TABS = ["a", "b", "t", "c"]
STRS = ["a", "b", "A", "x", "", "it", "day", "a  b"]
UNF = ["SUM", "AVG", "MAX", "MIN", "COUNT", "LENGTH", "LOWER", "REVERSE", "DATE", "CHR", "HISTOGRAM", "TO_UTF8", "ARBITRARY", "STDDEV", "TRY", "COALESCE"]
BIF = ["NULLIF", "POWER", "CONCAT", "MAX_BY", "MAP_AGG", "CORR", "COALESCE", "REPLACE"]


class Gen:
    def __init__(self, rng, names=None, tabs=None):
        self.r = rng
        self.names = names or rng.sample(NAMES, 4)
        self.tabs = tabs or rng.sample(TABS, 3)

    def lit(self):
        r = self.r
        return r.choice(
            [
                lambda: str(r.choice([0, 1, 2, 3, 10, 100, 2147483647, 2147483648])),
                lambda: r.choice(["1.0", "1.00", "0.5", "2.25", "10.10"]),
                lambda: r.choice(["1E0", "2.5E3"]),
                lambda: "'%s'" % r.choice(STRS),
                lambda: r.choice(["TRUE", "FALSE", "NULL"]),
            ]
        )()

    def col(self):
        r = self.r
        n = r.choice(self.names)
        if r.random() < 0.3:
            return "%s.%s" % (r.choice(self.tabs), n)
        if r.random() < 0.1:
            return '"%s"' % n
        if r.random() < 0.04:
            t = r.choice(self.tabs)
            return r.choice(['"%s.%s"' % (t, n), '"%s"."%s"' % (t, n), '%s."%s.%s"' % (t, t, n), '"%s.%s".%s' % (t, t, n), '"%s %s"' % (t, n), '"select"', '"%s,%s"' % (t, n)])
        return n

    def typ(self):
        return self.r.choice(TYPES)

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.lit() if r.random() < 0.4 else self.col()
        if r.random() < 0.2:
            return self.special(d)
        if d > 1 and r.random() < 0.08:
            return self.nested(d)
        k = r.randrange(15)
        e = lambda: self.expr(d - 1)
        if k == 0:
            return "%s %s %s" % (e(), r.choice("+-*/%"), e())
        if k == 1:
            return "(%s) %s (%s)" % (e(), r.choice("+-*/"), e())
        if k == 2:
            return "(%s) %s (%s)" % (e(), r.choice(["=", "<>", "<", ">", "<=", ">="]), e())
        if k == 3:
            return "(%s) %s (%s)" % (e(), r.choice(["AND", "OR"]), e())
        if k == 4:
            return "NOT (%s)" % e()
        if k == 5:
            return "(%s) IS %sNULL" % (e(), r.choice(["", "NOT "]))
        if k == 6:
            return "%s(%s)" % (r.choice(UNF), e())
        if k == 7:
            return "%s(%s, %s)" % (r.choice(BIF), e(), e())
        if k == 8:
            return "CASE WHEN %s THEN %s ELSE %s END" % (e(), e(), e())
        if k == 9:
            return "CAST(%s AS %s)" % (e(), self.typ())
        if k == 10:
            return "(%s) %sIN (%s)" % (e(), r.choice(["", "NOT "]), ", ".join(self.lit() for _ in range(self.count())))
        if k == 11:
            return "ARRAY[%s]" % ", ".join(e() for _ in range(r.randint(1, 3)))
        if k == 12:
            return "%s(%s) OVER (PARTITION BY %s ORDER BY %s)" % (r.choice(["SUM", "MAX", "COUNT"]), e(), self.col(), self.col())
        if k == 13:
            return "%s BETWEEN %s AND %s" % (self.col(), self.lit(), self.lit())
        return r.choice(EXPRS)

    def count(self, big=0.15):
        return self.r.choice([1, 1, 2, 2, 3]) if self.r.random() > big else self.r.choice([4, 5, 6, 9, 12])

    def name(self):
        r = self.r
        n = r.choice(self.names)
        return n if r.random() < 0.8 else n + r.choice(["1", "2", "_id", "_of_the_month", "__"])

    def distinct(self, n):
        out = []
        for _ in range(n):
            x = self.name()
            out.append(x if x not in out else "%s%d" % (x, len(out)))
        return out

    def order(self):
        r = self.r
        return ", ".join("%s%s%s" % (self.col(), r.choice(["", "", " ASC", " DESC"]), r.choice(["", "", " NULLS FIRST", " NULLS LAST"])) for _ in range(self.count()))

    def window(self):
        r = self.r
        w = []
        if r.random() < 0.2:
            w.append(r.choice(["w", "v"]))
        if r.random() < 0.6:
            w.append("PARTITION BY " + ", ".join(self.col() for _ in range(self.count())))
        if r.random() < 0.6:
            w.append("ORDER BY " + self.order())
        if r.random() < 0.4:
            n = r.choice(["1", "5", "UNBOUNDED"])
            w.append("%s %s" % (r.choice(["ROWS", "RANGE", "GROUPS"]), r.choice(
                ["%s PRECEDING" % n, "BETWEEN %s PRECEDING AND CURRENT ROW" % n, "BETWEEN CURRENT ROW AND %s FOLLOWING" % n, "BETWEEN 2 PRECEDING AND 3 FOLLOWING"])))
        return " ".join(w)

    def nested(self, d=3):
        """operators inside operators, with the parentheses that takes"""
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.col() if r.random() < 0.8 else self.lit()
        u = r.random()
        if u < 0.12:
            return "%s(%s)" % (r.choice(["-", "+"]), self.nested(d - 1))
        if u < 0.22:
            return "NOT (%s)" % self.nested(d - 1)
        if u < 0.3:
            return "(%s) %s" % (self.nested(d - 1), r.choice(["IS NULL", "LIKE 'a%'", "BETWEEN 1 AND 2", "IN (1, 2)", "IS DISTINCT FROM y"]))
        op = r.choice(["+", "-", "*", "/", "%", "AND", "OR", "=", "<", ">=", "||"])
        return "(%s) %s (%s)" % (self.nested(d - 1), op, self.nested(d - 1))

    def broken(self, d=1):
        """a statement of which one part is not supported or not valid"""
        r = self.r
        bad = r.choice(BROKEN)
        e = r.choice(["%s", "%s", "COALESCE(x, %s)", "CASE WHEN %s THEN 1 END", "(%s) + 1", "SUM(%s) OVER (ORDER BY y)"]) % bad
        others = ", ".join([self.expr(d) for _ in range(self.count())])
        if bad.startswith(" "):
            return "SELECT %s FROM %s%s" % (others, self.rel(d), bad)
        return r.choice([
            lambda: "SELECT %s, %s FROM %s" % (others, e, self.rel(d)),
            lambda: "SELECT %s FROM %s WHERE %s" % (others, self.rel(d), e),
            lambda: "SELECT %s FROM (SELECT %s FROM %s) AS q" % (others, e, self.rel(0)),
            lambda: "WITH q AS (SELECT %s FROM %s) SELECT %s FROM q" % (e, self.rel(0), others),
            lambda: "SELECT %s FROM %s GROUP BY x HAVING %s" % (others, self.rel(d), e),
            lambda: "SELECT %s FROM %s, %s" % (others, self.rel(d), self.rel(0)),
            lambda: "SELECT %s FROM %s UNION SELECT %s" % (others, self.rel(0), e),
        ])()

    def special(self, d):
        """rarer kinds of expressions"""
        r = self.r
        e = lambda: self.expr(d - 1)
        k = r.randrange(16)
        if k == 0:
            return "%s(%s)%s%s" % (r.choice(["SUM", "MAX", "COUNT", "AVG", "ARRAY_AGG", "BOOL_AND"]), e(), r.choice(["", " FILTER (WHERE %s)" % e()]), r.choice(["", " OVER (%s)" % self.window()]))
        if k == 1:
            return "ARRAY_AGG(%s ORDER BY %s)" % (e(), self.order())
        if k == 2:
            return "LISTAGG(%s, '%s') WITHIN GROUP (ORDER BY %s)" % (self.col(), r.choice([",", "; ", "--"]), self.order())
        if k == 3:
            return "(%s) IN (%s)" % (e(), self.query(d - 1))
        if k == 4:
            return "(%s)" % self.query(d - 1)
        if k == 5:
            return "%s LIKE '%s%%'%s" % (self.col(), r.choice(STRS), r.choice(["", " ESCAPE '!'"]))
        if k == 6:
            return "CASE %s%s%s END" % (r.choice(["", self.col() + " "]), " ".join("WHEN %s THEN %s" % (e(), e()) for _ in range(self.count())), r.choice(["", " ELSE " + e()]))
        if k == 7:
            return "COALESCE(%s)" % ", ".join(e() for _ in range(1 + self.count()))
        if k == 8:
            return " || ".join([self.col()] + ["'%s'" % r.choice(STRS) for _ in range(self.count())])
        if k == 9:
            return "%s(%s)" % (r.choice(["", "ROW"]), ", ".join(e() for _ in range(1 + self.count())))
        if k == 10:
            return "(%s) -> %s" % (", ".join(self.distinct(self.count())), e())
        if k == 11:
            return r.choice(["INTERVAL '%d' %s" % (r.randrange(99), r.choice(["DAY", "MONTH", "HOUR"])), "TIMESTAMP '2020-01-01 00:00:00.%s'" % ("1" * r.randint(1, 9)),
                             "DECIMAL '%d.%s'" % (r.randrange(999), "0" * r.randint(0, 8) + "7"), "DATE '2020-02-%02d'" % r.randint(1, 28), "CHAR '%s'" % r.choice(STRS)])
        if k == 12:
            return r.choice(["CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"]) + r.choice(["", "(%d)" % r.randint(0, 9)])
        if k == 13:
            return "(%s) IS %sDISTINCT FROM (%s)" % (e(), r.choice(["", "NOT "]), e())
        if k == 14:
            return "ARRAY[%s]%s" % (", ".join(e() for _ in range(self.count())), r.choice(["", "[1]", " || ARRAY[1]"]))
        return "%s(%s)" % (r.choice(["TRY_CAST", "CAST"]), "%s AS %s" % (e(), self.typ()))

    def wide(self):
        """a list whose printed lines are about as long as a line may be"""
        r = self.r
        total = r.choice([72, 76, 76, 76, 76, 78]) + r.randint(-2, 3)
        out, left = [], total
        while left > 3:
            n = min(left - 1, r.randint(3, 14)) - 3  # quotes and comma
            if n < 1:
                break
            out.append((r.choice(self.names) + "abcdefghijklmnop")[:n])
            left -= n + 3
        if out and left > 0:
            out[-1] += "p" * left
        l = ", ".join(out or ["x"])
        return r.choice(["SELECT %s FROM t", "SELECT x FROM t GROUP BY %s", "SELECT x FROM t ORDER BY %s", "SELECT 1 FROM a JOIN b USING (%s)", "SELECT x IN (%s) FROM t",
                         "SELECT SUM(x) OVER (PARTITION BY %s) FROM t", "VALUES (%s)", "SELECT p.x FROM (SELECT %s FROM a) AS p", "SELECT x FROM (SELECT %s FROM a)", "SELECT COALESCE(%s) FROM t", "SELECT ARRAY[%s]"]) % l

    def rel(self, d):
        r = self.r
        k = r.randrange(12)
        if d <= 0 or k < 3:
            t = r.choice(self.tabs)
            if r.random() < 0.15:
                t = r.choice(["s.", "c.s."]) + t
            return t if r.random() < 0.7 else "%s AS %s" % (t, r.choice(self.tabs))
        if k == 3:
            return "(%s)%s" % (self.query(d - 1), r.choice(["", " AS " + r.choice(self.tabs)]))
        if k == 4:
            return "%s JOIN %s ON %s" % (self.rel(d - 1), r.choice(self.tabs), self.expr(1))
        if k == 5:
            return "%s %s JOIN %s USING (%s)" % (self.rel(d - 1), r.choice(["LEFT", "RIGHT", "FULL", "INNER"]), r.choice(self.tabs), ", ".join(self.distinct(self.count(0.3))))
        if k == 6:
            return "%s CROSS JOIN UNNEST(%s)%s AS u (%s)" % (self.rel(d - 1), ", ".join("ARRAY[1, 2]" for _ in range(r.choice([1, 1, 2, 3]))), r.choice(["", " WITH ORDINALITY"]), ", ".join(self.distinct(self.count())))
        if k == 7:
            return "%s CROSS JOIN LATERAL (%s)" % (self.rel(d - 1), self.query(d - 1))
        if k == 8:
            return "%s AS %s (%s)" % (r.choice([r.choice(self.tabs), "(%s)" % self.query(d - 1)]), r.choice(self.tabs), ", ".join(self.distinct(self.count())))
        if k == 9:
            return "%s %s %s" % (self.rel(d - 1), r.choice(["CROSS JOIN", "NATURAL JOIN", "NATURAL LEFT JOIN"]), r.choice(self.tabs))
        if k == 10:
            return "(%s %s JOIN %s ON %s)" % (self.rel(d - 1), r.choice(["", "LEFT", "FULL"]), r.choice(self.tabs), self.expr(1))
        return "%s TABLESAMPLE %s (%d)" % (r.choice(self.tabs), r.choice(["BERNOULLI", "SYSTEM"]), r.randint(1, 99))

    def group(self):
        r = self.r
        c = lambda: ", ".join(self.col() for _ in range(self.count()))
        return r.choice(["", "", "DISTINCT ", "ALL "]) + ", ".join(
            r.choice([c, c, lambda: "(%s)" % c(), lambda: "CUBE (%s)" % c(), lambda: "ROLLUP (%s)" % c(),
                      lambda: "GROUPING SETS (%s)" % ", ".join("(%s)" % c() for _ in range(self.count()))])() for _ in range(r.choice([1, 1, 2, 3])))

    def query(self, d=2):
        r = self.r
        q = ""
        if r.random() < 0.04:
            return self.wide()
        if r.random() < 0.03:
            n = self.count()
            return "VALUES " + ", ".join("(%s)" % ", ".join(self.lit() for _ in range(n)) for _ in range(self.count()))
        if d > 0 and r.random() < 0.15:
            q += "WITH %s " % ", ".join(
                "%s%s AS (%s)" % (t, r.choice(["", "", " (%s)" % ", ".join(self.distinct(self.count()))]), self.query(d - 1))
                for t in [r.choice(self.tabs + ["cte", "q"]) for _ in range(r.choice([1, 1, 2, 3, 4]))])
        items = []
        for _ in range(self.count(0.08)):
            s = r.choice(["*", r.choice(self.tabs) + ".*"]) if r.random() < 0.06 else self.expr(d)
            if r.random() < 0.4 and not s.endswith("*"):
                s += " AS " + self.name()
            items.append(s)
        q += "SELECT " + (r.choice(["", "", "", "DISTINCT "])) + ", ".join(items)
        if r.random() < 0.85:
            q += " FROM " + self.rel(d)
            if r.random() < 0.4:
                q += " WHERE " + self.expr(d - 1)
            if r.random() < 0.2:
                q += " GROUP BY " + (self.col() if r.random() < 0.4 else self.group())
                if r.random() < 0.4:
                    q += " HAVING " + self.expr(d - 1)
            if r.random() < 0.1:
                q += " WINDOW " + ", ".join("%s AS (%s)" % (w, self.window()) for w in self.distinct(self.count()))
            if r.random() < 0.2:
                q += " ORDER BY " + self.order()
            if r.random() < 0.1:
                q += " OFFSET %d" % r.randint(0, 9)
            if r.random() < 0.2:
                q += " LIMIT %d" % r.randint(1, 9)
        if d > 0 and r.random() < 0.1 and not re.search(r"LIMIT|ORDER BY|OFFSET", q):
            op = r.choice(["UNION", "UNION ALL", "EXCEPT", "INTERSECT", "UNION DISTINCT"])
            q = "%s %s %s" % (q, op, q if r.random() < 0.3 else self.query(d - 1))
        return q


BROKEN = ["NOSUCHFN(x)", "AnotherMissing(x, y)", "EXISTS (SELECT 1)", "x = ALL (SELECT 1)", "EXTRACT(YEAR FROM x)", "?", "CAST(x AS NOSUCHTYPE)",
          "a.b.c.d", "`x`", "LENGTH(1, 2, 3)", "x AT TIME ZONE 'UTC'", "DECIMAL 'abc'", "CASE END", "x +", "1x", "LENGTH(x) OVER (ORDER BY y)", "COALESCE(x)",
          "CAST(x AS DECIMAL(99))", "(x, x) -> x", "SUBSTRING(x FROM 1)", "GROUPING(x)", "ROW(a BIGINT)", "'unterminated",
          " FETCH FIRST 5 ROWS ONLY", " LIMIT x", " ORDER BY", " WHERE", ", b", " )", " TABLESAMPLE BERNOULLI"]


class Scoped:
    """Queries whose names all mean something: over the tables of SCHEMAS[1], common table
    expressions and subqueries."""

    TABLES = {"a": [("x", "n"), ("y", "s")], "b": [("w", "n")], "c": [("v", "n")]}

    def __init__(self, rng, tables=True):
        self.r = rng
        self.tables = self.TABLES if tables else {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.r.choice("pqrstu") + str(self.n)

    def value(self, t):
        r = self.r
        return r.choice(["1", "2.5", "10", "1E0"]) if t == "n" else r.choice(["'a'", "'zz'"]) if t == "s" else r.choice(["TRUE", "NULL", "DATE '2020-01-01'"])

    def source(self, d, ctes):
        """-> (text, name, columns)"""
        r = self.r
        u = r.random()
        pool = sorted(ctes.items()) + sorted(self.tables.items())
        if pool and (u < 0.5 or d <= 0):
            n, cols = r.choice(pool)
            if r.random() < 0.4:
                al = self.new()
                if r.random() < 0.3:
                    cols = [(self.new(), t) for _, t in cols]
                    return "%s AS %s (%s)" % (n, al, ", ".join(c for c, _ in cols)), al, cols
                return "%s AS %s" % (n, al), al, cols
            return n, n, cols
        al = self.new()
        if u < 0.75 and d > 0:
            q, cols = self.query(d - 1, ctes)
            if r.random() < 0.3:
                cols = [(self.new(), t) for _, t in cols]
                return "(%s) AS %s (%s)" % (q, al, ", ".join(c for c, _ in cols)), al, cols
            return "(%s) AS %s" % (q, al), al, cols
        if u < 0.88:
            ts = [r.choice("nso") for _ in range(r.randint(1, 3))]
            cols = [(self.new(), t) for t in ts]
            return "(SELECT %s) AS %s" % (", ".join("%s AS %s" % (self.value(t), c) for c, t in cols), al), al, cols
        c = self.new()
        return "UNNEST(ARRAY[%s]) AS %s (%s)" % (r.choice(["1, 2", "'a', 'b'"]), al, c), al, [(c, "o")]

    def item(self, cols):
        """-> (text, type)"""
        r = self.r
        ref, t = r.choice(cols)
        u = r.random()
        if u < 0.5:
            return ref, t
        if u < 0.6:
            return self.value(t), t
        if t == "n":
            ref2 = r.choice([c for c, k in cols if k == "n"])
            return r.choice(["%s + 1", "%s * 2.5", "-%s", "COALESCE(%s, 0)", "CAST(%s AS BIGINT)", "SUM(%s) OVER (ORDER BY 1)", "%s + " + ref2, "CASE WHEN %s > 1 THEN 1 ELSE 2 END", "MAX(%s)"]) % ref, "n"
        if t == "s":
            return r.choice(["%s || 'b'", "COALESCE(%s, 'n')", "LENGTH(%s)", "LOWER(%s)", "CAST(%s AS VARCHAR)"]) % ref, "o"
        return r.choice(["(%s IS NULL)", "%s"]) % ref, "o"

    def query(self, d=2, ctes=None):
        r = self.r
        ctes = dict(ctes or {})
        head = ""
        if d > 0 and r.random() < 0.35:
            parts = []
            for _ in range(r.choice([1, 1, 2, 3])):
                n = r.choice([self.new(), self.new(), r.choice("abc")])
                q, cols = self.query(d - 1, ctes)
                if r.random() < 0.25:
                    cols = [(self.new(), t) for _, t in cols]
                    parts.append("%s (%s) AS (%s)" % (n, ", ".join(c for c, _ in cols), q))
                else:
                    parts.append("%s AS (%s)" % (n, q))
                ctes[n] = cols
            head = "WITH %s " % ", ".join(parts)
        srcs, names = [], set()
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            s = self.source(d, ctes)
            if s[1] in names:
                continue
            names.add(s[1])
            srcs.append(s)
        # (treeno takes a qualified column for ambiguous if its relation has several)
        cols = [(n + "." + c, t) for _, n, cs in srcs for c, t in cs if len(cs) == 1 or r.random() < 0.02]
        flat = [c for _, _, cs in srcs for c, _ in cs]
        cols += [(c, t) for _, _, cs in srcs for c, t in cs if flat.count(c) == 1]
        frm = srcs[0][0]
        for txt, n, cs in srcs[1:]:
            nums = [c for c, t in cols if t == "n"]
            j = r.choice(["CROSS JOIN", "JOIN", "LEFT JOIN", "FULL JOIN"])
            frm += " %s %s%s" % (j, txt, "" if j == "CROSS JOIN" else " ON " + (r.choice(["TRUE", "%s = %s" % (r.choice(nums), r.choice(nums))]) if nums else "TRUE"))
        items, out = [], []
        u = r.random()
        if u < 0.2 or len(srcs) > 1 and u < 0.4 or not cols:
            items.append("*")
            out = [(c, t) for _, _, cs in srcs for c, t in cs]
        elif u < 0.3:
            _, n, cs = r.choice(srcs)
            items.append(n + ".*")
            out = list(cs)
        for _ in range(r.randint(0 if items else 1, 3)) if cols else ():
            e, t = self.item(cols)
            n = self.new()
            items.append("%s AS %s" % (e, n))
            out.append((n, t))
        q = head + "SELECT %s%s FROM %s" % (r.choice(["", "", "DISTINCT "]), ", ".join(items), frm)
        if cols and r.random() < 0.3:
            q += " WHERE (%s) IS NOT NULL" % self.item(cols)[0]
        if cols and r.random() < 0.15:
            q += " ORDER BY " + r.choice(cols)[0]
        return q, out


def odd(rng, text):
    """the text with one number made an unusual one"""
    m = list(re.finditer(r"(?<![\w.'])[0-9]+(?![\w.'])", text))
    if not m:
        return text
    m = rng.choice(m)
    return text[: m.start()] + str(rng.choice(harvest.ints())) + text[m.end():]


def rand_type(rng, d=1):
    """a recipe for a data type"""
    n = lambda: rng.choice([1, 2, 3, 5, 10, 18, 38]) if rng.random() < 0.6 else rng.choice(harvest.ints())
    u = rng.random()
    if u < 0.35:
        return ["c", "D:" + rng.choice(["bigint", "integer", "smallint", "tinyint", "real", "double", "boolean", "date", "json", "varbinary", "unknown", "hll", "p4hll", "tdigest", "varchar", "char", "decimal", "time", "timestamp"])]
    if u < 0.6:
        return ["c", rng.choice(["D:varchar", "D:char"]), [], {"max_chars": n()}]
    if u < 0.7:
        p = n()
        return ["c", "D:decimal", [], {"precision": p, "scale": min(p, rng.choice([0, 1, 2, 6]))} if rng.random() < 0.8 else {"precision": p}]
    if u < 0.8:
        return ["c", rng.choice(["D:time", "D:timestamp"]), [], {k: v for k, v in (("precision", rng.choice([0, 3, 6, 9, 12])), ("timezone", rng.random() < 0.5)) if rng.random() < 0.7}]
    if d <= 0:
        return ["c", "D:bigint"]
    if u < 0.87:
        return ["c", "D:array", [], {"dtype": rand_type(rng, d - 1)}]
    if u < 0.93:
        return ["c", "D:map_", [], {"from_dtype": rand_type(rng, d - 1), "to_dtype": rand_type(rng, d - 1)}]
    return ["c", "D:row", [], {"dtypes": ["l"] + [rand_type(rng, d - 1) for _ in range(rng.randint(1, 3))]}]


_TOKEN = re.compile(r"'[^']*'|\"[^\"]*\"|[0-9]+(?:\\.[0-9]+)?|\\b[a-z]\\w*\\b|\\b[A-Z]+\\b|<=|>=|<>|[-+*/%<>=]")
_SWAP = [
    {"SUM", "MAX", "MIN", "AVG", "COUNT"}, {"BIGINT", "INTEGER", "DOUBLE", "VARCHAR", "DATE", "REAL", "SMALLINT"}, {"ASC", "DESC"}, {"FIRST", "LAST"},
    {"AND", "OR"}, {"UNION", "EXCEPT", "INTERSECT"}, {"ROWS", "RANGE", "GROUPS"}, {"PRECEDING", "FOLLOWING"}, {"LEFT", "RIGHT", "FULL", "INNER"},
    {"CUBE", "ROLLUP"}, {"SYSTEM", "BERNOULLI"}, {"DAY", "HOUR", "MINUTE"}, {"TRUE", "FALSE", "NULL"}, {"LOWER", "REVERSE", "LENGTH"}, {"TIMESTAMP", "TIME"},
    {"CURRENT_DATE", "CURRENT_USER"}, {"+", "-", "*", "/", "%"}, {"<", ">", "=", "<=", ">=", "<>"}, {"CAST", "TRY_CAST"}, {"ERROR"}, {"WITH", "WITHOUT"},
]


_JOINED = re.compile(r"""[a-z_]\w*(?:\s*[.,]\s*[a-z_]\w*)+|"[^"]*[.,][^"]*"|'[^']*'\s*,\s*'[^']*'""")


def near(rng, text):
    """the text with one token replaced by another of its kind, or two made into one"""
    if rng.random() < 0.12:
        c = list(_JOINED.finditer(text))
        if c:
            m = rng.choice(c)
            t = m.group(0)
            new = t[1:-1] if t[0] == '"' else '"%s"' % t if t[0] != "'" else t.replace("'", "")
            return text[: m.start()] + (new if t[0] != "'" else "'%s'" % new) + text[m.end():]
    toks = list(_TOKEN.finditer(text))
    rng.shuffle(toks)
    for m in toks:
        t = m.group(0)
        if t[0] == "'":
            new = rng.choice(["'%s '" % t[1:-1], "'%s'" % t[1:-1].swapcase(), "'%sb'" % t[1:-1], "''"])
        elif t[0] == '"':
            new = rng.choice(['"%s"' % t[1:-1].swapcase(), '"%s2"' % t[1:-1]])
        elif t[0].isdigit():
            new = rng.choice([t + ".0", t + "0", str(int(t) + 1)]) if t.isdigit() else t + "0"
        elif t[0].islower():
            new = rng.choice([t + "2", t.upper(), rng.choice(NAMES), rng.choice(TABS)])
        else:
            g = [s for s in _SWAP if t in s and len(s) > 1]
            if not g:
                continue
            new = rng.choice(sorted(g[0] - {t}))
        if new != t:
            return text[: m.start()] + new + text[m.end():]
    return text + " "


def pick_text(rng, gen=None, invalid=0.12):
    """(kind, sql) of mixed provenance."""
    k, t = pick_text1(rng, gen, invalid)
    return k, odd(rng, t) if rng.random() < 0.06 else t


def pick_text1(rng, gen=None, invalid=0.12):
    u = rng.random()
    if u < invalid * 0.6:
        return tuple(rng.choice(INVALID))
    if u < invalid:
        return "query", (gen or Gen(rng)).broken()
    if rng.random() < 0.08:
        return "query", Scoped(rng, rng.random() < 0.7).query(rng.randint(0, 2))[0]
    u = rng.random()
    if u < 0.2:
        return tuple(rng.choice(rng.choice(FAMILIES)))
    if u < 0.45:
        return "expression", rng.choice(EXPRS)
    if u < 0.7:
        return "query", rng.choice(QUERIES)
    if u < 0.78:
        return "type", rng.choice(TYPES)
    gen = gen or Gen(rng)
    if u < 0.8:
        return "query", gen.wide()
    if u < 0.88:
        return "expression", gen.expr(rng.randint(1, 3))
    return "query", gen.query(rng.randint(1, 2))


# ---- templates: a new node made from existing trees -------------------------------
# ["?", kind] is a hole: E expression, V expression or Python value, Q query, R relation,
# T type, W window, O order term, G group, L list of expressions, D mapping of parameters
def H(k):
    return ["?", k]


E_, V_, Q_, R_, T_, W_, O_, G_, L_ = (H(k) for k in "EVQRTWOGL")


def _c(path, *args, **kw):
    return ["c", path, list(args), kw] if kw else ["c", path, list(args)]


AGG = ["Sum", "Avg", "ArrayAgg", "Max", "Min", "Count", "BoolAnd", "Histogram", "StdDev", "Checksum", "MapUnion", "ApproxSet"]
AGG2 = ["MaxBy", "MinBy", "Corr", "CovarPop", "RegrSlope", "MapAgg", "MultiMapAgg"]
FN1 = [
    "FD:Date", "FD:LastDayOfMonth", "FD:ToISO8601", "FD:ToUnixtime", "FD:FromISO8601Date", "FD:HumanReadableSeconds",
    "FT:Chr", "FT:CodePoint", "FT:Length", "FT:Lower", "FT:LTrim", "FT:Reverse", "FT:Soundex", "FT:ToUTF8", "FT:FromUTF8",
    "FT:Normalize", "FN:Try", "FD:FromUnixtime", "FD:ParseDuration",
]
FN2 = ["FM:Power", "FN:NullIf", "FT:HammingDistance", "FT:LevenshteinDistance", "FT:Replace", "FD:AtTimezone", "FD:WithTimezone"]
BIN = ["Add", "Minus", "Multiply", "Divide", "Modulus", "And", "Or", "Equal", "NotEqual", "LessThan", "GreaterThan", "LessThanOrEqual", "GreaterThanOrEqual", "DistinctFrom"]

TEMPLATES = (
    [("expression", ["o", op, E_, V_]) for op in ("+", "-", "*", "/", "%", "**", "==", "!=", "<", ">=", "&", "|")]
    + [("expression", ["o", op, V_, E_]) for op in ("+", "-", "*", "/")]
    + [("expression", ["u", op, E_]) for op in ("~", "neg", "pos")]
    + [("expression", _c("E:" + n, V_, V_)) for n in BIN]
    + [("expression", _c("FA:" + n, E_)) for n in AGG]
    + [("expression", _c("FA:" + n, E_, filter_=E_, window=W_, orderby=["l", O_])) for n in AGG[:4]]
    + [("expression", _c("FA:" + n, E_, V_)) for n in AGG2]
    + [("expression", _c(n, V_)) for n in FN1]
    + [("expression", _c(n, V_, V_)) for n in FN2]
    + [
        ("expression", r)
        for r in [
            _c("E:Negative", E_),
            _c("E:Positive", E_),
            _c("E:Not", E_),
            _c("E:IsNull", E_),
            _c("E:AliasedValue", E_, "al"),
            _c("E:Array", ["l", V_, V_]),
            _c("E:Array", L_),
            _c("E:Array.from_values", V_, V_),
            _c("E:RowConstructor", L_),
            _c("E:InList", V_, L_),
            _c("E:InList", E_, ["l", E_, V_]),
            _c("E:InQuery", E_, Q_),
            _c("E:Between", E_, V_, V_),
            _c("E:Like", E_, E_),
            _c("E:Like", E_, V_, V_),
            _c("E:Subscript", E_, V_),
            _c("E:Cast", E_, data_type=T_),
            _c("E:TryCast", E_, data_type=T_),
            _c("E:Case", ["l", _c("E:When", E_, V_)]),
            _c("E:Case", ["l", _c("E:When", E_, V_), _c("E:When", V_, E_)], _c("E:Else", V_), E_),
            _c("E:Lambda.from_generic_expr", ["l", _c("E:Lambda.Variable", "x")], E_),
            _c("E:Lambda.from_generic_expr", ["l", _c("E:Lambda.Variable", "x"), _c("E:Lambda.Variable", "y")], E_),
            _c("E:Lambda", ["l", _c("E:Lambda.Variable", "x")], E_),
            _c("E:wrap_literal", E_),
            ["c", "E:wrap_literal_list", [L_]],
            _c("X:apply_operator", "<", E_, E_),
            _c("X:apply_operator", "OR", E_, E_),
            _c("X:apply_operator", "NOT", E_),
            _c("FC:Concatenate", L_),
            _c("FC:Concatenate.from_args", E_, V_),
            _c("FN:Coalesce", L_),
            _c("FN:Coalesce.from_args", E_, V_, V_),
            _c("FN:If", E_, V_, V_),
            _c("FN:If", E_, E_),
            _c("FT:LPad", E_, V_, V_),
            _c("FD:DateAdd", "day", V_, E_),
            _c("FD:DateDiff", "hour", E_, E_),
            _c("FD:DateTrunc", "day", E_),
            _c("FA:ListAgg", E_, ",", orderby=["l", O_]),
            _c("FA:ListAgg", E_, ",", _c("FA:OverflowFiller", True, "."), orderby=["l", O_]),
            _c("FA:Count", E_, filter_=E_),
            _c("FA:ApproxPercentile", E_, V_),
            _c("FA:NumericHistogram", V_, E_),
            _c("E:AliasedStar", _c("E:Star", "a"), ["l", "p", "q"]),
        ]
    ]
    + [
        ("window", _c("W:Window", partitions=L_)),
        ("window", _c("W:Window", orderby=["l", O_], partitions=["l", E_])),
        ("window", _c("W:Window", parent_window="w", orderby=["l", O_])),
        ("window", _c("W:Window", orderby=["l", O_], frame_type=["e", "W:FrameType", "ROWS"], start_bound=_c("W:BoundedFrameBound", ["e", "W:BoundType", "PRECEDING"], V_))),
        ("order", _c("O:OrderTerm", E_)),
        ("order", _c("O:OrderTerm", E_, ["e", "O:OrderType", "DESC"], ["e", "O:NullOrder", "FIRST"])),
        ("group", _c("G:GroupBy", ["l", _c("G:GroupingSet", L_)])),
        ("group", _c("G:GroupBy", ["l", _c("G:Cube", ["l", E_, E_]), _c("G:Rollup", L_)])),
        ("group", _c("G:GroupBy", ["l", _c("G:GroupingSetList", ["l", _c("G:GroupingSet", L_)])])),
        ("relation", _c("R:Table", "a", column_schema=H("S"))),
        ("relation", _c("R:Table", "b", "s", column_schema=H("S"))),
        ("relation", _c("R:AliasedRelation", R_, "sub")),
        ("relation", _c("R:AliasedRelation", R_, "sub", ["l", "p", "q"])),
        ("relation", _c("R:Lateral", Q_)),
        ("relation", _c("R:TableSample", R_, ["e", "R:SampleType", "BERNOULLI"], V_)),
        ("relation", _c("R:Unnest", L_)),
        ("relation", _c("R:Unnest", ["l", E_], with_ordinality=True)),
        ("relation", _c("R:Join", R_, R_, _c("R:JoinConfig", ["e", "R:JoinType", "LEFT"], False, _c("R:JoinOnCriteria", E_)))),
        ("relation", _c("R:Join", R_, R_, _c("R:JoinConfig", ["e", "R:JoinType", "INNER"], False, _c("R:JoinUsingCriteria", ["l", "x"])))),
        ("relation", _c("R:Join", R_, R_, _c("R:JoinConfig", ["e", "R:JoinType", "CROSS"]))),
        ("relation", _c("R:Join", R_, R_, _c("R:JoinConfig", ["e", "R:JoinType", "OUTER"], True))),
        ("query", _c("R:SelectQuery", L_)),
        ("query", _c("R:SelectQuery", ["l", E_], R_)),
        ("query", _c("R:SelectQuery", ["l", E_, _c("E:AliasedValue", E_, "z")], R_, where=E_, orderby=["l", O_], limit=3)),
        ("query", _c("R:SelectQuery", ["l", E_], R_, groupby=G_, having=E_, select_quantifier=["e", "B:SetQuantifier", "DISTINCT"])),
        ("query", _c("R:SelectQuery", ["l", _c("E:Star")], _c("R:AliasedRelation", Q_, "sub"), offset=2)),
        ("query", _c("R:SelectQuery", L_, R_, window=["d", ["w", W_]])),
        ("query", _c("R:SelectQuery", ["l", F("x", "w")], _c("R:Table", "w"), with_=["l", _c("R:AliasedRelation", Q_, "w")])),
        ("query", _c("R:UnionQuery", Q_, Q_)),
        ("query", _c("R:UnionQuery", Q_, Q_, ["e", "B:SetQuantifier", "ALL"], orderby=["l", O_], limit=1)),
        ("query", _c("R:IntersectQuery", Q_, Q_)),
        ("query", _c("R:ExceptQuery", Q_, Q_)),
        ("query", _c("R:ValuesQuery", L_)),
        ("query", _c("R:TableQuery", _c("R:Table", "a"))),
        ("type", _c("D:array", dtype=T_)),
        ("type", _c("D:map_", from_dtype=T_, to_dtype=T_)),
        ("type", _c("D:row", dtypes=["l", T_, T_])),
        ("type", _c("D:qdigest", dtype=T_)),
        ("type", _c("C:common_supertype", T_, T_)),
        ("type", _c("C:common_supertype", T_, _c("D:bigint"))),
        ("type", _c("C:common_supertype", _c("D:varchar", max_chars=3), T_)),
        ("type", _c("C:get_arithmetic_type", T_, T_)),
        ("type", _c("C:get_arithmetic_type", T_, _c("D:decimal", precision=10, scale=2))),
        ("type", _c("C:promote_integral_to_decimal", T_)),
        ("type", _c("C:promote_varchar_to_char", T_)),
        ("type", _c("C:common_same_type", T_, T_)),
        ("type", _c("T:DataType", "DECIMAL", H("D"))),
        ("type", _c("T:DataType", "VARCHAR", H("D"))),
        ("type", _c("T:DataType", "CHAR", H("D"))),
        ("type", _c("T:DataType", "TIME", H("D"))),
        ("type", _c("T:DataType", "TIMESTAMP", H("D"))),
        ("type", _c("T:DataType", "ROW", ["d", ["dtypes", H("TL")]])),
        ("type", _c("D:row", dtypes=H("TL"))),
        ("expression", _c("E:AliasedStar", _c("E:Star", "a"), H("N"))),
        ("expression", _c("FA:ListAgg", E_, ",", orderby=H("OL"))),
        ("expression", _c("FA:ArrayAgg", E_, orderby=H("OL"))),
        ("expression", _c("E:Case", H("WL"))),
        ("expression", _c("E:Case", H("WL"), _c("E:Else", V_), E_)),
        ("expression", _c("E:Lambda", H("XL"), E_)),
        ("expression", _c("E:Lambda.from_generic_expr", H("XL"), E_)),
        ("window", _c("W:Window", orderby=H("OL"))),
        ("window", _c("W:Window", orderby=H("OL"), partitions=L_)),
        ("group", _c("G:GroupBy", H("GL"))),
        ("relation", _c("R:AliasedRelation", R_, "sub", H("N"))),
        ("relation", _c("R:Join", R_, R_, _c("R:JoinConfig", ["e", "R:JoinType", "INNER"], False, _c("R:JoinUsingCriteria", H("N"))))),
        ("query", _c("R:SelectQuery", L_, R_, orderby=H("OL"))),
        ("query", _c("R:SelectQuery", L_, R_, window=H("WD"))),
        ("query", _c("R:SelectQuery", L_, _c("R:Table", "w"), with_=H("CL"))),
        ("query", _c("R:ValuesQuery", L_, orderby=H("OL"), limit=2)),
        ("query", _c("R:TableQuery", _c("R:Table", "w"), with_=H("CL"))),
        ("type", ["g", E_, "data_type"]),
    ]
)
# functions that take trees apart and put them together again
TRANSFORMS = [
    _c("E:Lambda.from_generic_expr", ["l", _c("E:Lambda.Variable", "x")], E_),
    _c("E:Lambda.from_generic_expr", ["l", _c("E:Lambda.Variable", "y")], E_),
    _c("E:Lambda.from_generic_expr", ["l", _c("E:Lambda.Variable", "x"), _c("E:Lambda.Variable", "z")], E_),
    _c("E:Array.from_values", V_, V_), _c("FC:Concatenate.from_args", E_, V_), _c("FN:Coalesce.from_args", E_, V_, V_),
    ["c", "E:wrap_literal_list", [L_]], _c("E:wrap_literal", E_), _c("X:apply_operator", "AND", E_, E_), _c("X:apply_operator", "-", E_, E_),
    _c("C:common_supertype", T_, T_), _c("C:get_arithmetic_type", T_, T_), _c("C:common_same_type", T_, T_),
    _c("C:promote_integral_to_decimal", T_), _c("C:promote_varchar_to_char", T_),
    _c("R:SelectQuery", L_, R_), _c("R:UnionQuery", Q_, Q_), _c("E:RowConstructor", L_), _c("E:InList", E_, L_), _c("E:Array", L_),
]
PYVALUES = [1, 2, 0, -7, 4294967296, "a", "it''s", "", True, False, ["dec", "1.50"], ["dec", "-12345678901234567890123456789012.5"], ["f", "2.5"]]
PARAMS = [["d"], ["d", ["precision", 3]], ["d", ["timezone", True]], ["d", ["scale", 1]], ["d", ["precision", 10]], ["d", ["precision", 10], ["scale", 2]], ["d", ["max_chars", 5]]]
BASE = {
    "window": [["c", "W:Window"], _c("W:Window", partitions=["l", F("y")])],
    "order": [_c("O:OrderTerm", F("z"))],
    "group": [_c("G:GroupBy", ["l", _c("G:GroupingSet", ["l", F("x")])])],
    "expression": [F("x"), F("y", "a"), LIT, ["c", "E:wrap_literal", ["a"]], ["o", "+", F("x"), 1]],
    "query": [_c("R:SelectQuery", ["l", LIT]), _c("R:SelectQuery", ["l", F("x")], _c("R:Table", "a"))],
    "relation": [_c("R:Table", "a"), _c("R:Table", "b", "s", "c")],
    "type": [["c", "D:bigint"], ["c", "D:varchar"], _c("D:decimal", precision=5, scale=1)],
    "params": PARAMS,
    "schema": SCHEMAS,
    "names": [["l", "x"], ["l", "y", "x"], ["l", "p", "q", "x"]],
    "orders": [["l", _c("O:OrderTerm", F("z"))], ["l", _c("O:OrderTerm", F("y")), _c("O:OrderTerm", F("x"), ["e", "O:OrderType", "DESC"])]],
    "types": [["l", _c("D:bigint"), _c("D:varchar")], ["l", _c("D:decimal", precision=5, scale=1), _c("D:integer")]],
    "whens": [["l", _c("E:When", F("y"), 1)], ["l", _c("E:When", F("y"), 1), _c("E:When", F("x"), "a")]],
    "variables": [["l", _c("E:Lambda.Variable", "x")], ["l", _c("E:Lambda.Variable", "y"), _c("E:Lambda.Variable", "x")]],
    "groups": [["l", _c("G:GroupingSet", ["l", F("y")]), _c("G:GroupingSet", ["l", F("x")])], ["l", _c("G:Cube", ["l", F("y"), F("x")])]],
    "windows": [["d", ["w", _c("W:Window", partitions=["l", F("y")])]], ["d", ["w", _c("W:Window")], ["v", _c("W:Window", parent_window="w", orderby=["l", _c("O:OrderTerm", F("x"))])]]],
    "ctes": [["l", _c("R:AliasedRelation", _c("R:SelectQuery", ["l", LIT]), "w")],
             ["l", _c("R:AliasedRelation", _c("R:SelectQuery", ["l", F("x")], _c("R:Table", "a")), "w", ["l", "y"]),
              _c("R:AliasedRelation", _c("R:SelectQuery", ["l", F("y", "w")], _c("R:Table", "w")), "u")]],
    "list": [["l", F("x"), 1], ["l", F("x"), F("y"), F("z")], ["l"]],
}
HOLE = {"E": "expression", "Q": "query", "R": "relation", "T": "type", "W": "window", "O": "order", "G": "group", "L": "list", "D": "params", "S": "schema",
        "N": "names", "OL": "orders", "TL": "types", "WL": "whens", "XL": "variables", "GL": "groups", "WD": "windows", "CL": "ctes"}
CONTAINERS = ["list", "params", "names", "orders", "types", "whens", "variables", "groups", "windows", "ctes", "schema"]


def rand_relation(rng, d=2):
    """a recipe for a relation made of tables, joins, aliases and queries"""
    u = rng.random()
    if d <= 0 or u < 0.3:
        return _c("R:Table", rng.choice(["a", "a", "b", "c", "q", "nowhere"]))
    sub = lambda: rand_relation(rng, d - 1)
    if u < 0.6:
        kind = rng.choice(["CROSS", "CROSS", "INNER", "LEFT", "OUTER"])
        crit = [] if kind == "CROSS" else [False, _c("R:JoinOnCriteria", ["c", "E:wrap_literal", [True]])] if rng.random() < 0.5 else [False, _c("R:JoinUsingCriteria", ["l", "x"])]
        return _c("R:Join", sub(), sub(), _c("R:JoinConfig", ["e", "R:JoinType", kind], *crit))
    if u < 0.72:
        return _c("R:AliasedRelation", sub(), rng.choice(["a", "p", "q"]), *([["l", "k", "m"]] if rng.random() < 0.3 else []))
    if u < 0.78:
        return _c("R:TableSample", sub(), ["e", "R:SampleType", "BERNOULLI"], LIT)
    if u < 0.82:
        return _c("R:Unnest", ["l", ["c", "E:Array.from_values", [1, 2]]])
    q = rand_query(rng, d - 1)
    return _c("R:Lateral", q) if u > 0.95 else q


def rand_query(rng, d=2):
    u = rng.random()
    if u < 0.3:
        return _c("R:TableQuery", _c("R:Table", rng.choice(["a", "b", "c", "q"])))
    if u < 0.45 and d > 0:
        return _c(rng.choice(["R:UnionQuery", "R:IntersectQuery", "R:ExceptQuery"]), rand_query(rng, d - 1), rand_query(rng, d - 1))
    if u < 0.55:
        return _c("R:SelectQuery", ["l", LIT])
    sel = rng.choice([["c", "E:Star"], ["c", "E:Star"], F("x"), F("y"), F("w"), ["c", "E:Star", [rng.choice(["a", "b", "p"])]]])
    return _c("R:SelectQuery", ["l", sel], rand_relation(rng, d))


# queries of which some column, table or type cannot be found (or is found twice)
UNRESOLVABLE = """
SELECT x FROM a CROSS JOIN b
SELECT id FROM a JOIN b ON a.x = b.x
SELECT a.x, id FROM a JOIN b ON TRUE
SELECT q.x FROM a
SELECT nosuch FROM a
SELECT a.nosuch FROM a
SELECT nosuch.* FROM a
SELECT * FROM nosuch
SELECT x FROM a WHERE nosuch > 1
SELECT x FROM (SELECT 1 AS y) AS q
SELECT q.x FROM (SELECT 1 AS x, 2 AS x) AS q
SELECT x FROM (SELECT 1 AS x, 2 AS x) AS q
WITH q AS (SELECT x FROM nosuch) SELECT x FROM q
WITH q AS (SELECT 1 AS k), p AS (SELECT m FROM q) SELECT m FROM p
SELECT x FROM a UNION SELECT nosuch FROM a
SELECT p.x FROM a AS p (k, m)
SELECT x FROM a AS p JOIN b AS q ON p.x = q.x
SELECT x FROM a AS p, LATERAL (SELECT x FROM p) AS q
SELECT k FROM UNNEST(ARRAY[1]) AS u (k) JOIN a ON u.m = a.x
SELECT SUM(nosuch) FROM a GROUP BY x
""".strip().splitlines()


def wrapped(rng, q):
    """the query as a part of another one"""
    return rng.choice(["SELECT * FROM (%s)", "SELECT * FROM (%s) AS q", "WITH q AS (%s) SELECT * FROM q", "SELECT x FROM a, LATERAL (%s) AS q",
                       "(%s) UNION (SELECT 1)", "(SELECT 1) EXCEPT (%s)", "SELECT * FROM a CROSS JOIN (%s) AS q", "SELECT * FROM (SELECT * FROM (%s))",
                       "SELECT * FROM (%s) ORDER BY 1 LIMIT 3", "SELECT * FROM (%s) TABLESAMPLE SYSTEM (10)"]) % q
