From 38be2839a639b212ca4ad80887a01fa8169e73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 01/13] fix: register every built-in function when
 treeno.functions is imported

Functions in treeno.functions.conditional, datetime and math were only known
to the parser if something else had happened to import those modules, although
the package states that it loads them eagerly.
---
 treeno/functions/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index de45647..a367ad9 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1 +1,11 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
+from treeno.functions import (  # noqa: F401
+    aggregate,
+    base,
+    common,
+    conditional,
+    datetime,
+    math,
+    session,
+    string,
+)
-- 
2.43.0


From 128842d7e06748217fc1b6329b6b767888301c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 02/13] fix: keep every digit of a negative decimal literal

Unary minus on Decimal rounds to the precision of the ambient decimal context.
---
 treeno/builder/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..0b19f25 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -708,7 +708,10 @@ class ConvertVisitor(SqlBaseVisitor):
             dtype = integer()
 
         if negative:
-            value = -value
+            # Unary minus on a Decimal rounds to the ambient decimal context
+            value = (
+                value.copy_negate() if isinstance(value, Decimal) else -value
+            )
 
         return Literal(value, data_type=dtype)
 
-- 
2.43.0


From 0bfa10e169fbd1547468818e30d19d20c8505075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 03/13] fix: print and type decimals independently of the
 decimal context

str(Decimal) switches to exponent notation for small values (which is a DOUBLE
literal in SQL, and counted as the wrong precision by infer_decimal) and spells
the exponent according to the ambient decimal context.
---
 treeno/datatypes/inference.py | 2 +-
 treeno/expression.py          | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..20e6ef2 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -51,7 +51,7 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
+    str_val = format(decimal_value, "f")
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..8ffe15a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -220,6 +220,10 @@ class Literal(Value):
             s = "NULL"
         if isinstance(self.value, bool):
             s = s.upper()
+        if isinstance(self.value, Decimal):
+            # str() would use an exponent (a double in SQL) for small values,
+            # and spell it according to the ambient decimal context.
+            s = format(self.value, "f")
         if isinstance(self.value, str):
             # Single quotes to mean literal string
             s = quote_literal(self.value)
-- 
2.43.0


From bfc6a4282ab0970a8a40dcd5328bc3ab6f40f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 04/13] fix: do not add an entry to FIELDS for every unknown
 type name

FIELDS is a defaultdict, so looking up an unrecognised type name in
visitGenericType grew the process-wide table with every bad input.
---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 0b19f25..edb114a 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -498,7 +498,7 @@ class ConvertVisitor(SqlBaseVisitor):
         # We assume the parameters will be passed into here.
         parameters = {
             param.name: val
-            for val, param in zip(param_values, FIELDS[type_name])
+            for val, param in zip(param_values, FIELDS.get(type_name, []))
         }
         return DataType(type_name, parameters=parameters)
 
-- 
2.43.0


From 6b8c6110e4c8326ebc7c9ea1b013aedfa566e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 05/13] fix: keep the existing visitor file until the new one
 is complete

generate_visitor deleted the target before generating and wrote it in place,
so a crash or a write error lost the file or left half of it.
---
 bin/codegen/create_visitor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bin/codegen/create_visitor.py b/bin/codegen/create_visitor.py
index def782c..a1216e3 100755
--- a/bin/codegen/create_visitor.py
+++ b/bin/codegen/create_visitor.py
@@ -75,8 +75,7 @@ def generate_visitor(
             not file_exists
         ), f"File already exists at {file_name}. Move/delete it before generating a new visitor file."
     elif file_exists:
-        print(f"File {file_name} found with replace=True. Deleting the file")
-        os.remove(file_name)
+        print(f"File {file_name} found with replace=True. Replacing the file")
 
     code = [
         "# AUTOGENERATED BY create_visitor.py",
@@ -113,8 +112,17 @@ def generate_visitor(
             for fn_line in generate_function_stubs(registered_nodes)
         ]
     )
-    with open(file_name, "w") as f:
-        f.write("\n".join(code))
+    # Only put the new file in place once it is complete, so that a failure
+    # never costs us the existing one.
+    temp_file_name = f"{file_name}.tmp"
+    try:
+        with open(temp_file_name, "w") as f:
+            f.write("\n".join(code))
+        os.replace(temp_file_name, file_name)
+    except BaseException:
+        if os.path.exists(temp_file_name):
+            os.remove(temp_file_name)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c31ed21886d93432548143864f2ce7f089bf6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 06/13] fix: generate the same visitor file every time

The order of imports and methods followed the iteration order of a set of
classes, which differs from process to process.
---
 bin/codegen/create_visitor.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bin/codegen/create_visitor.py b/bin/codegen/create_visitor.py
index a1216e3..5d2f0a9 100755
--- a/bin/codegen/create_visitor.py
+++ b/bin/codegen/create_visitor.py
@@ -7,7 +7,7 @@ import os
 import pkgutil
 import textwrap
 from collections import defaultdict
-from typing import Dict, List, Set
+from typing import Dict, List
 
 import typer
 
@@ -32,7 +32,7 @@ for loader, module_name, is_pkg in pkgutil.walk_packages(
 INDENT = " " * 4
 
 
-def get_import_paths(sqls: Set[GenericSql]) -> Dict[str, List[str]]:
+def get_import_paths(sqls: List[GenericSql]) -> Dict[str, List[str]]:
     module_map = defaultdict(list)
     # Find their import paths
     for node in sqls:
@@ -49,7 +49,7 @@ def generate_import_statements(module_map: Dict[str, List[str]]) -> List[str]:
     return code
 
 
-def generate_function_stubs(sqls: Set[GenericSql]) -> List[str]:
+def generate_function_stubs(sqls: List[GenericSql]) -> List[str]:
     code = []
     # Generic function to visit any class by getattr'ing
     code.append('def visit(self, node: "GenericSql") -> T:')
@@ -84,9 +84,13 @@ def generate_visitor(
         "T = TypeVar('T')",
     ]
 
-    registered_nodes = set()
+    registered_nodes = []
 
-    for node in Sql._REGISTERED_NODES:
+    # _REGISTERED_NODES is a set, so fix an order to always generate the same file.
+    for node in sorted(
+        Sql._REGISTERED_NODES,
+        key=lambda node: (node.__module__, node.__qualname__),
+    ):
         # TODO: Currently we don't support Lambda.Variable and other nested
         # classes, should come up with a naming scheme for them in autogenerated
         # visitor fn and expose them.
@@ -95,7 +99,7 @@ def generate_visitor(
                 f"Node {node.__qualname__} is currently excluded from visitor codegen."
             )
             continue
-        registered_nodes.add(node)
+        registered_nodes.append(node)
 
     module_map = get_import_paths(registered_nodes)
     code.extend(["if TYPE_CHECKING:"])
-- 
2.43.0


From 91a0aa2f1a4885ba40d4ec6def06a51f13d4ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 07/13] fix: keep the existing grammar file until the new one
 is complete

download_file deleted the target before the download and the confirmations, took
an HTTP error page or a truncated body for the grammar, and wrote in place.
---
 bin/dev/update_grammar.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/bin/dev/update_grammar.py b/bin/dev/update_grammar.py
index 713fb93..7dd2f4e 100755
--- a/bin/dev/update_grammar.py
+++ b/bin/dev/update_grammar.py
@@ -205,10 +205,17 @@ def download_file(
             not file_exists
         ), f"File already exists at {file_name}. Move/delete it before generating a new grammar file."
     elif file_exists:
-        print(f"File {file_name} found with replace=True. Deleting the file.")
-        os.remove(file_name)
+        print(f"File {file_name} found with replace=True. Replacing the file.")
     grammar_url = get_grammar_url(commit_id)
     r = requests.get(grammar_url)
+    r.raise_for_status()
+    # requests does not notice when the connection is closed half-way through
+    # the body. raw.tell() counts the bytes received (before any decompression).
+    content_length = r.headers.get("Content-Length")
+    if content_length is not None and r.raw.tell() != int(content_length):
+        raise IOError(
+            f"Incomplete download of {grammar_url}: got {r.raw.tell()} of {content_length} bytes"
+        )
     # Before we write it to the file, we have to replace python keywords with keyword + _
     # TODO: Ideally we would do this substitution by parsing the ANTLR grammar file with an ANTLR parser instead of
     # using regex.
@@ -222,8 +229,17 @@ def download_file(
         content_lines, fromfile=grammar_url, tofile=file_name
     )
 
-    with open(file_name, "w") as f:
-        f.writelines(content_lines)
+    # Only put the new file in place once it is complete, so that a failure
+    # never costs us the existing one.
+    temp_file_name = f"{file_name}.tmp"
+    try:
+        with open(temp_file_name, "w") as f:
+            f.writelines(content_lines)
+        os.replace(temp_file_name, file_name)
+    except BaseException:
+        if os.path.exists(temp_file_name):
+            os.remove(temp_file_name)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 46ce6930f9ea85d286b2c73063d232cbe789aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 08/13] fix: draw decimal literals independently of the decimal
 context

---
 treeno/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..73c2713 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from enum import Enum
 from io import StringIO
 from typing import Any
@@ -85,6 +86,9 @@ def treeify(node: Any) -> Any:
             f"<{type(node).__name__}>",
             [Tree(k, treeify(v)) for k, v in node.items()],
         )
+    if isinstance(node, Decimal):
+        # str() would depend on the settings of the current decimal context
+        return f"{node:f}"
     if not isinstance(node, Sql):
         return str(node)
     # Data types are terminal and we don't want to print out the parameters when there is none
-- 
2.43.0


From 3b0b84406b994c90a61555077cd6ab8d16ca805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 09/13] fix: register the built-in functions when the parser is
 imported

Loading them from the package's __init__ let a thread that imports one function
module while another imports the package run into an import deadlock error, or
parse before every function was registered.
---
 treeno/builder/convert.py    |  4 ++++
 treeno/functions/__init__.py | 10 ----------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index edb114a..bc5d1fb 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -6,6 +6,10 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 
 from overrides import overrides
 
+# Load every function module, so that all built-in functions are registered
+import treeno.functions.conditional  # noqa: F401
+import treeno.functions.datetime  # noqa: F401
+import treeno.functions.math  # noqa: F401
 from treeno.datatypes.builder import (
     array,
     boolean,
diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index a367ad9..de45647 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1,11 +1 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
-from treeno.functions import (  # noqa: F401
-    aggregate,
-    base,
-    common,
-    conditional,
-    datetime,
-    math,
-    session,
-    string,
-)
-- 
2.43.0


From 22be4596bee3b99e1edf981ee4a2af94d7b93694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 10/13] fix: deliver all of the output to an unbuffered stdout
 or fail

---
 treeno/cli.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 73c2713..37f7175 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -1,3 +1,5 @@
+import io
+import sys
 from decimal import Decimal
 from enum import Enum
 from io import StringIO
@@ -22,6 +24,18 @@ from treeno.util import children, is_dictlike, is_listlike
 app = typer.Typer()
 
 
+def _echo(message: str) -> None:
+    stream = sys.stdout
+    # An unbuffered stdout (python -u) silently drops the rest of a short write.
+    if isinstance(getattr(stream, "buffer", None), io.RawIOBase):
+        sys.stdout = io.TextIOWrapper(
+            io.BufferedWriter(stream.buffer),
+            encoding=stream.encoding,
+            errors=stream.errors,
+        )
+    typer.echo(message)
+
+
 class SqlConstruct(str, Enum):
     QUERY = "query"
     EXPRESSION = "expression"
@@ -46,7 +60,7 @@ def get_sql_object(construct_type: SqlConstruct, sql: str) -> Sql:
 @app.command()
 def format(construct_type: SqlConstruct, sql: str) -> None:
     sql_obj = get_sql_object(construct_type, sql)
-    typer.echo(sql_obj.sql(PrintOptions(PrintMode.PRETTY)))
+    _echo(sql_obj.sql(PrintOptions(PrintMode.PRETTY)))
 
 
 @app.command()
@@ -60,7 +74,7 @@ def antlr_tree(construct_type: SqlConstruct, sql: str) -> None:
         node = ast.type()
     else:
         raise TypeError(f"Unexpected sql construct type {construct_type.value}")
-    typer.echo(print_tree(ast, node))
+    _echo(print_tree(ast, node))
 
 
 def _should_skip(key: str, node: Any) -> bool:
@@ -109,7 +123,7 @@ def tree(construct_type: SqlConstruct, sql: str, draw: bool = False) -> None:
     sio = StringIO()
     if not draw:
         tree.pretty_print(stream=sio)
-        typer.echo(sio.getvalue())
+        _echo(sio.getvalue())
     else:
         tree.draw()
 
@@ -119,7 +133,7 @@ def schema(sql: str) -> None:
     sql_obj = get_sql_object(SqlConstruct.QUERY, sql)
     schema = sql_obj.resolve(Schema.empty_schema())
     if not schema.fields:
-        typer.echo(
+        _echo(
             typer.style("Unknown schema", fg=typer.colors.RED, bold=True)
         )
         return
@@ -136,4 +150,4 @@ def schema(sql: str) -> None:
             else field.data_type
         )
         lines.append(f"{field_string} - {dtype_string}")
-    typer.echo("\n".join(lines))
+    _echo("\n".join(lines))
-- 
2.43.0


From de3f67505d4a7719072952425eae633cceb89699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 11/13] fix: do not write type defaults into the caller's
 mapping

---
 treeno/datatypes/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..e5bf771 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -80,6 +80,8 @@ class DataType(Sql):
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
+        # The defaults below are ours, they don't belong in the caller's mapping.
+        self.parameters = dict(self.parameters)
         for field in FIELDS[self.type_name]:
             if not field.required and field.name not in self.parameters:
                 # Unfortunately, because default values can be overridden on the session level,
-- 
2.43.0


From d99cec495982bd7db12134718353912785f6fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 12/13] fix: do not add a table's name to the caller's schema

---
 treeno/relation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..420a150 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -579,7 +579,11 @@ class Table(Relation):
                 self.schema
             ), "If a catalog is specified, a schema must be specified as well"
         if self.name not in self._column_schema.relation_ids:
-            self._column_schema.relation_ids.add(self.name)
+            # The schema may be the caller's, so don't add our name to it in place.
+            self._column_schema = Schema(
+                self._column_schema.fields,
+                relation_ids=self._column_schema.relation_ids | {self.name},
+            )
 
     def sql(self, opts: PrintOptions) -> str:
         return chain_identifiers(self.catalog, self.schema, self.name)
-- 
2.43.0


From 96e46241d4dbf5c2a3cd8080c9172c0fdc8fcbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 13/13] fix: do not share a temporary file between generator
 runs

---
 bin/codegen/create_visitor.py | 4 ++--
 bin/dev/update_grammar.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin/codegen/create_visitor.py b/bin/codegen/create_visitor.py
index 5d2f0a9..063db1d 100755
--- a/bin/codegen/create_visitor.py
+++ b/bin/codegen/create_visitor.py
@@ -117,8 +117,8 @@ def generate_visitor(
         ]
     )
     # Only put the new file in place once it is complete, so that a failure
-    # never costs us the existing one.
-    temp_file_name = f"{file_name}.tmp"
+    # (or another run at the same time) never costs us the existing one.
+    temp_file_name = f"{file_name}.{os.getpid()}.tmp"
     try:
         with open(temp_file_name, "w") as f:
             f.write("\n".join(code))
diff --git a/bin/dev/update_grammar.py b/bin/dev/update_grammar.py
index 7dd2f4e..b01aacb 100755
--- a/bin/dev/update_grammar.py
+++ b/bin/dev/update_grammar.py
@@ -230,8 +230,8 @@ def download_file(
     )
 
     # Only put the new file in place once it is complete, so that a failure
-    # never costs us the existing one.
-    temp_file_name = f"{file_name}.tmp"
+    # (or another run at the same time) never costs us the existing one.
+    temp_file_name = f"{file_name}.{os.getpid()}.tmp"
     try:
         with open(temp_file_name, "w") as f:
             f.writelines(content_lines)
-- 
2.43.0

