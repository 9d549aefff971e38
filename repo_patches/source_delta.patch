From a294daf54f08d6d3e1d2cdd462a05455a4be4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 01/38] fix: do not drop joins when merging the statements of a
 union

---
 subsetter/plan_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..ebd0890 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -367,6 +367,8 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.limit is not None:
                 break
+            if statement.joins:
+                break
         else:
             return SQLStatementSelect(
                 type_="select",
-- 
2.43.0


From 35f7dc72ba893405acfed5fa8588031f74385c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 02/38] fix: wrap limited union members in a subquery

---
 subsetter/plan_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ebd0890..22968d0 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,14 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        stmts = []
+        for statement in self.statements:
+            stmt = statement.build(context)
+            if statement.limit is not None:
+                # Not every dialect accepts ORDER BY/LIMIT directly on a union member.
+                stmt = sa.select(stmt.subquery())
+            stmts.append(stmt)
+        return sa.union(*stmts)
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From 6eed7eb9d8a444d9fce7ecb0be56557d6dffc1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 03/38] fix: compare percent targets against a uniform [0, 1)
 value on sqlite

---
 subsetter/plan_model.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 22968d0..cd2384a 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,8 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql.functions import FunctionElement
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +15,26 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+# pylint: disable=too-many-ancestors,abstract-method
+class UniformRandom(FunctionElement):
+    """A random number uniformly distributed over [0, 1)."""
+
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(UniformRandom)
+def _uniform_random_generic(_element, compiler, **kwargs) -> str:
+    # pylint: disable=not-callable
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(UniformRandom, "sqlite")
+def _uniform_random_sqlite(_element, _compiler, **_kwargs) -> str:
+    # random() returns a signed 64-bit integer on sqlite
+    return "(random() / 18446744073709551616.0 + 0.5)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -189,8 +211,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return UniformRandom() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From 07d8e53d4928015c03648e9b0327330604104b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 04/38] fix: multiply foreign key columns by the referenced
 column's multiplication

---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..f06358e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        col
+                        for col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From 8eb515366c430138ec9b2731f0bf042b844eb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 05/38] fix: allow primary key columns to be omitted from
 database output

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f06358e..b5d5582 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From 79322fe89ae2bebcb47c16509560aa0219ae31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 06/38] fix: only replace output columns with the replace
 strategy on sqlite

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b5d5582..fcb228b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From ec76e2fa35bb1eb4c046192b6a4f7d6034cbc7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 07/38] fix: never move postgres sequences backwards and quote
 their table names

---
 subsetter/sampler.py | 42 ++++++++++--------------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index fcb228b..26ef01a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -241,35 +241,10 @@ def _autoincrement_needs_updating(engine) -> bool:
     return engine.dialect.name == "postgresql"
 
 
-def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
-    """
-    Get the current auto-increment state.
-    """
-    if not _autoincrement_needs_updating(engine) or table.autoincrement_column is None:
-        return None
-    assert engine.dialect.name == "postgresql"
-
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": f"{table.schema}.{table.name}",
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
-
-
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
     """
     Update the auto-increment state to ensure the next generated value is greater
-    than value.
+    than value. Never moves the auto-increment state backwards.
     """
     if (
         not _autoincrement_needs_updating(engine)
@@ -279,15 +254,18 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         return
     assert engine.dialect.name == "postgresql"
 
-    curval = _autoincrement_get(engine, table)
-    if curval is not None and curval > value:
-        return
-
+    quoted_name = ".".join(
+        '"' + part.replace('"', '""') + '"' for part in (str(table.schema), table.name)
+    )
     with engine.connect() as conn:
         conn.execute(
-            sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
+            sa.text(
+                "SELECT setval(seq, :val) FROM ("
+                "SELECT CAST(pg_get_serial_sequence(:tab, :col) AS regclass) AS seq"
+                ") AS serial WHERE :val > COALESCE(pg_sequence_last_value(seq), 0)"
+            ),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": quoted_name,
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From eda641706b51faea70fb9394918e071ec351b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 08/38] fix: keep session_sqls settings across transactions on
 postgres

---
 subsetter/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..3189e92 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -217,6 +217,9 @@ class DatabaseConfig(BaseModel):
                     cursor.execute(session_sql)
             finally:
                 cursor.close()
+            # Session settings made within a transaction may otherwise be reverted when
+            # the connection is first returned to the pool.
+            dbapi_connection.commit()
 
         return engine
 
-- 
2.43.0


From d13f8d6c973a1e74c3e35db90eed541272f4ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 09/38] fix: avoid temporary table names that only differ by
 case

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 26ef01a..0987a67 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -57,8 +57,9 @@ class TempTableCreator:
         name = "".join(ch for ch in name if ch.isalnum())[:40]
         if not name:
             name = "anon"
-        cnt = self.name_counts.get(name, 0)
-        self.name_counts[name] = cnt + 1
+        # Table names are not case sensitive in every dialect
+        cnt = self.name_counts.get(name.lower(), 0)
+        self.name_counts[name.lower()] = cnt + 1
         if cnt:
             return f"{self.NAME_PREFIX}{name}_{cnt}"
         return f"{self.NAME_PREFIX}{name}"
-- 
2.43.0


From 16a145d2321d0908c59a786557604f2c2c8562ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 10/38] fix: always create sampling tables as new temporary
 tables

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0987a67..6b88e86 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -117,7 +117,8 @@ class TempTableCreator:
             ),
         )
         try:
-            metadata.create_all(conn)
+            # Never mistake an existing table of the same name for the temporary table
+            metadata.create_all(conn, checkfirst=False)
         except Exception as exc:  # pylint: disable=broad-exception-caught
             # TODO: Is this still needed?
             #
-- 
2.43.0


From 279b38d9c233d447c73deea06068d6b71aafd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 11/38] fix: skip foreign keys to unselected tables when
 include_dependencies is off

---
 subsetter/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..875726f 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,7 +182,11 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
-                self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
+                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None:
+                    # References a table that was not selected
+                    continue
+                dst_table.rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
                         dst_schema=table.schema,
-- 
2.43.0


From 7f32b30ddd2838d0119855383b21cb13b57aea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 12/38] fix: do not create foreign keys to tables outside of
 the plan

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6b88e86..c2666c8 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -519,6 +519,10 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    ref_table = constraint.referred_table
+                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
+                        # References a table that is not part of the sample
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From 7b927a78076f8e649935a1cbdfd941fc10088d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 13/38] fix: validate compaction before modifying the
 destination

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c2666c8..debdd75 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -718,6 +718,7 @@ class Sampler:
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
+        self.compact_columns = self._get_compact_columns(meta)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -727,7 +728,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
-- 
2.43.0


From e1caba6abb8ce5c3fcf07b51e631cc118a415c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 14/38] fix: reject explicitly configured compact columns
 within foreign keys

---
 subsetter/sampler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index debdd75..681181f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -759,14 +759,11 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
+        compact_primary_keys = (
+            self.config.compact.primary_keys or self.config.compact.auto_increment_keys
+        )
         for table_key, table_meta in meta.tables.items():
-            if len(table_meta.primary_key) != 1:
+            if not compact_primary_keys or len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
                 continue
-- 
2.43.0


From 4402fb074699ff54eee74b6ae99f00952e739267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 15/38] fix: fail if a planned table is missing in the
 destination

---
 subsetter/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 681181f..ef2cd65 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -578,6 +578,11 @@ class DatabaseOutput(SamplerOutput):
     def insert_order(self) -> List[str]:
         result = []
         insert_order_mapped = [str(table) for table in self.meta.toposort()]
+        missing_tables = set(self.table_remap) - set(insert_order_mapped)
+        if missing_tables:
+            raise ValueError(
+                f"Destination is missing planned tables {sorted(missing_tables)}"
+            )
         for table in insert_order_mapped:
             remapped_table = self.table_remap.get(table)
             if remapped_table:
-- 
2.43.0


From 5ca5cb4ebe6044989bf424eaea4f4c1127b78cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 16/38] fix: use consistent merge offsets for primary keys that
 are foreign keys

---
 subsetter/sampler.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ef2cd65..0970957 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -442,6 +442,23 @@ class DatabaseOutput(SamplerOutput):
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
+        # A primary key that is itself a foreign key is shifted along with the key that it
+        # references. Repeat to resolve chains of such keys.
+        for _ in pk_max_values:
+            for source_table in pk_max_values:
+                src_table = self.source_meta.tables[parse_table_name(source_table)]
+                for fk in src_table.foreign_keys:
+                    dst_source_table = f"{fk.dst_schema}.{fk.dst_table}"
+                    if (
+                        dst_source_table in pk_max_values
+                        and fk.columns == src_table.primary_key
+                        and fk.dst_columns
+                        == self.source_meta.tables[
+                            (fk.dst_schema, fk.dst_table)
+                        ].primary_key
+                    ):
+                        pk_max_values[source_table] = pk_max_values[dst_source_table]
+
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
                 continue
-- 
2.43.0


From 565848fb0062372e7c6d3dc0945a92de85457216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 17/38] fix: ignore foreign keys to tables outside of the plan
 when merging

---
 subsetter/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0970957..e35009e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -468,6 +468,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
+                if (fk.dst_schema, fk.dst_table) not in self.source_meta.tables:
+                    continue
                 if (
                     fk.dst_columns
                     != self.source_meta.tables[
-- 
2.43.0


From 47c310f65ed6065263aa3da039ba97b753aef89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 18/38] fix: match planned table names literally in the sampler

---
 subsetter/sampler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e35009e..11aab64 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import glob
 import json
 import logging
 import os
@@ -395,7 +396,7 @@ class DatabaseOutput(SamplerOutput):
 
         self.meta, self.additional_tables = DatabaseMetadata.from_engine(
             self.engine,
-            list(self.table_remap),
+            [glob.escape(table) for table in self.table_remap],
             close_backward=True,
         )
 
@@ -734,7 +735,9 @@ class Sampler:
         create: bool = False,
     ) -> None:
         self.passthrough_tables = set(plan.passthrough)
-        meta, _ = DatabaseMetadata.from_engine(self.source_engine, list(plan.queries))
+        meta, _ = DatabaseMetadata.from_engine(
+            self.source_engine, [glob.escape(table) for table in plan.queries]
+        )
         if self.config.infer_foreign_keys != "none":
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
-- 
2.43.0


From 1614c1fc4f7ba1f099c0ae1e3bafad78298d3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 19/38] fix: do not round floating point values to decimals

---
 subsetter/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 875726f..b5dd61e 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -83,6 +83,12 @@ class DatabaseMetadata:
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
 
+        # Converting floats to decimals would round them to a fixed number of digits
+        for table_obj in metadata_obj.tables.values():
+            for col in table_obj.columns:
+                if isinstance(col.type, sa.Float):
+                    col.type.asdecimal = False
+
         table_set: Set[Tuple[str, str]] = set()
         table_queue: List[Tuple[str, str]] = []
         for table_id, table_obj in metadata_obj.tables.items():
-- 
2.43.0


From 88afec7af96fa6b9c560f85d697200b4e914a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 20/38] fix: shift every column of composite foreign keys when
 merging

---
 subsetter/sampler.py | 56 ++++++++++----------------------------------
 1 file changed, 13 insertions(+), 43 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 11aab64..e137bf3 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -410,14 +410,14 @@ class DatabaseOutput(SamplerOutput):
         if not self.merge:
             return
 
-        pk_max_values = {}
         self.table_offsets.clear()
+        offsets: Dict[str, Dict[str, int]] = {}
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
                 continue
 
             schema, table_name = self._remap_table(*parse_table_name(source_table))
-            self.table_offsets[(schema, table_name)] = {}
+            offsets[source_table] = self.table_offsets[(schema, table_name)] = {}
             table = self.meta.tables[(schema, table_name)]
             if len(table.primary_key) != 1:
                 LOGGER.warning(
@@ -439,50 +439,20 @@ class DatabaseOutput(SamplerOutput):
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-            pk_max_values[source_table] = max_pk_val
-            if max_pk_val is not None:
-                self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
+            offsets[source_table][pk_col.name] = (
+                0 if max_pk_val is None else max_pk_val + 1
+            )
 
-        # A primary key that is itself a foreign key is shifted along with the key that it
-        # references. Repeat to resolve chains of such keys.
-        for _ in pk_max_values:
-            for source_table in pk_max_values:
+        # Foreign key columns are shifted along with the column that they reference, even
+        # if they are part of a primary key. Repeat to resolve chains of foreign keys.
+        for _ in offsets:
+            for source_table, table_offsets in offsets.items():
                 src_table = self.source_meta.tables[parse_table_name(source_table)]
                 for fk in src_table.foreign_keys:
-                    dst_source_table = f"{fk.dst_schema}.{fk.dst_table}"
-                    if (
-                        dst_source_table in pk_max_values
-                        and fk.columns == src_table.primary_key
-                        and fk.dst_columns
-                        == self.source_meta.tables[
-                            (fk.dst_schema, fk.dst_table)
-                        ].primary_key
-                    ):
-                        pk_max_values[source_table] = pk_max_values[dst_source_table]
-
-        for source_table in self.plan.queries:
-            if source_table in self.passthrough_tables:
-                continue
-
-            src_schema, src_table_name = parse_table_name(source_table)
-            src_table = self.source_meta.tables[(src_schema, src_table_name)]
-            for fk in src_table.foreign_keys:
-                if len(fk.columns) != 1:
-                    continue
-                if (fk.dst_schema, fk.dst_table) not in self.source_meta.tables:
-                    continue
-                if (
-                    fk.dst_columns
-                    != self.source_meta.tables[
-                        (fk.dst_schema, fk.dst_table)
-                    ].primary_key
-                ):
-                    continue
-                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
-                if offset is not None:
-                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
-                        fk.columns[0]
-                    ] = (offset + 1)
+                    dst_offsets = offsets.get(f"{fk.dst_schema}.{fk.dst_table}", {})
+                    for col, dst_col in zip(fk.columns, fk.dst_columns):
+                        if dst_col in dst_offsets:
+                            table_offsets[col] = dst_offsets[dst_col]
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From a1167f2c3bb63b34f4def8bef7cbf4e1a3e18ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 21/38] fix: follow foreign keys to compacted columns through
 other foreign keys

---
 subsetter/sampler.py | 59 +++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e137bf3..d1922e2 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -786,6 +786,35 @@ class Sampler:
 
         return compact_columns
 
+    def _get_remote_compact_columns(
+        self, meta: DatabaseMetadata, table_key: Tuple[str, str]
+    ) -> Dict[str, Tuple[str, str, str]]:
+        """
+        Calculate the set of columns of a table that must be updated to match a compacted
+        column of another table. A foreign key can reference a compacted column through
+        other foreign keys.
+        """
+        result: Dict[str, Tuple[str, str, str]] = {}
+        pending = [
+            (col.name, (*table_key, col.name))
+            for col in meta.tables[table_key].table_obj.columns
+        ]
+        visited = set(pending)
+        while pending:
+            src_col, (schema, table_name, col) = pending.pop()
+            table_meta = meta.tables.get((schema, table_name))
+            for fk in table_meta.foreign_keys if table_meta else ():
+                if col not in fk.columns:
+                    continue
+                dst_col = fk.dst_columns[fk.columns.index(col)]
+                dst = (fk.dst_schema, fk.dst_table, dst_col)
+                if dst_col in self.compact_columns.get(dst[:2], set()):
+                    result[src_col] = dst
+                elif (src_col, dst) not in visited:
+                    visited.add((src_col, dst))
+                    pending.append((src_col, dst))
+        return result
+
     def _materialization_order(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> List[Tuple[str, str, int]]:
@@ -812,11 +841,11 @@ class Sampler:
 
             # For calculating max ref count also need to count joins needed at sampling time
             # to facilitate compaction.
-            for fk in meta.tables[parse_table_name(table)].foreign_keys:
-                key = (fk.dst_schema, fk.dst_table)
-                compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+            table_key = parse_table_name(table)
+            for key in self._get_remote_compact_columns(meta, table_key).values():
+                counter[key[:2]] = counter.get(key[:2], 0) + 1
+            if table_key in counter:
+                counter[table_key] += 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -932,7 +961,11 @@ class Sampler:
 
             build_ctx = meta.sql_build_context()
             if (schema, table_name, 0) in meta.temp_tables:
-                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
+                query_stmt = build_ctx(
+                    SQLTableIdentifier(
+                        table_schema=schema, table_name=table_name, sampled=True
+                    )
+                ).select()
             else:
                 query_stmt = query.build(build_ctx)
 
@@ -940,17 +973,9 @@ class Sampler:
             # We must update the value for that column in this table to match
             # the new compacted column.
             src_table = meta.tables[(schema, table_name)]
-            remote_compact_cols = {}
-            for fk in src_table.foreign_keys:
-                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
-                    if dst_col in self.compact_columns.get(
-                        (fk.dst_schema, fk.dst_table), set()
-                    ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+            remote_compact_cols = self._get_remote_compact_columns(
+                meta, (schema, table_name)
+            )
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
-- 
2.43.0


From ccbf823eb299d27e1754d1b6f91090c9bd03206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 22/38] fix: reject multiplying columns that reference columns
 that are not multiplied

---
 subsetter/sampler.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index d1922e2..5dd2067 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1156,6 +1156,22 @@ class Sampler:
             if not changes:
                 break
 
+        for table_name in plan.queries:
+            for fk in meta.tables[parse_table_name(table_name)].foreign_keys:
+                dst_table_name = f"{fk.dst_schema}.{fk.dst_table}"
+                if dst_table_name not in plan.queries:
+                    continue
+                dst_mapped = result.get(dst_table_name, set())
+                for col_name, dst_col in zip(fk.columns, fk.dst_columns):
+                    if (
+                        col_name in result.get(table_name, set())
+                        and dst_col not in dst_mapped
+                    ):
+                        raise ValueError(
+                            f"Cannot multiply column {table_name}.{col_name} that points to "
+                            f"{dst_table_name}.{dst_col} which is not multiplied"
+                        )
+
         for table_name in plan.queries:
             table = meta.tables[parse_table_name(table_name)]
             col_map = {column.name: column for column in table.table_obj.columns}
-- 
2.43.0


From 8d1665b1723c48e290162ec23f7f6055ea12fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 23/38] fix: create destination tables after the tables they
 reference

Foreign keys were excluded from the creation order, so that a run that was killed
while creating tables could leave a table referencing a missing one behind, which
no later run could reflect, or tables without their foreign keys.
---
 subsetter/sampler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5dd2067..8f22018 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -519,7 +519,6 @@ class DatabaseOutput(SamplerOutput):
                             _remap_cols(constraint.columns),
                             fk_cols,
                             name=constraint.name,
-                            use_alter=True,
                         )
                     )
 
-- 
2.43.0


From 4e7b1c63373317b4e8b77734098205832a1f7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 24/38] fix: do not reuse foreign key names when creating
 tables

Foreign key names are unique per schema on MySQL and can already be taken in the
destination, for instance if tables of two schemas are remapped to one.
---
 subsetter/sampler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 8f22018..cd37e93 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -518,7 +518,6 @@ class DatabaseOutput(SamplerOutput):
                         sa.ForeignKeyConstraint(
                             _remap_cols(constraint.columns),
                             fk_cols,
-                            name=constraint.name,
                         )
                     )
 
-- 
2.43.0


From 57d92d89876f15c5a738edcc3f22385e0fd7f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 25/38] fix: reject plans with queries that have no SQL or
 statement when they are read

They were accepted and failed only after the destination had been truncated.
---
 subsetter/plan_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index cd2384a..bc2b3b9 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -2,7 +2,7 @@ import itertools
 from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
-from pydantic import BaseModel, ConfigDict, Field
+from pydantic import BaseModel, ConfigDict, Field, model_validator
 from sqlalchemy.ext.compiler import compiles
 from sqlalchemy.sql.functions import FunctionElement
 from typing_extensions import Annotated
@@ -357,10 +357,9 @@ class SQLStatementSelect(BaseModel):
 
 class SQLStatementUnion(BaseModel):
     type_: Literal["union"] = Field(..., alias="type")
-    statements: List[SQLStatementSelect]
+    statements: List[SQLStatementSelect] = Field(..., min_length=1)
 
     model_config = ConfigDict(populate_by_name=True)
-    # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
         stmts = []
@@ -424,11 +423,16 @@ SQLStatement = Annotated[
 
 
 class SQLTableQuery(BaseModel):
-    # TODO: Validate exactly one is set
     sql: Optional[str] = None
     sql_params: Optional[Dict[str, Any]] = None
     statement: Optional[SQLStatement] = None
 
+    @model_validator(mode="after")
+    def check_query_set(self):
+        if self.sql is None and self.statement is None:
+            raise ValueError("one of 'sql' or 'statement' must be set")
+        return self
+
     def build(self, context: SQLBuildContext):
         if self.sql is not None:
             stmt = sa.text(self.sql)
-- 
2.43.0


From f5a88505cb2fb5d13e0900da3cc4b502cd0fb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 26/38] fix: keep echoed statements out of a plan written to
 standard output

With -vvv (or echo) sqlalchemy logged every statement to standard output, where the
plan goes.
---
 subsetter/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index d18eb16..7c1a3db 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -225,6 +225,8 @@ def main():
         format=logging_format,
     )
     logging.getLogger("faker").setLevel(logging.INFO)
+    # Without a handler of its own sqlalchemy echoes statements to stdout, into the plan.
+    logging.getLogger("sqlalchemy.engine.Engine").addHandler(logging.NullHandler())
 
     with logging_redirect_tqdm():
         try:
-- 
2.43.0


From b279218b39667949c2bef6e6c8a131dce84b94aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:31 +0000
Subject: [PATCH 27/38] fix: zero filter on decimal and date columns

---
 subsetter/filters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..52b9199 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -1,7 +1,8 @@
 import abc
 import dataclasses
 import string
-from datetime import datetime
+from datetime import date, datetime
+from decimal import Decimal
 from fnmatch import fnmatch
 from importlib import import_module
 from random import Random
@@ -156,6 +157,10 @@ class FilterZero(FilterColumns):
                 yield 0.0
             elif isinstance(value, datetime):
                 yield EPOCH.replace(tzinfo=value.tzinfo)
+            elif isinstance(value, date):
+                yield EPOCH.date()
+            elif isinstance(value, Decimal):
+                yield Decimal(0)
             else:
                 raise ValueError(f"Cannot zero unknown type {str(type(value))}")
 
-- 
2.43.0


From a812a1b971af60c9d4326f9e7756d8c8917e8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 28/38] fix: apply the configured TLS verification level to
 MySQL connections

---
 subsetter/common.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 3189e92..f6ee126 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
@@ -138,19 +139,15 @@ class DatabaseConfig(BaseModel):
                 return {key: value for key, value in result.items() if value}
 
             if dialect == "mysql":
-                result = {
-                    "ca": server_rootcert,
-                    "key": client_key,
-                    "cert": client_cert,
-                }
-                result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
-                return {"ssl": result}
+                context = ssl.create_default_context(cafile=server_rootcert)
+                # Certificates generated by MySQL do not pass strict verification.
+                context.verify_flags &= ~ssl.VERIFY_X509_STRICT
+                context.check_hostname = server_verify == "identity"
+                if server_verify not in ("cert", "identity"):
+                    context.verify_mode = ssl.CERT_NONE
+                if client_cert:
+                    context.load_cert_chain(client_cert, client_key)
+                return {"ssl": context}
 
             raise ValueError("Dialect does not support ssl")
 
-- 
2.43.0


From 2c19c57b253cfa6524bf257538dd5a069c8e68ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 29/38] fix: use the dialect named by the environment for all
 connection settings

---
 subsetter/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index f6ee126..492f6d9 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -181,9 +181,14 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = self.dialect
+        if dialect is None and env_prefix is not None:
+            dialect = os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
+        dialect = dialect or DEFAULT_DIALECT
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -193,7 +198,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -203,7 +208,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From 6e3d8d0e95e7406a0d4a1d715653d29751c95eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 30/38] fix: multiplex comparisons do not fail on NULL

---
 subsetter/filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 52b9199..c0083b7 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -579,6 +579,9 @@ class MultiplexCondition(BaseModel):
             return value == self.value
         if op == "!=":
             return value != self.value
+        if value is None:
+            # As in SQL nothing is less than, greater than, or similar to NULL.
+            return False
         if op == "<":
             return value < self.value
         if op == ">":
-- 
2.43.0


From 726f325d8b153bea28e24d7515bafd5c284f7e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 31/38] fix: keep a target's SQL condition together when it is
 combined with others

---
 subsetter/plan_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index bc2b3b9..a5950f0 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -229,7 +229,8 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        # Enclosed as other conditions may be combined with it; it can end in a comment.
+        clause = sa.text(f"({self.sql}\n)")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From 29378bb48c1cccbed7f1718bd21e263c926c0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 32/38] fix: all overrides the amount of a target

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..7bc317a 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -435,7 +435,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From 49f9fc0f2081adb99ca45e9a47fc54e598477fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 33/38] fix: apply table constraints to targetted tables

---
 subsetter/planner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 7bc317a..e1200a3 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -284,11 +284,15 @@ class Planner:
         assert not foreign_keys or not rev_foreign_keys
         assert target or foreign_keys or rev_foreign_keys
 
+        conf_constraints = self.config.table_constraints.get(
+            f"{table.schema}.{table.name}", []
+        )
+
         # If we're a target we can only have reverse foreign key constraints.
         # If we're selecting all rows we can just ignore them.
         if target:
             assert not foreign_keys
-            if target.all_:
+            if target.all_ and not conf_constraints:
                 rev_foreign_keys.clear()
             if rev_foreign_keys:
                 LOGGER.debug(
@@ -341,9 +345,6 @@ class Planner:
                 )
             )
 
-        conf_constraints = self.config.table_constraints.get(
-            f"{table.schema}.{table.name}", []
-        )
         conf_constraints_sql: List[SQLWhereClause] = []
         if conf_constraints and rev_foreign_keys:
             raise ValueError(
@@ -427,6 +428,9 @@ class Planner:
             if target.all_:
                 target_constraints.clear()
 
+            # Table constraints apply to targetted rows as well
+            target_constraints.extend(conf_constraints_sql)
+
             statements.append(
                 SQLStatementSelect(
                     type_="select",
-- 
2.43.0


From f12efdde4b13d54b729d8d0ff67e43f0c210f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:02 +0000
Subject: [PATCH 34/38] fix: refuse an omit filter for a column that does not
 exist

---
 subsetter/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index c0083b7..f8ccfe7 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -178,6 +178,7 @@ class FilterOmit(FilterView):
     def __init__(self, columns_in: Iterable[str], columns_act: Iterable[str]) -> None:
         columns_in = tuple(columns_in)
         self.columns_act = tuple(columns_act)
+        _validate_and_index(str(type(self)), columns_in, self.columns_act)
         column_act_set = set(self.columns_act)
         columns_out = tuple(
             column for column in columns_in if column not in column_act_set
-- 
2.43.0


From 4e0add732fe3a3a1f06c5db2eddf6737a4330393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:11 +0000
Subject: [PATCH 35/38] fix: refuse a destination that lacks output columns
 before changing it

---
 subsetter/sampler.py | 53 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index cd37e93..a688643 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -23,7 +23,11 @@ from subsetter.config_model import (
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
 from subsetter.metadata import DatabaseMetadata
-from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier
+from subsetter.plan_model import (
+    SQLLeftJoin,
+    SQLStatementUnion,
+    SQLTableIdentifier,
+)
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
 
@@ -307,6 +311,11 @@ class SamplerOutput(abc.ABC):
     def prepare(self) -> None:
         """Called just prior to sampling after truncate/create have executed"""
 
+    def validate_columns(
+        self, schema: str, table_name: str, columns: Iterable[str]
+    ) -> None:
+        """Check that the given columns of a source table can be output"""
+
     @abc.abstractmethod
     def insert_order(self) -> List[str]:
         """Return the order to insert data that respects foreign key relationships"""
@@ -577,6 +586,17 @@ class DatabaseOutput(SamplerOutput):
                 result.append(remapped_table)
         return result
 
+    def validate_columns(
+        self, schema: str, table_name: str, columns: Iterable[str]
+    ) -> None:
+        schema, table_name = self._remap_table(schema, table_name)
+        table = self.meta.tables[(schema, table_name)]
+        missing_columns = {col for col in columns if col not in table.table_obj.columns}
+        if missing_columns:
+            raise ValueError(
+                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
+            )
+
     def output_result_set(
         self,
         schema: str,
@@ -593,13 +613,7 @@ class DatabaseOutput(SamplerOutput):
         table = self.meta.tables[(schema, table_name)]
 
         columns_out = filter_view.columns_out if filter_view else columns
-        missing_columns = {
-            col for col in columns_out if col not in table.table_obj.columns
-        }
-        if missing_columns:
-            raise ValueError(
-                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
-            )
+        self.validate_columns(src_schema, src_table_name, columns_out)
 
         # Automatically omit any included computed columns
         computed_columns = [
@@ -719,6 +733,7 @@ class Sampler:
         if create:
             output.create()
         insert_order = output.insert_order()
+        self._validate_output_columns(output, meta, plan)
         if truncate:
             output.truncate()
         output.prepare()
@@ -1085,6 +1100,28 @@ class Sampler:
                 filters,
             )
 
+    def _validate_output_columns(
+        self, output: SamplerOutput, meta: DatabaseMetadata, plan: SubsetPlan
+    ) -> None:
+        for table, query in plan.queries.items():
+            if query.statement is None:
+                # The columns of a raw SQL query are only known once it has executed.
+                continue
+            statement = query.statement
+            if isinstance(statement, SQLStatementUnion):
+                statement = statement.statements[0]
+
+            schema, table_name = parse_table_name(table)
+            table_obj = meta.tables[(schema, table_name)].table_obj
+            columns = statement.columns or [col.name for col in table_obj.columns]
+            filter_view = FilterViewChain.construct_filter(
+                columns,
+                self.config.filters.get(table, []),
+            )
+            output.validate_columns(
+                schema, table_name, filter_view.columns_out if filter_view else columns
+            )
+
     def _get_multiplied_columns(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> Dict[str, Set[str]]:
-- 
2.43.0


From 61d1fabf151b0c514a62ed36d4d0b33395d2dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:33 +0000
Subject: [PATCH 36/38] fix: keep expressions and conditions of the indexes of
 created tables

---
 subsetter/metadata.py |  3 +++
 subsetter/sampler.py  | 33 ++++++++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index b5dd61e..80dd07e 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -61,8 +61,10 @@ class DatabaseMetadata:
         metadata_obj: sa.MetaData,
         tables: Dict[Tuple[str, str], TableMetadata],
         *,
+        dialect: str,
         supports_temp_reopen: bool = True,
     ) -> None:
+        self.dialect = dialect
         self.metadata_obj = metadata_obj
         self.tables = tables
         self.supports_temp_reopen = supports_temp_reopen
@@ -131,6 +133,7 @@ class DatabaseMetadata:
                     )
                     for schema, table in table_queue
                 },
+                dialect=engine.dialect.name,
                 supports_temp_reopen=engine.dialect.name != "mysql",
             ),
             table_queue[num_selected_tables:],
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a688643..3faceb2 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -11,6 +11,7 @@ from typing import Any, Dict, Iterable, List, Optional, Set, Tuple
 import sqlalchemy as sa
 from sqlalchemy.dialects import mysql, postgresql, sqlite
 from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql import visitors
 from sqlalchemy.sql.compiler import SQLCompiler
 from sqlalchemy.sql.expression import ClauseElement, Executable
 
@@ -531,20 +532,38 @@ class DatabaseOutput(SamplerOutput):
                     )
 
             for index_idx, index in enumerate(table_obj.indexes):
-                sa.Index(
+                unique = index.unique
+                expressions = list(index.expressions)
+                if source_meta.dialect != self.engine.dialect.name:
+                    # Index expressions and conditions cannot be carried over
+                    if len(index.columns) != len(expressions):
+                        LOGGER.warning(
+                            "Not creating index %s of table %s with expressions",
+                            index.name,
+                            table,
+                        )
+                        continue
+                    if any(key.endswith("_where") for key in index.dialect_kwargs):
+                        unique = False
+                    expressions = list(index.columns)
+
+                remapped_index = sa.Index(
                     f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
                     *(
-                        (
-                            remapped_table_obj.columns[col.name]
-                            if isinstance(col, sa.Column)
-                            else col
+                        visitors.replacement_traverse(
+                            expression,
+                            {},
+                            lambda elem, cols=remapped_table_obj.columns: (
+                                cols[elem.name] if isinstance(elem, sa.Column) else None
+                            ),
                         )
-                        for col in index.columns
+                        for expression in expressions
                     ),
-                    unique=index.unique,
+                    unique=unique,
                     dialect_options=index.dialect_options,
                     **index.dialect_kwargs,
                 )
+                remapped_table_obj.append_constraint(remapped_index)
 
         if tables_created:
             LOGGER.info("Creating %d tables in destination", len(tables_created))
-- 
2.43.0


From 158ed47991e4846d0a885c9b6fe72b78f8f666e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:42 +0000
Subject: [PATCH 37/38] fix: create temporary tables with columns of named
 types

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3faceb2..74aa928 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -123,8 +123,9 @@ class TempTableCreator:
             ),
         )
         try:
-            # Never mistake an existing table of the same name for the temporary table
-            metadata.create_all(conn, checkfirst=False)
+            # Never mistake an existing table of the same name for the temporary table.
+            # The types of its columns exist already.
+            conn.execute(sa.schema.CreateTable(table_obj))
         except Exception as exc:  # pylint: disable=broad-exception-caught
             # TODO: Is this still needed?
             #
-- 
2.43.0


From 15ed6feeeaf0f10a321e06e349aa37f4df729fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:39 +0000
Subject: [PATCH 38/38] fix: keep NULL in JSON columns apart from the JSON
 value null

---
 subsetter/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 80dd07e..d52fbf0 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -85,11 +85,14 @@ class DatabaseMetadata:
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
 
-        # Converting floats to decimals would round them to a fixed number of digits
+        # Converting floats to decimals would round them to a fixed number of digits.
+        # None is a JSON null value only in JSON columns that cannot be NULL.
         for table_obj in metadata_obj.tables.values():
             for col in table_obj.columns:
                 if isinstance(col.type, sa.Float):
                     col.type.asdecimal = False
+                if isinstance(col.type, sa.JSON):
+                    col.type.none_as_null = bool(col.nullable)
 
         table_set: Set[Tuple[str, str]] = set()
         table_queue: List[Tuple[str, str]] = []
-- 
2.43.0

