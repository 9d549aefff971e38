"""SQLAlchemy's psycopg2 and pymysql dialects, connected to the simulated servers.

Statement compilation, execution contexts, result handling, pooling and disconnect detection are
SQLAlchemy's own; only the driver module and the catalogue queries (reflection) are replaced."""
import json

import sqlalchemy as sa
from sqlalchemy import exc as sa_exc
from sqlalchemy.dialects import registry
from sqlalchemy.dialects.mysql import base as mybase
from sqlalchemy.dialects.mysql.pymysql import MySQLDialect_pymysql
from sqlalchemy.dialects.postgresql import base as pgbase
from sqlalchemy.dialects.postgresql import json as pgjson
from sqlalchemy.dialects.postgresql.psycopg2 import PGDialect_psycopg2
from sqlalchemy.engine.default import DefaultDialect
from sqlalchemy.engine.reflection import ReflectionDefaults

from . import server as simserver
from .server import base_type


def _type_args(t):
    if "(" not in t:
        return []
    return [int(x) for x in t[t.index("(") + 1 : t.rindex(")")].split(",")]


PG_MAP = {
    "INTEGER": "integer", "INT": "integer", "BIGINT": "bigint", "SMALLINT": "smallint",
    "TEXT": "text", "VARCHAR": "character varying", "CHARACTER VARYING": "character varying",
    "CHAR": "character", "DOUBLE PRECISION": "double precision", "FLOAT": "double precision",
    "REAL": "real", "NUMERIC": "numeric", "DECIMAL": "numeric", "BOOLEAN": "boolean",
    "BOOL": "boolean", "TIMESTAMP": "timestamp", "TIMESTAMP WITHOUT TIME ZONE": "timestamp",
    "DATE": "date", "BYTEA": "bytea", "TIME": "time", "TIME WITHOUT TIME ZONE": "time",
    "JSONB": "jsonb", "JSON": "json",
}


class _Reflection:
    """Catalogue access shared by both dialects."""

    def _meta(self, connection, what):
        dbapi_conn = connection.connection.dbapi_connection
        sess = dbapi_conn.sess
        dbapi_conn_check(dbapi_conn)
        op = f"{sess.role}.meta"
        sim = sess.sim
        faults = sim.pre(op, sess, what)
        dbapi_conn._check()
        for f in faults:
            if f["kind"] in ("error", "drop"):
                sim.fire(f, op)
                sess.drop()
                raise sa_exc.DBAPIError.instance(
                    what, None, dbapi_conn._disconnect(), dbapi_conn._dbapi.Error, dialect=self,
                    connection_invalidated=True,
                )
        if sess.in_setup is False and not sess.autocommit:
            sess.begin()
        sim.emit("statement", session=sess, sql="-- catalogue: " + what, params=None, many=False,
                 kind="meta")
        sim.crash_after(faults, op)
        return sess

    def _shuffled(self, sess, items, key):
        return sess.sim.catalog_order(items, key)

    def get_schema_names(self, connection, **kw):
        sess = self._meta(connection, "schemas")
        return self._shuffled(sess, sess.server.schemas + self.system_schemas, "schemas")

    def get_table_names(self, connection, schema=None, **kw):
        sess = self._meta(connection, f"tables {schema}")
        names = [
            n.split(".", 1)[1]
            for (n,) in sess.db.execute("SELECT name FROM __cat ORDER BY name")
            if n.split(".", 1)[0] == schema
        ]
        return self._shuffled(sess, names, f"tables:{schema}")

    def get_view_names(self, connection, schema=None, **kw):
        return []

    def get_materialized_view_names(self, connection, schema=None, **kw):
        return []

    def get_temp_table_names(self, connection, schema=None, **kw):
        return []

    def get_temp_view_names(self, connection, schema=None, **kw):
        return []

    def _def(self, connection, table_name, schema, what):
        sess = connection.connection.dbapi_connection.sess
        dbapi_conn_check(connection.connection.dbapi_connection)
        d = sess.table_def(f"{schema}.{table_name}")
        if d is None:
            raise sa_exc.NoSuchTableError(f"{schema}.{table_name}")
        return sess, d

    def has_table(self, connection, table_name, schema=None, **kw):
        sess = self._meta(connection, f"has_table {schema}.{table_name}")
        if schema is None:
            return table_name in sess.temp
        if f"{schema}.{table_name}" in sess.temp:
            return self.name == "mysql"
        return sess.table_def(f"{schema}.{table_name}") is not None

    def has_sequence(self, connection, sequence_name, schema=None, **kw):
        return False

    def has_schema(self, connection, schema_name, **kw):
        return schema_name in self.get_schema_names(connection)

    def get_columns(self, connection, table_name, schema=None, **kw):
        self._meta(connection, f"columns {schema}.{table_name}")
        sess, d = self._def(connection, table_name, schema, "columns")
        res = []
        for c in d["cols"]:
            info = {
                "name": c["name"],
                "type": self._column_type(c),
                "nullable": bool(c.get("null", True)) and c["name"] not in d["pk"],
                "default": c.get("default"),
                "autoincrement": bool(c.get("autoinc")),
                "comment": None,
            }
            if c.get("computed"):
                info["computed"] = {"sqltext": c["computed"], "persisted": True}
            if c.get("autoinc") and self.name == "postgresql":
                info["default"] = (
                    f"nextval('{schema}.{table_name}_{c['name']}_seq'::regclass)"
                )
            res.append(info)
        return res

    def get_pk_constraint(self, connection, table_name, schema=None, **kw):
        sess, d = self._def(connection, table_name, schema, "pk")
        if not d["pk"]:
            return ReflectionDefaults.pk_constraint()
        return {"constrained_columns": list(d["pk"]), "name": f"{table_name}_pkey",
                "comment": None}

    def get_foreign_keys(self, connection, table_name, schema=None, **kw):
        sess, d = self._def(connection, table_name, schema, "fks")
        res = [
            {
                "name": fk["name"],
                "constrained_columns": list(fk["cols"]),
                "referred_schema": fk["ref"][0],
                "referred_table": fk["ref"][1],
                "referred_columns": list(fk["rcols"]),
                "options": {},
                "comment": None,
            }
            for fk in d["fks"]
        ]
        return self._shuffled(sess, res, f"fks:{schema}.{table_name}")

    def get_indexes(self, connection, table_name, schema=None, **kw):
        sess, d = self._def(connection, table_name, schema, "indexes")
        res = []
        for ix in d["indexes"]:
            e = {"name": ix["name"], "column_names": list(ix["cols"]),
                 "unique": bool(ix.get("unique"))}
            if self.name == "postgresql":
                e["include_columns"] = []
                e["dialect_options"] = {"postgresql_include": []}
                if ix.get("where"):
                    e["dialect_options"]["postgresql_where"] = f"({ix['where']})"
                if ix.get("exprs"):
                    e["column_names"] += [None] * len(ix["exprs"])
                    e["expressions"] = list(ix["cols"]) + list(ix["exprs"])
            res.append(e)
        for u in d["uniques"]:
            e = {"name": u["name"], "column_names": list(u["cols"]), "unique": True}
            if self.name == "postgresql":
                e["duplicates_constraint"] = u["name"]
                e["include_columns"] = []
                e["dialect_options"] = {"postgresql_include": []}
            res.append(e)
        return self._shuffled(sess, res, f"indexes:{schema}.{table_name}")

    def get_unique_constraints(self, connection, table_name, schema=None, **kw):
        sess, d = self._def(connection, table_name, schema, "uniques")
        res = []
        for u in d["uniques"]:
            e = {"name": u["name"], "column_names": list(u["cols"])}
            if self.name == "mysql":
                e["duplicates_index"] = u["name"]
            else:
                e["comment"] = None
            res.append(e)
        return self._shuffled(sess, res, f"uniques:{schema}.{table_name}")

    def get_check_constraints(self, connection, table_name, schema=None, **kw):
        sess, d = self._def(connection, table_name, schema, "checks")
        return [{"name": c["name"], "sqltext": c["sql"], "comment": None} for c in d["checks"]]

    def get_table_comment(self, connection, table_name, schema=None, **kw):
        return {"text": None}

    def get_table_options(self, connection, table_name, schema=None, **kw):
        return {}


for _n in (
    "columns", "pk_constraint", "foreign_keys", "indexes", "unique_constraints",
    "check_constraints", "table_comment", "table_options",
):
    setattr(_Reflection, f"get_multi_{_n}", getattr(DefaultDialect, f"get_multi_{_n}"))


def dbapi_conn_check(conn):
    if conn._gone():
        raise simserver.SimCrash("dead")


class SimPGDialect(_Reflection, PGDialect_psycopg2):
    supports_statement_cache = True
    # (psycopg2 decodes JSON itself; here SQLAlchemy does, with the same result)
    colspecs = {**PGDialect_psycopg2.colspecs, sa.JSON: pgjson.JSON,
                pgjson.JSON: pgjson.JSON, pgjson.JSONB: pgjson.JSONB}
    system_schemas = ["information_schema", "public"]

    @classmethod
    def import_dbapi(cls):
        return simserver.PG

    def on_connect(self):
        return None

    def initialize(self, connection):
        self.server_version_info = (16, 4)
        self.default_schema_name = "public"
        self.default_isolation_level = "READ COMMITTED"
        self.supports_smallserial = True
        self._backslash_escapes = False
        self._has_native_hstore = False
        self.supports_sane_multi_rowcount = True

    def get_isolation_level(self, dbapi_connection):
        return dbapi_connection.sess.isolation

    def get_default_isolation_level(self, dbapi_conn):
        return "READ COMMITTED"

    def _column_type(self, c):
        bt = base_type(c["type"])
        if c.get("labels"):
            return pgbase.ENUM(*c["labels"], name=c["type"].lower())
        cls = pgbase.ischema_names[PG_MAP[bt]]
        return cls(*_type_args(c["type"]))

    def has_type(self, connection, type_name, schema=None, **kw):
        sess = self._meta(connection, f"type {type_name}")
        return sess.type_labels(type_name) is not None

    def get_sequence_names(self, connection, schema=None, **kw):
        return []


class SimMySQLDialect(_Reflection, MySQLDialect_pymysql):
    supports_statement_cache = True
    supports_server_side_cursors = True
    _sscursor = simserver.SSCursor
    system_schemas = ["information_schema", "mysql", "performance_schema", "sys"]
    _send_false_to_ping = False

    @classmethod
    def import_dbapi(cls):
        return simserver.MY

    def on_connect(self):
        return None

    def _found_rows_client_flag(self):
        return 2

    def initialize(self, connection):
        self.server_version_info = (8, 0, 46)
        self.is_mariadb = False
        self.default_schema_name = None
        self.default_isolation_level = "REPEATABLE READ"
        self._connection_charset = "utf8mb4"
        self._sql_mode = ""
        self._backslash_escapes = False
        self._server_ansiquotes = False
        self._casing = 0
        self.supports_sequences = False
        self.supports_for_update_of = True
        self.use_mysql_for_share = True
        self._needs_correct_for_88718_96365 = False
        self.delete_returning = False
        self.insert_returning = False
        self._requires_alias_for_on_duplicate_key = True
        self._warn_for_known_db_issues()

    def _warn_for_known_db_issues(self):
        pass

    def get_isolation_level(self, dbapi_connection):
        return dbapi_connection.sess.isolation

    def set_isolation_level(self, dbapi_connection, level):
        if level == "AUTOCOMMIT":
            dbapi_connection.sess.autocommit = True
        else:
            dbapi_connection.sess.autocommit = False
            dbapi_connection.sess.isolation = (
                "READ COMMITTED" if level == "READ UNCOMMITTED" else level
            )

    def get_default_isolation_level(self, dbapi_conn):
        return "REPEATABLE READ"

    def _column_type(self, c):
        bt = base_type(c["type"]).lower()
        if bt == "enum":
            return mybase.ENUM(*simserver.enum_labels(c["type"]))
        bt = {"boolean": "tinyint", "bool": "tinyint", "int": "int"}.get(bt, bt)
        cls = mybase.ischema_names.get(bt) or mybase.ischema_names["int"]
        args = _type_args(c["type"])
        if bt == "tinyint":
            return mybase.TINYINT(display_width=1)
        return cls(*args)


def register():
    registry.register("postgresql.psycopg2", __name__, "SimPGDialect")
    registry.register("mysql.pymysql", __name__, "SimMySQLDialect")
    # the registry resolves plain "postgresql"/"mysql" URLs through the same entry points
    registry.impls["postgresql.psycopg2"] = lambda: SimPGDialect
    registry.impls["mysql.pymysql"] = lambda: SimMySQLDialect
    registry.impls["postgresql"] = lambda: SimPGDialect
    registry.impls["mysql"] = lambda: SimMySQLDialect


__all__ = ["register", "json", "sa"]
