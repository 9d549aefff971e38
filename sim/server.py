"""Simulated PostgreSQL / MySQL servers and the DBAPI modules through which SQLAlchemy's own
psycopg2 / pymysql dialects talk to them.

What is simulated: sessions, transactions and isolation levels (statement snapshots for READ
COMMITTED, transaction snapshots above), transactional SET and temporary tables (PostgreSQL),
implicit commit on DDL and the one-reference-per-statement rule for temporary tables (MySQL),
non-transactional sequences (PostgreSQL), server side cursors, session loss, the failed
transaction state, row order without ORDER BY, catalogue order.  Storage and query evaluation
are done by SQLite (WAL) on a private file, after a token level translation of the SQL.
"""
import copy
import datetime
import decimal
import hashlib
import json
import os
import re
import sqlite3
import types

from . import core
from .core import SimCrash
from .seam import Session, _brief, refused
from .boot import RealRandom
from . import sqltrans
from .sqltrans import SQLSyntaxError, quote

# ----------------------------------------------------------------------------- values
TAG = "\x01"


def encode(v):
    if v is None or isinstance(v, (int, float, str, bytes)) and not isinstance(v, bool):
        return v
    if isinstance(v, bool):
        return f"{TAG}b:{int(v)}"
    if isinstance(v, datetime.datetime):
        return f"{TAG}t:{v.isoformat(sep=' ')}"
    if isinstance(v, datetime.date):
        return f"{TAG}d:{v.isoformat()}"
    if isinstance(v, datetime.time):
        return f"{TAG}h:{v.isoformat()}"
    if isinstance(v, decimal.Decimal):
        return f"{TAG}n:{v}"
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    raise TypeError(f"can't adapt type {type(v).__name__!r}")


def decode(v):
    if isinstance(v, str) and v[:1] == TAG:
        k, s = v[1], v[3:]
        if k == "b":
            return s == "1"
        if k == "t":
            return datetime.datetime.fromisoformat(s)
        if k == "d":
            return datetime.date.fromisoformat(s)
        if k == "h":
            return datetime.time.fromisoformat(s)
        if k == "n":
            return decimal.Decimal(s)
    return v


# ----------------------------------------------------------------------------- DBAPI modules
def make_dbapi(name, paramstyle):
    m = types.ModuleType(name)
    m.paramstyle = paramstyle
    m.apilevel = "2.0"
    m.threadsafety = 1

    class Error(Exception):
        pass

    class Warning_(Exception):
        pass

    class InterfaceError(Error):
        pass

    class DatabaseError(Error):
        pass

    ns = {"Error": Error, "Warning": Warning_, "InterfaceError": InterfaceError,
          "DatabaseError": DatabaseError}
    for n in ("DataError", "OperationalError", "IntegrityError", "InternalError",
              "ProgrammingError", "NotSupportedError"):
        ns[n] = type(n, (DatabaseError,), {})
    for k, v in ns.items():
        v.__name__ = k
        setattr(m, k, v)
    m.Binary = bytes

    def connect(*args, **kwargs):
        sim = core.CURRENT
        if sim is None or sim.proc is None:
            raise core.HarnessError("database connection outside a simulated run")
        return sim.connect_server(m, args, kwargs)

    m.connect = connect
    return m


PG = make_dbapi("sim_psycopg2", "pyformat")
PG.__version__ = "2.9.9"
MY = make_dbapi("pymysql", "format")  # name used by SQLAlchemy to find CLIENT flags
MY.__version__ = "1.1.0"
DBAPI = {"postgresql": PG, "mysql": MY}

PG_TYPES = {
    "INTEGER", "INT", "BIGINT", "SMALLINT", "SERIAL", "BIGSERIAL", "SMALLSERIAL", "TEXT",
    "VARCHAR", "CHAR", "CHARACTER VARYING", "DOUBLE PRECISION", "FLOAT", "REAL", "NUMERIC",
    "DECIMAL", "BOOLEAN", "BOOL", "TIMESTAMP", "TIMESTAMP WITHOUT TIME ZONE", "DATE", "BYTEA",
    "TIME", "TIME WITHOUT TIME ZONE", "JSONB", "JSON",
}
MY_TYPES = {
    "INTEGER", "INT", "BIGINT", "SMALLINT", "TINYINT", "TEXT", "LONGTEXT", "VARCHAR", "CHAR",
    "FLOAT", "DOUBLE", "DOUBLE PRECISION", "NUMERIC", "DECIMAL", "BOOL", "BOOLEAN", "DATETIME",
    "TIMESTAMP", "DATE", "BLOB", "LONGBLOB", "JSON", "ENUM",
}
INT_TYPES = {"INTEGER", "INT", "BIGINT", "SMALLINT", "TINYINT", "SERIAL", "BIGSERIAL",
             "SMALLSERIAL"}
TEXT_TYPES = {"TEXT", "LONGTEXT", "BLOB", "LONGBLOB", "JSON"}


def base_type(t):
    return t.split("(")[0].strip()


def enum_labels(t):
    return [x.replace("''", "'") for x in re.findall(r"'((?:[^']|'')*)'", t)]


class DBError(Exception):
    """(exception class name, message, errno)"""

    def __init__(self, cls, msg, code=None):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg
        self.code = code


# ----------------------------------------------------------------------------- storage
def storage_sql(stored, d, temp=False):
    items = []
    for c in d["cols"]:
        bt = base_type(c["type"])
        s = quote(c["name"]) + " "
        if c.get("computed"):
            s += f"INT GENERATED ALWAYS AS ({c['computed']}) STORED"
        elif bt in INT_TYPES:
            s += f"INT CHECK (typeof({quote(c['name'])}) IN ('integer', 'null'))"
        elif bt in ("TEXT", "LONGTEXT", "VARCHAR", "CHAR", "CHARACTER VARYING"):
            s += "TEXT"
        elif bt in ("JSON", "JSONB"):
            s += f"TEXT CHECK (json_valid({quote(c['name'])}))"
        elif bt == "ENUM" or c.get("labels"):
            labels = c.get("labels") or enum_labels(c["type"])
            s += (f"TEXT CHECK ({quote(c['name'])} IN ("
                  + ", ".join("'" + x.replace("'", "''") + "'" for x in labels) + "))")
        else:
            s += "BLOB"
        if c["name"] in d["pk"] or not c.get("null", True):
            s += " NOT NULL"
        items.append(s)
    if d["pk"]:
        items.append("PRIMARY KEY (" + ", ".join(quote(c) for c in d["pk"]) + ")")
    for u in d["uniques"]:
        items.append("UNIQUE (" + ", ".join(quote(c) for c in u["cols"]) + ")")
    for c in d.get("checks", ()):
        items.append(f"CHECK ({c['sql']})")
    if not temp:
        for fk in d["fks"]:
            items.append(
                "FOREIGN KEY (" + ", ".join(quote(c) for c in fk["cols"]) + ") REFERENCES "
                + quote(".".join(fk["ref"])) + " ("
                + ", ".join(quote(c) for c in fk["rcols"]) + ")"
            )
    kw = "TEMPORARY " if temp else ""
    return f"CREATE {kw}TABLE {quote(stored)} (" + ", ".join(items) + ")"


class Server:
    """One simulated database server; lives as long as its storage file."""

    def __init__(self, dialect, path, schemas):
        self.dialect = dialect  # "postgresql" | "mysql"
        self.path = path
        self.schemas = list(schemas)
        self.seqs = {}  # (schema, table, col) -> [last, called]
        con = self.raw()
        con.execute("PRAGMA journal_mode=WAL")
        con.execute("PRAGMA synchronous=OFF")
        con.execute("CREATE TABLE IF NOT EXISTS __cat (name TEXT PRIMARY KEY, def TEXT)")
        con.execute("CREATE TABLE IF NOT EXISTS __types (name TEXT PRIMARY KEY, labels TEXT)")
        con.close()

    def raw(self):
        con = sqlite3.connect(self.path, isolation_level=None, timeout=0)
        con.execute("PRAGMA foreign_keys=ON")
        return con

    # -- harness side --------------------------------------------------------------
    def clone(self, path):
        new = object.__new__(Server)
        new.dialect = self.dialect
        new.path = path
        new.schemas = list(self.schemas)
        new.seqs = copy.deepcopy(self.seqs)
        src = self.raw()
        dst = sqlite3.connect(path)
        src.backup(dst)
        dst.execute("PRAGMA journal_mode=WAL")
        dst.execute("PRAGMA synchronous=OFF")
        dst.close()
        src.close()
        return new

    def create_table(self, con, schema, name, d):
        stored = f"{schema}.{name}"
        con.execute(storage_sql(stored, d))
        con.execute("INSERT INTO __cat VALUES (?, ?)", (stored, json.dumps(d)))
        for ix in d["indexes"]:
            self._storage_index(con, stored, ix)
        if self.dialect == "postgresql":
            for c in d["cols"]:
                if c.get("autoinc"):
                    self.seqs.setdefault((schema, name, c["name"]), [1, False])

    def _storage_index(self, con, stored, ix):
        u = "UNIQUE " if ix.get("unique") else ""
        con.execute(
            f"CREATE {u}INDEX {quote(stored + '#' + ix['name'])} ON {quote(stored)} ("
            + ", ".join([quote(c) for c in ix["cols"]] + ix.get("exprs", [])) + ")"
            + (f" WHERE {ix['where']}" if ix.get("where") else "")
        )

    def catalog(self, con):
        return {
            name: json.loads(d) for name, d in con.execute("SELECT name, def FROM __cat")
        }


class SimSession(Session):
    """A server session (the server's side of one connection)."""

    droppable = True

    def __init__(self, sim, role, server):
        super().__init__(sim, role, server.dialect)
        self.server = server
        self.db = server.raw()
        self.isolation = "READ COMMITTED" if server.dialect == "postgresql" else "REPEATABLE READ"
        self.autocommit = False
        self.in_txn = False
        self.failed = False
        self.wrote = False
        self.txn_id = 0
        self.settings = {}
        self.txn_settings = None
        self.temp = {}  # stored temp name -> def
        self.txn_temp = []
        self.currvals = {}
        self.pending_error = None
        self._functions()
        if server.dialect == "postgresql":
            self.db.execute("PRAGMA case_sensitive_like=ON")
        if sim.knobs.get(f"{role}_fk_off"):
            self.db.execute("PRAGMA foreign_keys=OFF")
        self.vm = 0
        self.db.set_progress_handler(self._progress, 1000000)

    def _progress(self):
        self.vm += 1
        if self.vm > 400:
            self.sim.overwork = True
        return 1 if self.vm > 400 else 0

    def _functions(self):
        sim, role = self.sim, self.role
        rng = sim.sql_rng(role)
        self.db.create_function("sim_random", 0, rng.random)
        if self.server.dialect == "postgresql":
            self.db.create_function("pg_get_serial_sequence", 2, self._wrap(self._serial_sequence))
            self.db.create_function("currval", 1, self._wrap(self._currval))
            self.db.create_function("nextval", 1, self._wrap(self._nextval))
            self.db.create_function("setval", 2, self._wrap(self._setval))
            self.db.create_function("setval", 3, self._wrap(self._setval))
            self.db.create_function("pg_sequence_last_value", 1, self._wrap(self._seq_last))
            self.db.create_function("greatest", -1, self._wrap(self._greatest))
            self.db.create_function("least", -1, self._wrap(self._least))

    def _wrap(self, fn):
        def call(*args):
            try:
                return fn(*args)
            except DBError as exc:
                self.pending_error = exc
                raise

        return call

    @staticmethod
    def _greatest(*args):
        vals = [a for a in args if a is not None]
        return max(vals) if vals else None

    @staticmethod
    def _least(*args):
        vals = [a for a in args if a is not None]
        return min(vals) if vals else None

    # sequences (PostgreSQL)
    def _relation(self, text):
        parts, cur, i, quoted = [], "", 0, False
        was_quoted = False
        while i < len(text):
            ch = text[i]
            if ch == '"':
                if quoted and text[i + 1 : i + 2] == '"':
                    cur += '"'
                    i += 1
                else:
                    quoted = not quoted
                    was_quoted = True
            elif ch == "." and not quoted:
                parts.append(cur)
                cur = ""
            else:
                cur += ch if quoted else ch.lower()
            i += 1
        parts.append(cur)
        del was_quoted
        return parts

    def _serial_sequence(self, tab, col):
        if tab is None or col is None:
            return None
        parts = self._relation(tab)
        cat = self.catalog_names()
        name = ".".join(parts)
        if len(parts) != 2 or name not in cat:
            raise DBError("ProgrammingError", f'relation "{tab}" does not exist')
        d = self.table_def(name)
        if col not in [c["name"] for c in d["cols"]]:
            raise DBError("ProgrammingError", f'column "{col}" of relation "{tab}" does not exist')
        key = (parts[0], parts[1], col)
        if key not in self.server.seqs:
            return None
        return json.dumps(key)

    def _seq(self, seq):
        try:
            key = tuple(json.loads(seq))
            return key, self.server.seqs[key]
        except (ValueError, KeyError, TypeError):
            # a sequence named literally: schema.table_col_seq
            for key in self.server.seqs:
                if self._relation(str(seq)) == [key[0], f"{key[1]}_{key[2]}_seq"]:
                    return key, self.server.seqs[key]
            raise DBError("ProgrammingError", f'relation "{seq}" does not exist') from None

    def _currval(self, seq):
        if seq is None:
            return None
        key, _ = self._seq(seq)
        if key not in self.currvals:
            raise DBError(
                "OperationalError",
                f'currval of sequence "{key[1]}_{key[2]}_seq" is not yet defined in this session',
            )
        return self.currvals[key]

    def _seq_last(self, seq):
        if seq is None:
            return None
        st = self._seq(seq)[1]
        return st[0] if st[1] else None

    def _nextval(self, seq):
        if seq is None:
            return None
        key, st = self._seq(seq)
        st[0] = st[0] + 1 if st[1] else st[0]
        st[1] = True
        self.currvals[key] = st[0]
        self.sim.emit("sequence", session=self, key=key, state=list(st), how="nextval")
        return st[0]

    def _setval(self, seq, val, called=1):
        if seq is None or val is None:
            return None
        key, st = self._seq(seq)
        if val < 1:
            raise DBError("DataError", f'setval: value {val} is out of bounds for sequence')
        st[0], st[1] = int(val), bool(called)
        if called:
            self.currvals[key] = int(val)
        self.sim.emit("sequence", session=self, key=key, state=list(st), how="setval")
        return int(val)

    # catalogue
    def catalog_names(self):
        return {r[0] for r in self.db.execute("SELECT name FROM __cat")}

    def table_def(self, stored):
        r = self.db.execute("SELECT def FROM __cat WHERE name = ?", (stored,)).fetchone()
        return json.loads(r[0]) if r else None

    # -- lifecycle -------------------------------------------------------------------
    def drop(self):
        """The server loses the session: everything uncommitted is gone."""
        if self.dropped:
            return
        self.dropped = True
        self._release()

    def kill(self):
        if not self.closed:
            self.closed = True
            self._release()

    def _release(self):
        try:
            if self.db.in_transaction:
                self.db.execute("ROLLBACK")
            self.db.close()
        except sqlite3.Error:
            pass

    # -- transactions -------------------------------------------------------------------
    def snapshot_isolation(self):
        return self.isolation in ("REPEATABLE READ", "SERIALIZABLE")

    def begin(self):
        if not self.in_txn:
            self.in_txn = True
            self.wrote = False
            self.txn_id += 1
            self.txn_settings = dict(self.settings)
            self.txn_temp = []
            if self.snapshot_isolation() and not self.autocommit:
                self.db.execute("BEGIN")
                self.db.execute("SELECT count(*) FROM __cat").fetchone()

    def begin_write(self):
        if not self.db.in_transaction:
            self.db.execute("BEGIN IMMEDIATE")
        self.wrote = True

    def do_commit(self):
        committed = False
        if self.db.in_transaction:
            self.db.execute("COMMIT")
            committed = self.wrote
        self.in_txn = False
        self.wrote = False
        self.failed = False
        self.txn_temp = []
        self.txn_settings = None
        return committed

    def do_rollback(self):
        if self.db.in_transaction:
            self.db.execute("ROLLBACK")
        if self.dialect == "postgresql":
            for name in self.txn_temp:
                self.db.execute(f"DROP TABLE IF EXISTS temp.{quote(name)}")
                self.temp.pop(name, None)
            if self.in_txn and self.txn_settings is not None:
                self.settings = self.txn_settings
        self.in_txn = False
        self.wrote = False
        self.failed = False
        self.txn_temp = []
        self.txn_settings = None

    # -- statements -------------------------------------------------------------------
    def default_table(self, name):
        if self.dialect == "postgresql":
            return name if name in self.temp else f"public.{name}"
        return f"?.{name}"

    def run(self, sql, params):
        """Execute one statement.  Returns (columns or None, rows, rowcount)."""
        toks = sqltrans.tokenize(sql, self.dialect)
        if self.dialect == "postgresql":
            toks = sqltrans.strip_pg_casts(toks)
        if not toks:
            return None, [], -1
        verb = toks[0].up
        if self.failed and self.dialect == "postgresql":
            raise DBError(
                "InternalError",
                "current transaction is aborted, commands ignored until end of transaction block",
            )
        try:
            return self._run(sql, toks, verb, params)
        except SQLSyntaxError as exc:
            self._fail()
            raise DBError("ProgrammingError", f"syntax error: {exc}", 1064) from None
        except DBError:
            self._fail()
            raise
        except sqlite3.Error as exc:
            if self.pending_error is not None:
                err, self.pending_error = self.pending_error, None
                self._fail()
                raise err from None
            self._fail()
            raise self._map_error(exc) from None

    def _fail(self):
        if self.dialect == "postgresql" and self.in_txn:
            self.failed = True

    def _map_error(self, exc):
        msg = str(exc)
        low = msg.lower()
        if isinstance(exc, sqlite3.IntegrityError):
            refused(self, msg)
            code = 1062 if "unique" in low else 1452 if "foreign key" in low else 1048
            if "check constraint" in low:
                return DBError("DataError", f"invalid input: {msg}", 1366)
            return DBError("IntegrityError", msg, code)
        if "no such table" in low:
            return DBError("ProgrammingError", f"relation does not exist: {msg}", 1146)
        if "no such column" in low:
            return DBError(
                "ProgrammingError" if self.dialect == "postgresql" else "OperationalError",
                msg, 1054)
        if "locked" in low or "busy" in low:
            return DBError("OperationalError", f"lock timeout: {msg}", 1205)
        if "interrupted" in low:
            return DBError("OperationalError", "statement cancelled: too much work", 1317)
        if "syntax error" in low or "no tables specified" in low:
            return DBError("ProgrammingError", msg, 1064)
        return DBError(
            "ProgrammingError" if self.dialect == "postgresql" else "OperationalError", msg, 1105
        )

    def _run(self, sql, toks, verb, params):
        d = self.dialect
        if verb in ("BEGIN", "START"):
            self.begin()
            return None, [], -1
        if verb == "COMMIT":
            if self.do_commit():
                self.sim.emit("committed", session=self)
            return None, [], -1
        if verb == "ROLLBACK":
            self.do_rollback()
            return None, [], -1
        if not self.autocommit:
            self.begin()
        if verb == "SET":
            name, val = self._parse_set(toks)
            self.settings[name] = val
            return None, [], -1
        if verb == "SHOW":
            return ["value"], [(self.settings.get(toks[1].val.lower()),)], 1
        if verb in ("CREATE", "ALTER", "DROP"):
            return self._ddl(toks, verb, sql)
        if verb not in ("SELECT", "INSERT", "UPDATE", "DELETE", "(", "WITH", "VALUES", "TRUNCATE"):
            raise SQLSyntaxError(f"unsupported statement {sql[:60]!r}")
        if verb == "TRUNCATE":
            return self._truncate(toks)
        key = (sql, tuple(sorted(self.temp)))
        tr = _CACHE.get((d,) + key)
        if tr is None:
            tr = sqltrans.translate_tokens(toks, d, self.default_table)
            if len(_CACHE) > 5000:
                _CACHE.clear()
            _CACHE[(d,) + key] = tr
        if d == "mysql":
            seen = {}
            for t in tr.tables:
                if t in self.temp:
                    seen[t] = seen.get(t, 0) + 1
                    if seen[t] > 1:
                        raise DBError(
                            "OperationalError", f"Can't reopen table: '{t.split('.')[-1]}'", 1137
                        )
        if d == "postgresql" and any(t.kind == "word" and t.up == "UNION" for t in toks):
            self._check_union(tr, toks)
        if tr.params and tr.params[0] is not None:
            args = [encode(params[p]) for p in tr.params]
        else:
            args = [encode(p) for p in (params or ())]
        if d == "mysql":
            args = [int(a[3:]) if isinstance(a, str) and a[:3] == TAG + "b:" else a
                    for a in args]
            if len(args) != len(tr.params):
                raise DBError("ProgrammingError", "wrong number of parameters")
        if tr.verb in ("INSERT", "UPDATE", "DELETE"):
            self._check_target(tr.target)
            if tr.target not in self.temp and not self.autocommit:
                self.begin_write()
        self.vm = 0
        cur = self.db.execute(tr.sql, args)
        if cur.description is None:
            if self.autocommit and tr.target not in self.temp:
                self.sim.emit("committed", session=self)
            return None, [], cur.rowcount
        cols = [c[0] for c in cur.description]
        rows = [tuple(decode(v) for v in r) for r in cur.fetchall()]
        if not tr.ordered and len(rows) > 1 and self.sim.knobs.get("permute", True):
            self.sim.permute(rows)
        return cols, rows, len(rows)

    def _check_union(self, tr, toks):
        # (PostgreSQL cannot compare values of type json, as opposed to jsonb)
        used = {t.val for t in toks if t.kind in ("word", "ident")}
        for name in tr.tables:
            td = self.temp.get(name) or self.table_def(name)
            if td and any(c["type"] == "JSON" and c["name"] in used for c in td["cols"]):
                raise DBError("ProgrammingError",
                              "could not identify an equality operator for type json")

    def _check_target(self, target):
        if target is None:
            raise SQLSyntaxError("no target table")

    def _parse_set(self, toks):
        words = [t.text for t in toks[1:]]
        if words and words[0].upper() in ("SESSION", "LOCAL", "GLOBAL"):
            words = words[1:]
        up = [w.upper() for w in words]
        if "ISOLATION" in up:
            i = up.index("LEVEL")
            self.isolation = " ".join(up[i + 1 :])
            return "transaction_isolation", self.isolation
        for sep in ("=", "TO"):
            if sep in up:
                i = up.index(sep)
                return "".join(words[:i]).lower().strip("@"), " ".join(words[i + 1 :])
        if up and up[0] == "NAMES":
            return "names", up[1:]
        raise SQLSyntaxError("bad SET")

    def _truncate(self, toks):
        i = 1
        if toks[i].up == "TABLE":
            i += 1
        names, i = sqltrans.table_name(toks, i, self.dialect)
        stored = ".".join(names)
        if self.dialect == "mysql":
            self._implicit_commit()
        self.begin_write()
        self.db.execute(f"DELETE FROM {quote(stored)}")
        if self.dialect == "mysql":
            self._implicit_commit()
        return None, [], -1

    def _implicit_commit(self):
        if self.do_commit():
            self.sim.emit("committed", session=self)

    def _ddl(self, toks, verb, sql):
        d = self.dialect
        temp_ddl = toks[1].up == "TEMPORARY"
        if d == "mysql" and not temp_ddl:
            self._implicit_commit()
            self.begin()
        if verb == "CREATE" and (toks[1].up == "TABLE" or temp_ddl):
            temporary, names, td = sqltrans.parse_create_table(toks, d)
            self._create(temporary, names, td)
        elif verb == "CREATE" and toks[1].up in ("INDEX", "UNIQUE"):
            self._create_index(toks)
        elif d == "postgresql" and verb == "CREATE" and toks[1].up == "TYPE":
            self._create_type(toks)
        elif verb == "ALTER" and toks[1].up == "TABLE":
            self._alter(toks)
        elif verb == "DROP" and toks[1].up in ("TABLE", "TEMPORARY"):
            self._drop(toks)
        elif verb == "CREATE" and toks[1].up == "SCHEMA":
            raise DBError("ProgrammingError", "permission denied for database", 1044)
        else:
            raise SQLSyntaxError(f"unsupported DDL {sql[:60]!r}")
        if self.autocommit or (d == "mysql" and not temp_ddl):
            self._implicit_commit()
        return None, [], -1

    def type_labels(self, name):
        row = self.db.execute("SELECT labels FROM __types WHERE name = ?", (name,)).fetchone()
        return json.loads(row[0]) if row else None

    def _create_type(self, toks):
        # CREATE TYPE name AS ENUM (...)
        names, i = sqltrans.table_name(toks, 2, self.dialect)
        if [t.up for t in toks[i : i + 2]] != ["AS", "ENUM"] or len(names) != 1:
            raise SQLSyntaxError("unsupported CREATE TYPE")
        if self.type_labels(names[0]):
            raise DBError("ProgrammingError", f'type "{names[0]}" already exists')
        labels = [t.text[1:-1].replace("''", "'") for t in toks[i + 2 :] if t.kind == "str"]
        self.begin_write()
        self.db.execute("INSERT INTO __types VALUES (?, ?)", (names[0], json.dumps(labels)))

    def _check_types(self, td):
        allowed = PG_TYPES if self.dialect == "postgresql" else MY_TYPES
        for c in td["cols"]:
            bt = base_type(c["type"])
            if self.dialect == "postgresql" and bt not in allowed:
                labels = self.type_labels(c["type"].lower())
                if labels:
                    c["labels"] = labels
                    continue
            if bt not in allowed:
                raise DBError("ProgrammingError", f'type "{bt.lower()}" does not exist', 1064)
            if bt in ("SERIAL", "BIGSERIAL", "SMALLSERIAL"):
                c["autoinc"] = True
                c["type"] = {"SERIAL": "INTEGER", "BIGSERIAL": "BIGINT"}.get(bt, "SMALLINT")
                c["null"] = False
            if self.dialect == "mysql" and bt == "VARCHAR" and "(" not in c["type"]:
                raise DBError("ProgrammingError", "VARCHAR requires a length on dialect mysql", 1064)
        if self.dialect == "mysql":
            keyed = set(td["pk"])
            for u in td["uniques"]:
                keyed |= set(u["cols"])
            self._check_key_types(td, keyed)

    def _check_key_types(self, td, cols):
        for c in td["cols"]:
            if c["name"] in cols and base_type(c["type"]) in TEXT_TYPES:
                raise DBError(
                    "OperationalError",
                    f"BLOB/TEXT column '{c['name']}' used in key specification without a key length",
                    1170,
                )

    def _create(self, temporary, names, td):
        self._check_types(td)
        if len({c["name"].lower() for c in td["cols"]}) != len(td["cols"]):
            raise DBError("ProgrammingError", "duplicate column name", 1060)
        if temporary:
            if self.dialect == "postgresql":
                if len(names) != 1:
                    raise DBError(
                        "ProgrammingError", "cannot create temporary relation in non-temporary schema"
                    )
                stored = names[0]
            else:
                stored = ".".join(names)
                if len(names) != 2:
                    raise DBError("OperationalError", "No database selected", 1046)
                if names[0] not in self.server.schemas:
                    raise DBError("OperationalError", f"Unknown database '{names[0]}'", 1049)
            if stored in self.temp:
                raise DBError("ProgrammingError", f'relation "{stored}" already exists', 1050)
            self.db.execute(storage_sql(stored, td, temp=True))
            self.temp[stored] = td
            self.txn_temp.append(stored)
            return
        if len(names) != 2:
            raise DBError("OperationalError", "no schema selected", 1046)
        schema, name = names
        if schema not in self.server.schemas:
            raise DBError("ProgrammingError", f'schema "{schema}" does not exist', 1049)
        stored = f"{schema}.{name}"
        if stored in self.catalog_names():
            raise DBError("ProgrammingError", f'relation "{name}" already exists', 1050)
        for n, fk in enumerate(td["fks"]):
            self._check_fk(fk, schema)
            named = fk["name"] is not None
            fk["name"] = fk["name"] or f"{name}_ibfk_{n + 1}"
            if named and self.dialect == "mysql" and any(
                    o["name"] == fk["name"] for other in self.catalog_names()
                    if other.split(".")[0] == schema for o in self.table_def(other)["fks"]):
                raise DBError("OperationalError",
                              f"Duplicate foreign key constraint name '{fk['name']}'", 1826)
        for n, u in enumerate(td["uniques"]):
            u["name"] = u["name"] or f"{name}_{'_'.join(u['cols'])}_key"
        self.begin_write()
        self.server.create_table(self.db, schema, name, td)
        self.sim.emit("created", session=self, table=stored)

    def _check_fk(self, fk, schema):
        if len(fk["ref"]) == 1:
            fk["ref"] = [schema if self.dialect == "mysql" else "public", fk["ref"][0]]
        ref = self.table_def(".".join(fk["ref"]))
        if ref is None:
            raise DBError("ProgrammingError", f'relation "{fk["ref"][1]}" does not exist', 1824)
        keys = [ref["pk"]] + [u["cols"] for u in ref["uniques"]]
        keys += [ix["cols"] for ix in ref["indexes"]
                 if ix.get("unique") and not ix.get("where") and not ix.get("exprs")]
        if self.dialect == "mysql":
            ok = any(k[: len(fk["rcols"])] == fk["rcols"] for k in keys)
        else:
            ok = any(sorted(k) == sorted(fk["rcols"]) for k in keys)
        if not ok:
            raise DBError(
                "ProgrammingError" if self.dialect == "postgresql" else "OperationalError",
                f'there is no unique constraint matching given keys for "{fk["ref"][1]}"', 1822)

    def _create_index(self, toks):
        d = self.dialect
        i = 1
        unique = toks[i].up == "UNIQUE"
        i += 2 if unique else 1
        iname = sqltrans.fold(toks[i], d)
        i += 1
        if toks[i].up != "ON":
            raise SQLSyntaxError("expected ON")
        names, i = sqltrans.table_name(toks, i + 1, d)
        if toks[i].up == "USING":
            i += 2
        exprs = []
        cols, i = sqltrans.name_list(toks, i, d, exprs if d == "postgresql" else None)
        where = None
        if i < len(toks) and d == "postgresql" and toks[i].up == "WHERE":
            where = sqltrans.plain(toks[i + 1 :])
            i = len(toks)
        if i < len(toks):
            raise SQLSyntaxError(f"unexpected {toks[i]!r} after an index")
        stored = self.default_table(names[0]) if len(names) == 1 else ".".join(names)
        td = self.temp.get(stored)
        temp = td is not None
        if td is None:
            td = self.table_def(stored)
        if td is None:
            raise DBError("ProgrammingError", f'relation "{stored}" does not exist', 1146)
        known = {c["name"] for c in td["cols"]}
        for c in cols:
            if c not in known:
                raise DBError("ProgrammingError", f'column "{c}" does not exist', 1072)
        if d == "mysql":
            self._check_key_types(td, set(cols))
            if any(ix["name"] == iname for ix in td["indexes"]):
                raise DBError("OperationalError", f"Duplicate key name '{iname}'", 1061)
        ix = {"name": iname, "cols": cols, "unique": unique}
        if exprs:
            ix["exprs"] = exprs
        if where:
            ix["where"] = where
        if temp:
            td["indexes"].append(ix)
            u = "UNIQUE " if unique else ""
            self.db.execute(
                f"CREATE {u}INDEX temp.{quote(stored + '#' + iname)} ON {quote(stored)} ("
                + ", ".join(quote(c) for c in cols) + ")"
            )
            return
        if d == "postgresql":
            for other in self.catalog_names():
                if other.split(".")[0] == names[0] and any(
                    o["name"] == iname for o in self.table_def(other)["indexes"]
                ):
                    raise DBError("ProgrammingError", f'relation "{iname}" already exists')
        self.begin_write()
        td["indexes"].append(ix)
        self.db.execute("UPDATE __cat SET def = ? WHERE name = ?", (json.dumps(td), stored))
        self.server._storage_index(self.db, stored, ix)

    def _alter(self, toks):
        d = self.dialect
        names, i = sqltrans.table_name(toks, 2, d)
        stored = ".".join(names)
        td = self.table_def(stored)
        if td is None:
            raise DBError("ProgrammingError", f'relation "{stored}" does not exist', 1146)
        if toks[i].up != "ADD":
            raise SQLSyntaxError("unsupported ALTER")
        i += 1
        cname = None
        if toks[i].up == "CONSTRAINT":
            cname = sqltrans.fold(toks[i + 1], d)
            i += 2
        if toks[i].up != "FOREIGN":
            raise SQLSyntaxError("unsupported ALTER")
        fk = sqltrans.parse_fk(toks, i, cname, d)
        self._check_fk(fk, names[0])
        if fk["name"] is None:
            fk["name"] = f"{names[1]}_{'_'.join(fk['cols'])}_fkey"
        if d == "mysql":
            # constraint names are unique per schema
            for other in self.catalog_names():
                if other.split(".")[0] == names[0] and any(
                    o["name"] == fk["name"] for o in self.table_def(other)["fks"]
                ):
                    raise DBError(
                        "OperationalError",
                        f"Duplicate foreign key constraint name '{fk['name']}'", 1826)
        elif any(o["name"] == fk["name"] for o in td["fks"]):
            raise DBError("ProgrammingError", f'constraint "{fk["name"]}" already exists')
        self.begin_write()
        td["fks"].append(fk)
        rows = self.db.execute(f"SELECT * FROM {quote(stored)}").fetchall()
        # Rebuild the storage table, keeping its name.  Foreign keys into it stay textual.
        cols = [c["name"] for c in td["cols"] if not c.get("computed")]
        self.db.execute("PRAGMA defer_foreign_keys=ON")
        self.db.execute(f"DROP TABLE {quote(stored)}")
        self.db.execute(storage_sql(stored, td))
        for ix in td["indexes"]:
            self.server._storage_index(self.db, stored, ix)
        if rows:
            pos = [k for k, c in enumerate(td["cols"]) if not c.get("computed")]
            self.db.executemany(
                f"INSERT INTO {quote(stored)} ({', '.join(map(quote, cols))}) VALUES "
                f"({', '.join('?' * len(cols))})",
                [tuple(r[p] for p in pos) for r in rows],
            )
        bad = self.db.execute(f"PRAGMA foreign_key_check({quote(stored)})").fetchall()
        if bad:
            raise DBError("IntegrityError", "foreign key violation in existing rows", 1452)
        self.db.execute("UPDATE __cat SET def = ? WHERE name = ?", (json.dumps(td), stored))

    def _drop(self, toks):
        d = self.dialect
        i = 2 if toks[1].up == "TABLE" else 3
        if toks[i].up == "IF":
            i += 2
        names, i = sqltrans.table_name(toks, i, d)
        stored = self.default_table(names[0]) if len(names) == 1 else ".".join(names)
        if stored in self.temp:
            self.db.execute(f"DROP TABLE temp.{quote(stored)}")
            del self.temp[stored]
            return
        if stored not in self.catalog_names():
            raise DBError("ProgrammingError", f'table "{stored}" does not exist', 1051)
        self.begin_write()
        self.db.execute(f"DROP TABLE {quote(stored)}")
        self.db.execute("DELETE FROM __cat WHERE name = ?", (stored,))


_CACHE = {}


# ----------------------------------------------------------------------------- DBAPI objects
class Connection:
    def __init__(self, dbapi, server, role, sim, user):
        self._dbapi = dbapi
        self.sess = SimSession(sim, role, server)
        self.closed = 0
        self.notices = []
        self._iso_code = None

    # --- psycopg2 flavour
    @property
    def autocommit(self):
        if self.sess.dialect == "mysql":
            return self._my_autocommit
        return self.sess.autocommit

    @autocommit.setter
    def autocommit(self, v):
        self.sess.autocommit = bool(v)

    def _my_autocommit(self, v):
        self.sess.autocommit = bool(v)

    def get_autocommit(self):
        return self.sess.autocommit

    def set_isolation_level(self, code):
        names = {1: "READ COMMITTED", 2: "REPEATABLE READ", 3: "SERIALIZABLE",
                 4: "READ UNCOMMITTED"}
        if code == 0:
            self.sess.autocommit = True
            return
        self.sess.autocommit = False
        self.sess.isolation = names[code]
        if self.sess.isolation == "READ UNCOMMITTED":
            self.sess.isolation = "READ COMMITTED"

    def character_set_name(self):
        return "utf8mb4"

    def ping(self, reconnect=False):
        cur = self.cursor()
        cur._simple("ping", "SELECT 1")

    # --- common
    def _gone(self):
        s = self.sess
        return s.proc.dead or s.sim.proc is not s.proc

    def _disconnect(self):
        self.closed = 2
        if self.sess.dialect == "postgresql":
            return self._dbapi.OperationalError(
                "server closed the connection unexpectedly"
            )
        return self._dbapi.OperationalError(2013, "Lost connection to MySQL server during query")

    def _raise(self, err):
        cls = getattr(self._dbapi, err.cls)
        if self.sess.dialect == "mysql":
            raise cls(err.code or 1105, err.msg) from None
        raise cls(err.msg) from None

    def _check(self):
        if self._gone():
            raise SimCrash("dead")
        if self.closed or self.sess.closed:
            raise self._dbapi.InterfaceError("connection already closed")
        if self.sess.dropped:
            raise self._disconnect()

    def cursor(self, name=None, *args, **kwargs):
        server_side = False
        if self.sess.dialect == "postgresql":
            server_side = name is not None
        else:
            server_side = name is SSCursor or name is not None
        return Cursor(self, server_side)

    def commit(self):
        if self._gone():
            raise SimCrash("dead")
        s = self.sess
        sim = s.sim
        if not s.in_txn:
            # nothing to do on the server; psycopg2 sends nothing
            self._check()
            return
        op = f"{s.role}.commit"
        faults = sim.pre(op, s, "txn" if s.wrote else "")
        self._check()
        for f in faults:
            if f["kind"] in ("commit_fail", "drop", "error") and f.get("when") != "after":
                sim.fire(f, op)
                if f["kind"] == "drop":
                    s.drop()
                    raise self._disconnect()
                s.do_rollback()
                self._raise(DBError("OperationalError", "could not commit (injected)", 1180))
        if s.failed:
            s.do_rollback()
            return
        if s.do_commit():
            sim.emit("committed", session=s)
        sim.crash_after(faults, op)
        for f in faults:
            if f["kind"] in ("commit_ambiguous", "drop"):
                sim.fire(f, op)
                s.drop()
                raise self._disconnect()

    def rollback(self):
        if self._gone() or self.closed:
            return
        s = self.sess
        s.sim.note(s.sid, "rollback")
        if s.dropped:
            if not s.in_txn:
                return
            raise self._disconnect()
        s.do_rollback()

    def close(self):
        if self._gone() or self.closed == 1:
            return
        self.closed = 1
        s = self.sess
        s.sim.note(s.sid, "close")
        if not s.dropped and not s.closed:
            s.kill()


class SSCursor:
    """Marker passed by the pymysql dialect for unbuffered cursors."""


class Cursor:
    arraysize = 1

    def __init__(self, conn, server_side):
        self.connection = conn
        self.server_side = server_side
        self.description = None
        self.rowcount = -1
        self.lastrowid = None
        self._rows = []
        self._pos = 0
        self._closed = False
        self._txn = None
        self._counted = False
        self.op = None

    def _simple(self, kind, sql):
        conn = self.connection
        s = conn.sess
        conn_gone = conn._gone()
        if conn_gone:
            raise SimCrash("dead")
        op = f"{s.role}.{kind}"
        faults = s.sim.pre(op, s, "")
        conn._check()
        for f in faults:
            if f["kind"] in ("error", "drop"):
                s.sim.fire(f, op)
                s.drop()
                raise conn._disconnect()
        s.sim.crash_after(faults, op)

    def execute(self, sql, params=None):
        self._execute(sql, params, None)

    def executemany(self, sql, rows):
        rows = list(rows)
        return self._execute(sql, None, rows)

    def _execute(self, sql, params, rows):
        conn = self.connection
        s = conn.sess
        sim = s.sim
        if conn._gone():
            raise SimCrash("dead")
        if self._closed:
            raise conn._dbapi.InterfaceError("cursor already closed")
        if not s.in_setup and s.autocommit and sql == "SELECT 1":
            # psycopg2's do_ping
            self._simple("ping", sql)
            self._set(["?column?"], [(1,)], 1, False)
            return
        kind = "setup" if s.in_setup else "exec"
        if s.in_setup:
            s.setup_sqls.append(sql)
        else:
            s.n_statements += 1
        op = f"{s.role}.{kind}"
        self.op = op
        faults = sim.pre(op, s, _brief(sql), sql=sql)
        conn._check()
        sim.emit(
            "statement", session=s, sql=sql, params=rows if rows is not None else params,
            many=rows is not None, kind=kind,
        )
        for f in faults:
            k = f["kind"]
            if f.get("when") == "after":
                continue
            if k == "drop":
                sim.fire(f, op)
                s.drop()
                raise conn._disconnect()
            if k in ("error", "disk_full", "locked"):
                sim.fire(f, op)
                s.begin()
                s._fail()
                msg = {
                    "error": "could not read block (injected)",
                    "disk_full": "could not extend file: No space left on device (injected)",
                    "locked": "lock wait timeout exceeded (injected)",
                }[k]
                conn._raise(DBError("OperationalError", msg, 1205 if k == "locked" else 1030))
        if rows is None:
            res = self._run_one(sql, params)
            cols, data, rowcount = res
            self._set(cols, data, rowcount, True)
        else:
            cut = None
            for f in faults:
                if f["kind"] == "partial":
                    cut = len(rows) // 2
                    sim.fire(f, op)
            total = 0
            for i, r in enumerate(rows):
                if cut is not None and i >= cut:
                    s._fail()
                    conn._raise(DBError("OperationalError", "disk error mid-batch (injected)", 1030))
                _, _, rc = self._run_one(sql, r)
                total += max(rc, 0)
            self._set(None, [], total, True)
        sim.crash_after(faults, op)
        for f in faults:
            if f.get("when") == "after" and f["kind"] in ("error", "drop"):
                sim.fire(f, op)
                s.drop()
                raise conn._disconnect()
        return self.rowcount

    def _run_one(self, sql, params):
        conn = self.connection
        try:
            return conn.sess.run(sql, params)
        except DBError as err:
            conn._raise(err)
        except TypeError as exc:
            conn.sess._fail()
            raise conn._dbapi.ProgrammingError(str(exc)) from None

    def _set(self, cols, rows, rowcount, count):
        s = self.connection.sess
        self._rows = rows
        self._pos = 0
        self.rowcount = rowcount
        self._txn = s.txn_id
        self.description = None
        if cols is not None:
            desc = []
            for i, c in enumerate(cols):
                code = 701
                for r in rows[:50]:
                    v = r[i]
                    if v is None:
                        continue
                    if isinstance(v, decimal.Decimal):
                        code = 1700
                    elif isinstance(v, bool):
                        code = 16
                    elif isinstance(v, int):
                        code = 23
                    elif isinstance(v, float):
                        code = 701
                    else:
                        code = 25
                    break
                desc.append((c, code, None, None, None, None, None))
            self.description = desc
            self._counted = False
            if not self.server_side and count:
                # a client side cursor transfers the whole result at once
                self._counted = True
                s.sim.emit("fetched", session=s, rows=len(rows), unstreamed=True)
            if self.server_side:
                self.rowcount = -1

    def _fetch(self, n):
        conn = self.connection
        s = conn.sess
        sim = s.sim
        if conn._gone():
            raise SimCrash("dead")
        if self.server_side:
            op = f"{s.role}.fetch"
            faults = sim.pre(op, s)
            conn._check()
            for f in faults:
                if f["kind"] in ("error", "drop"):
                    sim.fire(f, op)
                    s.drop()
                    raise conn._disconnect()
            if s.dialect == "postgresql" and (s.txn_id != self._txn or not s.in_txn):
                raise conn._dbapi.ProgrammingError("named cursor isn't valid anymore")
        else:
            faults = ()
        if self.description is None:
            raise conn._dbapi.ProgrammingError("no results to fetch")
        end = len(self._rows) if n is None else min(len(self._rows), self._pos + n)
        rows = self._rows[self._pos : end]
        self._pos = end
        if self.server_side:
            sim.emit("fetched", session=s, rows=len(rows))
            sim.note(s.sid, "fetched", len(rows))
            sim.crash_after(faults, f"{s.role}.fetch")
        return rows

    def fetchone(self):
        rows = self._fetch(1)
        return rows[0] if rows else None

    def fetchmany(self, size=None):
        return self._fetch(self.arraysize if size is None else size)

    def fetchall(self):
        return self._fetch(None)

    def __iter__(self):
        while True:
            row = self.fetchone()
            if row is None:
                return
            yield row

    def setinputsizes(self, *a):
        pass

    def setoutputsize(self, *a):
        pass

    def close(self):
        self._closed = True
        self._rows = []


def file_digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


__all__ = ["Server", "Connection", "SSCursor", "PG", "MY", "RealRandom", "os"]
