"""Worlds: source and destination databases, files, and one run of the program in them."""
import ast
import contextlib
import decimal
import io
import json
import logging
import os
import re
import shutil
import sqlite3
import sys
import datetime

from . import core, seam
from .core import SimCrash, SimHang, HarnessError
from .server import Server, decode, encode
from .sqltrans import quote

# ------------------------------------------------------------------------------ types
DIALECT_CFG = {"sqlite": "sqlite", "postgresql": "postgres", "mysql": "mysql"}

TYPES = {
    "sqlite": {
        "int": "INTEGER", "bigint": "BIGINT", "text": "VARCHAR(80)", "clob": "TEXT",
        "float": "FLOAT", "bool": "BOOLEAN", "date": "DATE", "num": "NUMERIC(12, 2)",
        "ts": "DATETIME", "bin": "BLOB", "time": "TIME", "json": "JSON", "json0": "JSON",
        "enum": "VARCHAR(8)",
    },
    "postgresql": {
        "int": "INTEGER", "bigint": "BIGINT", "text": "VARCHAR(80)", "clob": "TEXT",
        "float": "DOUBLE PRECISION", "bool": "BOOLEAN", "date": "DATE", "num": "NUMERIC(12, 2)",
        "ts": "TIMESTAMP WITHOUT TIME ZONE", "bin": "BYTEA", "time": "TIME WITHOUT TIME ZONE",
        "json": "JSONB", "json0": "JSON", "enum": "MOOD",
    },
    "mysql": {
        "int": "INTEGER", "bigint": "BIGINT", "text": "VARCHAR(80)", "clob": "TEXT",
        "float": "DOUBLE", "bool": "BOOLEAN", "date": "DATE", "num": "NUMERIC(12, 2)",
        "ts": "DATETIME", "bin": "BLOB", "time": "TIME", "json": "JSON", "json0": "JSON",
        "enum": "ENUM('sad','ok')",
    },
}


def canon(v, typ):
    """Canonical JSON-able form of a database value of logical type `typ`."""
    if v is None:
        return None
    if typ in ("int", "bigint"):
        if isinstance(v, bool):
            return v
        return v
    if typ == "bool":
        return bool(v) if isinstance(v, (bool, int)) else v
    if typ == "num":
        try:
            return str(decimal.Decimal(str(v)).quantize(decimal.Decimal("0.01")))
        except decimal.InvalidOperation:
            return str(v)
    if typ == "date":
        return str(v)[:10]
    if typ == "ts":
        s = str(v)
        return s[:-7] if s.endswith(".000000") else s
    if typ == "time":
        s = str(v)
        return s[:-7] if s.endswith(".000000") else s
    if typ == "bin":
        if isinstance(v, str) and v[:2] in ("b'", 'b"'):  # in JSON lines
            v = ast.literal_eval(v)
        return v.hex() if isinstance(v, bytes) else v
    if typ in ("json", "json0"):
        if isinstance(v, str):
            try:
                v = json.loads(v)
            except ValueError:
                return v
        return json.dumps(v, sort_keys=True)
    if typ == "float" and isinstance(v, int) and not isinstance(v, bool):
        return float(v)
    return v


def to_sqlite(v, typ):
    if v is None:
        return None
    if typ == "bool":
        return int(v)
    if typ == "num":
        return float(v)
    if typ in ("ts", "time"):
        return v + ".000000"
    if typ == "bin":
        return bytes.fromhex(v)
    return v


def to_server(v, typ):
    if v is None:
        return None
    if typ == "bool":
        return encode(bool(v))
    if typ == "num":
        return encode(decimal.Decimal(v))
    if typ == "date":
        return encode(datetime.date.fromisoformat(v))
    if typ == "ts":
        return encode(datetime.datetime.fromisoformat(v))
    if typ == "time":
        return encode(datetime.time.fromisoformat(v))
    if typ == "bin":
        return bytes.fromhex(v)
    return v


def key(t):
    return f"{t['schema']}.{t['name']}"


# ------------------------------------------------------------------------------ stores
class Store:
    dialect = None

    def types(self):
        """(schema, table) -> {col: logical type}, for tables the harness knows."""
        return self._types

    def learn(self, tables):
        for t in tables:
            self._types[(t["schema"], t["name"])] = {c["name"]: c["type"] for c in t["cols"]}

    def has(self, con, s, t):
        q = f"{quote(s)}.sqlite_master" if self.dialect == "sqlite" else "sqlite_master"
        name = t if self.dialect == "sqlite" else f"{s}.{t}"
        return con.execute(f"SELECT 1 FROM {q} WHERE type = 'table' AND name = ?",
                           (name,)).fetchone() is not None

    def dump(self):
        return {f"{s}.{t}": self.rows(s, t) for s, t in self.tables()}


class SqliteStore(Store):
    dialect = "sqlite"

    def __init__(self, directory, schemas, prefix, main_link=None, wal=False):
        self.dir = directory
        self.prefix = prefix
        self.schemas = list(schemas)
        self.wal = wal
        self.files = {s: os.path.join(directory, f"{prefix}_{i}.db")
                      for i, s in enumerate(schemas)}
        self.main = self.files.get("main")
        self.main_link = main_link
        self._types = {}

    def raw(self):
        con = sqlite3.connect(self.main or ":memory:", isolation_level=None, timeout=0)
        con.execute("PRAGMA synchronous=OFF")
        for s in self.schemas:
            if s != "main":
                con.execute(f"ATTACH DATABASE '{self.files[s]}' AS {quote(s)}")
        con.execute("PRAGMA foreign_keys=ON")
        return con

    def init(self):
        con = self.raw()
        for s in self.schemas:
            if self.wal:
                con.execute(f"PRAGMA {quote(s)}.journal_mode=WAL")
            con.execute(f"PRAGMA {quote(s)}.user_version=1")
        con.close()

    def create(self, tables):
        self.learn(tables)
        con = self.raw()
        con.execute("PRAGMA foreign_keys=OFF")
        con.execute("BEGIN")
        for t in tables:
            con.execute(self.ddl(t))
            for ix in t.get("indexes", ()):
                u = "UNIQUE " if ix.get("unique") else ""
                con.execute(
                    f"CREATE {u}INDEX {quote(t['schema'])}.{quote(ix['name'])} ON "
                    f"{quote(t['name'])} (" + ", ".join(map(quote, ix["cols"])) + ")"
                    + (f" WHERE {ix['where']}" if ix.get("where") else "")
                )
        con.execute("COMMIT")
        con.close()

    def ddl(self, t):
        items = []
        for c in t["cols"]:
            s = f"{quote(c['name'])} {TYPES['sqlite'][c['type']]}"
            if c.get("computed"):
                s += f" GENERATED ALWAYS AS ({c['computed']}) STORED"
            if not c.get("null", True):
                s += " NOT NULL"
            if c.get("default") is not None:
                s += f" DEFAULT {c['default']}"
            items.append(s)
        if t["pk"]:
            items.append("PRIMARY KEY (" + ", ".join(map(quote, t["pk"])) + ")")
        for u in t.get("uniques", ()):
            items.append(
                f"CONSTRAINT {quote(u['name'])} UNIQUE (" + ", ".join(map(quote, u["cols"])) + ")"
            )
        for ck in t.get("checks", ()):
            items.append(f"CONSTRAINT {quote(ck['name'])} CHECK ({ck['sql']})")
        for fk in t.get("fks", ()):
            items.append(
                f"CONSTRAINT {quote(fk['name'])} FOREIGN KEY ("
                + ", ".join(map(quote, fk["cols"])) + f") REFERENCES {quote(fk['ref'][1])} ("
                + ", ".join(map(quote, fk["rcols"])) + ")"
            )
        return (
            f"CREATE TABLE {quote(t['schema'])}.{quote(t['name'])} (\n  " + ",\n  ".join(items) + "\n)"
        )

    def insert(self, data, fk=False):
        con = self.raw()
        if not fk:
            con.execute("PRAGMA foreign_keys=OFF")
        con.execute("BEGIN")
        for name, rows in data.items():
            s, t = name.split(".", 1)
            ty = self._types[(s, t)]
            for r in rows:
                cols = list(r)
                con.execute(
                    f"INSERT INTO {quote(s)}.{quote(t)} ({', '.join(map(quote, cols))}) VALUES "
                    f"({', '.join('?' * len(cols))})",
                    [to_sqlite(r[c], ty[c]) for c in cols],
                )
        con.execute("COMMIT")
        con.close()

    def enc(self, v, typ):
        return to_sqlite(v, typ)

    def qual(self, s, t):
        return f"{quote(s)}.{quote(t)}"

    def tables(self):
        con = self.raw()
        res = []
        for s in self.schemas:
            for (n,) in con.execute(
                f"SELECT name FROM {quote(s)}.sqlite_master WHERE type='table' AND "
                "name NOT LIKE 'sqlite\\_%' ESCAPE '\\' ORDER BY name"
            ):
                res.append((s, n))
        con.close()
        return res

    def rows(self, s, t, con=None):
        own = con is None
        con = con or self.raw()
        if not self.has(con, s, t):
            # (dropped by the code under test: its rows are gone)
            if own:
                con.close()
            return []
        cur = con.execute(f"SELECT * FROM {quote(s)}.{quote(t)}")
        cols = [d[0] for d in cur.description]
        ty = self._types.get((s, t), {})
        res = [{c: canon(v, ty.get(c)) for c, v in zip(cols, r)} for r in cur.fetchall()]
        if own:
            con.close()
        return res

    def catalog(self):
        con = self.raw()
        res = {}
        for s in self.schemas:
            for typ, n, tn, sql in con.execute(
                f"SELECT type, name, tbl_name, sql FROM {quote(s)}.sqlite_master"
            ):
                res[f"{typ}:{s}.{n}"] = sql
        con.close()
        return res

    def fk_violations(self):
        con = self.raw()
        res = []
        for s in self.schemas:
            for row in con.execute(f"PRAGMA {quote(s)}.foreign_key_check"):
                res.append((f"{s}.{row[0]}", f"{s}.{row[2]}"))
        con.close()
        return res

    def clone(self, directory, suffix=""):
        new = SqliteStore(directory, self.schemas, self.prefix, wal=self.wal)
        new._types = dict(self._types)
        for s in self.schemas:
            shutil.copyfile(self.files[s], new.files[s])
        return new

    def config(self, user):
        cfg = {"dialect": "sqlite"}
        main = self.main
        if main:
            if self.main_link:
                main = self.main_link
            cfg["database"] = main
        att = {s: self.files[s] for s in self.schemas if s != "main"}
        if att:
            cfg["sqlite_databases"] = att
        return cfg

    def register(self, sim, user):
        if self.main_link:
            sim.paths[self.main_link] = user
        elif self.main:
            sim.paths.setdefault(self.main, user)
        for s, f in self.files.items():
            if s != "main":
                sim.paths.setdefault(f, user)


class ServerStore(Store):
    def __init__(self, server):
        self.server = server
        self.dialect = server.dialect
        self.schemas = list(server.schemas)
        self._types = {}

    @classmethod
    def new(cls, dialect, path, schemas):
        return cls(Server(dialect, path, schemas))

    def init(self):
        pass

    def raw(self):
        return self.server.raw()

    def definition(self, t):
        d = self.dialect
        return {
            "cols": [
                {**c, "type": TYPES[d][c["type"]],
                 **({"labels": ["sad", "ok"]} if TYPES[d][c["type"]] == "MOOD" else {})}
                for c in t["cols"]
            ],
            "pk": list(t["pk"]),
            "uniques": [dict(u) for u in t.get("uniques", ())],
            "fks": [dict(f) for f in t.get("fks", ())],
            "indexes": [dict(i) for i in t.get("indexes", ())],
            "checks": [dict(c) for c in t.get("checks", ())],
        }

    def create(self, tables):
        self.learn(tables)
        con = self.raw()
        con.execute("PRAGMA foreign_keys=OFF")
        con.execute("BEGIN")
        for t in tables:
            if self.dialect == "postgresql" and any(c["type"] == "enum" for c in t["cols"]):
                con.execute("INSERT OR IGNORE INTO __types VALUES ('mood', ?)",
                            (json.dumps(["sad", "ok"]),))
            self.server.create_table(con, t["schema"], t["name"], self.definition(t))
        con.execute("COMMIT")
        con.close()

    def enc(self, v, typ):
        if typ == "bool" and v is not None and self.dialect == "mysql":
            return int(v)
        return to_server(v, typ)

    def qual(self, s, t):
        return quote(f"{s}.{t}")

    def insert(self, data, fk=False):
        con = self.raw()
        if not fk:
            con.execute("PRAGMA foreign_keys=OFF")
        con.execute("BEGIN")
        for name, rows in data.items():
            s, t = name.split(".", 1)
            ty = self._types[(s, t)]
            for r in rows:
                cols = list(r)
                con.execute(
                    f"INSERT INTO {quote(name)} ({', '.join(map(quote, cols))}) VALUES "
                    f"({', '.join('?' * len(cols))})",
                    [self.enc(r[c], ty[c]) for c in cols],
                )
        con.execute("COMMIT")
        con.close()

    def tables(self):
        con = self.raw()
        res = [tuple(n.split(".", 1)) for (n,) in
               con.execute("SELECT name FROM __cat ORDER BY name")]
        con.close()
        return res

    def rows(self, s, t, con=None):
        own = con is None
        con = con or self.raw()
        if not self.has(con, s, t):
            # (dropped by the code under test: its rows are gone)
            if own:
                con.close()
            return []
        cur = con.execute(f"SELECT * FROM {quote(f'{s}.{t}')}")
        cols = [d[0] for d in cur.description]
        ty = self._types.get((s, t), {})
        res = [{c: canon(decode(v), ty.get(c)) for c, v in zip(cols, r)} for r in cur.fetchall()]
        if own:
            con.close()
        return res

    def catalog(self):
        con = self.raw()
        res = dict(con.execute("SELECT name, def FROM __cat"))
        con.close()
        res["__sequences"] = json.dumps(sorted((list(k), v) for k, v in self.server.seqs.items()))
        return res

    def fk_violations(self):
        con = self.raw()
        res = [(r[0], r[2]) for r in con.execute("PRAGMA foreign_key_check")]
        con.close()
        return res

    def clone(self, directory, suffix=""):
        new = ServerStore(
            self.server.clone(os.path.join(directory, os.path.basename(self.server.path)))
        )
        new._types = dict(self._types)
        return new

    def config(self, user):
        cfg = {
            "dialect": DIALECT_CFG[self.dialect], "host": "sim", "username": user,
            "password": "pw",
        }
        if self.dialect == "postgresql":
            cfg["database"] = "db"
        return cfg

    def register(self, sim, user):
        sim.servers[user] = self.server


def make_store(dialect, directory, schemas, prefix, wal=False):
    if dialect == "sqlite":
        st = SqliteStore(directory, schemas, prefix, wal=wal)
    else:
        st = ServerStore.new(dialect, os.path.join(directory, f"{prefix}_srv.db"), schemas)
    st.init()
    return st


# ------------------------------------------------------------------------------ writer ops
def apply_ops(store, ops):
    """One transaction of another client.  Returns False (and leaves nothing) if refused."""
    con = store.raw()
    try:
        con.execute("BEGIN IMMEDIATE")
        for op in ops:
            s, t = op["table"].split(".", 1)
            ty = store._types[(s, t)]
            q = store.qual(s, t)
            if op["op"] == "ins":
                r = op["row"]
                con.execute(
                    f"INSERT INTO {q} ({', '.join(map(quote, r))}) VALUES "
                    f"({', '.join('?' * len(r))})",
                    [store.enc(v, ty[c]) for c, v in r.items()],
                )
            else:
                where = " AND ".join(f"{quote(c)} = ?" for c in op["key"])
                kv = [store.enc(v, ty[c]) for c, v in op["key"].items()]
                if op["op"] == "upd":
                    sets = ", ".join(f"{quote(c)} = ?" for c in op["set"])
                    con.execute(
                        f"UPDATE {q} SET {sets} WHERE {where}",
                        [store.enc(v, ty[c]) for c, v in op["set"].items()] + kv,
                    )
                else:
                    con.execute(f"DELETE FROM {q} WHERE {where}", kv)
        con.execute("COMMIT")
        return True
    except sqlite3.Error:
        with contextlib.suppress(sqlite3.Error):
            con.execute("ROLLBACK")
        return False
    finally:
        con.close()


# ------------------------------------------------------------------------------ instances
class Instance:
    """A source, a destination and a directory for one history of runs."""

    def __init__(self, case, directory):
        self.case = case
        self.dir = directory
        self.src = None
        self.dst = None
        self.files = os.path.join(directory, "files")
        self.outdir = os.path.join(self.files, "out")

    @classmethod
    def build(cls, case, directory):
        os.makedirs(directory)
        inst = cls(case, directory)
        os.makedirs(inst.outdir)
        src = case["src"]
        inst.src = make_store(
            src["dialect"], directory, src["schemas"], "src", wal=src.get("wal", False)
        )
        inst.src.create(src["tables"])
        inst.src.insert(case["data"])
        dst = case["dst"]
        if dst["kind"] == "db":
            if dst.get("same"):
                inst.dst = inst.src
            else:
                inst.dst = make_store(dst["dialect"], directory, dst["schemas"], "dst")
            inst.dst.create(dst["tables"])
            inst.dst.insert(dst.get("data", {}))
            for k, v in dst.get("seqs", {}).items():
                s, t, c = k.split("|")
                inst.dst.server.seqs[(s, t, c)] = list(v)
        if case.get("seqs_from_data") and inst.dst and inst.dst.dialect == "postgresql":
            inst.sync_sequences(inst.dst)
        inst._learn_dst()
        return inst

    def _learn_dst(self):
        """Give created tables the logical types of the source table they copy."""
        if self.dst is None:
            return
        from .model import remap_name

        for t in self.case["src"]["tables"]:
            s, n = remap_name(self.case, key(t)).split(".", 1)
            self.dst._types.setdefault((s, n), {c["name"]: c["type"] for c in t["cols"]})

    def sync_sequences(self, store):
        for (s, t, c), st in store.server.seqs.items():
            vals = [r[c] for r in store.rows(s, t) if isinstance(r[c], int)]
            if vals and max(vals) > 0:
                st[0], st[1] = max(vals), True

    def clone(self, directory):
        os.makedirs(directory)
        new = Instance(self.case, directory)
        os.makedirs(new.files)
        if os.path.isdir(self.outdir):
            shutil.copytree(self.outdir, new.outdir)
        new.src = self.src.clone(directory)
        if self.dst is self.src:
            new.dst = new.src
        elif self.dst is not None:
            new.dst = self.dst.clone(directory)
        return new

    # -- configuration
    def link(self):
        """On a shared SQLite server the destination opens the files under another name."""
        if self.dst is self.src and self.dst is not None and self.dst.dialect == "sqlite":
            p = os.path.join(self.dir, "dstlink.db")
            if not os.path.lexists(p):
                os.symlink(self.src.main, p)
            return p
        return None

    def config(self):
        c = self.case["config"]
        source = self.src.config("src")
        source.update(c.get("source", {}))
        sampler = json.loads(json.dumps(c["sampler"]))
        if self.case["dst"]["kind"] == "dir":
            sampler["output"] = {"mode": "directory", "directory": self.outdir}
        else:
            out = {"mode": "database"}
            dcfg = self.dst.config("dst")
            link = self.link()
            if link:
                dcfg["database"] = link
            out.update(dcfg)
            out.update(c.get("dest", {}))
            sampler["output"] = out
        for role, at in (("src", source), ("dst", sampler["output"])):
            if role in self.case.get("net", ()):
                self.net_settings(role, at)
        cfg = {"source": source, "sampler": sampler}
        if c.get("planner") is not None:
            cfg["planner"] = c["planner"]
        return cfg

    def net_settings(self, role, at):
        from . import net

        for k in ("dialect", "host", "port", "database", "username", "password"):
            at.pop(k, None)
        at.update(net.settings(self.case["net"], role)[0])

    def environment(self):
        from . import net

        return {k: v for role in self.case.get("net", ())
                for k, v in net.settings(self.case["net"], role)[1].items()}

    def register(self, sim):
        self.src.register(sim, "src")
        if self.dst is not None:
            if self.dst is self.src:
                link = self.link()
                if link:
                    sim.paths[link] = "dst"
                else:
                    sim.servers["dst"] = self.src.server
            else:
                self.dst.register(sim, "dst")
        sim.files_root = self.files
        if self.case.get("net"):
            from . import net

            sim.network = net.Network(self.case["net"])

    # -- reading
    def read_dir(self):
        """Directory output: table -> list of row dicts; raises ValueError on bad lines."""
        res = {}
        for f in sorted(os.listdir(self.outdir)):
            with seam.real_open(os.path.join(self.outdir, f), encoding="utf-8") as fh:
                res[f] = fh.read()
        return res

    def read_out(self):
        """The output as {source table name: [row dict]} (only planned tables that exist)."""
        from .model import remap_name

        res = {}
        if self.case["dst"]["kind"] == "dir":
            types = {key(t): {c["name"]: c["type"] for c in t["cols"]}
                     for t in self.case["src"]["tables"]}
            for f, text in self.read_dir().items():
                name = f[: -len(".json")]
                ty = types.get(name, {})
                rows = []
                for line in text.split("\n")[:-1]:
                    rows.append({c: canon(v, ty.get(c)) for c, v in json.loads(line).items()})
                res[name] = rows
            return res
        have = set(self.dst.tables())
        con = self.dst.raw()
        for t in self.case["src"]["tables"]:
            s, n = remap_name(self.case, key(t)).split(".", 1)
            if (s, n) in have:
                res[key(t)] = self.dst.rows(s, n, con)
        con.close()
        return res


class Outcome:
    def __init__(self, status, error=None, rc=None, stdout=b""):
        self.status = status  # ok | error | crash | hang
        self.error = error
        self.rc = rc
        self.stdout = stdout
        self.exc_type = None
        self.reason = None  # the exception behind an error, as far as it is known

    def __repr__(self):
        return f"{self.status}" + (f"({self.error})" if self.error else "")


@contextlib.contextmanager
def _buffers(case):
    import subsetter.sampler as mod

    old = {}
    vals = case.get("buffers")
    if vals:
        for name, v in zip(("SOURCE_BUFFER_SIZE", "DESTINATION_BUFFER_SIZE"), vals):
            if hasattr(mod, name):
                old[name] = getattr(mod, name)
                setattr(mod, name, v)
    try:
        yield
    finally:
        for name, v in old.items():
            setattr(mod, name, v)


@contextlib.contextmanager
def _environ(env):
    os.environ.update(env)
    try:
        yield
    finally:
        for k in env:
            del os.environ[k]


def _fmt(exc):
    return f"{type(exc).__name__}: {exc}".replace("\n", " ")[:600]


def _scrub(text, inst):
    return text.replace(inst.dir, "<dir>") if text else text


def run_api(inst, cfg, case, steps=("plan", "sample"), plan=None, keep=None):
    from subsetter.config_model import SubsetterConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler

    config = SubsetterConfig.model_validate(cfg)
    if "plan" in steps:
        plan = Planner(config.source, config.planner).plan()
        if keep is not None:
            keep["plan"] = plan
    if "sample" in steps:
        sampler = Sampler(config.source, config.sampler)
        for _ in range(case.get("repeat", 1)):
            sampler.sample(
                plan, truncate=case.get("truncate", False), create=case.get("create", False)
            )
    return plan


class _Stdout(io.TextIOWrapper):
    pass


@contextlib.contextmanager
def real_logging(on):
    """Logging as a new process has it, with standard error kept in memory."""
    if not on:
        yield
        return
    root = logging.root

    def loggers():
        return [root] + [x for x in root.manager.loggerDict.values()
                         if isinstance(x, logging.Logger)]

    old = {x: (list(x.handlers), x.level) for x in loggers()}
    disabled, err = root.manager.disable, sys.stderr
    sys.stderr = io.StringIO()
    root.handlers[:] = []
    logging.disable(logging.NOTSET)
    try:
        yield
    finally:
        sys.stderr = err
        logging.disable(disabled)
        for x in loggers():
            x.handlers[:], level = old.get(x, ([], logging.NOTSET))
            x.setLevel(level)


def run_cli(sim, inst, argv, stdin=""):
    """Run the command line entry point; returns (exit status, stdout bytes)."""
    from subsetter import __main__ as main_mod

    raw = seam.SimStdoutRaw(sim)
    out = _Stdout(
        io.BufferedWriter(raw, sim.knobs.get("file_buffer", io.DEFAULT_BUFFER_SIZE)),
        encoding=sim.locale,
    )
    old = sys.argv, sys.stdout, sys.stdin, os.getcwd()
    sys.argv = ["subsetter", *argv]
    sys.stdout = out
    sys.stdin = io.StringIO(stdin)
    os.chdir(inst.files)
    rc = 0
    try:
        try:
            with real_logging(inst.case.get("logging")):
                main_mod.main()
        except SystemExit as exc:
            code = exc.code
            rc = 0 if code is None else code if isinstance(code, int) else 1
            if exc.__context__ is not None:
                sim.cli_reason = exc.__context__
        except (SimCrash, SimHang, HarnessError):
            raise
        except BaseException as exc:
            rc = 1
            sim.cli_reason = exc
        # interpreter shutdown: standard output is flushed, failure gives status 120
        try:
            if not out.closed:
                out.flush()
        except (OSError, ValueError):
            if rc == 0:
                rc = 120
    finally:
        sys.argv, sys.stdout, sys.stdin = old[:3]
        os.chdir(old[3])
        _RETIRED.append(out)
    return rc, bytes(raw.data)


_RETIRED = []


def _write_config(inst, cfg, name="config.yaml"):
    import yaml

    path = os.path.join(inst.files, name)
    with seam.real_open(path, "w", encoding="utf-8") as fh:
        yaml.safe_dump(cfg, fh, sort_keys=False, allow_unicode=True)
    return path


def run(sim, inst, index, *, driver=None, body=None, keep=None, truncate=None, create=None):
    """One process of the program under test, from start to its end (or its death)."""
    case = inst.case
    driver = driver or case.get("driver", "api")
    if truncate is not None or create is not None:
        case = dict(case)
        if truncate is not None:
            case["truncate"] = truncate
        if create is not None:
            case["create"] = create
    inst.register(sim)
    cfg = inst.config()
    cfg_path = None
    if driver.startswith("cli"):
        cfg_path = _write_config(inst, cfg)
    flags = []
    if case.get("truncate"):
        flags.append("--truncate")
    if case.get("create"):
        flags.append("--create")
    proc = sim.start_process(index)
    sim.note("start", index, driver)
    outcome = None
    with core.activate(sim), _buffers(case), _environ(inst.environment()):
        try:
            if body is not None:
                res = body(sim, inst, cfg)
                outcome = Outcome("ok")
                outcome.value = res
            elif driver == "api":
                run_api(inst, cfg, case, keep=keep)
                outcome = Outcome("ok")
            elif driver == "cli-subset":
                rc, out = run_cli(sim, inst, ["-c", "config.yaml", "subset", *flags])
                outcome = Outcome("ok" if rc == 0 else "error", f"exit {rc}" if rc else None, rc, out)
            elif driver == "cli-plan-sample":
                rc, out = run_cli(sim, inst, ["-c", "config.yaml", "plan", "-o", "plan.yaml"])
                if rc == 0:
                    rc, out = run_cli(
                        sim, inst, ["-c", "config.yaml", "sample", "-p", "plan.yaml", *flags]
                    )
                outcome = Outcome("ok" if rc == 0 else "error", f"exit {rc}" if rc else None, rc, out)
            else:
                raise HarnessError(f"unknown driver {driver}")
        except SimCrash as exc:
            outcome = Outcome("crash", str(exc))
        except SimHang as exc:
            outcome = Outcome("hang", str(exc))
        except HarnessError:
            raise
        except Exception as exc:  # the program's own errors
            if isinstance(exc.__cause__, HarnessError):
                raise
            outcome = Outcome("error", _scrub(_fmt(exc), inst))
            outcome.exc_type = type(exc).__name__
            outcome.reason = outcome.error
    if (outcome.status == "error" or body is not None) and sim.cli_reason is not None and (
            outcome.reason is None):
        outcome.exc_type = type(sim.cli_reason).__name__
        outcome.reason = _scrub(_fmt(sim.cli_reason), inst)
    sim.cli_reason = None
    if proc.dead and outcome.status == "ok":
        # killed inside a destructor, where the exception cannot propagate
        outcome = Outcome("crash", "killed")
    sim.note("end", outcome.status, _scrub(outcome.error, inst))
    proc.dead = True
    for s in proc.sessions:
        s.kill()
    for o in _RETIRED:
        with contextlib.suppress(Exception):
            o.close()
    _RETIRED.clear()
    sim.proc = None
    return outcome


class Scratch:
    """A scratch directory for one case; removed afterwards."""

    def __init__(self, root):
        self.root = root
        self.n = 0

    def __enter__(self):
        if os.path.isdir(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)
        return self

    def sub(self):
        self.n += 1
        return os.path.join(self.root, f"i{self.n}")

    def __exit__(self, *exc):
        shutil.rmtree(self.root, ignore_errors=True)
        return False


def scratch_base():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    import tempfile

    return base or tempfile.gettempdir()


__all__ = ["Instance", "run", "apply_ops", "Scratch", "re"]
