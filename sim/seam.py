"""Seams owned by the simulator: the real sqlite3 driver, the connection pool, and files."""
import builtins
import errno
import io
import os
import sqlite3
import sys
import weakref

from . import core
from .core import SimCrash

real_open = builtins.open

VM_LIMIT = 400  # x 1,000,000 SQLite VM instructions per statement


def _sim():
    sim = core.CURRENT
    if sim is None or sim.proc is None:
        return None
    return sim


class Session:
    """What the simulator knows about one database session of the program under test."""

    droppable = False

    def __init__(self, sim, role, dialect):
        self.sim = sim
        self.proc = sim.proc
        sim.n_sessions += 1
        self.sid = f"{role}{sim.n_sessions}"
        self.role = role
        self.dialect = dialect
        self.pooled = False
        self.in_setup = True
        self.dropped = False
        self.closed = False
        self.last_active = sim.clock
        self.setup_sqls = []
        self.n_statements = 0
        self.proc.sessions.append(self)

    def kill(self):
        """The client process died: release everything without committing."""


# --------------------------------------------------------------------------- real SQLite
class SqliteSession(Session):
    def __init__(self, sim, role, conn):
        super().__init__(sim, role, "sqlite")
        self.conn = conn
        self.cursors = weakref.WeakSet()

    def kill(self):
        if self.closed:
            return
        self.closed = True
        for cur in list(self.cursors):
            # an open cursor would keep the file locked
            try:
                sqlite3.Cursor.close(cur)
            except sqlite3.Error:
                pass
        try:
            sqlite3.Connection.rollback(self.conn)
        except sqlite3.Error:
            pass
        try:
            sqlite3.Connection.close(self.conn)
        except sqlite3.Error:
            pass


def _first_word(sql):
    s = sql.lstrip().split(None, 1)
    return s[0].upper() if s else ""


_SQLITE_META = ("sqlite_master", "sqlite_temp_master", "sqlite_schema")


class SimConn(sqlite3.Connection):
    def sim_init(self, sim, role):
        self.sess = SqliteSession(sim, role, self)

    def cursor(self, *args, **kwargs):
        cur = super().cursor(SimCursor)
        self.sess.cursors.add(cur)
        return cur

    def _dead(self):
        sess = self.sess
        return sess.proc.dead or sess.sim.proc is not sess.proc

    def commit(self):
        sess = self.sess
        if self._dead():
            raise SimCrash("dead")
        op = f"{sess.role}.commit"
        in_txn = self.in_transaction
        sim = sess.sim
        faults = sim.pre(op, sess, "txn" if in_txn else "")
        for f in faults:
            if f["kind"] == "commit_fail":
                sim.fire(f, op)
                raise sqlite3.OperationalError("database is locked (injected)")
        super().commit()
        if in_txn:
            sim.emit("committed", session=sess)
        sim.crash_after(faults, op)
        for f in faults:
            if f["kind"] == "commit_ambiguous":
                sim.fire(f, op)
                raise sqlite3.OperationalError("disk I/O error (injected after commit)")

    def rollback(self):
        sess = self.sess
        if self._dead() or sess.closed:
            return
        sess.sim.note(sess.sid, "rollback")
        super().rollback()

    def close(self):
        sess = self.sess
        if self._dead() or sess.closed:
            return
        sess.closed = True
        sess.sim.note(sess.sid, "close")
        super().close()


def refused(sess, text):
    """Remember that a database found rows that break its constraints."""
    low = text.lower()
    kind = "fk" if "foreign key" in low else "unique" if "unique" in low else "other"
    sess.sim.probe(f"{sess.role}_refused_{kind}")


class SimCursor(sqlite3.Cursor):
    op = None

    def _begin(self, sql, params, many):
        conn = self.connection
        sess = conn.sess
        sim = sess.sim
        if conn._dead():
            raise SimCrash("dead")
        word = _first_word(sql)
        if word == "ATTACH" and sess.role == "mem":
            sess.role = sim.role_of_attach(sql)
            sess.sid = sess.role + sess.sid[3:]
        if sess.in_setup:
            kind = "setup"
            sess.setup_sqls.append(sql)
        elif word == "PRAGMA" or any(m in sql for m in _SQLITE_META):
            kind = "meta"
        else:
            kind = "exec"
            sess.n_statements += 1
        op = f"{sess.role}.{kind}"
        self.op = op
        self.kind = kind
        faults = sim.pre(op, sess, _brief(sql), sql=sql)
        sim.emit("statement", session=sess, sql=sql, params=params, many=many, kind=kind)
        for f in faults:
            k = f["kind"]
            if k in ("error", "drop") and f.get("when") != "after":
                sim.fire(f, op)
                raise sqlite3.OperationalError("disk I/O error (injected)")
            if k == "disk_full":
                sim.fire(f, op)
                raise sqlite3.OperationalError("database or disk is full (injected)")
            if k == "locked":
                sim.fire(f, op)
                raise sqlite3.OperationalError("database is locked (injected)")
        return sess, sim, op, faults, word

    def _end(self, sess, sim, op, faults, word):
        if word in ("CREATE", "DROP", "ALTER") and not self.connection.in_transaction:
            sim.emit("committed", session=sess)
        sim.crash_after(faults, op)
        for f in faults:
            if f["kind"] == "error" and f.get("when") == "after":
                sim.fire(f, op)
                raise sqlite3.OperationalError("disk I/O error (injected after)")

    def execute(self, sql, params=()):
        ctx = self._begin(sql, params, False)
        try:
            super().execute(sql, params)
        except sqlite3.IntegrityError as exc:
            refused(ctx[0], str(exc))
            raise
        self._end(*ctx)
        return self

    def executemany(self, sql, rows):
        rows = list(rows)
        ctx = self._begin(sql, rows, True)
        sess, sim, op, faults, word = ctx
        for f in faults:
            if f["kind"] == "partial":
                sim.fire(f, op)
                super().executemany(sql, rows[: max(0, len(rows) // 2)])
                raise sqlite3.OperationalError("disk I/O error (injected mid-batch)")
        try:
            super().executemany(sql, rows)
        except sqlite3.IntegrityError as exc:
            refused(sess, str(exc))
            raise
        self._end(*ctx)
        return self

    def _fetch(self, fn, *args):
        conn = self.connection
        sess = conn.sess
        if conn._dead():
            raise SimCrash("dead")
        sim = sess.sim
        if self.kind != "exec":
            return fn(*args)
        op = f"{sess.role}.fetch"
        faults = sim.pre(op, sess)
        for f in faults:
            if f["kind"] in ("error", "drop"):
                sim.fire(f, op)
                raise sqlite3.OperationalError("disk I/O error (injected in fetch)")
        res = fn(*args)
        n = (0 if res is None else 1) if fn.__name__ == "fetchone" else len(res)
        sim.emit("fetched", session=sess, rows=n)
        sim.note(sess.sid, "fetched", n)
        sim.crash_after(faults, op)
        return res

    def fetchone(self):
        return self._fetch(super().fetchone)

    def fetchmany(self, *args):
        return self._fetch(super().fetchmany, *args)

    def fetchall(self):
        return self._fetch(super().fetchall)

    def __next__(self):
        row = self._fetch(super().fetchone)
        if row is None:
            raise StopIteration
        return row

    def __iter__(self):
        return self


def _brief(sql):
    s = " ".join(sql.split())
    return s[:160]


def _do_connect(dialect, conn_rec, cargs, cparams):
    sim = _sim()
    if dialect.name != "sqlite":
        return None
    if sim is None:
        raise core.HarnessError("database connection outside a simulated run")
    path = cargs[0] if cargs else cparams.get("database")
    role = sim.role_of_path(path)
    op = f"{role}.connect"
    faults = sim.pre(op, None, os.path.basename(str(path)))
    for f in faults:
        if f["kind"] == "connect_fail":
            sim.fire(f, op)
            raise sqlite3.OperationalError("unable to open database file (injected)")
    params = dict(cparams)
    params["factory"] = SimConn
    params["timeout"] = 0
    conn = sqlite3.connect(*cargs, **params)
    conn.sim_init(sim, role)
    budget = [0]

    def _progress():
        budget[0] += 1
        sim.overwork = sim.overwork or budget[0] > VM_LIMIT
        return 1 if budget[0] > VM_LIMIT else 0

    conn.set_progress_handler(_progress, 1000000)
    rng = sim.sql_rng(role)
    conn.create_function("random", 0, lambda: rng.getrandbits(64) - (1 << 63))
    if sim.knobs.get("reverse_unordered"):
        sqlite3.Connection.cursor(conn, sqlite3.Cursor).execute(
            "PRAGMA reverse_unordered_selects=1"
        )
    if role == "dst" and sim.knobs.get("dst_fk_enforce"):
        sqlite3.Connection.cursor(conn, sqlite3.Cursor).execute("PRAGMA foreign_keys=ON")
    sim.crash_after(faults, op)
    return conn


def _sess_of(dbapi_connection):
    return getattr(dbapi_connection, "sess", None)


def _on_checkout(dbapi_connection, rec, proxy):
    sess = _sess_of(dbapi_connection)
    if sess is not None:
        if sess.in_setup:
            sess.in_setup = False
        sess.pooled = False


def _on_checkin(dbapi_connection, rec):
    sess = _sess_of(dbapi_connection)
    if sess is not None:
        sess.pooled = True


# ----------------------------------------------------------------------------- files
class SimFileIO(io.FileIO):
    def __init__(self, path, mode, sim, **kwargs):
        self._sim = sim
        self._proc = sim.proc
        self._rel = os.path.relpath(str(path), sim.files_root)
        self._writing = any(c in mode for c in "wax+")
        self._error = 0
        super().__init__(path, mode, **kwargs)

    def _gone(self):
        return self._proc.dead or self._sim.proc is not self._proc

    def write(self, data):
        data = bytes(data)
        if self._gone():
            return len(data)
        sim = self._sim
        faults = sim.pre("file.write", None, f"{self._rel} {len(data)}")
        code, self._error = self._error, 0
        if code:
            raise OSError(code, os.strerror(code))
        for f in faults:
            k = f["kind"]
            if k in ("enospc", "eio"):
                part = data[: int(len(data) * f.get("part", 0.0))]
                sim.fire(f, "file.write")
                code = errno.ENOSPC if k == "enospc" else errno.EIO
                if part:
                    # as write(2) does it: a short count, and the error on the next call
                    self._error = code
                    n = super().write(part)
                    sim.emit("file_write", path=self._rel, data=part)
                    return n
                raise OSError(code, os.strerror(code))
            if k == "short" and len(data) > 1:
                sim.fire(f, "file.write")
                part = data[: max(1, int(len(data) * f.get("part", 0.5)))]
                sim.emit("file_write", path=self._rel, data=part)
                return super().write(part)
            if k == "crash":
                part = data[: int(len(data) * f.get("part", 0.0))]
                if part:
                    super().write(part)
                sim.crash_after([f], "file.write")
        n = super().write(data)
        sim.emit("file_write", path=self._rel, data=data)
        return n

    def _read_fault(self):
        if self._gone():
            raise SimCrash("dead")
        faults = self._sim.pre("file.read", None, self._rel)
        for f in faults:
            if f["kind"] == "eio":
                self._sim.fire(f, "file.read")
                raise OSError(errno.EIO, os.strerror(errno.EIO))

    def readinto(self, buf):
        self._read_fault()
        return super().readinto(buf)

    def readall(self):
        self._read_fault()
        return super().readall()

    def close(self):
        if self.closed:
            return
        if self._gone() or not self._writing:
            super().close()
            return
        try:
            faults = self._sim.pre("file.close", None, self._rel)
        except BaseException:
            super().close()
            raise
        super().close()
        self._sim.crash_after(faults, "file.close")
        for f in faults:
            if f["kind"] == "eio":
                self._sim.fire(f, "file.close")
                raise OSError(errno.EIO, os.strerror(errno.EIO))


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    sim = _sim()
    if (
        sim is None
        or sim.files_root is None
        or isinstance(file, int)
        or not os.path.abspath(os.fspath(file)).startswith(sim.files_root + os.sep)
        or sim.proc.dead
    ):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    rel = os.path.relpath(os.path.abspath(path), sim.files_root)
    faults = sim.pre("file.open", None, f"{rel} {mode}")
    for f in faults:
        k = f["kind"]
        if k in ("eacces", "enospc", "eio", "emfile"):
            sim.fire(f, "file.open")
            code = {
                "eacces": errno.EACCES,
                "enospc": errno.ENOSPC,
                "eio": errno.EIO,
                "emfile": errno.EMFILE,
            }[k]
            raise OSError(code, os.strerror(code), str(path))
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    raw = SimFileIO(path, raw_mode, sim)
    sim.crash_after(faults, "file.open")
    if buffering == 0:
        return raw
    if buffering in (-1, 1):
        bufsize = sim.knobs.get("file_buffer", io.DEFAULT_BUFFER_SIZE)
    else:
        bufsize = buffering
    if "+" in raw_mode:
        buf = io.BufferedRandom(raw, bufsize)
    elif any(c in raw_mode for c in "wax"):
        buf = io.BufferedWriter(raw, bufsize)
    else:
        buf = io.BufferedReader(raw, bufsize)
    if binary:
        return buf
    if encoding in (None, "locale"):
        encoding = sim.locale
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    # TextIOWrapper keeps its own 8 KiB of pending output; let the knob govern that as well.
    if any(c in raw_mode for c in "wax+") and bufsize < 8192:
        text._CHUNK_SIZE = max(1, bufsize)
    return text


class SimStdoutRaw(io.RawIOBase):
    """Standard output of the simulated process."""

    def __init__(self, sim):
        self._sim = sim
        self._proc = sim.proc
        self.data = bytearray()
        self._error = 0

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        if self._proc.dead:
            return len(data)
        sim = self._sim
        faults = sim.pre("stdout.write", None, str(len(data)))
        code, self._error = self._error, 0
        if code:
            raise OSError(code, os.strerror(code))
        for f in faults:
            k = f["kind"]
            if k in ("enospc", "eio", "epipe"):
                part = data[: int(len(data) * f.get("part", 0.0))]
                sim.fire(f, "stdout.write")
                code = {"enospc": errno.ENOSPC, "eio": errno.EIO, "epipe": errno.EPIPE}[k]
                if part:
                    self.data += part
                    self._error = code
                    return len(part)
                raise OSError(code, os.strerror(code))
            if k == "short" and len(data) > 1:
                sim.fire(f, "stdout.write")
                n = max(1, len(data) // 2)
                self.data += data[:n]
                return n
        self.data += data
        sim.crash_after(faults, "stdout.write")
        return len(data)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import sqlalchemy as sa

    sa.event.listen(sa.engine.Engine, "do_connect", _do_connect)
    sa.event.listen(sa.pool.Pool, "checkout", _on_checkout)
    sa.event.listen(sa.pool.Pool, "checkin", _on_checkin)
    builtins.open = sim_open
    io.open = sim_open
    sys.unraisablehook = lambda *_: None
