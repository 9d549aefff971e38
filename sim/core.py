"""The simulator core: one Sim object owns one execution.

All observable nondeterminism of a run goes through `Sim.pre` / `Sim.post`: every database
round trip, commit, connection attempt and file operation is an *operation* of a class such as
"src.exec" or "dst.commit".  Operations are counted per class and per run, so that a fault, a
crash or a concurrent writer can be placed at "the 3rd dst.commit of run 1" and found there
again on replay.
"""
import hashlib
import random as _random

from .boot import ENTROPY, RealRandom


class SimCrash(BaseException):
    """The process under test is killed at this operation."""


class HarnessError(Exception):
    """Something is wrong with the simulator itself, not with the code under test."""


class SimHang(BaseException):
    """The run exceeded its step budget."""


CURRENT = None


def current():
    return CURRENT


class Process:
    """One run of the program under test."""

    def __init__(self, index):
        self.index = index
        self.dead = False
        self.counts = {}
        self.sessions = []
        self.n_ops = 0


class Sim:
    def __init__(self, seed, *, faults=(), writers=(), knobs=None):
        self.seed = seed
        self.knobs = dict(knobs or {})
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f.get("run", 0), f["op"], f["n"]), []).append(f)
        self.all_writers = list(writers)
        self.written = 0
        self.writers = {}
        for i, w in enumerate(self.all_writers):
            self.writers[(w.get("run", 0), w["op"], w["n"])] = i
        self.rng = RealRandom(f"sim:{seed}")
        self.clock = 0.0
        self.log = []
        self.hash = hashlib.sha256()
        self.fired = {}
        self.overwork = False  # the simulator gave up on a statement
        self.cli_reason = None  # the exception for which the command line exited
        self.fired_list = []
        self.op_totals = {}
        self.proc = None
        self.servers = {}
        self.network = None
        self.files = None
        self.listeners = []  # fn(event_name, **info)
        self.max_ops = self.knobs.get("max_ops", 200000)
        self.trace_hash = hashlib.sha256()
        self.keep_log = bool(self.knobs.get("keep_log"))
        self.probes = {}
        self.n_sessions = 0
        self.idle_timeout = self.knobs.get("idle_timeout")
        self.writer_cb = None
        self.paths = {}  # SQLite file -> role
        self.files_root = None
        # the encoding of files and streams for which the program names none
        self.locale = RealRandom(f"locale:{seed}").choice(
            ["utf-8", "utf-8", "latin-1", "cp1252", "ascii"])
        self._sql_rngs = {}

    # -- seam callbacks -----------------------------------------------------------------
    def role_of_path(self, path):
        if path in (None, "", ":memory:"):
            return "mem"
        try:
            return self.paths[str(path)]
        except KeyError:
            return "other"

    def role_of_attach(self, sql):
        path = sql.split("'")[1]
        return self.paths.get(path, "other")

    def sql_rng(self, role):
        """The stream behind the database's random function, for one run and one server."""
        key = (self.proc.index, role)
        rng = self._sql_rngs.get(key)
        if rng is None:
            rng = RealRandom(f"sql:{self.seed}:{self.knobs.get('entropy', 0)}:{key}")
            self._sql_rngs[key] = rng
        return rng

    def connect_server(self, dbapi, args, kwargs):
        from . import server as simserver

        if self.network is not None:
            user, srv = self.network.connect(self, dbapi, kwargs, self.servers)
        else:
            user = kwargs.get("user")
            if user not in self.servers:
                raise HarnessError(f"connection by unknown user {user!r}")
            srv = self.servers[user]
        if simserver.DBAPI[srv.dialect] is not dbapi:
            raise HarnessError(f"{user}: connection through the wrong driver {dbapi}")
        op = f"{user}.connect"
        faults = self.pre(op, None, "")
        for f in faults:
            if f["kind"] == "connect_fail":
                self.fire(f, op)
                if srv.dialect == "mysql":
                    raise dbapi.OperationalError(2003, "Can't connect (injected)")
                raise dbapi.OperationalError("could not connect to server (injected)")
        conn = simserver.Connection(dbapi, srv, user, self, user)
        self.crash_after(faults, op)
        return conn

    def permute(self, rows):
        self.rng.shuffle(rows)

    def catalog_order(self, items, key):
        items = list(items)
        seed = self.knobs.get("catalog_seed")
        if seed is not None:
            RealRandom(f"cat:{seed}:{key}").shuffle(items)
        return items

    # -- bookkeeping ------------------------------------------------------------------
    def note(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.hash.update(line.encode("utf-8", "surrogateescape"))
        self.hash.update(b"\n")
        if self.keep_log:
            self.log.append(line)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def emit(self, name, **info):
        for fn in list(self.listeners):
            fn(name, **info)

    # -- operations -------------------------------------------------------------------
    def start_process(self, index):
        self.proc = Process(index)
        ENTROPY.reseed(f"{self.seed}:{self.knobs.get('entropy', 0)}:{index}")
        self.rng = RealRandom(f"sim:{self.seed}:{index}")
        return self.proc

    def alive(self):
        return self.proc is not None and not self.proc.dead

    def pre(self, op, session=None, what="", **info):
        """Called before an operation takes effect.  Returns the faults to apply after it."""
        proc = self.proc
        if proc is None:
            raise HarnessError(f"operation {op} outside a run: {what}")
        if proc.dead:
            raise SimCrash(f"process is dead ({op})")
        proc.n_ops += 1
        if proc.n_ops > self.max_ops:
            proc.dead = True
            raise SimHang(f"more than {self.max_ops} operations in one run")
        n = proc.counts.get(op, 0) + 1
        proc.counts[op] = n
        self.op_totals[op] = self.op_totals.get(op, 0) + 1
        self.clock += self._latency(op)
        if self.idle_timeout:
            self._expire_idle()
        self.note(proc.index, op, n, getattr(session, "sid", "-"), what)
        self.trace_hash.update(op.encode())
        if (proc.index, op, n) in self.writers:
            self._write_up_to(self.writers[(proc.index, op, n)])
        after = []
        for f in self.faults.get((proc.index, op, n), ()):
            if f["kind"] == "idle_drop":
                self._drop_idle(f)
            elif f["kind"] == "slow":
                self.clock += f.get("delay", 100.0)
                self._fire(f, op)
                if self.idle_timeout:
                    self._expire_idle()
            elif f["kind"] == "crash" and f.get("when") != "after":
                self._fire(f, op)
                proc.dead = True
                raise SimCrash(f"killed before {op} #{n}")
            else:
                after.append(f)
        if session is not None:
            session.last_active = self.clock
        return after

    def _write_up_to(self, last):
        """Transactions of other clients build on each other: none overtakes another."""
        while self.written <= last:
            w = self.all_writers[self.written]
            self.written += 1
            self.note("writer", w.get("id"))
            self.trace_hash.update(f"w{w.get('id')}".encode())
            self.writer_cb(w)

    def fire(self, fault, op):
        self._fire(fault, op)

    def _fire(self, fault, op):
        kind = fault["kind"] + (":after" if fault.get("when") == "after" else "")
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.fired_list.append(fault)
        self.trace_hash.update(f"!{kind}".encode())
        self.note("FAULT", kind, op)

    def crash_after(self, faults, op):
        """Kill the process if one of `faults` is a crash after the operation."""
        for f in faults:
            if f["kind"] == "crash":
                self._fire(f, op)
                self.proc.dead = True
                raise SimCrash(f"killed after {op}")

    def _latency(self, op):
        base = 0.0005
        if op.endswith("connect"):
            base = 0.02
        elif op.endswith("commit"):
            base = 0.003
        return base * (0.5 + self.rng.random())

    def _idle_sessions(self):
        return [
            s
            for p in [self.proc]
            for s in p.sessions
            if s.droppable and s.pooled and not s.dropped
        ]

    def _expire_idle(self):
        for s in self._idle_sessions():
            if self.clock - s.last_active > self.idle_timeout:
                s.drop()
                self.fired["idle_timeout"] = self.fired.get("idle_timeout", 0) + 1
                self.note("IDLE-TIMEOUT", s.sid)

    def _drop_idle(self, fault):
        for s in self._idle_sessions():
            if fault.get("role") in (None, s.role):
                s.drop()
                self._fire(fault, "idle")

    def digest(self):
        return self.hash.hexdigest()[:16]


class activate:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        global CURRENT
        self.prev = CURRENT
        CURRENT = self.sim
        return self.sim

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = self.prev
        return False
