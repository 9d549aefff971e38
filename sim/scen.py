"""What the checks share: running simulated processes, drawing faults, collecting statistics."""
import collections
import copy
import hashlib
import json
import signal

from . import core, gen, model, oracle, world
from .core import SimHang
from .model import tkey


class Violation(Exception):
    def __init__(self, code, message):
        super().__init__(f"{code}: {message}")
        self.code = code
        self.message = message


class Stats:
    """Everything the evidence reports, measured while the cases run."""

    def __init__(self):
        self.cases = 0
        self.nontrivial = 0
        self.runs = 0
        self.sim_time = 0.0
        self.ops = collections.Counter()
        self.fired = collections.Counter()
        self.outcomes = collections.Counter()
        self.worlds = collections.Counter()
        self.probes = collections.Counter()
        self.traces = set()
        self.digests = set()
        self.writers = 0
        self.errors = collections.Counter()

    def to_json(self):
        return {
            "cases": self.cases, "nontrivial": self.nontrivial, "runs": self.runs,
            "sim_time": self.sim_time, "ops": dict(self.ops), "fired": dict(self.fired),
            "outcomes": dict(self.outcomes), "worlds": dict(self.worlds),
            "probes": dict(self.probes), "traces": sorted(self.traces),
            "digests": sorted(self.digests), "writers": self.writers,
            "errors": dict(self.errors),
        }


class Ctx:
    """One execution of one case."""

    def __init__(self, root, stats=None, keep_log=False):
        self.root = root
        self.stats = stats or Stats()
        self.keep_log = keep_log
        self.sims = []
        self.logs = []
        self.nontrivial = False
        self.scratch = None
        self.hash = hashlib.sha256()

    # -- worlds
    def build(self, case):
        dst = case["dst"]
        self.stats.worlds[
            f"{case['src']['dialect']}->{dst.get('dialect', 'dir')}"
            + ("(same server)" if dst.get("same") else "")
        ] += 1
        return world.Instance.build(case, self.scratch.sub())

    def clone(self, inst):
        return inst.clone(self.scratch.sub())

    def sim(self, case, faults=(), writers=(), inst=None, **knobs):
        k = {**case.get("knobs", {}), **knobs}
        if self.keep_log:
            k["keep_log"] = True
        s = core.Sim(case["seed"], faults=faults, writers=writers, knobs=k)
        self.sims.append(s)
        if inst is not None:
            s.states = []

            def write(w):
                ok = world.apply_ops(inst.src, w["ops"])
                s.note("writer-result", ok)
                if ok:
                    self.stats.writers += 1
                    s.wrote_ok = getattr(s, "wrote_ok", 0) + 1
                    s.emit("src_changed", writer=w)

            s.writer_cb = write
        return s

    def run(self, sim, inst, index=0, **kw):
        out = world.run(sim, inst, index, **kw)
        self.stats.runs += 1
        self.stats.outcomes[out.status] += 1
        if out.status == "error" and not sim.fired:
            self.stats.errors[(out.error or "")[:80]] += 1
        return out

    def finish(self):
        st = self.stats
        for s in self.sims:
            st.sim_time += s.clock
            st.ops.update(s.op_totals)
            st.fired.update(s.fired)
            st.probes.update(s.probes)
            st.traces.add(s.trace_hash.hexdigest()[:12])
            self.hash.update(s.digest().encode())
            if self.keep_log:
                self.logs.append(list(s.log))
        st.cases += 1
        if self.nontrivial:
            d = self.hash.hexdigest()[:12]
            if d not in st.digests:
                st.digests.add(d)
                st.nontrivial += 1

    def probe(self, name, n=1):
        self.stats.probes[name] += n

    def digest(self):
        return self.hash.hexdigest()[:16]


class CaseTimeout(SimHang):
    pass


def _alarm(signum, frame):
    raise CaseTimeout("wall clock watchdog")


def execute(check, case, root, stats=None, keep_log=False, limit=120):
    """Run one case; returns (violation or None, ctx)."""
    ctx = Ctx(root, stats, keep_log)
    viol = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with world.Scratch(root) as sc:
            ctx.scratch = sc
            try:
                check.execute(case, ctx)
            except Violation as v:
                viol = v
        if any(s.overwork for s in ctx.sims):
            # a statement was more work than the simulator spends on one: says nothing
            ctx.probe("overwork")
            ctx.nontrivial = False
            viol = None
    finally:
        signal.alarm(0)
        ctx.finish()
    return viol, ctx


# ------------------------------------------------------------------------------ faults
def _crash(rng):
    return {"kind": "crash", "when": rng.choice(["before", "after"])}


def _k(kind, **kw):
    return lambda rng: {"kind": kind, **kw}


def _when(kind):
    return lambda rng: {"kind": kind, "when": rng.choice(["before", "after"])}


def _part(kind):
    return lambda rng: {"kind": kind, "part": rng.choice([0.0, 0.3, 0.7, 1.0])}


STMT = [_when("error"), _when("drop"), _k("disk_full"), _k("locked")]
FAULTS = {
    "src.connect": [_k("connect_fail")],
    "src.setup": [_k("error"), _k("drop")],
    "src.meta": [_k("error")],
    "src.exec": STMT,
    "src.fetch": [_k("error"), _k("drop")],
    "src.commit": [_k("commit_fail")],
    "src.ping": [_k("drop")],
    "dst.connect": [_k("connect_fail")],
    "dst.setup": [_k("error"), _k("drop")],
    "dst.meta": [_k("error")],
    "dst.exec": STMT + [_k("partial"), _k("partial")],
    "dst.fetch": [_k("error"), _k("drop")],
    "dst.commit": [_k("commit_fail"), _k("drop"), _k("commit_ambiguous")],
    "dst.ping": [_k("drop")],
    "file.open": [_k("eacces"), _k("enospc"), _k("eio"), _k("emfile")],
    "file.write": [_part("enospc"), _part("eio"), _part("short")],
    "file.read": [_k("eio")],
    "file.close": [_k("eio")],
    "stdout.write": [_part("enospc"), _k("eio"), _k("epipe"), _part("short")],
}
WEIGHT = {
    "src.connect": 1, "src.setup": 1, "src.meta": 1, "src.exec": 4, "src.fetch": 3,
    "src.commit": 1, "src.ping": 1, "dst.connect": 1, "dst.setup": 1, "dst.meta": 1,
    "dst.exec": 5, "dst.fetch": 1, "dst.commit": 6, "dst.ping": 1, "file.open": 3,
    "file.write": 5, "file.read": 1, "file.close": 3, "stdout.write": 2,
}


def draw_fault(rng, counts, run=0, crash=0.35, ops=None, only=None):
    """One fault somewhere among the operations a clean run of this case performs."""
    cands = [o for o in sorted(counts) if o in FAULTS and counts[o] and (ops is None or o in ops)]
    if not cands:
        return None
    op = rng.choices(cands, [WEIGHT[o] for o in cands])[0]
    n = rng.randint(1, counts[op])
    if rng.random() < crash and not (only and "crash" not in only):
        f = _crash(rng)
        if op == "file.write":
            f = {"kind": "crash", "when": "after", "part": rng.choice([0.0, 0.5, 1.0])}
    else:
        f = rng.choice(FAULTS[op])(rng)
        if only and f["kind"] not in only:
            f = _crash(rng)
    return {"run": run, "op": op, "n": n, **f}


def draw_faults(rng, counts, run=0, k=None, **kw):
    k = k or rng.choice([1, 1, 1, 2])
    res = [draw_fault(rng, counts, run, **kw) for _ in range(k)]
    return [f for f in res if f]


# ------------------------------------------------------------------------------ writers
def builder(case, rng, p=None, prefix="w|"):
    """A row builder over the current source data of a case (for concurrent clients)."""
    b = gen.Rows(case["src"]["tables"], rng, p or gen.profile(), prefix)
    for k, rows in case["data"].items():
        b.data[k] = [dict(r) for r in rows]
        b.n[k] = len(rows)
        for r in b.data[k]:
            b.accept(k, r)
    return b


def writer_points(rng, counts, n):
    """Places at which other clients commit, in the order they are reached (approximately)."""
    ops = [o for o in sorted(counts) if o.startswith("src.") and o != "src.connect"]
    ops += [o for o in sorted(counts) if o in ("dst.exec", "dst.commit", "file.write")]
    pts = set()
    for _ in range(n):
        o = rng.choice(ops)
        pts.add((o, rng.randint(1, counts[o])))
    return sorted(pts, key=lambda p: p[1] / counts[p[0]])


def make_writers(case, rng, counts, mode, count):
    pts = writer_points(rng, counts, count)
    if not pts:
        return []
    return gen.gen_writers(rng, case, builder(case, rng), pts, mode, count)


# ------------------------------------------------------------------------------ clean runs
def dry_counts(ctx, inst, case, **kw):
    """Operation counts of a failure-free run on a copy."""
    sim = ctx.sim(case)
    c = ctx.clone(inst)
    out = ctx.run(sim, c, 0, **kw)
    return dict(sim_counts(sim)), out, c


def sim_counts(sim):
    return sim.op_totals


def committed_src(inst):
    return inst.src.dump()


def src_rows(inst, case):
    return {tkey(t): inst.src.rows(t["schema"], t["name"]) for t in case["src"]["tables"]}


def dst_rows(inst):
    return inst.dst.dump() if inst.dst is not None else {}


def deterministic(case):
    return not model.is_random(case)


def make_deterministic(case):
    for t in case["config"]["planner"]["targets"].values():
        if t.get("percent") is not None or t.get("amount") is not None:
            t.pop("percent", None)
            t.pop("amount", None)
            if not any(t.get(k) for k in ("all", "in", "like", "sql")):
                t["all"] = True


def remap(case, name):
    return model.remap_name(case, name)


def clone_case(case):
    return copy.deepcopy(case)


def canon(obj):
    return json.loads(json.dumps(obj))


def need(cond, code, message):
    if not cond:
        raise Violation(code, message)


__all__ = ["oracle"]
