"""Base class of the checks, and generator parts several of them use."""
import copy

from . import gen, model, oracle, scen
from .gen import Rows, gen_value, tkey
from .model import Levels, remap_name, tables_of
from .scen import Violation, need

INT_PK = {"int": 1}


class Check:
    id = None
    #: what makes a case count as non-trivial (for the evidence)
    rule = ""
    #: whether configurations may mention tables that do not exist (see gen.add_unknown_names)
    unknown_names = True

    def generate(self, rng, index, tier):
        raise NotImplementedError

    def execute(self, case, ctx):
        raise NotImplementedError

    def known(self, case, viol):
        """Identifier of the known finding a violation is, or None."""
        return None


def succeeded(out, sim, code, *allowed):
    """Whether a run was successful.  One that met no fault must be, unless its error is of an
    allowed kind (what the configuration or the data of the case may be refused for)."""
    if out.status == "ok":
        return True
    if out.status == "error" and not sim.fired and out.exc_type not in (None, *allowed):
        raise Violation(f"{code}.failed", f"a failure-free run fails: {out.reason}")
    return False


# ------------------------------------------------------------------------------ generators
def base_case(rng, **kw):
    """A case of the given profile for which planning is possible."""
    return gen.gen_case(rng, gen.profile(**kw))


def strip_uniques(case):
    """Remove unique keys that are not primary keys (for outputs that repeat rows), and the
    foreign keys to them."""
    for side in (case["src"]["tables"], case["dst"].get("tables", [])):
        pks = {tkey(t): sorted(t["pk"]) for t in side}
        for t in side:
            t["uniques"] = []
            t["indexes"] = [{**ix, "unique": False} for ix in t["indexes"]]
            for k in ("fks", "xfks"):
                if k in t:
                    t[k] = [f for f in t[k]
                            if sorted(f["rcols"]) == pks.get(".".join(f["ref"]))]
    sync_extra_fks(case)


def sync_extra_fks(case):
    """Only the extra keys that the tables still have."""
    xfks = [(tkey(t), f["cols"], ".".join(f["ref"]), f["rcols"])
            for t in case["src"]["tables"] for f in t.get("xfks", [])]
    pl = case["config"]["planner"]
    if pl.get("extra_fks"):
        pl["extra_fks"] = [
            x for x in pl["extra_fks"]
            if (x["src_table"], x["src_columns"], x["dst_table"], x["dst_columns"]) in xfks]


def db_dst(case):
    return case["dst"]["kind"] == "db"


def limit_dst_fks(case):
    """Keep only destination keys between planned tables."""
    planned = Levels(case).planned()
    names = {remap_name(case, n) for n in planned}
    keys = {(remap_name(case, f.table), f.cols, remap_name(case, f.ref), f.rcols)
            for f in model.planner_fks(case)}
    for t in case["dst"].get("tables", ()):
        t["fks"] = [
            f for f in t["fks"]
            if tkey(t) not in names
            or (tkey(t), tuple(f["cols"]), ".".join(f["ref"]), tuple(f["rcols"])) in keys
        ]


def dst_of(case):
    """{source table name: destination table definition}."""
    by = {tkey(t): t for t in case["dst"].get("tables", ())}
    return {tkey(t): by[remap_name(case, tkey(t))] for t in case["src"]["tables"]
            if remap_name(case, tkey(t)) in by}


def closed_subset(rng, case, p=0.5):
    """Source rows closed under every foreign key, chosen at random: {table: [row]}."""
    data = case["data"]
    fks = [model.FK(tkey(t), f["cols"], ".".join(f["ref"]), f["rcols"])
           for t in case["src"]["tables"] for f in t["fks"] + t.get("xfks", [])]
    index = {}
    for f in fks:
        for i, r in enumerate(data[f.ref]):
            index.setdefault((f.ref, f.rcols), {})[tuple(r[c] for c in f.rcols)] = i
    chosen = {n: set() for n in data}
    stack = []
    for n in data:
        for i in range(len(data[n])):
            if rng.random() < p:
                stack.append((n, i))
    while stack:
        n, i = stack.pop()
        if i in chosen[n]:
            continue
        chosen[n].add(i)
        for f in fks:
            if f.table == n:
                v = model.fkval(data[n][i], f.cols)
                if v is not None:
                    j = index[(f.ref, f.rcols)].get(v)
                    if j is not None:
                        stack.append((f.ref, j))
    return {n: [dict(data[n][i]) for i in sorted(chosen[n])] for n in data}


def add_prior(rng, case, overlap=0.4, fresh=(0, 4), alter=True, only=None):
    """Rows that are in the destination before the first run: a closed part of the source with
    other values in the plain columns (conflicting keys), and rows with keys of their own."""
    dst = dst_of(case)
    tabs = tables_of(case)
    names = [n for n in tabs if n in dst and (only is None or n in only)]
    sub = closed_subset(rng, case, overlap) if overlap else {n: [] for n in tabs}
    b = Rows(case["src"]["tables"], rng, gen.profile(), "old|")
    for n, rows in case["data"].items():
        for r in rows:
            b.accept(n, r)
        b.n[n] = 0
    data = {}
    # other rows may refer to it
    refd = {(".".join(f["ref"]), c) for t in tabs.values() for f in t["fks"] + t.get("xfks", [])
            for c in f["rcols"]}
    for n in tabs:
        t = tabs[n]
        rows = []
        if n in names:
            for r in sub[n]:
                r = dict(r)
                if alter:
                    for c in t["cols"]:
                        if c["name"] in ("v", "s") or c["name"].startswith("x_"):
                            if c["name"] not in t["pk"] and not c.get("computed") and rng.random() < 0.7:
                                r[c["name"]] = gen_value(rng, c["type"])
                    if "tag" not in t["pk"] and (case["truncate"] or (n, "tag") not in refd):
                        r["tag"] = "old|p|" + r["tag"]
                rows.append(r)
        b.data[n] = rows
    for n in tabs:
        if n in names:
            b.add(n, rng.randint(*fresh))
    for n in names:
        have = {c["name"] for c in dst[n]["cols"]}
        data[remap_name(case, n)] = [
            {c: v for c, v in r.items() if c in have} for r in b.data[n]
        ]
    # keys of the destination that lead to tables without prior rows
    case["dst"]["data"] = prune_dangling(case, data)
    return case["dst"]["data"]


def prune_dangling(case, data):
    """Drop rows until every destination key resolves."""
    tabs = case["dst"]["tables"]
    while True:
        changed = False
        for t in tabs:
            rows = data.get(tkey(t), [])
            for f in t["fks"]:
                keys = {tuple(r.get(c) for c in f["rcols"])
                        for r in data.get(".".join(f["ref"]), [])}
                keep = []
                for r in rows:
                    v = tuple(r.get(c) for c in f["cols"])
                    if None in v or v in keys:
                        keep.append(r)
                if len(keep) != len(rows):
                    changed = True
                    rows = keep
            if tkey(t) in data:
                data[tkey(t)] = rows
        if not changed:
            return data


def source_counts(case):
    return sum(len(r) for r in case["data"].values())


# ------------------------------------------------------------------------------ observers
class DstWatch:
    """Looks at the committed destination after every commit (and at the end of a run)."""

    def __init__(self, sim, inst, fn):
        self.sim, self.inst, self.fn = sim, inst, fn
        self.n = 0
        self.problem = None
        sim.listeners.append(self)

    def __call__(self, event, session=None, **kw):
        if event != "committed" or self.problem is not None:
            return
        shared = self.inst.dst is self.inst.src
        if session.role == "dst" or shared:
            self.look("commit")

    def look(self, where):
        self.n += 1
        p = self.fn(self.inst, where)
        if p and self.problem is None:
            self.problem = f"{p} (after {where} {self.n})"

    def done(self, code):
        self.look("end of run")
        self.sim.listeners.remove(self)
        if self.problem is not None:
            raise scen.Violation(code, self.problem)


def out_by_source(case, inst):
    return inst.read_out()


def split_planned(case, out):
    planned = Levels(case).planned()
    return {n: r for n, r in out.items() if n in planned}


def untouched_unplanned(case, out, prior=None):
    planned = Levels(case).planned()
    for n, rows in sorted(out.items()):
        if n not in planned and rows != (prior or {}).get(n, []):
            return f"{n}: rows in a table that is not part of the sample"
    return None


def total(out):
    return sum(len(r) for r in out.values())


__all__ = ["Check", "need", "oracle", "copy"]
