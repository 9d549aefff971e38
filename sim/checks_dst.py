"""Checks of what happens to the databases: C04 C05 C06 C07 C08 C09 C12 C13 C14 C22 C23 C24."""
import collections
import copy
import json

from . import gen, model, oracle, scen
from .base import (
    Check, DstWatch, add_prior, base_case, closed_subset, db_dst, dst_of, limit_dst_fks,
    prune_dangling, split_planned, strip_uniques, succeeded, total,
)
from .checks_content import (
    add_compaction, add_multiplicity, allowed_compaction, consistent, copies_by_multiplicity_only,
    drop_inconsistent, merge_problems,
)
from .gen import tkey
from .model import Levels, remap_name, tables_of
from .scen import Violation, need

DB = {"same": 7, "sqlite": 1, "postgresql": 1, "mysql": 1}


# ------------------------------------------------------------------------------ shared parts
def share_server(case):
    """Let source and destination be one server (they must not use the same tables)."""
    dst = case["dst"]
    if dst["kind"] != "db" or dst["dialect"] != case["src"]["dialect"]:
        return False
    have = {tkey(t) for t in case["src"]["tables"]}
    if any(remap_name(case, n) in have for n in have):
        return False
    if any(tkey(t) in have for t in dst["tables"]):
        return False
    if any("*" in s for s in case["config"]["planner"]["select"]):
        case["config"]["planner"]["select"] = [gen.glob.escape(n) for n in sorted(have)]
    case["src"]["schemas"] = list(case["src"]["schemas"]) + [
        s for s in dst["schemas"] if s not in case["src"]["schemas"]]
    if case["src"]["dialect"] == "sqlite" and "main" not in case["src"]["schemas"]:
        return False
    for t in dst["tables"]:
        # index names are unique per schema, not per table
        for ix in t["indexes"] + t["uniques"] + t["fks"]:
            if ix.get("name"):
                ix["name"] = f"d_{ix['name']}_{abs(hash_of(tkey(t)))}"
    dst["same"] = True
    # one SQLite file cannot be read and written by two connections without WAL
    case["src"]["wal"] = True
    return True


def hash_of(text):
    import zlib

    return zlib.crc32(text.encode())


def rng_of(case, *what):
    return gen.rng_for(case["seed"], *what)


def step_faults(case, ctx, inst, i, **kw):
    """The faults of run i: drawn once against a dry run, part of the case afterwards."""
    if case.get("history") is None:
        case["history"] = []
    while len(case["history"]) <= i:
        counts, _, _ = scen.dry_counts(ctx, inst, case)
        rng = rng_of(case, "faults", len(case["history"]))
        case["history"].append(scen.draw_faults(rng, counts, run=len(case["history"]), **kw))
    return case["history"][i]


def merge_mode(case, rng, repeat=(1, 1, 2)):
    strip_uniques(case)
    case["config"]["dest"]["merge"] = True
    case["truncate"] = False
    case["repeat"] = rng.choice(repeat)


def keyed_by_passthrough(case):
    """A merged table whose key is itself a reference to a passthrough table: its key cannot be
    both shifted and unchanged."""
    pas = set(case["config"]["planner"].get("passthrough", ()))
    lv = Levels(case).planned()
    tabs = tables_of(case)
    keys = {n: set(tabs[n]["pk"]) for n in lv if n not in pas}
    return any(f.table in keys and set(f.cols) & keys[f.table] and f.ref in pas
               for f in model.planner_fks(case))


def no_dir(**kw):
    kw.setdefault("dst", DB)
    return kw


def fk_off(case, rng, p=0.65):
    """Destination whose keys are declared but (mostly) not enforced."""
    off = rng.random() < p
    case["knobs"]["dst_fk_off"] = off
    case["knobs"]["dst_fk_enforce"] = not off
    return off


def rows_key(rows):
    return collections.Counter(json.dumps(r, sort_keys=True, default=str) for r in rows)


def gone(before, now):
    """Rows (with multiplicity) of a table that are no longer there."""
    return list((rows_key(before) - rows_key(now)).elements())


# ------------------------------------------------------------------------------ C04
class C04(Check):
    id = "C04"
    rule = ("random worlds (key enforcement mostly off) with valid prior rows, truncation, "
            "merging, skipping, replacing, dependants, 0-2 failing or killed runs before a clean "
            "one; every destination commit examined; non-trivial: at least three commits and one "
            "reference between output rows")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "truncate", "truncate", "merge", "skip", "replace", "create",
                           "compact", "mult"])
        kw = no_dir(tables=(2, 8), rows=(1, 10), fks=(0, 3), create=0.0, truncate=0.0,
                    undeclared=0.05)
        if mode in ("merge", "mult", "compact"):
            kw.update(pk={"int": 8, "composite": 2 if mode != "compact" else 1, "shared": 1,
                          "none": 1}, undeclared=0.0, pk_values={"small": 4, "gap": 3},
                      unique_ref=0.1 if mode == "compact" else 0.0, unique_tag=0.0)
        if mode == "create":
            kw.update(create=1.0)
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        fk_off(case, rng)
        dest = case["config"]["dest"]
        if mode in ("truncate", "merge", "skip", "replace", "mult"):
            add_prior(rng, case, overlap=rng.choice([0.0, 0.3, 0.6]), fresh=(0, 4))
        if mode == "truncate":
            case["truncate"] = True
            add_dependants(rng, case, rng.choice([0, 1, 2]))
        if mode == "merge":
            merge_mode(case, rng)
            if keyed_by_passthrough(case):
                case["config"]["planner"]["passthrough"] = []
                limit_dst_fks(case)
        if mode in ("skip", "replace"):
            dest["conflict_strategy"] = mode
        if mode == "compact":
            add_compaction(rng, case)
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        if mode == "mult":
            case["dst"]["data"] = {}
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["config"]["sampler"].pop("multiplicity")
        case["n_fail"] = rng.choice([0, 0, 1, 1, 2])
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        if inst.dst.fk_violations():
            return
        commits = 0
        off = case["knobs"].get("dst_fk_off")
        for i in range(case["n_fail"] + 1):
            faults = []
            if i < case["n_fail"]:
                faults = step_faults(case, ctx, inst, i)
            sim = ctx.sim(case, faults=faults, inst=inst)
            w = DstWatch(sim, inst, self.look)
            out = ctx.run(sim, inst, i)
            w.done("C04.dangling")
            commits += w.n
            clean = not sim.fired and (i == 0 or case["truncate"] or case["mode"] in (
                "skip", "replace"))
            if out.status != "ok" and clean and not off:
                err = (out.reason or "").lower()
                need("foreign key" not in err, "C04.enforced",
                     f"a failure-free run violates an enforced foreign key: {out.reason}")
            succeeded(out, sim, "C04", "IntegrityError")
        ctx.probe("commits", commits)
        fks = [f for f in model.declared_fks(case)]
        rows = inst.read_out()
        ctx.nontrivial = commits >= 3 and any(
            model.fkval(r, f.cols) is not None
            for f in fks if f.ref in rows for r in rows.get(f.table, ())
            if all(c in r for c in f.cols))

    @staticmethod
    def look(inst, where):
        bad = inst.dst.fk_violations()
        if bad:
            return (f"committed rows of {bad[0][0]} reference missing rows of {bad[0][1]} "
                    f"({len(bad)} rows)")
        return None


def add_dependants(rng, case, n, rows=(1, 4), unrelated=0, parents=0):
    """Destination tables that are not in the source: tables that reference output tables
    (directly or through one another), unrelated ones, and ones that output tables reference."""
    dst = case["dst"]
    data = dst.setdefault("data", {})
    d = dst["dialect"]
    planned = {remap_name(case, x) for x in Levels(case).planned()}
    extra = []

    def table(name, schema):
        return {"schema": schema, "name": name, "cols": [
            {"name": "id", "type": "int", "null": False, "autoinc": True},
            {"name": "tag", "type": "text", "null": False}], "pk": ["id"], "uniques": [],
            "fks": [], "indexes": [], "checks": []}

    refs = [t for t in dst["tables"] if tkey(t) in planned and t["pk"]]
    for i in range(n):
        cands = refs + [t for t in extra if t["name"].startswith("dep")]
        if not cands:
            break
        par = rng.choice(cands)
        schemas = [par["schema"]] if d == "sqlite" else dst["schemas"]
        t = table(f"dep_{i}", rng.choice(schemas))
        cols = []
        for j, c in enumerate(par["pk"]):
            typ = next(x["type"] for x in par["cols"] if x["name"] == c)
            t["cols"].append({"name": f"d{j}", "type": typ, "null": True})
            cols.append(f"d{j}")
        t["fks"].append({"name": f"fk_dep_{i}", "cols": cols,
                         "ref": [par["schema"], par["name"]], "rcols": list(par["pk"])})
        rows_ = []
        prior = data.get(tkey(par), [])
        for r in range(rng.randint(*rows)):
            row = {"id": r + 1, "tag": f"dep|{i}:{r}"}
            pick = rng.choice(prior) if prior and rng.random() < 0.8 else None
            for c, pc in zip(cols, par["pk"]):
                row[c] = pick[pc] if pick else None
            rows_.append(row)
        extra.append(t)
        data[tkey(t)] = rows_
    for i in range(unrelated):
        t = table(f"other_{i}", rng.choice(dst["schemas"]))
        extra.append(t)
        data[tkey(t)] = [{"id": r, "tag": f"other|{i}:{r}"} for r in range(rng.randint(1, 4))]
    for i in range(parents):
        cands = [t for t in dst["tables"] if tkey(t) in planned]
        if not cands:
            break
        child = rng.choice(cands)
        t = table(f"look_{i}", child["schema"] if d == "sqlite" else rng.choice(dst["schemas"]))
        c = f"look{i}"
        child["cols"].append({"name": c, "type": "int", "null": True})
        child["fks"].append({"name": f"fk_look_{i}", "cols": [c],
                             "ref": [t["schema"], t["name"]], "rcols": ["id"]})
        data[tkey(t)] = [{"id": r + 1, "tag": f"look|{i}:{r}"} for r in range(rng.randint(1, 4))]
        for r in data.get(tkey(child), ()):
            r[c] = rng.choice([None, data[tkey(t)][0]["id"]])
        extra.insert(0, t)
    dst["tables"] = extra + dst["tables"] if parents else dst["tables"] + extra
    dst["schemas"] = sorted(set(dst["schemas"]) | {t["schema"] for t in extra})
    return extra


# ------------------------------------------------------------------------------ C05
class C05(Check):
    id = "C05"
    rule = ("one or two faults (failing, cut or unacknowledged statements, fetches, commits, "
            "connections and writes) at random operations of a run; success is accepted only "
            "with exactly the called-for output; non-trivial: a fault fired")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "plain", "plain", "merge", "repeat", "compact", "mult",
                           "missing"])
        kw = dict(tables=(1, 6), rows=(1, 12),
                  dst={"same": 6, "sqlite": 1, "postgresql": 1, "mysql": 1, "dir": 4})
        if mode in ("merge", "compact", "mult"):
            kw.update(pk={"int": 8, "composite": 1, "none": 1}, undeclared=0.0, ignore_fk=0.0,
                      unique_ref=0.0, unique_tag=0.0, pk_values={"small": 4, "gap": 3})
        if mode == "merge":
            kw.update(pk={"int": 8, "none": 1}, dst=DB, create=0.0)
        if mode == "missing":
            kw.update(dst=DB, create=0.0)
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        if mode == "merge":
            merge_mode(case, rng, (1,))
            add_prior(rng, case, overlap=0.3)
        if mode == "repeat":
            case["driver"] = "api"
            case["repeat"] = 2
            if db_dst(case):
                case["truncate"] = True
        if mode == "compact":
            add_compaction(rng, case)
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        if mode == "mult":
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["config"]["sampler"].pop("multiplicity")
        if mode == "missing":
            planned = sorted(remap_name(case, n) for n in Levels(case).planned())
            gone_ = rng.choice(planned)
            case["dst"]["tables"] = [t for t in case["dst"]["tables"] if tkey(t) != gone_]
            for t in case["dst"]["tables"]:
                t["fks"] = [f for f in t["fks"] if ".".join(f["ref"]) != gone_]
            case["missing"] = gone_
        case["tries"] = 3 if mode != "missing" else 1
        return case

    def execute(self, case, ctx):
        base = ctx.build(case)
        src = scen.src_rows(base, case)
        before = base.read_out() if db_dst(case) else {}
        if case["mode"] == "missing":
            sim = ctx.sim(case, inst=base)
            out = ctx.run(sim, base)
            need(out.status != "ok", "C05.missing",
                 f"success although the planned table {case['missing']} does not exist")
            ctx.nontrivial = True
            return
        for i in range(case["tries"]):
            inst = ctx.clone(base)
            faults = [dict(f, run=i) for f in step_faults(case, ctx, base, i, crash=0.05)]
            sim = ctx.sim(case, faults=faults, inst=inst)
            out = ctx.run(sim, inst, i)
            need(out.status != "hang", "C05.hang", f"the run does not end: {out.error}")
            if sim.fired:
                ctx.nontrivial = True
            if not succeeded(out, sim, "C05"):
                continue
            ctx.probe("survived" if sim.fired else "no_fault")
            try:
                rows = inst.read_out()
            except ValueError as exc:
                raise Violation("C05.incomplete", f"success with unreadable output: {exc}") from exc
            if case["mode"] == "merge":
                rows, lost = oracle.new_rows(before, rows)
                need(not lost, "C05.incomplete", f"success with rows lost: {str(lost)[:300]}")
                p = merge_problems(case, src, before, split_planned(case, rows))
            else:
                p = oracle.content_problems(case, src, split_planned(case, rows))
            need(not p, "C05.incomplete",
                 f"success reported after {sim.fired} but: {'; '.join(p[:3])}")


# ------------------------------------------------------------------------------ C06
class C06(Check):
    id = "C06"
    rule = ("1-3 failing or killed runs, then a clean one, with truncation (over arbitrary prior "
            "rows), skip or replace into an empty destination, directory output or create; the "
            "result is compared with the called-for output; non-trivial: an interrupted run had "
            "written something")

    def generate(self, rng, index, tier):
        mode = rng.choice(["truncate", "truncate", "skip", "replace", "dir"])
        kw = dict(tables=(1, 7), rows=(1, 12), dst={"dir": 1} if mode == "dir" else DB,
                  truncate=0.0, create=0.3 if mode != "dir" else 0.0)
        if mode in ("skip", "replace"):
            kw.update(pk={"int": 10, "composite": 2, "text": 1, "shared": 1})
        x = rng.random()
        if x < 0.3:
            kw["unique_ref"] = 0.0
        case = base_case(rng, **kw)
        case["mode"] = mode
        scen.make_deterministic(case)
        limit_dst_fks(case)
        if mode == "truncate":
            case["truncate"] = True
            if not case["create"]:
                add_prior(rng, case, overlap=rng.choice([0.0, 0.4]))
        elif mode != "dir":
            case["config"]["dest"]["conflict_strategy"] = mode
        if x < 0.15 and not any(u["cols"] == ["u"] for t in case["src"]["tables"]
                                for u in t["uniques"]):
            add_compaction(rng, case)
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        elif x < 0.3:
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["config"]["sampler"].pop("multiplicity")
        case["n_fail"] = rng.choice([1, 1, 2, 3])
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        src = scen.src_rows(inst, case)
        start = total(inst.read_out())
        wrote = False
        for i in range(case["n_fail"]):
            faults = step_faults(case, ctx, inst, i, crash=0.5)
            sim = ctx.sim(case, faults=faults, inst=inst)
            ctx.run(sim, inst, i)
            try:
                wrote = wrote or total(inst.read_out()) != start
            except ValueError:
                wrote = True
        n = case["n_fail"]
        sim = ctx.sim(case, inst=inst)
        out = ctx.run(sim, inst, n)
        if out.status != "ok":
            # what an uninterrupted run on a fresh copy does is the reference
            fresh = ctx.build(case)
            clean = ctx.sim(case, inst=fresh)
            ref = ctx.run(clean, fresh, n)
            succeeded(ref, clean, "C06")
            need(ref.status != "ok", "C06.failed",
                 f"the run after the interrupted ones fails: {out.error}")
            return
        try:
            rows = inst.read_out()
        except ValueError as exc:
            raise Violation("C06.differs", f"unreadable output: {exc}") from exc
        p = oracle.content_problems(case, src, split_planned(case, rows))
        need(not p, "C06.differs", f"after {n} interrupted runs: {'; '.join(p[:3])}")
        ctx.nontrivial = wrote


# ------------------------------------------------------------------------------ C07
class C07(Check):
    id = "C07"
    rule = ("every driver (plan only, sample, subset), shared or separate servers, tables named "
            "like temporary ones, faults and kills; the source's rows and catalogue compared "
            "after every commit on it; non-trivial: a run executed statements on the source")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "shared", "shared", "compact", "merge"])
        kw = dict(tables=(1, 7), rows=(1, 10), driver={"api": 4, "cli-subset": 2,
                                                       "cli-plan-sample": 2})
        if mode == "shared":
            kw.update(dst={"same": 1}, remap=1.0, create=0.4)
        if mode in ("compact", "merge"):
            kw.update(pk={"int": 8, "none": 1}, undeclared=0.0, ignore_fk=0.0, unique_ref=0.0,
                      unique_tag=0.0, pk_values={"small": 4, "gap": 3}, dst=DB, create=0.0)
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        if mode == "compact":
            add_compaction(rng, case)
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        if mode == "merge":
            merge_mode(case, rng, (1, 2))
        if mode == "shared":
            if db_dst(case) and not case["create"]:
                add_prior(rng, case, overlap=0.3)
                case["truncate"] = rng.random() < 0.7
                if not case["truncate"]:
                    case["config"]["dest"]["conflict_strategy"] = "skip"
            share_server(case)
        if rng.random() < 0.4:
            self.decoys(rng, case)
        case["n_fail"] = rng.choice([0, 1, 1])
        return case

    @staticmethod
    def decoys(rng, case):
        """Tables of other users named like the sampler's temporary tables."""
        src = case["src"]
        sel = case["config"]["planner"]["select"]
        names = [tkey(t) for t in src["tables"]]
        if any("*" in s for s in sel):
            case["config"]["planner"]["select"] = [gen.glob.escape(n) for n in names]
        new = []
        for t in list(src["tables"]):
            if rng.random() < 0.5:
                continue
            base = "".join(ch for ch in t["name"] if ch.isalnum())[:40] or "anon"
            name = "_sbsttr_" + base + rng.choice(["", "", "_1"])
            if any(x["name"] == name for x in src["tables"] + new):
                continue
            new.append({"schema": t["schema"], "name": name, "cols": [
                {k: v for k, v in c.items() if k != "computed"} for c in copy.deepcopy(t["cols"])],
                "pk": list(t["pk"]), "uniques": [], "fks": [], "indexes": [], "checks": [],
                "xfks": []})
            case["data"][f"{t['schema']}.{name}"] = [
                {**r, "tag": "decoy|" + r["tag"]} for r in case["data"][tkey(t)][:3]]
        src["decoys"] = [tkey(t) for t in new]
        src["tables"] = src["tables"] + new

    def execute(self, case, ctx):
        inst = ctx.build(case)
        names = [(t["schema"], t["name"]) for t in case["src"]["tables"]]
        shared = inst.dst is inst.src
        # with a shared server only the source's own tables are protected
        schemas = {s for s, _ in names}
        mapped = {tuple(remap_name(case, f"{s}.{n}").split(".", 1)) for s, n in names}

        def state():
            rows = {f"{s}.{n}": inst.src.rows(s, n) for s, n in names}
            cat = inst.src.catalog()
            tabs = {f"{s}.{n}" for s, n in inst.src.tables()}
            if shared:
                own = {f"{s}.{n}" for s, n in names}
                cat = {k: v for k, v in cat.items() if k in own or k.split(":", 1)[-1] in own}
                keep = own | {f"{s}.{n}" for s, n in mapped}
                extra = sorted(t for t in tabs - keep if t not in tabs0)
                return rows, cat, extra
            return rows, cat, sorted(tabs)

        tabs0 = {f"{s}.{n}" for s, n in inst.src.tables()}
        first = state()
        for i in range(case["n_fail"] + 1):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            sim = ctx.sim(case, faults=faults, inst=inst)
            w = _SrcWatch(sim, state, first, shared)
            out = ctx.run(sim, inst, i)
            w.look("the end of the run")
            need(w.problem is None, "C07.modified", w.problem or "")
            succeeded(out, sim, "C07", "IntegrityError")
            if sim.op_totals.get("src.exec"):
                ctx.nontrivial = True
        _ = schemas


class _SrcWatch:
    def __init__(self, sim, state, first, shared):
        self.state, self.first, self.shared = state, first, shared
        self.problem = None
        sim.listeners.append(self)

    def __call__(self, event, session=None, **kw):
        if event in ("committed", "created") and session is not None and self.problem is None:
            if session.role == "src" or self.shared:
                self.look("a commit on the source")

    def look(self, where):
        if self.problem is not None:
            return
        now = self.state()
        for i, what in enumerate(("rows", "catalogue", "tables")):
            if now[i] != self.first[i]:
                a, b = self.first[i], now[i]
                if isinstance(a, dict):
                    ks = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
                else:
                    ks = sorted(set(a) ^ set(b))
                self.problem = f"the source's {what} changed at {where}: {ks[:4]}"
                return


# ------------------------------------------------------------------------------ C08 / C09
MERGE = dict(undeclared=0.0, unique_ref=0.0, unique_tag=0.0, create=0.0, truncate=0.0, dst=DB,
             pk_values={"small": 4, "gap": 3, "big": 1})


class C08(Check):
    id = "C08"
    rule = ("1-3 merges into a destination with prior rows, failing or killed at random points; "
            "prior rows compared at every destination commit; non-trivial: prior rows existed "
            "and a merge committed rows")

    def generate(self, rng, index, tier):
        strategy = rng.choice(["error", "error", "skip", "replace"])
        # replacing is only excluded for the keys that merge documents support for
        odd = strategy != "replace"
        case = base_case(rng, tables=(1, 7), rows=(1, 10), infer=0.05, passthrough=0.5,
                         ignore_fk=0.04,
                         pk={"int": 10, "composite": 2 * odd, "text": odd, "none": 1,
                             "shared": 2},
                         **{**MERGE, "pk_values": {"small": 4, "gap": 3, "neg": 1 * odd}})
        limit_dst_fks(case)
        merge_mode(case, rng, (1, 1, 2))
        add_prior(rng, case, overlap=rng.choice([0.2, 0.5, 0.9]), fresh=(0, 4))
        if rng.random() < 0.3:
            fk_off(case, rng, 0.5)
        case["config"]["dest"]["conflict_strategy"] = strategy
        x = rng.random()
        if x < 0.15:
            add_compaction(rng, case)
            comp = case["config"]["sampler"]["compact"]
            comp["start_key"] = max(0, comp.get("start_key", 1))
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        case["n_fail"] = rng.choice([0, 1, 1, 2])
        case["n_runs"] = case["n_fail"] + rng.choice([1, 1, 2])
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        have = 0
        for i in range(case["n_runs"]):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            before = inst.dst.dump()
            have += total(before)
            sim = ctx.sim(case, faults=faults, inst=inst)

            def look(inst_, where, before=before):
                now = inst_.dst.dump()
                for n, rows in before.items():
                    lost = gone(rows, now.get(n, []))
                    if lost:
                        return f"{n}: an existing row was changed or removed: {lost[0][:200]}"
                return None

            w = DstWatch(sim, inst, look)
            out = ctx.run(sim, inst, i)
            w.done("C08.altered")
            succeeded(out, sim, "C08", "IntegrityError")
            if have and total(inst.dst.dump()) > total(before):
                ctx.nontrivial = True


class C09(Check):
    id = "C09"
    rule = ("1-3 successful merges (also after failed ones) of random samples into destinations "
            "with prior rows; each merge's new rows compared with the reference; non-trivial: a "
            "merge added at least two rows")

    def generate(self, rng, index, tier):
        # tables whose keys are not shifted by themselves: once, past rows with other keys
        other = rng.random() < 0.15
        pk = {"int": 12, "none": 1, "shared": 1}
        if other:
            pk = {"int": 5, "text": 3, "composite": 3, "shared": 1}
        case = base_case(rng, all_pk=0.0, tables=(1, 7), rows=(1, 10), passthrough=0.4, infer=0.1,
                         ignore_fk=0.0, pk=pk, **MERGE)
        merge_mode(case, rng, (1,))
        if keyed_by_passthrough(case):
            case["config"]["planner"]["passthrough"] = []
        limit_dst_fks(case)
        if not other and rng.random() < 0.1:
            self.add_rivals(rng, case)
        add_prior(rng, case, overlap=0.0 if other else rng.choice([0.0, 0.3, 0.6]), fresh=(0, 4))
        if other:
            case["n_fail"], case["n_runs"] = 0, 1
            return case
        x = rng.random()
        if x < 0.15:
            add_compaction(rng, case)
            comp = case["config"]["sampler"]["compact"]
            comp["start_key"] = max(0, comp.get("start_key", 1))
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        elif x < 0.3 and not case.get("rival"):
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["config"]["sampler"].pop("multiplicity")
        case["n_fail"] = rng.choice([0, 0, 0, 1])
        case["n_runs"] = case["n_fail"] + rng.choice([1, 2, 3])
        if case.get("rival"):
            case["n_fail"], case["n_runs"] = 0, 2
        return case

    @staticmethod
    def add_rivals(rng, case):
        """Further unique keys, which the rows of a second merge have in common with those of
        the first: it cannot succeed."""
        pas = set(case["config"]["planner"].get("passthrough", ()))
        for k, t in enumerate(case["src"]["tables"]):
            if tkey(t) not in pas and rng.random() < 0.7:
                case["rival"] = True
                u = {"name": f"uq_rival_{k}", "cols": ["tag"]}
                t["uniques"].append(u)
                d = dst_of(case).get(tkey(t))
                if d is not None:
                    d["uniques"].append(dict(u))

    def execute(self, case, ctx):
        inst = ctx.build(case)
        src = scen.src_rows(inst, case)
        for i in range(case["n_runs"]):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            before = inst.read_out()
            sim = ctx.sim(case, faults=faults, inst=inst)
            out = ctx.run(sim, inst, i)
            if out.status != "ok":
                need(sim.fired or case.get("rival") and i, "C09.failed",
                     f"a failure-free merge fails: {out.error}")
                continue
            rows, lost = oracle.new_rows(before, inst.read_out())
            need(not lost, "C09.merge", f"merge {i}: existing rows changed: {str(lost)[:300]}")
            p = merge_problems(case, src, before, split_planned(case, rows))
            need(not p, "C09.merge", f"merge {i}: {'; '.join(p[:3])}")
            if total(rows) > 1:
                ctx.nontrivial = True


# ------------------------------------------------------------------------------ C12
class C12(Check):
    id = "C12"
    rule = ("error, skip and replace over prior rows with the same keys, with omitted and "
            "nulled columns, batches of random sizes, repeated, failing and killed runs; every "
            "destination commit and the end compared with the reference; non-trivial: a sampled "
            "row met an existing one")

    def generate(self, rng, index, tier):
        mode = rng.choice(["error", "skip", "skip", "replace", "replace"])
        rival = rng.random() < 0.15
        case = base_case(rng, tables=(1, 5), rows=(1, 12), dst=DB, create=0.0, truncate=0.0,
                         pk={"int": 10, "composite": 2, "text": 1, "shared": 1, "none": 1},
                         all_pk=0.2 * (not rival),
                         **({"unique_tag": 0.8} if rival else {}))
        case["mode"] = mode
        scen.make_deterministic(case)
        limit_dst_fks(case)
        if any(not t["pk"] for t in case["src"]["tables"]):
            # rows without a key meet nothing: every run adds them
            refd = {".".join(f["ref"]) for t in case["src"]["tables"]
                    for f in t["fks"] + t["xfks"]}
            free = [tkey(t) for t in case["src"]["tables"]
                    if not t["pk"] and tkey(t) not in refd]
            for t in case["src"]["tables"] + case["dst"]["tables"]:
                if t.get("of", tkey(t)) in free or tkey(t) in free:
                    t["uniques"] = []
                    t["indexes"] = [{**ix, "unique": False} for ix in t["indexes"]]
            if mode != "error" and any(
                    not t["pk"] and tkey(t) not in free for t in case["src"]["tables"]):
                case["rival"] = True
        only = [tkey(t) for t in case["src"]["tables"] if len(t["pk"]) == len(t["cols"])]
        only = only if rng.random() < 0.6 else None
        if only:
            # nothing meets an existing row but rows that are nothing but their key
            for t in case["dst"]["tables"]:
                t["fks"] = [f for f in t["fks"] if t["of"] not in only]
        add_prior(rng, case, overlap=rng.choice([0.15, 0.5, 0.9]), fresh=(rival, 4),
                  only=only or None)
        case["config"]["dest"]["conflict_strategy"] = mode
        if rng.random() < 0.5:
            fs = {}
            for n in sorted(Levels(case).planned()):
                t = tables_of(case)[n]
                opts = [c["name"] for c in t["cols"]
                        if (c["name"] in ("v", "s") or c["name"].startswith("x_"))
                        and c.get("null", True) and not c.get("computed")]
                used = {c for x in case["src"]["tables"] for f in x["fks"] + x["xfks"]
                        for c in f["cols"] if tkey(x) == n}
                used |= {c for u in t["uniques"] for c in u["cols"]}
                used |= {c for u in t["indexes"] if u["unique"] for c in u["cols"]}
                opts = [c for c in opts if c not in used]
                if opts and rng.random() < 0.6:
                    fs[n] = [{"op": "omit", "columns": rng.sample(opts, rng.randint(1, len(opts)))}]
            if fs:
                case["config"]["sampler"]["filters"] = fs
        # (MySQL's ON DUPLICATE KEY UPDATE takes any unique key for the row's key)
        if rival and not (mode == "replace" and case["dst"]["dialect"] == "mysql"):
            self.add_rival(rng, case)
        case["n_fail"] = rng.choice([0, 0, 1, 2]) if mode != "error" else rng.choice([0, 1])
        case["n_runs"] = case["n_fail"] + rng.choice([1, 1, 2])
        return case

    @staticmethod
    def add_rival(rng, case):
        """An existing row with a key of its own that has another unique value in common with
        a source row."""
        dst = dst_of(case)
        cands = []
        for n, t in tables_of(case).items():
            if n not in dst or not t["pk"] or not case["data"][n]:
                continue
            rows = case["dst"]["data"].get(tkey(dst[n]), [])
            keys = {tuple(r[c] for c in t["pk"]) for r in case["data"][n]}
            used = {c for x in case["dst"]["tables"] for f in x["fks"]
                    for c in (f["cols"] if x is dst[n] else f["rcols"])}
            for u in t["uniques"] + [x for x in t["indexes"] if x["unique"]]:
                if set(u["cols"]) & (used | set(t["pk"])):
                    continue
                for r in rows:
                    if tuple(r[c] for c in t["pk"]) not in keys:
                        cands.append((n, rows, r, u["cols"]))
        if not cands:
            return
        rng.shuffle(cands)
        for n, rows, r, cols in cands[:3]:
            src = rng.choice(case["data"][n])
            val = tuple(src[c] for c in cols)
            new = {**r, **dict(zip(cols, val))}
            t = tables_of(case)[n]
            if None in val or any(
                    x is not r and tuple(x[c] for c in u["cols"]) == tuple(new[c] for c in u["cols"])
                    for x in rows for u in t["uniques"] + t["indexes"] if u.get("unique", True)):
                continue
            r.update(new)
            case["rival"] = n

    def execute(self, case, ctx):
        mode = case["mode"]
        # the reference: what the configuration outputs into an empty destination
        empty = dict(case, dst=dict(case["dst"], data={}), config=copy.deepcopy(case["config"]))
        empty["config"]["dest"].pop("conflict_strategy")
        ref = ctx.build(empty)
        src = scen.src_rows(ref, case)
        sim = ctx.sim(empty, inst=ref)
        out = ctx.run(sim, ref, 99)
        if not succeeded(out, sim, "C12"):
            return
        sample = split_planned(case, ref.read_out())
        sample = {n: [{c: v for c, v in r.items() if c not in oracle.omitted(case, n)}
                      for r in rows] for n, rows in sample.items()}
        if oracle.content_problems(case, src, sample):
            return  # C02's business
        sample = {n: [{**dict.fromkeys(oracle.omitted(case, n)), **r} for r in rows]
                  for n, rows in sample.items()}
        inst = ctx.build(case)
        start = inst.read_out()
        want = {}
        tabs = tables_of(case)
        met = False
        for n, rows in start.items():
            res = [dict(r) for r in rows]
            pk = tabs[n]["pk"]
            drop = oracle.omitted(case, n)
            index = {tuple(r[c] for c in pk): r for r in res} if pk else {}
            for r in sample.get(n, ()):
                k = tuple(r[c] for c in pk)
                old = index.get(k) if pk else None
                if old is None:
                    res.append(dict(r))
                    continue
                met = True
                if mode == "replace":
                    old.update({c: v for c, v in r.items() if c not in drop})
            want[n] = res
        for n, rows in want.items():
            self.recompute(case, n, rows)

        def look(inst_, where):
            now = inst_.read_out()
            for n, rows in start.items():
                ok = rows_key(want[n]) if mode != "error" else None
                cur = rows_key(now.get(n, []))
                old = rows_key(rows)
                if not tabs[n]["pk"]:
                    lost = old - cur
                    if lost:
                        return f"{n}: an existing row was changed: {list(lost)[0][:200]}"
                    added = cur - old
                    if mode != "error" and set(added) - set(rows_key(sample.get(n, []))):
                        return f"{n}: unexpected row {list(added)[0][:200]}"
                elif mode == "replace":
                    # every row is the old one or its replacement, or a new one
                    extra = cur - old - ok
                    if extra:
                        return f"{n}: unexpected row {list(extra)[0][:200]}"
                    pk = tabs[n]["pk"]
                    if pk:
                        have = {tuple(r[c] for c in pk) for r in now[n]}
                        if not {tuple(r[c] for c in pk) for r in rows} <= have:
                            return f"{n}: an existing row is gone"
                        if len(have) != len(now[n]):
                            return f"{n}: two rows have one key"
                else:
                    lost = old - cur
                    if lost:
                        return f"{n}: an existing row was changed: {list(lost)[0][:200]}"
                    if mode == "skip" and cur - ok:
                        return f"{n}: unexpected row {list((cur - ok).elements())[0][:200]}"
                    # (without a key nothing keeps the next run from adding the rows again)
                    times = 1 if tabs[n]["pk"] else case["n_runs"]
                    if mode == "error" and cur - old - rows_key(sample.get(n, []) * times):
                        return f"{n}: unexpected row"
            return None

        for i in range(case["n_runs"]):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            held = inst.read_out()
            sim = ctx.sim(case, faults=faults, inst=inst)
            w = DstWatch(sim, inst, look)
            out = ctx.run(sim, inst, i)
            w.done(f"C12.{mode}")
            if mode == "error":
                if i == 0 and met:
                    need(out.status != "ok", "C12.error",
                         "success although a sampled row met an existing one")
                continue
            if case.get("rival"):
                # whether the row that meets another's unique value is refused or skipped is
                # the server's matter; no row may change because of it
                ctx.probe("rival_" + out.status)
                continue
            if out.status == "ok":
                now = inst.read_out()
                for n, rows in sorted(want.items()):
                    if not tabs[n]["pk"]:
                        was = rows_key(held[n]) + rows_key(sample.get(n, []))
                        need(rows_key(now.get(n, [])) == was, f"C12.{mode}",
                             f"{n}: rows without a key were not all added")
                        continue
                    miss, extra = oracle.diff_rows(rows, now.get(n, []))
                    need(not miss and not extra, f"C12.{mode}",
                         f"{n}: expected {miss[:2]} got {extra[:2]}")
            elif not sim.fired:
                raise Violation(f"C12.{mode}", f"a failure-free run fails: {out.error}")
        ctx.nontrivial = met

    @staticmethod
    def recompute(case, n, rows):
        """Computed columns of the destination follow the other columns of the row."""
        for c in dst_of(case)[n]["cols"]:
            if c.get("computed"):
                for r in rows:
                    r[c["name"]] = None if r["v"] is None else r["v"] + 1


# ------------------------------------------------------------------------------ C13
class C13(Check):
    id = "C13"
    rule = ("destinations with prior rows in output tables, direct and indirect dependants, "
            "unrelated and referenced tables in several schemas; with and without truncate; "
            "failing and killed runs; non-trivial: rows had to be removed, or had to stay")

    def generate(self, rng, index, tier):
        case = base_case(rng, tables=(1, 6), rows=(0, 10), dst=DB, create=0.1, truncate=0.75,
                         multi_schema=0.5)
        limit_dst_fks(case)
        if not case["create"]:
            add_prior(rng, case, overlap=rng.choice([0.2, 0.5]), fresh=(0, 4))
        add_dependants(rng, case, rng.choice([0, 1, 2, 4]), unrelated=rng.choice([0, 1, 2]),
                       parents=rng.choice([0, 0, 1, 2]))
        if not case["truncate"]:
            case["config"]["dest"]["conflict_strategy"] = "skip"
        fk_off(case, rng, 0.5)
        case["n_fail"] = rng.choice([0, 0, 1, 1, 2])
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        planned = {remap_name(case, n) for n in Levels(case).planned()}
        cleared = set(planned)
        while True:
            more = {tkey(t) for t in case["dst"]["tables"]
                    if any(".".join(f["ref"]) in cleared for f in t["fks"])} - cleared
            if not more:
                break
            cleared |= more
        before = inst.dst.dump()
        trunc = case["truncate"]
        keep = {n: rows for n, rows in before.items() if not trunc or n not in cleared}

        def look(inst_, where):
            now = inst_.dst.dump()
            for n, rows in keep.items():
                lost = gone(rows, now.get(n, []))
                if lost:
                    return f"{n}: a row that truncate has no claim to is gone: {lost[0][:200]}"
                if n not in planned and len(now[n]) != len(rows):
                    return f"{n}: rows were added to a table that is not written"
            return None

        for i in range(case["n_fail"] + 1):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            sim = ctx.sim(case, faults=faults, inst=inst)
            w = DstWatch(sim, inst, look)
            out = ctx.run(sim, inst, i)
            w.done("C13.kept")
            if succeeded(out, sim, "C13", "IntegrityError") and trunc:
                now = inst.dst.dump()
                for n in sorted(cleared):
                    old = [r for r in now.get(n, ()) if str(r.get("tag", "")).startswith(
                        ("old|", "dep|")) or n not in planned]
                    need(not old, "C13.survived",
                         f"{n}: {len(old)} prior rows survived truncation: {str(old[:1])[:200]}")
        ctx.nontrivial = any(rows for n, rows in before.items())


# ------------------------------------------------------------------------------ C14
class C14(Check):
    id = "C14"
    rule = ("PostgreSQL destinations with prior rows and advanced sequences; repeated, merging, "
            "skipping, failing and killed runs, several through one connection; sequences "
            "compared after every advance and success; non-trivial: a table with a sequence was "
            "written")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "merge", "merge", "skip", "replace", "truncate", "create",
                           "mult", "compact"])
        kw = dict(tables=(1, 6), rows=(1, 10), autoinc=0.95, odd_names=0.15,
                  dst={"postgresql": 1}, src={"postgresql": 5, "sqlite": 2, "mysql": 1},
                  create=0.0, truncate=0.0, pk={"int": 10, "composite": 1, "none": 1, "shared": 1},
                  pk_values={"small": 4, "gap": 3, "big": 1})
        if mode in ("merge", "mult"):
            kw.update({k: v for k, v in MERGE.items() if k not in ("dst", "create", "truncate")})
            kw.update(pk={"int": 10, "none": 1})
        if mode == "create":
            kw.update(create=1.0, create_missing="all")
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        if mode not in ("create", "mult"):
            add_prior(rng, case, overlap=0.3, fresh=(0, 4))
        case["seqs_from_data"] = True
        if mode in ("skip", "replace"):
            case["config"]["dest"]["conflict_strategy"] = mode
        elif mode == "merge":
            merge_mode(case, rng, (1, 2))
        elif mode == "mult":
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["config"]["sampler"].pop("multiplicity")
        elif mode == "compact":
            case["truncate"] = True
            add_compaction(rng, case)
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        elif mode != "create":
            case["truncate"] = True
            case["repeat"] = rng.choice([1, 2])
            if case["repeat"] == 2:
                case["driver"] = "api"
        case["advance"] = rng.choice([0, 0, 1, 40, 100000])
        case["n_fail"] = rng.choice([0, 0, 1])
        case["n_runs"] = case["n_fail"] + rng.choice([1, 1, 2]) if mode in (
            "merge", "skip", "replace", "truncate", "compact", "plain") else case["n_fail"] + 1
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        srv = inst.dst.server
        if case["advance"]:
            rng = rng_of(case, "advance")
            for k in sorted(srv.seqs):
                if rng.random() < 0.6:
                    st = srv.seqs[k]
                    st[0], st[1] = st[0] + case["advance"], True
        planned = {remap_name(case, n) for n in Levels(case).planned()}
        low = {}
        problem = []

        def nxt(st):
            return st[0] + 1 if st[1] else st[0]

        def listen(event, key=None, state=None, how=None, **kw):
            if event != "sequence" or problem:
                return
            v = nxt(state)
            k = tuple(key)
            if k in low and v < low[k]:
                problem.append(f"sequence of {'.'.join(k)} moved back from {low[k]} to {v}")
            low[k] = max(v, low.get(k, v))

        for i in range(case["n_runs"]):
            for k, st in srv.seqs.items():
                low[tuple(k)] = nxt(st)
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            sim = ctx.sim(case, faults=faults, inst=inst)
            sim.listeners.append(listen)
            before = {n: len(r) for n, r in inst.dst.dump().items()}
            out = ctx.run(sim, inst, i)
            need(not problem, "C14.back", "; ".join(problem))
            for k, st in srv.seqs.items():
                need(nxt(st) >= low.get(tuple(k), 0), "C14.back",
                     f"sequence of {'.'.join(k)} ended at {nxt(st)}, was at {low.get(tuple(k))}")
            if not succeeded(out, sim, "C14", "IntegrityError"):
                continue
            for (s, t, c), st in sorted(srv.seqs.items()):
                if f"{s}.{t}" not in planned:
                    continue
                rows = inst.dst.rows(s, t)
                keys = [r[c] for r in rows if isinstance(r[c], int)]
                if keys:
                    need(nxt(st) > max(keys), "C14.behind",
                         f"{s}.{t}.{c}: the sequence gives {nxt(st)} next, but key {max(keys)} "
                         "exists")
                if len(rows) != before.get(f"{s}.{t}", 0):
                    ctx.nontrivial = True


# ------------------------------------------------------------------------------ C22
class C22(Check):
    id = "C22"
    unknown_names = False
    rule = ("valid worlds with prior destination rows and truncate, made invalid in one of 20 "
            "ways, run through the API and the command line, sometimes with other clients or "
            "faults; non-trivial: the run was refused with prior rows in place")

    def generate(self, rng, index, tier):
        for _ in range(20):
            kind = rng.choice(sorted(INVALID))
            kw = dict(tables=(2, 6), rows=(1, 8), dst=DB, create=0.0, truncate=1.0,
                      passthrough=0.5, ignore=0.0)
            kw.update(INVALID[kind][0])
            case = base_case(rng, **kw)
            limit_dst_fks(case)
            add_prior(rng, case, overlap=0.5, fresh=(1, 4))
            case["kind"] = kind
            if INVALID[kind][1](rng, case) is not False:
                return case
        case["kind"] = None
        return case

    def execute(self, case, ctx):
        if case["kind"] is None:
            return
        inst = ctx.build(case)
        before = inst.dst.dump()
        cat = inst.dst.catalog()
        sim = ctx.sim(case, inst=inst)
        bad = []

        def look(inst_, where):
            return None if inst_.dst.dump() == before else (
                f"the destination changed although the configuration is invalid ({case['kind']})")

        w = DstWatch(sim, inst, look)
        out = ctx.run(sim, inst)
        w.done("C22.touched")
        need(inst.dst.catalog() == cat, "C22.touched",
             f"the destination's tables changed ({case['kind']})")
        need(out.status in ("error",), "C22.accepted",
             f"an invalid configuration was accepted ({case['kind']})")
        if out.rc is not None:
            need(out.rc != 0, "C22.status", f"exit status {out.rc} ({case['kind']})")
        ctx.nontrivial = total(before) > 0
        ctx.probe(f"kind_{case['kind']}")
        _ = bad


def _planned_list(case):
    return sorted(Levels(case).planned())


def inv_filter_column(rng, case):
    n = rng.choice(_planned_list(case))
    case["config"]["sampler"]["filters"] = {n: [{"op": rng.choice(["null", "zero", "omit"]),
                                                 "columns": ["v", "no_such"][rng.randint(0, 1):]
                                                 + ["no_such"]}]}


def inv_dst_column(rng, case):
    """A destination table without a column that is to be written."""
    dst = dst_of(case)
    names = _planned_list(case)
    rng.shuffle(names)
    for n in names:
        t = dst.get(n)
        if t is None or t["checks"] or any(c["name"] == "cmp" for c in t["cols"]):
            continue
        used = set(t["pk"]).union(*([k["cols"] for k in t["uniques"] + t["indexes"] + t["fks"]]
                                    + [[]]))
        cand = [c["name"] for c in t["cols"] if c["name"] not in used
                and not any(tuple(f["ref"]) == (t["schema"], t["name"]) and c["name"] in f["rcols"]
                            for x in case["dst"]["tables"] for f in x["fks"])]
        if not cand:
            continue
        col = rng.choice(cand)
        t["cols"] = [c for c in t["cols"] if c["name"] != col]
        for row in case["dst"]["data"].get(tkey(t), ()):
            row.pop(col, None)
        return None
    return False


def inv_filter_op(rng, case):
    n = rng.choice(_planned_list(case))
    case["config"]["sampler"]["filters"] = {n: [{"op": "shred", "columns": ["s"]}]}


def inv_filter_args(rng, case):
    """A filter that cannot be built for the columns it names; on its own or within a chain."""
    n = rng.choice(_planned_list(case))
    bad = rng.choice([
        {"op": "constant", "columns": ["s"], "values": ["a", "b"]},
        {"op": "constant", "columns": ["s", "v"], "values": ["a"]},
        {"op": "constant", "columns": ["s"], "values": []},
        {"op": "null", "columns": []},
        {"op": "zero", "columns": ["v", "v"]},
        {"op": "random_string", "columns": ["s"], "length": 5, "alphabet": "custom"},
        {"op": "random_string", "columns": ["s"], "length": 5, "alphabet": "custom",
         "custom_alphabet": ""},
        {"op": "multiplex", "column": "no_such", "conditions": [
            {"op": "is", "value": None, "apply": {"op": "null", "columns": ["s"]}}]},
        {"op": "multiplex", "column": "v", "conditions": [
            {"op": "is", "value": None, "apply": {"op": "omit", "columns": ["s"]}}]},
        {"op": "multiplex", "column": "v", "conditions": [
            {"op": "=", "value": 1, "apply": {"op": "null", "columns": ["s"]}},
            {"op": "is", "value": None, "apply": {"op": "null", "columns": ["no_such"]}}]},
        {"op": "fake_color", "columns": ["s", "s"]},
        {"op": "constant", "columns": ["s", "s"], "values": ["a", "b"]},
    ])
    chain = [bad]
    if rng.random() < 0.3:
        chain.insert(rng.randint(0, 1), {"op": "zero", "columns": ["v"]})
    case["config"]["sampler"]["filters"] = {n: chain}


def inv_plugin(rng, case):
    n = rng.choice(_planned_list(case))
    case["config"]["sampler"]["filters"] = {n: [rng.choice([
        {"op": "plugin", "columns": ["s"], "module": "no_such_module_xyz", "class": "F"},
        {"op": "plugin", "columns": ["s"], "module": "json", "class": "NoSuchClass"},
    ])]}


def inv_remap(rng, case):
    if len(Levels(case).planned()) < 2:
        return False
    # the last rule sends two tables to one existing name
    dst = dst_of(case)
    a, b = rng.sample(_planned_list(case), 2)
    if a not in dst or b not in dst:
        return False
    ra, rb = remap_name(case, a), remap_name(case, b)
    import re
    case["config"]["dest"].setdefault("remap", []).append(
        {"search": "^" + re.escape(ra) + "$", "replace": rb.replace("\\", "\\\\")})


def inv_compact(rng, case):
    cands = []
    planned = Levels(case).planned()
    pas = set(case["config"]["planner"].get("passthrough", ()))
    for f in model.declared_fks(case):
        if f.table in planned and f.table not in pas and f.ref in planned:
            cands.append((f.table, rng.choice(f.cols)))
    if not cands:
        return False
    n, c = rng.choice(cands)
    case["config"]["sampler"]["compact"] = {"columns": {n: [c]}}


def inv_multiplicity_ref(rng, case):
    fks = [f for f in oracle.sampler_fks(case, Levels(case).planned())]
    case["config"]["sampler"]["multiplicity"] = {"multiplier": 2}
    for f in fks:
        case["config"]["sampler"]["multiplicity"]["ignore_tables"] = [f.table]
        if oracle.impossible_multiplicity(case, Levels(case).planned()):
            return None
    return False


def inv_multiplicity_type(rng, case):
    case["config"]["sampler"]["multiplicity"] = {"multiplier": 3}
    return None if oracle.impossible_multiplicity(case, Levels(case).planned()) else False


def inv_missing_table(rng, case):
    names = [remap_name(case, n) for n in _planned_list(case)]
    n = rng.choice(names)
    case["dst"]["tables"] = [t for t in case["dst"]["tables"] if tkey(t) != n]
    for t in case["dst"]["tables"]:
        t["fks"] = [f for f in t["fks"] if ".".join(f["ref"]) != n]
    case["dst"]["data"].pop(n, None)


def inv_target(rng, case):
    s = case["src"]["tables"][0]["schema"]
    case["config"]["planner"]["targets"][f"{s}.no_such"] = {"all": True}


def inv_target_unselected(rng, case):
    lv = Levels(case)
    pl = case["config"]["planner"]
    leaves = [tkey(t) for t in case["src"]["tables"]
              if not any(".".join(f["ref"]) == tkey(t) for x in case["src"]["tables"]
                         for f in x["fks"])
              and tkey(t) not in pl.get("passthrough", ())]
    if not leaves or len(case["src"]["tables"]) < 2:
        return False
    n = rng.choice(leaves)
    others = [tkey(t) for t in case["src"]["tables"] if tkey(t) != n]
    pl["select"] = [gen.glob.escape(x) for x in others]
    pl["targets"][n] = {"all": True}
    _ = lv
    return None


def inv_ignored_ref(rng, case):
    pl = case["config"]["planner"]
    ign = {(x["src_table"], x["dst_table"]) for x in pl.get("ignore_fks", ())}
    sel = model.selected_tables(case)
    fks = [f for f in model.declared_fks(case) if f.table in sel and (f.table, f.ref) not in ign
           and f.ref not in pl.get("passthrough", ()) and f.table != f.ref
           and f.table not in pl.get("passthrough", ())]
    fks = [f for f in fks if f.ref not in pl["targets"]]
    if not fks:
        return False
    pl["ignore"] = [rng.choice(fks).ref]
    return None


def inv_cycle(rng, case):
    """A key back from a referenced table makes the schema cyclic."""
    tabs = tables_of(case)
    pl = case["config"]["planner"]
    pas = set(pl.get("passthrough", ()))
    sel = model.selected_tables(case)
    fks = [f for f in model.planner_fks(case) if f.table in sel and f.ref in sel
           and f.table not in pas and f.ref not in pas and f.table in Levels(case).planned()]
    fks = [f for f in fks if len(tabs[f.table]["pk"]) == 1]
    if not fks:
        return False
    f = rng.choice(fks)
    pk = tabs[f.table]["pk"][0]
    col = "v" if oracle.col(tabs[f.table], pk)["type"] in oracle.INTS else "s"
    if col not in [c["name"] for c in tabs[f.ref]["cols"]]:
        return False
    pl.setdefault("extra_fks", []).append({
        "src_table": f.ref, "src_columns": [col], "dst_table": f.table, "dst_columns": [pk]})
    return None


def inv_passthrough(rng, case):
    pl = case["config"]["planner"]
    pas = set(pl.get("passthrough", ()))
    sel = model.selected_tables(case)
    fks = [f for f in model.planner_fks(case) if f.table in sel and f.ref in sel
           and f.ref not in pas and f.table not in pl["targets"] and f.table not in pas
           and f.table != f.ref]
    if not fks:
        return False
    pl["passthrough"] = list(pas) + [rng.choice(fks).table]
    return None


def inv_constraint(rng, case):
    pl = case["config"]["planner"]
    n = rng.choice(sorted(pl["targets"]))
    lv = Levels(case)
    if n not in lv.planned():
        return False
    pl.setdefault("table_constraints", {})[n] = [
        {"column": "no_such", "operator": "=", "value": 1}]
    return None


def inv_strategy(rng, case):
    case["config"]["dest"]["conflict_strategy"] = "overwrite"


def inv_unknown_key(rng, case):
    sec = rng.choice(["planner", "sampler"])
    case["config"][sec]["no_such_option"] = 1


def inv_percent(rng, case):
    pl = case["config"]["planner"]
    pl["targets"][sorted(pl["targets"])[0]] = {"percent": "many"}


def inv_extra_fk(rng, case):
    pl = case["config"]["planner"]
    names = [tkey(t) for t in case["src"]["tables"]]
    pl.setdefault("extra_fks", []).append({
        "src_table": names[0], "src_columns": ["v", "s"], "dst_table": names[-1],
        "dst_columns": ["v"]})


def inv_dst_cycle(rng, case):
    """The destination's own keys are cyclic: no order to write its tables in."""
    dst = dst_of(case)
    planned = Levels(case).planned()
    fks = [f for f in model.declared_fks(case) if f.table in planned and f.ref in planned
           and f.table in dst and f.ref in dst]
    for f in fks:
        t = dst[f.table]
        if len(t["pk"]) != 1:
            continue
        if not any(tuple(x["cols"]) == f.cols for x in t["fks"]):
            continue
        typ = oracle.col(t, t["pk"][0])["type"]
        r = dst[f.ref]
        if r["schema"] != t["schema"]:
            continue
        r["cols"].append({"name": "back", "type": typ, "null": True})
        r["fks"].append({"name": "fk_back", "cols": ["back"], "ref": [t["schema"], t["name"]],
                         "rcols": list(t["pk"])})
        return None
    return False


INVALID = {
    "filter_column": ({}, inv_filter_column),
    "filter_op": ({}, inv_filter_op),
    "dst_column": ({}, inv_dst_column),
    "filter_args": ({}, inv_filter_args),
    "plugin": ({}, inv_plugin),
    "remap_collision": ({"tables": (3, 6)}, inv_remap),
    "compact_fk": ({"fks": (1, 3), "undeclared": 0.0}, inv_compact),
    "multiplicity_ref": ({"fks": (1, 3), "undeclared": 0.0, "pk": {"int": 1}},
                         inv_multiplicity_ref),
    "multiplicity_type": ({"pk": {"text": 2, "int": 2}}, inv_multiplicity_type),
    "missing_table": ({}, inv_missing_table),
    "unknown_target": ({}, inv_target),
    "unselected_target": ({}, inv_target_unselected),
    "ignored_ref": ({"fks": (1, 3), "passthrough": 0.0, "include_deps_false": 0.0}, inv_ignored_ref),
    "cycle": ({"fks": (1, 3), "undeclared": 0.0, "passthrough": 0.0}, inv_cycle),
    "passthrough_ref": ({"fks": (1, 3), "undeclared": 0.0}, inv_passthrough),
    "constraint_column": ({}, inv_constraint),
    "strategy": ({}, inv_strategy),
    "unknown_key": ({}, inv_unknown_key),
    "percent": ({}, inv_percent),
    "extra_fk": ({}, inv_extra_fk),
    "dst_cycle": ({"fks": (1, 3), "undeclared": 0.0}, inv_dst_cycle),
}


# ------------------------------------------------------------------------------ C23
class C23(Check):
    id = "C23"
    rule = ("destinations that miss some or all planned tables, on every dialect pair, existing "
            "ones with other columns and rows; the catalogue compared before the first row is "
            "written and after failing, killed and repeated runs; non-trivial: a table was "
            "created")

    def generate(self, rng, index, tier):
        kw = {}
        if index == 0:
            # the recorded finding: killed between creating a table and its unique index
            kw = dict(src={"mysql": 1}, tables=(3, 5), indexes=1.0)
        case = base_case(rng, **{**dict(
            tables=(1, 7), rows=(0, 8), dst=DB, create=1.0,
            create_missing=rng.choice(["some", "some", "all"]), truncate=0.0,
            odd_names=0.15, indexes=0.6, unique_tag=0.4, multi_schema=0.4, computed=0.05), **kw})
        # destination keys to tables outside of the plan do not concern this check
        limit_dst_fks(case)
        if index and rng.random() < 0.4:
            add_special_indexes(rng, case)
        if index == 0:
            case["dst"] = dict(case["dst"], dialect="mysql", tables=[], data={})
            case["window"] = True
        # existing tables may have columns of their own
        for t in case["dst"]["tables"]:
            if rng.random() < 0.3:
                t["cols"].append({"name": "own", "type": "text", "null": True})
        if rng.random() < 0.15 and index:
            case["create"] = False
        case["config"]["dest"]["conflict_strategy"] = rng.choice(["error", "skip"])
        case["n_fail"] = rng.choice([0, 0, 1, 1, 2]) if index else 1
        if case["n_fail"]:
            case["truncate"] = True
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        have = {f"{s}.{n}" for s, n in inst.dst.tables()}
        cat0 = self.objects(inst.dst.catalog())
        planned = {n: remap_name(case, n) for n in Levels(case).planned()}
        missing = {n for n in planned if planned[n] not in have}
        if case.get("window") and not case.get("history"):
            case["history"] = self.window(case, ctx, inst)
        seen = _Creation(inst, lambda: self.created(case, inst, planned, missing))
        torn = False
        atomic = inst.dst.dialect == "postgresql"
        for i in range(case["n_fail"] + 1):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            sim = ctx.sim(case, faults=faults, inst=inst)
            seen.start(sim, check=case["create"] and not torn)
            out = ctx.run(sim, inst, i)
            need(seen.problem is None, "C23.created", seen.problem or "")
            if not torn:
                succeeded(out, sim, "C23", *([] if case["create"] or not missing
                                             else ["ValueError"]))
            if out.status != "ok" and seen.creating and not atomic:
                # its last statement created a table or an index: on these databases every
                # such statement is committed on its own
                torn = True
            now = self.objects(inst.dst.catalog())
            tables = {f"{s}.{n}" for s, n in inst.dst.tables()}
            if not case["create"]:
                need(now == cat0, "C23.uninvited", "tables were created without create")
                if missing and not faults:
                    need(out.status != "ok", "C23.missing", "success without a planned table")
                continue
            for k, v in cat0.items():
                need(now.get(k) == v, "C23.altered", f"existing object {k} was changed")
            extra = tables - have - set(planned.values())
            need(not extra, "C23.extra", f"unexpected tables {sorted(extra)}")
            if out.status == "ok":
                gap = set(planned.values()) - tables
                need(not gap, "C23.created", f"planned tables were not created: {sorted(gap)}")
        ctx.nontrivial = bool(missing)
        if not case["create"]:
            return
        code = "C23.torn" if torn else "C23.created"
        if torn:
            # apart from indexes, the tables must be complete even so
            p = self.created(case, inst, planned, missing, indexes=False)
            need(out.status != "ok" or not p, "C23.created", p or "")
        if out.status == "ok":
            p = self.created(case, inst, planned, missing)
            need(not p, code, p or "")
            return
        need(case["n_fail"] > 0, "C23.failed",
             f"a failure-free run with create fails: {out.error}")
        if torn and ("no unique constraint matching" in str(out.error)
                     or "foreign key mismatch" in str(out.error)):
            raise Violation("C23.torn", f"the run after the interrupted ones fails: {out.error}")
        need(not self.fresh_ok(case, ctx), "C23.rerun",
             f"the run after the interrupted ones fails: {out.error}")

    def known(self, case, viol):
        return "index-window" if viol.code == "C23.torn" else None

    @staticmethod
    def window(case, ctx, inst):
        """Kill the run right after it created the first table that has an index."""
        clone = ctx.clone(inst)
        sim = ctx.sim(case, inst=clone)
        at = []

        def listen(event, table=None, **kw):
            if event == "created" and not at:
                name = next((n for n in tables_of(case) if remap_name(case, n) == table), None)
                t = tables_of(case)[name]
                if t["indexes"] or t["uniques"]:
                    at.append(sim.op_totals["dst.exec"])

        sim.listeners.append(listen)
        ctx.run(sim, clone, 50)
        return [[{"run": 0, "op": "dst.exec", "n": at[0], "kind": "crash", "when": "after"}]
                if at else []]

    @staticmethod
    def objects(cat):
        return {k: v for k, v in cat.items() if k != "__sequences"}

    def fresh_ok(self, case, ctx):
        fresh = ctx.build(case)
        return ctx.run(ctx.sim(case, inst=fresh), fresh, 9).status == "ok"

    @staticmethod
    def created(case, inst, planned, missing, indexes=True):
        """Compare what was created with the source's definitions."""
        from . import catalog

        have = set(inst.dst.tables())
        tabs = tables_of(case)
        for n in sorted(missing):
            s, t = planned[n].split(".", 1)
            if (s, t) not in have:
                return f"{n}: {s}.{t} does not exist"
            got = catalog.describe(inst.dst, s, t)
            want = catalog.expected(case, tabs[n], planned, inst.dst.dialect)
            p = catalog.compare(want, got, indexes)
            if p:
                return f"{n}: created table {s}.{t} differs: {p}"
        return None


def add_special_indexes(rng, case):
    """Indexes with conditions and, on PostgreSQL, expressions: unique where the rows allow it."""
    dialect = case["src"]["dialect"]
    if dialect == "mysql":
        return
    for k, t in enumerate(case["src"]["tables"]):
        names = {c["name"] for c in t["cols"] if not c.get("computed")}
        if not {"v", "s"} <= names or rng.random() < 0.3:
            continue
        rows = case["data"][tkey(t)]
        ix = {"name": f"ix_{k}_special", "cols": [rng.choice(["v", "s"])], "unique": True}
        conds = [None]
        if dialect == "postgresql" and rng.random() < 0.6:
            ix["exprs"] = ["lower(s)"] if ix["cols"] == ["v"] else ["abs(v)"]
            if rng.random() < 0.3:
                ix["cols"] = []
        else:
            conds = []
        conds += [("v > %d" % n, n) for n in (0, 1, 3)]
        cond = rng.choice(conds)
        if cond:
            ix["where"] = cond[0]
        seen = set()
        for r in rows:
            if cond and not (r["v"] is not None and r["v"] > cond[1]):
                continue
            key = [r[c] for c in ix["cols"]]
            for e in ix.get("exprs", ()):
                x = r["s"] if e == "lower(s)" else r["v"]
                key.append(None if x is None else x.lower() if e == "lower(s)" else abs(x))
            if None in key:
                continue
            if tuple(key) in seen:
                ix["unique"] = False
            seen.add(tuple(key))
        t["indexes"].append(ix)


class _Creation:
    """Compares the catalogue when the first row is about to be written, and knows whether the
    run's last statement on the destination created something."""

    def __init__(self, inst, compare):
        self.inst, self.compare = inst, compare
        self.problem = None

    def start(self, sim, check):
        self.pending = check
        self.creating = False
        sim.listeners.append(self)

    def __call__(self, event, session=None, sql="", **kw):
        if event != "statement" or session is None or session.role != "dst":
            return
        word = str(sql).split(None, 1)[:1]
        word = word[0].upper() if word else ""
        if word in ("CREATE", "ALTER"):
            self.creating = True
        elif word in ("INSERT", "REPLACE", "DELETE"):
            self.creating = False
            if self.pending and word != "DELETE":
                self.pending = False
                p = self.compare()
                self.problem = self.problem or (p and f"when the first row is written: {p}")


# ------------------------------------------------------------------------------ C24
class C24(Check):
    id = "C24"
    rule = ("chains of remap rules, one server for both sides, tables of the same name in other "
            "schemas and in other spelling, patterns and regex characters in names; every "
            "INSERT/UPDATE/DELETE's rows traced to their table at every commit, with failures "
            "and kills; non-trivial: rows were written while another table could have been hit")

    def generate(self, rng, index, tier):
        shared = rng.random() < 0.4
        case = base_case(rng, tables=(1, 6), rows=(1, 8), remap=1.0 if shared else 0.5,
                         dst={"same": 1} if shared else DB, odd_names=0.5, multi_schema=0.6,
                         create=0.25, truncate=0.3)
        limit_dst_fks(case)
        if not case["create"] and rng.random() < 0.5:
            add_prior(rng, case, overlap=0.3)
            if not case["truncate"]:
                case["config"]["dest"]["conflict_strategy"] = "skip"
        if rng.random() < 0.3:
            # rules apply in order: this pair renames and renames back
            case["config"]["dest"].setdefault("remap", [])
            case["config"]["dest"]["remap"] = (
                case["config"]["dest"]["remap"]
                + [{"search": r"\.(\w+)$", "replace": r".\1__z"},
                   {"search": r"__z$", "replace": ""}])
        self.decoys(rng, case)
        if shared:
            share_server(case)
        case["n_fail"] = rng.choice([0, 0, 1])
        return case

    @staticmethod
    def decoys(rng, case):
        """Destination tables that resemble the ones to be written."""
        dst = case["dst"]
        d = dst["dialect"]
        have = {(t["schema"].lower(), t["name"].lower()) for t in dst["tables"]}
        used = {tuple(remap_name(case, tkey(t)).lower().split(".", 1))
                for t in case["src"]["tables"]}
        extra = []
        schemas = list(dst["schemas"])
        for s in case["src"]["schemas"] + (["alt"] if d != "sqlite" else []):
            if s not in schemas and rng.random() < 0.6:
                schemas.append(s)
        base = [(t, *remap_name(case, tkey(t)).split(".", 1)) for t in case["src"]["tables"]]
        for t, rs, rn in base:
            for name, schema in ((rn, rng.choice(schemas)), (t["name"], t["schema"]),
                                 (rn.upper(), rs), (rn + "_", rs), (rn[:-1] or "q", rs),
                                 (rn.replace("_", "x"), rs),
                                 (rn.replace("[", "").replace("]", "").replace("*", "ab"), rs)):
                k = (schema.lower(), name.lower())
                exact = (schema, name)
                # (the simulated servers keep one spelling of a name per schema)
                if schema not in schemas or k in have or k in used:
                    continue
                if rng.random() < 0.6:
                    continue
                if any((x["schema"], x["name"]) == exact for x in extra):
                    continue
                have.add(k)
                c = copy.deepcopy(t)
                c.pop("xfks", None)
                c.update(schema=schema, name=name, fks=[], uniques=[], indexes=[])
                c["like"] = tkey(t)
                extra.append(c)
        dst["schemas"] = schemas
        dst["tables"] = dst["tables"] + extra
        for t in extra:
            rows = case["data"][t["like"]][: rng.randint(0, 2)]
            dst.setdefault("data", {})[tkey(t)] = [
                {**r, "tag": "decoy|" + r["tag"]} for r in rows]

    def execute(self, case, ctx):
        inst = ctx.build(case)
        src_names = {tkey(t) for t in case["src"]["tables"]}
        target = {remap_name(case, n): n for n in Levels(case).planned()}
        clash = len(target) < len(Levels(case).planned())
        before = inst.dst.dump()

        def look(inst_, where):
            now = inst_.dst.dump()
            for n, rows in now.items():
                if n in target:
                    # rows of the mapped source table only
                    t = target[n].split(".", 1)[1]
                    prior = rows_key(before.get(n, []))
                    for r in rows:
                        tag = str(r.get("tag", ""))
                        if prior[json.dumps(r, sort_keys=True, default=str)]:
                            continue
                        if not tag.startswith(t + ":") or tag not in own[target[n]]:
                            return f"{n}: a row of another table was written to it: {tag}"
                    continue
                # (what truncation may remove is another property)
                if rows_key(rows) - rows_key(before.get(n, [])) or not case["truncate"] and (
                        rows != before.get(n, [])):
                    what = "source" if n in src_names and inst_.dst is inst_.src else "other"
                    return f"{n}: rows were written to this {what} table"
            for n in before:
                if n not in now:
                    return f"{n}: the table is gone"
            return None

        own = {n: {r["tag"] for r in case["data"][n]} for n in src_names}
        for i in range(case["n_fail"] + 1):
            faults = step_faults(case, ctx, inst, i) if i < case["n_fail"] else []
            sim = ctx.sim(case, faults=faults, inst=inst)
            w = DstWatch(sim, inst, look)
            out = ctx.run(sim, inst, i)
            w.done("C24.elsewhere")
            if clash:
                need(out.status != "ok", "C24.clash", "two tables mapped to one name accepted")
            if succeeded(out, sim, "C24", "IntegrityError",
                         *(["ValueError"] if clash else [])) and len(before) > len(target):
                ctx.nontrivial = True


CHECKS = [C04, C05, C06, C07, C08, C09, C12, C13, C14, C22, C23, C24]
_ = (closed_subset, prune_dangling)
