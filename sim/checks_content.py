"""Checks of what is sampled and how it is transformed: C01 C02 C03 C10 C11 C17 C20 C21 C25."""
import collections
import json
import math

from . import gen, model, oracle, scen, world
from .base import (
    Check, add_prior, base_case, db_dst, limit_dst_fks, split_planned, strip_uniques,
    succeeded, sync_extra_fks, total, untouched_unplanned,
)
from .gen import tkey
from .model import Levels, remap_name, tables_of
from .scen import Violation, need


def set_writers(case, ctx, inst, mode):
    """Draw the other clients' transactions (once; they are part of the case afterwards)."""
    n = case.get("n_writers", 0)
    if case.get("writers") is None:
        case["writers"] = []
        if n or case.get("n_faults"):
            counts, out, _ = scen.dry_counts(ctx, inst, case)
            rng = gen.rng_for(case["seed"], "writers")
            if out.status == "ok" or counts:
                if n:
                    case["writers"] = scen.make_writers(case, rng, counts, mode, n)
                if case.get("n_faults"):
                    case["faults"] = scen.draw_faults(rng, counts, k=case["n_faults"])
    return case["writers"], case.get("faults") or []


def has_links(case, out, fks):
    for f in fks:
        for r in out.get(f.table, ()):
            if model.fkval(r, f.cols) is not None and f.ref in out:
                return True
    return False


class C01(Check):
    id = "C01"
    rule = ("random schema, data, configuration, dialect pair, catalogue and row order, with "
            "0-4 transactions of other clients placed between statements and sometimes a fault; "
            "non-trivial: the run succeeded and output at least one non-null reference")

    def generate(self, rng, index, tier):
        case = base_case(rng, targets={"all": 1, "in": 3, "like": 2, "sql": 2, "amount": 4,
                                       "percent": 4, "none": 1},
                         fks=(0, 3), tables=(2, 8), rows=(1, 14))
        limit_dst_fks(case)
        if rng.random() < 0.15:
            # also where the planner has to refuse them
            pl = case["config"]["planner"]
            names = sorted(Levels(case).planned() - set(pl.get("passthrough", ())))
            n = rng.choice(sorted(pl["targets"]) if rng.random() < 0.6 else names)
            pl.setdefault("table_constraints", {})[n] = [
                {"column": "v", "operator": rng.choice(["<", ">", "<>"]),
                 "value": rng.randint(0, 4)}]
        case["n_writers"] = rng.choice([0, 1, 2, 3, 4])
        case["n_faults"] = 1 if rng.random() < 0.2 else 0
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        writers, faults = set_writers(case, ctx, inst, "append")
        sim = ctx.sim(case, faults=faults, writers=writers, inst=inst)
        out = ctx.run(sim, inst)
        # (a destination that checks references has found it before this check could)
        need(not sim.probes.get("dst_refused_fk") or sim.fired, "C01.closure",
             f"the destination refuses a row for its references: {out.error}")
        # (a table with constraints that an earlier table refers to is refused)
        refused = ["ValueError"] if case["config"]["planner"].get("table_constraints") else []
        if not succeeded(out, sim, "C01", *refused, *(["OperationalError"] if writers else [])):
            return
        rows = split_planned(case, inst.read_out())
        fks = model.planner_fks(case)
        p = model.closure_problems(case, rows, fks)
        need(not p, "C01.closure", "; ".join(p[:3]))
        ctx.nontrivial = has_links(case, rows, fks)


def big_rows(rng, case, lo, hi):
    """Make the tables of a case large: the batch sizes are the shipped ones then."""
    case.pop("buffers", None)
    p = gen.profile(pk_values={"gap": 1}, rows=(lo, hi))
    for t in case["src"]["tables"]:
        t["uniques"] = [u for u in t["uniques"] if u["cols"] != ["u"]]
        t["indexes"] = []
    b = gen.Rows(case["src"]["tables"], rng, p)
    for t in case["src"]["tables"]:
        if "k0" in t["pk"]:
            b.add(tkey(t), 30)
        else:
            b.add(tkey(t), rng.randint(lo, hi))
    case["data"] = b.data


class C02(Check):
    id = "C02"
    rule = ("random schema, data, configuration, dialect pair, catalogue order, row order and "
            "batch sizes (every 41st case has tables beyond the shipped batch sizes); "
            "non-trivial: the run succeeded with at least two rows output")

    def generate(self, rng, index, tier):
        if index % 41 == 39:
            case = base_case(rng, tables=(2, 3), rows=(0, 0), unique_ref=0.0, pk={"int": 1},
                             driver={"api": 1}, odd_names=0.0)
            big_rows(rng, case, 1000, 2200)
            return case
        if index % 97 == 13:
            return self.json_nulls(rng)
        return base_case(rng, tables=(2, 8), infer=0.15)

    @staticmethod
    def json_nulls(rng):
        """JSON columns holding the JSON value null, which is not SQL's NULL."""
        case = base_case(rng, tables=(1, 4), rows=(2, 8), dst={"same": 1}, extra_types=0.0,
                         all_pk=0.0, targets={"all": 1})
        null = rng.random() < 0.5
        for t in case["src"]["tables"] + case["dst"]["tables"]:
            t["cols"].append({"name": "x_json", "type": "json", "null": null})
        for n in case["data"]:
            for r in case["data"][n]:
                r["x_json"] = rng.choice(["null", "[null]", None if null else "{}"])
        case["json_nulls"] = True
        return case

    def known(self, case, viol):
        return "json-null" if viol.code == "C02.jsonnull" else None

    def execute(self, case, ctx):
        inst = ctx.build(case)
        src = scen.src_rows(inst, case)
        sim = ctx.sim(case, inst=inst)
        out = ctx.run(sim, inst)
        if not succeeded(out, sim, "C02"):
            return
        if case.get("json_nulls"):
            # (the finding: in nullable columns the value becomes SQL's NULL, and nothing else)
            cols = {n for n, t in tables_of(case).items() if oracle.col(t, "x_json")["null"]}
            null = [r for n in cols for r in src[n] if r["x_json"] == "null"]
            rows = split_planned(case, inst.read_out())
            if null and oracle.content_problems(case, src, rows):
                for r in null:
                    r["x_json"] = None
                if not oracle.content_problems(case, src, rows):
                    raise Violation("C02.jsonnull", "JSON null values were written as SQL NULL")
        rows = inst.read_out()
        need_none(untouched_unplanned(case, rows), "C02.unplanned")
        if not db_dst(case):
            planned = Levels(case).planned()
            extra = set(inst.read_dir()) - {f"{n}.json" for n in planned}
            need(not extra, "C02.unplanned", f"unexpected files {sorted(extra)[:3]}")
        p = oracle.content_problems(case, src, split_planned(case, rows))
        need(not p, "C02.content", "; ".join(p[:3]))
        ctx.nontrivial = total(rows) > 1


def need_none(problem, code):
    if problem:
        raise Violation(code, problem)


class C03(Check):
    id = "C03"
    rule = ("PostgreSQL source at REPEATABLE READ or SERIALIZABLE with 1-6 transactions of other "
            "clients (inserts, updates of any column, deletes) between statements; non-trivial: "
            "at least one of them committed while the run was reading and the run succeeded")

    def generate(self, rng, index, tier):
        case = base_case(rng, src={"postgresql": 1}, tables=(2, 6), rows=(1, 10), session=0.2,
                         passthrough=0.5, dst={"same": 4, "sqlite": 1, "dir": 2, "mysql": 1},
                         targets={"all": 3, "in": 2, "like": 2, "sql": 2, "amount": 1,
                                  "percent": 1, "none": 1})
        case["config"].setdefault("source", {})["isolation_level"] = rng.choice(
            ["REPEATABLE READ", "REPEATABLE READ", "SERIALIZABLE"])
        case["n_writers"] = rng.randint(1, 6)
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        writers, _ = set_writers(case, ctx, inst, "any")
        states = [scen.src_rows(inst, case)]
        sim = ctx.sim(case, writers=writers, inst=inst)

        def listen(event, **kw):
            if event == "src_changed":
                states.append(scen.src_rows(inst, case))

        sim.listeners.append(listen)
        out = ctx.run(sim, inst)
        if not succeeded(out, sim, "C03"):
            return
        rows = split_planned(case, inst.read_out())
        first = None
        for i, st in enumerate(states):
            p = oracle.content_problems(case, st, rows)
            if not p:
                break
            first = first or p
        else:
            raise Violation("C03.mixed", f"the output matches none of the {len(states)} source "
                            f"states of the run; against the first: {first[:2]}")
        ctx.nontrivial = len(states) > 1
        ctx.probe(f"matched_state_{min(i, 3)}")


# ------------------------------------------------------------------------------ compaction
INT_ONLY = dict(pk={"int": 8, "composite": 2, "none": 1})


def add_compaction(rng, case):
    comp = {}
    mode = rng.random()
    if mode < 0.6:
        comp["primary_keys"] = True
    elif mode < 0.85:
        comp["auto_increment_keys"] = True
    if rng.random() < 0.6:
        comp["start_key"] = rng.choice([0, 1, 2, 100, 10**6, -5])
    if "primary_keys" not in comp and "auto_increment_keys" not in comp or rng.random() < 0.15:
        cols = {}
        pas = set(case["config"]["planner"].get("passthrough", ()))
        for t in case["src"]["tables"]:
            used = {c for f in t["fks"] for c in f["cols"]}
            for c in (t["pk"] if len(t["pk"]) == 1 else []) + ["u"]:
                # (listed columns of passthrough tables are left alone)
                if c in used or not t["pk"] or tkey(t) in pas and rng.random() < 0.6:
                    continue
                if any(x["name"] == c and x["type"] in oracle.INTS for x in t["cols"]):
                    if rng.random() < 0.5:
                        cols.setdefault(tkey(t), []).append(c)
        if cols:
            comp["columns"] = cols
        elif not comp:
            comp["primary_keys"] = True
    case["config"]["sampler"]["compact"] = comp


def add_multiplicity(rng, case, extras=True):
    mu = {"multiplier": rng.choice([2, 2, 3, 5])}
    planned = Levels(case).planned()
    pas = set(case["config"]["planner"].get("passthrough", ()))
    tabs = tables_of(case)
    case["config"]["sampler"]["multiplicity"] = mu
    if extras:
        ex = {}
        for n in sorted(planned - pas):
            if any(c["name"] == "u" for c in tabs[n]["cols"]):
                ex[n] = ["u"]
        if ex:
            mu["extra_columns"] = ex
    if rng.random() < 0.4:
        # tables that may be left out: closed under what they reference
        cands = sorted(planned - pas)
        rng.shuffle(cands)
        for n in cands[:2]:
            closure, stack = {n}, [n]
            while stack:
                t = stack.pop()
                for f in oracle.sampler_fks(case, planned):
                    if f.table == t and f.ref not in closure and f.ref not in pas:
                        closure.add(f.ref)
                        stack.append(f.ref)
            if len(closure) < len(planned - pas):
                mu["ignore_tables"] = sorted(set(mu.get("ignore_tables", ())) | closure)
        for n in mu.get("ignore_tables", ()):
            mu.get("extra_columns", {}).pop(n, None)
    if rng.random() < 0.2:
        # composite keys of which one component tells the copies apart
        for n in sorted(planned - pas - set(mu.get("ignore_tables", ()))):
            t = tabs[n]
            if len(t["pk"]) == 2 and not any(
                f["rcols"] == t["pk"] and ".".join(f["ref"]) == n
                for x in case["src"]["tables"] for f in x["fks"] + x["xfks"]
            ):
                mu.setdefault("ignore_primary_key_columns", {})[n] = [rng.choice(t["pk"])]
                break


def copies_by_multiplicity_only(case):
    """Unique keys that are not multiplied would collide."""
    pas = set(case["config"]["planner"].get("passthrough", ()))
    refd = {(".".join(f["ref"]), tuple(f["rcols"]))
            for t in case["src"]["tables"] for f in t["fks"] + t.get("xfks", [])}
    keep = {}
    for t in case["src"]["tables"]:
        n = tkey(t)
        links = collections.defaultdict(list)
        for f in t["fks"]:
            links[tuple(f["cols"])].append(".".join(f["ref"]))
        # ("u" is multiplied as an extra column, a reference along with what it leads to)
        keep[n] = {c for c in (tuple(u["cols"]) for u in t["uniques"])
                   if c == ("u",) or (n, c) in refd and c in links and (
                       n in pas or not set(links[c]) & pas)}
    lost = set()
    for side in (case["src"]["tables"], case["dst"].get("tables", [])):
        for t in side:
            kept = keep[t.get("of", tkey(t))]
            lost |= {(tkey(t), tuple(u["cols"])) for u in t["uniques"]
                     if tuple(u["cols"]) not in kept}
            t["uniques"] = [u for u in t["uniques"] if tuple(u["cols"]) in kept]
            t["indexes"] = [{**ix, "unique": False} for ix in t["indexes"]]
        for t in side:
            for k in ("fks", "xfks"):
                if k in t:
                    t[k] = [f for f in t[k]
                            if (".".join(f["ref"]), tuple(f["rcols"])) not in lost]
    sync_extra_fks(case)


class C10(Check):
    id = "C10"
    rule = ("random worlds with compaction (primary keys, auto-increment keys, listed columns, "
            "start keys), also with random targets, multiplicity, merge and appending writers; "
            "non-trivial: at least one compacted table had two sampled rows")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "plain", "plain", "mult", "merge", "writers"])
        kw = dict(INT_ONLY, undeclared=0.0, infer=0.15, ignore_fk=0.0, null_fk=0.5,
                  create=0.1 if mode != "merge" else 0.0, tables=(2, 7), rows=(1, 12),
                  pk_values={"small": 4, "gap": 3, "big": 1})
        if mode == "merge":
            kw.update(unique_ref=0.0, unique_tag=0.0, pk={"int": 8, "none": 1},
                      dst={"same": 6, "sqlite": 1, "postgresql": 1, "mysql": 1}, truncate=0.0)
        if mode == "mult":
            kw.update(unique_tag=0.0, pk_values={"small": 4, "gap": 3})
        if mode == "plain" and rng.random() < 0.3:
            # keys that compaction leaves alone
            kw.update(pk={"int": 6, "text": 3, "composite": 2, "shared": 1, "none": 1})
        elif mode == "plain" and rng.random() < 0.15:
            # keys that are references to tables whose keys stay
            kw.update(pk={"int": 3, "shared": 4}, passthrough=0.8, infer=0.0)
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        add_compaction(rng, case)
        if mode == "mult":
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            mu = case["config"]["sampler"]["multiplicity"]
            mu.pop("ignore_primary_key_columns", None)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()):
                mu.pop("ignore_tables", None)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["mode"] = mode = "plain"
                case["config"]["sampler"].pop("multiplicity")
        if mode == "merge":
            strip_uniques(case)
            case["config"]["dest"]["merge"] = True
            comp = case["config"]["sampler"]["compact"]
            comp["start_key"] = max(0, comp.get("start_key", 1))
            add_prior(rng, case, overlap=0.3)
        if mode == "writers":
            case["n_writers"] = rng.randint(1, 4)
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        writers, _ = set_writers(case, ctx, inst, "append")
        before = inst.read_out() if db_dst(case) else {}
        src = scen.src_rows(inst, case)
        sim = ctx.sim(case, writers=writers, inst=inst)
        out = ctx.run(sim, inst)
        if out.status != "ok":
            need(sim.fired or case["mode"] == "writers" or not allowed_compaction(case),
                 "C10.failed", f"the run failed: {out.error}")
            return
        rows, _ = oracle.new_rows(before, inst.read_out())
        rows = split_planned(case, rows)
        if not allowed_compaction(case):
            p = link_problems(case, src, rows)
            need(not p, "C10.links", "; ".join(p[:3]))
        if case["mode"] == "writers":
            src = scen.src_rows(inst, case)
            p = relabel_problems(case, src, rows)
        elif case["mode"] == "merge":
            p = merge_problems(case, src, before, rows)
        else:
            p = oracle.content_problems(case, src, rows)
        need(not p, "C10.keys", "; ".join(p[:3]))
        comp = oracle.compact_cols(case, Levels(case).planned())
        ctx.nontrivial = any(len(rows.get(n, ())) > 1 for n in comp)


def allowed_compaction(case):
    """Compaction is refused where a compacted column is part of a foreign key."""
    planned = Levels(case).planned()
    comp = oracle.compact_cols(case, planned)
    tabs = tables_of(case)
    fks = oracle.sampler_fks(case, planned) + [f for f in model.declared_fks(case)
                                               if f.table in planned]
    return not any(set(f.cols) & comp.get(f.table, set()) for f in fks) and bool(tabs)


def link_problems(case, src, rows):
    """References of rows that do not lead where they lead in the source (rows in both known by
    their tags; at most one row of each tag)."""
    planned = Levels(case).planned()
    res = []
    old = {n: {r["tag"]: r for r in src[n]} for n in planned}
    for f in oracle.sampler_fks(case, planned):
        new, was = {}, {}
        for by, data in ((new, rows.get(f.ref, ())), (was, src[f.ref])):
            for r in data:
                by[tuple(r[c] for c in f.rcols)] = r["tag"]
        for r in rows.get(f.table, ()):
            o = old[f.table].get(r["tag"])
            if o is None or None in (o[c] for c in f.cols):
                continue
            want = was.get(tuple(o[c] for c in f.cols))
            got = new.get(tuple(r[c] for c in f.cols))
            if want is not None and got != want:
                res.append(f"{f.table} {r['tag']} refers to {got}, not {want}")
    return res


def relabel_problems(case, src, rows):
    """Keys and links of an output whose plain columns may have changed meanwhile."""
    planned = Levels(case).planned()
    base = {}
    for n in planned:
        by = {r["tag"]: r for r in src[n]}
        base[n] = []
        for r in rows.get(n, ()):
            if r["tag"] not in by:
                return [f"{n}: row {r['tag']} is not in the source"]
            base[n].append(by[r["tag"]])
    comp = oracle.compact_cols(case, planned)
    start = case["config"]["sampler"]["compact"].get("start_key", 1)
    for n, cols in sorted(comp.items()):
        for c in sorted(cols):
            got = sorted(r[c] for r in rows.get(n, ()))
            if got != list(range(start, start + len(got))):
                return [f"{n}.{c}: keys are not dense from {start}: {got[:8]}"]
    try:
        want = oracle.transform(case, base)
    except KeyError as exc:
        return [f"link lost {exc}"]
    for n in sorted(planned):
        miss, extra = oracle.diff_rows(want[n], rows.get(n, []), ("v", "s", "cmp"))
        if miss or extra:
            return [f"{n}: expected {miss[:2]} got {extra[:2]}"]
    return []


def infer_offsets(case, src, before, rows):
    """One constant per merged table, read off the new rows."""
    planned = Levels(case).planned()
    pas = set(case["config"]["planner"].get("passthrough", ()))
    tabs = tables_of(case)
    tags, problems = oracle.sampled_tags(case, rows)
    base = {}
    for n in planned:
        by = {r["tag"]: r for r in src[n]}
        if n in pas:
            base[n] = list(src[n])
            continue
        base[n] = [by[x] for x in tags.get(n, ()) if x in by]
    want = oracle.transform(case, base)
    offsets = {}
    for n in sorted(planned - pas):
        t = tabs[n]
        if not oracle.int_pk(t):
            continue
        pk = t["pk"][0]
        a, b = collections.defaultdict(list), collections.defaultdict(list)
        for r in want[n]:
            a[r["tag"]].append(r[pk])
        for r in rows.get(n, ()):
            b[r["tag"]].append(r[pk])
        ds = set()
        for tag, keys in b.items():
            w = sorted(a.get(tag, []))
            if len(w) != len(keys):
                problems.append(f"{n}: {tag} output {len(keys)} times")
                continue
            ds |= {y - x for x, y in zip(w, sorted(keys))}
        if len(ds) > 1:
            problems.append(f"{n}: keys are not shifted by one constant: {sorted(ds)[:5]}")
        offsets[n] = min(ds) if ds else 0
        old = [r[pk] for r in before.get(n, ())]
        new = [k for ks in b.values() for k in ks]
        if old and new and min(new) <= max(old):
            problems.append(f"{n}: new key {min(new)} is not past the existing key {max(old)}")
    return offsets, problems


def merge_problems(case, src, before, rows):
    offsets, problems = infer_offsets(case, src, before, rows)
    if problems:
        return problems
    pas = set(case["config"]["planner"].get("passthrough", ()))
    tabs = tables_of(case)
    present = {}
    for n in pas & Levels(case).planned():
        pk = tabs[n]["pk"]
        have = {tuple(r[c] for c in pk) for r in before.get(n, ())}
        if pk:
            present[n] = {r["tag"] for r in src[n] if tuple(r[c] for c in pk) in have}
    return oracle.content_problems(case, src, rows, offsets, present=present)


# ------------------------------------------------------------------------------ multiplicity
class C11(Check):
    id = "C11"
    rule = ("random worlds with multipliers 2-5, ignored tables, extra columns, ignored key "
            "columns and impossible configurations; non-trivial: a multiplied table had rows, or "
            "an impossible configuration was refused")

    def generate(self, rng, index, tier):
        bad = rng.random() < 0.12
        case = base_case(
            rng, pk={"int": 8, "composite": 3, "none": 1, "shared": 2, "text": 2 if bad else 0},
            undeclared=0.0, infer=0.15, ignore_fk=0.15 if not bad and rng.random() < 0.3 else 0.0, unique_ref=0.2, unique_tag=0.0,
            tables=(2, 7), rows=(1, 10), pk_values={"small": 4, "gap": 3, "neg": 1},
            create=0.1, truncate=0.1)
        limit_dst_fks(case)
        copies_by_multiplicity_only(case)
        add_multiplicity(rng, case)
        mu = case["config"]["sampler"]["multiplicity"]
        if bad:
            case["driver"] = "api"
            if mu.get("ignore_tables") is None or rng.random() < 0.7:
                fks = [f for f in oracle.sampler_fks(case, Levels(case).planned())]
                if fks:
                    mu["ignore_tables"] = [rng.choice(fks).table]
            if db_dst(case) and not case.get("create"):
                add_prior(rng, case, overlap=0.3)
                case["truncate"] = True
        else:
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()):
                mu.pop("ignore_tables", None)
                mu.pop("extra_columns", None)
        return case

    def execute(self, case, ctx):
        planned = Levels(case).planned()
        why = oracle.impossible_multiplicity(case, planned)
        inst = ctx.build(case)
        src = scen.src_rows(inst, case)
        before = inst.dst.dump() if db_dst(case) else {}
        sim = ctx.sim(case, inst=inst)
        out = ctx.run(sim, inst)
        if why:
            need(out.status != "ok", "C11.accepted", f"accepted although {why}")
            if db_dst(case):
                need(inst.dst.dump() == before, "C11.touched",
                     "the destination was changed by a refused configuration")
            ctx.nontrivial = True
            return
        if out.status != "ok":
            need(not consistent(case), "C11.failed", f"the run failed: {out.error}")
            return
        if not consistent(case):
            return
        rows = split_planned(case, inst.read_out())
        p = oracle.content_problems(case, src, rows)
        need(not p, "C11.copies", "; ".join(p[:3]))
        mult = oracle.multiplied(case, planned)
        ctx.nontrivial = any(rows.get(n) for n in mult)


def consistent(case):
    """Unique keys tell the copies of their rows apart."""
    planned = Levels(case).planned()
    mult = oracle.multiplied(case, planned)
    tabs = tables_of(case)
    if oracle.impossible_multiplicity(case, planned):
        return False
    for n, cols in mult.items():
        t = tabs[n]
        keys = [u["cols"] for u in t["uniques"]] + ([t["pk"]] if t["pk"] else [])
        if n in planned and any(not set(k) & cols for k in keys):
            return False
    return True


def drop_inconsistent(case):
    mu = case["config"]["sampler"]["multiplicity"]
    for key in ("ignore_primary_key_columns", "ignore_tables", "extra_columns"):
        if consistent(case):
            break
        mu.pop(key, None)


# ------------------------------------------------------------------------------ plan equality
class C17(Check):
    id = "C17"
    rule = ("one schema and configuration planned under several catalogue orders, set orders, "
            "hash seeds (one per worker process), data, and after unrelated plans in the same "
            "process; non-trivial: the plan has two queries or more")

    def generate(self, rng, index, tier):
        # every worker process (hash seed) sees the same schemas: pairs are compared at the end
        case = base_case(rng, tables=(2, 9), dst={"dir": 1}, rows=(0, 6), passthrough=0.4,
                         infer=0.2, undeclared=0.25)
        case["driver"] = "api"
        case["variants"] = [
            {"catalog_seed": rng.randint(0, 10**6), "entropy": rng.randint(0, 10**6)}
            for _ in range(rng.choice([2, 3, 4]))
        ]
        other = base_case(rng, tables=(2, 4), dst={"dir": 1}, src={"sqlite": 1})
        case["other"] = other
        case["helper"] = index % 17 == 0
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        plans = []
        for i, v in enumerate(case["variants"]):
            c2 = dict(case, knobs={**case["knobs"], **v})
            if i == 1:
                other = dict(case["other"], seed=case["seed"])
                self.plan(ctx, other, ctx.build(other))
            if i == 2:
                # the same schema without any data
                c2["data"] = {k: [] for k in case["data"]}
                inst2 = ctx.build(c2)
            else:
                inst2 = inst
            plans.append((f"variant {i}", self.plan(ctx, c2, inst2)))
        if case.get("helper"):
            for h in (3, 77):
                plans.append((f"hash seed {h}", helper_plan(case, h, ctx)))
        name0, ref = plans[0]
        for name, p in plans[1:]:
            if p == ref:
                continue
            raise Violation("C17.differs", f"{name0} and {name} planned differently: "
                            f"{first_difference(ref, p)}")
        ctx.nontrivial = isinstance(ref, dict) and len(ref["queries"]) > 1

    def plan(self, ctx, case, inst):
        sim = ctx.sim(case, inst=inst)
        keep = {}
        out = ctx.run(sim, inst, body=lambda s, i, c: keep.__setitem__(
            "plan", world.run_api(i, c, case, steps=("plan",))))
        if out.status != "ok":
            return f"error: {out.exc_type or out.status}"
        return normal_plan(keep["plan"])


def normal_plan(plan):
    d = plan.model_dump(exclude_unset=True, by_alias=True)
    d = json.loads(json.dumps(d, sort_keys=True, default=str))
    if "passthrough" in d:
        d["passthrough"] = sorted(d["passthrough"])
    return d


def first_difference(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {str(a)[:80]} / {str(b)[:80]}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_difference(a.get(k), b.get(k), f"{path}/{k}")
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}[{i}]")
        return f"{path}: lengths {len(a)} / {len(b)}"
    return f"{path}: {str(a)[:80]} / {str(b)[:80]}"


def helper_plan(case, hashseed, ctx):
    """The plan as another interpreter with another hash seed makes it."""
    import os
    import subprocess
    import sys

    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    path = os.path.join(ctx.scratch.root, f"h{hashseed}.json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump({k: v for k, v in case.items() if k != "helper"}, fh)
    here = os.path.dirname(os.path.abspath(__file__))
    res = subprocess.run([sys.executable, os.path.join(here, "plan_helper.py"), path],
                         env=env, capture_output=True, text=True, timeout=100, check=False)
    if res.returncode != 0:
        raise scen.core.HarnessError(f"plan helper: {res.stderr[-500:]}")
    ctx.stats.runs += 1
    return json.loads(res.stdout)


# ------------------------------------------------------------------------------ streaming
BOUND = 4400


class C20(Check):
    id = "C20"
    rule = ("tables of 4-9 thousand rows with the shipped batch sizes, for every output mode, "
            "dialect and transformation, with slow statements on either side; non-trivial: at "
            "least 4000 rows went through one table")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "filter", "mult", "compact", "merge", "skip"])
        case = base_case(
            rng, tables=(1, 2), rows=(0, 0), pk={"int": 1}, all_pk=0.0, unique_ref=0.0, unique_tag=0.0,
            odd_names=0.0, small_buffers=0.0, extra_types=0.0, computed=0.0, indexes=0.0,
            driver={"api": 1, "cli-subset": 1}, targets={"all": 1}, n_targets={1: 1},
            ignore=0.0, ignore_fk=0.0, constraints=0.0, undeclared=0.0, infer=0.0, fks=(1, 1),
            multi_schema=0.0, remap=0.2, create=0.0, truncate=0.1, null_fk=0.0,
            dst={"same": 4, "dir": 3, "sqlite": 1}, passthrough=0.3,
            src={"sqlite": 1, "postgresql": 1, "mysql": 1})
        n = rng.randint(4500, 9000)
        p = gen.profile(pk_values={"gap": 1})
        big = rng.choice([tkey(t) for t in case["src"]["tables"]])
        b = gen.Rows(case["src"]["tables"], rng, p)
        for t in case["src"]["tables"]:
            k = tkey(t)
            k_rows = n if k == big else 25
            lean_rows(b, k, k_rows)
        case["data"] = {}
        case["gen_rows"] = {tkey(t): (n if tkey(t) == big else 25) for t in case["src"]["tables"]}
        case["big"] = big
        case["mode"] = mode
        s = case["config"]["sampler"]
        if mode == "filter":
            s["filters"] = {big: [{"op": "random_string", "columns": ["s"], "length": 5},
                                  {"op": "null", "columns": ["v"]}]}
        elif mode == "mult":
            s["multiplicity"] = {"multiplier": 2}
        elif mode == "compact":
            s["compact"] = {"primary_keys": True}
        elif mode == "merge" and db_dst(case):
            case["config"]["dest"]["merge"] = True
            case["truncate"] = False
        elif mode == "skip" and db_dst(case):
            case["config"]["dest"]["conflict_strategy"] = "skip"
        return case

    def execute(self, case, ctx):
        case = dict(case)
        case["data"] = regular_rows(case)
        inst = ctx.build(case)
        slow = [{"run": 0, "op": op, "n": n, "kind": "slow", "delay": 30.0}
                for op, n in (("dst.exec", 2), ("dst.commit", 3), ("src.fetch", 2))]
        sim = ctx.sim(case, faults=slow, inst=inst, max_ops=3000000)
        w = StreamWatch(case, inst)
        sim.listeners.append(w)
        out = ctx.run(sim, inst)
        need(w.problem is None, "C20.held", w.problem or "")
        if out.status == "ok" and w.most_table >= 4000:
            ctx.nontrivial = True
        ctx.probe("peak_sum", w.peak)
        ctx.stats.probes["peak_max"] = max(ctx.stats.probes["peak_max"], w.peak)


def lean_rows(b, k, n):
    pass


def regular_rows(case):
    """The big tables' rows, a function of the counts in the case (they are not written out)."""
    data = {}
    for t in case["src"]["tables"]:
        rows = []
        n = case["gen_rows"][tkey(t)]
        for i in range(n):
            r = {}
            for c in t["cols"]:
                fk = next((f for f in t["fks"] if c["name"] in f["cols"]), None)
                if fk is not None:
                    par = data[".".join(fk["ref"])]
                    r[c["name"]] = par[i % len(par)][fk["rcols"][0]]
                elif c["name"] in t["pk"]:
                    r[c["name"]] = i * 3 + 1
                elif c["name"] == "tag":
                    r["tag"] = f"{t['name']}:{i}"
                else:
                    r[c["name"]] = i % 6 if c["type"] in oracle.INTS else f"s{i % 5}"
            rows.append(r)
        data[tkey(t)] = rows
    return data


class StreamWatch:
    """Rows of client memory: fetched from the source, not yet handed to the destination."""

    def __init__(self, case, inst):
        self.case, self.inst = case, inst
        whole = case["config"]["planner"].get("passthrough", ())
        self.mult = 1 if case["big"] in whole else max(1, oracle.multiplier(case))
        self.fetched = 0
        self.written = 0
        self.peak = 0
        self.most_table = 0
        self.problem = None
        self.dir = not db_dst(case)
        self.cur = None

    def __call__(self, event, session=None, **kw):
        if event == "statement" and session is not None:
            if session.role == "src":
                self.most_table = max(self.most_table, self.fetched)
                self.fetched = 0
                self.written = 0
            elif session.role == "dst" and kw.get("many"):
                self.written += len(kw["params"])
                self.note(len(kw["params"]))
            elif session.role == "dst" and str(kw.get("sql", "")).lstrip()[:6].upper() in (
                    "INSERT", "REPLAC"):
                self.written += str(kw["sql"]).count("), (") + 1
        elif event == "fetched" and session is not None and session.role == "src":
            n = kw["rows"]
            self.fetched += n
            if kw.get("unstreamed") and n > BOUND:
                self.fail(f"{n} rows were fetched into client memory at once")
            self.note(self.fetched - self.written / self.mult)
        elif event == "file_write":
            self.written += kw["data"].count(b"\n")

    def note(self, held):
        self.peak = max(self.peak, int(held))
        if held > BOUND:
            self.fail(f"{int(held)} rows were held in memory (fetched {self.fetched}, handed on "
                      f"{self.written}; table {self.case['big']}, mode {self.case['mode']})")

    def fail(self, text):
        if self.problem is None:
            self.problem = text


# ------------------------------------------------------------------------------ random targets
class C21(Check):
    id = "C21"
    rule = ("one small world sampled 120-200 times with the database's random stream reseeded, "
            "per dialect, amounts and percentages; inclusion counts are compared with the "
            "configured ones (z > 6 over all rows and per row), sizes exactly; every case is "
            "non-trivial when a proper subset was possible")

    def generate(self, rng, index, tier):
        case = base_case(
            rng, tables=(2, 3), rows=(6, 14), n_targets={1: 3, 2: 1}, passthrough=0.1,
            targets={"all": 1}, driver={"api": 1}, dst={"dir": 1}, ignore=0.0, constraints=0.0,
            src={"sqlite": 1, "postgresql": 1, "mysql": 1}, odd_names=0.0, small_buffers=0.0,
            extra_types=0.0, indexes=0.0, ignore_fk=0.0)
        pl = case["config"]["planner"]
        large = index % 19 == 7
        if large:
            # rows far beyond the amounts asked for
            big_rows(rng, case, 150, 300)
        for n in pl["targets"]:
            rows = case["data"][n]
            t = {}
            if large:
                t["amount"] = rng.choice([1, 1, 2, 3])
            elif rng.random() < 0.6:
                t["percent"] = rng.choice([3, 10, 25, 50, 50, 75, 97, 0.5])
            else:
                t["amount"] = rng.choice([1, 2, 3, max(1, len(rows) // 2)])
            if rng.random() < 0.25 and rows:
                t["in"] = {"v": [0, 1, 2, 3]}
            if rng.random() < 0.1:
                t["amount"] = rng.choice([1, 3])
                t["percent"] = 50
            pl["targets"][n] = t
        case["knobs"]["permute"] = False
        case["reps"] = 60 if large else 120 if tier == "quick" else 250
        return case

    def execute(self, case, ctx):
        inst = ctx.build(case)
        src = scen.src_rows(inst, case)
        pl = case["config"]["planner"]
        lv, order, back, fwd = model.directions(case, None)
        counts = {n: collections.Counter() for n in pl["targets"]}
        sizes = {n: [] for n in pl["targets"]}
        plan = {}
        reps = case["reps"]
        for i in range(reps):
            c2 = dict(case, seed=f"{case['seed']}/{i}")
            sim = ctx.sim(c2, inst=inst)
            ctx.sims[-1:] = [sim]

            def body(s, inst_, cfg):
                if "plan" not in plan:
                    plan["plan"] = world.run_api(inst_, cfg, case, steps=("plan",))
                world.run_api(inst_, cfg, case, steps=("sample",), plan=plan["plan"])

            out = ctx.run(sim, inst, body=body)
            if not succeeded(out, sim, "C21"):
                return
            rows = split_planned(case, inst.read_out())
            tags = {n: [r["tag"] for r in rs] for n, rs in rows.items()}
            p = model.check_tags(case, src, None, tags)
            need(not p, "C21.rows", f"run {i}: {'; '.join(p[:2])}")
            by = {n: {r["tag"]: r for r in src[n]} for n in src}
            for n, t in pl["targets"].items():
                ref = set()
                for f in fwd[n]:
                    keys = {model.fkval(by[f.table][x], f.cols) for x in tags[f.table]}
                    ref |= {r["tag"] for r in src[n] if model.fkval(r, f.rcols) in keys}
                if fwd[n]:
                    continue  # what others depend on hides the draw
                counts[n].update(set(tags[n]))
                sizes[n].append(len(tags[n]))
        for n, t in pl["targets"].items():
            if not sizes[n]:
                continue
            match = [r["tag"] for r in src[n] if model.target_matches(case, t, r)
                     and model.constraint_ok(case, n, r)]
            if not match:
                continue
            if t.get("percent") is not None and t.get("amount") is not None:
                need(all(s <= t["amount"] for s in sizes[n]), "C21.size", f"{n}: above amount")
                continue
            if t.get("percent") is not None:
                p = t["percent"] / 100
            else:
                k = min(t["amount"], len(match))
                need(all(s == k for s in sizes[n]), "C21.size",
                     f"{n}: sizes {sorted(set(sizes[n]))[:4]} instead of {k}")
                p = k / len(match)
            self.test(n, t, match, counts[n], reps, p, t.get("percent") is not None)
            if 0 < p < 1:
                ctx.nontrivial = True

    @staticmethod
    def test(n, t, match, counts, reps, p, independent):
        if not 0 < p < 1:
            return
        sd = math.sqrt(reps * p * (1 - p))
        for tag in match:
            # exact-enough two-sided bound; small expectations get a margin
            if abs(counts[tag] - reps * p) > 6 * sd + 3:
                raise Violation("C21.bias", f"{n}: row {tag} was drawn {counts[tag]} times in "
                                f"{reps} runs, expected {reps * p:.0f} ({t})")
        # groups of rows next to each other, and of equal values
        groups = [match[:len(match) // 2], match[len(match) // 4:len(match) // 2],
                  match[-(len(match) // 4):], match[::2], match[1::3]]
        size = len(match)
        for g in groups:
            if not 0 < len(g) < size:
                continue
            got, e = sum(counts[x] for x in g), reps * p * len(g)
            var = e * (1 - p)
            if not independent:
                var *= (size - len(g)) / (size - 1)
            if abs(got - e) > 6 * math.sqrt(var) + 3:
                raise Violation("C21.bias", f"{n}: {len(g)} of {size} rows ({g[0]}, ...) were "
                                f"drawn {got} times in {reps} runs, expected {e:.0f} ({t})")
        seen, e = sum(1 for x in match if counts[x]), size * (1 - (1 - p) ** reps)
        if seen < e - 6 * math.sqrt(e) - 3:
            raise Violation("C21.bias", f"{n}: only {seen} of {size} rows were ever drawn in {reps} "
                            f"runs, expected {e:.0f} ({t})")
        if independent:
            tot = sum(counts[x] for x in match)
            e = reps * p * len(match)
            if abs(tot - e) > 6 * math.sqrt(e * (1 - p)) + 3:
                raise Violation("C21.bias", f"{n}: {tot} rows drawn in {reps} runs, expected "
                                f"{e:.0f} ({t})")


# ------------------------------------------------------------------------------ completion
class C25(Check):
    id = "C25"
    rule = ("failure-free runs over random schemas with every feature, on every dialect pair, "
            "also as the first run after failed ones; non-trivial: rows were output")

    def generate(self, rng, index, tier):
        kind = rng.choice(["plain", "plain", "plain", "compact", "mult", "merge", "after"])
        kw = dict(tables=(1, 10), fks=(0, 4), odd_names=0.25, computed=0.15, infer=0.1,
                  clob_tag=0.1)
        if index % 43 == 7:
            return self.json_columns(rng)
        if kind == "compact":
            kw.update(pk={"int": 8, "composite": 2, "none": 1, "text": 1}, undeclared=0.0,
                      ignore_fk=0.0)
        if kind == "mult":
            kw.update(pk={"int": 8, "composite": 3, "none": 1, "shared": 1}, undeclared=0.0,
                      ignore_fk=0.0, unique_tag=0.0)
        if kind == "merge":
            kw.update(pk={"int": 8, "none": 1}, unique_ref=0.0, unique_tag=0.0, truncate=0.0,
                      ignore_fk=0.05, pk_values={"small": 4, "gap": 3},
                      dst={"same": 5, "sqlite": 1, "postgresql": 1, "mysql": 1})
        case = base_case(rng, **kw)
        case["kind"] = kind
        if kind in ("compact", "mult"):
            limit_dst_fks(case)
        if kind == "compact":
            add_compaction(rng, case)
            if not allowed_compaction(case):
                case["config"]["sampler"].pop("compact")
        if kind == "mult":
            copies_by_multiplicity_only(case)
            add_multiplicity(rng, case)
            drop_inconsistent(case)
            if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
                case["config"]["sampler"].pop("multiplicity")
        if kind == "merge":
            strip_uniques(case)
            limit_dst_fks(case)
            case["config"]["dest"]["merge"] = True
            if not case.get("create"):
                add_prior(rng, case, overlap=0.3)
            case["repeat"] = rng.choice([1, 1, 2])
        if kind == "after":
            case["n_fail"] = rng.choice([1, 2])
            if db_dst(case):
                case["truncate"] = True
        if rng.random() < 0.3:
            from .checks_out import gen_filters

            fs = {}
            for n in sorted(Levels(case).planned()):
                if rng.random() < 0.5:
                    chain = gen_filters(rng, case, n, every=True)
                    # (bytes have no zero)
                    if any(c["type"] == "bin" for c in tables_of(case)[n]["cols"]) and (
                            '"op": "zero"' in json.dumps(chain)):
                        continue
                    if chain:
                        fs[n] = chain
            if fs:
                case["config"]["sampler"]["filters"] = fs
        return case

    @staticmethod
    def json_columns(rng):
        """Tables with PostgreSQL's json columns, which cannot be compared."""
        case = base_case(rng, src={"postgresql": 1}, dst={"same": 2, "dir": 1}, tables=(2, 5),
                         rows=(1, 8), fks=(1, 3), extra_types=0.0, all_pk=0.0)
        case["kind"] = "json"
        for t in case["src"]["tables"] + case["dst"].get("tables", []):
            t["cols"].append({"name": "x_json0", "type": "json0", "null": True})
        for rows in case["data"].values():
            for r in rows:
                r["x_json0"] = rng.choice([None, "{}", "[1]", '{"a": 1}'])
        return case

    def known(self, case, viol):
        ops = {f["op"] for fs in case["config"]["sampler"].get("filters", {}).values() for f in fs}
        if "fake_license_plate" in ops and "licence_plate" in viol.message:
            return "fake-license-plate"
        if case.get("kind") == "json" and (
                "could not identify an equality operator for type json" in viol.message):
            return "json-union"
        return None

    def execute(self, case, ctx):
        inst = ctx.build(case)
        index = 0
        for i in range(case.get("n_fail", 0)):
            if case.get("history") is None:
                case["history"] = []
            if len(case["history"]) <= i:
                counts, _, _ = scen.dry_counts(ctx, inst, case)
                rng = gen.rng_for(case["seed"], "faults", i)
                case["history"].append(scen.draw_faults(rng, counts, run=i))
            sim = ctx.sim(case, faults=case["history"][i], inst=inst)
            ctx.run(sim, inst, i)
            index = i + 1
        sim = ctx.sim(case, inst=inst)
        before = ctx.clone(inst) if case["driver"] != "api" else None
        out = ctx.run(sim, inst, index)
        need(out.status != "hang", "C25.hang", f"the run does not end: {out.error}")
        if out.status != "ok":
            # the command line logs its reason; find it through the programming interface
            why = out.reason or out.error
            if out.rc is not None and out.reason is None:
                why = self.reason(case, ctx, before or inst) or why
            raise Violation("C25.failed", f"a failure-free run fails: {why}")
        n_tab = len(case["src"]["tables"]) + len(case["dst"].get("tables", ()))
        rows = source_rows(case) * 5 * max(1, case["config"]["sampler"].get(
            "multiplicity", {}).get("multiplier", 1)) * case.get("repeat", 1)
        n_ops = sum(v for k, v in sim.op_totals.items()
                    if not k.startswith("file") and not k.startswith("stdout"))
        bound = 3000 + 260 * n_tab * case.get("repeat", 1) + 12 * rows
        need(n_ops <= bound, "C25.ops", f"{n_ops} database operations for {n_tab} tables")
        ctx.stats.probes["ops_max"] = max(ctx.stats.probes["ops_max"], n_ops)
        ctx.nontrivial = total(inst.read_out()) > 0

    @staticmethod
    def reason(case, ctx, inst):
        sim = ctx.sim(case, inst=inst)
        ctx.sims.pop()
        out = ctx.run(sim, inst, 9, driver="api")
        return out.error


def source_rows(case):
    return sum(len(r) for r in case["data"].values())


CHECKS = [C01, C02, C03, C10, C11, C17, C20, C21, C25]
__all__ = ["CHECKS", "remap_name"]
