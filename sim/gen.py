"""Seeded generation of schemas, data, configurations, writers and faults."""
import collections
import copy
import datetime
import glob

from .boot import RealRandom
from .model import FK, Levels, SQL_PREDS, planner_fks, remap_name, tkey, tables_of

WORDS = ["users", "orders", "item", "Region", "log_entry", "tag2", "accounts", "notes", "edge",
         "kind", "parts", "Batch", "city", "shop", "unit"]
ODD = ["order by", "Group", "a[b]c", "st*r", "a-b", "über", "x'y", 'q"t', "select", "per%cent", "c:d",
       "UPPER", "CamelCase", "1st"]
VOCAB = ["ab", "abc", "ba", "c_d", "", "a%", "zz", "x y", "ünï", "a'b", 'q"', "line\nbreak",
         "null", "0"]


def rng_for(*parts):
    return RealRandom(":".join(str(p) for p in parts))


def pick(rng, weighted):
    """Weighted choice from {value: weight} or list."""
    if isinstance(weighted, dict):
        items = list(weighted)
        return rng.choices(items, [weighted[i] for i in items])[0]
    return rng.choice(list(weighted))


DEFAULT = dict(
    src={"sqlite": 5, "postgresql": 4, "mysql": 3},
    dst={"same": 7, "sqlite": 1, "postgresql": 1, "mysql": 1, "dir": 1},
    tables=(2, 7),
    rows=(0, 12),
    fks=(0, 3),
    pk={"int": 10, "composite": 2, "text": 1, "none": 1, "shared": 1},
    null_fk=0.4,
    unique_ref=0.12,
    unique_fk=0.05,
    key_order=0.4,
    undeclared=0.1,
    infer=0.08,
    passthrough=0.3,
    ignore=0.12,
    ignore_fk=0.08,
    constraints=0.25,
    odd_names=0.08,
    multi_schema=0.3,
    n_targets={1: 6, 2: 4, 3: 2},
    targets={"all": 3, "in": 3, "like": 2, "sql": 2, "amount": 2, "percent": 1, "none": 1},
    extra_types=0.4,
    computed=0.08,
    driver={"api": 6, "cli-subset": 3, "cli-plan-sample": 2},
    small_buffers=0.8,
    include_deps_false=0.06,
    all_pk=0.08,
    select_glob=0.4,
    indexes=0.4,
    autoinc=0.7,
    unique_tag=0.3,
    clob_tag=0.0,
    remap=0.25,
    create=0.25,
    truncate=0.2,
    dst_data="none",
    dst_extra=0.0,
    dst_fks=1.0,
    create_missing="some",
    permute=0.8,
    session=0.2,
    pk_values={"small": 6, "gap": 3, "big": 1, "neg": 1},
)


def profile(**kw):
    p = copy.deepcopy(DEFAULT)
    for k in kw:
        if k not in p:
            raise KeyError(k)
    p.update(kw)
    return p


# ------------------------------------------------------------------------------ schema
def gen_schema(rng, p, dialect):
    n = rng.randint(*p["tables"])
    if dialect == "sqlite":
        schemas = ["main"]
        if rng.random() < p["multi_schema"]:
            schemas = rng.choice([["main", "aux1"], ["app", "crm"], ["main", "s2", "s3"]])
    else:
        schemas = ["app"]
        if rng.random() < p["multi_schema"]:
            schemas = ["app", "crm"]
    names = list(WORDS)
    rng.shuffle(names)
    odd = rng.random() < p["odd_names"]
    if odd:
        mixed = list(ODD)
        rng.shuffle(mixed)
        names = [mixed.pop() if rng.random() < 0.5 and mixed else x for x in names]
    if dialect == "mysql":
        names = [x for x in names if x not in ("t.dot",)]
    tables = []
    infer = rng.random() < p["infer"]
    by_schema = {s: [] for s in schemas}
    for i in range(n):
        schema = rng.choice(schemas)
        name = names[i]
        t = {
            "schema": schema, "name": name, "cols": [], "pk": [], "uniques": [], "fks": [],
            "indexes": [], "checks": [], "xfks": [],
        }
        # tables this one may reference
        parents = [x for x in tables if x["pk"] or x["uniques"]]
        if dialect == "sqlite":
            declared_ok = [x for x in parents if x["schema"] == schema]
        else:
            declared_ok = parents
        kind = pick(rng, p["pk"])
        pkname = rng.choice(["id", "id", f"{name}_id".replace(" ", "_")])
        if infer:
            # several tables with one key name: nothing may be inferred for these
            pkname = "id" if rng.random() < 0.4 else f"{name}_id".replace(" ", "_")
        if odd and rng.random() < 0.3:
            pkname = rng.choice(["Id", "key", "primary id"])
        if kind == "shared":
            cands = [x for x in declared_ok if len(x["pk"]) == 1 and _ptype(x) in ("int", "bigint")]
            if not cands:
                kind = "int"
        if kind == "int":
            typ = "bigint" if rng.random() < 0.1 and dialect != "sqlite" else "int"
            auto = rng.random() < p["autoinc"]
            t["cols"].append({"name": pkname, "type": typ, "null": False, "autoinc": auto})
            t["pk"] = [pkname]
        elif kind == "text":
            t["cols"].append({"name": pkname, "type": "text", "null": False})
            t["pk"] = [pkname]
        elif kind == "shared":
            par = rng.choice(cands)
            t["cols"].append({"name": pkname, "type": _ptype(par), "null": False})
            t["pk"] = [pkname]
            _add_fk(t, [pkname], par, par["pk"])
        elif kind == "composite":
            cols = []
            for j in range(2):
                cands = [x for x in declared_ok if len(x["pk"]) == 1
                         and _ptype(x) in ("int", "bigint")]
                cn = f"k{j}"
                if cands and rng.random() < 0.5:
                    par = rng.choice(cands)
                    t["cols"].append({"name": cn, "type": _ptype(par), "null": False})
                    _add_fk(t, [cn], par, par["pk"])
                else:
                    t["cols"].append({"name": cn, "type": "int", "null": False})
                cols.append(cn)
            t["pk"] = cols
        nfk = rng.randint(*p["fks"])
        for j in range(nfk):
            undecl = rng.random() < p["undeclared"]
            cands = parents if undecl else declared_ok
            if not cands:
                break
            par = cands[-1] if rng.random() < 0.3 else rng.choice(cands)
            keys = ([par["pk"]] if par["pk"] else []) + [u["cols"] for u in par["uniques"]]
            rcols = keys[0] if rng.random() > p["unique_ref"] or len(keys) == 1 else rng.choice(keys[1:])
            null = rng.random() < p["null_fk"]
            cols = []
            if len(rcols) > 1 and dialect != "mysql" and rng.random() < p["key_order"]:
                rcols = list(reversed(rcols))
            for r in rcols:
                pc = _col(par, r)
                cn = f"r{j}_{r}".replace(" ", "_") if len(rcols) > 1 else f"ref{j}"
                t["cols"].append({"name": cn, "type": pc["type"], "null": null})
                cols.append(cn)
            if undecl:
                t["xfks"].append({"cols": cols, "ref": [par["schema"], par["name"]],
                                  "rcols": list(rcols)})
            else:
                _add_fk(t, cols, par, rcols)
            if len(cols) == 1 and rng.random() < p["unique_fk"] and p["unique_ref"]:
                # at most one row for each; others may refer to it by this column
                t["uniques"].append({"name": f"uq_{i}_r{j}", "cols": list(cols)})
        if infer and rng.random() < 0.6:
            # an undeclared key that is recognised by its name
            cands = [x for x in tables if len(x["pk"]) == 1 and x["pk"] != ["id"]
                     and not any(c["name"].lower() == x["pk"][0].lower() for c in t["cols"])]
            if cands:
                par = rng.choice(cands)
                t["cols"].append({"name": par["pk"][0], "type": _ptype(par),
                                  "null": rng.random() < p["null_fk"]})
                t["xfks"].append({"cols": [par["pk"][0]], "ref": [par["schema"], par["name"]],
                                  "rcols": list(par["pk"]), "infer": True})
        t["cols"].append({"name": "tag", "type": "text", "null": False})
        if rng.random() < p["unique_tag"]:
            t["uniques"].append({"name": f"uq_{i}_tag", "cols": ["tag"]})
        t["cols"].append({"name": "v", "type": "int", "null": True})
        t["cols"].append({"name": "s", "type": "text", "null": True})
        if rng.random() < p["unique_ref"] * 2:
            t["cols"].append({"name": "u", "type": "int", "null": False})
            t["uniques"].append({"name": f"uq_{i}_u", "cols": ["u"]})
        if rng.random() < p["extra_types"]:
            for ty in rng.sample(["float", "bool", "date", "num", "ts", "bin", "time", "json", "enum"],
                                 rng.randint(1, 2)):
                t["cols"].append({"name": f"x_{ty}", "type": ty, "null": True})
        if rng.random() < p["computed"]:
            t["cols"].append({"name": "cmp", "type": "int", "null": True, "computed": "v + 1"})
        if rng.random() < p["indexes"]:
            t["indexes"].append({"name": f"ix_{i}_v", "cols": ["v"], "unique": False})
        if rng.random() < p["indexes"] * 0.4:
            t["indexes"].append({"name": f"ix_{i}_vs", "cols": ["v", "tag"], "unique": True})
        if rng.random() < 0.1:
            cols = t["cols"]
            head, tail = cols[: len(t["pk"])], cols[len(t["pk"]):]
            rng.shuffle(tail)
            t["cols"] = tail[:1] + head + tail[1:]
        tables.append(t)
        by_schema[schema].append(t)
    if rng.random() < p["all_pk"] and "composite" in p["pk"]:
        # a table that is nothing but its key, as those between two others often are
        used = {tuple(f["ref"]) for t in tables for f in t["fks"] + t.get("xfks", [])}
        cands = [t for t in tables if (t["schema"], t["name"]) not in used
                 and not any(c.get("computed") or c["name"].startswith("x_") for c in t["cols"])
                 and not any(x.get("infer") for x in t["xfks"])]
        if cands:
            t = rng.choice(cands)
            for c in t["cols"]:
                c["null"], c["autoinc"] = False, False
            t["pk"] = [c["name"] for c in t["cols"]]
    return schemas, tables


def _col(t, name):
    return next(c for c in t["cols"] if c["name"] == name)


def _ptype(t):
    return _col(t, t["pk"][0])["type"]


def _add_fk(t, cols, par, rcols):
    t["fks"].append({
        "name": f"fk_{t['name']}_{len(t['fks'])}".replace(" ", "_"), "cols": list(cols),
        "ref": [par["schema"], par["name"]], "rcols": list(rcols),
    })


# ------------------------------------------------------------------------------ data
def gen_value(rng, typ):
    if typ in ("int", "bigint"):
        return rng.randint(0, 5)
    if typ in ("text", "clob"):
        return rng.choice(VOCAB)
    if typ == "float":
        return rng.choice([0.0, 1.5, -2.25, 1e10, 0.1, 0.12345678901234567, 1e-12, -3e200])
    if typ == "bool":
        return rng.random() < 0.5
    if typ == "date":
        return (datetime.date(2020, 1, 1) + datetime.timedelta(days=rng.randint(0, 900))).isoformat()
    if typ == "ts":
        return str(datetime.datetime(2020, 1, 1) + datetime.timedelta(
            seconds=rng.randint(0, 9 * 10**7)))
    if typ == "time":
        return f"{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}:{rng.randint(0, 59):02d}"
    if typ == "bin":
        return rng.choice(["", "00", "ff00fe", "61622722", "5c27", "0a0d"])
    if typ in ("json", "json0"):
        return rng.choice(["{}", "[]", '{"a": 1}', '{"a": {"b": [null, "x"]}, "c": "\u00e9\\u0027"}'])
    if typ == "enum":
        return rng.choice(["sad", "ok"])
    if typ == "num":
        return rng.choice(["0.00", "1.50", "-3.25", "1234567.89"])
    raise KeyError(typ)


def pk_value(rng, mode, i):
    if mode == "small":
        return rng.randint(1, 30)
    if mode == "gap":
        return rng.choice([rng.randint(1, 50), rng.randint(1000, 100000)])
    if mode == "big":
        return rng.randint(2**30, 2**31 - 10**6)
    return rng.randint(-20, 20)


class Rows:
    """Rows of a database under construction; knows the keys in use."""

    def __init__(self, tables, rng, p, prefix=""):
        self.tables = {tkey(t): t for t in tables}
        self.rng = rng
        self.p = p
        self.prefix = prefix
        self.data = {k: [] for k in self.tables}
        self.n = {k: 0 for k in self.tables}
        self.modes = {k: pick(rng, p["pk_values"]) for k in self.tables}
        self.used = {k: {} for k in self.tables}

    def fks(self, t):
        return t["fks"] + t.get("xfks", [])

    def make(self, k, fresh_keys=True):
        """A new valid row for table k, or None."""
        rng, t = self.rng, self.tables[k]
        for _ in range(30):
            row = {}
            bad = False
            for fk in self.fks(t):
                ref = ".".join(fk["ref"])
                nullable = all(_col(t, c).get("null", True) for c in fk["cols"])
                cands = [r for r in self.data.get(ref, [])
                         if all(r[rc] is not None for rc in fk["rcols"])]
                if nullable and (not cands or rng.random() < 0.2):
                    for c in fk["cols"]:
                        row[c] = None
                    if len(fk["cols"]) > 1 and rng.random() < 0.3:
                        c = rng.choice(fk["cols"])
                        row[c] = gen_value(rng, _col(t, c)["type"])
                    continue
                if not cands:
                    bad = True
                    break
                par = rng.choice(cands)
                for c, rc in zip(fk["cols"], fk["rcols"]):
                    row[c] = par[rc]
            if bad:
                return None
            self.n[k] += 1
            i = self.n[k]
            for c in t["cols"]:
                name = c["name"]
                if name in row or c.get("computed"):
                    continue
                if name == "tag":
                    row[name] = f"{self.prefix}{t['name'][:20]}:{i}"
                elif name in t["pk"]:
                    if c["type"] == "text":
                        row[name] = f"{self.prefix}k{rng.randint(0, 99)}"
                    elif len(t["pk"]) > 1:
                        row[name] = rng.randint(1, 6)
                    else:
                        row[name] = pk_value(rng, self.modes[k], i)
                elif name == "u":
                    row[name] = rng.randint(1, 1000)
                elif c.get("null", True) and rng.random() < 0.2:
                    row[name] = None
                else:
                    row[name] = gen_value(rng, c["type"])
            if self.accept(k, row):
                return {c["name"]: row[c["name"]] for c in t["cols"] if c["name"] in row}
        return None

    def uniques(self, t):
        res = [t["pk"]] if t["pk"] else []
        res += [u["cols"] for u in t["uniques"]]
        res += [ix["cols"] for ix in t["indexes"] if ix.get("unique")]
        return res

    def accept(self, k, row):
        t = self.tables[k]
        keys = []
        for cols in self.uniques(t):
            v = tuple(row[c] for c in cols)
            if None in v:
                continue
            if v in self.used[k].setdefault(tuple(cols), set()):
                return False
            keys.append((tuple(cols), v))
        for cols, v in keys:
            self.used[k][cols].add(v)
        return True

    def add(self, k, count):
        for _ in range(count):
            row = self.make(k)
            if row is None:
                break
            self.data[k].append(row)


def gen_data(rng, tables, p, prefix="", rows=None):
    b = Rows(tables, rng, p, prefix)
    lo, hi = rows or p["rows"]
    for t in tables:
        b.add(tkey(t), rng.randint(lo, hi))
    for k in b.data:
        rng.shuffle(b.data[k])
    return b


# ------------------------------------------------------------------------------ planner
def gen_target(rng, p, rows):
    kind = pick(rng, p["targets"])
    t = {}
    vs = [r["v"] for r in rows if r["v"] is not None] or [1]
    if kind == "all":
        t["all"] = True
        # overrides everything else
        if rng.random() < 0.15:
            t["amount"] = rng.choice([0, 1, 3])
        if rng.random() < 0.1:
            t["percent"] = rng.choice([0, 10, 50])
        if rng.random() < 0.1:
            t["sql"] = rng.choice(list(SQL_PREDS))
        if rng.random() < 0.1:
            t["in"] = {"v": [rng.choice(vs)]}
        return t
    if kind == "in" or (kind in ("amount", "percent") and rng.random() < 0.3):
        col = rng.choice(["v", "tag"])
        if col == "v":
            t["in"] = {"v": sorted(set(rng.choices(vs, k=rng.randint(1, 3))))}
        else:
            tags = [r["tag"] for r in rows] or ["none"]
            t["in"] = {"tag": sorted(rng.sample(tags, min(len(tags), rng.randint(1, 5))))}
    if kind == "like":
        t["like"] = {"s": rng.sample(["a%", "%b%", "_b%", "%", "z_", "c\\_d"][:5], rng.randint(1, 2))}
        if rng.random() < 0.3:
            t["in"] = {"v": sorted(set(rng.choices(vs, k=2)))}
    if kind == "sql" or (kind in ("in", "like", "amount", "percent") and rng.random() < 0.25):
        t["sql"] = rng.choice(list(SQL_PREDS))
    if kind == "amount":
        t["amount"] = rng.choice([0, 1, 2, 3, 5, 50])
    if kind == "percent":
        t["percent"] = rng.choice([0, 10, 50, 90, 100, 33.3])
    return t


def gen_planner(rng, p, case, rows):
    tables = case["src"]["tables"]
    names = [tkey(t) for t in tables]
    pl = {}
    # undeclared keys: extra_fks or inference (inference needs matching names: not generated here)
    extra = []
    inferred = [(t, x) for t in tables for x in t.get("xfks", ()) if x.get("infer")]
    if inferred:
        cross = any(x["ref"][0] != t["schema"] for t, x in inferred)
        pl["infer_foreign_keys"] = "all" if cross else rng.choice(["all", "schema"])
        case["config"]["sampler"]["infer_foreign_keys"] = pl["infer_foreign_keys"]
    for t in tables:
        for x in t.get("xfks", ()):
            if x.get("infer"):
                continue
            extra.append({
                "src_table": tkey(t), "src_columns": list(x["cols"]),
                "dst_table": ".".join(x["ref"]), "dst_columns": list(x["rcols"]),
            })
    if extra:
        pl["extra_fks"] = extra
    fks = [FK(tkey(t), f["cols"], ".".join(f["ref"]), f["rcols"]) for t in tables
           for f in t["fks"] + t.get("xfks", [])]
    parents = {n: {f.ref for f in fks if f.table == n} for n in names}
    passthrough = []
    if rng.random() < p["passthrough"]:
        cands = list(names)
        rng.shuffle(cands)
        for c in cands[: rng.randint(1, 2)]:
            closure, stack = {c}, [c]
            while stack:
                for q in parents[stack.pop()]:
                    if q not in closure:
                        closure.add(q)
                        stack.append(q)
            if len(closure) <= 3 and len(closure | set(passthrough)) < len(names):
                passthrough = [n for n in names if n in closure or n in passthrough]
    ignore = []
    if rng.random() < p["ignore"]:
        leaves = [n for n in names if not any(f.ref == n for f in fks) and n not in passthrough]
        rng.shuffle(leaves)
        ignore = leaves[:1]
    free = [n for n in names if n not in passthrough and n not in ignore]
    if not free:
        ignore, free = [], [n for n in names if n not in passthrough]
    if not free:
        passthrough, free = [], list(names)
    k = min(len(free), pick(rng, p["n_targets"]))
    targets = {n: gen_target(rng, p, rows[n]) for n in rng.sample(free, k)}
    no_deps = rng.random() < p["include_deps_false"]
    if no_deps:
        # what selected tables refer to is left out (and so may be what others refer to)
        pl["include_dependencies"] = False
    if rng.random() < p["select_glob"] * (0.2 if no_deps else 1):
        schemas = sorted({t["schema"] for t in tables})
        pl["select"] = [f"{s}.*" for s in schemas]
    else:
        sel = [n for n in names if rng.random() < (0.6 if no_deps else 0.85) or n in targets or n in ignore
               or (n in passthrough and glob.escape(n) != n)]
        sel = [glob.escape(n) for n in sel]
        rng.shuffle(sel)
        pl["select"] = sel
    pl["targets"] = targets
    if passthrough:
        rng.shuffle(passthrough)
        pl["passthrough"] = passthrough
    if ignore:
        pl["ignore"] = ignore
    if rng.random() < p["ignore_fk"]:
        decl = [f for f in fks if f.table not in passthrough]
        if decl:
            f = rng.choice(decl)
            pl["ignore_fks"] = [{"src_table": f.table, "dst_table": f.ref}]
    case["config"]["planner"] = pl
    # constraints are allowed where the table is filtered by what it references
    if rng.random() < p["constraints"]:
        lv = Levels(case)
        back = [n for n in lv.level if lv.backward(n) and n not in targets]
        if not back or rng.random() < 0.35:
            # ... or for targets nothing sampled before them refers to
            incoming = collections.defaultdict(list)
            for f in planner_fks(case):
                if f.table in lv.level and f.table != f.ref:
                    incoming[f.ref].append(f.table)
            back += [n for n in targets if n in lv.level and all(
                lv.backward(t) for t in incoming[n])]
        if back:
            n = rng.choice(sorted(back))
            cons = []
            for _ in range(rng.randint(1, 2)):
                if rng.random() < 0.6:
                    cons.append({"column": "v", "operator": rng.choice(["<", ">", "=", "<>", "!="]),
                                 "value": rng.randint(0, 4)})
                else:
                    cons.append({"column": "s", "operator": rng.choice(["like", "not like"]),
                                 "value": rng.choice(["a%", "%b%", "_b%"])})
            pl["table_constraints"] = {n: cons}
    return pl


# ------------------------------------------------------------------------------ destination
def dst_schema_names(schemas, dialect):
    return schemas


def gen_case(rng, p):
    dialect = pick(rng, p["src"])
    case = {"config": {"sampler": {}}}
    schemas, tables = gen_schema(rng, p, dialect)
    case["src"] = {"dialect": dialect, "schemas": schemas, "tables": tables}
    b = gen_data(rng, tables, p)
    case["data"] = b.data
    gen_planner(rng, p, case, b.data)
    gen_dst(rng, p, case)
    case["driver"] = pick(rng, p["driver"])
    if rng.random() < p["small_buffers"]:
        case["buffers"] = [rng.choice([1, 2, 3, 7]), rng.choice([1, 2, 3, 7])]
    case["knobs"] = {
        "permute": rng.random() < p["permute"],
        "reverse_unordered": rng.random() < 0.3,
        "catalog_seed": rng.randint(0, 10**6),
        "entropy": rng.randint(0, 10**6),
        "dst_fk_enforce": rng.random() < 0.5,
        "file_buffer": rng.choice([16, 64, 256, 8192]),
    }
    if rng.random() < p["session"] and dialect == "postgresql":
        case["config"].setdefault("source", {})["session_sqls"] = ["SET statement_timeout = 0"]
    if case["src"].get("wal") is None:
        case["src"]["wal"] = rng.random() < 0.5
    return case


def add_unknown_names(rng, case):
    """Mention tables and columns that do not exist, which is warned about and otherwise
    ignored."""
    pl = case.get("config", {}).get("planner")
    if not isinstance(pl, dict) or rng.random() >= 0.08:
        return
    tables = case["src"]["tables"]
    t = rng.choice(tables)
    gone = [t["schema"], "gone"]
    one, col = tkey(t), t["cols"][0]["name"]
    extra = [
        {"src_table": ".".join(gone), "src_columns": [col], "dst_table": one,
         "dst_columns": [col]},
        {"src_table": one, "src_columns": ["gone"], "dst_table": one, "dst_columns": [col]},
        {"src_table": one, "src_columns": [col], "dst_table": ".".join(gone),
         "dst_columns": [col]},
        {"src_table": one, "src_columns": [col], "dst_table": one, "dst_columns": ["gone"]},
    ]
    rng.shuffle(extra)
    if rng.random() < 0.6:
        pl["extra_fks"] = extra[: rng.randint(1, 4)] + pl.get("extra_fks", [])
    if rng.random() < 0.4:
        pl["ignore_fks"] = [{"src_table": ".".join(gone), "dst_table": one}] + pl.get(
            "ignore_fks", [])
    if rng.random() < 0.4:
        pl["passthrough"] = [".".join(gone)] + pl.get("passthrough", [])
    if rng.random() < 0.3:
        pl["ignore"] = [".".join(gone)] + pl.get("ignore", [])
    sampler = case["config"].get("sampler") or {}
    if isinstance(sampler.get("compact"), dict):
        if rng.random() < 0.5:
            sampler["compact"]["columns"] = {".".join(gone): ["id"],
                                             **sampler["compact"].get("columns", {})}
    if isinstance(sampler.get("filters"), dict) and rng.random() < 0.5:
        sampler["filters"] = {".".join(gone): [{"op": "null", "columns": ["gone"]}],
                              **sampler["filters"]}


def drop_types(case, t, types):
    t["cols"] = [c for c in t["cols"] if c["type"] not in types]
    for r in case["data"][tkey(t)]:
        for ty in types:
            r.pop(f"x_{ty}", None)


def gen_dst(rng, p, case):
    kind = pick(rng, p["dst"])
    src = case["src"]
    if kind == "dir":
        if src["dialect"] == "mysql":
            for t in src["tables"]:
                drop_types(case, t, ("time",))
        case["dst"] = {"kind": "dir"}
        case["create"] = rng.random() < 0.2
        case["truncate"] = rng.random() < 0.2
        return
    dialect = src["dialect"] if kind == "same" else kind
    cross = dialect != src["dialect"]
    if cross or src["dialect"] == "mysql":
        # (MySQL's TIME is an interval; the others differ in the types they have)
        for t in src["tables"]:
            drop_types(case, t, ("time", "ts", "bin", "json", "enum") if cross else ("time",))
    if cross and src["dialect"] == "mysql":
        # TINYINT(1) values are integers, which other servers refuse for BOOLEAN columns, and
        # DOUBLE is no type name elsewhere
        for t in src["tables"]:
            drop_types(case, t, ("bool", "float"))
    if dialect == "mysql" and cross:
        # (which wants the columns of a reference in the order of the key)
        tabs = {tkey(t): t for t in src["tables"]}
        for t in src["tables"]:
            for fk in t["fks"]:
                names = [c["name"] for c in tabs[".".join(fk["ref"])]["cols"]]
                pairs = sorted(zip(fk["cols"], fk["rcols"]), key=lambda x: names.index(x[1]))
                fk["cols"], fk["rcols"] = [a for a, _ in pairs], [b for _, b in pairs]
    rules = []
    if cross or rng.random() < p["remap"]:
        mode = rng.choice(["schema", "prefix", "chain"])
        if cross and ("sqlite" in (dialect, src["dialect"])):
            mode = "schema"
        if mode == "schema":
            rules = [{"search": r"^(\w+)\.", "replace": r"\1_out."}]
        elif mode == "prefix":
            rules = [{"search": r"^(\w+)\.(.*)$", "replace": r"\1.cp_\2"}]
            if RealRandom(repr([tkey(t) for t in src["tables"]])).random() < 0.4:
                # each of several matches in a name is replaced
                rules = [{"search": r"([aeos])(?=\w*$)", "replace": r"\1_"}]
        else:
            rules = [
                {"search": r"^(\w+)\.", "replace": r"\1_tmp."},
                {"search": r"^(\w+)_tmp\.", "replace": r"\1_out.o_"},
            ]
    dest = {}
    if rules:
        dest["remap"] = rules
    case["config"]["dest"] = dest
    tables = make_dst_tables(case, dialect)
    schemas = sorted({t["schema"] for t in tables} | (
        {"main"} if dialect == "sqlite" else set()))
    case["dst"] = {"kind": "db", "dialect": dialect, "schemas": schemas, "tables": tables,
                   "data": {}}
    # (create copies every key of the source schema, also the ones the planner was told to ignore)
    case["create"] = rng.random() < p["create"] and not case["config"]["planner"].get("ignore_fks")
    case["truncate"] = rng.random() < p["truncate"]
    if case["create"]:
        drop_tables(rng, p, case)


def make_dst_tables(case, dialect):
    src = case["src"]
    have = {tkey(t) for t in src["tables"]}
    planned = Levels(case).planned()
    kept = {tuple(remap_name(case, n).split(".", 1)) for n in planned}
    res = []
    for t in src["tables"]:
        s, n = remap_name(case, tkey(t)).split(".", 1)
        d = copy.deepcopy(t)
        d.pop("xfks", None)
        d["schema"], d["name"] = s, n
        for fk in d["fks"]:
            if ".".join(fk["ref"]) in have:
                fk["ref"] = remap_name(case, ".".join(fk["ref"])).split(".", 1)
        ignored = {
            tuple(remap_name(case, x["dst_table"]).split(".", 1))
            for x in case["config"]["planner"].get("ignore_fks", ())
            if x["src_table"] == tkey(t)
        }
        d["fks"] = [fk for fk in d["fks"] if tuple(fk["ref"]) not in ignored]
        if dialect == "sqlite":
            d["fks"] = [fk for fk in d["fks"] if fk["ref"][0] == s]
        if not case["config"]["planner"].get("include_dependencies", True):
            # references to tables that are left out cannot be enforced
            if tkey(t) in planned:
                d["fks"] = [fk for fk in d["fks"] if tuple(fk["ref"]) in kept]
        d["of"] = tkey(t)
        res.append(d)
    return res


def drop_tables(rng, p, case):
    """With create: take some planned tables out of the destination, and every key to them."""
    mode = p["create_missing"]
    planned = Levels(case).planned()
    dst = case["dst"]
    gone = {
        tkey(t) for t in dst["tables"]
        if t["of"] in planned and (mode == "all" or rng.random() < 0.6)
    }
    keep = [t for t in dst["tables"] if tkey(t) not in gone]
    for t in keep:
        t["fks"] = [f for f in t["fks"] if ".".join(f["ref"]) not in gone]
    dst["tables"] = keep


# ------------------------------------------------------------------------------ writers
def gen_writers(rng, case, rows_builder, points, mode, count):
    """Transactions of other clients, each valid on the state it is generated against.

    mode "append": inserts into tables that are not sampled as a whole (passthrough tables,
    targets with all) and updates of plain columns;
    mode "any": inserts, updates (also of references) and deletes anywhere."""
    b = rows_builder
    tables = tables_of(case)
    pas = set(case["config"]["planner"].get("passthrough", ()))
    pas |= {n for n, t in case["config"]["planner"]["targets"].items() if t.get("all")}
    res = []
    state = {k: [dict(r) for r in v] for k, v in b.data.items()}
    b.data = state
    for wid in range(count):
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(sorted(tables))
            t = tables[k]
            what = rng.random()
            if what < 0.55 or mode == "append" and what < 0.8:
                if mode == "append" and k in pas:
                    continue
                row = b.make(k)
                if row is None:
                    continue
                state[k].append(row)
                ops.append({"op": "ins", "table": k, "row": dict(row)})
            elif what < 0.85 or mode == "append":
                if not state[k]:
                    continue
                row = rng.choice(state[k])
                keyed = set()
                for u in b.uniques(t):
                    keyed |= set(u)
                for f in t["fks"] + t.get("xfks", []):
                    keyed |= set(f["cols"])
                if mode == "append" and k in pas:
                    continue
                sets = {}
                c = rng.choice(["v", "s"])
                if c not in keyed:
                    sets[c] = gen_value(rng, "int" if c == "v" else "text")
                if mode == "any":
                    fks = [f for f in t["fks"] + t.get("xfks", [])
                           if not (set(f["cols"]) & (set(t["pk"])))]
                    if fks and rng.random() < 0.7:
                        f = rng.choice(fks)
                        shared = [g for g in fks if g is not f and set(g["cols"]) & set(f["cols"])]
                        cands = state[".".join(f["ref"])]
                        if cands and not shared:
                            par = rng.choice(cands)
                            for cc, rc in zip(f["cols"], f["rcols"]):
                                sets[cc] = par[rc]
                if not sets:
                    continue
                row.update(sets)
                ops.append({"op": "upd", "table": k, "key": {"tag": row["tag"]}, "set": sets})
            else:
                if not state[k]:
                    continue
                row = rng.choice(state[k])
                if referenced(b, tables, state, k, row):
                    continue
                state[k].remove(row)
                ops.append({"op": "del", "table": k, "key": {"tag": row["tag"]}})
        if ops:
            op, n = rng.choice(points)
            res.append({"id": wid, "run": 0, "op": op, "n": n, "ops": ops})
    # the transactions have to run in the order they were generated in
    res2 = sorted(res, key=lambda w: (points.index((w["op"], w["n"]))))
    slots = [(w["op"], w["n"]) for w in res2]
    for w, (op, n) in zip(res, slots):
        w["op"], w["n"] = op, n
    return res


def referenced(b, tables, state, k, row):
    for k2, t2 in tables.items():
        for f in t2["fks"] + t2.get("xfks", []):
            if ".".join(f["ref"]) == k:
                v = tuple(row[c] for c in f["rcols"])
                for r in state[k2]:
                    if tuple(r[c] for c in f["cols"]) == v:
                        return True
    return False
