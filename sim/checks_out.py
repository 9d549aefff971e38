"""Checks of the output's form and of the run's surroundings: C15, C16, C18, C19."""
import json
import os
import sqlite3
import string

from . import gen, model, oracle, plugins, scen
from .base import (
    Check, DstWatch, add_prior, base_case, db_dst, limit_dst_fks, need, split_planned, succeeded,
)
from .checks_content import (
    add_compaction, add_multiplicity, allowed_compaction, consistent, copies_by_multiplicity_only,
    drop_inconsistent, merge_problems,
)
from .checks_dst import fk_off, merge_mode, rng_of, step_faults
from .gen import tkey
from .model import Levels, remap_name, tables_of
from .scen import Violation

DB = {"same": 8, "sqlite": 1, "postgresql": 1, "mysql": 1}


def add_mode(case, rng, mode):
    """Turn on the transformation `mode` names, where this case allows it."""
    if mode == "compact":
        add_compaction(rng, case)
        if not allowed_compaction(case):
            case["config"]["sampler"].pop("compact")
    if mode == "mult":
        copies_by_multiplicity_only(case)
        add_multiplicity(rng, case)
        drop_inconsistent(case)
        if oracle.impossible_multiplicity(case, Levels(case).planned()) or not consistent(case):
            case["config"]["sampler"].pop("multiplicity")


MODE_KW = dict(pk={"int": 8, "composite": 1, "none": 1}, undeclared=0.0, ignore_fk=0.0,
               unique_ref=0.0, unique_tag=0.0, pk_values={"small": 4, "gap": 3})


# ------------------------------------------------------------------------------ C15
def add_secrets(rng, case):
    """Columns of distinctive values, the same in no other row."""
    n = 0
    cross = case["dst"].get("dialect", case["src"]["dialect"]) != case["src"]["dialect"]
    for t in case["src"]["tables"]:
        cols = [{"name": "sec_t", "type": "text", "null": True},
                {"name": "sec_u", "type": rng.choice(["text", "clob"]), "null": True},
                {"name": "sec_i", "type": "int", "null": True}]
        if not cross:
            cols.append({"name": "sec_f", "type": "float", "null": True})
            cols.append({"name": "sec_d", "type": "date", "null": True})
            cols.append({"name": "sec_n", "type": "num", "null": True})
            cols.append({"name": "sec_b", "type": "bin", "null": True})
            cols.append({"name": "sec_s", "type": "ts", "null": True})
        if rng.random() < 0.5:
            cols = cols[:rng.randint(1, len(cols))]
        rng.shuffle(cols)
        at = rng.randint(0, len(t["cols"]))
        k = tkey(t)
        t["cols"][at:at] = cols
        for d in case["dst"].get("tables", ()):
            if d.get("of") == k:
                d["cols"] = [dict(c) for c in cols] + d["cols"] if rng.random() < 0.3 else (
                    d["cols"] + [dict(c) for c in cols])
        for r in case["data"][k]:
            n += 1
            for c in cols:
                r[c["name"]] = secret(c, n) if rng.random() < 0.85 else None


def secret(col, n):
    return {
        "text": f"SECRET{n:05d}{col['name'][-1]}x", "clob": f"SECRET{n:05d}{col['name'][-1]}x",
        "int": 1_600_000_000 + n, "float": 7_700_000_000.0 + n + 0.25, "num": f"88{n:08d}.25",
        "bin": f"SECRET{n:05d}bx".encode().hex(), "ts": f"{2200 + n % 700}-03-04 05:{n % 60:02d}:07",
        "date": f"{2100 + n // 300}-{1 + n % 12:02d}-{1 + (n // 12) % 25:02d}",
    }[col["type"]]


TEXT_FAKES = ["fake_email", "fake_first_name", "fake_last_name", "fake_name", "fake_phone_number",
              "fake_city", "fake_state", "fake_state_abbr", "fake_country_code",
              "fake_postal_code", "fake_street_name", "fake_vin",
              "fake_building_number", "fake_address", "fake_street_address", "fake_country"]
# (large enough for the tables of a case and small enough to repeat without `unique`)
UNIQUE_FAKES = ("fake_email", "fake_vin", "fake_first_name", "fake_last_name",
                "fake_country_code", "fake_country")
ALPHA = {
    "alnum": string.ascii_letters + string.digits, "hex": string.digits + "abcdef",
    "hex_lower": string.digits + "abcdef", "hex_upper": string.digits + "ABCDEF",
    "digit": string.digits, "alpha": string.ascii_letters, "alpha_lower": string.ascii_lowercase,
    "alpha_upper": string.ascii_uppercase,
}
KINDS = {"text": "text", "clob": "text", "int": "int", "bigint": "int", "float": "float",
         "date": "date", "num": "num", "bin": "bin", "ts": "ts"}


def gen_simple(rng, cols, simple=False, every=False):
    """One filter over `cols` ([(name, type)]); with `every`, also those known not to work."""
    names = [c for c, _ in cols]
    kinds = {KINDS[t] for _, t in cols}
    ops = ["null", "constant", "zero"]
    if not simple:
        ops.append("omit")
    if kinds == {"text"}:
        ops += ["random_string", "uuid", "fake", "fake", "plugin", "plugin_fixed"]
    if kinds == {"int"}:
        ops += ["random_int", "random_int"]
    if kinds == {"float"}:
        ops += ["random_float", "random_float", "fake_latitude", "fake_longitude"]
    op = rng.choice(ops)
    if op == "zero" and "bin" in kinds and (every or rng.random() < 0.8):
        op = "null"  # (such a run may fail)
    if op == "constant":
        vals = {"text": ["redacted", "", None, "x'y\"z"], "int": [0, 5, None, -3],
                "float": [0.5, None, 2.0], "date": [None], "num": [None], "bin": [None], "ts": [None]}
        return {"op": op, "columns": names, "values": [rng.choice(vals[KINDS[t]]) for _, t in cols]}
    if op == "random_string":
        a = rng.choice(sorted(ALPHA) + ["custom"])
        f = {"op": op, "columns": names, "length": rng.randint(1, 12), "alphabet": a}
        if a == "custom":
            f["custom_alphabet"] = rng.choice(["ab", "\u00e9\u03b1z", "0"])
        return f
    if op == "random_int":
        lo = rng.randint(-50, 50)
        return {"op": op, "columns": names, "low": lo, "high": lo + rng.randint(0, 20)}
    if op == "random_float":
        lo = rng.uniform(-5, 5)
        return {"op": op, "columns": names, "low": lo, "high": lo + rng.random()}
    if op in ("fake_latitude", "fake_longitude"):
        return {"op": op, "columns": names}
    if op == "fake":
        f = {"op": rng.choice(TEXT_FAKES + ["fake_license_plate"] * every), "columns": names}
        if len(names) == 1 and f["op"] in UNIQUE_FAKES and rng.random() < 0.4:
            f["unique"] = True
        return f
    if op == "plugin":
        return {"op": "plugin", "columns": names, "module": "sim.plugins", "class": "Scramble",
                "kwargs": {"prefix": rng.choice(["p", "q"])}}
    if op == "plugin_fixed":
        return {"op": "plugin", "columns": names, "module": "sim.plugins", "class": "Fixed"}
    return {"op": op, "columns": names}


def gen_conditions(rng, col, typ):
    """Conditions over a column (some cover every row), each with a filter to be filled in."""
    if typ in ("int", "bigint"):
        x = rng.randint(0, 5)
        some = [rng.randint(0, 5) for _ in range(rng.randint(0, 3))] + rng.choice([[], [None]])
    else:
        x = rng.choice(gen.VOCAB)
        some = [rng.choice(gen.VOCAB) for _ in range(rng.randint(0, 3))] + rng.choice([[], [None]])
    return rng.choice([
        [("=", x), ("!=", x)],
        [("in", some), ("not in", some)],
        [("is", None), ("is not", None)],
        [("is not", None)],
        [("=", x)],
        [("in", some)],
        [("!=", x), ("in", [x])],
    ])


def gen_filters(rng, case, name, every=False):
    """A chain of filters of a table."""
    t = tables_of(case)[name]
    used = {c for ft in case["src"]["tables"] for f in ft["fks"] + ft.get("xfks", [])
            for c in f["cols"] if tkey(ft) == name}
    used |= {c for f in model.planner_fks(case) for c in f.rcols if f.ref == name}
    used |= {c for u in t["uniques"] for c in u["cols"]} | set(t["pk"]) | {"tag"}
    used |= {c for ix in t["indexes"] if ix["unique"] for c in ix["cols"]}
    for ck in t.get("checks", ()):
        used |= {c["name"] for c in t["cols"] if c["name"] in ck["sql"]}
    computed = any(c.get("computed") for c in t["cols"])
    avail = [(c["name"], c["type"]) for c in t["cols"]
             if c["type"] in KINDS and c["name"] not in used and not c.get("computed")
             and c.get("null", True) and not (computed and c["name"] == "v")]
    pref = [c for c in avail if c[0].startswith("sec_")]
    chain, gone, touched = [], set(), set()
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        pool = [c for c in (pref if pref and rng.random() < 0.75 else avail) if c[0] not in gone]
        if not pool:
            break
        if rng.random() < 0.55:
            typ = KINDS[rng.choice(pool)[1]]
            pool = [c for c in pool if KINDS[c[1]] == typ]
        cols = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        if rng.random() < 0.25:
            sel = [c["name"] for c in t["cols"] if c["name"] in ("v", "s")
                   and c["name"] not in touched | gone and c["type"] in ("int", "text")]
            if sel:
                col = rng.choice(sel)
                conds = gen_conditions(rng, col, oracle.col(t, col)["type"])
                fs = [gen_simple(rng, rng.sample(cols, rng.randint(1, len(cols))), simple=True)
                      for _ in conds]
                chain.append({"op": "multiplex", "column": col, "conditions": [
                    {"op": o, "value": v, "apply": f} for (o, v), f in zip(conds, fs)]})
                for f in fs:
                    touched |= set(f["columns"])
                continue
        f = gen_simple(rng, cols, every=every)
        chain.append(f)
        touched |= set(f["columns"])
        if f["op"] == "omit":
            gone |= set(f["columns"])
    return chain


# -- reference model: what each column of a row may hold after the filters
def apply_spec(f, spec):
    op = f["op"]
    for i, c in enumerate(f["columns"]):
        old = spec.get(c)
        if op == "omit":
            spec.pop(c, None)
        elif op == "null":
            spec[c] = ("const", None)
        elif op == "zero":
            spec[c] = zero(old, c)
        elif op == "constant":
            spec[c] = ("const", f["values"][i])
        elif op == "random_int":
            spec[c] = ("int", f["low"], f["high"])
        elif op == "random_float":
            spec[c] = ("float", f["low"], f["high"])
        elif op == "random_string":
            spec[c] = ("str", f["length"], ALPHA.get(f["alphabet"]) or f["custom_alphabet"])
        elif op == "uuid":
            spec[c] = ("uuid",)
        elif op.startswith("fake_"):
            spec[c] = ("fake", op)
        elif op == "plugin" and f["class"] == "Fixed":
            spec[c] = ("const", "fixed")
        elif op == "plugin":
            spec[c] = ("token", f["kwargs"]["prefix"], old)


def zero(old, col):
    kind = old[0]
    if kind in ("orig", "const"):
        v = old[1]
        if v is None:
            return ("const", None)
        if col in ("sec_d", "x_date"):
            return ("const", "1970-01-01")
        if col in ("sec_s", "x_ts"):
            return ("const", "1970-01-01 00:00:00")
        if col in ("sec_b", "x_bin"):
            return ("const", "")  # (refused)
        if col in ("sec_n", "x_num"):
            return ("const", "0.00")
        return ("const", "" if isinstance(v, str) else 0)
    if kind == "token":
        base = old
        while base[0] == "token":
            base = base[2]
        if base[0] in ("orig", "const") and base[1] is None:
            return ("const", None)
        return ("const", "")
    return ("const", 0 if kind in ("int", "float") or old[1:] in COORDINATES else "")


COORDINATES = {("fake_latitude",): 90, ("fake_longitude",): 180}


def number(v):
    """Decimals are written to JSON as text."""
    try:
        return float(v) if not isinstance(v, bool) else None
    except (TypeError, ValueError):
        return None


def glob_match(pat, text):
    """Shell-style match: *, ?, [abc], [!a-c]."""
    if not pat:
        return not text
    c, rest = pat[0], pat[1:]
    if c == "*":
        return any(glob_match(rest, text[i:]) for i in range(len(text) + 1))
    if not text:
        return False
    end = rest.find("]", 2 if rest.startswith("!") else 1)
    if c == "[" and end > 0:
        body, neg = rest[:end], rest.startswith("!")
        body = body[neg:]
        hit, i = False, 0
        while i < len(body):
            if body[i + 1:i + 2] == "-" and i + 2 < len(body):
                hit |= body[i] <= text[0] <= body[i + 2]
                i += 3
            else:
                hit |= body[i] == text[0]
                i += 1
        return hit != neg and glob_match(rest[end + 1:], text[1:])
    return (c == "?" or c == text[0]) and glob_match(rest, text[1:])


def cond_match(op, val, v):
    if op in ("<", ">", "<=", ">=", "matches") and v is None:
        return False  # null compares with nothing
    if op == "matches":
        return glob_match(val, v)
    if op in ("<", ">", "<=", ">="):
        return {"<": v < val, ">": v > val, "<=": v <= val, ">=": v >= val}[op]
    if op == "is":
        return v is None
    if op == "is not":
        return v is not None
    if op == "in":
        return v in val
    if op == "not in":
        return v not in val
    return (v == val) == (op == "=")


def row_spec(filters, row):
    spec = {c: ("orig", v) for c, v in row.items()}
    for f in filters:
        if f["op"] == "multiplex":
            v = spec[f["column"]][1]
            for c in f["conditions"]:
                if cond_match(c["op"], c["value"], v):
                    apply_spec(c["apply"], spec)
                    break
        else:
            apply_spec(f, spec)
    return spec


def allowed(spec, v):
    kind = spec[0]
    if kind == "const":
        return v == spec[1] or (spec[1] == 0 and number(v) == 0)
    if kind == "int":
        return isinstance(v, int) and spec[1] <= v <= spec[2]
    if kind == "float":
        return isinstance(v, (int, float)) and spec[1] - 1e-9 <= v <= spec[2] + 1e-9
    if kind == "str":
        return isinstance(v, str) and len(v) == spec[1] and set(v) <= set(spec[2])
    if kind == "uuid":
        return isinstance(v, str) and len(v) == 36 and v.count("-") == 4
    if kind == "fake" and spec[1:] in COORDINATES:
        return number(v) is not None and abs(number(v)) <= COORDINATES[spec[1:]]
    if kind == "fake":
        return isinstance(v, str) and v != "" and (spec[1] != "fake_email" or "@" in v)
    if kind == "token":
        if v is None:
            return True
        inner = spec[2]
        if inner[0] in ("orig", "const"):
            return inner[1] is not None and v == plugins.token(spec[1], inner[1])
        return isinstance(v, str) and v.startswith(spec[1] + "-")
    return True


def uniques_of(filters):
    """Columns whose last filter draws distinct values."""
    last = {}
    for f in filters:
        for g in ([c["apply"] for c in f["conditions"]] if f["op"] == "multiplex" else [f]):
            for c in g["columns"]:
                last[c] = f
    return {c for c, f in last.items() if f.get("unique") and len(f["columns"]) == 1}


class Secrets:
    """The original values that must not appear in the output of a case."""

    def __init__(self, case):
        self.filters = case["config"]["sampler"].get("filters", {})
        self.specs = {}
        self.values = {}
        self.texts = set()
        kept = set()
        for n, fs in self.filters.items():
            vals = self.values.setdefault(n, {})
            for r in case["data"].get(n, ()):
                spec = self.specs[(n, r["tag"])] = row_spec(fs, r)
                for c, v in r.items():
                    if not c.startswith("sec_") or v is None:
                        continue
                    if spec.get(c, ("gone",))[0] != "orig":
                        vals.setdefault(c, set()).add(v)
                        self.texts |= texts_of(c, v)
                    else:
                        kept |= texts_of(c, v)
        self.texts -= kept
        self.everything = {v for cols in self.values.values() for vs in cols.values() for v in vs}

    def in_rows(self, name, rows):
        for r in rows:
            for c, v in r.items():
                if v is None or isinstance(v, bool):
                    continue
                if (v in self.everything if not isinstance(v, str) else
                        any(s in v for s in self.texts)):
                    return f"{name}.{c}: original value {v!r} of a filtered column (row {r.get('tag')})"
        return None

    def in_text(self, name, text):
        for s in self.texts:
            if s in text:
                return f"{name}: original value {s!r} of a filtered column"
        return None


def texts_of(col, v):
    if col == "sec_b":
        return {v, bytes.fromhex(v).decode()}
    return {v if isinstance(v, str) else repr(v)}


def hide(case, out, secrets):
    """The output with every filtered column put back, for comparison with the unfiltered
    reference; and what is wrong with the filtered values."""
    dir_out = not db_dst(case)
    res, problems = {}, []
    src = {n: {r["tag"]: r for r in rows} for n, rows in case["data"].items()}
    for n, rows in out.items():
        fs = secrets.filters.get(n)
        if not fs:
            res[n] = rows
            continue
        touched = set()
        for f in fs:
            for g in ([c["apply"] for c in f["conditions"]] if f["op"] == "multiplex" else [f]):
                touched |= set(g["columns"])
        new, seen = [], {}
        uniq = uniques_of(fs)
        for r in rows:
            spec = secrets.specs.get((n, r["tag"]))
            if spec is None:
                return None, [f"{n}: row {r['tag']} is not a source row"]
            r = dict(r)
            for c in sorted(touched):
                s = spec.get(c)
                if s is None:
                    if dir_out and c in r:
                        problems.append(f"{n}.{c}: omitted column present in row {r['tag']}")
                    if not dir_out and r.get(c) is not None:
                        problems.append(f"{n}.{c}: omitted column holds {r[c]!r}")
                elif s[0] == "orig":
                    continue
                elif c not in r or not allowed(s, r[c]):
                    problems.append(f"{n}.{c}: {r.get(c)!r} is not what {s} allows "
                                    f"(row {r['tag']}, original {src[n][r['tag']].get(c)!r})")
                elif c in uniq:
                    if seen.setdefault(c, {}).setdefault(r[c], 0):
                        problems.append(f"{n}.{c}: {r[c]!r} drawn twice by a unique filter")
                    seen[c][r[c]] += 1
                r[c] = src[n][r["tag"]].get(c)
            new.append(r)
        res[n] = new
    return res, problems


def plain(case):
    c = json.loads(json.dumps(case))
    c["config"]["sampler"].pop("filters", None)
    return c


class FileWatch:
    """Follows what is written to output files."""

    def __init__(self, sim, secrets):
        self.sim, self.secrets = sim, secrets
        self.tails = {}
        self.problem = None
        sim.listeners.append(self)

    def __call__(self, event, path=None, data=None, **kw):
        if event != "file_write" or not path.startswith("out" + os.sep):
            return
        text = self.tails.get(path, "") + data.decode("utf-8", "replace")
        self.problem = self.problem or self.secrets.in_text(path, text)
        self.tails[path] = text[-64:]


class C15(Check):
    id = "C15"
    rule = ("random filter chains over columns of distinctive values (plain, merged, compacted, "
            "multiplied, repeated and faulted runs); the committed destination after every "
            "commit, and every written byte, searched for originals; replaced values judged by a "
            "reference model; non-trivial: a filtered value was output")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "plain", "plain", "merge", "compact", "mult", "replace"])
        kw = dict(tables=(1, 5), rows=(1, 12), computed=0.3,
                  dst={"same": 6, "sqlite": 1, "postgresql": 1, "mysql": 1, "dir": 4})
        if mode in ("merge", "compact", "mult"):
            kw.update(MODE_KW)
        if mode in ("merge", "replace"):
            kw.update(dst=DB)
        if mode == "merge":
            kw.update(pk={"int": 8, "none": 1}, create=0.0)
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        add_secrets(rng, case)
        if mode == "merge":
            merge_mode(case, rng, (1,))
        add_mode(case, rng, mode)
        if mode == "replace":
            case["config"]["dest"]["conflict_strategy"] = "replace"
            case["repeat"] = 1
        planned = sorted(Levels(case).planned())
        fs = {}
        for n in planned:
            if rng.random() < 0.75:
                chain = gen_filters(rng, case, n)
                if chain:
                    fs[n] = chain
        if rng.random() < 0.2:
            # distinct values out of few, for the largest table
            n = max(planned, key=lambda x: len(case["data"][x]))
            chain = fs.get(n, [])
            gone = {c for f in chain if f["op"] == "omit" for c in f["columns"]}
            cols = [c["name"] for c in tables_of(case)[n]["cols"] if c["type"] == "text"
                    and c["name"].startswith("sec_") and c["name"] not in gone]
            if cols:
                fs[n] = chain + [{"op": "fake_country_code", "columns": [rng.choice(cols)],
                                  "unique": True}]
        case["config"]["sampler"]["filters"] = fs
        case["tries"] = 1 if mode == "replace" else rng.choice([1, 1, 2])
        case["fault"] = rng.random() < 0.5
        return case

    def execute(self, case, ctx):
        base = ctx.build(case)
        src = scen.src_rows(base, case)
        secrets = Secrets(case)

        def look(inst, where):
            for s, t in sorted(inst.dst.tables()):
                if (s, t) in skip:
                    continue
                p = secrets.in_rows(f"{s}.{t}", inst.dst.rows(s, t))
                if p:
                    return p
            return None

        skip = set()
        if base.dst is base.src:
            skip = {(t["schema"], t["name"]) for t in case["src"]["tables"]}
        # (zero has no value for some types)
        tabs = tables_of(case)
        refused = ["ValueError"] if any(
            '"op": "zero"' in json.dumps(fs) and any(
                c["type"] == "bin" for c in tabs[n]["cols"])
            for n, fs in case["config"]["sampler"]["filters"].items()) else []
        inst = ctx.clone(base)
        for i in range(case["tries"]):
            if i and case["mode"] != "merge":
                inst = ctx.clone(base)
            faults = ()
            if case["fault"]:
                faults = [dict(f, run=i) for f in step_faults(case, ctx, base, i)]
            sim = ctx.sim(case, faults=faults, inst=inst)
            fw = FileWatch(sim, secrets)
            watch = DstWatch(sim, inst, look) if db_dst(case) else None
            prev = inst.read_out() if db_dst(case) else {}
            out = ctx.run(sim, inst, i)
            if watch:
                watch.done("C15.leak")
            need(fw.problem is None, "C15.leak", str(fw.problem))
            if not db_dst(case):
                for f, text in inst.read_dir().items():
                    p = secrets.in_text(f, text)
                    need(p is None, "C15.leak", f"{p} (file on disk)")
            if not succeeded(out, sim, "C15", *refused):
                continue
            rows = split_planned(case, inst.read_out())
            if case["mode"] == "merge":
                new, lost = oracle.new_rows(prev, rows)
                need(not lost, "C15.lost", f"rows lost: {str(lost)[:300]}")
                hidden, problems = hide(case, split_planned(case, new), secrets)
                need(not problems, "C15.value", "; ".join(problems[:3]))
                p = merge_problems(plain(case), src, prev, hidden)
            else:
                hidden, problems = hide(case, rows, secrets)
                need(not problems, "C15.value", "; ".join(problems[:3]))
                p = oracle.content_problems(plain(case), src, hidden)
            need(not p, "C15.other", f"apart from the filtered columns: {'; '.join(p[:3])}")
            if any(rows.get(n) for n in secrets.filters):
                ctx.nontrivial = True
                ctx.probe("filtered_success")


# ------------------------------------------------------------------------------ C28
COMPARE = ["=", "!=", "in", "not in", "is", "is not", "<", ">", "<=", ">="]


def pattern_of(rng, text):
    p = "".join(rng.choice(["?", f"[{c}]", f"[!{c}]", "[a-m]"])
                if c.isalnum() and c.isascii() and rng.random() < 0.25 else c
                for c in text if c not in "[]*?")
    at = rng.randint(0, len(p))
    return rng.choice([p, "*", "?*", p[:at] + "*", "*" + p[at:], p[:at] + "*" + p[at:]])


def gen_condition(rng, typ, values):
    """One condition over a column with these values (of a reference row each)."""
    some = [v for v in values if v is not None]
    if KINDS[typ] == "text":
        x = rng.choice(some + gen.VOCAB)
        op = rng.choice(COMPARE + ["matches"] * 4)
    else:
        x = rng.choice(some + [0, 3])
        if rng.random() < 0.4:
            x += rng.choice([-1, 1])
        if rng.random() < 0.15 and KINDS[typ] == "int":
            x += 0.5
        op = rng.choice(COMPARE)
    if op in ("is", "is not"):
        return op, None
    if op in ("in", "not in"):
        return op, rng.sample(sorted(set(some), key=repr), min(len(set(some)), rng.randint(0, 4))) + (
            rng.choice([[], [None], [x]]))
    if op == "matches":
        return op, pattern_of(rng, x)
    if op in ("=", "!=") and rng.random() < 0.1:
        return op, None
    return op, x


class C28(Check):
    id = "C28"
    rule = ("chains of multiplexed filters with overlapping conditions over nulls, numbers and "
            "texts, earlier filters changing the inspected column; every committed row and file "
            "compared with a reference model of the conditions, also under faults and kills; "
            "non-trivial: two conditions or none applied to different rows")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "plain", "compact", "mult"])
        kw = dict(tables=(1, 4), rows=(1, 14),
                  dst={"same": 6, "sqlite": 1, "postgresql": 1, "mysql": 1, "dir": 3})
        if mode != "plain":
            kw.update(MODE_KW)
        case = base_case(rng, **kw)
        case["mode"] = mode
        limit_dst_fks(case)
        add_secrets(rng, case)
        add_mode(case, rng, mode)
        fs = {}
        for n in sorted(Levels(case).planned()):
            chain = self.chain(rng, case, n)
            if chain:
                fs[n] = chain
        case["config"]["sampler"]["filters"] = fs
        case["fault"] = rng.random() < 0.4
        return case

    def chain(self, rng, case, name):
        t = tables_of(case)[name]
        act = [(c["name"], c["type"]) for c in t["cols"]
               if c["name"].startswith("sec_") and c["type"] in ("text", "clob", "int", "float")]
        look = act + [(c["name"], c["type"]) for c in t["cols"]
                      if c["name"] in ("v", "s") and c["type"] in ("int", "text")]
        if not act:
            return []
        chain, mark = [], [0]

        def constant(cols):
            mark[0] += 1
            return {"op": "constant", "columns": [c for c, _ in cols],
                    "values": [f"m{mark[0]}" if KINDS[ty] == "text" else
                               mark[0] if KINDS[ty] == "int" else mark[0] + 0.5
                               for _, ty in cols]}

        for _ in range(rng.choice([1, 1, 2, 3])):
            if chain and rng.random() < 0.3:
                chain.append(constant(rng.sample(act, 1)))
            col, typ = rng.choice(look)
            conds = []
            for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
                op, val = gen_condition(rng, typ, [r.get(col) for r in case["data"][name]])
                cols = rng.sample(act, rng.randint(1, len(act)))
                f = constant(cols)
                if rng.random() < 0.15:
                    f = {"op": rng.choice(["null", "zero"]), "columns": f["columns"]}
                conds.append({"op": op, "value": val, "apply": f})
            chain.append({"op": "multiplex", "column": col, "conditions": conds})
        return chain

    def execute(self, case, ctx):
        base = ctx.build(case)
        src = scen.src_rows(base, case)
        secrets = Secrets(case)
        shared = base.dst is base.src

        def look(inst, where):
            out = inst.read_out()
            _, problems = hide(case, {n: out[n] for n in secrets.filters if n in out}, secrets)
            return problems[0] if problems else None

        inst = ctx.clone(base)
        faults = ()
        if case["fault"]:
            faults = [dict(f, run=0) for f in step_faults(case, ctx, base, 0)]
        sim = ctx.sim(case, faults=faults, inst=inst)
        watch = DstWatch(sim, inst, look) if db_dst(case) and not shared else None
        out = ctx.run(sim, inst, 0)
        if watch:
            watch.done("C28.value")
        if out.status != "ok":
            need(sim.fired, "C28.failed", f"the run fails: {out.error}")
            return
        rows = split_planned(case, inst.read_out())
        hidden, problems = hide(case, rows, secrets)
        need(not problems, "C28.value", "; ".join(problems[:3]))
        p = oracle.content_problems(plain(case), src, hidden)
        need(not p, "C28.other", f"apart from the filtered columns: {'; '.join(p[:3])}")
        kinds = {tuple(sorted((c, s) for c, s in secrets.specs[(n, r["tag"])].items()
                              if s[0] == "const" and c.startswith("sec_")))
                 for n in secrets.filters for r in rows.get(n, ())}
        ctx.nontrivial = len(kinds) > 1


# ------------------------------------------------------------------------------ C16
ODD_TEXT = ["\r", "\u2028x", "\x1f", "back\\slash", "\U0001f4a5", "\t\ttab", "{\"a\": 1}", "[]",
            "\x7f\u00a0", "a\r\nb", "]}\n{", "\ufeff"]


class BadLine(Exception):
    pass


def parse_lines(text, whole):
    """The objects of a JSON lines file, and the cut last line, if any."""
    lines = text.split("\n")
    tail = lines.pop()
    if tail and whole:
        raise BadLine(f"last line not ended: {tail[:80]!r}")

    def pairs(items):
        d = dict(items)
        if len(d) != len(items):
            raise BadLine(f"repeated name in {[k for k, _ in items]}")
        return d

    def const(name):
        raise BadLine(f"{name} is not JSON")

    rows = []
    for line in lines:
        try:
            row = json.loads(line, object_pairs_hook=pairs, parse_constant=const)
        except ValueError as exc:
            raise BadLine(f"line {line[:100]!r}: {exc}") from exc
        if not isinstance(row, dict):
            raise BadLine(f"line {line[:100]!r} is not an object")
        rows.append(row)
    if tail:
        try:
            row = json.loads(tail)
            if isinstance(row, dict):
                rows.append(row)
        except ValueError:
            pass
    return rows, tail


class C16(Check):
    id = "C16"
    rule = ("directory output over random worlds (odd strings, empty tables, compaction, "
            "multiplicity, omitted columns, left-over files), histories of up to three runs with "
            "file, source and kill faults; every file parsed and compared with a reference "
            "model after every run; non-trivial: rows were written")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "plain", "plain", "compact", "mult"])
        kw = dict(tables=(1, 6), rows=(0, 14), dst={"dir": 1}, computed=0.15, extra_types=0.6,
                  odd_names=0.15, remap=0.0)
        if mode != "plain":
            kw.update(MODE_KW)
        case = base_case(rng, **kw)
        case["mode"] = mode
        for t in case["src"]["tables"]:
            for r in case["data"][tkey(t)]:
                if rng.random() < 0.15 and isinstance(r.get("s"), str):
                    r["s"] = rng.choice(ODD_TEXT)
        add_mode(case, rng, mode)
        if mode == "compact":
            scen.make_deterministic(case)
        planned = sorted(Levels(case).planned())
        fs = {}
        if rng.random() < 0.35:
            tabs = tables_of(case)
            for n in planned:
                comp = any(c.get("computed") for c in tabs[n]["cols"])
                free = [c["name"] for c in tabs[n]["cols"]
                        if (c["name"] in ("v", "s") or c["name"].startswith("x_"))
                        and not (comp and c["name"] == "v")
                        and oracle.col(tabs[n], c["name"]).get("null", True)]
                if free and rng.random() < 0.6:
                    fs[n] = [{"op": "omit", "columns": rng.sample(free, rng.randint(1, len(free)))}]
        if fs:
            case["config"]["sampler"]["filters"] = fs
        case["stale"] = {
            n: rng.choice(["{\"tag\": \"stale\"}\n" * rng.randint(1, 400), "garbage", "", "\n\n"])
            for n in planned if rng.random() < 0.5
        } if rng.random() < 0.5 else {}
        case["n_runs"] = rng.choice([1, 1, 2, 3])
        case["clean_last"] = rng.random() < 0.4
        case["files_only"] = rng.random() < 0.6
        return case

    def execute(self, case, ctx):
        base = ctx.build(case)
        for n, text in case["stale"].items():
            with scen.world.seam.real_open(
                    base.outdir + os.sep + f"{n}.json", "w", encoding="utf-8") as fh:
                fh.write(text)
        src = scen.src_rows(base, case)
        planned = Levels(case).planned()
        tabs = tables_of(case)
        sim, clean = ctx.sim(case), ctx.clone(base)
        out = ctx.run(sim, clean, 0)
        if not succeeded(out, sim, "C16"):
            return
        p = self.judge_ok(case, clean, src, {}, planned, tabs)
        need(p is None, "C16.content", str(p))
        if case["mode"] == "compact":
            pool = clean.read_out()
        else:
            pool = oracle.transform(case, {n: src[n] for n in planned})
        inst = base
        for i in range(case["n_runs"]):
            before = inst.read_dir()
            faults = ()
            if not (case["clean_last"] and i == case["n_runs"] - 1):
                ops = ("file.open", "file.write", "file.close") if case["files_only"] else None
                faults = step_faults(case, ctx, inst, i, ops=ops)
            sim = ctx.sim(case, faults=faults, inst=inst)
            out = ctx.run(sim, inst, i)
            if succeeded(out, sim, "C16"):
                p = self.judge_ok(case, inst, src, before, planned, tabs)
                need(p is None, "C16.success", f"a run that reports success: {p}")
                if sim.fired:
                    ctx.probe("success_despite_fault")
            else:
                p = self.judge_failed(case, inst, before, pool, planned, tabs)
                need(p is None, "C16.partial", f"after a run that ended with {out.status}: {p}")
                ctx.probe("failed_" + out.status)
            ctx.nontrivial = ctx.nontrivial or any(inst.read_dir().values())

    @staticmethod
    def parse(case, name, text, tabs, whole):
        types = {c["name"]: c["type"] for c in tabs[name]["cols"]}
        want = set(types) - oracle.omitted(case, name)
        rows, _ = parse_lines(text, whole)
        res = []
        for r in rows:
            if set(r) != want:
                raise BadLine(f"columns {sorted(set(r) ^ want)} are wrong")
            res.append({c: scen.world.canon(v, types[c]) for c, v in r.items()})
        return res

    def judge_ok(self, case, inst, src, before, planned, tabs):
        files = inst.read_dir()
        rows = {}
        for n in sorted(planned):
            if f"{n}.json" not in files:
                return f"no file for {n}"
            try:
                rows[n] = self.parse(case, n, files.pop(f"{n}.json"), tabs, True)
            except BadLine as exc:
                return f"{n}.json: {exc}"
        left = sorted(f for f in files if f not in before)
        if left:
            return f"other files {left}"
        p = oracle.content_problems(case, src, rows)
        return "; ".join(p[:3]) if p else None

    def judge_failed(self, case, inst, before, pool, planned, tabs):
        files = inst.read_dir()
        for n in sorted(planned):
            f = f"{n}.json"
            if f not in files or files[f] == before.get(f):
                continue
            try:
                rows = self.parse(case, n, files[f], tabs, False)
            except BadLine as exc:
                return f"{f}: {exc}"
            _, extra = oracle.diff_rows(pool[n], rows)
            if extra:
                return f"{f}: rows that are not called for: {extra[:2]}"
        return None


# ------------------------------------------------------------------------------ C18
def cli_flags(case):
    return [f"--{f}" for f in ("truncate", "create") if case.get(f)]


def split_config(rng, cfg, top=True):
    """Two mappings whose recursive merge, the second winning, is `cfg`."""
    a, b = {}, {}
    for k, v in cfg.items():
        r = rng.random()
        if isinstance(v, dict) and v and r < 0.6:
            a[k], b[k] = split_config(rng, v, False)
            if not a[k] or not b[k]:
                (a if not a[k] else b).pop(k)
        elif r < 0.3:
            a[k] = v
        elif r < 0.8 or isinstance(v, dict):
            b[k] = v
        else:
            b[k] = v
            a[k] = {bool: not v, str: "other", list: ["other"]}.get(type(v), 7)
    return a, b


REQUIRED = {"type", "from", "schema", "table", "right", "left_columns", "right_columns",
            "column", "value", "values", "conditions", "statements"}


def plan_nodes(obj, path=()):
    """Every mapping below the statements of a plan, with its path."""
    if isinstance(obj, dict):
        yield path, obj
        for k in sorted(obj, key=str):
            yield from plan_nodes(obj[k], path + (k,))
    elif isinstance(obj, list):
        for i, x in enumerate(obj):
            yield from plan_nodes(x, path + (i,))


def damage_tree(rng, plan, kind):
    """A plan that violates the plan format, or None if this kind does not apply."""
    p = json.loads(json.dumps(plan))
    names = sorted(p["queries"])
    if kind == "root":
        return rng.choice([["queries"], "queries", None, 7])
    if kind == "queries":
        if rng.random() < 0.4:
            del p["queries"]
        else:
            p["queries"] = rng.choice([[], "x", None, list(p["queries"].items()), 3])
        return p
    if kind == "passthrough":
        p["passthrough"] = rng.choice(["main.x", 3, {"a": 1}, [{"a": 1}], None])
        return p
    if not names:
        return None
    n = rng.choice(names)
    if kind == "query":
        p["queries"][n] = rng.choice([[1], 7, "select 1", None, {}, {"statement": None},
                                      {"statment": p["queries"][n].get("statement")},
                                      {"sql": ["select 1"]}, {"sql": None}])
        return p
    nodes = [(path, d) for path, d in plan_nodes(p["queries"]) if "statement" in path]
    if not nodes:
        return None
    path, node = rng.choice(nodes)
    if kind == "required":
        keys = sorted(k for k in node if k in REQUIRED or (k == "columns"
                                                          and node.get("type") == "in"))
        if not keys:
            return None
        del node[rng.choice(keys)]
        return p
    if kind == "type":
        cands = [d for _, d in nodes if "type" in d]
        rng.choice(cands)["type"] = rng.choice(["slect", "", None, 3, "join"])
        return p
    if kind == "union":
        p["queries"][n] = {"statement": {"type": "union", "statements": rng.choice(
            [[], None, "x", [{"type": "union", "statements": []}]])}}
        return p
    # a value of the wrong type
    keys = sorted(k for k in node if k in ("from", "limit", "joins", "where", "columns", "right",
                                           "left_columns", "conditions", "table", "schema"))
    if not keys:
        return None
    k = rng.choice(keys)
    node[k] = {"limit": "many", "table": ["x"], "schema": 5, "from": "x", "right": "x"}.get(k, 5)
    return p


def bad_yaml(rng, text):
    return rng.choice([text + "\n  - : [\n", "{" + text, text.replace(":", ": {", 1),
                       "\t" + text, text + "\n\"unclosed", "a: *nowhere\n" + text])


def damage_config(rng, cfg):
    c = json.loads(json.dumps(cfg))
    kind = rng.choice(["root", "sampler", "unknown", "mode", "type", "filter"])
    if kind == "root":
        return rng.choice([["source"], "source", 7, None])
    if kind == "sampler":
        c["sampler"] = rng.choice([[], "x", 3])
    elif kind == "unknown":
        where = rng.choice([c, c["sampler"], c["sampler"].setdefault("compact", {}),
                            c["sampler"].setdefault("multiplicity", {})])
        where["trunkate"] = True
    elif kind == "mode":
        c["sampler"]["output"]["mode"] = rng.choice(["databse", None, 3, ["database"]])
    elif kind == "type":
        c["sampler"].setdefault("multiplicity", {})["multiplier"] = rng.choice(["two", [2], None])
    else:
        c["sampler"].setdefault("filters", {})["x.y"] = rng.choice(
            [[{"op": "nul", "columns": ["a"]}], {"op": "null", "columns": ["a"]}, [{"op": "null"}],
             [{"columns": ["a"]}], "null"])
    return c


BYTES = (b"\xff\xfe\x00garbage", b"queries:\n  \xc3(: 1\n", b"\x80\x81\x82")


class C18(Check):
    id = "C18"
    rule = ("random worlds through the command line: subset, plan to a file or standard output "
            "and sample from it or standard input, split configurations; faults and kills while "
            "the plan is written; damaged plans and configurations; non-trivial: rows compared, "
            "or a fault fired, or a damaged file was refused")

    def generate(self, rng, index, tier):
        kind = rng.choice(["paths", "paths", "fault", "damage", "damage"])
        mode = rng.choice(["plain", "plain", "plain", "compact", "mult", "filters", "skip"])
        kw = dict(tables=(1, 6), rows=(0, 9), driver={"cli-subset": 1}, odd_names=0.2,
                  dst={"same": 7, "sqlite": 1, "postgresql": 1, "mysql": 1, "dir": 3})
        if mode in ("compact", "mult"):
            kw.update(MODE_KW)
        if mode == "skip":
            kw.update(dst=DB)
        case = base_case(rng, **kw)
        limit_dst_fks(case)
        add_mode(case, rng, mode)
        if rng.random() < 0.75:
            scen.make_deterministic(case)
        if mode == "filters":
            fs = {}
            for n in sorted(Levels(case).planned()):
                fs[n] = [{"op": "constant", "columns": ["v"], "values": [7]}]
                if rng.random() < 0.5:
                    fs[n].append({"op": "null", "columns": ["s"]})
            if not any(ck for t in case["src"]["tables"] for ck in t.get("checks", ())) and not any(
                    c.get("computed") for t in case["src"]["tables"] for c in t["cols"]) and not any(
                    set(ix["cols"]) & {"v", "s"} and ix["unique"]
                    for t in case["src"]["tables"] for ix in t["indexes"]):
                case["config"]["sampler"]["filters"] = fs
        if mode == "skip":
            add_prior(rng, case, overlap=0.5)
            case["config"]["dest"]["conflict_strategy"] = "skip"
        if kind == "damage":
            if db_dst(case) and rng.random() < 0.6 and mode != "skip":
                add_prior(rng, case, overlap=0.3)
            case["truncate"] = rng.random() < 0.8
            case["create"] = case.get("create") or rng.random() < 0.3
        case["kind"] = kind
        case["verbose"] = rng.choice(["", "", "", "-v", "-vv", "-vvv"])
        case["logging"] = bool(case["verbose"])
        case["form"] = rng.choice(["one", "one", "split", "stdin", "default"])
        case["stale_plan"] = rng.choice([None, "queries: {}\n", "x" * 9000])
        case["what"] = rng.choice(["plan", "plan", "plan", "config"])
        case["how"] = rng.choice(["missing", "directory", "eio", "eacces", "bytes", "yaml",
                                  "tree", "tree", "tree", "tree", "tree", "tree"])
        case["tree"] = rng.choice(["root", "queries", "query", "query", "query", "required",
                                   "required", "type", "union", "wrong", "passthrough"])
        case["to"] = rng.choice(["file", "stdout"])
        return case

    def execute(self, case, ctx):
        base = ctx.build(case)
        getattr(self, "do_" + case["kind"])(case, ctx, base)

    # -- running the commands
    @staticmethod
    def conf(case, inst, cfg):
        """Write the configuration in the case's form; returns (arguments, standard input)."""
        import yaml

        v = [case["verbose"]] if case["verbose"] else []
        form = case["form"]
        if form == "split":
            a, b = split_config(rng_of(case, "split"), cfg)
            scen.world._write_config(inst, a, "a.yaml")
            scen.world._write_config(inst, b, "b.yaml")
            return [*v, "-c", "a.yaml", "-c", "b.yaml"], ""
        if form == "stdin":
            return [*v, "--config", "-"], yaml.safe_dump(cfg, sort_keys=False)
        name = "subsetter.yaml" if form == "default" else "config.yaml"
        scen.world._write_config(inst, cfg, name)
        return ([*v] if form == "default" else [*v, "-c", name]), ""

    def body(self, case, kind, keep):
        cli = scen.world.run_cli

        def run(sim, inst, cfg):
            args, text = self.conf(case, inst, cfg)
            flags = cli_flags(case)
            if kind == "subset":
                rc, _ = cli(sim, inst, [*args, "subset", *flags], text)
                return rc
            if kind in ("file", "default"):
                out = ["-o", "plan.yaml"]
                rc, _ = cli(sim, inst, [*args, "plan", *out], text)
            else:
                rc, data = cli(sim, inst, [*args, "plan"], text)
                plan = keep["stdout"] = data.decode("utf-8")
                if kind == "stdout":
                    self.put(inst, plan)
            if rc:
                return rc
            if kind == "stdin":
                if text:
                    # the configuration comes from a file then
                    scen.world._write_config(inst, cfg)
                    args = ["-c", "config.yaml"]
                rc, _ = cli(sim, inst, [*args, "sample", "--plan", "-", *flags], plan)
            elif kind == "default":
                rc, _ = cli(sim, inst, [*args, "sample", *flags], text)
            else:
                rc, _ = cli(sim, inst, [*args, "sample", "-p", "plan.yaml", *flags], text)
            return rc

        return run

    @staticmethod
    def put(inst, text, name="plan.yaml"):
        path = os.path.join(inst.files, name)
        if isinstance(text, str):
            text = text.encode("utf-8")
        with scen.world.seam.real_open(path, "wb") as fh:
            fh.write(text)
        return path

    @staticmethod
    def load(inst, name="plan.yaml"):
        import yaml

        with scen.world.seam.real_open(os.path.join(inst.files, name), "rb") as fh:
            return yaml.safe_load(fh.read().decode("utf-8"))

    # -- one step or two
    def do_paths(self, case, ctx, base):
        src = scen.src_rows(base, case)
        ref = None
        kinds = ["subset", "file", "stdout", "stdin", "default"]
        if len(case["data"]) > 4:
            kinds.remove(rng_of(case, "kinds").choice(kinds[1:]))
        for k in kinds:
            inst = ctx.clone(base)
            if case["stale_plan"]:
                self.put(inst, case["stale_plan"])
            sim = ctx.sim(case, inst=inst)
            # (the reference is one configuration file, named)
            form = case if k != "subset" else dict(case, form="one")
            out = ctx.run(sim, inst, 0, body=self.body(form, k, {}))
            rc = out.value if out.status == "ok" else out.status
            if rc != 0:
                ctx.probe("error_without_fault")
            rows = inst.read_out()
            if ref is None:
                # (a key of the destination, or a column without nulls, may refuse rows)
                need(rc == 0 or out.exc_type == "IntegrityError", "C18.failed", f"{k}: a failure-free run fails: {out.reason}")
                ref = (rc, rows)
                continue
            need((rc == 0) == (ref[0] == 0), "C18.status",
                 f"subset ends with {ref[0]} and plan/sample ({k}) with {rc}")
            if rc != 0:
                continue
            if scen.deterministic(case):
                need(sorted(rows) == sorted(ref[1]), "C18.tables",
                     f"{k}: output tables {sorted(rows)} instead of {sorted(ref[1])}")
                for n in sorted(rows):
                    miss, extra = oracle.diff_rows(ref[1][n], rows[n])
                    need(not miss and not extra, "C18.differs",
                         f"{n}: {k} lacks {miss[:2]} has {extra[:2]} compared with subset")
            elif db_dst(case) and case["config"]["dest"].get("conflict_strategy") == "skip":
                pass
            else:
                p = oracle.content_problems(plain(case), src, split_planned(case, rows),
                                            exact=not case["config"]["sampler"].get("filters"))
                need(not p, "C18.content", f"{k}: {'; '.join(p[:3])}")
            ctx.nontrivial = ctx.nontrivial or any(rows.values())

    # -- faults while a plan is written
    def do_fault(self, case, ctx, base):
        import yaml

        to_file = case["to"] == "file"

        def body(sim, inst, cfg):
            args, text = self.conf(case, inst, cfg)
            argv = [*args, "plan"] + (["-o", "plan.yaml"] if to_file else [])
            return scen.world.run_cli(sim, inst, argv, text)

        def plan_of(inst, out):
            if to_file:
                return self.load(inst)
            return yaml.safe_load(out.value[1].decode("utf-8"))

        inst = ctx.clone(base)
        sim = ctx.sim(case, inst=inst)
        out = ctx.run(sim, inst, 0, body=body)
        need(out.status == "ok" and out.value[0] == 0, "C18.failed",
             f"a failure-free plan fails: {out.reason}")
        try:
            want = plan_of(inst, out)
        except (ValueError, yaml.YAMLError, OSError) as exc:
            raise Violation("C18.plan", "plan reports success and leaves an unreadable plan: "
                            f"{type(exc).__name__}") from exc
        counts = dict(sim.op_totals)
        ops = ("file.open", "file.write", "file.close", "file.read", "stdout.write", "src.connect",
               "src.setup", "src.meta", "src.exec", "src.fetch")
        for i in range(4):
            if case.get("history") is None:
                case["history"] = []
            if len(case["history"]) <= i:
                rng = rng_of(case, "faults", i)
                case["history"].append(scen.draw_faults(
                    rng, counts, run=i, crash=0.1, ops=ops[:5] if rng.random() < 0.8 else ops))
            inst = ctx.clone(base)
            if case["stale_plan"]:
                self.put(inst, case["stale_plan"])
            sim = ctx.sim(case, faults=case["history"][i], inst=inst)
            out = ctx.run(sim, inst, i, body=body)
            if out.status != "ok" or not sim.fired:
                continue
            ctx.nontrivial = True
            if out.value[0] != 0:
                ctx.probe("refused")
                continue
            ctx.probe("success_despite_fault")
            try:
                got = plan_of(inst, out)
            except (ValueError, yaml.YAMLError, OSError) as exc:
                raise Violation("C18.passed-off", "plan reports success and leaves an unreadable "
                                f"plan: {type(exc).__name__}") from exc
            need(got == want, "C18.passed-off",
                 f"plan reports success and leaves another plan: {str(got)[:200]}")

    # -- damaged files
    def do_damage(self, case, ctx, base):
        import yaml

        rng = rng_of(case, "damage")
        inst = ctx.clone(base)
        keep = {}

        def plan_body(sim, inst, cfg):
            keep["cfg"] = cfg
            args, text = self.conf(case, inst, cfg)
            return scen.world.run_cli(sim, inst, [*args, "plan", "-o", "plan.yaml"], text)[0]

        out = ctx.run(ctx.sim(case, inst=inst), inst, 0, body=plan_body)
        need(out.status == "ok" and out.value == 0, "C18.failed",
             f"a failure-free plan fails: {out.reason}")
        what, how = case["what"], case["how"]
        before = self.state(inst)
        faults, action = [], "sample"
        path = os.path.join(inst.files, "plan.yaml")
        if what == "config":
            action = rng.choice(["sample", "subset"])
        cfg = inst.config()
        good = yaml.safe_dump(cfg, sort_keys=False)
        if what == "config":
            tree = damage_config(rng, cfg)
        else:
            good = self.text(path)
            tree = damage_tree(rng, self.load(inst), case["tree"])
            if tree is None and case["tree"] != "root":
                return
        bad = good
        if how == "bytes":
            bad = rng.choice(BYTES)
        elif how == "yaml":
            bad = bad_yaml(rng, good)
            try:
                yaml.safe_load(bad)
                return
            except yaml.YAMLError:
                pass
        elif how == "tree":
            bad = yaml.safe_dump(tree)
        name = "plan.yaml" if what == "plan" else "bad.yaml"
        self.put(inst, bad, name)
        if how in ("missing", "directory"):
            os.unlink(os.path.join(inst.files, name))
        if how == "directory":
            os.mkdir(os.path.join(inst.files, name))
        if how in ("eio", "eacces"):
            op = "file.read" if how == "eio" and rng.random() < 0.5 else "file.open"
            faults = [{"run": 1, "op": op, "n": 1 if what == "config" else None, "kind":
                       "eio" if op == "file.read" else how}]

        def body(sim, inst, cfg):
            if what == "config":
                args, text = (["-c", name], "")
            else:
                args, text = self.conf(case, inst, cfg)
            plan = ["-p", "plan.yaml"] if action == "sample" else []
            if what == "plan" and how in ("bytes", "yaml", "tree") and not text \
                    and rng.random() < 0.2 and isinstance(bad, str):
                return scen.world.run_cli(
                    sim, inst, [*args, action, "-p", "-", *cli_flags(case)], bad)[0]
            return scen.world.run_cli(sim, inst, [*args, action, *plan, *cli_flags(case)], text)[0]

        if faults and faults[0]["n"] is None:
            # the plan is opened after the configuration files
            n = {"one": 1, "default": 1, "split": 2, "stdin": 0}[case["form"]]
            if faults[0]["op"] == "file.open":
                faults[0]["n"] = n + 1
            else:
                faults[0]["path"] = "plan.yaml"
                faults[0]["n"] = self.reads(case, ctx, inst, body, name)
        sim = ctx.sim(case, faults=faults, inst=inst)
        watch = None
        if db_dst(case):
            watch = DstWatch(sim, inst, lambda inst, where: self.changed(before, inst))
        out = ctx.run(sim, inst, 1, body=body)
        if faults and not sim.fired:
            ctx.probe("fault_not_reached")
            return
        label = f"{what} {how}{'/' + case['tree'] if how == 'tree' and what == 'plan' else ''}"
        rc = out.value if out.status == "ok" else out.status
        need(rc != 0, "C18.accepted", f"{action} with a damaged file ({label}) exits 0")
        if watch:
            watch.done("C18.touched")
        p = self.changed(before, inst)
        need(p is None, "C18.touched", f"{label}: {p}")
        ctx.nontrivial = True
        ctx.probe("damaged_refused")

    def reads(self, case, ctx, inst, body, name):
        """The number of the first read of a file in a run (made on a copy, where it is damaged
        no further)."""
        sim = ctx.sim(case, keep_log=True)
        ctx.sims.pop()
        c = ctx.clone(inst)
        for f in os.listdir(inst.files):
            p = os.path.join(inst.files, f)
            if os.path.isfile(p):
                with scen.world.seam.real_open(p, "rb") as fh:
                    self.put(c, fh.read(), f)
        firsts = []
        old = sim.pre

        def pre(op, sess=None, detail="", **kw):
            if op == "file.read":
                firsts.append(detail)
            return old(op, sess, detail, **kw)

        sim.pre = pre
        ctx.run(sim, c, 1, body=body)
        return firsts.index(name) + 1 if name in firsts else 1

    @staticmethod
    def text(path):
        with scen.world.seam.real_open(path, encoding="utf-8") as fh:
            return fh.read()

    @staticmethod
    def state(inst):
        if inst.dst is None:
            return inst.read_dir()
        return {"rows": inst.dst.dump(), "catalog": inst.dst.catalog()}

    def changed(self, before, inst):
        now = self.state(inst)
        if now == before:
            return None
        if inst.dst is None:
            return "output files were changed"
        if now["catalog"] != before["catalog"]:
            return "the destination's tables were changed"
        for n in sorted(before["rows"]):
            if now["rows"].get(n) != before["rows"][n]:
                return (f"destination table {n} was changed "
                        f"({len(before['rows'][n])} rows, now {len(now['rows'].get(n, []))})")
        return "the destination was changed"


# ------------------------------------------------------------------------------ C19
SESSION_SQLS = {
    "postgresql": [("SET statement_timeout = {n}", "statement_timeout", "{n}"),
                   ("SET lock_timeout TO {n}", "lock_timeout", "{n}"),
                   ("SET SESSION work_mem = '{n}MB'", "work_mem", "'{n}MB'"),
                   ("SET application_name = 'app{n}'", "application_name", "'app{n}'")],
    "mysql": [("SET SESSION wait_timeout = {n}", "wait_timeout", "{n}"),
              ("SET @marker = {n}", "marker", "{n}"),
              ("SET lock_wait_timeout = {n}", "lock_wait_timeout", "{n}"),
              ("SET SESSION sort_buffer_size = {n}", "sort_buffer_size", "{n}")],
    "sqlite": [("PRAGMA cache_size = -{n}", "cache_size", "-{n}"),
               ("PRAGMA busy_timeout = {n}", "busy_timeout", "{n}"),
               ("PRAGMA soft_heap_limit = {n}00000", None, None),
               ("PRAGMA max_page_count = 9{n}00", "max_page_count", "9{n}00")],
}
LEVELS = {
    "postgresql": ["READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE", "READ UNCOMMITTED"],
    "mysql": ["READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE", "READ UNCOMMITTED"],
    "sqlite": ["SERIALIZABLE", "READ UNCOMMITTED"],
}


def session_settings(rng, dialect):
    """([session statements], {parameter: value})"""
    sqls, want = [], {}
    for _ in range(rng.choice([0, 1, 2, 3])):
        sql, name, val = rng.choice(SESSION_SQLS[dialect])
        n = rng.randint(100, 999)
        sqls.append(sql.format(n=n))
        if name:
            want[name] = val.format(n=n)
    return sqls, want


class SessionWatch:
    """Before every statement of the run: is the session it goes to fully set up?"""

    def __init__(self, sim, want):
        self.want, self.problem, self.seen = want, None, set()
        sim.listeners.append(self)

    def __call__(self, event, session=None, kind=None, sql=None, **kw):
        if event != "statement" or kind == "setup" or self.problem:
            return
        w = self.want.get(session.role)
        if w is None:
            return
        self.seen.add(session.sid)
        p = self.sqlite(session, w) if session.dialect == "sqlite" else self.server(session, w)
        if p:
            self.problem = f"session {session.sid} runs {' '.join(sql.split())[:80]!r} {p}"

    @staticmethod
    def server(sess, w):
        for name, val in sorted(w["settings"].items()):
            if sess.settings.get(name) != val:
                return f"with {name} {sess.settings.get(name)} instead of {val}"
        level = "READ COMMITTED" if w["level"] == "READ UNCOMMITTED" else w["level"]
        if sess.isolation != level and not sess.autocommit:
            return f"with isolation {sess.isolation} instead of {level}"
        return None

    @staticmethod
    def sqlite(sess, w):
        cur = sqlite3.Connection.cursor(sess.conn, sqlite3.Cursor)

        def get(name):
            row = cur.execute(f"PRAGMA {name}").fetchone()
            return None if row is None else str(row[0])

        try:
            for name, val in sorted(w["settings"].items()):
                if get(name) != val:
                    return f"with {name} {get(name)} instead of {val}"
            have = {r[1]: r[2] for r in cur.execute("PRAGMA database_list").fetchall()}
            for name, path in w["attached"].items():
                if name not in have:
                    return f"without database {name} attached"
                if os.path.realpath(have[name]) != os.path.realpath(path):
                    return f"with {have[name]} attached as {name}"
            if get("read_uncommitted") != ("1" if w["level"] == "READ UNCOMMITTED" else "0"):
                return f"with read_uncommitted {get('read_uncommitted')}"
        finally:
            cur.close()
        return None


class C19(Check):
    id = "C19"
    rule = ("random session statements, isolation levels and attached databases; the servers "
            "close idle connections at random points or after a time-out in simulated time; every "
            "statement's session inspected, result compared with the undisturbed run; "
            "non-trivial: a connection was replaced or a session setting inspected")

    def generate(self, rng, index, tier):
        mode = rng.choice(["plain", "plain", "merge", "compact", "mult", "skip"])
        kw = dict(tables=(1, 6), rows=(0, 14), session=0.0, multi_schema=0.45,
                  src={"sqlite": 2, "postgresql": 5, "mysql": 5},
                  dst={"same": 8, "sqlite": 1, "postgresql": 2, "mysql": 2, "dir": 1})
        if mode in ("merge", "compact", "mult"):
            kw.update(MODE_KW)
        if mode in ("merge", "skip"):
            kw.update(dst=DB)
        if mode == "merge":
            kw.update(pk={"int": 8, "none": 1}, create=0.0)
        case = base_case(rng, **kw)
        limit_dst_fks(case)
        if mode == "merge":
            merge_mode(case, rng)
        add_mode(case, rng, mode)
        if mode == "skip":
            add_prior(rng, case, overlap=0.4)
            case["config"]["dest"]["conflict_strategy"] = "skip"
        if mode in ("compact", "merge", "skip") or rng.random() < 0.6:
            scen.make_deterministic(case)
        case["mode"] = mode
        want = {}
        for role, key in (("src", "source"), ("dst", "dest")):
            dialect = case["src"]["dialect"] if role == "src" else case["dst"].get("dialect")
            if dialect is None:
                continue
            cfg = case["config"].setdefault(key, {})
            sqls, vals = session_settings(rng, dialect)
            if sqls:
                cfg["session_sqls"] = sqls
            level = None
            if rng.random() < 0.6:
                level = cfg["isolation_level"] = rng.choice(LEVELS[dialect])
            want[role] = {"settings": vals, "level": level or (
                "SERIALIZABLE" if dialect == "sqlite" else "READ COMMITTED")}
        case["want"] = want
        case["idle"] = rng.choice(["drop", "drop", "timeout", "both"])
        return case

    def execute(self, case, ctx):
        base = ctx.build(case)
        src = scen.src_rows(base, case)
        want = {}
        for role, store in (("src", base.src), ("dst", base.dst)):
            if role in case["want"]:
                want[role] = dict(case["want"][role])
        clean = ctx.clone(base)
        sim = ctx.sim(case, inst=clean)
        watch = SessionWatch(sim, self.wanted(case, clean, want))
        out = ctx.run(sim, clean, 0)
        need(watch.problem is None, "C19.setup", str(watch.problem))
        if out.status != "ok":
            ctx.probe("clean_run_fails")
            return
        if watch.seen and any(w["settings"] for w in want.values()):
            ctx.nontrivial = True
        counts = dict(sim.op_totals)
        if not case.get("faults"):
            rng = rng_of(case, "idle")
            ops = [o for o in sorted(counts) if counts[o]]
            fs = []
            if case["idle"] != "timeout":
                for _ in range(rng.choice([1, 2, 4, 8])):
                    op = rng.choices(ops, [counts[o] ** 0.5 * (8 if o.endswith("ping") else 1)
                                           for o in ops])[0]
                    fs.append({"run": 0, "op": op, "n": rng.randint(1, counts[op]),
                               "kind": "idle_drop", "role": rng.choice([None, "src", "dst"])})
            if case["idle"] != "drop":
                for _ in range(rng.choice([1, 2, 4])):
                    op = rng.choice(ops)
                    fs.append({"run": 0, "op": op, "n": rng.randint(1, counts[op]),
                               "kind": "slow", "delay": rng.choice([70.0, 900.0])})
            case["faults"] = fs
        inst = ctx.clone(base)
        prev = inst.read_out() if db_dst(case) else {}
        knobs = {} if case["idle"] == "drop" else {"idle_timeout": 60.0}
        sim = ctx.sim(case, faults=case["faults"], inst=inst, **knobs)
        watch = SessionWatch(sim, self.wanted(case, inst, want))
        out = ctx.run(sim, inst, 0)
        need(watch.problem is None, "C19.setup", str(watch.problem))
        dropped = sim.fired.get("idle_drop", 0) + sim.fired.get("idle_timeout", 0)
        ctx.probe("connections_lost", dropped)
        need(out.status == "ok", "C19.failed",
             f"the run fails when idle connections are lost: {out.status} {out.error}")
        if dropped:
            ctx.nontrivial = True
        rows = split_planned(case, inst.read_out())
        if scen.deterministic(case):
            ref = split_planned(case, clean.read_out())
            need(sorted(ref) == sorted(rows), "C19.result", "other tables are output")
            for n in sorted(ref):
                miss, extra = oracle.diff_rows(ref[n], rows[n])
                need(not miss and not extra, "C19.result",
                     f"{n}: lacks {miss[:2]} has {extra[:2]} when idle connections are lost")
        elif not prev or not any(prev.values()):
            p = oracle.content_problems(case, src, rows) if case["mode"] != "merge" else None
            need(not p, "C19.result", "; ".join((p or [])[:3]))

    @staticmethod
    def wanted(case, inst, want):
        res = {}
        for role, store in (("src", inst.src), ("dst", inst.dst)):
            if role not in want:
                continue
            att = {}
            if store.dialect == "sqlite":
                att = {s: f for s, f in store.files.items()}
            res[role] = {**want[role], "attached": att}
        return res


CHECKS = [C15, C16, C18, C19, C28]
