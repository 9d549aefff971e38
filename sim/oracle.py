"""Expected output rows: the reference model of the transformations, and the comparison of an
output with what is called for.  Built on `model`, which decides *which* rows are sampled."""
import collections
import json

from . import model
from .model import FK, Levels, fkval, tables_of

INTS = ("int", "bigint")


def col(t, name):
    return next(c for c in t["cols"] if c["name"] == name)


def sampler_fks(case, planned):
    """Keys the sampler follows when it rewrites key values."""
    fks = [f for f in model.declared_fks(case) if f.table in planned and f.ref in planned]
    seen = {f.ident() for f in fks}
    mode = case["config"]["sampler"].get("infer_foreign_keys", "none")
    for f in model.inferred_fks(case, planned, mode):
        if f.ident() not in seen:
            fks.append(f)
    return fks


def int_pk(t):
    return len(t["pk"]) == 1 and col(t, t["pk"][0])["type"] in INTS


def autoinc_pk(case, t):
    if not int_pk(t):
        return False
    c = t["pk"][0]
    if any(c in f["cols"] for f in t["fks"]):
        return False
    return case["src"]["dialect"] == "sqlite" or bool(col(t, c).get("autoinc"))


def compact_cols(case, planned):
    cfg = case["config"]["sampler"].get("compact", {})
    tabs = tables_of(case)
    pas = set(case["config"]["planner"].get("passthrough", ()))
    res = {}
    for n, cols in cfg.get("columns", {}).items():
        if n in planned and n not in pas and cols:
            res[n] = set(cols)
    for n in planned:
        if n in pas or not int_pk(tabs[n]):
            continue
        if cfg.get("primary_keys") or (
            cfg.get("auto_increment_keys") and autoinc_pk(case, tabs[n])
        ):
            res.setdefault(n, set()).add(tabs[n]["pk"][0])
    return res


def multiplier(case):
    return case["config"]["sampler"].get("multiplicity", {}).get("multiplier", 1)


def multiplied(case, planned):
    """{table: multiplied columns} of the tables that are multiplied."""
    cfg = case["config"]["sampler"].get("multiplicity", {})
    m = cfg.get("multiplier", 1)
    if m <= 1:
        return {}
    tabs = tables_of(case)
    ignored = set(case["config"]["planner"].get("passthrough", ())) | set(
        cfg.get("ignore_tables", ()))
    res = {
        n: set(cfg.get("extra_columns", {}).get(n, ()))
        | (set(tabs[n]["pk"]) - set(cfg.get("ignore_primary_key_columns", {}).get(n, ())))
        for n in planned if n not in ignored
    }
    fks = sampler_fks(case, planned)
    while True:
        changed = False
        for f in fks:
            for c, rc in zip(f.cols, f.rcols):
                if rc in res.get(f.ref, ()) and c not in res.get(f.table, ()):
                    res.setdefault(f.table, set()).add(c)
                    changed = True
        if not changed:
            return res


def impossible_multiplicity(case, planned):
    cfg = case["config"]["sampler"].get("multiplicity", {})
    ignored = set(case["config"]["planner"].get("passthrough", ())) | set(
        cfg.get("ignore_tables", ()))
    tabs = tables_of(case)
    m = multiplied(case, planned)
    for f in sampler_fks(case, planned):
        for c, rc in zip(f.cols, f.rcols):
            if c in m.get(f.table, ()) and rc not in m.get(f.ref, ()):
                return "multiplied column references one that is not multiplied"
    for n, cols in m.items():
        if cols and n in ignored:
            return "reference from an ignored table to a multiplied column"
        for c in cols:
            if col(tabs[n], c)["type"] not in INTS:
                return "multiplied column is not an integer"
    return None


def omitted(case, table):
    res = set()
    for f in case["config"]["sampler"].get("filters", {}).get(table, ()):
        if f["op"] == "omit":
            res |= set(f["columns"])
    return res


def transform(case, base, offsets=None):
    """Expected output rows of every table, from its sampled rows (lists of dicts)."""
    tabs = tables_of(case)
    planned = set(base)
    fks = sampler_fks(case, planned)
    comp = compact_cols(case, planned)
    start = case["config"]["sampler"].get("compact", {}).get("start_key", 1)
    ids = {}
    for n, cols in comp.items():
        pk = tabs[n]["pk"]
        rows = sorted(base[n], key=lambda r: tuple(r[c] for c in pk))
        ids[n] = {id(r): start + i for i, r in enumerate(rows)}
    by_col = collections.defaultdict(list)
    for f in fks:
        for c, rc in zip(f.cols, f.rcols):
            by_col[(f.table, c)].append((f.ref, rc))

    def root(n, c, seen=()):
        """The rewritten column whose values column c of n holds."""
        for ref in by_col.get((n, c), ()):
            if ref[1] in comp.get(ref[0], ()):
                return ref
            if ref not in seen:
                r = root(*ref, seen + (ref,))
                if r:
                    return r
        return None

    lookup = {}
    for n, c in by_col:
        r = root(n, c)
        if r:
            lookup[(n, c)] = {row[r[1]]: ids[r[0]][id(row)] for row in base[r[0]]}
    mult = multiplied(case, planned)
    m = multiplier(case)
    shift = column_offsets(case, planned, offsets) if offsets is not None else {}
    res = {}
    for n in planned:
        out = []
        names = [c["name"] for c in tabs[n]["cols"]]
        drop = omitted(case, n)
        for r in base[n]:
            row = {}
            for c in names:
                if c not in r or c in drop:
                    continue
                v = r[c]
                if (n, c) in lookup:
                    v = None if v is None else lookup[(n, c)].get(v)
                if c in comp.get(n, ()):
                    v = ids[n][id(r)]
                row[c] = v
            if n in mult:
                for i in range(m):
                    row2 = dict(row)
                    for c in mult[n]:
                        if row2.get(c) is not None:
                            row2[c] = row2[c] * m + i
                    out.append(row2)
            else:
                out.append(row)
        for row in out:
            for c, d in shift.get(n, {}).items():
                if d and row.get(c) is not None:
                    row[c] += d
        res[n] = out
    return res


def column_offsets(case, planned, offsets):
    """Which column is shifted by how much when merging, given one constant per table."""
    tabs = tables_of(case)
    pas = set(case["config"]["planner"].get("passthrough", ()))
    fks = sampler_fks(case, planned)
    by_col = collections.defaultdict(list)
    for f in fks:
        for c, rc in zip(f.cols, f.rcols):
            by_col[(f.table, c)].append((f.ref, rc))

    def off(n, c):
        for ref in by_col.get((n, c), ()):
            d = off(*ref)
            if d:
                return d
        if n not in pas and [c] == tabs[n]["pk"] and int_pk(tabs[n]):
            return offsets.get(n, 0)
        return 0

    return {n: {c["name"]: off(n, c["name"]) for c in tabs[n]["cols"]} for n in planned
            if n not in pas}


# ------------------------------------------------------------------------------ comparison
def _key(row):
    return json.dumps(row, sort_keys=True, ensure_ascii=False, default=str)


def diff_rows(want, got, ignore=()):
    """Multiset difference of two lists of rows, as (missing, extra)."""
    ig = set(ignore)
    strip = (lambda r: {c: v for c, v in r.items() if c not in ig})
    a = collections.Counter(_key(strip(r)) for r in want)
    b = collections.Counter(_key(strip(r)) for r in got)
    return list((a - b).elements()), list((b - a).elements())


def new_rows(before, after):
    """Rows of `after` that are not (as a multiset) in `before`; and the rows that are gone."""
    res, gone = {}, {}
    for n, rows in after.items():
        left = collections.Counter(_key(r) for r in before.get(n, ()))
        add = []
        for r in rows:
            k = _key(r)
            if left[k]:
                left[k] -= 1
            else:
                add.append(r)
        res[n] = add
        lost = list(left.elements())
        if lost:
            gone[n] = lost
    for n in before:
        if n not in after and before[n]:
            gone[n] = [_key(r) for r in before[n]]
    return res, gone


def _short(items, n=2):
    return "; ".join(str(x)[:160] for x in items[:n]) + (f" ... ({len(items)})" if len(items) > n else "")


def sampled_tags(case, out):
    """{table: tags} with the copies of multiplied tables counted once."""
    planned = Levels(case).planned()
    mult = multiplied(case, planned)
    m = multiplier(case)
    problems, tags = [], {}
    for n, rows in out.items():
        ts = [r["tag"] for r in rows]
        if n in mult and m > 1:
            res = []
            for tag, k in sorted(collections.Counter(ts).items()):
                if k % m:
                    problems.append(f"{n}: row {tag} output {k} times, multiplier {m}")
                res += [tag] * max(1, k // m)
            ts = res
        tags[n] = ts
    return tags, problems


def content_problems(case, src, out, offsets=None, exact=True, present=None):
    """Does the output hold exactly what the configuration calls for, given one source state?

    `out`: {source table: new rows}; `present`: rows of passthrough tables that were there
    already (merge), by table: set of tags."""
    planned = Levels(case).planned()
    out = {n: rows for n, rows in out.items() if n in planned or rows}
    tags, problems = sampled_tags(case, out)
    if problems:
        return problems
    full = {n: list(ts) for n, ts in tags.items()}
    for n, have in (present or {}).items():
        full[n] = list(full.get(n, [])) + sorted(have)
    problems = model.check_tags(case, src, None, full)
    if problems or not exact:
        return problems
    missing = [n for n in planned if n not in out]
    if missing:
        return [f"{n}: no output table or file" for n in missing]
    base = {}
    for n in planned:
        by = {r["tag"]: r for r in src[n]}
        base[n] = [by[x] for x in full.get(n, ())]
    want = transform(case, base, offsets)
    for n in sorted(planned):
        w = want[n]
        if present and n in present:
            w = [r for r in w if r["tag"] not in present[n]]
        miss, extra = diff_rows(w, out[n])
        if miss or extra:
            problems.append(f"{n}: rows differ: expected {_short(miss)} got {_short(extra)}")
    return problems


def out_links(case, out, fks=None):
    """Referential closure over the output rows with the keys the sampler rewrites."""
    planned = Levels(case).planned()
    res = []
    for f in fks if fks is not None else sampler_fks(case, planned):
        keys = {fkval(r, f.rcols) for r in out.get(f.ref, ())}
        for r in out.get(f.table, ()):
            v = fkval(r, f.cols)
            if v is not None and v not in keys:
                res.append(f"{f}: {v} does not resolve (row {r.get('tag')})")
                break
    return res


__all__ = ["FK", "transform", "content_problems"]
