"""Definitions of destination tables: what exists, what --create must produce, the difference."""
import re

from . import oracle
from .model import remap_name
from .world import quote


def describe(store, schema, table):
    if store.dialect == "sqlite":
        return _sqlite(store, schema, table)
    import json

    con = store.raw()
    (d,) = con.execute("SELECT def FROM __cat WHERE name = ?", (f"{schema}.{table}",)).fetchone()
    con.close()
    d = json.loads(d)
    pk = set(d["pk"])
    return {
        "cols": [(c["name"], bool(c.get("null", True)) and c["name"] not in pk)
                 for c in d["cols"]],
        "pk": frozenset(pk),
        "uniques": {frozenset(u["cols"]) for u in d["uniques"]}
        | {frozenset(i["cols"]) for i in d["indexes"] if i.get("unique") and not _special(i)},
        "indexes": {tuple(i["cols"]) for i in d["indexes"] if not i.get("unique")},
        "special": {_special(i) for i in d["indexes"] if _special(i)},
        "fks": {(tuple(f["cols"]), ".".join(f["ref"]), tuple(f["rcols"])) for f in d["fks"]},
    }


def _sqlite(store, schema, table):
    con = store.raw()
    q, t = quote(schema), quote(table)
    cols, pk = [], set()
    for _, name, _typ, notnull, _dflt, ispk, hidden in con.execute(f"PRAGMA {q}.table_xinfo({t})"):
        if hidden == 1:
            continue
        if ispk:
            pk.add(name)
        cols.append((name, not notnull and not ispk))
    uniques, indexes, special = set(), set(), set()
    for row in con.execute(f"PRAGMA {q}.index_list({t})").fetchall():
        name, unique, origin = row[1], row[2], row[3]
        ic = [r[2] for r in con.execute(f"PRAGMA {q}.index_info({quote(name)})")]
        if origin == "pk":
            continue
        if row[4]:
            (sql,) = con.execute(
                f"SELECT sql FROM {q}.sqlite_master WHERE name = ?", (name,)).fetchone()
            ix = {"unique": unique, "cols": ic, "where": re.split(r"\)\s+where\s+", sql, 1, re.I)[1]}
            special.add(_special(ix))
            if not unique:
                indexes.add(tuple(ic))
        elif unique:
            uniques.add(frozenset(ic))
        else:
            indexes.add(tuple(ic))
    fks = {}
    for fid, _seq, ref, col, rcol, *_ in con.execute(f"PRAGMA {q}.foreign_key_list({t})"):
        f = fks.setdefault(fid, (ref, [], []))
        f[1].append(col)
        f[2].append(rcol)
    con.close()
    return {
        "cols": cols, "pk": frozenset(pk), "uniques": uniques, "indexes": indexes,
        "special": special,
        "fks": {(tuple(c), f"{schema}.{r}", tuple(rc)) for r, c, rc in fks.values()},
    }


def _special(ix):
    """What an index with expressions or a condition is; None for others."""
    if not ix.get("where") and not ix.get("exprs"):
        return None

    def norm(s):
        s = re.sub(r"\s+", "", s)
        return s[1:-1] if s[:1] + s[-1:] == "()" else s

    return (bool(ix["unique"]), tuple(ix["cols"]), tuple(map(norm, ix.get("exprs", ()))),
            norm(ix.get("where") or ""))


def expected(case, src, planned, dialect):
    """The table of definition `src` as --create must produce it in a `dialect` destination."""
    pk = set(src["pk"])
    schema = remap_name(case, f"{src['schema']}.{src['name']}").split(".", 1)[0]
    fks = set()
    for f in src["fks"]:
        ref = ".".join(f["ref"])
        if ref not in planned:
            continue
        to = planned[ref]
        if dialect == "sqlite" and to.split(".", 1)[0] != schema:
            continue  # SQLite has no keys between databases
        fks.add((tuple(f["cols"]), to, tuple(f["rcols"])))
    # databases of another kind cannot have them: at least, their keys must not be wider
    special = {_special(i) for i in src["indexes"] if _special(i)}
    if dialect != case["src"]["dialect"]:
        special = None
    return {
        "special": special,
        "cols": [(c["name"], bool(c.get("null", True)) and c["name"] not in pk)
                 for c in src["cols"]],
        "pk": frozenset(pk),
        "uniques": {frozenset(u["cols"]) for u in src["uniques"]}
        | {frozenset(i["cols"]) for i in src["indexes"] if i["unique"] and not _special(i)},
        "indexes": {tuple(i["cols"]) for i in src["indexes"]
                    if not i["unique"] and not _special(i)},
        "fks": fks,
    }


def compare(want, got, indexes=True):
    """Description of the first difference, or None."""
    if want["cols"] != got["cols"]:
        return f"columns (name, nullable) {got['cols']}, expected {want['cols']}"
    for k, what in (("pk", "primary key"), ("fks", "foreign keys")):
        if want[k] != got[k]:
            return f"{what} {_show(got[k])}, expected {_show(want[k])}"
    if indexes:
        if want["uniques"] - {want["pk"]} != got["uniques"] - {want["pk"]}:
            return f"unique keys {_show(got['uniques'])}, expected {_show(want['uniques'])}"
        missing = want["indexes"] - got["indexes"]
        if want["special"] is not None and want["special"] != got["special"]:
            return (f"indexes (unique, columns, expressions, condition) {_show(got['special'])}, "
                    f"expected {_show(want['special'])}")
        if missing:
            return f"indexes {_show(got['indexes'])}, expected {_show(want['indexes'])}"
    return None


def _show(v):
    return sorted((sorted(x) if isinstance(x, frozenset) else x for x in v), key=str)


_ = oracle
