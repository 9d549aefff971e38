"""The reference model: what a sample has to contain, computed from the source rows, the
configuration and (for the direction in which each key was followed) the plan."""
import collections
import fnmatch
import re


def tkey(t):
    return f"{t['schema']}.{t['name']}"


def remap_name(case, name):
    for rule in case["config"].get("dest", {}).get("remap", ()):
        name = re.sub(rule["search"], rule["replace"], name)
    return name


def tables_of(case):
    return {tkey(t): t for t in case["src"]["tables"]}


class FK:
    __slots__ = ("table", "cols", "ref", "rcols", "name")

    def __init__(self, table, cols, ref, rcols, name=None):
        self.table, self.cols, self.ref, self.rcols = table, tuple(cols), ref, tuple(rcols)
        self.name = name

    def ident(self):
        return (self.table, self.cols, self.ref, self.rcols)

    def __repr__(self):
        return f"{self.table}({','.join(self.cols)})->{self.ref}({','.join(self.rcols)})"


def declared_fks(case):
    res = []
    for t in case["src"]["tables"]:
        for fk in t["fks"]:
            res.append(FK(tkey(t), fk["cols"], ".".join(fk["ref"]), fk["rcols"], fk["name"]))
    return res


def selected_tables(case):
    """Tables the planner considers: selection patterns, passthrough, and dependencies."""
    pl = case["config"]["planner"]
    tabs = tables_of(case)
    pats = pl["select"] + pl.get("passthrough", [])
    sel = {n for n in tabs if any(fnmatch.fnmatchcase(n, p) for p in pats)}
    if pl.get("include_dependencies", True):
        fks = declared_fks(case)
        while True:
            new = {f.ref for f in fks if f.table in sel} - sel
            if not new:
                break
            sel |= new
    return sel


def inferred_fks(case, selected, mode):
    """Keys inferred from column names: a column named like another table's single-column
    primary key (unique among the selected tables of the schema, or of all schemas)."""
    tabs = tables_of(case)
    if mode == "none":
        return []
    by_pk = collections.defaultdict(list)
    for n in selected:
        t = tabs[n]
        if t["pk"]:
            k = (t["schema"] if mode == "schema" else None, tuple(t["pk"]))
            by_pk[k].append(n)
    res = []
    for n in sorted(selected):
        t = tabs[n]
        for c in t["cols"]:
            k = (t["schema"] if mode == "schema" else None, (c["name"],))
            cand = by_pk.get(k, [])
            if len(cand) == 1 and cand[0] != n:
                res.append(FK(n, [c["name"]], cand[0], [c["name"]], "inferred"))
    return res


def planner_fks(case, selected=None):
    """The foreign keys the planner has to respect."""
    pl = case["config"]["planner"]
    sel = selected_tables(case) if selected is None else selected
    fks = [f for f in declared_fks(case) if f.table in sel and f.ref in sel]
    seen = {f.ident() for f in fks}
    for f in inferred_fks(case, sel, pl.get("infer_foreign_keys", "none")):
        if f.ident() not in seen:
            seen.add(f.ident())
            fks.append(f)
    for ig in pl.get("ignore_fks", ()):
        fks = [f for f in fks if not (f.table == ig["src_table"] and f.ref == ig["dst_table"])]
    names = {n: {c["name"] for c in t["cols"]} for n, t in tables_of(case).items()}
    for x in pl.get("extra_fks", ()):
        if (x["src_table"] in sel and x["dst_table"] in sel
                and set(x["src_columns"]) <= names[x["src_table"]]
                and set(x["dst_columns"]) <= names[x["dst_table"]]):
            f = FK(x["src_table"], x["src_columns"], x["dst_table"], x["dst_columns"], "extra")
            if f.ident() not in {g.ident() for g in fks}:
                fks.append(f)
    return fks


class Levels:
    """Which tables take part, and in which direction each was reached: starting from the
    targets, everything they reference; then everything that references those; and so on."""

    def __init__(self, case):
        pl = case["config"]["planner"]
        sel = selected_tables(case)
        out = set(pl.get("passthrough", ())) | set(pl.get("ignore", ()))
        nodes = sel - out
        fks = [f for f in planner_fks(case, sel) if f.table in nodes and f.ref in nodes]
        self.fks = fks
        fwd = collections.defaultdict(set)
        rev = collections.defaultdict(set)
        for f in fks:
            fwd[f.table].add(f.ref)
            rev[f.ref].add(f.table)
        self.level = {}
        frontier = set(pl["targets"]) & nodes
        edges = fwd
        # level 1: targets and their forward closure
        cur = self._closure(frontier, fwd, set())
        n = 1
        vis = set()
        while cur:
            for u in cur:
                self.level[u] = n
            vis |= cur
            edges = rev if edges is fwd else fwd
            start = {v for u in cur for v in edges[u]} - vis
            cur = self._closure(start, edges, vis)
            n += 1
        self.passthrough = [p for p in pl.get("passthrough", ()) if p in sel]

    @staticmethod
    def _closure(start, edges, vis):
        seen, stack = set(start), list(start)
        while stack:
            u = stack.pop()
            for v in edges[u]:
                if v not in seen and v not in vis:
                    seen.add(v)
                    stack.append(v)
        return seen

    def planned(self):
        return set(self.level) | set(self.passthrough)

    def backward(self, table):
        return self.level[table] % 2 == 0


def plan_joins(plan):
    """{table: [(right table, left columns, right columns)]} from a plan (as plain data)."""
    res = {}
    for name, q in plan["queries"].items():
        st = q.get("statement") or {}
        joins = []
        for s in st.get("statements", [st]):
            for j in s.get("joins") or ():
                r = j["right"]
                if r.get("sampled"):
                    joins.append(
                        (f"{r['schema']}.{r['table']}", tuple(j["left_columns"]),
                         tuple(j["right_columns"]))
                    )
        res[name] = joins
    return res


def directions(case, plan=None):
    """{table: (backward FKs, forward FKs)} and an evaluation order."""
    lv = Levels(case)
    back = collections.defaultdict(list)
    fwd = collections.defaultdict(list)
    joins = plan_joins(plan) if plan else {}
    order_edges = collections.defaultdict(set)
    for f in lv.fks:
        if f.table not in lv.level or f.ref not in lv.level:
            continue
        if (f.ref, f.cols, f.rcols) in [(a, b, c) for a, b, c in joins.get(f.table, ())]:
            d = "back"
        elif (f.table, f.rcols, f.cols) in [(a, b, c) for a, b, c in joins.get(f.ref, ())]:
            d = "fwd"
        else:
            # not joined in the plan: decided by the canonical direction
            if lv.backward(f.table) and lv.level[f.ref] <= lv.level[f.table]:
                d = "back"
            else:
                d = "fwd"
        if d == "back":
            back[f.table].append(f)
            order_edges[f.table].add(f.ref)
        else:
            fwd[f.ref].append(f)
            order_edges[f.ref].add(f.table)
    order, seen = [], set()

    def visit(u, stack):
        if u in seen:
            return
        if u in stack:
            raise ValueError("cyclic evaluation order")
        for v in sorted(order_edges[u]):
            visit(v, stack | {u})
        seen.add(u)
        order.append(u)

    for u in sorted(lv.level, key=lambda x: (lv.level[x], x)):
        visit(u, frozenset())
    return lv, order, back, fwd


# ------------------------------------------------------------------------------ predicates
def like(value, pattern, ci):
    if value is None:
        return None
    rx = "".join(
        ".*" if ch == "%" else "." if ch == "_" else re.escape(ch) for ch in pattern
    )
    return re.fullmatch(rx, value, re.S | (re.I if ci else 0)) is not None


def op_match(op, a, b, ci):
    if a is None:
        return None
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "=":
        return a == b
    if op in ("<>", "!="):
        return a != b
    if op == "like":
        return like(a, b, ci)
    if op == "not like":
        return not like(a, b, ci)
    raise ValueError(op)


SQL_PREDS = {
    # text -> predicate; the generator only uses these
    "v > 1": lambda r: r["v"] is not None and r["v"] > 1,
    "v <= 2": lambda r: r["v"] is not None and r["v"] <= 2,
    "v IS NULL": lambda r: r["v"] is None,
    "v = 1 OR v = 3": lambda r: r["v"] in (1, 3),
    "v <> 2 AND v < 4": lambda r: r["v"] is not None and r["v"] != 2 and r["v"] < 4,
    "s LIKE 'a%'": lambda r: r["s"] is not None and r["s"].startswith("a"),
}


def target_matches(case, target, row):
    """Does a row meet all (deterministic) filters of a target?"""
    if target.get("all"):
        return True
    ci = case["src"]["dialect"] != "postgresql"
    for col, pats in target.get("like", {}).items():
        for p in pats:
            if not like(row[col], p, ci):
                return False
    for col, vals in target.get("in", {}).items():
        if row[col] not in vals:
            return False
    if target.get("sql") is not None and not SQL_PREDS[target["sql"]](row):
        return False
    return True


def constraint_ok(case, table, row):
    ci = case["src"]["dialect"] != "postgresql"
    for c in case["config"]["planner"].get("table_constraints", {}).get(table, ()):
        if not op_match(c["operator"], row[c["column"]], c["value"], ci):
            return False
    return True


def fkval(row, cols):
    v = tuple(row[c] for c in cols)
    return None if any(x is None for x in v) else v


# ------------------------------------------------------------------------------ evaluation
class Problem(Exception):
    pass


def check_tags(case, src, plan, tags):
    """Compare the rows present in the output with what is called for.

    src: {table: rows of one source state}; tags: {table: [tag of every output row]} where each
    source row counts once (multiplicity removed).  Returns a list of problem strings."""
    problems = []
    pl = case["config"]["planner"]
    lv, order, back, fwd = directions(case, plan)
    by_tag = {t: {r["tag"]: r for r in rows} for t, rows in src.items()}
    planned = lv.planned()
    for t, ts in sorted(tags.items()):
        if t not in planned:
            if ts:
                problems.append(f"{t}: {len(ts)} rows in a table that is not sampled")
            continue
        dup = [x for x, n in collections.Counter(ts).items() if n > 1]
        if dup:
            problems.append(f"{t}: rows output more than once: {dup[:3]}")
        alien = [x for x in ts if x not in by_tag[t]]
        if alien:
            problems.append(f"{t}: rows that are not in the source: {alien[:3]}")
    if problems:
        return problems
    got = {t: set(tags.get(t, ())) for t in planned}
    for t in lv.passthrough:
        want = set(by_tag[t])
        _diff(problems, t, want, got[t], "passthrough")
    for t in order:
        target = pl["targets"].get(t)
        rows = src[t]
        ref = set()
        for f in fwd[t]:
            keys = {fkval(by_tag[f.table][x], f.cols) for x in got[f.table]}
            keys.discard(None)
            ref |= {r["tag"] for r in rows if fkval(r, f.rcols) in keys}
        if target is not None:
            m = {r["tag"] for r in rows
                 if target_matches(case, target, r) and constraint_ok(case, t, r)}
            rnd = not target.get("all") and target.get("percent") is not None
            if rnd and target["percent"] >= 100:
                rnd = False
            if rnd and target["percent"] <= 0:
                m, rnd = set(), False
            amount = None if target.get("all") else target.get("amount")
            if not rnd and amount is None:
                _diff(problems, t, m | ref, got[t], "target")
            else:
                miss = ref - got[t]
                extra = got[t] - ref - m
                if miss:
                    problems.append(f"{t}: target lacks referenced rows {sorted(miss)[:4]}")
                if extra:
                    problems.append(f"{t}: target has rows not matching: {sorted(extra)[:4]}")
                if amount is not None:
                    if len(got[t] - ref) > amount:
                        problems.append(
                            f"{t}: {len(got[t] - ref)} rows drawn, amount is {amount}")
                    if not rnd and len(got[t] & m) < min(amount, len(m)):
                        problems.append(
                            f"{t}: only {len(got[t] & m)} rows, amount is {amount} of {len(m)}")
        elif back[t]:
            sets = [
                (f.cols, {fkval(by_tag[f.ref][x], f.rcols) for x in got[f.ref]})
                for f in back[t]
            ]
            want = {
                r["tag"] for r in rows
                if all(fkval(r, cols) is not None and fkval(r, cols) in ks for cols, ks in sets)
                and constraint_ok(case, t, r)
            }
            if fwd[t]:
                want &= ref
            _diff(problems, t, want, got[t], "intersection")
        else:
            _diff(problems, t, ref, got[t], "union")
    return problems


def _diff(problems, t, want, got, kind):
    miss, extra = want - got, got - want
    if miss:
        problems.append(f"{t}: {kind}: missing {sorted(miss)[:4]} ({len(miss)} rows)")
    if extra:
        problems.append(f"{t}: {kind}: unexpected {sorted(extra)[:4]} ({len(extra)} rows)")


def closure_problems(case, rows, fks=None):
    """Referential closure of the output rows themselves (untransformed keys)."""
    lv = Levels(case)
    planned = lv.planned()
    problems = []
    for f in fks if fks is not None else planner_fks(case):
        if f.table not in planned or f.ref not in planned:
            continue
        keys = {fkval(r, f.rcols) for r in rows.get(f.ref, ())}
        for r in rows.get(f.table, ()):
            v = fkval(r, f.cols)
            if v is not None and v not in keys:
                problems.append(f"{f}: {v} does not resolve (row {r.get('tag')})")
                break
    return problems


def evaluate(case, src, plan, rows_filter=None):
    """The exact expected tags for a case without random targets."""
    pl = case["config"]["planner"]
    lv, order, back, fwd = directions(case, plan)
    got = {}
    for t in lv.passthrough:
        got[t] = {r["tag"] for r in src[t]}
    by_tag = {t: {r["tag"]: r for r in rows} for t, rows in src.items()}
    for t in order:
        rows = src[t]
        ref = set()
        for f in fwd[t]:
            keys = {fkval(by_tag[f.table][x], f.cols) for x in got[f.table]}
            keys.discard(None)
            ref |= {r["tag"] for r in rows if fkval(r, f.rcols) in keys}
        target = pl["targets"].get(t)
        if target is not None:
            got[t] = ref | {r["tag"] for r in rows
                            if target_matches(case, target, r) and constraint_ok(case, t, r)}
        elif back[t]:
            sets = [
                (f.cols, {fkval(by_tag[f.ref][x], f.rcols) for x in got[f.ref]})
                for f in back[t]
            ]
            got[t] = {
                r["tag"] for r in rows
                if all(fkval(r, cols) is not None and fkval(r, cols) in ks for cols, ks in sets)
                and constraint_ok(case, t, r)
            }
        else:
            got[t] = ref
    return got


def is_random(case):
    return any(
        not t.get("all") and (t.get("percent") is not None or t.get("amount") is not None)
        for t in case["config"]["planner"]["targets"].values()
    )
