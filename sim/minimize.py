"""Reduces a failing case: drops faults, other clients' transactions, earlier runs, rows, tables,
configuration and special conditions as long as the same violation (code) remains."""
import copy
import json
import re
import time

from . import scen
from .core import HarnessError
from .gen import tkey


def kind(code, message):
    """What a violation is about: its code, and the error that its message names, if any. A
    smaller case that fails in another way is not the same violation."""
    m = re.search(r"\b[A-Z]\w*(?:Error|Exception|Warning)\b", message or "")
    if not m:
        return code, None
    rest = re.sub(r"\([^)]*\)|'[^']*'|\[.*|\W|\d", " ", message[m.end():])
    return code, (m.group(0), *rest.split()[:3])


class Reducer:
    def __init__(self, check, case, want, root, budget):
        self.check, self.want, self.root = check, want, root
        self.case = case
        self.end = time.time() + budget
        self.tried = 0

    def fails(self, case):
        if time.time() > self.end:
            return False
        self.tried += 1
        left = max(2, int(self.end - time.time()) + 1)
        try:
            viol, _ = scen.execute(self.check, json.loads(json.dumps(case)), self.root, limit=left)
        except (HarnessError, scen.CaseTimeout):
            return False
        except Exception:
            return False
        return viol is not None and kind(viol.code, viol.message) == self.want

    def attempt(self, fn):
        """Apply fn to a copy; keep it if the violation remains."""
        c = copy.deepcopy(self.case)
        try:
            if fn(c) is False:
                return False
        except (KeyError, IndexError, ValueError, TypeError):
            return False
        if c == self.case or not self.fails(c):
            return False
        self.case = c
        return True

    def over(self):
        return time.time() > self.end

    # ------------------------------------------------------------------------ passes
    def lists(self, get):
        """Drop elements of a list, halves first."""
        n = len(get(self.case) or ())
        size = max(1, n // 2)
        while size >= 1 and not self.over():
            i = 0
            while i < len(get(self.case) or ()) and not self.over():
                def cut(c, i=i, size=size):
                    x = get(c)
                    del x[i:i + size]
                if not self.attempt(cut):
                    i += size
            size //= 2

    def run(self):
        for key in ("faults", "writers"):
            if self.case.get(key):
                self.lists(lambda c, key=key: c[key])
        for i in range(len(self.case.get("history") or ())):
            if self.case["history"][i]:
                self.lists(lambda c, i=i: c["history"][i])
        for i in range(len(self.case.get("writers") or ())):
            self.lists(lambda c, i=i: c["writers"][i]["ops"])
        self.config()
        self.tables()
        self.rows()
        self.config()
        self.columns()
        return self.case

    def config(self):
        for sec in ("sampler", "dest", "source", "planner"):
            cfg = self.case["config"].get(sec)
            for k in sorted(cfg or {}):
                if k in ("targets", "select"):
                    continue
                if self.over():
                    return
                self.attempt(lambda c, sec=sec, k=k: c["config"][sec].pop(k))
                sub = (self.case["config"].get(sec) or {}).get(k)
                if isinstance(sub, dict):
                    for kk in sorted(sub):
                        self.attempt(lambda c, sec=sec, k=k, kk=kk: c["config"][sec][k].pop(kk))
                elif isinstance(sub, list) and sub:
                    self.lists(lambda c, sec=sec, k=k: c["config"].get(sec, {}).get(k, []))
        for n in sorted((self.case["config"].get("planner") or {}).get("targets", ())):
            self.attempt(lambda c, n=n: c["config"]["planner"]["targets"].pop(n))
        for k in ("buffers", "truncate", "create"):
            if self.case.get(k):
                self.attempt(lambda c, k=k: c.pop(k))
        for k, v in (("permute", False), ("reverse_unordered", False), ("catalog_seed", None)):
            if self.case.get("knobs", {}).get(k):
                self.attempt(lambda c, k=k, v=v: c["knobs"].__setitem__(k, v))

    def tables(self):
        for name in sorted(self.case["data"], reverse=True):
            if self.over():
                return

            def drop(c, name=name):
                for side in ("src", "dst"):
                    if "tables" not in c[side]:
                        continue
                    t = [t for t in c[side]["tables"] if tkey(t) == name]
                    for x in c[side]["tables"]:
                        for key in ("fks", "xfks"):
                            if key in x and any(".".join(f["ref"]) == name for f in x[key]):
                                x[key] = [f for f in x[key] if ".".join(f["ref"]) != name]
                    c[side]["tables"] = [x for x in c[side]["tables"] if x not in t]
                c["data"].pop(name, None)
                (c["dst"].get("data") or {}).pop(name, None)
                pl = c["config"]["planner"]
                pl["select"] = [s for s in pl["select"] if s != name]
                pl["targets"].pop(name, None)
                pl["passthrough"] = [s for s in pl.get("passthrough", ()) if s != name]
                if not c["src"]["tables"]:
                    return False

            self.attempt(drop)

    def rows(self):
        for name in sorted(self.case["data"]):
            if self.case["data"][name] and not self.over():
                self.lists(lambda c, name=name: c["data"][name])
        for name in sorted(self.case["dst"].get("data") or ()):
            if self.case["dst"]["data"][name] and not self.over():
                self.lists(lambda c, name=name: c["dst"]["data"][name])
        if self.case.get("gen_rows"):
            for k in sorted(self.case["gen_rows"]):
                self.attempt(lambda c, k=k: c["gen_rows"].__setitem__(k, c["gen_rows"][k] // 2))

    def columns(self):
        for ti, t in enumerate(self.case["src"]["tables"]):
            used = set(t["pk"]) | {c for f in t["fks"] + t.get("xfks", []) for c in f["cols"]}
            for col in [c["name"] for c in t["cols"]]:
                if col in used or col in ("tag",) or self.over():
                    continue

                def drop(c, name=tkey(t), col=col):
                    from .model import remap_name
                    pair = [("src", name)]
                    if c["dst"].get("tables") is not None:
                        pair.append(("dst", remap_name(c, name)))
                    for side, n in pair:
                        for x in c[side]["tables"]:
                            if tkey(x) == n:
                                x["cols"] = [y for y in x["cols"] if y["name"] != col]
                                x["uniques"] = [u for u in x["uniques"] if col not in u["cols"]]
                                x["indexes"] = [
                                    u for u in x["indexes"] if col not in u["cols"]
                                    and not (u.get("where") or u.get("exprs"))]
                            for f in x["fks"]:
                                if ".".join(f["ref"]) == n and col in f["rcols"]:
                                    return False
                    for r in c["data"].get(name, ()):
                        r.pop(col, None)
                    for r in (c["dst"].get("data") or {}).get(pair[-1][1], ()):
                        r.pop(col, None)

                self.attempt(drop)


def minimize(check, case, code, message, root, budget, emit):
    """The smallest case found within the budget (seconds)."""
    check.minimizing = True
    red = Reducer(check, case, kind(code, message), root, budget)
    if not red.fails(case):
        emit(type="note", text="the violation did not recur before minimising")
        return case
    res = red.run()
    emit(type="note", text=f"minimised in {red.tried} attempts")
    return json.loads(json.dumps(res))
