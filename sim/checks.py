"""Registry of the checks."""
import importlib

CHECKS = {}
for name in ("checks_content", "checks_dst", "checks_out", "checks_net"):
    try:
        mod = importlib.import_module(f"sim.{name}")
    except ModuleNotFoundError as exc:
        if name not in str(exc):
            raise
        continue
    for cls in mod.CHECKS:
        CHECKS[cls.id] = cls()


def get(cid):
    return CHECKS[cid]


def summary(case):
    """A case written out briefly, for the evidence."""
    pl = case["config"].get("planner") or {}
    return {
        "source": case["src"]["dialect"],
        "destination": case["dst"].get("dialect", "directory"),
        "tables": {f"{t['schema']}.{t['name']}": {
            "rows": len(case["data"].get(f"{t['schema']}.{t['name']}", ())),
            "pk": t["pk"],
            "fks": [f"{','.join(f['cols'])}->{'.'.join(f['ref'])}" for f in
                    t["fks"] + t.get("xfks", [])],
        } for t in case["src"]["tables"]},
        "targets": pl.get("targets"),
        "passthrough": pl.get("passthrough", []),
        "sampler": {k: v for k, v in case["config"].get("sampler", {}).items()},
        "dest": case["config"].get("dest", {}),
        "faults": case.get("faults") or case.get("history") or [],
        "writers": case.get("writers") or [],
        "driver": case.get("driver"),
    }
