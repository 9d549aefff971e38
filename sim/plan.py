"""How much each check explores, and the evidence it writes.  Imports nothing of the simulator."""
import json
import os

# cases of the quick tier: about 20-40 s on 8 cores
CASES = {
    "C01": 1600, "C02": 2000, "C03": 1200, "C04": 1000, "C05": 1200, "C06": 700, "C07": 1200,
    "C08": 1000, "C09": 1200, "C10": 1500, "C11": 1800, "C12": 1000, "C13": 1200, "C14": 900,
    "C15": 1200, "C16": 800, "C17": 350, "C18": 900, "C19": 1000, "C20": 160, "C21": 64,
    "C22": 1200, "C23": 900, "C24": 1200, "C25": 1600, "C28": 1500, "C29": 1000,
}
DEFAULT = 1000
FACTOR = {"quick": 1, "thorough": 25}
LIMIT = {"quick": 300, "thorough": 3000}


def conf(cid, tier):
    return {"cases": CASES.get(cid, DEFAULT) * FACTOR.get(tier, 1), "limit": LIMIT.get(tier, 300)}


FINAL = {}


def has_final(cid):
    return cid in FINAL


def final(cid, data):
    """Checks over what all worker processes reported (each has a hash seed of its own)."""
    return FINAL[cid](data)


COMPONENTS = {
    "real code": [
        "subsetter (planner, solver, plan model, sampler, filters, metadata, config, CLI)",
        "SQLAlchemy (Core, ORM-less reflection, dialect compilers, pool), pydantic, PyYAML, faker",
        "SQLite library (the engine behind every simulated database; used directly for sqlite)",
    ],
    "stubs": [
        "psycopg2 and PyMySQL drivers and their servers: in-process servers that translate "
        "each dialect's SQL and run it on SQLite, with PostgreSQL/MySQL transaction, snapshot, "
        "temporary table, sequence, catalogue and error behaviour modelled on top",
        "the disk under output, plan and configuration files, and standard output",
        "clock, entropy (random, uuid, secrets, SQL random functions), tqdm",
    ],
}


def write_evidence(here, cid, tier, seed, total, samples, wall, violations, knowns, nproblems):
    cases = int(total.get("cases", 0))
    runs = int(total.get("runs", 0))
    hours = max(wall, 1e-6) / 3600
    ops = total.get("ops", {})
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": len(set(total.get("digests", []))),
        "rule": total.get("rule", [""])[0] if isinstance(total.get("rule"), list)
        else total.get("rule", ""),
        "samples": samples[:4],
        "simulated_runs": runs,
        "runs_per_hour": round(runs / hours),
        "seeds_per_hour": round(cases / hours),
        "simulated_seconds": round(float(total.get("sim_time", 0)), 1),
        "faults_fired": dict(sorted(total.get("fired", {}).items())),
        "other_client_transactions": int(total.get("writers", 0)),
        "outcomes": dict(sorted(total.get("outcomes", {}).items())),
        "operations": dict(sorted(ops.items())),
        "database_pairs": dict(sorted(total.get("worlds", {}).items())),
        "distinct_interleavings": len(set(total.get("traces", []))),
        "interleaving_measure": "distinct sequences of operation classes, faults and other "
                                "clients' commits over whole runs",
        "probes": dict(sorted(total.get("probes", {}).items())),
        "errors_without_fault": dict(sorted(total.get("errors", {}).items())[:20]),
        "components": COMPONENTS,
        "known_findings_met": knowns,
        "harness_problems": nproblems,
    }
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "the simulated PostgreSQL and MySQL servers behave like the real ones on the "
            "statements the tool sends (the PostgreSQL one was compared with a real server during "
            "development; no MySQL server was at hand, its rules follow the documentation)",
            "sampling, not enumeration: a clean run is evidence for the explored seeds only",
        ],
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    path = os.path.join(here, "evidence", f"{cid}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True, default=str)
    os.replace(path + ".tmp", path)
