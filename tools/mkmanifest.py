"""Writes MANIFEST.json: which properties are claimed, by which command."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PROPS = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
NOT_APPLICABLE = {
    "C26": "pure function of its input (a graph): no schedule, clock, I/O or fault to simulate; "
           "input generation alone would not be this technique. Its effect on a run is covered "
           "by C01, C02, C17 and C25.",
    "C27": "pure function of a query: no schedule, clock, I/O or fault to simulate. Its effect on "
           "a run (the rows selected) is covered by C02.",
}
TRUST = ("Assumes the in-process PostgreSQL/MySQL servers (SQL translated to SQLite, transactions, "
         "snapshots, catalogues, sequences and errors modelled) answer as the real ones do on the "
         "statements this tool sends; SQLite itself is real. ")


def main():
    sys.path.insert(0, HERE)
    from sim import levels  # what each check claims

    checks, na = [], []
    for p in PROPS:
        cid = p["id"]
        if cid in NOT_APPLICABLE:
            na.append({"property": cid, "reason": NOT_APPLICABLE[cid]})
            continue
        if cid not in levels.NOTES:
            na.append({"property": cid, "reason": "check not built yet"})
            continue
        checks.append({
            "property": cid,
            "quick_cmd": f"python3 check.py {cid} --tier quick",
            "thorough_cmd": f"python3 check.py {cid} --tier thorough",
            "evidence_file": f"evidence/{cid}.json",
            "technique": "deterministic simulation with fault injection: " + levels.TECH[cid],
            "level": "exploration",
            "level_note": levels.NOTES[cid] + " " + TRUST,
        })
    out = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "hooks": {"guard": "none", "enable": "no hook in /repo: the seams are the DBAPI modules, "
                  "files, clock and entropy, replaced from outside in the check's own processes",
                  "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. Each check runs 8 worker processes; one seed is one repeatable "
                 "execution; replay with: python3 check.py <id> --replay <file>.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(out, fh, indent=1)
        fh.write("\n")


main()
