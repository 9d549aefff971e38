#!/usr/bin/env python3
"""Entry point of the checks:  check.py C01 [--tier quick|thorough] [--seed N]
                               check.py C01 --replay replays/C01-....json"""
import argparse
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
from sim import known, plan  # noqa: E402


def env_for(slot):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(slot)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["TQDM_DISABLE"] = "1"
    e.pop("PYTHONPATH", None)
    return e


def start(args, slot):
    return subprocess.Popen(
        [PY, "-X", "utf8", os.path.join(HERE, "sim", "worker.py"), json.dumps(args)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(slot), cwd=HERE, text=True,
    )


def stop(procs):
    for p in procs:
        if p.poll() is None:
            p.kill()
    for p in procs:
        p.wait()
        for base in ("/dev/shm", "/tmp"):
            for tag in ("s", "r"):
                shutil.rmtree(os.path.join(base, f"vsim-{p.pid}-{tag}"), ignore_errors=True)


def merge(total, part):
    for k, v in part.items():
        if isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            d = total.setdefault(k, {})
            merge(d, v) if k == "data" else [
                d.__setitem__(a, max(d.get(a, 0), b) if a.endswith("_max") else d.get(a, 0) + b)
                for a, b in v.items()]
        elif isinstance(v, list):
            total[k] = sorted(set(total.get(k, [])) | set(v)) if k in ("traces", "digests") else (
                total.get(k, []) + v)
    return total


def run_shards(cid, tier, seed):
    conf = plan.conf(cid, tier)
    slots = min(8, os.cpu_count() or 8)
    shards = 8
    procs, q = {}, queue.Queue()
    pending = list(range(shards))

    def reader(slot, p):
        for line in p.stdout:
            q.put((slot, line))
        err = p.stderr.read()
        q.put((slot, None, p.wait(), err))

    def launch():
        slot = pending.pop(0)
        args = {"mode": "shard", "check": cid, "seed": seed, "tier": tier, "shard": slot,
                "shards": shards, "count": conf["cases"], "limit": conf["limit"]}
        p = start(args, slot)
        procs[slot] = p
        threading.Thread(target=reader, args=(slot, p), daemon=True).start()

    for _ in range(min(slots, shards)):
        launch()
    total, samples, knowns, problems, viol = {}, [], {}, [], None
    live = shards
    while live:
        item = q.get()
        if item[1] is None:
            live -= 1
            if item[2] != 0:
                problems.append(f"worker {item[0]} ended with {item[2]}: {item[3][-2000:]}")
            if pending:
                launch()
            continue
        slot, line = item
        try:
            msg = json.loads(line)
        except ValueError:
            continue
        t = msg["type"]
        if t == "done":
            merge(total, msg["stats"])
            samples += msg["samples"]
        elif t == "known":
            knowns.setdefault(msg["ident"], msg["index"])
        elif t in ("harness", "broken"):
            problems.append(f"{t} case {msg['index']}: {msg['error']}\n{msg.get('trace', '')}")
        elif t == "violation":
            msg["slot"] = slot
            viol = msg
            break
    stop(procs.values())
    return total, samples, knowns, problems, viol


def save_replay(cid, slot, msg, name=None):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", name or f"{cid}-{msg['case']['index']}.json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump({"property": cid, "hashseed": slot, "code": msg["code"],
                   "message": msg["message"], "digest": msg["digest"], "case": msg["case"],
                   "trace": msg.get("log"), "faults_fired": msg.get("fired")}, fh, indent=1)
    return path


def run_one(cid, slot, path, **kw):
    p = start({"mode": "one", "check": cid, "file": path, **kw}, slot)
    out, err = p.communicate()
    stop([p])
    res = None
    for line in out.splitlines():
        m = json.loads(line)
        if m["type"] == "replayed":
            res = m
    if res is None:
        sys.stderr.write(err)
    return res


def replay(cid, path):
    with open(path, encoding="utf-8") as fh:
        rep = json.load(fh)
    res = run_one(cid, rep["hashseed"], path)
    if res is None:
        return 3
    print(f"replayed {path}: code={res['code']} digest={res['digest']} "
          f"(recorded {rep['code']} {rep['digest']})")
    if res["code"] is None:
        print("the recorded violation does not occur on this tree")
        return 0
    print(res["message"])
    for log in res["log"]:
        print("\n".join("  " + line for line in log))
    print(f"VIOLATION property={cid} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--no-minimize", action="store_true")
    a = ap.parse_args()
    cid = a.property
    if a.replay:
        return replay(cid, a.replay)
    t0 = time.time()
    total, samples, knowns, problems, viol = run_shards(cid, a.tier, a.seed)
    wall = time.time() - t0
    fin = None
    if viol is None and plan.has_final(cid) and not problems:
        fin = plan.final(cid, total.get("data", {}))
        if fin:
            viol = {"slot": 0, "code": fin["code"], "message": fin["message"],
                    "case": {"index": "final", "final": fin.get("case")}, "digest": "final",
                    "final": True}
    rc = 0
    for ident in sorted(knowns):
        print(f"KNOWN-FINDING: property={cid} {known.describe(cid, ident)}")
    if viol is not None:
        path = save_replay(cid, viol["slot"], viol)
        if not a.no_minimize and not viol.get("final"):
            res = run_one(cid, viol["slot"], path, minimize=True, budget=60)
            if res and res["code"] == viol["code"]:
                path = save_replay(cid, viol["slot"], {**res, "case": res["case"]})
                viol["message"] = res["message"]
            elif res is not None:
                print(f"note: the violation did not reproduce in a fresh process: {res['code']}")
        print(f"{viol['code']}: {viol['message']}")
        print(f"VIOLATION property={cid} replay={path}")
        rc = 1
    elif problems:
        rc = 2
    for p in problems[:5]:
        sys.stderr.write(p + "\n")
    plan.write_evidence(HERE, cid, a.tier, a.seed, total, samples, wall, 1 if viol else 0,
                        sorted(knowns), len(problems))
    n = total.get("cases", 0)
    print(f"{cid} {a.tier} seed={a.seed}: {n} cases, {total.get('runs', 0)} simulated runs, "
          f"{wall:.1f}s, exit {rc}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
