"""Worker process: runs the cases of one check that belong to one shard, or one replay."""
import gc
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim.boot import boot  # noqa: E402

boot()

from sim import checks, core, gen, minimize, scen, world  # noqa: E402


def emit(**kw):
    sys.__stdout__.write(json.dumps(kw, ensure_ascii=True, default=str) + "\n")
    sys.__stdout__.flush()


def scratch_root(tag):
    return os.path.join(world.scratch_base(), f"vsim-{os.getpid()}-{tag}")


def make_case(check, seed, index, tier):
    rng = gen.rng_for(check.id, seed, index)
    case = check.generate(rng, index, tier)
    if check.unknown_names:
        gen.add_unknown_names(rng, case)
    case["seed"] = f"{check.id}:{seed}:{index}"
    case["index"] = index
    return json.loads(json.dumps(case))


def shard(args):
    check = checks.get(args["check"])
    deadline = time.time() + args["limit"]
    stats = scen.Stats()
    root = scratch_root("s")
    samples = []
    i = args["shard"]
    while i < args["count"] and time.time() < deadline:
        try:
            case = make_case(check, args["seed"], i, args["tier"])
            viol, ctx = scen.execute(check, case, root, stats)
        except core.HarnessError as exc:
            emit(type="harness", index=i, error=f"{exc}", trace=traceback.format_exc())
            stats.probes["harness_errors"] += 1
            i += args["shards"]
            continue
        except BaseException as exc:
            emit(type="broken", index=i, error=f"{type(exc).__name__}: {exc}",
                 trace=traceback.format_exc())
            break
        if viol is not None:
            known = check.known(case, viol)
            if known:
                emit(type="known", ident=known, index=i)
            else:
                emit(type="violation", index=i, code=viol.code, message=viol.message, case=case,
                     digest=ctx.digest())
                break
        if len(samples) < 1 and ctx.nontrivial:
            samples.append({"index": i, "seed": case["seed"], "digest": ctx.digest(),
                            "summary": checks.summary(case)})
        i += args["shards"]
        if stats.cases % 10 == 0:
            gc.collect()
    final = getattr(check, "final", None)
    out = stats.to_json()
    out["rule"] = [check.rule]
    if final is not None:
        out["data"] = check.data
    emit(type="done", stats=out, samples=samples, next=i)


def one(args):
    """Replay (and optionally minimise) one recorded case."""
    check = checks.get(args["check"])
    with open(args["file"], encoding="utf-8") as fh:
        rep = json.load(fh)
    root = scratch_root("r")
    case = rep["case"]
    if args.get("minimize"):
        case = minimize.minimize(check, case, rep["code"], rep.get("message"), root, args.get("budget", 60), emit)
    viol, ctx = scen.execute(check, json.loads(json.dumps(case)), root, keep_log=True)
    emit(type="replayed", code=viol.code if viol else None,
         message=viol.message if viol else None, digest=ctx.digest(), case=case,
         log=ctx.logs, fired=[s.fired_list for s in ctx.sims])


if __name__ == "__main__":
    a = json.loads(sys.argv[1])
    (shard if a["mode"] == "shard" else one)(a)
