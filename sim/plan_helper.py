"""Plans one case in a process of its own (another hash seed) and prints the plan."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.boot import boot  # noqa: E402

boot()
from sim import checks, scen, world  # noqa: E402

with open(sys.argv[1], encoding="utf-8") as fh:
    case = json.load(fh)
check = checks.get("C17")
ctx = scen.Ctx("x")
with world.Scratch(os.path.join(world.scratch_base(), f"vsim-{os.getpid()}-s")) as sc:
    ctx.scratch = sc
    inst = ctx.build(case)
    c2 = dict(case, knobs={**case["knobs"], **case["variants"][0], "entropy": 4711})
    plan = check.plan(ctx, c2, inst)
print(json.dumps(plan))
