import core, gen
from common_strategy import *

OPTS = [(), (), ("--biasForAction",), ("--fixedPointRecycling",)]


def check(ctx):
    ctx.rule = ("random GR(1) specifications (all generator families), distinct by text; non-trivial = realizable and some node "
                "offers two answers to one input")
    cases = []
    for k in range(ctx.scale(900, 9000)):
        sp = gen.rand_spec(ctx.rng)
        cases.append(permissive_case(sp, ctx.rng, robotics=k % 3 == 2, extra=OPTS[k % 4], to_file=k % 7 == 0))
    core.run_cases(ctx, "PermissiveStrategy", cases, observe_permissive, describe=describe)
    for c in cases:
        if c["nodes"]:
            if any(len(n["succ"]) > 1 for n in c["nodes"]):
                ctx.distinct.add(c["text"])
                ctx.sample({"spec": c["text"], "args": c["args"], "strategy": c["rawout"][:1500]})
        ctx.count(c["observed"])
