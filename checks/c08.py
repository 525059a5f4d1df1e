import core, gen
from common_strategy import *


def check(ctx):
    ctx.rule = "random specifications, BDD controllers in both symbolic formats, evaluated over every position, goal and input; non-trivial = realizable"
    cases = []
    opts = [(), (), (), ("--biasForAction",), ("--fixedPointRecycling",), ("--cooperativeGR1Strategy",)]
    for k in range(ctx.scale(900, 8000)):
        sp = gen.rand_spec(ctx.rng, max_total=3 if k % 4 else 4)
        cases.append(symbolic_case(sp, ctx.rng, simple=k % 2 == 0, robotics=ctx.rng.random() < .4, extra=ctx.rng.choice(opts)))
    core.run_cases(ctx, "SymbolicStrategy", cases, observe_symbolic, describe=describe)
    for c in cases:
        if c["observed"] == "realizable":
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "bdd": c["rawout"][:800]})
        ctx.count(c["observed"])
