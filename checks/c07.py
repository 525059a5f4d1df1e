import core, gen
from common_strategy import *


def check(ctx):
    ctx.rule = ("random specifications with environment safety assumptions, controllers extracted with recovery transitions "
                "(text, JSON, symbolic, both semantics); non-trivial = realizable with at least 2 states")
    cases = []
    opts = [(), (), ("--biasForAction",), ("--fixedPointRecycling",)]
    for k in range(ctx.scale(1100, 9000)):
        sp = gen.rand_spec(ctx.rng)
        cases.append(explicit_case(sp, ctx.rng, robotics=k % 2 == 1, recovery=True, extra=ctx.rng.choice(opts), fmt="json" if k % 9 == 0 else "text"))
    core.run_cases(ctx, "ExplicitStrategy", cases, observe_explicit, describe=describe)
    sy = []
    for k in range(ctx.scale(250, 2500)):
        sy.append(symbolic_case(gen.rand_spec(ctx.rng, max_total=3), ctx.rng, simple=k % 2 == 0, robotics=k % 3 == 0, recovery=True))
    core.run_cases(ctx, "SymbolicStrategy", sy, observe_symbolic, describe=describe)
    for c in cases:
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "strategy": c["rawout"]})
        ctx.count(c["observed"])
