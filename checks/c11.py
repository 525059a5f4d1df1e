import core, gen
from common_strategy import *
import common_big
from common_verdict import *


def check(ctx):
    ctx.rule = ("random specifications under the options that select another algorithm for the same question (bias for action, "
                "fixpoint recycling), verdict and controllers; non-trivial = realizable with at least 2 states, or a verdict run")
    ver = []
    for k in range(ctx.scale(900, 9000)):
        sp = gen.rand_spec(ctx.rng)
        ver.append(verdict_case(sp, ctx.rng, robotics=k % 3 == 0, extra=["--fixedPointRecycling"]))
    core.run_cases(ctx, "Realizability", ver, observe_verdict, describe=describe_verdict)
    cases = []
    for k in range(ctx.scale(900, 9000)):
        sp = gen.rand_spec(ctx.rng)
        cases.append(explicit_case(sp, ctx.rng, robotics=k % 3 == 1, extra=(["--biasForAction"], ["--fixedPointRecycling"])[k % 2]))
    core.run_cases(ctx, "ExplicitStrategy", cases, observe_explicit, describe=describe)
    common_big.run_big(ctx, ctx.scale(80, 1200), options=(("--fixedPointRecycling",), ("--biasForAction",)))
    for c in cases:
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "strategy": c["rawout"]})
        ctx.count(c["observed"])
    for c in ver:
        ctx.count("verdict " + c["observed"])
