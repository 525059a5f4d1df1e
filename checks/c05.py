import core, gen, model
from common_strategy import *
import common_big


def check(ctx):
    ctx.rule = ("random GR(1) specifications (clausal, formula, sparse game graphs, templates), distinct by content, "
                "non-trivial = realizable with a printed controller of at least 2 nodes")
    n = ctx.scale(1500, 12000)
    cases = []
    for k in range(n):
        sp = gen.rand_spec(ctx.rng)
        cases.append(explicit_case(sp, ctx.rng, robotics=k % 3 == 2, to_file=k % 7 == 0))
    core.run_cases(ctx, "ExplicitStrategy", cases, observe_explicit, describe=describe)
    big = common_big.run_big(ctx, ctx.scale(110, 1650))
    if not ctx.violations:
        model.temporal(ctx, [c for c in big if c["observed"] == "realizable" and 2 <= len(c["nodes"]) <= 60
                             and c["text"].count("[SYS_LIVENESS]") <= 2 and len(c["nodes"][0]["val"]) <= 8])
    for c in cases:
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "strategy": c["rawout"]})
        ctx.count(c["observed"])
