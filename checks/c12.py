import core, gen
from common_strategy import *


def check(ctx):
    ctx.rule = ("random specifications run with --cooperativeGR1Strategy, explicit (text, JSON) and symbolic controllers and plain verdicts; distinct by "
                "text; non-trivial = realizable controller of at least 2 nodes")
    ctx.assumptions.append("the controller of the cooperative variant pursues the assumptions as additional goals; their goal numbers are not checked")
    cases, sym = [], []
    for k in range(ctx.scale(1000, 9000)):
        sp = gen.rand_spec(ctx.rng, max_total=4 if k % 3 else 3)
        cases.append(explicit_case(sp, ctx.rng, robotics=k % 3 == 2, recovery=False, fmt="json" if k % 8 == 1 else "text",
                                   extra=("--cooperativeGR1Strategy",), ranks=False))
    for k in range(ctx.scale(250, 3000)):
        sp = gen.rand_spec(ctx.rng, max_total=3)
        sym.append(symbolic_case(sp, ctx.rng, simple=k % 2 == 0, robotics=k % 3 == 2, extra=("--cooperativeGR1Strategy",)))
    core.run_cases(ctx, "ExplicitStrategy", cases, observe_explicit, describe=describe)
    core.run_cases(ctx, "SymbolicStrategy", sym, observe_symbolic, describe=describe)
    for c in cases:
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "strategy": c["rawout"][:1500]})
        ctx.count(c["observed"])
