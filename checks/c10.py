import core, gen
from common_strategy import *
import common_big


def check(ctx):
    ctx.rule = "random specifications, counterstrategies in both semantics; non-trivial = unrealizable with at least 2 states printed"
    cases = []
    for k in range(ctx.scale(2400, 20000)):
        r = ctx.rng.random()
        if r < .15:
            sp = gen.rand_spec(ctx.rng, fams=[(gen.fam_clausal, 1), (gen.fam_formula, 1)], max_out=0, min_total=1) if r < .07 else gen.rand_spec(ctx.rng, fams=[(gen.fam_formula, 1)])
        else:
            sp = gen.rand_spec(ctx.rng, fams=[(gen.fam_clausal, 3), (gen.fam_formula, 1), (gen.fam_graph, 6), (gen.fam_template, 2)])
        cases.append(counter_case(sp, ctx.rng, robotics=k % 3 == 1, to_file=k % 6 == 0))
    core.run_cases(ctx, "CounterStrategy", cases, observe_counter, describe=describe)
    common_big.run_big(ctx, ctx.scale(70, 1050))
    for c in cases:
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "counterstrategy": c["rawout"]})
        ctx.count(c["observed"])
