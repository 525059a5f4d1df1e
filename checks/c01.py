import core, gen, pad, model
from common_verdict import *
import common_big


def run(ctx, robotics):
    ctx.rule = ("random GR(1) specifications (clauses, formulas, sparse game graphs, templates; 0..5 variables), the same embedded "
                "into noise with up to 30 further variables (forces BDD reordering), distinct by text; non-trivial = the verdict "
                "depends on liveness or takes the fixpoint (counted: every distinct text)")
    cases = []
    for k in range(ctx.scale(2600, 20000)):
        cases.append(verdict_case(gen.rand_spec(ctx.rng), ctx.rng, robotics))
    for k in range(ctx.scale(150, 2500)):
        cases.append(verdict_case(gen.fam_graph(ctx.rng, max_in=2, max_out=3, max_total=5, min_total=5), ctx.rng, robotics))
    for k in range(ctx.scale(500, 4000)):
        sp = gen.rand_spec(ctx.rng, max_total=3)
        c = verdict_case(sp, ctx.rng, robotics)
        c["runtext"] = gen.render(pad.pad(sp, ctx.rng, k % 2 == 0), ctx.rng)
        cases.append(c)
    core.run_cases(ctx, "Realizability", cases, observe_verdict, describe=describe_verdict)
    for c in cases:
        ctx.distinct.add(c.get("runtext", c["text"]))
        ctx.count(c["observed"])
    common_big.run_big(ctx, ctx.scale(90, 1500), examples=True, robotics=robotics)
    for c in cases[:3]:
        ctx.sample({"spec": c["text"], "args": c["args"], "observed": c["observed"]})


def check(ctx):
    run(ctx, False)
    model.fixpoint_runs(ctx, ctx.scale(60, 1500))
    model.strategy_enumeration(ctx, ctx.scale(60, 2000))
    model.composition(ctx, ctx.scale(40, 1000))
