"""Checks of the specification itself (no real code involved): run by C01 and C05."""
import json, gen, pad, tlc


def fail(what, r):
    raise tlc.TLCError("the specification is inconsistent (%s):\n%s" % (what, tlc.brief(r["out"])))


def fixpoint_runs(ctx, n):
    """the stepwise solver (ModelGR1) on n games"""
    f = ctx.path(".nd")
    with open(f, "w") as h:
        for _ in range(n):
            h.write(json.dumps({"lines": gen.lines_of(gen.render(gen.rand_spec(ctx.rng, max_total=3)))}) + "\n")
    r = tlc.run_tlc("ModelGR1", env={"CASES": f}, cont=False, workers=4, scratch=ctx.scratch)
    if "Model checking completed. No error" not in r["out"]:
        fail("stepwise fixed points", r)
    ctx.add_stats(r)
    ctx.count("model_fixpoint_games", n)


def strategy_enumeration(ctx, n):
    cases = []
    while len(cases) < n:
        fam = ctx.rng.choice([gen.fam_clausal, gen.fam_graph, gen.fam_formula])
        sp = fam(ctx.rng, max_in=1, max_out=1, max_total=2, min_total=2)
        if len(sp["ins"]) != 1 or len(sp["outs"]) != 1:
            continue
        for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
            sp["secs"][s] = sp["secs"][s][:1]
        cases.append({"lines": gen.lines_of(gen.render(sp))})
    st, bad = tlc.eval_cases("ModelPlays", cases, ctx.scratch)
    if bad:
        raise tlc.TLCError("the specification is inconsistent: %s on %s" % (bad[0][1], bad[0][0]))
    ctx.add_stats(st)
    ctx.count("model_enumerated_games", n)


def composition(ctx, n):
    cases = []
    while len(cases) < n:
        sp = gen.rand_spec(ctx.rng, max_total=2)
        q = {"ins": list(sp["ins"]), "outs": list(sp["outs"]), "secs": {s: [list(f) for f in fs] for s, fs in sp["secs"].items()}}
        ctx.rng.choice([lambda: pad.add_equality(q, ctx.rng, 1), lambda: pad.add_echo(q, ctx.rng, 1), lambda: pad.add_sum(q, ctx.rng, 1)])()
        if len(q["ins"]) + len(q["outs"]) > 5:
            continue
        cases.append({"lines": gen.lines_of(gen.render(sp)), "padded": gen.lines_of(gen.render(q))})
    st, bad = tlc.eval_cases("Composition", cases, ctx.scratch)
    if bad:
        raise tlc.TLCError("the specification is inconsistent: %s on %s" % (bad[0][1], bad[0][0]))
    ctx.add_stats(st)
    ctx.count("model_compositions", n)


def temporal(ctx, cases):
    """controllers that the fixed points of StrategyCheck/BigGame accept, run as state machines;
    TLC checks the liveness requirement as a temporal formula.  Returns the rejected case."""
    cs = [{"lines": c["lines"], "nodes": c["nodes"]} for c in cases]
    if not cs:
        return None
    f = ctx.path(".nd")
    with open(f, "w") as h:
        for c in cs:
            h.write(json.dumps(c) + "\n")
    r = tlc.run_tlc("StrategyRuns", env={"CASES": f}, cont=False, workers=4, scratch=ctx.scratch)
    if "Model checking completed. No error" not in r["out"]:
        fail("controllers as state machines", r)
    ctx.add_stats(r)
    ctx.count("controllers_run_as_state_machines", len(cs))
