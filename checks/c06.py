import os, json, core, gen, slugs, strat
from common_strategy import describe as d5, explicit_case, observe_explicit


def one_line(v):
    return v.split("\n")[0][:200]


def observe(ctx, c):
    f = ctx.write(c["text"])
    base = ["--explicitStrategy"] + (["--sysInitRoboticsSemantics"] if c["robotics"] else []) + (["--simpleRecovery"] if c["recovery"] else []) + c["extra"]
    res = {"renderings": [], "verdicts": [], "errors": [], "jsonvars": [], "leaks": False, "rawout": []}
    for js in (False, True):
        for tofile in (False, True):
            of = "%s.%d.out" % (f, js)
            r = slugs.run(ctx.exe, base + (["--jsonOutput"] if js else []) + [f] + ([of] if tofile else []))
            v = slugs.verdict(r)
            out = r["out"]
            if tofile:
                if out:
                    res["leaks"] = True
                out = open(of).read() if os.path.exists(of) else ""
                if v != "realizable" and os.path.exists(of) and out == "" and False:
                    pass
            res["verdicts"].append(v)
            nodes, err = [], ""
            if v == "realizable" or out:
                try:
                    nodes = (strat.parse_json if js else strat.parse_text)(out, c["text"], raw=True)
                    if js:
                        res["jsonvars"].append(json.loads(out)["variables"])
                except strat.Malformed as e:
                    err = one_line(str(e))
            res["renderings"].append(nodes)
            res["errors"].append(err)
            res["rawout"].append(out[:1500])
    return res


def check(ctx):
    ctx.rule = "random specifications (1..6 variables, odd names), the controller in four renderings; non-trivial = realizable with at least 2 states"
    cases = []
    for k in range(ctx.scale(700, 6000)):
        sp = gen.rand_spec(ctx.rng)
        c = explicit_case(sp, ctx.rng, robotics=ctx.rng.random() < .4, recovery=ctx.rng.random() < .3,
                          extra=ctx.rng.choice([[], [], ["--biasForAction"], ["--fixedPointRecycling"], ["--cooperativeGR1Strategy"]]))
        cases.append(c)
    core.run_cases(ctx, "StrategyFormats", cases, observe,
                   describe=lambda c: "controller renderings of\n%s\n%s recovery=%s robotics=%s: %s" % (c["text"], c["extra"], c["recovery"], c["robotics"], c["rawout"][:2]))
    # the JSON rendering on its own is a correct controller
    js = []
    for k in range(ctx.scale(250, 2500)):
        js.append(explicit_case(gen.rand_spec(ctx.rng), ctx.rng, robotics=k % 2 == 1, fmt="json", to_file=k % 5 == 0))
    core.run_cases(ctx, "ExplicitStrategy", js, observe_explicit, describe=d5)
    for c in cases:
        if len(c["renderings"][0]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "text": c["rawout"][0], "json": c["rawout"][2]})
        ctx.count(c["verdicts"][0])
