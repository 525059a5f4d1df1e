"""Controllers optimized for waiting and action cost."""
import re, json, core, gen, slugs, strat
from common_strategy import describe

HELP = r"(?:, )?(?:_l_a_c_v_\d+|_is_infty_cost_Pre):[01]"


def make(rng, k):
    sp = gen.rand_spec(rng, max_total=4 if k % 2 else 3)
    waits = k % 3 == 0
    if waits:
        for _ in range(200):
            sp = gen.rand_spec(rng, max_total=4)
            if sp["secs"]["ENV_LIVENESS"] and sp["ins"]:
                break
    elif k % 4 < 2:
        sp["secs"]["ENV_LIVENESS"] = sp["secs"]["ENV_LIVENESS"][:rng.choice([0, 0, 1])]
    pre = sp["ins"] + sp["outs"]
    allv = pre + [v + "'" for v in pre]
    costs, used = [], ["0"]
    style = rng.random()
    if allv:
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            base = gen.rand_clause(rng, allv, 1, 2) if rng.random() < .3 else gen.conj([gen.lit(v, rng.random() < .5) for v in rng.sample(allv, min(len(allv), rng.randint(1, 3)))])
            if waits and sp["outs"] and rng.random() < .5:  # standing still costs
                base = gen.conj([gen.iff([v], [v + "'"]) for v in rng.sample(sp["outs"], rng.randint(1, len(sp["outs"])))] + ([gen.lit(rng.choice(pre), rng.random() < .5)] if rng.random() < .5 else []))
            val = rng.choice([1, 1, 2, 3, 0])
            f = base if style < .1 else ["&", "!"] + used + base
            used = ["|"] + used + base
            costs.append([val, f])
            if rng.random() < .1 and style >= .1:
                costs.append([val, f])
    waitfirst = rng.random() < .75
    first = rng.choice(["1 0 <", "1000 1 <", "1 0 <"]) if waitfirst else rng.choice(["1 1 <", "1 1 >", "0 1 >", "1 0 >", "2 1 >", "1 2 <", "0.5 0.25 >"])
    cl = [first]
    for v, f in costs:
        if rng.random() < .2:
            cl.append(rng.choice(["# 1 nonsense", "", "#"]))
        cl.append(rng.choice(["%d", "%d.0"]) % v + " " + " ".join(f))
    text = gen.render(sp, rng)
    fmt = rng.choice(["text", "text", "text", "json", "plain", "permissive"])
    return {"text": text, "lines": gen.lines_of(text), "costfile": "\n".join(cl) + "\n", "costs": [{"cost": v, "tok": f} for v, f in costs], "waitfirst": waitfirst,
            "robotics": rng.random() < .3, "recovery": rng.random() < .25, "plain": fmt == "plain", "fmt": fmt, "ranks": False, "coop": False}


def observe(ctx, c):
    f, g = ctx.write(c["text"]), ctx.write(c["costfile"], ".cost")
    a = ["--twoDimensionalCost"] + (["--sysInitRoboticsSemantics"] if c["robotics"] else [])
    if c["fmt"] == "permissive":
        a += ["--extractExplicitPermissiveStrategy"]
    elif not c["plain"]:
        a += ["--explicitStrategy"] + (["--jsonOutput"] if c["fmt"] == "json" else []) + (["--simpleRecovery"] if c["recovery"] else [])
    r = slugs.run(ctx.exe, a + [f, g])
    v = slugs.verdict(r)
    nodes, out = [], r["out"]
    if v == "realizable" and not c["plain"]:
        try:
            if c["fmt"] == "json":
                d = json.loads(out)
                n = len(strat.decl(c["text"])[2])
                if any(not re.fullmatch(r"_l_a_c_v_\d+|_is_infty_cost_Pre", x) for x in d["variables"][n:]):
                    raise strat.Malformed("variables")
                for s in d["nodes"].values():
                    if len(s["state"]) != len(d["variables"]):
                        raise strat.Malformed("state")
                    s["state"] = s["state"][:n]
                d["variables"] = d["variables"][:n]
                nodes = strat.parse_json(json.dumps(d), c["text"])
            elif c["fmt"] == "permissive":
                nodes = strat.parse_permissive(re.sub(HELP, "", out), c["text"])
            else:
                nodes = strat.parse_text("\n".join(re.sub(HELP, "", l) if l.startswith("State") else l for l in out.split("\n")), c["text"])
        except (strat.Malformed, ValueError, KeyError) as e:
            v = "malformed output: %s" % e
    return {"observed": v, "nodes": nodes, "args": a, "rawout": c["costfile"] + out[:2500] + r["err"][-300:]}


def check(ctx):
    ctx.rule = "random specifications with random transition costs, weights and preferences; non-trivial = realizable with a controller of at least 2 nodes and some costs"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(900, 9000))]
    core.run_cases(ctx, "TwoDimCost", cases, observe, describe=describe)
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        if len(c["nodes"]) >= 2 and c["costs"]:
            ctx.distinct.add(c["text"] + c["costfile"])
            ctx.sample({"spec": c["text"], "args": c["args"], "costs": c["costfile"], "strategy": c["rawout"]})
