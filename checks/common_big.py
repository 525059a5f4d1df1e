"""Large specifications, judged through certificates (spec/BigStrategy.tla)."""
import core, gen, slugs, strat, big

LIMIT = 500  # states of a certificate that TLC is asked to judge


def big_case(rng, text=None, robotics=False, extra=()):
    sp = None
    if text is None:
        sp = big.rand_big(rng)
        text = gen.render(sp, rng)
    return {"text": text, "lines": gen.lines_of(text), "robotics": robotics, "extra": list(extra)}


def unpack(nodes, text):
    ins, outs, _ = strat.decl(text)
    n = len(ins) + len(outs)
    for d in nodes:
        d["val"] = [bool((d["pos"] >> k) & 1) for k in range(n)]
        del d["pos"]
    return nodes


def observe_big(ctx, c):
    f = ctx.write(c["text"])
    rob = ["--sysInitRoboticsSemantics"] if c["robotics"] else []
    a = ["--explicitStrategy"] + c["extra"] + rob
    r = slugs.run(ctx.exe, a + [f])
    r2 = slugs.run(ctx.exe, ["--counterStrategy"] + rob + [f])
    r3 = slugs.run(ctx.exe, c["extra"] + rob + [f])
    v, v2 = slugs.verdict(r), slugs.verdict(r2)
    plain = slugs.verdict(r3) if not r3["out"] else "anomalous stdout"
    nodes = []
    try:
        if v == "realizable":
            nodes = strat.parse_text(r["out"], c["text"])
        elif v2 == "unrealizable":
            nodes = strat.parse_counter(r2["out"], c["text"])
        if v == "unrealizable" and r["out"] or v2 == "realizable" and r2["out"]:
            v = "anomalous stdout"
    except strat.Malformed as e:
        v = "malformed output: %s" % e
    if plain != v:
        v = "verdict %s, but %s when no controller is asked for" % (v, plain)
    return {"observed": v, "counter": v2, "nodes": unpack(nodes, c["text"]), "args": a, "rawout": (r["out"] + r2["out"])[:2000]}


def describe_big(c):
    return "slugs %s and --counterStrategy on\n%s\nsaid %s / %s\n%s" % (" ".join(c["args"]), c["text"], c["observed"], c["counter"], c["rawout"])


def run_big(ctx, n, options=((),), examples=False, limit=LIMIT, robotics=None):
    cases = []
    if examples:
        for name, text in big.examples():
            for rob in (False, True) if robotics is None else (robotics,):
                cases.append(big_case(ctx.rng, text, rob))
    for k in range(n):
        sp = big.rand_big(ctx.rng)
        rob = (ctx.rng.random() < .3 if robotics is None else robotics) and len(sp["ins"]) + len(sp["outs"]) <= 9
        cases.append(big_case(ctx.rng, gen.render(sp, ctx.rng), rob, options[k % len(options)]))
    for c, o in zip(cases, slugs.pmap(lambda c: observe_big(ctx, c), cases)):
        c.update(o)
    small = [c for c in cases if len(c["nodes"]) <= limit]
    ctx.count("big_certificates_skipped", len(cases) - len(small))
    ctx.count("big_certificates", len(small))
    ctx.count("big_states", sum(len(c["nodes"]) for c in small))
    core.run_cases(ctx, "BigStrategy", small, observe_big_keep, describe=describe_big)
    for c in small:
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
    return small


def observe_big_keep(ctx, c):
    """observation is repeated only when a rejected case is confirmed"""
    if c.get("_judged"):
        return observe_big(ctx, c)
    return {"_judged": True}
