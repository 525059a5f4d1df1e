import core, gen, slugs, strat
from c15 import fam_assume

SOME = "The specification stays realizable when the values of the following output signals have to be set before reading the input:"
NONE = "The specification becomes unrealizable when some output variable has to be set before the inputs are present."


def lex(out):
    ls = out.split("\n")
    if ls.pop() != "":
        raise strat.Malformed("end")
    if ls == ["Starting point is an unrealizable specification --> no analysis to be performed."]:
        return "unrealizable", []
    if ls[:2] != ["Starting point is a realizable specification.", ""]:
        raise strat.Malformed("head %r" % ls[:2])
    if ls[2:] == [NONE]:
        return "analyzed", []
    if ls[2] != SOME or len(ls) < 4 or any(not l.startswith("- ") for l in ls[3:]):
        raise strat.Malformed("list %r" % ls[2:])
    return "analyzed", [l[2:] for l in ls[3:]]


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--analyzeInterleaving", f])
    res = {"rawout": r["out"] + r["err"][-300:], "list": []}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res["observed"], res["list"] = lex(r["out"])
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def fam_react(rng):
    """outputs that may or may not have to look at the new input"""
    nI, nO = rng.choice([(1, 1), (1, 2), (1, 3), (2, 2), (2, 1)])
    sp = gen.new_spec(*gen.rand_names(rng, nI, nO))
    for o in sp["outs"]:
        r = rng.random()
        i = rng.choice(sp["ins"])
        if r < .3:
            sp["secs"]["SYS_TRANS"].append(gen.iff([o + "'"], [i + "'"]))
        elif r < .5:
            sp["secs"]["SYS_TRANS"].append(gen.iff([o + "'"], [i]))
        elif r < .7:
            o2 = rng.choice(sp["outs"])
            sp["secs"]["SYS_TRANS"].append(["|", "^", o + "'", i + "'"] + [o2 + rng.choice(["", "'"])])
        elif r < .85:
            sp["secs"]["SYS_LIVENESS"].append(["^", o + rng.choice(["", "'"]), i + "'"])
    for s, k in (("ENV_TRANS", 2), ("SYS_TRANS", 1), ("ENV_LIVENESS", 2), ("SYS_LIVENESS", 2), ("SYS_INIT", 1)):
        for _ in range(rng.randint(0, k)):
            sp["secs"][s].append(gen.rand_clause(rng, gen.allowed_names(sp, s), 1, 3))
    return sp


def check(ctx):
    ctx.rule = "random specifications of all families and reactive ones; non-trivial = realizable, with a list that is neither empty nor complete"
    cases = []
    for k in range(ctx.scale(1200, 12000)):
        r = k % 3
        sp = fam_assume(ctx.rng) if r == 0 else fam_react(ctx.rng) if r == 1 else gen.rand_spec(ctx.rng, max_total=4)
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text), "nO": len(sp["outs"])})
    core.run_cases(ctx, "Interleaving", cases, observe,
                   describe=lambda c: "slugs --analyzeInterleaving on\n%s\nsaid %s\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        if c["observed"] == "analyzed":
            ctx.count("early_%d_of_%d" % (len(c["list"]), c["nO"]))
            if 0 < len(c["list"]) < c["nO"]:
                ctx.distinct.add(c["text"])
                ctx.sample({"spec": c["text"], "report": c["rawout"]})
