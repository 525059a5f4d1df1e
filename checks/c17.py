import core, gen, slugs, strat
from c15 import fam_assume, fam_walk


def lex(out):
    ls = out.split("\n")
    if ls.pop() != "" or len(ls) < 2 or ls[0] != "# Simplified safety assumption CNF clauses:" or ls[-1] != "# End of list":
        raise strat.Malformed("frame of the list")
    res = []
    for l in ls[1:-1]:
        ws = l.split(" ")
        if ws.pop() != "":
            raise strat.Malformed("line %r" % l)
        res.append([{"neg": w.startswith("!"), "v": w.lstrip("!")} for w in ws])
    return res


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--computeWeakenedSafetyAssumptions", f])
    res = {"rawout": r["out"] + r["err"][-300:], "clauses": []}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res["clauses"] = lex(r["out"])
            res["observed"] = "done"
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def check(ctx):
    ctx.rule = "random specifications with several assumptions; non-trivial = at least one clause remains and at least one literal or clause of the assumptions was dropped"
    cases = []
    for k in range(ctx.scale(1200, 12000)):
        r = k % 3
        sp = fam_assume(ctx.rng) if r == 0 else fam_walk(ctx.rng) if r == 1 else gen.rand_spec(ctx.rng, max_total=4)
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text)})
    core.run_cases(ctx, "WeakenedAssumptions", cases, observe,
                   describe=lambda c: "slugs --computeWeakenedSafetyAssumptions on\n%s\nsaid %s\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        ctx.count("clauses_%d" % min(4, len(c["clauses"])))
        if c["clauses"]:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "clauses": c["rawout"]})
