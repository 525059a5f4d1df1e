import re, core, gen, slugs, strat
from c15 import fam_assume, fam_walk

SEP = "+--------+----------+--------+----------++---------------------+--------------------+"
HEAD = ["Realizability matrix when activating/deactivating some specification parts:", "",
        "+-------------------+-------------------++------------------------------------------+",
        "| Assumptions       | Guarantees        || Results                                  |", SEP,
        "| Safety | Liveness | Safety | Liveness || Classical semantics | Robotics semantics |", SEP]
NOTE = "Note that with only the safety assumptions and guarantees, "


def lex(out):
    ls = out.split("\n")
    if ls.pop() != "" or ls[:7] != HEAD or len(ls) < 25 or ls[23:25] != [SEP, ""]:
        raise strat.Malformed("frame of the table")
    rows = []
    for l in ls[7:23]:
        m = re.fullmatch(r"\|\s+([+-])\s+\|\s+([+-])\s+\|\s+([+-])\s+\|\s+([+-])\s+\|\|\s+(yes|no)\s+\|\s+(yes|no)\s+\|", l)
        if not m:
            raise strat.Malformed("row %r" % l)
        t = [x in ("+", "yes") for x in m.groups()]
        rows.append(dict(zip(["sa", "la", "sg", "lg", "std", "rob"], t)))
    ls = ls[25:]
    ns = {"said": False, "std": False, "rob": False}
    if ls and ls[0] == "With a non-strict implication,":
        a = {"- the specification becomes realizable in the non-robotics semantics,": True, "- nothing changes in the non-robotics semantics,": False}
        b = {"- and the specification becomes realizable in the robotics semantics.": True, "- and nothing changes in the robotics semantics, either.": False}
        if ls[1] not in a or ls[2] not in b or ls[3] != "":
            raise strat.Malformed("non-strict part")
        ns = {"said": True, "std": a[ls[1]], "rob": b[ls[2]]}
        ls = ls[4:]
    m = re.fullmatch(re.escape(NOTE) + r"the (environment|system) can falsify the (?:system|environment)'s specification within (\d+) steps\.", ls[0])
    m2 = re.fullmatch(re.escape(NOTE) + r"the (environment|system) can't falsify the (?:system|environment)'s specification\.", ls[0])
    if not m and not m2:
        raise strat.Malformed("line %r" % ls[0])
    fal = {"who": (m or m2).group(1), "steps": int(m.group(2)) if m else 0, "noinit": False}
    if ls[1:] == ["However, there is no corresponding strategy that starts from a position that satisfies all initialization constraints"]:
        fal["noinit"] = True
    elif ls[1:]:
        raise strat.Malformed("extra lines %r" % ls[1:])
    return {"rows": rows, "nonstrict": ns, "falsify": fal}


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--analyzeSafetyLivenessInteraction", f])
    res = {"rawout": r["out"] + r["err"][-300:], "report": {}}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res["report"] = lex(r["out"])
            res["observed"] = "done"
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def fam_clock(rng):
    """a counter driven by one side, with its safety part giving way at the end: long forced falsifications"""
    n = rng.choice([2, 3])
    who = rng.random() < .5
    cnt = ["k%d" % i for i in range(n)]
    other = ["z"]
    sp = gen.new_spec(other if who else cnt, cnt if who else other) if rng.random() < .8 else gen.new_spec(cnt, other)
    mine = sp["outs"] if cnt[0] in sp["outs"] else sp["ins"]
    sec = "SYS_TRANS" if mine is sp["outs"] else "ENV_TRANS"
    N = 1 << n
    end = rng.randrange(1, N)
    succ = []
    for a in range(N):
        t = {(a + 1) % N} | ({a} if rng.random() < .3 else set())
        if a == end:
            t = set() if rng.random() < .7 else {a}
        g = gen.disj([gen.cube([v + "'" for v in mine], b) for b in sorted(t)])
        if rng.random() < .3:
            g = gen.disj([g, ["z"]])
        succ.append(["&"] + gen.cube(mine, a) + g)
    sp["secs"][sec].append(gen.disj(succ))
    oth = "ENV_TRANS" if sec == "SYS_TRANS" else "SYS_TRANS"
    if rng.random() < .5:
        sp["secs"][oth].append(gen.rand_clause(rng, gen.allowed_names(sp, oth), 2, 3))
    for s in ("ENV_INIT", "SYS_INIT"):
        if rng.random() < .7:
            vs = [v for v in gen.allowed_names(sp, s) if v in (sp["ins"] if s == "ENV_INIT" else sp["outs"])]
            if vs:
                sp["secs"][s].append(gen.cube(vs, rng.randrange(1 << len(vs))) if rng.random() < .6 else gen.rand_clause(rng, gen.allowed_names(sp, s)))
    if rng.random() < .4:  # inputs that the environment may not start with leave the system no start
        l = gen.lit(rng.choice(sp["ins"]), rng.random() < .5)
        sp["secs"]["ENV_INIT"].append(l)
        sp["secs"]["SYS_INIT"].append(l)
    for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
        if rng.random() < .4:
            sp["secs"][s].append(gen.rand_clause(rng, gen.allowed_names(sp, s), 1, 2))
    return sp


def check(ctx):
    ctx.rule = "random specifications of all families and counters that run into a deadlock; non-trivial = falsification takes at least two steps or the non-strict implication changes the result"
    cases = []
    for k in range(ctx.scale(700, 8000)):
        r = k % 4
        sp = fam_assume(ctx.rng) if r == 0 else fam_walk(ctx.rng) if k % 8 == 1 else fam_clock(ctx.rng) if r == 2 else gen.rand_spec(ctx.rng, max_total=4)
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text)})
    core.run_cases(ctx, "SafetyLiveness", cases, observe,
                   describe=lambda c: "slugs --analyzeSafetyLivenessInteraction on\n%s\nsaid %s\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        if c["observed"] != "done":
            ctx.count(c["observed"].split(" ")[0])
            continue
        r = c["report"]
        ctx.count("falsify_%s_%s" % (r["falsify"]["who"], min(r["falsify"]["steps"], 4)))
        if r["falsify"]["noinit"]:
            ctx.count("noinit")
        if r["nonstrict"]["std"]:
            ctx.count("nonstrict_std")
        if r["nonstrict"]["rob"]:
            ctx.count("nonstrict_rob")
        if r["falsify"]["steps"] > 1 or r["nonstrict"]["std"] or r["nonstrict"]["rob"]:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "report": c["rawout"][-800:]})
