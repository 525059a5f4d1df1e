"""Every accepted combination of options, in any order, means what its options mean."""
import os, itertools
import core, gen, slugs, strat, tlc, c22

BASES = [[], ["--IROSfastslow"], ["--biasForAction"], ["--fixedPointRecycling"], ["--cooperativeGR1Strategy"]]
R, S, J = "--sysInitRoboticsSemantics", "--simpleRecovery", "--jsonOutput"
EX, SY, SS, PE = "--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--extractExplicitPermissiveStrategy"


def subsets(l):
    return [list(s) for k in range(len(l) + 1) for s in itertools.combinations(l, k)]


def combos():
    res = []
    for b in BASES:
        outs = [s for s in subsets([R])] + [[EX] + s for s in subsets([R, S, J])] + [[o] + s for o in (SY, SS) for s in subsets([R, S])]
        if b != ["--cooperativeGR1Strategy"]:
            outs += [[PE] + s for s in subsets([R])]
        res += [b + o for o in outs]
    return res


ALL = combos()


def arrange(rng, opts, files):
    """the options in any order, some twice, the files anywhere in between (their order matters)"""
    o = opts + [x for x in opts if rng.random() < .1]
    rng.shuffle(o)
    pos = sorted(rng.randint(0, len(o)) for _ in files)
    for k, p in reversed(list(enumerate(pos))):
        o.insert(p, files[k])
    return o


def pool(ctx, n):
    """specifications with the verdicts of the games that the options stand for"""
    rng, P = ctx.rng, []
    for k in range(n):
        fs = k % 3 == 0
        small = k % 3 == 1
        sp = c22.motion(rng) if fs and rng.random() < .6 else gen.rand_spec(rng, max_total=3 if small or rng.random() < .3 else 4)
        text = gen.render(sp, rng)
        if fs:
            text = c22.split(sp, rng, text)
        P.append({"text": text, "lines": gen.lines_of(text), "fs": fs, "small": len(sp["ins"] + sp["outs"]) <= 3})
    for p, cl in zip(P, tlc.classify("SpecClasses", P, ctx.scratch)):
        p["cl"] = cl
    return P


def telling(opts, cl):
    """would it show if one of these options had no effect?"""
    fs, co = "--IROSfastslow" in opts, "--cooperativeGR1Strategy" in opts
    s, r = ("S", "R") if fs or co else ("s", "r")
    mine = r if R in opts else s
    res = [mine in cl]
    if R in opts:
        res += [(s in cl) != (r in cl)] * 2
    if fs or co:
        res += [(mine in cl) != (mine.lower() in cl)] * 2
    if S in opts:
        res += [mine in cl and "e" in cl] * 2
    return res


def make(rng, k, P):
    opts = list(ALL[k % len(ALL)])
    fs = "--IROSfastslow" in opts
    small = SY in opts or SS in opts
    Q = [p for p in P if p["fs"] == fs and (p["small"] or not small)]
    w = rng.random()
    if w < .85:
        want = rng.randrange(len(telling(opts, "")))
        Q = [p for p in Q if telling(opts, p["cl"])[want]] or Q
    p = rng.choice(Q)
    text = p["text"]
    rng.shuffle(opts)
    tofile = small or (EX in opts or PE in opts) and rng.random() < .3
    return {"text": text, "lines": p["lines"], "opts": opts, "order": arrange(rng, opts, ["@IN"] + (["@OUT"] if tofile else [])), "tofile": tofile,
            "robotics": False, "recovery": False, "coop": False, "simple": False, "ranks": False}


def observe(ctx, c):
    f = ctx.write(c["text"])
    of = f + ".out"
    a = [f if x == "@IN" else of if x == "@OUT" else x for x in c["order"]]
    r = slugs.run(ctx.exe, a)
    v = slugs.verdict(r)
    out, opts = r["out"], c["opts"]
    res = {"args": a, "nodes": [], "det": [], "written": os.path.exists(of), "names": [], "goals": 0, "bdd": [], "root": 1, "codes": 1}
    text = "\n".join("[OUTPUT]" if l.strip(gen.WS) in ("[OUTPUT_F]", "[OUTPUT_S]") else l for l in c["text"].split("\n")) if "--IROSfastslow" in opts else c["text"]
    if c["tofile"] and v == "realizable":
        if out != "":
            v = "anomalous: output although a file was named"
        if not res["written"]:
            v = "anomalous: no file"
        else:
            out = open(of, errors="replace").read()
    elif res["written"]:
        v = "anomalous: file written"
    try:
        if v == "realizable" or v == "unrealizable" and out:
            if EX in opts:
                res["nodes"] = strat.parse_json(out, text) if J in opts else strat.parse_text(out, text)
            elif PE in opts:
                res["nodes"] = strat.parse_permissive(out, text)
                r2 = slugs.run(ctx.exe, [EX] + [o for o in opts if o != PE] + [f])
                res["det"] = strat.parse_text(r2["out"], text)
            elif SY in opts or SS in opts:
                res["names"], res["goals"], res["bdd"], res["root"] = strat.parse_dddmp(out)
                res["codes"] = 1 << sum(1 for n in res["names"] if n.startswith("_jx_b") and not n.endswith("'"))
            elif out != "":
                v = "anomalous: output without being asked"
    except strat.Malformed as e:
        v = "malformed output: %s" % e
    res.update(observed=v, rawout=out[:2500] + r["err"][-300:])
    return res


def describe(c):
    return "slugs %s on\n%s\nsaid %s\n%s" % (" ".join(c["order"]), c["text"], c["observed"], c.get("rawout", ""))


def check(ctx):
    ctx.rule = "all %d accepted combinations of the synthesis variants and output formats, in random order on random specifications; non-trivial = realizable" % len(ALL)
    P = pool(ctx, ctx.scale(1200, 6000))
    cases = [make(ctx.rng, k, P) for k in range(ctx.scale(1600, 16000))]
    core.run_cases(ctx, "OptionMatrix", cases, observe, describe=describe)
    for c in cases:
        ctx.count(c["observed"])
        if c["observed"] == "realizable":
            ctx.distinct.add(" ".join(sorted(c["opts"])) + c["text"])
            ctx.sample({"args": c["order"], "spec": c["text"], "output": c["rawout"][:800]})
    ctx.notes["combinations with a realizable case"] = len({" ".join(sorted(c["opts"])) for c in cases if c["observed"] == "realizable"})
    ctx.notes["combinations"] = len(ALL)
