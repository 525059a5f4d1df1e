"""What formulas mean: each formula is probed on the real tool, one transition
at a time, by games in which that transition is forced."""
import core, gen, slugs
from gen import lit, conj, cube


def formula(rng, names):
    r = rng.random()
    if r < .06:
        return gen.long_buffer(rng, names)
    if r < .25:
        return nest(rng, names, rng.randint(1, 3))
    return gen.rand_formula(rng, names, rng.randint(2, 7))


def nest(rng, names, d):
    """memory buffers inside memory buffers, recalls in all places"""
    def go(d, mem):
        r = rng.random()
        if d == 0 or r < .2:
            if mem and rng.random() < .75:
                return ["?", str(rng.randrange(mem))]
            return gen.lit(rng.choice(names), rng.random() < .5) if names else ["1"]
        if r < .6:
            n = rng.randint(1, 5)
            out = ["$", str(n)]
            for i in range(n):
                out += go(d - 1, i)
            return out
        if r < .75:
            return ["!"] + go(d - 1, mem)
        return [rng.choice(["&", "|", "^"])] + go(d - 1, mem) + go(d - 1, mem)
    return go(d + 1, 0)


def make_case(rng):
    nI, nO = gen.shape(rng, 2, 2, 3, 1)
    ins, outs = gen.rand_names(rng, nI, nO)
    sp = gen.new_spec(ins, outs)
    sec = rng.choice(gen.SECS)
    f = formula(rng, gen.allowed_names(sp, sec))
    sp["secs"][sec].append(f)
    text = gen.render(sp)
    n = nI + nO
    pts = []
    for _ in range(10):
        pts.append((rng.randrange(1 << n), rng.randrange(1 << n)))
    return {"text": text, "lines": gen.lines_of(text), "section": sec, "sp": sp, "formula": f, "layout": rng.random(),
            "pts": sorted(set(pts)), "seed": rng.randrange(1 << 30)}


def probe_spec(c, p, q):
    """A game that is decided by the formula's value at (p,q)."""
    sp, sec, f = c["sp"], c["section"], c["formula"]
    ins, outs = sp["ins"], sp["outs"]
    nI = len(ins)
    z = "zflag"
    while z in ins + outs:
        z += "_"
    pr = gen.new_spec(ins, outs + [z])
    S = pr["secs"]
    pin, pout = p & ((1 << nI) - 1), p >> nI
    qin, qout = q & ((1 << nI) - 1), q >> nI
    I2 = [v + "'" for v in ins]
    O2 = [v + "'" for v in outs]
    first = conj([["!", z]])
    if sec in ("ENV_INIT", "SYS_INIT"):
        S[sec].append(f)
        S["ENV_INIT"].append(cube(ins, pin))
        S["SYS_INIT"].append(conj([["!", z], cube(outs, pout)]))
        if sec == "ENV_INIT":      # true: the system loses; false: no initial input is allowed
            S["SYS_LIVENESS"].append(["0"])
        return pr
    # z alternates, the play is p q p q ...
    S["ENV_INIT"].append(cube(ins, pin))
    S["SYS_INIT"].append(conj([["!", z], cube(outs, pout)]))
    envmove = gen.conj([gen.imp(["!", z], cube(I2, qin)), gen.imp([z], cube(I2, pin))])
    sysmove = gen.conj([["^", z, z + "'"], gen.imp(["!", z], cube(O2, qout)), gen.imp([z], cube(O2, pout))])
    S["ENV_TRANS"].append(envmove)
    S["SYS_TRANS"].append(sysmove)
    if sec == "SYS_LIVENESS":
        S[sec].append(["&", "!", z] + f)
    elif sec == "ENV_LIVENESS":
        S[sec].append(["&", "!", z] + f)
        S["SYS_LIVENESS"].append(["0"])
    elif sec == "SYS_TRANS":
        # only the first step counts: afterwards z stays 1 and everything goes
        S[sec][:] = [["|", z] + ["&"] + [z + "'"] + cube(O2, qout)] if False else [gen.imp(["!", z], conj([[z + "'"], cube(O2, qout)])), gen.imp([z], [z + "'"])]
        S["ENV_TRANS"][:] = [gen.imp(["!", z], cube(I2, qin))]
        S[sec].append(["|", z] + f)
    else:
        S["SYS_TRANS"][:] = [gen.imp(["!", z], conj([[z + "'"], cube(O2, qout)])), gen.imp([z], [z + "'"])]
        S["ENV_TRANS"][:] = [gen.imp(["!", z], cube(I2, qin)), ["|", z] + f]
        S["SYS_LIVENESS"].append(["0"])
    return pr


# does "realizable" mean that the formula holds at the probe?
POSITIVE = {"SYS_INIT": True, "SYS_TRANS": True, "SYS_LIVENESS": True, "ENV_INIT": False, "ENV_TRANS": False, "ENV_LIVENESS": False}


def observe(ctx, c):
    import random
    rng = random.Random(c["seed"])
    probes, files = [], []
    for p, q in c["pts"]:
        pr = probe_spec(c, p, q)
        f = ctx.write(gen.render(pr, rng))
        v = slugs.verdict(slugs.run(ctx.exe, [f]))
        pos = POSITIVE[c["section"]]
        holds = {"realizable": "yes" if pos else "no", "unrealizable": "no" if pos else "yes"}.get(v, v)
        probes.append({"p": p, "q": q, "holds": holds})
    return {"probes": probes}


def check(ctx):
    ctx.rule = "random prefix formulas (operators, constants, nested memory buffers) in each of the six sections, 12 transitions probed each; distinct by formula text and section"
    ctx.exe
    cases = [make_case(ctx.rng) for _ in range(ctx.scale(750, 9000))]
    core.run_cases(ctx, "FormulaMeaning", cases, observe,
                   describe=lambda c: "formula '%s' in [%s] over inputs %s outputs %s; observed %s" % (" ".join(c["formula"]), c["section"], c["sp"]["ins"], c["sp"]["outs"], c["probes"]))
    for c in cases:
        ctx.distinct.add(c["section"] + " ".join(c["formula"]))
        ctx.count("probes", len(c["probes"]))
    for c in cases[:3]:
        ctx.sample({"formula": " ".join(c["formula"]), "section": c["section"], "probes": c["probes"]})
