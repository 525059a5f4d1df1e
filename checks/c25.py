"""Belief space abstraction for synthesis under incomplete information."""
import re
import core, gen, slugs


def make(rng, k):
    while True:
        nO, nU, nC, nE = rng.choice([(1, 1, 0, 1), (1, 1, 1, 1), (1, 1, 0, 2), (0, 1, 1, 1), (1, 2, 0, 1), (2, 1, 0, 1), (0, 2, 0, 2), (1, 0, 0, 1), (0, 1, 0, 2), (1, 1, 0, 2), (0, 1, 1, 2)])
        break
    used = set()
    mk = lambda n, pre: ["%s%d" % (rng.choice(pre), i) for i in range(n)]
    O, C = mk(nO, ["o", "obs."]), mk(nC, ["c"])
    ints = []

    def integer(prefix, nb, est):
        lo = rng.choice([0, 0, 1, 2])
        hi = lo + (1 if nb == 1 else rng.choice([2, 3]))
        bits = ["%s@0.%d.%d" % (prefix, lo, hi)] + ["%s@%d" % (prefix, i) for i in range(1, nb)]
        for post in (False, True):
            ints.append({"name": prefix, "post": post, "est": est, "lo": lo, "hi": hi, "bits": [b + ("'" if post else "") for b in bits]})
        return bits
    withint = rng.random() < .5
    U = integer("u", nU, False) if nU and withint and rng.random() < .8 else mk(nU, ["u"])
    pref = rng.choice(["min_e", "max_e", "e", "min_", "m"])
    E = integer(pref, nE, True) if withint else (mk(nE, ["min_e", "max_e", "e"]))
    if not withint and nE == 2 and E[0] == E[1]:
        E[1] += "x"
    groups = [("[OBSERVABLE_INPUT]", O), ("[UNOBSERVABLE_INPUT]", U), ("[CONTROLLABLE_INPUT]", C), ("[OUTPUT]", E)]
    # (integer variables in order of declaration)
    order = groups[:]
    rng.shuffle(order)
    key = {n: i for i, (n, _) in enumerate(order)}
    ints.sort(key=lambda d: (key["[OUTPUT]" if d["est"] else "[UNOBSERVABLE_INPUT]"], d["post"]))
    p = lambda vs: [v + "'" for v in vs]
    allowed = {"ENV_INIT": O + C + U, "SYS_INIT": O + C + U + E, "ENV_TRANS": O + C + U + E + p(O + C + U), "SYS_TRANS": O + C + U + E + p(O + C + U + E)}
    form = {}
    for s, (a, b) in {"ENV_INIT": (0, 2), "SYS_INIT": (0, 2), "ENV_TRANS": (0, 3), "SYS_TRANS": (1, 3)}.items():
        form[s] = []
        vs = allowed[s]
        if not vs:
            continue
        for _ in range(rng.randint(a, b)):
            r = rng.random()
            if s == "SYS_TRANS" and r < .45 and U:  # the estimate over-approximates something
                e, u = rng.choice(p(E)), rng.choice(p(U))
                f = rng.choice([gen.imp, gen.imp, gen.iff])(gen.lit(u, rng.random() < .7), gen.lit(e, rng.random() < .7))
            elif s == "ENV_TRANS" and r < .5 and O + U:
                v = rng.choice(O + U)
                f = rng.choice([gen.iff, gen.imp])([v + "'"], rng.choice([[rng.choice(vs)], gen.rand_clause(rng, vs, 1, 2)]))
            elif s.endswith("INIT") and r < .5:
                v = rng.choice(vs)
                f = gen.lit(v, rng.random() < .5)
            elif r < .8:
                f = gen.rand_clause(rng, vs, 1, 3)
            else:
                f = gen.rand_formula(rng, vs, 3)
            form[s].append(f)
    if rng.random() < .04:
        s = rng.choice(list(form))
        form[s].append([rng.choice(sum(([v, v + "'"] for v in O + U + C + E), []))])
    ls = []
    for h, vs in order:
        if vs or rng.random() < .3:
            ls += [h] + vs + rng.choice([[], [""], ["# comment"]])
    ss = list(form)
    rng.shuffle(ss)
    for s in ss:
        if form[s] or rng.random() < .3:
            ls += ["[%s]" % s] + [rng.choice(["", " "]) + " ".join(f) for f in form[s]]
    if rng.random() < .02:
        ls.insert(rng.randrange(len(ls)), rng.choice(["[SYS_LIVENESS]", "[INPUT]", "junk!"]))
    if rng.random() < .02:
        ls.insert(rng.randrange(len(ls)), "& 1")
    text = "\n".join(ls) + "\n"
    return {"text": text, "lines": gen.lines_of(text), "ints": ints}


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--computeIncompleteInformationEstimator", f])
    out, err = r["out"], r["err"]
    m = re.search(r"\[SYS_TRANS\]\n(.*)\n\[ENV_TRANS\]\n(.*)\n", out)
    diffs = []
    acc = bool(m) and r["rc"] == 0
    if acc:
        for l in err.split("\n"):
            d = re.fullmatch(r"(.*')= (.*) \+ \[(-?\d+),(-?\d+)\]", l)
            if d:
                lo, hi = d.group(3), d.group(4)
                if lo == "2147483647" and hi == "-2147483648":
                    lo = hi = "none"
                diffs.append({"sim": d.group(1), "ref": d.group(2), "lo": lo, "hi": hi})
    return {"accepted": acc, "observed": "accepted" if acc else "rejected" if r["rc"] != 0 else "nothing printed",
            "sys": m.group(1).split() if acc else [], "env": m.group(2).split() if acc else [],
            "envDead": "environment dead-ends" in err, "sysDead": "system dead-ends" in err, "noInit": "no initial state" in err,
            "diffs": diffs, "rawout": out[:2500] + err[-1200:]}


def check(ctx):
    ctx.rule = "random domains with observable, unobservable and controllable inputs and (integer) estimates; non-trivial = something is unobservable and both printed constraints are non-constant"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(700, 9000))]
    core.run_cases(ctx, "Estimator", cases, observe,
                   describe=lambda c: "slugs --computeIncompleteInformationEstimator on\n%s\nsaid\n%s" % (c["text"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"])
        for w in ("envDead", "sysDead", "noInit"):
            ctx.count(w, int(c[w]))
        if len(c["sys"]) > 3 and len(c["env"]) > 3:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "output": c["rawout"]})
