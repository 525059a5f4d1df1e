"""Synthesis over a non-deterministic motion abstraction given as a BDD file."""
import core, gen, slugs


def dddmp(nvars, true_set):
    """BDD over file variables 0..nvars-1 (bit k of a member = variable k)"""
    nodes, memo = [], {}
    true_set = frozenset(true_set)

    def mk(k, S):
        # S: set of values of the remaining variables (k..), as ints shifted by k
        if not S:
            return -1
        if len(S) == 1 << (nvars - k):
            return 1
        if (k, S) in memo:
            return memo[k, S]
        hi = mk(k + 1, frozenset(v >> 1 for v in S if v & 1))
        lo = mk(k + 1, frozenset(v >> 1 for v in S if not v & 1))
        if hi == lo:
            r = hi
        else:
            # the then-branch is never complemented
            neg = hi < 0
            a, b = (-hi, -lo) if neg else (hi, lo)
            key = (k, a, b)
            if key not in memo:
                nodes.append((k, a, b))
                memo[key] = len(nodes) + 1
            r = -memo[key] if neg else memo[key]
        memo[k, S] = r
        return r

    root = mk(0, true_set)
    supp = sorted({k for k, _, _ in nodes})
    h = [".ver DDDMP-2.0", ".mode A", ".varinfo 0", ".nnodes %d" % (len(nodes) + 1), ".nvars %d" % nvars, ".nsuppvars %d" % len(supp),
         ".ids " + " ".join(map(str, supp)), ".permids " + " ".join(map(str, supp)), ".nroots 1", ".rootids %d" % root, ".nodes", "1 T 1 0 0"]
    h += ["%d %d %d %d %d" % (i + 2, k, supp.index(k), a, b) for i, (k, a, b) in enumerate(nodes)]
    return "\n".join(h + [".end", ""])


def rev(v, n):
    return sum(((v >> k) & 1) << (n - 1 - k) for k in range(n))


def make(rng, k):
    while True:
        nI, nM, nC, nO = rng.choice([(0, 1, 1, 0), (1, 1, 1, 0), (0, 2, 1, 0), (1, 2, 1, 0), (1, 1, 1, 1), (0, 2, 2, 0), (0, 2, 1, 1), (1, 2, 0, 0), (0, 3, 1, 0), (1, 1, 2, 0), (0, 1, 1, 1), (1, 2, 1, 0)])
        nm = ["i", "j"][:nI], ["m0", "m1", "m2"][:nM], ["c0", "c1"][:nC], ["o0", "o1"][:nO]
        I, M, C, O = nm
        break
    dens = rng.choice([1, 2, 2, 3])
    robot = []
    for m in range(1 << nM):
        for c in range(1 << nC):
            if rng.random() < .15:
                continue
            line = rng.random() < .5
            for _ in range(rng.randint(1, dens)):
                n = (m + rng.choice([-1, 0, 1])) % (1 << nM) if line else rng.randrange(1 << nM)
                if [m, c, n] not in robot:
                    robot.append([m, c, n])
    regions = [["R%d" % r, sorted(rng.sample(range(1 << nM), rng.randint(1, 1 << nM)))] for r in range(rng.choice([0, 0, 1, 2]))]
    regs = [r[0] for r in regions]
    p = lambda vs: [v + "'" for v in vs]
    allowed = {"ENV_INIT": I, "SYS_INIT": I + M + O + regs, "ENV_TRANS": I + M + O + p(I) + regs, "ENV_LIVENESS": I + M + O + p(I) + regs,
               "SYS_TRANS": I + M + O + p(I + M + C + O) + regs + p(regs), "SYS_LIVENESS": I + M + O + p(I + M + C + O) + regs + p(regs)}
    cnt = {"ENV_INIT": (0, 1), "SYS_INIT": (0, 1), "ENV_TRANS": (0, 2), "SYS_TRANS": (0, 2), "ENV_LIVENESS": (0, 1), "SYS_LIVENESS": (1, 3)}
    form = {}
    for s, (a, b) in cnt.items():
        form[s] = []
        for _ in range(rng.randint(a, b)):
            vs = allowed[s]
            r = rng.random()
            if s == "SYS_LIVENESS" and r < .5:
                f = gen.cube(M, rng.randrange(1 << nM))
            elif r < .8 or s.endswith("INIT"):
                f = gen.rand_clause(rng, vs, 2 if s.endswith("TRANS") else 1, 3)
            else:
                f = gen.rand_formula(rng, vs, 3)
            form[s].append(f)
    heads = [("[INPUT]", I), ("[MOTION STATE OUTPUT]", M), ("[MOTION CONTROLLER OUTPUT]", C), ("[OTHER OUTPUT]", O)]
    rng.shuffle(heads)
    ls = []
    for h, vs in heads:
        if vs or rng.random() < .5:
            ls += [h] + vs + [""]
    body = []
    for s in gen.SECS:
        if form[s]:
            body += ["[%s]" % s] + [" ".join(f) for f in form[s]]
    # regions are abbreviations
    exp = {}
    for n, S in regions:
        exp[n] = " ".join(gen.disj([gen.cube(M, v) for v in S]))
        exp[n + "'"] = " ".join(gen.disj([gen.cube(p(M), v) for v in S]))
    plain = [l if l.startswith("[") else " ".join(exp.get(t, t) for t in l.split()) for l in body]
    return {"head": ls, "body": body, "regions": regions, "robot": robot, "nM": nM, "nC": nC, "robotics": k % 3 == 1,
            "lines": gen.lines_of("\n".join(ls + plain)), "text": "\n".join(ls + body)}


def observe(ctx, c):
    nM, nC = c["nM"], c["nC"]
    ls = list(c["head"])
    if c["regions"]:
        ls.append("[ABSTRACTION_REGION_BDDS]")
        for n, S in c["regions"]:
            # files list the bits starting from the variable declared last
            ls.append("%s %s" % (n, ctx.write(dddmp(nM, [rev(v, nM) for v in S]), ".bdd")))
    f = ctx.write("\n".join(ls + c["body"]) + "\n")
    code = lambda t: rev(t[0], nM) | rev(t[1], nC) << nM | rev(t[2], nM) << (nM + nC)
    rb = ctx.write(dddmp(2 * nM + nC, [code(t) for t in c["robot"]]), ".bdd")
    a = ["--nonDeterministicMotion"] + (["--sysInitRoboticsSemantics"] if c["robotics"] else [])
    r = slugs.run(ctx.exe, a + [f, rb])
    v = slugs.verdict(r)
    return {"observed": v, "args": a, "rawout": r["out"][:500] + r["err"][-500:]}


def check(ctx):
    ctx.rule = "random robots of 1 to 3 state bits with random specifications, some with region BDDs; non-trivial = realizable with at least one guarantee and a command with two outcomes"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(500, 9000))]
    core.run_cases(ctx, "NondetMotion", cases, observe,
                   describe=lambda c: "slugs %s on\n%s\nrobot %s regions %s\nsaid %s\n%s" % (" ".join(c["args"]), c["text"], c["robot"], c["regions"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        if c["observed"] == "realizable" and len({(m, a) for m, a, _ in c["robot"]}) < len(c["robot"]):
            ctx.distinct.add(c["text"] + repr(c["robot"]))
            ctx.sample({"spec": c["text"], "robot": c["robot"], "observed": c["observed"]})
