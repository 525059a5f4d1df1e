"""The Boolean function library against the algebra of sets of assignments."""
import os, subprocess
import build, core, slugs

BIN = ["and", "or", "xor", "diff", "implies"]
CMP = ["eq", "ne", "le", "ge", "lt", "gt", "hash", "gfp"]


def make(rng, j):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5])
    k = rng.randint(3, 6)
    noise = rng.choice([2, 4, 8, 12])
    order = list(range(n + noise))
    if rng.random() < .8:
        rng.shuffle(order)
    L = rng.choice([20, 30, 45])
    P = []
    r = lambda: rng.randrange(k)
    full = (1 << n) - 1
    mask = lambda: rng.choice([0, full, rng.randint(0, full), rng.randint(0, full), rng.randint(0, full)])

    def fill(d):  # a random function into register d
        P.append(("var", d, rng.randrange(n), 0, 0))
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            e = r()
            if e == d or rng.random() < .3:  # without a lucky choice functions stay tiny
                e = (d + 1) % k
                P.append(("var", e, rng.randrange(n), 0, 0))
            P.append((rng.choice(BIN + ["xor"]), d, d, e, 0))
    for d in range(k):
        fill(d)
    while len(P) < L:
        t = rng.random()
        if t < .22:
            P.append((rng.choice(BIN), r(), r(), r(), 0))
        elif t < .30:
            P.append((rng.choice(["not", "copy", "move", "self", "andassign", "orassign"]), r(), r(), 0, 0))
        elif t < .42:
            P.append((rng.choice(["exists", "forall"]), r(), r(), 0, mask()))
        elif t < .48:
            P.append((rng.choice(["exists1", "forall1"]), r(), r(), rng.randrange(n), 0))
        elif t < .54:
            P.append(("andexists", r(), r(), r(), mask()))
        elif t < .60:
            vs = rng.sample(range(n), n)
            h = rng.randint(0, n // 2)
            P.append(("swap", r(), r(), sum(1 << i for i in vs[:h]), sum(1 << i for i in vs[h:2 * h])))
        elif t < .65:
            P.append((rng.choice(["restrict", "minimize"]), r(), r(), r(), 0))
        elif t < .69:
            P.append((rng.choice(["multiand", "multior"]), r(), 0, 0, rng.randint(0, (1 << k) - 1)))
        elif t < .72:
            P.append(("cube", r(), 0, rng.randint(0, full), mask()))
        elif t < .75:
            P.append(("file", r(), r(), rng.randint(0, 1), 0))
        elif t < .80:
            P.append(("noise", 0, rng.choice([5, 30, 120]), rng.randint(0, 2), rng.choice([0, 0, 1, 2])))
        elif t < .845:
            P.append(("count", 0, r(), 0, rng.choice([full, full, full, mask()])))
            if rng.random() < .5:
                P.extend(("count", 0, x, 0, full) for x in range(k))
        elif t < .88:
            P.append((rng.choice(["istrue", "isfalse", "isconst"]), 0, r(), 0, 0))
        elif t < .93:
            fill(r())
        else:
            P.append((rng.choice(CMP), 0, r(), r(), 0))
    return {"n": n, "k": k, "noise": noise, "order": order, "src": P}


def observe(ctx, c):
    f = ctx.path(".bdd")
    text = "%d %d %d %s\n" % (c["n"], c["noise"], c["k"], " ".join(map(str, c["order"]))) + "".join("%s %d %d %d %d\n" % tuple(i) for i in c["src"])
    try:
        r = subprocess.run([ctx.harness, f], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=slugs.patience(60))
        out, err, rc = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired:
        slugs.TIMEOUTS.append(1)
        out, err, rc = "", "timeout", -1
    ls = out.split("\n")
    prog = []
    for i, l in zip(c["src"], ls):
        t = l.split()
        if len(t) != c["k"] + 1:
            break
        foreign = any("/" in x for x in t[1:])
        prog.append({"op": i[0], "d": i[1], "a": i[2] if i[2] < c["k"] or i[0] in ("var", "const", "noise") else i[2], "b": i[3], "m": i[4],
                     "ans": t[0], "foreign": foreign, "regs": [[j for j, x in enumerate(w.split("/")[0]) if x == "1"] for w in t[1:]]})
    if os.path.exists(f):
        os.unlink(f)
    return {"prog": prog, "clean": rc == 0 and ls[-2:] == ["end", ""] and len(prog) == len(c["src"]) and err.strip() == "", "raw": "exit status %s, stderr %s" % (rc, err[-300:])}


def check(ctx):
    ctx.rule = "random programs over the library's operations with unrelated variables, forced garbage and reordering in between; non-trivial = at least 5 quantifications/swaps/simplifications, which read a non-constant function"
    ctx.harness = build.build_harness(os.path.join(core.ROOT, "harness", "bdd_machine.cpp"), "bddmachine")
    cases = [make(ctx.rng, k) for k in range(ctx.scale(1500, 15000))]
    core.run_cases(ctx, "BddMachine", cases, observe, states=lambda c: len(c["prog"]) + 2,
                   describe=lambda c: "program over %d variables: %s" % (c["n"], "; ".join(" ".join(map(str, i)) for i in c["src"])))
    for c in cases:
        k = 0
        for i, j in zip(c["src"], c["prog"]):
            ctx.count("instruction " + i[0])
            if i[0] in ("exists", "forall", "exists1", "forall1", "andexists", "swap", "restrict", "minimize", "file") and 0 < len(j["regs"][i[1]]) < 1 << c["n"]:
                k += 1
        if k >= 3:
            ctx.distinct.add(str(c["src"]))
            ctx.sample({"n": c["n"], "program": [" ".join(map(str, i)) for i in c["src"]]})
