"""Mutilated specifications: accepted exactly when the input language accepts
them; a rejected one leads to exit code 1, no verdict, no output, no file."""
import os, core, gen, slugs
from common_verdict import verdict_case


def mutate(rng, text):
    ls = text.split("\n")
    names = [l.strip() for l in ls if l.strip() and " " not in l.strip() and not l.strip().startswith(("[", "#"))] or ["a"]
    form = [k for k, l in enumerate(ls) if len(l.split()) > 1 and not l.strip().startswith(("#", "["))]
    sect = [k for k, l in enumerate(ls) if l.strip().startswith("[")]
    r = rng.choice(["deltok", "addtok", "reptok", "swapsec", "badsec", "dupvar", "prime", "mem", "move", "delline", "head", "primevar", "undecl", "stray", "delsec"])
    toks = ["&", "|", "!", "^", "0", "1", "$", "?", "$ 2", "? 0", "? 1", "? 7", "$ 0", "$ 1", "x_undeclared", rng.choice(names), rng.choice(names) + "'", "(", "->", "2", "''"]
    if r in ("deltok", "addtok", "reptok", "prime", "mem", "stray") and form:
        k = rng.choice(form)
        t = ls[k].split()
        j = rng.randrange(len(t))
        if r == "deltok":
            del t[j]
        elif r == "addtok":
            t.insert(j, rng.choice(toks))
        elif r == "reptok":
            t[j] = rng.choice(toks)
        elif r == "stray":
            t.append(rng.choice(toks))
        elif r == "mem":
            t[j:j + 1] = rng.choice([["$", "2", t[j], "?", "0"], ["$", "2", "?", "0", t[j]], ["$", "1", "?", "0"], ["$", "2", t[j], "?", "1"],
                                     ["$", "0"], ["$", "2", t[j]], ["?", "0"], ["$", "x", t[j]], ["$", "3", t[j], "$", "1", "?", "0", "?", "1"],
                                     ["$", "3", t[j], "$", "1", "1", "?", "1"], ["$"], ["?"], ["?", "-"]])
        else:
            t[j] = t[j] + "'" if not t[j].endswith("'") else t[j][:-1]
        ls[k] = " ".join(t)
    elif r == "swapsec" and len(sect) > 1:
        a, b = rng.sample(sect, 2)
        ls[a], ls[b] = ls[b], ls[a]
    elif r == "badsec" and sect:
        k = rng.choice(sect)
        ls[k] = rng.choice(["[ENV_FOO]", "[INPUTS]", "[input]", "[SYS_TRANS", "[SYS_TRANS] 1", "[]", "[ OUTPUT ]", "[SYS_LIVENESS]]"])
    elif r == "dupvar":
        k = rng.choice(sect) if sect else 0
        ls.insert(rng.randrange(len(ls) + 1), rng.choice(names))
    elif r == "primevar" and sect:
        k = [j for j in sect if ls[j].strip() in ("[INPUT]", "[OUTPUT]")]
        if k:
            ls.insert(rng.choice(k) + 1, rng.choice(names) + rng.choice(["'", "", "2", "''"]))
    elif r == "undecl":
        k = [j for j, l in enumerate(ls) if l.strip() in names]
        if k:
            del ls[rng.choice(k)]
    elif r == "move":
        a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
        ls[a], ls[b] = ls[b], ls[a]
    elif r == "delline":
        del ls[rng.randrange(len(ls))]
    elif r == "head":
        ls.insert(0, rng.choice(["1", "# c", names[0], "", "[SYS_TRANS]"]))
    elif r == "delsec" and sect:
        del ls[rng.choice(sect)]
    return "\n".join(ls)


MODES = [[], ["--explicitStrategy"], ["--explicitStrategy", "--jsonOutput"], ["--counterStrategy"], ["--symbolicStrategy"],
         ["--extractExplicitPermissiveStrategy"], ["--fixedPointRecycling"], ["--analyzeAssumptions"], ["--computeCNFFormOfTheSpecification", "--sysInitRoboticsSemantics"],
         ["--analyzeSafetyLivenessInteraction"], ["--simpleRecovery", "--explicitStrategy"], ["--cooperativeGR1Strategy"], ["--computeAbstractWinningTrace"],
         ["--twoDimensionalCost"], ["--nonDeterministicMotion"]]


def observe(ctx, c):
    f = ctx.write(c["text"])
    of = f + ".out"
    v = slugs.verdict(slugs.run(ctx.exe, (["--sysInitRoboticsSemantics"] if c["robotics"] else []) + [f]))
    # the same file with further options: rejected or not, identically
    files = [f] + ([of] if c["withfile"] else [])
    if v == "rejected":
        r = slugs.run(ctx.exe, c["mode"] + files)
        if "Error" not in r["err"] or r["rc"] != 1 or "RESULT" in r["err"] + r["out"] or r["out"].strip():
            v = "not properly rejected with %s: rc %s, stderr %r, stdout %r" % (c["mode"], r["rc"], r["err"][-200:], r["out"][-200:])
        elif os.path.exists(of):
            v = "output written for a rejected specification"
    return {"observed": v}


def check(ctx):
    ctx.rule = "random specifications with 1-3 random mutilations (tokens, sections, declarations, memory buffers), each in a random option mode; non-trivial = rejected"
    ctx.exe
    cases = []
    for k in range(ctx.scale(2200, 20000)):
        sp = gen.rand_spec(ctx.rng, fams=[(gen.fam_clausal, 3), (gen.fam_formula, 4), (gen.fam_template, 2)], max_total=3)  if ctx.rng.random() < .9 else gen.fam_template(ctx.rng)
        t = gen.render(sp, ctx.rng)
        for _ in range(ctx.rng.choice([0, 1, 1, 1, 2, 3])):
            t = mutate(ctx.rng, t)
        c = verdict_case(None, None, ctx.rng.random() < .3, text=t)
        c["mode"] = ctx.rng.choice(MODES)
        c["withfile"] = c["mode"] in MODES[1:6] and ctx.rng.random() < .7 or c["mode"] == ["--symbolicStrategy"]
        cases.append(c)
    core.run_cases(ctx, "Realizability", cases, observe, describe=lambda c: "slugs %s on\n%s\nsaid %s" % (c["mode"], c["text"], c["observed"]))
    for c in cases:
        ctx.count(c["observed"])
        if c["observed"] == "rejected":
            ctx.distinct.add(c["text"])
            if len(c["text"]) < 200:
                ctx.sample({"spec": c["text"], "mode": c["mode"]})
