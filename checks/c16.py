import re, core, gen, slugs, strat

SAFETY = ["SafetyGuarantee", "SafetyAssumption", "Init"]
LIVE = ["LivenessGuarantee", "LivenessAssumption"]


def split0(ws, single):
    """numbers up to the terminating 0s"""
    res, cur = [], []
    for w in ws:
        if not re.fullmatch(r"-?\d+", w):
            raise strat.Malformed("number %r" % w)
        if w == "0":
            res.append(cur)
            cur = []
        else:
            cur.append(int(w))
    if cur or single and len(res) != 1:
        raise strat.Malformed("terminating 0 in %r" % (ws,))
    return res


def lex(out):
    r = {"vars": []}
    for k in SAFETY + LIVE:
        r[k] = []
    ls = out.split("\n")
    if ls.pop() != "":
        raise strat.Malformed("end of output")
    stage = 0
    order = ["Input", "Output"] + SAFETY + LIVE
    for l in ls:
        m = re.fullmatch(r"(\w+):(?: (.*))?", l) or re.fullmatch(r"(\w+):(.*)", l)
        if not m or m.group(1) not in order:
            raise strat.Malformed("line %r" % l)
        k, rest = m.group(1), m.group(2) or ""
        if k in ("Input", "Output"):
            m = re.fullmatch(r"(.*) (\d+) (\d+)", rest)
            if not m:
                raise strat.Malformed("line %r" % l)
            r["vars"].append({"kind": k, "name": m.group(1), "pre": int(m.group(2)), "post": int(m.group(3))})
        elif k in SAFETY:
            r[k] += split0(rest.split(), True)
        else:
            r[k].append(split0(rest.split(), False))
    return r


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--computeCNFFormOfTheSpecification", f])
    res = {"rawout": r["out"] + r["err"][-300:], "form": {}}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res["form"] = lex(r["out"])
            res["observed"] = "done"
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def check(ctx):
    ctx.rule = "random specifications of all families, up to 5 variables; non-trivial = at least four clauses or cubes in total"
    cases = []
    for k in range(ctx.scale(1500, 15000)):
        sp = gen.rand_spec(ctx.rng, max_total=4) if k % 4 else gen.fam_clausal(ctx.rng, max_in=3, max_out=3, max_total=4 if k % 16 else 5)
        if k % 3 == 0:
            for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
                nm = [v + "'" for v in sp["ins"] + sp["outs"]]
                allv = gen.allowed_names(sp, s)
                if nm and ctx.rng.random() < .7:
                    sp["secs"][s].append(gen.rand_formula(ctx.rng, nm if ctx.rng.random() < .5 else allv, 3))
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text)})
    core.run_cases(ctx, "CnfForm", cases, observe, describe=lambda c: "slugs --computeCNFFormOfTheSpecification on\n%s\nsaid %s\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        if c["observed"] == "done":
            n = sum(len(c["form"][s]) for s in SAFETY) + sum(len(x) for s in LIVE for x in c["form"][s])
            ctx.count("clauses_and_cubes", n)
            if n >= 4:
                ctx.distinct.add(c["text"])
                ctx.sample({"spec": c["text"], "form": c["rawout"][:1500]})
