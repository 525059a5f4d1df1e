import re, core, gen, slugs, strat

KINDS = [("crucial", r"is crucially needed\."),
         ("robotics", r"makes more positions winning, which helps for satisfying the GR\(1\) robotics semantics\."),
         ("winning", r"makes more positions winning, but without any effect of the GR\(1\) robotics semantics\."),
         ("redundant", r"is redundant and implied by the other safety assumptions\."),
         ("superfluous", r"is superfluous\."),
         ("easier", r"makes reaching the system goals (.*) easier for the system\.")]


def lex(out):
    ls = out.split("\n")
    if ls[-1] != "":
        raise strat.Malformed("no newline at the end")
    ls.pop()
    if ls == ["Starting with an unrealizable specification --> Analyzing the assumptions does not make sense."]:
        return "unrealizable", []
    if ls[:2] != ["Starting with a realizable specification (in the standard GR(1) semantics).", ""]:
        raise strat.Malformed("head %r" % ls[:2])
    rep = []
    for l in ls[2:]:
        for k, p in KINDS:
            m = re.fullmatch(r'"(.*)" ' + p, l)
            if m:
                e = {"name": m.group(1), "kind": k, "goals": [], "out": []}
                if k == "easier":
                    for t in m.group(2).split(", "):
                        m2 = re.fullmatch(r"(\d+)( \(but not in most general str?ate?gy\))?", t)
                        if not m2:
                            raise strat.Malformed("line %r" % l)
                        e["goals"].append(int(m2.group(1)))
                        e["out"].append(m2.group(2) is not None)
                rep.append(e)
                break
        else:
            raise strat.Malformed("line %r" % l)
    return "realizable", rep


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--analyzeAssumptions", f])
    res = {"args": ["--analyzeAssumptions"], "rawout": r["out"] + r["err"][-300:], "report": []}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res["observed"], res["report"] = lex(r["out"])
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def add_names(text, rng):
    out = []
    for l in text.split("\n"):
        if rng.random() < .15:
            out.append(rng.choice(["## first", "##second one ", "  ## x = y", "##", "## [ENV_TRANS]", "# plain", "##  the \"last\""]))
        out.append(l)
    return "\n".join(out)


def fam_assume(rng):
    """clausal specifications with many assumptions, mostly realizable"""
    nI, nO = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)])
    sp = gen.new_spec(*gen.rand_names(rng, nI, nO))
    cnt = {"ENV_INIT": (0, 1), "SYS_INIT": (0, 1), "ENV_TRANS": (1, 4), "SYS_TRANS": (0, 2), "ENV_LIVENESS": (0, 3), "SYS_LIVENESS": (1, 3)}
    for s in gen.SECS:
        for _ in range(rng.randint(*cnt[s])):
            sp["secs"][s].append(gen.rand_clause(rng, gen.allowed_names(sp, s), 1 if "LIVE" in s else 2, 3))
    if rng.random() < .3 and sp["secs"]["ENV_TRANS"]:
        sp["secs"]["ENV_TRANS"].append(["|"] + sp["secs"]["ENV_TRANS"][0] + gen.rand_clause(rng, gen.allowed_names(sp, "ENV_TRANS")))
    return sp


def fam_walk(rng):
    """a robot on positions, doors that may be closed by the environment"""
    n = rng.choice([2, 2, 3])
    sp = gen.new_spec(["d%d" % k for k in range(rng.choice([1, 1, 2] if n == 2 else [1]))], ["l%d" % k for k in range(n)])
    N = 1 << n
    pos = lambda k, pr="": gen.cube([v + pr for v in sp["outs"]], k)
    moves = []
    for a in range(N):
        tgt = {a, (a + 1) % N} | ({rng.randrange(N)} if rng.random() < .4 else set()) | ({(a - 1) % N} if rng.random() < .5 else set())
        moves.append(["&"] + pos(a) + gen.disj([pos(b, "'") for b in sorted(tgt)]))
    sp["secs"]["SYS_TRANS"].append(gen.disj(moves))
    for d in sp["ins"]:
        k = rng.randrange(N)
        sp["secs"]["SYS_TRANS"].append(["|", "!", d + "'", "!"] + pos(k, "'"))
        if rng.random() < .7:
            sp["secs"]["ENV_TRANS"].append(["|", "!"] + pos(k) + ["!", d + "'"])
        if rng.random() < .5:
            sp["secs"]["ENV_TRANS"].append(["|", "!", d] + rng.choice([["!", d + "'"], [d + "'"]]))
        if rng.random() < .8:
            sp["secs"]["ENV_LIVENESS"].append(["!", d + rng.choice(["", "'"])])
        if rng.random() < .4:
            sp["secs"]["ENV_LIVENESS"].append(["|", "!", d] + pos(rng.randrange(N)))
    for _ in range(rng.randint(1, 3)):
        sp["secs"]["SYS_LIVENESS"].append(pos(rng.randrange(N), rng.choice(["", "'"])))
    if rng.random() < .7:
        sp["secs"]["SYS_INIT"].append(pos(rng.randrange(N)))
        sp["secs"]["ENV_INIT"] += [["!", d] for d in sp["ins"]]
    return sp


def check(ctx):
    ctx.rule = "random specifications with several assumptions (clausal, robot walks, all general families); non-trivial = realizable, with a report other than 'superfluous' only"
    cases = []
    for k in range(ctx.scale(1000, 10000)):
        r = k % 3
        sp = fam_assume(ctx.rng) if r == 0 else fam_walk(ctx.rng) if r == 1 else gen.rand_spec(ctx.rng, max_total=4)
        text = add_names(gen.render(sp, ctx.rng), ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text)})
    core.run_cases(ctx, "AssumptionReport", cases, observe,
                   describe=lambda c: "slugs %s on\n%s\nsaid %s\n%s" % (" ".join(c["args"]), c["text"], c["observed"], c["rawout"]))
    for c in cases:
        if any(s["kind"] != "superfluous" for s in c["report"]):
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "report": c["rawout"][:1500]})
        ctx.count(c["observed"].split(" ")[0])
        for s in c["report"]:
            ctx.count("kind_" + s["kind"] + ("_out" if any(s["out"]) else ""))
