import re, core, gen, slugs, strat

HEAD = ["Number of winning positions: ", "Number of winning positions satisfying the initialization assumptions: ",
        "Number of winning positions satisfying the initialization guarantees: ",
        "Number of winning positions satisfying the initialization assumptions and guarantees: ",
        "Number of initial input assignments that are allowed for the environment: ",
        "Number of initial input assignments that force the system to move to a losing position: "]
TITLES = ["Some cubes of winning positions: ", "Some cubes of non-winning positions: ",
          "Some cubes of winning positions satisfying the initialization assumptions: ",
          "Some cubes of non-winning positions satisfying the initialization assumptions: ",
          "Some cubes of winning positions satisfying the initialization guarantees: ",
          "Some cubes of non-winning positions satisfying the initialization guarantees: ",
          "Some cubes of winning positions satisfying the initialization assumptions & guarantees: ",
          "Some cubes of non-winning positions satisfying the initialization assumptions & guarantees: ",
          "Some positions from which the environment player cannot prevent to violate some safety assumptions:"]


def groups_of(order):
    g = {}
    for k, v in enumerate(order):
        m = re.fullmatch(r"(.*?)@(?:0\.(\d+)\.(\d+)|(\d+))", v)
        if m:
            d = g.setdefault(m.group(1), {"bits": {}, "min": None})
            if m.group(4) is None:
                d["bits"][0] = k
                d["min"] = int(m.group(2))
            else:
                d["bits"][int(m.group(4))] = k
    return g


def lex(out, text):
    """-> (counts, sections)"""
    ins, outs, both = strat.decl(text)
    order = ins + outs
    grp = groups_of(order)
    ls = out.split("\n")
    counts = []
    for h in HEAD:
        m = re.fullmatch(re.escape(h) + r"(\S+) out of (\S+)", ls.pop(0)) if ls else None
        if not m:
            raise strat.Malformed("missing line %r" % h)
        for x in m.groups():
            counts.append(int(x) if re.fullmatch(r"\d+", x) else -1)
    secs = []
    for t in TITLES:
        if len(ls) < 2 or ls.pop(0) != "" or ls.pop(0) != t:
            raise strat.Malformed("missing section %r" % t)
        body = []
        while ls and ls[0] != "":
            body.append(ls.pop(0))
        if body == ["- TRUE"]:
            secs.append({"kind": "TRUE", "cubes": []})
        elif body == ["--(none)"]:
            secs.append({"kind": "none", "cubes": []})
        else:
            cubes = []
            for l in body:
                w = l.split(" ")
                if w[:2] != ["", "-"] or len(set(w)) != len(w):
                    raise strat.Malformed("cube line %r" % l)
                cube = []
                for t in w[2:]:
                    if t in order and "@" not in t:
                        cube.append([order.index(t), 1])
                    elif t[:1] == "!" and t[1:] in order and "@" not in t:
                        cube.append([order.index(t[1:]), 0])
                    else:
                        m = re.fullmatch(r"(.*)=(\d+)", t)
                        if not m or m.group(1) not in grp:
                            raise strat.Malformed("literal %r in %r" % (t, l))
                        d = grp[m.group(1)]
                        val = int(m.group(2)) - d["min"]
                        if not 0 <= val < 1 << len(d["bits"]):
                            raise strat.Malformed("value %r in %r" % (t, l))
                        cube += [[k, (val >> b) & 1] for b, k in d["bits"].items()]
                cubes.append(cube)
            secs.append({"kind": "cubes", "cubes": cubes})
    if ls != [""]:
        raise strat.Malformed("trailing text %r" % ls[:3])
    return counts, secs


def observe(ctx, c):
    f = ctx.write(c["text"])
    a = ["--analyzeInitialPositions"] + (["--restrictToReachableStates"] if c["reach"] else [])
    r = slugs.run(ctx.exe, a + [f])
    res = {"args": a, "rawout": r["out"] + r["err"][-300:], "counts": [], "secs": []}
    if r["rc"] == 1:
        res["observed"] = "rejected"
        return res
    if r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
        return res
    try:
        res["counts"], res["secs"] = lex(r["out"], c["text"])
        res["observed"] = "ok"
    except strat.Malformed as e:
        res["observed"] = "malformed: %s" % e
    return res


def grouped_spec(rng):
    """a specification with one encoded number among its variables"""
    lo, n = rng.randint(0, 2), rng.choice([2, 2, 3])
    nm = rng.choice(["cnt", "a", "x"])
    bad = rng.random() < .1
    hi = lo + rng.randint(1, (1 << n) - 1)
    bits = ([] if bad else ["%s@0.%d.%d" % (nm, lo, hi)]) + ["%s@%d" % (nm, k) for k in range(1, n)]
    isin = rng.random() < .5
    extra = ["q", "w"][:4 - n if not bad else 2]
    ins, outs = (bits + extra[:1], extra[1:]) if isin else (extra[:1], bits + extra[1:])
    sp = gen.new_spec(ins, outs)
    for s, (a, b) in {"ENV_INIT": (0, 1), "SYS_INIT": (0, 2), "ENV_TRANS": (0, 2), "SYS_TRANS": (0, 4), "ENV_LIVENESS": (0, 2), "SYS_LIVENESS": (0, 3)}.items():
        for _ in range(rng.randint(a, b)):
            sp["secs"][s].append(gen.rand_clause(rng, gen.allowed_names(sp, s)) if rng.random() < .7 else gen.rand_formula(rng, gen.allowed_names(sp, s), 3))
    if not bad and rng.random() < .8:
        lim = gen.disj([gen.cube(bits, k) for k in range(hi - lo + 1)])
        sp["secs"]["ENV_INIT" if isin else "SYS_INIT"].insert(0, lim)
        sp["limit"] = lim
        step = gen.disj([gen.cube([b + "'" for b in bits], k) for k in range(hi - lo + 1)])
        if rng.random() < .8:
            sp["secs"]["ENV_TRANS" if isin else "SYS_TRANS"].append(step)
    return sp, bad


def mark_limits(text, rng, p, always=None):
    out, mode = [], ""
    for l in text.split("\n"):
        t = l.strip()
        if t[:1] == "[":
            mode = t
        elif t and t[0] != "#":
            if always is not None and t.split() == always:
                out.append("## Variable limits: 0<=cnt<=3")
            elif rng.random() < (p if mode in ("[ENV_INIT]", "[SYS_INIT]") else p / 8):
                out.append(rng.choice(["## Variable limits: 1<=v<=2", "##  Variable limits: x", "## Variable limits:", "## Variable limits: z"]))
        out.append(l)
    return "\n".join(out)


def check(ctx):
    ctx.rule = "random specifications with and without limit comments and encoded numbers; non-trivial = at least one section lists cubes"
    ctx.assumptions.append("for encoded numbers the printed lines are checked to be sound, distinct and at most seven (which ones are picked is not prescribed)")
    cases = []
    for k in range(ctx.scale(900, 10000)):
        grouped = k % 4 == 0
        bad = False
        if grouped:
            sp, bad = grouped_spec(ctx.rng)
        else:
            while True:
                sp = gen.rand_spec(ctx.rng, max_total=4)
                if not any("@" in v for v in sp["ins"] + sp["outs"]):
                    break
            if ctx.rng.random() < .6:
                for s in ("ENV_INIT", "SYS_INIT"):
                    if ctx.rng.random() < .5:
                        sp["secs"][s].append(gen.rand_clause(ctx.rng, gen.allowed_names(sp, s)))
        text = mark_limits(gen.render(sp, ctx.rng), ctx.rng, ctx.rng.choice([0, 0, .4]), sp.get("limit"))
        cases.append({"text": text, "lines": gen.lines_of(text), "reach": k % 3 == 1, "grouped": grouped, "badgroup": bad})
    core.run_cases(ctx, "InitialPositions", cases, observe,
                   describe=lambda c: "slugs %s on\n%s\nsaid %s\n%s" % (" ".join(c["args"]), c["text"], c["observed"], c["rawout"]))
    for c in cases:
        if any(s["kind"] == "cubes" for s in c["secs"]):
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "report": c["rawout"][:1500]})
        ctx.count(c["observed"].split(" ")[0])
