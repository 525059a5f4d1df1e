import os, gen, slugs, strat


def explicit_case(sp, rng, robotics=False, recovery=False, fmt="text", extra=(), to_file=False, ranks=True):
    text = gen.render(sp, rng)
    return {"text": text, "lines": gen.lines_of(text), "robotics": robotics, "recovery": recovery, "fmt": fmt,
            "extra": list(extra), "to_file": to_file, "ranks": ranks,
            "coop": "--cooperativeGR1Strategy" in extra}


def args_of(c):
    a = ["--explicitStrategy"] + list(c["extra"])
    if c["robotics"]:
        a.append("--sysInitRoboticsSemantics")
    if c["recovery"]:
        a.append("--simpleRecovery")
    if c["fmt"] == "json":
        a.append("--jsonOutput")
    return a


def observe_explicit(ctx, c):
    f = ctx.write(c["text"])
    a = args_of(c)
    of = f + ".out"
    files = [f] + ([of] if c["to_file"] else [])
    r = slugs.run(ctx.exe, a + files)
    v = slugs.verdict(r)
    out = r["out"]
    if c["to_file"] and v == "realizable":
        if out != "":
            v = "anomalous stdout"
        out = open(of).read() if os.path.exists(of) else ""
    nodes = []
    if v == "realizable" or out:
        try:
            nodes = strat.parse_json(out, c["text"]) if c["fmt"] == "json" else strat.parse_text(out, c["text"])
        except strat.Malformed as e:
            v = "malformed output: %s" % e
    return {"observed": v, "nodes": nodes, "args": a, "rawout": out[:3000]}


def describe(c):
    return "slugs %s on\n%s\nsaid %s\n%s" % (" ".join(c["args"]), c["text"], c["observed"], c.get("rawout", ""))


def symbolic_case(sp, rng, simple, robotics=False, recovery=False, extra=()):
    text = gen.render(sp, rng)
    return {"text": text, "lines": gen.lines_of(text), "robotics": robotics, "recovery": recovery, "simple": simple,
            "extra": list(extra), "coop": "--cooperativeGR1Strategy" in extra}


def observe_symbolic(ctx, c):
    f = ctx.write(c["text"])
    of = f + ".bdd"
    a = ["--simpleSymbolicStrategy" if c["simple"] else "--symbolicStrategy"] + c["extra"]
    if c["robotics"]:
        a.append("--sysInitRoboticsSemantics")
    if c["recovery"]:
        a.append("--simpleRecovery")
    r = slugs.run(ctx.exe, a + [f, of])
    v = slugs.verdict(r)
    res = {"observed": v, "args": a, "written": os.path.exists(of), "names": [], "goals": 0, "bdd": [], "root": 1, "codes": 1, "rawout": ""}
    if res["written"]:
        s = open(of, errors="replace").read()
        res["rawout"] = s[-1500:]
        try:
            res["names"], res["goals"], res["bdd"], res["root"] = strat.parse_dddmp(s)
            res["codes"] = 1 << sum(1 for n in res["names"] if n.startswith("_jx_b") and not n.endswith("'"))
        except strat.Malformed as e:
            res["observed"] = "malformed output: %s" % e
    return res


def counter_case(sp, rng, robotics=False, to_file=False):
    text = gen.render(sp, rng)
    return {"text": text, "lines": gen.lines_of(text), "robotics": robotics, "to_file": to_file}


def observe_counter(ctx, c):
    f = ctx.write(c["text"])
    a = ["--counterStrategy"] + (["--sysInitRoboticsSemantics"] if c["robotics"] else [])
    of = f + ".out"
    r = slugs.run(ctx.exe, a + [f] + ([of] if c["to_file"] else []))
    v = slugs.verdict(r)
    out = r["out"]
    if c["to_file"] and v == "unrealizable":
        if out:
            v = "anomalous stdout"
        out = open(of).read() if os.path.exists(of) else ""
    nodes = []
    if v == "unrealizable" or out:
        try:
            nodes = strat.parse_counter(out, c["text"])
        except strat.Malformed as e:
            v = "malformed output: %s" % e
    return {"observed": v, "nodes": nodes, "args": a, "rawout": out[:3000]}


def permissive_case(sp, rng, robotics=False, extra=(), to_file=False):
    text = gen.render(sp, rng)
    return {"text": text, "lines": gen.lines_of(text), "robotics": robotics, "extra": list(extra), "to_file": to_file}


def observe_permissive(ctx, c):
    f = ctx.write(c["text"])
    opt = list(c["extra"]) + (["--sysInitRoboticsSemantics"] if c["robotics"] else [])
    a = ["--extractExplicitPermissiveStrategy"] + opt
    of = f + ".out"
    r = slugs.run(ctx.exe, a + [f] + ([of] if c["to_file"] else []))
    v = slugs.verdict(r)
    out = r["out"]
    if c["to_file"] and v == "realizable":
        if out != "":
            v = "anomalous stdout"
        out = open(of).read() if os.path.exists(of) else ""
    nodes, det = [], []
    if v == "realizable" or out:
        r2 = slugs.run(ctx.exe, ["--explicitStrategy"] + opt + [f])
        try:
            nodes = strat.parse_permissive(out, c["text"])
            det = strat.parse_text(r2["out"], c["text"])
        except strat.Malformed as e:
            v = "malformed output: %s" % e
    return {"observed": v, "nodes": nodes, "det": det, "args": a, "rawout": out[:3000]}
