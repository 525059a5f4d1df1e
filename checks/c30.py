"""From structured specifications to the controllers that people read."""
import os, re, subprocess
import core, gen, slugs, build
import c26

HEADER = re.compile(r"State (\d+) with rank (\d+) -> <(.*)>")
SUCC = re.compile(r"\tWith successors : ((?:\d+(?:, \d+)*)?)")


def moves(rng, d, ints, bools):
    """a typical constraint on how an integer output moves"""
    v = d["name"]
    r = rng.random()
    if r < .4:
        t = ["(", v + "'", "=", v, ")", "|", "(", v + "'", "=", v, "+", "1", ")", "|", "(", v + "'", "+", "1", "=", v, ")"]
    elif r < .55:
        t = [v + "'", "<=", v, "+", "1"]
    elif r < .7:
        t = [v, "<=", v + "'", "+", rng.choice(["1", "2"])]
    elif bools and r < .85:
        b = rng.choice(bools)
        t = [b + rng.choice(["", "'"]), "->", "(", v + "'", "=", v, ")"]
    else:
        o = rng.choice(ints)["name"]
        t = [v + "'", rng.choice(["=", "!=", "<=", ">="]), o + rng.choice(["", "'"])]
    return t


def make(rng, k, wide=False):
    """a well-formed structured specification, often with integer variables that matter"""
    for _ in range(2000):
        c = c26.make(rng, k)
        ds = c["decls"]
        if wide and k % 16 == 5:
            # one integer of four bits
            ds = c["decls"] = [d for d in ds if d["int"]][:1]
            for d in ds:
                d["hi"] = d["lo"] + rng.randint(8, 15)
                d["out"] = rng.random() < .85
        # up to four bits (the game is solved completely); negative minima are refused in comparisons
        if not ds or any(d["bad"] or d["lo"] < 0 for d in ds) or c["badhead"]:
            continue
        bits = sum((d["hi"] - d["lo"]).bit_length() if d["int"] else 1 for d in ds)
        if bits == 0 or bits > 4 or not any(d["int"] and d["hi"] > d["lo"] for d in ds) and rng.random() < .8:
            continue
        if len(ds) > 1 and k % 4 == 0 and not any(a is not b and a["name"] in b["name"] and a["int"] and b["int"] and b["hi"] > b["lo"] + 1 for a in ds for b in ds):
            continue
        break
    forms = {s: [] for s in c["forms"]}
    ins, outs = [d for d in ds if not d["out"]], [d for d in ds if d["out"]]
    nm = lambda xs: [d["name"] for d in xs if not d["int"]]
    iv = lambda xs: [d for d in xs if d["int"]]
    P = rng.choice([.25, .5, .8])
    for s, (lo, hi) in {"ENV_INIT": (0, 1), "SYS_INIT": (0, 2), "ENV_TRANS": (0, 1), "SYS_TRANS": (0, 2), "ENV_LIVENESS": (0, 1), "SYS_LIVENESS": (0, 2)}.items():
        for _ in range(rng.randint(lo, hi)):
            if rng.random() > P and not s.endswith("LIVENESS"):
                continue
            cur = ins if s == "ENV_INIT" else ds
            nxt = [] if s.endswith("INIT") else ins if s == "ENV_TRANS" else ds
            bools, ints = {"all": nm(cur), "both": nm(nxt)}, {"all": iv(cur), "both": iv(nxt)}
            if s == "ENV_TRANS" and nxt:
                t1, _p = c26.form(rng, bools, ints, 1, 1)
                t2, _p = c26.form(rng, bools, ints, 0, 1)
                t = ["("] + t2 + [")", rng.choice(["->", "|"]), "("] + t1 + [")"]
            elif s.endswith("LIVENESS") and iv(cur) and rng.random() < .6:
                d = rng.choice(iv(cur))
                t = [d["name"] + rng.choice(["", "'"]), rng.choice(["=", "=", "!=", ">"]), str(rng.randint(d["lo"], d["hi"]))]
                if rng.random() < .3:
                    t2, _p = c26.form(rng, bools, ints, 0, 1)
                    t = t + [rng.choice(["&", "|", "->"]), "("] + t2 + [")"]
            else:
                t, _p = c26.form(rng, bools, ints, 1 if nxt and rng.random() < .6 else 0, rng.choice([1, 2]))
            if len(t) <= 40:
                forms[s].append(t)
    for d in iv(outs):
        if rng.random() < .6:
            forms["SYS_TRANS"].append(moves(rng, d, iv(ds), nm(ds)))
    for d in iv(ins):
        if rng.random() < .4:
            forms["ENV_TRANS"].append(moves(rng, d, iv(ins), nm(ins)))
    if rng.random() < .08 and ins:
        # an environment that runs into a dead end
        d = rng.choice(ins)
        forms["ENV_TRANS"].append(["FALSE"] if rng.random() < .4 else ["!", d["name"]] + ["&"] + [d["name"] + "'"] if not d["int"] else [d["name"] + "'", ">", d["name"]])
    if rng.random() < .06 and outs:
        # more than ten goals
        for _ in range(rng.choice([10, 11, 12])):
            d = rng.choice(outs)
            b = d["name"] + rng.choice(["", "", "'"])
            forms["SYS_LIVENESS"].append([b, rng.choice(["=", "!=", ">="]), str(rng.randint(d["lo"], d["hi"]))] if d["int"] else rng.choice([[], ["!"]]) + [b])
    secs = [("[INPUT]", ins), ("[OUTPUT]", outs)]
    if rng.random() < .5:
        secs.reverse()
    ls = []
    for h, xs in secs:
        ls += [h] + [d["name"] + (": %d...%d" % (d["lo"], d["hi"]) if d["int"] else "") for d in xs] + [""]
    fl = [s for s in forms if forms[s]]
    rng.shuffle(fl)
    for s in fl:
        ls += ["[%s]" % s] + [c26.join(rng, t) for t in forms[s]] + [""]
    text = "\n".join(ls) + "\n"
    raw = lambda t: " ".join(t).split()
    fm = {s: [{"tok": t, "ptok": raw(t)} for t in forms[s]] for s in forms}
    return {"decls": [{x: d[x] for x in ("name", "out", "int", "lo", "hi")} for d in ds], "forms": fm, "text": text,
            "robotics": rng.random() < .3, "to_file": rng.random() < .3}


def tool(name, args=(), stdin=""):
    try:
        r = subprocess.run(["python3", "-B", os.path.join(build.REPO, "tools", name)] + list(args), input=stdin.encode(), capture_output=True, timeout=slugs.patience(60))
    except subprocess.TimeoutExpired:
        slugs.TIMEOUTS.append(1)
        return "timeout", "", ""
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")


def parse_decoded(out):
    ls = out.split("\n")
    if ls[-1] == "":
        ls.pop()
    res = []
    for k in range(0, len(ls), 2):
        m, m2 = HEADER.fullmatch(ls[k]), SUCC.fullmatch(ls[k + 1])
        if not m or not m2:
            raise ValueError("decoded line %r / %r" % (ls[k], ls[k + 1]))
        vals = []
        for p in m.group(3).split(", "):
            a = re.fullmatch(r"([^=:]+)([=:])(-?\d+)", p)
            if not a:
                raise ValueError("value %r" % p)
            vals.append({"n": a.group(1), "int": a.group(2) == "=", "v": int(a.group(3))})
        res.append({"id": int(m.group(1)), "rank": int(m.group(2)), "vals": vals, "succ": [int(x) for x in m2.group(1).split(", ")] if m2.group(1) else []})
    return res


def parse_dot(out):
    """a graph in the DOT language: nodes with label BITS/RANK and one table node that names the bits"""
    m = re.fullmatch(r"\s*(?:strict\s+)?digraph\s*\w*\s*\{(.*)\}\s*", out, re.S)
    if not m:
        raise ValueError("no digraph")
    head, nodes, edges, other = None, {}, [], []
    for st in re.findall(r'(?:"[^"]*"|[^;"])+', m.group(1)):
        st = st.strip()
        if not st:
            continue
        e = re.fullmatch(r'"([^"]*)"\s*->\s*"([^"]*)"(?:\s*\[.*\])?', st)
        n = re.fullmatch(r'"([^"]*)"\s*\[(.*)\]', st, re.S)
        h = re.fullmatch(r'node\s*\[[^\]]*\]\s*"([^"]*)"', st)
        if e:
            edges.append((int(e.group(1)), int(e.group(2))))
        elif h:
            if head is not None:
                raise ValueError("two tables")
            head = h.group(1).split(",")
        elif n:
            l = re.search(r'label\s*=\s*"([01]*)/(\d+)"', n.group(2))
            i = int(n.group(1))
            if not l or i in nodes:
                raise ValueError("node %r" % st)
            nodes[i] = {"id": i, "rank": int(l.group(2)), "bits": [int(b) for b in l.group(1)], "succ": []}
        else:
            other.append(st)
    if other and (nodes or edges or len(other) != 1):
        raise ValueError("statement %r" % other[0])
    for a, b in edges:
        if b not in nodes:
            raise ValueError("edge to %s" % b)
        nodes[a]["succ"].append(b)
    return head or [], list(nodes.values()), bool(other)


def observe(ctx, c):
    f = ctx.write(c["text"], ".structuredslugs")
    rc, sl, err = tool("StructuredSlugsParser/compiler.py", [f])
    if rc != 0:
        return {"observed": "compiler: rc %s" % rc, "dec": [], "dot": [], "head": [], "empty": True, "rawout": err[-800:]}
    g = ctx.write(sl)
    of = g + ".aut"
    r = slugs.run(ctx.exe, ["--explicitStrategy"] + (["--sysInitRoboticsSemantics"] if c["robotics"] else []) + [g] + ([of] if c["to_file"] else []))
    v = slugs.verdict(r)
    out = r["out"] if not c["to_file"] else open(of).read() if os.path.exists(of) else ""
    rc1, dec, err1 = tool("explicitImplementationIntegerDecoder.py", stdin=out)
    rc2, dot, err2 = tool("explicitStrategyToGraphviz.py", stdin=out)
    res = {"observed": v, "rawout": "%s\n%s\n%s" % (dec[:1500], dot[:1500], (err1 + err2)[-600:])}
    if rc1 != 0 or rc2 != 0:
        res["observed"] = "tools: rc %s and %s" % (rc1, rc2)
    res["dec"] = parse_decoded(dec) if rc1 == 0 else []
    res["head"], res["dot"], res["empty"] = parse_dot(dot) if rc2 == 0 else ([], [], True)
    return res


def check(ctx):
    ctx.rule = ("random structured specifications with integer variables through compiler.py, slugs, the integer decoder and the GraphViz "
                "exporter; non-trivial = a controller of at least 2 states over an integer variable")
    cases = [make(ctx.rng, k, True) for k in range(ctx.scale(500, 6000))]
    core.run_cases(ctx, "ReadableController", cases, observe,
                   describe=lambda c: "%s said %s%s\n%s" % (c["text"], c["observed"], " (robotics)" if c["robotics"] else "", c["rawout"]))
    for c in cases:
        ctx.count(c.get("observed", "?"))
        if len(c.get("dec", [])) >= 2 and any(d["int"] for d in c["decls"]):
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "shown": c["rawout"]})
