"""Specifications beyond a handful of variables: generated families and the
repository's own examples."""
import os, glob, itertools
import build
from gen import new_spec, conj, disj, lit, iff, imp, cube, rand_clause, allowed_names, rand_spec, names as gnames


def neq(a, b):
    return ["^"] + list(a) + list(b)


def eqnext(vs):
    return conj([iff([v], [v + "'"]) for v in vs])


def table(rng, vs, edges):
    """position -> next positions as a formula over vs"""
    return conj([imp(cube(vs, p), disj([cube([v + "'" for v in vs], q) for q in qs])) for p, qs in sorted(edges.items())])


def grid(rng, w, h, stay=.9):
    e = {}
    for x in range(w):
        for y in range(h):
            p = x + w * y
            qs = [p] if rng.random() < stay else []
            for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                if 0 <= x + dx < w and 0 <= y + dy < h and rng.random() < .93:
                    qs.append(x + dx + w * (y + dy))
            e[p] = qs or [p]
    return e


def bits_for(n):
    return max(1, (n - 1).bit_length())


def fam_robot(rng):
    """robot on a grid, moving obstacle or doors, request/goal regions"""
    w, h = rng.choice([(2, 2), (4, 2), (3, 3), (4, 4), (8, 1), (4, 1), (8, 2)])
    nb = bits_for(w * h)
    r = ["r%d" % k for k in range(nb)]
    sp = new_spec([], r)
    S = sp["secs"]
    ed = grid(rng, w, h)
    for p in range(w * h, 1 << nb):
        S["SYS_TRANS"].append(NOTC(["%s'" % v for v in r], p))
    S["SYS_TRANS"].append(table(rng, r, ed))
    if w * h < 1 << nb:
        S["SYS_INIT"].append(disj([cube(r, p) for p in range(w * h)]))
    kind = rng.choice(["door", "obstacle", "request", "plain"])
    if kind == "door":
        sp["ins"] = ["d0", "d1"][:rng.randint(1, 2)]
        for d in sp["ins"]:
            c = rng.randrange(w * h)
            S["SYS_TRANS"].append(["|", d if rng.random() < .7 else d + "'"] + NOTC([v + "'" for v in r], c))
            if rng.random() < .8:
                S["ENV_LIVENESS"].append(rng.choice([[d], [d + "'"], ["|", d] + cube(r, rng.randrange(w * h))]))
            if rng.random() < .3:
                S["ENV_TRANS"].append(["|", "!", d] + [d + "'"])
    elif kind == "obstacle":
        ob = rng.choice([2, 4, 4])
        nb2 = bits_for(ob)
        o = ["o%d" % k for k in range(nb2)]
        sp["ins"] = o
        path = [rng.randrange(w * h) for _ in range(ob)]
        S["ENV_TRANS"].append(table(rng, o, {k: sorted({k, (k + 1) % ob, (k - 1) % ob} if rng.random() < .5 else {k, (k + 1) % ob}) for k in range(ob)}))
        for k in range(ob):
            S["SYS_TRANS"].append(["|", "!"] + cube([v + "'" for v in o], k) + NOTC([v + "'" for v in r], path[k]))
        if rng.random() < .6:
            S["ENV_LIVENESS"].append(["!"] + cube(o, rng.randrange(ob)))
        if rng.random() < .6:
            S["SYS_INIT"].append(disj([cube(r, p) for p in range(w * h) if p not in path]) if len(set(path)) < w * h else ["1"])
        if rng.random() < .5:
            S["ENV_INIT"].append(cube(o, 0))
    elif kind == "request":
        sp["ins"] = ["q"]
        sp["outs"] = r + ["m"]
        t = rng.randrange(w * h)
        # m remembers an open request
        S["SYS_TRANS"].append(iff(["m'"], conj([["|", "m", "q'"], NOTC(r if rng.random() < .5 else [v + "'" for v in r], t)])))
        S["SYS_LIVENESS"].append(["!", "m"])
    for _ in range(rng.randint(1, 4)):
        S["SYS_LIVENESS"].append(cube(rng.choice([r, r, [v + "'" for v in r]]), rng.randrange(w * h)))
    if rng.random() < .4:
        S["SYS_INIT"].append(cube(r, rng.randrange(w * h)))
    if rng.random() < .2:
        S["SYS_LIVENESS"].append(conj([cube(r, rng.randrange(w * h)), ["!"] + cube([v + "'" for v in r], rng.randrange(w * h))]))
    return sp


def NOTC(vs, p):
    return ["!"] + cube(vs, p)


def fam_counter(rng):
    """a counter the system (or environment) may advance; long distances"""
    k = rng.randint(3, 5)
    c = ["c%d" % i for i in range(k)]
    n = rng.randint((1 << (k - 1)) + 1, 1 << k)
    sp = new_spec(["go"] + (["x"] if rng.random() < .4 else []), c + (["y"] if rng.random() < .4 else []))
    S = sp["secs"]
    step = {p: [(p + 1) % n] for p in range(n)}
    if rng.random() < .4:
        for p in rng.sample(range(n), 2):
            step[p] = step[p] + [rng.randrange(n)]
    adv = table(rng, c, step)
    cond = rng.choice([["go"], ["go'"], ["&", "go", "go'"], ["^", "go", "go'"]])
    S["SYS_TRANS"].append(["|", "!"] + cond + adv)
    S["SYS_TRANS"].append(["|"] + cond + eqnext(c))
    S["SYS_TRANS"].append(disj([cube([v + "'" for v in c], p) for p in range(n)]))
    S["SYS_INIT"].append(cube(c, rng.choice([0, 0, rng.randrange(n)])))
    S["ENV_LIVENESS"].append(rng.choice([["go"], cond, ["|", "go", "go'"]]))
    for _ in range(rng.randint(1, 3)):
        S["SYS_LIVENESS"].append(cube(rng.choice([c, [v + "'" for v in c]]), rng.randrange(n)))
    if "x" in sp["ins"]:
        S["ENV_LIVENESS"].append(rng.choice([["x"], ["!", "x'"]]))
        S["SYS_TRANS"].append(["|", rng.choice(["x", "x'"])] + NOTC([v + "'" for v in c], rng.randrange(n)))
    if "y" in sp["outs"]:
        S["SYS_LIVENESS"].append(["^", "y", "y'"])
        S["SYS_TRANS"].append(["|"] + iff(["y"], ["y'"]) + cube(c, rng.randrange(n)))
    return sp


def fam_arbiter(rng):
    n = rng.randint(2, 4)
    q = ["q%d" % k for k in range(n)]
    g = ["g%d" % k for k in range(n)]
    sp = new_spec(q, g)
    S = sp["secs"]
    nx = rng.choice(["", "'"])
    for a, b in itertools.combinations(range(n), 2):
        S["SYS_TRANS"].append(["|", "!", g[a] + "'", "!", g[b] + "'"])
    for k in range(n):
        if rng.random() < .7:
            S["SYS_TRANS"].append(["|", "!", g[k] + "'", q[k] + nx])
        if rng.random() < .7:
            S["ENV_TRANS"].append(["|", "|", "!", q[k], g[k], q[k] + "'"])
        S["SYS_LIVENESS"].append(rng.choice([["|", "!", q[k], g[k]], ["|", "!", q[k] + nx, g[k] + "'"], ["|", "!", "&", q[k], q[k] + "'", g[k] + "'"]]))
        if rng.random() < .3:
            S["ENV_LIVENESS"].append(rng.choice([["!", q[k]], ["|", "!", g[k], "!", q[k]]]))
    if rng.random() < .5:
        S["SYS_INIT"] += [["!", v] for v in g]
    if rng.random() < .3:
        S["ENV_INIT"] += [["!", v] for v in q]
    return sp


def fam_many(rng):
    """clauses over 5..8 variables, many assumptions and guarantees"""
    nI, nO = rng.randint(1, 3), rng.randint(2, 5)
    sp = new_spec(["i%d" % k for k in range(nI)], ["o%d" % k for k in range(nO)])
    for s, lo, hi, a, b in (("ENV_INIT", 0, 1, 1, 2), ("SYS_INIT", 0, 2, 1, 3), ("ENV_TRANS", 0, 2, 2, 4), ("SYS_TRANS", 2, 6, 2, 4),
                            ("ENV_LIVENESS", 0, 3, 1, 2), ("SYS_LIVENESS", 1, 5, 1, 3)):
        ns = allowed_names(sp, s)
        for _ in range(rng.randint(lo, hi)):
            c = rand_clause(rng, ns, a, min(b, len(ns)))
            if s.endswith("LIVENESS") and rng.random() < .6:
                c = conj([lit(v, rng.random() < .5) for v in rng.sample(ns, min(len(ns), rng.randint(1, 3)))])
            sp["secs"][s].append(c)
    return sp


def rename(sp, pre):
    f = lambda t: t if t in ("&", "|", "^", "!", "$", "?", "0", "1") or t.isdigit() else (pre + t)
    return {"ins": [pre + v for v in sp["ins"]], "outs": [pre + v for v in sp["outs"]],
            "secs": {s: [[f(t) for t in fm] for fm in fs] for s, fs in sp["secs"].items()}}


def fam_product(rng):
    """two small games played side by side"""
    a, b = rename(rand_spec(rng, max_total=3), "a."), rename(rand_spec(rng, max_total=3), "b.")
    return {"ins": a["ins"] + b["ins"], "outs": a["outs"] + b["outs"], "secs": {s: a["secs"][s] + b["secs"][s] for s in a["secs"]}}


BIG = [(fam_robot, 4), (fam_counter, 2), (fam_arbiter, 2), (fam_many, 4), (fam_product, 2)]


def rand_big(rng):
    return rand_spec(rng, fams=BIG)


def examples():
    """texts of the repository's plain specifications that TLC can certify in reasonable time"""
    res = []
    for f in sorted(glob.glob(build.REPO + "/examples/*.slugsin") + glob.glob(build.REPO + "/examples/specification_debugging_examples/*.slugsin")):
        res.append((os.path.basename(f), open(f).read()))
    return res
