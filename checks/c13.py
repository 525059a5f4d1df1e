import os, random, core, gen, strat, shell
from common_strategy import *

OPTS = [(), (), (), ("--biasForAction",), ("--fixedPointRecycling",)]


def order_args(opts):
    return list(opts)


def pattern(rng, n, lo=0):
    return "".join(rng.choice("..01") if k >= lo else "." for k in range(n))


def session(ctx, c):
    """One adaptive session; the script depends only on the case's seed and the replies."""
    rng = random.Random(c["seed"])
    ins, outs, decl = strat.decl(c["text"])
    f = ctx.write(c["text"])
    a = ["--interactiveStrategy"] + list(c["extra"]) + [f]
    res = {"args": a[:-1], "events": [], "moves": [], "smoves": [], "observed": "?", "rawout": ""}
    sh = shell.Shell(ctx.exe, a, ctx.scratch)
    se = shell.Session(sh, ins, outs, decl)
    n, nI = len(decl), len(ins)
    N = 1 << n
    moves, smoves = [], []
    broken = None
    try:
        sh.start()
        sh.err.seek(0)
        head = sh.err.read().decode()
        res["observed"] = "realizable" if "is realizable" in head else "unrealizable" if "is unrealizable" in head else "?"
        real = res["observed"] == "realizable"
        se.names("XPRINTINPUTS")
        se.names("XPRINTOUTPUTS")
        cnt = se.counts()
        na, ng = cnt["na"], cnt["ng"]
        ci = se.completeinit("." * n)
        winning = ci["r"] == "line"
        for _ in range(4):
            se.completeinit(pattern(rng, n))
        for _ in range(6):
            se.checktrans(rng.randrange(N), rng.randrange(N), rng)
        if rng.random() < .3:
            (se.maketrans if real else (lambda x: se.move(0, x, False, False)))(rng.randrange(1 << nI))
        # walk with XMAKETRANS
        p, goal = None, None
        if real:
            for step in range(40):
                r = rng.random()
                if (p is None or r < .06) and winning:
                    e = se.getinit() if rng.random() < .7 else se.startpos()
                    goal = 0 if e["cmd"] == "XGETINIT" else None
                    p = e["q"]
                elif p is None or r < .12:
                    p = rng.randrange(N)
                    se.setpos(p, rng)
                    goal = None
                elif r < .2:
                    e = se.move(rng.randrange(ng + 1) if rng.random() < .9 else ng + 3, rng.randrange(1 << nI), True, False, rng)
                    if e["r"] == "move":
                        p, goal = e["q"], goal
                else:
                    e = se.maketrans(rng.randrange(1 << nI), random_=rng.random() < .4)
                    if e["r"] == "move":
                        if goal is not None:
                            moves.append({"p": p, "r": goal, "q": e["q"], "s": e["goal"]})
                        p, goal = e["q"], e["goal"]
        else:
            for step in range(8):
                if step % 3 == 0:
                    if winning and rng.random() < .5:
                        se.getinit() if rng.random() < .5 else se.startpos()
                    else:
                        se.setpos(rng.randrange(N), rng)
                else:
                    se.move(rng.randrange(na + 1), rng.randrange(1 << nI), True, False, rng)
        # strategy transitions: explore
        free = "." * n
        starts = [(rng.randrange(N), rng.randrange(na), rng.randrange(ng)) for _ in range(2)]
        if winning:
            starts.append((shell.value(ci["line"]), 0, 0))
        for _ in range(4):
            se.strat(rng.randrange(N), pattern(rng, n), rng.randrange(na), rng.randrange(ng))
        seen = set()
        todo = list(starts)
        budget = c["budget"]
        while todo and budget > 0:
            p, ca, cg = todo.pop(rng.randrange(len(todo)))
            key = (p, cg) if real else (p, ca)
            if key in seen:
                continue
            seen.add(key)
            if real:
                for x in range(1 << nI):
                    budget -= 1
                    e = se.strat(p, shell.bits(x, nI) + "." * (n - nI), ca, cg)
                    if e["r"] == "line":
                        q = shell.value(e["line"])
                        smoves.append({"p": p, "r": cg, "q": q, "s": e["ng"]})
                        todo.append((q, e["na"], e["ng"]))
            else:
                budget -= 1
                e = se.strat(p, free, ca, cg)
                if e["r"] == "line":
                    x = shell.value(e["line"]) % (1 << nI)
                    for y in range(1 << (n - nI)):
                        budget -= 1
                        e = se.strat(p, shell.bits(x, nI) + shell.bits(y, n - nI), ca, cg)
                        if e["r"] == "line":
                            q = shell.value(e["line"])
                            smoves.append({"p": p, "r": ca, "q": q, "s": e["na"]})
                            todo.append((q, e["na"], e["ng"]))
    except shell.Broken as e:
        broken = str(e)
    quit_ = rng.choice(["QUIT", "EXIT", "quit", " exit ", ""])
    rc, rest, err = sh.close(quit_)
    if broken and (not se.events or se.events[-1]["cmd"] != "garbled"):
        se.ev("broken", what=broken)
    if not broken and rc != 0:
        se.ev("exit", what="exit code %s" % rc)
    res.update(events=se.events, moves=moves, smoves=smoves, rawout="".join(sh.log[-6:]) + (err[-300:] if broken else ""))
    return res


def describe_session(c):
    return "slugs %s on\n%s\nsaid %s; session of %d events, last %s\n%s" % (" ".join(c["args"]), c["text"], c["observed"], len(c["events"]), c["events"][-1:], c["rawout"])


def check(ctx):
    ctx.rule = ("random specifications; adaptive random sessions of 40-150 commands; non-trivial = at least one move made or strategy edge seen")
    cases = []
    for k in range(ctx.scale(500, 6000)):
        sp = gen.rand_spec(ctx.rng, max_total=4 if k % 4 == 0 else 3)
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text), "extra": list(OPTS[k % len(OPTS)]), "robotics": "--sysInitRoboticsSemantics" in OPTS[k % len(OPTS)],
                      "seed": ctx.rng.randrange(1 << 30), "budget": 80 if k % 4 else 150})
    core.run_cases(ctx, "InteractiveShell", cases, session, describe=describe_session, states=lambda c: len(c["events"]) + 2)
    for c in cases:
        if c["moves"] or c["smoves"]:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "events": c["events"][:30]})
        ctx.count(c["observed"])
        ctx.count("events", len(c["events"]))
