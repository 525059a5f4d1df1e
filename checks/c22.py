"""Fast and slow outputs: verdict and strategies of the game in which the
position between the fast and the slow change must be safe, too."""
import core, gen, slugs
from common_strategy import explicit_case, observe_explicit, describe


def split(sp, rng, text):
    """declare every output as fast or slow"""
    out, mode = [], ""
    k = rng.random()
    for l in text.split("\n"):
        t = l.strip(gen.WS)
        if t.startswith("["):
            mode = t
            if t == "[OUTPUT]":
                l, cur = None, ""
        elif mode == "[OUTPUT]" and t and not t.startswith("#"):
            want = "[OUTPUT_F]" if rng.random() < k else "[OUTPUT_S]"
            if cur != want:
                out.append(want)
                cur = want
        if l is not None:
            out.append(l)
    return "\n".join(out)


def motion(rng):
    """positions excluded by the guarantees, so that intermediate positions matter"""
    nI, nF, nS = rng.choice([(0, 1, 1), (1, 1, 1), (1, 1, 2), (1, 2, 1), (0, 2, 2), (0, 1, 2), (0, 2, 1)])
    sp = gen.new_spec(["i%d" % k for k in range(nI)], ["o%d" % k for k in range(nF + nS)])
    pre = sp["ins"] + sp["outs"]
    post = [v + "'" for v in pre]
    for _ in range(rng.randint(1, 3)):
        c = gen.rand_clause(rng, pre, 2, 3)
        sp["secs"]["SYS_TRANS"].append(gen.NOT(gen.NOT(c)) if rng.random() < .3 else c)
        if rng.random() < .5:
            sp["secs"]["SYS_TRANS"].append([t + "'" if t in pre else t for t in c])
    if rng.random() < .4:
        sp["secs"]["SYS_TRANS"].append(gen.rand_clause(rng, pre + post, 2, 4))
    if nI and rng.random() < .4:
        sp["secs"]["ENV_TRANS"].append(gen.rand_clause(rng, pre + post[:nI], 2, 3))
    for _ in range(rng.randint(1, 3)):
        sp["secs"]["SYS_LIVENESS"].append(gen.cube(sp["outs"], rng.randrange(1 << (nF + nS))) if rng.random() < .5 else gen.rand_clause(rng, pre, 1, 2))
    if nI and rng.random() < .4:
        sp["secs"]["ENV_LIVENESS"].append(gen.rand_clause(rng, pre, 1, 2))
    if rng.random() < .5:
        sp["secs"]["SYS_INIT"].append(gen.rand_clause(rng, pre, 1, 2))
    return sp


def make(rng, k):
    sp = motion(rng) if k % 3 else gen.rand_spec(rng)
    r = rng.random()
    c = explicit_case(sp, rng, robotics=k % 4 == 1, recovery=k % 5 == 2, fmt="json" if k % 9 == 3 else "text", extra=["--IROSfastslow"], to_file=k % 11 == 0)
    c["std"] = c["text"]
    c["text"] = split(sp, rng, c["text"]) if r < .97 else c["text"]
    c["lines"] = gen.lines_of(c["text"])
    c["plain"] = k % 6 == 0 or "[OUTPUT]" in c["text"] or not sp["ins"] + sp["outs"]
    return c


def observe(ctx, c):
    if c["plain"]:
        a = ["--IROSfastslow"] + (["--sysInitRoboticsSemantics"] if c["robotics"] else [])
        r = slugs.run(ctx.exe, a + [ctx.write(c["text"])])
        return {"observed": slugs.verdict(r), "nodes": [], "args": a, "rawout": r["out"][:500]}
    return observe_explicit(ctx, c)


def check(ctx):
    ctx.rule = "outputs of random specifications declared fast or slow; non-trivial = realizable with a printed controller of at least 2 nodes"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(1500, 15000))]
    core.run_cases(ctx, "FastSlow", cases, observe, describe=describe)
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        if len(c["nodes"]) >= 2:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "args": c["args"], "strategy": c["rawout"]})
