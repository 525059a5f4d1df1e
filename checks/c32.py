"""Minimal unrealizable cores."""
import os
import core, gen, jy, slugs


def make(rng, k):
    sp = gen.rand_spec(rng, max_total=3 if k % 5 else 4)
    allv = sp["ins"] + sp["outs"]
    post = [v + "'" for v in allv]
    if allv:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            sp["secs"]["SYS_TRANS"].insert(rng.randint(0, len(sp["secs"]["SYS_TRANS"])), gen.rand_clause(rng, allv + post, 1, 3))
        for _ in range(rng.choice([0, 0, 1, 2])):
            sp["secs"]["SYS_LIVENESS"].insert(rng.randint(0, len(sp["secs"]["SYS_LIVENESS"])), gen.rand_clause(rng, allv + post, 1, 2))
        if rng.random() < .15 and sp["secs"]["SYS_TRANS"]:
            sp["secs"]["SYS_TRANS"].append(list(rng.choice(sp["secs"]["SYS_TRANS"])))
        if rng.random() < .15 and sp["secs"]["SYS_LIVENESS"]:
            sp["secs"]["SYS_LIVENESS"].append(list(rng.choice(sp["secs"]["SYS_LIVENESS"])))
    text = gen.render(sp, rng)
    return {"text": text, "lines": gen.lines_of(text)}


def pick(ctx, n):
    """mostly unrealizable specifications; slugs' answer only chooses among them"""
    res = []
    while len(res) < n:
        cs = [make(ctx.rng, k) for k in range(64)]
        vs = slugs.pmap(lambda c: slugs.verdict(slugs.run(ctx.exe, [ctx.write(c["text"])])), cs)
        res += [c for k, (c, v) in enumerate(zip(cs, vs)) if v == "unrealizable" and "SYS_" in c["text"] or k % 9 == 0]
    return res[:n]


def observe_all(ctx, cases):
    def prepare(tree, d, c):
        f = d + "/spec.slugsin"
        with open(f, "w", newline="") as h:
            h.write(c["text"])
        return {"tool": "findMinimalUnrealizableCore.py", "args": [f]}

    def collect(tree, d, c, rc, out, err):
        f = d + "/left_core.slugsin"
        text = open(f, errors="replace").read() if os.path.exists(f) else ""
        c.update(done=rc == 0 and text != "", core=gen.lines_of(text), observed="rc %s" % rc, rawout=text[:2000] + err[-400:])
    jy.run_all(ctx, cases, prepare, collect)


def check(ctx):
    ctx.rule = "random specifications with up to 8 guarantees, most of them unrealizable; non-trivial = something was dropped and something was kept"
    cases = pick(ctx, ctx.scale(350, 3500))
    core.run_cases(ctx, "UnrealizableCore", cases, observe_all=observe_all,
                   describe=lambda c: "findMinimalUnrealizableCore.py on\n%s\nended with %s and left\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"])
        n, m = ([sum(1 for l in x if l["raw"] and l["raw"][0] not in "#[") for x in (c["lines"], c["core"])])
        if m < n and any(l["raw"] == "[SYS_TRANS]" for l in c["core"]):
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "core": c["rawout"]})
