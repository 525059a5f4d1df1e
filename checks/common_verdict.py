import gen, slugs


def verdict_case(sp, rng, robotics=False, extra=(), text=None):
    text = gen.render(sp, rng) if text is None else text
    return {"text": text, "lines": gen.lines_of(text), "robotics": robotics, "extra": list(extra)}


def observe_verdict(ctx, c):
    f = ctx.write(c.get("runtext", c["text"]))
    a = list(c["extra"]) + (["--sysInitRoboticsSemantics"] if c["robotics"] else [])
    r = slugs.run(ctx.exe, a + [f])
    v = slugs.verdict(r)
    if r["out"]:
        v = "anomalous stdout"
    return {"observed": v, "args": a}


def describe_verdict(c):
    return "slugs %s on\n%s\nsaid %s" % (" ".join(c["args"]), c.get("runtext", c["text"])[:1500], c["observed"])
