"""Safety specifications translated to and-inverter graphs."""
import re
import core, gen, jy


def make(rng, k):
    sp = gen.rand_spec(rng, max_total=4 if k % 3 == 0 else 3)
    if rng.random() < .93:
        for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
            sp["secs"][s] = []
    if rng.random() < .12:
        s = rng.choice(["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS"])
        sp["secs"][s].append(gen.long_buffer(rng, gen.allowed_names(sp, s)))
    # the tool separates tokens by single blanks
    text = "\n".join(l if l.lstrip().startswith("#") else re.sub(r"[ \t]+", " ", l) for l in gen.render(sp, rng).split("\n"))
    return {"text": text, "lines": gen.lines_of(text)}


def parse(out):
    ls = out.split("\n")
    h = ls[0].split(" ")
    if len(h) != 6 or h[0] != "aag":
        raise ValueError("header %r" % ls[0])
    M, I, L, O, A = map(int, h[1:])
    body = ls[1:1 + I + L + O + A]
    num = lambda l, n: [int(x) for x in l.split(" ")] if re.fullmatch(r"\d+( \d+){%d}" % (n - 1), l) else bad(l)
    ins = [num(l, 1)[0] for l in body[:I]]
    lat = [num(l, 2) for l in body[I:I + L]]
    outs = [num(l, 1)[0] for l in body[I + L:I + L + O]]
    ands = [num(l, 3) for l in body[I + L + O:]]
    names = {}
    k = 1 + I + L + O + A
    while k < len(ls) and ls[k] not in ("c", ""):
        m = re.fullmatch(r"([ilo])(\d+) (.*)", ls[k])
        if not m or (m.group(1), int(m.group(2))) in names:
            bad(ls[k])
        names[(m.group(1), int(m.group(2)))] = m.group(3)
        k += 1
    return {"maxvar": M, "counts": [I, L, O, A], "ins": ins, "latches": [{"lit": a, "nxt": b} for a, b in lat], "outs": outs,
            "ands": [{"lhs": a, "a": b, "b": d} for a, b, d in ands], "names": [names.get(("i", i), "") for i in range(I)], "lnames": [names.get(("l", i), "") for i in range(L)]}


def bad(l):
    raise ValueError("line %r" % l)


NONE = {"maxvar": 0, "counts": [0, 0, 0, 0], "ins": [], "latches": [], "outs": [], "ands": [], "names": [], "lnames": []}


def observe_all(ctx, cases):
    def prepare(tree, d, c):
        f = d + "/spec.slugsin"
        with open(f, "w", newline="") as h:
            h.write(c["text"])
        return {"tool": "translateSafetySlugsSpecToSyntCompAIGFormat.py", "args": [f]}

    def collect(tree, d, c, rc, out, err):
        c.pop("unreadable", None)
        c.update(NONE, refused=rc != 0, rawout=out[:2500] + err[-400:])
        if rc == "timeout":
            c["unreadable"] = "the tool does not end"
        elif rc == 0:
            try:
                c.update(parse(out))
            except (ValueError, IndexError) as e:
                c["unreadable"] = "no aag file: %s" % e
    jy.run_all(ctx, cases, prepare, collect)


def check(ctx):
    ctx.rule = "random specifications without liveness parts (and some with); non-trivial = a circuit with at least 10 gates"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(900, 9000))]
    core.run_cases(ctx, "AigTranslation", cases, observe_all=observe_all,
                   describe=lambda c: "translateSafetySlugsSpecToSyntCompAIGFormat.py on\n%s\nsaid\n%s" % (c["text"], c["rawout"]))
    for c in cases:
        ctx.count("refused" if c["refused"] else "translated")
        if len(c["ands"]) >= 10:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "aag": c["rawout"]})
