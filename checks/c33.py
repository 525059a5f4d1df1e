"""Stuck-at faults of structured specifications."""
import os, re
import core, gen, jy, c30

LINE = re.compile(r"Fixing the value of the (output|input) signal (\S+) (?:(changes that\.)|to\s+(.*?)\s+does not change this fact\.)")
VALUE = {"True": 1, "False": 0}


def make(rng, k):
    while True:
        c = c30.make(rng, k)
        # two signals to fix at least
        if sum(d["hi"] - d["lo"] + 1 if d["int"] else 2 for d in c["decls"] if d["out"]) <= 8 and len(c["decls"]) >= 2:
            break
    # comments outside and inside of the sections
    ls = c["text"].split("\n")
    if rng.random() < .3:
        ls.insert(rng.choice([i for i, l in enumerate(ls) if l == ""]), "# [INPUT] a comment")
    if rng.random() < .2:
        ls.insert(0, "# about this specification")
    c["text"] = "\n".join(ls)
    return c


def observe_all(ctx, cases):
    def prepare(tree, d, c):
        f = d + "/spec.structuredslugs"
        with open(f, "w") as h:
            h.write(c["text"])
        return {"tool": "analyzeStuckAtConstant.py", "args": [f]}

    def collect(tree, d, c, rc, out, err):
        c.pop("unreadable", None)
        ls = out.split("\n")
        m = re.fullmatch(r"Starting point is an? (\w+) specification", ls[0])
        c.update(done=rc == 0, start=m.group(1) if m else "?", report=[], observed="rc %s" % rc, rawout=out + err[-300:])
        for l in ls[1:]:
            if not l.strip():
                continue
            m = LINE.fullmatch(l)
            if not m:
                c["unreadable"] = "line %r" % l
                continue
            vals = [] if m.group(3) else [x for x in re.split(r"[ ,]+", m.group(4)) if x not in ("or", "")]
            c["report"].append({"kind": m.group(1), "n": m.group(2), "vals": [VALUE[v] if v in VALUE else int(v) for v in vals]})
    jy.run_all(ctx, cases, prepare, collect)


def check(ctx):
    ctx.rule = "random structured specifications of up to 4 bits; non-trivial = some value matters and some does not"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(120, 1800))]
    core.run_cases(ctx, "StuckAt", cases, observe_all=observe_all,
                   describe=lambda c: "analyzeStuckAtConstant.py on\n%s\nended with %s and said\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["start"])
        if "does not change" in c["rawout"] and ("changes that" in c["rawout"] or any(len(r["vals"]) == 1 for r in c["report"])):
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "report": c["rawout"]})
