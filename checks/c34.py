"""Searches over the parameters of a specification."""
import os, re, itertools
import core, jy


def make(rng, k):
    multi = k % 2 == 1
    while True:
        dims = []
        for _ in range(rng.choice([1, 2, 2, 3]) if multi else 1):
            lo = rng.randint(0, 6) if multi else rng.randint(-20, 20)
            dims.append({"lo": lo, "hi": lo + (rng.choice([0, 1, 2, 3, 4, 6]) if multi else rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 30, 31, 100])), "up": rng.random() < .5})
        if k % 10 == 0:
            dims[0]["hi"] = dims[0]["lo"] + rng.choice([63, 64, 100, 127, 190])
        pts = list(itertools.product(*[range(d["lo"], d["hi"] + 1) for d in dims]))
        if len(pts) <= (36 if multi else 200):
            break
    below = lambda t, u: all(a <= b if d["up"] else a >= b for a, b, d in zip(t, u, dims))
    seeds = rng.sample(pts, min(len(pts), rng.choice([0, 1, 1, 2, 3, 4]) if multi else rng.choice([0, 1] if k % 10 == 0 else [0, 1, 1, 1, 1, 1])))
    real = [t for t in pts if any(below(s, t) for s in seeds)]
    broken = rng.sample(pts, rng.randint(1, min(3, len(pts)))) if rng.random() < .12 else []
    return {"kind": "multi" if multi else "bin", "dims": dims, "real": [list(t) for t in real], "broken": [list(t) for t in broken],
            "how": rng.choice(["exit 3", "true", "echo 'RESULT: Specification is realizable.'; echo 'RESULT: Specification is unrealizable.'", "echo 'RESULT: Specification is realizable.'; exit 1", "kill -9 $$"]),
            "noise": rng.random() < .5, "err": rng.random() < .5}


def script(c, d):
    yes, no = ["%sRESULT: Specification is %srealizable.%s" % (("  ", x, "  ") if c["noise"] else ("", x, "")) for x in ("", "un")]
    cases = {}
    for t in itertools.product(*[range(x["lo"], x["hi"] + 1) for x in c["dims"]]):
        t = list(t)
        cases[" ".join(map(str, t))] = c["how"] if t in c["broken"] else "echo '%s'%s" % (yes if t in c["real"] else no, " >&2" if c["err"] else "")
    s = ["#!/bin/sh", 'echo "$*" >> %s/calls' % d]
    if c["noise"]:
        s.append("echo 'slugs: SmalL bUt complete Gr(1) Synthesis tool (see the documentation for an author list).'")
    s.append('case "$*" in')
    s += ["'%s') %s ;;" % x for x in cases.items()] + ["esac"]
    return "\n".join(s) + "\n"


def observe_all(ctx, cases):
    def prepare(tree, d, c):
        f = d + "/eval.sh"
        with open(f, "w") as h:
            h.write(script(c, d))
        if c["kind"] == "bin":
            x = c["dims"][0]
            return {"tool": "binaryRealizabilitySearch.py", "args": ["sh " + f, x["lo"], x["hi"], "MONOTONE" if x["up"] else "ANTITONE"]}
        return {"tool": "multiDimensionalRealizabilitySearch.py", "args": ["sh " + f] + sum([[x["lo"], x["hi"], "MONOTONE" if x["up"] else "antitone"] for x in c["dims"]], [])}

    def collect(tree, d, c, rc, out, err):
        c.pop("unreadable", None)
        calls = [[int(x) for x in l.split()] for l in open(d + "/calls").read().split("\n") if l] if os.path.exists(d + "/calls") else []
        c.update(rc=rc if rc != "timeout" else -1, observed="timeout" if rc == "timeout" else "ended", calls=calls[:2000], answers=[], reported=False, none=False, tests=[], rawout=out[-1500:] + err[-600:])
        if c["kind"] == "bin":
            m = re.search(r"^The (minimum|maximum) value for realizability is (-?\d+)$", out, re.M)
            if m and (m.group(1) == "minimum") != c["dims"][0]["up"]:
                c["unreadable"] = m.group(0)
            c["none"] = "Error: The specification seems to be totally unrealizable!" in out
            c["reported"] = bool(m) or c["none"]
            c["answers"] = [[int(m.group(2))]] if m else []
            c["tests"] = [{"v": int(v), "r": s == "+"} for v, s in re.findall(r"(-?\d+)([+-])(?!\d)", out)]
        else:
            m = re.search(r"^Pareto front:\s+(\[.*\])$", out, re.M)
            c["reported"] = bool(m)
            if m:
                c["answers"] = [list(t) for t in eval(m.group(1), {"__builtins__": {}})]
    jy.run_all(ctx, cases, prepare, collect, limit=25)


def check(ctx):
    ctx.rule = "random monotone/antitone realizability functions of one to three parameters; non-trivial = some choices are realizable and some are not"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(250, 3000))]
    core.run_cases(ctx, "ParameterSearch", cases, observe_all=observe_all,
                   describe=lambda c: "%s search over %s, realizable at %s, script failing at %s (%s): calls %s, said\n%s" % (c["kind"], c["dims"], c["real"][:60], c["broken"], c["how"], c["calls"][:40], c["rawout"]))
    for c in cases:
        ctx.count(c["kind"])
        if c["answers"] and len(c["real"]) > 1:
            ctx.distinct.add(str((c["dims"], c["real"])))
            ctx.sample({"dims": c["dims"], "calls": c["calls"], "answers": c["answers"]})
