"""Specifications of RATSY and LTLMoP, translated to slugsin."""
import re
import core, gen, jy

PREC = {"iff": 1, "imp": 2, "xor": 3, "or": 4, "and": 5}
OPS = {"iff": ["<->", "<-->"], "imp": ["->", "->", "-->"], "xor": ["^"], "or": ["|", "||", "\\/", "+"], "and": ["&", "&&", "/\\", "*"]}
NAMES = ["a", "b", "go", "req_1", "r.x", "Zed", "level2", "x", "y", "Gate", "Xin", "bit0", "FFT", "n"]
TRICKY = ["nextroom", "TRUEish", "FALSEalarm", "next_1"]


def form(rng, now, nxt, depth, primed=False):
    """(tokens, precedence); now/nxt: atoms (token lists) for current and next values"""
    atoms = nxt if primed else now
    r = rng.random()
    if depth <= 0 or r < .18:
        if atoms and rng.random() < .94:
            return list(rng.choice(atoms)()), 7
        return [rng.choice(["TRUE", "FALSE"])], 7
    if r < .34:
        t, p = form(rng, now, nxt, depth - 1, primed)
        return [rng.choice(["!", "!", "~"])] + (t if p >= 6 else ["("] + t + [")"]), 6
    if r < .5 and nxt and not primed:
        t, p = form(rng, now, nxt, depth - 1, True)
        return [rng.choice(["X", "next", "()"])] + (t if p >= 6 and rng.random() < .7 else ["("] + t + [")"]), 6
    op = rng.choice(["and", "and", "or", "or", "imp", "imp", "iff", "xor"])
    out = []
    for i in range(rng.choice([2, 2, 2, 3])):
        t, p = form(rng, now, nxt, depth - 1, primed)
        if p < PREC[op] or p == PREC[op] and i or rng.random() < .1:
            br = rng.choice(["()", "()", "[]"])
            t = [br[0]] + t + [br[1]]
        out += ([rng.choice(OPS[op])] if out else []) + t
    return out, PREC[op]


def conjunct(rng, side, voc, bad):
    """one conjunct of the fragment (or, if bad, often not)"""
    I, O = voc
    every = I + O
    cl = rng.choice(["init", "trans", "trans", "live", "live"])
    glob, fin = rng.choice([["G"], ["[]"]]), rng.choice([["F"], ["<>"]])
    wrap = lambda t, p: t if p >= 6 and rng.random() < .8 else ["("] + t + [")"]
    if bad and rng.random() < .6:
        t, p = form(rng, every, every, 1)
        return rng.choice([["G"] + ["G"] + wrap(t, p), ["F"] + wrap(t, p), ["G", "("] + wrap(t, p) + ["&", "F"] + wrap(t, p) + [")"], ["G", "F"] + ["G"] + wrap(t, p), ["!", "G"] + wrap(t, p),
                           wrap(t, p) + [rng.choice("UW")] + wrap(t, p), ["G"] + wrap(t, p) + ["|"] + wrap(t, p), ["G", "X", "X"] + wrap(t, p), ["F", "G"] + wrap(t, p), ["("] + t,
                           t + ["&"], ["G", "F", "F"] + wrap(t, p), ["G", "("] + ["F"] + wrap(t, p) + ["->"] + wrap(t, p) + [")"], ["G", "!", "F"] + wrap(t, p)]), 5
    if cl == "init":
        t, p = form(rng, I if side == "env" else every, [], rng.choice([0, 1, 2, 2]))
        return (t, p)
    if cl == "trans":
        t, p = form(rng, every, I if side == "env" else every, rng.choice([1, 2, 2, 3]))
        return glob + wrap(t, p), 6
    t, p = form(rng, every, every if side == "env" or rng.random() < .08 else [], rng.choice([0, 1, 1, 2]))
    t = fin + wrap(t, p)
    return glob + (t if rng.random() < .6 else ["("] + t + [")"]), 6


def formula(rng, side, voc, n, bad):
    out = []
    for _ in range(n):
        t, p = conjunct(rng, side, voc, bad and rng.random() < .5)
        if p < 5 or p == 5 and out or rng.random() < .1:
            t = ["("] + t + [")"]
        out += ([rng.choice(OPS["and"])] if out else []) + t
    if out and rng.random() < .3:
        out = ["("] + out + [")"]
    return out


def wordy(t):
    return t[0].isalnum() or t[0] in "_."


def text(rng, toks, breaks):
    s = ""
    for a, b in zip(toks, toks[1:] + [None]):
        s += a
        if b is None:
            break
        if wordy(a) and wordy(b) or not wordy(a) and not wordy(b) and not (a in "()" and b in "()" and a + b != "()"):
            s += " " if rng.random() > breaks else rng.choice(["\n", "\n\t", " \n  "])
        elif rng.random() < .5:
            s += " " if rng.random() > breaks else "\n"
    return s


def make(rng, k):
    kind = "ratsy" if k % 2 else "ltlmop"
    pool = rng.sample(NAMES, 4) if rng.random() < .8 else rng.sample(NAMES, 3) + [rng.choice(TRICKY)]
    rng.shuffle(pool)
    n = rng.choice([1, 2, 2, 3, 3, 3, 4] if k % 4 else [2, 3])
    ni = rng.randint(0, n)
    ins, outs = pool[:ni], pool[ni:n]
    if kind == "ratsy":
        atom = lambda x, inp: (lambda: [x, "=", rng.choice(["1", "1", "0"])])
    else:
        atom = lambda x, inp: (lambda: [("e." if inp else "s.") + x])
    voc = [atom(x, True) for x in ins], [atom(x, False) for x in outs]
    bad = rng.random() < .12
    breaks = rng.choice([0, 0, .1, .4])
    if kind == "ratsy":
        side = {}
        secs = []
        for s in ("env", "sys"):
            side[s] = [f for f in (formula(rng, s, voc, rng.choice([1, 1, 1, 2, 3]), bad) for _ in range(rng.randint(0, 4))) if 0 < len(f) <= 60 and not f[0].startswith("[")]
            # three sections for each side; where a formula stands does not matter
            names = ["_INITIAL]", "_TRANSITIONS]", "_FAIRNESS]"]
            at = sorted(rng.randrange(3) for _ in side[s])
            for i, nm in enumerate(names):
                fs = [f for f, a in zip(side[s], at) if a == i]
                if fs or rng.random() < .8:
                    secs.append(("[" + s.upper() + nm, fs))
        def line(f):
            # a line that starts with a bracket would be the head of a section
            return re.sub(r"\s*\n\s*\[", " [", text(rng, f, breaks))
        body = "[INPUT_VARIABLES]\n" + "".join(x + ";" + rng.choice(["\n", " "]) for x in ins) + "\n\n[OUTPUT_VARIABLES]\n" + "".join(x + ";\n" for x in outs) + "\n"
        for h, fs in secs:
            body += h + "\n" + "".join((rng.choice(["", "", "# comment; G F x\n"])) + line(f) + ";\n" + rng.choice(["", "", "\n"]) for f in fs) + "\n"
        files = [body]
    else:
        side = {}
        for s in ("env", "sys"):
            f = formula(rng, s, voc, rng.randint(1, 6), bad)
            side[s] = [f if 0 < len(f) <= 120 else ["TRUE"]]
        smv = ("-- Skeleton SMV file\n\nMODULE main\n\tVAR\n\t\te : env();\n\t\ts : sys();\n\nMODULE env -- inputs\n\tVAR\n" + "".join("\t\t%s : boolean;\n" % x for x in ins)
               + "\nMODULE sys -- outputs\n\tVAR\n" + "".join("\t\t%s : boolean;\n" % x for x in outs))
        ltl = "-- LTL specification file\n\nLTLSPEC -- Assumptions\n\t" + text(rng, side["env"][0], breaks) + "\n;\n\nLTLSPEC -- Guarantees\n\t" + text(rng, side["sys"][0], breaks) + rng.choice(["\n;\n", ";\n"])
        files = [smv, ltl]
    return {"kind": kind, "ins": ins, "outs": outs, "env": side["env"], "sys": side["sys"], "files": files}


def observe_all(ctx, cases):
    def prepare(tree, d, c):
        fs = []
        for i, t in enumerate(c["files"]):
            fs.append(d + "/f%d" % i)
            with open(fs[-1], "w") as h:
                h.write(t)
        return {"tool": "translateFromRatsyFormatToSlugsFormat.py" if c["kind"] == "ratsy" else "translateFromLTLMopLTLFormatToSlugsFormat.py", "args": fs}

    def collect(tree, d, c, rc, out, err):
        c.update(rc=0 if rc == 0 else 1, lines=gen.lines_of(out), observed="%s: %s" % (c["kind"], "translated" if rc == 0 else "refused"), rawout=out[:2500] + "\n" + err[-300:])
    jy.run_all(ctx, cases, prepare, collect)


def check(ctx):
    ctx.rule = "RATSY and LTLMoP specifications over up to 4 variables, some with formulas outside of the fragment; non-trivial = translated, with a formula about steps or a recurring one"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(700, 9000))]
    core.run_cases(ctx, "ImportTranslation", cases, observe_all=observe_all,
                   describe=lambda c: "%s specification\n%s\ntranslated (exit status %s) to\n%s" % (c["kind"], "\n--- second file\n".join(c["files"]), c["rc"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"])
        if c["rc"] == 0 and any(t in ("G", "[]") for f in c["env"] + c["sys"] for t in f):
            ctx.distinct.add("|".join(c["files"]))
            ctx.sample({"files": c["files"], "translation": c["rawout"]})
