"""Levels of resilience to violated assumptions."""
import os, re, glob
import core, gen, jy, slugs

NAME = {"none": 0, "some": 1, "any": 2}


def make(rng, k):
    r = rng.random()
    nI, nO = rng.choice([(1, 1), (2, 1), (1, 2), (1, 2), (1, 2), (1, 2), (0, 2)]) if r < .95 else rng.choice([(0, 1), (1, 0), (2, 2)])
    ins, outs = gen.rand_names(rng, nI, nO)
    sp = gen.new_spec(ins, outs)
    cur, pI, pO = ins + outs, [v + "'" for v in ins], [v + "'" for v in outs]
    S = sp["secs"]
    na = rng.choice([0, 1, 1, 1, 2, 2, 2, 2, 3]) if nI + nO < 4 else 1
    for _ in range(na):
        q = rng.random()
        if q < .4 and pI:
            S["ENV_TRANS"].append(gen.lit(rng.choice(pI), rng.random() < .5))
        elif q < .7 and pI:
            S["ENV_TRANS"].append(gen.disj([gen.lit(rng.choice(pI), rng.random() < .5), gen.lit(rng.choice(cur), rng.random() < .5)]))
        else:
            S["ENV_TRANS"].append(gen.rand_clause(rng, cur + pI, 1, 3))
    if nO == 2 and pI and S["ENV_TRANS"] and rng.random() < .65:
        # a store of two bits that a disturbance empties by one; it must not run dry
        f = S["ENV_TRANS"][0]
        a, b = outs
        a2, b2 = pO
        # value 3 = both: a violated assumption lowers it, at least one step otherwise keeps or raises it
        lower = gen.conj([gen.imp([a, ] if False else gen.conj([[a], [b]]), gen.conj([[a2], ["!", b2]])),
                          gen.imp(gen.conj([[a], ["!", b]]), gen.conj([["!", a2], [b2]])),
                          gen.imp(["!", a], gen.conj([["!", a2], ["!", b2]]))])
        S["SYS_TRANS"].append(gen.imp(["!"] + f, lower))
        if rng.random() < .6:
            S["SYS_TRANS"].append(gen.imp(f, gen.imp(gen.conj([["!", a], ["!", b]]), gen.conj([["!", a2], ["!", b2]]))))
        S["SYS_TRANS"].append(gen.disj([[a2], [b2]]) if rng.random() < .6 else gen.disj([[a], [b]]))
        if rng.random() < .5:
            S["SYS_INIT"].append([a])
            S["SYS_INIT"].append([b])
        if rng.random() < .5:
            S["SYS_LIVENESS"].append(gen.rand_clause(rng, cur, 1, 2))
    else:
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            S["SYS_TRANS"].append(gen.rand_clause(rng, cur + pI + pO, 1, 3) if rng.random() < .7 else gen.rand_formula(rng, cur + pI + pO, 2))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            S["SYS_LIVENESS"].append(gen.rand_clause(rng, cur + pI + pO, 1, 2))
        if cur and rng.random() < .3:
            S["SYS_INIT"].append(gen.rand_clause(rng, cur, 1, 2))
    for _ in range(rng.choice([0, 0, 1, 2])):
        S["ENV_LIVENESS"].append(gen.rand_clause(rng, cur + pI, 1, 2))
    if ins and rng.random() < .3:
        S["ENV_INIT"].append(gen.rand_clause(rng, ins, 1, 1))
    ess = []
    if rng.random() < .25 and cur + pI:
        ess = [gen.rand_clause(rng, cur + pI, 1, 3) for _ in range(rng.choice([1, 1, 2]))]
    # the tool keeps lines as they are; comments of a line of their own
    hs = ["INPUT", "OUTPUT"]
    ls = []
    for h, vs in [("[INPUT]", ins), ("[OUTPUT]", outs)]:
        ls += [h] + vs + [""]
    order = list(S)
    rng.shuffle(order)
    for s in order:
        if S[s] or s == "ENV_TRANS" or rng.random() < .3:
            ls.append("[%s]" % s)
            body = [[" ".join(f)] for f in S[s]]
            if s == "ENV_TRANS":
                body += [["## Variable limits: %d" % i, " ".join(f)] for i, f in enumerate(ess)]
                if rng.random() < .5:
                    rng.shuffle(body)
                    S[s] = [b[0].split(" ") for b in body if len(b) == 1]
                    ess = [b[1].split(" ") for b in body if len(b) == 2]
            for b in body:
                ls += (["# a comment"] if rng.random() < .1 else []) + b
            ls.append("")
    text = "\n".join(ls) + "\n"
    plain = gen.render({"ins": ins, "outs": outs, "secs": S})
    return {"text": text, "lines": gen.lines_of(plain), "ess": ess, "write": k % 2 == 0}


def parse(out):
    lv = []
    for l in out.split("\n"):
        m = re.fullmatch(r"- (.*)k=(\d+)", l)
        if m:
            ws = m.group(1).replace(",", " ").split()
            lv.append({"m": [NAME[w] for w in ws], "k": int(m.group(2))})
    return lv


def observe_all(ctx, cases):
    def prepare(tree, d, c):
        f = d + "/spec.slugsin"
        with open(f, "w") as h:
            h.write(c["text"])
        return {"tool": "kResilientRealizabilityChecker.py", "args": [f] + (["--writeOptimalCaseSpecifications"] if c["write"] else [])}

    def collect(tree, d, c, rc, out, err):
        c.pop("unreadable", None)
        c.update(rc=-1 if rc == "timeout" else rc, nothing="absolutely unrealizable" in out, levels=[], files=[], rawout=out[:1500] + err[-500:])
        try:
            c["levels"] = parse(out)
        except KeyError as e:
            c["unreadable"] = "mark %s" % e
        if c["write"] and rc == 0 and c["levels"]:
            for l in c["levels"]:
                f = d + "/spec(%s).slugsin" % ", ".join(map(str, l["m"] + [l["k"]])) if l["m"] else d + "/spec(%d,).slugsin" % l["k"]
                if not os.path.exists(f):
                    c["unreadable"] = "no file for level %s: %s" % (l, [os.path.basename(x) for x in glob.glob(d + "/*.slugsin")])
                else:
                    t = open(f).read()
                    c["rawout"] += "\n--- " + os.path.basename(f) + "\n" + t[:1500]
                    c["files"].append(gen.lines_of(t))
    jy.run_all(ctx, cases, prepare, collect, limit=60)


def check(ctx):
    ctx.rule = "random small specifications with up to three safety assumptions (and essential ones); non-trivial = some reported level goes beyond the unchanged specification"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(120, 1500))]
    core.run_cases(ctx, "Resilience", cases, observe_all=observe_all,
                   describe=lambda c: "kResilientRealizabilityChecker.py on\n%s\nended with %s: %s" % (c["text"], c["rc"], c["rawout"]))
    for c in cases:
        ctx.count("unrealizable" if c["nothing"] else "levels")
        for l in c["levels"]:
            ctx.count("k=%d" % l["k"])
        if any(1 in l["m"] or 2 in l["m"] for l in c["levels"]):
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "levels": c["levels"]})
