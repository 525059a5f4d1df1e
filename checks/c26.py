"""Translation of structured specifications to slugsin."""
import os, subprocess, resource
import core, gen, slugs, build

CMP = ["=", "!=", "<", "<=", ">", ">="]
PREC = {"iff": 1, "imp": 2, "xor": 3, "or": 4, "and": 5}
OPS = {"iff": ["<->", "<-->"], "imp": ["->", "->", "-->"], "xor": ["^"], "or": ["|", "||", "\\/"], "and": ["&", "&&", "/\\"]}


def num(rng, ints, primed_ok, depth):
    r = rng.random()
    if depth <= 0 or r < .6:
        if ints and rng.random() < .7:
            d = rng.choice(ints)
            return [d["name"] + ("'" if primed_ok and rng.random() < .4 else "")]
        return [str(rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9]))]
    if r < .68:
        zs = [d for d in ints if d["lo"] == 0]
        w = lambda d: (d["hi"]).bit_length()
        prs = [(a, b) for a in zs for b in zs if w(a) < w(b)]
        if prs and rng.random() < .7:
            a, b = rng.choice(prs)
            return [a["name"], "LEASTSIGNIFICANTBITOVERWRITES", b["name"]]
        if zs:
            b = rng.choice(zs)
            k = rng.choice([0, 1, 2, 3])
            if k.bit_length() < w(b):
                return [str(k), "LEASTSIGNIFICANTBITOVERWRITES", b["name"] + ("'" if primed_ok and rng.random() < .3 else "")]
    a, b = num(rng, ints, primed_ok, depth - 1), num(rng, ints, primed_ok, depth - 1)
    if rng.random() < .3:
        a = ["("] + a + [")"]
    elif "LEASTSIGNIFICANTBITOVERWRITES" in a and False:
        pass
    if rng.random() < .3:
        b = ["("] + b + [")"]
    return a + ["+"] + b


def form(rng, bools, ints, primed, depth):
    """(tokens, precedence) ; primed: 0 = no next values, 1 = allowed, 2 = inside of a next operator"""
    r = rng.random()
    ints2, bools2 = ints["all"], bools["all"]
    if primed == 1 or primed == 2:
        ints2, bools2 = ints["both"], bools["both"]
    if depth <= 0 or r < .2:
        if ints2 and rng.random() < .6:
            op = rng.choice(CMP)
            return num(rng, ints2, primed == 1, 2) + [op] + num(rng, ints2, primed == 1, 1), 7
        if bools2 and rng.random() < .93:
            b = rng.choice(bools2)
            return [b + ("'" if primed == 1 and rng.random() < .4 else "")], 7
        return [rng.choice(["TRUE", "FALSE"])], 7
    if r < .35:
        t, p = form(rng, bools, ints, primed, depth - 1)
        return [rng.choice(["!", "!", "~"])] + (t if p >= 6 else ["("] + t + [")"]), 6
    if r < .45 and primed == 1:
        t, p = form(rng, bools, ints, 2, depth - 1)
        return [rng.choice(["X", "next", "()"])] + (t if p >= 6 else ["("] + t + [")"]), 6
    op = rng.choice(["and", "and", "and", "or", "or", "imp", "imp", "iff", "xor"])
    k = 2 if op == "imp" else rng.choice([2, 2, 2, 3])
    out = []
    for i in range(k):
        t, p = form(rng, bools, ints, primed, depth - 1)
        if p <= PREC[op] and not (i == 0 and p == PREC[op] and op != "imp" and rng.random() < .5) or rng.random() < .1:
            t = ["("] + t + [")"] if rng.random() < .93 else (["["] + t + ["]"] if out else ["("] + t + [")"])
        out += ([rng.choice(OPS[op])] if out else []) + t
    return out, PREC[op]


def wordy(t):
    return t[0].isalnum() or t[0] in "_.@'"


def join(rng, toks):
    s = ""
    for a, b in zip(toks, toks[1:] + [None]):
        s += a
        if b is None:
            break
        if wordy(a) and wordy(b):
            s += " "
        elif not wordy(a) and not wordy(b):
            # keep operators apart
            s += " " if not (a in "()" or b in "()") or a + b in ("()", "[]") or rng.random() < .5 else ""
        elif rng.random() < .5:
            s += " " * rng.choice([1, 1, 2])
    return s


def make(rng, k):
    pool = ["a", "b", "go", "req_1", "r.x", "cnt", "pos", "Zed", "_u", "level2", "x", "y", "n"]
    rng.shuffle(pool)
    nd = rng.randint(1, 4)
    if nd > 1 and rng.random() < .35:
        # names that contain other names
        i, j = rng.sample(range(nd), 2)
        pool[i] = rng.choice([pool[j] + "2", "x" + pool[j], "my_" + pool[j], "z" + pool[j], pool[j] + ".x", pool[j] + "_next"])
    decls, bits = [], 0
    limit = rng.choice([3, 4, 4, 5])
    other = rng.random() < .08
    for i in range(nd):
        d = {"name": pool[i], "out": rng.random() < .5, "int": rng.random() < .6, "lo": 0, "hi": 0, "bad": False}
        if d["int"]:
            d["lo"] = rng.choice([0, 0, 0, 1, 2, 5])
            if rng.random() < .03:
                d["lo"] = rng.choice([-1, -3])
            d["hi"] = d["lo"] + rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7])
        b = (d["hi"] - d["lo"]).bit_length() if d["int"] else 1
        if bits + b > limit:
            continue
        bits += b
        d["sec"] = "[OUTPUT]" if d["out"] else rng.choice(["[OBSERVABLE_INPUT]", "[UNOBSERVABLE_INPUT]", "[CONTROLLABLE_INPUT]"]) if other else "[INPUT]"
        decls.append(d)
    order = ["[INPUT]", "[OUTPUT]", "[OBSERVABLE_INPUT]", "[UNOBSERVABLE_INPUT]", "[CONTROLLABLE_INPUT]"]
    decls.sort(key=lambda d: order.index(d["sec"]))
    if other:  # inputs keep this order
        pass
    ins, outs = [d for d in decls if not d["out"]], [d for d in decls if d["out"]]
    nm = lambda ds: [d["name"] for d in ds if not d["int"]]
    iv = lambda ds: [d for d in ds if d["int"]]
    thorough = rng.random() < .2
    forms = {}
    for s, (lo, hi) in {"ENV_INIT": (0, 1), "SYS_INIT": (0, 2), "ENV_TRANS": (0, 2), "SYS_TRANS": (0, 3), "ENV_LIVENESS": (0, 1), "SYS_LIVENESS": (0, 2)}.items():
        forms[s] = []
        for _ in range(rng.randint(lo, hi)):
            cur = ins if s == "ENV_INIT" else decls
            nxt = [] if s.endswith("INIT") else ins if s == "ENV_TRANS" else decls
            # primes only on what may be primed there
            bools = {"all": nm(cur), "both": nm(nxt)}
            ints = {"all": iv(cur), "both": iv(nxt)}
            mode = 1 if nxt and rng.random() < .6 else 0
            if mode == 1 and s == "ENV_TRANS":
                # over inputs (primed or not), combined with a part over current values
                t1, p1 = form(rng, bools, ints, 1, 2)
                t2, p2 = form(rng, bools, ints, 0, 1)
                t = ["("] + t2 + [")", rng.choice(["->", "|", "&"]), "("] + t1 + [")"]
            else:
                t, _p = form(rng, bools, ints, mode, rng.choice([1, 2, 2, 3]))
            if len(t) > 45:
                continue
            forms[s].append({"tok": t, "raw": join(rng, t)})
        if rng.random() < .12:
            vs = nm(ins if s == "ENV_INIT" else decls)
            f = gen.rand_formula(rng, vs, 2) if rng.random() < .7 else gen.rand_clause(rng, vs)
            forms[s].append({"tok": f, "raw": " ".join(f)})
    # mistakes
    r = rng.random()
    bad = None
    if r < .05 and decls:
        s = rng.choice(list(forms))
        any_ = rng.choice(decls)["name"]
        t = rng.choice([[any_, "+"], ["nosuch"], ["nosuch", "=", "1"], ["1", "-", "1", "=", "0"], ["1", "*", "1", "=", "1"], ["F", "TRUE"], ["[]", "TRUE"], ["TRUE", "U", "TRUE"],
                        ["(", "TRUE"], ["TRUE", ")"], ["TRUE", "TRUE"], ["&", "TRUE"], ["X", "X", "TRUE"], ["X", any_ + "'"], ["1", "=", "TRUE"], ["3"], ["!"], ["->", "FALSE"], ["[", "TRUE", "]", "&", "TRUE"], ["[", "TRUE", "]"]])
        forms[s].append({"tok": t, "raw": " ".join(t)})
        bad = t
    extra = None
    if r > .96:
        extra = rng.choice(["bad: 3...1", "bad: x...2", "bad: 1..2", "bad'", "bad@1", "bad: 1:2", "bad: 0...2...4"])
    ls, secs = [], order[:2] if not other else order
    secs = [s for s in secs if any(d["sec"] == s for d in decls) or rng.random() < .2]
    rng.shuffle(secs)
    parts = []
    for s in secs:
        parts.append([s] + [d["name"] + (rng.choice([":", ": ", " : "]) + str(d["lo"]) + rng.choice(["...", " ... "]) + str(d["hi"]) if d["int"] else "") for d in decls if d["sec"] == s])
        if extra and len(parts) == 1:
            parts[-1].append(extra)
    used = extra is not None and parts
    fl = [s for s in forms if forms[s] or rng.random() < .3]
    parts += [["[%s]" % s] + sum(([rng.choice(["", " ", "  "]) + f["raw"]] + rng.choice([[], [], [""], ["# note"]]) for f in forms[s]), []) for s in fl]
    rng.shuffle(parts)
    for p in parts:
        ls += p + rng.choice([[], [""]])
    if r > .94 and not extra:
        k = rng.choice([i for i in range(len(ls) + 1)])
        ls.insert(k, rng.choice(["[SYS_LIVNESS]", "[OUTPUTS]", "[ENV_INIT] # x"]))
        bad = "header"
    if rng.random() < .2:
        ls.insert(0, "# a comment [INPUT]")
    dd = [dict(d) for d in decls]
    if used:
        dd.append({"name": "bad", "out": False, "int": False, "lo": 0, "hi": 0, "bad": True, "sec": ""})
    return {"decls": dd, "forms": {s: [{"tok": f["tok"], "ptok": f["raw"].split()} for f in forms[s]] for s in forms}, "badhead": bad == "header", "thorough": thorough, "text": "\n".join(ls) + "\n"}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))


def observe(ctx, c):
    f = ctx.write(c["text"], ".structuredslugs")
    a = ["python3", "-B", os.path.join(build.REPO, "tools/StructuredSlugsParser/compiler.py")] + (["--thorougly"] if c["thorough"] else []) + [f]
    try:
        r = subprocess.run(a, stdin=subprocess.DEVNULL, capture_output=True, timeout=slugs.patience(30), preexec_fn=limits)
        rc, out, err = r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        slugs.TIMEOUTS.append(1)
        rc, out, err = 0, "TIMEOUT", ""
    if "MemoryError" in err:
        rc, out = 0, "out of memory"
    return {"accepted": rc == 0, "clines": gen.lines_of(out) if rc == 0 else [], "observed": "accepted" if rc == 0 else "rejected", "rawout": out[:2500] + err[-500:]}


def check(ctx):
    ctx.rule = "random structured specifications over Boolean and integer variables, some with mistakes; non-trivial = accepted with an integer comparison"
    cases = [make(ctx.rng, k) for k in range(ctx.scale(600, 8000))]
    core.run_cases(ctx, "StructuredInput", cases, observe,
                   describe=lambda c: "compiler.py %s on\n%s\nsaid\n%s" % ("--thorougly" if c["thorough"] else "", c["text"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"])
        if c["observed"] == "accepted" and any(d["int"] for d in c["decls"]) and "$" in c["rawout"]:
            ctx.distinct.add(c["text"])
            ctx.sample({"spec": c["text"], "output": c["rawout"]})
