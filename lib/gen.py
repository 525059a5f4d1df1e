"""Generation of slugsin specifications.  A spec is a dict
   ins, outs : lists of names
   secs      : dict section -> list of formulas (formula = list of tokens)
The text layout (order of sections, comments, blanks, ...) is chosen by render().
"""
import random

SECS = ["ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"]


def new_spec(ins, outs):
    return {"ins": list(ins), "outs": list(outs), "secs": {s: [] for s in SECS}}


def allowed_names(sp, sec):
    i, o = sp["ins"], sp["outs"]
    if sec == "ENV_INIT":
        return i
    if sec == "SYS_INIT":
        return i + o
    if sec == "ENV_TRANS":
        return i + o + [v + "'" for v in i]
    return i + o + [v + "'" for v in i] + [v + "'" for v in o]


# ---------- formula helpers ----------
def _tree(op, unit, fs):
    if not fs:
        return [unit]
    if len(fs) > 6:  # balanced, so that the TLA+ evaluation does not recurse deeply
        k = len(fs) // 2
        return [op] + _tree(op, unit, fs[:k]) + _tree(op, unit, fs[k:])
    r = list(fs[-1])
    for f in reversed(fs[:-1]):
        r = [op] + list(f) + r
    return r


def conj(fs):
    return _tree("&", "1", fs)


def disj(fs):
    return _tree("|", "0", fs)


def lit(v, b):
    return [v] if b else ["!", v]


def NOT(f):
    return ["!"] + list(f)


def imp(a, b):
    return ["|", "!"] + list(a) + list(b)


def iff(a, b):
    return ["!", "^"] + list(a) + list(b)


def cube(names, value):
    return conj([lit(v, (value >> k) & 1) for k, v in enumerate(names)])


def rand_formula(rng, names, depth, mem=0, memory_ok=True):
    """A random prefix formula.  mem = number of already stored elements of the
    innermost open buffer."""
    r = rng.random()
    if depth <= 0 or r < 0.12:
        choices = []
        if names:
            choices += ["v"] * 8
        choices += ["c"]
        if mem > 0:
            choices += ["m"] * 6
        k = rng.choice(choices)
        if k == "v":
            return [rng.choice(names)]
        if k == "c":
            return [rng.choice(["0", "1"])]
        return ["?", str(rng.randrange(mem))]
    if r < 0.27:
        return ["!"] + rand_formula(rng, names, depth - 1, mem, memory_ok)
    if memory_ok and r < 0.37:
        n = rng.randint(1, 4)
        out = ["$", str(n)]
        for i in range(n):
            out += rand_formula(rng, names, depth - 1 if i == n - 1 else depth - 2, i, memory_ok)
        return out
    op = rng.choice(["&", "&", "|", "|", "^"])
    return [op] + rand_formula(rng, names, depth - 1, mem, memory_ok) + rand_formula(rng, names, depth - 1, mem, memory_ok)


def long_buffer(rng, names):
    """a buffer of more than ten elements, the later ones built from earlier ones (as compiled arithmetic is)"""
    n = rng.randint(11, 14)
    out = ["$", str(n)]
    for i in range(n):
        m = lambda: ["?", str(rng.randrange(max(0, i - 6) if rng.random() < .6 else 0, i))] if i and rng.random() < .75 else lit(rng.choice(names), rng.random() < .5) if names else ["1"]
        out += [rng.choice(["^", "^", "&", "|"])] + m() + m() if i >= 2 else m()
    return out


def rand_clause(rng, names, lo=1, hi=3):
    if not names:
        return [rng.choice(["1", "1", "1", "0"])]
    k = min(rng.randint(lo, hi), len(names))
    return disj([lit(v, rng.random() < 0.5) for v in rng.sample(names, k)])


def shape(rng, max_in=2, max_out=2, max_total=4, min_total=0):
    while True:
        a, b = rng.randint(0, max_in), rng.randint(0, max_out)
        if min_total <= a + b <= max_total:
            return a, b


NAMEPOOL = ["a", "b", "x", "y", "r1", "r2", "go", "stop", "c_0", "s@0", "S.1", "v:w", "A", "B", "ab", "aa", "p", "q", "in", "out", "Zz9"]


def names(rng, k, used):
    out = []
    while len(out) < k:
        n = rng.choice(NAMEPOOL)
        if n not in used:
            used.add(n)
            out.append(n)
    return out


def rand_names(rng, nI, nO):
    used = set()
    return names(rng, nI, used), names(rng, nO, used)


# ---------- spec families ----------
def fam_clausal(rng, **kw):
    nI, nO = shape(rng, **kw)
    sp = new_spec(*rand_names(rng, nI, nO))
    cnt = {"ENV_INIT": (0, 1), "SYS_INIT": (0, 1), "ENV_TRANS": (0, 3), "SYS_TRANS": (0, 4),
           "ENV_LIVENESS": (0, 3), "SYS_LIVENESS": (0, 3)}
    for s in SECS:
        nm = allowed_names(sp, s)
        for _ in range(rng.randint(*cnt[s])):
            if s.endswith("LIVENESS"):
                f = rand_clause(rng, nm, 1, 2)
                if rng.random() < 0.4:
                    f = conj([f, rand_clause(rng, nm, 1, 2)])
            elif s.endswith("INIT"):
                f = rand_clause(rng, nm, 1, 2)
            else:
                f = rand_clause(rng, nm, 2, 4)
            sp["secs"][s].append(f)
    return sp


def fam_formula(rng, **kw):
    nI, nO = shape(rng, **kw)
    sp = new_spec(*rand_names(rng, nI, nO))
    for s in SECS:
        nm = allowed_names(sp, s)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3] if s.endswith("LIVENESS") else [0, 1, 1, 2] if s.endswith("TRANS") else [0, 0, 1])):
            sp["secs"][s].append(rand_formula(rng, nm, rng.randint(1, 5)))
    return sp


def table_formula(names, true_set):
    return disj([cube(names, v) for v in sorted(true_set)])


def fam_graph(rng, max_in=2, max_out=3, max_total=4, min_total=2, sparse=None):
    """An explicitly given sparse game graph: for every position a few allowed
    inputs, for every (position, input) a few allowed outputs.  Gives long
    attractors and many fixpoint layers."""
    while True:
        nI, nO = shape(rng, max_in, max_out, max_total, min_total)
        if nO >= 1:
            break
    sp = new_spec(*rand_names(rng, nI, nO))
    i, o = sp["ins"], sp["outs"]
    pre = i + o
    postI = [v + "'" for v in i]
    postO = [v + "'" for v in o]
    N = 1 << (nI + nO)
    env_free = rng.random() < 0.4
    dens_env = rng.choice([0.35, 0.6, 0.85])
    kmax = sparse or rng.choice([1, 2, 2, 3])
    parts_e, parts_s = [], []
    ignore_in = rng.random() < 0.3      # transitions independent of the pre-inputs
    statenames = o if ignore_in else pre
    M = 1 << len(statenames)
    for p in range(M):
        xs = [x for x in range(1 << nI) if env_free or rng.random() < dens_env]
        if not xs and rng.random() < 0.9:
            xs = [rng.randrange(1 << nI)]
        parts_e.append(conj([cube(statenames, p), disj([cube(postI, x) for x in xs])]))
        here = []
        for x in range(1 << nI):
            k = rng.randint(0 if rng.random() < 0.08 else 1, kmax)
            ys = set(rng.randrange(1 << nO) for _ in range(k))
            here.append(conj([cube(postI, x), disj([cube(postO, y) for y in sorted(ys)])]) if nI else disj([cube(postO, y) for y in sorted(ys)]))
        parts_s.append(conj([cube(statenames, p), disj(here)]))
    if not env_free:
        sp["secs"]["ENV_TRANS"].append(disj(parts_e))
    sp["secs"]["SYS_TRANS"].append(disj(parts_s))
    allv = pre + postI + postO
    for s in ("ENV_LIVENESS", "SYS_LIVENESS"):
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            r = rng.random()
            if r < 0.5:
                f = cube(o, rng.randrange(1 << nO)) if nO and rng.random() < .7 else rand_clause(rng, pre, 1, 2)
            elif r < 0.75:
                f = conj([lit(v, rng.random() < .5) for v in rng.sample(allv, min(len(allv), rng.randint(1, 3)))])
            else:
                f = rand_clause(rng, allv, 1, 3)
            sp["secs"][s].append(f)
    if nI and rng.random() < .4:
        sp["secs"]["ENV_INIT"].append(cube(i, rng.randrange(1 << nI)))
    if rng.random() < .7:
        sp["secs"]["SYS_INIT"].append(cube(o, rng.randrange(1 << nO)) if rng.random() < .6 else rand_clause(rng, pre, 1, 2))
    return sp


def fam_template(rng, **kw):
    """Small versions of the shapes people write: arbiters, counters, robots on
    a line, request/grant, lifts."""
    k = rng.choice(["arbiter", "counter", "line", "reqgrant", "toggle", "ring"])
    if k == "arbiter":
        n = rng.choice([1, 2])
        ins = ["r%d" % j for j in range(n)]
        outs = ["g%d" % j for j in range(n)]
        sp = new_spec(ins, outs)
        for j in range(n):
            sp["secs"]["SYS_LIVENESS"].append(iff([ins[j]], [outs[j]]) if rng.random() < .5 else ["|", "!", ins[j], outs[j]])
            if rng.random() < .7:
                sp["secs"]["ENV_TRANS"].append(imp(["^", ins[j], outs[j]], iff([ins[j]], [ins[j] + "'"])))
            if rng.random() < .5:
                sp["secs"]["SYS_TRANS"].append(imp(iff([ins[j]], [outs[j]]), iff([outs[j]], [outs[j] + "'"])))
            if rng.random() < .4:
                sp["secs"]["ENV_LIVENESS"].append(["!", "&", ins[j], outs[j]])
        if n == 2 and rng.random() < .9:
            sp["secs"]["SYS_TRANS"].append(["!", "&", "g0'", "g1'"])
        if rng.random() < .5:
            sp["secs"]["ENV_INIT"] += [["!", r] for r in ins]
        if rng.random() < .7:
            sp["secs"]["SYS_INIT"] += [["!", g] for g in outs]
        return sp
    if k == "counter":
        nb = rng.choice([2, 3])
        outs = ["c%d" % j for j in range(nb)]
        ins = ["tick"]
        sp = new_spec(ins, outs)
        M = 1 << nb
        parts = []
        post = [o + "'" for o in outs]
        sat = rng.random() < .3
        for v in range(M):
            nv = min(v + 1, M - 1) if sat else (v + 1) % M
            parts.append(conj([cube(outs, v), ["tick'"], cube(post, nv)]))
            parts.append(conj([cube(outs, v), ["!", "tick'"], cube(post, v)]))
            if rng.random() < .3:
                parts.append(conj([cube(outs, v), ["!", "tick'"], cube(post, rng.randrange(M))]))
        sp["secs"]["SYS_TRANS"].append(disj(parts))
        if rng.random() < .8:
            sp["secs"]["ENV_LIVENESS"].append(["tick'"] if rng.random() < .5 else ["tick"])
        for _ in range(rng.choice([1, 2])):
            sp["secs"]["SYS_LIVENESS"].append(cube(outs, rng.randrange(M)))
        if rng.random() < .8:
            sp["secs"]["SYS_INIT"].append(cube(outs, rng.randrange(M)))
        return sp
    if k in ("line", "ring"):
        nb = 2 if rng.random() < .5 else 3
        outs = ["loc%d" % j for j in range(nb)]
        ins = ["blocked"]
        sp = new_spec(ins, outs)
        M = 1 << nb
        post = [o + "'" for o in outs]
        bl = rng.randrange(M)
        parts = []
        for v in range(M):
            nx = {v, (v + 1) % M, (v - 1) % M} if k == "ring" else {v, min(v + 1, M - 1), max(v - 1, 0)}
            for w in nx:
                parts.append(conj([cube(outs, v), cube(post, w)]))
        sp["secs"]["SYS_TRANS"].append(disj(parts))
        sp["secs"]["SYS_TRANS"].append(imp(["blocked'"], NOT(cube(post, bl))))
        if rng.random() < .6:
            sp["secs"]["ENV_LIVENESS"].append(["!", "blocked"])
        if rng.random() < .6:
            sp["secs"]["ENV_TRANS"].append(imp(cube(outs, bl), ["!", "blocked'"]))
        for _ in range(rng.choice([1, 2, 3])):
            sp["secs"]["SYS_LIVENESS"].append(cube(outs, rng.randrange(M)))
        if rng.random() < .8:
            sp["secs"]["SYS_INIT"].append(cube(outs, rng.randrange(M)))
        return sp
    if k == "reqgrant":
        sp = new_spec(["req", "cancel"], ["pend", "grant"])
        sp["secs"]["SYS_TRANS"].append(iff(["pend'"], ["|", "req'", "&", "pend", "!", "grant"]))
        if rng.random() < .5:
            sp["secs"]["SYS_TRANS"].append(["!", "&", "cancel'", "grant'"])
        if rng.random() < .5:
            sp["secs"]["SYS_TRANS"].append(imp(["grant"], ["!", "grant'"]))
        if rng.random() < .7:
            sp["secs"]["ENV_LIVENESS"].append(["!", "cancel"] if rng.random() < .6 else ["!", "cancel'"])
        sp["secs"]["SYS_LIVENESS"].append(["|", "!", "pend", "grant"])
        if rng.random() < .5:
            sp["secs"]["SYS_LIVENESS"].append(["!", "grant"])
        return sp
    sp = new_spec(["i"], ["o"])
    if rng.random() < .5:
        sp["secs"]["SYS_TRANS"].append(["|", "^", "o", "o'", "i'"])
    if rng.random() < .5:
        sp["secs"]["ENV_TRANS"].append(["|", "^", "i", "i'", "o"])
    sp["secs"]["SYS_LIVENESS"].append(rng.choice([["&", "o", "!", "i"], ["&", "o'", "i"], ["^", "o", "o'"]]))
    if rng.random() < .6:
        sp["secs"]["ENV_LIVENESS"].append(rng.choice([["i"], ["!", "i'"], ["^", "i", "o"]]))
    return sp


FAMS = [(fam_clausal, 3), (fam_formula, 2), (fam_graph, 5), (fam_template, 2)]


def rand_spec(rng, fams=None, **kw):
    fams = fams or FAMS
    tot = sum(w for _, w in fams)
    r = rng.random() * tot
    for f, w in fams:
        r -= w
        if r <= 0:
            return f(rng, **kw)
    return fams[-1][0](rng, **kw)


# ---------- rendering ----------
def render(sp, rng=None):
    """Text of the specification; with rng, in a random but equivalent layout."""
    if rng is None or rng.random() < 0.4:
        out = ["[INPUT]"] + sp["ins"] + ["", "[OUTPUT]"] + sp["outs"] + [""]
        for s in SECS:
            if sp["secs"][s]:
                out += ["[" + s + "]"] + [" ".join(f) for f in sp["secs"][s]] + [""]
        return "\n".join(out) + "\n"
    out = []

    def noise():
        r = rng.random()
        if r < .15:
            out.append("")
        elif r < .25:
            out.append("# " + rng.choice(["comment", "[INPUT]", "& a b", "[BAD]"]))
        elif r < .3:
            out.append("   \t ")

    def line(tokens):
        sep = rng.choice([" ", " ", "  ", "\t"])
        s = sep.join(tokens)
        out.append(rng.choice(["", "", " ", "\t"]) + s + rng.choice(["", "", " ", "  "]) + ("\r" if rng.random() < .05 else ""))

    # variable sections, possibly split and interleaved
    ins, outs = list(sp["ins"]), list(sp["outs"])
    order = rng.choice(["io", "oi", "mix"])
    blocks = []
    if order == "io":
        blocks = [("INPUT", ins), ("OUTPUT", outs)]
    elif order == "oi":
        blocks = [("OUTPUT", outs), ("INPUT", ins)]
    else:
        k = rng.randint(0, len(ins))
        l = rng.randint(0, len(outs))
        blocks = [("INPUT", ins[:k]), ("OUTPUT", outs[:l]), ("INPUT", ins[k:]), ("OUTPUT", outs[l:])]
    for nm, vs in blocks:
        if not vs and rng.random() < .5:
            continue
        out.append("[" + nm + "]")
        noise()
        for v in vs:
            line([v])
            noise()
    secs = list(SECS)
    rng.shuffle(secs)
    todo = []
    for s in secs:
        fs = list(sp["secs"][s])
        if len(fs) > 1 and rng.random() < .3:
            k = rng.randint(1, len(fs) - 1)
            todo.append((s, fs[:k]))
            todo.append((s, fs[k:]))
        elif fs or rng.random() < .2:
            todo.append((s, fs))
    if rng.random() < .4:
        # move second parts to the end, keeping their relative order
        seen, a, b = set(), [], []
        for t in todo:
            (b if t[0] in seen else a).append(t)
            seen.add(t[0])
        todo = a + b
    for s, fs in todo:
        out.append("[" + s + "]")
        noise()
        for f in fs:
            line(f)
            noise()
    return "\n".join(out) + ("\n" if rng.random() < .8 else "")


WS = " \t\n\v\f\r"


def lines_of(text):
    """The reader's view: trimmed lines and their tokens (pure lexing)."""
    res = []
    for l in text.split("\n"):
        t = l.strip(WS)
        res.append({"raw": t, "tok": t.split()})
    while res and res[-1]["raw"] == "":
        res.pop()
    return res


def key(sp):
    return repr((sp["ins"], sp["outs"], sorted(sp["secs"].items())))
