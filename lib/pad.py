"""Embedding a small game into a large one without changing who wins.  The
noise component has its own variables, no assumptions and a total transition
relation (see spec/Composition.tla for the argument, checked by TLC)."""
import gen
from gen import conj, disj, lit, iff, imp


def fresh(sp, base):
    used = set(sp["ins"]) | set(sp["outs"])
    n = base
    while n in used:
        n += "_"
    return n


def add_equality(sp, rng, k, tie_inputs=0):
    """2k outputs a_i, b_i with a_i' = b_i' and the bad order a_1..a_k b_1..b_k
    (2^k BDD nodes until the variables are reordered)."""
    pre = fresh(sp, "n")
    a = ["%sa%d" % (pre, i) for i in range(k)]
    b = ["%sb%d" % (pre, i) for i in range(k)]
    for i in range(k):
        sp["secs"]["SYS_TRANS"].append(iff([a[i] + "'"], [b[i] + "'"]))
    sp["outs"] = a + sp["outs"] + b if rng.random() < .5 else sp["outs"] + a + b


def add_echo(sp, rng, k):
    """k inputs u_i and outputs v_i with v_i' = u_i' (a big bad-order relation
    between inputs and outputs)."""
    pre = fresh(sp, "e")
    u = ["%su%d" % (pre, i) for i in range(k)]
    v = ["%sv%d" % (pre, i) for i in range(k)]
    for i in range(k):
        sp["secs"]["SYS_TRANS"].append(iff([v[i] + "'"], [u[i] + "'"]))
    sp["ins"] = u + sp["ins"] if rng.random() < .5 else sp["ins"] + u
    sp["outs"] = sp["outs"] + v


def add_sum(sp, rng, k):
    """x + y = z on k-bit numbers, all outputs."""
    pre = fresh(sp, "s")
    x = ["%sx%d'" % (pre, i) for i in range(k)]
    y = ["%sy%d'" % (pre, i) for i in range(k)]
    z = ["%sz%d'" % (pre, i) for i in range(k)]
    f = ["$", str(2 * k + 1)]
    # buffer: carry_0, sum_ok_0, ...
    f += ["0"]
    m = 1
    for i in range(k):
        c = ["?", str(m - 1)] if i else ["?", "0"]
        # element: z_i = x_i ^ y_i ^ c  (and all previous ok)
        ok = ["!", "^", z[i], "^", x[i], "^", y[i]] + c
        f += ok if i == 0 else ["&", "?", str(m - 2)] + ok
        f += ["|", "&", x[i], y[i], "&"] + c + ["|", x[i], y[i]] if i < k - 1 else ["?", str(m)]
        m += 2
    sp["secs"]["SYS_TRANS"].append(f)
    names = [n[:-1] for n in x + y + z]
    sp["outs"] = sp["outs"] + names


def pad(sp, rng, big):
    q = {"ins": list(sp["ins"]), "outs": list(sp["outs"]), "secs": {s: [list(f) for f in fs] for s, fs in sp["secs"].items()}}
    r = rng.random()
    if r < .4:
        add_equality(q, rng, rng.randint(9, 12) if big else rng.randint(2, 5))
    elif r < .7:
        add_echo(q, rng, rng.randint(9, 11) if big else rng.randint(2, 5))
    else:
        add_sum(q, rng, rng.randint(6, 9) if big else rng.randint(2, 4))
    return q
