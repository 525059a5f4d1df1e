import re, core, gen, slugs, strat
from c14 import groups_of
from c15 import fam_assume
from c18 import fam_clock
from c20 import no_at, columns, good_group

TITLE = {"Abstract countertrace:": "env", "Abstract trace:": "sys"}


def lex(out, text):
    ins, outs, both = strat.decl(text)
    pos = {v: k for k, v in enumerate(ins + outs)}
    inG, outG = [v for v in both if v in ins], [v for v in both if v in outs]
    grp = groups_of(ins + outs)
    want = [columns(inG, grp), columns(outG, grp)]
    res = {"env": {"kind": "nothing", "cols": []}, "sys": {"kind": "nothing", "cols": []}}
    ls = out.split("\n")
    if ls.pop() != "":
        raise strat.Malformed("end")
    while ls:
        l = ls.pop(0)
        m = re.match(r"There is no strategy for the (environment|system)\b", l)
        if m:
            res[m.group(1)[:3]]["kind"] = "no start"
            if ls.pop(0) != "":
                raise strat.Malformed("blank line")
            continue
        if l not in TITLE:
            raise strat.Malformed("line %r" % l)
        k = TITLE[l]
        table = []
        while ls and ls[0] != "":
            table.append(ls.pop(0))
        ls.pop(0)
        # two header lines, then the two blocks
        blocks, cur = [], None
        for t in table:
            if set(t) <= set("+-"):
                if cur is not None:
                    blocks.append(cur)
                cur = []
            else:
                w = t.split("|")
                if w[0] != "" or w[-1] != "" or w[2] != "" or cur is None:
                    raise strat.Malformed("row %r" % t)
                cur.append([w[1].strip()] + [x.strip() for x in w[3:-1]])
        if len(blocks) != 3 or len(blocks[0]) != 1 or blocks[0][0] != ["Atomic prop./Round"] + [str(i) for i in range(len(blocks[0][0]) - 1)]:
            raise strat.Malformed("table %r" % table[:3])
        n = len(blocks[0][0]) - 1
        cols = [{"void": None, "cells": [2] * len(pos)} for _ in range(n)]
        for b, names in zip(blocks[1:], want):
            if [r[0] for r in b] != names:
                raise strat.Malformed("rows %r" % b)
            for r in b:
                if len(r) != n + 1:
                    raise strat.Malformed("row %r" % r)
                for i, x in enumerate(r[1:]):
                    if x == "X":
                        if cols[i]["void"] is False:
                            raise strat.Malformed("void column")
                        cols[i]["void"] = True
                        continue
                    if cols[i]["void"] is True:
                        raise strat.Malformed("void column")
                    cols[i]["void"] = False
                    if r[0] in pos:
                        if x not in "01*":
                            raise strat.Malformed("cell %r" % x)
                        cols[i]["cells"][pos[r[0]]] = 2 if x == "*" else int(x)
                    else:
                        g = grp[r[0]]
                        for bit, kk in g["bits"].items():
                            cols[i]["cells"][kk] = 3 if x == "*" else ((int(x) - g["min"]) >> bit) & 1
                        if x != "*" and not 0 <= int(x) - g["min"] < 1 << len(g["bits"]):
                            raise strat.Malformed("value %r" % x)
        for cl in cols:
            cl["void"] = bool(cl["void"])
        res[k] = {"kind": "trace", "cols": cols}
    return res


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--computeAbstractWinningTrace", f])
    res = {"rawout": r["out"] + r["err"][-300:], "env": {}, "sys": {}}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res.update(lex(r["out"], c["text"]))
            res["observed"] = "done"
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def check(ctx):
    ctx.rule = "deadlocking counters, encoded numbers and random specifications; non-trivial = a trace of at least two rounds"
    cases = []
    for k in range(ctx.scale(1200, 14000)):
        r = k % 4
        sp = fam_clock(ctx.rng) if r < 2 else good_group(ctx.rng) if k % 8 == 2 else fam_assume(ctx.rng) if k % 8 == 6 else gen.rand_spec(ctx.rng, max_total=4)
        sp = no_at(sp) if k % 8 != 2 else sp
        if not sp["ins"] and not sp["outs"]:
            continue
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text)})
    core.run_cases(ctx, "AbstractTrace", cases, observe,
                   describe=lambda c: "slugs --computeAbstractWinningTrace on\n%s\nsaid %s\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        if c["observed"] != "done":
            ctx.count(c["observed"].split(" ")[0])
            continue
        for w in ("env", "sys"):
            t = c[w]
            ctx.count("%s_%s%s" % (w, t["kind"].replace(" ", "_"), min(len(t["cols"]) - 1, 5) if t["cols"] else ""))
            if len(t["cols"]) > 2:
                ctx.distinct.add(c["text"])
                ctx.sample({"spec": c["text"], "trace": c["rawout"][:1200]})
