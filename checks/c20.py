import re, core, gen, slugs, strat
from c14 import groups_of, grouped_spec
from c15 import fam_assume, fam_walk
from c18 import fam_clock

NONE = "There is no position that is winning for the system and that satisfies both the initialization assumptions and the initialization guarantees."


def no_at(sp):
    """the plain names of the pool must not look like parts of encoded numbers"""
    r = lambda v: v.replace("s@0", "s0")
    return {"ins": [r(v) for v in sp["ins"]], "outs": [r(v) for v in sp["outs"]], "secs": {s: [[r(t) for t in f] for f in fs] for s, fs in sp["secs"].items()}}


def columns(names, grp):
    """cells of one side: plain variables first, then encoded numbers"""
    return [v for v in names if "@" not in v] + [v.split("@")[0] for v in names if "@0." in v]


def lex(out, text):
    ins, outs, both = strat.decl(text)
    pos = {v: k for k, v in enumerate(ins + outs)}
    inG, outG = [v for v in both if v in ins], [v for v in both if v in outs]
    grp = groups_of(ins + outs)
    ls = out.split("\n")
    if ls == [NONE, ""]:
        return "none", []
    if ls[-2:] != ["", ""] or not re.fullmatch(r"Env\.L\.A\. \| Sys\.L\.G\. \| Input *\|\s*Output *", ls[0]) or not re.fullmatch(r"-+\+-+\+-*\+-*", ls[1]):
        raise strat.Malformed("head %r" % ls[:2])
    rows = []
    for l in ls[2:-2]:
        m = re.fullmatch(r" *(\d+)(\+| ) *( \(safety prop\. violation\))? *\| *(\d+)(\+| ) *( \(safety prop\. violation\))? *\| (.*)", l)
        if not m:
            raise strat.Malformed("row %r" % l)
        r = {"eg": int(m.group(1)), "eplus": m.group(2) == "+", "sg": int(m.group(4)), "splus": m.group(5) == "+",
             "viol": bool(m.group(3) or m.group(6)), "pos": 0, "end": ""}
        rest = m.group(7)
        if rest.strip() in ("Env.Loses", "Sys.Loses"):
            r["end"] = rest.strip()[:3]
        else:
            parts = [p.split() for p in rest.split("|")] if "|" in rest else None
            if not parts or len(parts) != 2:
                raise strat.Malformed("row %r" % l)
            for cells, names in zip(parts, (inG, outG)):
                want = columns(names, grp)
                if len(cells) != len(want):
                    raise strat.Malformed("columns of row %r" % l)
                for t, v in zip(cells, want):
                    if v in pos and t in (v, "!" + v):
                        r["pos"] |= (t == v) << pos[v]
                    else:
                        m = re.fullmatch(r"(.*)=(\d+)", t)
                        if not m or m.group(1) != v or v not in grp:
                            raise strat.Malformed("cell %r of row %r" % (t, l))
                        val = int(m.group(2)) - grp[v]["min"]
                        if not 0 <= val < 1 << len(grp[v]["bits"]):
                            raise strat.Malformed("value %r" % t)
                        for b, k in grp[v]["bits"].items():
                            r["pos"] |= ((val >> b) & 1) << k
        rows.append(r)
    if len(rows) < 2:
        raise strat.Malformed("number of rows")
    return "run", rows


def observe(ctx, c):
    f = ctx.write(c["text"])
    r = slugs.run(ctx.exe, ["--computeInterestingRunOfTheSystem", f])
    res = {"rawout": r["out"][:2500] + r["err"][-300:], "rows": []}
    if r["rc"] == 1:
        res["observed"] = "rejected"
    elif r["rc"] != 0:
        res["observed"] = "rc %s" % r["rc"]
    else:
        try:
            res["observed"], res["rows"] = lex(r["out"], c["text"])
        except strat.Malformed as e:
            res["observed"] = "malformed: %s" % e
    return res


def good_group(rng):
    while True:
        sp, bad = grouped_spec(rng)
        if not bad:
            return sp


def check(ctx):
    ctx.rule = "random specifications of all families, robots, deadlocking counters and encoded numbers; non-trivial = a run in which assumptions or guarantees are met and missed"
    cases = []
    for k in range(ctx.scale(1000, 12000)):
        r = k % 5
        sp = fam_assume(ctx.rng) if r == 0 else fam_walk(ctx.rng) if r == 1 else fam_clock(ctx.rng) if k % 10 == 2 else good_group(ctx.rng) if r == 3 else gen.rand_spec(ctx.rng, max_total=4)
        sp = no_at(sp) if r != 3 else sp
        text = gen.render(sp, ctx.rng)
        cases.append({"text": text, "lines": gen.lines_of(text)})
    core.run_cases(ctx, "InterestingRun", cases, observe,
                   describe=lambda c: "slugs --computeInterestingRunOfTheSystem on\n%s\nsaid %s\n%s" % (c["text"], c["observed"], c["rawout"]))
    for c in cases:
        ctx.count(c["observed"].split(" ")[0])
        if c["rows"]:
            ctx.count("rows", len(c["rows"]))
            ctx.count("end_" + (c["rows"][-1]["end"] or "never"))
            if len({(r["eplus"], r["splus"]) for r in c["rows"]}) > 2:
                ctx.distinct.add(c["text"])
                ctx.sample({"spec": c["text"], "run": c["rawout"][:1200]})
