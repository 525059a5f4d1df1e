"""Lexing of the strategy formats."""
import re, json, gen


class Malformed(Exception):
    pass


def order(sp_or_text):
    pass


def decl(text):
    """(ins, outs, all in declaration order) as declared in the text."""
    mode = None
    ins, outs, both = [], [], []
    for l in gen.lines_of(text):
        r = l["raw"]
        if not r or r[0] == "#":
            continue
        if r[0] == "[":
            mode = r
        elif mode == "[INPUT]":
            ins.append(r)
            both.append(r)
        elif mode in ("[OUTPUT]", "[OUTPUT_F]", "[OUTPUT_S]"):
            outs.append(r)
            both.append(r)
    return ins, outs, both


def bits_to_pos(vals, ins, outs):
    p = 0
    for k, v in enumerate(ins + outs):
        p |= vals[v] << k
    return p


def parse_text(out, text, raw=False):
    ins, outs, both = decl(text)
    nodes = {}
    order_ = []
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if len(lines) % 2:
        raise Malformed("odd number of lines")
    for k in range(0, len(lines), 2):
        m = re.fullmatch(r"State (\d+) with rank (\d+) -> <(.*)>", lines[k])
        if not m:
            raise Malformed("state line %r" % lines[k])
        vals = parse_vals(m.group(3), both)
        m2 = re.fullmatch(r"\tWith successors : ((?:\d+(?:, \d+)*)?)", lines[k + 1])
        if not m2:
            raise Malformed("successor line %r" % lines[k + 1])
        i = int(m.group(1))
        if i in nodes:
            raise Malformed("state %d twice" % i)
        nodes[i] = {"pos": bits_to_pos(vals, ins, outs), "rank": int(m.group(2)),
                    "succ": [int(x) for x in m2.group(1).split(", ")] if m2.group(1) else []}
        order_.append(i)
    if raw:
        return [dict(nodes[i], id=i) for i in order_]
    return renumber(nodes, order_)


def parse_vals(s, both):
    """'a:0, b:1' for exactly the declared variables, in order of declaration."""
    vals = {}
    rest = s
    for k, v in enumerate(both):
        pre = v + ":"
        if not rest.startswith(pre) or len(rest) <= len(pre) or rest[len(pre)] not in "01":
            raise Malformed("valuation %r" % s)
        vals[v] = int(rest[len(pre)])
        rest = rest[len(pre) + 1:]
        if k + 1 < len(both):
            if not rest.startswith(", "):
                raise Malformed("valuation %r" % s)
            rest = rest[2:]
    if rest != "":
        raise Malformed("valuation %r" % s)
    return vals


def renumber(nodes, order_):
    ix = {i: k + 1 for k, i in enumerate(order_)}
    res = []
    for i in order_:
        n = dict(nodes[i])
        for s in n["succ"]:
            if s not in ix:
                raise Malformed("successor %d is not a state" % s)
        n["succ"] = [ix[s] for s in n["succ"]]
        res.append(n)
    return res


def parse_json(out, text, raw=False):
    ins, outs, both = decl(text)
    try:
        d = json.loads(out)
    except ValueError as e:
        raise Malformed("not JSON: %s" % e)
    if set(d) != {"version", "slugs", "variables", "nodes"} or d["variables"] != both:
        raise Malformed("JSON header")
    nodes, order_ = {}, []
    for k, v in d["nodes"].items():
        if set(v) != {"rank", "state", "trans"} or len(v["state"]) != len(both) or any(b not in (0, 1) for b in v["state"]):
            raise Malformed("JSON node %s" % k)
        i = int(k)
        nodes[i] = {"pos": bits_to_pos(dict(zip(both, v["state"])), ins, outs), "rank": v["rank"], "succ": v["trans"]}
        order_.append(i)
    if raw:
        return [dict(nodes[i], id=i) for i in order_]
    return renumber(nodes, order_)


def parse_dddmp(s):
    """Symbolic strategy file -> names (header), goals, bdd table, root."""
    names = {}
    goals = None
    bdd = {}
    hdr = {}
    mode = 0
    for l in s.split("\n"):
        if mode == 0 and l.startswith("#"):
            m = re.fullmatch(r"# Num goals: (\d+)", l)
            if m:
                goals = int(m.group(1))
            m = re.fullmatch(r"#\t(\d+): (.*)", l)
            if m:
                names[int(m.group(1))] = m.group(2)
        elif l.startswith("."):
            w = l.split()
            if w[0] == ".nodes":
                mode = 1
            elif w[0] == ".end":
                mode = 2
            else:
                hdr[w[0]] = w[1:]
        elif mode == 1 and l.strip():
            w = l.split()
            if len(w) != 5:
                raise Malformed("dddmp node %r" % l)
            i = int(w[0])
            bdd[i] = {"v": 0, "t": 0, "e": 0} if w[1] == "T" else {"v": int(w[1]), "t": int(w[3]), "e": int(w[4])}
    if mode != 2 or goals is None or sorted(names) != list(range(len(names))) or len(hdr.get(".rootids", [])) != 1:
        raise Malformed("dddmp file")
    if sorted(bdd) != list(range(1, len(bdd) + 1)):
        raise Malformed("dddmp nodes")
    for i, n in bdd.items():
        if i > 1 and not (n["v"] in names and 1 <= n["t"] < i and 1 <= abs(n["e"]) < i):
            raise Malformed("dddmp node %d" % i)
    root = int(hdr[".rootids"][0])
    return [names[k] for k in sorted(names)], goals, [bdd[i] for i in sorted(bdd)], root


def parse_counter(out, text):
    """Counter-strategy text.  A deadlock state is printed in the middle of its
    predecessor's successor line."""
    ins, outs, both = decl(text)
    bothin = [v for v in both if v in ins]
    nodes, order_ = {}, []
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    k = 0

    def head(l):
        m = re.fullmatch(r"State (\d+) with rank \((\d+),(\d+)\) -> <(.*)>", l)
        if not m:
            raise Malformed("state line %r" % l)
        return int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4)

    def add(i, n):
        if i in nodes:
            raise Malformed("state %d twice" % i)
        nodes[i] = n
        order_.append(i)

    while k < len(lines):
        i, a, b, vs = head(lines[k])
        vals = parse_vals(vs, both)
        if k + 1 >= len(lines):
            raise Malformed("truncated")
        m = re.fullmatch(r"\tWith successors : ((?:\d+(?:, \d+)*)?)", lines[k + 1])
        if not m:
            raise Malformed("successor line %r" % lines[k + 1])
        succ = [int(x) for x in m.group(1).split(", ")] if m.group(1) else []
        add(i, {"pos": bits_to_pos(vals, ins, outs), "ri": a, "rj": b, "dead": False, "din": 0, "succ": succ})
        k += 2
        # deadlock state printed inline
        if k + 1 < len(lines) and lines[k + 1] == "\tWith no successors.":
            i2, a2, b2, vs2 = head(lines[k])
            v2 = parse_vals(vs2, bothin)
            x = 0
            for t, v in enumerate(ins):
                x |= v2[v] << t
            add(i2, {"pos": 0, "ri": a2, "rj": b2, "dead": True, "din": x, "succ": []})
            k += 2
    return renumber(nodes, order_)


def parse_permissive(out, text):
    ins, outs, both = decl(text)
    nodes, order_ = {}, []
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    k = 0
    while k < len(lines):
        m = re.fullmatch(r"State (\d+) with rank (\d+)", lines[k])
        if not m or k + 1 >= len(lines):
            raise Malformed("state line %r" % lines[k])
        vals = parse_vals(lines[k + 1], both)
        k += 2
        succ = []
        while k < len(lines) and lines[k] != "":
            if not re.fullmatch(r"\d+", lines[k]):
                raise Malformed("successor line %r" % lines[k])
            succ.append(int(lines[k]))
            k += 1
        if k >= len(lines):
            raise Malformed("truncated")
        k += 1
        i = int(m.group(1))
        if i in nodes:
            raise Malformed("state %d twice" % i)
        nodes[i] = {"pos": bits_to_pos(vals, ins, outs), "rank": int(m.group(2)), "succ": succ}
        order_.append(i)
    return renumber(nodes, order_)
