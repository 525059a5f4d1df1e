"""Running TLC on batches of cases."""
import os, re, json, subprocess, tempfile, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def brief(out):
    ls = [l for l in out.split("\n") if not re.match(r"(Parsing file|Semantic processing|Linting|Computed )", l)]
    k = next((i for i, l in enumerate(ls) if "rror" in l), max(0, len(ls) - 30))
    return "\n".join(ls[k:k + 30])[:3000]


def run_tlc(module, cfg=None, env=None, workers=1, cont=True, timeout=800, scratch=None, extra=()):
    """Returns dict(out, states, generated, violations=[{var: value}])."""
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx3g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    if cont:
        cmd.append("-continue")
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC on %s exceeded %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors="replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"out": out, "rc": r.returncode, "generated": int(m.group(1)) if m else 0, "states": int(m.group(2)) if m else 0}
    return res


def outside(out):
    """The case on which the evaluation of the specification failed (and why), if any."""
    m = re.search(r"Error: (Evaluating|The error occurred|TLC threw|.*Attempted|.*was unable|In applying|The first argument|The second argument)", out)
    if not m or re.search(r"OutOfMemory|StackOverflow|No space left|Could not reserve|Parsing or semantic|FileNotFound|Unable to access", out):
        return None
    t = out[m.start():]
    cs = re.findall(r"/\\ c = (\d+)", t)
    return (int(cs[-1]), re.sub(r"\s+", " ", t[:600])) if cs else None


def chunks(lst, n):
    k = max(1, (len(lst) + n - 1) // n)
    return [lst[i:i + k] for i in range(0, len(lst), k)]


def eval_cases(module, cases, scratch, cfg=None, procs=None, timeout=800, states=None):
    """Evaluate a case-wise module: every case is an initial state <<c, "pending">>
    whose single step computes the verdict; invariant Conforms compares it with
    what was observed.  Returns (stats, bad) with bad = [(case, verdict text)].
    Any TLC error that is not an invariant violation raises TLCError."""
    if not cases:
        return {"states": 0, "generated": 0}, []
    procs = procs or min(os.cpu_count() or 4, max(1, (len(cases) + 19) // 20))
    # deal out round-robin so that heavy cases spread
    parts = [p for p in ([cases[k] for k in range(i, len(cases), procs)] for i in range(procs)) if p]

    def one(idx, part=None, depth=0):
        part = parts[idx] if part is None else part
        f = os.path.join(scratch, "cases-%s-%s-%d.ndjson" % (module, cfg or "", idx))
        with open(f, "w") as h:
            for c in part:
                h.write(json.dumps(c) + "\n")
        r = run_tlc(module, cfg, {"CASES": f}, scratch=scratch, timeout=timeout)
        out = r["out"]
        bad = []
        # error traces: states with "/\ c = k" and '/\ verdict = ...'
        for tr in re.split(r"Error: Invariant \w+ is violated", out)[1:]:
            cs = re.findall(r"/\\ c = (\d+)", tr)
            vs = re.findall(r"/\\ verdict = (.*?)(?=\n/\\ |\n\n|\nState |\Z)", tr, re.S)
            if not cs:
                raise TLCError("cannot read the error trace of %s:\n%s" % (module, brief(out)))
            v = [x for x in vs if x.strip() != '"pending"']
            bad.append((part[int(cs[0]) - 1], v[0].strip() if v else "?"))
        odd = outside(out)
        if odd is not None:
            # the observation of this case is none the specification knows: report it, judge the others
            k = odd[0] - 1
            st, bad = {"states": 0, "generated": 0}, [(part[k], "outside of the specification: " + odd[1])]
            rest = part[:k] + part[k + 1:]
            if rest and depth < 5:
                st, more = one(idx, rest, depth + 1)
                bad += more
            return st, bad
        rest = re.sub(r"Error: Invariant \w+ is violated", "", out)
        rest = re.sub(r"Error: The behavior up to this point is:", "", rest)
        if "Error:" in rest or r["generated"] == 0 or "Model checking completed" not in out and not bad:
            raise TLCError("TLC failed on %s:\n%s" % (module, brief(out)))
        want = sum(states(c) if callable(states) else 2 for c in part)
        # states="many": runs of unknown length; the module's deadlock check makes sure that each ends with a verdict
        if (r["states"] < want if states == "many" else r["states"] != want) and not (bad and states):
            raise TLCError("TLC on %s explored %d states for %d cases:\n%s" % (module, r["states"], len(part), brief(out)))
        return r, bad

    with cf.ThreadPoolExecutor(len(parts)) as ex:
        rs = list(ex.map(one, range(len(parts))))
    st = {"states": sum(r["states"] for r, _ in rs), "generated": sum(r["generated"] for r, _ in rs)}
    return st, [b for _, bs in rs for b in bs]


def classify(module, cases, scratch, procs=8, timeout=800):
    """One string per case, computed by the module (which prints <<"CLASS", c, string>>)."""
    idx = [list(range(i, len(cases), procs)) for i in range(min(procs, len(cases)))]

    def one(i):
        f = os.path.join(scratch, "pool-%s-%d.ndjson" % (module, i))
        with open(f, "w") as h:
            for k in idx[i]:
                h.write(json.dumps(cases[k]) + "\n")
        r = run_tlc(module, None, {"CASES": f}, scratch=scratch, timeout=timeout)
        if "Model checking completed" not in r["out"]:
            raise TLCError("TLC failed on %s:\n%s" % (module, brief(r["out"])))
        return {idx[i][int(m[1]) - 1]: m[2] for m in re.finditer(r'<<"CLASS", (\d+), "(.*?)">>', r["out"])}
    res = {}
    with cf.ThreadPoolExecutor(len(idx)) as ex:
        for d in ex.map(one, range(len(idx))):
            res.update(d)
    return [res[k] for k in range(len(cases))]
