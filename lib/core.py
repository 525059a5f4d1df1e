"""Common driver of all checks: scratch space, seeds, confirmation of
violations, known findings, evidence."""
import os, sys, json, time, threading, random, tempfile, shutil, hashlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, tlc, slugs, gen  # noqa: E402


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.violations = []
        self.known = []
        self.notes = {}
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.distinct = set()
        self.evaluations = 0
        self.assumptions = []
        self.rule = ""
        self._exe = None
        self._lock = threading.Lock()
        self._n = 0
        self.findings = load_findings(pid)

    # -- time --
    @property
    def quick(self):
        return self.tier == "quick"

    def elapsed(self):
        return time.time() - self.t0

    def scale(self, quick, thorough):
        f = float(os.environ.get("VERIF_SCALE", "1")) * (2 if self.quick else 1)  # VERIF_SCALE: development only, smaller runs
        return max(1, int((quick if self.quick else thorough) * f))

    # -- building / running --
    @property
    def exe(self):
        with self._lock:
            if self._exe is None:
                self._exe = build.build_slugs()
            return self._exe

    def path(self, suffix=""):
        with self._lock:
            self._n += 1
            n = self._n
        return os.path.join(self.scratch, "f%d%s" % (n, suffix))

    def write(self, text, suffix=".slugsin"):
        p = self.path(suffix)
        with open(p, "w", newline="") as h:
            h.write(text)
        return p

    # -- bookkeeping --
    def add_stats(self, st):
        self.states += st.get("states", 0)
        self.transitions += st.get("generated", 0)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def count(self, name, k=1):
        self.notes[name] = self.notes.get(name, 0) + k

    def violation(self, what, case, signature=None):
        for f in self.findings:
            if matches(f, what, case, signature):
                self.known.append((f, what))
                return
        self.violations.append((what, case))


def load_findings(pid):
    p = os.path.join(ROOT, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                d = json.loads(l)
                if d.get("property") == pid:
                    res.append(d)
    return res


def matches(f, what, case, signature):
    return signature is not None and f.get("signature") == signature


def safe_observe(observe):
    """An output that cannot be taken apart is an observation too."""
    def f(ctx, c):
        try:
            return observe(ctx, c)
        except (IndexError, KeyError, ValueError, AttributeError, TypeError, AssertionError, StopIteration, RecursionError) as e:
            return {"observed": "unreadable", "unreadable": "%s (%s)" % (type(e).__name__, e), "where": traceback.format_exc()[-600:]}
    return f


def safe_describe(describe, module):
    def f(c):
        try:
            return describe(c) if describe else module
        except Exception:
            return "%s on %s" % (module, json.dumps(c, default=str)[:3000])
    return f


def run_cases(ctx, module, cases, observe=None, cfg=None, describe=None, signature=None, recheck=True, procs=None, timeout=800, states=None, observe_all=None):
    """observe every case on the real code, let TLC judge them, confirm what it rejects."""
    show = safe_describe(describe, module)
    unreadable = []
    if observe_all:
        # all cases at once; sets "unreadable" itself
        look_at = lambda cs: observe_all(ctx, cs)
    elif observe:
        look = safe_observe(observe)

        def look_at(cs):
            for c, o in zip(cs, slugs.pmap(lambda c: look(ctx, c), cs)):
                c.update(o)
    if observe or observe_all:
        look_at(cases)
        unreadable = [c for c in cases if "unreadable" in c]
        # not even of the form that the specification speaks about
        twice = [json.loads(json.dumps({k: v for k, v in c.items() if k != "unreadable"})) for c in unreadable[:10]]
        look_at(twice)
        for c2 in twice:
            if "unreadable" in c2:
                ctx.violation("%s: the output is of no form that the specification knows: %s" % (show(c2), c2["unreadable"]), c2)
    cases[:] = [c for c in cases if not c.get("skipped")]
    judged = [c for c in cases if "unreadable" not in c]
    st, bad = tlc.eval_cases(module, judged, ctx.scratch, cfg=cfg, procs=procs, timeout=timeout, states=states)
    ctx.add_stats(st)
    ctx.traces += len(cases)
    ctx.evaluations += len(cases)
    confirmed = []
    if bad:
        again = [json.loads(json.dumps(c)) for c, v in bad[:40]]
        if (observe or observe_all) and recheck:
            look_at(again)
        again = [c for c in again if "unreadable" not in c and not c.get("skipped")]
        _, bad2 = tlc.eval_cases(module, again, ctx.scratch, cfg=cfg, procs=procs, timeout=timeout, states=states)
        for c, v in bad2:
            sig = signature(c, v) if signature else None
            ctx.violation("%s: spec verdict %s" % (show(c), v[:1500]), c, sig)
            confirmed.append((c, v))
        if not bad2:
            ctx.count("unconfirmed_rejections", len(bad))
    return bad, confirmed


def main(pid, func):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        func(ctx)
        rc = finish(ctx)
    except (build.BuildError, tlc.TLCError) as e:
        print("ERROR in check %s: %s" % (pid, e))
        rc = 3
        # a violation that was confirmed before the error still counts
        if ctx.violations:
            rc = finish(ctx)
    except Exception:
        traceback.print_exc()
        rc = 3
        if ctx.violations:
            rc = finish(ctx)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.exit(rc)


def finish(ctx):
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    rc = 0
    seen = set()
    rd = os.path.join(evd, "replay")
    if os.path.isdir(rd):
        for n in os.listdir(rd):
            if n.startswith(ctx.pid + "-"):
                os.unlink(os.path.join(rd, n))
    for f, what in ctx.known:
        if f["signature"] in seen:
            continue
        seen.add(f["signature"])
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, f["what"]))
    if ctx.violations:
        rc = 1
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        for k, (what, case) in enumerate(ctx.violations[:int(os.environ.get("VERIF_REPLAYS", "5"))]):
            p = os.path.join(rd, "%s-%d.json" % (ctx.pid, k))
            with open(p, "w") as h:
                json.dump({"property": ctx.pid, "seed": ctx.seed, "tier": ctx.tier, "what": what, "case": case}, h, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (ctx.pid, p))
            print("  " + what[:600].replace("\n", "\n  "))
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or ["none"],
           "evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.distinct), "rule": ctx.rule}
    cov.update(ctx.notes)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(ctx.elapsed(), 2), "violations": len(ctx.violations)}
    with open(os.path.join(evd, ctx.pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    print("%s %s: %d executions judged by TLC (%d states), %d violations, %.1f s %s" % (
        ctx.pid, ctx.tier, ctx.traces, ctx.states, len(ctx.violations), ctx.elapsed(), json.dumps(ctx.notes)))
    return rc
