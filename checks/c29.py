"""Refusals and failures: errors never pass for results."""
import os, hashlib, resource, shutil, subprocess
import build, core, slugs, c23, c28

GAMES = ["--IROSfastslow", "--biasForAction", "--fixedPointRecycling", "--cooperativeGR1Strategy", "--twoDimensionalCost"]
ANALYSES = ["--analyzeAssumptions", "--analyzeInterleaving", "--analyzeSafetyLivenessInteraction", "--computeAbstractWinningTrace", "--analyzeInitialPositions",
            "--computeCNFFormOfTheSpecification", "--computeIncompleteInformationEstimator", "--computeInterestingRunOfTheSystem", "--computeWeakenedSafetyAssumptions"]
OTHER = ["--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--extractExplicitPermissiveStrategy", "--sysInitRoboticsSemantics", "--simpleRecovery",
         "--jsonOutput", "--nonDeterministicMotion", "--interactiveStrategy", "--counterStrategy", "--restrictToReachableStates"]
KNOWN = GAMES + ANALYSES + OTHER
OUT = ["--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--extractExplicitPermissiveStrategy"]
OLD = "OLD CONTENT OF THE FILE\n" * 400

STD = {"r": "[INPUT]\na\n%s\nb\n[SYS_TRANS]\n! ^ a' b'\n[SYS_LIVENESS]\na\n[ENV_LIVENESS]\na\n", "u": "[INPUT]\na\n%s\nb\n[SYS_TRANS]\na'\n[SYS_LIVENESS]\nb\n",
       "bad": "[INPUT]\na\n%s\nb\n[SYS_LIVENESS]\nb\n[SYS_TRANS]\n! ^ a' "}
MOT = {"r": "[INPUT]\na\n[MOTION STATE OUTPUT]\nm\n[MOTION CONTROLLER OUTPUT]\nc\n[SYS_LIVENESS]\nm\n! m\n", "u": "[INPUT]\na\n[MOTION STATE OUTPUT]\nm\n[MOTION CONTROLLER OUTPUT]\nc\n[SYS_TRANS]\na'\n",
       "bad": "[INPUT]\na\n[MOTION STATE OUTPUT]\nm\n[MOTION CONTROLLER OUTPUT]\nc\n[SYS_LIVENESS]\nx\n"}
EST = {"r": "[OBSERVABLE_INPUT]\no\n[UNOBSERVABLE_INPUT]\nu\n[OUTPUT]\ne\n[ENV_TRANS]\n! ^ u' o'\n[SYS_TRANS]\n| ! u' e'\n", "u": "[OBSERVABLE_INPUT]\no\n[UNOBSERVABLE_INPUT]\nu\n[OUTPUT]\ne\n[SYS_TRANS]\n0\n",
       "bad": "[OBSERVABLE_INPUT]\no\n[UNOBSERVABLE_INPUT]\nu\n[OUTPUT]\ne\n[SYS_TRANS]\n| u' \n"}
BADCOST = ["1 0 <\n1\n", "1 0 <\n1 zzz\n", "1 0 <\nx b'\n", "1 0\n", "<\n1 b'\n", "", "1 0 =\n2 b'\n", "1 0 <\n2 b' b'\n"]
ROBOT = c23.dddmp(3, [v for v in range(8) if ((v >> 2 & 1) == (v >> 1 & 1))])  # the next position is the command
BIGROBOT = c23.dddmp(5, [v for v in range(32) if bin(v).count("1") % 2])


def mode_options(rng):
    r = rng.random()
    base = rng.choice([[], [], [], [rng.choice(GAMES)]])
    if r < .62:
        s = base + [rng.choice(OUT)] * (rng.random() < .8)
        if "--extractExplicitPermissiveStrategy" in s and "--cooperativeGR1Strategy" in s:
            s = ["--cooperativeGR1Strategy"]
        if rng.random() < .3:
            s.append("--sysInitRoboticsSemantics")
        if rng.random() < .25 and set(s) & set(OUT[:3]):
            s.append("--simpleRecovery")
        if rng.random() < .3 and "--explicitStrategy" in s:
            s.append("--jsonOutput")
    elif r < .72:
        s = ["--counterStrategy"] + ["--sysInitRoboticsSemantics"] * (rng.random() < .3)
    elif r < .85:
        s = [rng.choice(ANALYSES)]
        if s[0] == "--analyzeInitialPositions" and rng.random() < .4:
            s.append("--restrictToReachableStates")
    elif r < .93:
        s = ["--nonDeterministicMotion"] + rng.choice([[], ["--sysInitRoboticsSemantics"], ["--interactiveStrategy"]])
    else:
        s = ["--interactiveStrategy"] + rng.choice([[], [rng.choice(GAMES)]])
    return s


def unknown(rng):
    k = rng.choice(KNOWN)
    return rng.choice([k[1:], k[:-1], k + "s", k.lower(), k + "=1", k + " ", "-", "--", "-h", "--help", "--onlyRealizability", "--recovery", k[:9], k.replace("--", "---"), k + "'", "--explicitStrategy --jsonOutput"])


def make(rng, j):
    opts = mode_options(rng)
    r = rng.random()
    if r < .12:
        opts.append(rng.choice(KNOWN))
    elif r < .17 and opts:
        opts.remove(rng.choice(opts))
    elif r < .22:
        opts = rng.sample(KNOWN, rng.randint(1, 4))
    bad = unknown(rng) if rng.random() < .06 else None
    if bad in KNOWN:
        bad = None
    # files, as needed, with something missing, unsuitable, or too much
    spec = MOT if "--nonDeterministicMotion" in opts else EST if "--computeIncompleteInformationEstimator" in opts else STD
    kinds = {}
    n = [0]

    def name(kind):
        n[0] += 1
        f = rng.choice(["f%d", "file %d", "x%d.slugsin", "--f%d"[2:], "ü%d", "a-b%d"]) % n[0]
        kinds[f] = kind
        return f
    kind = rng.choice(["r", "r", "r", "u", "u", "r", "r", "u", "bad", "missing", "dir"])
    files = [name(kind)]
    if "--twoDimensionalCost" in opts or "--nonDeterministicMotion" in opts:
        good = "cost" if "--twoDimensionalCost" in opts else "robot"
        files.append(name(good if rng.random() < .75 else rng.choice(["missing", "dir", "badcost" if good == "cost" else "bigrobot"])))
    if set(opts) & set(OUT + ["--counterStrategy"]) and (rng.random() < .7 or set(opts) & {"--symbolicStrategy", "--simpleSymbolicStrategy"}):
        files.append(name(rng.choice(["missing", "missing", "old", "old", "old", "nodir", "dir"])))
    t = rng.random()
    if t < .07:
        files.append(name(rng.choice(["missing", "old", "r"])))
    elif t < .13:
        files.pop(rng.randrange(len(files)))
    elif t < .15:
        rng.shuffle(files)
    elif t < .17:
        files.append(rng.choice(files) if files else name("r"))
    order = c28.arrange(rng, opts, list(files))
    if bad is not None:
        order.insert(rng.randint(0, len(order)), bad)
    rfault = rng.choice([f for f in files if kinds[f] in ("r", "u", "bad", "cost")] or [""]) if rng.random() < .2 else ""
    return {"args": order, "kinds": kinds, "fast": "--IROSfastslow" in opts, "dialect": 1 if spec is MOT else 2 if spec is EST else 0, "rfault": rfault, "rat": rng.random(),
            "wfault": rng.random() if rng.random() < .35 else -1, "costtext": rng.choice(BADCOST)}


def content(c, f):
    k = c["kinds"][f]
    if k in ("r", "u", "bad"):
        t = (STD, MOT, EST)[c["dialect"]][k]
        return t % ("[OUTPUT_F]" if c["fast"] else "[OUTPUT]") if c["dialect"] == 0 else t
    return {"cost": "1 0 <\n2 b'\n", "badcost": c["costtext"], "robot": ROBOT, "bigrobot": BIGROBOT, "old": OLD}.get(k)


def once(ctx, c, limit, fault):
    d = ctx.path(".dir")
    w = os.path.join(d, "w")
    os.makedirs(w)
    before = {}
    path = {}
    for f, k in c["kinds"].items():
        path[f] = os.path.join(w, f)
        if k == "dir":
            os.mkdir(path[f])
        elif k == "nodir":
            path[f] = os.path.join(w, "none", f)
        elif k != "missing":
            with open(path[f], "w") as h:
                h.write(content(c, f))
        before[f] = state(path[f])
    env = dict(os.environ)
    if fault:
        env.update(LD_PRELOAD=shim(ctx), FAULT_PATH=path[c["rfault"]], FAULT_AT=str(int(c["rat"] * (len(content(c, c["rfault"]).encode()) + 1))))
    so = os.path.join(d, "stdout")

    def pre():
        if limit >= 0:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    open(so, "w").close()
    with open(so if limit != -2 else "/dev/full", "w") as h:
        # (SIGXFSZ stays ignored: write() fails with EFBIG)
        try:
            r = subprocess.run([ctx.exe] + [path.get(a, a) for a in c["args"]], cwd=w, stdin=subprocess.DEVNULL, stdout=h, stderr=subprocess.PIPE, env=env, preexec_fn=pre,
                               restore_signals=False, timeout=slugs.patience(60))
        except subprocess.TimeoutExpired:
            slugs.TIMEOUTS.append(1)
            r = subprocess.CompletedProcess([], 124, None, b"")
    err = r.stderr.decode(errors="replace")
    changed = [f for f in c["kinds"] if state(path[f]) != before[f]]
    extra = sorted(x for x in os.listdir(w) if x not in c["kinds"])
    size = os.path.getsize(so) + sum(os.path.getsize(path[f]) for f in changed)
    stale = any("OLD CONTENT" in open(path[f], errors="replace").read() for f in changed)
    v = [x for x in ("realizable", "unrealizable") if "RESULT: Specification is %s." % x in err]
    body = err.split("\n", 1)[1] if "\n" in err else err
    res = {"observed": {"status": r.returncode, "verdict": v[0] if len(v) == 1 else "none" if not v else "both", "printed": os.path.getsize(so) > 0, "complained": "rror" in body},
           "changed": changed + extra, "stale": stale, "size": size, "rawout": err[:200] + " ... " + err[-300:]}
    shutil.rmtree(d)
    return res


def state(p):
    if os.path.isdir(p):
        return ("dir", tuple(sorted(os.listdir(p))))
    return hashlib.sha256(open(p, "rb").read()).hexdigest() if os.path.exists(p) else None


def shim(ctx):
    src = os.path.join(core.ROOT, "harness", "faultread.c")
    so = os.path.join(build.cache_dir(), "faultread-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(so):
        tmp = so + ".%d.%s" % (os.getpid(), os.path.basename(ctx.path()))
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"])
        os.rename(tmp, so)
    return so


def observe(ctx, c):
    limit, full = -1, 0
    if c["wfault"] >= 0:
        full = once(ctx, c, -1, bool(c["rfault"]))["size"]
        if set(c["args"]) & set(ANALYSES + ["--interactiveStrategy", "--nonDeterministicMotion"]):
            # these also keep notes in /tmp, which are no output: only the standard output fails
            r = once(ctx, c, -2, bool(c["rfault"]))
            r.update(limit=0, full=full)
            return r
        limit = int(c["wfault"] * 1.3 * full)
        if full == 0 or limit >= full:
            limit = full + 100
    r = once(ctx, c, limit, bool(c["rfault"]))
    r.update(limit=limit, full=full)
    return r


def check(ctx):
    ctx.rule = "argument vectors around the accepted ones with missing, unreadable, unwritable, excess files, read failures at any byte and write failures at any byte; non-trivial = refused or failed"
    ctx.exe, shim(ctx)
    cases = [make(ctx.rng, k) for k in range(ctx.scale(2500, 30000))]
    core.run_cases(ctx, "CommandLine", cases, observe, states="many",
                   describe=lambda c: "slugs %s\nfiles %s read fault in '%s' write limit %s of %s: status %s verdict %s printed %s changed %s\n%s" % (
                       " ".join(c["args"]), c["kinds"], c["rfault"], c["limit"], c["full"], c["observed"]["status"], c["observed"]["verdict"], c["observed"]["printed"], c["changed"], c["rawout"]))
    for c in cases:
        o = c["observed"]
        ctx.count("done" if o["status"] == 0 else "failed" if o["verdict"] != "none" else "refused")
        if c["rfault"]:
            ctx.count("read faults")
        if 0 <= c["limit"] < c["full"]:
            ctx.count("write faults")
        if o["status"]:
            ctx.distinct.add(repr(c["args"]) + repr(c["kinds"]))
            ctx.sample({"args": c["args"], "files": c["kinds"], "observed": o})
