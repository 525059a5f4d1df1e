"""Runs the repository's Python 2 tools under jython, many calls per JVM.

The tools find slugs by the path in argv[0] and keep files with fixed names in
/tmp; every worker therefore gets a tree of its own (src/slugs, tools/...) in
which /tmp is replaced by a scratch folder."""
import os, json, shutil, subprocess, time, concurrent.futures as cf
import build, slugs

HERE = os.path.dirname(os.path.abspath(__file__))
BATCH = os.path.join(HERE, "..", "harness", "jybatch.py")


class Tree:
    def __init__(self, ctx, k, only=None):
        self.root = os.path.join(ctx.scratch, "tree%d" % k)
        self.tmp = os.path.join(self.root, "tmp")
        os.makedirs(self.root + "/src")
        os.makedirs(self.tmp)
        shutil.copytree(os.path.join(build.REPO, "tools"), self.root + "/tools", ignore=shutil.ignore_patterns("*.pyc", "__pycache__", "*$py.class"))
        for d, _s, fs in os.walk(self.root + "/tools"):
            for f in fs:
                p = os.path.join(d, f)
                if f.endswith(".py"):
                    s = open(p, newline="", errors="surrogateescape").read()
                    if "/tmp" in s:
                        open(p, "w", newline="", errors="surrogateescape").write(s.replace("/tmp", self.tmp))
        os.symlink(ctx.exe, self.root + "/src/slugs")

    def tool(self, name):
        return os.path.join(self.root, "tools", name)


def run_all(ctx, jobs, prepare, collect, limit=60, workers=None):
    """jobs: items; prepare(tree, folder, item) -> {"tool", "args"}; collect(tree, folder, item, rc, out, err) takes the
    result.  The jobs of a worker run one after another in its tree."""
    workers = min(workers or (os.cpu_count() or 4), max(1, len(jobs) // 3))
    parts = [jobs[i::workers] for i in range(workers)]
    before = len(slugs.TIMEOUTS)
    enough = lambda: len(slugs.TIMEOUTS) - before >= 8  # calls that do not end: do not try all others

    def one(w):
        tree = Tree(ctx, ctx_number(ctx))
        specs = []
        for k, j in enumerate(parts[w]):
            d = os.path.join(tree.root, "j%d" % k)
            os.makedirs(d)
            p = prepare(tree, d, j)
            specs.append({"tool": tree.tool(p["tool"]), "argv0": tree.tool(p["tool"]), "args": p["args"], "out": d + "/out", "err": d + "/err"})
        jf, pf = tree.root + "/jobs", tree.root + "/progress"
        with open(jf, "w") as h:
            for s in specs:
                h.write(json.dumps(s) + "\n")
        open(pf, "w").close()
        rcs, first = {}, 0
        while first < len(specs) and not enough():
            p = subprocess.Popen(["jython", "-Dpython.cachedir.skip=true", BATCH, jf, pf, str(first)],
                                 cwd=tree.tmp, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True,
                                 env=dict(os.environ, JAVA_TOOL_OPTIONS="-Xss16m -Djava.io.tmpdir=" + tree.tmp))
            last, seen, hung = time.time(), 0, False
            while p.poll() is None:
                time.sleep(.1)
                size = os.path.getsize(pf)
                if size != seen:
                    seen, last = size, time.time()
                if enough():
                    break
                if time.time() - last > slugs.patience(limit) + 20:
                    hung = True
                    break
            if p.poll() is None:
                os.killpg(p.pid, 9)
                p.wait()
            for l in open(pf):
                a = l.split()
                if a[0] == "end":
                    rcs[int(a[1])] = int(a[2])
                    first = int(a[1]) + 1
            started = [int(l.split()[1]) for l in open(pf) if l.startswith("start")]
            if first < len(specs) and (hung or not enough()):
                if first not in started:
                    raise build.BuildError("jython does not run: " + p.stderr.read().decode(errors="replace")[-800:])
                rcs[first] = "timeout"
                slugs.TIMEOUTS.append(1)
                first += 1
        rd = lambda f: open(f, errors="replace").read() if os.path.exists(f) else ""
        for k, (j, s) in enumerate(zip(parts[w], specs)):
            j.pop("skipped", None)
            if k not in rcs:
                j["skipped"] = True
                continue
            collect(tree, os.path.dirname(s["out"]), j, rcs[k], rd(s["out"]), rd(s["err"]))
        shutil.rmtree(tree.root, ignore_errors=True)
    ctx.exe
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, range(workers)))


_n = [0]


def ctx_number(ctx):
    _n[0] += 1
    return _n[0]
