"""Development tool: writes and confirms planted bugs (seeded/<id>).

    from plant import plant
    plant("B01", "C01", [("src/x.cpp", old, new)], demo="...", needs="...", breaks="...")

A scratch copy of /repo is changed, built, its example tests run, the
demonstration run on both, and the outcome printed.  Nothing in /repo is written."""
import os, sys, json, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/lib")


def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def build(copy):
    env = dict(os.environ, VP_REPO=copy)
    r = sh("python3 %s/lib/build.py" % ROOT, env=env)
    if r.returncode:
        return r.stdout.decode()[-3000:]
    exe = r.stdout.decode().split()[0]
    shutil.copy(exe, copy + "/src/slugs")
    return None


def tests(copy):
    src = open("/opt/vp/examples.py").read().replace("/repo", copy)
    p = copy + "/_examples.py"
    open(p, "w").write(src)
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = [n.split("::")[1] for n in json.dumps(base).split('"') if n.startswith("examples::")]
    procs = [(n, subprocess.Popen("jython -Dpython.cachedir.skip=true %s '%s' < /dev/null" % (p, n), shell=True, cwd=copy + "/tools",
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for n in names]
    bad = [n for n, q in procs if q.wait() != 0]
    return bad, len(names)


def plant(bid, prop, edits, demo, needs, breaks, files={}, run_tests=True):
    d = "%s/seeded/%s" % (ROOT, bid)
    copy = tempfile.mkdtemp(prefix="plant-") + "/repo"
    try:
        sh("cp -a /repo %s" % copy)
        for (f, old, new) in edits:
            s = open(copy + "/" + f, newline="").read()
            if s.count(old) != 1:
                print(bid, "BAD EDIT: %d occurrences in %s of: %s" % (s.count(old), f, old[:80]))
                return False
            open(copy + "/" + f, "w", newline="").write(s.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        e = build(copy)
        if e:
            print(bid, "BUILD FAILED", e)
            return False
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + demo)
        os.chmod(d + "/demo.sh", 0o755)
        for n, t in files.items():
            open(d + "/" + n, "w").write(t)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        a = sh("timeout 250 bash %s/demo.sh" % d, cwd="/repo")
        b = sh("timeout 250 bash %s/demo.sh" % d, cwd=copy)
        bad, n = tests(copy) if run_tests else ([], 0)
        ok = a.returncode == 0 and b.returncode != 0 and not bad
        print(bid, prop, "OK" if ok else "NOT OK", "unchanged rc=%d patched rc=%d failing tests=%s of %d" % (a.returncode, b.returncode, bad, n))
        if not ok:
            print("--- unchanged:", a.stdout.decode()[-1500:], "--- patched:", b.stdout.decode()[-1500:])
            shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(os.path.dirname(copy), ignore_errors=True)


def replant_check(bid):
    """demo and check state of an existing planted bug"""
    d = "%s/seeded/%s" % (ROOT, bid)
    copy = tempfile.mkdtemp(prefix="plant-") + "/repo"
    try:
        sh("cp -a /repo %s" % copy)
        r = sh("git apply %s/patch.diff" % d, cwd=copy)
        if r.returncode:
            return "patch does not apply: " + r.stdout.decode()
        e = build(copy)
        if e:
            return e
        prop = json.load(open(d + "/meta.json"))["property"]
        env = dict(os.environ, VP_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh("bin/check %s" % prop, cwd=ROOT, env=env, timeout=1500)
        out = r.stdout.decode()
        return "%s rc=%d %s" % (prop, r.returncode, out[:400].replace("\n", " | "))
    finally:
        shutil.rmtree(os.path.dirname(copy), ignore_errors=True)


if __name__ == "__main__":
    for b in sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded")):
        print(b, replant_check(b), flush=True)
