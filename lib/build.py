"""Builds slugs (and the C++ harness) from /repo's current working tree into a
scratch directory.  Nothing in /repo is written."""
import os, sys, glob, threading, hashlib, subprocess, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CUDD = "lib/cudd-3.0.0"
BASE = ["-mtune=native", "-DHAVE_IEEE_754", "-DBSD", "-DSIZEOF_VOID_P=8", "-DSIZEOF_LONG=8",
        "-DCUDD_COMPILER_OPTIONS_SET", "-DNDEBUG", "-DUSE_CUDD", "-w"]
INC = ["src", CUDD, CUDD+"/cudd", CUDD+"/mtr", CUDD+"/epd", CUDD+"/st", CUDD+"/util", CUDD+"/dddmp",
       "src/BFAbstractionLibrary"]
SRC_CORE = ["synthesisAlgorithm.cpp", "synthesisContextBasics.cpp", "tools.cpp", "variableManager.cpp"]


class BuildError(Exception):
    pass


def cache_dir():
    d = os.environ.get("VERIF_CACHE", "/var/tmp/slugs-verif-cache")
    os.makedirs(d, exist_ok=True)
    return d


def _src_list():
    """The translation units, taken from src/Makefile when it is readable (so
    that files added by a change are built, too)."""
    cpp = ["src/main.cpp"] + ["src/" + f for f in SRC_CORE] + sorted(
        os.path.relpath(p, REPO) for p in glob.glob(REPO + "/src/BFAbstractionLibrary/*.cpp"))
    # any further .cpp next to main.cpp (a refactoring may add one)
    for p in sorted(glob.glob(REPO + "/src/*.cpp")):
        r = os.path.relpath(p, REPO)
        if r not in cpp:
            cpp.append(r)
    c = []
    for d in ("cudd", "mtr", "epd", "st", "util", "dddmp"):
        for p in sorted(glob.glob("%s/%s/%s/*.c" % (REPO, CUDD, d))):
            b = os.path.basename(p)
            if b.startswith("test") or b == "cpu_stats.c":
                continue
            c.append(os.path.relpath(p, REPO))
    return cpp, c


def _drop_unused(cpp):
    mk = open(REPO + "/src/Makefile", errors="replace").read() if os.path.exists(REPO + "/src/Makefile") else ""
    out = []
    for f in cpp:
        b = os.path.basename(f)
        if mk and b not in mk and b[:-4] + ".o" not in mk:
            continue
        out.append(f)
    return out


def _compile(args):
    src, flags, cxx, odir = args
    inc = sum([["-I", os.path.join(REPO, i)] for i in INC], [])
    inc += ["-I", os.path.join(HERE, "..", "harness", "cuddconf")]  # config.h, if /repo was never configured
    comp = ["g++", "-std=c++11"] if cxx else ["gcc"]
    path = src if src.startswith("/") else os.path.join(REPO, src)
    # content addressed: hash of the preprocessed text and the flags
    pp = subprocess.run(comp + BASE + flags + inc + ["-E", "-P", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode != 0:
        raise BuildError("preprocessing %s failed:\n%s" % (src, pp.stderr.decode(errors="replace")[-3000:]))
    h = hashlib.sha256(" ".join(comp + BASE + flags).encode() + b"\0" + pp.stdout).hexdigest()[:32]
    o = os.path.join(cache_dir(), h + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run(comp + BASE + flags + inc + ["-c", path, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, o)
    return o


def _objects(cpp, c, extra=()):
    jobs = []
    for f in cpp:
        jobs.append((f, ["-O0" if f.endswith("main.cpp") else "-O1"], True, None))
    for f in c:
        jobs.append((f, ["-O1"], False, None))
    for f in extra:
        jobs.append((f, ["-O1"], True, None))
    with cf.ThreadPoolExecutor(max(2, (os.cpu_count() or 4))) as ex:
        return list(ex.map(_compile, jobs))


def _link(objs, name):
    h = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(cache_dir(), name + "-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run(["g++", "-o", tmp] + objs + ["-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("linking failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(tmp, exe)
    return exe


def build_slugs():
    cpp, c = _src_list()
    return _link(_objects(_drop_unused(cpp), c), "slugs")


def build_harness(src, name):
    """A harness from /verif linked against the BF library and CUDD of /repo."""
    cpp, c = _src_list()
    cpp = [f for f in _drop_unused(cpp) if "BFAbstractionLibrary" in f]
    return _link(_objects(cpp, c, [src]), name)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build_slugs(), time.time() - t)
