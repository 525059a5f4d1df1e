"""Running the real slugs."""
import os, subprocess, re, concurrent.futures as cf


TIMEOUTS = []


def patience(timeout):
    """After many runs that did not end, do not wait as long for the others."""
    n = len(TIMEOUTS)
    return timeout if n < 8 else min(timeout, 10 if n < 24 else 2)


def run(exe, args, files=None, cwd=None, stdin=None, timeout=60):
    timeout = patience(timeout)
    try:
        r = subprocess.run([exe] + list(args), cwd=cwd, input=stdin.encode() if stdin is not None else b"",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        TIMEOUTS.append(1)
        return {"rc": "timeout", "out": "", "err": ""}
    return {"rc": r.returncode, "out": r.stdout.decode(errors="replace"), "err": r.stderr.decode(errors="replace")}


def verdict(r):
    """What slugs said: realizable / unrealizable / rejected / or something else."""
    real = "RESULT: Specification is realizable." in r["err"]
    unreal = "RESULT: Specification is unrealizable." in r["err"]
    if r["rc"] == 0 and real and not unreal:
        return "realizable"
    if r["rc"] == 0 and unreal and not real:
        return "unrealizable"
    if r["rc"] == 1 and not real and not unreal:
        return "rejected"
    return "anomalous rc=%s" % r["rc"]


def pmap(f, items, n=None):
    with cf.ThreadPoolExecutor(n or (os.cpu_count() or 4)) as ex:
        return list(ex.map(f, items))
