# Runs Python 2 tools in one JVM (jython): jybatch.py JOBS PROGRESS FIRST
# JOBS: one JSON object per line: tool (path), argv0, args, out, err, cwd.  PROGRESS: one line "index rc" per finished job.
import sys, os, json, traceback, imp
# some tools import a module that jython lacks, without using it
sys.modules.setdefault("resource", imp.new_module("resource"))
jobs = [json.loads(l) for l in open(sys.argv[1])]
prog = open(sys.argv[2], "a")
first = int(sys.argv[3])
code = {}
so, se = sys.stdout, sys.stderr
for k in range(first, len(jobs)):
    j = jobs[k]
    t = str(j["tool"])
    prog.write("start %d\n" % k)
    prog.flush()
    rc = 0
    sys.stdout, sys.stderr = open(str(j["out"]), "w"), open(str(j["err"]), "w")
    path = list(sys.path)
    try:
        if t not in code:
            code[t] = compile(open(t).read(), t, "exec")
        sys.argv = [str(j["argv0"])] + [str(a) for a in j["args"]]
        sys.path.insert(0, os.path.dirname(t))
        exec(code[t], {"__name__": "__main__", "__file__": t})
    except SystemExit, e:
        rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except Exception:
        traceback.print_exc(file=sys.stderr)
        rc = 1
    sys.path[:] = path
    sys.stdout.close()
    sys.stderr.close()
    sys.stdout, sys.stderr = so, se
    # files that the tool left in its folder belong to this job
    for f in os.listdir("."):
        if os.path.isfile(f):
            os.rename(f, os.path.join(os.path.dirname(str(j["out"])), "left_" + f))
    prog.write("end %d %d\n" % (k, rc))
    prog.flush()
