"""Builds simulator variants from the sources currently in /repo (never from a stored copy).

Each variant = the repository's own .c files (except main.c), compiled with the flags of its build script minus
LTO, with some size limits of Config.h lowered in a scratch copy, linked with sim.c, which supplies threads, time,
sockets, streams and exit.  Results are cached in /verif/build (git-ignored) under a hash of every input.
"""
import hashlib, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD_DIR", os.path.join(VERIF, "build"))

VARIANTS = {
    # name: (Config.h overrides, extra flags, opt)
    "tiny": ({"CONCEPTS_MAX": 24, "CYCLING_BELIEF_EVENTS_MAX": 8, "CYCLING_GOAL_EVENTS_MAX": 10, "OCCURRENCE_TIME_INDEX_SIZE": 16,
              "CONCEPTS_HASHTABLE_BUCKETS": 8}, [], "-O1"),
    "small": ({"CONCEPTS_MAX": 96, "CYCLING_BELIEF_EVENTS_MAX": 40, "CYCLING_GOAL_EVENTS_MAX": 60, "OCCURRENCE_TIME_INDEX_SIZE": 64,
              "CONCEPTS_HASHTABLE_BUCKETS": 64}, [], "-O1"),
    "mid": ({"CONCEPTS_MAX": 768}, [], "-O1"),
    "ship": ({}, [], "-O1"),
    # also prints which premises inference is done with
    "ctl": ({"CONCEPTS_MAX": 1500, "CYCLING_BELIEF_EVENTS_MAX": 1500, "PRINT_CONTROL_INFO": "true"}, [], "-O1"),
    # preemption (in the scheduler) possible at every function entry of the repository's code
    "instr": ({"CONCEPTS_MAX": 256}, ["-finstrument-functions", "-DSIM_INSTR"], "-O1"),
    "asan": ({"CONCEPTS_MAX": 48, "CYCLING_BELIEF_EVENTS_MAX": 12, "CYCLING_GOAL_EVENTS_MAX": 16},
             ["-fsanitize=undefined", "-fsanitize=bounds-strict", "-fno-sanitize=shift,signed-integer-overflow", "-DSIM_SAN"], "-O1"),
}
WRAPS = "exit NAR_INIT NAR_Cycles Cycle_Perform Shell_ProcessInput Shell_NARInit malloc calloc realloc".split()
WARN = ["-w"]


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr.decode("utf8", "replace")[-4000:]))
    return p.stdout


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith((".c", ".h")) and f != "RuleTable.c":
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src")))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0" + open(os.path.join(REPO, "src", f), "rb").read() + b"\0")
    for f in ("sim.c", "build.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()[:20]


def _objs(src, out, flags, jobs, extra=()):
    cs = [f for f in sources() if f.endswith(".c") and not f.startswith(("unit_tests", "system_tests"))]
    cs = sorted(cs) + list(extra)
    def one(f):
        o = os.path.join(out, f.replace("/", "_") + ".o")
        _run(["gcc", "-c", os.path.join(src, f), "-o", o] + flags)
        return o
    cs.sort(key=lambda f: f != "RuleTable.c")
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, cs))


def _copy_src(dst, overrides):
    for f in sources():
        t = os.path.join(dst, f)
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, "src", f), t)
    for h in ("Config.h", "Globals.h"):
        p = os.path.join(dst, h)
        s = open(p, newline="").read()
        for k, v in overrides.items():
            s = re.sub(r"(?m)^(#define[ \t]+%s[ \t]+)[^\r\n]*" % k, lambda m: m.group(1) + str(v), s)
        open(p, "w", newline="").write(s)


def build(names, jobs=8, quiet=True):
    """returns {variant: path of its simulator binary}"""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    root = os.path.join(BUILD, th)
    os.makedirs(root, exist_ok=True)
    res = {}
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = [n for n in names if not os.path.exists(os.path.join(root, "sim-" + n))]
        if todo:
            rt = os.path.join(root, "RuleTable.c")
            if not os.path.exists(rt):
                with tempfile.TemporaryDirectory(dir=root) as td:
                    s = os.path.join(td, "src")
                    _copy_src(s, {"CONCEPTS_MAX": 64, "ATOMS_MAX": 4096})
                    fl = ["-O0", "-std=c99", "-D_POSIX_C_SOURCE=199506L", "-pthread", "-DSTAGE=1"] + WARN
                    o = os.path.join(td, "o"); os.mkdir(o)
                    objs = _objs(s, o, fl, jobs)
                    exe = os.path.join(td, "NAR1")
                    _run(["gcc", "-pthread"] + objs + ["-lm", "-o", exe])
                    text = _run([exe, "NAL_GenerateRuleTable"])
                    open(rt + ".tmp", "wb").write(text); os.rename(rt + ".tmp", rt)
            with ThreadPoolExecutor(len(todo)) as ex:
                list(ex.map(lambda n: _variant(n, root, rt, jobs), todo))
        for n in names:
            res[n] = os.path.join(root, "sim-" + n)
    # keep only the newest trees
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if os.path.isdir(p) and d != th and not os.environ.get("SIM_KEEP_BUILDS"):
            shutil.rmtree(p, ignore_errors=True)
    return res


def _variant(name, root, rt, jobs):
    over, extra, opt = VARIANTS[name]
    with tempfile.TemporaryDirectory(dir=root) as td:
        s = os.path.join(td, "src")
        _copy_src(s, over)
        shutil.copyfile(rt, os.path.join(s, "RuleTable.c"))
        o = os.path.join(td, "o"); os.mkdir(o)
        fl = [opt, "-g", "-std=c99", "-D_POSIX_C_SOURCE=199506L", "-pthread", "-mfpmath=sse", "-msse2", "-DSTAGE=2"] + extra + WARN
        cs = [f for f in sources() if f.endswith(".c") and not f.startswith(("unit_tests", "system_tests")) and f != "main.c"]
        def one(f):
            ob = os.path.join(o, f.replace("/", "_") + ".o")
            ff = fl
            if f == "sim.c":
                _run(["gcc", "-c", os.path.join(HERE, "sim.c"), "-o", ob, opt, "-g", "-std=gnu11", "-DSTAGE=2", "-I", s, "-pthread",
                      "-mfpmath=sse", "-msse2"] + [x for x in extra if x.startswith("-D")] + WARN)
                return ob
            if f == "RuleTable.c":
                # generated rule code: no instrumentation inside (kept fast), its helper calls are still preemption points
                ff = [x for x in fl if not x.startswith("-fsanitize")]
            _run(["gcc", "-c", os.path.join(s, f), "-o", ob] + ff)
            return ob
        with ThreadPoolExecutor(jobs) as ex:
            objs = list(ex.map(one, ["RuleTable.c"] + cs + ["sim.c"]))
        exe = os.path.join(root, "sim-" + name)
        san = [x for x in extra if x.startswith("-fsanitize")]
        _run(["gcc", "-pthread"] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)] + san + ["-lm", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)


if __name__ == "__main__":
    try:
        r = build(sys.argv[1:] or ["tiny"])
        for k, v in r.items():
            print(k, v)
    except BuildError as e:
        print(e); sys.exit(2)
