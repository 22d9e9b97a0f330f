"""Runs simulated executions, judges them, gates, minimises and reports violations, writes evidence."""
import hashlib, json, multiprocessing as mp, os, random, re, subprocess, sys, time, traceback
import build as B

VERIF = B.VERIF


class SimError(Exception):
    """the machinery failed (not the code under test)"""


class Hist:
    """one recorded simulated execution: recs = [(kind, text)], kind '>' for a line of the system's own output"""
    def __init__(self, raw, variant, plan):
        self.raw, self.variant, self.plan = raw, variant, plan
        self.recs = []
        pend = None
        for ln in raw.split("\n"):
            if ln.startswith("\x01"):
                k, _, t = ln[1:].partition(" ")
                if k == "~":
                    if self.recs and self.recs[-1][0] == ">":
                        self.recs[-1] = (">~", self.recs[-1][1])
                    continue
                self.recs.append((k, t))
            else:
                self.recs.append((">", ln))
        while self.recs and self.recs[-1] == (">", ""):
            self.recs.pop()

    def kinds(self, *ks):
        return [r for r in self.recs if r[0] in ks]

    def first(self, k):
        for r in self.recs:
            if r[0] == k:
                return r[1]
        return None

    def out(self):
        return [t for k, t in self.recs if k in (">", ">~")]

    def text(self):
        """the system's output, exactly as written"""
        return "".join(t + ("\n" if k == ">" else "") for k, t in self.recs if k in (">", ">~"))

    def states(self):
        return [json.loads(t) for k, t in self.recs if k == "S"]

    def stats(self):
        t = self.first("STATS")
        d = {}
        if t:
            for kv in t.split():
                k, _, v = kv.partition("=")
                try:
                    d[k] = int(v)
                except ValueError:
                    d[k] = v
        return d

    def bad_end(self):
        """how the process ended if not normally"""
        for k, t in self.recs:
            if k in ("CRASH", "EXIT", "DEADLOCK", "TIMELIMIT", "STEPLIMIT", "OUTPUTLIMIT", "RECVSPIN", "INVSTOP"):
                return (k + " " + t).strip()
        if not any(k == "END" for k, t in self.recs):
            return "DIED without an end record"
        return None

    def abort_reason(self):
        """the message of a failed assertion of the system, if any"""
        o = [t for k, t in self.recs if k == ">"]
        for i, t in enumerate(o):
            if t == "Test failed." and i:
                return o[i - 1]
        return None

    def segments(self):
        """[(input text or None, [recs])] split at IN markers"""
        segs = [(None, [])]
        for k, t in self.recs:
            if k == "IN":
                segs.append((t.partition(" ")[2], []))
            elif k == "EOF":
                segs.append((None, []))
            else:
                segs[-1][1].append((k, t))
        return segs

    def hash(self):
        return hashlib.sha256(self.raw.encode("latin-1", "replace")).hexdigest()[:16]


class Runner:
    def __init__(self, bins):
        self.bins = bins
        self.count = 0
        self.simns = 0
        self.faults = {}
        self.switches = 0
        self.cycles = 0
        self.scheds = set()
        self.states = 0

    def run(self, variant, plan, timeout=120):
        if isinstance(plan, (list, tuple)):
            plan = "\n".join(plan) + "\n"
        try:
            p = subprocess.run([self.bins[variant], "/dev/stdin"], input=plan.encode("latin-1"), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise SimError("simulator timed out on variant %s" % variant)
        raw = p.stdout.decode("latin-1")
        if p.returncode not in (0,) :
            raw += "\n\x01CRASH process status %d %s\n" % (p.returncode, p.stderr.decode("latin-1")[-300:].replace("\n", " "))
        elif b"runtime error" in p.stderr:
            m = re.search(r"[^\n]*runtime error[^\n]*", p.stderr.decode("latin-1"))
            raw += "\n\x01UB %s\n" % m.group(0)
        h = Hist(raw, variant, plan)
        self.count += 1
        st = h.stats()
        self.simns += st.get("simns", 0)
        self.switches += st.get("switches", 0)
        self.cycles += st.get("cycles", 0)
        self.states += st.get("states", 0)
        if st.get("switches", 0):
            self.scheds.add(st.get("schedhash"))
        for k, t in h.recs:
            if k == "FAULT":
                n = t.split()[0]
                self.faults[n] = self.faults.get(n, 0) + 1
            elif k == "NETDROP":
                self.faults["datagram-dropped"] = self.faults.get("datagram-dropped", 0) + 1
        return h


def Violation(kind, detail):
    return (kind, str(detail)[:1500])


class Prop:
    """One property.  A case is a JSON-serialisable dict {'params':..., 'ops':[...], ...} that decides everything."""
    id = None
    title = ""
    level = "exploration"
    technique = "deterministic simulation with fault injection"
    level_note = ""
    variants = ("tiny",)
    quick_cases = 200
    thorough_cases = 20000
    rule = ""
    assumptions = []
    real = ()
    stubs = ["threads, mutexes and condition variables (coroutines under a seeded scheduler)", "clock and sleeping (simulated)",
             "UDP sockets (simulated network)", "standard input/output (simulated streams)", "process exit (recorded)"]

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, case, runner):
        """-> (violations, info) ; info: dict of counters, plus 'sig' (what makes this case distinct), 'nontrivial' bool"""
        raise NotImplementedError

    def sample(self, case):
        return {"params": case.get("params"), "ops": case.get("ops", [])[:12]}

    # shrinking: which lists of the case can lose elements
    shrink_lists = ("ops",)

    def simplify(self, case):
        """yields simpler variants of the case's parameters"""
        return []


def stable_seed(*xs):
    return int(hashlib.sha256(repr(xs).encode()).hexdigest()[:15], 16)


# ---------------------------------------------------------------- workers
_prop = None
_bins = None
_seed = 1
_tier = "quick"


def _init(prop, bins, seed, tier):
    global _prop, _bins, _seed, _tier
    _prop, _bins, _seed, _tier = prop, bins, seed, tier


def make_case(prop, seed, i, tier):
    return prop.gen(random.Random(stable_seed(prop.id, seed, i)), i, tier)


def _work(i):
    r = Runner(_bins)
    try:
        case = make_case(_prop, _seed, i, _tier)
        v, info = _prop.execute(case, r)
        return (i, v, info, None, (r.count, r.simns, r.switches, r.cycles, r.faults, r.scheds, r.states))
    except Exception:
        return (i, [], {}, traceback.format_exc(), (0, 0, 0, 0, {}, set(), 0))


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", ln)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def unknown(prop_id, vs, known=None):
    known = known_findings(prop_id) if known is None else known
    return [v for v in vs if not any(rx.search(v[0] + ": " + v[1]) for rx, _ in known)]


def shrink(prop, case, kind, bins, budget, known):
    """ddmin over the case's lists, keeping the violation kind"""
    t0 = time.time()
    tried = [0]

    def fails(c):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        try:
            v, _ = prop.execute(c, Runner(bins))
        except Exception:
            return False
        return any(x[0] == kind for x in unknown(prop.id, v, known))

    best = case
    # seeded schedule -> explicit list of preemptions, so that it can be minimised too
    for _ in range(2):
        for key in prop.shrink_lists:
            n = 2
            while best.get(key) and len(best[key]) >= 1 and time.time() - t0 < budget:
                lst = best[key]
                size = max(1, len(lst) // n)
                done = False
                for s in range(0, len(lst), size):
                    c = dict(best); c[key] = lst[:s] + lst[s + size:]
                    if fails(c):
                        best, done = c, True
                        n = max(2, n - 1)
                        break
                if not done:
                    if size == 1:
                        break
                    n = min(len(lst), n * 2)
        for c in prop.simplify(best):
            if fails(c):
                best = c
    return best, tried[0]


def write_replay(prop, case, v, seed, index, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (prop.id, hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    json.dump(dict(property=prop.id, seed=seed, index=index, kind=v[0], detail=v[1], case=case, **extra), open(path, "w"), indent=1)
    return os.path.relpath(path, VERIF)


def run_check(prop, tier, seed, cases=None, workers=8, wall=None, quiet=False):
    t0 = time.time()
    try:
        bins = B.build(list(prop.variants))
    except B.BuildError as e:
        print("build failed:", e)
        return 2
    tb = time.time() - t0
    n = cases or (prop.quick_cases if tier == "quick" else prop.thorough_cases)
    wall = wall or (420 if tier == "quick" else 3600 * 3)
    known = known_findings(prop.id)
    agg = dict(evaluations=0, runs=0, simns=0, switches=0, cycles=0, faults={}, counters={}, states=0)
    sigs, scheds = set(), set()
    samples, viol, errors = [], [], []
    import concurrent.futures as cf
    with mp.get_context("fork").Pool(workers, _init, (prop, bins, seed, tier)) as pool:
        it = pool.imap_unordered(_work, range(n))
        for _ in range(n):
            try:
                (i, vs, info, err, st) = it.next(timeout=200)
            except mp.TimeoutError:
                errors.append((-1, "no case finished within 200 s"))
                break
            if err:
                errors.append((i, err))
                if len(errors) > 3:
                    break
                continue
            agg["evaluations"] += 1
            agg["runs"] += st[0]; agg["simns"] += st[1]; agg["switches"] += st[2]; agg["cycles"] += st[3]; agg["states"] += st[6]
            for k, c in st[4].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + c
            scheds |= st[5]
            for k, c in info.items():
                if k != "sig" and isinstance(c, (int, float)) and not isinstance(c, bool):
                    agg["counters"][k] = agg["counters"].get(k, 0) + c
            if info.get("nontrivial", True):
                sigs.add(info.get("sig", i))
                if len(samples) < 3:
                    samples.append(i)
            u = unknown(prop.id, vs, known)
            if u:
                viol.append((i, u))
                if len(viol) >= 6:
                    break
            if time.time() - t0 > wall:
                break
        pool.terminate()
    search_s = time.time() - t0 - tb
    code = 0
    if errors:
        print("error in case %d:\n%s" % errors[0])
        if not viol:
            return 2
    reported = set()
    nviol = 0
    viol.sort()
    for i, vs in viol:
        kinds = [v for v in vs if v[0] not in reported]
        if not kinds or len(reported) >= 3:
            continue
        v = kinds[0]
        case = make_case(prop, seed, i, tier)
        # gate: the same case must fail the same way again, twice, in fresh processes
        again = []
        for _ in range(2):
            try:
                again.append(unknown(prop.id, prop.execute(case, Runner(bins))[0], known))
            except Exception:
                again.append([("error", traceback.format_exc())])
        if not all(any(x[0] == v[0] for x in a) for a in again):
            print("violation of case %d does not replay: %r vs %r" % (i, v, again))
            return 2
        reported.add(v[0])
        case2 = prop.explicit(case, v[0], bins, known) if hasattr(prop, "explicit") else case
        small, tried = shrink(prop, case2, v[0], bins, 45 if tier == "quick" else 240, known)
        sv = [x for x in unknown(prop.id, prop.execute(small, Runner(bins))[0], known) if x[0] == v[0]]
        if not sv:
            small, sv = case, [v]
        path = write_replay(prop, small, sv[0], seed, i, {"shrink_runs": tried})
        print("seed=%d case=%d kind=%s" % (seed, i, v[0]))
        print("  " + sv[0][1])
        print("  minimised to " + ", ".join("%d %s" % (len(small[k]), k) for k in prop.shrink_lists if small.get(k) is not None))
        print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
        nviol += 1
        code = 1
    for rx, desc in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, desc))
    w = time.time() - t0
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, wall_s=round(w, 2), violations=nviol,
              assumptions=list(prop.assumptions),
              coverage=dict(
                  evaluations=agg["evaluations"], distinct_nontrivial=len(sigs), rule=prop.rule,
                  samples=[prop.sample(make_case(prop, seed, i, tier)) for i in samples],
                  simulated_runs=agg["runs"], runs_per_hour=int(agg["runs"] / max(search_s, .01) * 3600),
                  seeds_per_hour=int(agg["evaluations"] / max(search_s, .01) * 3600),
                  simulated_seconds=round(agg["simns"] / 1e9, 3), reasoning_cycles=agg["cycles"], context_switches=agg["switches"],
                  distinct_schedules=len(scheds), abstract_memory_states=agg["states"], faults_injected=agg["faults"],
                  probes=agg["counters"], build_s=round(tb, 1),
                  real_components=["all of /repo/src except main.c, compiled from the current tree (variants: %s)" % ", ".join(prop.variants)] + list(prop.real),
                  stubbed_components=prop.stubs))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop.id + ".json")
    json.dump(ev, open(tmp + ".tmp", "w"), indent=1)
    os.replace(tmp + ".tmp", tmp)
    if not quiet:
        print("%s %s: %d cases, %d simulated runs, %d cycles, %.1f s (build %.1f s), faults %s, probes %s" % (
            prop.id, tier, agg["evaluations"], agg["runs"], agg["cycles"], w, tb, agg["faults"], agg["counters"]))
    return code
