"""The Python clients (misc/Python): the pipe protocol to the reasoner, and the memory they keep on disk.
The clients run from the working tree in this process; the reasoner they spawn is the simulated shell, the pipes, the disk and the crashes are simulated."""
import contextlib, errno, io, json, os, random, re, sys, types
import build as B
from core import Prop, Violation, SimError
from p_shell import kv, lines
import gen

CLIENT = os.path.join(B.REPO, "misc", "Python")


class Blocked(BaseException):
    """the client waits for output that will never come"""


class Crash(BaseException):
    """the client's process dies here"""


class SimProc:
    """a spawned reasoner: bytes written to stdin become lines of a simulated session, whose output comes back in pieces"""
    count = 0

    def __init__(self, R, params, rng, crash_at=None, world=None):
        self.R, self.params, self.rng, self.crash_at, self.world = R, params, rng, crash_at, world
        self.pid = 4000 + SimProc.count
        self.sent = b""          # everything the client wrote
        self.out = b""           # output for all complete lines sent
        self.read = 0            # how much of it was delivered
        self.upto = -1
        self.dead = False
        self.spins = 0
        self.concepts = 0        # how many the reasoner held at most
        self.returncode = None
        p = self

        class In(io.RawIOBase):
            def writable(self):
                return True

            def write(self, b):
                p.check()
                if p.dead:
                    raise BrokenPipeError(errno.EPIPE, "Broken pipe")
                b = bytes(b)[:p.rng.choice([1, 5, 4096, 4096])]   # short writes
                p.sent += b
                return len(b)

        class Out(io.RawIOBase):
            def readable(self):
                return True

            def readinto(self, buf):
                p.check()
                p.refresh()
                if p.read >= len(p.out):
                    if not p.dead:
                        raise Blocked("the client waits for output although the reasoner waits for input")
                    p.spins += 1
                    if p.spins > 300:
                        raise Blocked("the client reads on and on after the reasoner has ended")
                    return 0
                n = min(len(buf), len(p.out) - p.read, p.rng.choice([1, 3, 10, 100, 4096, 4096]))
                buf[:n] = p.out[p.read:p.read + n]
                p.read += n
                return n
        self.stdin = io.TextIOWrapper(io.BufferedWriter(In()), encoding="latin-1", newline="\n", write_through=True)
        self.stdout = io.TextIOWrapper(io.BufferedReader(Out()), encoding="latin-1")

    def check(self):
        if self.world and self.world.dead:
            raise Crash()

    def refresh(self):
        n = self.sent.rfind(b"\n") + 1
        if n == self.upto or self.dead:
            return
        self.upto = n
        ls = self.sent[:n].decode("latin-1").split("\n")[:-1]
        h = session(self.R, self.params, ls)
        out = upto_eof(h)
        b = h.bad_end()
        self.out = out.encode("latin-1")
        m = re.findall(r"total concepts:\s+(\d+)", h.raw)
        self.concepts = max(self.concepts, int(m[-1]) if m else 0)
        if (b and b.startswith("EXIT")) or h.first("QUIT") or "quit" in [l.strip() for l in ls]:
            self.dead = True
        elif b:
            raise SimError("the reasoner died: " + b)
        if self.crash_at is not None and len(self.out) > self.crash_at:
            self.out = self.out[:self.crash_at]
            self.dead = True
            self.R.faults["reasoner-killed"] = self.R.faults.get("reasoner-killed", 0) + 1

    def poll(self):
        self.refresh()
        return 1 if self.dead else None


def session(R, params, ls):
    """the run of these lines; the client's reading and the judgement ask for the same one"""
    key = (json.dumps(params, sort_keys=True), tuple(ls))
    c = R.__dict__.setdefault("sessions", {})
    if key not in c:
        if len(c) > 8:
            c.clear()
        c[key] = R.run("small", ["mode shell"] + kv(params) + lines(ls))
    return c[key]


def upto_eof(h):
    o = []
    for k, t in h.recs:
        if k == "EOF":
            break
        if k in (">", ">~"):
            o.append(t + ("\n" if k == ">" else ""))
    return "".join(o)


def load_client():
    """the client module, freshly imported as a program does"""
    src = open(os.path.join(CLIENT, "NAR.py")).read()
    m = types.ModuleType("NAR")
    m.__file__ = os.path.join(CLIENT, "NAR.py")
    exec(compile(src, m.__file__, "exec"), m.__dict__)
    return m


@contextlib.contextmanager
def spawning(make):
    import subprocess
    real = subprocess.Popen

    class Switch(real):
        def __new__(cls, args, *a, **k):
            if isinstance(args, (list, tuple)) and len(args) == 2 and args[1] == "shell":
                return make()
            return object.__new__(cls)
    subprocess.Popen = Switch
    try:
        yield
    finally:
        subprocess.Popen = real


FIELDS = re.compile(r" (?:Priority=|Stamp=|creationTime=|occurrenceTime=|Truth: )")


def read_task(s):
    """what a printed line says, read independently of the client"""
    m = FIELDS.search(s)
    head, rest = (s[:m.start()], s[m.start():]) if m else (s, "")
    head = head.rstrip()
    t = {"occurrenceTime": "eternal"}
    m = re.match(r"(.*)([.!?])(?: (:[|/\\]:))?$", head, re.S)
    if not m:
        raise SimError("unreadable line %r" % s)
    t["term"], t["punctuation"] = m.group(1), m.group(2)
    f = lambda rx: (lambda x: x.group(1) if x else None)(re.search(rx, rest))
    if m.group(3) == ":|:":
        t["occurrenceTime"] = f(r" occurrenceTime=(-?\d+)") or "now"
    if f(r" Stamp=(\[[\d,]*\])"):
        t["Stamp"] = json.loads(f(r" Stamp=(\[[\d,]*\])"))
    if f(r" Priority=([\d.]+)"):
        t["Priority"] = float(f(r" Priority=([\d.]+)"))
    if " Truth: " in rest:
        t["truth"] = {"frequency": float(f(r" frequency=([\d.]+)")), "confidence": float(f(r" confidence=([\d.]+)"))}
    return t


def norm_task(t):
    r = dict(t)
    if "Priority" in r:
        r["Priority"] = float(r["Priority"])
    if "truth" in r:
        r["truth"] = {k: float(v) for k, v in r["truth"].items()}
    if "Stamp" in r:
        r["Stamp"] = list(r["Stamp"])
    if "occurrenceTime" in r:
        r["occurrenceTime"] = str(r["occurrenceTime"])
    return r


def read_output(ls, request):
    g = lambda *ps: [read_task(l[len(p):]) for l in ls for p in ps if l.startswith(p)]
    ex = []
    for l in ls:
        m = re.match(r"(\^\S+)(?: executed with args ?(.*))?$", l)
        if m:
            a = m.group(2) or ""
            ex.append({"operator": m.group(1), "arguments": a[len("({SELF} * "):-1] if a else []})
    reason = None
    for l in ls:
        m = re.match(r"decision expectation=(\S+) implication: (.*) precondition: (.*)$", l)
        if m:
            im, pr = read_task(m.group(2).rstrip()), read_task(m.group(3))
            reason = {"desire": float(m.group(1)), "hypothesis": im, "precondition": pr}
    return {"input": g("Input: "), "derivations": g("Derived: ", "Revised: "), "answers": g("Answer: "), "selections": g("Selected: "),
            "executions": ex, "reason": reason, "raw": "\n".join(ls), "requestOutputArgs": request}


KEYS = ["input", "derivations", "answers", "selections"]


def compare(got, want):
    if not isinstance(got, dict):
        return "returned %r" % (got,)
    for k in KEYS:
        try:
            a, b = [norm_task(x) for x in got[k]], want[k]
        except (KeyError, ValueError, TypeError) as e:
            return "%s: %r (%r)" % (k, got.get(k), e)
        if a != b:
            d = [(x, y) for x, y in zip(a, b) if x != y] or [(a[len(b):][:1], b[len(a):][:1])]
            return "%s: %d against %d printed, first difference %r, printed %r" % (k, len(a), len(b), d[0][0], d[0][1])
    e = [{k: x.get(k) for k in ("operator", "arguments")} for x in got["executions"]]
    if e != want["executions"]:
        return "executions %r, printed %r" % (e, want["executions"])
    r = got["reason"]
    if (r is None) != (want["reason"] is None):
        return "reason %r, printed %r" % (r, want["reason"])
    if r is not None:
        h, p, w = norm_task(r["hypothesis"]), norm_task(r["precondition"]), want["reason"]
        if abs(float(r["desire"]) - w["desire"]) > 1e-9 or h != w["hypothesis"] or {k: v for k, v in p.items() if k != "occurrenceTime"} != {
                k: v for k, v in w["precondition"].items() if k != "occurrenceTime"}:
            return "reason %r, printed %r" % (r, w)
    if got["raw"] != want["raw"]:
        return "raw output %r, printed %r" % (got["raw"][:300], want["raw"][:300])
    if bool(got["requestOutputArgs"]) != want["requestOutputArgs"]:
        return "requestOutputArgs %r, printed %r" % (got["requestOutputArgs"], want["requestOutputArgs"])
    return None


BAD = ["<a --> b", "(a b c d). :|:", "*setopname 99 ^x", "<a --> b>>.", "*setvalue", "a --> . {2.0 0.9}", "(). :|:", "^"]


class K01(Prop):
    id = "K01"
    variants = ("small",)
    real = ("misc/Python/NAR.py from the current tree",)
    quick_cases = 1500
    thorough_cases = 20000
    rule = ("a program sends inputs to one or two reasoners through the Python client; pipes deliver in pieces, operations ask for results, the reasoner is refused by a malformed line or killed at some byte of its output; "
            "non-trivial when at least four inputs were answered")
    stubs = ["the pipes between client and reasoner and the spawning of the reasoner (simulated)"] + Prop.stubs
    assumptions = ["the client process is single threaded; a bare number 0 is the client's own delimiter and not sent by programs"]

    def gen(self, rng, i, tier):
        p = {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}
        nar = rng.choice([1, 1, 2])
        ops = []
        if rng.random() < .5:
            ops = [[0, x] for x in gen.session(rng, rng.choice([4, 8, 14])) if x.strip() not in ("0", "quit", "") and not re.fullmatch(r"0+", x)]
        else:
            ops.append([0, "*motorbabbling=false"])
            names = gen.OPS[:3]
            asks = [rng.random() < .5 for _ in range(3)]
            for k in range(3):
                if asks[k]:
                    ops.append([0, "*setopstdin %d" % (k + 1)])
            for e in range(rng.choice([1, 3, 5])):
                k = rng.randrange(3)
                a, r = rng.choice([("#1", "{y}"), ("#1", "(a * b)"), ("{x}", "{x}"), ("{x}", "{z}"), ("#1", "<m --> n>"), ("(a * b)", "(a * b)"), ("(u * (v * w))", "z")])
                op = "<({SELF} * %s) --> %s>" % (a, names[k]) if asks[k] or rng.random() < .6 else names[k]
                ops += [[0, "<(p%d &/ %s) =/> g%d>. {1.0 0.99}" % (e, op, e)], [0, "p%d. :|:" % e], [0, "g%d! :|:" % e]]
                if asks[k]:
                    ops.append([0, r])
                elif rng.random() < .5:   # a program may send several lines at once
                    ops[-3:] = [[0, "\n".join(x for _, x in ops[-3:])]]
                    if len(ops) > 1 and "\n" in ops[-2][1]:
                        ops[-2:] = [[0, "\n".join(x for _, x in ops[-2:])]]
                if rng.random() < .3:
                    ops.append([0, rng.choice(["3", "p%d? :|:" % e, "g%d? :/:" % e, "p%d? :\\:" % e, "g%d?" % e])])
        extra = ["<a --> b>?", "<zz --> y>?", "x1? :/:", "x1? :\\:", "x1? :|:", "//a comment", "//done with 0 steps", "*concepts", "*stats", "*stats", "<Stamp --> b>.", "<Truth --> b>?",
                 "<Priority --> a1>. :|:", "*opconfig", "2", "", "<?1 --> b>?", "*volume=0", "*volume=100"]
        for _ in range(rng.choice([0, 1, 3])):
            ops.insert(rng.randrange(len(ops) + 1), [0, rng.choice(extra)])
        ops = [[rng.randrange(nar), x] for _, x in ops] if nar > 1 and rng.random() < .6 else ops
        if rng.random() < .15:
            ops.insert(rng.randrange(len(ops) + 1), [0, rng.choice(BAD)])
        if rng.random() < .1:
            ops.append([rng.randrange(nar), "exit()"])
        return {"params": p, "ops": ops, "nar": nar, "io": rng.randrange(1 << 30), "print": rng.choice([0, 1, 2]),
                "kill": rng.choice([None, None, None, rng.randrange(60, 4000)])}

    def execute(self, case, R):
        rng = random.Random(case["io"])
        procs, vs, info = [], [], {"inputs": 0, "requests": 0, "lost_reasoner": 0}
        printed = io.StringIO()

        def make():
            pr = SimProc(R, dict(case["params"], prng=case["params"]["prng"] + len(procs)), random.Random(case["io"] + len(procs)),
                         case["kill"] if not procs else None)
            procs.append(pr)
            return pr

        sent = []        # per reasoner: the lines a correct client sends
        used = []        # per reasoner: output lines already accounted for

        def expect(n, text, pending):
            """the output that belongs to this input: (lines, request, alive)"""
            sent[n] += text.split("\n") + ["0"]
            h = session(R, procs[n].params, sent[n])
            out = upto_eof(h)
            if n == 0 and case["kill"] is not None and len(out.rstrip()) > case["kill"]:
                return None, False, False, out[:case["kill"]]
            ls = out.split("\n")[:-1]
            ls = ls[used[n]:]
            b = h.bad_end()
            if b and not b.startswith("EXIT"):
                raise SimError("the reasoner died: " + b)
            if b:
                return None, False, False, None
            if ls and ls[-1].startswith("//Operation result product expected"):
                used[n] += len(ls)
                return ls[:-1], True, True, None
            if ls[-2:] != ["performing 0 inference steps:", "done with 0 additional inference steps."]:
                raise SimError("unexpected end of output %r after %r" % (ls[-3:], text))
            used[n] += len(ls)
            return ls[:-2], False, True, None

        with spawning(make), contextlib.redirect_stdout(printed):
            try:
                m = load_client()
            except Blocked as e:
                return [Violation("waits", "while starting: %s" % e)], {}
            except SimError:
                raise
            except Exception as e:
                if procs and procs[0].dead:
                    return [], {"sig": "dead", "nontrivial": False}
                return [Violation("start", "importing the client failed: %r" % e)], {}
            for _ in range(1, case["nar"]):
                m.spawnNAR()
            for pr in procs:
                sent.append([])
                used.append(0)
            _, _, alive, _ = expect(0, "*volume=100", False)
            if len(procs) != case["nar"]:
                return [Violation("spawn", "%d reasoners were spawned, %d expected" % (len(procs), case["nar"]))], {}
            pending = [False] * len(procs)
            for n, text in case["ops"]:
                pr = procs[n]
                if text == "exit()":
                    try:
                        m.Exit(usedNAR=pr)
                    except Exception as e:
                        if not pr.dead:
                            vs.append(Violation("exit", "Exit failed: %r" % e))
                        break
                    pr.stdin.flush()
                    if pr.sent.split(b"\n")[-2:] != [b"quit", b""]:
                        vs.append(Violation("exit", "Exit did not tell the reasoner to quit, it sent %r" % pr.sent[-30:]))
                    break
                if pending[n] and text == "*stats":
                    continue
                want, request, alive, cut = expect(n, text, pending[n])
                P = case["print"] == 1 or (case["print"] == 2 and rng.random() < .5)
                mark = len(printed.getvalue())
                got = err = None
                try:
                    got = m.AddInput(text, Print=P, usedNAR=pr) if n or rng.random() < .5 else m.AddInput(text, Print=P)
                except Blocked as e:
                    vs.append(Violation("waits", "AddInput(%r): %s" % (text, e))); break
                except SimError:
                    raise
                except Exception as e:
                    err = e
                if not alive:
                    info["lost_reasoner"] += 1
                    if err is None and not (cut is not None and not pr.dead):
                        vs.append(Violation("lost", "the reasoner ended while answering %r, but AddInput returned %r as if it had answered" % (text, str(got)[:200])))
                    break
                info["inputs"] += 1
                if err is not None:
                    vs.append(Violation("error", "AddInput(%r) failed: %r; the output was %r" % (text, err, want[:4]))); break
                if text == "*stats":
                    w = {}
                    for l in want:
                        if ":" in l:
                            w[l.split(":")[0].strip().replace(" ", "_")] = float(l.split(":")[1])
                    if got != w:
                        vs.append(Violation("stats", "AddInput('*stats', Print=%s) returned %r, printed were %r" % (P, got, w))); break
                    continue
                pending[n] = request
                info["requests"] += request
                try:
                    d = compare(got, read_output(want_strip(want), request))
                except (ValueError, TypeError, KeyError) as e:
                    d = "returned %r: %r" % (got, e)
                if d:
                    vs.append(Violation("output", "AddInput(%r): %s" % (text, d))); break
                new = printed.getvalue()[mark:]
                if new != (got["raw"] + "\n" if P else ""):
                    vs.append(Violation("print", "AddInput(%r, Print=%s) printed %r, raw output %r" % (text, P, new[:200], got["raw"][:200]))); break
                if pr.sent.decode("latin-1").split("\n")[:-1] != sent[n]:
                    vs.append(Violation("protocol", "after %r the client had sent %r, expected %r" % (text, pr.sent[-60:], sent[n][-4:]))); break
        return vs, dict(info, sig="%d %d" % (case["io"], len(case["ops"])), nontrivial=info["inputs"] >= 4)


def want_strip(ls):
    return [l.strip() for l in ls]


class Disk:
    """files as a process sees them: what was written before the process died stays, what was still buffered is gone"""
    def __init__(self, R, rng, crash_at, full_at):
        self.files, self.R, self.rng, self.crash_at, self.full_at = {}, R, rng, crash_at, full_at
        self.ops = 0
        self.dead = False

    def reboot(self, crash_at, full_at):
        self.ops, self.dead, self.crash_at, self.full_at = 0, False, crash_at, full_at

    def fault(self, name):
        self.R.faults[name] = self.R.faults.get(name, 0) + 1

    def tick(self):
        if self.dead:
            raise Crash()
        self.ops += 1
        if self.crash_at is not None and self.ops >= self.crash_at:
            self.dead = True
            self.fault("client-killed")
            raise Crash()

    def mine(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        return isinstance(p, str) and (not os.path.isabs(p) or p in self.files)

    def open(self, name, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if not self.mine(name):
            raise SimError("the client opened %r" % (name,))
        name = os.path.normpath(os.fspath(name))
        d = self
        if "r" in mode and "+" not in mode:
            self.tick()
            if name not in self.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", name)
            b = io.BytesIO(self.files[name])
            return b if "b" in mode else io.TextIOWrapper(b, encoding="utf-8")
        self.tick()
        if "x" in mode and name in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", name)
        if "a" not in mode and "+" not in mode or "w" in mode:
            self.files[name] = b""
        self.files.setdefault(name, b"")

        class Raw(io.RawIOBase):
            def writable(self):
                return True

            def fileno(self):
                return 4096

            def write(self, b):
                b = bytes(b)
                d.tick()
                if d.full_at is not None and d.ops >= d.full_at:
                    d.fault("disk-full")
                    if d.full_at == d.ops and len(b) > 1:
                        b = b[:len(b) // 2]       # what still fits
                    else:
                        raise OSError(errno.ENOSPC, "No space left on device")
                elif len(b) > 1 and d.rng.random() < .5:
                    b = b[:d.rng.randrange(1, len(b))]
                    d.fault("short-write")
                d.files[name] += b
                return len(b)
        w = io.BufferedWriter(Raw())
        return w if "b" in mode else io.TextIOWrapper(w, encoding="utf-8")

    def replace(self, a, b, *x, **k):
        self.tick()
        a, b = os.path.normpath(os.fspath(a)), os.path.normpath(os.fspath(b))
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        self.files[b] = self.files.pop(a)

    def remove(self, a, *x, **k):
        self.tick()
        if self.files.pop(os.path.normpath(os.fspath(a)), None) is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)

    def exists(self, a):
        return os.path.normpath(os.fspath(a)) in self.files

    @contextlib.contextmanager
    def mounted(self):
        sub = {(os, "replace"): self.replace, (os, "rename"): self.replace, (os, "remove"): self.remove, (os, "unlink"): self.remove,
               (os, "fsync"): lambda fd: self.tick(), (os.path, "exists"): self.exists, (os.path, "isfile"): self.exists,
               (os.path, "getsize"): lambda a: len(self.files[os.path.normpath(os.fspath(a))])}
        old = {k: getattr(*k) for k in sub}

        def pick(o, n):
            return lambda a, *x, **k: (n if isinstance(a, int) and a == 4096 or self.mine(a) else o)(a, *x, **k)
        hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
        for k, n in sub.items():
            setattr(k[0], k[1], pick(old[k], n))
        try:
            yield
        finally:
            for k, o in old.items():
                setattr(k[0], k[1], o)
            sys.unraisablehook = hook


class Stop(BaseException):
    pass


def shown(out):
    """[(term, frequency, confidence, stamp)] of the eternal judgements printed; and those of inputs alone"""
    r, inp = [], []
    for l in out.split("\n"):
        for p in ("Input: ", "Derived: ", "Revised: ", "Answer: "):
            if l.startswith(p) and " Truth: " in l and " Stamp=" in l:
                t = read_task(l[len(p):])
                if t["punctuation"] == "." and t["occurrenceTime"] == "eternal":
                    term = re.sub(r"^dt=\S+ ", "", t["term"])
                    e = (term, t["truth"]["frequency"], t["truth"]["confidence"], t["Stamp"])
                    r.append((p, e))
                    if p == "Input: ":
                        inp.append(e)
    return r, inp


class K02(Prop):
    id = "K02"
    variants = ("small",)
    real = ("misc/Python/persistentNAR.py and NAR.py from the current tree",)
    quick_cases = 320
    thorough_cases = 20000
    rule = ("two to four lives of the persistent client over one disk: knowledge is entered, the client is killed at some read of its input or operation on its file, the disk is full, or the reasoner is lost; then it is restarted and asked; "
            "non-trivial when at least two lives answered something")
    stubs = ["disk, pipes and spawning of the reasoner (simulated); standard input of the client (scripted)"] + Prop.stubs
    assumptions = ["a killed process keeps what it has written to its files (no power failure)"]
    shrink_lists = ("lives",)

    def gen(self, rng, i, tier):
        p = {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}
        at = ["a%d" % k for k in range(rng.choice([4, 6, 10]))]

        def st():
            k = rng.random()
            a, b = rng.sample(at, 2)
            if k < .7:
                return "<%s --> %s>" % (a, b)
            if k < .8:
                return "<%s <-> %s>" % tuple(sorted((a, b)))
            if k < .88:
                return "<(%s * %s) --> r>" % (a, b)
            if k < .94:
                return "<{%s} --> %s>" % (a, b)
            return "<<$1 --> %s> ==> <$1 --> %s>>" % (a, b)
        lives = []
        for n in range(rng.choice([2, 2, 3, 4])):
            ls = []
            for _ in range(rng.choice([2, 4, 8])):
                k = rng.random()
                if k < .55:
                    ls.append(st() + "." + rng.choice(["", "", " {0.0 0.9}", " {1.0 0.5}", " {0.7 0.8}", " :|:"]))
                elif k < .76:
                    ls.append(st() + "?")
                elif k < .85:
                    ls.append("<?1 --> %s>?" % rng.choice(at))
                elif k < .93:
                    ls.append(str(rng.randrange(1, 4)))
                elif k < .98:
                    ls.append("// a comment")
                else:
                    ls.append(rng.choice(BAD[:3]))
            lives.append({"lines": ls, "crash": rng.choice([None, rng.randrange(1, 12), rng.randrange(1, 60)]), "full": rng.choice([None, None, None, rng.randrange(1, 40)]),
                          "print": rng.random() < .3, "ask": rng.randrange(1 << 30)})
        return {"params": p, "lives": lives, "io": rng.randrange(1 << 30)}

    def execute(self, case, R):
        vs, info = [], {"lives": 0, "questions": 0, "recalled": 0, "remembered": 0}
        disk = Disk(R, random.Random(case["io"]), None, None)
        ever = {}            # term -> records ever printed
        must = {}            # term -> confidence that has to survive
        answered_lives = 0
        try:
            src = open(os.path.join(CLIENT, "persistentNAR.py")).read()
        except OSError as e:
            return [Violation("start", repr(e))], {}
        code = compile(src, "persistentNAR.py", "exec")
        for n, life in enumerate(case["lives"]):
            last = n == len(case["lives"]) - 1
            disk.reboot(None if last else life["crash"], None if last else life["full"])
            start = disk.files.get("mem.json")
            try:
                mem = {} if start is None else json.loads(start)
            except ValueError:
                vs.append(Violation("torn", "life %d: mem.json does not hold the remembered knowledge any more: %r" % (n, start[-80:]))); break
            stamps = {t: [e[2] for e in es] for t, es in ever.items()}
            maxid = max([0] + [max(e[3]) for e in mem.values() if e[3]])
            ar = random.Random(life["ask"])
            known = [t for t in sorted(mem) if re.match(r"<[^<>=]*(?:-->|<->) [^<>=]*>$", t) and "$" not in t and "#" not in t and mem[t][1] > 0.02]
            ls = list(life["lines"])
            for t in ar.sample(known, min(len(known), 3 if last else 1)):
                ls.insert(ar.randrange(len(ls) + 1), t + "?")
            if last and ar.random() < .4:     # the reasoner forgets everything, the client does not
                ls += ["*reset"] + [t + "?" for t in ar.sample(known, min(len(known), 3))]
            pos = [0]
            procs = []
            state = {"since": 0, "fault": False}
            outtext = io.StringIO()
            done = []        # [(line, start of its output)]

            def make():
                pr = SimProc(R, dict(case["params"], prng=case["params"]["prng"] + n), random.Random(case["io"] + n), None, disk)
                procs.append(pr)
                return pr

            def collect():
                r = shown(procs[0].out.decode("latin-1")) if procs else ([], [])
                for _, (t, f, c, s) in r[0]:
                    ever.setdefault(t, []).append((f, c, s))
                return r

            def judge(final):
                """what is on disk when a line has been answered"""
                all_, inp = collect()
                b = disk.files.get("mem.json")
                try:
                    m = json.loads(b) if b is not None else None
                except ValueError:
                    m = None
                if m is None:
                    return Violation("not-stored", "after line %r mem.json is %r" % (ls[pos[0] - 1], b and b[-60:]))
                for p, (t, f, c, s) in all_:
                    if p != "Answer: ":
                        must[t] = max(must.get(t, 0), c)
                for t, c in must.items():
                    if t not in m:
                        return Violation("forgotten", "%s was printed with confidence %f, mem.json does not hold it after line %r" % (t, c, ls[pos[0] - 1]))
                    if m[t][1] < c - 1e-9:
                        return Violation("weaker", "%s was printed with confidence %f, mem.json holds it with %f after line %r" % (t, c, m[t][1], ls[pos[0] - 1]))
                return self.genuine(m, ever)

            def read(prompt=""):
                if disk.dead:
                    raise Crash()
                if pos[0]:
                    line = ls[pos[0] - 1]
                    if not line.startswith("//"):
                        v = judge(False)
                        if v:
                            vs.append(v); raise Stop()
                    done.append((line, outtext.getvalue()[state["since"]:], json.loads(disk.files.get("mem.json", b"{}"))))
                disk.tick()
                state["since"] = len(outtext.getvalue())
                if pos[0] >= len(ls):
                    raise EOFError
                pos[0] += 1
                return ls[pos[0] - 1]
            ended = None
            argv, sys.argv = sys.argv, ["persistentNAR.py"] + (["Print"] if life["print"] else [])
            with spawning(make), disk.mounted(), contextlib.redirect_stdout(outtext):
                try:
                    sys.modules["NAR"] = load_client()
                    exec(code, {"__name__": "__main__", "__file__": os.path.join(CLIENT, "persistentNAR.py"), "open": disk.open, "input": read, "__builtins__": __builtins__})
                except Crash:
                    ended = "killed"
                except EOFError:
                    ended = "eof" if pos[0] >= len(ls) and not procs[0].dead else "lost"
                except Stop:
                    ended = "stop"
                except Blocked as e:
                    vs.append(Violation("waits", str(e))); ended = "stop"
                except SimError:
                    raise
                except SystemExit:
                    ended = "exit"
                except Exception as e:
                    ended = "error"
                    full = isinstance(e, OSError) and e.errno == errno.ENOSPC
                    if not (full or procs and procs[0].dead):
                        if not pos[0]:
                            vs.append(Violation("no-restart", "life %d: the client does not start with what its previous life left behind: %r" % (n, e)))
                        else:
                            vs.append(Violation("error", "life %d: line %r ended the client: %r" % (n, ls[pos[0] - 1], e)))
                finally:
                    sys.argv = argv
                    sys.modules.pop("NAR", None)
                    disk.dead = True
            disk.dead = False
            info["lives"] += 1
            if vs:
                break
            all_, inp = collect()
            b = disk.files.get("mem.json")
            if b is None and must:
                vs.append(Violation("torn", "life %d, %s: mem.json is gone" % (n, ended))); break
            if b is not None:
                try:
                    m = json.loads(b)
                except ValueError:
                    vs.append(Violation("torn", "life %d, %s at disk operation %d: mem.json does not hold the remembered knowledge any more: %r" % (n, ended, disk.ops, b[-80:]))); break
                for t, c in must.items():
                    if t not in m or m[t][1] < c - 1e-9:
                        vs.append(Violation("lost", "life %d, %s: %s was stored with confidence %f, afterwards mem.json holds %r" % (n, ended, t, c, m.get(t)))); break
                v = self.genuine(m, ever)
                if v:
                    vs.append(v)
                info["remembered"] = len(m)
            # evidence of this life is new
            for t, f, c, s in inp:
                if len(s) == 1 and s[0] <= maxid and not any(s == e[2] for e in ever.get(t, [])[:-1]):
                    vs.append(Violation("evidence", "life %d: input %s got evidence %r, but remembered knowledge rests on evidence up to %d" % (n, t, s, maxid))); break
            if done:
                answered_lives += 1
            # re-entered knowledge keeps its evidence: only what the user entered has evidence of its own
            entered = {}
            for l in ls[:pos[0]]:
                m = re.match(r"(.*)\.(?: :\|:)?(?: \{.*\})?$", l)
                if m and not l.startswith("//"):
                    entered[m.group(1)] = entered.get(m.group(1), 0) + 1
            for t, s in sorted({(t, tuple(s)) for t, f, c, s in inp}):
                s = list(s)
                if t in mem and len(s) > 1 and s not in stamps.get(t, []) and not any(e[0] == t and e[3] == s for p, e in all_ if p != "Input: "):
                    vs.append(Violation("evidence", "life %d: remembered %s (evidence %r) was entered again with evidence %r" % (n, t, mem[t][3], s))); break
                if t in mem and len(s) == 1 and s not in stamps.get(t, []):
                    entered[t] = entered.get(t, 0) - 1
                    if entered[t] < 0:
                        vs.append(Violation("double", "life %d: remembered %s (evidence %r) was entered again as new evidence %r" % (n, t, mem[t][3], s))); break
            # what was remembered is recalled, unless the reasoner's memory is too full to hold it
            forgot = False       # what the reasoner knew was reset: something weaker may have been derived before the question
            for line, out, after in done if procs[0].concepts < 96 else []:
                forgot = forgot or line == "*reset"
                t = line[:-1]
                w = re.match(r"<\?1 --> (\w+)>\?$", line)
                if w:
                    ex = lambda e: e[1] * (e[0] - .5) + .5
                    best = max([min(ex(mem[k]), ex(after[k])) for k in mem if re.match(r"<\w+ --> %s>$" % w.group(1), k)] + [0])
                    a = [l for l in out.split("\n") if l.startswith("Answer: ")][-1:]
                    x = a and (re.match(r"Answer: (.*)\. \{(\S+) (\S+)\}$", a[0]) or re.match(r"Answer: (.*)\. creationTime=.* Truth: frequency=(\S+), confidence=(\S+)$", a[0]))
                    got = ex((float(x.group(2)), float(x.group(3)))) if x else 0
                    if best > .26 and got < best - 3e-6:
                        vs.append(Violation("recall", "life %d: asked %r, remembered is an answer of expectation %f: %r" % (n, line, best, a))); break
                    info["recalled"] += 1
                if line.endswith("?") and t in mem and t in known:
                    info["questions"] += 1
                    a = [l for l in out.split("\n") if l.startswith("Answer: ")]
                    a = a[-1] if a else None
                    c = None
                    if a:
                        x = re.match(r"Answer: (.*)\. \{(\S+) (\S+)\}$", a) or re.match(r"Answer: (.*)\. creationTime=.* Truth: frequency=(\S+), confidence=(\S+)$", a)
                        if x and x.group(1) == t:
                            c = float(x.group(3))
                    if c is None or c < mem[t][1] - 2e-6 and not forgot:
                        vs.append(Violation("recall", "life %d: asked %r, which was remembered as %r: %r" % (n, line, mem[t], a))); break
                    info["recalled"] += 1
            if vs:
                break
        return vs, dict(info, sig="%d" % case["io"], nontrivial=answered_lives >= 2)

    def genuine(self, m, ever):
        for t, e in m.items():
            if not any(abs(e[0] - f) < 1e-9 and abs(e[1] - c) < 1e-9 and e[3] == s for f, c, s in ever.get(t, [])):
                return Violation("invented", "mem.json holds %s with %r, printed were %r" % (t, e, ever.get(t, [])[:4]))
        return None

    def sample(self, case):
        return {"lives": case["lives"]}
