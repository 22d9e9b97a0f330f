"""The shell: its input stream, commands, operation results, determinism, reset, export and restore."""
import copy, json, re
from core import Prop, Violation
import gen
import narsese as N


def kv(params, *skip):
    return ["%s %s" % x for x in params.items() if x[0] not in ("variant",) + skip]


def lines(ops):
    return ["line " + l for l in ops]


def first_diff(a, b, la="first", lb="second"):
    A, B = a.split("\n"), b.split("\n")
    for i in range(max(len(A), len(B))):
        x, y = (A[i] if i < len(A) else "<nothing>"), (B[i] if i < len(B) else "<nothing>")
        if x != y:
            return "output line %d: %s %r, %s %r" % (i, la, x[:200], lb, y[:200])
    return "?"


def long_term(rng, total):
    """a valid statement of about the given number of characters, within 31 characters per atom and 64 term positions"""
    w = min(31, max(3, total // 34))
    a = ["n%02d" % k + "".join(rng.choice("abcdefgh") for _ in range(w - 3)) for k in range(34)]
    conj = "<%s --> %s>" % (a[0], a[1])
    for k in range(2, 10, 2):
        conj = "(%s && <%s --> %s>)" % (conj, a[k], a[k + 1])
        if len(conj) > total - 60:
            break
    return conj


class L01(Prop):
    id = "L01"
    variants = ("mid",)
    quick_cases = 450
    thorough_cases = 40000
    rule = ("a session is delivered line by line and again split at random places, with other line ends, without the final newline, and cut off by end of input or quit; "
            "non-trivial when it has at least five lines and was split inside lines")

    def gen(self, rng, i, tier):
        p = {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165]), "simseed": rng.randrange(1, 1 << 30)}
        ls = gen.session(rng, rng.choice([3, 8, 15, 30]))
        out = []
        for l in ls:
            out.append(l)
            k = rng.random()
            if k < .08:
                out.append("//" + "".join(rng.choice("abc <>-.:{}") for _ in range(rng.choice([0, 1, 10, 200, 1019, 1020, 1021, 1022, 1023, 1500, 2000]))).rstrip())
            elif k < .11:
                out.append(long_term(rng, rng.choice([300, 900, 1000, 1100])) + ".")
            elif k < .13:
                out.append("*reset")
            elif k < .14:
                out.append("*concepts")
        return {"params": p, "ops": out, "chunk": rng.choice([1, 2, 7, 40, 300, 5000]), "eol": rng.choice(["", " ", "\r", "\t ", "  \r"]),
                "quit": rng.random() < .3, "nofinal": rng.random() < .5}

    def execute(self, case, R):
        base = ["mode shell"] + kv(case["params"])
        ops = case["ops"]
        a = R.run("mid", base + ["end-digest 1"] + lines(ops))
        vs = []
        for k, t in a.recs:
            if k == "UNFLUSHED":
                vs.append(Violation("unflushed", "%s bytes of output not flushed while waiting for input" % t)); break
        b = a.bad_end()
        if b and b.startswith("EXIT"):
            n = sum(1 for k, t in a.recs if k == "IN")
        elif b:
            return [Violation("died", b)], {}
        else:
            n = len(ops)
            if a.first("SHELLRET") is None:
                vs.append(Violation("no-return", "the shell did not return at the end of its input"))
        # what every line must at least produce
        for ln, recs in a.segments()[1:n + 1]:
            o = [t for k, t in recs if k in (">", ">~")]
            if ln.startswith("//"):
                if o[:1] != ["Comment: " + ln[2:]] or len(o) != 1:
                    vs.append(Violation("comment", "comment %r answered with %r" % (ln[:100], o[:3]))); break
            elif ln.isdigit() and (not b):
                if not o or o[0] != "performing %d inference steps:" % int(ln) or o[-1] != "done with %d additional inference steps." % int(ln):
                    vs.append(Violation("steps", "%r answered with %r ... %r" % (ln, o[:1], o[-1:]))); break
            elif ln.endswith("?") and not b:
                if sum(1 for x in o if x.startswith("Answer: ")) != 1 or not o[0].startswith("Input: "):
                    vs.append(Violation("question", "%r answered with %r" % (ln, o[:4]))); break
            elif (ln.endswith(".") or ln.endswith("!") or ":|:" in ln) and not ln.startswith("*") and not b:
                if sum(1 for x in o if x.startswith("Input: ")) < 1:
                    vs.append(Violation("echo", "%r answered with %r" % (ln, o[:4]))); break
        # delivered in other pieces
        stream = "".join(l + case["eol"] + "\n" for l in ops)
        tail = ""
        if case["quit"]:
            stream += "quit" + case["eol"] + "\n//after the end\n<after --> end>.\n"
        elif case["nofinal"] and ops and ops[-1]:
            stream = stream[:-1]
        raws = [stream[k:k + 4000] for k in range(0, len(stream), 4000)]
        c = R.run("mid", base + ["flush-check 0", "chunk %d" % case["chunk"]] + ["raw " + x.encode("latin-1").hex() for x in raws] + ["end-digest 1"])
        at, ct = [re.sub(r"(?:^|\n)Statistics\n.*", "", t, flags=re.S).rstrip("\n") for t in (a.text(), c.text())]  # printed at the end of input, not after quit
        if at != ct:
            vs.append(Violation("delivery", "output depends on how the input arrives (chunks of up to %d, line end %r, %s): %s" % (
                case["chunk"], case["eol"], "quit" if case["quit"] else "end of input", first_diff(at, ct, "line by line", "in pieces"))))
        elif not b and a.first("DIGEST") != c.first("DIGEST"):
            vs.append(Violation("delivery", "same output, different memory, depending on how the input arrives"))
        if not b and c.first("SHELLRET") is None:
            vs.append(Violation("no-return", "the shell did not return (%s)" % (c.bad_end() or "quit" if case["quit"] else "end of input")))
        return vs, {"sig": a.hash(), "nontrivial": len(ops) >= 5, "lines": len(ops)}


RESULTS = [("#1", "{y}"), ("#1", "(a * b)"), ("(#1 * #2)", "(p * q)"), ("(#1 * #2)", "r"), ("#1", "<m --> n>"), ("{x}", "{x}"), ("{x}", "{z}"),
           ("(#1 * {x})", "(w * {x})"), ("(#1 * {x})", "(w * {y})"), ("?1", "s"), ("(#1 * #1)", "(u * u)"), ("(#1 * #1)", "(u * v)")]


WELLFORMED = {r for a, r in RESULTS}


def unify_model(argpart, result):
    """the operation's argument with its variables replaced by the result's parts, or None"""
    def parse(s):
        s = s.strip()
        if s.startswith("(") and s.endswith(")"):
            d = 0
            for i, ch in enumerate(s):
                d += ch in "(<{["
                d -= (ch == ")" or ch == "}" or ch == "]" or (ch == ">" and s[i - 1] not in "-="))
                if d == 1 and s[i:i + 3] == " * ":
                    return ("*", parse(s[1:i]), parse(s[i + 3:-1]))
        return s
    sub = {}

    def uni(x, y):
        if isinstance(x, str) and x[0] in "#?$":
            if x in sub:
                return sub[x] == y
            sub[x] = y
            return True
        if isinstance(x, tuple) and isinstance(y, tuple):
            return uni(x[1], y[1]) and uni(x[2], y[2])
        return x == y
    return result if uni(parse(argpart), parse(result)) else None


class L02(Prop):
    id = "L02"
    variants = ("mid",)
    quick_cases = 900
    thorough_cases = 60000
    rule = ("episodes of taught procedural knowledge, fulfilled preconditions and goals for operations with and without result input, with matching, non-matching and missing results; "
            "non-trivial when at least one result was requested")
    assumptions = ["the client sends the line 0 before the result, as the contract of the protocol demands"]

    def gen(self, rng, i, tier):
        p = {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}
        ops = [["*motorbabbling=false"]]
        names = gen.OPS[:4]
        for k in range(4):
            if rng.random() < .6:
                ops.append(["*setopstdin %d" % (k + 1)])
        for e in range(rng.choice([1, 2, 4, 6])):
            k = rng.randrange(4)
            a, r = rng.choice(RESULTS)
            if a == "?1":
                a = "#1"
            noarg = rng.random() < .12 and not any("*setopstdin %d" % (k + 1) == o[0] for o in ops)
            op = names[k] if noarg else "<({SELF} * %s) --> %s>" % (a, names[k])
            b = ["<(p%d &/ %s) =/> g%d>. {1.0 0.99}" % (e, op, e), "p%d. :|:" % e, "g%d! :|:" % e, "0", r]
            if rng.random() < .08:
                b[4] = ""
            elif rng.random() < .2:
                b = b[:3]  # the client forgets the result: the next lines take its place, or the stream ends
                if e < 5 and rng.random() < .5:
                    b.append("0")
            b += [str(rng.randrange(1, 4))] if rng.random() < .5 else []
            ops.append(b)
        return {"params": p, "ops": ops, "chunk": rng.choice([0, 0, 3, 50])}

    def execute(self, case, R):
        ls = [l for b in case["ops"] for l in b]
        h = R.run("mid", ["mode shell"] + kv(case["params"]) + lines(ls))
        vs, info = [], {"requests": 0, "executions": 0, "results": 0}
        stdin_ops = set()
        for l in ls:
            m = re.match(r"\*setopstdin (\d+)", l)
            if m:
                stdin_ops.add(gen.OPS[int(m.group(1)) - 1])
        recs = h.recs
        b = h.bad_end()
        pending = None
        i = 0
        while i < len(recs):
            k, t = recs[i]
            if k == "UNFLUSHED":
                vs.append(Violation("unflushed", "output was not flushed while the shell waited for the result of an operation")); break
            m = re.match(r"(\^\S+) executed with args ?(.*)$", t) if k == ">" else None
            if not m:
                if k == ">" and t.startswith("//Operation result product expected"):
                    vs.append(Violation("prompt", "a result was requested without an execution before"))
                i += 1
                continue
            info["executions"] += 1
            op, args = m.group(1), m.group(2).strip()
            nxt = recs[i + 1:i + 2]
            feedback_args = args
            i += 1
            if op in stdin_ops:
                if not nxt or nxt[0] != (">", "//Operation result product expected: "):
                    vs.append(Violation("prompt", "%s is configured to get its result from the input, but after its execution came %r" % (op, nxt))); break
                info["requests"] += 1
                i += 1
                ins = []
                while i < len(recs) and len(ins) < 2 and recs[i][0] in ("IN", "EOF"):
                    ins.append(recs[i])
                    i += 1
                if not ins or ins[0][0] == "EOF" or len(ins) < 2 or ins[1][0] == "EOF":
                    if not any(x[0] == "EOF" for x in ins):
                        if b:
                            break
                        vs.append(Violation("protocol", "after the request for a result %d lines were read, two expected, then %r" % (len(ins), recs[i:i + 1])))
                    # no result: no feedback
                    feedback_args = None
                else:
                    z, r = ins[0][1].partition(" ")[2], ins[1][1].partition(" ")[2]
                    if z != "0":
                        if not b:
                            vs.append(Violation("protocol", "the line %r was accepted in place of 0" % z))
                        break
                    if r not in WELLFORMED and r != "":
                        i += 1   # some other line took the place of the result: how its text reads as a term is not judged
                        continue
                    if args:
                        mm = re.match(r"\(\{SELF\} \* (.*)\)$", args)
                        u = unify_model(mm.group(1), r) if mm and r else None
                        feedback_args = None if u is None else "({SELF} * %s)" % u
                        info["results"] += u is not None
                    else:
                        feedback_args = None if r else None
            elif nxt and nxt[0][1].startswith("//Operation result product"):
                vs.append(Violation("prompt", "%s is not configured to get its result from the input, but it was requested" % op)); break
            got = None
            for q in range(i, min(i + 1, len(recs))):
                if recs[q][0] == ">" and recs[q][1].startswith("Input: "):
                    got = recs[q][1][7:].split(". :|:")[0]
            want = None if feedback_args is None else (op if not args else "<%s --> %s>" % (feedback_args, op))
            if got != want and not (b and i >= len(recs) - 6):
                vs.append(Violation("feedback", "%s executed with %r, result lines %r: fed back %r, expected %r" % (op, args, [x[1] for x in (ins if op in stdin_ops else [])], got, want))); break
        if b and not b.startswith("EXIT"):
            vs.append(Violation("died", b))
        return vs, dict(info, sig=h.hash(), nontrivial=info["requests"] > 0)


class R01(Prop):
    id = "R01"
    variants = ("mid", "tiny", "small")
    quick_cases = 350
    thorough_cases = 40000
    rule = ("a session with a seed of the random generator is run twice with different garbage in uninitialised memory, wall clock, simulated speed and delivery of input; "
            "non-trivial when at least ten cycles ran")

    def gen(self, rng, i, tier):
        p = {"prng": rng.randrange(1, 1 << 30)}
        ls = gen.session(rng, rng.choice([5, 15, 30, 60]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(["*reset", "*stats", "*concepts", "*opconfig", "*cycling_belief_events", "*cycling_goal_events", "*inverted_atom_index"]))
        return {"params": p, "variant": rng.choice(["mid", "tiny", "small"]), "ops": ls, "chunk": rng.choice([1, 5, 100]), "simseed": rng.randrange(1000),
                "w": [rng.randrange(1 << 31), rng.randrange(1 << 31)], "poison": rng.choice([0, 255, 65])}

    def execute(self, case, R):
        v = case["variant"]
        ops = lines(case["ops"]) + ["digest"]
        a = R.run(v, ["mode shell", "poison 165", "wallclock %d" % case["w"][0]] + kv(case["params"]) + ["poisonstack"] + ops)
        c = R.run(v, ["mode shell", "poison %d" % case["poison"], "wallclock %d" % case["w"][1], "cycle-cost 777777", "chunk %d" % case["chunk"], "simseed %d" % case["simseed"]] + kv(case["params"]) + ["poisonstack"] + ops)
        vs = []
        for h in (a, c):
            if h.bad_end() and not h.bad_end().startswith("EXIT"):
                vs.append(Violation("died", h.bad_end()))
        if vs:
            return vs, {}
        if a.text() != c.text():
            vs.append(Violation("output", "same seed, same input, different output: " + first_diff(a.text(), c.text())))
        elif a.first("DIGEST") != c.first("DIGEST"):
            vs.append(Violation("memory", "same seed, same input, different memory"))
        return vs, {"sig": a.hash(), "nontrivial": a.stats().get("cycles", 0) >= 10}


PERSISTENT = ("*decisionthreshold=", "*motorbabbling=", "*babblingops=", "*anticipationconfidence=", "*similaritydistance=", "*volume=", "*questionpriming=")


class R02(Prop):
    id = "R02"
    variants = ("mid", "tiny", "small")
    quick_cases = 450
    thorough_cases = 40000
    shrink_lists = ("ops", "ops2")
    rule = ("session A, *reset, session B against session B on a fresh instance with the same tunables and the same random seed at B; "
            "non-trivial when A left concepts behind")

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng)
        a = gen.session(rng, rng.choice([3, 10, 30, 60]), lang)
        def extra(ls, first):
            for _ in range(rng.choice([0, 1, 2, 4])):
                l = rng.choice(["*setopstdin %d" % rng.randint(1, 10), "*setoparg %d 1 {q}" % rng.randint(1, 10), "*stampid=%d" % rng.randint(1, 900), "*currenttime=%d" % rng.randint(1, 5000) if first else "",
                                "*setvalue 0.5 10 v", "*setvalue 0.%d 100 %s" % (rng.randrange(10), rng.choice(lang.atoms)), "*volume=%d" % rng.choice([0, 30, 100]), "*restrictedconceptcreation=true",
                                "*stats", "*similaritydistance=%s" % rng.choice(["0.5", "2.0"]), "*decisionthreshold=0.6", "*motorbabbling=0.4", "*questionpriming=0.7", "*anticipationconfidence=0.05", "*babblingops=2",
                                "*stampimport=[%d,%d]" % (rng.randint(1, 50), rng.randint(51, 99)), "<zz --> {zq}>. :|: {0.3 0.8}"])
                if l.startswith("*currenttime") or l.startswith("*setopstdin"):
                    ls.append(l)   # at the end: times must not run backwards for memory, and results would have to be supplied
                elif l:
                    ls.insert(rng.randrange(len(ls) + 1), l)
            if first and rng.random() < .25:
                ls.insert(0, "*setopname %d ^custom%d" % (rng.randint(1, 10), rng.randrange(3)))
        extra(a, True)
        b = gen.session(rng, rng.choice([3, 10, 30]), lang if rng.random() < .7 else None)
        extra(b, False)
        b = [l for l in b if not l.startswith("*setopstdin")]
        if rng.random() < .5:
            b = ["*opconfig"] + b
        return {"params": {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}, "variant": rng.choice(["mid", "tiny", "small"]), "ops": a, "ops2": b, "seed2": rng.randrange(1, 1 << 30),
                "resets": rng.choice([1, 1, 1, 2])}

    def execute(self, case, R):
        v = case["variant"]
        head = ["mode shell"] + kv(case["params"])
        tail = ["srand %d" % case["seed2"], "digest", "note B"] + lines(case["ops2"]) + ["*stats"] * 0 + ["line *stats", "line *opconfig", "digest"]
        a = R.run(v, head + lines(case["ops"]) + ["line *reset"] * case["resets"] + tail)
        if a.bad_end() and not any(k == "NOTE" for k, t in a.recs):
            return ([] if a.bad_end().startswith("EXIT") else [Violation("died", a.bad_end())]), {"nontrivial": False}
        keep = [l for l in case["ops"] if l.startswith(PERSISTENT)]
        c = R.run(v, head + lines(keep) + tail)
        def after(h):
            i = next((i for i, (k, t) in enumerate(h.recs) if k == "NOTE"), len(h.recs))
            return "".join(t + "\n" for k, t in h.recs[i:] if k in (">", ">~")), [t for k, t in h.recs if k == "DIGEST"]
        at, ad = after(a)
        ct, cd = after(c)
        # chain lengths of the hash tables are performance figures
        strip = lambda s: re.sub(r"Maximum chain length in atoms hashtable: \d+", "", s)
        vs = []
        if ad[:1] != cd[:1]:
            vs.append(Violation("state", "memory after *reset differs from that of a fresh instance"))
        if a.bad_end() and a.bad_end().startswith("EXIT") and c.bad_end() == a.bad_end():
            pass
        elif a.bad_end() or c.bad_end():
            vs.append(Violation("died", "after reset: %s, fresh: %s" % (a.bad_end(), c.bad_end())))
        if strip(at) != strip(ct):
            vs.append(Violation("output", "session after *reset differs from the same session on a fresh instance: " + first_diff(strip(ct), strip(at), "fresh", "after reset")))
        elif ad != cd and not vs:
            vs.append(Violation("memory", "memory after reset and a session differs from the same session on a fresh instance"))
        return vs, {"sig": a.hash(), "nontrivial": a.stats().get("cycles", 0) > 3}

    def sample(self, case):
        return {"params": case["params"], "before_reset": case["ops"][:10], "after_reset": case["ops2"][:10]}


def export_of(h):
    """(operator lines, knowledge lines) printed by the last *opconfig and *concepts of a history"""
    oc = kn = None
    for ln, recs in h.segments():
        o = [t for k, t in recs if k == ">"]
        if ln == "*opconfig":
            oc = [t for t in o if not t.startswith("//")]
        elif ln == "*concepts":
            kn = [t for t in o if not t.startswith("//") and t]
    return oc, kn


def skeleton(t):
    vs = re.findall(r"[$#?][A-Za-z0-9]+", t)
    m, n = {}, {}
    for v in vs:
        if v not in m:
            n[v[0]] = n.get(v[0], 0) + 1
            m[v] = "%s<%d>" % (v[0], n[v[0]])
    return re.sub(r"[$#?][A-Za-z0-9]+", lambda x: m[x.group(0)], t)


def split_export(l):
    m = re.match(r"(?:dt=(-?[0-9.]+) )?(.*)\. \{([0-9.]+) ([0-9.]+)\}$", l)
    return (m.group(2), float(m.group(1) or 0), float(m.group(3)), float(m.group(4))) if m else None


class R03(Prop):
    id = "R03"
    variants = ("mid",)
    quick_cases = 300
    thorough_cases = 30000
    rule = ("a session, a dump with *opconfig and *concepts, a crash, and the dump sent to a new instance started with other random numbers; "
            "non-trivial when at least three beliefs or implications were dumped")
    assumptions = ["beliefs whose confidence does not exceed the minimum of 0.01 are too weak to be entered again"]

    def gen(self, rng, i, tier):
        isolated = rng.random() < .55
        ls, k = [], [0]
        if isolated:
            def a():
                k[0] += 1
                return "w%d" % k[0]
            nops = rng.randint(1, 5)
            for n in range(rng.choice([1, 5, 20, 60])):
                c = rng.randrange(5)
                tv = " {%.3f %.3f}" % (rng.random(), .02 + .96 * rng.random()) if rng.random() < .8 else ""
                if c == 0:
                    l = "<%s --> %s>" % (a(), a())
                elif c == 1:
                    l = a()
                elif c == 2:
                    l = "dt=%d.%06d <%s =/> %s>" % (rng.randrange(30), rng.randrange(1000000), a(), a())
                elif c == 3:
                    l = "<(%s &/ %s) =/> %s>" % (a(), rng.choice(gen.OPS[:nops]), a())
                else:
                    l = "dt=%d.5 <(%s &/ <({SELF} * %s) --> %s>) =/> %s>" % (rng.randrange(9), a(), a(), rng.choice(gen.OPS[:nops]), a())
                ls.append(l + "." + tv)
                if rng.random() < .1:
                    ls.append(l + "." + " {%.2f 0.6}" % rng.random())
        else:
            ls = gen.session(rng, rng.choice([5, 15, 30, 60]))
        if rng.random() < .5:
            head = []
            if rng.random() < .4:
                head.append("*setopname %d ^op%d" % (rng.randint(1, 10), rng.randint(1, 3)))
            for _ in range(rng.randrange(4)):
                head.append("*setoparg %d %d %s" % (rng.randint(1, 10), rng.randint(1, 10), rng.choice(["{x}", "(a * b)", "q", "(x /1 y)"])))
            head.append("*motorbabbling=%s" % rng.choice(["0.123456", "false", "true", "0.9"]))
            head.append("*babblingops=%d" % rng.randint(1, 10))
            ls = head + ls
        return {"params": {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}, "isolated": isolated, "ops": ls, "prng2": rng.randrange(1, 1 << 30)}

    def execute(self, case, R):
        A = R.run("mid", ["mode shell"] + kv(case["params"]) + lines(case["ops"]) + ["line *opconfig", "line *concepts", "state"])
        if A.bad_end():
            return ([] if A.bad_end().startswith("EXIT") else [Violation("died", A.bad_end())]), {"nontrivial": False}
        oc, kn = export_of(A)
        S1 = A.states()[-1]
        vs = []
        parsed = [split_export(l) for l in kn]
        bad = [l for l, p in zip(kn, parsed) if p is None]
        if bad:
            vs.append(Violation("format", "dumped line cannot be entered: %r" % bad[0]))
            return vs, {}
        # the dump is complete
        want = {}
        for c in S1["concepts"]:
            if c["b"]:
                want[("b", c["term"])] = (c["b"]["f"], c["b"]["c"], 0.0)
            for o, imps in c["imps"]:
                for im in imps:
                    want[("i", im["term"])] = (im["f"], im["c"], im["dt"])
        got = {}
        for t, dt, f, c in parsed:
            got[("i" if re.search(r" =/> ", t) and ("i", t) in want else "b", t)] = (f, c, dt)
        close = lambda x, y: all(abs(p - q) <= 1e-6 for p, q in zip(x, y))
        for k in want:
            if k not in got or not close(want[k], got[k]):
                vs.append(Violation("incomplete", "known: %s %s, dumped: %s" % (k[1], want[k], got.get(k)))); break
        for k in got:
            if k not in want:
                vs.append(Violation("invented", "dumped but not known: %s %s" % (k[1], got[k]))); break
        C = R.run("mid", ["mode shell", "prng %d" % case["prng2"]] + lines(oc + kn) + ["line *opconfig", "line *concepts", "state"])
        if C.bad_end():
            vs.append(Violation("refused", "a fresh instance fed with the dump ended: %s %s" % (C.bad_end(), C.abort_reason())))
            return vs, {}
        S2 = C.states()[-1]
        if S2["n"] > 700:
            return vs, {"nontrivial": False}
        for k in ("babble",):
            if abs(S1["cfg"][k] - S2["cfg"][k]) > 1e-6:
                vs.append(Violation("settings", "babbling chance %s restored as %s" % (S1["cfg"][k], S2["cfg"][k])))
        if S1["cfg"]["bops"] != S2["cfg"]["bops"]:
            vs.append(Violation("settings", "babbling operations %s restored as %s" % (S1["cfg"]["bops"], S2["cfg"]["bops"])))
        ops2 = {o["id"]: o for o in S2["ops"]}
        for o in S1["ops"]:
            p = ops2.get(o["id"])
            if p is None or (o["term"] and p["term"] != o["term"]) or any(x not in p["args"] for x in o["args"]):
                vs.append(Violation("operators", "operator %s restored as %s" % (o, p))); break
        # every entered line is taken for what it says
        segs = C.segments()
        for ln, recs in segs:
            p = split_export(ln) if ln and not ln.startswith("*") else None
            if p and p[3] > .0101:
                e = [t for k, t in recs if k == ">" and t.startswith("Input: ")]
                m = re.match(r"Input: (?:dt=(-?[0-9.]+) )?(.*)\. Priority=\S+ Stamp=\[\d+\] Truth: frequency=(\S+), confidence=(\S+)$", e[0]) if e else None
                if not m or skeleton(m.group(2)) != skeleton(p[0]) or abs(float(m.group(3)) - p[2]) > 1e-6 or abs(float(m.group(4)) - p[3]) > 1e-6 or abs(float(m.group(1) or 0) - p[1]) > 1e-6:
                    vs.append(Violation("roundtrip", "dumped %r was taken for %r" % (ln, e[:1]))); break
        have = {}
        for c in S2["concepts"]:
            if c["b"]:
                have[("b", skeleton(c["term"]))] = (c["b"]["f"], c["b"]["c"], 0.0)
            for o, imps in c["imps"]:
                for im in imps:
                    have[("i", skeleton(im["term"]))] = (im["f"], im["c"], im["dt"])
        for k in want:
            f, c, dt = want[k]
            if c <= .0101:
                continue
            x = have.get((k[0], skeleton(k[1])))
            if k[0] == "i" and not case["isolated"]:
                continue  # tables are bounded, what is derived while restoring may displace
            if x is None or (not case["isolated"] and x[1] < c - 2e-6) or (case["isolated"] and not all(abs(p - q) <= 2e-6 for p, q in zip((f, c, dt), x))):
                vs.append(Violation("restored", "%s %s was restored as %s" % (k[1], (f, c, dt), x))); break
        return vs, {"sig": A.hash(), "nontrivial": len(kn) >= 3, "dumped": len(kn), "isolated": int(case["isolated"])}


class R04(Prop):
    id = "R04"
    variants = ("mid",)
    quick_cases = 600
    thorough_cases = 40000
    rule = ("sequences of *stampid, *stampimport, *reset and inputs, repeated with the same and with other evidence; non-trivial when at least one stamp was imported")

    def gen(self, rng, i, tier):
        ops = []
        terms = ["<s%d --> t%d>" % (k, k) for k in range(rng.randint(1, 4))] + ["u%d" % k for k in range(2)]
        known = {}
        for _ in range(rng.choice([3, 8, 20, 40])):
            k = rng.random()
            if k < .3:
                n = rng.choice([1, 2, 3, 5, 9, 10, 11, 14])
                ops.append("*stampimport=[%s]" % rng.choice([",", ", "]).join(str(x) for x in rng.sample(range(1, 60), n)))
            elif k < .38:
                ops.append("*stampid=%d" % rng.randint(1, 5000))
            elif k < .42:
                ops.append("*reset")
            elif k < .5:
                ops.append(rng.choice(["3", "*stats", "", "//c", "<s0 --> t0>?", "*volume=100", "*opconfig"]))
            else:
                t = rng.choice(terms)
                ops.append("%s.%s%s" % (t, rng.choice(["", "", " :|:"]), rng.choice(["", " {0.8 0.7}", " {0.0 0.9}", " {1.0 0.3}", " {0.8 0.7}"])))
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "ops": ops}

    def execute(self, case, R):
        h = R.run("mid", ["mode shell"] + kv(case["params"]) + [x for l in case["ops"] for x in ("line " + l, "state")])
        vs, imported = [], 0
        if h.bad_end():
            return [Violation("died", "%s %s" % (h.bad_end(), h.abort_reason()))], {}
        base, pend, bel = 1, None, {}
        for ln, recs in h.segments()[1:]:
            if ln is None:
                break
            st = [json.loads(t) for k, t in recs if k == "S"]
            st = st[0] if st else None
            if ln == "*reset":
                base, pend, bel = 1, None, {}
            elif ln.startswith("*stampid="):
                base = int(ln[9:])
            elif ln.startswith("*stampimport=["):
                pend = [int(x) for x in ln[14:-1].split(",")][:10]
                imported += 1
            elif re.match(r"[<u].*\.( :\|:)?( \{.*)?$", ln):
                want = pend or [base]
                if not pend:
                    base += 1
                pend = None
                e = [t for k, t in recs if k == ">" and t.startswith("Input: ")]
                m = re.search(r"Stamp=\[([0-9,]*)\]", e[0]) if e else None
                if not m or [int(x) for x in m.group(1).split(",")] != want:
                    vs.append(Violation("stamp", "%r entered with evidence %s, expected %s" % (ln, m and m.group(1), want))); break
                term = re.match(r"(.*?)\.( :\|:)?( \{.*)?$", ln).group(1)
                tv = re.search(r"\{(\S+) (\S+)\}", ln)
                f, c = (float(tv.group(1)), float(tv.group(2))) if tv else (1.0, .9)
                if ":|:" in ln:
                    c = c / (c + 1)
                old = bel.get(term)
                now = next((x["b"] for x in (st["concepts"] if st else []) if x["term"] == term), None)
                if now is None:
                    vs.append(Violation("lost", "%r left no belief" % ln)); break
                if old is None:
                    exp = (f, c)
                elif set(old["st"]) & set(want):
                    exp = (f, c) if c > old["c"] else (old["f"], old["c"])
                    est = want if c > old["c"] else old["st"]
                    if set(now["st"]) != set(est):
                        vs.append(Violation("double-count", "%r shares evidence with the belief %s, which became %s" % (ln, old, now))); break
                else:
                    w1, w2 = old["c"] / (1 - old["c"]), c / (1 - c)
                    w = w1 + w2
                    exp = (min(1, (w1 * old["f"] + w2 * f) / w), min(.99, max(w / (w + 1), old["c"], c)))
                    un = set(old["st"]) | set(want)
                    if not set(now["st"]) <= un or len(now["st"]) != min(10, len(un)):
                        vs.append(Violation("evidence", "%r with evidence %s revised %s to evidence %s" % (ln, want, old["st"], now["st"]))); break
                if abs(now["f"] - exp[0]) > 1e-9 or abs(now["c"] - exp[1]) > 1e-9:
                    vs.append(Violation("double-count" if old and set(old["st"]) & set(want) else "truth", "%r with evidence %s changed the belief (%s, %s, %s) to (%s, %s), expected %s" % (
                        ln, want, old and old["f"], old and old["c"], old and old["st"], now["f"], now["c"], exp))); break
            if st:
                if st["base"] != base:
                    vs.append(Violation("base", "after %r the next evidence id is %d, expected %d" % (ln, st["base"], base))); break
                bel = {x["term"]: x["b"] for x in st["concepts"] if x["b"]}
        return vs, {"sig": h.hash(), "nontrivial": imported > 0, "imported": imported}


class C01(Prop):
    id = "C01"
    variants = ("mid", "asan")
    quick_cases = 500
    thorough_cases = 40000
    rule = ("commands with valid and invalid values in random order, before, between and after inputs; non-trivial when at least three commands were checked")

    def gen(self, rng, i, tier):
        lang = gen.Lang(rng)
        ls = []
        if rng.random() < .5:
            ls += ["*setopname %d ^c%d" % (rng.randint(1, 10), rng.randint(1, 4)) if rng.random() < .7 else "*setopname %d %s" % (rng.randint(1, 10), rng.choice(gen.OPS)) for _ in range(rng.randint(1, 5))]
            for _ in range(rng.choice([0, 1, 3, 6])):    # arguments and result settings of operators named before and after
                ls.insert(rng.randint(0, len(ls)), rng.choice([
                    lambda: "*setoparg %d %d %s" % (rng.randint(1, 10), rng.randint(1, 10), rng.choice(["{x}", "q7", "(a1 * {x1})", "<a --> b>"])),
                    lambda: "*setopstdin %d" % rng.randint(1, 10)])())
        w = dict(lang.weights(), concurrent=0)
        if sum(w.values()) <= 0:
            w = dict(belief=1)
        for _ in range(rng.choice([4, 10, 25])):
            if rng.random() < .3:
                ls.append(lang.line(w))
                continue
            x = lambda: rng.choice(["0.5", "0.123", "1.0", "0.0", "0.99", "2.5", "1e-3"])
            ls.append(rng.choice([
                lambda: "*volume=%d" % rng.choice([0, 1, 17, 50, 99, 100]), lambda: "*restrictedconceptcreation=%s" % rng.choice(["true", "false"]),
                lambda: "*anticipationconfidence=" + x(), lambda: "*decisionthreshold=" + x(), lambda: "*similaritydistance=" + x(), lambda: "*questionpriming=" + x(),
                lambda: "*motorbabbling=%s" % rng.choice(["true", "false", x()]), lambda: "*babblingops=%d" % rng.randint(1, 10), lambda: "*currenttime=+%d" % rng.randint(0, 300),
                lambda: "*stampid=+%d" % rng.randint(0, 500), lambda: "*setoparg %d %d %s" % (rng.randint(1, 10), rng.randint(1, 10), rng.choice(["{x}", "q7", "(a1 * {x1})", "<a --> b>"])),
                lambda: "*setopstdin %d" % rng.randint(1, 10), lambda: "*stats", lambda: "*concepts", lambda: "*opconfig", lambda: "*cycling_belief_events", lambda: "*cycling_goal_events",
                lambda: "*inverted_atom_index", lambda: "*setvalue 0.%03d %d %s" % (rng.randrange(1000), rng.choice([1, 10, 100, 1000]), rng.choice(["v", "temp", ""])), lambda: "*space %d sp" % rng.choice([1, 3, 7, 10, 11, 60, 100, 101, 130]),
                lambda: "//*volume=3", lambda: "*motorbabbling=false"])())
        if rng.random() < .12:        # goals on every layer
            k = rng.randint(0, len(ls))
            n = rng.choice([3, 10, 29, 33])
            ls[k:k] = ["*motorbabbling=false"] + ["<dd%d =/> dd%d>. {1.0 0.99}" % (j + 1, j) for j in range(n)] + ["dd%d! :|: {1.0 0.99}" % rng.choice([0, 0, 1]), "*cycling_goal_events", "*stats"]
        k = next((k for k, l in enumerate(ls) if l.startswith("*setopstdin")), len(ls))   # after it no inputs:
        ls = ls[:k] + [l for l in ls[k:] if l[:1] in ("*", "/")]   # its results would be read from the session
        if rng.random() < .25:
            ls.append(rng.choice(["*setoparg 0 1 {x}", "*setoparg 11 1 {x}", "*setoparg 1 0 {x}", "*setoparg 1 11 {x}", "*setoparg 3 -1 {x}", "*setopname 0 ^zz", "*setopname 11 ^zz", "*setopname -1 ^zz",
                                  "*setopstdin 0", "*setopstdin 11", "*setopstdin -3", "*setopstdin", "*setvalue 0.5 0 v", "*setvalue 0.5 1001 v", "*setvalue 0.5 -1 v", "*setvalue 0.5 10 %s" % ("n" * rng.choice([28, 28, 29, 40, 80])),
                                  "*setvalue %s 10 v" % ("9" * rng.randint(28, 40)), "*query 1.5 <a --> b>?", "*query -0.5 <a --> b>?", "*space 1001 v", "*stampimport=[%s]" % ",".join(["123456"] * 300), "*stampimport=[1,2"]))
        return {"params": {"prng": rng.randrange(1, 1 << 30), "poison": rng.choice([0, 165])}, "variant": rng.choice(["mid", "mid", "asan"]), "ops": ls}

    BAD = re.compile(r"\*setoparg (0|11|1 0|1 11|3 -1)|\*setopname (0|11|-1) |\*setopstdin( 0| 11| -3)?$|\*setvalue 0.5 (0|1001|-1) |\*setvalue 0.5 10 n|\*setvalue 99|\*query|\*space 1001|\*stampimport")

    def execute(self, case, R):
        # times and evidence ids only ever go forward
        ops, off = [], 0
        plan = ["mode shell"] + kv(case["params"]) + ["state"]
        t = b = 0
        for l in case["ops"]:
            if l.startswith("*currenttime=+"):
                t += int(l[14:]) + 1000
                l = "*currenttime=%d" % t
            elif l.startswith("*stampid=+"):
                b += int(l[10:]) + 3000
                l = "*stampid=%d" % b
            plan += ["line " + l, "state"]
        h = R.run(case["variant"], plan)
        vs, n = [], 0
        for k, x in h.kinds("UB"):
            vs.append(Violation("ub", x))
        segs = h.segments()
        def st_of(recs):
            x = [json.loads(t) for k, t in recs if k == "S"]
            return x[0] if x else None
        prev = st_of(segs[0][1])
        if prev is None:
            return [Violation("died", h.bad_end())], {}
        for ln, recs in segs[1:]:
            if ln is None:
                break
            st = st_of(recs)
            if ln[:1] not in ("*", "/"):
                if st is None:
                    break
                prev = st
                continue
            bad = self.BAD.match(ln) or (ln.startswith("*setopname") and prev["n"] > 0)
            if bad:
                be = h.bad_end() or ""
                if st is not None and st != prev:
                    vs.append(Violation("invalid", "%r is invalid, but was accepted and changed %s" % (ln[:80], diff_state(prev, st))))
                elif st is None and not be.startswith("EXIT"):
                    vs.append(Violation("invalid", "%r ended the process without a diagnostic: %s" % (ln[:80], be)))
                elif st is not None:
                    vs.append(Violation("invalid", "%r is invalid, but was accepted" % ln[:80]))
                break
            if st is None:
                vs.append(Violation("refused", "%r ended the process: %s %s" % (ln, h.bad_end(), h.abort_reason()))); break
            n += 1
            exp = copy.deepcopy(prev)
            c = exp["cfg"]
            name, _, val = ln.partition("=")
            num = {"*anticipationconfidence": "ac", "*decisionthreshold": "dthr", "*similaritydistance": "sim", "*questionpriming": "qp"}
            if name in num:
                c[num[name]] = float(val)
            elif name == "*volume":
                c["vol"] = 1.0 - int(val) / 100.0
            elif name == "*restrictedconceptcreation":
                c["rcc"] = int(val == "true")
            elif name == "*motorbabbling":
                c["babble"] = {"true": .2, "false": 0.0}.get(val) if val in ("true", "false") else float(val)
            elif name == "*babblingops":
                c["bops"] = int(val)
            elif name == "*currenttime":
                exp["t"] = int(val)
            elif name == "*stampid":
                exp["base"] = int(val)
            m = re.match(r"\*setoparg (\d+) (\d+) (.*)$", ln)
            if m:
                o = op_of(exp, int(m.group(1)))
                o["args"] = sorted([x for x in o["args"] if x[0] != int(m.group(2))] + [[int(m.group(2)), m.group(3)]])
            m = re.match(r"\*setopstdin (\d+)$", ln)
            if m:
                op_of(exp, int(m.group(1)))["stdin"] = 1
            m = re.match(r"\*setopname (\d+) (\S+)$", ln)
            if m:
                for o in list(exp["ops"]):
                    if o["term"] == m.group(2):
                        for p in exp["ops"]:
                            if p["id"] >= o["id"]:
                                p["term"] = ""
                        break
                op_of(exp, int(m.group(1)))["term"] = m.group(2)
            m = re.match(r"\*(?:setvalue (\S+)|space) (\d+)(?: (\S*))?$", ln)
            if m:
                g = int(m.group(2))
                for v in [float(m.group(1))] if m.group(1) else [float("%f" % (k / g)) for k in range(g)]:
                    exp["vals"]["%s%s%.*f" % (m.group(3) or "", "_" if m.group(3) else "", 1 if g <= 10 else 2 if g <= 100 else 3, v)] = v
            norm = lambda s: dict(s, ops=[o for o in s["ops"] if o["term"] or o["args"] or o["stdin"]])
            if norm(st) != norm(exp):
                vs.append(Violation("effect", "%r: expected %s" % (ln, diff_state(norm(exp), norm(st))))); break
            out = [t for k, t in recs if k == ">"]
            if ln.startswith("*") and "=" in ln and out:
                vs.append(Violation("output", "%r printed %r" % (ln, out[:2]))); break
            bad = listing(ln, out, st)
            if bad:
                vs.append(Violation("listing", bad)); break
            prev = st
        be = h.bad_end()
        if be and not be.startswith("EXIT"):
            vs.append(Violation("died", be))
        return vs, {"sig": h.hash(), "nontrivial": n >= 3, "commands": n}


def listing(ln, out, st):
    """does a listing command show exactly what memory holds?"""
    if ln in ("*cycling_belief_events", "*cycling_goal_events"):
        qs = [st["bev"]] if "belief" in ln else [q for _, q in st["gev"]]
        want = sorted("%s: {%s\"priority\": %f, \"time\": %d } Truth: frequency=%f, confidence=%f" % (
            x["e"]["term"], " " if "belief" in ln else "", x["p"], x["e"]["ot"], x["e"]["f"], x["e"]["c"]) for q in qs for x in q)
        want = [re.sub(r"\s", "", w) for w in want]
        got = [re.sub(r"\s", "", x) for x in out if x.strip() and not x.startswith("//")]
    elif ln == "*inverted_atom_index":
        pairs = lambda cs: ["%s->%s" % (a, c["term"].replace(" ", "")) for c in cs for a in N.atoms(N.parse(c["term"])) if re.match(r"[A-Za-z0-9^]", a)]
        deep = pairs([c for c in st["concepts"] if not N.fits(N.parse(c["term"]), 31)])     # only so many places of a term are indexed
        want = pairs([c for c in st["concepts"] if N.fits(N.parse(c["term"]), 31)])
        got = [x.replace(" ", "") for x in out if " -> " in x and not x.startswith("<=> ")]   # equivalences may be listed under their copula too
        got = [x for x in got if x not in deep]
    elif ln == "*stats":
        f = {m.group(1): m.group(2) for m in (re.match(r"(.*?):\s*(\S+)$", x) for x in out) if m}
        want, got = [], []
        for name, w in (("currentTime", st["t"]), ("total concepts", st["n"]), ("current belief events cnt", len(st["bev"])), ("current goal events cnt", sum(len(q) for _, q in st["gev"]))):
            want.append("%s = %d" % (name, w))
            got.append("%s = %s" % (name, f.get(name, "nothing")))
    else:
        return None
    if sorted(want) != sorted(got):
        a, b = list(want), list(got)
        for x in want:
            if x in b:
                b.remove(x); a.remove(x)
        return "%r leaves out %r and shows %r instead of what memory holds" % (ln, a[:3], b[:3])
    return None


def op_of(s, k):
    for o in s["ops"]:
        if o["id"] == k:
            return o
    o = {"id": k, "term": "", "stdin": 0, "args": []}
    s["ops"].append(o)
    s["ops"].sort(key=lambda x: x["id"])
    return o


def diff_state(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            x, y = json.dumps(a[k]), json.dumps(b.get(k))
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            out.append("%s: ...%s, got ...%s" % (k, x[max(0, i - 60):i + 80], y[max(0, i - 60):i + 80]))
    return "; ".join(out)[:700]


class L03(Prop):
    id = "L03"
    variants = ("mid", "small")
    quick_cases = 350
    thorough_cases = 40000
    rule = ("a session run at full volume and at another volume; non-trivial when the two outputs differ in at least one line")

    def gen(self, rng, i, tier):
        ls = [l for l in gen.session(rng, rng.choice([5, 15, 30, 60])) if not l.startswith("*volume")]
        for _ in range(rng.choice([0, 1, 2])):
            ls.insert(rng.randrange(len(ls) + 1), rng.choice(["*stats", "*concepts", "*cycling_belief_events", "*reset"]))
        return {"params": {"prng": rng.randrange(1, 1 << 30)}, "variant": rng.choice(["mid", "small"]), "ops": ls, "vol": rng.choice([0, 0, 5, 20, 50, 70, 90, 99, 100, 120, -1, -30])}

    def execute(self, case, R):
        head = ["mode shell"] + kv(case["params"])
        body = lines(case["ops"]) + ["state"]
        a = R.run(case["variant"], head + ["line *volume=100"] + body)
        b = R.run(case["variant"], head + ["line *volume=%d" % case["vol"]] + body)
        for h in (a, b):
            if h.bad_end() and not h.bad_end().startswith("EXIT"):
                return [Violation("died", h.bad_end())], {}
        thr = 1.0 - case["vol"] / 100.0
        # priorities are printed with six digits: lines on the edge may go either way
        keep, edge = [], 0
        A, Bo = a.out(), b.out()
        vs = []
        i = j = 0
        dropped = 0
        while i < len(A) or j < len(Bo):
            x = A[i] if i < len(A) else None
            m = re.match(r"(Selected|Derived|Revised): .* Priority=(\S+) Stamp=\[[0-9,]*\] Truth: frequency=", x) if x else None
            p = float(m.group(2)) if m else None
            # the revision of knowledge just entered may be shown with the input
            own = m and m.group(1) == "Revised" and p == 1.0 and i and A[i - 1].startswith(("Input: ", "Revised: "))
            if p is not None and not own and (p < thr - 1e-6 or p <= 1.0 <= thr):
                i += 1; dropped += 1
                continue
            if p is not None and (own or abs(p - thr) <= 1e-6):
                if j < len(Bo) and Bo[j] == x:
                    j += 1
                i += 1
                continue
            y = Bo[j] if j < len(Bo) else None
            if x != y:
                vs.append(Violation("filter", "volume %d: expected line %r, got %r" % (case["vol"], x and x[:300], y and y[:300]))); break
            i += 1; j += 1
        if not vs and not a.bad_end():
            s, t = a.states()[-1], b.states()[-1]
            s["cfg"]["vol"] = t["cfg"]["vol"] = 0
            if s != t:
                vs.append(Violation("memory", "the volume changed the memory: " + diff_state(s, t)))
        return vs, {"sig": a.hash(), "nontrivial": dropped > 0, "dropped": dropped}
